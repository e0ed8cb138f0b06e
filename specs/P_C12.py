"""C12: connected components.  Ghost state RT: the representative of every vertex in the parent forest P (= comp).
wf(P, RT): P[x] <= x is a vertex with the same representative, and the representatives are exactly the fixed points of P.
K is an arbitrary labelling constant on the edges: two vertices are connected iff every such K agrees on them, so
'K(label of x) = K(x)' for every K says that equal labels imply connected."""
from speclib import *
from values import *

x, e = z3.Ints('x e')


def wf(P, RT, n, pat=None):
    V = lambda q: And(0 <= q, q < n)
    return FA([x], Imp(V(x), And(0 <= P[x], P[x] <= x, RT(P[x]) == RT(x), 0 <= RT(x), RT(x) <= x, RT(RT(x)) == RT(x), (P[x] == x) == (RT(x) == x))), [P[x]]), \
        FA([x], Imp(V(x), And(0 <= RT(x), RT(x) <= x, P[RT(x)] == RT(x))), [(RT if pat is None else pat)(x)])


def single(ex):
    n = ex.int('n', 64, 0, 2**32 - 1)
    s = ex.array('comp', 32, n.e)
    ex.handlers = std_handlers(ex)
    P = ex.init.mem[('comp', 0)]
    rt = z3.Function('rt', Int, Int)
    for f in wf(P, rt, n.e):
        ex.assume(f)
    ex.terminate = True
    return n, s, P, rt


def link(ex):
    n, s, P, rt = single(ex)
    u, v = ex.int('u', 32), ex.int('v', 32)
    ex.assume(And(u.e < n.e, v.e < n.e))
    ex.params = [ex.ptr(s), n, u, v]
    ru, rv = rt(u.e), rt(v.e)
    ex.generic = False

    def cands(ex, L, st):
        ps = [p for p in L.phis if p.kind == 'int']
        out = [('valid ' + p.name, And(0 <= p.sym, p.sym < n.e)) for p in ps]
        out.append(('parents unchanged', FA([x], Imp(And(0 <= x, x < n.e), st.mem[('comp', 0)][x] == P[x]), [st.mem[('comp', 0)][x]])))
        out += [('sides %s %s' % (p.name, q.name), Or(And(rt(p.sym) == ru, rt(q.sym) == rv), And(rt(p.sym) == rv, rt(q.sym) == ru)))
                for p in ps for q in ps if p.name < q.name]
        return out
    ex.cand_fn = cands
    ex.variant_fn = lambda ex, L, st: [('%s + %s' % (p.name, q.name), p.sym + q.sym) for p in L.phis for q in L.phis if p.name < q.name and p.kind == q.kind == 'int']

    def post(ex, st, r):
        return linked(P, st.mem[('comp', 0)], rt, n.e, ru, rv)
    ex.post_fn = post


def joined(RT, ru, rv):
    lo, hi = If(ru < rv, ru, rv), If(ru < rv, rv, ru)
    return lambda q: If(RT(q) == hi, lo, RT(q))


def linked(P, P1, rt, n, ru, rv):
    a, b = wf(P1, joined(rt, ru, rv), n, rt)
    return [('the parents form a forest in which exactly the two trees are merged', a), ('representatives are fixed points', b)]


def compress(ex):
    n, s, P, rt = single(ex)
    ex.params = [ex.ptr(s), n]

    def cands(ex, L, st):
        P1 = st.mem[('comp', 0)]
        a, b = wf(P1, rt, n.e)
        out = [('wf', a), ('rep', b)]
        for p in [p for l in L.chain() for p in l.phis if p.kind == 'int']:
            out.append(('done below ' + p.name, FA([x], Imp(And(0 <= x, x < p.sym, x < n.e), P1[x] == rt(x)), [P1[x]])))
            out.append(('in range ' + p.name, And(0 <= p.sym, p.sym < n.e)))
            for q in L.phis:
                if q.kind == 'int' and q is not p:
                    out.append(('%s parent of %s' % (q.name, p.name), q.sym == P1[p.sym]))
        return out
    ex.cand_fn = cands
    ex.variant_fn = lambda ex, L, st: [('parent of ' + p.name, st.mem[('comp', 0)][p.sym]) for l in L.chain() for p in l.phis if p.kind == 'int']
    ex.post_fn = lambda ex, st, r: [('every label is the representative', FA([x], Imp(And(0 <= x, x < n.e), st.mem[('comp', 0)][x] == rt(x))))]


def afforest(transpose):
    def spec(ex):
        c = CSR(ex)
        own = c.owner(uniq=False)
        t = CSR(ex, 't') if transpose else None
        rounds = ex.int('rounds', 64)
        out = ex.array('out', 32, None)
        n, I, T, m = c.n, c.I, c.T, c.m
        K = z3.Function('K', Int, Int)
        ex.assume(FA([e], Imp(rng(0, e, m), K(own(e)) == K(T[e])), [T[e]]))
        other = z3.Function('other', Int, Int)      # an undirected edge is stored at both ends / in the transpose
        if transpose:
            own2 = t.owner(uniq=False)
            ex.assume(t.n == n)
            ex.assume(FA([e], Imp(rng(0, e, t.m), K(own2(e)) == K(t.T[e])), [t.T[e]]))
            ex.assume(FA([e], Imp(rng(0, e, m), And(rng(0, other(e), t.m), own2(other(e)) == T[e], t.T[other(e)] == own(e))), [other(e)]))
        else:
            own2 = None
            ex.assume(FA([e], Imp(rng(0, e, m), And(rng(0, other(e), m), own(other(e)) == T[e], T[other(e)] == own(e))), [other(e)]))
        g = ex.array('RT', 64, None)
        R0 = ex.init.mem[('RT', 0)]
        ex.assume(FA([x], Imp(And(0 <= x, x < n), R0[x] == x), [R0[x]]))
        ex.params = csr_params(ex, c) + (csr_params(ex, t) if transpose else [ex.ptr(ex.array('none', 32, 1))]) + [rounds, ex.ptr(out)]
        H = ex.handlers = std_handlers(ex)
        comp = {}

        def vec(ex, p, st, R, b, i):
            d = ex.load(PV(p.base, p.off, p.sub), ('ptr',), st, R, b, i)
            k = ex.load(PV(p.base, p.off + Lin(8), p.sub), ('i', 64), st, R, b, i)
            ex.oblige('the label vector has one entry per vertex', 'call', R, k.e == n, i)
            comp['key'] = (d.base.name, 0)
            return d.base

        def pre(ex, what, P, RT, R, i):
            for k, f in enumerate(wf(P, lambda q: RT[q], n)):
                ex.oblige('%s: precondition %d (labels form a forest)' % (what, k), 'call', R, f, i)

        def h_link(ex, i, args, st, R, b):
            u, v = args[0].e, args[1].e
            o = vec(ex, args[2], st, R, b, i)
            P, RT = st.mem[(o.name, 0)], st.mem[('RT', 0)]
            ex.oblige('link: precondition (both arguments are vertices)', 'call', R, And(u < n, v < n), i)
            pre(ex, 'link', P, RT, R, i)
            ex.oblige('only vertices of the same component are linked', 'assert', R, And(K(u) == K(v), K(RT[u]) == K(RT[v])), i)
            _, P1 = ex.havoc(st, b, o, 0)
            _, R1 = ex.havoc(st, b, g, 0)
            lo, hi = z3.Int(ex.fname_fresh('lo')), z3.Int(ex.fname_fresh('hi'))
            F = z3.Function(ex.fname_fresh('merge'), Int, Int)      # R1[x] = joined(RT, RT[u], RT[v])(x)
            ex.facts.append((And(lo <= hi, Or(And(lo == RT[u], hi == RT[v]), And(lo == RT[v], hi == RT[u])), F(hi) == lo), None))
            ex.facts.append((FA([x], Imp(x != hi, F(x) == x), [F(x)]), None))
            ex.facts.append((FA([x], Imp(And(0 <= x, x < n), R1[x] == F(RT[x])), [R1[x]]), None))
            for f in wf(P1, lambda q: R1[q], n):
                ex.facts.append((f, None))
        H['_ZN2nw5graphL4link*'] = h_link

        def h_compress(ex, i, args, st, R, b):
            o = vec(ex, args[-1], st, R, b, i)
            P, RT = st.mem[(o.name, 0)], st.mem[('RT', 0)]
            pre(ex, 'compress', P, RT, R, i)
            if ex.blk_loop.get(b) is None:      # intermediate assertion
                ex.oblige('the ends of every edge are in the same tree', 'assert', R, FA([e], Imp(And(rng(0, e, m), mark(other(e))), RT[own(e)] == RT[T[e]]), [T[e]]), i)
                ex.fact(R, FA([e], Imp(rng(0, e, m), RT[own(e)] == RT[T[e]]), [T[e]]))      # (mark is true)
            _, P1 = ex.havoc(st, b, o, 0)
            ex.facts.append((FA([x], Imp(And(0 <= x, x < n), P1[x] == RT[x]), [P1[x]]), None))
        H['_ZN2nw5graphL8compress*'] = h_compress

        def h_uniform(ex, i, args, st, R, b):
            ex.oblige('distribution bounds are ordered', 'call', R, args[0].e <= args[1].e, i)
            v = ex.dom.fresh(ex.fname_fresh('random'), 64)
            ex.facts.append((And(args[0].e <= v.e, v.e <= args[1].e), None))
            return v
        H['vp_uniform'] = h_uniform
        pick = []

        def h_pick(ex, i, args, st, R, b):
            v = ex.dom.fresh(ex.fname_fresh('pick'), 64)
            pick[:] = [v.e % 2**32]
            return v
        H['vp_pick'] = h_pick
        ex.generic = False

        def cands(ex, L, st):
            out = []
            ints = [p for l in L.chain() for p in l.phis if p.kind == 'int']
            mine = [p for p in L.phis if p.kind == 'int']
            ie, it = ex.role_idx('tgt', 'load'), ex.role_idx('tgtt', 'load')
            iu = ex.role_idx('ind', 'load')
            edge = lambda q: q.sym.get_id() in ie
            tedge = lambda q: q.sym.get_id() in it
            for p in mine:
                if edge(p) or tedge(p):
                    continue
                out += [('%s < n' % p.name, p.sym < n), ('%s < rounds' % p.name, p.sym < rounds.e)]
            key = comp.get('key')
            O = st.mem[('out', 0)]
            if key is None:
                hs = [k for k in st.mem if k[0] in ex.heap and any(o == k[0] for _, o, *_ in ex.roles_acc)]
            else:
                hs = [key]
            RT = st.mem[('RT', 0)]
            rt = lambda q: RT[q]
            jn = lambda e: RT[own(e)] == RT[T[e]]
            for k in hs:
                P = st.mem[k]
                a, b = wf(P, rt, n)
                out += [('wf ' + k[0], a), ('rep ' + k[0], b)]
                for p in mine:
                    if len(ints) == 1 and not edge(p) and not tedge(p):
                        out.append(('initial ' + p.name, FA([x], Imp(And(0 <= x, x < p.sym), P[x] == x), [P[x]])))
                    if p.sym.get_id() in ex.role_idx('out', 'store'):
                        out.append(('copied ' + p.name, FA([x], Imp(And(0 <= x, x < p.sym), O[x] == P[x]), [O[x]])))
            out.append(('labels', FA([x], Imp(And(0 <= x, x < n), K(RT[x]) == K(x)), [RT[x]])))
            # sampling rounds
            if len(ints) == 1:
                out.append(('rounds done ' + ints[0].name, FA([e], Imp(And(rng(0, e, m), e - I[own(e)] < ints[0].sym), jn(e)), [T[e]])))
            if len(ints) == 2:
                for p in ints:
                    for q in mine:
                        if q is not p and not edge(q) and not tedge(q):
                            out.append(('rounds done ' + p.name, FA([e], Imp(And(rng(0, e, m), e - I[own(e)] < p.sym), jn(e)), [T[e]])))
                            out.append(('round %s below %s' % (p.name, q.name), FA([e], Imp(And(rng(0, e, m), own(e) < q.sym, e - I[own(e)] <= p.sym), jn(e)), [T[e]])))
            out.append(('rounds done', FA([e], Imp(And(rng(0, e, m), e - I[own(e)] < rounds.e), jn(e)), [T[e]])))
            if pick:
                skip = lambda q: RT[q] == RT[pick[0]]
                for p in ints if len(ints) < 2 else [p for p in ints if p not in mine]:
                    out.append(('joined or skipped below ' + p.name, FA([e], Imp(And(rng(0, e, m), own(e) < p.sym), Or(jn(e), And(0 <= pick[0], pick[0] < n, skip(own(e))))), [T[e]])))
                    if own2 is not None:
                        out.append(('transposed joined or skipped below ' + p.name, FA([e], Imp(And(rng(0, e, t.m), own2(e) < p.sym),
                                    Or(RT[own2(e)] == RT[t.T[e]], And(0 <= pick[0], pick[0] < n, skip(own2(e))))), [t.T[e]])))
                    for q in mine:
                        if q is p:
                            continue
                        if edge(q):
                            out.append(('row %s joined below %s' % (p.name, q.name), FA([e], Imp(And(c.row(p.sym, e), e < q.sym), RT[p.sym] == RT[T[e]]), [T[e]])))
                            out.append(('%s in row %s' % (q.name, p.name), And(I[p.sym] <= q.sym, q.sym < I[p.sym + 1])))
                        if tedge(q):
                            out.append(('trow %s joined below %s' % (p.name, q.name), FA([e], Imp(And(t.row(p.sym, e), e < q.sym), RT[p.sym] == RT[t.T[e]]), [t.T[e]])))
                            out.append(('%s in trow %s' % (q.name, p.name), And(t.I[p.sym] <= q.sym, q.sym < t.I[p.sym + 1])))
                            out.append(('row %s joined' % p.name, FA([e], Imp(c.row(p.sym, e), RT[p.sym] == RT[T[e]]), [T[e]])))
            return out
        ex.cand_fn = cands

        def post(ex, st, r):
            O, RT = st.mem[('out', 0)], st.mem[('RT', 0)]
            ex.oblige('the labels are the representatives', 'assert', ex.rets[-1][0], FA([x], Imp(And(0 <= x, x < n), O[x] == RT[x]), [O[x]]))
            ex.oblige('the ends of every edge have the same representative', 'assert', ex.rets[-1][0], FA([e], Imp(rng(0, e, m), RT[own(e)] == RT[T[e]]), [T[e]]))
            return [('one label per vertex', ex.dom.uns(r) == n),
                    ('every label is a vertex of the same component', FA([x], Imp(And(0 <= x, x < n), And(0 <= O[x], O[x] < n, K(O[x]) == K(x))))),
                    ('the ends of every edge have the same label', FA([e], Imp(And(rng(0, e, m), mark(other(e))), O[own(e)] == O[T[e]])))]
        ex.post_fn = post
    return spec


FUNCS = [FS('nw::graph::link', 'cclink.cpp', 'vp_cc_link', 'merges exactly the two trees, keeps the forest, terminates', link),
         FS('nw::graph::compress', 'cclink.cpp', 'vp_cc_compress', 'every label becomes its representative, terminates', compress),
         FS('nw::graph::afforest (undirected graph, empty transpose)', 'cc.cpp', 'vp_afforest', 'equal labels exactly for connected vertices', afforest(False)),
         FS('nw::graph::afforest (directed graph with its transpose)', 'cc.cpp', 'vp_afforest_t', 'equal labels exactly for weakly connected vertices', afforest(True))]
ASSUME = ['ghost RT exists for every parent array with P[x] <= x (it is the root function)',
          'connected is expressed through labellings: two vertices are connected iff every labelling K constant on the edges agrees on them',
          'one schedule: parallel loops run their iterations one after another',
          'sample_frequent_element: random numbers are arbitrary in their range and the sampled vertex is arbitrary (any value of the label type); printing dropped']
HARNESS = 'C12.cpp'
HFLAGS = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=bounds']
BOUND = 'all undirected graphs on up to 5 (thorough 6) vertices, 300 (4000) random ones on up to 40; all directed graphs on up to 3 (4) vertices with their transpose for afforest and CCVerifier; one thread'
BOUNDED = ['ccv1, ccv5, compute_connected_components_v2, Afforest, sv_v6, sv_v8, sv_v9, lpcc, lpcc_cyclic', 'CCVerifier (accepts the components, rejects every split of a vertex and merge of two components)',
           'afforest with a parallel policy']
