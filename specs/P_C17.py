"""C17: breadth-first traversal ranges"""
from speclib import *
from hops import Hops, INF

i, j, x, y, e, d = z3.Ints('i j x y e d')


def setup(ex):
    c = CSR(ex)
    seed = ex.int('seed', 32)
    ex.assume(seed.e < c.n)
    own = c.owner(uniq=False)
    h = Hops(ex, c, seed.e, own)
    ex.handlers = std_handlers(ex)
    isedge = z3.Function('isedge', Int, Int, z3.BoolSort())
    ex.assume(FA([e], Imp(rng(0, e, c.m), isedge(own(e), c.T[e])), [c.T[e]]))
    ex.params = csr_params(ex, c) + [seed]
    return c, seed.e, own, h, isedge


def heaps(ex, st, w):
    return [k for k in st.mem if k[0] in ex.heap and ex.objs[k[0]].fields.get(k[1]) == w]


def queue_facts(tag, Q, V, t, hd, c, D, at, guard=True, scanned=None):
    """hd: position of the vertex whose row is being scanned; guard: hd is a queue position"""
    n, T = c.n, c.T
    inq = lambda y: EX([j], And(0 <= j, j < t, Q[j] == y), patterns=[Q[j]])
    out = [('queue vertices' + tag, FA([i], Imp(And(0 <= i, i < t), And(Q[i] < n, V[Q[i]] != 0, D(Q[i]) < INF)), [Q[i]])),
           ('queue distinct' + tag, FA([i, j], Imp(And(0 <= i, i < j, j < t), Q[i] != Q[j]), [z3.MultiPattern(Q[i], Q[j])])),
           ('queue sorted' + tag, FA([i, j], Imp(And(0 <= i, i < j, j < t), D(Q[i]) <= D(Q[j])), [z3.MultiPattern(Q[i], Q[j])])),
           ('visited are queued' + tag, z3.ForAll([x], Imp(And(gm(x), 0 <= x, x < n, V[x] != 0), inq(x)), patterns=[at(x)]))]
    if hd is not None:
        out += [('within one hop' + tag, Imp(hd < t, FA([i], Imp(And(0 <= i, i < t), D(Q[i]) <= D(Q[hd]) + 1), [Q[i]]))),
                ('nearer are visited' + tag, Imp(hd < t, z3.ForAll([x], Imp(And(gm(x), 0 <= x, x < n, D(x) <= D(Q[hd])), V[x] != 0), patterns=[at(x), V[x]]))),
                ('head in queue' + tag, And(0 <= hd, hd < t)), ('head at most at the end' + tag, And(0 <= hd, hd <= t)),
                ('scanned' + tag, FA([i, e], Imp(And(0 <= i, i < hd, c.row(Q[i], e)), V[T[e]] != 0), [z3.MultiPattern(Q[i], T[e])]))]
    return out


def closed(n, D, member, at):
    """base and step of the induction on the distance that puts every reachable vertex into the set"""
    hit = lambda y: member(y)
    return [
            ('with all vertices at distance d those at d+1 are in the range (induction step)',
             FA([d, x], Imp(And(d >= 0, mark(x), at(x), FA([y], Imp(And(0 <= y, y < n, D(y) == d), hit(y)), [D(y)]), 0 <= x, x < n, D(x) == d + 1, D(x) < INF), hit(x))))]


def vertices(ex):
    c, seed, own, H, isedge = setup(ex)
    n, I, T, D, at = c.n, c.I, c.T, H.D, H.at
    o = ex.array('out', 32, None)
    ex.params += [ex.ptr(o)]

    def cands(ex, L, st):
        out = []
        vs, qs = heaps(ex, st, 8), heaps(ex, st, 32)
        if not vs:
            return out
        O = st.mem[('out', 0)]
        for kv in vs:
            V = st.mem[kv]
            for kq in qs:
                Q = st.mem[kq]
                ts = ex.phis_in(L, ex.role_idx(kq[0], 'store'), True)
                if not ts:
                    continue
                out.append(('seed first ' + kq[0], Q[z3.IntVal(0)] == seed))
                hs = [(p.name, p.sym) for p in ex.phis_in(L, ex.role_idx(kq[0], 'load')) if p not in ts] or [('0', z3.IntVal(0))]
                for tp in ts:
                    for hn, hd in hs:
                        tag = '[%s %s %s %s]' % (kq[0], kv[0], tp.name, hn)
                        out += [f for f in queue_facts(tag, Q, V, tp.sym, hd, c, D, at)]
                for hn, hd in hs:
                    tag = '[%s %s]' % (kq[0], hn)
                    if kq in L.mem_entry:
                        out.append(('head kept' + tag, Q[hd] == L.mem_entry[kq][hd]))
                    out.append(('yielded' + tag, FA([i], Imp(And(0 <= i, i < hd), O[i] == Q[i]), [O[i], Q[i]])))
                    out.append(('yielding' + tag, FA([i], Imp(And(0 <= i, i <= hd), O[i] == Q[i]), [O[i], Q[i]])))
                    for ep in ex.phis_in(L, ex.role_idx('tgt', 'load')):
                        out.append(('in row' + tag + ep.name, And(I[Q[hd]] <= ep.sym, ep.sym <= I[Q[hd] + 1])))
                        out.append(('row scanned' + tag + ep.name, FA([e], Imp(And(I[Q[hd]] <= e, e < ep.sym), V[T[e]] != 0), [T[e]])))
        return out

    def post(ex, st, r):
        k, O = ex.results[0][1], st.mem[('out', 0)]
        inr = lambda y: EX([j], And(0 <= j, j < k, O[j] == y), patterns=[O[j]])
        return [('the seed comes first', And(k > 0, O[z3.IntVal(0)] == seed)), ('every vertex of the range is a vertex reachable from the seed', FA([i], Imp(And(0 <= i, i < k), And(O[i] < n, D(O[i]) < INF)))),
                ('no vertex comes twice', FA([i, j], Imp(And(0 <= i, i < j, j < k), O[i] != O[j]))),
                ('vertices come in non-decreasing hop distance', FA([i, j], Imp(And(0 <= i, i < j, j < k), D(O[i]) <= D(O[j])))),
                ] + closed(n, D, inr, at)
    ex.cand_fn, ex.post_fn = cands, post


def edges(ex):
    c, seed, own, H, isedge = setup(ex)
    n, I, T, D, at = c.n, c.I, c.T, H.D, H.at
    ex.generic = False
    us, vs = ex.array('us', 32, None), ex.array('vs', 32, None)
    ex.params += [ex.ptr(us), ex.ptr(vs)]

    def edge(i, U, W):
        return And(U[i] < n, W[i] < n, isedge(U[i], W[i]), D(W[i]) == D(U[i]) + 1, D(U[i]) < INF)

    def cands(ex, L, st):
        out = []
        vis, qs = heaps(ex, st, 8), heaps(ex, st, 32)
        if not vis:
            return out
        U, W = st.mem[('us', 0)], st.mem[('vs', 0)]
        inner = L.parent is not None
        tl = ex.role_idx('tgt', 'load')
        cur = [p for p in L.ints(64)]
        for p in cur:
            for q in cur:
                if p.name < q.name and z3.is_int_value(z3.simplify(p.entry)) and z3.is_int_value(z3.simplify(q.entry)):
                    out.append(('%s in step with %s' % (p.name, q.name), p.sym - p.entry == q.sym - q.entry))
        for kv in vis:
            V = st.mem[kv]
            for kq in qs:
                Q = st.mem[kq]
                if not ex.role_idx(kq[0], 'store'):
                    continue

                def near(ps, push=True):
                    for l in L.chain():
                        q = [p for p in ps if p in l.phis]
                        if q:
                            return [(p.name + '+%d' % o, p.sym + o) for p in q for o in (0 if l is L else 1 if push or l.parent is not None else 0,)]
                    return []
                st_ids = ex.role_idx(kq[0], 'store')
                ts = near(ex.phis_in(L, st_ids)) or [('1', z3.IntVal(1))]
                hs = near([p for p in ex.phis_in(L, ex.role_idx(kq[0], 'load'), True) if p.sym.get_id() not in st_ids], False) or [('0', z3.IntVal(0))]
                ks = near(ex.phis_in(L, ex.role_idx('us', 'store')))
                out.append(('seed first ' + kq[0], Q[z3.IntVal(0)] == seed))
                for tn, t in ts:
                    for hn, hd in hs:
                        out += queue_facts('[%s %s %s %s]' % (kq[0], kv[0], tn, hn), Q, V, t, hd, c, D, at)
                for kn, k in ks:
                    for tn, t in ts:
                        out.append(('count %s %s' % (kn, tn), And(0 <= k, k < 2**40, t == k + 1)))
                    tag = '[%s %s]' % (kq[0], kn)
                    out.append(('targets' + tag, FA([i], Imp(And(0 <= i, i < k), W[i] == Q[i + 1]), [W[i]])))
                    out.append(('targets queued' + tag, FA([i], Imp(And(0 < i, i <= k), W[i - 1] == Q[i]), [Q[i]])))
                    out.append(('edges' + tag, FA([i], Imp(And(0 <= i, i < k), edge(i, U, W)), [U[i]])))
                    out.append(('sources' + tag, FA([i], Imp(And(0 <= i, i < k), EX([j], And(0 <= j, j <= i, Q[j] == U[i]), patterns=[Q[j]])), [U[i]])))
                for hn, hd in hs:
                    tag = '[%s %s]' % (kq[0], hn)
                    for p in L.phis:
                        if p.kind == 'int' and p.w == 32:
                            out.append(('at head' + tag + p.name, p.sym == Q[hd]))
                    own_phis = [q for w in (kq[0], 'us', 'vs') for q in ex.phis_in(L, ex.role_idx(w), True)]
                    for p in cur:
                        if p.sym.get_id() not in tl:
                            if not inner and p not in own_phis:
                                out.append(('row end' + tag + p.name, p.sym == I[Q[hd] + 1]))
                            continue
                        out.append(('in row' + tag + p.name, And(I[Q[hd]] <= p.sym, p.sym <= I[Q[hd] + 1])))
                        out.append(('inside row' + tag + p.name, And(I[Q[hd]] <= p.sym, p.sym < I[Q[hd] + 1])))
                        out.append(('row scanned' + tag + p.name, FA([e], Imp(And(I[Q[hd]] <= e, e < p.sym), V[T[e]] != 0), [T[e]])))
                    out.append(('whole row scanned' + tag, FA([e], Imp(c.row(Q[hd], e), V[T[e]] != 0), [T[e]])))
            for p in cur if not inner else []:
                if p.sym.get_id() in ex.role_idx('tgt', 'load'):
                    out.append(('target new %s %s' % (kv[0], p.name), V[T[p.sym]] == 0))
        return out

    def post(ex, st, r):
        k, U, W = ex.results[0][1], st.mem[('us', 0)], st.mem[('vs', 0)]
        got = lambda y: Or(y == seed, EX([j], And(0 <= j, j < k, W[j] == y), patterns=[W[j]]))
        return [('every yielded pair is an edge of the graph that leads one hop further from the seed', FA([i], Imp(And(0 <= i, i < k), edge(i, U, W)))),
                ('its source is the seed or the target of an edge yielded before', FA([i], Imp(And(0 <= i, i < k), Or(U[i] == seed, EX([j], And(0 <= j, j < i, W[j] == U[i])))))),
                ('its target is neither the seed nor the target of another edge', FA([i, j], Imp(And(0 <= i, i < j, j < k), And(W[i] != W[j], W[i] != seed, W[j] != seed)))),
                ('targets come in non-decreasing hop distance', FA([i, j], Imp(And(0 <= i, i < j, j < k), D(W[i]) <= D(W[j])))),
                ] + closed(n, D, got, at)
    ex.cand_fn, ex.post_fn = cands, post


FUNCS = [FS('nw::graph::topdown_bfs_range', 'travrange.cpp', 'vp_bfsrange', 'the range yields every reachable vertex exactly once in non-decreasing hop distance', vertices),
         FS('nw::graph::bfs_edge_range', 'travrange.cpp', 'vp_bfsedges', 'the range yields, for every reachable vertex but the seed, exactly one edge, from a vertex already reached and one hop nearer, in non-decreasing distance', edges)]
ASSUME = []
HARNESS = 'C17.cpp'
BOUND = 'all directed graphs on at most 3 vertices, seeded random graphs up to 80 vertices, path/cycle/star/tree shapes up to 200 vertices'
BOUNDED = ['the same ranges over adjacency<1> and vov<0>']
