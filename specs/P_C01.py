"""C01: compressed adjacency from an edge list.  The code sorts a copy of the row column together with the other columns; the contract
states the result through the bijection h of that sort: entry p of the adjacency is edge slot h(p), stored in the row that slot's
endpoint selects; h being a bijection, every slot is stored exactly once."""
from speclib import *
from edges import EdgeList, counter, spec_array, sorted_rows_lemma


def fill(idx, und, weights, bipartite=False):
    def f(ex):
        E = EdgeList(ex, bipartite, weights)
        ex.params = E.params
        ex.handlers = std_handlers(ex)
        n, m, a, b = E.n[idx], E.m, E.c[idx], E.c[1 - idx]
        M = 2 * m if und else m
        if und:
            KEY = spec_array(ex, 'key', M, lambda k: If(k < m, a[k], b[k - m]))
            VAL = spec_array(ex, 'val', M, lambda k: If(k < m, b[k], a[k - m]))
            WGT = spec_array(ex, 'wgts', M, lambda k: If(k < m, E.W[k], E.W[k - m])) if weights else None
        else:
            KEY, VAL, WGT = a, b, E.W if weights else None
        x, k, v, p = z3.Ints('x k v p')
        if und:
            ex.assume(FA([k], Imp(rng(0, k, M), rng(0, KEY[k], n)), [KEY[k]]))
        cnt = counter(ex, 'cnt', [KEY], M, lambda c, v: c == v)     # entries equal to v before k
        C = counter(ex, 'below', [KEY], M, lambda c, v: c < v)      # entries below v before k
        kk, lv = z3.Int('ind!k'), z3.Int('l!v')
        Q = lambda q: C(lv + 1, q) == C(lv, q) + cnt(lv, q)
        lemma(ex, 'row starts', [('row starts/base', Q(z3.IntVal(0))), ('row starts/step', Imp(And(rng(0, kk, M), Q(kk), KEY[kk] >= 0), Q(kk + 1)))],
              FA([v], C(v + 1, M) == C(v, M) + cnt(v, M), [cnt(v, M)]))
        Q0 = lambda q: C(0, q) == 0
        lemma(ex, 'first row', [('first row/base', Q0(z3.IntVal(0))), ('first row/step', Imp(And(rng(0, kk, M), Q0(kk), KEY[kk] >= 0), Q0(kk + 1)))], C(0, M) == 0)
        Qn = lambda q: C(n, q) == q
        lemma(ex, 'last row', [('last row/base', Qn(z3.IntVal(0))), ('last row/step', Imp(And(rng(0, kk, M), Qn(kk), KEY[kk] >= 0), Qn(kk + 1)))], C(n, M) == M)
        sorted_rows_lemma(ex, M)

        def hook(ex, s):
            # count of entries below v is the same before and after a rearrangement (bijections preserve finite counts); with the
            # sorted-rows lemma: position p of the sorted keys holds a key below v exactly when p < below(v)
            for nm, f, i0, old, new in s.cols:
                if any(z3.eq(t.arg(0), new) for t in selects_of(s.lt)) and z3.is_int_value(z3.simplify(i0)) and z3.simplify(i0).as_long() == 0:
                    same = FA([k], Imp(rng(0, k, M), old[k] == KEY[k]))
                    ex.oblige('the sorted column is the row column', 'assert', s.R, And(same, s.n == M))
                    ex.keycol = new
                    nk = FA([p, v], Imp(rng(0, p, M), (new[p] < v) == (p < C(v, M))), [z3.MultiPattern(new[p], C(v, M))])
                    ex.facts.append((Imp(s.R, nk), None))
        ex.sort_hook = hook

        def cands(ex, L, st):
            out = []
            for nm in ex.heap:
                D = st.mem.get((nm, 0))
                if D is None or ex.objs[nm].fields.get(0) != 32:
                    continue
                if und:
                    out.append(('rows gathered %s' % nm, FA([k], Imp(rng(0, k, M), D[k] == KEY[k]), [D[k]])))
                for q in [z3.IntVal(0), M, m] + [q.sym for q in L.idxlike() if q in L.phis]:
                    out.append(('counted %s %s' % (nm, q), FA([x], Imp(And(0 <= x, x < n), D[x] == cnt(x, q)), [D[x]])))
                for q in L.idxlike():
                    out.append(('copied %s %s' % (nm, q.name), FA([x], Imp(And(0 <= x, x < q.sym), D[x] == cnt(x, M)), [D[x]])))
                    out.append(('offsets %s %s' % (nm, q.name), FA([x], Imp(And(0 <= x, x < q.sym), D[x] == C(x, M)), [D[x]])))
                    out.append(('offsets through %s %s' % (nm, q.name), FA([x], Imp(And(0 <= x, x <= q.sym), D[x] == C(x, M)), [D[x]])))
                    out.append(('offset 0 %s' % nm, D[0] == 0))
                    for o in L.idxlike():
                        if o is not q and o.kind == 'int':
                            out.append(('sum %s %s' % (o.name, q.name), o.sym == C(q.sym, M)))
            return out

        def post(ex, st, r):
            I, T = st.mem[(ex.results[0][0].base.name, 0)], st.mem[(ex.results[1][0].base.name, 0)]
            s = ex.sorts[-1]
            out = [('first offset is 0', I[0] == 0),
                   ('last offset is the number of entries', I[n] == M),
                   ('offsets of consecutive rows differ by the number of that row\'s entries', FA([x], Imp(And(0 <= x, x < n), And(I[x] == C(x, M), I[x + 1] == I[x] + cnt(x, M))))),
                   ('entry p is the other endpoint of slot h(p)', FA([p], Imp(rng(0, p, M), T[p] == VAL[s.h(p)]))),
                   ('entry p lies in the row of slot h(p)', FA([p], Imp(And(rng(0, p, M), mark(ex.keycol[p])), And(I[KEY[s.h(p)]] <= p, p < I[KEY[s.h(p)] + 1])))),
                   ('h is a bijection of the slots', FA([p], Imp(rng(0, p, M), And(rng(0, s.h(p), M), s.hi(s.h(p)) == p, rng(0, s.hi(p), M), s.h(s.hi(p)) == p))))]
            if weights:
                W = st.mem[(ex.results[2][0].base.name, 0)]
                out.append(('entry p carries the property of slot h(p)', FA([p], Imp(rng(0, p, M), W[p] == WGT[s.h(p)]))))
            return out
        ex.cand_fn, ex.post_fn = cands, post
    return f


S = 'rows, targets and properties are a bijective image of the edge slots; offsets delimit the rows'
FUNCS = [FS('nw::graph::adjacency<%d%s>(%s edge_list): fill, fill_%s, degrees' % (i, ', uint64_t' if w else '', d, d), 'fill.cpp',
            'vp_fill_%s%s%d' % (d[:3], 'w' if w else '', i), S, fill(i, d == 'undirected', w))
         for d in ('directed', 'undirected') for w in (0, 1) for i in (0, 1)]
FUNCS += [FS('nw::graph::biadjacency<%d>(bi_edge_list): fill_biadjacency' % i, 'fill.cpp', 'vp_fill_bi%d' % i, S, fill(i, False, 0, True)) for i in (0, 1)]
HARNESS = "C01.cpp"
BOUND = "all edge sequences of length at most 3 on at most 2 vertices, seeded random and skewed edge lists up to 60 vertices (two with 20000 edges)"
BOUNDED = ["nw::graph::push_back_fill into vov / adj_list", "adjacency(N, edge_list), sort_adjacency, copy / move / from-vector construction", "two-attribute lists"]
LEMMAS = [('Perm.lean', ['perm_count'])]
ASSUME = ['edge lists have fewer than 2^31 edges (uint32_t row offsets)']
