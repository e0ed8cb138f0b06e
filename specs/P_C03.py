"""C03: incremental construction.  The edge-list contracts are one push from an arbitrary list (the induction step of every history) and
a whole history from the empty list; the compressed contract is a whole history of pushes with nondecreasing rows, open to close."""
from speclib import *
from edges import counter, sorted_rows_lemma


def step(kind):
    bip, wgt = kind == 'bi', kind in ('u', 'tuple', 'bi')

    def f(ex):
        m = ex.int('m', 64, 0, 2**31 - 2)
        cap = m.e + 1
        cols = [ex.array('src', 32, cap), ex.array('dst', 32, cap)] + ([ex.array('wgt', 64, cap)] if wgt else [])
        old = [ex.init.mem[(c.name, 0)] for c in cols]
        ns = [ex.int('n', 64, 0, 2**32 - 1)] + ([ex.int('n1', 64, 0, 2**32 - 1)] if bip else [])
        i, j = ex.int('i', 32, 0, 2**32 - 2), ex.int('j', 32, 0, 2**32 - 2)
        vals = [i, j] + ([ex.int('x', 64, 0, 2**64 - 1)] if wgt else [])
        ex.params = [ex.ptr(c) for c in cols] + [m] + ns + vals
        ex.handlers = std_handlers(ex)
        k = z3.Int('k')
        mx = lambda a, b: If(a >= b, a, b)

        def post(ex, st, r):
            out = []
            for q, key in enumerate([0, 1] + ([4] if wgt else [])):
                p, n, _, _ = ex.results[key]
                A = st.mem[(p.base.name, 0)]
                out.append(('column %d has one more entry' % q, n == m.e + 1))
                out.append(('the last entry of column %d is the pushed one' % q, A[m.e] == vals[q].e))
                out.append(('the earlier entries of column %d are unchanged' % q, FA([k], Imp(rng(0, k, m.e), A[k] == old[q][k]))))
            if bip:
                out.append(('vertex count of column 0 covers the pushed vertex and nothing more', ex.results[2][1] == mx(ns[0].e, i.e + 1)))
                out.append(('vertex count of column 1 covers the pushed vertex and nothing more', ex.results[3][1] == mx(ns[1].e, j.e + 1)))
            else:
                out.append(('vertex count covers the pushed vertices and nothing more', ex.results[2][1] == mx(ns[0].e, mx(i.e, j.e) + 1)))
            return out
        ex.post_fn = post
    return f


def history(ex):
    m = ex.int('m', 64, 0, 2**31 - 1)
    so, to = ex.array('src', 32, m.e), ex.array('dst', 32, m.e)
    S, T = ex.init.mem[('src', 0)], ex.init.mem[('dst', 0)]
    ex.params = [ex.ptr(so), ex.ptr(to), m]
    ex.handlers = std_handlers(ex)
    k = z3.Int('k')
    for a in (S, T):
        ex.assume(FA([k], Imp(rng(0, k, m.e), And(0 <= a[k], a[k] < 2**32 - 1)), [a[k]]))
    # MX(k): one more than the largest endpoint among the first k pushes (0 when there are none)
    MX = z3.Function('MX', Int, Int)
    mx = lambda a, b: If(a >= b, a, b)
    ex.assume(MX(0) == 0)
    ex.assume(FA([k], Imp(rng(0, k, m.e), MX(k + 1) == mx(MX(k), mx(S[k], T[k]) + 1)), [S[k]]))

    def cands(ex, L, st):
        out = []
        for nm in ex.heap:
            D = st.mem.get((nm, 0))
            for q in L.idxlike():
                if D is not None and ex.objs[nm].fields.get(0) == 32:
                    for a, an in ((S, 'src'), (T, 'dst')):
                        out.append(('%s = %s up to %s' % (nm, an, q.name), FA([k], Imp(And(0 <= k, k < q.sym), D[k] == a[k]), [D[k]])))
        for q in L.idxlike():
            for p in L.idxlike():
                if p is not q:
                    out.append(('%s = max(%s)' % (p.name, q.name), p.sym == MX(q.sym)))
        return out

    def post(ex, st, r):
        A, B = st.mem[(ex.results[0][0].base.name, 0)], st.mem[(ex.results[1][0].base.name, 0)]
        return [('as many edges as pushes', And(ex.results[0][1] == m.e, ex.results[1][1] == m.e)),
                ('edge k is push k', FA([k], Imp(rng(0, k, m.e), And(A[k] == S[k], B[k] == T[k])))),
                ('vertex count is one more than the largest endpoint', ex.results[2][1] == MX(m.e))]
    ex.cand_fn, ex.post_fn = cands, post


def rows(ex):
    mv, nv = ex.int('m', 64, 0, 2**31 - 1), ex.int('n', 64, 0, 2**31 - 1)
    m, n = mv.e, nv.e
    so, to = ex.array('src', 32, m), ex.array('dst', 32, m)
    S, T = ex.init.mem[('src', 0)], ex.init.mem[('dst', 0)]
    ex.params = [ex.ptr(so), ex.ptr(to), mv, nv]
    ex.handlers = std_handlers(ex)
    k, p, q, v, x = z3.Ints('k p q v x')
    ex.assume(FA([k], Imp(rng(0, k, m), And(0 <= S[k], S[k] < 2**31)), [S[k]]))
    ex.assume(FA([p, q], Imp(And(0 <= p, p < q, q < m), S[p] <= S[q]), [z3.MultiPattern(S[p], S[q])]))
    top = lambda k: If(And(k > 0, S[k - 1] + 1 > n), S[k - 1] + 1, n)     # rows needed by the first k pushes
    cnt = counter(ex, 'cnt', [S], m, lambda c, v: c == v)
    C = counter(ex, 'below', [S], m, lambda c, v: c < v)
    kk, lv = z3.Int('ind!k'), z3.Int('l!v')
    Q = lambda q: C(lv + 1, q) == C(lv, q) + cnt(lv, q)
    lemma(ex, 'row starts', [('row starts/base', Q(z3.IntVal(0))), ('row starts/step', Imp(And(rng(0, kk, m), Q(kk), S[kk] >= 0), Q(kk + 1)))],
          FA([v], C(v + 1, m) == C(v, m) + cnt(v, m), [cnt(v, m)]))
    Q0 = lambda q: C(0, q) == 0
    lemma(ex, 'first row', [('first row/base', Q0(z3.IntVal(0))), ('first row/step', Imp(And(rng(0, kk, m), Q0(kk), S[kk] >= 0), Q0(kk + 1)))], C(0, m) == 0)
    Nn = top(m)
    Qn = lambda q: C(Nn, q) == q
    lemma(ex, 'last row', [('last row/base', Qn(z3.IntVal(0))), ('last row/step', Imp(And(rng(0, kk, m), Qn(kk), mark(S[kk]), mark(S[m - 1])), Qn(kk + 1)))], C(Nn, m) == m)
    sorted_rows_lemma(ex, m)
    ex.pre.append(FA([p, v], Imp(rng(0, p, m), (S[p] < v) == (p < C(v, m))), [z3.MultiPattern(S[p], C(v, m))]))
    Qz = lambda q: Imp(And(lv >= top(q)), cnt(lv, q) == 0)
    lemma(ex, 'no later rows', [('no later rows/base', Qz(z3.IntVal(0))),
                                ('no later rows/step', Imp(And(rng(0, kk, m), Qz(kk), mark(S[kk]), mark(S[kk - 1])), Qz(kk + 1)))],
          FA([v, k], Imp(And(0 <= k, k <= m, v >= top(k)), cnt(v, k) == 0), [cnt(v, k)]))
    ex.extra_bounds += [m]

    def cands(ex, L, st):
        out = []
        ids = L.idxlike()
        for nm in ex.heap:
            D = st.mem.get((nm, 0))
            if D is None:
                continue
            for r in ids:
                out.append(('%s = dst up to %s' % (nm, r.name), FA([x], Imp(And(0 <= x, x < r.sym), D[x] == T[x]), [D[x]])))
                for s in ids + [None] + [o for l in L.chain() if l is not L for o in l.idxlike()]:
                    kx = m if s is None else s.sym
                    if r is not s:
                        out.append(('%s counts below %s, %s pushed' % (nm, r.name, s.name if s else 'all'), FA([x], Imp(And(0 <= x, x < r.sym), D[x] == cnt(x, kx)), [D[x]])))
                out.append(('%s offsets below %s' % (nm, r.name), FA([x], Imp(And(0 <= x, x < r.sym), D[x] == C(x, m)), [D[x]])))
                out.append(('%s counts from %s' % (nm, r.name), FA([x], Imp(And(r.sym <= x, x <= Nn), D[x] == cnt(x, m)), [D[x]])))
        for r in ids:
            out.append(('%s <= rows' % r.name, r.sym <= Nn + 1))
            for s in ids:
                if r is not s:
                    out.append(('%s rows for %s' % (r.name, s.name), r.sym == top(s.sym)))
                    out.append(('%s rows+1 for %s' % (r.name, s.name), r.sym == top(s.sym) + 1))
                    out.append(('%s = %s + 1' % (r.name, s.name), r.sym == s.sym + 1))
                    out.append(('%s carries %s' % (r.name, s.name), r.sym == C(s.sym, m)))
        return out

    def post(ex, st, r):
        I, J = st.mem[(ex.results[0][0].base.name, 0)], st.mem[(ex.results[1][0].base.name, 0)]
        return [('as many rows as the largest row pushed needs', ex.results[0][1] == Nn + 1),
                ('as many entries as pushes', ex.results[1][1] == m),
                ('entry k is push k', FA([k], Imp(rng(0, k, m), J[k] == T[k]))),
                ('first offset is 0', I[0] == 0),
                ('last offset is the number of entries', I[Nn] == m),
                ('offsets differ by the number of entries pushed for the row', FA([x], Imp(And(0 <= x, x < Nn), And(I[x + 1] - I[x] == cnt(x, m), cnt(x, m) >= 0)))),
                ('entry k lies in the row it was pushed for', FA([k], Imp(rng(0, k, m), And(I[S[k]] <= k, k < I[S[k] + 1]))))]
    ex.cand_fn, ex.post_fn = cands, post


P = 'nw::graph::index_edge_list::push_back'
ST = 'appends exactly the pushed tuple, changes nothing else, vertex count covers it exactly'
FUNCS = [FS(P + ' (directed)', 'push.cpp', 'vp_push', ST, step('d')),
         FS(P + ' (undirected, attribute)', 'push.cpp', 'vp_push_u', ST, step('u')),
         FS(P + '(tuple)', 'push.cpp', 'vp_push_tuple', ST, step('tuple')),
         FS(P + ' (bipartite, attribute)', 'push.cpp', 'vp_push_bi', ST, step('bi')),
         FS(P + '(tuple) (bipartite, attribute)', 'push.cpp', 'vp_push_tuple_bi', ST, step('bi')),
         FS(P + ', open_for_push_back, close_for_push_back', 'push.cpp', 'vp_push_all', 'any history from the empty list', history),
         FS('nw::graph::indexed_struct_of_arrays::push_back, open_for_push_back, close_for_push_back', 'push.cpp', 'vp_push_rows',
            'any history of pushes with nondecreasing rows, from n empty rows: offsets delimit exactly the entries pushed per row', rows)]
ASSUME = ['rows are pushed in nondecreasing order (entries are stored in push order, so other orders cannot be represented)',
          'fewer than 2^31 pushes, row ids below 2^31']
HARNESS = "C03.cpp"
BOUND = "all push sequences of length at most 3 on at most 3 vertices, seeded random sequences up to 60 vertices"
BOUNDED = ["initializer-list construction", "vov / adj_list push_back", "push_at"]
