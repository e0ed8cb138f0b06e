"""C05: relabelling by a permutation; degree-ordered permutations; permuted and sorted compressed rows"""
from speclib import *
from edges import EdgeList, counter

k, l, x, p, u, v, e = z3.Ints('k l x p u v e')


def bijection(ex, n, name='perm'):
    """an array perm with inverse Q on [0,n)"""
    P_, Q = ex.array(name, 32, n), z3.Function(name + '_inv', Int, Int)
    A = ex.init.mem[(name, 0)]
    ex.assume(FA([k], Imp(rng(0, k, n), And(0 <= A[k], A[k] < n, Q(A[k]) == k)), [A[k]]))
    ex.assume(FA([v], Imp(rng(0, v, n), And(0 <= Q(v), Q(v) < n, A[Q(v)] == v)), [Q(v)]))
    return P_, (lambda i: A[i]), Q


def relabelled(ex, E, fns, extra=None):
    """candidates: columns replaced by their new labels below a position, unread beyond; inverse permutations being filled"""
    names = ['src', 'dst']

    def cands(ex, L, st):
        out = list(extra(ex, L, st)) if extra else []
        for f in L.idxlike():
            for q in (0, 1):
                D, c = st.mem[(names[q], 0)], E.c[q]
                if (names[q], 0) not in ex.mods.get(L.header, ()):
                    continue
                out.append(('%s unread from %s' % (names[q], f.name), FA([k], Imp(And(f.sym <= k, k < E.m), D[k] == c[k]), [D[k]])))
                for i, (P, Q, n) in enumerate(fns()):
                    out.append(('%s relabelled below %s by %d' % (names[q], f.name, i), FA([k], Imp(And(0 <= k, k < f.sym), D[k] == Q(c[k])), [D[k]])))
            for nm, o in ex.heap.items():
                D = st.mem.get((nm, 0))
                if D is None or o.fields.get(0) != 32 or (nm, 0) not in ex.mods.get(L.header, ()):
                    continue
                out.append(('%s identity below %s' % (nm, f.name), FA([k], Imp(And(0 <= k, k < f.sym), D[k] == k), [D[k]])))
                for i, (P, Q, n) in enumerate(fns()):
                    out.append(('%s inverse below %s by %d' % (nm, f.name, i), FA([v], Imp(And(0 <= v, v < n, Q(v) < f.sym), D[v] == Q(v)), [D[v]])))
                    out.append(('%s copied below %s by %d' % (nm, f.name, i), FA([k], Imp(And(0 <= k, k < f.sym), D[k] == P(k)), [D[k]])))
        return out
    return cands


def same_list(ex, st, E, cols, weights):
    """the columns hold cols[q](k)"""
    out = []
    for q in range(2 + weights):
        out.append(('no edge is added or lost (column %d)' % q, ex.results[q][1] == E.m))
        A = st.mem[(ex.results[q][0].base.name, 0)]
        out.append(('column %d: %s' % (q, 'attributes are unchanged' if q == 2 else 'every endpoint is the new label of the old endpoint'),
                    FA([k], Imp(rng(0, k, E.m), A[k] == cols[q](k)))))
    return out


def relabel(idx, bip):
    def f(ex):
        E = EdgeList(ex, bipartite=bip, weights=1)
        n = E.n[idx or 0]
        po, P, Q = bijection(ex, n)
        ex.params = E.params + [ex.ptr(po)]
        ex.handlers = std_handlers(ex)
        ex.cand_fn = relabelled(ex, E, lambda: [(P, Q, n)])

        def post(ex, st, r):
            c = [(lambda i, q=q: Q(E.c[q][i]) if idx in (None, q) else E.c[q][i]) for q in (0, 1)] + [lambda i: E.W[i]]
            R = st.mem[(ex.results[3][0].base.name, 0)]
            return same_list(ex, st, E, c, 1) + [('the new labels are returned: one per vertex', ex.results[3][1] == n),
                                                 ('the new labels are returned', FA([v], Imp(rng(0, v, n), And(R[v] == Q(v), mark(v)) if 0 else R[v] == Q(v)))),
                                                 ('the new labels are a bijection', FA([v], Imp(rng(0, v, n), And(0 <= R[v], R[v] < n, P(R[v]) == v))))]
        ex.post_fn = post
    return f


def deg_perm(desc, given=True, returns=True, relab=False, cols=(0,)):
    """perm_by_degree and relabel_by_degree"""
    def f(ex):
        E = EdgeList(ex, weights=1 if relab else 0)
        n = E.n[0]
        ex.params = list(E.params)
        ex.handlers = std_handlers(ex)
        if given:
            do = ex.array('deg', 32, n)
            D0 = ex.init.mem[('deg', 0)]
            deg = lambda v: D0[v]
            ex.assume(n > 0)
            ex.params += [ex.ptr(do), E.n0v]
        else:
            C = counter(ex, 'cnt', [E.c[q] for q in cols], E.m, lambda a, b: a == b)
            deg = lambda v: C(v, E.m)

        def counted(ex, L, st):
            out = []
            if given:
                return out
            for nm in ex.heap:
                D = st.mem.get((nm, 0))
                if D is None or ex.objs[nm].fields.get(0) not in (32, 64):
                    continue
                for q in [z3.IntVal(0), E.m] + [q.sym for q in L.idxlike() if q in L.phis]:
                    out.append(('counted %s %s' % (nm, q), FA([x], Imp(And(0 <= x, x < n), D[x] == C(x, q)), [D[x]])))
                for q in L.idxlike():
                    out.append(('copied %s %s' % (nm, q.name), FA([x], Imp(And(0 <= x, x < q.sym), D[x] == C(x, E.m)), [D[x]])))
            return out
        fns = lambda: [(s.h, s.hi, n) for s in ex.sorts]
        ex.cand_fn = relabelled(ex, E, fns, counted)

        def post(ex, st, r):
            out = []
            if returns:
                A = st.mem[(ex.results[3][0].base.name, 0)]
                out.append(('one entry per vertex', ex.results[3][1] == n))
            out.append(('some sort has run', Or(n == 0, *[s.R for s in ex.sorts])))
            cells = lambda i: And(*[mark(st.mem[(nm, 0)][i]) for nm, o in ex.heap.items() if (nm, 0) in st.mem and o.fields.get(0) == 32])
            S = [(s, 'sort %d: ' % i) for i, s in enumerate(ex.sorts)]
            cmpd = (lambda a, b: a >= b) if desc else (lambda a, b: a <= b)
            for s, nm in S:
                h, hi = s.h, s.hi
                if not relab:
                    out.append((nm + 'the result is a bijection', FA([k], Imp(And(s.R, rng(0, k, n)), And(A[k] == h(k), 0 <= h(k), h(k) < n, hi(h(k)) == k)))))
                    out.append((nm + 'every vertex occurs', FA([v], Imp(And(s.R, rng(0, v, n), mark(h(hi(v)))), And(0 <= hi(v), hi(v) < n, A[hi(v)] == v)))))
                    out.append((nm + 'vertices are in degree order', FA([k, l], Imp(And(s.R, 0 <= k, k < l, l < n, mark(h(k)), mark(h(l)), cells(h(k)), cells(h(l))), cmpd(deg(A[k]), deg(A[l]))))))
                else:
                    if returns:
                        out.append((nm + 'the labelling is a bijection', FA([v], Imp(And(s.R, rng(0, v, n), mark(h(hi(v)))), And(A[v] == hi(v), 0 <= hi(v), hi(v) < n, h(hi(v)) == v)))))
                    out.append((nm + 'labels are in degree order', FA([u, v], Imp(And(s.R, rng(0, u, n), rng(0, v, n), mark(h(hi(u))), mark(h(hi(v))), mark(s.cols[0][4][hi(u)]), mark(s.cols[0][4][hi(v)]), cells(u), cells(v), hi(u) < hi(v)), cmpd(deg(u), deg(v))))))
                    for q in (0, 1):
                        B = st.mem[(ex.results[q][0].base.name, 0)]
                        out.append((nm + 'column %d: every endpoint is the new label of the old endpoint' % q, FA([k], Imp(And(s.R, rng(0, k, E.m)), B[k] == hi(E.c[q][k])))))
            for q in range(3 if relab else 2):
                out.append(('no edge is added or lost (column %d)' % q, ex.results[q][1] == E.m))
                if not relab or q == 2:
                    B = st.mem[(ex.results[q][0].base.name, 0)]
                    out.append(('column %d is unchanged' % q, FA([k], Imp(rng(0, k, E.m), B[k] == (E.W if q == 2 else E.c[q])[k]))))
            return out
        ex.post_fn = post
    return f


def permute2(ex):
    nv = ex.int('n', 64, 0, 2**32 - 2)
    n = nv.e
    a, b, c = [ex.array(nm, 32, n) for nm in ('a', 'b', 'perm')]
    A, P = ex.init.mem[('a', 0)], ex.init.mem[('perm', 0)]
    ex.assume(FA([k], Imp(rng(0, k, n), And(0 <= P[k], P[k] < n)), [P[k]]))
    ex.params = [ex.ptr(a), ex.ptr(b), ex.ptr(c), nv]
    ex.handlers = std_handlers(ex)
    ex.cand_fn = lambda ex, L, st: [('permuted below ' + f.name, FA([k], Imp(And(0 <= k, k < f.sym), st.mem[('b', 0)][k] == A[P[k]]), [st.mem[('b', 0)][k]])) for f in L.idxlike()]
    ex.post_fn = lambda ex, st, r: [('result[k] is the entry perm[k] of the argument', FA([k], Imp(rng(0, k, n), st.mem[('b', 0)][k] == A[P[k]])))]


def proxy(desc):
    def f(ex):
        nv = ex.int('n', 64, 1, 2**32 - 2)
        n = nv.e
        a = ex.array('a', 32, n)
        A = ex.init.mem[('a', 0)]
        ex.params = [ex.ptr(a), nv]
        ex.handlers = std_handlers(ex)

        def cands(ex, L, st):
            out = []
            for nm in ex.heap:
                D = st.mem.get((nm, 0))
                for f in L.idxlike():
                    if D is not None:
                        out.append(('%s identity below %s' % (nm, f.name), FA([k], Imp(And(0 <= k, k < f.sym), D[k] == k), [D[k]])))
            return out

        def post(ex, st, r):
            B = st.mem[(ex.results[3][0].base.name, 0)]
            h, hi = ex.sorts[0].h, ex.sorts[0].hi
            cmpd = (lambda a, b: a >= b) if desc else (lambda a, b: a <= b)
            return [('one entry per element', ex.results[3][1] == n),
                    ('the result is a bijection', FA([k], Imp(rng(0, k, n), And(B[k] == h(k), 0 <= h(k), h(k) < n, hi(h(k)) == k)))),
                    ('every position occurs', FA([v], Imp(And(rng(0, v, n), mark(h(hi(v)))), And(0 <= hi(v), hi(v) < n, B[hi(v)] == v)))),
                    ('positions are in value order', FA([k, l], Imp(And(0 <= k, k < l, l < n, mark(h(k)), mark(h(l))), cmpd(A[B[k]], A[B[l]]))))]
        ex.cand_fn, ex.post_fn = cands, post
    return f


class Rows:
    """compressed rows whose entries are rearranged by sorts: ghost columns G (where an entry came from) and GI (where it went)"""

    def __init__(self, ex, m):
        self.ex, self.m = ex, m
        g, gi = ex.array('ghost', 64, m), ex.array('ghost_inv', 64, m)
        for nm in ('ghost', 'ghost_inv'):
            a = ex.init.mem[(nm, 0)]
            ex.assume(FA([k], Imp(rng(0, k, m), a[k] == k), [a[k]]))
        ex.ghost_sort = self.step

    def step(self, ex, s, idx, st, b):
        old, new = ex.havoc(st, b, ex.objs['ghost'], 0)
        ex.facts.append((FA([k], new[k] == If(And(idx <= k, k < idx + s.n), old[idx + s.h(k - idx)], old[k]), [new[k]]), None))
        o2, n2 = ex.havoc(st, b, ex.objs['ghost_inv'], 0)
        ex.facts.append((FA([k], n2[k] == If(And(idx <= o2[k], o2[k] < idx + s.n), idx + s.hi(o2[k] - idx), o2[k]), [n2[k]]), None))

    def cands(self, L, st, I, same_row, T0, W0, n):
        """I: row starts; T0, W0: the entries before sorting"""
        ex, m = self.ex, self.m
        G, GI = st.mem[('ghost', 0)], st.mem[('ghost_inv', 0)]
        T, W = st.mem[('tgt', 0)], st.mem[('wgt', 0)]
        out = [('entries come from', FA([p], Imp(rng(0, p, m), And(0 <= G[p], G[p] < m, same_row(G[p], p), GI[G[p]] == p)), [G[p]])),
               ('entries go to', FA([p], Imp(rng(0, p, m), And(0 <= GI[p], GI[p] < m, G[GI[p]] == p)), [GI[p]])),
               ('targets follow', FA([p], Imp(rng(0, p, m), T[p] == T0(G[p])), [T[p]])),
               ('attributes follow', FA([p], Imp(rng(0, p, m), W[p] == W0(G[p])), [W[p]]))]
        for f in L.idxlike():
            out.append(('identity from row ' + f.name, FA([p], Imp(And(I(f.sym) <= p, p < m), And(G[p] == p, GI[p] == p)), [G[p]])))
            out.append(('identity inverse from row ' + f.name, FA([p], Imp(And(I(f.sym) <= p, p < m), GI[p] == p), [GI[p]])))
            q = z3.Int('q')
            out.append(('rows sorted below ' + f.name, FA([u, p, q], Imp(And(0 <= u, u < f.sym, I(u) <= p, p < q, q < I(u + 1)), T[p] <= T[q]),
                                                         [z3.MultiPattern(I(u), T[p], T[q])])))
        return out

    def post(self, st, I, same_row, T0, W0, n):
        ex, m = self.ex, self.m
        G, GI = st.mem[('ghost', 0)], st.mem[('ghost_inv', 0)]
        A, B = [st.mem[(ex.results[q][0].base.name, 0)] for q in (0, 1)]
        q = z3.Int('q')
        return [('no entry is added or lost', And(ex.results[0][1] == m, ex.results[1][1] == m)),
                ('every entry is one of its row, with its own attribute', FA([p], Imp(rng(0, p, m), And(rng(0, G[p], m), GI[G[p]] == p, same_row(G[p], p), A[p] == T0(G[p]), B[p] == W0(G[p]))))),
                ('every entry is kept', FA([p], Imp(And(rng(0, p, m)), And(rng(0, GI[p], m), G[GI[p]] == p)))),
                ('rows are sorted', FA([u, p, q], Imp(And(0 <= u, u < n, I(u) <= p, p < q, q < I(u + 1)), A[p] <= A[q])))]


def sortrows(relab):
    def f(ex):
        c = CSR(ex, weights=True, wbits=64)
        n, m, I, T, W = c.n, c.m, c.I, c.T, c.W
        ex.params = [ex.ptr(c.ind), c.nv, ex.ptr(c.tgt), ex.ptr(c.w), c.mv]
        if relab:
            po, P, Q = bijection(ex, n)
            ex.params.append(ex.ptr(po))
        ex.handlers = std_handlers(ex)
        own = c.owner()
        g = Rows(ex, m)
        row = lambda a, b: own(a) == own(b)
        T0 = (lambda e: P(T[e])) if relab else (lambda e: T[e])
        W0 = lambda e: W[e]
        Ir = lambda u: I[u]

        def cands(ex, L, st):
            out = []
            T1 = st.mem[('tgt', 0)]
            if ('ghost', 0) in ex.mods.get(L.header, ()):
                return g.cands(L, st, Ir, row, T0, W0, n)
            for f in L.idxlike():
                out.append(('relabelled below ' + f.name, FA([k], Imp(And(0 <= k, k < f.sym), T1[k] == T0(k)), [T1[k]])))
                out.append(('unread from ' + f.name, FA([k], Imp(And(f.sym <= k, k < m), T1[k] == T[k]), [T1[k]])))
            return out

        def post(ex, st, r):
            J = st.mem[(ex.results[2][0].base.name, 0)]
            return g.post(st, Ir, row, T0, W0, n) + [('row offsets are unchanged', FA([u], Imp(And(0 <= u, u <= n), J[u] == I[u])))]
        ex.cand_fn, ex.post_fn = cands, post
    return f


def steps_monotone(ex):
    """for an arbitrary function F with nonnegative steps on [0,n): F is monotone.  Proved by induction for arbitrary F; instantiated at partial sums"""
    F = z3.Function('F!l', Int, Int)
    n, j, kk = z3.Ints('n!l j!l ind!k')
    H = FA([x], Imp(rng(0, x, n), F(x) <= F(x + 1)), [F(x)])
    Q = lambda q: Imp(And(0 <= j, j <= q), F(j) <= F(q))
    lemma(ex, 'partial sums', [('partial sums/base', Imp(H, Q(z3.IntVal(0)))), ('partial sums/step', Imp(And(H, 0 <= kk, kk < n, Q(kk)), Q(kk + 1)))], [])


def permdeg(desc, sort_after=False):
    def f(ex):
        c = CSR(ex, weights=True, wbits=64)
        n, m, I, T, W = c.n, c.m, c.I, c.T, c.W
        ex.params = [ex.ptr(c.ind), c.nv, ex.ptr(c.tgt), ex.ptr(c.w), c.mv]
        ex.handlers = std_handlers(ex)
        steps_monotone(ex)
        deg = lambda u: I[u + 1] - I[u]
        PS = z3.Function('PS', Int, Int)     # PS(k): entries in the first k rows after the permutation
        if sort_after:
            g = Rows(ex, m)
            own2 = z3.Function('own2', Int, Int)

        def hook(ex, s):
            if s.cols and s.cols[0][0] == 'tgt':
                return
            h = s.h
            fs = [PS(0) == 0, FA([k], Imp(rng(0, k, n), PS(k + 1) == PS(k) + deg(h(k))), [h(k)])]
            fs += [FA([k, l], Imp(And(0 <= k, k <= l, l <= n), PS(k) <= PS(l)), [z3.MultiPattern(PS(k), PS(l))])]      # lemma "partial sums"
            fs += [PS(n) == m]                                                                                          # lemmas/Perm.lean, perm_sum
            for q in fs:
                ex.facts.append((Imp(s.R, q), None))
        ex.sort_hook = hook

        def cands(ex, L, st):
            out = []
            if not ex.sorts:
                h = hi = None
            else:
                h, hi = ex.sorts[0].h, ex.sorts[0].hi
            if sort_after and ('ghost', 0) in ex.mods.get(L.header, ()):
                return []
            for f in L.idxlike():
                for nm, o in ex.heap.items():
                    D = st.mem.get((nm, 0))
                    if D is None or not any((nm, 0) in ex.mods.get(q.header, ()) for q in L.chain()):
                        continue
                    b = o.fields.get(0)
                    if b == 32:
                        out.append(('%s degrees below %s' % (nm, f.name), FA([k], Imp(And(0 <= k, k < f.sym), D[k] == deg(k)), [D[k]])))
                        out.append(('%s identity below %s' % (nm, f.name), FA([k], Imp(And(0 <= k, k < f.sym), D[k] == k), [D[k]])))
                        if h is not None:
                            out.append(('%s permuted degrees up to %s' % (nm, f.name), FA([k], Imp(And(1 <= k, k <= f.sym), D[k] == deg(h(k - 1))), [D[k]])))
                            out.append(('%s permuted degrees from %s' % (nm, f.name), FA([k], Imp(And(f.sym <= k, k <= n, 1 <= k), D[k] == deg(h(k - 1))), [D[k]])))
                            out.append(('%s partial sums below %s' % (nm, f.name), FA([k], Imp(And(0 <= k, k < f.sym), D[k] == PS(k)), [D[k]])))
                            out.append(('%s first entry is 0' % nm, D[0] == 0))
                            out.append(('%s inverse below %s' % (nm, f.name), FA([v], Imp(And(0 <= v, v < n, hi(v) < f.sym), D[v] == hi(v)), [D[v]])))
                    if h is not None and b in (32, 64):
                        C = T if b == 32 else W
                        out.append(('%s rows below %s' % (nm, f.name), FA([k, p], Imp(And(0 <= k, k < f.sym, PS(k) <= p, p < PS(k + 1)), D[p] == C[I[h(k)] + p - PS(k)]),
                                                                         [z3.MultiPattern(D[p], h(k))])))
                if h is not None:
                    for q in L.idxlike():
                        if q is not f:
                            out.append(('%s = entries before row %s' % (q.name, f.name), q.sym + 0 == PS(f.sym)))
                            out.append(('%s = entries up to row %s' % (q.name, f.name), q.sym + 0 == PS(f.sym - 1)))
            if h is not None:
                for q in L.phis:
                    if q not in L.idxlike() and getattr(q, 'kind', None) == 'int':
                        for f in L.idxlike():
                            out.append(('%s = sum before %s' % (q.name, f.name), q.sym == PS(f.sym)))
                            out.append(('%s = sum up to %s' % (q.name, f.name), q.sym == PS(f.sym - 1)))
            return out

        def post(ex, st, r):
            J = st.mem[(ex.results[2][0].base.name, 0)]
            R = st.mem[(ex.results[3][0].base.name, 0)]
            A, B = [st.mem[(ex.results[q][0].base.name, 0)] for q in (0, 1)]
            if len(ex.sorts) != 1:
                return [('one sort', z3.BoolVal(False))]
            s = ex.sorts[0]
            h, hi = s.h, s.hi
            cells = lambda i: And(*[mark(st.mem[(nm, 0)][i]) for nm, o in ex.heap.items() if (nm, 0) in st.mem and o.fields.get(0) == 32])
            cmpd = (lambda a, b: a >= b) if desc else (lambda a, b: a <= b)
            at = lambda c: And(s.R, rng(0, v, n), mark(h(hi(v))), c)
            return [('no entry is added or lost', And(ex.results[0][1] == m, ex.results[1][1] == m, ex.results[3][1] == n)),
                    ('the rows are sorted once', Or(n == 0, s.R)),
                    ('the new row ids are a bijection', FA([v], Imp(at(True), And(R[v] == hi(v), 0 <= hi(v), hi(v) < n, h(hi(v)) == v)))),
                    ('rows are in degree order', FA([u, v], Imp(And(at(True), rng(0, u, n), mark(h(hi(u))), mark(s.cols[0][4][hi(u)]), mark(s.cols[0][4][hi(v)]), cells(u), cells(v), hi(u) < hi(v)), cmpd(deg(u), deg(v))))),
                    ('first offset is 0', J[0] == 0), ('last offset is the number of entries', J[n] == m),
                    ('every row keeps its length', FA([v], Imp(at(mark(J[R[v] + 1])), J[R[v] + 1] - J[R[v]] == deg(v)))),
                    ('every row keeps its entries in order', FA([v, x], Imp(at(And(0 <= x, x < deg(v), mark(A[PS(hi(v)) + x]))), A[J[R[v]] + x] == T[I[v] + x]))),
                    ('every entry keeps its attribute', FA([v, x], Imp(at(And(0 <= x, x < deg(v), mark(B[PS(hi(v)) + x]))), B[J[R[v]] + x] == W[I[v] + x])))]
        ex.cand_fn, ex.post_fn = cands, post
    return f


G_ = 'nw::graph::'
BJ = 'a bijection ordered by degree; the list is unchanged'
RL = 'every edge (u,v,attributes) becomes (new u, new v, attributes); the labels are a bijection in degree order'
FUNCS = [FS(G_ + 'relabel (edge_list)', 'relabel.cpp', 'vp_relabel', 'every edge (u,v,attributes) becomes (new u, new v, attributes)', relabel(None, False))]
FUNCS += [FS(G_ + 'relabel<%d> (bi_edge_list)' % i, 'relabel.cpp', 'vp_relabel_bi%d' % i, 'column %d is relabelled, nothing else' % i, relabel(i, True)) for i in (0, 1)]
FUNCS += [FS(G_ + 'perm_by_degree<0>(degrees, %sscending)' % d, 'relabel.cpp', 'vp_pbd_' + d[0], BJ, deg_perm(d == 'de')) for d in ('a', 'de')]
FUNCS += [FS(G_ + 'perm_by_degree<1>', 'relabel.cpp', 'vp_pbd_count', BJ, deg_perm(False, given=False, cols=(1,)))]
FUNCS += [FS(G_ + 'relabel_by_degree<0>(%sscending, degrees)' % d, 'relabel.cpp', 'vp_rbd_' + d[0], RL, deg_perm(d == 'de', relab=True)) for d in ('a', 'de')]
FUNCS += [FS(G_ + 'relabel_by_degree(ascending, degrees)', 'relabel.cpp', 'vp_rbdv_a', RL, deg_perm(False, relab=True, returns=False)),
          FS(G_ + 'relabel_by_degree<0>(descending)', 'relabel.cpp', 'vp_rbd_count', RL, deg_perm(True, given=False, relab=True, cols=(0, 1)))]
FUNCS += [FS(G_ + 'permute', 'relabel.cpp', 'vp_permute2', 'result[k] = argument[perm[k]]', permute2)]
FUNCS += [FS('nw::util::proxysort (%s)' % d, 'relabel.cpp', 'vp_proxy_' + d[0], 'a bijection that orders the values', proxy(d == 'greater')) for d in ('less', 'greater')]
SA = G_ + 'indexed_struct_of_arrays::'
FUNCS += [FS(SA + 'sort_to_be_indexed', 'relabel.cpp', 'vp_sortrows', 'sorts every row, rearranging its entries with their attributes', sortrows(False)),
          FS(SA + 'relabel_to_be_indexed', 'relabel.cpp', 'vp_relrows', 'relabels the targets and sorts every row', sortrows(True))]
FUNCS += [FS(SA + 'permute_by_degree(%sscending), struct_of_arrays::permute' % d, 'relabel.cpp', 'vp_permdeg_' + d[0],
             'rows move, whole, to a bijective place in degree order', permdeg(d == 'de')) for d in ('a', 'de')]
ASSUME = ['debug output of compressed.hpp is off (g_debug_compressed is false, its initial value)',
          'std::string directions are literals; comparison with a literal is strcmp',
          'relabel / relabel_to_be_indexed: the permutation argument is a bijection on the vertices']
LEMMAS = [('Perm.lean', ['perm_rec'])]
HARNESS = "C05.cpp"
BOUND = "all edge sequences of length at most 3 on at most 3 vertices, seeded random lists up to 40 vertices and up to 15000 edges"
BOUNDED = ["indexed_struct_of_arrays::sort_by_degree as a composition", "the same functions under TBB scheduling"]
