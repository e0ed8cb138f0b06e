"""C06: edge-list clean-up.  K(k) counts the kept entries among the first k; a clean-up keeps entry k at position K(k)."""
from speclib import *
from edges import EdgeList


def kcount(ex, m, kept, trig):
    K = z3.Function('K', Int, Int)
    k = z3.Int('k')
    ex.assume(K(0) == 0)
    ex.assume(FA([k], Imp(rng(0, k, m), K(k + 1) == K(k) + If(kept(k), 1, 0)), [trig(k)]))
    kk = z3.Int('ind!k')
    P = lambda q: And(0 <= K(q), K(q) <= q)
    lemma(ex, 'kept so far', [('kept so far/base', P(z3.IntVal(0))), ('kept so far/step', Imp(And(rng(0, kk, m), P(kk), mark(trig(kk))), P(kk + 1)))],
          FA([k], Imp(And(0 <= k, k <= m), And(0 <= K(k), K(k) <= k)), [K(k)]))
    l = z3.Int('l!k')
    Q = lambda q: Imp(And(0 <= l, l < q, kept(l)), K(l) < K(q))
    lemma(ex, 'kept entries keep their order', [('kept order/base', Q(z3.IntVal(0))),
          ('kept order/step', Imp(And(rng(0, kk, m), Q(kk), mark(trig(kk)), mark(trig(l))), Q(kk + 1)))],
          FA([l, k], Imp(And(0 <= l, l < k, k <= m, kept(l)), K(l) < K(k)), [z3.MultiPattern(K(l), K(k))]))
    return K


def compact(kind, weights):
    def f(ex):
        E = EdgeList(ex, weights=weights)
        m, (S, T) = E.m, E.c
        ex.params = E.params
        ex.handlers = std_handlers(ex)
        kept = (lambda k: S[k] != T[k]) if kind == 'loops' else (lambda k: Or(k == 0, S[k] != S[k - 1], T[k] != T[k - 1]))
        K = kcount(ex, m, kept, lambda k: S[k])
        if kind == 'uniq':
            k = z3.Int('k')
            # runs: an entry that is not kept equals its predecessor
        cols = [('src', S), ('dst', T)] + ([('wgt', E.W)] if weights else [])
        k, x = z3.Ints('k x')

        def cands(ex, L, st):
            out = []
            ids = L.idxlike()
            for f in ids:
                for nm, c in cols:
                    D = st.mem[(nm, 0)]
                    out.append(('%s unread from %s' % (nm, f.name), FA([k], Imp(And(f.sym <= k, k < m), D[k] == c[k]), [D[k]])))
                    out.append(('%s kept below %s' % (nm, f.name), FA([k], Imp(And(0 <= k, k < f.sym, kept(k)), D[K(k)] == c[k]), [c[k]])))
                    if kind == 'uniq':
                        out.append(('%s kept up to %s' % (nm, f.name), FA([k], Imp(And(0 <= k, k <= f.sym, kept(k)), D[K(k)] == c[k]), [c[k]])))
                        for w in ids:
                            if w is not f:
                                out.append(('%s at %s is the entry before %s' % (nm, w.name, f.name), D[w.sym] == c[f.sym - 1]))
                                out.append(('%s at %s is the entry at %s' % (nm, w.name, f.name), D[w.sym] == c[f.sym]))
                for w in ids:
                    if w is not f:
                        for d in ((0, 1) if kind == 'uniq' else (0,)):
                            for g in ((0, 1) if kind == 'uniq' else (0,)):
                                out.append(('%s+%d = kept below %s+%d' % (w.name, d, f.name, g), w.sym + d == K(f.sym + g)))
                                out.append(('%s <= %s + %d' % (w.name, f.name, -d), w.sym + d <= f.sym))
            return out

        def post(ex, st, r):
            out = [('size %d is the number of kept entries' % q, ex.results[q][1] == K(m)) for q in range(len(cols))]
            for q, (nm, c) in enumerate(cols):
                A = st.mem[(ex.results[q][0].base.name, 0)]
                out.append(('kept entries stay in order: column %d' % q, FA([k], Imp(And(rng(0, k, m), kept(k)), And(0 <= K(k), K(k) < K(m), A[K(k)] == c[k])))))
            return out
        ex.cand_fn, ex.post_fn = cands, post
    return f


def tri(up, weights=1):
    """up: (smaller, larger)"""
    def f(ex):
        E = EdgeList(ex, weights=weights)
        m, (S, T) = E.m, E.c
        ex.params = E.params
        ex.handlers = std_handlers(ex)
        k = z3.Int('k')
        mx, mn = (lambda k: If(S[k] < T[k], T[k], S[k])), (lambda k: If(S[k] < T[k], S[k], T[k]))
        a, b = (mn, mx) if up else (mx, mn)

        def cands(ex, L, st):
            out = []
            for f in L.idxlike():
                for nm, w, o in (('src', a, S), ('dst', b, T)):
                    D = st.mem[(nm, 0)]
                    out.append(('%s oriented below %s' % (nm, f.name), FA([k], Imp(And(0 <= k, k < f.sym), D[k] == w(k)), [D[k]])))
                    out.append(('%s unread from %s' % (nm, f.name), FA([k], Imp(And(f.sym <= k, k < m), D[k] == o[k]), [D[k]])))
            return out

        def post(ex, st, r):
            out = [('no edge is added or lost (column %d)' % q, ex.results[q][1] == m) for q in range(2 + weights)]
            A, B = [st.mem[(ex.results[q][0].base.name, 0)] for q in (0, 1)]
            out.append(('every edge keeps its endpoints, oriented', FA([k], Imp(rng(0, k, m), And(A[k] == a(k), B[k] == b(k))))))
            if weights:
                W = st.mem[(ex.results[2][0].base.name, 0)]
                out.append(('attributes are unchanged', FA([k], Imp(rng(0, k, m), W[k] == E.W[k]))))
            return out
        ex.cand_fn, ex.post_fn = cands, post
    return f


def sort(idx, lex, stable, attr=False):
    def f(ex):
        E = EdgeList(ex, weights=1)
        m, (S, T) = E.m, E.c
        ex.params = E.params
        ex.handlers = std_handlers(ex)
        k, l = z3.Ints('k l')

        def post(ex, st, r):
            out = [('no edge is added or lost (column %d)' % q, ex.results[q][1] == m) for q in range(3)]
            cs = [(st.mem[(ex.results[q][0].base.name, 0)], o) for q, o in enumerate((S, T, E.W))]
            if len(ex.sorts) != 1:
                return out + [('the list is sorted once', z3.BoolVal(False))]
            h, hi = ex.sorts[0].h, ex.sorts[0].hi
            A, B, W = [c for c, _ in cs]
            out.append(('every entry is one of the entries, with its own endpoints and attribute',
                        FA([k], Imp(And(rng(0, k, m), mark(h(k))), And(rng(0, h(k), m), hi(h(k)) == k, *[c[k] == o[h(k)] for c, o in cs])))))
            out.append(('every entry is kept', FA([k], Imp(And(rng(0, k, m), mark(hi(k)), mark(h(hi(k)))), And(rng(0, hi(k), m), h(hi(k)) == k)))))
            p, q = (A, B) if idx == 0 else (B, A)
            eq = lambda x, y: And(p[x] == p[y], q[x] == q[y]) if lex else p[x] == p[y]
            le = lambda x, y: Or(p[x] < p[y], And(p[x] == p[y], q[x] <= q[y])) if lex else p[x] <= p[y]
            out.append(('the list is in order', FA([k, l], Imp(And(0 <= k, k < l, l < m, mark(p[k]), mark(p[l])), le(k, l)))))
            if stable:
                out.append(('equal entries keep their order', FA([k, l], Imp(And(0 <= k, k < l, l < m, mark(h(k)), mark(h(l)), mark(p[k]), mark(p[l]), eq(k, l)), h(k) < h(l)))))
            return out
        ex.post_fn = post
    return f


def triang(lower):
    def f(ex):
        c = CSR(ex, weights=True, wbits=64)
        n, m, I, T, W = c.n, c.m, c.I, c.T, c.W
        ex.params = [ex.ptr(c.ind), c.nv, ex.ptr(c.tgt), ex.ptr(c.w), c.mv]
        ex.handlers = std_handlers(ex)
        own = c.owner()
        kept = (lambda e: T[e] < own(e)) if lower else (lambda e: T[e] > own(e))
        K = kcount(ex, m, kept, lambda e: T[e])
        e, u = z3.Ints('e u')

        def cands(ex, L, st):
            out = []
            ids = L.idxlike()
            up = [o for l in L.chain() if l is not L for o in l.idxlike()]
            for nm, o in ex.heap.items():
                D = st.mem.get((nm, 0))
                if D is None or not any((nm, 0) in ex.mods.get(l.header, ()) for l in L.chain()):
                    continue
                for f in ids + up:
                    if o.fields.get(0) == 32:
                        out.append(('%s offsets up to %s' % (nm, f.name), FA([u], Imp(And(0 <= u, u <= f.sym), D[u] == K(I[u])), [D[u]])))
                    for C, cn in ((T, 'tgt'), (W, 'wgt')):
                        if o.fields.get(0) == (32 if C is T else 64):
                            if up and f in ids:
                                out.append(('%s kept below %s: %s' % (nm, f.name, cn), FA([e], Imp(And(0 <= e, e < f.sym, kept(e)), D[K(e)] == C[e]), [C[e]])))
                            if not up:
                                out.append(('%s kept below row %s: %s' % (nm, f.name, cn), FA([e], Imp(And(0 <= e, e < I[f.sym], kept(e)), D[K(e)] == C[e]), [C[e]])))
            for f in ids:
                for g in up + [None]:
                    if g is not None:
                        out.append(('%s in row %s' % (f.name, g.name), And(I[g.sym] <= f.sym, f.sym < I[g.sym + 1])))
                for w in ids:
                    if w is not f:
                        out.append(('%s = kept below %s' % (w.name, f.name), w.sym == K(f.sym)))
                        if not up:
                            out.append(('%s = kept below row %s' % (w.name, f.name), w.sym == K(I[f.sym])))
                        for g in up:
                            out.append(('%s = kept below %s in row %s' % (w.name, f.name, g.name), w.sym == K(f.sym) - K(I[g.sym])))
            return out

        def post(ex, st, r):
            A, B, D = [st.mem[(ex.results[q][0].base.name, 0)] for q in range(3)]
            return [('as many targets as kept entries', ex.results[0][1] == K(m)), ('as many attributes as kept entries', ex.results[1][1] == K(m)),
                    ('kept entries stay in order with their attribute', FA([e], Imp(And(rng(0, e, m), kept(e)), And(rng(0, K(e), K(m)), A[K(e)] == T[e], B[K(e)] == W[e])))),
                    ('rows hold exactly their kept entries', FA([u], Imp(And(0 <= u, u <= n), D[u] == K(I[u])))),]
        ex.cand_fn, ex.post_fn = cands, post
    return f


G = 'nw::graph::'
X = 'keeps exactly the %s, in order, with their attributes'
FUNCS = [FS(G + 'remove_self_loops', 'clean.cpp', 'vp_loops', X % 'edges with different endpoints', compact('loops', 0)),
         FS(G + 'remove_self_loops (attribute)', 'clean.cpp', 'vp_loops_w', X % 'edges with different endpoints', compact('loops', 1)),
         FS(G + 'uniq', 'clean.cpp', 'vp_uniq', X % 'first edges of each run of equal edges', compact('uniq', 0)),
         FS(G + 'uniq (attribute)', 'clean.cpp', 'vp_uniq_w', X % 'first edges of each run of equal edges', compact('uniq', 1))]
O = 'orients every edge %s; count, order, attributes unchanged'
for nm, up, w, t in (('vp_tri_0p', 0, 1, '<0, predecessor>'), ('vp_tri_0s', 1, 1, '<0, successor>'), ('vp_tri_1p', 1, 1, '<1, predecessor>'),
                     ('vp_tri_1s', 0, 1, '<1, successor>'), ('vp_tri_plain', 0, 0, '<0, predecessor> (no attribute)'), ('vp_tri_arg', 1, 0, '(succession)')):
    FUNCS.append(FS(G + 'swap_to_triangular' + t, 'clean.cpp', nm, O % ('(smaller, larger)' if up else '(larger, smaller)'), tri(up, w)))
for nm, i, lex, stable in (('sort', 0, 0, 0), ('sort', 1, 0, 0), ('ssort', 0, 0, 1), ('ssort', 1, 0, 1), ('lex', 0, 1, 0), ('lex', 1, 1, 0), ('slex', 0, 1, 1), ('slex', 1, 1, 1)):
    full = {'sort': 'sort_by', 'ssort': 'stable_sort_by', 'lex': 'lexical_sort_by', 'slex': 'lexical_stable_sort_by'}[nm]
    FUNCS.append(FS('%s%s<%d>' % (G, full, i), 'clean.cpp', 'vp_%s%d' % (nm, i), 'rearranges the entries into order, each with its attribute', sort(i, lex, stable)))
for nm, lo in (('predecessor', 1), ('successor', 0)):
    FUNCS.append(FS(G + 'indexed_struct_of_arrays::triangularize<%s>' % nm, 'clean.cpp', 'vp_triang_' + nm[0], X % ('entries below' if lo else 'entries above') + ' their row index', triang(lo)))
ASSUME = ['debug output of compressed.hpp is off (g_debug_compressed is false, its initial value)']
HARNESS = "C06.cpp"
BOUND = "all edge sequences of length at most 3 on at most 3 vertices, seeded random lists up to 40 vertices and up to 15000 edges"
BOUNDED = ["swap_to_triangular(string)", "the parallel std::unique / sort on proxy iterators themselves"]
