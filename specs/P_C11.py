"""C11: single-source shortest paths.  Distances are compared with an arbitrary feasible potential D: D(source) = 0 and
D(T[e]) <= D(own(e)) + W[e] for every edge.  The result r is itself feasible (so r(v) is at most the length of every path to v) and
r(v) >= D(v) for every such D (so r(v) is at least the shortest distance, and infinite when v is unreachable: D may be the shortest distance)."""
from speclib import *
from values import *

INF = 2**64 - 1
BIG = 2**62
e, x = z3.Ints('e x')


def post(ex, st, r, c, own, D, s):
    n, m, T, W = c.n, c.m, c.T, c.W
    A = st.mem[(r.base.name, 0)]
    return [('the source has distance 0', A[s.e] == 0),
            ('no distance is larger than over any edge', FA([e], Imp(And(rng(0, e, m), A[own(e)] < INF), A[T[e]] <= A[own(e)] + W[e]))),
            ('no distance is below the shortest path', FA([x], Imp(And(0 <= x, x < n), A[x] >= D(x)))),
            ('every finite distance is a sum that does not wrap', FA([x], Imp(And(0 <= x, x < n), Or(A[x] == INF, A[x] < BIG))))]


def dijkstra(ex):
    c = CSR(ex, weights=True)
    own = c.owner()
    s = ex.int('source', 32)
    n, m, I, T, W = c.n, c.m, c.I, c.T, c.W
    ex.assume(s.e < n)
    ex.assume(n < 2**31)      # (N is computed as a difference of 32-bit iterators)
    D = z3.Function('D', Int, Int)
    ex.assume(D(s.e) <= 0)
    ex.assume(FA([x], And(D(x) <= INF), [D(x)]))
    ex.assume(FA([e], Imp(rng(0, e, m), D(T[e]) <= D(own(e)) + W[e]), [T[e]]))
    g = ex.array('QP', 64, None)
    ex.params = csr_params(ex, c) + [ex.ptr(c.w), s]
    H = ex.handlers = std_handlers(ex, layouts={16: {0: 64, 8: 32}})
    ex.filled, pq = [], {}
    f0 = H['vp_fill64']

    def fill(ex, i, args, st, R, b):
        k = (args[0].base.name, 0)
        if k not in ex.filled:
            ex.filled.append(k)
        return f0(ex, i, args, st, R, b)
    H['vp_fill64'] = fill

    def top(ex, i, args, st, R, b):
        v = ex.dom.fresh(ex.fname_fresh('top'), 64)
        ex.facts.append((And(v.e >= 0, Imp(args[0].e > 0, v.e < args[0].e)), None))
        return v
    H['vp_pq_top'] = top

    def put(ex, st, b, R, f):
        old, new = ex.havoc(st, b, g, 0)
        ex.facts.append((f(old, new), None))

    def pushed(ex, i, args, st, R, b):
        o = pq['o'] = args[0].base
        V, X = st.mem[(o.name, 8)], st.mem[(o.name, 0)]
        y = V[args[1].e]
        old, new = ex.havoc(st, b, g, 0)
        ex.facts.append((new == z3.Store(old, y, args[1].e), None))
        # machine arithmetic: distances that are queued are lengths of simple paths
        ex.fact(R, X[args[1].e] < BIG)
    H['vp_pq_pushed'] = pushed

    def popped(ex, i, args, st, R, b):
        o = pq['o'] = args[0].base
        V = st.mem[(o.name, 8)]
        y = V[args[2].e]
        pq['u'] = V[args[1].e]
        old, new = ex.havoc(st, b, g, 0)
        ex.facts.append((new == z3.Store(old, y, If(old[y] == args[2].e, args[1].e, old[y])), None))
    H['vp_pq_popped'] = popped
    ex.generic = False

    def cands(ex, L, st):
        out = []
        ps = [p for l in L.chain() for p in l.phis if p.kind == 'int']
        mine = [p for p in L.phis if p.kind == 'int']
        it = ex.role_idx('tgt', 'load')
        inner = len(list(L.chain())) > 1
        for key in ex.filled:
            A = st.mem[key]
            out += [('feasible ' + key[0], FA([x], Imp(And(0 <= x, x < n), And(A[x] >= D(x), Or(A[x] == INF, A[x] < BIG))), [A[x]])),
                    ('source ' + key[0], A[s.e] == 0)]
            relaxed = lambda q: A[T[q]] <= A[own(q)] + W[q]
            if 'o' in pq:
                V, QP = st.mem[(pq['o'].name, 8)], st.mem[('QP', 0)]
                for sz in mine:
                    if sz.sym.get_id() in it:
                        continue
                    queued = lambda y: And(0 <= QP[y], QP[y] < sz.sym, V[QP[y]] == y)
                    out.append(('queue %s' % sz.name, FA([x], Imp(And(0 <= x, x < sz.sym), And(0 <= V[x], V[x] < n, A[V[x]] < BIG)), [V[x]])))
                    if not inner:
                        out.append(('relaxed or queued %s %s' % (key[0], sz.name), FA([e], Imp(And(rng(0, e, m), A[own(e)] < INF), Or(relaxed(e), queued(own(e)))), [T[e]])))
                    elif 'u' in pq:
                        u = pq['u']
                        out.append(('scanned vertex is reached ' + key[0], And(0 <= u, u < n, A[u] < BIG)))
                        for q in mine:
                            if q.sym.get_id() in it:
                                out.append(('relaxed, queued or later %s %s %s' % (key[0], sz.name, q.name), FA([e], Imp(And(rng(0, e, m), A[own(e)] < INF),
                                            Or(relaxed(e), queued(own(e)), And(own(e) == u, e >= q.sym))), [T[e]])))
        if inner and 'u' in pq:
            for q in mine:
                if q.sym.get_id() in it:
                    out += [('cursor %s in row' % q.name, And(I[pq['u']] <= q.sym, q.sym <= I[pq['u'] + 1])), ('cursor %s strictly in row' % q.name, q.sym < I[pq['u'] + 1])]
        for p in mine:
            if p.sym.get_id() not in it:
                out += [('%s positive' % p.name, 1 <= p.sym), ('%s small' % p.name, And(0 <= p.sym, p.sym <= 2**40))]
            for q in mine:
                if p is not q and p.sym.get_id() not in it and q.sym.get_id() not in it:
                    out.append(('%s below %s' % (q.name, p.name), And(0 <= q.sym, Imp(p.sym > 0, q.sym < p.sym))))
        return out

    ex.cand_fn, ex.post_fn = cands, lambda ex, st, r: post(ex, st, r, c, own, D, s)


def delta(ex):
    c = CSR(ex, weights=True)
    own = c.owner()
    s = ex.int('source', 32)
    n, m, I, T, W = c.n, c.m, c.I, c.T, c.W
    ex.assume(s.e < n)
    D = z3.Function('D', Int, Int)
    ex.assume(D(s.e) <= 0)
    ex.assume(FA([x], And(D(x) <= INF), [D(x)]))
    ex.assume(FA([e], Imp(rng(0, e, m), D(T[e]) <= D(own(e)) + W[e]), [T[e]]))
    bin = z3.Function('bin', Int, Int)      # bin(x) = x / delta: monotone, bin(0) = 0
    y = z3.Int('y')
    ex.assume(bin(0) == 0)
    ex.assume(FA([x, y], Imp(And(0 <= x, x <= y), And(0 <= bin(x), bin(x) <= bin(y))), [z3.MultiPattern(bin(x), bin(y))]))
    ex.assume(FA([x], Imp(0 <= x, bin(x) <= x), [bin(x)]))
    qp, fp = ex.array('QP', 64, None), ex.array('FP', 64, None)      # ghost: where a vertex's last entry is, in the log / the frontier
    ex.params = csr_params(ex, c) + [ex.ptr(c.w), s]
    H = ex.handlers = std_handlers(ex)
    ex.filled, q = [], {}
    f0 = H['vp_fill64']

    def fill(ex, i, args, st, R, b):
        k = (args[0].base.name, 0)
        if k not in ex.filled:
            ex.filled.append(k)
        return f0(ex, i, args, st, R, b)
    H['vp_fill64'] = fill

    def h_bin(ex, i, args, st, R, b):
        v = ex.dom.fresh(ex.fname_fresh('bin'), 64)
        ex.fact(R, v.e == bin(args[0].e))
        return v
    H['vp_delta_bin'] = h_bin

    def h_mul(ex, i, args, st, R, b):
        v = ex.dom.fresh(ex.fname_fresh('mul'), 64)
        ex.facts.append((FA([x], Imp(And(0 <= x, x < 2**63), (x >= v.e) == (bin(x) >= args[0].e)), [bin(x)]), None))
        return v
    H['vp_delta_mul'] = h_mul

    def pushed(ex, i, args, st, R, b):
        q['v'], q['b'] = args[0].base, args[1].base
        v = st.mem[(q['v'].name, 0)][args[2].e]
        old, new = ex.havoc(st, b, qp, 0)
        ex.facts.append((new == z3.Store(old, v, args[2].e), None))
        for k in ex.filled if ex.blk_loop.get(b) else []:      # machine arithmetic: finite distances are lengths of simple paths
            ex.fact(R, st.mem[k][v] < BIG)
    H['vp_bins_pushed'] = pushed

    def take(ex, i, args, st, R, b):
        F, v, w = args[0].base, args[1].base, args[2].base
        q['f'], q['v'], q['b'] = F, v, w
        sz, t = args[3].e, args[4].e
        V, B = st.mem[(v.name, 0)], st.mem[(w.name, 0)]
        _, F1 = ex.havoc(st, b, F, 0)
        _, V1 = ex.havoc(st, b, v, 0)
        _, B1 = ex.havoc(st, b, w, 0)
        Q0, Q1 = ex.havoc(st, b, qp, 0)
        _, P1 = ex.havoc(st, b, fp, 0)
        nf, left = ex.dom.fresh(ex.fname_fresh('taken'), 64), ex.dom.fresh(ex.fname_fresh('left'), 64)
        q['nf'], q['left'], q['t'] = nf, left, t
        fn = lambda a: z3.Function(ex.fname_fresh(a), Int, Int)
        to, st_, fto, fst = fn('to'), fn('stays'), fn('from'), fn('stayed')
        k = z3.Int('k')
        A = lambda f: ex.facts.append((f, None))
        A(And(0 <= nf.e, 0 <= left.e, nf.e <= sz, left.e <= sz))
        A(FA([k], Imp(And(0 <= k, k < sz, B[k] == t), And(0 <= to(k), to(k) < nf.e, F1[to(k)] == V[k])), [to(k)]))
        A(FA([k], Imp(And(0 <= k, k < sz, B[k] != t), And(0 <= st_(k), st_(k) < left.e, V1[st_(k)] == V[k], B1[st_(k)] == B[k])), [st_(k)]))
        A(FA([k], Imp(And(0 <= k, k < nf.e), And(0 <= fto(k), fto(k) < sz, F1[k] == V[fto(k)], B[fto(k)] == t)), [F1[k]]))
        for a in (V1, B1):
            A(FA([k], Imp(And(0 <= k, k < left.e), And(0 <= fst(k), fst(k) < sz, V1[k] == V[fst(k)], B1[k] == B[fst(k)], B1[k] != t)), [a[k]]))
        # ghost positions
        A(FA([k], And(Q1[k] == If(And(0 <= Q0[k], Q0[k] < sz, B[Q0[k]] != t), st_(Q0[k]), INF)), [Q1[k]]))
        A(FA([k], And(P1[k] == If(And(0 <= Q0[k], Q0[k] < sz, B[Q0[k]] == t), to(Q0[k]), INF)), [P1[k], Q1[k]]))
        return nf
    H['vp_bins_take'] = take
    H['vp_bins_left'] = lambda ex, i, args, st, R, b: q['left']

    def count(ex, i, args, st, R, b):
        v = ex.dom.fresh(ex.fname_fresh('count'), 64)
        B, k = st.mem[(args[0].base.name, 0)], z3.Int('k')
        q['cn'], q['cnb'] = args[1].e, args[3].e
        sz = args[1].e
        A, V, QP = st.mem[ex.filled[0]], st.mem[(q['v'].name, 0)], st.mem[('QP', 0)]
        left = FA([e], Imp(And(rng(0, e, m), A[own(e)] < INF), Or(A[T[e]] <= A[own(e)] + W[e], And(0 <= QP[own(e)], QP[own(e)] < sz, V[QP[own(e)]] == own(e),
                  B[QP[own(e)]] == bin(A[own(e)])))), [T[e]])
        ex.oblige('after a frontier every edge is relaxed or its source is queued', 'assert', R, left, i)
        w = z3.Int(ex.fname_fresh('some'))
        ex.facts.append((v.e >= 0, None))
        ex.facts.append((Imp(v.e == 0, FA([k], Imp(And(0 <= k, k < args[1].e), B[k] != args[2].e), [B[k]])), None))
        ex.facts.append((Imp(v.e > 0, And(0 <= w, w < args[1].e, B[w] == args[2].e)), None))
        return v
    H['vp_bins_size'] = count
    ex.generic = False

    def cands(ex, L, st):
        out = []
        mine = [p for p in L.phis if p.kind == 'int']
        ints = [p for l in L.chain() for p in l.phis if p.kind == 'int']
        it = ex.role_idx('tgt', 'load')
        if 'v' not in q:
            return out
        A = st.mem[ex.filled[0]]
        V, B, QP, FP = st.mem[(q['v'].name, 0)], st.mem[(q['b'].name, 0)], st.mem[('QP', 0)], st.mem[('FP', 0)]
        out += [('feasible', FA([x], Imp(And(0 <= x, x < n), And(A[x] >= D(x), Or(A[x] == INF, A[x] < BIG))), [A[x]])), ('source', A[s.e] == 0)]
        relaxed = lambda e: A[T[e]] <= A[own(e)] + W[e]
        cursor = [p for p in mine if p.sym.get_id() in it]
        ch = list(L.chain())
        fcur, fl = None, None
        if 'f' in q:
            F = st.mem[(q['f'].name, 0)]
            ids = ex.role_idx(q['f'].name, 'load')
            for l in ch:
                for p in l.phis:
                    if (p.kind == 'ptr' and p.base is q['f']) or (p.kind == 'int' and p.sym.get_id() in ids):
                        fcur, fl = p, l
            nf, t = q['nf'].e, q['t']
            infront = lambda v, f: And(f <= FP[v], FP[v] < nf, F[FP[v]] == v, bin(A[v]) == t)
        if fcur is not None:
            f = fcur.sym
            out += [('frontier', FA([x], Imp(And(0 <= x, x < nf), And(0 <= F[x], F[x] < n, A[F[x]] < BIG)), [F[x]])),
                    ('frontier cursor', And(0 <= f, f < nf)), ('bin number kept', And(0 <= t, t <= 2**40))]
            out += [('bins stay ' + p.name, t < p.sym) for p in mine if p not in cursor and p is not fcur]
            if fl is not L:
                u = F[f]
                out.append(('scanned vertex', And(0 <= u, u < n, A[u] < BIG, bin(A[u]) >= t)))
                for p in cursor:
                    out += [('cursor in row', And(I[u] <= p.sym, p.sym < I[u + 1]))]
        if fcur is None and len(ch) > 1 and 'cn' in q:
            out += [('%s small' % p.name, And(0 <= p.sym, p.sym <= 2**40)) for p in mine]
            out += [('%s is a bin' % p.name, p.sym < q['cnb']) for p in mine]
            return out + [('bins from ' + p.name, FA([x], Imp(And(0 <= x, x < q['cn']), p.sym <= B[x]), [B[x]])) for p in mine]
        for sz in mine:
            if sz in cursor or sz is fcur:
                continue
            out += [('%s small' % sz.name, And(0 <= sz.sym, sz.sym <= 2**40))]
            queued = lambda v: And(0 <= QP[v], QP[v] < sz.sym, V[QP[v]] == v, B[QP[v]] == bin(A[v]))
            out.append(('log ' + sz.name, FA([x], Imp(And(0 <= x, x < sz.sym), And(0 <= V[x], V[x] < n, A[V[x]] < BIG)), [V[x]])))
            for p in mine:
                if p is not sz and p not in cursor and p is not fcur:
                    out.append(('bins of %s below %s' % (sz.name, p.name), FA([x], Imp(And(0 <= x, x < sz.sym), B[x] < p.sym), [B[x]])))
                    if fcur is None:
                        out.append(('bins of %s from %s' % (sz.name, p.name), FA([x], Imp(And(0 <= x, x < sz.sym), And(p.sym >= 0, p.sym <= B[x])), [B[x]])))
                        out.append(('%s < %s' % (sz.name, p.name), sz.sym < p.sym))
            base = lambda e: Or(relaxed(e), queued(own(e)))
            if fcur is None:
                out.append(('relaxed or queued ' + sz.name, FA([e], Imp(And(rng(0, e, m), A[own(e)] < INF), base(e)), [T[e]])))
            else:
                out.append(('bins of %s kept' % sz.name, FA([x], Imp(And(0 <= x, x < sz.sym), t <= B[x]), [B[x]])))
                if fl is L:
                    out.append(('relaxed, queued or in the frontier ' + sz.name, FA([e], Imp(And(rng(0, e, m), A[own(e)] < INF), Or(base(e), infront(own(e), f))), [T[e]])))
                else:
                    for p in cursor:
                        out.append(('relaxed, queued, in the frontier or later ' + sz.name, FA([e], Imp(And(rng(0, e, m), A[own(e)] < INF),
                                    Or(base(e), infront(own(e), f + 1), And(own(e) == u, e >= p.sym))), [T[e]])))
        return out
    ex.cand_fn, ex.post_fn = cands, lambda ex, st, r: post(ex, st, r, c, own, D, s)


FUNCS = [FS('nw::graph::dijkstra', 'sssp.cpp', 'vp_dijkstra', 'the distances are the shortest ones, infinite exactly for unreachable vertices', dijkstra),
         FS('nw::graph::delta_stepping (sequential)', 'delta.cpp', 'vp_delta_stepping', 'the distances are the shortest ones, for every bucket width', delta)]
ASSUME = ['the distances the algorithms queue are below 2^62 (each is the length of a simple path, so this holds when n * maximal weight < 2^62); weights are 32 bit unsigned',
          'dijkstra: fewer than 2^31 vertices (the vertex count is computed as a 32-bit iterator difference)',
          'delta_stepping: bucket arithmetic is x / delta >= t iff x >= delta * t, x / delta <= x, monotone (integer division with delta >= 1, no overflow)',
          'std::priority_queue / the bins are bags: top() is any stored element, the order inside a bin is arbitrary (weaker than the library: what is proved does not depend on the order)',
          'termination is not proved']
HARNESS = 'C11.cpp'
BOUND = 'all directed graphs on up to 3 vertices with seeded weights (unit, 0-3, 0-20), 150 (thorough 2000) random graphs on up to 24 vertices, every source, four bucket widths; distances beyond 2^32; one thread'
BOUNDED = ['delta_stepping (parallel overload), delta_stepping_m1', 'experimental delta_stepping_v6, v8, v9, v10, v11', 'dijkstra with the default weight function and with a signed distance type']
