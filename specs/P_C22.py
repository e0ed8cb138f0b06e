"""C22: parallel_for / parallel_reduce.  The scheduler contract used is one split of the range (the real splitting constructor) with the body
applied to both pieces and, for reductions, the two results joined; the range handed in is an arbitrary sub-range, so this is the
induction step for every split tree.  Operations: increments (an element applied twice or not at all is visible) and sums."""
from speclib import *

k = z3.Int('k')


def intervals(ex, L, D, D0, one, lo, hi, n=None):
    """which stretches of the range are done, which are untouched"""
    n = hi if n is None else n
    done = lambda a, b: FA([k], Imp(And(a <= k, k < b), D[k] == one(k)), [D[k]])
    un = lambda a, b: FA([k], Imp(And(a <= k, k < b), D[k] == D0[k]), [D[k]])
    out = [('untouched before the range', un(0, lo)), ('untouched after the range', un(hi, n))]
    for q in L.idxlike():
        pts = [('lo', lo), ('hi', hi)] + [('b%d' % i, b) for i, b in enumerate(L.bounds) if b.sort() == Int] + [('b%d+1' % i, b + 1) for i, b in enumerate(L.bounds) if b.sort() == Int] + [('entry', q.entry)]
        out.append(('in range ' + q.name, And(lo <= q.sym, q.sym <= hi)))
        for a, x in pts:
            out.append(('done %s..%s' % (a, q.name), done(x, q.sym)))
            out.append(('untouched %s..%s' % (q.name, a), un(q.sym, x)))
            out.append(('done %s..hi' % a, done(x, hi)))
            out.append(('done lo..%s' % a, done(lo, x)))
            out.append(('untouched %s..hi' % a, un(x, hi)))
            out.append(('untouched lo..%s' % a, un(lo, x)))
    return out


def each(kind):
    """every element of [lo,hi) is hit exactly once, nothing else is touched"""
    def f(ex):
        ex.handlers = std_handlers(ex)
        n = ex.int('n', 32 if kind == 'vertex' else 64, 0, 2**31 - 1 if kind == 'vertex' else 2**39)
        if kind == 'flat':
            a = ex.array('a', 32, n.e)
            lo, hi, cut = [ex.int(x, 64, 0, 2**39) for x in ('lo', 'hi', 'cutoff')]
            ex.assume(And(lo.e <= hi.e, hi.e <= n.e))
            ex.params = [ex.ptr(a), n, lo, hi, cut]
            lo, hi, nm, w = lo.e, hi.e, 'a', 32
        elif kind == 'seq':
            a = ex.array('a', 32, n.e)
            ex.params = [ex.ptr(a), n]
            lo, hi, nm, w = z3.IntVal(0), n.e, 'a', 32
        else:
            h = ex.array('hits', 64, n.e)
            ex.params = [ex.ptr(h), n]
            lo, hi, nm, w = z3.IntVal(0), n.e, 'hits', 64
        D0 = ex.init.mem[(nm, 0)]
        one = lambda x: (x + 1) % 2**w

        def cands(ex, L, st):
            return intervals(ex, L, st.mem[(nm, 0)], D0, lambda k: one(D0[k]), lo, hi, n.e)

        def post(ex, st, r):
            D = st.mem[(nm, 0)]
            return [('the operation is applied exactly once to every element of the range', FA([k], Imp(And(lo <= k, k < hi), D[k] == one(D0[k])))),
                    ('and to nothing else', FA([k], Imp(And(rng(0, k, n.e), Or(k < lo, hi <= k)), D[k] == D0[k])))]
        ex.cand_fn, ex.post_fn = cands, post
    return f


def each_neighbors(ex):
    c = CSR(ex)
    ex.assume(And(c.n < 2**31, c.n >= 1))
    h = ex.array('hits', 64, c.n)
    D0 = ex.init.mem[('hits', 0)]
    ex.params = csr_params(ex, c) + [ex.ptr(h)]
    ex.handlers = std_handlers(ex)
    one = lambda k: (D0[k] + (c.I[k + 1] - c.I[k] + 1)) % 2**64

    def cands(ex, L, st):
        return intervals(ex, L, st.mem[('hits', 0)], D0, one, 1, c.n)

    def post(ex, st, r):
        D = st.mem[('hits', 0)]
        return [('the operation is applied exactly once to every (vertex, neighbours) pair of the range', FA([k], Imp(And(1 <= k, k < c.n), D[k] == one(k)))),
                ('and to nothing else', D[0] == D0[0])]
    ex.cand_fn, ex.post_fn = cands, post


def total(ex, S, step, hi, bound, pats):
    """S(k+1) = S(k) + step(k), 0 <= S(k) <= bound*k"""
    ex.assume(S(0) == 0)
    for p in pats(k):
        ex.assume(FA([k], Imp(rng(0, k, hi), S(k + 1) == S(k) + step(k)), [z3.MultiPattern(S(k), p)]))
    induct_up(ex, S.name() + ' bounded', z3.IntVal(0), hi, lambda q: And(S(q) >= 0, S(q) <= q * bound, *[Or(q == hi, p >= 0) for p in pats(q)]),
              use=FA([k], Imp(And(0 <= k, k <= hi), And(S(k) >= 0, S(k) <= k * bound)), [S(k)]))
    kk, j = z3.Int('ind!k'), z3.Int('ind!j')
    lemma(ex, S.name() + ' grows', [(S.name() + ' grows/base', Imp(rng(0, j, hi + 1), S(j) <= S(j))),
                                    (S.name() + ' grows/step', Imp(And(0 <= j, j <= kk, kk < hi, S(j) <= S(kk), step(kk) >= 0, *[Or(p >= 0) for p in pats(kk)]), S(j) <= S(kk + 1)))],
          FA([k, z3.Int('l')], Imp(And(0 <= k, k <= z3.Int('l'), z3.Int('l') <= hi), S(k) <= S(z3.Int('l'))), [z3.MultiPattern(S(k), S(z3.Int('l')))]))


def reduce(kind):
    def f(ex):
        ex.handlers = std_handlers(ex)
        S, init = z3.Function('S', Int, Int), 0
        if kind == 'flat':
            n = ex.int('n', 64, 0, 2**31 - 1)
            a = ex.array('a', 32, n.e)
            A = ex.init.mem[('a', 0)]
            lo, hi, cut = [ex.int(x, 64, 0, 2**31 - 1) for x in ('lo', 'hi', 'cutoff')]
            ex.assume(And(lo.e <= hi.e, hi.e <= n.e))
            ex.params = [ex.ptr(a), n, lo, hi, cut]
            total(ex, S, lambda k: A[k] + 1, n.e, 2**32, lambda k: [A[k]])
            W, lo, hi, own = [S], lo.e, hi.e, None
        else:
            c = CSR(ex)
            ex.assume(And(c.n < 2**31, c.n >= 1, c.m < 2**31))
            ex.params = csr_params(ex, c)
            if kind == 'nbr':
                total(ex, S, lambda k: c.I[k + 1] - c.I[k] + k, c.n, 2**32, lambda k: [c.I[k]])
                W, lo, hi = [S], z3.IntVal(1), c.n
            else:
                own = c.owner()
                total(ex, S, lambda e: own(e) + c.T[e], c.m, 2**32, lambda e: [c.T[e]])
                lo, hi, init = ex.int('lo', 64, 0, 2**31), ex.int('hi', 64, 0, 2**31), ex.int('init', 64, 0, 2**60)
                ex.assume(And(lo.e <= hi.e, hi.e <= c.n))
                ex.params += [lo, hi, init]
                W, lo, hi, init = [S, lambda q: S(c.I[q])], lo.e, hi.e, init.e
                ex.assume(And(c.I[lo] <= c.I[hi], S(c.I[lo]) <= S(c.I[hi])))

        def cands(ex, L, st):
            out = []
            cur = L.idxlike()
            for l in L.chain():
                if l is not L:
                    cur = cur + [q for q in l.idxlike() if q not in cur]
            for q in cur:
                out.append(('in range ' + q.name, And(lo <= q.sym, q.sym <= hi)))
                pass
            if kind == 'edge':
                ids = L.idxlike()
                qs = [(q.name, q.sym, q) for q in ids] + [('0', z3.IntVal(0), None)]
                qs += [('%s+1' % q.name, q.sym + 1, q) for l in L.chain() if l is not L for q in l.idxlike()]
                for r in ids:
                    out += [('rows since %s%+d are empty' % (r.name, d), c.I[r.sym + d] == c.I[r.entry + d]) for d in (0, 1)]
                for nm, q, ph in qs:
                    if ph in ids:
                        out.append(('%s at end' % nm, q == c.m))
                    for r in ids:
                        if r is not ph:
                            for d in (0, 1, -1):
                                rr = r.sym + d
                                out.append(('%s first of row %s%+d' % (nm, r.name, d), And(0 <= rr, rr <= c.n, q == c.I[rr])))
                                out.append(('%s in row %s%+d' % (nm, r.name, d), And(0 <= rr, rr < c.n, c.I[rr] <= q, q < c.I[rr + 1])))
                                out.append(('%s limit of row %s%+d' % (nm, r.name, d), And(0 <= rr, rr < c.n, q == c.I[rr + 1])))
                                out.append(('%s up to row %s%+d' % (nm, r.name, d), And(0 <= rr, rr < c.n, c.I[rr] <= q, q <= c.I[rr + 1])))
            for p in L.ints(64):
                for q in cur:
                    for f in W:
                        out.append(('%s = S(%s)-S(lo)' % (p.name, q.name), p.sym == init + f(q.sym) - W[-1](lo)))
                        for l in L.chain():
                            for z in l.idxlike():
                                out.append(('%s = S(%s)-S(entry %s)' % (p.name, q.name, z.name), p.sym == init + f(q.sym) - W[-1](z.entry)))
            return out

        def post(ex, st, r):
            T = W[-1](hi) - W[-1](lo)
            return [('the reduction is the fold of op over every element of the range, each once', ex.dom.uns(r) == init + T)]
        ex.cand_fn, ex.post_fn = cands, post
    return f


def maximum(ex):
    ex.handlers = std_handlers(ex)
    n = ex.int('n', 64, 0, 2**31 - 1)
    a = ex.array('a', 32, n.e)
    A = ex.init.mem[('a', 0)]
    lo, hi, cut = [ex.int(x, 64, 0, 2**31 - 1) for x in ('lo', 'hi', 'cutoff')]
    init = ex.int('init', 64, 0, 2**63)
    ex.assume(And(lo.e <= hi.e, hi.e <= n.e))
    ex.params = [ex.ptr(a), n, lo, hi, cut, init]
    lo, hi, init = lo.e, hi.e, init.e

    def ub(a_, b, v):
        return FA([k], Imp(And(a_ <= k, k < b), A[k] + 1 <= v), [A[k]])

    def reached(a_, b, v):
        return Or(v == init, EX([k], And(a_ <= k, k < b, A[k] + 1 == v)))

    def cands(ex, L, st):
        out = []
        cur = [q for l in L.chain() for q in l.idxlike()]
        for q in cur:
            out.append(('in range ' + q.name, And(lo <= q.sym, q.sym <= hi)))
        for p in L.ints(64):
            out.append(('%s from init' % p.name, p.sym >= init))
            for q in cur:
                out.append(('%s bounds lo..%s' % (p.name, q.name), ub(lo, q.sym, p.sym)))
                out.append(('%s reached in lo..%s' % (p.name, q.name), reached(lo, q.sym, p.sym)))
                out.append(('%s bounds entry..%s' % (p.name, q.name), ub(q.entry, q.sym, p.sym)))
                out.append(('%s reached in entry..%s' % (p.name, q.name), reached(q.entry, q.sym, p.sym)))
        return out

    def post(ex, st, r):
        v = ex.dom.uns(r)
        return [('the maximum is at least the initial value', v >= init), ('the maximum bounds every element', ub(lo, hi, v)),
                ('the maximum is the initial value or that of an element of the range', reached(lo, hi, v))]
    ex.cand_fn, ex.post_fn = cands, post


P = 'every element of an arbitrary (sub-)range is visited exactly once, whether or not the range splits'
FUNCS = [FS('nw::graph::parallel_for, parallel_for_sequential, parallel_for_inner (iterators)', 'par.cpp', 'vp_pfor', P, each('flat')),
         FS('nw::graph::parallel_for (vertex_range)', 'par.cpp', 'vp_pfor_v', P, each('vertex')),
         FS('nw::graph::parallel_for (neighbor_range: tuple elements)', 'par.cpp', 'vp_pfor_n', P, each_neighbors),
         FS('nw::graph::parallel_for_sequential', 'par.cpp', 'vp_pfs', P, each('seq')),
         FS('nw::graph::parallel_reduce (iterators)', 'par.cpp', 'vp_pred', P, reduce('flat')),
         FS('nw::graph::parallel_reduce (iterators, maximum)', 'par.cpp', 'vp_pred_max', 'the result is the fold of an idempotent operation over the range and the initial value, which it is for an empty range', maximum),
         FS('nw::graph::parallel_reduce (neighbor_range)', 'par.cpp', 'vp_pred_n', P, reduce('nbr')),
         FS('nw::graph::parallel_for_sequential with reduction (edge_range)', 'par.cpp', 'vp_pred_e', 'an arbitrary piece of an edge range is folded into the running total, every edge once', reduce('edge'))]
ASSUME = ['tbb::parallel_for / parallel_reduce split the range with its splitting constructor while it is divisible, apply the body to every piece and join neighbouring results',
          'ranges have fewer than 2^31 elements (2^39 for parallel_for over iterators)']
HARNESS = 'C22.cpp'
BOUND = 'ranges of up to 400 elements with five cutoffs, random graphs of up to 300 vertices, real TBB scheduling'
BOUNDED = ['nw::graph::parallel_for / parallel_reduce over cyclic ranges and divisible edge ranges', 'the same functions under real TBB scheduling']
