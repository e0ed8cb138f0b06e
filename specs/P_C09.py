"""C09: triangle counting"""
from speclib import *
from graphspec import Inter


def tc(ex):
    c = CSR(ex)
    c.sorted_rows(strict=True)
    own = c.owner()
    t = Inter(ex, c, own)
    ex.params = csr_params(ex, c)
    ex.handlers = std_handlers(ex)
    S = z3.Function('S', Int, Int)
    e, u = z3.Ints('e u')
    ex.assume(S(0) == 0)
    ex.assume(FA([e], Imp(rng(0, e, c.m), S(e + 1) == S(e) + t.K(own(e), c.T[e])), [z3.MultiPattern(S(e), c.T[e])]))
    induct_up(ex, 'S bounded', z3.IntVal(0), c.m, lambda k: And(S(k) >= 0, S(k) <= k * 2**32, Or(k == c.m, c.T[k] >= 0)),
              use=FA([e], Imp(And(0 <= e, e <= c.m), And(S(e) >= 0, S(e) <= e * 2**32)), [S(e)]))

    def cands(ex, L, st):
        out = []
        es = ex.phis_in(L, ex.role_idx('tgt', 'load'))
        us = ex.phis_in(L, ex.role_idx('ind', 'load'))
        tot = [p for l in L.chain() for p in l.ints(64) if p not in es]
        for p in [p for p in L.ints(64) if p not in es]:
            for q in es:
                out.append(('total %s = S(%s)' % (p.name, q.name), p.sym == S(q.sym)))
            for q in us:
                if q is not p and q in L.phis:
                    out.append(('total %s = S(row %s)' % (p.name, q.name), p.sym == S(c.I[q.sym])))
        par = [p for l in L.chain() if l is not L for p in l.phis if p in es]
        for q in par:
            out += t.cands(L, own(q.sym), c.T[q.sym])
        for q in es:
            if q in L.phis:
                for w in us:
                    out.append(('%s in row %s' % (q.name, w.name), And(c.I[w.sym] <= q.sym, q.sym <= c.I[w.sym + 1])))
        return out
    ex.cand_fn = cands
    ex.post_fn = lambda ex, st, r: [('result = sum over stored edges (u,v) of |N(u) cap N(v)|', ex.dom.uns(r) == S(c.m))]


FUNCS = [FS('nw::graph::triangle_count(const GraphT&)', 'tc.cpp', 'vp_tc', 'sorted duplicate-free rows: result = sum over stored edges (u,v) of |N(u) cap N(v)|', tc)]
ASSUME = []
HARNESS = "C09.cpp"
BOUND = "all graphs on at most 5 vertices (4 for threaded variants), seeded random graphs up to 40 vertices, 1..40 threads"
BOUNDED = ["nw::graph::triangle_count(G, threads)", "nw::graph::triangle_count_async", "nw::graph::triangle_count_v1..v15"]
