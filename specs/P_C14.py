"""C14: disjoint sets.  Ghost state: rt(x), the representative of x's set, and ht(x), a ranking of the parent forest (ht = 0 exactly for
representatives).  wf: P[x] is in range, has the same representative and, unless x is its own parent, a smaller ht."""
from speclib import *


def setup(ex):
    n = ex.int('n', 64, 0, 2**32 - 1)
    s = ex.array('s', 32, n.e, fields={0: 32, 8: 64}, stride=16)
    ex.handlers = std_handlers(ex)
    P = ex.init.mem[('s', 0)]
    rt, ht = z3.Function('rt', Int, Int), z3.Function('ht', Int, Int)
    x = z3.Int('x')
    V = lambda q: And(0 <= q, q < n.e)
    ex.assume(FA([x], Imp(V(x), And(V(P[x]), rt(P[x]) == rt(x), V(rt(x)), P[rt(x)] == rt(x), rt(rt(x)) == rt(x), ht(x) >= 0,
                                    Imp(P[x] != x, ht(P[x]) < ht(x)), (P[x] == x) == (rt(x) == x), (ht(x) == 0) == (rt(x) == x))), [P[x]]))
    ex.assume(FA([x], Imp(V(x), And(V(rt(x)), P[rt(x)] == rt(x), rt(rt(x)) == rt(x), ht(x) >= 0, (ht(x) == 0) == (rt(x) == x))), [rt(x)]))
    ex.terminate = True
    R0 = ex.init.mem[('s', 8)]
    return n, s, P, R0, rt, ht, V


def compressed(P, P1, V, rt):
    """every parent is the old one or the representative"""
    x = z3.Int('x')
    return FA([x], Imp(V(x), Or(P1[x] == P[x], P1[x] == rt(x))), [P1[x]])


def cands_for(ex, P, V, rt, ht, seeds, extra=None):
    def cands(ex_, L, st):
        P1 = st.mem[('s', 0)]
        out = [('compressed', compressed(P, P1, V, rt))]
        for p in L.idxlike():
            out.append(('valid[%s]' % p.name, V(p.sym)))
            for nm, u in seeds:
                out.append(('same[%s,%s]' % (p.name, nm), rt(p.sym) == rt(u)))
                out.append(('is[%s,%s]' % (p.name, nm), p.sym == u))
        if extra:
            out += extra(L, st)
        return out
    ex.cand_fn = cands

    def variants(ex_, L, st):
        return [('ht[%s]' % p.name, ht(p.sym)) for p in L.idxlike()]
    ex.variant_fn = variants


def find(ex):
    n, s, P, R0, rt, ht, V = setup(ex)
    v = ex.int('x', 32)
    ex.assume(V(v.e))
    ex.params = [ex.ptr(s), n, v]
    cands_for(ex, P, V, rt, ht, [('arg', v.e)])
    x = z3.Int('x')

    def post(ex, st, r):
        P1 = st.mem[('s', 0)]
        return [('the result is the representative of the argument', ex.dom.uns(r) == rt(v.e)),
                ('the parents still form the same forest of sets', wf(P1, V, rt, ht)),
                ('ranks are unchanged', FA([x], st.mem[('s', 8)][x] == R0[x]))]
    ex.post_fn = post


def wf(P1, V, rt, ht):
    x = z3.Int('x')
    return FA([x], Imp(V(x), And(V(P1[x]), rt(P1[x]) == rt(x), Imp(P1[x] != x, ht(P1[x]) < ht(x)), (P1[x] == x) == (rt(x) == x))))


def union(check):
    def f(ex):
        n, s, P, R0, rt, ht, V = setup(ex)
        u, v = ex.int('u', 32), ex.int('v', 32)
        ex.assume(V(u.e))
        ex.assume(V(v.e))
        ex.params = [ex.ptr(s), n, u, v]
        cands_for(ex, P, V, rt, ht, [('u', u.e), ('v', v.e)])
        ru, rv = rt(u.e), rt(v.e)

        def post(ex, st, r):
            P1 = st.mem[('s', 0)]
            w = P1[ru]                       # the surviving representative
            x, y = z3.Ints('x y')

            def rt1(q):
                return If(Or(rt(q) == ru, rt(q) == rv), w, rt(q))

            def ht1(q):
                return If(And(Or(rt(q) == ru, rt(q) == rv), rt(q) != w), ht(q) + 1, ht(q))
            out = [('the representative of the merged set is one of the two', And(Or(w == ru, w == rv), P1[w] == w)),
                   ('exactly the two sets are merged', FA([x], Imp(V(x), And(V(P1[x]), rt1(P1[x]) == rt1(x), (P1[x] == x) == (rt1(x) == x))))),
                   ('the parents still form a forest', FA([x], Imp(V(x), Or(P1[x] == x, ht1(P1[x]) < ht1(x)))))]
            if check:
                out.append(('reports whether the sets were different', (r.c if isinstance(r, BV1) else r.e == 1) == (ru != rv)))
            return out
        ex.post_fn = post
    return f


FUNCS = [FS('nw::graph::disjoint_find', 'dsu.cpp', 'vp_dj_find', 'returns the representative, keeps every set, terminates', find),
         FS('nw::graph::disjoint_union', 'dsu.cpp', 'vp_dj_union', 'merges exactly the two sets, terminates', union(False)),
         FS('nw::graph::disjoint_union_find', 'dsu.cpp', 'vp_dj_union_find', 'merges exactly the two sets, reports whether they differed, terminates', union(True))]
ASSUME = ['ghost rt/ht exist for every parent array that is a forest (they are its root and depth functions)']
HARNESS = "C14.cpp"
BOUND = "all union sequences on up to 5 elements of length up to 3, seeded random sequences up to 40 elements; weighted edge lists on up to 12 vertices"
BOUNDED = ["nw::graph::kruskal (std::sort over zipped columns, spanning forest of minimum weight)", "nw::graph::disjoint_set<T> (class)"]
