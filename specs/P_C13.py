"""C13: maximal independent set"""
from speclib import *


def mis(ex):
    c = CSR(ex)
    own = c.owner()
    c.symmetric(own)
    out = ex.array('out', 64, None)
    ex.params = csr_params(ex, c) + [ex.ptr(out)]
    ex.handlers = std_handlers(ex)
    I, T, n = c.I, c.T, c.n
    a, b, e, x = z3.Ints('a b e x')

    def rem(st):
        ks = [k for k in st.mem if k[0].startswith('heap') and ex.objs[k[0]].fields.get(k[1]) == 8 and k[0] in ex.heap]
        return ks

    def indep(O, cnt):
        return FA([a, b, e], Imp(And(0 <= a, a < cnt, 0 <= b, b < cnt, a != b, c.row(O[a], e)), T[e] != O[b]),
                  [z3.MultiPattern(O[a], O[b], T[e])])

    
    def cands(ex, L, st):
        out = []
        O = st.mem[('out', 0)]
        ks = rem(st)
        if not ks:
            return out
        R = st.mem[ks[0]]
        cnts = ex.phis_in(L, ex.role_idx('out', 'store'))
        vs = ex.phis_in(L, ex.role_val('out'))
        js = ex.phis_in(L, ex.role_idx('tgt', 'load'))
        for p in cnts:
            for d in ((0,) if p in L.phis else (0, 1)):
                cn = p.sym + d
                nm = '%s+%d' % (p.name, d)
                out.append(('indep[%s]' % nm, indep(O, cn)))
                out.append(('inc[%s]' % nm, FA([a, b], Imp(And(0 <= a, a < b, b < cn), O[a] < O[b]), [z3.MultiPattern(O[a], O[b])])))
                out.append(('removed-by-out[%s]' % nm, FA([x], Imp(And(mark(x), 0 <= x, x < n, R[x] != 0),
                            EX([a, e], And(0 <= a, a < cn, c.row(O[a], e), T[e] == x), patterns=[z3.MultiPattern(O[a], T[e])])), [mark(x)])))
                out.append(('nbrs-removed[%s]' % nm, FA([a, e], Imp(And(0 <= a, a < cn, c.row(O[a], e)), R[T[e]] != 0), [z3.MultiPattern(O[a], T[e])])))
                for q in vs:
                    if q is p:
                        continue
                    out.append(('below[%s,%s]' % (nm, q.name), FA([a], Imp(And(0 <= a, a < cn), O[a] < q.sym + d), [O[a]])))
                    out.append(('covered[%s,%s]' % (nm, q.name), FA([x], Imp(And(mark(x), 0 <= x, x < q.sym + d),
                                Or(R[x] != 0, EX([a], And(0 <= a, a < cn, O[a] == x), patterns=[O[a]]))), [mark(x)])))
                    if not d:       # a member is recorded only after its row
                        out.append(('removed-by-out-or-current[%s,%s]' % (nm, q.name), FA([x], Imp(And(mark(x), 0 <= x, x < n, R[x] != 0),
                            Or(EX([a, e], And(0 <= a, a < cn, c.row(O[a], e), T[e] == x), patterns=[z3.MultiPattern(O[a], T[e])]),
                               EX([e], And(c.row(q.sym, e), T[e] == x), patterns=[T[e]]))), [mark(x)])))
                        out.append(('covered-but-current[%s,%s]' % (nm, q.name), FA([x], Imp(And(mark(x), 0 <= x, x < q.sym),
                                Or(R[x] != 0, EX([a], And(0 <= a, a < cn, O[a] == x), patterns=[O[a]]))), [mark(x)])))
                        out.append(('current-not-adjacent[%s,%s]' % (nm, q.name), FA([a, e], Imp(And(0 <= a, a < cn, c.row(O[a], e)),
                                    T[e] != q.sym), [z3.MultiPattern(O[a], T[e])])))
                        for w in js:
                            if w is p or w in vs:
                                continue
                            for off in (w.sym, I[q.sym] + w.sym):
                                out.append(('nbrs-removed-part-current[%s,%s]' % (q.name, off),
                                    FA([e], Imp(And(c.row(q.sym, e), e < off), R[T[e]] != 0), [T[e]])))
                    if d:
                        out.append(('last[%s,%s]' % (nm, q.name), And(O[p.sym] == q.sym)))
                if d:
                    for q in js:
                        if q is p or q in vs:
                            continue
                        for off in (q.sym, I[O[p.sym]] + q.sym):
                            out.append(('nbrs-removed-part[%s,%s]' % (nm, off),
                                    FA([e], Imp(And(c.row(O[p.sym], e), e < off), R[T[e]] != 0), [T[e]])))
        return out

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        cn = ex.dom.uns(r)
        return [('members are vertices, strictly increasing', FA([a, b], Imp(And(0 <= a, a < b, b < cn), And(O[a] < O[b])))),
                ('members are valid vertex ids', FA([a], Imp(And(0 <= a, a < cn), And(O[a] >= 0, O[a] < n)))),
                ('independent: no stored edge joins two distinct members', indep(O, cn)),
                ('maximal: every vertex is a member or has a member neighbour',
                 FA([x], Imp(And(mark(x), 0 <= x, x < n), Or(EX([a], And(0 <= a, a < cn, O[a] == x), patterns=[O[a]]),
                                                    EX([a, e], And(0 <= a, a < cn, c.row(O[a], e), T[e] == x), patterns=[z3.MultiPattern(O[a], T[e])])))))]
    ex.cand_fn, ex.post_fn = cands, post


HARNESS = "C13.cpp"
BOUND = "all undirected graphs on at most 5 vertices, seeded random graphs up to 40 vertices"
BOUNDED = ["nw::graph::dag_based_mis"]

FUNCS = [FS('nw::graph::maximal_independent_set', 'mis.cpp', 'vp_mis',
            'for every symmetric CSR graph the appended vertices are strictly increasing, independent and maximal; all accesses in bounds', mis)]
ASSUME = []
