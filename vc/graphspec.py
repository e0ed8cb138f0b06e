"""shared contract vocabulary for neighbourhood intersections and triangle counts"""
from speclib import *


class Inter:
    """P(v,i): number of positions k<i whose target is a neighbour of v (prefix counts); |N(u) cap N(v)| = P(v,hi u) - P(v,lo u)
    for rows without repeated targets"""

    def __init__(self, ex, c, own=None):
        self.ex, self.c = ex, c
        self.adj = c.membership()
        P = self.P = z3.Function('P', Int, Int, Int)
        v, k, h, w = z3.Ints('v k h w')
        T, m, adj = c.T, c.m, self.adj
        ex.assume(FA([v], P(v, 0) == 0, [P(v, 0)]))
        ex.assume(FA([v, k], Imp(rng(0, k, m), P(v, k + 1) == P(v, k) + If(adj(v, T[k]), 1, 0)), [z3.MultiPattern(P(v, k), T[k])]))
        lv, lh = z3.Ints('l!v l!h')
        # monotone, slope at most 1
        Q = lambda k: And(P(lv, k) <= P(lv, lh), P(lv, lh) - P(lv, k) <= lh - k, T[k] == T[k])
        g = [('P monotone/base', Q(lh)),
             ('P monotone/step', Imp(And(0 <= k, k < lh, lh <= m, P(lv, k + 1) <= P(lv, lh), P(lv, lh) - P(lv, k + 1) <= lh - k - 1, T[k] >= 0,
                                         P(lv, k) <= P(lv, k)), And(P(lv, k) <= P(lv, lh), P(lv, lh) - P(lv, k) <= lh - k)))]
        lemma(ex, 'P monotone', g, FA([v, k, h], Imp(And(0 <= k, k <= h, h <= m), And(P(v, k) <= P(v, h), P(v, h) - P(v, k) <= h - k)),
                                      [z3.MultiPattern(P(v, k), P(v, h))]))
        # no member in between or a witness
        ww = z3.Function('ww', Int, Int, Int, Int)
        some = lambda kk: EX([w], And(kk <= w, w < lh, adj(lv, T[w])), patterns=[T[w]])
        g = [('P witness/base', Or(P(lv, lh) == P(lv, lh))),
             ('P witness/step', Imp(And(0 <= k, k < lh, lh <= m, Or(P(lv, k + 1) == P(lv, lh), some(k + 1)), T[k] >= 0, P(lv, k) >= P(lv, k)),
                                    Or(P(lv, k) == P(lv, lh), some(k))))]
        lemma(ex, 'P witness', g, FA([v, k, h], Imp(And(0 <= k, k <= h, h <= m), Or(P(v, k) == P(v, h),
                                     And(k <= ww(v, k, h), ww(v, k, h) < h, adj(v, T[ww(v, k, h)])))), []))
        w0 = ex.pre.pop()       # the lemma, instantiated only at row ends (Pend)
        E = self.E = z3.Function('Pend', Int, Int, Int)
        u = z3.Int('u')
        ex.assume(FA([v, u], E(v, u) == P(v, c.I[u + 1]), [E(v, u)]))
        hh = c.I[u + 1]
        ex.assume(FA([v, k, u], Imp(And(0 <= k, k <= hh, hh <= m), Or(P(v, k) == P(v, hh),
                     And(k <= ww(v, k, hh), ww(v, k, hh) < hh, adj(v, T[ww(v, k, hh)])))), [z3.MultiPattern(P(v, k), E(v, u))]))

    def K(self, u, v):
        return self.E(v, u) - self.P(v, self.c.I[u])

    def cands(self, L, u, v, base=None):
        """candidates of the merge loop over rows u and v"""
        ex, P, c = self.ex, self.P, self.c
        I, T = c.I, c.T
        out = []
        k = z3.Int('k')
        js = [p for p in ex.phis_in(L, ex.role_idx('tgt', 'load')) if p in L.phis]
        for (x, y) in ((u, v), (v, u)):
            for p in js:
                lo = I[x] if base is None or x is not u else base
                for cnt in [q for q in L.ints(64) if q not in js]:
                    out.append(('cnt %s = matches of row %s before %s' % (cnt.name, x, p.name), cnt.sym == cnt.entry + P(y, p.sym) - P(y, lo)))
                for q in js:
                    if p is q:
                        continue
                    for cmp, nm in ((lambda a, b: a < b, '<'),):
                        out.append(('row %s before %s %s row %s from %s' % (x, p.name, nm, y, q.name),
                                    FA([k], Imp(And(I[x] <= k, k < p.sym, q.sym < I[y + 1]), cmp(T[k], T[q.sym])), [T[k]])))
        return out
