"""contract vocabulary for edge lists: columns s, t (and w) of m entries over n vertices; counting functions"""
from speclib import *


class EdgeList:
    def __init__(self, ex, bipartite=False, weights=0):
        self.ex = ex
        self.mv = ex.int('m', 64, 0, 2**31 - 1)
        self.n0v = ex.int('n', 64, 0, 2**32 - 2)
        self.n1v = ex.int('n1', 64, 0, 2**32 - 2) if bipartite else self.n0v
        self.m, self.n = self.mv.e, (self.n0v.e, self.n1v.e)
        self.o = [ex.array('src', 32, self.m), ex.array('dst', 32, self.m)]
        self.c = [ex.init.mem[('src', 0)], ex.init.mem[('dst', 0)]]
        k = z3.Int('k')
        for q in (0, 1):
            ex.assume(FA([k], Imp(rng(0, k, self.m), And(0 <= self.c[q][k], self.c[q][k] < self.n[q])), [self.c[q][k]]))
        self.params = [ex.ptr(self.o[0]), ex.ptr(self.o[1])]
        if weights:
            self.w = ex.array('wgt', 64, self.m)
            self.W = ex.init.mem[('wgt', 0)]
            self.params.append(ex.ptr(self.w))
        self.params += [self.mv, self.n0v] + ([self.n1v] if bipartite else [])
        ex.extra_bounds += [self.m]


def counter(ex, name, cols, m, rel):
    """C(v,k): number of positions j<k with rel(col[j], v), summed over the columns; 0 <= C <= #cols * k"""
    C = z3.Function(name, Int, Int, Int)
    v, k = z3.Ints('v k')
    ex.assume(FA([v], C(v, 0) == 0, [C(v, 0)]))
    one = lambda v, k: sum(If(rel(c[k], v), 1, 0) for c in cols)
    for c in cols:
        ex.assume(FA([v, k], Imp(rng(0, k, m), C(v, k + 1) == C(v, k) + one(v, k)), [z3.MultiPattern(C(v, k), c[k])]))
    lv, K = z3.Int('l!v'), len(cols)
    tk = [c[z3.Int('ind!k')] >= 0 for c in cols]
    kk = z3.Int('ind!k')
    P = lambda q: And(0 <= C(lv, q), C(lv, q) <= K * q)
    lemma(ex, name + ' bounds', [(name + ' bounds/base', P(z3.IntVal(0))),
                                 (name + ' bounds/step', Imp(And(0 <= kk, kk < m, P(kk), *tk), P(kk + 1)))],
          FA([v, k], Imp(And(0 <= k, k <= m), And(0 <= C(v, k), C(v, k) <= K * k)), [C(v, k)]))
    return C


def spec_array(ex, name, m, term):
    """a specification sequence: name[k] = term(k) for 0 <= k < m"""
    a = z3.Array(name, Int, Int)
    k = z3.Int('k')
    ex.assume(FA([k], Imp(rng(0, k, m), a[k] == term(k)), [a[k]]))
    return a


def sorted_rows_lemma(ex, m):
    """for an arbitrary sequence S of length m, sorted: (S[p] < v) = (p < number of entries less than v).  Proved here by induction for
    an arbitrary S; use(...) states it of a concrete sorted sequence"""
    S = z3.Array('S!l', Int, Int)
    C = z3.Function('CS!l', Int, Int, Int)
    v, k, p, q = z3.Ints('l!v ind!k l!p l!q')
    H = And(m >= 0, FA([p, q], Imp(And(0 <= p, p < q, q < m), S[p] <= S[q]), [z3.MultiPattern(S[p], S[q])]),
            C(v, 0) == 0, FA([p], Imp(rng(0, p, m), C(v, p + 1) == C(v, p) + If(S[p] < v, 1, 0)), [S[p]]))
    P = lambda k: And(0 <= C(v, k), C(v, k) <= k, FA([p], Imp(rng(0, p, k), (S[p] < v) == (p < C(v, k))), [S[p]]))
    x = z3.Int('l!x')
    P1 = lambda k: And(0 <= C(v, k), C(v, k) <= k, Imp(rng(0, x, k), (S[x] < v) == (x < C(v, k))))
    lemma(ex, 'sorted rows', [('sorted rows/base', Imp(H, P1(z3.IntVal(0)))),
                              ('sorted rows/step', Imp(And(H, 0 <= k, k < m, P(k), mark(S[k]), mark(S[C(v, k)]), mark(S[x])), P1(k + 1)))], [])
