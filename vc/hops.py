"""hop distance from a root: the mathematical definition as axioms over an uninterpreted D (every graph has such a D)"""
from speclib import *

INF = 2**40


class Hops:
    def __init__(self, ex, c, root, own):
        self.ex, self.c = ex, c
        n, m, T = c.n, c.m, c.T
        D = self.D = z3.Function('D', Int, Int)
        at = self.at = z3.Function('at', Int, Bool)        # instantiation trigger only
        pe = self.pe = z3.Function('pe', Int, Int)
        sv = self.sv = z3.Function('somev', Int, Int)
        x, e, L = z3.Ints('x e L')
        ex.assume(D(root) == 0)
        ex.assume(FA([x], And(D(x) >= 0, Imp(D(x) == 0, x == root), Imp(D(x) < INF, And(0 <= x, x < n, D(x) < n)), D(x) <= INF), [D(x)]))
        ex.assume(FA([e], Imp(And(rng(0, e, m), D(own(e)) < INF), D(T[e]) <= D(own(e)) + 1), [T[e]]))
        # a vertex at positive finite distance has an in-edge from a vertex one hop nearer
        pred = lambda x: Imp(And(D(x) > 0, D(x) < INF), And(0 <= pe(x), pe(x) < m, T[pe(x)] == x, D(own(pe(x))) == D(x) - 1, at(own(pe(x)))))
        ex.assume(FA([x], pred(x), [mark(x)]))
        ex.assume(FA([L], pred(sv(L)), [sv(L)]))
        # somev(L): some vertex at distance L, when there is one (choice)
        ex.assume(FA([L, x], Imp(And(0 <= L, L < INF, D(x) == L), And(D(sv(L)) == L)), [z3.MultiPattern(sv(L), D(x))]))
        # lemma: an empty level leaves nothing at or beyond it (induction on the distance)
        l0, d = z3.Ints('l0 d!')
        goals = [('levels/base', Imp(And(0 <= l0, l0 < INF, D(sv(l0)) != l0), D(x) != l0)),
                 ('levels/step', Imp(And(0 <= l0, l0 <= d, d + 1 < INF, FA([e], D(e) != d, [D(e)]), mark(x)), D(x) != d + 1))]
        lemma(ex, 'levels', goals, FA([L, x], Imp(And(0 <= L, L < INF, D(sv(L)) != L, D(x) < INF), D(x) < L), [z3.MultiPattern(sv(L), D(x))]))
