"""C15: range partitioning.  Pieces may come in either order: the property is that they are disjoint, in order and cover."""
from speclib import *

N31 = 2**31 - 1


def bl(r):
    return r.c if isinstance(r, BV1) else r.e == 1


def pieces(O, a, b):
    s0, s1, r0, r1 = [O[j] for j in range(4)]
    return [('the two pieces are consecutive, disjoint and cover the range',
             Or(And(s0 == a, s1 == r0, r1 == b), And(r0 == a, r1 == s0, s1 == b))),
            ('no piece is inverted', And(s0 <= s1, r0 <= r1))]


def smaller(O, a, b, div):
    s0, s1, r0, r1 = [O[j] for j in range(4)]
    return [('a divisible range splits into two smaller ones', Imp(div, And(s1 - s0 < b - a, r1 - r0 < b - a)))]


def sra(ex):
    n, a, b, cut = ex.int('n', 64, 0, 2**40), ex.int('a', 64), ex.int('b', 64), ex.int('cutoff', 64, 1, 2**62)
    d = ex.array('d', 32, n.e)
    o = ex.array('out', 64, 8)
    ex.assume(And(a.e <= b.e, b.e <= n.e))
    ex.params = [ex.ptr(d), n, a, b, cut, ex.ptr(o)]

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        return pieces(O, a.e, b.e) + smaller(O, a.e, b.e, bl(r)) + [
            ('size', O[4] == b.e - a.e), ('empty', (O[5] == 1) == (a.e == b.e)), ('an indivisible range is no longer than the cutoff', Or(bl(r), b.e - a.e <= cut.e))]
    ex.post_fn = post


def graph(ex, hasempty=True):
    n, m = ex.int('n', 64, 0, N31), ex.int('m', 64, 0, 2**32 - 2)
    ind, tgt = ex.array('ind', 32, n.e + 1), ex.array('tgt', 32, m.e)
    a, b = ex.int('a', 64, 0, N31), ex.int('b', 64, 0, N31)
    o = ex.array('out', 64, 8)
    ex.assume(And(a.e <= b.e, b.e <= n.e))
    ex.params = [ex.ptr(ind), n, ex.ptr(tgt), m, a, b, ex.ptr(o)]
    ex.handlers = std_handlers(ex)

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        out = pieces(O, a.e, b.e) + smaller(O, a.e, b.e, bl(r)) + [('size', O[4] == b.e - a.e)]
        if hasempty:
            out.append(('empty', (O[5] == 1) == (a.e == b.e)))
        return out
    ex.post_fn = post


def vertex(ex):
    a, b = ex.int('a', 32, 0, N31), ex.int('b', 32, 0, N31)
    o = ex.array('out', 64, 8)
    ex.assume(a.e <= b.e)
    ex.params = [a, b, ex.ptr(o)]

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        return pieces(O, a.e, b.e) + smaller(O, a.e, b.e, bl(r)) + [('size', O[4] == b.e - a.e), ('empty', (O[5] == 1) == (a.e == b.e))]
    ex.post_fn = post


def blk(ex):
    N, n, i = ex.int('N', 64, 0, 2**62), ex.int('n', 64, 1, 2**62), ex.int('id', 64, 0, 2**62)
    o = ex.array('out', 64, 8)
    ex.assume(i.e + 1 < n.e)
    ex.params = [N, n, i, ex.ptr(o)]
    q, r = ex.dom.divmod(N.e, n.e)
    ex.assume(q >= 0)                      # (consequences of the definition of quotient and remainder, proved here)
    lemma(ex, 'quotient bounds', [('products', And((i.e + 1) * q <= N.e, (i.e + 2) * q <= N.e, i.e * q <= N.e, i.e * q + q == (i.e + 1) * q, (i.e + 1) * q + q == (i.e + 2) * q,
                                                   (i.e + 2) * q + r <= N.e, Imp(i.e + 2 == n.e, (i.e + 2) * q + r == N.e),
                                                   Imp(q >= 1, n.e <= N.e)))],
          And((i.e + 1) * q <= N.e, (i.e + 2) * q <= N.e, i.e * q <= N.e, i.e * q + q == (i.e + 1) * q, (i.e + 1) * q + q == (i.e + 2) * q,
              (i.e + 2) * q + r <= N.e, Imp(i.e + 2 == n.e, (i.e + 2) * q + r == N.e), Imp(q >= 1, n.e <= N.e)))

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        return [('consecutive pieces meet', O[1] == O[2]), ('pieces are not inverted and stay within [0,N]', And(0 <= O[0], O[0] <= O[1], O[2] <= O[3], O[3] <= N.e)),
                ('piece sizes differ by at most one', And(O[1] - O[0] - (O[3] - O[2]) <= 1, O[3] - O[2] - (O[1] - O[0]) <= 1))]
    ex.post_fn = post


def blk_end(ex):
    N, n = ex.int('N', 64, 0, 2**62), ex.int('n', 64, 1, 2**62)
    o = ex.array('out', 64, 8)
    ex.params = [N, n, ex.ptr(o)]
    q, r = ex.dom.divmod(N.e, n.e)
    lemma(ex, 'quotient bounds', [('products', And((n.e - 1) * q <= N.e, (n.e - 1) * q + q == n.e * q, n.e * q + r == N.e, q <= N.e, Imp(q >= 1, n.e <= N.e)))],
          And((n.e - 1) * q <= N.e, (n.e - 1) * q + q == n.e * q, n.e * q + r == N.e, q <= N.e, Imp(q >= 1, n.e <= N.e)))

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        return [('the first piece starts at 0', O[0] == 0), ('the last piece ends at N', O[3] == N.e), ('pieces are not inverted', And(O[0] <= O[1], O[2] <= O[3]))]
    ex.post_fn = post


def cyc_pre(ex, extra):
    n, cy, s, p = ex.int('n', 64, 0, 2**40), ex.int('cycle', 64, 0, 2**30), ex.int('stride', 64, 1, 2**30), ex.int('p', 64, 0, 2**41)
    d = ex.array('d', 32, n.e)
    o = ex.array('out', 64, 8)
    ex.assume(cy.e < s.e)
    ex.params = [ex.ptr(d), n, cy, s, p, ex.ptr(o)]
    return n.e, cy.e, s.e, p.e


def cycsplit(ex):
    n, cy, s, p = cyc_pre(ex, None)

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        return [('both pieces step by twice the stride', And(O[1] == 2 * s, O[3] == 2 * s)),
                ('one piece keeps the residue, the other takes the next one', Or(And(O[2] == cy, O[0] == cy + s), And(O[0] == cy, O[2] == cy + s))),
                ('both pieces keep the underlying range and the cutoff', O[4] == 1)]
    ex.post_fn = post


def cyc(ex):
    n, cy, s, p = cyc_pre(ex, None)

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        sz, end = O[2], O[1]
        return [('the cycle begins at its residue', O[0] == cy),
                ('the end is begin + size*stride', end == cy + sz * s), ('size is not negative', sz >= 0),
                ('the last element is inside the range', Imp(sz > 0, cy + (sz - 1) * s < n)),
                ('nothing of the residue class is left out', end >= n),
                ('iteration stops exactly at the end', (O[3] == 1) == (p != end)),
                ('a step advances by the stride', O[4] == p + s),
                ('empty exactly when size is zero', (O[5] == 1) == (sz == 0))]
    ex.post_fn = post
    # the three divisions the code performs, related: n = q*s + r decides the number of steps
    q, r = ex.dom.divmod(n, s)
    t, u = ex.dom.divmod(n - cy, s)
    lemma(ex, 'steps', [('steps', And(Imp(n - cy > 0, Or(And(t == q, u == r - cy), And(t == q - 1, u == r - cy + s))), Imp(n - cy <= 0, And(t == 0, u == n - cy))))],
          And(Imp(n - cy > 0, Or(And(t == q, u == r - cy), And(t == q - 1, u == r - cy + s))), Imp(n - cy <= 0, And(t == 0, u == n - cy))))


def cycderef(ex):
    n, s, p = ex.int('n', 64, 0, 2**40), ex.int('stride', 64, 1, 2**30), ex.int('p', 64, 0, 2**41)
    d = ex.array('d', 32, n.e)
    o = ex.array('val', 32, 1)
    ex.assume(p.e < n.e)
    D = ex.init.mem[('d', 0)]
    ex.params = [ex.ptr(d), n, s, p, ex.ptr(o)]
    ex.post_fn = lambda ex, st, r: [('dereference yields the position and the element at it', And(ex.dom.uns(r) == p.e, st.mem[('val', 0)][0] == D[p.e]))]


FUNCS = [FS('nw::graph::splittable_range_adaptor(split)', 'ranges.cpp', 'vp_split_sra', 'pieces consecutive, disjoint, covering', sra),
         FS('nw::graph::neighbor_range(split)', 'ranges.cpp', 'vp_split_neighbor', 'pieces consecutive, disjoint, covering', graph),
         FS('nw::graph::edge_range(split)', 'ranges.cpp', 'vp_split_edge', 'pieces consecutive, disjoint, covering', lambda ex: graph(ex, False)),
         FS('nw::graph::vertex_range(split)', 'ranges.cpp', 'vp_split_vertex', 'pieces consecutive, disjoint, covering', vertex),
         FS('nw::graph::block', 'ranges.cpp', 'vp_block', 'consecutive blocks meet, balanced', blk),
         FS('nw::graph::block (ends)', 'ranges.cpp', 'vp_block_end', 'first block starts at 0, last ends at N', blk_end),
         FS('nw::graph::cyclic_range_adaptor(split)', 'ranges.cpp', 'vp_cyc_split', 'residue classes cycle and cycle+stride modulo 2*stride', cycsplit),
         FS('nw::graph::cyclic_neighbor_range(split)', 'ranges.cpp', 'vp_cycn_split', 'residue classes cycle and cycle+stride modulo 2*stride', cycsplit),
         FS('nw::graph::cyclic_range_adaptor begin/end/size/empty/++', 'ranges.cpp', 'vp_cyc', 'visits exactly cycle, cycle+stride, ... below n', cyc),
         FS('nw::graph::cyclic_neighbor_range begin/end/size/empty/++', 'ranges.cpp', 'vp_cycn', 'visits exactly cycle, cycle+stride, ... below n', cyc),
         FS('nw::graph::cyclic_neighbor_range::iterator::operator*', 'ranges.cpp', 'vp_cycn_deref', 'position and element', cycderef)]
ASSUME = ['fewer than 2^31 vertices (outer iterators subtract in a signed 32-bit type)', 'cutoff >= 1']
HARNESS = "C15.cpp"
BOUND = "ranges of 0..300 elements, recursive splitting to exhaustion, block counts up to 40"
BOUNDED = ["nw::graph::parallel_for over these ranges (TBB schedules)", "pow2/ceil_log2 of the cutoff"]
