"""C16: AtomicBitVector.  Bit-precise domain (SMT bit-vectors), so machine arithmetic is exact here.
The word array is shared memory: before every access other threads may have set further bits (rely), and every write of ours must
only set the requested bit (guarantee); a set that is not one atomic read-modify-write cannot meet the guarantee."""
from speclib import *
from values import BVDom

BVs = z3.BitVecSort(64)


def c(v):
    return z3.BitVecVal(v, 64)


def words(bits):
    return z3.LShR(bits, c(6)) + If(bits & c(63) != 0, c(1), c(0))


def bit(D, k):
    return z3.Extract(0, 0, z3.LShR(D[z3.LShR(k, c(6))], k & c(63))) == 1


def base(ex, shared=False):
    bits = ex.int('bits', 64)
    n = words(bits.e)
    d = ex.array('d', 64, n)
    ex.handlers = std_handlers(ex)
    D = ex.init.mem[('d', 0)]
    return bits, n, d, D


def sharing(ex, D, allowed):
    w = z3.BitVec('w!s', 64)
    ex.objs['gh'] = Obj('gh', 'array', ex.dom, 8, {0: 64}, None)
    ex.init.mem[('gh', 0)] = z3.K(BVs, c(0))       # ghost: number of times this call changed a bit

    def rely(a, x):
        return FA([w], x[w] & a[w] == a[w], [x[w]])

    def guar(e, st, b, a, x):
        g = st.mem[('gh', 0)]
        e.modified(b, ('gh', 0))
        q = z3.BitVec('q!s', 64)
        iw, mask = allowed
        st.mem[('gh', 0)] = z3.Store(g, c(0), g[c(0)] + If(a[iw] != x[iw], c(1), c(0)))
        return [('a write changes nothing but the requested bit, and sets it', And(FA([q], Imp(q != iw, x[q] == a[q])), x[iw] == a[iw] | mask))]
    ex.shared = {'d': (rely, guar)}


def get(ex, shared=False):
    bits, n, d, D = base(ex)
    i = ex.int('i', 64)
    ex.assume(z3.ULT(i.e, bits.e))
    ex.params = [ex.ptr(d), bits, i]
    ex.handlers = std_handlers(ex)
    q = z3.BitVec('q', 64)

    def post(ex, st, r):
        D1 = st.mem[('d', 0)]
        return [('result is non-zero exactly when the bit is set', (r.e != 0) == bit(D, i.e)),
                ('get changes nothing', FA([q], D1[q] == D[q]))]
    ex.post_fn = post


def set_(ex):
    bits, n, d, D = base(ex)
    i = ex.int('i', 64)
    ex.assume(z3.ULT(i.e, bits.e))
    ex.params = [ex.ptr(d), bits, i]
    k = z3.BitVec('k', 64)

    def post(ex, st, r):
        D1 = st.mem[('d', 0)]
        return [('the bit is set afterwards', bit(D1, i.e)),
                ('every other bit of the words is unchanged', FA([k], Imp(And(k != i.e), bit(D1, k) == bit(D, k)))),
                ('result is non-zero exactly when the bit was set before', (r.e != 0) == bit(D, i.e))]
    ex.post_fn = post


def set_shared(ex):
    bits, n, d, D = base(ex)
    i = ex.int('i', 64)
    ex.assume(z3.ULT(i.e, bits.e))
    ex.params = [ex.ptr(d), bits, i]
    sharing(ex, D, (z3.LShR(i.e, c(6)), c(1) << (i.e & c(63))))

    def post(ex, st, r):
        g = st.mem[('gh', 0)][c(0)]
        return [('the bit is set when the call returns, whatever other threads did', bit(st.mem[('d', 0)], i.e)),
                ('exactly the call that flips the bit returns zero', And(z3.ULE(g, c(1)), (r.e == 0) == (g == c(1))))]
    ex.post_fn = post


def get_shared(ex):
    bits, n, d, D = base(ex)
    i = ex.int('i', 64)
    ex.assume(z3.ULT(i.e, bits.e))
    ex.params = [ex.ptr(d), bits, i]
    sharing(ex, D, (c(0), c(0)))
    ex.post_fn = lambda ex, st, r: [('a bit set before the call is seen; a bit seen is set',
                                     And(Imp(bit(D, i.e), r.e != 0), Imp(r.e != 0, bit(st.mem[('d', 0)], i.e))))]


def clear(ex):
    bits, n, d, D = base(ex)
    ex.params = [ex.ptr(d), bits]
    k = z3.BitVec('k', 64)

    def cands(ex, L, st):
        D1 = st.mem[('d', 0)]
        return [('zeroed[%s]' % p.name, FA([k], Imp(z3.ULT(k, p.sym), D1[k] == 0), [D1[k]])) for p in L.idxlike()]
    ex.cand_fn = cands
    ex.post_fn = lambda ex, st, r: [('every bit is clear', FA([k], Imp(z3.ULT(k, bits.e), Not(bit(st.mem[('d', 0)], k)))))]


def zeros(D, lo, hi):
    q = z3.BitVec('q', 64)
    return FA([q], Imp(And(z3.ULE(lo, q), z3.ULT(q, hi)), D[q] == 0), [D[q]])


def none(D, lw, lb, hw, hb):
    """no set bit from position (lw,lb) up to, not including, (hw,hb)"""
    w, j = z3.BitVecs('w j', 64)
    return FA([w, j], Imp(And(z3.ULT(j, c(64)), Or(z3.UGT(w, lw), And(w == lw, z3.UGE(j, lb))), Or(z3.ULT(w, hw), And(w == hw, z3.ULT(j, hb)))),
                          z3.Extract(0, 0, z3.LShR(D[w], j)) == 0))


def at(D, n, lw, lb, word, b, val):
    """(word,b) is the first set position from (lw,lb), or the end position if there is none"""
    return [('the position is the first set bit, or the end', Or(And(z3.ULT(word, n), z3.ULT(b, c(64)), z3.Extract(0, 0, z3.LShR(D[word], b)) == 1),
                                                                 And(word == n, b == 0))),
            ('no set bit is skipped', none(D, lw, lb, word, b)),
            ('the value is the position', val == (word << c(6)) + b)]


def ends(r, word, n):
    return [('equal to end() exactly when there is no further set bit', r.c == (word == n) if isinstance(r, BV1) else (r.e == 1) == (word == n))]


def scan(ex, D, lo):
    def cands(ex, L, st):
        out = []
        for p in L.idxlike():
            for nm, v in lo:
                out.append(('zeros[%s from %s]' % (p.name, nm), zeros(D, v, p.sym)))
                out.append(('zeros[%s+1 from %s]' % (p.name, nm), zeros(D, v, p.sym + 1)))
        return out
    ex.cand_fn = cands


def begin(ex):
    bits, n, d, D = base(ex)
    o = ex.array('out', 64, c(8))
    ex.params = [ex.ptr(d), bits, ex.ptr(o)]
    scan(ex, D, [('0', c(0))])

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        return at(D, n, c(0), c(0), O[c(0)], O[c(1)], O[c(2)]) + ends(r, O[c(0)], n)
    ex.post_fn = post


def nxt(postinc=False):
    def f(ex):
        bits, n, d, D = base(ex)
        o = ex.array('out', 64, c(8))
        ex.params = [ex.ptr(d), bits, ex.ptr(o)]
        O0 = ex.init.mem[('out', 0)]
        w, b = O0[c(0)], O0[c(1)]
        ex.assume(And(z3.ULT(w, n), z3.ULT(b, c(64)), z3.Extract(0, 0, z3.LShR(D[w], b)) == 1))      # a dereferenceable iterator
        scan(ex, D, [('word+1', w + c(1)), ('0', c(0))])

        def post(ex, st, r):
            O = st.mem[('out', 0)]
            out = at(D, n, w, b + c(1), O[c(0)], O[c(1)], O[c(2)]) + ends(r, O[c(0)], n)
            out.append(('the iterator advances', Or(z3.UGT(O[c(0)], w), And(O[c(0)] == w, z3.UGT(O[c(1)], b)))))
            if postinc:
                out.append(('post-increment returns the old position', And(O[c(3)] == w, O[c(4)] == b)))
            return out
        ex.post_fn = post
    return f


def split(ex):
    n, b, e, cut = [ex.int(x, 64) for x in ('n', 'b', 'e', 'cutoff')]
    d = ex.array('d', 64, n.e)
    o = ex.array('out', 64, c(8))
    ex.params = [ex.ptr(d), n, b, e, cut, ex.ptr(o)]
    ex.handlers = std_handlers(ex)
    ex.assume(And(z3.ULE(b.e, e.e), z3.ULE(e.e, n.e), z3.ULT(n.e, c(1 << 58)), z3.UGE(cut.e, c(1))))

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        s0, s1, r0, r1 = [O[c(j)] for j in range(4)]
        ord1 = And(s0 == b.e, s1 == r0, r1 == e.e)
        ord2 = And(r0 == b.e, r1 == s0, s1 == e.e)
        div = r.c if isinstance(r, BV1) else r.e == 1
        return [('the two pieces are consecutive and cover the range', Or(ord1, ord2)),
                ('no piece is inverted', And(z3.ULE(s0, s1), z3.ULE(r0, r1))),
                ('a divisible range splits into two smaller ones', Imp(div, And(z3.ULT(s1 - s0, e.e - b.e), z3.ULT(r1 - r0, e.e - b.e))))]
    ex.post_fn = post


def rng_(ex):
    n, b, e, cut = [ex.int(x, 64) for x in ('n', 'b', 'e', 'cutoff')]
    d = ex.array('d', 64, n.e)
    o = ex.array('out', 64, c(8))
    ex.params = [ex.ptr(d), n, b, e, cut, ex.ptr(o)]
    ex.handlers = std_handlers(ex)
    D = ex.init.mem[('d', 0)]
    ex.assume(And(z3.ULE(b.e, e.e), z3.ULE(e.e, n.e), z3.ULT(n.e, c(1 << 58))))
    scan(ex, D, [('b', b.e), ('e', e.e)])

    def post(ex, st, r):
        O = st.mem[('out', 0)]
        emp = r.c if isinstance(r, BV1) else r.e == 1
        return [('begin: ' + nm, f) for nm, f in at(D, n.e, b.e, c(0), O[c(0)], O[c(1)], O[c(2)])] + \
               [('end: ' + nm, f) for nm, f in at(D, n.e, e.e, c(0), O[c(3)], O[c(4)], O[c(5)])] + \
               [('size is the number of words', O[c(6)] == e.e - b.e), ('empty means no words', emp == (b.e == e.e))]
    ex.post_fn = post


_t = 'nw::graph::AtomicBitVector<uint64_t>::'
FUNCS = [FS(_t + 'get', 'bitvec.cpp', 'vp_bv_get', 'returns the bit, changes nothing', get, BVDom),
         FS(_t + 'atomic_get', 'bitvec.cpp', 'vp_bv_atomic_get', 'returns the bit, changes nothing', get, BVDom),
         FS(_t + 'atomic_get (shared)', 'bitvec.cpp', 'vp_bv_atomic_get', 'sees every bit set before, reports only set bits', get_shared, BVDom),
         FS(_t + 'set', 'bitvec.cpp', 'vp_bv_set', 'sets exactly that bit, returns its old value', set_, BVDom),
         FS(_t + 'atomic_set', 'bitvec.cpp', 'vp_bv_atomic_set', 'sets exactly that bit, returns its old value', set_, BVDom),
         FS(_t + 'set (shared)', 'bitvec.cpp', 'vp_bv_set', 'one atomic step; exactly the flipping call returns zero', set_shared, BVDom),
         FS(_t + 'atomic_set (shared)', 'bitvec.cpp', 'vp_bv_atomic_set', 'one atomic step; exactly the flipping call returns zero', set_shared, BVDom),
         FS(_t + 'clear', 'bitvec.cpp', 'vp_bv_clear', 'all bits clear', clear, BVDom),
         FS(_t + 'begin/end', 'bitvec.cpp', 'vp_bv_begin', 'first set bit, or end', begin, BVDom),
         FS(_t + 'non_zero_iterator::operator++', 'bitvec.cpp', 'vp_bv_next', 'next set bit, or end', nxt(), BVDom),
         FS(_t + 'non_zero_iterator::operator++(int)', 'bitvec.cpp', 'vp_bv_postinc', 'next set bit, or end', nxt(True), BVDom),
         FS(_t + 'non_zero_range(split)', 'bitvec.cpp', 'vp_bv_split', 'pieces consecutive, disjoint, covering', split, BVDom),
         FS(_t + 'non_zero_range::begin/end/size/empty', 'bitvec.cpp', 'vp_bv_range', 'set bits of the word range, in order', rng_, BVDom)]
ASSUME = ['threads interleave at single atomic accesses (memory orders weaker than sequential consistency are not modelled)',
          'Word = uint64_t']
HARNESS = "C16.cpp"
BOUND = "bit vectors of 0..200 bits with seeded random contents; concurrent sets from up to 8 threads"
BOUNDED = ["AtomicBitVector constructor, move constructor and destructor (allocation)"]
