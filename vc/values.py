"""Symbolic values and the two arithmetic domains (mathematical-with-exact-wrap Int, and bit-vector)."""
import z3
from ir import Unsupported


class IV:
    """w-bit machine integer. Int domain: bits = e mod 2^w, with lo<=e<=hi known syntactically.
    BV domain: e is a BitVec(w)."""
    __slots__ = ('w', 'e', 'lo', 'hi', 'lin', 'pti')

    def __init__(self, w, e, lo=None, hi=None, lin=None, pti=None):
        self.w, self.e, self.lo, self.hi, self.lin, self.pti = w, e, lo, hi, lin, pti

    def __repr__(self):
        return 'IV%d(%s)' % (self.w, self.e)


class BV1:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return 'B(%s)' % self.c


class Lin:
    """const + sum coef*expr (exprs of index sort), in bytes"""
    __slots__ = ('c', 'ts')

    def __init__(self, c=0, ts=()):
        d = {}
        for k, e in ts:
            key = e.get_id()
            if key in d:
                d[key] = (d[key][0] + k, e)
            else:
                d[key] = (k, e)
        self.c = c
        self.ts = tuple((k, e) for k, e in d.values() if k != 0)

    def __add__(self, o):
        return Lin(self.c + o.c, self.ts + o.ts)

    def neg(self):
        return Lin(-self.c, tuple((-k, e) for k, e in self.ts))

    def scale(self, m):
        return Lin(self.c * m, tuple((k * m, e) for k, e in self.ts))

    def divisible(self, m):
        return self.c % m == 0 and all(k % m == 0 for k, _ in self.ts)

    def div(self, m):
        return Lin(self.c // m, tuple((k // m, e) for k, e in self.ts))


class PV:
    """pointer: base object (None = null / absolute), optional sub-index for families, byte offset"""
    __slots__ = ('base', 'sub', 'off')

    def __init__(self, base, off=None, sub=None):
        self.base, self.off, self.sub = base, off if off is not None else Lin(0), sub

    def __repr__(self):
        return 'PV(%s%s+%s)' % (self.base.name if self.base else 'null', '[%s]' % self.sub if self.sub is not None else '',
                                 (self.off.c, self.off.ts))


class MPV:
    """guarded alternatives"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class AV:
    __slots__ = ('els',)

    def __init__(self, els):
        self.els = els


class FV:
    """float: opaque token"""
    __slots__ = ('w', 'e')

    def __init__(self, w, e):
        self.w, self.e = w, e


class UV:
    """undef / poison"""
    pass


def M(w):
    return 1 << w


class IntDom:
    name = 'int'
    isort = z3.IntSort()

    def __init__(self):
        self.divs = {}
        self.divside = []
        self.side = []       # range facts for fresh symbols

    def vsort(self, w):
        return z3.IntSort()

    def idxconst(self, v):
        return z3.IntVal(v)

    def const(self, v, w):
        v = v % M(w)
        if v >= M(w - 1) and w > 8:
            v -= M(w)
        return IV(w, z3.IntVal(v), v, v)

    def fresh(self, name, w):
        x = z3.Int(name)
        self.side.append(z3.And(x >= 0, x < M(w)))
        return IV(w, x, 0, M(w) - 1)

    def of_unsigned(self, e, w, hi=None):
        return IV(w, e, 0, M(w) - 1 if hi is None else hi)

    def uns(self, a):
        w = a.w
        if a.lo >= 0 and a.hi < M(w):
            return a.e
        if a.lo >= -M(w) and a.hi < M(w):
            return z3.If(a.e < 0, a.e + M(w), a.e)
        if a.lo >= 0 and a.hi < 2 * M(w):
            return z3.If(a.e >= M(w), a.e - M(w), a.e)
        if a.lo >= -M(w) and a.hi < 2 * M(w):
            return z3.If(a.e < 0, a.e + M(w), z3.If(a.e >= M(w), a.e - M(w), a.e))
        return z3.If(z3.And(a.e >= 0, a.e < M(w)), a.e, a.e % M(w))

    def sig(self, a):
        w = a.w
        h = M(w - 1)
        if a.lo >= -h and a.hi < h:
            return a.e
        if a.lo >= 0 and a.hi < M(w):
            return z3.If(a.e >= h, a.e - M(w), a.e)
        if a.lo >= -h and a.hi < M(w) + h:
            return z3.If(a.e >= h, a.e - M(w), a.e)
        u = self.uns(a)
        return z3.If(u >= h, u - M(w), u)

    def canon(self, a):
        if a.lo >= 0 and a.hi < M(a.w):
            return a
        return IV(a.w, self.uns(a), 0, M(a.w) - 1)

    def index(self, a):
        return self.sig(a)

    def from_index(self, e, w, lo=None, hi=None, lin=None):
        return IV(w, e, -M(w - 2) if lo is None else lo, M(w - 2) if hi is None else hi, lin=lin)

    def _cap(self, r):
        if r.lo < -M(r.w) or r.hi >= 2 * M(r.w):
            return IV(r.w, self.uns(r), 0, M(r.w) - 1)
        return r

    def isconst(self, a):
        return z3.is_int_value(a.e)

    def cval(self, a):
        return a.e.as_long()

    def binop(self, op, a, b, w, flags):
        if op == 'add':
            r = IV(w, z3.simplify(a.e + b.e) if self.isconst(a) or self.isconst(b) else a.e + b.e, a.lo + b.lo, a.hi + b.hi)
            if 'nuw' in flags and a.lo >= 0 and b.lo >= 0 and r.hi >= M(w):
                r = IV(w, r.e, r.lo, M(w) - 1)
            if 'nsw' in flags and r.hi >= M(w - 1) and a.lo >= -M(w - 1) and a.hi < M(w - 1) and b.lo >= -M(w - 1) and b.hi < M(w - 1):
                r = IV(w, r.e, max(r.lo, -M(w - 1)), min(r.hi, M(w - 1) - 1))
            if a.lin is not None and b.lin is not None:
                r.lin = a.lin + b.lin
            return self._cap(r)
        if op == 'sub':
            r = IV(w, z3.simplify(a.e - b.e) if self.isconst(a) or self.isconst(b) else a.e - b.e, a.lo - b.hi, a.hi - b.lo)
            if 'nuw' in flags and a.lo >= 0 and b.lo >= 0:
                r = IV(w, r.e, max(0, r.lo), r.hi)
            if a.lin is not None and b.lin is not None:
                r.lin = a.lin + b.lin.neg()
            return self._cap(r)
        if op == 'mul':
            if self.isconst(a) and not self.isconst(b):
                a, b = b, a
            if self.isconst(b):
                c = self.cval(b)
                x = a
                r = IV(w, x.e * c, min(x.lo * c, x.hi * c), max(x.lo * c, x.hi * c))
                if 'nuw' in flags and x.lo >= 0 and c >= 0:
                    r.hi = min(r.hi, M(w) - 1)
                if x.lin is not None:
                    r.lin = x.lin.scale(c)
                if r.lo < -M(w) or r.hi >= 2 * M(w):
                    return IV(w, self.uns(r), 0, M(w) - 1)
                return r
            ua, ub = self.uns(a), self.uns(b)
            p = ua * ub
            if 'nuw' in flags:
                return IV(w, p, 0, M(w) - 1)
            return IV(w, z3.If(p < M(w), p, p % M(w)), 0, M(w) - 1)
        if op == 'shl':
            if self.isconst(b):
                return self.binop('mul', a, self.const_raw(1 << self.cval(b), w), w, flags)
            return self.opaque('shl', a, b, w)
        if op in ('lshr', 'udiv'):
            if not self.isconst(b):
                if op == 'lshr':
                    return self.opaque('lshr', a, b, w)
                return IV(w, self.divmod(self.uns(a), self.uns(b))[0], 0, M(w) - 1)
            c = (1 << self.cval(b)) if op == 'lshr' else self.cval(b) % M(w)
            if c == 1:
                return a
            if 'exact' in flags and a.lin is not None and a.lin.divisible(c):
                l = a.lin.div(c)
                return IV(w, self.linexpr(l), a.lo // c, a.hi // c + 1, lin=l)
            u = self.canon(a)
            return IV(w, u.e / c, u.lo // c, u.hi // c)
        if op in ('ashr', 'sdiv'):
            if not self.isconst(b):
                if op == 'ashr':
                    raise Unsupported('%s by variable' % op)
                return IV(w, self.divmod(self.sig(a), self.sig(b))[0], -M(w - 1), M(w - 1) - 1)
            c = (1 << self.cval(b)) if op == 'ashr' else self.cval(b)
            if c == 1:
                return a
            if c > 0 and 'exact' in flags and a.lin is not None and a.lin.divisible(c):
                l = a.lin.div(c)
                return IV(w, self.linexpr(l), a.lo // c, a.hi // c + 1, lin=l)
            s = self.sig(a)
            if op == 'ashr' or (c > 0 and 'exact' in flags):
                return IV(w, s / c, -M(w - 1) // c, M(w - 1) // c)     # z3 int div floors for positive divisor
            if c <= 0:
                raise Unsupported('sdiv by negative')
            return IV(w, z3.If(s >= 0, s / c, -((-s) / c)), -M(w - 1) // c, M(w - 1) // c)
        if op == 'urem':
            if self.isconst(b):
                c = self.cval(b) % M(w)
                u = self.canon(a)
                return IV(w, u.e % c, 0, c - 1)
            return IV(w, self.divmod(self.uns(a), self.uns(b))[1], 0, M(w) - 1)
        if op == 'srem':
            if self.isconst(b) and self.cval(b) > 0:
                c = self.cval(b)
                s = self.sig(a)
                return IV(w, z3.If(s >= 0, s % c, -((-s) % c)), -c + 1, c - 1)
            return IV(w, self.divmod(self.sig(a), self.sig(b))[1], -M(w - 1), M(w - 1) - 1)
        if op == 'and':
            if self.isconst(a):
                a, b = b, a
            if self.isconst(b):
                c = self.cval(b) % M(w)
                if c & (c + 1) == 0:       # low mask
                    u = self.canon(a)
                    if u.hi <= c:
                        return u
                    return IV(w, u.e % (c + 1), 0, c)
                inv = (M(w) - 1) ^ c
                if inv & (inv + 1) == 0:   # clear low bits
                    u = self.canon(a)
                    return IV(w, u.e - u.e % (inv + 1), 0, M(w) - 1)
                if c & (c - 1) == 0:       # single bit
                    u = self.canon(a)
                    return IV(w, z3.If((u.e / c) % 2 == 1, z3.IntVal(c), z3.IntVal(0)), 0, c)
            return self.opaque('and', a, b, w)
        if op == 'xor':
            if self.isconst(a):
                a, b = b, a
            if self.isconst(b) and self.cval(b) % M(w) == M(w) - 1:
                return IV(w, -1 - a.e, -1 - a.hi, -1 - a.lo)
            return self.opaque('xor', a, b, w)
        if op == 'or':
            if 'disjoint' in flags:
                return self.binop('add', a, b, w, {'nuw'})
            return self.opaque('or', a, b, w)
        raise Unsupported('binop ' + op)

    def opaque(self, op, a, b, w):
        """a bit operation the integers do not have: any value with these properties (an over-approximation of the code)"""
        x, y = z3.simplify(self.uns(a)), z3.simplify(self.uns(b))
        f = z3.Function('bit!%s%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = f(x, y)
        k = ('bit', op, w, x.get_id(), y.get_id())
        if k not in self.divs:
            self.divs[k] = (r, x, y)
            fact = {'and': z3.And(r <= x, r <= y, z3.Implies(x == y, r == x)),
                    'or': z3.And(r >= x, r >= y, r <= x + y, z3.Implies(x == 0, r == y), z3.Implies(y == 0, r == x), z3.Implies(x == y, r == x)),
                    'xor': z3.And(r <= x + y, (r == 0) == (x == y), z3.Implies(x == 0, r == y), z3.Implies(y == 0, r == x), x <= r + y, y <= r + x),
                    'shl': z3.And(z3.Implies(y == 0, r == x), z3.Implies(y == 1, r == (2 * x) % M(w))),
                    'lshr': z3.And(r <= x, z3.Implies(y == 0, r == x), z3.Implies(y == 1, r == x / 2))}[op]
            self.divside.append(z3.And(r >= 0, r < M(w), fact))
            self.side.append(self.divside[-1])
        return IV(w, r, 0, M(w) - 1)

    def divmod(self, a, b):
        """quotient and remainder truncated towards zero; specified only for a positive divisor"""
        a, b = z3.simplify(a), z3.simplify(b)
        k = (a.get_id(), b.get_id())
        if k not in self.divs:
            q, r = z3.Int('quo!%d' % len(self.divs)), z3.Int('rem!%d' % len(self.divs))
            self.divs[k] = (q, r, a, b)
            self.divside.append(z3.Implies(b > 0, z3.And(a == q * b + r, z3.Implies(a >= 0, z3.And(0 <= r, r < b, 0 <= q, q <= a)),
                                                      z3.Implies(a < 0, z3.And(-b < r, r <= 0, a <= q, q <= 0)),
                                                      z3.Implies(z3.And(0 <= a, a < b), z3.And(q == 0, r == a)),
                                                      z3.Implies(z3.And(-b < a, a < 0), z3.And(q == 0, r == a)))))
            self.side.append(self.divside[-1])
        return self.divs[k][:2]

    def const_raw(self, v, w):
        return IV(w, z3.IntVal(v), v, v)

    def linexpr(self, l):
        r = z3.IntVal(l.c)
        for k, e in l.ts:
            r = r + (e if k == 1 else k * e)
        return z3.simplify(r) if not l.ts else r

    def icmp(self, pred, a, b, w):
        if pred in ('eq', 'ne'):
            def win(x):
                return x.lo >= 0 and x.hi < M(w)

            def swin(x):
                return x.lo >= -M(w - 1) and x.hi < M(w - 1)
            if (win(a) and win(b)) or (swin(a) and swin(b)) or (max(a.hi, b.hi) - min(a.lo, b.lo) < M(w)):
                c = a.e == b.e
            else:
                c = self.uns(a) == self.uns(b)
            return c if pred == 'eq' else z3.Not(c)
        if pred[0] == 'u':
            x, y = self.uns(a), self.uns(b)
        else:
            x, y = self.sig(a), self.sig(b)
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]

    def zext(self, a, w2):
        u = self.canon(a)
        return IV(w2, u.e, u.lo, u.hi, lin=a.lin if u is a else None)

    def sext(self, a, w2):
        h = M(a.w - 1)
        s = self.sig(a)
        return IV(w2, s, max(-h, a.lo) if s is a.e else -h, min(h - 1, a.hi) if s is a.e else h - 1)

    def trunc(self, a, w2):
        if a.lo >= -M(w2) and a.hi < 2 * M(w2):
            return IV(w2, a.e, a.lo, a.hi)
        u = a.e
        return IV(w2, z3.If(z3.And(u >= 0, u < M(w2)), u, u % M(w2)), 0, M(w2) - 1)

    def from_bool(self, c, w, signed=False):
        return IV(w, z3.If(c, z3.IntVal(-1 if signed else 1), z3.IntVal(0)), -1 if signed else 0, 0 if signed else 1)

    def to_bool(self, a):
        u = self.canon(a)
        if u.hi <= 1:
            return u.e == 1
        return u.e % 2 == 1

    def ite(self, c, a, b):
        if a.lo < 0 and b.hi >= M(a.w - 1) or b.lo < 0 and a.hi >= M(a.w - 1):
            a, b = self.canon(a), self.canon(b)
        return IV(a.w, z3.If(c, a.e, b.e), min(a.lo, b.lo), max(a.hi, b.hi))

    def store_val(self, a):
        return self.uns(a)

    def load_val(self, e, w):
        return IV(w, e, 0, M(w) - 1)

    def range_fact(self, e, w):
        return z3.And(e >= 0, e < M(w))

    def inb(self, idx, length):
        return z3.And(idx >= 0, idx < length)

    def ile(self, a, b):
        return a <= b


class BVDom:
    name = 'bv'
    isort = z3.BitVecSort(64)

    def __init__(self):
        self.side = []
        self.divside = []

    def vsort(self, w):
        return z3.BitVecSort(w)

    def idxconst(self, v):
        return z3.BitVecVal(v, 64)

    def const(self, v, w):
        return IV(w, z3.BitVecVal(v, w), 0, M(w) - 1)

    const_raw = const

    def fresh(self, name, w):
        return IV(w, z3.BitVec(name, w), 0, M(w) - 1)

    def of_unsigned(self, e, w, hi=None):
        return IV(w, e, 0, M(w) - 1)

    def uns(self, a):
        return a.e

    def sig(self, a):
        return a.e

    def canon(self, a):
        return a

    def isconst(self, a):
        return z3.is_bv_value(a.e)

    def cval(self, a):
        return a.e.as_long()

    def index(self, a):
        return a.e if a.w == 64 else z3.SignExt(64 - a.w, a.e)

    def from_index(self, e, w, lo=None, hi=None, lin=None):
        return IV(w, e if w == 64 else z3.Extract(w - 1, 0, e), 0, M(w) - 1, lin=lin)

    def linexpr(self, l):
        r = z3.BitVecVal(l.c, 64)
        for k, e in l.ts:
            r = r + (e if k == 1 else k * e)
        return r

    def binop(self, op, a, b, w, flags):
        x, y = a.e, b.e
        if op in ('ashr', 'lshr', 'sdiv', 'udiv') and 'exact' in flags and a.lin is not None and self.isconst(b):
            c = (1 << self.cval(b)) if 'shr' in op else self.cval(b)
            if a.lin.divisible(c):
                l = a.lin.div(c)
                return IV(w, self.linexpr(l), 0, M(w) - 1, lin=l)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << y,
             'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'sdiv': lambda: x / y,
             'urem': lambda: z3.URem(x, y), 'srem': lambda: z3.SRem(x, y), 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y}[op]()
        lin = None
        if op == 'add' and a.lin is not None and b.lin is not None:
            lin = a.lin + b.lin
        if op == 'sub' and a.lin is not None and b.lin is not None:
            lin = a.lin + b.lin.neg()
        return IV(w, r, 0, M(w) - 1, lin=lin)

    def icmp(self, pred, a, b, w):
        x, y = a.e, b.e
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()

    def zext(self, a, w2):
        return IV(w2, z3.ZeroExt(w2 - a.w, a.e), 0, M(w2) - 1)

    def sext(self, a, w2):
        return IV(w2, z3.SignExt(w2 - a.w, a.e), 0, M(w2) - 1)

    def trunc(self, a, w2):
        return IV(w2, z3.Extract(w2 - 1, 0, a.e), 0, M(w2) - 1)

    def from_bool(self, c, w, signed=False):
        return IV(w, z3.If(c, z3.BitVecVal(-1 if signed else 1, w), z3.BitVecVal(0, w)), 0, M(w) - 1)

    def to_bool(self, a):
        return z3.Extract(0, 0, a.e) == 1

    def ite(self, c, a, b):
        return IV(a.w, z3.If(c, a.e, b.e), 0, M(a.w) - 1)

    def store_val(self, a):
        return a.e

    def load_val(self, e, w):
        return IV(w, e, 0, M(w) - 1)

    def range_fact(self, e, w):
        return z3.BoolVal(True)

    def inb(self, idx, length):
        return z3.ULT(idx, length)

    def ile(self, a, b):
        return z3.ULE(a, b)
