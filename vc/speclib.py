"""Vocabulary for contracts: graph preconditions, spec functions, lemmas proved by induction, standard handlers."""
import os
import z3
import solve
import vcgen
from ir import Unsupported
from values import *
from vcgen import Exec, Obl, Obj, PV, Lin

VERBOSE_SORT = os.environ.get('VP_SORT')
Int = z3.IntSort()
Bool = z3.BoolSort()


def FA(vs, body, pats=None):
    import sys
    f = sys._getframe(1)
    q = '%s_%d' % (f.f_code.co_name.strip('<>'), f.f_lineno)
    if pats:
        return z3.ForAll(vs, body, patterns=pats, qid=q)
    return z3.ForAll(vs, body, qid=q)


EX = z3.Exists
And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


# an unconstrained predicate used only as an instantiation trigger: a goal proved under mark(x) for every interpretation of mark
# holds without it (take mark = true); it never appears in an assumption except as a pattern
mark = z3.Function('mark', Int, Bool)
from vcgen import gm      # noqa: E402
mark2 = z3.Function('mark2', Int, Int, Bool)


def rng(lo, x, hi):
    return z3.And(lo <= x, x < hi)


class LemmaSet:
    pass


def lemma(ex, name, goals, use):
    """goals: list of (label, formula) each to be proved from ex.pre; then `use` joins the preconditions."""
    if not hasattr(ex, 'lemmas'):
        ex.lemmas = []
    ex.lemmas.append((name, goals, len(ex.pre), list(ex.pre) + list(ex.dom.divside)))
    for u in (use if isinstance(use, list) else [use]):
        ex.pre.append(u)


def induct_up(ex, name, lo, hi, P, pat=None, use=None):
    """P(k) for lo<=k<=hi by upward induction"""
    k = z3.Int('ind!k')
    g = [(name + '/base', Imp(lo <= hi, P(lo))), (name + '/step', Imp(And(lo <= k, k < hi, P(k)), P(k + 1)))]
    q = z3.Int('q!' + name.replace(' ', '_'))
    u = use if use is not None else FA([q], Imp(And(lo <= q, q <= hi), P(q)), [pat(q)] if pat else None)
    lemma(ex, name, g, u)


def induct_down(ex, name, lo, hi, P, pat=None, use=None):
    k = z3.Int('ind!k')
    g = [(name + '/base', Imp(lo <= hi, P(hi))), (name + '/step', Imp(And(lo <= k, k < hi, P(k + 1)), P(k)))]
    q = z3.Int('q!' + name.replace(' ', '_'))
    u = use if use is not None else FA([q], Imp(And(lo <= q, q <= hi), P(q)), [pat(q)] if pat else None)
    lemma(ex, name, g, u)


def prove_lemmas(ex, timeout=10000):
    out = []
    for name, goals, npre, pre in getattr(ex, 'lemmas', []):
        for label, g in goals:
            s = z3.SimpleSolver()
            s.set('smt.mbqi', False)
            s.set('auto_config', False)
            s.set('timeout', timeout)
            for f in pre:
                s.add(f)
            s.add(z3.Not(g))
            o = Obl(label, 'lemma', 0, z3.BoolVal(True), g, 'lemma')
            import time
            t = time.time()
            r = s.check()
            o.time = time.time() - t
            o.backend = 'z3'
            o.status = 'valid' if r == z3.unsat else 'unknown'
            o.model = str(r) if r == z3.unsat else '%s %s' % (r, s.reason_unknown() if r == z3.unknown else '')
            out.append(o)
    return out


class CSR:
    """row offsets ind[0..n], columns tgt[0..m): the representation invariant of indexed_struct_of_arrays"""

    def __init__(self, ex, tag='', n=None, m=None, ncols=None, weights=None, wbits=32):
        self.ex, self.tag = ex, tag
        self.nv = ex.int('n' + tag, 64, 0, 2**32 - 2)
        self.mv = ex.int('m' + tag, 64, 0, 2**32 - 2)
        self.n, self.m = self.nv.e, self.mv.e
        n, m = self.n, self.m
        self.ind = ex.array('ind' + tag, 32, n + 1)
        self.tgt = ex.array('tgt' + tag, 32, m)
        self.I = ex.init.mem[('ind' + tag, 0)]
        self.T = ex.init.mem[('tgt' + tag, 0)]
        I, T = self.I, self.T
        k, l = z3.Ints('k l')
        ex.assume(FA([k, l], Imp(And(0 <= k, k <= l, l <= n), I[k] <= I[l]), [z3.MultiPattern(I[k], I[l])]))
        ex.assume(I[0] == 0)
        ex.assume(I[n] == m)
        self.ncols = n if ncols is None else ncols
        ex.assume(FA([k], Imp(rng(0, k, m), And(T[k] >= 0, T[k] < self.ncols)), [T[k]]))
        ex.extra_bounds += [n, m]
        if weights:
            self.w = ex.array('wgt' + tag, wbits, m)
            self.W = ex.init.mem[('wgt' + tag, 0)]

    def lo(self, u):
        return self.I[u]

    def hi(self, u):
        return self.I[u + 1]

    def row(self, u, e):
        return And(self.I[u] <= e, e < self.I[u + 1])

    def owner(self, uniq=True):
        """own(e): the row of edge e (total function on [0,m)); exists because the rows partition [0,m)"""
        ex = self.ex
        own = z3.Function('own' + self.tag, Int, Int)
        e, u = z3.Ints('e u')
        ex.assume(FA([e], Imp(rng(0, e, self.m), And(0 <= own(e), own(e) < self.n, self.I[own(e)] <= e, e < self.I[own(e) + 1])), [own(e)]))
        if uniq:       # (follows from the monotone offsets; as an axiom it can start an instantiation chain)
            ex.assume(FA([e, u], Imp(And(0 <= u, u < self.n, self.row(u, e)), own(e) == u), [z3.MultiPattern(own(e), self.I[u])]))
        self.own = own
        return own

    def adjacency(self, own=None):
        """adj(x,y): some stored edge leads from x to y; wit(x,y) is one"""
        own = self.owner() if own is None else own
        adj = z3.Function('adj' + self.tag, Int, Int, Bool)
        wit = z3.Function('wit' + self.tag, Int, Int, Int)
        e, x, y = z3.Ints('e x y')
        T = self.T
        self.ex.assume(FA([e], Imp(rng(0, e, self.m), adj(own(e), T[e])), [T[e]]))
        self.ex.assume(FA([x, y], Imp(adj(x, y), And(0 <= x, x < self.n, self.row(x, wit(x, y)), T[wit(x, y)] == y, own(wit(x, y)) == x)), [adj(x, y)]))
        self.adj, self.wit = adj, wit
        return adj

    def membership(self):
        """adj(v,x): x is the target of some stored entry of row v; in/out rules that create no new adj terms"""
        adj = z3.Function('adj' + self.tag, Int, Int, Bool)
        wit = z3.Function('wit' + self.tag, Int, Int, Int)
        e, x, v = z3.Ints('e x v')
        T = self.T
        self.ex.assume(FA([v, x, e], Imp(And(0 <= v, v < self.n, self.row(v, e), T[e] == x), adj(v, x)), [z3.MultiPattern(adj(v, x), T[e])]))
        self.ex.assume(FA([v, x], Imp(adj(v, x), And(0 <= v, v < self.n, self.row(v, wit(v, x)), T[wit(v, x)] == x)), [adj(v, x)]))
        self.adj, self.wit = adj, wit
        return adj

    def symmetric(self, own=None):
        """every stored edge has a stored reverse"""
        adj = self.adjacency(own)
        x, y = z3.Ints('x y')
        self.ex.assume(FA([x, y], Imp(adj(x, y), adj(y, x)), [adj(x, y)]))

    def sorted_rows(self, strict=True):
        u, k, l = z3.Ints('u k l')
        ex = self.ex
        lt = (lambda a, b: a < b) if strict else (lambda a, b: a <= b)
        # row-wise order, stated over positions: k<l in the same row
        ex.assume(FA([u, k, l], Imp(And(0 <= u, u < self.n, self.I[u] <= k, k < l, l < self.I[u + 1]), lt(self.T[k], self.T[l])),
                     [z3.MultiPattern(self.I[u], self.T[k], self.T[l])]))


def std_handlers(ex, layouts=None, names=None):
    """contracts of the extern functions of shim/vp_shim.hpp"""
    layouts = layouts or {}
    names = names or {}
    H = {}
    cnt = {'n': 0}
    ex.heap = {}

    def vp_alloc(ex, i, args, st, R, b):
        sz = ex.dom.cval(args[0])
        key = (b, i.res)
        nm = 'heap%s' % i.res.strip('%"')
        if nm not in ex.objs:
            lay = layouts.get(sz) or {1: {0: 8}, 2: {0: 16}, 4: {0: 32}, 8: {0: 64}}.get(sz)
            if lay is None:
                raise Unsupported('allocation of %d-byte elements without a layout' % sz)
            o = Obj(nm, 'array', ex.dom, sz, lay, None)
            L = ex.blk_loop[b]
            o.alloc_loop = L.header if L else None
            o.alloc_block = b
            ex.objs[nm] = o
        o = ex.objs[nm]
        for f, fw in o.fields.items():
            if isinstance(fw, int):
                a = ex.fresh('al_' + nm, z3.ArraySort(ex.dom.isort, ex.dom.vsort(fw)))
                ex.range_ax2(a, fw)
                ex.modified(b, (nm, f))
                st.mem[(nm, f)] = a
        ex.heap[nm] = o
        return PV(o)
    H['vp_alloc'] = vp_alloc
    H['vp_free'] = lambda ex, i, args, st, R, b: None

    def vp_fail(ex, i, args, st, R, b):
        ex.oblige('library precondition holds (index < size, container not empty)', 'safety', R, z3.BoolVal(False), i)
    H['vp_fail'] = vp_fail
    H['vp_throw'] = lambda ex, i, args, st, R, b: None

    def mkfill(w):
        def h(ex, i, args, st, R, b):
            p, n, v = args
            if not isinstance(p, PV) or p.base is None or p.base.kind != 'array':
                raise Unsupported('fill target')
            idx, rest = ex.split(p)
            cnt = ex.dom.uns(n)
            if ex.dom.name == 'int':
                ex.range_oblige(p.base, idx, cnt, R, i)
            if isinstance(v, BV1):
                v = ex.dom.from_bool(v.c, w)
            if isinstance(v, UV):
                v = ex.dom.fresh(ex.fname_fresh('undef'), w)
            val = ex.dom.store_val(v)
            old, new = ex.havoc(st, b, p.base, rest)
            k = z3.Const('k!f', ex.dom.isort)
            inr = And(k >= idx, k < idx + cnt) if ex.dom.name == 'int' else z3.ULT(k - idx, cnt)
            ex.facts.append((z3.ForAll([k], new[k] == If(inr, val, old[k]), patterns=[new[k]]), None))
        return h
    for w in (8, 32, 64):
        H['vp_fill%d' % w] = mkfill(w)

    def vp_swap(ex, i, args, st, R, b):
        p, q = args
        if not (isinstance(p, PV) and isinstance(q, PV) and p.base and q.base and p.base.fields == q.base.fields):
            raise Unsupported('swap of unlike buffers')
        for f in p.base.fields:
            ex.modified(b, (p.base.name, f))
            ex.modified(b, (q.base.name, f))
            a, c = st.mem[(p.base.name, f)], st.mem[(q.base.name, f)]
            st.mem[(p.base.name, f)], st.mem[(q.base.name, f)] = c, a
    H['vp_swap_buf'] = vp_swap

    def vp_copy(ex, i, args, st, R, b):
        p, q = args
        if not (isinstance(p, PV) and isinstance(q, PV) and p.base and q.base and p.base.fields == q.base.fields):
            raise Unsupported('copy of unlike buffers')
        for f in p.base.fields:
            ex.modified(b, (p.base.name, f))
            st.mem[(p.base.name, f)] = st.mem[(q.base.name, f)]
    H['vp_copy_buf'] = vp_copy
    sort_handlers(ex, H)

    ex.results = {}

    def vp_result(ex, i, args, st, R, b):
        ex.results[ex.dom.cval(args[0])] = (args[1], ex.dom.uns(args[2]), st.copy(), R)
    H['vp_result'] = vp_result
    return H


class Sort:
    """one call of std::sort: positions [0,n) of the columns were rearranged by the bijection h (inverse hi)"""
    pass


def sort_handlers(ex, H):
    """std::sort / std::stable_sort by contract (shim/vp_shim.hpp).  ex.sort_hook(ex, sort) may add ghost facts about the result"""
    ex.sorts = []

    def vp_perm(ex, i, args, st, R, b):
        s = Sort()
        s.n, s.R, s.cols, s.block = ex.dom.uns(args[0]), R, [], b
        k = len(ex.sorts)
        nm = ex.fname_fresh('perm')
        s.h, s.hi = z3.Function(nm, Int, Int), z3.Function(nm + 'i', Int, Int)
        q = z3.Int('k!p')
        for f, g in ((s.h, s.hi), (s.hi, s.h)):
            ex.facts.append((z3.ForAll([q], Imp(rng(0, q, s.n), And(rng(0, f(q), s.n), g(f(q)) == q)), patterns=[f(q)]), None))
        ex.sorts.append(s)
        return ex.dom.const(k, 64)
    H['vp_perm'] = vp_perm

    def vp_permute(ex, i, args, st, R, b):
        s = ex.sorts[ex.dom.cval(args[0])]
        p, sz = args[1], ex.dom.cval(args[3])
        if not isinstance(p, PV) or p.base is None or p.base.kind != 'array':
            raise Unsupported('sorted column')
        idx, rest = ex.split(p)
        if sz != p.base.stride and rest not in p.base.fields:
            raise Unsupported('sorted element size')
        ex.range_oblige(p.base, idx, s.n, R, i)
        if getattr(ex, 'ghost_sort', None) and not s.cols and p.base.name in getattr(ex, 'ghost_of', ('tgt',)):
            ex.ghost_sort(ex, s, idx, st, b)
        for f in (p.base.fields if sz == p.base.stride else [rest]):
            old, new = ex.havoc(st, b, p.base, f)
            k = z3.Int('k!f')
            ex.facts.append((z3.ForAll([k], new[k] == If(And(idx <= k, k < idx + s.n), old[idx + s.h(k - idx)], old[k]), patterns=[new[k]]), None))
            s.cols.append((p.base.name, f, idx, old, new))
    H['vp_permute'] = vp_permute

    def vp_any(ex, i, args, st, R, b):
        s = ex.sorts[ex.dom.cval(args[0])]
        w = ex.dom.cval(args[1])
        if w == 0:
            s.marker = len(ex.facts)
        v = ex.dom.fresh(ex.fname_fresh('any%d' % w), 64)
        ex.facts.append((rng(0, v.e, s.n), None))
        setattr(s, 'ij'[w], v.e)
        return v
    H['vp_any'] = vp_any

    def vp_ordered(ex, i, args, st, R, b):
        s = ex.sorts[ex.dom.cval(args[0])]
        bl = lambda v: v.c if isinstance(v, BV1) else ex.dom.to_bool(v)
        lt, gt, stable = bl(args[1]), bl(args[2]), z3.simplify(bl(args[3]))
        ex.oblige('the comparator is a strict ordering', 'safety', R, Not(And(lt, gt)), i)
        defs = []
        for f, _ in ex.facts[s.marker:]:
            if z3.is_eq(f) and z3.is_const(f.arg(0)) and f.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                defs.append((f.arg(0), f.arg(1)))
        def unfold(e):
            for x, d in defs[::-1]:
                e = z3.substitute(e, (x, d))
            return e
        lt, gt = unfold(lt), unfold(gt)
        I, J = z3.Ints('i!s j!s')
        ex.oblige('sort range is addressable', 'safety', R, s.n < 2**62, i)
        sg = lambda v: If(v >= 2**63, v - 2**64, v)     # the signed reading of an in-range position is the position

        # an index read as signed: the wrap-around case is refuted (for arbitrary positions i, j in range), leaving the plain index
        while sign_tests([lt, gt]):
            c = sign_tests([lt, gt])[0]
            ex.oblige('sorted position is not a negative offset', 'safety', R, Not(c.arg(0)), i)
            lt, gt = z3.substitute(lt, (c, c.arg(2))), z3.substitute(gt, (c, c.arg(2)))

        def gen(e):
            e = z3.substitute(e, *[(t, v) for v in (s.i, s.j) for t in (sg(v), z3.simplify(sg(v)))])
            return z3.simplify(z3.substitute(e, (s.i, I), (s.j, J)))
        s.lt, s.gt = gen(lt), gen(gt)
        olds = {x.get_id() for x in vcgen.consts_of(And([f for f, _ in ex.facts[:s.marker]] + [R]))} | {I.get_id(), J.get_id()}
        olds |= {x.get_id() for a in st.mem.values() if isinstance(a, z3.ArrayRef) for x in vcgen.consts_of(a)}
        olds |= {x.get_id() for f in ex.pre for x in vcgen.consts_of(f)}
        for x in vcgen.consts_of(And(s.lt, s.gt)):
            if x.get_id() not in olds:
                raise Unsupported('comparator verdict depends on %s' % x)
        body = Imp(And(0 <= I, I < J, J < s.n), Not(s.lt))
        pats = []
        for v, o in ((I, J), (J, I)):
            c = [t for t in selects_of(s.lt) if has(t, v) and not has(t, o)]
            if VERBOSE_SORT: print('sort comparator', s.lt, c)
            pats.append(c[0] if c else None)
        # state it over absolute positions, so that the cells themselves are the triggers
        shift = z3.IntVal(0)
        if pats[0] is not None and pats[1] is not None and not z3.is_select(pats[0].arg(1)):
            d = z3.simplify(pats[0].arg(1) - I)
            if not has(d, I) and not has(d, J):
                shift = d
        if not (z3.is_int_value(shift) and shift.as_long() == 0):
            mv = lambda e: z3.simplify(z3.substitute(e, (I, I - shift), (J, J - shift)))
            body = Imp(And(shift <= I, I < J, J < shift + s.n), Not(mv(s.lt)))
            pats = [mv(p) for p in pats]
        pl = [z3.MultiPattern(*pats)] if all(p is not None for p in pats) else []
        ex.facts.append((Imp(s.R, z3.ForAll([I, J], body, patterns=pl) if pl else z3.ForAll([I, J], body)), None))
        if z3.is_true(stable):
            body = Imp(And(0 <= I, I < J, J < s.n, Not(s.gt)), s.h(I) < s.h(J))
            ex.facts.append((Imp(s.R, z3.ForAll([I, J], body, patterns=[z3.MultiPattern(s.h(I), s.h(J))])), None))
        if getattr(ex, 'sort_hook', None):
            ex.sort_hook(ex, s)
    H['vp_ordered'] = vp_ordered


def has(t, v):
    return any(z3.eq(x, v) for x in vcgen.consts_of(t))


def sign_tests(es):
    """subterms If(x >= 2^63, _, y), innermost first"""
    out, seen = [], set()

    def go(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        for x in e.children():
            go(x)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_ge(e.arg(0)) and z3.is_int_value(e.arg(0).arg(1)) and e.arg(0).arg(1).as_long() == 2**63:
            out.append(e)
    for e in es:
        go(e)
    return out


def selects_of(e, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return out
    seen.add(e.get_id())
    if z3.is_app(e):
        if z3.is_select(e):
            out.append(e)
        for x in e.children():
            selects_of(x, out, seen)
    return out


class FS:
    """a function under contract.  target: the function of /repo; tu/entry: the extern "C" wrapper that instantiates it;
    contract: one-line statement; setup(ex): builds the pre-state, candidates and postcondition."""

    def __init__(self, target, tu, entry, contract, setup, dom=None, timeout=10000, htimeout=1500, budget=240):
        self.target, self.tu, self.entry, self.contract, self.setup = target, tu, entry, contract, setup
        self.dom, self.timeout, self.htimeout, self.budget = dom, timeout, htimeout, budget


def cell_family(ex, L):
    return [p for p in L.idxlike()]


def csr_params(ex, c):
    """(uint32_t* ind, size_t n, uint32_t* tgt, size_t m)"""
    return [ex.ptr(c.ind), c.nv, ex.ptr(c.tgt), c.mv]
