"""Verification-condition generator over LLVM IR.

One function at a time.  Loops are cut at their headers: modified SSA phis and memory are havocked, the (inferred) invariant is
assumed, the body is executed once, and the invariant is an obligation on the entry edges and on the back edges.  Invariants are the
strongest conjunction of contract candidates that is inductive (Houdini); every candidate is checked, none is trusted.
Calls are replaced by the callee's contract (handlers registered by the spec), never by its body (what LLVM inlined is body text).
"""
import os
import sys
import time
import json
import struct
import re
import z3
from ir import Unsupported, Module, Inst
from values import *


def consts_of(e):
    seen, out, st = set(), [], [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


class Restart(Exception):
    pass


NORETURN = ('vp_fail', 'vp_throw', '__assert_fail', '__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual',
            '_ZSt17__throw', '_ZSt20__throw', '_ZSt28__throw', '_ZSt25__throw', '__cxa_throw', '__cxa_rethrow')


class Obj:
    def __init__(self, name, kind, dom, stride=1, fields=None, length=None, fam_of=None):
        self.name, self.kind, self.dom = name, kind, dom
        self.stride, self.fields, self.length = stride, fields or {}, length
        self.fam_of = fam_of
        self.size = None
        self.alloc_loop = None
        self.base_sym = None
        self.readonly = False
        self.famlen = None      # for families: function sub-> length expr

    def __repr__(self):
        return self.name


class Phi:
    def __init__(self, name, kind, w=None, base=None, sym=None, entry=None, stride=1, rest=0, sub=None):
        self.name, self.kind, self.w, self.base, self.sym, self.entry = name, kind, w, base, sym, entry
        self.stride, self.rest, self.sub = stride, rest, sub

    def __repr__(self):
        return '%s:%s%s' % (self.name, self.kind, ('@' + self.base.name) if self.base is not None else '')


class Loop:
    def __init__(self, header):
        self.header = header
        self.body = set()
        self.latches = []
        self.parent = None
        self.phis = []
        self.mods = set()      # (objname, field)
        self.cands = []
        self.mem_sym = {}      # (obj,field) -> z3 sym
        self.mem_entry = {}    # (obj,field) -> z3 expr before the loop
        self.idx = 0
        self.bounds = []

    @property
    def depth(self):
        return 0 if self.parent is None else 1 + self.parent.depth

    def chain(self):
        l = self
        while l is not None:
            yield l
            l = l.parent

    def ints(self, w=None):
        return [p for p in self.phis if p.kind == 'int' and (w is None or p.w == w)]

    def ptrs(self, base=None):
        return [p for p in self.phis if p.kind == 'ptr' and (base is None or p.base.name == base)]

    def idxlike(self):
        return [p for p in self.phis if p.kind in ('int', 'ptr')]

    def bools(self):
        return [p for p in self.phis if p.kind == 'bool']


# gm(x) in the antecedent of an invariant: dropped where the invariant is assumed, the instantiation trigger mark(x) where it is the
# goal (mark is an unconstrained predicate, so a goal proved under mark(x) holds without it)
gm = z3.Function('gm', z3.IntSort(), z3.BoolSort())
_mark = z3.Function('mark', z3.IntSort(), z3.BoolSort())
_at = z3.Function('at', z3.IntSort(), z3.BoolSort())


def fact_form(f):
    return z3.substitute_funs(f, (gm, z3.BoolVal(True)))


def goal_form(f):
    return z3.substitute_funs(f, (gm, z3.And(_mark(z3.Var(0, z3.IntSort())), _at(z3.Var(0, z3.IntSort())))))


class Cand:
    n = 0

    def __init__(self, loop, name, f, src='spec'):
        Cand.n += 1
        self.id = Cand.n
        self.loop, self.name, self.f, self.src = loop, name, f, src
        self.on = True
        self.checks = []   # (prefix, guard, formula, where)
        self.why = None


class Obl:
    def __init__(self, name, kind, prefix, guard, p, where):
        self.name, self.kind, self.prefix, self.guard, self.p, self.where = name, kind, prefix, guard, p, where
        self.status = None
        self.time = 0
        self.backend = None
        self.model = None


class State:
    def __init__(self, mem=None):
        self.mem = mem if mem is not None else {}

    def copy(self):
        return State(dict(self.mem))


class Exec:
    def __init__(self, module, fname, dom=None, handlers=None, max_paths=None):
        self.m = module
        self.fn = module.body(fname)
        self.fname = fname
        self.dom = dom or IntDom()
        self.handlers = handlers or {}
        self.objs = {}
        self.init = State()
        self.params = []
        self.pre = []            # axioms/preconditions (unguarded)
        self.cand_fn = None
        self.post_fn = None
        self.mods = {}           # loop header -> set of (obj,field)
        self.callfam = {}
        self.nfresh = 0
        self.generic = True
        self.allow_throw = False
        self.notes = []
        self.last_call = None
        self.terminate = False
        self.variant_fn = None
        self.vobls = []
        self.shared = {}
        self.extra_bounds = []   # expressions useful as generic bounds (e.g. n, m)
        self._cfg()

    # ---------------------------------------------------------------- set-up API
    def array(self, name, w=32, length=None, fields=None, stride=None, arr=None):
        fields = fields or {0: w}
        stride = stride or max(o + x // 8 for o, x in fields.items())
        o = Obj(name, 'array', self.dom, stride, fields, length)
        self.objs[name] = o
        for off, fw in fields.items():
            if isinstance(fw, int):
                a = arr if (arr is not None and off == 0) else z3.Const('%s!%d' % (name, off) if off else name, z3.ArraySort(self.dom.isort, self.dom.vsort(fw)))
                self.init.mem[(name, off)] = a
                self.range_ax(a, fw)
        return o

    def family(self, name, w=32, famlen=None, fields=None, stride=None):
        fields = fields or {0: w}
        stride = stride or max(o + x // 8 for o, x in fields.items())
        o = Obj(name, 'family', self.dom, stride, fields)
        o.famlen = famlen
        self.objs[name] = o
        for off, fw in fields.items():
            a = z3.Const('%s!%d' % (name, off) if off else name,
                         z3.ArraySort(self.dom.isort, z3.ArraySort(self.dom.isort, self.dom.vsort(fw))))
            self.init.mem[(name, off)] = a
        return o

    def range_ax(self, a, fw):
        if self.dom.name == 'int' and fw > 1:
            k = z3.Int('k!r')
            self.pre.append(z3.ForAll([k], z3.And(a[k] >= 0, a[k] < M(fw)), patterns=[a[k]]))

    def record(self, name, size=None):
        o = Obj(name, 'record', self.dom, 1)
        o.size = size
        self.objs[name] = o
        return o

    def setcell(self, obj, off, v):
        self.init.mem[(obj.name, off)] = v

    def int(self, name, w=64, lo=None, hi=None):
        v = self.dom.fresh(name, w)
        self.pre += self.dom.side
        self.dom.side = []
        if hi is not None and self.dom.name == 'int':
            v = IV(w, v.e, lo or 0, hi)
            self.pre.append(z3.And(v.e >= (lo or 0), v.e <= hi))
        return v

    def ptr(self, obj, idx=0):
        if isinstance(idx, int):
            return PV(obj, Lin(idx * obj.stride))
        return PV(obj, Lin(0, ((obj.stride, idx),)))

    def assume(self, f):
        self.pre.append(f)

    def fresh(self, base, sort):
        self.nfresh += 1
        return z3.Const('%s!!%d' % (base, self.nfresh), sort)

    def fname_fresh(self, base):
        self.nfresh += 1
        return '%s!!%d' % (base, self.nfresh)

    # ---------------------------------------------------------------- CFG
    def _cfg(self):
        f = self.fn
        order = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(f.blocks[b].succs))]
            seen.add(b)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(f.blocks[s].succs)))
                        break
                else:
                    order.append(n)
                    stack.pop()
        dfs(f.entry)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in f.blocks[b].preds if p in idom and p in num]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == f.entry:
                    return False
                b = idom[b]
        self.rpo, self.num, self.idom = rpo, num, idom
        loops = {}
        for b in rpo:
            for s in f.blocks[b].succs:
                if num[s] <= num[b]:
                    if not dom(s, b):
                        raise Unsupported('irreducible loop')
                    L = loops.setdefault(s, Loop(s))
                    L.latches.append(b)
                    body = {s}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in f.blocks[x].preds if p in num)
                    L.body |= body
        for h, L in loops.items():
            best = None
            for h2, L2 in loops.items():
                if h2 != h and h in L2.body and (best is None or len(L2.body) < len(best.body)):
                    best = L2
            L.parent = best
        for i, h in enumerate([b for b in rpo if b in loops]):
            loops[h].idx = i
        self.loops = loops
        self.blk_loop = {}
        for b in rpo:
            best = None
            for L in loops.values():
                if b in L.body and (best is None or len(L.body) < len(best.body)):
                    best = L
            self.blk_loop[b] = best
        self.backedges = {(l, h) for h, L in loops.items() for l in L.latches}
        # topological order of the DAG without back edges
        self.topo = rpo

    # ---------------------------------------------------------------- running
    def run(self):
        cf, self.cand_fn = self.cand_fn, None
        self.acc = []
        self.links = []
        self._runs()             # first pass: modified sets and access roles
        self.roles_acc = self.acc
        self.cand_fn = cf
        if cf:
            self._runs()

    def _runs(self):
        for attempt in range(60):
            try:
                self._run()
                return
            except Restart:
                continue
        raise Unsupported('modified-set iteration did not converge')

    # roles: which loop variables index / are stored to / are read from an array (data flow of the code as it is now)
    def role_idx(self, objname, kind=None):
        out = {}
        for k, o, f, idx, val in self.roles_acc:
            if (kind is None or k == kind) and (o == objname or (objname.endswith('*') and o.startswith(objname[:-1]))) and idx is not None:
                for c in consts_of(idx):
                    out[c.get_id()] = c
        return set(out)

    def role_val(self, objname):
        out = {}
        for k, o, f, idx, val in self.roles_acc:
            if k == 'store' and (o == objname or (objname.endswith('*') and o.startswith(objname[:-1]))) and val is not None:
                for c in consts_of(val):
                    out[c.get_id()] = c
        return set(out)

    def phis_in(self, L, ids, enter=False):
        """loop variables of L and its enclosing loops whose symbol is in ids; with enter, also those an inner one starts from"""
        if enter:
            ids = set(ids)
            while True:
                n = len(ids)
                for s, cs in self.links:
                    if s in ids:
                        ids |= cs
                if len(ids) == n:
                    break
        return [p for l in L.chain() for p in l.idxlike() if p.sym.get_id() in ids]

    def _run(self):
        self.nfresh = 0
        self.acc = []
        self.dom.side = list(self.dom.divside)
        self.merges = []         # (number of facts, conditions of the joining edges, block) of every join of array contents
        self.facts = []          # (formula, cand or None)
        self.obls = []
        self.cands = []
        self.env = {}
        self.calls = []
        self.rets = []
        self.guard_consts = {}
        self.cur = None
        for g in ('sorts', 'results'):       # ghost records of this pass
            if hasattr(self, g):
                getattr(self, g).clear()
        f = self.fn
        if len(self.params) != len(f.params):
            raise Unsupported('parameter count of %s is %d, contract expects %d' % (self.fname, len(f.params), len(self.params)))
        for (nm, t), v in zip(f.params, self.params):
            if (t[0] == 'ptr') != isinstance(v, (PV, MPV)) or (t[0] == 'i' and (not isinstance(v, IV) and not isinstance(v, BV1))):
                raise Unsupported('parameter type mismatch %s %s' % (nm, t))
            if t[0] == 'i' and isinstance(v, IV) and v.w != t[1]:
                raise Unsupported('parameter width mismatch %s' % nm)
            self.env[nm] = v
        for L in self.loops.values():
            L.phis, L.cands, L.mem_sym, L.mem_entry = [], [], {}, {}
        self.reach = {}
        self.edge = {}           # (p,b) -> (cond, State)
        self.edge[(None, f.entry)] = (z3.BoolVal(True), self.init.copy())
        for b in self.topo:
            self.exec_block(b)
        # back edges: check candidates
        for h, L in self.loops.items():
            for l in L.latches:
                if (l, h) in self.edge:
                    self.back_edge(L, l)

    def nm_guard(self, b, c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return c
        if z3.is_const(c):
            return c
        g = z3.Bool('R!%s' % b.strip('%"'))
        self.facts.append((g == c, None))
        return g

    def exec_block(self, b):
        f = self.fn
        preds = [None] if b == f.entry else [p for p in f.blocks[b].preds if (p, b) not in self.backedges and (p, b) in self.edge]
        ins = [(p,) + self.edge[(p, b)] for p in preds if (p, b) in self.edge]
        ins = [x for x in ins if not z3.is_false(x[1])]
        if not ins:
            return
        R = self.nm_guard(b, z3.Or([c for _, c, _ in ins]) if len(ins) > 1 else ins[0][1])
        self.reach[b] = R
        st = self.merge_state(b, ins)
        blk = f.blocks[b]
        L = self.loops.get(b)
        n_phi = 0
        newvals = {}
        for i in blk.insts:
            if i.op != 'phi':
                break
            n_phi += 1
            byl = {l: v for v, l in i.args}
            vals = []
            for p, c, _ in ins:
                vals.append((c, self.operand(byl[p], i.ty)))
            newvals[i.res] = (i, self.merge_vals(vals, i.ty))
        self.cur = b
        if L is None:
            for r, (i, v) in newvals.items():
                self.env[r] = self.name_val(v, i.res, i.ty)
        else:
            st = self.loop_header(L, newvals, st, R)
        for i in blk.insts[n_phi:]:
            if not self.exec_inst(i, st, R, b):
                return

    def name_val(self, v, nm, ty):
        """introduce a constant for large merged values"""
        if isinstance(v, IV) and not self.dom.isconst(v) and not z3.is_const(v.e) and self.dom.name == 'int':
            x = self.fresh('v' + nm.strip('%'), z3.IntSort())
            self.facts.append((x == v.e, None))
            return IV(v.w, x, v.lo, v.hi, v.lin, v.pti)
        if isinstance(v, BV1) and not z3.is_const(v.c):
            x = self.fresh('b' + nm.strip('%'), z3.BoolSort())
            self.facts.append((x == v.c, None))
            return BV1(x)
        return v

    def merge_state(self, b, ins):
        if len(ins) == 1:
            return ins[0][2].copy()
        keys = {}
        for _, _, s in ins:
            for k in s.mem:
                keys[k] = 1
        out = State()
        for k in keys:
            vs = [(c, s.mem.get(k)) for _, c, s in ins]
            if any(v is None for _, v in vs):
                vs = [(c, v if v is not None else self.default_cell(k, vs)) for c, v in vs]
                if any(v is None for _, v in vs):
                    continue
            first = vs[0][1]
            if all(v is first for _, v in vs):
                out.mem[k] = first
                continue
            if isinstance(first, z3.ArrayRef):
                if all(z3.eq(first, v) for _, v in vs):
                    out.mem[k] = first
                    continue
                x = self.fresh('m_%s_%s' % k, first.sort())
                for c, v in vs:
                    self.facts.append((z3.Implies(c, x == v), None))
                out.mem[k] = x
                if not self.merges or self.merges[-1][2] != b:
                    self.merges.append((len(self.facts), [c for c, _ in vs], b))
            else:
                try:
                    out.mem[k] = self.name_val(self.merge_vals(vs, None), '%c' + k[0] + str(k[1]), None)
                except Unsupported:
                    continue     # dead cell of differing kinds: reading it later is unsupported/undef
        return out

    def default_cell(self, k, vs):
        # a buffer not allocated on this path cannot be reached on it: its content there is arbitrary
        if k[0].startswith('heap') and k[0] in self.objs and self.objs[k[0]].kind == 'array':
            return next((v for _, v in vs if isinstance(v, z3.ArrayRef)), None)
        return None

    def merge_vals(self, vals, ty):
        """vals: list of (cond, Value)"""
        vals = [(c, v) for c, v in vals]
        defd = [(c, v) for c, v in vals if not isinstance(v, UV)]
        if not defd:
            return UV()
        if len(defd) == 1 and len(vals) >= 1:
            if len(vals) == 1:
                return defd[0][1]
        r = defd[-1][1]
        for c, v in defd[-2::-1]:
            r = self.ite(c, v, r)
        return r

    def ite(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, UV):
            return b
        if isinstance(b, UV):
            return a
        if isinstance(a, IV) and isinstance(b, IV):
            if z3.eq(a.e, b.e):
                return a
            return self.dom.ite(c, a, b)
        if isinstance(a, BV1) and isinstance(b, BV1):
            if z3.eq(a.c, b.c):
                return a
            return BV1(z3.If(c, a.c, b.c))
        if isinstance(a, FV) and isinstance(b, FV):
            return FV(a.w, z3.If(c, a.e, b.e))
        if isinstance(a, AV) and isinstance(b, AV):
            return AV([self.ite(c, x, y) for x, y in zip(a.els, b.els)])
        if isinstance(a, PV) and isinstance(b, PV):
            if a.base is b.base and (a.sub is None and b.sub is None or (a.sub is not None and b.sub is not None and z3.eq(a.sub, b.sub))):
                if a.off.c == b.off.c and len(a.off.ts) == len(b.off.ts) and all(k == k2 and z3.eq(e, e2) for (k, e), (k2, e2) in zip(a.off.ts, b.off.ts)):
                    return a
                if a.base is None or a.base.kind == 'record':
                    return MPV([(c, a), (z3.Not(c), b)])
                ia, ra = self.split(a)
                ib, rb = self.split(b)
                if ra != rb:
                    raise Unsupported('pointer merge at different field offsets')
                e = z3.If(c, ia, ib)
                x = self.fresh('p', self.dom.isort)
                self.facts.append((x == e, None))
                return PV(a.base, Lin(ra, ((a.base.stride, x),)), a.sub)
            return MPV([(c, a), (z3.Not(c), b)])
        if isinstance(a, (PV, MPV)) and isinstance(b, (PV, MPV)):
            la = a.alts if isinstance(a, MPV) else [(z3.BoolVal(True), a)]
            lb = b.alts if isinstance(b, MPV) else [(z3.BoolVal(True), b)]
            return MPV([(z3.And(c, x), p) for x, p in la] + [(z3.And(z3.Not(c), x), p) for x, p in lb])
        raise Unsupported('merge of different value kinds %s %s' % (type(a).__name__, type(b).__name__))

    def split(self, p):
        """pointer -> (element index expr, rest bytes)"""
        s = p.base.stride
        rest = p.off.c % s
        l = Lin(p.off.c - rest, p.off.ts)
        if not l.divisible(s):
            raise Unsupported('pointer %s not element-aligned (stride %d)' % (p, s))
        return self.dom.linexpr(l.div(s)), rest

    # ---------------------------------------------------------------- loops
    def loop_header(self, L, newvals, st, R):
        dom = self.dom
        subs_entry = []
        L.R = R
        for r, (i, v) in newvals.items():
            nm = r.strip('%"')
            if isinstance(v, UV):
                if i.ty[0] == 'i' and i.ty[1] > 1:
                    v = dom.fresh(self.fname_fresh('undef'), i.ty[1])
                elif i.ty[0] == 'i':
                    v = BV1(self.fresh('undef', z3.BoolSort()))
                else:
                    raise Unsupported('undef pointer phi')
            if isinstance(v, IV):
                x = dom.fresh('h%s' % nm, v.w)
                ent = dom.uns(v)
                ph = Phi(r, 'int', v.w, sym=x.e, entry=ent)
                self.env[r] = x
            elif isinstance(v, BV1):
                s = z3.Bool('h%s' % nm)
                ph = Phi(r, 'bool', 1, sym=s, entry=v.c)
                self.env[r] = BV1(s)
            elif isinstance(v, FV):
                s = z3.Const('h%s' % nm, v.e.sort())
                ph = Phi(r, 'float', v.w, sym=s, entry=v.e)
                self.env[r] = FV(v.w, s)
            elif isinstance(v, (PV, MPV)) and self.const_alts(v) is not None:
                # one of two constant pointers (an object, null): a boolean selects which
                alts = self.const_alts(v)
                s = z3.Bool('h%s' % nm)
                ps = [a for _, a in alts] if len(alts) == 2 else [alts[0][1], PV(None) if alts[0][1].base is not None else None]
                ph = Phi(r, 'bool', 1, sym=s, entry=alts[0][0])
                ph.alts = ps
                self.env[r] = MPV([(s, ps[0]), (z3.Not(s), ps[1])]) if ps[1] is not None else ps[0]
            elif isinstance(v, PV):
                idx, rest = self.split(v)
                s = z3.Const('h%s' % nm, dom.isort)
                ph = Phi(r, 'ptr', 64, base=v.base, sym=s, entry=idx, stride=v.base.stride, rest=rest, sub=v.sub)
                self.env[r] = PV(v.base, Lin(rest, ((v.base.stride, s),)), v.sub)
            else:
                raise Unsupported('phi kind at loop header: %s' % type(v).__name__)
            L.phis.append(ph)
            subs_entry.append((ph.sym, ph.entry))
        for s, e in subs_entry:
            if s.sort() == dom.isort:
                self.links.append((s.get_id(), {c.get_id() for c in consts_of(e)}))
        # memory
        mods = self.mods.get(L.header, set())
        st = st.copy()
        L.fresh_objs = set()
        L.cellptr = {}
        for k in sorted(mods, key=str):
            old = st.mem.get(k)
            if old is None:
                continue
            if isinstance(old, z3.ArrayRef):
                s = z3.Const('H%s_%s_%s' % (L.header.strip('%"'), k[0], k[1]), old.sort())
                o = self.objs[k[0]]
                if o.kind == 'array':
                    self.range_ax2(s, o.fields[k[1]])
                L.mem_sym[k] = s
                L.mem_entry[k] = old
                st.mem[k] = s
                subs_entry.append((s, old))
            elif isinstance(old, IV):
                x = dom.fresh('H%s_%s_%s' % (L.header.strip('%"'), k[0], k[1]), old.w)
                L.mem_sym[k] = x.e
                L.mem_entry[k] = dom.uns(old)
                st.mem[k] = x
                L.phis.append(Phi('cell:%s+%s' % k, 'int', old.w, sym=x.e, entry=dom.uns(old)))
                L.phis[-1].cell = k
                subs_entry.append((x.e, dom.uns(old)))
            elif isinstance(old, BV1):
                s = z3.Bool('H%s_%s_%s' % (L.header.strip('%"'), k[0], k[1]))
                L.mem_sym[k] = s
                st.mem[k] = BV1(s)
                subs_entry.append((s, old.c))
            elif isinstance(old, PV) and old.base is not None and old.base.kind != 'record':
                idx, rest = self.split(old)
                s = z3.Const('H%s_%s_%s' % (L.header.strip('%"'), k[0], k[1]), dom.isort)
                st.mem[k] = PV(old.base, Lin(rest, ((old.base.stride, s),)), old.sub)
                ph = Phi('cell:%s+%s' % k, 'ptr', 64, base=old.base, sym=s, entry=idx, stride=old.base.stride, rest=rest, sub=old.sub)
                ph.cell = k
                L.phis.append(ph)
                subs_entry.append((s, idx))
            else:
                del st.mem[k]      # value unknown kind after havoc: reading it is unsupported
        L.state = st
        # candidates
        L.bounds = self.collect_bounds(L)
        cands = []
        if self.generic:
            cands += self.generic_cands(L)
        if self.cand_fn:
            for nm, fm in self.cand_fn(self, L, st):
                cands.append(Cand(L, nm, fm))
        L.variants, L.varchecks = [], {}
        if self.terminate and dom.name == 'int':
            # termination: some expression must decrease on every back edge and be bounded below
            L.variants = list(self.variant_fn(self, L, st)) if self.variant_fn else []
            for p in L.idxlike():
                if p.sym.sort() == dom.isort:
                    L.variants.append((p.name, p.sym))
                    L.variants += [('b%d-%s' % (k, p.name), bnd - p.sym) for k, bnd in enumerate(L.bounds) if bnd.sort() == p.sym.sort()]
        prefix = len(self.facts)
        L.subs_entry = subs_entry
        for c in cands:
            goal, c.f = goal_form(c.f), fact_form(c.f)
            c.goal = goal
            e = z3.substitute(goal, *subs_entry) if subs_entry else goal
            c.checks.append((prefix, R, e, 'entry'))
            self.cands.append(c)
            L.cands.append(c)
        for c in cands:
            self.facts.append((z3.Implies(R, c.f), c))
        return st

    def range_ax2(self, a, fw):
        if self.dom.name == 'int' and isinstance(fw, int) and fw > 1:
            k = z3.Int('k!r')
            self.facts.append((z3.ForAll([k], z3.And(a[k] >= 0, a[k] < M(fw)), patterns=[a[k]]), None))

    def collect_bounds(self, L):
        """loop-invariant operands compared inside the loop"""
        out = {}
        for b in [b for b in self.fn.blocks if b in L.body]:
            for i in self.fn.blocks[b].insts:
                if i.op == 'icmp' or (i.op == 'call' and 'umin' in str(i.x) or i.op == 'call' and 'umax' in str(i.x)):
                    ops = i.args if i.op == 'icmp' else [a[1] for a in i.args]
                    for o in ops:
                        v = None
                        if o[0] == 'loc' and o[1] in self.env and not self.defined_in(o[1], L):
                            v = self.env[o[1]]
                        elif o[0] == 'int' and i.ty[0] == 'i' and i.ty[1] > 1:
                            v = self.dom.const(o[1] + 1 if o[1] == 2**40 - 1 else o[1], i.ty[1])     # the shim's container size limit
                        if isinstance(v, IV):
                            out[self.dom.uns(v).get_id()] = self.dom.uns(v)
                        elif isinstance(v, PV) and v.base is not None and v.base.kind in ('array', 'family'):
                            idx, rest = self.split(v)
                            out[idx.get_id()] = idx
        for e in self.extra_bounds:
            out[e.get_id()] = e
        self._keep = getattr(self, '_keep', [])
        self._keep.append(out)
        return list(out.values())

    def defined_in(self, nm, L):
        if not hasattr(self, '_def'):
            self._def = {}
            for b, blk in self.fn.blocks.items():
                for i in blk.insts:
                    if i.res:
                        self._def[i.res] = b
        return self._def.get(nm) in L.body

    def pure_accumulator(self, p):
        """integer loop variable whose value reaches no comparison, address, store or call: bounds on it serve no access"""
        if p.kind != 'int' or hasattr(p, 'cell'):
            return False
        if not hasattr(self, '_uses'):
            self._uses = {}
            for b, blk in self.fn.blocks.items():
                for i in blk.insts:
                    for r in re.findall(r'%[\w.]+|%"[^"]+"', repr(i.args) + repr(i.x) + repr(getattr(i, 'ptr', ''))):
                        self._uses.setdefault(r, []).append(i)
        seen, todo = set(), [p.name]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for i in self._uses.get(x, []):
                if i.op in ('phi', 'add', 'zext', 'freeze'):
                    todo.append(i.res)
                elif i.op != 'ret':
                    return False
        return True

    def generic_cands(self, L):
        dom = self.dom
        out = []

        def add(nm, f):
            out.append(Cand(L, nm, f, 'generic'))
        xs = [p for p in L.idxlike() if not self.pure_accumulator(p)]
        for p in xs:
            ge = (lambda a, b: a >= b) if dom.name == 'int' else (lambda a, b: z3.UGE(a, b))
            if p.entry.sort() != p.sym.sort():
                continue
            add('%s>=entry' % p.name, ge(p.sym, p.entry))
            add('%s<=entry' % p.name, ge(p.entry, p.sym))
            for i, bnd in enumerate(L.bounds):
                if bnd.sort() != p.sym.sort():
                    continue
                add('%s<=b%d' % (p.name, i), ge(bnd, p.sym))
                if dom.name == 'int':
                    add('%s<b%d' % (p.name, i), p.sym < bnd)
                else:
                    add('%s<b%d' % (p.name, i), z3.ULT(p.sym, bnd))
                if len(L.bounds) <= 8:
                    add('%s>=b%d' % (p.name, i), ge(p.sym, bnd))
                    add('%s!=b%d' % (p.name, i), p.sym != bnd)
        if dom.name == 'int':
            for i, p in enumerate(xs):
                for q in xs[i + 1:]:
                    add('%s~%s' % (p.name, q.name), p.sym - p.entry == q.sym - q.entry)
                    add('%s~-%s' % (p.name, q.name), p.sym - p.entry == q.entry - q.sym)
                    add('%s<=%s' % (p.name, q.name), p.sym <= q.sym)
                    add('%s<=%s' % (q.name, p.name), q.sym <= p.sym)
                for A in L.chain():
                    if A is L:
                        continue
                    for q in A.idxlike():
                        if getattr(q, 'cell', None) is not None and q.cell in L.mem_sym:
                            # same cell havocked in the outer loop
                            add('%s>=outer' % p.name, p.sym >= q.sym)
        for p in L.bools():
            add('%s' % p.name, p.sym)
            add('!%s' % p.name, z3.Not(p.sym))
        return out

    def back_edge(self, L, l):
        cond, st = self.edge[(l, L.header)]
        if z3.is_false(z3.simplify(cond)):
            return
        subs = []
        dom = self.dom
        for ph in L.phis:
            if hasattr(ph, 'cell'):
                v = st.mem.get(ph.cell)
                if v is None:
                    raise Unsupported('cell lost')
            else:
                inst = next(i for i in self.fn.blocks[L.header].insts if i.res == ph.name)
                byl = {lb: v for v, lb in inst.args}
                v = self.operand(byl[l], inst.ty)
            if isinstance(v, UV):
                v = dom.fresh(self.fname_fresh('undef'), ph.w) if ph.kind == 'int' else v
            if ph.kind == 'int':
                if isinstance(v, BV1):
                    v = dom.from_bool(v.c, ph.w)
                subs.append((ph.sym, dom.uns(v)))
            elif ph.kind == 'bool' and getattr(ph, 'alts', None):
                c = z3.BoolVal(False)
                al = self.const_alts(v) if isinstance(v, (PV, MPV)) else None
                for g, a in al or []:
                    if not any(q is not None and self.same_ptr(a, q) for q in ph.alts):
                        raise Unsupported('pointer phi %s changes object' % ph.name)
                    if self.same_ptr(a, ph.alts[0]):
                        c = z3.Or(c, g)
                if al is None:
                    raise Unsupported('pointer phi %s changes object' % ph.name)
                subs.append((ph.sym, z3.simplify(c)))
            elif ph.kind == 'bool':
                subs.append((ph.sym, v.c))
            elif ph.kind == 'float':
                subs.append((ph.sym, v.e))
            else:
                if not isinstance(v, PV) or v.base is not ph.base or not self.same_sub(v.sub, ph.sub):
                    raise Unsupported('pointer phi %s changes object' % ph.name)
                if v.base.alloc_loop is not None and v.base.alloc_loop in [x.header for x in L.chain()]:
                    raise Unsupported('pointer to per-iteration allocation carried around the loop')
                idx, rest = self.split(v)
                if rest != ph.rest:
                    raise Unsupported('pointer phi rest')
                subs.append((ph.sym, idx))
        for k, s in L.mem_sym.items():
            if any(getattr(p, 'cell', None) == k for p in L.phis):
                continue
            v = st.mem.get(k)
            if v is None:
                raise Unsupported('memory lost %s' % (k,))
            if isinstance(v, BV1):
                v = v.c
            subs.append((s, v))
        prefix = len(self.facts)
        for c in L.cands:
            e = z3.substitute(c.goal, *subs) if subs else c.goal
            c.checks.append((prefix, cond, e, 'back:' + l))
        for nm, v in L.variants:
            L.varchecks.setdefault(nm, []).append((prefix, cond, z3.And(v >= 0, z3.substitute(v, *subs) < v), 'back:' + l))

    def same_ptr(self, a, b):
        return a.base is b.base and a.off.c == b.off.c and not a.off.ts and not b.off.ts

    def const_alts(self, v):
        """[(guard, pointer)] when v is one of at most two constant pointers (records or null), else None"""
        al = v.alts if isinstance(v, MPV) else [(z3.BoolVal(True), v)]
        out = []
        for c, p in al:
            if isinstance(p, UV) or p.off.ts or not (p.base is None or p.base.kind == 'record'):
                return None
            for k, (c2, q) in enumerate(out):
                if self.same_ptr(p, q):
                    out[k] = (z3.Or(c2, c), q)
                    break
            else:
                out.append((c, p))
        return out if len(out) <= 2 else None

    def same_sub(self, a, b):
        if a is None or b is None:
            return a is b
        return z3.eq(a, b)

    # ---------------------------------------------------------------- operands
    def operand(self, o, ty):
        k = o[0]
        ty = self.m.types.resolve(ty) if ty[0] == 'named' else ty
        if k == 'loc':
            if o[1] not in self.env:
                raise Unsupported('use of undefined value %s' % o[1])
            return self.env[o[1]]
        if k == 'int':
            if ty[0] == 'i' and ty[1] == 1:
                return BV1(z3.BoolVal(bool(o[1] & 1)))
            return self.dom.const(o[1], ty[1])
        if k == 'null':
            return PV(None)
        if k == 'undef':
            if ty[0] in ('struct', 'arr'):
                return AV([UV() for _ in range(ty[1] if ty[0] == 'arr' else len(ty[1]))])
            return UV()
        if k == 'zero':
            if ty[0] == 'struct':
                return AV([self.operand(('zero',), t) for t in ty[1]])
            if ty[0] == 'arr':
                return AV([self.operand(('zero',), ty[2]) for _ in range(ty[1])])
            if ty[0] == 'ptr':
                return PV(None)
            if ty[0] == 'f':
                return FV(ty[1], z3.Const('fp_0', z3.IntSort()))
            return self.operand(('int', 0), ty)
        if k == 'agg':
            return AV([self.operand(x, t) for t, x in o[1]])
        if k == 'float':
            return FV(ty[1], z3.Const('fp_' + o[1], z3.IntSort()))
        if k == 'glob':
            return PV(self.globobj(o[1]))
        if k == 'cgep':
            args = [(t, self.operand(x, t)) for t, x in o[2]]
            return self.gep(o[1], args)
        raise Unsupported('operand %s' % (o,))

    def globobj(self, name):
        if name in self.objs:
            return self.objs[name]
        o = Obj(name, 'record', self.dom)
        o.readonly = True
        self.objs[name] = o
        return o

    def gep(self, ty, args):
        base = args[0][1]
        if isinstance(base, MPV):
            return MPV([(c, self.gep(ty, [(args[0][0], p)] + args[1:])) for c, p in base.alts])
        if isinstance(base, UV):
            return UV()
        if not isinstance(base, PV):
            raise Unsupported('gep base')
        T = self.m.types
        off = base.off
        t = ty
        for n, (at, v) in enumerate(args[1:]):
            if n == 0:
                sz = T.size(t)
                off = off + self.scaled(v, sz)
            else:
                t = T.resolve(t)
                if t[0] == 'struct':
                    o, t = T.field_off(t, self.dom.cval(v))
                    off = off + Lin(o)
                elif t[0] == 'arr':
                    t = t[2]
                    off = off + self.scaled(v, T.size(t))
                else:
                    raise Unsupported('gep into %s' % (t,))
        return PV(base.base, off, base.sub)

    def scaled(self, v, sz):
        if isinstance(v, UV):
            raise Unsupported('undef index')
        if self.dom.isconst(v):
            c = self.dom.cval(v)
            if c >= M(v.w - 1):
                c -= M(v.w)
            return Lin(c * sz)
        if v.lin is not None:
            return v.lin.scale(sz)
        e = self.dom.index(v)
        l = self.linearize(e)
        return l.scale(sz)

    def linearize(self, e):
        """break sums apart so that divisibility is visible"""
        if z3.is_int_value(e):
            return Lin(e.as_long())
        if z3.is_bv_value(e):
            return Lin(e.as_signed_long())
        if z3.is_add(e) or (z3.is_bv(e) and z3.is_app_of(e, z3.Z3_OP_BADD)):
            r = Lin(0)
            for x in e.children():
                r = r + self.linearize(x)
            return r
        if z3.is_sub(e) or (z3.is_bv(e) and z3.is_app_of(e, z3.Z3_OP_BSUB)):
            ch = e.children()
            r = self.linearize(ch[0])
            for x in ch[1:]:
                r = r + self.linearize(x).neg()
            return r
        if z3.is_mul(e) or (z3.is_bv(e) and z3.is_app_of(e, z3.Z3_OP_BMUL)):
            ch = e.children()
            if len(ch) == 2:
                for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                    if z3.is_int_value(a):
                        return self.linearize(b).scale(a.as_long())
                    if z3.is_bv_value(a):
                        return self.linearize(b).scale(a.as_signed_long())
        if z3.is_bv(e) and z3.is_app_of(e, z3.Z3_OP_BSHL) and z3.is_bv_value(e.children()[1]):
            return self.linearize(e.children()[0]).scale(1 << e.children()[1].as_long())
        return Lin(0, ((1, e),))

    # ---------------------------------------------------------------- memory
    def modified(self, b, key):
        """record that key is written in block b; restart if an enclosing loop did not havoc it"""
        L = self.blk_loop.get(b)
        miss = False
        while L is not None:
            o = self.objs[key[0]]
            inloop = o.alloc_loop is not None and o.alloc_loop in [x.header for x in L.chain()] and self.alloc_inside(o, L)
            if not inloop:
                s = self.mods.setdefault(L.header, set())
                if key not in s:
                    s.add(key)
                    miss = True
            L = L.parent
        if miss:
            raise Restart()

    def alloc_inside(self, o, L):
        return o.alloc_block in L.body

    def resolve_access(self, p, w, what, st, R, b, i):
        if isinstance(p, UV) or p is None:
            raise Unsupported('%s through undef pointer' % what)
        if p.base is None:
            self.oblige('%s through null pointer' % what, 'safety', R, z3.BoolVal(False), i)
            return None
        o = p.base
        if o.kind == 'record':
            if p.off.ts:
                raise Unsupported('variable offset into record %s: %s' % (o.name, i))
            return (o, p.off.c, None)
        idx, rest = self.split(p)
        if rest not in o.fields:
            raise Unsupported('access to %s at field offset %d' % (o.name, rest))
        fw = o.fields[rest]
        if isinstance(fw, int) and fw != w:
            raise Unsupported('access width %d to %s field width %s' % (w, o.name, fw))
        ln = o.length
        if o.kind == 'family' and o.famlen is not None:
            ln = o.famlen(st, p.sub)
        if ln is not None:
            self.oblige('%s within %s' % (what, o.name), 'safety', R, self.dom.inb(idx, ln), i)
        else:
            if self.dom.name == 'int':
                self.oblige('%s not before %s' % (what, o.name), 'safety', R, idx >= 0, i)
        return (o, rest, idx)

    def load(self, p, ty, st, R, b, i):
        ty = self.m.types.resolve(ty) if ty[0] == 'named' else ty
        if isinstance(p, MPV):
            r = None
            alts = [(c, q) for c, q in p.alts if q.base is not None]
            nulls = [c for c, q in p.alts if q.base is None]
            for c in nulls:
                self.oblige('load through null pointer', 'safety', z3.And(R, c), z3.BoolVal(False), i)
            for c, q in alts[::-1]:
                v = self.load(q, ty, st, z3.And(R, c), b, i)
                r = v if r is None else self.ite(c, v, r)
            return r
        if ty[0] == 'i':
            w = ty[1] if ty[1] > 1 else 8
        elif ty[0] == 'ptr':
            w = 'ptr'
        elif ty[0] == 'f':
            w = ty[1]
        elif ty[0] == 'struct':
            els = []
            for n in range(len(ty[1])):
                o, t = self.m.types.field_off(ty, n)
                els.append(self.load(PV(p.base, p.off + Lin(o), p.sub), t, st, R, b, i))
            return AV(els)
        else:
            raise Unsupported('load type %s' % (ty,))
        acc = self.resolve_access(p, w, 'load', st, R, b, i)
        if acc is None:
            return self.fresh_val(ty, 'nul')
        o, f, idx = acc
        key = (o.name, f)
        if idx is None:
            v = st.mem.get(key)
            if v is None:
                if ty[0] == 'ptr':
                    raise Unsupported('load of unknown pointer from %s+%d' % (o.name, f))
                for (on, off), c in st.mem.items():
                    if on == o.name and off < f < off + 8 and not isinstance(c, z3.ArrayRef):
                        if isinstance(c, IV) and f < off + c.w // 8:
                            raise Unsupported('partial load from cell')
                v = self.fresh_val(ty, 'uninit')
                st.mem[key] = v
            if isinstance(v, UV):
                return v
            if ty[0] == 'i' and isinstance(v, IV) and v.w != ty[1]:
                if ty[1] == 1 and v.w == 8:
                    return BV1(self.dom.to_bool(v))
                if v.w > ty[1]:
                    return self.dom.trunc(v, ty[1])
                raise Unsupported('cell width mismatch at %s+%d' % (o.name, f))
            if ty[0] == 'i' and isinstance(v, BV1) and ty[1] != 1:
                return self.dom.from_bool(v.c, ty[1])
            if (ty[0] == 'ptr') != isinstance(v, (PV, MPV)):
                raise Unsupported('cell kind mismatch at %s+%d' % (o.name, f))
            if ty[0] == 'f' and isinstance(v, IV):
                raise Unsupported('float load from int cell')
            return v
        self.acc.append(('load', o.name, f, idx, None))
        fw = o.fields[f]
        if not isinstance(fw, int):
            if ty[0] != 'ptr':
                raise Unsupported('non-pointer load of pointer field')
            return PV(self.objs[fw], Lin(0), idx)
        if ty[0] == 'ptr':
            raise Unsupported('pointer load from integer array %s' % o.name)
        a = st.mem[key]
        if o.kind == 'family':
            a = a[p.sub]
        e = a[idx]
        if o.kind == 'family' and self.dom.name == 'int':
            self.facts.append((self.dom.range_fact(e, fw), None))
        v = self.dom.load_val(e, fw)
        if ty[0] == 'f':
            return FV(fw, e if z3.is_int(e) else z3.BV2Int(e))
        if ty[1] == 1:
            return BV1(self.dom.to_bool(v))
        return v

    def fresh_val(self, ty, nm):
        if ty[0] == 'i':
            if ty[1] == 1:
                return BV1(self.fresh(nm, z3.BoolSort()))
            return self.dom.fresh(self.fname_fresh(nm), ty[1])
        if ty[0] == 'f':
            return FV(ty[1], self.fresh(nm, z3.IntSort()))
        if ty[0] == 'ptr':
            return PV(None)
        if ty[0] == 'struct':
            return AV([self.fresh_val(self.m.types.resolve(t), nm) for t in ty[1]])
        raise Unsupported('fresh of %s' % (ty,))

    def store(self, p, v, ty, st, R, b, i):
        ty = self.m.types.resolve(ty) if ty[0] == 'named' else ty
        if isinstance(p, MPV):
            for c, q in p.alts:
                if q.base is None:
                    self.oblige('store through null pointer', 'safety', z3.And(R, c), z3.BoolVal(False), i)
                    continue
                if q.base.kind == 'record':
                    k = (q.base.name, q.off.c)
                    old = st.mem.get(k)
                    if old is None:
                        raise Unsupported('guarded store to unknown cell')
                    self.modified(b, k)
                    st.mem[k] = self.ite(c, v, old)
                else:
                    acc = self.resolve_access(q, ty[1] if ty[0] == 'i' else 0, 'store', st, z3.And(R, c), b, i)
                    o, f, idx = acc
                    self.modified(b, (o.name, f))
                    a = st.mem[(o.name, f)]
                    if o.kind == 'family':
                        na = z3.Store(a, q.sub, z3.Store(a[q.sub], idx, self.dom.store_val(v)))
                    else:
                        na = z3.Store(a, idx, self.dom.store_val(v))
                    st.mem[(o.name, f)] = z3.If(c, na, a)
            return
        if isinstance(v, AV) and ty[0] == 'struct':
            for n, x in enumerate(v.els):
                o, t = self.m.types.field_off(ty, n)
                self.store(PV(p.base, p.off + Lin(o), p.sub), x, t, st, R, b, i)
            return
        if ty[0] == 'i':
            w = ty[1] if ty[1] > 1 else 8
        elif ty[0] == 'ptr':
            w = 'ptr'
        elif ty[0] == 'f':
            w = ty[1]
        else:
            raise Unsupported('store type %s' % (ty,))
        acc = self.resolve_access(p, w, 'store', st, R, b, i)
        if acc is None:
            return
        o, f, idx = acc
        if o.readonly:
            self.oblige('store to read-only %s' % o.name, 'frame', R, z3.BoolVal(False), i)
        self.modified(b, (o.name, f))
        if idx is None:
            # overlapping cells are killed
            for k in list(st.mem):
                if k[0] == o.name and k[1] != f:
                    c = st.mem[k]
                    sz = c.w // 8 if isinstance(c, IV) else 8
                    mysz = (w // 8 if isinstance(w, int) else 8)
                    if k[1] < f + mysz and f < k[1] + sz:
                        if k[1] in range(f, f + mysz) or k[1] < f:
                            del st.mem[k]
            st.mem[(o.name, f)] = v
            return
        fw = o.fields[f]
        if not isinstance(fw, int):
            raise Unsupported('store to pointer field of %s' % o.name)
        if isinstance(v, UV):
            v = self.dom.fresh(self.fname_fresh('undef'), fw)
        if isinstance(v, BV1):
            v = self.dom.from_bool(v.c, fw)
        e = v.e if isinstance(v, FV) else self.dom.store_val(v)
        self.acc.append(('store', o.name, f, idx, e))
        a = st.mem[(o.name, f)]
        if o.kind == 'family':
            na = z3.Store(a, p.sub, z3.Store(a[p.sub], idx, e))
        else:
            na = z3.Store(a, idx, e)
        x = self.fresh('s_' + o.name, na.sort())
        self.facts.append((x == na, None))
        st.mem[(o.name, f)] = x

    def havoc(self, st, b, o, f=0):
        """fresh content for array field (contract of a callee)"""
        self.modified(b, (o.name, f))
        a = st.mem[(o.name, f)]
        x = self.fresh('c_' + o.name, a.sort())
        if o.kind == 'array':
            self.range_ax2(x, o.fields[f])
        st.mem[(o.name, f)] = x
        return a, x

    # ---------------------------------------------------------------- shared memory (rely/guarantee)
    # self.shared[obj name] = (rely, guar): before every access to the object other threads may have changed it from a to x with
    # rely(a, x); every write of ours from a to x owes guar(self, st, a, x), a list of (name, formula); guar may update ghost state
    def interfere(self, p, st, R, b):
        if not self.shared or not isinstance(p, PV) or p.base is None or p.base.name not in self.shared:
            if self.shared and isinstance(p, MPV) and any(q.base is not None and q.base.name in self.shared for _, q in p.alts):
                raise Unsupported('access to shared memory through an ambiguous pointer')
            return None
        a, x = self.havoc(st, b, p.base)
        self.facts.append((self.shared[p.base.name][0](a, x), None))
        return x

    def guarantee(self, p, before, st, R, b, i):
        if before is None:
            return
        for nm, g in self.shared[p.base.name][1](self, st, b, before, st.mem[(p.base.name, 0)]):
            self.oblige(nm, 'guarantee', R, g, i)

    # ---------------------------------------------------------------- obligations
    def oblige(self, name, kind, R, p, i=None):
        p2 = z3.simplify(p)
        where = (i.txt if isinstance(i, Inst) else str(i or ''))[:160]
        self.obls.append(Obl(name, kind, len(self.facts), R, p2, where))
        if not z3.is_true(p2):
            self.facts.append((z3.Implies(R, p2), None))

    def fact(self, R, f):
        self.facts.append((z3.Implies(R, f), None))

    # ---------------------------------------------------------------- instructions
    def exec_inst(self, i, st, R, b):
        dom = self.dom
        op = i.op
        ev = self.operand
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            x, y = ev(i.args[0], i.ty), ev(i.args[1], i.ty)
            if i.ty[0] != 'i':
                raise Unsupported('vector op')
            if i.ty[1] == 1:
                x, y = self.asbool(x), self.asbool(y)
                self.env[i.res] = BV1({'and': z3.And(x, y), 'or': z3.Or(x, y), 'xor': z3.Xor(x, y), 'add': z3.Xor(x, y),
                                       'sub': z3.Xor(x, y), 'mul': z3.And(x, y)}[op])
                return True
            if isinstance(x, UV) or isinstance(y, UV):
                self.env[i.res] = UV()
                return True
            if op in ('udiv', 'sdiv', 'urem', 'srem') and not dom.isconst(y):
                self.oblige('division by zero', 'safety', R, dom.uns(y) != dom.const_raw(0, i.ty[1]).e, i)
            if op == 'sub' and x.pti is not None and y.pti is not None:
                bx, lx = x.pti
                by, ly = y.pti
                if bx is by:
                    l = lx + ly.neg()
                    self.env[i.res] = dom.from_index(dom.linexpr(l), i.ty[1], lin=l)
                    return True
                raise Unsupported('difference of pointers to different objects')
            if x.pti is not None or y.pti is not None:
                raise Unsupported('arithmetic on pointer integer')
            v = dom.binop(op, x, y, i.ty[1], i.x)
            if dom.name == 'int' and not z3.is_const(v.e) and (z3.is_app_of(v.e, z3.Z3_OP_ITE) or z3.is_app_of(v.e, z3.Z3_OP_IDIV) or z3.is_app_of(v.e, z3.Z3_OP_MOD)):
                v = self.name_val(v, i.res, i.ty)
            self.env[i.res] = v
            return True
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            a = [ev(x, i.ty) for x in i.args]
            es = [x.e if isinstance(x, FV) else z3.Int('fundef') for x in a]
            fn = z3.Function('f_%s_%d' % (op, i.ty[1]), *([z3.IntSort()] * (len(es) + 1)))
            self.env[i.res] = FV(i.ty[1], fn(*es))
            return True
        if op == 'icmp':
            t = i.ty
            x, y = ev(i.args[0], t), ev(i.args[1], t)
            if isinstance(x, UV) or isinstance(y, UV):
                self.env[i.res] = BV1(self.fresh('undef', z3.BoolSort()))
                return True
            if t[0] == 'ptr':
                self.env[i.res] = BV1(self.pcmp(i.x, x, y))
            elif t[1] == 1:
                a, c = self.asbool(x), self.asbool(y)
                self.env[i.res] = BV1({'eq': a == c, 'ne': z3.Xor(a, c), 'ult': z3.And(z3.Not(a), c), 'ugt': z3.And(a, z3.Not(c)),
                                       'ule': z3.Or(z3.Not(a), c), 'uge': z3.Or(a, z3.Not(c))}[i.x])
            else:
                if x.pti is not None or y.pti is not None:
                    if x.pti is not None and y.pti is not None:
                        self.env[i.res] = BV1(self.pcmp(i.x, PV(x.pti[0], x.pti[1]), PV(y.pti[0], y.pti[1])))
                        return True
                    raise Unsupported('comparison of pointer integer')
                self.env[i.res] = BV1(dom.icmp(i.x, x, y, t[1]))
            return True
        if op == 'fcmp':
            x, y = ev(i.args[0], i.ty), ev(i.args[1], i.ty)
            fn = z3.Function('fcmp_' + i.x, z3.IntSort(), z3.IntSort(), z3.BoolSort())
            self.env[i.res] = BV1(fn(x.e, y.e))
            return True
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            st_ = i.x
            x = ev(i.args[0], st_)
            t2 = i.ty
            if isinstance(x, UV):
                self.env[i.res] = UV()
                return True
            if op in ('zext', 'sext'):
                if st_[1] == 1:
                    self.env[i.res] = dom.from_bool(self.asbool(x), t2[1], op == 'sext')
                else:
                    self.env[i.res] = dom.zext(x, t2[1]) if op == 'zext' else dom.sext(x, t2[1])
            elif op == 'trunc':
                if t2[1] == 1:
                    self.env[i.res] = BV1(dom.to_bool(x))
                else:
                    v = dom.trunc(x, t2[1])
                    self.env[i.res] = self.name_val(v, i.res, t2) if v.e is not x.e else v
            elif op == 'ptrtoint':
                if not isinstance(x, PV):
                    raise Unsupported('ptrtoint of merged pointer')
                if x.base is None:
                    self.env[i.res] = dom.const(0, t2[1])
                else:
                    v = dom.fresh('addr_' + x.base.name + self.fname_fresh(''), t2[1])
                    self.env[i.res] = IV(t2[1], v.e, v.lo, v.hi, pti=(x.base, x.off))
            elif op == 'bitcast' and isinstance(x, (PV, MPV)):
                self.env[i.res] = x
            elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
                fn = z3.Function('conv_%s_%s_%s' % (op, st_[1], t2[1]), z3.IntSort(), z3.IntSort())
                src = x.e if isinstance(x, FV) else dom.uns(x)
                r = fn(src)
                if t2[0] == 'f':
                    self.env[i.res] = FV(t2[1], r)
                else:
                    self.facts.append((dom.range_fact(r, t2[1]), None))
                    self.env[i.res] = dom.load_val(r, t2[1])
            else:
                raise Unsupported('cast ' + op)
            return True
        if op == 'select':
            c = self.asbool(ev(i.args[0], ('i', 1)))
            a, bb = ev(i.args[1], i.ty), ev(i.args[2], i.ty)
            if z3.is_true(c):
                self.env[i.res] = a
            elif z3.is_false(c):
                self.env[i.res] = bb
            else:
                self.env[i.res] = self.name_val(self.ite(c, a, bb), i.res, i.ty)
            return True
        if op == 'freeze':
            v = ev(i.args[0], i.ty)
            self.env[i.res] = self.fresh_val(i.ty, 'frz') if isinstance(v, UV) else v
            return True
        if op == 'getelementptr':
            self.env[i.res] = self.gep(i.ty, [(t, ev(x, t)) for t, x in i.args])
            return True
        if op == 'load':
            p = ev(i.args[0], ('ptr',))
            self.interfere(p, st, R, b)
            self.env[i.res] = self.load(p, i.ty, st, R, b, i)
            return True
        if op == 'store':
            v = ev(i.args[0], i.ty)
            p = ev(i.args[1], ('ptr',))
            before = self.interfere(p, st, R, b)
            self.store(p, v, i.ty, st, R, b, i)
            self.guarantee(p, before, st, R, b, i)
            return True
        if op == 'alloca':
            nm = 'a%s' % i.res.strip('%"')
            if nm not in self.objs:
                o = Obj(nm, 'record', dom)
                o.size = self.m.types.size(i.ty)
                o.alloc_loop = self.blk_loop[b].header if self.blk_loop[b] else None
                o.alloc_block = b
                self.objs[nm] = o
            self.env[i.res] = PV(self.objs[nm])
            return True
        if op == 'extractvalue':
            v = ev(i.args[0], i.ty)
            for n in i.x:
                v = v.els[n]
            self.env[i.res] = v
            return True
        if op == 'insertvalue':
            v = ev(i.args[0], i.ty)
            t = self.m.types.resolve(i.ty)
            ft = t[1][i.x[0]] if t[0] == 'struct' else t[2]
            if len(i.x) != 1:
                raise Unsupported('nested insertvalue')
            y = None
            for tt in [ft]:
                y = ev(i.args[1], tt)
            els = list(v.els)
            els[i.x[0]] = y
            self.env[i.res] = AV(els)
            return True
        if op == 'br':
            if len(i.x) == 1:
                self.setedge(b, i.x[0], R, st)
            else:
                c = self.asbool(ev(i.args[0], ('i', 1)))
                if i.x[0] == i.x[1]:
                    self.setedge(b, i.x[0], R, st)
                else:
                    self.setedge(b, i.x[0], z3.And(R, c), st)
                    self.setedge(b, i.x[1], z3.And(R, z3.Not(c)), st)
            return False
        if op == 'switch':
            v = ev(i.args[0], i.ty)
            tg = {}
            neg = []
            for cv, lab in i.x[-1]:
                e = dom.icmp('eq', v, dom.const(cv, i.ty[1]), i.ty[1])
                neg.append(z3.Not(e))
                tg.setdefault(lab, []).append(e)
            tg.setdefault(i.x[0], []).append(z3.And(neg) if neg else z3.BoolVal(True))
            for lab, es in tg.items():
                self.setedge(b, lab, z3.And(R, z3.Or(es)), st)
            return False
        if op == 'ret':
            v = ev(i.args[0], i.ty) if i.args else None
            self.rets.append((R, v, st))
            if self.post_fn:
                for nm, p in self.post_fn(self, st, v):
                    self.obls.append(Obl(nm, 'post', len(self.facts), R, p, 'ret'))
            return False
        if op == 'unreachable':
            if self.last_call != (b, 'noreturn'):
                self.oblige('undefined behaviour (unreachable) is not reached', 'safety', R, z3.BoolVal(False), i)
            return False
        if op == 'call':
            return self.call(i, st, R, b)
        if op == 'atomicrmw':
            p = ev(i.args[0], ('ptr',))
            v = ev(i.args[1], i.ty)
            before = self.interfere(p, st, R, b)
            old = self.load(p, i.ty, st, R, b, i)
            if i.x == 'xchg':
                new = v
            elif i.x in ('add', 'sub', 'and', 'or', 'xor'):
                new = dom.binop(i.x, old, v, i.ty[1], set())
            elif i.x in ('umin', 'umax', 'min', 'max'):
                new = self.minmax({'umin': 'umin', 'umax': 'umax', 'min': 'smin', 'max': 'smax'}[i.x], old, v, i.ty[1])
            else:
                raise Unsupported('atomicrmw ' + str(i.x))
            self.store(p, new, i.ty, st, R, b, i)
            self.guarantee(p, before, st, R, b, i)
            self.env[i.res] = old
            return True
        if op == 'cmpxchg':
            p = ev(i.args[0], ('ptr',))
            c = ev(i.args[1], i.ty)
            n = ev(i.args[2], i.ty)
            before = self.interfere(p, st, R, b)
            old = self.load(p, i.ty, st, R, b, i)
            ok = dom.icmp('eq', old, c, i.ty[1])
            self.store(p, self.ite(ok, n, old), i.ty, st, R, b, i)
            self.guarantee(p, before, st, R, b, i)
            self.env[i.res] = AV([old, BV1(ok)])
            return True
        if op == 'fence':
            return True
        raise Unsupported('instruction %s: %s' % (op, i.txt[:120]))

    def minmax(self, f, x, y, w):
        c = self.dom.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[f], x, y, w)
        return self.ite(c, x, y)

    def asbool(self, v):
        if isinstance(v, BV1):
            return v.c
        if isinstance(v, IV):
            return self.dom.to_bool(v)
        if isinstance(v, UV):
            return self.fresh('undef', z3.BoolSort())
        raise Unsupported('bool')

    def setedge(self, b, t, c, st):
        c = z3.simplify(c)
        if z3.is_false(c):
            return
        if (b, t) in self.edge:
            raise Unsupported('duplicate edge')
        self.edge[(b, t)] = (c, st.copy())

    def pcmp(self, pred, x, y):
        if isinstance(x, MPV):
            return z3.Or([z3.And(c, self.pcmp(pred, p, y)) for c, p in x.alts])
        if isinstance(y, MPV):
            return z3.Or([z3.And(c, self.pcmp(pred, x, p)) for c, p in y.alts])
        if x.base is None and y.base is None:
            return z3.BoolVal(pred in ('eq', 'ule', 'uge'))
        if x.base is None or y.base is None:
            if pred == 'eq':
                return z3.BoolVal(False)
            if pred == 'ne':
                return z3.BoolVal(True)
            raise Unsupported('ordered compare with null')
        if x.base is not y.base:
            if pred == 'eq':
                return z3.BoolVal(False)
            if pred == 'ne':
                return z3.BoolVal(True)
            raise Unsupported('ordered compare of different objects')
        if not self.same_sub(x.sub, y.sub):
            raise Unsupported('compare across family members')
        s = x.base.stride
        l = x.off + y.off.neg()
        if l.divisible(s):
            l = l.div(s)
            d = self.dom.linexpr(l)
            zero = self.dom.idxconst(0)
            if self.dom.name == 'bv' and pred not in ('eq', 'ne'):
                a, c = self.split(x)[0], self.split(y)[0]
                return {'ult': z3.ULT(a, c), 'ule': z3.ULE(a, c), 'ugt': z3.UGT(a, c), 'uge': z3.UGE(a, c)}[pred]
            return {'eq': d == zero, 'ne': d != zero, 'ult': d < zero, 'ule': d <= zero, 'ugt': d > zero, 'uge': d >= zero,
                    'slt': d < zero, 'sle': d <= zero, 'sgt': d > zero, 'sge': d >= zero}[pred]
        if x.base.kind == 'record' and not l.ts:
            return z3.BoolVal({'eq': l.c == 0, 'ne': l.c != 0, 'ult': l.c < 0, 'ule': l.c <= 0, 'ugt': l.c > 0, 'uge': l.c >= 0}[pred])
        raise Unsupported('pointer compare')

    # ---------------------------------------------------------------- calls
    def call(self, i, st, R, b):
        name = i.x
        dom = self.dom
        nm = name.lstrip('@').strip('"')
        if nm.startswith(NORETURN):
            self.last_call = (b, 'noreturn')
        if nm.startswith('llvm.'):
            return self.intrinsic(nm, i, st, R, b)
        if nm in ('__assert_fail',):
            self.oblige('assert holds', 'assert', R, z3.BoolVal(False), i)
            return True
        if nm in ('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '_ZSt17__throw_bad_allocv',
                  '_ZSt20__throw_length_errorPKc', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt25__throw_bad_function_callv',
                  '__cxa_throw', '__cxa_rethrow'):
            self.oblige('%s not reached' % nm, 'safety', R, z3.BoolVal(False), i)
            return True
        args = [self.operand(x, t) for t, x in i.args]
        h = self.handlers.get(nm)
        if h is None:
            for k, v in self.handlers.items():
                if k.endswith('*') and nm.startswith(k[:-1]):
                    h = v
                    break
        if h is None:
            raise Unsupported('call to %s without a contract' % nm)
        self.curblk = b
        self.calls.append(nm)
        r = h(self, i, args, st, R, b)
        if i.res:
            if r is None:
                raise Unsupported('contract of %s returned no value' % nm)
            self.env[i.res] = r
        return True

    def intrinsic(self, nm, i, st, R, b):
        dom = self.dom
        if nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.invariant', 'llvm.donothing',
                          'llvm.stacksave', 'llvm.stackrestore')):
            if i.res:
                self.env[i.res] = PV(None)
            return True
        args = [self.operand(x, t) for t, x in i.args]
        if nm.startswith('llvm.assume'):
            # produced by the optimiser or __builtin_assume; treated as an obligation, then known
            self.fact(R, self.asbool(args[0]))
            return True
        if nm.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            if i.ty[0] == 'i' and i.ty[1] == 1:
                raise Unsupported('i1 minmax')
            self.env[i.res] = self.name_val(self.minmax(nm[5:9], args[0], args[1], i.ty[1]), i.res, i.ty)
            return True
        if nm.startswith(('llvm.usub.sat', 'llvm.uadd.sat')):
            x, y = args[:2]
            w = i.ty[1]
            if 'usub' in nm:
                c = dom.icmp('ugt', x, y, w)
                self.env[i.res] = self.name_val(self.ite(c, dom.binop('sub', x, y, w, set()), dom.const(0, w)), i.res, i.ty)
                return True
        if nm.startswith('llvm.abs'):
            x = args[0]
            w = i.ty[1]
            c = dom.icmp('slt', x, dom.const(0, w), w)
            self.env[i.res] = self.ite(c, dom.binop('sub', dom.const(0, w), x, w, set()), x)
            return True
        if nm.startswith('llvm.umul.with.overflow'):
            x, y = args
            w = x.w
            if dom.name == 'int' and (dom.isconst(x) or dom.isconst(y)):
                p = dom.uns(x) * dom.uns(y)
                self.env[i.res] = AV([dom.binop('mul', x, y, w, set()), BV1(p >= M(w))])
                return True
        if nm.startswith(('llvm.ctpop', 'llvm.ctlz', 'llvm.cttz')) and dom.name == 'bv':
            x = args[0]
            w = x.w
            if 'ctpop' in nm:
                r = z3.BitVecVal(0, w)
                for k in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x.e))
            elif 'ctlz' in nm:
                r = z3.BitVecVal(w, w)
                for k in range(w):
                    r = z3.If(z3.Extract(k, k, x.e) == 1, z3.BitVecVal(w - 1 - k, w), r)
            else:
                r = z3.BitVecVal(w, w)
                for k in range(w - 1, -1, -1):
                    r = z3.If(z3.Extract(k, k, x.e) == 1, z3.BitVecVal(k, w), r)
            self.env[i.res] = IV(w, r, 0, w)
            return True
        if nm.startswith('llvm.expect'):
            self.env[i.res] = args[0]
            return True
        if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s, n = args[0], args[1], args[2]
            if isinstance(d, PV) and isinstance(s, PV) and d.base and s.base and dom.isconst(n):
                n = dom.cval(n)
                # copy of a small object
                def cells(p):
                    if p.base.kind == 'record':
                        if p.off.ts:
                            raise Unsupported('memcpy variable record offset')
                        return {k[1] - p.off.c: k[1] for k in st.mem if k[0] == p.base.name and p.off.c <= k[1] < p.off.c + n}
                    idx, rest = self.split(p)
                    r = {}
                    for q in range(0, max(1, (rest + n + p.base.stride - 1) // p.base.stride)):
                        for f in p.base.fields:
                            o = q * p.base.stride + f - rest
                            if 0 <= o < n:
                                r[o] = None
                    return r
                cs = cells(s)
                if d.base.kind == 'record':
                    for k in [k for k in st.mem if k[0] == d.base.name and d.off.c <= k[1] < d.off.c + n]:
                        self.modified(b, k)
                        del st.mem[k]
                offs = sorted(set(cs) | (set(cells(d)) if d.base.kind != 'record' else set()))
                for o in offs:
                    if s.base.kind == 'record':
                        k = (s.base.name, s.off.c + o)
                        v = st.mem.get(k)
                        if v is None:
                            v = UV()
                    else:
                        idx, rest = self.split(PV(s.base, s.off + Lin(o), s.sub))
                        fw = s.base.fields[rest]
                        v = self.load(PV(s.base, s.off + Lin(o), s.sub), ('i', fw) if isinstance(fw, int) else ('ptr',), st, R, b, i)
                    if d.base.kind == 'record':
                        self.modified(b, (d.base.name, d.off.c + o))
                        st.mem[(d.base.name, d.off.c + o)] = v
                    else:
                        idx, rest = self.split(PV(d.base, d.off + Lin(o), d.sub))
                        fw = d.base.fields[rest]
                        self.store(PV(d.base, d.off + Lin(o), d.sub), v, ('i', fw) if isinstance(fw, int) else ('ptr',), st, R, b, i)
                return True
            if isinstance(d, PV) and isinstance(s, PV) and d.base and s.base and d.base.kind == 'array' and s.base.kind == 'array' and d.base.fields == s.base.fields:
                di, dr = self.split(d)
                si, sr = self.split(s)
                if dr or sr:
                    raise Unsupported('memcpy inside element')
                cnt = self.bytes_to_elems(n, d.base.stride)
                if d.base is s.base and 'memcpy' in nm:
                    pass
                for f in d.base.fields:
                    src = st.mem[(s.base.name, f)]
                    old, new = self.havoc(st, b, d.base, f)
                    k = z3.Const('k!c', dom.isort)
                    self.range_oblige(d.base, di, cnt, R, i)
                    self.range_oblige(s.base, si, cnt, R, i)
                    self.facts.append((z3.ForAll([k], new[k] == z3.If(self.inblock(k, di, cnt), src[k - di + si], old[k]), patterns=[new[k]]), None))
                return True
        if nm.startswith('llvm.memset'):
            d, v, n = args[0], args[1], args[2]
            if isinstance(d, PV) and d.base and d.base.kind == 'record' and dom.isconst(n) and dom.isconst(v) and dom.cval(v) == 0:
                n = dom.cval(n)
                for k in [k for k in st.mem if k[0] == d.base.name and d.off.c <= k[1] < d.off.c + n]:
                    old = st.mem[k]
                    self.modified(b, k)
                    st.mem[k] = dom.const(0, old.w) if isinstance(old, IV) else PV(None) if isinstance(old, (PV, MPV)) else UV()
                self.notes.append('memset record')
                # unknown cells: zero 8-byte granules not present
                for o in range(d.off.c, d.off.c + n, 8):
                    if not any(k[0] == d.base.name and o <= k[1] < o + 8 for k in st.mem) and o + 8 <= d.off.c + n:
                        self.modified(b, (d.base.name, o))
                        st.mem[(d.base.name, o)] = dom.const(0, 64)
                return True
            if isinstance(d, PV) and d.base and d.base.kind == 'array':
                di, dr = self.split(d)
                cnt = self.bytes_to_elems(n, d.base.stride)
                if dr == 0:
                    for f, fw in d.base.fields.items():
                        if not isinstance(fw, int):
                            raise Unsupported('memset over pointers')
                        if fw == 8:
                            val = dom.store_val(v)
                        else:
                            if not dom.isconst(v):
                                raise Unsupported('memset of non-constant byte')
                            byte = dom.cval(v) & 255
                            val = dom.uns(dom.const(int.from_bytes(bytes([byte]) * (fw // 8), 'little'), fw))
                        old, new = self.havoc(st, b, d.base, f)
                        self.range_oblige(d.base, di, cnt, R, i)
                        k = z3.Const('k!c', dom.isort)
                        self.facts.append((z3.ForAll([k], new[k] == z3.If(self.inblock(k, di, cnt), val, old[k]), patterns=[new[k]]), None))
                    return True
        raise Unsupported('intrinsic %s' % nm)

    def inblock(self, k, lo, cnt):
        return z3.And(k >= lo, k < lo + cnt) if self.dom.name == 'int' else z3.ULT(k - lo, cnt)

    def range_oblige(self, o, lo, cnt, R, i):
        if self.dom.name != 'int':
            ok = z3.BoolVal(True) if o.length is None else z3.Or(cnt == 0, z3.And(z3.ULE(cnt, o.length), z3.ULE(lo, o.length - cnt)))
            self.oblige('block access within %s' % o.name, 'safety', R, ok, i)
            return
        self.oblige('block access within %s' % o.name, 'safety', R,
                    z3.Or(cnt == 0, z3.And(cnt > 0, lo >= 0, lo + cnt <= o.length if o.length is not None else z3.BoolVal(True))), i)

    def bytes_to_elems(self, n, s):
        if s == 1:
            return self.dom.uns(n)
        if self.dom.isconst(n):
            c = self.dom.cval(n)
            if c % s:
                raise Unsupported('block size')
            return self.dom.idxconst(c // s)
        if self.dom.name != 'int' and n.lin is None and s & (s - 1) == 0:
            self.oblige('block size is a whole number of elements', 'safety', z3.BoolVal(True), n.e & (s - 1) == 0)
            return z3.LShR(n.e, s.bit_length() - 1)
        l = n.lin if n.lin is not None else self.linearize(n.e)
        if l.divisible(s):
            return self.dom.linexpr(l.div(s))
        return self.dom.uns(n) / s
