"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that the verifier reads.

Anything outside the subset raises Unsupported: the caller then reports the function as
'not extracted' (tool limit), never as a violation.
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
    (?P<ws>\s+)|
    (?P<cmt>;[^\n]*)|
    (?P<str>c?"(?:[^"\\]|\\.)*")|
    (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
    (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
    (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
    (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)|
    (?P<attr>\#[0-9]+)|
    (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)|
    (?P<id>[-a-zA-Z$._][-a-zA-Z$._0-9]*)|
    (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('token at %r' % s[pos:pos + 40])
        k = m.lastgroup
        if k not in ('ws', 'cmt'):
            out.append((k, m.group()))
        pos = m.end()
    return out


# ---------------------------------------------------------------- types
# ('i', w) ('ptr',) ('f', w) ('void',) ('arr', n, t) ('struct', [t], packed) ('named', name) ('vec', n, t)
# ('label',) ('metadata',)

class Types:
    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self.named:
                raise Unsupported('opaque type ' + t[1])
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return max(1, min(8 if t[1] <= 64 else 16, 1 << max(0, ((t[1] + 7) // 8 - 1).bit_length())))
        if k == 'ptr':
            return 8
        if k == 'f':
            return t[1] // 8
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        raise Unsupported('align %s' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'f':
            return t[1] // 8
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'struct':
            off = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    off = (off + a - 1) // a * a
                off += self.size(x)
            a = self.align(t)
            return (off + a - 1) // a * a
        if k == 'vec':
            return t[1] * self.size(t[2])
        raise Unsupported('size %s' % (t,))

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            if j == i:
                return off, x
            off += self.size(x)
        raise Unsupported('field')


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise Unsupported('expected %r got %r in %s' % (s, x[1], ' '.join(y[1] for y in self.t)[:300]))

    def more(self):
        return self.i < len(self.t)

    def is_type(self):
        k, s = self.peek()
        if k == 'id':
            return bool(re.fullmatch(r'i[0-9]+|ptr|void|float|double|half|label|metadata|x86_fp80|token|opaque', s))
        if k == 'loc':
            return True
        return s in ('[', '{', '<')

    def type(self):
        k, s = self.next()
        if k == 'id':
            if s[0] == 'i' and s[1:].isdigit():
                return ('i', int(s[1:]))
            if s == 'ptr':
                if self.peek()[1] == 'addrspace':
                    raise Unsupported('addrspace')
                return ('ptr',)
            if s == 'float':
                return ('f', 32)
            if s == 'double':
                return ('f', 64)
            if s == 'x86_fp80':
                return ('f', 128)
            if s in ('void', 'label', 'metadata', 'token', 'opaque'):
                return (s,)
        if k == 'loc':
            return ('named', s)
        if s == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if s == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            return ('struct', fs, False)
        if s == '<':
            if self.peek()[1] == '{':
                t = self.type()
                self.expect('>')
                return ('struct', t[1], True)
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        raise Unsupported('type at %r in %s' % (s, ' '.join(y[1] for y in self.t)[:200]))


# operand: ('loc',name) ('int',v) ('null',) ('undef',) ('glob',name) ('agg',[(t,op)]) ('zero',) ('cgep',...) ('float',txt)

SKIP_ATTR = set('''noundef nonnull noalias nocapture readonly readnone writeonly zeroext signext inreg returned nofree
immarg nest swiftself swifterror noundef writable dead_on_unwind allocptr allocalign inrange'''.split())


def skip_attrs(p):
    while True:
        k, s = p.peek()
        if k == 'id' and s in SKIP_ATTR:
            p.next()
        elif k == 'id' and s in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype',
                                 'captures', 'range', 'nofpclass', 'initializes', 'memory', 'alignstack', 'preallocated', 'inalloca', 'byref'):
            p.next()
            if p.peek()[1] == '(':
                d = 0
                while True:
                    x = p.next()[1]
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                        if d == 0:
                            break
            else:
                p.next()
        elif k == 'str':
            p.next()
            if p.eat('='):
                p.next()
        else:
            return


def operand(p, t):
    k, s = p.next()
    if k == 'loc':
        return ('loc', s)
    if k == 'glob':
        return ('glob', s)
    if k == 'num':
        if t and t[0] == 'f':
            return ('float', s)
        if s.startswith('0x'):
            return ('float', s)
        return ('int', int(s))
    if k == 'id':
        if s == 'true':
            return ('int', 1)
        if s == 'false':
            return ('int', 0)
        if s == 'null':
            return ('null',)
        if s in ('undef', 'poison'):
            return ('undef',)
        if s == 'zeroinitializer':
            return ('zero',)
        if s == 'getelementptr':
            p.eat('inbounds')
            if p.peek()[1] in ('nuw', 'nusw'):
                p.next()
            p.expect('(')
            ty = p.type()
            p.expect(',')
            args = []
            while True:
                if p.peek()[1] == 'inrange':
                    p.next()
                at = p.type()
                args.append((at, operand(p, at)))
                if p.eat(')'):
                    break
                p.expect(',')
            return ('cgep', ty, args)
        raise Unsupported('constant expr ' + s)
    if s == '{' or s == '[':
        close = {'{': '}', '[': ']'}[s]
        els = []
        if not p.eat(close):
            while True:
                et = p.type()
                els.append((et, operand(p, et)))
                if p.eat(close):
                    break
                p.expect(',')
        return ('agg', els)
    if k == 'meta':
        while p.more() and p.peek()[1] not in (',', ')'):
            if p.peek()[1] == '(':
                d = 0
                while True:
                    x = p.next()[1]
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break
            else:
                p.next()
        return ('undef',)
    if k == 'str':
        return ('undef',)
    raise Unsupported('operand %r' % s)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'txt')

    def __init__(self, op, res=None, ty=None, args=None, x=None, txt=''):
        self.op, self.res, self.ty, self.args, self.x, self.txt = op, res, ty, args or [], x, txt

    def __repr__(self):
        return self.txt


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc ptrtoint inttoptr bitcast fptosi fptoui sitofp uitofp fpext fptrunc'.split())
FM = set('fast nnan ninf nsz arcp contract afn reassoc'.split())


def parse_inst(line):
    p = P(tokenize(line))
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    op = p.next()[1]
    I = lambda **kw: Inst(op, res, txt=line.strip(), **kw)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op in BIN:
        flags = set()
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek()[1] in FM:
            flags.add(p.next()[1])
        t = p.type()
        a = operand(p, t)
        p.expect(',')
        b = operand(p, t)
        return I(ty=t, args=[a, b], x=flags)
    if op == 'fneg':
        while p.peek()[1] in FM:
            p.next()
        t = p.type()
        return I(ty=t, args=[operand(p, t)])
    if op in CAST:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        a = operand(p, t)
        p.expect('to')
        t2 = p.type()
        return I(ty=t2, args=[a], x=t)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FM:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = operand(p, t)
        p.expect(',')
        b = operand(p, t)
        return I(ty=t, args=[a, b], x=pred)
    if op == 'select':
        while p.peek()[1] in FM:
            p.next()
        ct = p.type()
        c = operand(p, ct)
        p.expect(',')
        t = p.type()
        a = operand(p, t)
        p.expect(',')
        t2 = p.type()
        b = operand(p, t2)
        return I(ty=t, args=[c, a, b])
    if op == 'phi':
        while p.peek()[1] in FM:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = operand(p, t)
            p.expect(',')
            l = p.next()[1]
            p.expect(']')
            inc.append((v, l))
            if not p.eat(',') or p.peek()[0] == 'meta':
                break
        return I(ty=t, args=inc)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            return I(x=[p.next()[1]])
        t = p.type()
        c = operand(p, t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1]
        p.expect(',')
        p.expect('label')
        b = p.next()[1]
        return I(args=[c], x=[a, b])
    if op == 'switch':
        t = p.type()
        v = operand(p, t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = operand(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1]))
        return I(ty=t, args=[v], x=[d] + [c[1] for c in cases] + [cases])
    if op == 'ret':
        t = p.type()
        if t[0] == 'void':
            return I(ty=t)
        return I(ty=t, args=[operand(p, t)])
    if op == 'unreachable':
        return I()
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        cnt = ('int', 1)
        while p.eat(','):
            if p.peek()[1] in ('align',) or p.peek()[0] == 'meta':
                break
            ct = p.type()
            cnt = operand(p, ct)
        return I(ty=t, x=cnt)
    if op == 'load':
        at = p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        p.expect(',')
        p.type()
        a = operand(p, ('ptr',))
        return I(ty=t, args=[a], x=at)
    if op == 'store':
        at = p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        v = operand(p, t)
        p.expect(',')
        p.type()
        a = operand(p, ('ptr',))
        return I(ty=t, args=[v, a], x=at)
    if op == 'getelementptr':
        inb = p.eat('inbounds')
        while p.peek()[1] in ('nuw', 'nusw'):
            p.next()
        ty = p.type()
        args = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            t = p.type()
            args.append((t, operand(p, t)))
        return I(ty=ty, args=args, x=inb)
    if op == 'extractvalue':
        t = p.type()
        v = operand(p, t)
        idx = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return I(ty=t, args=[v], x=idx)
    if op == 'insertvalue':
        t = p.type()
        v = operand(p, t)
        p.expect(',')
        t2 = p.type()
        w = operand(p, t2)
        idx = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return I(ty=t, args=[v, w], x=idx)
    if op == 'freeze':
        t = p.type()
        return I(ty=t, args=[operand(p, t)])
    if op in ('call', 'invoke'):
        while p.peek()[1] in FM or p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        skip_attrs(p)
        t = p.type()
        if p.peek()[1] == '(':   # function type (varargs)
            d = 0
            while True:
                x = p.next()[1]
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        k, callee = p.next()
        if k == 'id' and callee == 'asm':
            raise Unsupported('inline asm')
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                skip_attrs(p)
                args.append((at, operand(p, at)))
                if p.eat(')'):
                    break
                p.expect(',')
        ins = Inst('call', res, ty=t, args=args, x=callee, txt=line.strip())
        if op == 'invoke':
            while p.more() and p.peek()[1] != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            a = p.next()[1]
            p.expect('unwind')
            p.expect('label')
            b = p.next()[1]
            ins.op = 'invoke'
            ins.args = (args, [a, b])
        return ins
    if op == 'atomicrmw':
        p.eat('volatile')
        k = p.next()[1]
        pt = p.type()
        a = operand(p, pt)
        p.expect(',')
        t = p.type()
        v = operand(p, t)
        return I(ty=t, args=[a, v], x=k)
    if op == 'cmpxchg':
        p.eat('weak')
        p.eat('volatile')
        pt = p.type()
        a = operand(p, pt)
        p.expect(',')
        t = p.type()
        c = operand(p, t)
        p.expect(',')
        t2 = p.type()
        n = operand(p, t2)
        return I(ty=t, args=[a, c, n])
    if op == 'fence':
        return I()
    return Inst('unsupported', res, txt=line.strip(), x=op)


class Block:
    def __init__(self, label):
        self.label = label
        self.insts = []
        self.preds = []
        self.succs = []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.blocks = {}
        self.order = []
        self.entry = None
        self.err = None
        self.body_txt = []


class Module:
    def __init__(self, text):
        self.types = Types()
        self.funcs = {}
        self.globals = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                try:
                    p = P(tokenize(ln))
                    nm = p.next()[1]
                    p.expect('=')
                    p.expect('type')
                    if p.peek()[1] != 'opaque':
                        self.types.named[nm] = p.type()
                except Unsupported:
                    pass
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)', ln)
                if m:
                    self.globals[m.group(1)] = m.group(2)
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = self.parse_header(ln)
                if f:
                    f.body_txt = lines[i + 1:j]
                    self.funcs[f.name] = f
                i = j
            i += 1

    def parse_header(self, ln):
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
        if not m:
            return None
        f = Function(m.group(1))
        f.header = ln
        pre = ln[len('define '):m.start()]
        rest = ln[m.end():]
        toks = tokenize(pre)
        # return type = first type token sequence after linkage / attributes
        p = P(toks)
        LK = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external
        dso_local dso_preemptable default hidden protected unnamed_addr local_unnamed_addr fastcc ccc coldcc'''.split())
        try:
            while p.peek()[1] in LK:
                p.next()
            skip_attrs(p)
            f.ret = p.type()
            q = P(tokenize(rest))
            if not q.eat(')'):
                n = 0
                while True:
                    if q.peek()[1] == '...':
                        q.next()
                        f.err = 'varargs'
                        break
                    t = q.type()
                    # byval / sret carry a type
                    skip_attrs(q)
                    if q.peek()[0] == 'loc':
                        nm = q.next()[1]
                    else:
                        nm = '%' + str(n)
                    f.params.append((nm, t))
                    n += 1
                    if q.eat(')'):
                        break
                    q.expect(',')
        except Unsupported as e:
            f.err = str(e)
        return f

    def body(self, name):
        f = self.funcs[name]
        if f.blocks:
            return f
        if f.err:
            raise Unsupported(f.err)
        cur = None
        lines = f.body_txt
        i = 0
        # entry label: explicit "label:" on the first line, otherwise the next unnamed number
        first = True
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            i += 1
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
            if m and not ln.startswith(' '):
                lab = '%' + m.group(1)
                cur = Block(lab)
                f.blocks[lab] = cur
                f.order.append(lab)
                first = False
                continue
            if first:
                lab = '%' + str(len(f.params))
                cur = Block(lab)
                f.blocks[lab] = cur
                f.order.append(lab)
                first = False
            if re.search(r'\bswitch\b', s) and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            if re.search(r'\binvoke\b', s) and ' to label ' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            if re.search(r'= landingpad', s):
                cur.insts.append(Inst('landingpad', s.split(' ')[0], txt=s))
                while i < len(lines) and lines[i].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    i += 1
                continue
            cur.insts.append(parse_inst(s))
        f.entry = f.order[0]
        for b in f.blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succs = list(t.x)
            elif t.op == 'switch':
                b.succs = [x for x in t.x[:-1]]
            elif t.op == 'invoke':
                b.succs = list(t.args[1])
            seen = []
            for s in b.succs:
                if s not in seen:
                    seen.append(s)
            b.succs = seen
        for b in f.blocks.values():
            for s in b.succs:
                f.blocks[s].preds.append(b.label)
        return f
