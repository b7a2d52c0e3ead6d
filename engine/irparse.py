"""Parser for the textual LLVM IR emitted by clang 18 (the subset clang produces
for C++17 without vectorisation).  Functions and global initialisers are parsed
lazily: a translation unit contains thousands of functions, an obligation only
ever reaches a few dozen."""
import re
import subprocess

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"
 | [%@]"(?:[^"\\]|\\.)*"
 | [%@$][-\w.$]+
 | "(?:[^"\\]|\\.)*"
 | ![\w.]*
 | \#\d+
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | -?\d+
 | \.\.\.
 | [A-Za-z_][\w.]*
 | [{}()\[\]<>,=*:|]
''', re.X)


class IntT:
    __slots__ = ('n',)
    cache = {}

    def __new__(cls, n):
        o = cls.cache.get(n)
        if o is None:
            o = object.__new__(cls)
            o.n = n
            cls.cache[n] = o
        return o

    def __repr__(self): return 'i%d' % self.n


class FltT:
    __slots__ = ('n',)

    def __init__(self, n): self.n = n
    def __repr__(self): return 'double' if self.n == 64 else 'fp%d' % self.n


class PtrT:
    def __repr__(self): return 'ptr'


class VoidT:
    def __repr__(self): return 'void'


class LabelT:
    def __repr__(self): return 'label'


class MetaT:
    def __repr__(self): return 'metadata'


class ArrT:
    __slots__ = ('n', 'el', 'isvec')

    def __init__(self, n, el, isvec=False): self.n, self.el, self.isvec = n, el, isvec
    def __repr__(self): return '[%d x %r]' % (self.n, self.el)


class StructT:
    __slots__ = ('els', 'packed', 'name', '_lay')

    def __init__(self, els, packed=False, name=None):
        self.els, self.packed, self.name, self._lay = els, packed, name, None

    def __repr__(self): return '%%%s' % self.name if self.name else '{%s}' % ','.join(map(repr, self.els))


class FuncT:
    def __init__(self, ret, args, va): self.ret, self.args, self.va = ret, args, va


PTR, VOID, LABEL, META = PtrT(), VoidT(), LabelT(), MetaT()
DOUBLE, FLOAT, X80 = FltT(64), FltT(32), FltT(80)


def sizeof(t):
    if isinstance(t, IntT):
        n = (t.n + 7) // 8
        p = 1
        while p < n: p *= 2
        return p
    if isinstance(t, FltT): return {64: 8, 32: 4, 80: 16}[t.n]
    if isinstance(t, PtrT): return 8
    if isinstance(t, ArrT): return t.n * sizeof(t.el)
    if isinstance(t, StructT): return layout(t)[1]
    if isinstance(t, (VoidT,)): return 0
    raise ValueError('sizeof %r' % t)


def alignof(t):
    if isinstance(t, IntT): return min(sizeof(t), 16)
    if isinstance(t, FltT): return {64: 8, 32: 4, 80: 16}[t.n]
    if isinstance(t, PtrT): return 8
    if isinstance(t, ArrT):
        return sizeof(t) if t.isvec else alignof(t.el)
    if isinstance(t, StructT):
        if t.packed or not t.els: return 1
        return max(alignof(e) for e in t.els)
    raise ValueError('alignof %r' % t)


def layout(t):
    """(offsets, size) of a struct type"""
    if t._lay is None:
        off, offs = 0, []
        for e in t.els:
            if not t.packed:
                a = alignof(e)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += sizeof(e)
        if not t.packed and t.els:
            a = alignof(t)
            off = (off + a - 1) // a * a
        t._lay = (offs, off)
    return t._lay


# value operands: ('reg',name) ('glob',name) ('int',v) ('fp',Fraction|special str)
# ('null',) ('undef',) ('zero',) ('agg',[(type,val)..]) ('str',bytes) ('ce',op,...)
ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned', 'signext',
         'zeroext', 'inreg', 'immarg', 'nofree', 'noreturn', 'nounwind', 'dead_on_unwind', 'writable', 'nest',
         'swiftself', 'allocalign', 'allocptr', 'inalloca', 'swifterror'}
ATTRS_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
               'preallocated', 'nofpclass', 'memory', 'range'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class ParseError(Exception):
    pass


def unq(s):
    """strip sigil and quotes"""
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


class Lex:
    def __init__(self, mod, text):
        self.m = mod
        self.t = TOK.findall(text)
        self.i = 0
        self.text = text

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        if self.i >= len(self.t): raise ParseError('end of line: ' + self.text[:300])
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s: raise ParseError('expected %r got %r in %s' % (s, x, self.text[:300]))

    def type(self):
        t = self.basetype()
        while True:
            if self.peek() == '(':      # function type
                self.i += 1
                args, va = [], False
                while not self.eat(')'):
                    if self.eat('...'): va = True
                    else: args.append(self.type())
                    self.eat(',')
                t = FuncT(t, args, va)
            elif self.peek() == '*':
                self.i += 1
                t = PTR
            else:
                return t

    def basetype(self):
        x = self.next()
        if x == 'ptr': return PTR
        if x == 'double': return DOUBLE
        if x == 'float': return FLOAT
        if x == 'x86_fp80': return X80
        if x == 'void': return VOID
        if x == 'label': return LABEL
        if x == 'metadata': return META
        if re.fullmatch(r'i\d+', x): return IntT(int(x[1:]))
        if x[0] == '%': return self.m.named_type(unq(x))
        if x == '{':
            els = []
            while not self.eat('}'):
                els.append(self.type())
                self.eat(',')
            return StructT(els)
        if x == '<':
            if self.peek() == '{':
                self.i += 1
                els = []
                while not self.eat('}'):
                    els.append(self.type())
                    self.eat(',')
                self.expect('>')
                return StructT(els, packed=True)
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect('>')
            return ArrT(n, el, True)
        if x == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            return ArrT(n, el)
        if x == 'opaque': return StructT([])
        if x == 'token': return VOID
        raise ParseError('type %r in %s' % (x, self.text[:300]))

    def attrs(self):
        """skip parameter attributes; returns dict of the interesting ones"""
        d = {}
        while True:
            x = self.peek()
            if x in ATTRS:
                self.i += 1
                d[x] = True
            elif x in ATTRS_PAREN:
                self.i += 1
                if self.eat('('):
                    if x in ('sret', 'byval', 'elementtype', 'byref', 'preallocated'):
                        d[x] = self.type()
                        self.expect(')')
                    else:
                        depth = 1
                        while depth:
                            y = self.next()
                            if y == '(': depth += 1
                            elif y == ')': depth -= 1
                else:
                    self.next()     # align 8
            elif x is not None and x.startswith('"'):
                self.i += 1
                if self.eat('='): self.next()
            else:
                return d

    def value(self, t):
        x = self.next()
        c = x[0]
        if c == '%': return ('reg', unq(x))
        if c == '@': return ('glob', unq(x))
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x in ('null', 'none'): return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if c == 'c' and x[1:2] == '"': return ('str', self.cstr(x[2:-1]))
        if x in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.i += 1
                els = []
                while not self.eat('}'):
                    tt = self.type()
                    els.append((tt, self.value(tt)))
                    self.eat(',')
                self.expect('>')
                return ('agg', els)
            els = []
            while not self.eat(close):
                tt = self.type()
                els.append((tt, self.value(tt)))
                self.eat(',')
            return ('agg', els)
        if isinstance(t, FltT):
            from fractions import Fraction
            import struct
            if x.startswith('0x'):
                if x[2] in 'KLMHR': return ('fp', 'x80:' + x[3:])
                d = struct.unpack('>d', struct.pack('>Q', int(x, 16)))[0]
            else:
                d = float(x)
            if d != d: return ('fp', 'nan')
            if d in (float('inf'), float('-inf')): return ('fp', '+inf' if d > 0 else '-inf')
            return ('fp', d)
        if re.fullmatch(r'-?\d+', x): return ('int', int(x))
        if x == 'getelementptr':
            self.eat('inbounds')
            if self.peek() == 'inrange': self.skip_inrange()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while not self.eat(')'):
                if self.peek() == 'inrange': self.skip_inrange()
                tt = self.type()
                ops.append((tt, self.value(tt)))
                self.eat(',')
            return ('ce', 'gep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            ft = self.type()
            v = self.value(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('ce', x, ft, v, tt)
        if x in ('sub', 'add', 'mul'):
            while self.peek() in ('nsw', 'nuw'): self.i += 1
            self.expect('(')
            t1 = self.type(); v1 = self.value(t1)
            self.expect(',')
            t2 = self.type(); v2 = self.value(t2)
            self.expect(')')
            return ('ce', x, t1, v1, v2)
        if x == 'dso_local_equivalent' or x == 'no_cfi': return self.value(t)
        raise ParseError('value %r in %s' % (x, self.text[:300]))

    def skip_inrange(self):
        self.i += 1
        if self.eat('('):
            while self.next() != ')': pass

    @staticmethod
    def cstr(s):
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\' and re.match(r'[0-9A-Fa-f]{2}', s[i + 1:i + 3]):
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            elif s[i] == '\\':
                out.append(ord('\\'))
                i += 2
            else:
                out.append(ord(s[i]))
                i += 1
        return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'a', 'text')

    def __init__(self, op, dst, a, text):
        self.op, self.dst, self.a, self.text = op, dst, a, text


class Func:
    def __init__(self, name, header, body):
        self.name, self.header, self.body = name, header, body
        self.parsed = False
        self.params = None
        self.ret = None
        self.blocks = None
        self.entry = None
        self.attrs = {}


class Module:
    def __init__(self, text):
        self.types_txt = {}
        self.types = {}
        self.globals_txt = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self._demangled = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)', l)
                self.types_txt[unq(m.group(1))] = m.group(2)
            elif c == '@':
                m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', l)
                self.globals_txt[unq(m.group(1))] = m.group(2)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = unq('@' + m.group(1))
                self.funcs[nm] = Func(nm, l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls.add(unq('@' + m.group(1)))
            i += 1
        for k, v in self.globals_txt.items():
            m = re.match(r'(?:[\w]+ )*alias ', v)
            if m:
                t = re.findall(r'@("[^"]*"|[-\w.$]+)', v)
                self.aliases[k] = unq('@' + t[-1])

    def named_type(self, n):
        t = self.types.get(n)
        if t is None:
            t = StructT([], name=n)
            self.types[n] = t
            tt = Lex(self, self.types_txt[n]).type()
            t.els, t.packed = tt.els, tt.packed
        return t

    def global_init(self, n):
        """(type, value or None if external)"""
        g = self.globals.get(n)
        if g is None:
            txt = self.globals_txt[n]
            lx = Lex(self, txt)
            ext = False
            while True:
                x = lx.next()
                if x in ('external', 'extern_weak'): ext = True
                if x in ('global', 'constant'): break
                if x in ('thread_local', 'addrspace') and lx.peek() == '(':
                    while lx.next() != ')': pass
            const = x == 'constant'
            t = lx.type()
            v = None if ext else lx.value(t)
            g = (t, v, const)
            self.globals[n] = g
        return g

    def demangle_all(self):
        names = list(self.funcs) + list(self.decls)
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, p.stdout.split('\n')):
            self._demangled[a] = b

    def demangled(self, n):
        if not self._demangled: self.demangle_all()
        return self._demangled.get(n, n)

    # ------------------------------------------------------------ functions
    def func(self, n):
        n = self.aliases.get(n, n)
        f = self.funcs.get(n)
        if f is None: return None
        if not f.parsed: self.parse_func(f)
        return f

    def parse_func(self, f):
        lx = Lex(self, f.header)
        # skip to the return type: tokens before '@name'
        k = next(i for i, x in enumerate(lx.t) if x[0] == '@')
        # attributes and linkage precede the type; scan for the type backwards is messy -> forward skipping
        skip = {'define', 'dso_local', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'linkonce',
                'available_externally', 'hidden', 'default', 'protected', 'unnamed_addr', 'local_unnamed_addr',
                'fastcc', 'ccc', 'external', 'dso_preemptable'}
        while True:
            x = lx.peek()
            if x in skip: lx.i += 1
            elif x in ATTRS or x in ATTRS_PAREN or x[0] == '"': lx.attrs()
            else: break
        f.ret = lx.type()
        lx.i = k + 1
        lx.expect('(')
        f.params = []
        f.va = False
        while not lx.eat(')'):
            if lx.eat('...'):
                f.va = True
                continue
            t = lx.type()
            at = lx.attrs()
            nm = None
            if lx.peek() and lx.peek()[0] == '%': nm = unq(lx.next())
            if nm is None: nm = '%d' % len(f.params)
            f.params.append((t, nm, at))
            lx.eat(',')
        # unnamed blocks/params get sequential numbers; clang prints them as %N so params are explicit
        f.blocks = {}
        cur = None
        buf = None
        for l in f.body:
            if not l.strip(): continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                if m:
                    nm = m.group(1)
                    if nm.startswith('"'): nm = nm[1:-1]
                    cur = nm
                    buf = []
                    f.blocks[cur] = buf
                    continue
            if cur is None:
                cur = '%d' % sum(1 for p in f.params if re.fullmatch(r'\d+', p[1])) if f.params is not None else '0'
                buf = []
                f.blocks[cur] = buf
                f.entry = cur
            s = l.strip()
            if buf and self._cont(buf, s):
                buf[-1] = buf[-1] + ' ' + s
            else:
                buf.append(s)
        if f.entry is None: f.entry = next(iter(f.blocks))
        for b in f.blocks:
            f.blocks[b] = [self.parse_instr(s) for s in f.blocks[b] if not s.startswith(';')]
        f.parsed = True

    @staticmethod
    def _cont(buf, s):
        p = buf[-1]
        if s.startswith('to label') or s in (']',): return True
        if s.startswith(('cleanup', 'catch ', 'filter ')): return True
        if p.startswith('switch') and not p.rstrip().endswith(']'): return True
        return False

    def parse_instr(self, s):
        m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = (.*)', s)
        dst = None
        body = s
        if m:
            dst = unq(m.group(1))
            body = m.group(2)
        # cut metadata
        j = body.find(', !')
        if j >= 0: body = body[:j]
        lx = Lex(self, body)
        op = lx.next()
        while op in ('tail', 'musttail', 'notail'): op = lx.next()
        a = None
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = set()
            while lx.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or lx.peek() in FMF: flags.add(lx.next())
            t = lx.type()
            x = lx.value(t)
            lx.expect(',')
            y = lx.value(t)
            a = (t, x, y, flags)
        elif op == 'fneg':
            while lx.peek() in FMF: lx.next()
            t = lx.type()
            a = (t, lx.value(t))
        elif op in ('icmp', 'fcmp'):
            while lx.peek() in FMF: lx.next()
            pred = lx.next()
            t = lx.type()
            x = lx.value(t)
            lx.expect(',')
            a = (pred, t, x, lx.value(t))
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
                    'inttoptr', 'bitcast', 'addrspacecast'):
            while lx.peek() in ('nneg', 'nuw', 'nsw') or lx.peek() in FMF: lx.next()
            t = lx.type()
            x = lx.value(t)
            lx.expect('to')
            a = (t, x, lx.type())
        elif op == 'load':
            lx.eat('atomic')
            lx.eat('volatile')
            t = lx.type()
            lx.expect(',')
            pt = lx.type()
            a = (t, lx.value(pt))
        elif op == 'store':
            lx.eat('atomic')
            lx.eat('volatile')
            t = lx.type()
            v = lx.value(t)
            lx.expect(',')
            pt = lx.type()
            a = (t, v, lx.value(pt))
        elif op == 'alloca':
            t = lx.type()
            n = ('int', 1)
            if lx.eat(','):
                if lx.peek() != 'align':
                    nt = lx.type()
                    n = lx.value(nt)
            a = (t, n)
        elif op == 'getelementptr':
            inb = lx.eat('inbounds')
            bt = lx.type()
            ops = []
            while lx.eat(','):
                t = lx.type()
                ops.append((t, lx.value(t)))
            a = (bt, ops, inb)
        elif op in ('call', 'invoke'):
            while lx.peek() in FMF: lx.next()
            while True:
                x = lx.peek()
                if x in ('fastcc', 'ccc'): lx.i += 1
                elif x in ATTRS or x in ATTRS_PAREN or x[0] == '"': lx.attrs()
                else: break
            rt = lx.type()
            if isinstance(rt, FuncT): rt = rt.ret
            if lx.peek() == 'asm': raise ParseError('inline asm: ' + s)
            callee = lx.value(PTR)
            lx.expect('(')
            args = []
            while not lx.eat(')'):
                t = lx.type()
                if isinstance(t, MetaT):
                    depth = 0
                    while lx.peek() not in (',', ')') or depth:
                        y = lx.next()
                        if y == '(': depth += 1
                        elif y == ')': depth -= 1
                    lx.eat(',')
                    continue
                at = lx.attrs()
                args.append((t, lx.value(t), at))
                lx.eat(',')
            norm = unw = None
            if op == 'invoke':
                while lx.peek() != 'to': lx.next()
                lx.expect('to'); lx.expect('label')
                norm = unq(lx.next())
                lx.expect('unwind'); lx.expect('label')
                unw = unq(lx.next())
            a = (rt, callee, args, norm, unw)
            op = 'call'
        elif op == 'br':
            if lx.peek() == 'label':
                lx.next()
                a = (None, unq(lx.next()), None)
            else:
                t = lx.type()
                c = lx.value(t)
                lx.expect(','); lx.expect('label')
                x = unq(lx.next())
                lx.expect(','); lx.expect('label')
                a = (c, x, unq(lx.next()))
        elif op == 'switch':
            t = lx.type()
            v = lx.value(t)
            lx.expect(','); lx.expect('label')
            d = unq(lx.next())
            lx.expect('[')
            cases = []
            while not lx.eat(']'):
                tt = lx.type()
                cv = lx.value(tt)
                lx.expect(','); lx.expect('label')
                cases.append((cv[1], unq(lx.next())))
            a = (t, v, d, cases)
        elif op == 'ret':
            t = lx.type()
            a = (t, None if isinstance(t, VoidT) else lx.value(t))
        elif op == 'phi':
            while lx.peek() in FMF: lx.next()
            t = lx.type()
            inc = []
            while True:
                lx.expect('[')
                v = lx.value(t)
                lx.expect(',')
                inc.append((v, unq(lx.next())))
                lx.expect(']')
                if not lx.eat(','): break
            a = (t, inc)
        elif op == 'select':
            while lx.peek() in FMF: lx.next()
            ct = lx.type(); c = lx.value(ct)
            lx.expect(',')
            t = lx.type(); x = lx.value(t)
            lx.expect(',')
            t2 = lx.type(); y = lx.value(t2)
            a = (c, t, x, y)
        elif op == 'extractvalue':
            t = lx.type(); v = lx.value(t)
            idx = []
            while lx.eat(','): idx.append(int(lx.next()))
            a = (t, v, idx)
        elif op == 'insertvalue':
            t = lx.type(); v = lx.value(t)
            lx.expect(',')
            t2 = lx.type(); w = lx.value(t2)
            idx = []
            while lx.eat(','): idx.append(int(lx.next()))
            a = (t, v, t2, w, idx)
        elif op == 'landingpad':
            t = lx.type()
            clauses = []
            cleanup = False
            while lx.peek() is not None:
                x = lx.next()
                if x == 'cleanup': cleanup = True
                elif x in ('catch', 'filter'):
                    tt = lx.type()
                    clauses.append((x, lx.value(tt)))
            a = (clauses, cleanup)
        elif op == 'resume':
            t = lx.type()
            a = (t, lx.value(t))
        elif op == 'unreachable':
            a = ()
        elif op == 'freeze':
            t = lx.type()
            a = (t, lx.value(t))
        elif op == 'atomicrmw':
            lx.eat('volatile')
            rop = lx.next()
            pt = lx.type(); p = lx.value(pt)
            lx.expect(',')
            t = lx.type(); v = lx.value(t)
            a = (rop, p, t, v)
        elif op == 'cmpxchg':
            lx.eat('weak'); lx.eat('volatile')
            pt = lx.type(); p = lx.value(pt)
            lx.expect(',')
            t = lx.type(); c = lx.value(t)
            lx.expect(',')
            t2 = lx.type(); n = lx.value(t2)
            a = (p, t, c, n)
        elif op in ('fence', 'va_arg'):
            a = ()
        else:
            op2 = op
            op = 'unsupported'
            a = (op2,)
        return Instr(op, dst, a, s)
