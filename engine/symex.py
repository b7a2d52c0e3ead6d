"""Verification-condition generator: symbolic execution of LLVM IR, function by
function, over mathematical integers and reals.  Every branch is followed on
every feasible path; calls are executed against the callee's body unless a
contract stub was declared for the callee, in which case only the contract is
used.  See DESIGN.md for the semantics and the list of things it drops."""
import re
from fractions import Fraction
import z3
import sample
import irparse as P
from irparse import IntT, FltT, PtrT, ArrT, StructT, VoidT, sizeof, layout


class EngineError(Exception):
    """something the generator cannot handle (never a property violation)"""


class UBError(Exception):
    """the path performs an operation with no defined meaning (memory safety)"""


class Ptr:
    __slots__ = ('o', 'f')

    def __init__(self, o, f=0): self.o, self.f = o, f
    def __eq__(self, other): return isinstance(other, Ptr) and self.o == other.o and self.f == other.f
    def __hash__(self): return hash((self.o, self.f))
    def __repr__(self): return 'Ptr(%s+%s)' % (self.o, self.f)


NULL = Ptr(0, 0)


def small(e, limit):
    """does the term have at most `limit` nodes"""
    todo, n = [e], 0
    while todo:
        x = todo.pop()
        n += 1
        if n > limit: return False
        todo.extend(x.children())
    return True


class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Special:
    """infinity / NaN literals: only comparisons have a meaning"""
    def __init__(self, k): self.k = k
    def __repr__(self): return self.k


class FBits:
    """the bit pattern of a double: only its sign bit can be looked at (std::signbit; no negative zero in the model)"""
    def __init__(self, v): self.v = v


class Obj:
    __slots__ = ('size', 'cells', 'zero', 'owner', 'kind', 'lazy', 'const')

    def __init__(self, size, kind, owner):
        self.size, self.cells, self.zero, self.owner, self.kind, self.lazy = size, {}, False, owner, kind, None
        self.const = False

    def copy(self, owner):
        o = Obj(self.size, self.kind, owner)
        o.cells = dict(self.cells)
        o.zero, o.lazy, o.const = self.zero, self.lazy, self.const
        return o


class State:
    __slots__ = ('mem', 'pc', 'tok', 'exc', 'ghost', 'trace')
    ctr = 0

    def __init__(self):
        self.mem, self.pc, self.exc, self.ghost, self.trace = {}, [], None, {}, ()
        State.ctr += 1
        self.tok = State.ctr

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.exc = self.exc
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        State.ctr += 1
        self.tok = State.ctr      # both sides lose ownership of shared objects
        return s


class Outcome:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val): self.kind, self.st, self.val = kind, st, val


class Obligation:
    __slots__ = ('id', 'pc', 'goal', 'kind', 'where', 'text')

    def __init__(self, id, pc, goal, kind, where):
        self.id, self.pc, self.goal, self.kind, self.where = id, pc, goal, kind, where


def is_sym(v): return isinstance(v, z3.ExprRef)


def rv(fr):
    if isinstance(fr, int): fr = Fraction(fr)
    return z3.RealVal(fr.numerator) if fr.denominator == 1 else z3.Q(fr.numerator, fr.denominator)


def toreal(v):
    if isinstance(v, (Fraction, int)) and not isinstance(v, bool): return rv(v)
    if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_REAL_SORT: return v
    raise EngineError('real expected: %r' % (v,))


def toint(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_INT_SORT: return v
    raise EngineError('int expected: %r' % (v,))


def tobool(v):
    if isinstance(v, (bool, int)): return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef): return v
    if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_INT_SORT: return v != 0
    raise EngineError('bool expected: %r' % (v,))


def bv_simplify(b):
    """simplify a boolean; python bool when decided"""
    if isinstance(b, bool): return b
    s = z3.simplify(b)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return b


def canon(v, n):
    """signed canonical form of a python int at width n"""
    v &= (1 << n) - 1
    if n > 1 and v >> (n - 1): v -= 1 << n
    return v


def unsig(v, n): return v & ((1 << n) - 1)


PI_D = 3.141592653589793
TEXT = re.compile(r'^(?!.*(stream|std::basic_ios|ios_base|locale|streambuf)).*(basic_string|to_string)')
PI_TABLE = {}
import math as _m
for _k in (Fraction(1), Fraction(2), Fraction(1, 2), Fraction(3, 2), Fraction(1, 4), Fraction(3, 4), Fraction(4),
           Fraction(1, 3), Fraction(2, 3), Fraction(1, 180), Fraction(1, 6), Fraction(4, 3), Fraction(1, 360)):
    PI_TABLE[float(_k) * PI_D] = _k
    PI_TABLE[PI_D / float(1 / _k)] = _k
    PI_TABLE[-float(_k) * PI_D] = -_k
INV_PI = {180.0 / PI_D: 180, 1.0 / PI_D: 1, 2.0 / PI_D: 2, 360.0 / PI_D: 360}


class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.opts = opts or {}
        self.defs = {}           # var name -> list of formulas
        self.cache = {}
        self.keep = []           # keep z3 asts alive so that get_id() stays unique
        self.fresh_n = 0
        self.obls = []
        self.inputs = []         # (name, z3 var, kind)
        self.covers = []         # (id, pc)
        self.stubs = {}          # symbol -> stub symbol
        self.stub_rx = []
        self.active_stubs = []
        self.impl_cache = {}
        self.funcs_run = {}
        self.stubs_used = {}
        self.externs_used = set()
        self.steps = 0
        self.max_steps = int(self.opts.get('maxsteps', 4000000))
        self.max_visits = int(self.opts.get('unwind', 2000))
        self.merge_on = str(self.opts.get('merge', '1')) != '0'
        self.feas_ms = int(self.opts.get('feas', 300))
        self.nchecks = 0
        self.var_cache = {}
        self.oid = 0
        self.cur_harness = None
        self.pi = z3.Real('PI')
        self.defs['PI'] = [self.pi > rv(Fraction(314159265358979, 10**14)), self.pi < rv(Fraction(3141592653589794, 10**15))]
        self.sinf = z3.Function('sin', z3.RealSort(), z3.RealSort())
        self.acos_list = []
        self.atan_list = []
        self.input_count = {}
        self.depth = 0
        self.notes = set()
        self.unmerged = {}
        self.text = self.opts.get('text') == '1'
        self.nomerge = [re.compile(x) for x in self.opts.get('nomerge', '').split(';') if x]
        self.nterm = {}          # named ghost value -> expression
        self.sampler = sample.Sampler(self)
        self.qterm = {}          # quotient variable -> (numerator, denominator)
        self.sterm = {}          # root variable -> radicand

    # ------------------------------------------------------------- symbols
    def fresh(self, base, sort='R'):
        self.fresh_n += 1
        n = '%s!%d' % (base, self.fresh_n)
        v = z3.Real(n) if sort == 'R' else z3.Int(n) if sort == 'I' else z3.Bool(n)
        return v

    def add_def(self, var, *fs):
        self.defs.setdefault(var.decl().name(), []).extend(fs)

    def fvars(self, e):
        """names of free constants of an expression (cached, includes transitive definitions)"""
        k = e.get_id()
        r = self.var_cache.get(k)
        if r is not None: return r
        seen = set()
        names = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
            else:
                st.extend(x.children())
        self.keep.append(e)
        self.var_cache[k] = names
        return names

    def cone(self, forms, opaque=False):
        done = set()
        out = []
        todo = set()
        seen = set()
        for f in forms: todo |= self.fvars(f)
        while todo:
            n = todo.pop()
            if n in done: continue
            done.add(n)
            if opaque and n in self.qterm or opaque == 2 and n in self.nterm: continue
            for f in self.defs.get(n, ())[:1 if opaque and n in self.sterm else None]:
                if f.get_id() in seen: continue
                seen.add(f.get_id())
                out.append(f)
                todo |= self.fvars(f) - done
        return out

    def memo(self, key, mk):
        r = self.cache.get(key)
        if r is None:
            r = mk()
            self.cache[key] = r
        return r

    def eid(self, v):
        if is_sym(v):
            self.keep.append(v)
            return v.get_id()
        return v

    # ------------------------------------------------------------ checking
    def check(self, st, extra=(), ms=None):
        """'sat' / 'unsat' / 'unknown' for the path condition plus extra"""
        forms = [f for f in st.pc] + list(extra)
        if not forms: return 'sat'
        key = ('chk',) + tuple(sorted(self.eid(f) for f in forms))
        r = self.cache.get(key)
        if r is not None: return r
        s = z3.Solver()
        s.set('timeout', ms or self.feas_ms)
        for f in forms: s.add(f)
        for f in self.cone(forms): s.add(f)
        self.nchecks += 1
        r = str(s.check())
        self.cache[key] = r
        return r

    def decide(self, st, cond):
        """True / False when forced on this path, None when both are possible"""
        c = bv_simplify(cond)
        if isinstance(c, bool): return c
        nc = z3.Not(c)
        sc0, snc0 = z3.simplify(c), z3.simplify(nc)
        sc, snc = sc0.get_id(), snc0.get_id()
        for f in st.pc:
            sf = self.memo(('simp', self.eid(f)), lambda f=f: z3.simplify(f))
            k = sf.get_id()
            if k == sc: return True
            if k == snc: return False
        pos, neg = self.sampler.possible(st.pc, c)
        if not pos and self.check(st, [c]) == 'unsat': return False
        if not neg and self.check(st, [nc]) == 'unsat': return True
        return None

    def prove_quick(self, st, cond, ms=300):
        c = bv_simplify(cond)
        if isinstance(c, bool): return c
        return self.check(st, [z3.Not(c)], ms) == 'unsat'

    def assume(self, st, cond):
        """add cond to the path; False if the path dies"""
        c = bv_simplify(cond)
        if c is True: return True
        if c is False: return False
        st.pc.append(c)
        return True

    def oblige(self, st, oid, goal, kind='post', where=''):
        g = bv_simplify(goal)
        if not isinstance(g, bool): pass
        self.obls.append(Obligation(oid, list(st.pc), g, kind, where))

    # ------------------------------------------------------------- memory
    def new_obj(self, st, size, kind):
        self.oid += 1
        o = Obj(size, kind, st.tok)
        st.mem[self.oid] = o
        return self.oid

    def wobj(self, st, oid):
        o = self.robj(st, oid)
        if o.owner != st.tok:
            o = o.copy(st.tok)
            st.mem[oid] = o
        return o

    def robj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if isinstance(oid, str) and oid.startswith('g:'):
                o = self.load_global(st, oid)
                st.mem[oid] = o
            elif oid == 0:
                raise UBError('null pointer dereference')
            elif isinstance(oid, str):
                raise EngineError('access to %s' % oid)
            else:
                raise UBError('access to a dead object')
        return o

    def load_global(self, st, oid):
        name = oid[2:]
        if name not in self.m.globals_txt: raise EngineError('unknown global ' + name)
        t, v, const = self.m.global_init(name)
        o = Obj(sizeof(t) if not isinstance(t, P.FuncT) else 8, 'global', st.tok)
        if v is None:
            o.lazy = 'extern:' + name
            self.externs_used.add('global ' + name)
            if name == '__libc_single_threaded': o.cells[0] = (1, 1)
        else:
            self.init_cells(o, 0, t, v)
        o.const = const
        return o

    def init_cells(self, o, off, t, v):
        if v[0] in ('zero',) or (v[0] == 'undef'):
            if v[0] == 'zero': self.zero_fill(o, off, t)
            return
        if isinstance(t, StructT):
            offs, _ = layout(t)
            for k, (et, ev) in enumerate(v[1]): self.init_cells(o, off + offs[k], et, ev)
        elif isinstance(t, ArrT):
            es = sizeof(t.el)
            if v[0] == 'str':
                for k, b in enumerate(v[1]): o.cells[off + k] = (1, canon(b, 8))
            else:
                for k, (et, ev) in enumerate(v[1]): self.init_cells(o, off + k * es, et, ev)
        else:
            o.cells[off] = (sizeof(t), self.const_value(t, v))

    def zero_fill(self, o, off, t):
        if isinstance(t, StructT):
            offs, _ = layout(t)
            for k, e in enumerate(t.els): self.zero_fill(o, off + offs[k], e)
        elif isinstance(t, ArrT):
            if t.n > 4096:
                o.zero = True
                return
            es = sizeof(t.el)
            for k in range(t.n): self.zero_fill(o, off + k * es, t.el)
        else:
            o.cells[off] = (sizeof(t), self.zero_value(t))

    def zero_value(self, t):
        if isinstance(t, FltT): return Fraction(0)
        if isinstance(t, IntT): return False if t.n == 1 else 0
        if isinstance(t, PtrT): return NULL
        if isinstance(t, StructT): return tuple(self.zero_value(e) for e in t.els)
        if isinstance(t, ArrT): return tuple(self.zero_value(t.el) for _ in range(t.n))
        raise EngineError('zero of %r' % t)

    def fp_const(self, d):
        if isinstance(d, str): return Special(d)
        if d in PI_TABLE and d != 0.0:
            k = PI_TABLE[d]
            return self.pi if k == 1 else rv(k) * self.pi
        if d in INV_PI:
            k = ('invpi', INV_PI[d])

            def mk():
                v = self.fresh('invpi')
                self.add_def(v, v * self.pi == INV_PI[d])
                return v
            return self.memo(k, mk)
        # a literal denotes the number the programmer wrote: the simplest fraction, or the shortest decimal,
        # that rounds to this double
        f = Fraction(d)
        if f.denominator > 4096:
            g = f.limit_denominator(1000)
            if float(g) == d: return g
            g = Fraction(repr(d))
            if float(g) == d: return g
        return f

    def const_value(self, t, v):
        k = v[0]
        if k == 'int':
            if isinstance(t, IntT): return bool(v[1]) if t.n == 1 else canon(v[1], t.n)
        if k == 'fp': return self.fp_const(v[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero_value(t)
        if k == 'glob':
            n = v[1]
            n = self.m.aliases.get(n, n)
            if n in self.m.funcs or n in self.m.decls: return Ptr('fn:' + n, 0)
            return Ptr('g:' + n, 0)
        if k == 'agg': return tuple(self.const_value(et, ev) for et, ev in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                ops = v[3]
                base = self.const_value(*ops[0])
                off = self.gep_offset(v[2], [self.const_value(t2, v2) for t2, v2 in ops[1:]])
                return Ptr(base.o, base.f + off)
            if v[1] in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'): return self.const_value(v[2], v[3])
            if v[1] == 'sub':
                a, b = self.const_value(v[2], v[3]), self.const_value(v[2], v[4])
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: return a.f - b.f
                return a - b
            if v[1] == 'trunc':
                return canon(self.const_value(v[2], v[3]), v[4].n)
        raise EngineError('constant %r %r' % (t, v))

    def gep_offset(self, bt, idx):
        """idx: evaluated python ints"""
        off = idx[0] * sizeof(bt) if idx[0] else 0
        t = bt
        for i in idx[1:]:
            if isinstance(t, StructT):
                off += layout(t)[0][i]
                t = t.els[i]
            elif isinstance(t, ArrT):
                off += i * sizeof(t.el)
                t = t.el
            else:
                raise EngineError('gep into %r' % t)
        return off

    def load(self, st, p, t):
        if p is UNDEF: raise UBError('load through an undefined pointer')
        if not isinstance(p, Ptr): raise EngineError('load through %r' % (p,))
        if isinstance(t, StructT):
            offs, _ = layout(t)
            return tuple(self.load(st, Ptr(p.o, p.f + offs[k]), e) for k, e in enumerate(t.els))
        if isinstance(t, ArrT):
            es = sizeof(t.el)
            return tuple(self.load(st, Ptr(p.o, p.f + k * es), t.el) for k in range(t.n))
        o = self.robj(st, p.o)
        n = sizeof(t)
        if o.size is not None and (p.f < 0 or p.f + n > o.size):
            raise UBError('read of %d bytes at offset %d of an object of %s bytes' % (n, p.f, o.size))
        c = o.cells.get(p.f)
        if c is not None and c[0] == n: return self.coerce(c[1], t)
        # assemble concrete integers from bytes
        v = self.load_bytes(o, p.f, n)
        if v is not None:
            if isinstance(t, IntT): return bool(v & 1) if t.n == 1 else canon(v, t.n)
            if isinstance(t, FltT) and t.n == 64:
                import struct
                return self.fp_const(struct.unpack('<d', struct.pack('<Q', v))[0])
            if isinstance(t, PtrT) and v == 0: return NULL
        if any(p.f - 16 < k < p.f + n and k + o.cells[k][0] > p.f and k < p.f + n for k in range(p.f - 16, p.f + n) if k in o.cells):
            raise EngineError('mixed-size read at %r size %d: %r' % (p, n, {k: v for k, v in o.cells.items() if p.f - 16 < k < p.f + n}))
        if o.zero: return self.zero_value(t)
        if o.lazy and isinstance(t, (FltT, IntT)):
            v = self.fresh('lazy_%s' % (o.lazy,), 'R' if isinstance(t, FltT) else 'B' if t.n == 1 else 'I')
            if isinstance(t, IntT) and t.n > 1:
                lo, hi = -(1 << (t.n - 1)), (1 << (t.n - 1)) - 1
                self.add_def(v, v >= lo, v <= hi)
            self.wobj(st, p.o).cells[p.f] = (n, v)
            return v
        if o.lazy and isinstance(t, PtrT):
            v = Ptr('ext:%s+%d' % (o.lazy, p.f), 0)
            self.wobj(st, p.o).cells[p.f] = (n, v)
            return v
        # uninitialised read: an arbitrary but unknown value
        if isinstance(t, FltT): v = self.fresh('uninit')
        elif isinstance(t, IntT):
            v = self.fresh('uninit', 'B' if t.n == 1 else 'I')
            if t.n > 1: self.add_def(v, v >= -(1 << (t.n - 1)), v <= (1 << (t.n - 1)) - 1)
        else: return UNDEF
        self.notes.add('uninitialised read')
        self.wobj(st, p.o).cells[p.f] = (n, v)
        return v

    def coerce(self, v, t):
        if isinstance(t, IntT):
            if t.n == 1:
                if isinstance(v, (bool, z3.BoolRef)): return v
                if isinstance(v, int): return bool(v & 1)
                if isinstance(v, z3.ArithRef) and v.is_int(): return z3.simplify(v != 0)
            else:
                if isinstance(v, bool): return int(v)
                if isinstance(v, Ptr) and v == NULL: return 0
        if isinstance(t, PtrT):
            if isinstance(v, int) and v == 0: return NULL
        if isinstance(t, FltT):
            if isinstance(v, int) and not isinstance(v, bool):
                if v == 0: return Fraction(0)
                import struct
                return self.fp_const(struct.unpack('<d', struct.pack('<Q', unsig(v, 64)))[0])
        return v

    def load_bytes(self, o, off, n):
        out = 0
        for i in range(n):
            b = self.byte_at(o, off + i)
            if b is None: return None
            out |= b << (8 * i)
        return out

    def byte_at(self, o, off):
        for k in range(off, off - 16, -1):
            c = o.cells.get(k)
            if c is not None:
                if k + c[0] <= off: break
                v = c[1]
                if isinstance(v, bool): v = int(v)
                if isinstance(v, int): return (unsig(v, 8 * c[0]) >> (8 * (off - k))) & 255
                if isinstance(v, Ptr) and v == NULL: return 0
                if isinstance(v, Fraction):
                    import struct
                    try: return struct.pack('<d', float(v))[off - k]
                    except OverflowError: return None
                return None
        return 0 if o.zero else None

    def store(self, st, p, t, v):
        if p is UNDEF: raise UBError('store through an undefined pointer')
        if not isinstance(p, Ptr): raise EngineError('store through %r' % (p,))
        if isinstance(t, StructT):
            if v is UNDEF: return
            offs, _ = layout(t)
            for k, e in enumerate(t.els): self.store(st, Ptr(p.o, p.f + offs[k]), e, v[k])
            return
        if isinstance(t, ArrT):
            if v is UNDEF: return
            es = sizeof(t.el)
            for k in range(t.n): self.store(st, Ptr(p.o, p.f + k * es), t.el, v[k])
            return
        o = self.wobj(st, p.o)
        n = sizeof(t)
        if o.size is not None and (p.f < 0 or p.f + n > o.size):
            raise UBError('write of %d bytes at offset %d of an object of %s bytes' % (n, p.f, o.size))
        if o.const: raise UBError('write to a constant')
        self.clear_range(o, p.f, n)
        if v is UNDEF: return
        o.cells[p.f] = (n, v)

    def clear_range(self, o, off, n):
        cs = o.cells
        if off in cs and cs[off][0] == n:
            del cs[off]
            return
        if n > 64:
            ks = [k for k in cs if k < off + n and k + cs[k][0] > off]
        else:
            ks = [k for k in range(off - 15, off + n) if k in cs and k + cs[k][0] > off]
        for k in ks:
            sz, v = cs[k]
            if k < off or k + sz > off + n:
                bs = [self.byte_at(o, k + i) for i in range(sz)]
                del cs[k]
                for i, b in enumerate(bs):
                    if not (off <= k + i < off + n):
                        if b is None: raise EngineError('partial overwrite of a symbolic cell')
                        cs[k + i] = (1, canon(b, 8))
            else:
                del cs[k]

    def memcpy(self, st, d, s, n):
        if n == 0: return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise EngineError('memcpy %r %r' % (d, s))
        so = self.robj(st, s.o)
        for (p, o, w) in ((s, so, 'read'), (d, self.robj(st, d.o), 'write')):
            if o.size is not None and (p.f < 0 or p.f + n > o.size):
                raise UBError('%s of %d bytes at offset %d of an object of %s bytes' % (w, n, p.f, o.size))
        items = []
        for k, (sz, v) in so.cells.items():
            if k >= s.f and k + sz <= s.f + n: items.append((k - s.f, sz, v))
            elif k < s.f + n and k + sz > s.f:
                for i in range(sz):
                    if s.f <= k + i < s.f + n:
                        b = self.byte_at(so, k + i)
                        if b is None: raise EngineError('memcpy splits a symbolic cell')
                        items.append((k + i - s.f, 1, canon(b, 8)))
        if so.zero and not items and n <= 4096:
            items = [(i, 1, 0) for i in range(n)]
        if so.lazy:
            # force lazily initialised double cells so that the copy shares them
            for i in range(0, n - 7, 8):
                if not any(k <= i < k + sz for k, sz, _ in items):
                    v = self.load(st, Ptr(s.o, s.f + i), P.DOUBLE)
                    items.append((i, 8, v))
        o = self.wobj(st, d.o)
        self.clear_range(o, d.f, n)
        for k, sz, v in items: o.cells[d.f + k] = (sz, v)

    # --------------------------------------------------------- evaluation
    def val(self, regs, t, v):
        k = v[0]
        if k == 'reg': return regs[v[1]]
        return self.const_value(t, v)

    # real arithmetic ------------------------------------------------------
    def fop(self, op, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            raise EngineError('arithmetic on %r %r' % (a, b))
        if a is UNDEF or b is UNDEF: return self.fresh('undef')
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0: return self.divterm(rv(a), rv(b))
                return a / b
        if op == 'fadd':
            if isinstance(a, Fraction) and a == 0: return b
            if isinstance(b, Fraction) and b == 0: return a
            return toreal(a) + toreal(b)
        if op == 'fsub':
            if isinstance(b, Fraction) and b == 0: return a
            if isinstance(a, Fraction) and a == 0: return -toreal(b)
            return toreal(a) - toreal(b)
        if op == 'fmul':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Fraction):
                    if x == 0: return Fraction(0)
                    if x == 1: return y
                    if x == -1: return -toreal(y)
            return toreal(a) * toreal(b)
        if op == 'fdiv':
            if isinstance(b, Fraction) and b != 0:
                if b == 1: return a
                return toreal(a) * rv(1 / b)
            return self.divterm(toreal(a), toreal(b))
        raise EngineError(op)

    def divterm(self, a, b):
        b2 = z3.simplify(b)
        if z3.is_rational_value(b2) and b2.as_fraction() != 0:
            return a * rv(1 / b2.as_fraction())

        def mk():
            q = self.fresh('q')
            self.add_def(q, z3.Or(b == 0, q * b == a))
            self.qterm[q.decl().name()] = (a, b)
            return q
        return self.memo(('div', self.eid(a), self.eid(b)), mk)

    def sqrt(self, x):
        if isinstance(x, Fraction):
            if x < 0: return self.fresh('nan')
            import math
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
            x = rv(x)
        xs = z3.simplify(x, som=True, sort_sums=True)

        def mk():
            s = self.fresh('sqrt')
            self.add_def(s, s >= 0, z3.Or(x < 0, s * s == x))
            self.sterm[s.decl().name()] = x
            return s
        return self.memo(('sqrt', self.eid(xs)), mk)

    def trig(self, fn, x):
        """sin and cos: related by the Pythagorean identity, exact at 0"""
        x = toreal(x)
        xs = z3.simplify(x, som=True, sort_sums=True)
        if z3.is_rational_value(xs) and xs.as_fraction() == 0:
            return Fraction(0) if fn == 'sin' else Fraction(1)
        # x = q*pi/2 + y: shift by quarter turns exactly
        if 'PI' in self.fvars(xs):
            y, q = self.quarter(xs)
            if q is not None:
                if z3.is_rational_value(y) and y.as_fraction() == 0:
                    return Fraction((0, 1, 0, -1)[q % 4] if fn == 'sin' else (1, 0, -1, 0)[q % 4])
                if q:
                    s, c = self.trig('sin', y), self.trig('cos', y)
                    for _ in range(q % 4): s, c = c, -s
                    return s if fn == 'sin' else c

        def mk():
            s, c = self.fresh('sin'), self.fresh('cos')
            ax = [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
            # sign facts on the principal ranges
            ax.append(z3.Implies(z3.And(xs > 0, xs < self.pi), s > 0))
            ax.append(z3.Implies(z3.And(xs > -self.pi / 2, xs < self.pi / 2), c > 0))
            ax.append(z3.Implies(z3.And(xs > self.pi / 2, xs < 3 * self.pi / 2), c < 0))
            ax.append(z3.Implies(z3.And(xs > self.pi, xs < 2 * self.pi), s < 0))
            ax.append(z3.Implies(z3.And(xs > -self.pi, xs < 0), s < 0))
            ax.append(z3.Implies(xs == 0, z3.And(s == 0, c == 1)))
            ax.append(z3.Implies(xs == self.pi, z3.And(s == 0, c == -1)))
            ax.append(z3.Implies(xs == self.pi / 2, z3.And(s == 1, c == 0)))
            self.add_def(s, *ax)
            self.add_def(c, *ax)
            for (y, s2, c2) in list(self.cache.get('triglist', [])):
                # congruence, oddness and 2 pi periodicity
                self.add_def(s, z3.Implies(xs == y, z3.And(s == s2, c == c2)))
                self.add_def(c, z3.Implies(xs == y, z3.And(s == s2, c == c2)))
                self.add_def(s, z3.Implies(xs == -y, z3.And(s == -s2, c == c2)))
                self.add_def(c, z3.Implies(xs == -y, z3.And(s == -s2, c == c2)))
                self.trig_mono(xs, s, c, y, s2, c2)
            h = self.pi / 2
            for (a, z, dom) in list(self.cache.get('acostrig', [])):
                m = z3.Implies(z3.And(dom, xs >= -h, xs <= h), z3.And((a < h - xs) == (z > s), (h - xs < a) == (s > z), (a < h + xs) == (z > -s), (h + xs < a) == (-s > z)))
                for v in (a, s): self.add_def(v, m)
            self.cache.setdefault('triglist', []).append((xs, s, c))
            return (s, c)
        s, c = self.memo(('trig', self.eid(xs)), mk)
        return s if fn == 'sin' else c

    def quarter(self, xs):
        """xs = q*pi/2 + rest with the multiple of pi/2 in xs stripped off (q None if pi occurs otherwise)"""
        ts = xs.children() if xs.decl().kind() == z3.Z3_OP_ADD else [xs]
        k, rest = Fraction(0), []
        for t in ts:
            if z3.eq(t, self.pi): k += 1
            elif t.decl().kind() == z3.Z3_OP_MUL and len(t.children()) == 2 and z3.is_rational_value(t.children()[0]) and z3.eq(t.children()[1], self.pi):
                k += t.children()[0].as_fraction()
            else: rest.append(t)
        k *= 2
        if k.denominator != 1: return None, None
        return (z3.simplify(z3.Sum(*rest), som=True, sort_sums=True) if rest else rv(0)), int(k)

    def trig_mono(self, x, s, c, y, s2, c2):
        """cos decreases on [0,pi]; sin increases on [-pi/2,pi/2]"""
        h = self.pi / 2
        f = z3.Implies(z3.And(x >= 0, x <= self.pi, y >= 0, y <= self.pi), z3.And((x < y) == (c > c2), (y < x) == (c2 > c)))
        g = z3.Implies(z3.And(x >= -h, x <= h, y >= -h, y <= h), z3.And((x < y) == (s < s2), (y < x) == (s2 < s)))
        two = 2 * self.pi
        k = z3.Implies(z3.And(x >= 0, x < two, y >= 0, y < two, s == s2, c == c2), x == y)
        for v in (s, c): self.add_def(v, f, g, k)

    def acos(self, x):
        x = toreal(x)
        xs = z3.simplify(x, som=True, sort_sums=True)

        def mk():
            a = self.fresh('acos')
            dom = z3.And(xs >= -1, xs <= 1)
            self.add_def(a, z3.Implies(dom, z3.And(a >= 0, a <= self.pi)),
                         z3.Implies(dom, z3.And((xs == 1) == (a == 0), (xs == -1) == (a == self.pi), (xs == 0) == (a == self.pi / 2),
                                                (xs > 0) == (a < self.pi / 2))))
            for (y, b) in self.acos_list:
                both = z3.And(dom, y >= -1, y <= 1)
                self.add_def(a, z3.Implies(both, z3.And((xs < y) == (a > b), (xs == y) == (a == b), z3.Implies(xs == -y, a == self.pi - b))))
            self.acos_list.append((xs, a))
            # cos(acos x) = x and sin(acos x) = sqrt(1-x^2)
            s, c = self.fresh('sin'), self.fresh('cos')
            self.cache[('trig', self.eid(z3.simplify(a, som=True, sort_sums=True)))] = (s, c)
            for v in (s, c):
                self.add_def(v, z3.Implies(dom, z3.And(c == xs, s >= 0)), s * s + c * c == 1)
                self.add_def(a, z3.Implies(dom, z3.And(c == xs, s >= 0)), s * s + c * c == 1)
            h = self.pi / 2
            for (y, s2, c2) in list(self.cache.get('triglist', [])):
                self.trig_mono(a, s, c, y, s2, c2)
                # cos decreases on [0,pi], at the complementary angle h - y
                m = z3.Implies(z3.And(dom, y >= -h, y <= h), z3.And((a < h - y) == (xs > s2), (h - y < a) == (s2 > xs), (a < h + y) == (xs > -s2), (h + y < a) == (-s2 > xs)))
                for v in (a, s2): self.add_def(v, m)
            self.cache.setdefault('triglist', []).append((a, s, c))
            self.cache.setdefault('acostrig', []).append((a, xs, dom))
            return a
        return self.memo(('acos', self.eid(xs)), mk)

    def atan(self, x):
        x = toreal(x)
        xs = z3.simplify(x, som=True, sort_sums=True)

        def mk():
            a = self.fresh('atan')
            self.add_def(a, a > -self.pi / 2, a < self.pi / 2, (xs > 0) == (a > 0), (xs == 0) == (a == 0))
            for (y, b) in self.atan_list:
                self.add_def(a, (xs < y) == (a < b), (xs == y) == (a == b))
            self.atan_list.append((xs, a))
            s, c = self.fresh('sin'), self.fresh('cos')
            self.cache[('trig', self.eid(z3.simplify(a, som=True, sort_sums=True)))] = (s, c)
            for v in (s, c, a): self.add_def(v, s * s + c * c == 1, c > 0, s == xs * c)
            for (y, s2, c2) in list(self.cache.get('triglist', [])): self.trig_mono(a, s, c, y, s2, c2)
            self.cache.setdefault('triglist', []).append((a, s, c))
            return a
        return self.memo(('atan', self.eid(xs)), mk)

    def fcmp(self, pred, a, b):
        if pred in ('uno', 'ord', 'true', 'false'):
            return {'uno': False, 'ord': True, 'true': True, 'false': False}[pred]
        op = pred[1:]
        if isinstance(a, Special) or isinstance(b, Special):
            A = {'+inf': 2, '-inf': 0}.get(a.k if isinstance(a, Special) else '', 1)
            B = {'+inf': 2, '-inf': 0}.get(b.k if isinstance(b, Special) else '', 1)
            if 'nan' in (getattr(a, 'k', ''), getattr(b, 'k', '')): return pred[0] == 'u'
            a, b = Fraction(A), Fraction(B)
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
        if a is UNDEF or b is UNDEF: return self.fresh('undef', 'B')
        a, b = toreal(a), toreal(b)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[op]()
        return bv_simplify(r)

    # integer arithmetic ---------------------------------------------------
    def iop(self, st, op, n, a, b, flags, where):
        if a is UNDEF or b is UNDEF: return UNDEF
        if n == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                a, b = bool(a), bool(b)
                return {'and': a and b, 'or': a or b, 'xor': a != b, 'add': a != b, 'sub': a != b, 'mul': a and b}[op]
            A, B = tobool(a), tobool(b)
            r = {'and': lambda: z3.And(A, B), 'or': lambda: z3.Or(A, B), 'xor': lambda: z3.Xor(A, B)}[op]()
            return bv_simplify(r)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op == 'sub' and a.o == b.o: return a.f - b.f
            if isinstance(a, Ptr) and isinstance(b, int):
                if op == 'add': return Ptr(a.o, a.f + b)
                if op == 'sub': return Ptr(a.o, a.f - b)
                if op == 'and' and a.o == 0: return 0
                if op == 'and':     # alignment / tag tests: objects are 16-aligned, functions too
                    if 0 <= b < 16: return a.f & b
                    if b < 0 and -b & (-b - 1) == 0: return Ptr(a.o, a.f & b)
            raise EngineError('pointer arithmetic %s %r %r' % (op, a, b))
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = unsig(a, n), unsig(b, n)
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = ua & ub
            elif op == 'or': r = ua | ub
            elif op == 'xor': r = ua ^ ub
            elif op == 'shl': r = ua << ub
            elif op == 'lshr': r = ua >> ub
            elif op == 'ashr': r = a >> ub
            elif op in ('udiv', 'urem'):
                if ub == 0: raise UBError('division by zero')
                r = ua // ub if op == 'udiv' else ua % ub
            elif op in ('sdiv', 'srem'):
                if b == 0: raise UBError('division by zero')
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op == 'sdiv' else a - q * b
            else: raise EngineError(op)
            if 'nsw' in flags and op in ('add', 'sub', 'mul') and canon(r, n) != r:
                raise UBError('signed overflow in ' + where)
            return canon(r, n)
        # boolean-valued integers
        if op in ('and', 'or', 'xor'):
            ba, bb = self.as_boolint(a), self.as_boolint(b)
            if ba is not None and bb is not None:
                r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](tobool(ba), tobool(bb))
                r = bv_simplify(r)
                return int(r) if isinstance(r, bool) else z3.If(r, z3.IntVal(1), z3.IntVal(0))
            if op == 'and' and isinstance(b, int) and b > 0 and (b & (b + 1)) == 0:
                return toint(a) % (b + 1)
            raise EngineError('bitwise %s on symbolic integers in %s' % (op, where))
        A, B = toint(a), toint(b)
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if op in ('add', 'sub', 'mul'):
            r = A + B if op == 'add' else A - B if op == 'sub' else A * B
            rng = z3.And(r >= lo, r <= hi)
            if 'nsw' in flags:
                if not self.prove_quick(st, rng): self.oblige(st, 'no-signed-overflow', rng, 'safety', where)
                st.pc.append(rng)
                return r
            if self.prove_quick(st, rng): return r
            return (r - lo) % (1 << n) + lo
        if op == 'shl' and isinstance(b, int):
            return self.iop(st, 'mul', n, a, 1 << b, flags, where)
        if op in ('sdiv', 'srem') and isinstance(b, int) and b > 0:
            q = z3.If(A >= 0, A / b, -((-A) / b))
            return q if op == 'sdiv' else A - q * b
        if op in ('udiv', 'urem', 'lshr') and isinstance(b, int):
            if op == 'lshr': b = 1 << b
            U = A if self.prove_quick(st, A >= 0) else z3.If(A >= 0, A, A + (1 << n))
            if b <= 0: raise UBError('division by zero')
            return U / b if op in ('udiv', 'lshr') else U % b
        if op == 'ashr' and isinstance(b, int):
            return A / (1 << b)
        if op in ('udiv', 'urem') :
            U = A if self.prove_quick(st, A >= 0) else z3.If(A >= 0, A, A + (1 << n))
            W = B if self.prove_quick(st, B >= 0) else z3.If(B >= 0, B, B + (1 << n))
            return U / W if op == 'udiv' else U % W
        raise EngineError('%s on symbolic integers' % op)

    def as_boolint(self, v):
        if isinstance(v, int) and v in (0, 1): return bool(v)
        if isinstance(v, z3.BoolRef): return v
        if is_sym(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
            c, x, y = v.children()
            if z3.is_int_value(x) and z3.is_int_value(y):
                if x.as_long() == 1 and y.as_long() == 0: return c
                if x.as_long() == 0 and y.as_long() == 1: return z3.Not(c)
        return None

    def icmp(self, st, pred, t, a, b):
        if isinstance(t, PtrT) or isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is UNDEF or b is UNDEF: raise EngineError('comparison of undefined pointers')
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if pred == 'eq': return a == b
                if pred == 'ne': return a != b
                if a.o == b.o:
                    x, y = a.f, b.f
                    return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
                # unrelated objects: std::less on pointers is a total order; use allocation order
                x, y = (str(a.o), a.f), (str(b.o), b.f)
                return {'u': {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}}['u'][pred[1:]]
            raise EngineError('icmp %r %r' % (a, b))
        n = t.n
        if a is UNDEF or b is UNDEF: return self.fresh('undef', 'B')
        if isinstance(a, FBits) or isinstance(b, FBits):
            if isinstance(a, FBits) and isinstance(b, int) and (pred, b) in (('slt', 0), ('sge', 0), ('sgt', -1), ('sle', -1)):
                neg = pred in ('slt', 'sle')
                if isinstance(a.v, Fraction): return (a.v < 0) == neg
                return bv_simplify(toreal(a.v) < 0) if neg else bv_simplify(toreal(a.v) >= 0)
            raise EngineError('use of the bit pattern of a double')
        if n == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                a, b = int(a), int(b)
                r = {'eq': a == b, 'ne': a != b, 'ugt': a > b, 'ult': a < b, 'uge': a >= b, 'ule': a <= b}[pred]
                return r
            A, B = tobool(a), tobool(b)
            if pred == 'eq': return bv_simplify(A == B)
            if pred == 'ne': return bv_simplify(A != B)
            raise EngineError('icmp i1 ' + pred)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            if pred in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'): x, y = a, b
            else: x, y = unsig(a, n), unsig(b, n)
            p = pred if pred in ('eq', 'ne') else pred[1:]
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        for x, y in ((a, b), (b, a)):
            bx = self.as_boolint(x)
            if bx is not None and not isinstance(bx, bool) and isinstance(y, int) and pred in ('eq', 'ne') and y in (0, 1):
                want = (y == 1) == (pred == 'eq')
                return bv_simplify(bx if want else z3.Not(bx))
        A, B = toint(a), toint(b)
        if pred[0] == 'u':
            def U(x, raw):
                if isinstance(raw, int): return z3.IntVal(unsig(raw, n))
                return x if self.prove_quick(st, x >= 0) else z3.If(x >= 0, x, x + (1 << n))
            A, B = U(A, a), U(B, b)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'lt': lambda: A < B, 'le': lambda: A <= B, 'gt': lambda: A > B, 'ge': lambda: A >= B}[p]()
        return bv_simplify(r)

    def cast(self, st, op, ft, v, tt, where):
        if v is UNDEF: return UNDEF
        if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and isinstance(v, int) and v == 0: return NULL
            if op == 'bitcast' and isinstance(ft, FltT) and isinstance(tt, IntT) and ft.n == tt.n and not isinstance(v, Special): return FBits(v)
            if op == 'bitcast' and isinstance(v, FBits) and isinstance(tt, FltT): return v.v
            if op == 'bitcast' and not (isinstance(ft, PtrT) and isinstance(tt, PtrT)):
                return self.coerce(v, tt)
            return v
        if op in ('fpext', 'fptrunc'): return v
        if op == 'trunc':
            if tt.n == 1:
                if isinstance(v, int): return bool(v & 1)
                b = self.as_boolint(v)
                if b is not None: return b
                return bv_simplify(toint(v) % 2 == 1)
            if isinstance(v, int): return canon(v, tt.n)
            if isinstance(v, Ptr): raise EngineError('trunc of pointer')
            lo = -(1 << (tt.n - 1))
            if self.prove_quick(st, z3.And(toint(v) >= lo, toint(v) < -lo)): return v
            return (toint(v) - lo) % (1 << tt.n) + lo
        if op == 'zext':
            if ft.n == 1:
                if isinstance(v, (bool, int)): return int(bool(v))
                return z3.If(tobool(v), z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, (bool, int)): return canon(unsig(int(v), ft.n), tt.n)
            if self.as_boolint(v) is not None or self.prove_quick(st, toint(v) >= 0): return v
            return z3.If(toint(v) >= 0, toint(v), toint(v) + (1 << ft.n))
        if op == 'sext':
            if ft.n == 1:
                if isinstance(v, (bool, int)): return -int(bool(v))
                return z3.If(tobool(v), z3.IntVal(-1), z3.IntVal(0))
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, (bool, int)):
                return Fraction(int(v) if op == 'sitofp' else unsig(int(v), ft.n))
            if op == 'uitofp' and not self.prove_quick(st, toint(v) >= 0):
                v = z3.If(toint(v) >= 0, toint(v), toint(v) + (1 << ft.n))
            return z3.ToReal(toint(v))
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, Fraction):
                import math
                return canon(math.floor(v) if v >= 0 else math.ceil(v), tt.n)
            x = toreal(v)
            r = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            lo = -(1 << (tt.n - 1))
            self.oblige(st, 'float-to-int-in-range', z3.And(r >= lo, r < -lo), 'safety', where)
            return r
        raise EngineError('cast ' + op)

    def ite(self, c, a, b):
        """merge two values; raises EngineError if impossible"""
        if a is b: return a
        if isinstance(a, (Ptr,)) or isinstance(b, (Ptr,)):
            if a == b: return a
            raise EngineError('merge pointers')
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, tuple): return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Special) or isinstance(b, Special): raise EngineError('merge special')
        if isinstance(a, Fraction) or isinstance(b, Fraction) or (is_sym(a) and a.sort().kind() == z3.Z3_REAL_SORT):
            if isinstance(a, Fraction) and isinstance(b, Fraction) and a == b: return a
            A, B = toreal(a), toreal(b)
            return A if A.eq(B) else z3.If(c, A, B)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool) and a == b: return a
            r = z3.If(c, tobool(a), tobool(b))
            s = bv_simplify(r)
            return s if isinstance(s, bool) else z3.simplify(r)
        if isinstance(a, int) and isinstance(b, int) and a == b: return int(a)
        A, B = toint(a), toint(b)
        return A if A.eq(B) else z3.If(c, A, B)

    # --------------------------------------------------------------- calls
    def resolve(self, name):
        """('stub', f) / ('py', fn) / ('ir', f) / ('ext', name)"""
        r = self.impl_cache.get(name)
        if r is not None: return r
        import builtins_ir
        dn = self.m.demangled(name)
        r = None
        for rx, stub in self.stub_rx:
            if rx.search(dn) and name != stub:
                r = ('stub', stub)
                break
        if r is None:
            py = None
            if not (self.text and name in self.m.funcs and TEXT.search(dn)): py = builtins_ir.lookup(name, dn)
            if py is not None: r = ('py', py)
        if r is None:
            if self.m.aliases.get(name, name) in self.m.funcs: r = ('ir', name)
            else: r = ('ext', dn)
        self.impl_cache[name] = r
        return r

    def call(self, st, name, args, rt, argtypes):
        kind, x = self.resolve(name)
        if kind == 'stub' and x in self.active_stubs:      # a contract may call the function it describes
            return self.run(st, name, args)
        if kind == 'stub':
            self.stubs_used[self.m.demangled(name)] = x
            self.active_stubs.append(x)
            try: return self.run(st, x, args)
            finally: self.active_stubs.pop()
        if kind == 'py':
            self.externs_used.add(self.m.demangled(name)) if name not in self.m.funcs else None
            r = x(self, st, args, rt, name)
            if isinstance(r, list): return r
            return [Outcome('ret', st, r)]
        if kind == 'ir':
            return self.run(st, name, args)
        raise EngineError('call of an external function without a contract: %s' % x)

    def run(self, st, name, args):
        f = self.m.func(name)
        if f is None: raise EngineError('no body: ' + name)
        self.funcs_run[name] = self.funcs_run.get(name, 0) + 1
        self.depth += 1
        if self.depth > 120: raise EngineError('call depth')
        try:
            base = len(st.pc)
            basepc = list(st.pc)
            outs = self.exec_function(st, f, args)
        finally:
            self.depth -= 1
        if len(outs) > 1 and self.merge_on and not any(r.search(self.m.demangled(name)) for r in self.nomerge):
            outs = self.merge(name, outs, base, basepc)
        return outs

    def merge(self, name, outs, base, basepc):
        rets = [o for o in outs if o.kind == 'ret']
        rest = [o for o in outs if o.kind != 'ret']
        if len(rets) < 2: return outs
        # split by ghost/exception state equality
        for o in rets:
            if len(o.st.pc) < base or any(a is not b and not a.eq(b) for a, b in zip(o.st.pc[:base], basepc)): return outs
        groups = []
        for o in rets:
            placed = False
            for g in groups:
                m = self.try_merge(g, o, base)
                if m is not None:
                    g[0] = m
                    placed = True
                    break
            if not placed: groups.append([o])
        if len(groups) > 1: self.unmerged[name] = max(self.unmerged.get(name, 0), len(groups))
        return [g[0] for g in groups] + rest

    def try_merge(self, g, o, base):
        a = g[0]
        if a.st.ghost != o.st.ghost: return None
        ca = a.st.pc[base:]
        cb = o.st.pc[base:]
        A = z3.And(*ca) if len(ca) != 1 else ca[0]
        B = z3.And(*cb) if len(cb) != 1 else cb[0]
        # strip the common prefix for a compact disjunction
        k = 0
        while k < len(ca) and k < len(cb) and ca[k].eq(cb[k]): k += 1
        com = ca[:k]
        ra, rb = ca[k:], cb[k:]
        if not ra or not rb:
            sel = z3.And(*ra) if ra else z3.Not(z3.And(*rb)) if rb else z3.BoolVal(True)
        else:
            sel = z3.And(*ra) if len(ra) > 1 else ra[0]
        try:
            val = self.ite(sel, a.val, o.val)
            mem = {}
            changed = []
            for oid in set(a.st.mem) | set(o.st.mem):
                x, y = a.st.mem.get(oid), o.st.mem.get(oid)
                if x is y: continue
                if x is None or y is None:
                    if isinstance(oid, str): continue
                    changed.append((oid, x or y))
                    continue
                if x.size != y.size or x.kind != y.kind: return None
                ks = set(x.cells) | set(y.cells)
                nc = None
                for kx in ks:
                    cx, cy = x.cells.get(kx), y.cells.get(kx)
                    if cx is cy: continue
                    if cx is None or cy is None:
                        # one side never initialised it: keep it uninitialised unless lazy
                        if cx is None: cx = (cy[0], UNDEF)
                        else: cy = (cx[0], UNDEF)
                    if cx[0] != cy[0]: return None
                    v = self.ite(sel, cx[1], cy[1])
                    if v is cx[1]: continue
                    if nc is None: nc = {}
                    nc[kx] = (cx[0], v)
                if nc is not None:
                    z = x.copy(None)
                    z.cells.update(nc)
                    changed.append((oid, z))
        except EngineError:
            return None
        s = a.st.fork()
        for oid, z in changed: s.mem[oid] = z
        s.pc = s.pc[:base] + com
        if ra and rb:
            d = z3.Or(z3.And(*ra) if len(ra) > 1 else ra[0], z3.And(*rb) if len(rb) > 1 else rb[0])
            d = bv_simplify(d)
            if d is not True and d is not False:
                # complementary conditions need no disjunction
                s.pc.append(z3.simplify(d) if small(d, 60) else d)
        return Outcome('ret', s, val)

    def exec_function(self, st, f, args):
        regs = {}
        if len(args) < len(f.params): raise EngineError('arity of ' + f.name)
        for (t, nm, at), v in zip(f.params, args):
            if 'byval' in at:
                o = self.new_obj(st, sizeof(at['byval']), 'stack')
                self.memcpy(st, Ptr(o, 0), v, sizeof(at['byval']))
                v = Ptr(o, 0)
            regs[nm] = v
        outs = []
        work = [(st, regs, f.entry, 0, None, {}, [])]
        where = self.m.demangled(f.name)
        while work:
            st, regs, bn, ip, prev, visits, allocas = work.pop()
            alive = True
            while alive:
                blk = f.blocks[bn]
                if ip == 0:
                    visits = dict(visits)
                    visits[bn] = visits.get(bn, 0) + 1
                    if visits[bn] > self.max_visits:
                        raise EngineError('loop bound %d exceeded in %s' % (self.max_visits, where))
                    # phis are evaluated in parallel
                    newv = {}
                    while ip < len(blk) and blk[ip].op == 'phi':
                        ins = blk[ip]
                        t, inc = ins.a
                        for v, b in inc:
                            if b == prev:
                                newv[ins.dst] = self.val(regs, t, v)
                                break
                        else:
                            raise EngineError('phi without edge in ' + where)
                        ip += 1
                    regs.update(newv)
                ins = blk[ip]
                self.steps += 1
                if self.steps > self.max_steps: raise EngineError('step budget exhausted in %s' % where)
                try:
                    r = self.step(st, regs, ins, f, where, allocas)
                except UBError as e:
                    self.obls.append(Obligation('memory-safety', list(st.pc), False, 'safety', '%s: %s' % (where, e)))
                    break
                except (KeyError, AttributeError, TypeError, z3.Z3Exception) as e:
                    import traceback
                    raise EngineError('%r at "%s" in %s\n%s' % (e, ins.text, where, traceback.format_exc()))
                k = r[0]
                if k == 'next':
                    ip += 1
                elif k == 'goto':
                    prev, bn, ip = bn, r[1], 0
                elif k == 'fork':
                    # list of (state, extra-regs, target or None)
                    cont = r[1]
                    if not cont:
                        break
                    for (s2, upd, tgt) in cont[1:]:
                        if tgt == '\0throw':
                            for x in allocas: s2.mem.pop(x, None)
                            outs.append(Outcome('throw', s2, None))
                            continue
                        r2 = dict(regs)
                        r2.update(upd)
                        if tgt is None: work.append((s2, r2, bn, ip + 1, prev, visits, list(allocas)))
                        elif tgt == 'again': work.append((s2, r2, bn, ip, prev, visits, list(allocas)))
                        else: work.append((s2, r2, tgt, 0, bn, visits, list(allocas)))
                    s2, upd, tgt = cont[0]
                    st = s2
                    if len(cont) > 1: regs = dict(regs); allocas = list(allocas)
                    regs.update(upd)
                    if tgt == '\0throw':
                        for a in allocas: st.mem.pop(a, None)
                        outs.append(Outcome('throw', st, None))
                        break
                    if tgt is None: ip += 1
                    elif tgt == 'again': pass
                    else: prev, bn, ip = bn, tgt, 0
                elif k == 'ret':
                    for a in allocas: st.mem.pop(a, None)
                    outs.append(Outcome('ret', st, r[1]))
                    break
                elif k == 'throw':
                    for a in allocas: st.mem.pop(a, None)
                    outs.append(Outcome('throw', st, None))
                    break
                elif k == 'dead':
                    break
        return outs

    def branch(self, st, cond):
        """[(state, bool)] for the feasible sides"""
        if isinstance(cond, bool): return [(st, cond)]
        if isinstance(cond, int): return [(st, bool(cond))]
        if cond is UNDEF: raise UBError('branch on an undefined value')
        d = self.decide(st, cond)
        if d is not None: return [(st, d)]
        s2 = st.fork()
        st.pc.append(cond)
        s2.pc.append(z3.Not(cond))
        return [(st, True), (s2, False)]

    def concretize(self, st, v, limit=64):
        """[(state, int)] one per feasible value of a symbolic integer"""
        out = []
        s = z3.Solver()
        s.set('timeout', 2000)
        for x in st.pc: s.add(x)
        v = toint(v)
        for x in self.cone(st.pc + [v]): s.add(x)
        vals = []
        while True:
            r = str(s.check())
            if r == 'unsat': break
            if r != 'sat': raise EngineError('cannot enumerate an index')
            k = s.model().eval(v, model_completion=True).as_long()
            vals.append(k)
            if len(vals) > limit: raise EngineError('index with too many values')
            s.add(v != k)
        for i, k in enumerate(vals):
            s2 = st.fork() if i < len(vals) - 1 else st
            out.append((s2, k))
        for (s2, k) in out: s2.pc.append(v == k)
        return out

    def step(self, st, regs, ins, f, where, allocas):
        op, a = ins.op, ins.a
        if op == 'load':
            regs[ins.dst] = self.load(st, self.val(regs, P.PTR, a[1]), a[0])
            return ('next',)
        if op == 'store':
            self.store(st, self.val(regs, P.PTR, a[2]), a[0], self.val(regs, a[0], a[1]))
            return ('next',)
        if op == 'getelementptr':
            base = self.val(regs, P.PTR, a[1][0][1])
            idx = [self.val(regs, t, v) for t, v in a[1][1:]]
            for k, i in enumerate(idx):
                if is_sym(i):
                    s = z3.simplify(i)
                    if z3.is_int_value(s): idx[k] = s.as_long(); continue
                    t, v = a[1][1 + k]
                    return ('fork', [(s2, {v[1]: kk}, 'again') for s2, kk in self.concretize(st, i)])
                if i is UNDEF: raise UBError('undefined index')
            if base is UNDEF: regs[ins.dst] = UNDEF; return ('next',)
            if not isinstance(base, Ptr): raise EngineError('gep on %r' % (base,))
            # array bounds: an index past the end of an array member is out of bounds for its elements
            t = a[0]
            for k, i in enumerate(idx[1:]):
                if isinstance(t, StructT): t = t.els[i]
                elif isinstance(t, ArrT):
                    if t.n > 0 and not (0 <= i <= t.n): raise UBError('index %d outside [0,%d)' % (i, t.n))
                    if t.n > 0 and i == t.n and (k < len(idx) - 2 or self.oob_use(f, ins)):
                        raise UBError('index %d outside [0,%d)' % (i, t.n))
                    t = t.el
            regs[ins.dst] = Ptr(base.o, base.f + self.gep_offset(a[0], idx))
            return ('next',)
        if op == 'call':
            return self.do_call(st, regs, ins, f, where)
        if op == 'br':
            if a[0] is None: return ('goto', a[1])
            c = self.val(regs, IntT(1), a[0])
            bs = self.branch(st, c)
            if len(bs) == 1: return ('goto', a[1] if bs[0][1] else a[2])
            return ('fork', [(s, {}, a[1] if b else a[2]) for s, b in bs])
        if op == 'ret':
            return ('ret', None if a[1] is None else self.val(regs, a[0], a[1]))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            regs[ins.dst] = self.fop(op, self.val(regs, a[0], a[1]), self.val(regs, a[0], a[2]))
            return ('next',)
        if op == 'fneg':
            v = self.val(regs, a[0], a[1])
            regs[ins.dst] = -v if isinstance(v, Fraction) else Special({'+inf': '-inf', '-inf': '+inf'}.get(v.k, v.k)) if isinstance(v, Special) else -toreal(v)
            return ('next',)
        if op == 'fcmp':
            regs[ins.dst] = self.fcmp(a[0], self.val(regs, a[1], a[2]), self.val(regs, a[1], a[3]))
            return ('next',)
        if op == 'icmp':
            regs[ins.dst] = self.icmp(st, a[0], a[1], self.val(regs, a[1], a[2]), self.val(regs, a[1], a[3]))
            return ('next',)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if isinstance(a[0], ArrT): raise EngineError('vector op')
            regs[ins.dst] = self.iop(st, op, a[0].n, self.val(regs, a[0], a[1]), self.val(regs, a[0], a[2]), a[3], where)
            return ('next',)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
                  'inttoptr', 'bitcast', 'addrspacecast'):
            regs[ins.dst] = self.cast(st, op, a[0], self.val(regs, a[0], a[1]), a[2], where)
            return ('next',)
        if op == 'alloca':
            n = self.val(regs, IntT(64), a[1])
            o = self.new_obj(st, sizeof(a[0]) * n, 'stack')
            allocas.append(o)
            regs[ins.dst] = Ptr(o, 0)
            return ('next',)
        if op == 'select':
            c = self.val(regs, IntT(1), a[0])
            x, y = self.val(regs, a[1], a[2]), self.val(regs, a[1], a[3])
            if isinstance(c, (bool, int)):
                regs[ins.dst] = x if c else y
                return ('next',)
            if c is UNDEF: raise UBError('select on an undefined value')
            try:
                regs[ins.dst] = self.ite(c, x, y)
                return ('next',)
            except EngineError:
                bs = self.branch(st, c)
                return ('fork', [(s, {ins.dst: x if b else y}, None) for s, b in bs])
        if op == 'switch':
            v = self.val(regs, a[0], a[1])
            n = a[0].n
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int):
                for k, l in a[3]:
                    if canon(k, n) == v: return ('goto', l)
                return ('goto', a[2])
            out = []
            cur = st
            for k, l in a[3]:
                c = bv_simplify(toint(v) == canon(k, n))
                bs = self.branch(cur, c)
                nxt = None
                for s, b in bs:
                    if b: out.append((s, {}, l))
                    else: nxt = s
                cur = nxt
                if cur is None: break
            if cur is not None: out.append((cur, {}, a[2]))
            return ('fork', out)
        if op == 'extractvalue':
            v = self.val(regs, a[0], a[1])
            for i in a[2]:
                v = UNDEF if v is UNDEF else v[i]
            regs[ins.dst] = v
            return ('next',)
        if op == 'insertvalue':
            v = self.val(regs, a[0], a[1])
            w = self.val(regs, a[2], a[3])
            regs[ins.dst] = self.insert(a[0], v, a[4], w)
            return ('next',)
        if op == 'landingpad':
            if regs.pop('\0lp', False): return ('next',)
            raise EngineError('landingpad reached without an exception')
        if op == 'resume':
            return ('throw',)
        if op == 'unreachable':
            return ('dead',)
        if op == 'freeze':
            v = self.val(regs, a[0], a[1])
            regs[ins.dst] = v
            return ('next',)
        if op == 'atomicrmw':
            p = self.val(regs, P.PTR, a[1])
            old = self.load(st, p, a[2])
            v = self.val(regs, a[2], a[3])
            rop = a[0]
            new = v if rop == 'xchg' else self.iop(st, rop, a[2].n, old, v, set(), where)
            self.store(st, p, a[2], new)
            regs[ins.dst] = old
            return ('next',)
        if op == 'cmpxchg':
            p = self.val(regs, P.PTR, a[0])
            old = self.load(st, p, a[1])
            e = self.icmp(st, 'eq', a[1], old, self.val(regs, a[1], a[2]))
            if not isinstance(e, bool): raise EngineError('symbolic cmpxchg')
            if e: self.store(st, p, a[1], self.val(regs, a[1], a[3]))
            regs[ins.dst] = (old, e)
            return ('next',)
        if op == 'fence': return ('next',)
        raise EngineError('unsupported instruction: ' + ins.text)

    def oob_use(self, f, ins):
        """is the one-past-the-end pointer used as an object (load, store or passed on)?  end() iterators of
        std::array are produced by getelementptr on the data pointer, not on the array type"""
        dn = self.m.demangled(f.name)
        return '_S_ref' in dn or 'operator[]' in dn

    def insert(self, t, v, idx, w):
        n = len(t.els) if isinstance(t, StructT) else t.n
        cur = [UNDEF] * n if v is UNDEF else list(v)
        if len(idx) == 1: cur[idx[0]] = w
        else:
            et = t.els[idx[0]] if isinstance(t, StructT) else t.el
            cur[idx[0]] = self.insert(et, cur[idx[0]], idx[1:], w)
        return tuple(cur)

    def do_call(self, st, regs, ins, f, where):
        rt, callee, args, norm, unw = ins.a
        fp = self.val(regs, P.PTR, callee)
        if fp is UNDEF: raise UBError('call through an undefined pointer')
        if not (isinstance(fp, Ptr) and isinstance(fp.o, str) and fp.o.startswith('fn:')):
            raise EngineError('indirect call through %r in %s' % (fp, where))
        name = fp.o[3:]
        av = [self.val(regs, t, v) for t, v, _ in args]
        outs = self.call(st, name, av, rt, [t for t, _, _ in args])
        res = []
        for o in outs:
            if o.kind == 'ret':
                upd = {ins.dst: o.val} if ins.dst is not None else {}
                res.append((o.st, upd, norm))
            elif o.kind == 'throw':
                if unw is None:
                    res.append((o.st, None, 'THROW'))
                else:
                    lp = self.landing(o.st, f, unw)
                    if lp is None: res.append((o.st, None, 'THROW'))
                    else: res.append((o.st, lp, unw))
        throws = [r for r in res if r[2] == 'THROW']
        cont = [r for r in res if r[2] != 'THROW']
        if not throws:
            if len(cont) == 1:
                s2, upd, tgt = cont[0]
                if s2 is st:
                    regs.update(upd)
                    if '\0lp' in upd: return ('fork', cont)
                    return ('goto', tgt) if tgt is not None else ('next',)
            return self.fix_lp(cont, f)
        # paths that leave the function with an exception
        for s2, _, _ in throws:
            cont.append((s2, {}, '\0throw'))
        return self.fix_lp(cont, f)

    def fix_lp(self, cont, f):
        return ('fork', cont)

    def landing(self, st, f, unw):
        """register update for entering the landing pad, or None when no clause applies"""
        for ins in f.blocks[unw]:
            if ins.op == 'landingpad':
                clauses, cleanup = ins.a
                exc = st.exc
                sel = None
                for kind, v in clauses:
                    if kind == 'catch':
                        ti = self.const_value(P.PTR, v)
                        if ti == NULL:
                            sel = 1
                            break
                        if self.exc_matches(exc[1], ti.o):
                            sel = self.typeid(ti.o)
                            break
                if sel is None:
                    if not cleanup: return None
                    sel = 0
                return {ins.dst: (exc[0], sel), '\0lp': True}
        raise EngineError('no landingpad in unwind block')

    def typeid(self, name):
        return self.memo(('typeid', name), lambda: 2 + sum(1 for k in self.cache if isinstance(k, tuple) and k[0] == 'typeid'))

    def exc_matches(self, thrown, caught):
        if thrown == caught: return True
        if caught == 'g:_ZTISt9exception' and thrown.startswith('g:_ZTI'): return True
        if caught in ('g:_ZTISt13runtime_error', 'g:_ZTISt11logic_error'):
            kids = {'g:_ZTISt13runtime_error': ('range_error', 'overflow_error', 'underflow_error', 'system_error'),
                    'g:_ZTISt11logic_error': ('out_of_range', 'length_error', 'invalid_argument', 'domain_error')}[caught]
            return any(k in thrown for k in kids)
        return False
