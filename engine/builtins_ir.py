"""Contracts of functions outside /repo that the generator treats as primitive:
the C++ runtime, libm, the parts of libstdc++ that live in the shared library,
and the vf_* specification primitives."""
import re
from fractions import Fraction
import z3
import irparse as P
from irparse import IntT, FltT, PtrT, ArrT, StructT, VoidT, sizeof, layout

TABLE = {}
RX = []


def reg(*names):
    def d(fn):
        for n in names: TABLE[n] = fn
        return fn
    return d


def regrx(rx):
    def d(fn):
        RX.append((re.compile(rx), fn))
        return fn
    return d


def lookup(name, dn):
    fn = TABLE.get(name)
    if fn is not None: return fn
    if name.startswith('llvm.'):
        for k in ('llvm.lifetime', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.dbg', 'llvm.experimental.noalias',
                  'llvm.invariant', 'llvm.va_', 'llvm.prefetch', 'llvm.donothing'):
            if name.startswith(k): return nop
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'): return memcpy
        if name.startswith('llvm.memset'): return memset
        if name.startswith('llvm.fabs'): return fabs
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'): return fmuladd
        if name.startswith('llvm.expect') or name.startswith('llvm.launder') or name.startswith('llvm.strip'): return first
        if name.startswith('llvm.sqrt'): return sqrt
        if name.startswith('llvm.trap'): return trap
        if name.startswith('llvm.is.constant'): return lambda e, st, a, rt, n: False
        if name.startswith('llvm.objectsize'): return lambda e, st, a, rt, n: -1
        if name.startswith('llvm.eh.typeid.for'): return lambda e, st, a, rt, n: e.typeid(a[0].o)
        if name.startswith('llvm.umul.with.overflow'): return umulo
        if name.startswith('llvm.uadd.with.overflow'): return uaddo
        if name.startswith('llvm.floor'): return floor
        if name.startswith('llvm.ceil'): return ceil
        if name.startswith('llvm.maxnum'): return fmax
        if name.startswith('llvm.minnum'): return fmin
        if name.startswith('llvm.abs.'): return iabs
        if name.startswith(('llvm.ctlz.', 'llvm.cttz.', 'llvm.ctpop.')): return bitcount
        if name.startswith(('llvm.sin.', 'llvm.cos.', 'llvm.pow.')): return TABLE[name.split('.')[1]]
    for rx, fn in RX:
        if rx.search(dn): return fn
    return None


def bitcount(e, st, a, rt, n):
    from symex import EngineError
    if not isinstance(a[0], int): raise EngineError('bit counting of a symbolic integer')
    w = int(n.split('.i')[-1]); v = a[0] & ((1 << w) - 1)
    if 'ctpop' in n: return bin(v).count('1')
    if v == 0: return w
    return w - v.bit_length() if 'ctlz' in n else (v & -v).bit_length() - 1


def out(kind, st, val):
    from symex import Outcome
    return Outcome(kind, st, val)


def nop(e, st, a, rt, n):
    return opaque_ret(e, st, rt, n) if not isinstance(rt, VoidT) else None


def opaque_ret(e, st, rt, n):
    from symex import NULL, Ptr
    if isinstance(rt, VoidT): return None
    if isinstance(rt, PtrT): return Ptr('ext:ret', 0)
    if isinstance(rt, FltT): return e.fresh('opaque')
    if isinstance(rt, IntT):
        if rt.n == 1: return e.fresh('opaque', 'B')
        v = e.fresh('opaque', 'I')
        e.add_def(v, v >= -(1 << (rt.n - 1)), v < (1 << (rt.n - 1)))
        return v
    if isinstance(rt, StructT): return tuple(opaque_ret(e, st, t, n) for t in rt.els)
    from symex import EngineError
    raise EngineError('opaque return of %r' % rt)


def first(e, st, a, rt, n): return a[0]


def memcpy(e, st, a, rt, n):
    from symex import EngineError
    if not isinstance(a[2], int):
        ks = e.concretize(st, a[2])
        r = []
        for s, k in ks:
            e.memcpy(s, a[0], a[1], k)
            r.append(out('ret', s, a[0]))
        return r
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


TABLE['memcpy'] = memcpy
TABLE['memmove'] = memcpy


def memset(e, st, a, rt, n):
    from symex import EngineError
    d, v, k = a[0], a[1], a[2]
    if not isinstance(k, int) or not isinstance(v, int): raise EngineError('symbolic memset')
    if k == 0: return a[0]
    o = e.wobj(st, d.o)
    if o.size is not None and d.f + k > o.size:
        from symex import UBError
        raise UBError('memset beyond the object')
    e.clear_range(o, d.f, k)
    if v == 0 and d.f == 0 and o.size == k:
        o.zero = True
    elif v == 0 and k % 8 == 0:
        for i in range(0, k, 8): o.cells[d.f + i] = (8, 0)
    else:
        for i in range(k): o.cells[d.f + i] = (1, v)
    return a[0]


TABLE['memset'] = memset


@reg('fabs')
def fabs(e, st, a, rt, n):
    x = a[0]
    if isinstance(x, Fraction): return abs(x)
    return z3.If(x >= 0, x, -x)


@reg('abs', 'labs', 'llabs')
def iabs(e, st, a, rt, n):
    x = a[0]
    if isinstance(x, int): return abs(x)
    return z3.If(x >= 0, x, -x)


def fmuladd(e, st, a, rt, n):
    return e.fop('fadd', e.fop('fmul', a[0], a[1]), a[2])


@reg('sqrt')
def sqrt(e, st, a, rt, n): return e.sqrt(a[0])


@reg('sin')
def sin(e, st, a, rt, n): return e.trig('sin', a[0])


@reg('cos')
def cos(e, st, a, rt, n): return e.trig('cos', a[0])


@reg('acos')
def acos(e, st, a, rt, n): return e.acos(a[0])


@reg('asin')
def asin(e, st, a, rt, n):
    from symex import toreal
    return e.pi / 2 - e.acos(a[0])


@reg('atan')
def atan(e, st, a, rt, n): return e.atan(a[0])


@reg('tan')
def tan(e, st, a, rt, n): return e.fop('fdiv', e.trig('sin', a[0]), e.trig('cos', a[0]))


@reg('pow')
def pow_(e, st, a, rt, n):
    x, y = a
    if isinstance(y, Fraction) and y.denominator == 1 and 0 <= y <= 8:
        r = Fraction(1)
        for _ in range(int(y)): r = e.fop('fmul', r, x)
        return r
    if isinstance(y, Fraction) and y == Fraction(1, 2): return e.sqrt(x)
    from symex import EngineError
    raise EngineError('pow')


@reg('hypot')
def hypot(e, st, a, rt, n):
    return e.sqrt(e.fop('fadd', e.fop('fmul', a[0], a[0]), e.fop('fmul', a[1], a[1])))


@reg('floor')
def floor(e, st, a, rt, n):
    import math
    if isinstance(a[0], Fraction): return Fraction(math.floor(a[0]))
    return z3.ToReal(z3.ToInt(a[0]))


@reg('ceil')
def ceil(e, st, a, rt, n):
    import math
    if isinstance(a[0], Fraction): return Fraction(math.ceil(a[0]))
    return -z3.ToReal(z3.ToInt(-a[0]))


@reg('round')
def round_(e, st, a, rt, n):
    import math
    if isinstance(a[0], Fraction):
        x = a[0]
        return Fraction(math.floor(x + Fraction(1, 2)) if x >= 0 else math.ceil(x - Fraction(1, 2)))
    x = a[0]
    h = z3.Q(1, 2)
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(h - x)))


@reg('fmax')
def fmax(e, st, a, rt, n):
    c = e.fcmp('oge', a[0], a[1])
    return e.ite(c, a[0], a[1]) if not isinstance(c, bool) else (a[0] if c else a[1])


@reg('fmin')
def fmin(e, st, a, rt, n):
    c = e.fcmp('ole', a[0], a[1])
    return e.ite(c, a[0], a[1]) if not isinstance(c, bool) else (a[0] if c else a[1])


def trap(e, st, a, rt, n): return []


def umulo(e, st, a, rt, n):
    from symex import unsig, canon, EngineError
    w = rt.els[0].n
    if isinstance(a[0], int) and isinstance(a[1], int):
        r = unsig(a[0], w) * unsig(a[1], w)
        return (canon(r, w), r >> w != 0)
    raise EngineError('symbolic overflow intrinsic')


def uaddo(e, st, a, rt, n):
    from symex import unsig, canon, EngineError
    w = rt.els[0].n
    if isinstance(a[0], int) and isinstance(a[1], int):
        r = unsig(a[0], w) + unsig(a[1], w)
        return (canon(r, w), r >> w != 0)
    raise EngineError('symbolic overflow intrinsic')


# ------------------------------------------------------------ C++ runtime
@reg('_Znwm', '_Znam', 'malloc')
def new(e, st, a, rt, n):
    from symex import Ptr, EngineError
    k = a[0]
    if not isinstance(k, int):
        ks = e.concretize(st, k)
        return [out('ret', s, Ptr(e.new_obj(s, kk, 'heap'), 0)) for s, kk in ks]
    return Ptr(e.new_obj(st, k, 'heap'), 0)


@reg('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm')
def string_create(e, st, a, rt, n):
    """buffer of a string that does not fit into the object (concrete text only)"""
    if not e.text: return string_op(e, st, a, rt, n)
    cap, old = e.load(st, a[1], IntT(64)), a[2]
    if cap > old and cap < 2*old:
        cap = 2*old
        e.store(st, a[1], IntT(64), cap)
    return new(e, st, [cap + 1], rt, n)


@reg('_ZnwmSt11align_val_t')
def newal(e, st, a, rt, n): return new(e, st, a[:1], rt, n)


@reg('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def delete(e, st, a, rt, n):
    from symex import NULL, UBError
    p = a[0]
    if p == NULL: return None
    if isinstance(p.o, str): return None
    if p.o not in st.mem: raise UBError('double free')
    if p.f != 0: raise UBError('free of an interior pointer')
    del st.mem[p.o]
    return None


@reg('_ZNSt15__exception_ptr13exception_ptrD1Ev', '__cxa_free_exception', '__cxa_guard_release', '__cxa_guard_abort',
     '__cxa_atexit', '_ZSt28__throw_bad_array_new_lengthv_nop')
def rtnop(e, st, a, rt, n): return nop(e, st, a, rt, n)


@reg('__cxa_guard_acquire')
def guard(e, st, a, rt, n):
    v = e.load(st, a[0], IntT(8))
    if v == 0:
        e.store(st, a[0], IntT(8), 1)
        return 1
    return 0


@reg('__cxa_allocate_exception')
def allocexc(e, st, a, rt, n):
    from symex import Ptr
    return Ptr(e.new_obj(st, a[0], 'heap'), 0)


@reg('__cxa_throw')
def throw(e, st, a, rt, n):
    st.exc = (a[0], a[1].o)
    return [out('throw', st, None)]


@reg('__cxa_rethrow')
def rethrow(e, st, a, rt, n):
    return [out('throw', st, None)]


@reg('__cxa_begin_catch')
def begin_catch(e, st, a, rt, n): return a[0]


@reg('__cxa_end_catch')
def end_catch(e, st, a, rt, n): return None


@reg('__cxa_pure_virtual', '_ZSt9terminatev', '__clang_call_terminate', 'abort')
def terminate(e, st, a, rt, n):
    from symex import Obligation
    e.obls.append(Obligation('no-terminate', list(st.pc), False, 'safety', n))
    return []


@regrx(r'^std::__throw_(\w+)\(')
def stdthrow(e, st, a, rt, n):
    m = re.search(r'__throw_(\w+)', n)
    nm = e.m.demangled(n)
    k = re.search(r'__throw_(\w+?)(_fmt)?\(', nm).group(1)
    t = 'g:_ZTISt%d%s' % (len(k), k)
    if k == 'out_of_range': t = 'g:_ZTISt12out_of_range'
    from symex import Ptr
    st.exc = (Ptr(e.new_obj(st, 64, 'heap'), 0), t)
    return [out('throw', st, None)]


@regrx(r'^(std::)?(runtime_error|logic_error|out_of_range|invalid_argument|length_error|exception|bad_\w+|domain_error|range_error)::'
       r'(~)?\w+\(')
def excctor(e, st, a, rt, n): return nop(e, st, a, rt, n)


@regrx(r'^std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|exception|bad_\w+|domain_error|range_error)::')
def excany(e, st, a, rt, n): return opaque_ret(e, st, rt, n)


# strings, streams, locale: opaque.  Nothing under contract depends on text.
STR = (r'std::__cxx11::basic_string<|std::basic_ostream|std::ostream|std::basic_ofstream|std::basic_ifstream|std::ios_base|'
       r'std::basic_ios|std::locale|std::basic_stringstream|std::__cxx11::basic_ostringstream|std::__cxx11::basic_stringstream|'
       r'std::basic_streambuf|std::basic_filebuf|std::__cxx11::basic_stringbuf')


@regrx(r'^(unsigned long |bool |int |void |char |char\* |char const\* )?(' + STR + r')')
def opaque(e, st, a, rt, n):
    return string_op(e, st, a, rt, n)


@regrx(r'^(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > )?std::(operator\+|operator<<|to_string|endl|flush|getline|setw|setprecision|operator==|operator!=|__cxx11::to_string|operator<)<?.*basic_(string|ostream|ios)')
def opaque2(e, st, a, rt, n):
    return string_op(e, st, a, rt, n)


@regrx(r'^std::(__cxx11::)?to_string\(|^std::setw|^std::setprecision|^std::_Set')
def opaque3(e, st, a, rt, n): return string_op(e, st, a, rt, n)


def string_op(e, st, a, rt, n):
    # writes only into the string/stream objects: the sret or this argument becomes opaque
    from symex import Ptr
    if isinstance(rt, PtrT) and a and isinstance(a[0], Ptr): return a[0]
    return opaque_ret(e, st, rt, n)


@regrx(r'^double const& std::(min|max)<double>\(double const&, double const&\)')
def minmax(e, st, a, rt, n):
    from symex import Ptr
    dn = e.m.demangled(n)
    x, y = e.load(st, a[0], P.DOUBLE), e.load(st, a[1], P.DOUBLE)
    c = e.fcmp('olt', y, x) if 'std::min' in dn else e.fcmp('olt', x, y)
    if isinstance(c, bool): return a[1] if c else a[0]
    o = e.new_obj(st, 8, 'heap')
    e.store(st, Ptr(o, 0), P.DOUBLE, e.ite(c, y, x))
    return Ptr(o, 0)


@regrx(r'^std::random_device::operator\(\)|^std::random_device::_M_getval')
def rdev(e, st, a, rt, n): return 12345


@regrx(r'^std::random_device::')
def rdev2(e, st, a, rt, n): return opaque_ret(e, st, rt, n)


@regrx(r'^std::__detail::_Prime_rehash_policy::_M_next_bkt')
def nextbkt(e, st, a, rt, n):
    k = a[1]
    p = 1
    for p in (1, 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109):
        if p >= k: return p
    return p


@regrx(r'^std::__detail::_Prime_rehash_policy::_M_need_rehash')
def needrehash(e, st, a, rt, n):
    # contract of the hashing policy: any answer is allowed; growing never happens below 13 elements
    nb, ne, ni = a[1], a[2], a[3]
    if ne + ni > nb:
        for p in (13, 29, 59, 127, 257):
            if p >= ne + ni: return (True, p)
    return (False, 0)


@regrx(r'^std::_Hash_bytes')
def hashbytes(e, st, a, rt, n):
    return 7


@regrx(r'^std::_Rb_tree_(increment|decrement|insert_and_rebalance|rebalance)')
def rbtree(e, st, a, rt, n):
    from symex import EngineError
    raise EngineError('std::map internals: ' + n)


def byte(e, st, p, k):
    from symex import EngineError
    b = e.load(st, type(p)(p.o, p.f + k), IntT(8))
    if not isinstance(b, int): raise EngineError('text depends on symbolic data')
    return b & 255


@reg('__dynamic_cast')
def dynamic_cast(e, st, a, rt, n):
    """single inheritance chains (typeinfo structures of the module)"""
    from symex import EngineError, Ptr
    p, dst = a[0], a[2]
    if p.o == 0: return a[0]
    vp = e.load(st, p, PtrT())
    ti = e.load(st, Ptr(vp.o, vp.f - 8), PtrT())
    top = e.load(st, Ptr(vp.o, vp.f - 16), IntT(64))
    if top != 0: raise EngineError('dynamic_cast with multiple inheritance')
    while isinstance(ti, Ptr):
        if ti.o == dst.o: return p
        # abi::__si_class_type_info: vptr, name, base; abi::__class_type_info has no base
        try: ti = e.load(st, Ptr(ti.o, ti.f + 16), PtrT())
        except Exception: break
    from symex import NULL
    return NULL


@reg('strlen')
def strlen(e, st, a, rt, n):
    k = 0
    while byte(e, st, a[0], k): k += 1
    return k


@reg('memcmp', 'bcmp')
def memcmp(e, st, a, rt, n):
    for k in range(a[2]):
        x, y = byte(e, st, a[0], k), byte(e, st, a[1], k)
        if x != y: return -1 if x < y else 1
    return 0


# ------------------------------------------------------- specification DSL
def cname(e, st, p):
    s = b''
    k = p.f
    while True:
        b = e.load(st, type(p)(p.o, k), IntT(8))
        if b == 0: break
        s += bytes([b & 255])
        k += 1
    return s.decode()


def input_name(e, st, base):
    # inputs are numbered per name; the counter is part of the path so that the n-th request on any path is
    # the same variable
    k = ('n', base)
    c = st.ghost.get(k, 0)
    st.ghost[k] = c + 1
    return base if c == 0 else '%s#%d' % (base, c)


@reg('vf_real')
def vf_real(e, st, a, rt, n):
    nm = input_name(e, st, cname(e, st, a[0]))
    v = z3.Real('in:' + nm)
    if ('in', nm) not in e.cache:
        e.cache[('in', nm)] = 1
        e.inputs.append((nm, v, 'R'))
    return v


@reg('vf_int')
def vf_int(e, st, a, rt, n):
    nm = input_name(e, st, cname(e, st, a[0]))
    v = z3.Int('in:' + nm)
    if ('in', nm) not in e.cache:
        e.cache[('in', nm)] = 1
        e.inputs.append((nm, v, 'I'))
        e.add_def(v, v >= a[1], v <= a[2])
    return v


@reg('vf_bool')
def vf_bool(e, st, a, rt, n):
    nm = input_name(e, st, cname(e, st, a[0]))
    v = z3.Bool('in:' + nm)
    if ('in', nm) not in e.cache:
        e.cache[('in', nm)] = 1
        e.inputs.append((nm, v, 'B'))
    return v


@reg('vf_choose')
def vf_choose(e, st, a, rt, n):
    """a concrete integer in [lo,hi): one path per value"""
    nm = input_name(e, st, cname(e, st, a[0]))
    v = z3.Int('in:' + nm)
    if ('in', nm) not in e.cache:
        e.cache[('in', nm)] = 1
        e.inputs.append((nm, v, 'I'))
    r = []
    ks = list(range(a[1], a[2]))
    for i, k in enumerate(ks):
        s = st.fork() if i < len(ks) - 1 else st
        r.append((s, k))
    for s, k in r: s.pc.append(v == k)
    return [out('ret', s, k) for s, k in r]


@reg('vf_havoc_doubles')
def vf_havoc(e, st, a, rt, n):
    p, k = a[0], a[1]
    o = e.wobj(st, p.o)
    for off, (sz, v) in list(o.cells.items()):
        if p.f <= off < p.f + k and sz == 8:
            if isinstance(v, Fraction) or (isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_REAL_SORT):
                o.cells[off] = (8, e.fresh('havoc'))
    return None


def ufreal(e, key, args):
    """an uninterpreted function of reals, one value per argument tuple (equal when the arguments are equal)"""
    from symex import toreal
    xs = [z3.simplify(toreal(x), som=True, sort_sums=True) for x in args]

    def mk():
        v = e.fresh('uf_' + key)
        for ys, w in e.cache.setdefault(('uflist', key), []):
            e.add_def(v, z3.Implies(z3.And(*[x == y for x, y in zip(xs, ys)]), v == w))
        e.cache[('uflist', key)].append((xs, v))
        return v
    return e.memo(('uf', key) + tuple(e.eid(x) for x in xs), mk)


@reg('vf_uf3')
def vf_uf3(e, st, a, rt, n): return ufreal(e, cname(e, st, a[0]), a[1:4])


@regrx(r'comp_ellint_2(f|l|<double>)?\(')
def ellint2(e, st, a, rt, n):
    # complete elliptic integral of the second kind: E(0) = pi/2, 1 <= E <= pi/2 on [0,1]
    from symex import toreal
    x = toreal(a[0])
    v = ufreal(e, 'ellint2', [x])
    e.add_def(v, z3.Implies(x == 0, v == e.pi / 2), z3.Implies(z3.And(x >= -1, x <= 1), z3.And(v >= 1, v <= e.pi / 2)))
    return v


@reg('vf_put_double')
def vf_put_double(e, st, a, rt, n):
    p, k, i = a[0], a[1], a[2]
    o = e.wobj(st, p.o)
    offs = sorted(off for off, (sz, v) in o.cells.items() if p.f <= off < p.f + k and sz == 8
                  and (isinstance(v, Fraction) or (isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_REAL_SORT)))
    o.cells[offs[i]] = (8, a[3])
    return None


@reg('vf_assume')
def vf_assume(e, st, a, rt, n):
    from symex import tobool, bv_simplify
    c = bv_simplify(tobool(a[0]))
    if c is True: return None
    if c is False: return []
    st.pc.append(c)
    return None


@reg('vf_assert')
def vf_assert(e, st, a, rt, n):
    from symex import tobool, bv_simplify
    nm = cname(e, st, a[0])
    g = tobool(a[1])
    e.oblige(st, nm, g, 'post', '')
    g = bv_simplify(g)
    if g is False: return []
    if g is not True: st.pc.append(g)
    return None


@reg('vf_check')
def vf_check(e, st, a, rt, n):
    """assertion that is not assumed afterwards"""
    from symex import tobool
    e.oblige(st, cname(e, st, a[0]), tobool(a[1]), 'post', '')
    return None


@reg('vf_lemma')
def vf_lemma(e, st, a, rt, n):
    """proof hint: an intermediate assertion, proved like any other and then available"""
    from symex import tobool, bv_simplify
    g = bv_simplify(tobool(a[1]))
    e.oblige(st, cname(e, st, a[0]), tobool(a[1]), 'lemma', '')
    if g is False: return []
    if g is not True: st.pc.append(g)
    return None


@reg('vf_cover')
def vf_cover(e, st, a, rt, n):
    e.covers.append((cname(e, st, a[0]), list(st.pc)))
    return None


@reg('vf_note')
def vf_note(e, st, a, rt, n):
    st.trace = st.trace + (cname(e, st, a[0]),)
    return None


@reg('vf_and')
def vf_and(e, st, a, rt, n):
    return e.iop(st, 'and', 1, a[0], a[1], set(), '')


@reg('vf_or')
def vf_or(e, st, a, rt, n):
    return e.iop(st, 'or', 1, a[0], a[1], set(), '')


@reg('vf_not')
def vf_not(e, st, a, rt, n):
    return e.iop(st, 'xor', 1, a[0], True, set(), '')


@reg('vf_imp')
def vf_imp(e, st, a, rt, n):
    return e.iop(st, 'or', 1, e.iop(st, 'xor', 1, a[0], True, set(), ''), a[1], set(), '')


@reg('vf_iff')
def vf_iff(e, st, a, rt, n):
    return e.iop(st, 'xor', 1, e.iop(st, 'xor', 1, a[0], a[1], set(), ''), True, set(), '')


@reg('vf_eq')
def vf_eq(e, st, a, rt, n): return e.fcmp('oeq', a[0], a[1])


@reg('vf_le')
def vf_le(e, st, a, rt, n): return e.fcmp('ole', a[0], a[1])


@reg('vf_lt')
def vf_lt(e, st, a, rt, n): return e.fcmp('olt', a[0], a[1])


@reg('vf_ite')
def vf_ite(e, st, a, rt, n):
    if isinstance(a[0], (bool, int)): return a[1] if a[0] else a[2]
    return e.ite(a[0], a[1], a[2])


@reg('vf_name')
def vf_name(e, st, a, rt, n):
    """a ghost name for a value: lets facts about it be used without its definition"""
    x = a[0]
    if isinstance(x, Fraction): return x
    v = e.fresh('name')
    e.add_def(v, v == x)
    e.nterm[v.decl().name()] = x
    return v


@reg('vf_symbolic')
def vf_symbolic(e, st, a, rt, n): return True


@reg('vf_reachable')
def vf_reachable(e, st, a, rt, n):
    e.covers.append((cname(e, st, a[0]), list(st.pc)))
    return None
