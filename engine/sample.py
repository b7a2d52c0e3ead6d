"""Concrete valuations of the inputs, used only to see quickly that both sides of a
branch are possible (a wrong answer here costs time, never soundness: it can only make
the engine explore a side that is in fact impossible)."""
import numpy as np
import z3

N = 4096


class Unknown(Exception): pass


class Sampler:
    def __init__(self, eng):
        self.e = eng
        self.rng = np.random.default_rng(1)
        self.memo = {}
        self.keep = []

    def const(self, x):
        n = x.decl().name()
        e = self.e
        if n == 'PI': return np.full(N, np.pi)
        if n in e.qterm:
            a, b = e.qterm[n]
            return self.ev(a) / self.ev(b)
        if n in e.nterm: return self.ev(e.nterm[n])
        if n in e.sterm: return np.sqrt(self.ev(e.sterm[n]))
        r = self.rng
        if n in e.defs and not n.startswith('uf_') and not n.startswith('in:'): raise Unknown()
        k = x.sort().kind()
        if k == z3.Z3_BOOL_SORT: return r.random(N) < 0.5
        if k == z3.Z3_INT_SORT:
            if n in e.defs and not n.startswith('in:'): raise Unknown()
            return r.integers(-3, 12, N).astype(float)
        if k == z3.Z3_REAL_SORT:
            return np.where(r.random(N) < 0.2, r.integers(-2, 3, N).astype(float), r.normal(0, 2, N))
        raise Unknown()

    def ev(self, x):
        k = x.get_id()
        v = self.memo.get(k)
        if v is not None:
            if v is Unknown: raise Unknown()
            return v
        self.keep.append(x)
        try:
            with np.errstate(all='ignore'): v = self.ev1(x)
        except Unknown:
            self.memo[k] = Unknown
            raise
        self.memo[k] = v
        return v

    def ev1(self, x):
        d = x.decl().kind()
        if d == z3.Z3_OP_TRUE: return np.full(N, True)
        if d == z3.Z3_OP_FALSE: return np.full(N, False)
        if z3.is_rational_value(x): return np.full(N, float(x.as_fraction()))
        if z3.is_int_value(x): return np.full(N, float(x.as_long()))
        if d == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0: return self.const(x)
        c = [self.ev(y) for y in x.children()]
        if d == z3.Z3_OP_AND: return np.logical_and.reduce(c)
        if d == z3.Z3_OP_OR: return np.logical_or.reduce(c)
        if d == z3.Z3_OP_NOT: return ~c[0]
        if d == z3.Z3_OP_IMPLIES: return ~c[0] | c[1]
        if d == z3.Z3_OP_ITE: return np.where(c[0], c[1], c[2])
        if d == z3.Z3_OP_EQ or d == z3.Z3_OP_IFF: return c[0] == c[1]
        if d == z3.Z3_OP_DISTINCT and len(c) == 2: return c[0] != c[1]
        if d == z3.Z3_OP_XOR: return c[0] ^ c[1]
        if d == z3.Z3_OP_LE: return c[0] <= c[1]
        if d == z3.Z3_OP_LT: return c[0] < c[1]
        if d == z3.Z3_OP_GE: return c[0] >= c[1]
        if d == z3.Z3_OP_GT: return c[0] > c[1]
        if d == z3.Z3_OP_ADD: return sum(c[1:], c[0])
        if d == z3.Z3_OP_SUB: return c[0] - sum(c[2:], c[1]) if len(c) > 1 else c[0]
        if d == z3.Z3_OP_UMINUS: return -c[0]
        if d == z3.Z3_OP_MUL:
            r = c[0]
            for y in c[1:]: r = r * y
            return r
        if d == z3.Z3_OP_TO_REAL: return c[0]
        if d == z3.Z3_OP_POWER: return c[0] ** c[1]
        if d == z3.Z3_OP_DIV: return c[0] / c[1]
        raise Unknown()

    def possible(self, pc, cond):
        """(some valuation on the path satisfies cond, some falsifies it)"""
        try:
            m = np.full(N, True)
            for f in pc:
                m = m & self.ev(f)
                if not m.any(): return (False, False)
            v = self.ev(cond)
            return (bool((m & v).any()), bool((m & ~v).any()))
        except Unknown:
            return (False, False)
        except RecursionError:
            return (False, False)
