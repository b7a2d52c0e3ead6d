"""Exact algebra used to discharge equalities and to simplify the obligations
before they reach the SMT solvers.

Every real term is brought into the normal form N/D over the ring
Q[inputs, generators] where the generators are square roots (S^2 = X, S >= 0) and
absolute values (w^2 = f^2, w >= 0).  Quotients introduced by the generator of
obligations are replaced by their definition a/b; the condition b != 0 under
which that is sound is returned as a side condition and proved separately."""
from fractions import Fraction
import z3

SH = 8            # bits per exponent


class TooBig(Exception):
    pass


LIMIT = 60000


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 3000000: raise TooBig()
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT: raise TooBig()
    return r


def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}


ONE = {0: 1}


def pconst(c):
    if isinstance(c, Fraction) and c.denominator == 1: c = c.numerator
    return {0: c} if c else {}


def pkey(a): return frozenset(a.items())


class Alg:
    def __init__(self, engine):
        self.e = engine
        self.vars = []           # z3 consts
        self.vidx = {}           # name -> index
        self.qdef = {}           # name -> (a, b)
        self.sdef = {}           # name -> x
        self.rules = []          # (lm, poly rest): lm -> rest
        self.gens = {}           # index -> radicand poly   (S^2 = X)
        self.rf = {}             # memo: ast id -> (N, D)
        self.radside = []        # radicands whose sign has to be established
        self.qside = {}          # quotient variable -> side conditions its elimination needs
        self.side = []           # polys that must be nonzero
        self.sidekeys = set()
        self.sgen = []           # (radicand poly, index)
        self.extra = []          # z3 facts about generators
        self.gform = {}          # generator name -> z3 facts
        self.keep = []
        self.itevars = {}
        self.signs = {}          # key of a monic polynomial -> (sign, strict) known on the path

    # ---- variables
    def var(self, v):
        n = v.decl().name()
        i = self.vidx.get(n)
        if i is None:
            i = len(self.vars)
            self.vars.append(v)
            self.vidx[n] = i
        return i

    def mono(self, i, k=1): return k << (SH * i)

    def exps(self, m):
        r = []
        i = 0
        while m:
            k = m & 255
            if k: r.append((i, k))
            m >>= SH
            i += 1
        return r

    def deg(self, m):
        return sum(k for _, k in self.exps(m))

    def divides(self, a, b):
        """does monomial a divide monomial b"""
        while a:
            if (a & 255) > (b & 255): return False
            a >>= SH
            b >>= SH
        return True

    # ---- order: graded, ties by packed value (later variables are larger)
    def lead(self, p):
        return max(p, key=lambda m: (self.deg(m), m))

    def add_rule(self, p):
        """p = 0"""
        p = self.reduce(p)
        if not p or set(p) == {0}: return
        lm = self.lead(p)
        c = p[lm]
        rest = {m: -Fraction(v) / c for m, v in p.items() if m != lm}
        rest = {m: (v.numerator if v.denominator == 1 else v) for m, v in rest.items()}
        self.rules.append((lm, rest))

    def complete(self, maxnew=24, maxterms=80, maxdeg=7):
        """bounded Buchberger completion of the rules: identities that follow from several equations together"""
        done, new = set(), 0
        again = True
        while again and new < maxnew:
            again = False
            for i in range(len(self.rules)):
                for j in range(i):
                    if (j, i) in done: continue
                    done.add((j, i))
                    (la, ra), (lb, rb) = self.rules[i], self.rules[j]
                    ea, eb = dict(self.exps(la)), dict(self.exps(lb))
                    if not set(ea) & set(eb): continue
                    l = 0
                    for v in set(ea) | set(eb): l += max(ea.get(v, 0), eb.get(v, 0)) << (SH * v)
                    if self.deg(l) > maxdeg or len(ra) + len(rb) > maxterms: continue
                    try: s = self.reduce(padd({m + (l - la): c for m, c in ra.items()}, {m + (l - lb): c for m, c in rb.items()}, -1), 40)
                    except TooBig: continue
                    if not s or set(s) == {0}: continue
                    if len(s) > maxterms: continue
                    self.add_rule(s)
                    new += 1
                    again = True
                    if new >= maxnew: return new
        return new

    def reduce(self, p, limit=400):
        """rewrite generators (S^2 -> X) and rules to a fixed point"""
        guard = 0
        while True:
            hit = None
            out = {}
            changed = False
            acc = None
            for m, c in p.items():
                r = self.rewrite_mono(m)
                if r is None:
                    v = out.get(m, 0) + c
                    if v: out[m] = v
                    else: out.pop(m, None)
                else:
                    changed = True
                    rest, repl = r
                    for m2, c2 in repl.items():
                        mm = m2 + rest
                        v = out.get(mm, 0) + c * c2
                        if v: out[mm] = v
                        else: out.pop(mm, None)
            if len(out) > LIMIT: raise TooBig()
            p = out
            guard += 1
            if not changed: return p
            if guard > limit: raise TooBig()

    def rewrite_mono(self, m):
        for i, X in self.gens.items():
            k = (m >> (SH * i)) & 255
            if k >= 2: return (m - (2 << (SH * i)), X)
        for lm, rest in self.rules:
            if self.divides(lm, m): return (m - lm, rest)
        return None

    # ---- rational functions: (N, D) with D = dict{pkey: (poly, exp)}
    def rmul(self, a, b):
        d = dict(a[1])
        for k, (p, e) in b[1].items():
            d[k] = (p, d[k][1] + e) if k in d else (p, e)
        return self.norm(pmul(a[0], b[0]), d)

    def radd(self, a, b, s=1):
        if a[1] == b[1]: return self.norm(padd(a[0], b[0], s), a[1])
        d = dict(a[1])
        for k, (p, e) in b[1].items():
            if k not in d or d[k][1] < e: d[k] = (p, e)
        na, nb = a[0], b[0]
        for k, (p, e) in d.items():
            ea = a[1][k][1] if k in a[1] else 0
            eb = b[1][k][1] if k in b[1] else 0
            for _ in range(e - ea): na = self.reduce(pmul(na, p))
            for _ in range(e - eb): nb = self.reduce(pmul(nb, p))
        return self.norm(padd(na, nb, s), d)

    def norm(self, N, D):
        N = self.reduce(N)
        if not N: return ({}, {})
        # cancel denominators that divide the numerator exactly
        if D:
            D2 = dict(D)
            for k, (p, e) in list(D2.items()):
                while e > 0:
                    q = self.exactdiv(N, p)
                    if q is None: break
                    N = q
                    e -= 1
                if e: D2[k] = (p, e)
                else: del D2[k]
            D = D2
        return (N, D)

    def exactdiv(self, a, b):
        if len(b) == 1:
            (m, c), = b.items()
            if all(self.divides(m, x) for x in a):
                return {x - m: self.q(v, c) for x, v in a.items()}
            # generator in the denominator: nothing to do
            return None
        if len(a) < len(b) or len(a) > 4000: return None
        lb = max(b)          # packed lex order
        cb = b[lb]
        r = dict(a)
        q = {}
        steps = 0
        while r:
            la = max(r)
            if not self.divides(lb, la): return None
            m = la - lb
            c = self.q(r[la], cb)
            q[m] = c
            for x, v in b.items():
                y = x + m
                w = r.get(y, 0) - c * v
                if w: r[y] = w
                else: r.pop(y, None)
            steps += 1
            if steps > 5000: return None
        return q

    @staticmethod
    def q(a, b):
        f = Fraction(a) / b
        return f.numerator if f.denominator == 1 else f

    def psqrt(self, p):
        """k with k*k == p as a polynomial (no reduction), or None"""
        if not p: return {}
        if len(p) > 3000: return None
        import math
        r = dict(p)
        lm = max(r)
        if any(k & 1 for _, k in self.exps(lm)): return None
        c = Fraction(r[lm])
        if c < 0: return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator: return None
        root = {sum((k // 2) << (SH * i) for i, k in self.exps(lm)): self.q(n, d)}
        l0 = next(iter(root))
        c0 = root[l0]
        r = padd(r, pmul(root, root), -1)
        steps = 0
        while r:
            la = max(r)
            if not self.divides(l0, la): return None
            m = la - l0
            if m >= min(root): return None
            c = self.q(r[la], 2 * c0)
            # (root + c m)^2 = root^2 + 2 c m root + c^2 m^2
            t = {m: c}
            r = padd(r, pscale(pmul(root, t), 2), -1)
            r = padd(r, pmul(t, t), -1)
            root[m] = c
            steps += 1
            if steps > 400: return None
        return root

    # ---- term -> rational function
    def need_nonzero(self, p):
        k = pkey(p)
        if k in self.sidekeys or set(p) == {0}: return
        self.sidekeys.add(k)
        self.side.append(p)

    def inv(self, r):
        N, D = r
        if not N: raise TooBig()
        self.need_nonzero(N)
        num = dict(ONE)
        for k, (p, e) in D.items():
            for _ in range(e): num = pmul(num, p)
        num = self.reduce(num)
        if set(N) == {0}: return self.norm(pscale(num, Fraction(1) / N[0]), {})
        # primitive part: pull a single common monomial out
        f = {}
        com = None
        for m in N:
            com = m if com is None else self.mgcd(com, m)
            if com == 0: break
        if com:
            N2 = {m - com: c for m, c in N.items()}
            for i, k in self.exps(com):
                vp = {self.mono(i): 1}
                f[pkey(vp)] = (vp, k)
        else: N2 = N
        if set(N2) == {0}:
            num = pscale(num, Fraction(1) / N2[0])
        else:
            c = N2[max(N2)]
            if c != 1:
                N2 = {m: self.q(v, c) for m, v in N2.items()}
                num = pscale(num, Fraction(1) / c)
            f[pkey(N2)] = (N2, 1)
        num = {m: (c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in num.items()}
        return self.norm(num, f)

    def mgcd(self, a, b):
        r = 0
        i = 0
        while a and b:
            k = min(a & 255, b & 255)
            r |= k << (SH * i)
            a >>= SH
            b >>= SH
            i += 1
        return r

    def term(self, t):
        k = t.get_id()
        r = self.rf.get(k)
        if r is None:
            r = self.term_(t)
            self.rf[k] = r
            self.keep.append(t)
        return r

    def term_(self, t):
        if z3.is_rational_value(t): return (pconst(t.as_fraction()), {})
        if z3.is_int_value(t): return (pconst(Fraction(t.as_long())), {})
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            r = self.term(ch[0])
            for c in ch[1:]: r = self.radd(r, self.term(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.term(ch[0])
            for c in ch[1:]: r = self.radd(r, self.term(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            r = self.term(ch[0])
            return (pscale(r[0], -1), r[1])
        if d == z3.Z3_OP_MUL:
            r = self.term(ch[0])
            for c in ch[1:]: r = self.rmul(r, self.term(c))
            return r
        if d == z3.Z3_OP_DIV:
            return self.rmul(self.term(ch[0]), self.inv(self.term(ch[1])))
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
            n = int(ch[1].as_fraction())
            r = (dict(ONE), {})
            for _ in range(n): r = self.rmul(r, self.term(ch[0]))
            return r
        if d == z3.Z3_OP_UNINTERPRETED and not ch:
            n = t.decl().name()
            if n in self.e.qterm:
                a, b = self.e.qterm[n]
                rb = self.term(b)
                self.qside[n] = 'const' if set(rb[0]) == {0} else pkey(rb[0])
                return self.rmul(self.term(a), self.inv(rb))
            if n in self.e.nterm: return self.term(self.e.nterm[n])
            if n in self.e.sterm:
                x = self.e.sterm[n]
                if not self.sos(x): self.radside.append(x)
                return self.sqrt(x)
            return ({self.mono(self.var(t)): 1}, {})
        if d == z3.Z3_OP_ITE:
            c, x, y = ch
            # |x|
            cv = self.cond(c)
            if cv is True: return self.term(x)
            if cv is False: return self.term(y)
            rx, ry = self.term(x), self.term(y)
            if rx[1] == ry[1] and rx[0] == ry[0]: return rx
            kk = ('ite', c.get_id(), pkey(rx[0]), tuple(sorted((hash(a), b[1]) for a, b in rx[1].items())), pkey(ry[0]))
            v = self.itevars.get(kk)
            if v is None:
                v = z3.Real('ite!%d' % len(self.itevars))
                self.itevars[kk] = v
                i = self.var(v)
                cf = self.form(c)
                fx, fy = self.back(rx), self.back(ry)
                self.gform[v.decl().name()] = [z3.If(cf, self.eqform(v, rx), self.eqform(v, ry))]
                # absolute value: w^2 = x^2
                if not rx[1] and not ry[1]:
                    if padd(rx[0], ry[0]) == {}: self.gens[i] = self.reduce(pmul(rx[0], rx[0]))
            return ({self.mono(self.var(v)): 1}, {})
        # opaque term
        v = z3.Real('opq!%d' % t.get_id())
        self.keep.append(t)
        if v.decl().name() not in self.gform: self.gform[v.decl().name()] = [v == t]
        return ({self.mono(self.var(v)): 1}, {})

    def sos(self, x):
        """syntactically nonnegative: sums of squares, roots, nonnegative constants and products of those"""
        if z3.is_rational_value(x): return x.as_fraction() >= 0
        d = x.decl().kind()
        ch = x.children()
        if d == z3.Z3_OP_ADD: return all(self.sos(c) for c in ch)
        if d == z3.Z3_OP_MUL:
            ids = [c.get_id() for c in ch]
            odd = [c for c in ch if ids.count(c.get_id()) % 2]
            return all(self.sos(c) for c in odd)
        if d == z3.Z3_OP_POWER: return z3.is_rational_value(ch[1]) and ch[1].as_fraction() % 2 == 0
        if d == z3.Z3_OP_UNINTERPRETED and not ch: return x.decl().name() in self.e.sterm
        return False

    def eqform(self, v, r):
        """v == N/D with D cleared"""
        N, D = r
        l = v
        for k, (p, e) in D.items():
            for _ in range(e): l = l * self.pz3(p)
        return l == self.pz3(N)

    def learn(self, f):
        """record the sign of a polynomial from a path fact (no divisor may have been eliminated from it)"""
        neg = False
        while z3.is_not(f):
            neg = not neg
            f = f.children()[0]
        d = f.decl().kind()
        if d not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT): return
        ch = f.children()
        if ch[0].sort().kind() != z3.Z3_REAL_SORT: return
        try: N, D = self.radd(self.term(ch[0]), self.term(ch[1]), -1)
        except TooBig: return
        if D or not N or set(N) == {0}: return
        sg, strict = {z3.Z3_OP_LE: (-1, False), z3.Z3_OP_LT: (-1, True), z3.Z3_OP_GE: (1, False), z3.Z3_OP_GT: (1, True)}[d]
        if neg: sg, strict = -sg, not strict
        c = N[max(N)]
        n = {m: self.q(v, c) for m, v in N.items()}
        if c < 0: sg = -sg
        k = pkey(n)
        old = self.signs.get(k)
        if old is None or (strict and not old[1]): self.signs[k] = (sg, strict)

    def sign(self, p):
        """(sign, strict) of a polynomial as far as path facts tell, else None"""
        if not p: return None
        if set(p) == {0}: return (1 if p[0] > 0 else -1, True)
        c = p[max(p)]
        r = self.signs.get(pkey({m: self.q(v, c) for m, v in p.items()})) if self.signs else None
        if r: return (r[0] if c > 0 else -r[0], r[1])
        g = None
        for m in p: g = m if g is None else self.mgcd(g, m)
        if g:
            a = self.msign(g)
            if a is None: return None
            rest = {m - g: v for m, v in p.items()}
            b = self.sign(rest)
            if b is None: return None
            return (a[0] * b[0], a[1] and b[1])
        # every term of the same sign
        out = None
        strict = False
        for m, v in p.items():
            a = self.msign(m) if m else (1, True)
            if a is None: return None
            sg = a[0] if v > 0 else -a[0]
            if out is None: out = sg
            if sg != out: return None
            strict = strict or a[1]
        return (out, strict)

    def msign(self, m):
        """sign of a monomial"""
        sg, strict = 1, True
        for i, k in self.exps(m):
            n = self.vars[i].decl().name()
            if n.startswith(('S!', 'abs!')): a = (1, False)
            else: a = None
            r = self.signs.get(pkey({self.mono(i): 1})) if self.signs else None
            if r: a = r
            if k % 2 == 0: a = (1, bool(a and r and r[1]))
            if a is None: return None
            if k % 2: sg *= a[0]
            strict = strict and a[1]
        return (sg, strict)

    def absvar(self, p):
        """|p| as a polynomial"""
        if set(p) <= {0}: return {0: abs(p.get(0, 0))} if p else {}
        if self.signs:
            sg = self.sign(p)
            if sg: return p if sg[0] > 0 else pscale(p, -1)
        if len(p) == 1:
            (m, c), = p.items()
            if all(i in self.gens and self.vars[i].decl().name().startswith('S!') or k % 2 == 0 for i, k in self.exps(m)):
                return {m: abs(c)}
        c = p[max(p)]
        n = {m: self.q(v, c) for m, v in p.items()}
        k = ('abs', pkey(n))
        v = self.itevars.get(k)
        if v is None:
            v = z3.Real('abs!%d' % len(self.itevars))
            self.itevars[k] = v
            i = self.var(v)
            z = self.pz3(n)
            self.gform[v.decl().name()] = [z3.If(z >= 0, v == z, v == -z)]
            self.gens[i] = self.reduce(pmul(n, n))
        return {self.mono(self.var(v)): abs(c)}

    def sqrt(self, x):
        N, D = self.term(x)
        if not N: return ({}, {})
        if set(N) == {0} and not D:
            c = Fraction(N[0])
            import math
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator: return (pconst(Fraction(n, d)), {})
        # sqrt(N/D) : make all denominator exponents even
        outD = {}
        for k, (p, e) in D.items():
            if e % 2:
                N = self.reduce(pmul(N, p))
                e += 1
            a = self.absvar(p)
            outD[k] = (a, e // 2)
        D2 = {}
        scale = Fraction(1)
        for k, (a, e) in outD.items():
            D2[pkey(a)] = (a, e)
        # square monomial content comes out as an absolute value
        g = None
        for m in N: g = m if g is None else self.mgcd(g, m)
        h = 0
        if g and len(N) > 1:
            for i, k in self.exps(g): h += self.mono(i, k // 2)
        if h:
            N = {m - 2 * h: v for m, v in N.items()}
            R, RD = self.sqrtpoly(N, D2)
            return self.norm(self.reduce(pmul(self.absvar({h: 1}), R)), RD)
        R, RD = self.sqrtpoly(N, D2)
        return self.norm(R, RD)

    def sqrtpoly(self, N, D2):
        # known radicands
        for X, i in self.sgen:
            q = None
            if pkey(X) == pkey(N): q = ONE
            else:
                q = self.exactdiv(N, X)
                if q is None:
                    # also try the other direction: X = N * q
                    continue
            k = self.psqrt(q)
            if k is not None:
                return (pmul(self.absvar(k) if k else {}, {self.mono(i): 1}), D2)
        k = self.psqrt(N)
        if k is not None: return (self.absvar(k), D2)
        # new generator, content made square free as far as monomial content goes
        v = z3.Real('S!%d' % len(self.sgen))
        i = self.var(v)
        self.gens[i] = N
        self.sgen.append((N, i))
        X = self.pz3(N)
        self.gform[v.decl().name()] = [v >= 0, z3.Or(X < 0, v * v == X)]
        return ({self.mono(i): 1}, D2)

    # ---- back to z3
    def pz3(self, p):
        if not p: return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            c = Fraction(c)
            fs = []
            for i, k in self.exps(m): fs += [self.vars[i]] * k
            if c != 1 or not fs: fs = [z3.Q(c.numerator, c.denominator)] + fs
            ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]

    def back(self, r):
        return self.pz3(r[0])

    # ---- formulas
    def cond(self, f):
        """True/False when the normal form decides f, else None"""
        try:
            g = self.form(f)
        except TooBig:
            return None
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        return None

    def form(self, f):
        k = ('f', f.get_id())
        r = self.rf.get(k)
        if r is None:
            r = self.form_(f)
            self.rf[k] = r
            self.keep.append(f)
        return r

    def form_(self, f):
        d = f.decl().kind()
        ch = f.children()
        if d == z3.Z3_OP_AND: return z3.simplify(z3.And(*[self.form(c) for c in ch]))
        if d == z3.Z3_OP_OR: return z3.simplify(z3.Or(*[self.form(c) for c in ch]))
        if d == z3.Z3_OP_NOT: return z3.simplify(z3.Not(self.form(ch[0])))
        if d == z3.Z3_OP_IMPLIES: return z3.simplify(z3.Implies(self.form(ch[0]), self.form(ch[1])))
        if d == z3.Z3_OP_XOR: return z3.simplify(z3.Xor(self.form(ch[0]), self.form(ch[1])))
        if d == z3.Z3_OP_ITE: return z3.simplify(z3.If(*[self.form(c) for c in ch]))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and ch[0].sort().kind() == z3.Z3_BOOL_SORT:
            a, b = self.form(ch[0]), self.form(ch[1])
            return z3.simplify(a == b if d == z3.Z3_OP_EQ else a != b)
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and \
                ch[0].sort().kind() == z3.Z3_REAL_SORT and len(ch) == 2:
            # a negated iff etc. keeps its structure; only the difference is normalised
            N, D = self.radd(self.term(ch[0]), self.term(ch[1]), -1)
            if not N: return z3.BoolVal(d in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE))
            if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                if set(N) == {0}: return z3.BoolVal(d == z3.Z3_OP_DISTINCT)
                z = self.pz3(N) == 0
                return z if d == z3.Z3_OP_EQ else z3.Not(z)
            # sign of N/D: multiply by the odd part of D (nonzero by the side condition)
            for k, (p, e) in D.items():
                if e % 2 and not self.surely_nonneg(p): N = self.reduce(pmul(N, p))
            if not N: return z3.BoolVal(d in (z3.Z3_OP_LE, z3.Z3_OP_GE))
            if set(N) == {0}:
                c = N[0]
                return z3.BoolVal({z3.Z3_OP_LE: c <= 0, z3.Z3_OP_LT: c < 0, z3.Z3_OP_GE: c >= 0, z3.Z3_OP_GT: c > 0}[d])
            if self.signs:
                sg = self.sign(N)
                if sg:
                    if d == z3.Z3_OP_LT and sg[0] > 0 or d == z3.Z3_OP_GT and sg[0] < 0: return z3.BoolVal(False)
                    if d == z3.Z3_OP_GE and sg[0] > 0 or d == z3.Z3_OP_LE and sg[0] < 0: return z3.BoolVal(True)
                    if sg[1]: return z3.BoolVal(d == z3.Z3_OP_GT and sg[0] > 0 or d == z3.Z3_OP_LT and sg[0] < 0)
            # drop a common factor that is surely positive (a generator that is nonzero by side condition is not
            # known here, so keep it)
            z = self.pz3(N)
            return {z3.Z3_OP_LE: z <= 0, z3.Z3_OP_LT: z < 0, z3.Z3_OP_GE: z >= 0, z3.Z3_OP_GT: z > 0}[d]
        return f

    def surely_nonneg(self, p):
        if len(p) != 1: return False
        (m, c), = p.items()
        return c > 0 and all(k % 2 == 0 or self.vars[i].decl().name().startswith(('S!', 'abs!')) for i, k in self.exps(m))

    def facts_for(self, forms):
        """facts about generators occurring (transitively) in the formulas"""
        out, done = [], set()
        todo = set()
        for f in forms: todo |= self.e.fvars(f)
        while todo:
            n = todo.pop()
            if n in done: continue
            done.add(n)
            for f in self.gform.get(n, ()):
                out.append(f)
                todo |= self.e.fvars(f) - done
        return out
