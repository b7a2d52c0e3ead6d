"""Discharging one obligation: exact algebra first, then z3 and cvc5."""
import random
import time
from fractions import Fraction
import z3
import algebra


def flatten(fs):
    out = []
    for f in fs:
        if z3.is_and(f): out.extend(flatten(f.children()))
        else: out.append(f)
    return out


VARIANT = 0


def set_variant(k):
    """another ordering of the hypotheses and other solver seeds: independent attempts at the same obligation"""
    global VARIANT
    VARIANT = k
    if k:
        z3.set_param('smt.random_seed', k)
        z3.set_param('sat.random_seed', k)
        z3.set_param('nlsat.seed', k)


def shuffled(fs):
    if not VARIANT: return fs
    fs = list(fs)
    random.Random(VARIANT).shuffle(fs)
    return fs


def z3check(fs, ms, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(ms))
    for f in shuffled(fs): s.add(f)
    r = str(s.check())
    return r, (s.model() if r == 'sat' else None)


def model_of(engine, mo):
    d = {}
    for n, v, k in engine.inputs:
        x = mo.eval(v, model_completion=True)
        if k == 'B': d[n] = 1.0 if z3.is_true(x) else 0.0
        elif z3.is_int_value(x): d[n] = float(x.as_long())
        elif z3.is_rational_value(x):
            d[n] = float(x.as_fraction())
        elif z3.is_algebraic_value(x):
            d[n] = float(x.approx(20).as_fraction())
        else: d[n] = 0.0
    return d


class Linear:
    """abstraction of real arithmetic to linear arithmetic over monomials (sound for unsat)"""
    def __init__(self):
        self.memo, self.keep, self.atoms, self.monos, self.facts = {}, [], {}, {}, []

    def atom(self, t):
        k = t.get_id()
        if k not in self.atoms:
            self.keep.append(t)
            if t.decl().arity() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: v = t
            elif z3.is_app_of(t, z3.Z3_OP_ITE):
                v = z3.Real('lin!ite!%d' % k)
                c, x, y = t.children()
                self.facts.append(z3.If(self.form(c), v == self.lin(x), v == self.lin(y)))
            else: v = z3.Real('lin!op!%d' % k)
            self.atoms[k] = v
        return k

    def poly(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is not None: return r
        self.keep.append(t)
        d = t.decl().kind()
        ch = t.children()
        one = ()
        if z3.is_rational_value(t): r = {one: t.as_fraction()} if t.as_fraction() else {}
        elif z3.is_int_value(t): r = {one: t.as_long()} if t.as_long() else {}
        elif d == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                for m, v in self.poly(c).items():
                    x = r.get(m, 0) + v
                    if x: r[m] = x
                    else: r.pop(m, None)
        elif d == z3.Z3_OP_SUB:
            r = dict(self.poly(ch[0]))
            for c in ch[1:]:
                for m, v in self.poly(c).items():
                    x = r.get(m, 0) - v
                    if x: r[m] = x
                    else: r.pop(m, None)
        elif d == z3.Z3_OP_UMINUS: r = {m: -v for m, v in self.poly(ch[0]).items()}
        elif d == z3.Z3_OP_MUL:
            r = {one: 1}
            for c in ch: r = self.mul(r, self.poly(c))
        elif d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and 0 < ch[1].as_fraction() < 8:
            r = {one: 1}
            for _ in range(int(ch[1].as_fraction())): r = self.mul(r, self.poly(ch[0]))
        elif d == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]) and ch[1].as_fraction() != 0:
            q = 1 / ch[1].as_fraction()
            r = {m: v * q for m, v in self.poly(ch[0]).items()}
        else: r = {(self.atom(t),): 1}
        self.memo[k] = r
        return r

    def mul(self, a, b):
        if len(a) * len(b) > 4000: raise algebra.TooBig()
        r = {}
        for m, v in a.items():
            for n, w in b.items():
                k = tuple(sorted(m + n))
                x = r.get(k, 0) + v * w
                if x: r[k] = x
                else: r.pop(k, None)
        return r

    def mono(self, m):
        if len(m) == 1: return self.atoms[m[0]]
        v = self.monos.get(m)
        if v is None:
            v = self.monos[m] = z3.Real('lin!m!%d' % len(self.monos))
            if all(m.count(x) % 2 == 0 for x in set(m)): self.facts.append(v >= 0)
        return v

    def signfacts(self, cap=80):
        """signs of products from the signs of their factors"""
        ms = [m for m in self.monos if len(m) <= 6]
        if len(ms) > cap: return []
        out = []

        def prod(m):
            if len(m) == 1: return self.atoms[m[0]]
            new = m not in self.monos
            v = self.mono(m)
            if (m, 's') in done: return v
            done.add((m, 's'))
            # strip a square first: its sign is known
            sq = next((x for x in m if m.count(x) >= 2), None)
            if sq is not None and len(m) > 2:
                l = list(m)
                l.remove(sq)
                l.remove(sq)
                x, y = self.mono((sq, sq)), prod(tuple(l))
                out.append(x >= 0)
                out.append((x == 0) == (self.atoms[sq] == 0))
            elif sq is not None:
                out.append((v == 0) == (self.atoms[sq] == 0))
                return v
            else: x, y = self.atoms[m[0]], prod(m[1:])
            out.append(z3.If(z3.Or(x == 0, y == 0), v == 0, (v > 0) == ((x > 0) == (y > 0))))
            return v
        done = set()
        for m in ms: prod(m)
        return out

    def fromp(self, p):
        ts = []
        for m, c in p.items():
            q = z3.Q(c.numerator, c.denominator)
            ts.append(q if not m else q * self.mono(m))
        return z3.Sum(*ts) if ts else z3.RealVal(0)

    def lin(self, t): return self.fromp(self.poly(t))

    def form(self, f):
        d = f.decl().kind()
        ch = f.children()
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and len(ch) == 2 and ch[0].sort().kind() == z3.Z3_REAL_SORT:
            p = dict(self.poly(ch[0]))
            for m, v in self.poly(ch[1]).items():
                x = p.get(m, 0) - v
                if x: p[m] = x
                else: p.pop(m, None)
            # canonical scale
            if p:
                c = p[max(p)]
                if c < 0: d = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(d, d)
                p = {m: Fraction(v) / c for m, v in p.items()}
            l = self.fromp(p)
            return {z3.Z3_OP_EQ: lambda: l == 0, z3.Z3_OP_DISTINCT: lambda: l != 0, z3.Z3_OP_LE: lambda: l <= 0, z3.Z3_OP_LT: lambda: l < 0,
                    z3.Z3_OP_GE: lambda: l >= 0, z3.Z3_OP_GT: lambda: l > 0}[d]()
        if d == z3.Z3_OP_AND: return z3.And(*[self.form(c) for c in ch])
        if d == z3.Z3_OP_OR: return z3.Or(*[self.form(c) for c in ch])
        if d == z3.Z3_OP_NOT: return z3.Not(self.form(ch[0]))
        if d == z3.Z3_OP_IMPLIES: return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if d == z3.Z3_OP_XOR: return z3.Xor(self.form(ch[0]), self.form(ch[1]))
        if d == z3.Z3_OP_ITE: return z3.If(*[self.form(c) for c in ch])
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2 and ch[0].sort().kind() == z3.Z3_BOOL_SORT:
            return (self.form(ch[0]) == self.form(ch[1])) if d == z3.Z3_OP_EQ else z3.Xor(self.form(ch[0]), self.form(ch[1]))
        return f


def lincheck(fs, ms=1500):
    """unsat after abstracting nonlinear monomials"""
    L = Linear()
    try: gs = [L.form(f) for f in fs]
    except algebra.TooBig: return False
    n = 0
    out = list(gs)
    while n < len(L.facts):        # facts may introduce further ones
        n = len(L.facts)
    out += L.facts
    try:
        if z3check(out, ms)[0] == 'unsat': return True
        sf = L.signfacts()
        return bool(sf) and z3check(out + sf + L.facts, ms)[0] == 'unsat'
    except z3.Z3Exception: return False


def size(f, cap, seen=None):
    """number of nodes of a formula (up to cap)"""
    n, todo = 0, [f]
    while todo and n < cap:
        n += 1
        todo.extend(todo.pop().children())
    return n


class NormalForm:
    """normalised version of (pc |- goal)"""
    def __init__(self, engine, pc, goal, completion=True):
        self.a = a = algebra.Alg(engine)
        pc = flatten(pc)
        # equations between inputs become rewrite rules
        eqs, rest = [], []
        for f in pc:
            if z3.is_eq(f) and f.children()[0].sort().kind() == z3.Z3_REAL_SORT: eqs.append(f)
            else: rest.append(f)
        self.pc = []
        for f in eqs:
            try:
                N, D = a.radd(a.term(f.children()[0]), a.term(f.children()[1]), -1)
            except algebra.TooBig:
                continue
            if N:
                self.pc.append((a.pz3(N) == 0, self.deps(engine, f)))
                a.add_rule(N)
                a.rf.clear()
        if completion and a.complete(): a.rf.clear()
        for f in rest:
            try: self.pc.append((a.form(f), self.deps(engine, f)))
            except algebra.TooBig: pass
        self.defs = []
        # signs known on the path decide absolute values and conditions in the goal; facts about eliminated
        # quotients are left out (their normal form presupposes a nonzero divisor)
        for f in rest:
            if not self.deps(engine, f): a.learn(f)
        if a.signs:
            a.rf.clear()
        self.goal = a.form(goal)
        # engine facts about non-eliminated variables (trigonometry, bounds)
        names = set()
        for f in pc + [goal]: names |= engine.fvars(f)
        done = set()
        while names:
            n = names.pop()
            if n in done: continue
            done.add(n)
            fs = engine.defs.get(n, ())
            for f in fs:
                names |= engine.fvars(f) - done
                if n in engine.qterm or n in engine.sterm or n in engine.nterm: continue
                try: self.defs.append((a.form(f), self.deps(engine, f)))
                except algebra.TooBig: self.defs.append((f, set()))

    def deps(self, engine, f):
        """the quotient variables whose elimination f's normal form relies on"""
        out, done, todo = set(), set(), set(engine.fvars(f))
        while todo:
            n = todo.pop()
            if n in done: continue
            done.add(n)
            if n in engine.qterm:
                out.add(n)
                for t in engine.qterm[n]: todo |= engine.fvars(t) - done
            if n in engine.sterm: todo |= engine.fvars(engine.sterm[n]) - done
            if n in engine.nterm: todo |= engine.fvars(engine.nterm[n]) - done
        return out

    def hyps(self, extra=(), proved=None):
        """normalised hypotheses; with `proved` only those relying on divisors already proved nonzero"""
        fs = []
        for f, d in self.pc + self.defs:
            if z3.is_true(f): continue
            if proved is not None and any(self.a.qside.get(q) != 'const' and self.a.qside.get(q) not in proved for q in d): continue
            fs.append(f)
        return fs + self.a.facts_for(fs + list(extra))

    def side_conditions(self):
        return list(self.a.side)


def discharge(engine, pc, goal, budget=30.0, use_cvc5=True):
    """returns (verdict, backend, seconds, model) with verdict in proved / refuted / unknown"""
    t0 = time.time()
    el = lambda: time.time() - t0
    if isinstance(goal, bool):
        if goal: return 'proved', 'simplifier', el(), None
        goal = z3.BoolVal(False)
    pc = shuffled(pc)
    base = list(pc) + engine.cone(list(pc) + [goal])
    neg = z3.Not(goal)
    basen = list(pc) + [neg]
    full = basen + engine.cone(basen)
    # 1. quotients and roots as opaque symbols, products as symbols
    op = basen + engine.cone(basen, opaque=True)
    if lincheck(op): return 'proved', 'z3', el(), None
    if engine.nterm:
        small = [f for f in pc if size(f, 80) < 80] + [neg]
        small += engine.cone(small, opaque=2)
        if z3check(small, 2000)[0] == 'unsat': return 'proved', 'z3', el(), None
    r, m = z3check(full, 1500)
    if r == 'unsat': return 'proved', 'z3', el(), None
    if r == 'sat': return 'refuted', 'z3', el(), model_of(engine, m)
    # 2. exact algebra
    nf = None
    try:
        try: nf = NormalForm(engine, pc, goal)
        except algebra.TooBig: nf = NormalForm(engine, pc, goal, False)
        g = nf.goal
        ok = None
        if z3.is_true(g): ok = 'algebra'
        else:
            h = nf.hyps([g])
            nz = [nf.a.pz3(p) != 0 for p in nf.side_conditions()]
            q = h + nz + [z3.Not(g)]
            if lincheck(q): ok = 'algebra+z3'
            if not ok:                     # the small hypotheses first
                hs = [f for f in h if size(f, 60) < 60]
                if len(hs) < len(h):
                    qs = hs + nz + [z3.Not(g)]
                    if lincheck(qs) or z3check(qs, 3000)[0] == 'unsat': ok = 'algebra+z3'
            for ms, tac in ((4000, None), (6000, 'qfnra-nlsat')):
                if ok: break
                try: r, m = z3check(q, min(ms, 1000 * max(1, budget - el())), tac)
                except z3.Z3Exception: continue
                if r == 'unsat':
                    ok = 'algebra+z3'
                    break
                if r == 'sat': break
            if ok is None and use_cvc5:
                r2 = cvc5check(q, min(10, budget - el()))
                if r2 == 'unsat': ok = 'algebra+cvc5'
        if ok:
            # soundness of replacing quotients: every divisor is nonzero on this path
            todo = nf.side_conditions()
            proved = set()
            while todo:
                left = [p for p in todo if not prove_nonzero(engine, nf, p, budget - el(), proved)]
                for p in todo:
                    if p not in left: proved.add(algebra.pkey(p))
                if len(left) == len(todo): break
                todo = left
            if not todo:
                # every root has a nonnegative radicand on this path
                for x in nf.a.radside:
                    fs = list(pc) + [x < 0]
                    if z3check(fs + engine.cone(fs), 3000)[0] != 'unsat':
                        todo = [x]
                        break
            if not todo: return 'proved', ok, el(), None
    except algebra.TooBig:
        pass
    # 3. more effort on the original problem
    if use_cvc5 and budget - el() > 2:
        r = cvc5check(full, min(15, budget - el()))
        if r == 'unsat': return 'proved', 'cvc5', el(), None
    rem = budget - el()
    if rem > 1:
        for tac, fr in ((None, 0.6), ('qfnra-nlsat', 1.0)):
            try: r, m = z3check(full, max(500, 1000 * (budget - el()) * fr), tac)
            except z3.Z3Exception: continue
            if r == 'unsat': return 'proved', 'z3', el(), None
            if r == 'sat': return 'refuted', 'z3', el(), model_of(engine, m)
            if budget - el() < 1: break
    return 'unknown', '', el(), None


def prove_nonzero(engine, nf, p, budget, proved):
    """p != 0 from the path condition, using only divisors proved nonzero before"""
    a = nf.a
    if len(p) == 1:
        (m, c), = p.items()
        for i, k in a.exps(m):
            if i in a.gens:          # a root or absolute value vanishes iff its radicand does
                if not prove_pos(engine, nf, a.gens[i], budget, proved): return False
            elif not prove_pos(engine, nf, {a.mono(i): 1}, budget, proved): return False
        return True
    return prove_pos(engine, nf, p, budget, proved)


def prove_pos(engine, nf, X, budget, proved):
    a = nf.a
    f = a.pz3(X) == 0
    h = nf.hyps([f], proved) + [f]
    r, _ = z3check(h, min(4000, max(500, budget * 500)))
    if r == 'unsat': return True
    if r == 'sat': return False
    return cvc5check(h, 5) == 'unsat'


def cvc5check(fs, secs):
    if secs <= 0.5: return 'unknown'
    import subprocess, tempfile, os
    s = z3.Solver()
    for f in shuffled(fs): s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    txt = txt.replace('(set-logic ALL)\n(set-logic', '(set-logic')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 5)
        o = p.stdout.strip().split('\n')[0] if p.stdout else ''
        return o if o in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(f.name)
