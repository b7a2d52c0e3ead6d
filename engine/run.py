#!/usr/bin/env python3
"""run.py PROPERTY...   decide properties of /repo's current working tree."""
import warnings
warnings.filterwarnings('ignore')
import glob, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
REPO = os.environ.get('VF_REPO', '/repo')
CONTRACTS = os.path.join(VERIF, 'contracts')
CLANG = next((c for c in ('/usr/bin/clang++', '/usr/lib/llvm-18/bin/clang++', 'clang++') if os.path.exists(c) or c == 'clang++'))
OPT = next((c for c in ('/usr/bin/opt', '/usr/lib/llvm-18/bin/opt', '/usr/bin/opt-18', 'opt') if os.path.exists(c) or c == 'opt'))
OCC = os.environ.get('VF_OCC', '/usr/include/opencascade')
OCCLIBS = '-lTKBO -lTKTopAlgo -lTKBRep -lTKGeomAlgo -lTKPrim -lTKGeomBase -lTKG3d -lTKG2d -lTKMath -lTKernel -lTKShHealing -lTKBool'.split()


class Harness:
    pass


def directives(src, seen=None):
    """the //@ lines of a contract file and of the local files it includes"""
    seen = set() if seen is None else seen
    if src in seen: return [], {}
    seen.add(src)
    hs, stubs = [], {}
    text = any(l.strip() == '//@ text' for l in open(src))
    for l in open(src):
        m = re.match(r'\s*#include "([^"]+)"', l)
        if m and os.path.exists(os.path.join(CONTRACTS, m.group(1))):
            h2, s2 = directives(os.path.join(CONTRACTS, m.group(1)), seen)
            hs += h2
            stubs.update(s2)
        m = re.match(r'//@ stub (\w+) : (.*)', l)
        if m: stubs[m.group(1)] = m.group(2).strip()
        m = re.match(r'//@ harness (\w+)(.*)', l)
        if m:
            h = Harness()
            h.name = m.group(1)
            txt = m.group(2)
            h.bound = ''
            b = re.search(r'bound="([^"]*)"', txt)
            if b:
                h.bound = b.group(1)
                txt = txt.replace(b.group(0), '')
            h.opts = dict(x.split('=', 1) for x in txt.split())
            if text: h.opts['text'] = '1'
            h.props = h.opts.get('property', '').split(',')
            h.kind = 'bounded' if h.bound else 'proved'
            hs.append(h)
    return hs, stubs


def collect():
    """[(source, harnesses, stubs)]"""
    out = []
    for src in sorted(glob.glob(os.path.join(CONTRACTS, '*.cc'))):
        if src.endswith('vf_native.cc'): continue
        hs, stubs = directives(src)
        for h in hs: h.src = src
        out.append((src, hs, stubs))
    return out


FLAGS = ['-w', '-std=c++17', '-DNDEBUG', '-I' + CONTRACTS, '-I' + REPO, '-I' + OCC]


class BuildError(Exception):
    pass


def build_ir(src, tmp, thorough):
    b = os.path.join(tmp, os.path.basename(src))
    d = ['-DVF_THOROUGH'] if thorough else []
    p = subprocess.run([CLANG] + FLAGS + d + ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-o', b + '.0.ll', src],
                       capture_output=True, text=True)
    if p.returncode: raise BuildError('clang: ' + p.stderr[-3000:])
    p = subprocess.run([OPT, '-S', '-passes=sroa', b + '.0.ll', '-o', b + '.ll'], capture_output=True, text=True)
    if p.returncode: raise BuildError('opt: ' + p.stderr[-2000:])
    return b + '.ll'


def build_native(src, tmp, thorough):
    exe = os.path.join(tmp, os.path.basename(src) + '.exe')
    d = ['-DVF_THOROUGH'] if thorough else []
    p = subprocess.run(['g++'] + FLAGS + d + ['-DVF_NATIVE', '-O1', '-rdynamic', '-o', exe, src, os.path.join(CONTRACTS, 'vf_native.cc')] + OCCLIBS + ['-ldl', '-lpthread'],
                       capture_output=True, text=True)
    if p.returncode: raise BuildError('g++: ' + p.stderr[-3000:])
    return exe


def run_native(exe, h, args, timeout):
    env = dict(os.environ)
    if h.opts.get('throws') == '1': env['VF_THROWS_OK'] = '1'
    d = tempfile.mkdtemp(prefix='vfnat')
    try:
        prog = os.path.join(d, 'progress')
        a = [exe, h.name] + args
        if args[0] == 'random': a.append(prog)
        try:
            p = subprocess.run(a, capture_output=True, text=True, timeout=timeout, env=env, cwd=d, errors='replace')
        except subprocess.TimeoutExpired:
            k = open(prog).read().strip() if os.path.exists(prog) else '?'
            return 'timeout', '', {}, set(), k
        fail, inputs, reached = None, {}, set()
        for l in p.stdout.split('\n'):
            if l.startswith('FAILED '): fail = l[7:]
            elif l.startswith('INPUT '):
                _, n, v = l.rsplit(' ', 2) if l.count(' ') == 2 else ('', l[6:].rsplit(' ', 1)[0], l.rsplit(' ', 1)[1])
                inputs[n.replace('INPUT ', '')] = v
            elif l.startswith('REACHED '): reached.add(l[8:])
        if p.returncode == 0:
            m = re.search(r'RUNS (\d+)', p.stdout)
            return 'ok', p.stdout.strip().split('\n')[0], {}, reached, int(m.group(1)) if m else 0
        if p.returncode == 1 and fail: return 'fail', fail, inputs, reached, None
        k = open(prog).read().strip() if os.path.exists(prog) else '?'
        return 'crash', 'signal/exit %d' % p.returncode, {}, reached, k
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------- proof
def child_discharge(conn, eng, o, budget, variant=0):
    try:
        import prove
        prove.set_variant(variant)
        r = prove.discharge(eng, o.pc, o.goal, budget)
        conn.send(r)
    except BaseException as e:
        conn.send(('unknown', 'error: %r' % (e,), 0.0, None))
    conn.close()
    os._exit(0)


def discharge_forked(eng, o, budget, sem, variant=0):
    with sem:
        a, b = mp.Pipe(False)
        pid = os.fork()
        if pid == 0:
            try: child_discharge(b, eng, o, budget, variant)
            finally: os._exit(1)
        b.close()
        r = ('unknown', 'timeout', budget, None)
        try:
            if a.poll(budget + 25): r = a.recv()
        except EOFError:
            r = ('unknown', 'solver process died', 0.0, None)
        try: os.kill(pid, 9)
        except ProcessLookupError: pass
        os.waitpid(pid, 0)
        return r


def harness_worker(ll, h, stubs, budget, sem, q, deadline, failed):
    """runs in its own process: obligations of one harness"""
    import symex, irparse
    res = dict(name=h.name, error=None, obls=[], funcs=[], stubs=[], externs=[], paths=0, notes=[], gen_s=0.0, checks=0, steps=0)
    try:
        t0 = time.time()
        with sem:
            mod = irparse.Module(open(ll).read())
            eng = symex.Engine(mod, h.opts)
            for s in [x for x in h.opts.get('stubs', '').split(',') if x]:
                if s not in stubs: raise symex.EngineError('unknown contract stub ' + s)
                eng.stub_rx.append((re.compile(stubs[s]), s))
            if h.name not in mod.funcs: raise symex.EngineError('harness not compiled')
            eng.deadline = deadline
            outs = eng.run(symex.State(), h.name, [])
            for o in outs:
                if o.kind == 'throw' and h.opts.get('throws') != '1':
                    eng.obls.append(symex.Obligation('no-exception', list(o.st.pc), False, 'safety', 'an exception leaves the harness: %s' % (o.st.exc[1] if o.st.exc else '')))
            res['paths'] = len(outs)
            res['rets'] = sum(1 for o in outs if o.kind == 'ret')
            res['gen_s'] = time.time() - t0
            res['checks'] = eng.nchecks
            res['steps'] = eng.steps
            dm = lambda n: mod.demangled(n)
            res['funcs'] = sorted({dm(n) for n in eng.funcs_run if 'Frackit::' in dm(n) and not re.match(r'^[^(]*\bstd::', dm(n)) and 'vf::' not in dm(n)})
            res['unused'] = sorted(set(x for x in h.opts.get('stubs', '').split(',') if x) - set(eng.stubs_used.values()))
            res['stubs'] = sorted('%s [%s]' % (k, v) for k, v in eng.stubs_used.items())
            res['externs'] = sorted(x for x in eng.externs_used if not x.startswith('vf_') and not x.startswith('llvm.'))
            res['notes'] = sorted(eng.notes)
        # the stub of a function must exist in the program: otherwise the contract is never used and the
        # obligations are about something else
        threads = []
        lock = threading.Lock()
        src = []    # the obligations in the order of res['obls']

        def work(o):
            g = o.goal
            if g is True:
                r = ('proved', 'simplifier', 0.0, None)
            elif failed.is_set():
                r = ('not attempted (the contract already fails on a concrete run)', '', 0.0, None)
            else:
                b = min(max(15.0, budget / 3), max(5, deadline - time.time()))
                r = discharge_forked(eng, o, b, sem)
            with lock:
                src.append(o)
                res['obls'].append(dict(id=o.id, kind=o.kind, where=o.where, verdict=r[0], backend=r[1], secs=round(r[2], 3), model=r[3],
                                        goal=str(g)[:600] if r[0] != 'proved' else ''))
        # obligations are independent; a small thread pool feeds forked solver processes
        todo = list(eng.obls)
        todo.reverse()

        def loop():
            while True:
                with lock:
                    if not todo: return
                    o = todo.pop()
                work(o)
        import concurrent.futures
        for _ in range(min(8, max(1, len(todo)))):
            t = threading.Thread(target=loop)
            t.start()
            threads.append(t)
        for t in threads: t.join()
        # undecided obligations again: independent attempts (timings and orderings vary), then more effort
        for variants, eff in (((1, 2, 3, 0), 1.0), ((0, 4, 5), 3.0)):
            again = [(k, r, v) for v in variants for k, r in enumerate(res['obls']) if r['verdict'] == 'unknown']
            if not 0 < len(again) <= 24 * len(variants): break
            again.reverse()

            def loop2():
                while True:
                    with lock:
                        if not again: return
                        k, r, variant = again.pop()
                        if res['obls'][k]['verdict'] != 'unknown': continue
                    left = deadline - 60 - time.time()
                    if left < 20 or failed.is_set(): continue
                    v = discharge_forked(eng, src[k], min(eff * budget, left), sem, variant)
                    with lock:
                        if v[0] == 'proved' and res['obls'][k]['verdict'] == 'unknown':
                            res['obls'][k] = dict(r, verdict=v[0], backend=v[1], secs=round(v[2], 3), model=None, goal='')
            threads = [threading.Thread(target=loop2) for _ in range(min(8, len(again)))]
            for t in threads: t.start()
            for t in threads: t.join()
    except (symex.EngineError, irparse.ParseError) as e:
        res['error'] = str(e)[:3000]
    except RecursionError:
        res['error'] = 'recursion limit'
    except BaseException as e:
        res['error'] = traceback.format_exc()[-3000:]
    q.put(res)


def decide(prop, tier, seed):
    t0 = time.time()
    thorough = tier == 'thorough'
    budget = 120.0 if thorough else 45.0
    total = 3000 if thorough else 680
    deadline = t0 + total
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    ctx = mp.get_context('fork')
    sem = ctx.Semaphore(8)
    all_src = [(s, [h for h in hs if prop in h.props], st) for s, hs, st in collect()]
    all_src = [x for x in all_src if x[1]]
    only = os.environ.get('VF_ONLY')
    if only:
        all_src = [(s, [h for h in hs if re.search(only, h.name)], st) for s, hs, st in all_src]
        all_src = [x for x in all_src if x[1]]
    out = dict(results={}, errors=[], native={}, wall=0)
    failed = {h.name: ctx.Event() for _, hl, _ in all_src for h in hl}
    vac = {}
    nsem = threading.Semaphore(8)
    count = '4000' if thorough else '1200'
    try:
        natives = {}
        nthreads = []

        def nb(src, hl):
            try: natives[src] = build_native(src, tmp, thorough)
            except BuildError as e:
                natives[src] = e
                for h in hl: vac[h.name] = ('build', str(e), {}, set(), 0)
                return
            # concrete runs: every harness has to reach each of its assertions on the real code (vacuity guard)
            ts = []
            for h in hl:
                t = threading.Thread(target=vacrun, args=(natives[src], h)); t.start(); ts.append(t)
            for t in ts: t.join()

        def vacrun(exe, h):
            with nsem:
                r = run_native(exe, h, ['random', str(seed), h.opts.get('runs', count)], 240 if thorough else 60)
            if r[0] in ('fail', 'crash', 'timeout') and not any(k[0] == h.name for k in known_findings(prop)): failed[h.name].set()
            vac[h.name] = r
        irs = {}

        def ib(src):
            try: irs[src] = build_ir(src, tmp, thorough)
            except BuildError as e: irs[src] = e
        its = []
        for s, _, _ in all_src:
            a = threading.Thread(target=ib, args=(s,)); a.start(); its.append(a)
        for a in its: a.join()
        for s, hl, _ in all_src:
            b = threading.Thread(target=nb, args=(s, hl)); b.start(); nthreads.append(b)
        q = ctx.Queue()
        procs = {}
        hs = {}
        for s, hl, st in all_src:
            if isinstance(irs[s], BuildError):
                out['errors'].append('%s: %s' % (os.path.basename(s), irs[s]))
                for h in hl: hs[h.name] = h
                continue
            for h in hl:
                hs[h.name] = h
                p = ctx.Process(target=harness_worker, args=(irs[s], h, st, budget * float(h.opts.get('effort', 1)), sem, q, deadline, failed[h.name]))
                p.start()
                procs[h.name] = p
        left = set(procs)
        import queue as Q
        while left:
            try:
                r = q.get(timeout=2)
                out['results'][r['name']] = r
                left.discard(r['name'])
            except Q.Empty:
                for n in list(left):
                    if not procs[n].is_alive() and q.empty():
                        out['results'][n] = dict(name=n, error='verifier process ended (memory?)', obls=[], funcs=[], stubs=[], externs=[], paths=0, notes=[], gen_s=0, checks=0, steps=0)
                        left.discard(n)
                if time.time() > deadline + 60:
                    for n in left:
                        os.kill(procs[n].pid, 9)
                        out['results'][n] = dict(name=n, error='time budget of the check exhausted', obls=[], funcs=[], stubs=[], externs=[], paths=0, notes=[], gen_s=0, checks=0, steps=0)
                    break
        for p in procs.values(): p.join(1)
        for t in nthreads: t.join()
        report(prop, tier, seed, hs, out, natives, vac, t0, deadline, all_src)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) harness=(\S+) obligation=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def find_witness(h, n, r, bad, exe, seed, kf, thorough, deadline):
    """a failing input of the real code for failed obligations: solver models replayed, then random search"""
    if isinstance(exe, BuildError) or not exe: return None
    known = {(k[0], k[1]) for k in kf}
    d = tempfile.mkdtemp(prefix='vfwit')
    try:
        for o in bad:
            if not o['model'] or time.time() > deadline: continue
            f = os.path.join(d, 'in')
            with open(f, 'w') as fh:
                for k, v in o['model'].items(): fh.write('%s %.17g\n' % (k, v))
            w = run_native(exe, h, ['file', f], 20)
            if w[0] == 'fail' and (n, w[1]) not in known:
                return dict(kind='solver counterexample replayed', failed=w[1], inputs=w[2] or o['model'], obligation=o)
            if w[0] == 'crash':
                return dict(kind='solver counterexample replayed', failed='the real code ends with ' + w[1], inputs=o['model'], obligation=o)
        if any((n, k[1]) in known for k in kf): return None
        for k in range(24 if thorough else 6):
            if time.time() > deadline: break
            s = seed + 7919 * (k + 1)
            w = run_native(exe, h, ['random', str(s), h.opts.get('runs', '20000')], 20)
            if w[0] == 'fail':
                return dict(kind='failing input found by search on the failed obligation', failed=w[1], inputs=w[2], obligation=bad[0] if bad else None)
            if w[0] == 'timeout' and 'runs' in h.opts: continue     # slow on purpose, not hanging
            if w[0] in ('crash', 'timeout'):
                return dict(kind='failing run found by search', failed=w[0] + ' ' + w[1], inputs={}, seed=s, run=w[4], obligation=bad[0] if bad else None)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def report(prop, tier, seed, hs, out, natives, vac, t0, deadline, all_src):
    viol, known = [], []
    thorough = tier == 'thorough'
    kf = known_findings(prop)
    tot = dict(obligations=0, discharged=0, bounded_obligations=0, bounded_discharged=0)
    backends, solver_s = {}, 0.0
    funcs, stubs, externs, hrep = set(), set(), set(), []
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    import concurrent.futures
    todo = []
    for n in sorted(hs):
        h = hs[n]
        r = out['results'].get(n)
        if r is None:
            r = dict(name=n, error='; '.join(out['errors'])[:3000] or 'not run', obls=[], funcs=[], stubs=[], externs=[], paths=0, notes=[], gen_s=0, checks=0, steps=0)
        b = h.kind == 'bounded'
        bad = []
        for o in r['obls']:
            tot['bounded_obligations' if b else 'obligations'] += 1
            if o['verdict'] == 'proved':
                tot['bounded_discharged' if b else 'discharged'] += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else: bad.append(o)
            solver_s += o['secs']
        funcs |= set(r['funcs'])
        stubs |= set(r['stubs'])
        externs |= set(r['externs'])
        hrep.append(dict(harness=n, kind=h.kind, bound=h.bound, obligations=len(r['obls']), failed=len(bad), paths=r['paths'], generation_s=round(r['gen_s'], 2),
                         instructions=r['steps'], feasibility_checks=r['checks'], concrete_runs=vac[n][4] if vac[n][0] == 'ok' else vac[n][0]))
        kn = [k for k in kf if k[0] == n]
        rest = []
        for o in bad:
            m = [k for k in kn if k[1] == o['id']]
            if m: known.append('%s: %s' % (n, m[0][2]))
            else: rest.append(o)
        bad = rest
        why = ''
        wit = None
        if r['error']: why = r['error']
        elif bad: why = 'not discharged: ' + ', '.join('%s (%s)' % (o['id'], o['verdict']) for o in bad[:6])
        elif not r['obls']: why = 'no obligations generated'
        # vacuity guard
        k = vac[n]
        want = {o['id'] for o in r['obls'] if o['kind'] == 'post'}
        if k[0] == 'ok':
            miss = {w for w in want if w not in k[3] and not w.startswith('pre:')}
            if not why and ((miss and h.opts.get('reach') != 'any') or not k[4]):
                why = 'not reached by a concrete run of the real code: %s' % (', '.join(sorted(miss)) or 'end of harness')
        elif k[0] == 'fail':
            if (n, k[1]) not in [(x[0], x[1]) for x in kf]:
                wit = dict(kind='failing input found by concrete execution of the contract', failed=k[1], inputs=k[2], obligation=bad[0] if bad else None)
                why = why or 'the contract fails on a concrete run: ' + k[1]
        elif k[0] in ('crash', 'timeout'):
            wit = dict(kind='failing run found by concrete execution of the contract', failed=k[0] + ' ' + k[1], inputs={}, seed=seed, run=k[4], obligation=bad[0] if bad else None)
            why = why or k[0] + ' ' + k[1]
        else:
            why = why or 'native build failed: ' + k[1][-1500:]
        if why: todo.append((n, h, r, bad, wit, why))

    def search(t):
        n, h, r, bad, wit, why = t
        if wit is None: wit = find_witness(h, n, r, bad, natives.get(h.src), seed, kf, thorough, deadline + 100)
        return n, h, r, bad, wit, why
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for n, h, r, bad, wit, why in ex.map(search, todo):
            path = os.path.join(evdir, 'replay-%s-%s.json' % (prop, n))
            doc = dict(property=prop, harness=n, source=os.path.relpath(h.src, VERIF), why=why, witness=wit, failed_obligations=bad[:20], verifier_output=r['error'],
                       how='python3-vt engine/replay.py %s' % os.path.relpath(path, VERIF))
            json.dump(doc, open(path, 'w'), indent=1, default=str)
            viol.append((n, path, wit, why))
    said = set()
    viol.sort(key=lambda v: (v[2] is None, v[0]))
    wall = time.time() - t0
    trusted = ['clang 18 front end and opt -passes=sroa (C++ to LLVM IR); the library is shipped compiled by gcc 13',
               'engine/ (VC generator, exact algebra), z3 5.x, cvc5 1.1.2']
    if externs: trusted.append('contracts of functions outside /repo: ' + '; '.join(sorted(externs)))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if tot['obligations'] else 'other',
              coverage=dict(obligations=tot['obligations'], discharged=tot['discharged'], checker_cmd='python3-vt engine/run.py ' + prop,
                            trusted_base=trusted, bounded_obligations=tot['bounded_obligations'], bounded_discharged=tot['bounded_discharged'],
                            back_ends=backends, solver_s=round(solver_s, 1), functions_under_contract=sorted(funcs), contracts_used_at_call_sites=sorted(stubs),
                            harnesses=hrep, violations=len(viol),
                            explanation='obligations of every harness of this property; bounded ones are counted separately and are not proofs'),
              assumptions=['double arithmetic is real arithmetic: no rounding, overflow, infinities or NaN; a literal denotes the shortest decimal/simple fraction that rounds to it and M_PI denotes pi',
                           'sin, cos, acos, atan are characterised by identities and monotonicity (engine/symex.py)',
                           'std::string and stream contents are not modelled',
                           'memory allocation always succeeds'],
              wall_s=round(wall, 1), violations=len(viol))
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    print('%s: %d harnesses, %d/%d obligations discharged, bounded %d/%d, %.0fs' % (prop, len(hs), tot['discharged'], tot['obligations'],
          tot['bounded_discharged'], tot['bounded_obligations'], wall))
    if '-v' in sys.argv:
        for n in sorted(out['results']):
            if out['results'][n].get('unused'): print('   contracts not used by %s: %s' % (n, ','.join(out['results'][n]['unused'])))
            for o in sorted(out['results'][n]['obls'], key=lambda o: -o['secs'])[:3]:
                if o['secs'] > 4: print('   slow: %s/%s %.1fs %s' % (n, o['id'], o['secs'], o['backend']))
    for k in sorted(set(known)): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for n, path, wit, why in viol:
        w1 = ' '.join(why.split())
        print('failed: harness %s: %s%s' % (n, w1[:400] if w1 not in said else '(as above)', ' | concrete: ' + wit['failed'] if wit else ''))
        said.add(w1)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if wit else ' no-failing-input-found'))
    sys.stdout.flush()
    if viol: sys.exit(1)


def main():
    props = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    code = 0
    for p in props:
        try: decide(p, tier, seed)
        except SystemExit as e: code = max(code, e.code or 0) if not (code == 1) else 1
    sys.exit(code)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':        # same orderings on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    main()
