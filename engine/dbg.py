#!/usr/bin/env python3
"""dbg.py FILE.cc HARNESS [OBLIGATION]: prints what the solver sees (development aid)"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import run, irparse, symex, prove, tempfile, z3
src = os.path.join(run.CONTRACTS, sys.argv[1])
hs, stubs = run.directives(src)
h = next(x for x in hs if x.name == sys.argv[2])
tmp = tempfile.mkdtemp()
mod = irparse.Module(open(run.build_ir(src, tmp, False)).read())
eng = symex.Engine(mod, h.opts)
for s in [x for x in h.opts.get('stubs', '').split(',') if x]: eng.stub_rx.append((re.compile(stubs[s]), s))
import time
eng.deadline = time.time() + 600
outs = eng.run(symex.State(), h.name, [])
print([ (o.kind, o.st.exc if o.kind=='throw' else '') for o in outs][:20], len(eng.obls))
for o in eng.obls:
    if len(sys.argv) > 3 and not re.search(sys.argv[3], o.id): continue
    print('==', o.id, o.kind, o.where)
    print('PC:'); [print('   ', f) for f in o.pc]
    print('GOAL:', o.goal)
    if not isinstance(o.goal, bool):
        b = list(o.pc) + [z3.Not(o.goal)]
        print('OPAQUE CONE:'); [print('   ', f) for f in eng.cone(b, opaque=True)]
    if len(sys.argv) > 4: print(prove.discharge(eng, o.pc, o.goal, float(sys.argv[4]))[:3])
