#!/usr/bin/env python3
"""replay.py FILE: re-run what a VIOLATION line refers to.
With a failing input: builds the contract harness against /repo's current tree and runs it on that input.
Without one: regenerates and re-checks the failed obligations of that harness."""
import json, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run


def main():
    doc = json.load(open(sys.argv[1]))
    src = os.path.join(run.VERIF, doc['source'])
    w = doc.get('witness')
    if not w:
        print('no failing input; failed obligations:')
        for o in doc['failed_obligations']: print(' ', o['id'], o['verdict'], o['where'], o['goal'][:200])
        if doc.get('verifier_output'): print(doc['verifier_output'])
        env = dict(os.environ, VF_ONLY='^%s$' % doc['harness'])
        return subprocess.call([sys.executable, os.path.join(run.HERE, 'run.py'), doc['property']], env=env)
    tmp = tempfile.mkdtemp(prefix='vfreplay')
    try:
        hs, _ = run.directives(src)
        h = next(x for x in hs if x.name == doc['harness'])
        exe = run.build_native(src, tmp, False)
        if w.get('inputs'):
            f = os.path.join(tmp, 'in')
            with open(f, 'w') as o:
                for k, v in w['inputs'].items(): o.write('%s %s\n' % (k, v))
            args = ['file', f]
        else: args = ['random', str(w.get('seed', 1)), str(int(w.get('run') or 0) + 1)]
        r = run.run_native(exe, h, args, 60)
        print(r[0], r[1])
        return 1 if r[0] in ('fail', 'crash', 'timeout') else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__': sys.exit(main())
