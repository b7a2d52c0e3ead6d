#!/usr/bin/env python3
"""plant.py SPEC.py...   creates seeded/<id>/ from a spec: dict(id, property, file|edits, old, new, needs, breaks, demo).
The patch is taken against /repo's HEAD in a scratch worktree; the demo is compiled and run on both trees."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; 1: it does not
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cd "${FRACKIT:-$PWD}" || exit 2
g++ -w -std=c++17 -DNDEBUG -O1 -I. -I/usr/include/opencascade -o "$tmp/demo" "$here/demo.cc" \\
  -lTKBO -lTKTopAlgo -lTKBRep -lTKGeomAlgo -lTKPrim -lTKGeomBase -lTKG3d -lTKG2d -lTKMath -lTKernel -lTKShHealing -lTKBool || exit 3
cd "$tmp" && timeout 120 ./demo
'''


def run(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    for spec in [a for a in sys.argv[1:] if not a.startswith('--')]:
        ns = {}
        exec(open(spec).read(), ns)
        for b in ns['BUGS']:
            d = os.path.join(V, 'seeded', b['id'])
            wt = tempfile.mkdtemp(prefix='plant')
            try:
                run('cp', '-r', '/repo/frackit', wt)
                for f, old, new in b['edits']:
                    p = os.path.join(wt, f)
                    s = open(p).read()
                    assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                    open(p, 'w').write(s.replace(old, new))
                os.makedirs(d, exist_ok=True)
                diff = ''
                for f in sorted({e[0] for e in b['edits']}):
                    r = run('diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/repo/' + f, os.path.join(wt, f))
                    diff += 'diff --git a/%s b/%s\n' % (f, f) + r.stdout
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                open(os.path.join(d, 'demo.cc'), 'w').write(b['demo'].lstrip('\n'))
                open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
                os.chmod(os.path.join(d, 'demo.sh'), 0o755)
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                ok = run('bash', os.path.join(d, 'demo.sh'), cwd='/repo')
                bad = run('bash', os.path.join(d, 'demo.sh'), cwd=wt)
                ap = run('git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff'))
                print(b['id'], 'clean', ok.returncode, 'patched', bad.returncode, 'applies', ap.returncode, ok.stderr[-300:] if ok.returncode else '', bad.stderr[-300:] if bad.returncode > 1 else '', ap.stderr)
                if b.get('check', True) and '--nocheck' not in sys.argv:
                    c = run('python3-vt', os.path.join(V, 'engine', 'run.py'), b['property'], env=dict(os.environ, VF_REPO=wt), cwd=V)
                    print('   check exit', c.returncode, [l[:160] for l in c.stdout.split('\n') if 'VIOLATION' in l or 'failed' in l][:3], flush=True)
            finally:
                shutil.rmtree(wt)


main()
