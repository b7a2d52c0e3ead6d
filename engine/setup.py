#!/usr/bin/env python3
"""setup: nothing is built ahead (every check rebuilds from /repo); make sure the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, prove, algebra, symex   # noqa: importable
for t in (run.CLANG, run.OPT):
    assert os.path.exists(t), 'missing ' + t
os.makedirs(os.path.join(run.VERIF, 'evidence'), exist_ok=True)
print('ok')
