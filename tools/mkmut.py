#!/usr/bin/env python3
"""mkmut.py name: leaves a copy of /repo's sources with the named edit of mutants.py in /tmp/mu (debugging aid)."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mt
sys.modules['mt'] = mt
import mutants
shutil.rmtree('/tmp/mu', ignore_errors=True)
shutil.copytree('/repo/src', '/tmp/mu/src')
for n, p, pairs in mt.M:
    if n == sys.argv[1]:
        print(mt.apply('/tmp/mu', pairs) or 'ok')
        break
