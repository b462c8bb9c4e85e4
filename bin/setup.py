#!/usr/bin/env python3
"""Checks that the tools are there and that every specification module parses. Builds nothing that a check would reuse."""
import glob, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
d = tempfile.mkdtemp(prefix='verif-setup-')
try:
    for f in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
        r = subprocess.run(['java', '-Djava.io.tmpdir=' + d, '-cp', CP, 'tla2sany.SANY', f], capture_output=True, text=True, cwd=os.path.join(V, 'spec'))
        if r.returncode:
            print(f, r.stdout[-2000:], r.stderr[-2000:])
            sys.exit(1)
    for c in ('g++', 'clang++'):
        subprocess.run([c, '--version'], check=True, stdout=subprocess.DEVNULL)
finally:
    shutil.rmtree(d, ignore_errors=True)
print('specifications parse, tools present')
