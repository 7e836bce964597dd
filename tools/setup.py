#!/usr/bin/env python3
"""Checks that the tools are there and that the specifications parse. Nothing is kept."""
import glob
import os
import subprocess
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for tool in ('java', 'clang++-18'):
    if subprocess.run(['which', tool], stdout=subprocess.DEVNULL).returncode:
        print('missing: ' + tool)
        bad = 1
mods = sorted(glob.glob(os.path.join(root, 'spec', '*.tla')))
r = subprocess.run(['java', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
                    'tla2sany.SANY'] + [os.path.basename(m) for m in mods], cwd=os.path.join(root, 'spec'),
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode or 'rrors:' in r.stdout:
    print(r.stdout[-3000:])
    bad = 1
os.makedirs(os.path.join(root, 'evidence'), exist_ok=True)
print('setup: %d modules parsed' % len(mods))
sys.exit(bad)
