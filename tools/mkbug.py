#!/usr/bin/python3
"""mkbug.py FILE.py: creates /verif/seeded/<id>/ from a description.

The description defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (C++ source, optional), NP, SH (demo shell body, optional)."""
import json, os, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Compiles demo.cc with the flags of the unit tests and runs it.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$BUILD" || exit 2
ninja libmfmg.a > "$T/log" 2>&1
C=$(ninja -t commands tests/test_hierarchy | grep -- ' -c /repo/tests/test_hierarchy.cc$' | sed 's/ -MD .*//; s/ -O1 / -O0 /')
L=$(ninja -t commands tests/test_hierarchy | tail -1 | sed 's/^: && //; s/ && :$//; s# tests/CMakeFiles/[^ ]*\\.o# '"$T"'/demo.o#; s# -o tests/[^ ]*# -o '"$T"'/demo#')
$C -I/repo/tests -o "$T/demo.o" -c "$D/demo.cc" || exit 2
$L || exit 2
cd "$T"
timeout 200 /usr/bin/mpiexec -n %d "$T/demo"
'''
g = {}
exec(open(sys.argv[1]).read(), g)
d = os.path.join(V, 'seeded', g['ID'])
os.makedirs(d, exist_ok=True)
for f, a, b in g['EDITS']:
    p = os.path.join('/repo', f)
    s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, 'w').write(s.replace(a, b))
patch = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(os.path.join(d, 'patch.diff'), 'w').write(patch)
json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
open(os.path.join(d, 'demo.cc'), 'w').write(g['DEMO'])
sh = os.path.join(d, 'demo.sh')
open(sh, 'w').write(DEMO_SH % g.get('NP', 1))
os.chmod(sh, 0o755)
