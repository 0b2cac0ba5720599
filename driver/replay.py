#!/opt/veriftools/pyvenv/bin/python
"""replay.py FILE: runs the recorded case(s) of a replay file without any generator."""
import json
import os
import shutil
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B  # noqa: E402
from run_check import evaluate, spec_of  # noqa: E402
from worker import Worker  # noqa: E402

v = json.load(open(sys.argv[1]))
spec = spec_of(v['property'])
exe, _ = B.build(getattr(spec, 'BIN', v['property']), spec.SRC, spec.GROUP, getattr(spec, 'PCH', True))
base = tempfile.mkdtemp(prefix='vf', dir='/tmp')
w = Worker(exe, v.get('np', 1), base, v.get('threads', 1))
bad = 0
try:
    for c in v['history']:
        r = evaluate(spec, w, c, v.get('np', 1), 120)
        print('FAIL' if r['fails'] else 'ok', json.dumps(c)[:1000], r['labels'], round(r['sec'], 3))
        if '-l' in sys.argv:
            print(w.tail(int(1e6)))
        if '-v' in sys.argv:
            print(json.dumps(r['info'])[:5000])
        for m in r['fails']:
            print('   ', m[:3000])
            bad = 1
finally:
    w.stop()
    shutil.rmtree(base, ignore_errors=True)
sys.exit(bad)
