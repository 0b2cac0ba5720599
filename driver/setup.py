#!/opt/veriftools/pyvenv/bin/python
"""setup_cmd: builds every worker once (checks rebuild what changed)."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import glob  # noqa: E402
import build as B  # noqa: E402
from run_check import spec_of  # noqa: E402
for f in sorted(glob.glob(os.path.join(HERE, 'props', 'c[0-9]*.py'))):
    pid = os.path.basename(f)[:-3].upper()
    s = spec_of(pid)
    exe, t = B.build(getattr(s, 'BIN', pid), s.SRC, s.GROUP, getattr(s, 'PCH', True))
    print('%s %s %.1f s' % (pid, exe, t), flush=True)
