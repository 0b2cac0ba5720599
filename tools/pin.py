#!/usr/bin/python3
"""pin.py REPLAY 'note': adds the (single) case of a replay file to corpus/<ID>.jsonl."""
import json, os, sys
v = json.load(open(sys.argv[1]))
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', v['property'] + '.jsonl')
for c in v['history'][-1:]:
    c = dict(c)
    open(f, 'a').write(json.dumps({'np': v['np'], 'threads': v.get('threads', 1), 'case': c, 'note': sys.argv[2]}) + '\n')
