#!/usr/bin/env python3
"""show.py FILE.ndjson ID: a recorded trace in readable form"""
import json, sys
def txt(v): return bytes(v)
for l in open(sys.argv[1]):
    t = json.loads(l)
    if t['id'] != sys.argv[2]: continue
    for h in t['hosts']:
        for a in ('set', 'usr', 'cmd', 'env', 'opt', 'argv'): print(a, [bytes(x) for x in h[a]])
    for i, e in enumerate(t['ev'], 1):
        o = {}
        for k, v in e.items():
            if k in ('p', 'n', 'l', 'w', 'u', 'g', 'd') and isinstance(v, list):
                v = bytes(v) if not v or isinstance(v[0], int) else b''.join(bytes([b]) * min(n, 40) + (b'..' if n > 40 else b'') for b, n in v)
            o[k] = v
        print(i, ' '.join('%s=%s' % x for x in o.items()))
