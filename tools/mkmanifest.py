"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'lib': 'TLC checks the design model (spec/Plugin.tla) against the contract (spec/Contract.tla) exhaustively within the bounds in the evidence, and the same contract judges, event by event, recordings of the real shared library: behaviours generated from the model, replayed system call by system call, and scenario families covering inputs, faults, crashes and signals. The code itself is covered as far as the replayed histories reach; trusts the recorder (harness/vhost.c), TLC, the kernel.',
}
LIB = 'TLA+ contract and design model checked with TLC; model behaviours replayed into the real library; recordings validated against the contract by TLC'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
sys.path.insert(0, os.path.join(V, 'lib'))
import props as PR, parts
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PR.P and i not in parts.PARTS: na.append(dict(property=i, reason='check not built yet')); continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='env VERIF_TIER=thorough python3 check.py %s' % i, technique=parts.TECH.get(i, LIB) if hasattr(parts, 'TECH') else LIB,
                       level='model_checking', level_note=parts.NOTE.get(i, NOTE['lib']) if hasattr(parts, 'NOTE') else NOTE['lib']))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
