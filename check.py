#!/usr/bin/env python3
"""python3 check.py Cxx: decides one property for /repo's working tree (see DESIGN.md).
   python3 check.py --setup: builds what the checks share.   python3 check.py --replay FILE: repeats a reported violation."""
import sys, os, re, json, time, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from vlib import *
import model, families, props, parts
import concurrent.futures as cf

RDIR = os.path.join(B, 'replay')

class Run:
    """what a check has covered and found"""
    def __init__(self, prop):
        self.p, self.q, self.t0 = prop, TIER == 'quick', time.time()
        self.states = self.trans = self.traces = 0; self.found = []; self.samples = []; self.notes = {}; self.kinds = {}
    def note(self, k, v): self.notes[k] = v
    def count(self, kind, n): self.kinds[kind] = self.kinds.get(kind, 0) + n
    def stage(self, what): print('[%6.1f] %s' % (time.time() - self.t0, what), flush=True)
    def violation(self, id, why, text):
        """id: short name; why: what the contract says; text: everything needed to see it again"""
        os.makedirs(RDIR, exist_ok=True)
        f = os.path.join(RDIR, '%s-%s.txt' % (self.p, re.sub(r'[^\w.-]', '_', id))); open(f, 'w').write(text)
        self.found.append((id, why, f))

def target(s):
    """which library, entry point and contract a scenario is for"""
    k, dev = getattr(s, 'kind', None), getattr(s, 'dev', False)
    return (probe(dev), 'probe_' + k, 'FfiTrace') if k else (plugin(dev), 'sudo_pair', 'Trace')

def scenarios(run, scens, what='traces'):
    """replays scenarios on the real code and lets TLC judge the recordings; what fails has to fail again on its own"""
    groups = {}
    for s in scens: groups.setdefault((getattr(s, 'kind', None), getattr(s, 'dev', False)), []).append(s)
    trs, bads = [], {}
    for g in groups.values():
        so, symbol, module = target(g[0])
        tr = replay(so, symbol, g); run.stage('%d %s recorded (%s)' % (len(tr), what, symbol))
        bad, st = validate(tr, module); run.states += st; run.trans += st - len(tr); run.traces += len(tr); run.count(what, len(tr))
        trs += tr; bads.update(bad)
        mine = {i: b for i, b in bad.items() if any(l == run.p for l, _ in b[1])}
        run.stage('%d %s judged, %d against %s' % (len(tr), what, len(mine), run.p))
        others = sorted({l for b in bad.values() for l, _ in b[1]} - {run.p})
        if others: run.note('objections under other properties', others)
        by = {s.id: s for s in g}; seen = set(); tries = 0
        for id in sorted(mine, key=lambda i: (len(by[i].text()), i)):
            why = frozenset(w for l, w in mine[id][1] if l == run.p)
            if why in seen or tries >= 12: continue
            tries += 1
            for again in range(6):
                t2 = replay(so, symbol, [by[id]]); b2, _ = validate(t2, module)
                if id in b2 and any(l == run.p for l, _ in b2[id][1]):
                    seen.add(why)
                    head = dict(property=run.p, id=id, why=sorted(why), event=b2[id][0], kind=getattr(by[id], 'kind', None), dev=getattr(by[id], 'dev', False), extra=getattr(by[id], 'extra', {}), focus=list(getattr(by[id], 'focus', ()) or ()))
                    run.violation(id, '; '.join(sorted(why)), json.dumps(head) + '\n' + by[id].text() + t2[0] + '\n'); break
            else: run.note('not reproduced: ' + id, sorted(why))
    return trs, bads

class Stored:
    """a scenario read back from a replay file"""
    def __init__(self, head, text):
        self.id, self.t, self.extra, self.focus = head['id'], text, head['extra'], head['focus']
        if head['kind']: self.kind = head['kind']
        self.dev = head.get('dev', False)
    def text(self): return self.t
def replay_file(f):
    lines = open(f).read().splitlines(True); head = json.loads(lines[0])
    if 'script' in head:
        b = parts.replay_script(head)
        if head['id'] not in b: print('nothing wrong this time'); return 0
        print('VIOLATION property=%s replay=%s  %s' % (head['property'], f, sorted(b[head['id']][1]))); return 1
    s = Stored(head, ''.join(lines[1:lines.index('end\n') + 1])); so, symbol, module = target(s)
    t = replay(so, symbol, [s]); b, _ = validate(t, module)
    for i, e in enumerate(json.loads(t[0])['ev']): print('%4d %s' % (i + 1, json.dumps(e)[:300]))
    if s.id not in b: print('nothing wrong this time'); return 0
    print('event %d: %s' % (b[s.id][0], sorted(b[s.id][1]))); print('VIOLATION property=%s replay=%s' % (head['property'], f)); return 1

def design_part(run, spec):
    """model checking of the design against the contract, and the contract's ability to object"""
    ex = cf.ThreadPoolExecutor(3)
    bugs = [b for b, v in model.BUGS.items() if v[2] == run.p]
    fs = [ex.submit(model.seeded, b) for b in bugs]
    env = spec.get('env', (3, 5))[0 if run.q else 1]
    ls = []
    if run.p in model.STUCK:
        ls = [ex.submit(model.live, ['user'], env=3), ex.submit(model.live, ['user'], model.STUCK[run.p], env=3)]
        if not run.q: ls += [ex.submit(model.live, [c], env=3, gated=g) for c, g in (('slow', True), ('stale', True), ('dir', True), ('two', False))]
    o = model.design(spec['cases'], env=env, flt=1, sig=1 if run.q else 2)
    run.states += o.distinct; run.trans += o.generated
    run.note('design model', dict(cases=spec['cases'], environment_steps=env, distinct_states=o.distinct, depth=o.depth, complete=True))
    for f in fs: f.result()
    run.note('seeded design errors the contract objects to', bugs)
    if ls: run.note('temporal properties of the design', dict(hold=model.LIVE, under='Fair', distinct_states=[f.result().distinct for f in ls if f is not ls[1]], violated_by_the_seeded_error=model.STUCK[run.p]))
    for f in ls: run.states += f.result().distinct
    run.stage('design: %d states' % o.distinct)

def behaviours_part(run, spec):
    """behaviours of the design, replayed on the library"""
    cases = spec['cases']; one = [c for c in cases if c != 'two']
    bs = []
    if one: b, _ = model.enumerate_(one, env=2 if run.q else 3); bs += b
    b, _ = model.sample(cases, 250 if run.q else 3000, SEED, env=5, sig=2); bs += b
    if not run.q: b, _ = model.sample(cases, 2000, SEED + 1, env=8, sig=2, flt=2); bs += b
    seen = {}
    for x in bs: seen.setdefault(x.key, x)
    bs = list(seen.values()); lim = 2500 if run.q else 20000
    if len(bs) > lim: random.Random(SEED).shuffle(bs); bs = bs[:lim]
    sc = [x.scen('m%d' % i) for i, x in enumerate(bs)]
    run.stage('%d behaviours generated' % len(sc))
    tr, bad = scenarios(run, sc, 'behaviours of the design model')
    ok, n, diff = model.agreement(tr, sc)
    run.note('recordings returning exactly what the model returned', '%d of %d' % (ok, n))
    run.samples += [dict(behaviour=[[e['op'], e['at']] for e in x.h], returned=x.r) for x in bs[:2]]

def library(run):
    spec = props.P[run.p]
    design_part(run, spec)
    plugin(); run.stage('library built')
    behaviours_part(run, spec)
    f = families.Fam(random.Random(SEED), TIER)
    sc = []
    for l in spec['fams'](f): sc += l
    for s in sc[:1] + sc[len(sc) // 2:len(sc) // 2 + 1]: run.samples.append(s.text())
    for i in range(0, len(sc), 8000): scenarios(run, sc[i:i + 8000], 'scenarios')

ASSUME = ['the recorder harness/vhost.c reports what the library did (it is the caller, the peers and the observer of the file system)',
          'sudo follows sudo_plugin(8): one open per process, callbacks one at a time', 'TLC, the Linux kernel and the Rust toolchain']
def main(p):
    run = Run(p)
    try:
        if p in props.P: library(run)
        for part in parts.PARTS.get(p, ()): part(run, scenarios)
    except Broken as e:
        print('CHECK BROKEN: %s' % e); return 2
    ev = dict(property=p, tier=TIER, seed=SEED, level='model_checking', wall_s=round(time.time() - run.t0, 1), violations=len(run.found), assumptions=ASSUME,
              coverage=dict(states=run.states, transitions=run.trans, traces_validated_against_impl=run.traces, samples=run.samples[:6], kinds=run.kinds, **run.notes))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', p + '.json'), 'w'), indent=1)
    for id, why, f in run.found: print('VIOLATION property=%s replay=%s  (%s: %s)' % (p, f, id, why))
    print('%s: %s, %d states, %d traces, %.1f s' % (p, 'VIOLATED' if run.found else 'holds on everything explored', run.states, run.traces, time.time() - run.t0))
    return 1 if run.found else 0

def setup():
    vhost()
    for dev in (False, True): print(plugin(dev), probe(dev))
    parts.setup(); return 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if a == ['--setup']: sys.exit(setup())
    if len(a) == 2 and a[0] == '--replay': sys.exit(replay_file(a[1]))
    if len(a) != 1: print(__doc__); sys.exit(2)
    sys.exit(main(a[0]))
