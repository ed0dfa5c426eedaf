"""The design model (spec/Plugin.tla): model checking it, and turning its behaviours into scenarios for the real library."""
import json, os, re, hashlib, random, copy
from vlib import *
from scen import *
import cases as C

CS = C.cases()
NAMES = {c.name: i + 1 for i, c in enumerate(CS)}

def cfg(names, env=3, flt=1, sig=1, history=False, gated=True, bugs=(), spec='Spec', invs=('Holds',), props=()):
    ids = ','.join(str(NAMES[n]) for n in names)
    t = ['SPECIFICATION ' + spec, 'CONSTANTS', ' CaseIds = {%s}' % ids, ' MaxEnv = %d' % env, ' MaxFault = %d' % flt, ' MaxSig = %d' % sig,
         ' History = %s' % ('TRUE' if history else 'FALSE'), ' Gated = %s' % ('TRUE' if gated else 'FALSE'), ' Bugs = {%s}' % ','.join('"%s"' % b for b in bugs),
         'CHECK_DEADLOCK FALSE']
    if invs: t.append('INVARIANT ' + ' '.join(invs))
    if props: t.append('PROPERTY ' + ' '.join(props))
    if not history and not props: t.append('VIEW View')
    f = os.path.join(work(), 'm%s.cfg' % hashlib.sha1('\n'.join(t).encode()).hexdigest()[:10])
    open(f, 'w').write('\n'.join(t) + '\n')
    return f

def cases_current():
    if open(os.path.join(SPEC, 'Cases.tla')).read() != C.module(CS): raise Broken('spec/Cases.tla is out of date: python3 lib/cases.py')

def gist(out): return '\n'.join(l[:1000] for l in out.splitlines() if re.search('OBJECTION|rror|nvariant|xception', l) and not l.startswith('"SCEN'))[:3000]

def design(names, timeout=LONG, **kw):
    """TLC on the design; it must satisfy the contract"""
    cases_current()
    o = tlc('Plugin', cfg(names, **kw), timeout=timeout)
    if o.rc != 0: raise Broken('the design model violates the contract:\n' + gist(o.out))
    return o

# design errors the contract must object to: error -> (case, environment steps, label of the objection)
BUGS = dict(anyyes=('root', 3, 'C01'), unload=('user', 3, 'C01'), pairall=('exempt', 3, 'C02'), nomask=('root', 3, 'C03'), chmodfirst=('group', 3, 'C03'), worldw=('user', 3, 'C03'),
            ugok=('ug', 3, 'C04'), nodir=('dir', 3, 'C05'), occ=('occ', 3, 'C05'), leaksock=('stale', 3, 'C06'), umleak=('user', 3, 'C06'), keepconn=('group', 3, 'C06'), noclose=('root', 3, 'C06'),
            onewrite=('slow', 4, 'C07'), dropstderr=('root', 2, 'C07'), lostok=('root', 3, 'C08'), stdinok=('root', 3, 'C09'), restart=('user', 3, 'C10'),
            lateok=('dir', 3, 'C13'), factsok=('facts', 3, 'C15'), apiok=('api', 3, 'C16'), noprompt=('root', 3, 'C17'), eofyes=('root', 3, 'C17'), lastpeer=('two', 4, 'C20'))
def seeded(bug):
    """a seeded design error must be objected to, for the right reason"""
    case, env, label = BUGS[bug]
    o = tlc('Plugin', cfg([case], bugs=[bug], env=env), workers=1, mem='3g')
    m = re.search(r'"OBJECTION (.*)"$', o.out, re.M)
    labels = set(re.findall(r'C\d\d', m.group(1))) if m and o.rc else set()
    if label not in labels: raise Broken('the contract misses the seeded design error %s: %s\n%s' % (bug, labels, o.out[-1500:]))
    return o

# what must happen in the end, and design errors that keep it from happening
LIVE = ('Returns', 'Interrupted', 'LetGo')
STUCK = dict(C06=('keepconn', 'LetGo'), C10=('restart', 'Interrupted'))
def live(names, bug=None, **kw):
    """temporal properties of the design under fair scheduling; with a seeded error, exactly its property must fail"""
    props = LIVE if bug is None else (bug[1],)
    o = tlc('Plugin', cfg(names, spec='Fair', invs=(), props=props, bugs=(bug[0],) if bug else (), **kw), mem='6g', workers=4)
    if bug is None and o.rc: raise Broken('the design model violates a temporal property:\n' + gist(o.out))
    if bug and not re.search('Temporal property %s was violated|Temporal properties were violated' % bug[1], o.out): raise Broken('%s holds despite the seeded design error %s:\n%s' % (bug[1], bug[0], gist(o.out)))
    return o

class Beh:
    """one behaviour of the model"""
    def __init__(self, j): self.c, self.h, self.r = CS[j['c'] - 1], j['h'], j['r']; self.key = json.dumps([j['c'], j['h']], sort_keys=True)
    def gates(self): return sum(1 for e in self.h if e['at'])
    def has(self, *ks): return any(e['op']['k'] in ks for e in self.h)
    def scen(self, id):
        s = copy.deepcopy(self.c.s); s.id = id; s.steps = []; s.focus = list(self.c.focus); s.expect = self.r; s.beh = self
        nh = len(s.hosts); segs = {}; cur = {h: -1 for h in s.hosts}
        # gates and faults of each call have to be armed before it starts
        n = {h: 0 for h in s.hosts}
        for e in self.h:
            o = e['op']
            for h, c, k in e['at']:
                g = segs.setdefault((h, n[h]), {'g': [], 'f': []})['g']
                if [c, k] not in g: g.append([c, k])
            if o['k'] == 'call': n[o['h']] += 1
            if o['k'] == 'fault': segs.setdefault((o['h'], n[o['h']]), {'g': [], 'f': []})['f'].append(('fault', o['s'], o['o'], o['n']))
            if o['k'] == 'kill': segs.setdefault((o['h'], n[o['h']]), {'g': [], 'f': []})['f'].append(('killb', o['s'], o['o'], 0))
        n = {h: 0 for h in s.hosts}; at = {h: None for h in s.hosts}
        for e in self.h:
            o = e['op']; here = {h: [c, k] for h, c, k in e['at']}
            for h in s.hosts:
                if at[h] is not None and here.get(h) != at[h]: s.st('release', h)
                at[h] = here.get(h)
            k = o['k']
            if k == 'call':
                h = o['h']; n[h] += 1; sg = segs.get((h, n[h]), {'g': [], 'f': []}); c = o['c']
                for g in sg['g'][:5]: s.st('gate', h, g[0], g[1])
                for f in sg['f']: s.st(*([f[0], h] + [f[1], f[2]] + ([f[3]] if f[0] == 'fault' else [])))
                if c['c'] == 'open': s.st('call', h, 'open')
                elif c['c'] == 'close': s.st('call', h, 'close', 0, 0)
                elif c['c'] == 'winsize': s.st('call', h, 'winsize', c['l'], c['w']) if not isinstance(c['l'], list) else s.st('call', h, 'winsize', bytes(c['l']).decode(), bytes(c['w']).decode())
                else: s.st('call', h, 'log', c['s'], ','.join('%d:%d' % (b, m) for b, m in c['d']))
            elif k == 'connect': s.st('connect', o['p'], bytes(o['n']), bytes(o['u']).decode(), bytes(o['g']).decode())
            elif k == 'send': s.st('send', o['p'], '%d:1' % o['b'])
            elif k == 'close': s.st({'full': 'pclose', 'wr': 'shutwr', 'rd': 'shutrd'}[o['how']], o['p'])
            elif k == 'drain': s.st('drain', o['p'], 'on' if o['on'] else 'off')
            elif k == 'sig': s.st('sig', o['h'], 'INT')
        for h in s.hosts:
            if at[h] is not None: s.st('release', h)
        return s

def parse(out):
    seen = {}; 
    for l in out.splitlines():
        if l.startswith('"SCEN '):
            try: b = Beh(json.loads(l[6:-1].replace('\\"', '"')))
            except ValueError: continue        # a line cut by another worker's output
            seen.setdefault(b.key, b)
    return list(seen.values())

def enumerate_(names, **kw):
    """every behaviour within the bounds"""
    cases_current()
    o = tlc('Plugin', cfg(names, history=True, invs=('Holds', 'Generate'), **kw))
    if o.rc != 0: raise Broken('scenario generation:\n' + gist(o.out))
    return parse(o.out), o
def sample(names, num, seed, depth=200, **kw):
    """random behaviours"""
    cases_current()
    o = tlc('Plugin', cfg(names, history=True, invs=('Generate',), **kw), args=['-seed', str(seed), '-simulate', 'num=%d' % num, '-depth', str(depth)])
    if o.rc != 0: raise Broken('scenario generation:\n' + gist(o.out))
    return sorted(parse(o.out), key=lambda b: b.key), o

def agreement(traces, scens):
    """how many recordings returned exactly what the model returned"""
    byid = {s.id: s for s in scens}; ok = n = 0; diff = []
    for l in traces:
        t = json.loads(l); s = byid.get(t['id'])
        if s is None or not hasattr(s, 'expect'): continue
        n += 1; got = [[e['r'] for e in t['ev'] if e['e'] == 'ret' and e['h'] == h + 1] for h in range(len(s.expect))]
        if got == s.expect: ok += 1
        else: diff.append((t['id'], s.expect, got))
    return ok, n, diff
