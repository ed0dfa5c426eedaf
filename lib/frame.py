"""The design model of the framework (spec/Frame.tla): checking it, and turning its behaviours into sessions of the probe plugins."""
import copy, random
from vlib import *
from model import gist
import cases as C, probe as Pr

def fcases():
    r = []
    def a(name, kind, hints=None, **kw):
        s = Pr.PS('x', kind); cmd = dict(Pr.HINTS); cmd.update(hints or {}); s.host(1, cmd=cmd, **kw); r.append((name, kind, s))
    for k in 'ab':
        a('run', k); a('hints', k, dict(iolog_ttyout=b'false', iolog_stderr=b'false', iolog_ttyin=None))
        a('query', k, raw=dict(cmd=None)); a('facts', k, usr=dict(gid=b'x')); a('api', k, min=8)
        a('null', k, pf='null'); a('fail', k, pf='fail')
    return r
CS = fcases()
NAMES = {n + k: i + 1 for i, (n, k, s) in enumerate(CS)}
def module():
    return '\n'.join(['---- MODULE FCases ----', '\\* Generated by lib/frame.py from the replay scenarios of the same names.', 'EXTENDS Integers, Sequences', 'FCases == <<',
                      ',\n'.join('  ' + C.tla(dict(name=n + k, kind=k, pver=bytes(Pr.PVER), host=C.host_tla(s.hosts[1]))) for n, k, s in CS), '>>', '===='])  + '\n'

def cfg(names, calls=4, acts=4, history=False, bugs=(), invs=('Holds', 'Alive'), props=(), spec='Spec'):
    t = ['SPECIFICATION ' + spec, 'CONSTANTS', ' CaseIds = {%s}' % ','.join(str(NAMES[n]) for n in names), ' MaxCalls = %d' % calls, ' MaxActs = %d' % acts,
         ' History = %s' % ('TRUE' if history else 'FALSE'), ' Bugs = {%s}' % ','.join('"%s"' % b for b in bugs), 'CHECK_DEADLOCK FALSE']
    if invs: t.append('INVARIANT ' + ' '.join(invs))
    if props: t.append('PROPERTY ' + ' '.join(props))
    if not history: t.append('VIEW View')
    f = os.path.join(work(), 'f%s.cfg' % hashlib.sha1('\n'.join(t).encode()).hexdigest()[:10]); open(f, 'w').write('\n'.join(t) + '\n'); return f
def current():
    if open(os.path.join(SPEC, 'FCases.tla')).read() != module(): raise Broken('spec/FCases.tla is out of date: python3 lib/frame.py')
def design(names=None, **kw):
    current()
    o = tlc('Frame', cfg(names or list(NAMES), **kw))
    if o.rc != 0: raise Broken('the design of the framework violates its contract:\n' + gist(o.out))
    return o
# design errors the contract must object to: error -> (case, label of the objection)
BUGS = dict(panicok=('runa', 'C11'), errdeny=('runa', 'C11'), twice=('runa', 'C11'), nocause=('runa', 'C11'), hint=('hintsa', 'C12'), winskip=('hintsa', 'C12'), skip0=('hintsa', 'C12'), swap=('runb', 'C12'),
            cut=('runa', 'C12'), crossed=('runa', 'C12'), twicecalled=('runa', 'C12'), lateok=('runa', 'C13'), latequiet=('factsb', 'C13'), queryinst=('querya', 'C13'), fwver=('runa', 'C13'), leak=('runb', 'C13'),
            zombie=('runa', 'C13'), factsok=('factsa', 'C15'), apiok=('apia', 'C16'), fmt=('runa', 'C19'), level=('runa', 'C19'))
def seeded(bug):
    case, label = BUGS[bug]
    o = tlc('Frame', cfg([case], calls=3, bugs=[bug], invs=('Holds',)), workers=1, mem='3g')
    m = re.search(r'"OBJECTION (.*)"$', o.out, re.M); labels = set(re.findall(r'C\d\d', m.group(1))) if m and o.rc else set()
    if label not in labels: raise Broken('the contract of the framework misses the seeded design error %s: %s\n%s' % (bug, labels, o.out[-1500:]))

PAN = Pr.PANICS
class Beh:
    def __init__(self, j): self.n, self.kind, self.s = CS[j['c'] - 1]; self.h = j['h']; self.key = json.dumps([j['c'], j['h']], sort_keys=True)
    def scen(self, id):
        s = copy.deepcopy(self.s); s.id = id; k = int(hashlib.sha1(self.key.encode()).hexdigest(), 16)
        b = lambda x: bytes(x).decode()
        for o in self.h:
            if o['c'] == 'act':
                a = o['a']; t = [bytes(x) for x in a['t']]
                if a['k'] == 'panic':
                    k = k * 6364136223846793005 + 1442695040888963407 & 2**64 - 1; s.act((PAN if self.kind == 'a' else PAN[:8])[(k >> 33) % (len(PAN) if self.kind == 'a' else 8)])
                else: s.act('ok' if a['k'] == 'ok' else Pr.err(a['o'], a['l'], *t) if a['k'] == 'err' else Pr.say('w' if a['k'] == 'print' else 'l', 'i' if a['o'] == 4 else 'e', t[0]))
            elif o['c'] == 'log': s.st('call', 1, 'log', o['s'], ','.join('%d:%d' % tuple(x) for x in o['d']) or '0:0')
            elif o['c'] == 'winsize': s.st('call', 1, 'winsize', b(o['l']), b(o['w']))
            elif o['c'] == 'close': s.st('call', 1, 'close', b(o['x']), b(o['y']))
            elif o['c'] == 'version': s.st('call', 1, 'version', b(o['x']))
            else: s.st('call', 1, 'open')
        return s
def parse(out):
    seen = {}
    for l in out.splitlines():
        if l.startswith('"SCEN '):
            try: b = Beh(json.loads(l[6:-1].replace('\\"', '"')))
            except ValueError: continue
            seen.setdefault(b.key, b)
    return [seen[k] for k in sorted(seen)]
def enumerate_(names=None, **kw):
    current(); o = tlc('Frame', cfg(names or list(NAMES), history=True, invs=('Holds', 'Generate'), **kw))
    if o.rc: raise Broken('behaviours of the framework:\n' + gist(o.out))
    return parse(o.out), o
def sample(num, seed, names=None, **kw):
    current(); o = tlc('Frame', cfg(names or list(NAMES), history=True, invs=('Generate',), **kw), args=['-seed', str(seed), '-simulate', 'num=%d' % num, '-depth', '200'])
    if o.rc: raise Broken('behaviours of the framework:\n' + gist(o.out))
    return parse(o.out), o
if __name__ == '__main__': open(os.path.join(SPEC, 'FCases.tla'), 'w').write(module())
