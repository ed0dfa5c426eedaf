"""Key=value lists (C14): the laws of the specification, and every list TLC visits replayed on the real OptionMap."""
from vlib import *
import probe as Pr
KEYS = [b'', b'k', b'1', b'kk', b'k1', b'\xff', b',', b'=', b'k=', b'1,', b'11', b'1,1']
def cfg(entries, length, gen):
    t = 'SPECIFICATION Spec\nCONSTANTS\n Alpha = {107, 61, 49, 255, 44}\n MaxLen = %d\n MaxEntries = %d\n GenAll = %s\nCHECK_DEADLOCK FALSE\nINVARIANT LastWins Unambiguous Typed%s\nPROPERTY Independent\n' % (length, entries, 'TRUE' if gen else 'FALSE', ' GenerateLists' if gen else '')
    f = os.path.join(work(), 'o%d%d%d.cfg' % (entries, length, gen)); open(f, 'w').write(t); return f
def laws(entries, length, gen=False):
    o = tlc('OptLaws', cfg(entries, length, gen))
    if o.rc: raise Broken('the specification of key=value lists breaks its own laws:\n' + o.out[-3000:])
    o.lists = []
    for l in o.out.splitlines():
        if l.startswith('"LIST '): o.lists.append([bytes(e) for e in json.loads(l[6:-1])])
    o.lists.sort()
    return o
def scens(lists):
    """five lists in each session"""
    out = []
    for i in range(0, len(lists), 5):
        g = lists[i:i + 5] + [[]] * 5
        s = Pr.PS('opt%d' % i, 'b', keys=KEYS); s.host(1, cmd=Pr.HINTS, raw=dict(opt=g[0], env=g[1])); a = s.hosts[1][5]
        for n, x in (('set', g[2]), ('usr', g[3]), ('cmd', g[4])): a[n] = list(a[n]) + x
        s.st('call', 1, 'open').st('call', 1, 'close', 0, 0); out.append(s)
    return out
