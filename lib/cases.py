"""Sessions the design model (spec/Plugin.tla) starts from.  The same objects become spec/Cases.tla and replay scenarios."""
from scen import *
SOCK = b'/V/d/1000.4242.sock'
def open_(): return dict(c='open')
def log(s, *runs): return dict(c='log', s=s, d=runs)
def win(l, w): return dict(c='winsize', l=l, w=w)
def close(): return dict(c='close')
OUT = [log('ttyout', (65, 3)), log('stdin', (66, 2)), win(30, 100), log('stderr', (67, 2)), close()]

class Case:
    def __init__(self, name, s, plan, who, bytes_=(121, 110), slow=False, focus=()):
        self.name, self.s, self.plan, self.who, self.bytes, self.slow, self.focus = name, s, plan, who, bytes_, slow, focus

def peer(u, g, h=1): return dict(u=u, g=g, h=h)
NOB = peer(65534, 65534)
def cases():
    b = lambda: S('x').std(tu=b'U%u\n', tp=b'P%p\n')
    r = []
    a = r.append
    a(Case('root', b().host(1), [[open_()] + OUT], [peer(0, 0), peer(0, 0), NOB]))
    a(Case('user', b().host(1, cmd=dict(runas_uid=b'2000', runas_gid=b'0')), [[open_(), log('stdout', (65, 3)), close()]], [peer(2000, 2000), NOB, peer(1000, 1000)]))
    a(Case('group', b().host(1, set=dict(runas_user=None, runas_group=b'grp'), cmd=dict(runas_uid=b'1000', runas_gid=b'0', runas_egid=b'3000', runas_groups=b'0')),
           [[open_(), log('stdout', (65, 3)), close()]], [peer(1001, 3000), NOB, peer(1000, 1000)]))
    a(Case('stale', b().obj(SOCK, 'sock', 0o777).host(1), [[open_(), close()]], [peer(0, 0), NOB]))
    a(Case('slow', b().host(1, sa='norestart'), [[open_(), log('ttyout', (65, 150000)), log('stdout', (66, 150000)), log('stderr', (67, 3)), close()]], [peer(0, 0)], slow=True))
    a(Case('notty', S('x').std(tu=b'U%u\n', tp=b'P%p\n', tty=False).host(1, usr=dict(tty=b'/V/tty')), [[open_(), win(1, 2), close()]], [peer(0, 0)], bytes_=(89, 0)))
    a(Case('dir', S('x').obj(b'/V/d', 'dir', 0o775).obj(b'/V/tty', 'reg', 0o666).obj(b'/V/tu', 'reg', data=b'U\n').obj(b'/V/tp', 'reg', data=b'P\n').host(1),
           [[open_(), log('stdout', (65, 1)), close()]], [peer(0, 0)]))
    a(Case('occ', b().obj(SOCK, 'reg', 0o600).host(1), [[open_(), log('stdout', (65, 1)), close()]], [peer(0, 0)]))
    a(Case('ug', b().host(1, set=dict(runas_group=b'grp'), cmd=dict(runas_uid=b'2000', runas_egid=b'3000')), [[open_(), log('stdout', (65, 1)), close()]], [peer(2000, 3000)]))
    a(Case('exempt', b().host(1, opt=dict(gids_exempted=b'1001')), [[open_(), log('stdin', (66, 2)), log('stdout', (65, 1)), win(1, 2), close()]], [peer(0, 0)]))
    a(Case('facts', b().host(1, usr=dict(uid=b'x')), [[open_(), log('stdout', (65, 1)), close()]], [peer(0, 0)]))
    a(Case('api', b().host(1, min=8), [[open_(), log('stdout', (65, 1)), close()]], [peer(0, 0)]))
    two = b().host(1).host(2, usr=dict(pid=b'4343', uid=b'1002', tty=b'/V/none'), cmd=dict(runas_uid=b'2000'))
    two.hosts[1][5]['usr'] = [e if not e.startswith(b'tty=') else b'tty=/V/none' for e in two.hosts[1][5]['usr']]
    a(Case('two', two, [[open_(), log('stdout', (65, 2)), close()], [open_(), log('stdout', (66, 2)), close()]],
           [peer(0, 0, 1), peer(2000, 2000, 2), peer(0, 0, 2)], focus=('C20',)))
    return r

def tla(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, bytes): return '<<' + ','.join(map(str, v)) + '>>'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(map(tla, v)) + '>>'
    if isinstance(v, set): return '{' + ', '.join(map(tla, sorted(v))) + '}'
    if isinstance(v, dict): return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)
def dec(n): return str(n).encode()
def host_tla(hst):
    maj, mi, pf, sa, um, a = hst
    d = dict(maj=maj, min=mi, pf=pf, sa=sa, eu=b'0', eg=b'0')
    for k in ('set', 'usr', 'cmd', 'env', 'opt', 'argv'): d[k] = a[k] or []
    return d
def module(cs):
    out = ['---- MODULE Cases ----', '\\* Generated by lib/cases.py from the replay scenarios of the same names.', 'EXTENDS Integers, Sequences', 'Cases == <<']
    L = []
    for c in cs:
        plan = [[dict(e, l=dec(e['l']), w=dec(e['w'])) if e['c'] == 'winsize' else e for e in p] for p in c.plan]
        rec = dict(name=c.name, hosts=[host_tla(c.s.hosts[h]) for h in sorted(c.s.hosts)],
                   world=[dict(p=p, k=k, u=dec(u), g=dec(g), m=m, d=d) for p, k, m, u, g, d in c.s.objs],
                   who=[dict(u=dec(w['u']), g=dec(w['g']), h=w['h']) for w in c.who], bytes=set(c.bytes), slow=c.slow, plan=plan, focus=set(c.focus))
        L.append('  ' + tla(rec))
    out.append(',\n'.join(L)); out += ['>>', '====']
    return '\n'.join(out) + '\n'
if __name__ == '__main__':
    import os
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../spec/Cases.tla'), 'w').write(module(cases()))
