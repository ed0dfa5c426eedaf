"""The whole system (spec/System.tla): people, sudo with the plugin, sockets, the approval script.  Its requests become scenarios for the library and the script."""
from vlib import *
from model import gist
import approve
from families import S, log, close, rle

def cfg(ask, own='OwnA', enforced=(0, 1, 2, 5, 7), bugs=(), invs=('Competent', 'Together'), users=(0, 2, 5), report=False):
    q = lambda s: '{%s}' % ','.join(str(x) if isinstance(x, int) else '"%s"' % x for x in s)
    t = 'SPECIFICATION Spec\nCONSTANTS\n Own <- %s\n Member <- MemberA\n Users = %s\n Asked = {7}\n Enforced_ = %s\n MaxAsk = %d\n Bugs = %s\n Reporting = %s\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n' % (own, q(users), q(enforced), ask, q(bugs), 'TRUE' if report else 'FALSE', ' '.join(invs))
    f = os.path.join(work(), 's%s.cfg' % hashlib.sha1(t.encode()).hexdigest()[:10]); open(f, 'w').write(t); return f
# errors of the parts, and assumptions, without which the theorem must fail: name -> (settings, invariant)
NEED = {b: (dict(bugs=[b]), i) for b, i in (('ug', 'Competent'), ('uid', 'Competent'), ('basename', 'Together'), ('world', 'Competent'), ('ownuid', 'Together'), ('noself', 'Together'))}
NEED['groupwins'] = (dict(bugs=['ug', 'groupwins']), 'Competent')
NEED['some accounts are not enforced'] = (dict(enforced=[0]), 'Together')
NEED['a person has two accounts'] = (dict(own='OwnB'), 'Together')
NEED['nobody is ever helped'] = (dict(invs=('Useless',)), 'Useless')
def needed(n):
    kw, inv = NEED[n]; kw = {**dict(invs=(inv,)), **kw}
    o = tlc('System', cfg(2, **kw), workers=1, mem='3g')
    if not (o.rc and 'Invariant %s is violated' % inv in o.out): raise Broken('the system model does not notice: %s\n%s' % (n, o.out[-1500:]))
def design(ask):
    o = tlc('System', cfg(ask, report=True))
    if o.rc: raise Broken('the system model does not keep two people apart:\n' + gist(o.out))
    o.asks = [json.loads(l[5:-1].replace('\\"', '"')) for l in sorted({l for l in o.out.splitlines() if l.startswith('"ASK ')})]
    return o
D = lambda n: str(n).encode()
nums = lambda l: b','.join(D(x) for x in sorted(l))
COMMAND = dict(approve=b'/usr/bin/sudo_approve', fake=b'/t/sudo_approve', work=b'/c')
def library(asks):
    """every request of the model, made of the real library; everybody of the model tries to connect; then one who may"""
    out = []; people = sorted({(a['s']['u'], g) for a in asks for g in a['s']['gs']})
    for i, a in enumerate(asks):
        sh, q = a['s'], a['q']; u = sh['u'] if q['u'] < 0 else q['u']; g = q['g'] if q['g'] >= 0 else sh['g'] if q['u'] < 0 else q['u']
        gs = set(sh['gs'] if q['u'] < 0 else {q['u']} | ({7} if q['u'] == 2 else set())) | {g}
        s = S('sys%d' % i).std(); s.focus = []; s.auth = 'root'
        s.host(1, set=dict(runas_user=D(q['u']) if q['u'] >= 0 else None, runas_group=D(q['g']) if q['g'] >= 0 else None), usr=dict(user=D(sh['u']), uid=D(sh['u']), euid=b'0', gid=D(sh['g']), egid=D(sh['g']), groups=nums(sh['gs']), pid=b'7'),
               cmd=dict(command=COMMAND[q['cmd']], runas_uid=D(u), runas_gid=D(g), runas_groups=nums(gs), iolog_stdout=None, iolog_stderr=None), opt=dict(gids_enforced=nums([0, 1, 2, 5, 7])))
        s.st('call', 1, 'open'); path = b'/V/d/%d.7.sock' % sh['u']
        order = people[i % len(people):] + people[:i % len(people)]
        for k, (pu, pg) in enumerate(order[:14]): s.st('connect', k + 1, path, pu, pg)
        s.st('connect', 15, path, 0, 0)
        for k in range(15): s.st('send', k + 1, '121:1')
        log(s, 'stdin', b'in'); log(s, 'stdout', b'out'); close(s); out.append(s)
    return out
def script(asks, r, n):
    """every socket the model's plugin leaves, approached by everybody with every record of who they were"""
    socks = sorted({(a['s']['u'], (a['q']['u'], 0, 128) if a['by'] == 'user' else (0, a['q']['g'], 16)) for a in asks if a['d'] == 'pair' and (a['by'] == 'user' or a['q']['g'] >= 0)})
    shells = sorted({(a['s']['u'], a['s']['g'], tuple(a['s']['gs'])) for a in asks})
    out = []
    for ru, (su, sg, m) in socks:
        if su < 0: continue
        for u, g, gs in shells:
            for sudo in (-1, 0, 1, 2, 5):
                for ans in ((), ('yes', 'yes'), ('yes', 'no')): out.append((ru, su, sg, m, u, gs, sudo, ans))
    r.shuffle(out)
    return [approve.Sc('w%d' % i, [(approve.name(ru, 7), su, sg, m)], (u, list(gs), sudo, [D(ru), b'7']), list(ans)) for i, (ru, su, sg, m, u, gs, sudo, ans) in enumerate(out[:n])]
