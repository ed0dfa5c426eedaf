"""Scenario families: sessions, answers, faults, signals, output, ... replayed on the real library.
Every scenario is judged by spec/Contract.tla only; nothing here knows what should happen."""
import random, itertools, copy, curious
from scen import *

SOCK = b'/V/d/1000.4242.sock'
AUTH = {
    'root':  (dict(), dict(), (0, 0)),
    'user':  (dict(), dict(runas_uid=b'2000', runas_gid=b'0'), (2000, 2000)),
    'group': (dict(runas_user=None, runas_group=b'grp'), dict(runas_uid=b'1000', runas_gid=b'0', runas_egid=b'3000', runas_groups=b'0'), (1001, 3000)),
}
def merge(*ds):
    r = {}
    for d in ds: r.update(d or {})
    return r
def mk(id, auth='root', tu=b'U%u\n', tp=b'P%p\n', tty=True, h=1, s=None, **kw):
    st, cm, _ = AUTH[auth]
    s = s or S(id).std(tu=tu, tp=tp, tty=tty)
    kw = dict(kw); kw['set'] = merge(st, kw.get('set')); kw['cmd'] = merge(cm, kw.get('cmd'))
    s.auth = auth; s.focus = []
    return s.host(h, **kw)
def conn(s, p=1, path=SOCK, who=None): u, g = who or AUTH[s.auth][2]; return s.st('connect', p, path, u, g)
def yes(s, p=1, path=SOCK, ans=b'y', who=None): conn(s, p, path, who); return s.st('send', p, rle(ans))
def log(s, stream, b, h=1): return s.st('call', h, 'log', stream, rle(b) if isinstance(b, bytes) else b)
def opened(s): s.st('call', 1, 'open'); return yes(s)
def close(s, h=1, st=0, err=0): return s.st('call', h, 'close', st, err)
def body(s, h=1):
    """the rest of a session"""
    log(s, 'ttyout', b'out\xff\x00', h); log(s, 'ttyin', b'typed', h); s.st('call', h, 'winsize', 50, 132); log(s, 'stdout', b'so', h)
    log(s, 'stderr', b'se', h); log(s, 'stdin', b'piped', h); log(s, 'stdout', b'so2', h); return close(s, h)

STREAMS = ['ttyout', 'stdout', 'stderr']
def near(b):
    """texts that are almost b"""
    h = len(b) // 2
    c = [b.upper(), b.title(), b.swapcase(), b + b'x', b'x' + b, b + b' ', b' ' + b, b[:-1], b[1:], b[:h], b[h:], b + b, b + b'2', b'/usr/bin/' + b, b'./' + b, b + b'\n', b[:h] + b'-' + b[h:], b[::-1], b + b'/', b'-' + b, b.replace(b'e', b'\xc3\xa9'), b[:h] + b' ' + b[h:]]
    return [x for i, x in enumerate(c) if x and x != b and x not in c[:i]]
def about(fam, *props):
    """the histories as a whole are about these properties: whatever goes wrong in them counts"""
    for s in fam: s.focus = list(getattr(s, 'focus', ()) or ()) + [p for p in props if p not in (getattr(s, 'focus', ()) or ())]
    return fam
class Fam:
    def __init__(self, rng, tier): self.r, self.tier, self.q = rng, tier, tier == 'quick'; self.n = 0
    def id(self, p): self.n += 1; return '%s%d' % (p, self.n)

    # ------------------------------------------------------------------ C01
    def answers(self):
        out = []
        for b in range(256):
            for form in ((0, 1, 2) if not self.q or b in b'yYnN\n\0\x1b' else (b % 3,)):
                s = mk(self.id('ans'), 'user' if b % 2 else 'root'); s.st('call', 1, 'open'); conn(s)
                if form == 0: s.st('send', 1, rle(bytes([b])))
                elif form == 1: s.st('send', 1, rle(bytes([b]) + b'y'))
                else: s.st('send', 1, rle(bytes([b]))); s.st('send', 1, rle(b'yes\n'))
                log(s, 'stdout', b'x'); close(s); out.append(s)
        for ans in (b'yes\n', b'Y\n', b'no', b' y', b'\ny', b'YES', b'ny', b'\xc3\xbf', b'\0y', b'yn'):
            for auth in AUTH:
                s = mk(self.id('ansm'), auth); s.st('call', 1, 'open'); yes(s, ans=ans); log(s, 'ttyout', b'x'); close(s); out.append(s)
        for auth in AUTH:
            for how in ('shutwr', 'shutrd', 'pclose'):
                for when in range(6):
                    s = mk(self.id('ansx'), auth); out.append(s)
                    if when == 0: s.st('gate', 1, 'accept', 1)
                    if when == 1: s.st('gate', 1, 'send', 1)
                    if when == 2: s.st('gate', 1, 'recv', 1)
                    if when == 3: s.st('gate', 1, 'send', 2)
                    s.st('call', 1, 'open'); conn(s)
                    if when == 3: s.st('send', 1, '121:1')
                    if when == 4: s.st('drain', 1, 'off')
                    if when == 5: s.st('send', 1, '110:1') if False else None
                    s.st(how, 1)
                    if when < 4: s.st('release', 1)
                    if how == 'shutrd' and when != 3: s.st('send', 1, '121:1')
                    log(s, 'stdout', b'x'); close(s)
                # the answer first, then gone (before the plugin looked at it)
                for ans in (b'y', b'n', b'yy'):
                    s = mk(self.id('ansg'), auth); s.st('gate', 1, 'accept', 1).st('call', 1, 'open'); yes(s, ans=ans); s.st(how, 1).st('release', 1); log(s, 'stdout', b'x'); close(s); out.append(s)
                    s = mk(self.id('ansr'), auth); s.st('gate', 1, 'recv', 1).st('call', 1, 'open'); yes(s, ans=ans); s.st(how, 1).st('release', 1); log(s, 'stdout', b'x'); close(s); out.append(s)
        # nothing of the prompt is taken for an answer
        for t in (b'y', b'Y', b'yes?\n', b'Y%p', b'%U?', b'?%U', b'n\ny', b'yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy', b'%yes'):
            for how in ('shutwr', 'pclose', 'n', 'INT', 'gone'):
                s = mk(self.id('ansy'), tu=t, tp=t, usr=dict(user=b'y'), tty=how != 'n'); out.append(s)
                if how == 'gone': s.st('gate', 1, 'recv', 1)
                s.st('call', 1, 'open'); conn(s)
                if how == 'n': s.st('send', 1, '110:1')
                elif how == 'INT': s.st('sig', 1, 'INT')
                elif how == 'gone': s.st('pclose', 1).st('release', 1)
                else: s.st(how, 1)
                log(s, 'stdout', b'x'); close(s)
        # an answer before the (large) prompt has been read in full
        for n in (1, 90, 200):
            for ans in (b'y', b'n', b''):
                for end in ('on', 'gone'):
                    s = mk(self.id('ansl'), tp=b'%C' * n + b'%p', argv=[b'A' * 3000]); s.st('gate', 1, 'send', 1).st('call', 1, 'open'); conn(s); s.st('drain', 1, 'off').st('release', 1)
                    if ans: s.st('send', 1, rle(ans))
                    s.st('read', 1, 1000)
                    if end == 'on': s.st('drain', 1, 'on')
                    else: s.st('pclose', 1)
                    log(s, 'stdout', b'x'); close(s); out.append(s)
        # an interrupted or piecemeal delivery of the prompt
        for sg in ('INT', 'USR1', 'WINCH'):
            for sa in ('restart', 'norestart', 'ign'):
                for auth in ('root', 'group'):
                    for n in (90, 400):
                        for ans in (b'y', b'n'):
                            if self.q and auth == 'group' and n == 400: continue
                            s = mk(self.id('ansi'), auth, sa=sa, tp=b'%C' * n + b'%p', argv=[b'A' * 3000]); s.st('gate', 1, 'send', 1).st('call', 1, 'open'); conn(s); s.st('drain', 1, 'off').st('release', 1).st('sig', 1, sg)
                            if n == 400: s.st('read', 1, 100000).st('sig', 1, sg)
                            s.st('send', 1, rle(ans)).st('drain', 1, 'on'); body(s); out.append(s)
        for k in range(1, 9):
            for z in (0, 1, 2, 7):
                s = mk(self.id('anss'), tp=b'You: %C %u|', auth=('root', 'user')[k % 2])
                for i in range(1, k + 1): s.st('short', 1, 'send', i, z) if z else s.st('fault', 1, 'send', i, 4)
                s.st('call', 1, 'open'); yes(s, ans=b'yn'[z % 2:z % 2 + 1]); body(s); out.append(s)
        # a second opinion
        for a, b in ((b'n', b'y'), (b'y', b'n'), (b'', b'y')):
            s = mk(self.id('ans2')); s.st('gate', 1, 'accept', 1).st('call', 1, 'open'); conn(s, 1); conn(s, 2)
            if b: s.st('send', 2, rle(b))
            s.st('release', 1)
            if a: s.st('send', 1, rle(a))
            log(s, 'stdout', b'x'); close(s); out.append(s)
        return out

    # ------------------------------------------------------------------ faults and crashes at every system call
    def faults(self, kinds=('fault',), errs=(5,), auths=('root', 'user', 'group'), ans=(b'y', b'n'), maxk=80, stale=(False, True), tty=(True, False), step=1):
        out = []
        for auth in auths:
            for a in ans:
                for sl in stale:
                    for t in tty:
                        for kind in kinds:
                            for e in errs:
                                for k in range(1, maxk, step):
                                    s = mk(self.id('flt'), auth, tty=t)
                                    if sl: s.obj(SOCK, 'sock', 0o777)
                                    if kind == 'fault': s.st('fault', 1, 'any', k, e)
                                    elif kind == 'sigat': s.st('sigat', 1, 'any', k, e)
                                    else: s.st(kind, 1, 'any', k)
                                    s.st('call', 1, 'open'); s.st('connect', 4, SOCK, 65534, 65534); conn(s)
                                    if a: s.st('send', 1, rle(a))
                                    log(s, 'ttyout', b'abc'); s.st('call', 1, 'winsize', 3, 4); close(s); out.append(s)
        return out
    def errors(self, errs=(4, 11, 13, 2, 1, 12, 17, 20, 22, 24, 32, 98, 104, 110, 111)):
        """every kind of error of every kind of call: what went wrong decides nothing"""
        out = []
        for c in ('stat', 'socket', 'bind', 'listen', 'chown', 'chmod', 'poll', 'accept', 'recv', 'send', 'open', 'read', 'unlink', 'sigaction'):
            for e in errs:
                for n in (1, 2):
                    if n == 2 and c in ('bind', 'listen', 'chown', 'chmod', 'socket', 'accept'): continue
                    for auth in ('user', 'group'):
                        s = mk(self.id('err'), auth)
                        if c == 'unlink' and auth == 'user': s.obj(SOCK, 'sock', 0o777)
                        s.st('fault', 1, c, n, e).st('call', 1, 'open').st('connect', 4, SOCK, 65534, 65534); conn(s)
                        s.st('send', 1, '110:1' if e % 2 == 0 and auth == 'group' else '121:1'); log(s, 'ttyout', b'abc'); s.st('call', 1, 'winsize', 3, 4); close(s); out.append(s)
        return out
    def logfaults(self, errs=(5, 4, 32, 11), sizes=(3, 100000), maxk=12):
        out = []
        for e in errs:
            for z in sizes:
                for k in range(1, maxk):
                    s = mk(self.id('lfl'), 'user'); opened(s); log(s, 'ttyout', b'first'); s.st('fault', 1, 'any', k, e); log(s, 'stdout', '65:%d' % z); log(s, 'stderr', b'next'); s.st('call', 1, 'winsize', 1, 2); close(s); out.append(s)
                    s = mk(self.id('lfw'), 'root'); opened(s); s.st('fault', 1, 'any', k, e).st('call', 1, 'winsize', 111, 222); log(s, 'stderr', b'next'); s.st('fault', 1, 'any', k, e); close(s); out.append(s)
        return out
    def closefaults(self):
        out = []
        for e in (5, 4):
            for k in range(1, 12):
                s = mk(self.id('cfl')); opened(s); s.st('fault', 1, 'any', k, e); close(s); log(s, 'stdout', b'late'); out.append(s)
        return out

    # ------------------------------------------------------------------ C10
    def signals(self):
        out = []
        for auth in AUTH:
            for sa in ('restart', 'norestart', 'ign'):
                for sg in ('INT', 'USR1', 'WINCH'):
                    for at in ('connect', 'answer'):
                        for rep in (1, 2):
                            s = mk(self.id('sig'), auth, sa=sa); s.st('call', 1, 'open')
                            if at == 'answer': conn(s)
                            for _ in range(rep): s.st('sig', 1, sg)
                            if at == 'connect': conn(s)
                            s.st('send', 1, '121:1'); body(s); out.append(s)
                    # the peer's answer is already there when the signal comes
                    for g, n in (('poll', 1), ('accept', 1), ('recv', 1), ('send', 1), ('send', 2), ('unlink', 1), ('chmod', 1), ('bind', 1)):
                        s = mk(self.id('sigg'), auth, sa=sa); s.st('gate', 1, g, n).st('call', 1, 'open').st('sig', 1, sg); conn(s); s.st('send', 1, '121:1').st('release', 1); conn(s, 2); s.st('send', 2, '121:1'); body(s); out.append(s)
        lim = 60 if self.q else 100
        for sa in ('restart', 'norestart'):
            for k in range(1, lim):
                s = mk(self.id('sga'), 'user', sa=sa); s.st('sigat', 1, 'any', k, 2).st('call', 1, 'open'); yes(s); body(s); out.append(s)
        # while output is blocked by a slow pair
        for sg in ('INT', 'USR1', 'WINCH'):
            for sa in ('restart', 'norestart'):
                s = mk(self.id('sgl'), sa=sa); opened(s); s.st('drain', 1, 'off'); log(s, 'ttyout', '65:500000'); s.st('sig', 1, sg).st('drain', 1, 'on'); log(s, 'stdout', b'z'); close(s); out.append(s)
                s = mk(self.id('sgm'), sa=sa); opened(s); s.st('drain', 1, 'off'); log(s, 'ttyout', '65:500000'); s.st('sig', 1, sg).st('sig', 1, sg).st('read', 1, 100000).st('sig', 1, sg).st('pclose', 1); log(s, 'stdout', b'z'); close(s); out.append(s)
        return out

    # ------------------------------------------------------------------ the passage of time
    def waits(self):
        """nothing happens for longer than any time limit (see clip() in harness/vhost.c)"""
        out = []
        for auth in AUTH:
            for sa in ('restart', 'norestart'):
                for end in ('y', 'n', 'x', 'INT'):
                    for where in ('connect', 'answer', 'both', 'prompt'):
                        s = mk(self.id('wai'), auth, sa=sa, **(dict(tp=b'%C' * 200 + b'%p', argv=[b'A' * 3000]) if where == 'prompt' else {}))
                        if where == 'prompt': s.st('gate', 1, 'send', 1).st('call', 1, 'open'); conn(s); s.st('drain', 1, 'off').st('release', 1).st('idle').st('read', 1, 1000).st('idle').st('drain', 1, 'on')
                        else:
                            s.st('call', 1, 'open')
                            if where != 'answer': s.st('idle').st('idle')
                            if end == 'INT' and where == 'connect': s.st('sig', 1, 'INT')
                            conn(s)
                            if where != 'connect': s.st('idle').st('idle')
                        if end == 'INT' and where != 'connect': s.st('sig', 1, 'INT')
                        elif end == 'x': s.st('pclose', 1)
                        else: s.st('send', 1, rle(end.encode()[:1]))
                        s.st('idle'); log(s, 'stdout', b'a'); s.st('idle'); body(s); out.append(s)
            for size in (3, 400000):
                for rd in (0, 50000):
                    for st in STREAMS:
                        s = mk(self.id('wao'), auth); opened(s); s.st('drain', 1, 'off'); log(s, st, '65:%d' % size); s.st('idle')
                        if rd: s.st('read', 1, rd).st('idle')
                        s.st('drain', 1, 'on'); log(s, 'stdout', b'more'); s.st('call', 1, 'winsize', 3, 4); s.st('idle'); body(s); out.append(s)
                s = mk(self.id('wal'), auth); opened(s); s.st('drain', 1, 'off'); log(s, 'ttyout', '65:%d' % size); s.st('idle').st('pclose', 1); log(s, 'stdout', b'x'); s.st('idle'); body(s); out.append(s)
        return out
    def many(self):
        """sudo already has many files open"""
        out = []
        for n in ((100, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1028, 1040, 2048, 5000) if self.q else list(range(1010, 1040)) + [100, 2000, 2047, 2048, 4096, 5000, 20000]):
            for auth in list(AUTH)[n % 3:][:1] if self.q else AUTH:
                for end in ('y', 'n', 'INT1', 'INT2', 'x', 'stale'):
                    s = mk(self.id('fds'), auth, tty=n % 2 == 0).fds(n); out.append(s)
                    if end == 'stale': s.obj(SOCK, 'sock', 0o755)
                    s.st('call', 1, 'open')
                    if end == 'INT1': s.st('sig', 1, 'INT')
                    conn(s)
                    if end == 'INT2': s.st('sig', 1, 'INT')
                    elif end == 'x': s.st('pclose', 1)
                    else: s.st('send', 1, '121:1' if end in ('y', 'stale') else '110:1')
                    log(s, 'stdout', b'out'); log(s, 'stdin', b'in'); close(s)
        return out
    def long(self):
        """sessions of many calls: what is counted does not run over"""
        out = []
        for n, kinds in ((300, ['stdout']), (300, ['stdin']), (300, ['ttyin']), (300, ['w']), (300, ['e']), (520, STREAMS), (1100, ['ttyout', 'ttyin', 'w', 'stderr', 'e', 'stdout'])) if self.q else [(n, k) for n in (260, 520, 1100, 2100, 4200) for k in (['ttyout'], ['stdout'], ['stderr'], ['stdin'], ['ttyin'], ['w'], ['e'], STREAMS, STREAMS + ['ttyin', 'w'])]:
            for ex in (False, True) if not self.q or n == 300 else (False,):
                s = mk(self.id('long'), cmd=dict(iolog_ttyin=b'true'), opt=dict(gids_enforced=b'9') if ex else None)
                opened(s) if not ex else s.st('call', 1, 'open')
                for i in range(n):
                    k = kinds[i % len(kinds)]
                    if k == 'w': s.st('call', 1, 'winsize', i, n)
                    else: log(s, 'stdout' if k == 'e' else k, b'' if k == 'e' else bytes([i & 255]))
                log(s, 'stdout', b'end'); log(s, 'stdin', b'end'); log(s, 'ttyin', b'end')
                if not ex: s.st('pclose', 1)
                log(s, 'stdout', b'?'); log(s, 'stdin', b'?'); close(s); out.append(s)
        return out
    # ------------------------------------------------------------------ what the process is told about itself
    def ids(self):
        out = []
        for eu, eg in ((0, 0), (0, 1000), (0, 3000), (0, 7), (500, 0), (500, 500), (2000, 1000), (1000, 1000)):
            for ru, rg in ((1000, 1000), (0, 0), (2000, 3000)):
                for ou in sorted({0, eu, 1000, ru}):
                    for cm in (dict(), dict(runas_uid=None, runas_gid=None), dict(runas_uid=None, runas_gid=b'3000'), dict(runas_uid=b'2000', runas_gid=None), dict(runas_uid=b'x', runas_gid=b'x'), dict(runas_uid=b'1000', runas_gid=None)):
                        for ex in (None, b'grp'):
                            if ou not in (0, eu) and (cm or ex): continue
                            if self.q and self.r.random() < .5: continue
                            s = mk('x', s=S(self.id('ids')).obj(b'/V/d', 'dir', 0o755, ou, 0).obj(b'/V/tty', 'reg', 0o666), set=dict(runas_group=ex), cmd=merge(dict(runas_groups=self.r.choice([b'0', None, b'1,2'])), cm), opt=dict(gids_enforced=self.r.choice([None, None, b'0,1000', b'3000', b'7'])), usr=dict(euid=b'%d' % eu, egid=b'%d' % eg)).ids(ru, eu, rg, eg)
                            s.st('call', 1, 'open').st('connect', 1, SOCK, 0, 0).st('send', 1, '121:1'); body(s); out.append(s)
        return out
    # ------------------------------------------------------------------ C02, C04
    def policy(self, n):
        r = self.r; out = []
        uids = [b'0', b'1000', b'2000', b'7']
        gids = [b'0', b'1000', b'3000', b'7']
        gl = [None, b'0', b'1000', b'3000', b'1000,1001', b'1001,3000', b'3000,0', b'5,6', b'0,1,2,3,4,5', b'7']
        bins = [None, b'/usr/bin/sudo_approve', b'/opt/ap', b'/opt//ap/', b'/opt/./ap', b'opt/ap', b'/opt/\xff']
        cmds = [b'/bin/cmd', b'/usr/bin/sudo_approve', b'/opt/ap', b'/opt//ap/', b'/opt/ap/x', b'/opt/../opt/ap', b'/opt/ap2', b'/OPT/AP', b'/bin/\xff', b'/opt/\xff', b'x', b'/']
        tf = [b'true', b'false', None, b'1', b'TRUE', b'']
        def add(set=None, usr=None, cmd=None, opt=None, prefix='pol', ans=b'y'):
            s = mk(self.id(prefix), set=set, usr=usr, cmd=cmd, opt=opt); s.st('call', 1, 'open'); cmd = s.hosts[1][5]
            # somebody who may approve, whoever that is
            uid = {k: v for k, _, v in (e.partition(b'=') for e in cmd['usr'])}.get(b'uid', b'')
            s.st('connect', 1, b'/V/d/%s.4242.sock' % uid, 0, 0); s.st('send', 1, rle(ans)); log(s, 'stdin', b'in'); log(s, 'stdout', b'out'); close(s); out.append(s)
        # one at a time
        for u in uids:
            for e in uids: add(usr=dict(uid=u, euid=e))
            for x in uids + [None, b'', b'x', b'-1', b'4294967296']:
                add(usr=dict(uid=u), cmd=dict(runas_uid=x)); add(usr=dict(uid=u), cmd=dict(runas_euid=x)); add(usr=dict(uid=u), cmd=dict(runas_uid=b'1000', runas_euid=x))
        for g in gids:
            for x in gids + [None, b'', b'x']:
                for ex in (None, b'grp', b'', b'\xff'):
                    add(set=dict(runas_group=ex), usr=dict(gid=g), cmd=dict(runas_uid=b'1000', runas_egid=x)); add(set=dict(runas_group=ex), usr=dict(gid=g), cmd=dict(runas_uid=b'1000', runas_gid=x)); add(set=dict(runas_group=ex), usr=dict(gid=g), cmd=dict(runas_uid=b'2000', runas_gid=x))
        for a in gl:
            for b in gl:
                add(opt=dict(gids_enforced=a), cmd=dict(runas_groups=b, runas_uid=b'2000', runas_gid=b'7')); add(opt=dict(gids_exempted=a), usr=dict(groups=b if b is not None else b''))
                add(opt=dict(gids_enforced=a), usr=dict(groups=b or b'1'), cmd=dict(runas_groups=None, runas_uid=b'2000', runas_gid=b'7'))
        for a in bins:
            for c in cmds: add(opt=dict(binary_path=a), cmd=dict(command=c))
        for a, b, c in itertools.product(tf, repeat=3) if not self.q else itertools.product(tf[:3], repeat=3):
            for other in ((b'true', b'true'), (b'false', b'false')): add(cmd=dict(iolog_ttyout=a, iolog_stdout=b, iolog_stderr=c, iolog_stdin=other[0], iolog_ttyin=other[1]))
        # a fact counts in its own list and under its own name only
        AP = b'/usr/bin/sudo_approve'
        for av in ([AP], [b'cmd', AP], [AP, AP], [AP, b'0', b'1'], []):
            s = mk(self.id('polx'), argv=av); s.st('call', 1, 'open').st('connect', 1, SOCK, 0, 0).st('send', 1, '121:1'); log(s, 'stdin', b'in'); close(s); out.append(s)
        for l, ks in (('set', b'progname prompt runas_user cmnd_chroot cmnd_cwd askpass runchroot plugin_path plugin_dir login_class remote_host'), ('usr', b'cwd user host'), ('cmd', b'cwd chroot runas_user login_class selinux_role sudoedit_files runas_group'), ('opt', b'command socket_dir_ user_prompt_path')):
            for k in ks.split(): add(**{l: {k.decode(): AP}}, prefix='polx')
        for k, v in ((b'command', AP), (b'uid', b'0'), (b'euid', b'1000'), (b'runas_uid', b'1000'), (b'runas_euid', b'1000'), (b'gid', b'0'), (b'groups', b'3000'), (b'runas_groups', b'7'), (b'runas_egid', b'7'), (b'gids_enforced', b'7'),
                     (b'gids_exempted', b'1000'), (b'gids_exempted', b'0,1000,3000'), (b'iolog_ttyout', b'false'), (b'iolog_stdout', b'false'), (b'binary_path', b'/bin/cmd'), (b'runas_group', b'grp'), (b'SUDO_UID', b'0'), (b'SUDO_COMMAND', AP)):
            for l in ('set', 'usr', 'cmd', 'env', 'opt'):
                s = mk(self.id('polx'), opt=dict(gids_exempted=b'4000')); x = s.hosts[1][5]; have = [e.partition(b'=')[0] for e in x[l]]
                if k in have: continue
                x[l] = x[l] + [k + b'=' + v]; s.st('call', 1, 'open').st('connect', 1, SOCK, 0, 0).st('send', 1, '121:1'); log(s, 'stdin', b'in'); close(s); out.append(s)
        # all together
        while len(out) < n:
            c = r.choice
            add(set=dict(runas_group=c([None, None, b'grp', b'', b'\xff\xfe', b'0']), runas_user=c([None, b'root', b'bob'])),
                usr=dict(uid=c(uids), euid=c([b'0', b'0', b'1000']), gid=c(gids), egid=c(gids), groups=c([x for x in gl if x is not None])),
                cmd=dict(command=c(cmds), runas_uid=c(uids + [None]), runas_euid=c(uids + [None, None]), runas_gid=c(gids + [None]), runas_egid=c(gids + [None, None]),
                         runas_groups=c(gl), iolog_ttyout=c(tf), iolog_stdout=c(tf), iolog_stderr=c(tf), iolog_stdin=c(tf)),
                opt=dict(gids_enforced=c(gl + [b'x', b'0,x', b'']), gids_exempted=c([None, None, None, None, b'', b'x', b'1001', b'3000,5', b'0']), binary_path=c(bins)), ans=c([b'y', b'n']), prefix='polr')
        # how the preferred mistakes would show: -u and -g with everything else around
        for au in (b'2000', b'0'):
            for g in (b'0', b'1000', b'3000'):
                for ex in (b'grp', b'', b'\xff'):
                    for d in (0o755, 0o777):
                        s = S(self.id('polug')); s.focus = []; s.auth = 'root'; s.obj(b'/V/d', 'dir', d).obj(b'/V/tty', 'reg', 0o666)
                        s.host(1, set=dict(runas_group=ex), cmd=dict(runas_uid=au, runas_egid=g)); s.st('call', 1, 'open').st('connect', 1, SOCK, 0, 0).st('send', 1, '121:1'); body(s); out.append(s)
        return out

    def widths(self):
        """ids that differ in one bit, long group lists: every digit and every element counts"""
        out = []
        def add(who=None, path=b'/V/d/%s.4242.sock', other=(1001, 1001), **kw):
            s = mk(self.id('wid'), **kw); s.st('call', 1, 'open'); u = {k: v for k, _, v in (e.partition(b'=') for e in s.hosts[1][5]['usr'])}[b'uid']
            s.st('connect', 1, path % u, *other).st('connect', 2, path % u, *(who or (0, 0))).st('send', 2, '121:1').st('send', 1, '121:1'); log(s, 'stdin', b'in'); log(s, 'stdout', b'out'); close(s); out.append(s)
        D = lambda n: b'%d' % n
        for k in range(32):
            b = 1 << k; x = 1000 ^ b
            add(usr=dict(uid=D(b)), who=(0, 0))
            add(usr=dict(uid=D(b), gid=D(b)), cmd=dict(runas_uid=D(b), runas_gid=D(b), runas_groups=D(b)))
            add(cmd=dict(runas_uid=D(x), runas_gid=b'1000', runas_groups=b'0'), who=(x, 5), other=(x & 0xffff or 7, 5) if k > 15 else (1001, 1001))
            add(cmd=dict(runas_uid=b'2000', runas_euid=D(x)), who=(x, 5), other=(2000, 5))
            add(set=dict(runas_user=None, runas_group=b'g'), cmd=dict(runas_uid=b'1000', runas_gid=D(x), runas_groups=b'0'), who=(1001, x), other=(1002, x & 0xffff or 7) if k > 15 else (1001, 1001))
            add(set=dict(runas_user=None), cmd=dict(runas_uid=b'1000', runas_gid=D(x), runas_groups=b'0'), who=(1001, x))
            add(set=dict(runas_user=b'u', runas_group=b'g'), cmd=dict(runas_uid=D(x), runas_gid=b'1000', runas_groups=b'0'))
            for k2 in (0, 1): add(opt=dict(gids_enforced=(b'9,1000', D(x))[k2]), cmd=dict(runas_uid=b'2000', runas_gid=b'7', runas_groups=(D(x), b'6,1000')[k2]), who=(2000, 7)); add(opt=dict(gids_exempted=(b'9,1000', D(x))[k2]), usr=dict(groups=(D(x), b'6,1000')[k2]))
            add(opt=dict(gids_enforced=b'1000'), cmd=dict(runas_uid=b'2000', runas_gid=D(x), runas_groups=b'6'), who=(2000, 7))
            add(opt=dict(gids_enforced=D(x)), usr=dict(groups=b'1000'), cmd=dict(runas_uid=b'2000', runas_gid=b'7', runas_groups=None), who=(2000, 7))
            add(usr=dict(pid=D((4242 ^ b) & 0x7fffffff)), path=b'/V/d/%%s.%d.sock' % ((4242 ^ b) & 0x7fffffff))
            # somebody else's directory
            if k > 6 or not self.q:
                for u, g, m in ((b, 0, 0o755), (0, b, 0o755), (0, b, 0o775)):
                    s = mk('x', s=S(self.id('wido')).obj(b'/V/d', 'dir', m, u, g).obj(b'/V/tty', 'reg', 0o666)); s.st('call', 1, 'open'); yes(s); close(s); out.append(s)
        for n in (2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300, 1000, 2000)[::1 if not self.q else 2]:
            L = [3001 + i for i in range(n)]; J = lambda l: b','.join(D(i) for i in l)
            for at in (0, n // 2, n - 1):
                H = list(L); H[at] = 77
                for g in (b'77', b'78'):
                    add(opt=dict(gids_enforced=g), cmd=dict(runas_uid=b'2000', runas_gid=b'7', runas_groups=J(H)), who=(2000, 7))
                    add(opt=dict(gids_enforced=g), usr=dict(groups=J(H)), cmd=dict(runas_uid=b'2000', runas_gid=b'7', runas_groups=None), who=(2000, 7))
                    add(opt=dict(gids_exempted=g), usr=dict(groups=J(H)))
                    add(opt=dict(gids_exempted=J(H)), usr=dict(groups=b'5,' + g))
                    add(opt=dict(gids_enforced=J(H)), cmd=dict(runas_uid=b'2000', runas_gid=b'7', runas_groups=b'5,' + g), who=(2000, 7))
        return out
    def sizes(self, pair=True):
        """prompts and facts around every power of two"""
        r = self.r; out = []
        def add(tu, tp, tty, ans=b'y', **kw):
            s = mk(self.id('siz'), tu=tu, tp=tp, tty=tty, **kw); s.st('call', 1, 'open'); yes(s, ans=ans); log(s, 'stdout', b'x'); close(s); out.append(s)
        for k in (6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17):
            z = 1 << k
            for d in (-2, -1, 0, 1):
                for f in (b'%u', b'%%', b'%U%', b'\0\xff') if not self.q else [b'%u', b'%%'][(k + d) % 2:][:1]:
                    t = b'x' * (z + d) + f + b'|%p%U\n'; add(t if k < (14 if self.q else 16) else b'U', t, d % 2 == 0)
            if k < 12: t = b'%u%p' * (z // 4) + b'.'; add(t, t, k % 2 == 0); add(b'%U\n', b'%U|%h\n', k % 2 == 1, usr=dict(user=b'u' * (z - 1), host=b'h' * (z + 1)), argv=[b'a' * z, b'b' * (z - 1)])
        return out
    # every fact of a session set at once
    ALL = b'%b|%B|%C|%d|%g|%h|%H|%p|%u|%U|%W|%%|%x'
    def together(self, n):
        r = self.r; out = []; c = r.choice
        T = [b'x', b'', b'a b', b'/p/q', b'%s', b'x=y', b'\xc3\xa9', b'0', b'1', b'true', b'sudoedit', b'3000']
        B = [b'true', b'true', b'false', b'TRUE', b'']
        N = [b'0', b'1', b'3', b'1000', b'2000', b'3000', b'65535', b'4294967295', b'x', b'', b'-1', b'18446744073709551615']
        for _ in range(n):
            pick = lambda ks, vs, p: {k: c(vs) for k in ks if r.random() < p}
            p = c((.15, .5, .9))
            st = {**pick('bsd_auth_type debug_flags login_class prompt remote_host runas_user selinux_role selinux_type timeout cmnd_chroot cmnd_cwd askpass runchroot runcwd'.split(), T, p),
                  **pick('ignore_ticket implied_shell login_shell noninteractive preserve_environment preserve_groups run_shell set_home sudoedit intercept update_ticket'.split(), B, p),
                  **pick('closefrom debug_level max_groups'.split(), N, p), **pick(['progname'], [b'sudo', b'sudoedit', b'sudoedit2', b'edit', b'su'], p),
                  **pick(['network_addrs'], [b'10.0.0.1/255.0.0.0', b'x', b''], p)}
            us = {**pick('host user cwd'.split(), T, p), **pick('umask'.split(), [b'022', b'x'], p), **pick('cols lines sid tcpgid pgid ppid'.split(), [b'1', b'77', b'2147483647', b'0'], p), **pick(['egid'], N[:6], p)}
            cm = {**pick('chroot cwd iolog_group iolog_mode iolog_path iolog_user login_class selinux_role selinux_type utmp_user'.split(), [b'/', b'/newroot'] + T, p),
                  **pick('exec_background iolog_compress iolog_stdin iolog_ttyin noexec set_utmp sudoedit sudoedit_checkdir sudoedit_follow umask_override use_pty iolog_ttyout'.split(), B, p),
                  **pick('closefrom execfd nice timeout'.split(), N, p), **pick('umask'.split(), [b'022', b'0777', b'9', b''], p), **pick(['preserve_fds'], [b'3,4', b'', b'x'], p)}
            a = c(list(AUTH)); cm.update(AUTH[a][1]); cm['runas_euid'] = c([None, None, cm.get('runas_uid', b'0')]); st.update(AUTH[a][0])
            if a == 'user': cm['runas_gid'] = c([None, b'0', b'7']); cm['runas_egid'] = c([None, None, b'9', b'1000']); cm['runas_groups'] = c([b'0', b'0,5'])
            s = mk(self.id('tog'), a, tu=self.ALL, tp=self.ALL, set=st, usr=us, cmd=cm, opt={**pick(['binary_path'], [b'/opt/ap', b'/bin/cmd2', b'x/y/'], p), **pick(['gids_exempted'], [b'', b'77', b'x'], p)}, argv=[c(self.RAWT) for _ in range(r.randrange(4))])
            s.st('call', 1, 'open'); yes(s, ans=c([b'y', b'y', b'n'])); body(s); out.append(s)
        return out

    def irrelevant(self):
        """facts that decide nothing, next to every reason to pair and not to pair"""
        r = self.r; out = []
        T = [b'x', b'/usr/bin/sudo_approve', b'0', b'1000', b'root', b'true', b'-1', b'', b'/', b'edit']
        N = [b'0', b'1', b'3', b'1000', b'4294967295', b'x', b'-1', b'2000']
        keys = dict(set=['bsd_auth_type debug_flags login_class prompt remote_host runas_user selinux_role selinux_type timeout cmnd_chroot cmnd_cwd askpass runchroot runcwd apparmor_profile plugin_dir plugin_path', 'ignore_ticket implied_shell login_shell noninteractive preserve_environment preserve_groups run_shell set_home sudoedit intercept update_ticket background reset_timestamp remove_timestamp validate list', 'closefrom debug_level max_groups'],
                    usr=['host user cwd umask rlimit_core', '', 'cols lines sid tcpgid pgid ppid egid'],
                    cmd=['chroot cwd iolog_group iolog_mode iolog_path iolog_user login_class selinux_role selinux_type utmp_user preserve_fds umask apparmor_profile rootdir runas_user runas_group', 'exec_background iolog_compress iolog_stdin iolog_ttyin noexec set_utmp sudoedit sudoedit_checkdir sudoedit_follow umask_override use_pty set_home intercept use_ptrace update_ticket preserve_groups exec_pty', 'closefrom execfd nice timeout sudoedit_nfiles intercept_verify'],
                    opt=['user socket_mode pair_group exempt command user_gid', 'debug enabled auto_approve', 'timeout max_pairs'])
        base = dict(root=dict(usr=dict(uid=b'0')), to_self=dict(cmd=dict(runas_uid=b'1000', runas_gid=b'1000', runas_groups=b'1000')), approve=dict(cmd=dict(command=b'/usr/bin/sudo_approve')), hints=dict(cmd=dict(iolog_ttyout=b'false', iolog_stdout=b'false', iolog_stderr=b'false')),
                    ingroup=dict(opt=dict(gids_exempted=b'1000'), usr=dict(groups=b'1000')), unenforced=dict(opt=dict(gids_enforced=b'77')), required={}, user=dict(auth='user'), group=dict(auth='group'), ug=dict(set=dict(runas_group=b'grp')))
        flat = [(l, k, i) for l, g in keys.items() for i, ks in enumerate(g) for k in ks.split()]
        def go(b, extra):
            kw = {k: v for k, v in base[b].items() if k != 'auth'}
            for l, d in extra.items(): kw[l] = {**d, **kw.get(l, {})}
            s = mk(self.id('irr'), base[b].get('auth', 'root'), **kw); s.st('call', 1, 'open')
            s.st('connect', 1, SOCK if b != 'root' else b'/V/d/0.4242.sock', 0, 0).st('send', 1, '121:1'); log(s, 'stdin', b'in'); log(s, 'stdout', b'out'); close(s); out.append(s)
        val = lambda i: r.choice((T, [b'true'] * 3 + [b'false', b'1'], N)[i])
        for b in base:
            for l, k, i in flat:
                if (l, k) == ('cmd', 'preserve_groups'): continue
                for _ in range(1 if self.q else 6): go(b, {l: {k: val(i)}})
            for _ in range(15 if self.q else 400):
                x = {}
                for l, k, i in r.sample(flat, r.choice((2, 5, 40))):
                    if (l, k) != ('cmd', 'preserve_groups'): x.setdefault(l, {})[k] = val(i)
                go(b, x)
        return out

    # ------------------------------------------------------------------ C03, C05, C06
    def sockets(self):
        out = []; gates = [('bind', 1), ('chown', 1), ('chmod', 1), ('poll', 1), ('accept', 1), ('unlink', 1), ('umask', 2), ('send', 1), ('recv', 1), ('send', 2)]
        whos = {'root': [(0, 0), (1000, 1000), (65534, 65534), (1000, 0), (2000, 0)], 'user': [(2000, 2000), (1000, 1000), (65534, 65534), (65534, 0), (1000, 2000), (0, 0)],
                'group': [(1001, 3000), (1000, 1000), (65534, 65534), (3000, 1000), (0, 0), (1000, 0)]}
        for auth in AUTH:
            for um in (0o022, 0o000, 0o077, 0o777, 0o002):
                for w in whos[auth]:
                    s = mk(self.id('sok'), auth, umask=um); s.st('call', 1, 'open'); s.st('connect', 1, SOCK, *w); s.st('send', 1, '121:1'); conn(s, 2); s.st('send', 2, '110:1'); body(s); out.append(s)
            for g, n in gates:
                for w in whos[auth]:
                    for stale in (False, True):
                        s = mk(self.id('sokg'), auth, umask=self.r.choice((0, 0o022)));
                        if stale: s.obj(SOCK, 'sock', 0o777, 1000, 1000)
                        s.st('gate', 1, g, n + (g == 'unlink' and stale)); s.st('call', 1, 'open'); yes(s) if gates.index((g, n)) > 3 else None
                        s.st('connect', 3, SOCK, *w); s.st('send', 3, '121:1').st('release', 1); conn(s, 2); s.st('send', 2, '121:1'); s.st('connect', 4, SOCK, *w); body(s); out.append(s)
            for g, n in gates:
                s = mk(self.id('sokk'), auth); s.st('killb', 1, g, n).st('call', 1, 'open'); yes(s); [s.st('connect', i + 3, SOCK, *w) for i, w in enumerate(whos[auth][:4])]; out.append(s)
                s = mk(self.id('sokl'), auth); s.st('killa', 1, g, n).st('call', 1, 'open'); yes(s); [s.st('connect', i + 3, SOCK, *w) for i, w in enumerate(whos[auth][:4])]; out.append(s)
                for e in (1, 5, 12, 13, 24, 28, 30):
                    s = mk(self.id('sokf'), auth); s.st('fault', 1, g, n, e).st('call', 1, 'open'); yes(s); [s.st('connect', i + 3, SOCK, *w) for i, w in enumerate(whos[auth][:3])]; body(s); out.append(s)
        # other ids
        for rg, eg in ((b'0', b'0'), (b'3000', b'0'), (b'0', b'3000'), (b'7', b'7')):
            for ru, eu in ((b'2000', None), (b'2000', b'0'), (b'0', b'2000'), (b'1000', b'2000')):
                s = mk(self.id('soki'), cmd=dict(runas_uid=ru, runas_euid=eu, runas_gid=rg, runas_egid=eg)); s.st('call', 1, 'open')
                for i, w in enumerate(((1000, 1000), (2000, 1000), (65534, 3000), (65534, 7), (0, 0))): s.st('connect', i + 1, SOCK, *w)
                s.st('send', 2, '121:1'); body(s); out.append(s)
        for eg in (b'3000', b'0', b'7', b'4000000000'):
            for rg in (b'0', b'3000'):
                s = mk(self.id('sokj'), 'group', cmd=dict(runas_gid=rg, runas_egid=eg, runas_groups=b'0,1')); s.st('call', 1, 'open')
                for i, w in enumerate(((1000, 1000), (2000, 3000), (65534, 7), (65534, 0), (0, 0))): s.st('connect', i + 1, SOCK, *w)
                s.st('send', 2, '121:1'); body(s); out.append(s)
        return out

    def dirs(self):
        out = []
        modes = range(0o1000) if not self.q else sorted(set(range(0, 0o1000, 7)) | {0o755 | a | b for a in (0, 0o20, 0o2) for b in (0, 0o22)} | {0, 0o700, 0o711, 0o770, 0o707, 0o777})
        def one(s, path=SOCK):
            s.st('call', 1, 'open'); yes(s, path=path); body(s); out.append(s)
        for m in list(modes) + [0o1777, 0o2755, 0o4755, 0o2775, 0o1755, 0o1775]:
            s = mk(self.id('dir'), s=S('x')); s.id = self.id('dir'); s.obj(b'/V/d', 'dir', m).obj(b'/V/tty', 'reg', 0o666).obj(b'/V/d/other', 'reg', 0o600, 5, 5, b'keep'); one(s)
        for auth in AUTH: # a directory that passes its group on to what is created in it
            for g in (1000, 3000, 0, 2000):
                s = mk('x', auth, s=S(self.id('dirs')).obj(b'/V/d', 'dir', 0o2755, 0, g).obj(b'/V/tty', 'reg', 0o666)); s.st('call', 1, 'open').st('connect', 2, SOCK, 1000, 1000); yes(s); body(s); out.append(s)
        for u in (0, 1000, 1, 65534, 2000):
            for g in (0, 1000):
                for m in (0o755, 0o775, 0o757, 0o700):
                    s = mk('x', s=S(self.id('diro')).obj(b'/V/d', 'dir', m, u, g).obj(b'/V/tty', 'reg', 0o666)); one(s)
        for kind in ('reg', 'sock', 'fifo', 'lnk', 'none'):
            for tgt in ((b'/V/e', b'/V/none') if kind == 'lnk' else (b'',)):
                for m in (0o755, 0o777):
                    s = mk('x', s=S(self.id('dirk')).obj(b'/V/tty', 'reg', 0o666))
                    if kind == 'lnk': s.obj(b'/V/e', 'dir', m); s.obj(b'/V/d', 'lnk', 0o777, 0, 0, tgt)
                    elif kind != 'none': s.obj(b'/V/d', kind, m)
                    one(s, b'/V/e/1000.4242.sock' if kind == 'lnk' else SOCK)
        # what is at the path already, and its neighbours
        for kind in ('reg', 'dir', 'fifo', 'lnk', 'sock'):
            for m in (0o000, 0o600, 0o777):
                for tgt in ((b'/V/d/victim', b'/V/d/none', b'/V/d/so') if kind == 'lnk' else (b'data' if kind == 'reg' else b'',)):
                    for u in (0, 1000):
                        s = mk('x', self.r.choice(list(AUTH)), s=S(self.id('occ')).std(tu=b'U\n', tp=b'P\n').obj(b'/V/d/victim', 'reg', 0o600, 0, 0, b'v').obj(b'/V/d/so', 'sock', 0o600).obj(b'/V/d/1000.4243.sock', 'sock', 0o600).obj(b'/V/d/1000.4242.soc', 'reg', 0o600))
                        s.obj(SOCK, kind, m, u, u, tgt); one(s)
        # an untrusted directory keeps everything that is in it
        for m, u in ((0o777, 0), (0o775, 0), (0o757, 0), (0o1777, 0), (0o755, 1000), (0o700, 2000), (0o2775, 0)):
            for kind in ('sock', 'reg', 'dir', 'lnk', 'fifo'):
                for auth in AUTH:
                    s = mk('x', auth, s=S(self.id('dirt')).obj(b'/V/d', 'dir', m, u, 0).obj(b'/V/tty', 'reg', 0o666).obj(b'/V/d/victim', 'sock', 0o600).obj(SOCK, kind, self.r.choice((0, 0o600, 0o777)), self.r.choice((0, 1000)), 0, b'/V/d/victim' if kind == 'lnk' else b'')); one(s)
        # names too long for a socket
        for n in list(range(70, 112, 3)) + [120, 150]:
            for auth in AUTH:
                for kind in (None, 'sock') if n < 85 else (None, 'reg'):
                    d = b'/V/' + b'l' * n; q = d + b'/1000.4242.sock'
                    s = mk('x', auth, s=S(self.id('len')).std(tu=b'U%u\n', tp=b'P%p\n').obj(d, 'dir', 0o755), opt=dict(socket_dir=d), umask=self.r.choice((0, 0o022, 0o077)))
                    if kind == 'reg' or (kind and len(q) < 88): s.obj(q, kind, 0o600)
                    s.st('call', 1, 'open'); yes(s, path=q) if len(q) < 90 else None; body(s) if n % 2 else close(s); out.append(s)
        # names
        for uid in (b'1', b'1000', b'4294967294', b'007', b'+5'):
            for pid in (b'1', b'4242', b'2147483647', b'-1', b'0', b'+7', b'0042'):
                s = mk(self.id('nam'), usr=dict(uid=uid, pid=pid)); s.st('call', 1, 'open'); out.append(s)
                n = b'/V/d/%d.%d.sock' % (int(uid), int(pid)); s.st('connect', 1, n, 0, 0).st('send', 1, '121:1'); body(s)
        for sd in (b'/V/d/', b'/V//d', b'/V/./d', b'/V/d/.', b'/V/d//', b'/V/d2', b'/V/d2/', b'/V/dir with space', b'/V/' + b'a' * 60, b'/V/' + b'a' * 120):
            s = mk(self.id('sdr'), s=S('x').std().obj(b'/V/d2', 'dir', 0o755).obj(b'/V/dir with space', 'dir', 0o755).obj(b'/V/' + b'a' * 60, 'dir', 0o755), opt=dict(socket_dir=sd)); s.id = self.id('sdr'); s.st('call', 1, 'open'); p = b'/' + b'/'.join(x for x in sd.split(b'/') if x not in (b'', b'.')) + b'/1000.4242.sock'
            s.st('connect', 1, p[:90], 0, 0).st('send', 1, '121:1'); body(s); out.append(s)
        # the default directory
        for m in (0o755, 0o775):
            s = mk('x', s=S(self.id('sdd')).obj(b'/var/run/sudo_pair', 'dir', m).obj(b'/V/tty', 'reg', 0o666), opt=dict(socket_dir=None)); s.st('call', 1, 'open').st('connect', 1, b'/var/run/sudo_pair/1000.4242.sock', 0, 0).st('send', 1, '121:1'); body(s); out.append(s)
        s = mk('x', s=S(self.id('sdd')).obj(b'/V/tty', 'reg', 0o666), opt=dict(socket_dir=None)); s.st('call', 1, 'open'); body(s); out.append(s)
        return out

    # ------------------------------------------------------------------ C07, C08, C09
    def chunk(self, big):
        r = self.r
        k = r.random()
        if k < .15: return b''
        if k < .6: return bytes(r.randrange(256) for _ in range(r.randrange(1, 24)))
        if k < .8: return bytes([r.choice(b'\0\n\r\x1b%y\xff')]) * r.randrange(1, 5000)
        if k < .9 or not big: return b'\x1b[8;%d;%dt' % (r.randrange(99), r.randrange(99))
        return bytes([r.randrange(256)]) * r.choice((65536, 4096, 4097, 200000, 212993, 524288))
    def output(self, n, big=True):
        r = self.r; out = []
        s = mk(self.id('outb')); opened(s)
        for st in STREAMS: log(s, st, bytes(range(256)))
        for b in range(256): log(s, STREAMS[b % 3], bytes([b])) if b % (5 if self.q else 1) == 0 else None
        close(s); out.append(s)
        for st in STREAMS:
            for z in (0, 1, 2, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 212992, 1 << 20):
                s = mk(self.id('outz')); opened(s); log(s, st, '%d:%d' % (r.randrange(256), z)); log(s, 'ttyout', b'after'); close(s); out.append(s)
        for l, c in ((0, 0), (1, 1), (24, 80), (65535, 65535), (4294967295, 4294967295), (2147483648, 7), (7, 2147483648), (10, 100)):
            s = mk(self.id('outw')); opened(s); log(s, 'stdout', b'<'); s.st('call', 1, 'winsize', l, c); log(s, 'stdout', b'>'); s.st('call', 1, 'winsize', c, l); close(s); out.append(s)
        s = mk(self.id('outw')); opened(s)
        for k in range(32): s.st('call', 1, 'winsize', 1 << k, (1 << k) - 1); s.st('call', 1, 'winsize', 10 ** (k % 10), 10 ** (k % 10) - 1)
        close(s); out.append(s)
        hints = ['iolog_ttyout', 'iolog_stdout', 'iolog_stderr', 'iolog_stdin', 'iolog_ttyin']
        for v in itertools.product((b'true', b'false'), repeat=5):
            if v[:3] == (b'false',) * 3: continue
            s = mk(self.id('outh'), cmd=dict(zip(hints, v))); opened(s); body(s); out.append(s)
        for h in hints:
            for v in (None, b'', b'1', b'TRUE', b'no'):
                s = mk(self.id('outg'), cmd={h: v}); opened(s); body(s); out.append(s)
        for _ in range(n):
            s = mk(self.id('outr'), r.choice(list(AUTH)), sa=r.choice(('restart', 'norestart')), cmd={h: r.choice((b'true', b'true', b'false', None)) for h in hints[1:]}); opened(s)
            slow = r.random() < .4; off = False
            for _ in range(r.randrange(2, 12)):
                k = r.random()
                if k < .12: s.st('call', 1, 'winsize', r.randrange(1000), r.randrange(1000))
                elif k < .2: log(s, 'ttyin', self.chunk(False))
                elif k < .24: log(s, 'stdin', self.chunk(False))
                else:
                    if r.random() < .4: s.st('short', 1, 'send', r.choice((1, 2, 3)), r.choice((1, 2, 5, 100)))
                    if r.random() < .3: s.st('fault', 1, 'send', r.choice((1, 2)), 4)
                    log(s, r.choice(STREAMS), self.chunk(big))
                if slow and r.random() < .4: off = not off; s.st('drain', 1, 'off' if off else 'on')
                if off and r.random() < .3: s.st('read', 1, r.choice((1, 100, 70000)))
            if off: s.st('drain', 1, 'on')
            close(s, st=r.choice((0, 1, 256, -1)), err=r.choice((0, 2))); log(s, 'stdout', b'late'); out.append(s)
        # a sequence of short writes
        for st in STREAMS + ['w']:
            for k in (1, 2, 3, 7):
                s = mk(self.id('outp')); opened(s)
                for i in range(1, 8): s.st('short', 1, 'send', i, k)
                if st == 'w': s.st('call', 1, 'winsize', 12345, 67890)
                else: log(s, st, bytes(range(60, 120)))
                log(s, 'stdout', b'.'); close(s); out.append(s)
        return out
    def loss(self, n):
        r = self.r; out = []
        calls = ['ttyout', 'stdout', 'stderr', 'w', 'stdin', 'ttyin']
        def one(s, c, b=b'data'):
            return s.st('call', 1, 'winsize', 5, 6) if c == 'w' else log(s, c, b)
        for how in ('pclose', 'shutrd', 'shutwr'):
            for first in calls:
                for second in calls:
                    s = mk(self.id('los'), r.choice(list(AUTH))); opened(s); log(s, 'stdout', b'ok'); s.st(how, 1); one(s, first); one(s, second); one(s, 'stdout'); one(s, 'w'); close(s); out.append(s)
            # while a report is blocked or halfway
            for size in (300000, 1000000):
                for rd in (0, 1000, 250000):
                    for first in STREAMS:
                        s = mk(self.id('losb')); opened(s); s.st('drain', 1, 'off'); one(s, first, b'x' * size); s.st('read', 1, rd) if rd else None; s.st(how, 1); one(s, 'stdout'); one(s, 'w'); one(s, 'ttyout', b''); close(s); out.append(s)
            # unread data at the moment of the loss
            s = mk(self.id('losu')); opened(s); s.st('drain', 1, 'off'); log(s, 'stdout', b'x' * 100); s.st(how, 1); [one(s, c) for c in calls]; close(s); out.append(s)
            # lost before the session has really begun
            for g in (('send', 2), ('send', 3)):
                s = mk(self.id('lose')); s.st('gate', 1, *g).st('call', 1, 'open'); yes(s); s.st(how, 1).st('release', 1); [one(s, c) for c in calls]; close(s); out.append(s)
            s = mk(self.id('losg')); opened(s); s.st('gate', 1, 'send', 1); log(s, 'ttyout', b'abc'); s.st(how, 1).st('release', 1); [one(s, c) for c in calls]; close(s); out.append(s)
            for z in (1, 2, 50):
                s = mk(self.id('losp')); opened(s); s.st('short', 1, 'send', 1, z).st('gate', 1, 'send', 2); log(s, 'ttyout', b'abcdefgh' * 10); s.st(how, 1).st('release', 1); [one(s, c) for c in calls]; close(s); out.append(s)
        # many reports after the loss
        s = mk(self.id('losm')); opened(s); s.st('pclose', 1); [one(s, r.choice(calls)) for _ in range(25)]; close(s); out.append(s)
        for _ in range(n):
            s = mk(self.id('losr'), r.choice(list(AUTH))); opened(s); k = r.randrange(6)
            for i in range(r.randrange(3, 10)):
                if i == k: s.st(r.choice(('pclose', 'pclose', 'shutrd', 'shutwr')), 1)
                if r.random() < .15: s.st('fault', 1, 'send', 1, r.choice((4, 5, 32, 104)))
                one(s, r.choice(calls), self.chunk(True))
            close(s); out.append(s)
        return out
    def stdin(self):
        out = []
        for auth in AUTH:
            for v in (b'true', b'false', None, b'', b'x', b'1'):
                for d in (b'', b'x', b'y\n', b'\0' * 9, b'a' * 70000):
                    for c in ('stdin', 'ttyin'):
                        s = mk(self.id('stn'), auth, cmd=dict(iolog_stdin=v, iolog_ttyin=v)); opened(s); log(s, c, d); log(s, 'stdout', b'o'); log(s, c, d); log(s, 'ttyin', b't'); close(s); out.append(s)
        for ex in (dict(opt=dict(gids_exempted=b'1001')), dict(opt=dict(gids_enforced=b'77')), dict(usr=dict(uid=b'0')), dict(cmd=dict(command=b'/usr/bin/sudo_approve')), dict(cmd=dict(iolog_ttyout=None, iolog_stdout=None, iolog_stderr=None)), dict(cmd=dict(runas_uid=b'1000', runas_gid=b'1000'))):
            for v in (b'true', b'false', None, b'x'):
                k = {a: dict(b) for a, b in ex.items()}; k.setdefault('cmd', {}); k['cmd'].update(iolog_stdin=v, iolog_ttyin=v)
                s = mk(self.id('stx'), **k); s.st('call', 1, 'open'); log(s, 'stdin', b'data'); log(s, 'stdin', b''); body(s); out.append(s)
        return out

    # ------------------------------------------------------------------ C13
    def lifecycle(self, n):
        r = self.r; out = []
        callbacks = ['ttyout', 'stdout', 'stderr', 'stdin', 'ttyin', 'w', 'version', 'close']
        def one(s, c, v=0):
            return s.st('call', 1, 'winsize', 5, 6) if c == 'w' else s.st('call', 1, 'version', v) if c == 'version' else close(s) if c == 'close' else log(s, c, b'data')
        kinds = [('paired', {}), ('refused', {}), ('eof', {}), ('exempt', dict(opt=dict(gids_exempted=b'1001'))), ('query', dict(cmd=dict(command=None))), ('facts', dict(usr=dict(uid=None))), ('api', dict(min=8)), ('ug', dict(set=dict(runas_group=b'g'))), ('none', None)]
        for name, kw in kinds:
            for a in callbacks:
                for b in callbacks:
                    s = mk(self.id('lif'), **(kw or {}))
                    if name != 'none': s.st('call', 1, 'open')
                    if name == 'paired': yes(s)
                    if name == 'refused': yes(s, ans=b'n')
                    if name == 'eof': conn(s); s.st('pclose', 1)
                    # sudo reports the version after a version query only
                    for c in (a, b): one(s, c, 1) if not (c == 'version' and name not in ('query', 'exempt', 'paired')) else None
                    one(s, 'close'); [one(s, c) for c in callbacks[:6]]; one(s, 'close'); out.append(s)
        for v in (0, 1):
            for raw in (dict(cmd=None), dict(cmd=[]), dict(argv=[], cmd=[]), dict(argv=[])):
                s = mk(self.id('lfq'), raw=raw); s.st('call', 1, 'open'); s.st('call', 1, 'version', v); body(s); out.append(s)
            s = mk(self.id('lfv')); s.st('call', 1, 'version', v) if False else None; opened(s); s.st('call', 1, 'version', v).st('call', 1, 'version', v); body(s); out.append(s)
        return out

    # ------------------------------------------------------------------ C15
    MTEXT = [('set', 'plugin_dir'), ('set', 'plugin_path'), ('set', 'progname'), ('usr', 'cwd'), ('usr', 'host'), ('usr', 'user')]
    MINT = ['egid', 'euid', 'gid', 'uid', 'pgid', 'pid', 'ppid', 'groups']
    INTS = [b'', b'x', b'-1', b'+1', b' 1', b'1 ', b'1x', b'0x1', b'4294967295', b'4294967296', b'99999999999999999999', b'2147483647', b'2147483648', b'-2147483648', b'-2147483649', b'00', b'007', b'1.0', b'\xff', b'1,2', b'+', b'-', b'--1', b'1_0', b'\xd9\xa1', b'1\n', b'-0']
    LISTS = [b'', b',', b'1,', b',1', b'1,,2', b'1,2', b'1, 2', b'x', b'1,x', b'+1,2', b'-1', b'4294967296', b'1,4294967296', b'\xff', b'1;2', b'0', b'1001', b'1,2,3,1001']
    def facts(self, n):
        r = self.r; out = []
        ex = dict(opt=dict(gids_exempted=b'1001'))
        def add(pre, **kw):
            s = mk(self.id(pre), **kw); s.st('call', 1, 'open'); u = dict(e.partition(b'=')[::2] for e in s.hosts[1][5]['usr'] or [])
            try: n = b'/V/d/%d.%d.sock' % (int(u[b'uid']), int(u[b'pid']))
            except Exception: n = SOCK
            if n.count(b'.') == 2: s.st('connect', 1, n, 0, 0)
            s.st('send', 1, '121:1'); log(s, 'stdout', b'x'); close(s); out.append(s)
        skip = lambda k, v: k == 'uid' and v == b'4294967295'
        for arr, k in self.MTEXT:
            for v in (None, b'', b'\xff', b'a\xffb', b'caf\xc3\xa9', b'a=b', b'%s%n', b'\xed\xa0\x80', b'\xc0\x80'):
                add('fct', **{arr: {k: v}}); add('fcx', **merge({arr: {k: v}}, ex)) if self.q is False or v in (None, b'\xff') else None
        for k in self.MINT:
            for v in [None] + (self.LISTS if k == 'groups' else self.INTS):
                if skip(k, v): continue
                add('fci', usr={k: v})
                if v in (None, b'x', b''): add('fcj', usr={k: v}, **ex)
        for a, b in itertools.combinations(self.MTEXT + [('usr', k) for k in self.MINT], 2):
            d = {}; d.setdefault(a[0], {})[a[1]] = None; d.setdefault(b[0], {})[b[1]] = b'\xff'; add('fc2', **d)
        for raw in (dict(set=None), dict(usr=None), dict(cmd=None), dict(env=None), dict(opt=None), dict(set=[]), dict(usr=[]), dict(cmd=[]), dict(opt=[]), dict(argv=[])):
            add('fcr', raw=raw)
        # optional ones
        for k in ('runas_uid', 'runas_gid', 'runas_euid', 'runas_egid'):
            for v in [None] + self.INTS:
                if v == b'4294967295': continue
                add('fco', cmd={k: v}); add('fcp', cmd={k: v, 'runas_uid' if k != 'runas_uid' else 'runas_gid': b'2000'})
        for v in [None] + self.LISTS:
            add('fcl', cmd=dict(runas_groups=v)); add('fcl', opt=dict(gids_enforced=v)); add('fcl', opt=dict(gids_exempted=v)); add('fcl', opt=dict(gids_enforced=v), cmd=dict(runas_groups=b'1,2', runas_gid=b'2', runas_uid=b'2000'))
        for k in ('iolog_ttyout', 'iolog_stdout', 'iolog_stderr', 'iolog_stdin', 'iolog_ttyin', 'noexec', 'set_utmp', 'use_pty', 'exec_background', 'sudoedit_checkdir', 'sudoedit_follow', 'iolog_compress', 'preserve_groups'):
            for v in (None, b'', b'true', b'false', b'True', b'1', b'\xff', b'true '):
                if k == 'preserve_groups': continue
                add('fcb', cmd={k: v})
        for k in ('binary_path', 'user_prompt_path', 'pair_prompt_path', 'socket_dir'):
            for v in (None, b'', b'\xff', b'/V/\xff', b'/V/none', b'rel'):
                add('fcq', opt={k: v})
        for arr, ks in (('cmd', ['chroot', 'closefrom', 'cwd', 'execfd', 'iolog_group', 'iolog_mode', 'iolog_path', 'iolog_user', 'nice', 'preserve_fds', 'selinux_role', 'selinux_type', 'timeout', 'umask', 'utmp_user', 'umask_override']),
                        ('set', ['bsd_auth_type', 'closefrom', 'debug_flags', 'debug_level', 'ignore_ticket', 'implied_shell', 'login_class', 'login_shell', 'max_groups', 'network_addrs', 'noninteractive', 'preserve_environment', 'preserve_groups', 'prompt', 'remote_host', 'run_shell', 'runas_user', 'selinux_role', 'selinux_type', 'set_home', 'sudoedit', 'timeout']),
                        ('usr', ['cols', 'lines', 'sid', 'tcpgid', 'umask', 'tty'])):
            for k in ks:
                for v in (None, b'', b'x', b'\xff', b'-1', b'1', b'0', b'true', b'99999999999999999999', b'1.2.3.4', b'1.2.3.4/255.0.0.0', b'::1/ffff:: 1.2.3.4/1.1.1.1', b'10.0.0.1/', b'/', b'0777', b'1,2,3'):
                    if k == 'tty' and v: v = b'/V/x' + v
                    add('fcz', **{arr: {k: v}})
        # nonsense entries around the real ones
        for _ in range(n):
            s = mk(self.id('fcn'))
            a = s.hosts[1][5]
            for arr in ('set', 'usr', 'cmd', 'opt'):
                l = list(a[arr])
                for _ in range(r.randrange(4)):
                    k = r.random(); e = r.choice(l)
                    if k < .3: e = r.choice([b'', b'=', b'==', b'=x', b'junk', b'\xff=\xff', b'uid', b'Uid=5', b' uid=5', b'uid =5'])
                    elif k < .6: e = e.partition(b'=')[0] + b'=' + r.choice([b'1000', b'0', b'2000', b'x', b'', b'true', b'/V/d'])
                    elif k < .8: e = e.partition(b'=')[0]
                    else: e = e + b'=more'
                    l.insert(r.randrange(len(l) + 1), e)
                a[arr] = [e for e in l if e != b'uid=4294967295' and not (e.startswith(b'tty=') and e != b'tty=/V/tty')]
            s.st('call', 1, 'open'); yes(s); log(s, 'stdout', b'x'); close(s); out.append(s)
        return out

    # ------------------------------------------------------------------ C16
    def versions(self):
        out = []
        majs = [0, 1, 2, 3, 9, 255, 256, 65534, 65535]; mins = [0, 1, 7, 8, 9, 10, 12, 14, 19, 99, 255, 256, 65535]
        for a in majs:
            for b in mins:
                for ex in ({}, dict(opt=dict(gids_exempted=b'1001')), dict(cmd=dict(command=None)), dict(usr=dict(uid=None))) if (a, b) in ((1, 8), (1, 9), (1, 10), (2, 0), (0, 9), (0, 99), (2, 8), (1, 0)) or not self.q else ({},):
                    s = mk(self.id('ver'), maj=a, min=b, **ex); s.st('call', 1, 'open'); yes(s); log(s, 'stdout', b'x'); close(s); out.append(s)
        for pf in ('null', 'fail'):
            for v in ((1, 8), (1, 9), (0, 9)):
                s = mk(self.id('verp'), maj=v[0], min=v[1], pf=pf); s.st('call', 1, 'open'); yes(s); log(s, 'stdout', b'x'); close(s); out.append(s)
        return out

    def bare(self):
        """vectors that are not there at all, with and without the language's own checks"""
        out = []
        for dev in (True, False):
            for cmd in (None, [], [b'command='], [b'command=/bin/cmd', b'runas_uid=0', b'runas_gid=0', b'runas_groups=0', b'iolog_stdout=true']):
                for argv in (None, [], [b'x']):
                    for env in (None, []):
                        for opt in (None, [b'socket_dir=/V/d']):
                            for v in (0, 1):
                                s = mk(self.id('bar'), raw=dict(cmd=cmd, argv=argv, env=env, opt=opt)); s.dev = dev
                                s.st('call', 1, 'open'); yes(s); s.st('call', 1, 'version', v); log(s, 'stdout', b'x'); s.st('call', 1, 'winsize', 1, 2); close(s); log(s, 'stdin', b'x'); close(s); out.append(s)
        return out

    # ------------------------------------------------------------------ C17, C18, C19
    TEXT = [b'', b'x', b'%', b'%%', b'%s%n%p', b'%u', b'caf\xc3\xa9', b'a b', b'a\tb', b"a'b", b'\x1b[2J', b'a=b', b'%C', b'%%C', b'%U@%h', b'\x01\x02', b'"q"', b'$(id)', b'-x']
    RAWT = TEXT + [b'\xff', b'\xff\xfe%', b'\x80abc']
    def prompts(self, n):
        r = self.r; out = []
        def add(pre, tu, tp, ans=b'y', tty=True, **kw):
            s = mk(self.id(pre), tu=tu, tp=tp, tty=tty, **kw); s.st('call', 1, 'open'); yes(s, ans=ans); log(s, 'stdout', b'x'); close(s); out.append(s)
        for b in range(256):
            t = b'<%' + bytes([b]) + b'>'
            if b % 2 or not self.q or chr(b) in 'bBCdghHpuUW%': add('prb', t, t)
            else: add('prb', None, t)
        for t in (b'', b'%', b'%%', b'%%%', b'a%', b'%u%', b'%%u', b'%u%u', b'\0%u\0', b'\n', b'%B %C %U %W %H %b %d %g %h %p %u\n', bytes(range(256)), b'%\xff', b'%\0', b'%%%%%u', b'x' * 9000 + b'%u'):
            for tty in (True, False): add('prt', t, t, tty=tty); add('prn', t, b'P', tty=tty); add('prm', b'U', t, tty=tty, ans=b'n')
        # values
        for v in self.TEXT:
            for f in (dict(usr=dict(user=v)), dict(usr=dict(host=v)), dict(usr=dict(cwd=v)), dict(cmd=dict(cwd=v)), dict(opt=dict(binary_path=b'/x/' + v)), dict(set=dict(prompt=v))):
                add('prv', b'%B|%b|%C|%d|%h|%U\n', b'%C|%U|%h|%d|%b|%B', tty=r.random() < .7, **f)
        for v in (b'0', b'24', b'65535', b'', b'x', b'-1', b'18446744073709551615', b'18446744073709551616', b'007', None):
            for k in ('lines', 'cols'): add('prl', b'%H %W\n', b'%W %H', usr={k: v})
        for v in (b'0', b'1', b'4294967294', b'007', b'+3'):
            add('prg', b'%g', b'%g %u', usr=dict(gid=v))
        for bp in (b'/usr/bin/sudo_approve', b'sudo_approve', b'/', b'/a/b/', b'/a/..', b'/a/b/.', b'', b'/a//b', b'..', b'./x', b'/x/\xc3\xa9'):
            add('prx', b'%b %B', b'%b\n%B', opt=dict(binary_path=bp))
        # files
        for kw in (dict(tu=None, tp=None), dict(tu=b'U', tp=None), dict(tu=None, tp=b'P')):
            for auth in AUTH:
                for tty in (True, False): s = mk(self.id('prf'), auth, tty=tty, **kw); s.st('call', 1, 'open'); yes(s); log(s, 'stdout', b'x'); close(s); out.append(s)
        for p in (b'/V/tu', b'/V/d', b'/V/none/x', b'', b'/V/tp', b'/V//tu', b'/V/./tp'):
            for k in ('user_prompt_path', 'pair_prompt_path'): add('prp', b'U%u\n', b'P%p\n', opt={k: p})
        s = mk('x', s=S(self.id('prd')).obj(b'/V/d', 'dir', 0o755).obj(b'/V/tty', 'reg', 0o666).obj(b'/etc/sudo_pair.prompt.user', 'reg', 0o644, 0, 0, b'EU%u\n').obj(b'/etc/sudo_pair.prompt.pair', 'reg', 0o644, 0, 0, b'EP%p\n'), opt=dict(user_prompt_path=None, pair_prompt_path=None)); s.st('call', 1, 'open'); yes(s); close(s); out.append(s)
        s = mk(self.id('prz'), tu=b'x' * 30000 + b'%u', tp=b'y' * 70000 + b'%p\n' + b'\xff\0' * 20); s.st('call', 1, 'open'); yes(s); body(s); out.append(s)
        # terminals
        for tk in ('reg', 'dir', 'none', 'nokey', 'lnk'):
            for pf in ('ok', 'null', 'fail'):
                for t in (b'U%u\n', b'%s%n%d U', b'U\0V', b''):
                    s = S(self.id('prk')).obj(b'/V/d', 'dir', 0o755).obj(b'/V/tu', 'reg', 0o644, 0, 0, t).obj(b'/V/tp', 'reg', 0o644, 0, 0, b'P')
                    if tk in ('reg', 'dir'): s.obj(b'/V/tty', tk, 0o777)
                    if tk == 'lnk': s.obj(b'/V/tty', 'lnk', 0o777, 0, 0, b'/V/none')
                    mk('x', s=s, pf=pf, usr=dict(tty=None) if tk == 'nokey' else {}); s.st('call', 1, 'open'); yes(s, ans=r.choice([b'y', b'n'])); log(s, 'stdout', b'x'); close(s); out.append(s)
        for cls, e in (('open', 13), ('open', 2), ('open', 24), ('write', 5), ('write', 28), ('read', 5), ('write', 4), ('read', 4), ('open', 4)):
            for k in range(1, 7):
                for tty in (True, False): s = mk(self.id('prq'), tu=b'U%u %p\n', tp=b'P%p %C\n', tty=tty); s.st('fault', 1, cls, k, e).st('call', 1, 'open'); yes(s); log(s, 'stdout', b'x'); close(s); out.append(s)
        for k in (1, 2, 3):
            for z in (1, 2): s = mk(self.id('prs'), tu=b'User %u %p\n', tp=b'Pair %p %C\n'); s.st('short', 1, 'write', k, z).st('short', 1, 'send', k, z).st('call', 1, 'open'); yes(s); log(s, 'stdout', b'x'); close(s); out.append(s)
        for _ in range(n):
            t = lambda: b''.join(r.choice([b'%' + bytes([r.choice(b'bBCdghHpuUW%xyz')]), bytes([r.randrange(256)]), b'text ', b'\n', b'%']) for _ in range(r.randrange(12)))
            v = lambda: r.choice(self.TEXT)
            add('prr', t(), t(), ans=r.choice([b'y', b'n']), tty=r.random() < .6, usr=dict(user=v(), host=v(), cwd=v(), lines=r.choice([b'1', b'x', b'77']), cols=r.choice([b'2', None])), cmd=r.choice([{}, dict(cwd=v())]), argv=[b'cmd'] + [r.choice(self.RAWT) for _ in range(r.randrange(4))])
        return out
    FLAGT = ['runas_user', 'prompt', 'login_class', 'selinux_role', 'selinux_type', 'bsd_auth_type']
    FLAGB = ['sudoedit', 'login_shell', 'run_shell', 'set_home', 'preserve_environment', 'ignore_ticket', 'noninteractive', 'implied_shell']
    def cmdlines(self, n):
        r = self.r; out = []
        def add(pre, **kw):
            s = mk(self.id(pre), kw.pop('auth', 'root'), tu=b'%C\n', tp=b'%C', tty=True, **kw); s.st('call', 1, 'open'); yes(s); close(s); out.append(s)
        for pn in (b'sudo', b'sudoedit', b'', b'/usr/bin/sudo', b'su do', b'%C', b'SUDOEDIT'):
            for se in (b'true', b'false', None): add('cmn', set=dict(progname=pn, sudoedit=se))
        for pn in near(b'sudoedit') + near(b'sudo') + [b'edit', b'sudoe', b'-e', b'--edit']: add('cmn', set=dict(progname=pn, sudoedit=b'true'))
        for k in self.FLAGB + ['preserve_groups']:
            for v in near(b'true')[::4 if self.q else 1]: add('cmv', set={k: v})
        for k in self.FLAGT + ['runas_group']:
            for v in [None] + self.RAWT:
                add('cmt', auth='group' if k == 'runas_group' else 'root', set={k: v})
        for k in self.FLAGB + ['preserve_groups']:
            for v in (None, b'true', b'false', b'1', b'', b'TRUE', b'\xff', b'true '): add('cmb', set={k: v})
        for v in (None, b'0', b'3', b'100', b'', b'x', b'-1', b'18446744073709551615', b'18446744073709551616', b'+7', b'007'): add('cmc', set=dict(closefrom=v))
        for k in ('plugin_dir', 'max_groups', 'timeout', 'remote_host', 'debug_flags', 'network_addrs'):
            add('cmo', set={k: b'5'})
        for a in ([], [b''], [b'', b''], [b'a'], [b'a', b''], [b'', b'a'], [b'a b', b'c'], [b'\xff'], [bytes([i]) for i in range(1, 128)], [bytes(range(1, 256))], [b'x' * 5000], [b'a'] * 300, [b'cmd', b'%u', b'%%'], [b'--', b'-u', b'x=y'], [b'a\nb']):
            add('cma', argv=a)
        for b in range(1, 256):
            if b % (8 if self.q else 1) == 0: add('cmx', argv=[b'c', bytes([b]), b'z' + bytes([b])])
        for _ in range(n):
            st = {k: r.choice([None, None] + self.RAWT) for k in self.FLAGT}
            st.update({k: r.choice([None, b'true', b'false']) for k in self.FLAGB + ['preserve_groups']}); st['closefrom'] = r.choice([None, b'3', b'x']); st['progname'] = r.choice([b'sudo', b'sudoedit', b'mysudo'])
            auth = r.choice(['root', 'user', 'group'])
            if auth == 'group': st['runas_group'] = r.choice([b'grp', b'', b'\xff', b'%g', b'a b'])
            add('cmr', auth=auth, set=st, argv=[r.choice(self.RAWT) for _ in range(r.randrange(8))])
        return out
    def texts(self, n):
        """everything that ends up in sudo's printf"""
        r = self.r; out = []
        fm = [b'%s', b'%n', b'%s%s%s%s%s%s%s%s', b'%5000d', b'%%', b'%', b'%1$s', b'%*d', b'%hhn%n', b'100%', b'%p %x', b'\xff%s', b'%C%u%', b'%-10s|', b'%.3s']
        for v in fm:
            for pf in ('ok', 'null', 'fail'):
                for kw in (dict(usr=dict(tty=None, user=v)), dict(usr=dict(tty=None, host=v)), dict(usr=dict(tty=None, cwd=v)), dict(usr=dict(tty=None), argv=[b'c', v]), dict(usr=dict(tty=None), set=dict(prompt=v)), dict(usr=dict(tty=None, uid=v)), dict(usr=dict(tty=None, user=v, uid=None)), dict(usr=dict(tty=None), opt=dict(socket_dir=b'/V/' + v)), dict(min=8, usr=dict(user=v)), dict(usr=dict(tty=None), set=dict(runas_group=v)), dict(usr=dict(tty=None), opt=dict(binary_path=v))):
                    s = mk(self.id('txt'), tu=b'<%U %h %d %C %B>\n' + v, tp=b'P' + v, pf=pf, **kw); s.st('call', 1, 'open'); yes(s, ans=r.choice([b'y', b'n'])); log(s, 'stdin', b'x'); log(s, 'stdout', v); s.st('pclose', 1); log(s, 'stdout', v); close(s); out.append(s)
        for pf in ('ok', 'null', 'fail'):
            for kind in (dict(cmd=dict(command=None)), dict(opt=dict(gids_exempted=b'1001')), {}, dict(usr=dict(tty=b'/V/none'))):
                s = mk(self.id('txp'), pf=pf, **kind); s.st('call', 1, 'open'); 
                if 'cmd' not in kind: yes(s)
                s.st('call', 1, 'version', 1); body(s); out.append(s)
                s = mk(self.id('txq'), pf=pf, **kind); s.st('call', 1, 'open'); s.st('sig', 1, 'INT'); body(s); out.append(s)
        for _ in range(n):
            t = b''.join(r.choice(fm + [b'text', b'\n', b' ']) for _ in range(r.randrange(1, 9)))
            s = mk(self.id('txr'), tu=t, tp=b'P', tty=False, pf=r.choice(['ok', 'ok', 'null', 'fail'])); s.st('call', 1, 'open'); yes(s, ans=r.choice([b'y', b'n', b'\0'])); log(s, 'stdout', t); s.st('pclose', 1); log(s, 'ttyout', t); close(s); out.append(s)
        return about([s for s in out if s.hosts[1][2] != 'ok'], 'C19') and out

    def curious(self, *what):
        """bytes that look as if they meant something: in templates, in facts, in the command line, in output"""
        out = []; B, T = curious.BLOB, curious.TEXT
        def one(pre, c, **kw):
            s = mk(self.id(pre), **kw); s.st('call', 1, 'open'); yes(s); close(s); out.append(s); return s
        if 'tpl' in what:
            for i, t in enumerate(B):
                o = curious.rot(B, 37)[i]
                one('cut', t, tu=t, tp=o, tty=i % 2 == 0)
                if self.q and i % 2: continue
                one('cut', t, tu=b'%U\n' + t + b'\n%u', tp=t + b'%p' + t, tty=i % 4 == 0)
                one('cut', t, tu=t + b'%u\n', tp=b'%p' + t, tty=i % 4 == 0)
        if 'fact' in what:
            for i, t in enumerate(T):
                v = [curious.rot(T, k)[i] for k in (0, 11, 29, 53, 71, 97)]
                one('cuf', t, tu=b'%U|%h|%d|%C\n', tp=b'%C|%d|%h|%U', tty=i % 2 == 0, usr=dict(user=v[0], host=v[1], cwd=v[2]), argv=[b'cmd', v[3], v[4]], set=dict(prompt=v[5]))
        if 'argv' in what:
            for i in range(0, len(T), 4):
                v = [curious.rot(T, k)[i] for k in (0, 11, 29, 53, 71, 97)]
                one('cua', i, tu=b'%C\n', tp=b'%C', argv=T[i:i + 4], set=dict(prompt=v[0], runas_user=v[1], login_class=v[2], selinux_role=v[3], selinux_type=v[4], bsd_auth_type=v[5]))
                one('cua', i, tu=b'%C\n', tp=b'%C', argv=[T[i]], set=dict(progname=v[0]), tty=False)
        if 'out' in what:
            for k in range(6 if self.q else 24):
                s = mk(self.id('cuo')); opened(s)
                for i, t in enumerate(curious.rot(B, 31 * k)):
                    if k % 2: t = t + t if k % 4 == 1 else b'a' + t + b'b'
                    log(s, STREAMS[(i + k) % 3], t)
                close(s); out.append(s)
        return out

    # ------------------------------------------------------------------ C20
    def sessions(self, n):
        """several sudo processes in one directory"""
        r = self.r; out = []
        for _ in range(n):
            k = r.choice((2, 2, 3, 4))
            s = S(self.id('mul')).std(tu=b'U%u\n', tp=b'P%p %C\n', tty=False); s.focus = ['C20']; s.auth = 'root'
            H = []
            for h in range(1, k + 1):
                a = r.choice(list(AUTH)); st, cm, who = AUTH[a]; uid = r.choice((1000, 1000, 1001, 1002)); pid = r.choice((4242, 4243, 42, 424)) * 10 + h if r.random() < .7 else 4242 * 10 + h
                usr = dict(uid=b'%d' % uid, pid=b'%d' % pid, tty=b'/V/none')
                if a == 'group': cm = merge(cm, dict(runas_uid=b'%d' % uid))
                s.host(h, set=st, usr=usr, cmd=cm, argv=[b'cmd%d' % h]); H.append((b'/V/d/%d.%d.sock' % (uid, pid), who))
            ops = {h: ['open'] + [r.choice(['log', 'log', 'w', 'stdin']) for _ in range(r.randrange(1, 4))] + (['close'] if r.random() < .7 else []) for h in range(1, k + 1)}
            peers = {}; np = 0; opn = set()
            for _ in range(r.randrange(8, 24)):
                x = r.random(); h = r.randrange(1, k + 1)
                if x < .4 and ops[h]:
                    o = ops[h].pop(0)
                    if o == 'open': 
                        if r.random() < .25: s.st('gate', h, *r.choice([('poll', 1), ('accept', 1), ('bind', 1), ('unlink', 1), ('send', 1), ('recv', 1)]))
                        s.st('call', h, 'open'); opn.add(h)
                    elif o == 'log': log(s, r.choice(STREAMS), b'from %d;' % h * r.choice((1, 3)), h)
                    elif o == 'w': s.st('call', h, 'winsize', h, h + 100)
                    elif o == 'stdin': log(s, 'stdin', b'in', h)
                    else: close(s, h)
                elif x < .65 and np < 9:
                    np += 1; s.st('connect', np, H[h - 1][0], *(H[h - 1][1] if r.random() < .85 else (65534, 65534))); peers[np] = h
                elif x < .85 and peers: s.st('send', r.choice(list(peers)), r.choice(['121:1', '121:1', '110:1', '89:1', '0:1']))
                elif x < .9 and peers: s.st(r.choice(['pclose', 'shutwr']), r.choice(list(peers)))
                elif x < .95: s.st('sig', h, 'INT')
                else: s.st('release', h)
            for h in range(1, k + 1): s.st('release', h)
            for h in range(1, k + 1):
                for o in ops[h]:
                    if o == 'open': s.st('call', h, 'open'); np += 1; s.st('connect', np, *((H[h - 1][0],) + H[h - 1][1])); s.st('send', np, '121:1')
                    elif o == 'close': close(s, h)
                    else: log(s, 'stdout', b'%d' % h, h)
            out.append(s)
        # many peers on one socket
        for a in (b'n', b'y', b''):
            for late in (False, True):
                for m in (2, 4, 7):
                    s = mk(self.id('mpe')); s.focus = ['C20']; s.st('gate', 1, 'accept' if not late else 'unlink', 1).st('call', 1, 'open')
                    for p in range(1, m + 1): conn(s, p)
                    for p in range(2, m + 1): s.st('send', p, '121:1' if a != b'y' else '110:1')
                    if a == b'': s.st('pclose', 1)
                    s.st('release', 1)
                    if a: s.st('send', 1, rle(a))
                    body(s); out.append(s)
        # names that are almost each other's
        for (u1, p1), (u2, p2) in (((1, 11), (11, 1)), ((1000, 4242), (1000, 42420)), ((1000, 4242), (10004, 242)), ((66536, 4242), (1000, 4242)), ((1000, 4242), (1000, 69778)), ((1000, 4242), (1001, 4242)), ((12, 345), (123, 45)), ((1000, 2147483647), (1000, 2147483646)), ((4294967294, 7), (4294967293, 7)), ((1000, 4242), (1000, 4243)), ((1000, 242), (1000, 2))):
            for first in (1, 2):
                s = S(self.id('mun')).std(tu=b'U%u\n', tp=b'P%p %C\n', tty=False); s.focus = ['C20']; s.auth = 'root'; q = {1: (u1, p1), 2: (u2, p2)}
                for h in (1, 2): s.host(h, usr=dict(uid=b'%d' % q[h][0], pid=b'%d' % q[h][1], tty=b'/V/none'), argv=[b'c%d' % h])
                for h in (1, 2): s.st('call', h, 'open')
                for i, h in enumerate((first, 3 - first)): s.st('connect', i + 1, b'/V/d/%d.%d.sock' % q[h], 0, 0).st('send', i + 1, '121:1' if h == first else '110:1')
                for h in (1, 2): log(s, 'stdout', b'%d' % h, h)
                for h in (1, 2): close(s, h)
                out.append(s)
        return out
