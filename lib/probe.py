"""Scenario families for the framework: sessions of the probe plugins (harness/probe).
Every recording is judged by spec/Ffi.tla only; nothing here knows what should happen."""
import random, itertools, curious
from scen import *
STREAMS = ['ttyin', 'ttyout', 'stdin', 'stdout', 'stderr']
PVER = list(b'9.8.7-probe')
HINTS = dict(iolog_ttyin=b'true', iolog_ttyout=b'true', iolog_stdin=b'true', iolog_stdout=b'true', iolog_stderr=b'true')
h_ = lambda b: (b if isinstance(b, bytes) else b.encode()).hex()

class PS(S):
    """a session of a probe plugin: keys to read, actions of its methods"""
    def __init__(self, id, kind, keys=(), facts=False):
        S.__init__(self, id); self.kind, self.keys, self.acts = kind, list(keys), []; self.tty = None; self.facts = facts or bool(keys)
        self.extra = dict(kind=kind, nkeys=len(self.keys), facts=self.facts, pver=PVER)
    def act(self, *a): self.acts += a; return self
    def text(self):
        self.more = []; self.probe('facts' if self.facts else '-', ','.join(hx(k) for k in self.keys) or '-', *self.acts)
        return S.text(self)

def err(o, l, *texts): return 'e:%d:%d:%s' % (o, l, ','.join(h_(t) for t in texts))
def say(k, lv, t): return '%s:%s:%s' % (k, lv, h_(t))
PANICS = ['p:' + k for k in ('str', 'string', 'any', 'index', 'unwrap', 'resume', 'catch', 'thread')] + ['x:1', 'x:2', 'x:3']
TEXTS = [b'plain', b'%s%s%s%n', b'%', b'100%', b'%%', b'%n', b'%1$s', b'a\nb', b'\n', b' ', b'\xc3\xa9', b'%-2147483648d', b'probe: ', b'A' * 5000, b'%s' * 400, b'%c\t%p\x1b[0m', b'%ls%hhn', b'%.*s', b'%m']

class Fam:
    def __init__(self, rng, tier): self.r, self.q = rng, tier == 'quick'; self.n = 0
    def id(self, p): self.n += 1; return '%s%d' % (p, self.n)
    def new(self, p, kind, hints=None, **kw):
        r = self.r; k = dict(kw); keys = k.pop('keys', ()); facts = k.pop('facts', False)
        s = PS(self.id(p), kind, keys, facts); s.focus = ['C19'] if k.get('pf', 'ok') != 'ok' else []
        cmd = dict(HINTS); cmd.update(hints or {}); cmd.update(k.pop('cmd', None) or {})
        return s.host(1, cmd=cmd, **k)
    def data(self):
        r = self.r; c = r.randrange(8)
        if c == 0: return '0:0'
        if c == 1: return '%d:%d' % (r.randrange(256), r.choice([1, 4095, 4096, 4097, 65535, 65536, 200000]))
        if c == 2: return ','.join('%d:1' % i for i in range(256))
        return ','.join('%d:%d' % (r.randrange(256), r.randrange(1, 5)) for _ in range(r.randrange(1, 12)))
    def action(self, kind, panics=True):
        r = self.r; c = r.random()
        t = lambda: self.text()
        if c < .35: return 'ok'
        if c < .6: return err(r.choice([1, 0, -1, -2]), r.choice([1, 0, -1]), *[t() for _ in range(r.choice([1, 1, 2, 3, 6]))])
        if c < .75 and panics: return r.choice(PANICS)
        return say(r.choice('wl'), r.choice('ie'), t())
    def text(self):
        r = self.r; c = r.random()
        if c < .6: return r.choice(TEXTS)
        return bytes(r.choice(b'%%%%sndxcp$123.*l \n\tabc[]') for _ in range(r.randrange(1, 20)))
    def call(self, s, what=None):
        r = self.r; w = what or r.choice(['log'] * 6 + ['winsize'] * 2 + ['version'])
        if w == 'log': s.st('call', 1, 'log', r.choice(STREAMS), self.data())
        elif w == 'winsize': s.st('call', 1, 'winsize', r.choice([0, 1, 24, 65535, 4294967295, 2147483648]), r.choice([0, 1, 80, 65536, 4294967295]))
        elif w == 'version': s.st('call', 1, 'version', r.choice([0, 1, 2, -1]))
        elif w == 'close': s.st('call', 1, 'close', r.choice([0, 1, 255, 256, -1, 2147483647, -2147483648, 9]), r.choice([0, 0, 5, -1, 2147483647, -2147483648]))
        else: s.st('call', 1, 'open')
        return s

    # one callback, every action, every stream, every hint
    def single(self):
        out = []
        for kind in 'ab':
            acts = ['ok'] + PANICS + [err(o, l, *t) for o in (1, 0, -1, -2) for l in (1, 0, -1) for t in ((b'one',), (b'one', b'two'), (b'a', b'b', b'c', b'd'))] + [say(k, lv, t) for k in 'wl' for lv in 'ie' for t in TEXTS[:8]]
            for a in acts:
                s = self.new('op', kind).act(a, 'ok', 'ok', 'ok'); s.st('call', 1, 'open'); self.call(s, 'log'); self.call(s, 'winsize'); self.call(s, 'version'); self.call(s, 'close'); self.call(s, 'log'); out.append(s)
            for st in STREAMS + ['winsize', 'close', 'version']:
                for a in acts if st in ('ttyout', 'winsize') or not self.q else acts[::5] + PANICS:
                    s = self.new('one', kind).act('ok', a, a, 'ok'); s.st('call', 1, 'open'); out.append(s)
                    if st in STREAMS: s.st('call', 1, 'log', st, '88:2').st('call', 1, 'log', st, '89:2')
                    elif st == 'winsize': s.st('call', 1, 'winsize', 7, 8).st('call', 1, 'winsize', 9, 10)
                    elif st == 'close': s.st('call', 1, 'close', 1, 2)
                    else: s.st('call', 1, 'version', 1).st('call', 1, 'version', 0)
                    self.call(s, 'log'); s.st('call', 1, 'close', 3, 4); self.call(s, 'winsize')
            for hint in STREAMS:
                for v in (b'false', b'true', None, b'True', b'1', b'', b'true ', b'\xfftrue', b'yes'):
                    for others in (b'true', b'false', None):
                        s = self.new('hint', kind, {**{'iolog_' + x: others for x in STREAMS}, 'iolog_' + hint: v}).act('ok', 'ok', 'ok', 'ok', 'ok', 'ok'); s.st('call', 1, 'open')
                        for x in STREAMS: s.st('call', 1, 'log', x, '65:1')
                        s.st('call', 1, 'winsize', 1, 2).st('call', 1, 'close', 0, 0); out.append(s)
        return out
    # random histories
    def histories(self, n, length=12):
        out = []; r = self.r
        for _ in range(n):
            kind = r.choice('ab'); kw = {}
            hints = {'iolog_' + x: r.choice([b'true', b'true', b'false', None, b'maybe']) for x in STREAMS}
            kw['pf'] = r.choice(['ok'] * 6 + ['null', 'fail'])
            c = r.random()
            if c < .08: kw['usr'] = {r.choice(['uid', 'gid', 'user', 'groups', 'cwd', 'ppid']): r.choice([None, b'', b'x', b'%s', b'\xff'])}
            elif c < .14: kw['maj'], kw['min'] = r.choice([(1, 8), (0, 99), (1, 0), (2, 0), (1, 9), (1, 65535)])
            elif c < .2: kw['raw'] = dict(cmd=None)
            s = self.new('his', kind, hints, **kw)
            for _ in range(length + 2): s.act(self.action(kind))
            if r.random() < .7: s.acts[0] = 'ok'
            if r.random() < .1: self.call(s)
            if r.random() < .05: self.call(s, 'close')
            if r.random() < .95: s.st('call', 1, 'open')
            for _ in range(r.randrange(length)): self.call(s)
            self.call(s, 'close')
            for _ in range(r.randrange(3)): self.call(s, r.choice(['log', 'winsize', 'close', 'version']))
            if r.random() < .1: s.acts.insert(r.randrange(2), 'd')
            out.append(s)
        return out
    # a session's life in every order
    def lives(self):
        out = []
        alpha = ['log', 'winsize', 'close', 'version']
        for kind in 'ab':
            for what in ('run', 'query', 'facts', 'api', 'fail', 'panic'):
                for pre in ([], ['log'], ['winsize'], ['close'], ['version']):
                    for k in (1, 2) if self.q else (1, 2, 3):
                        for seq in itertools.product(alpha, repeat=k):
                            kw = dict(raw=dict(cmd=None)) if what == 'query' else dict(usr=dict(uid=None)) if what == 'facts' else dict(min=3) if what == 'api' else {}
                            s = self.new('life', kind, **kw)
                            s.act({'fail': err(-1, 0, b'no'), 'panic': 'p:str'}.get(what, 'ok'))
                            for x in pre: self.call(s, x)
                            s.st('call', 1, 'open')
                            for x in seq: self.call(s, x)
                            out.append(s)
        return out
    def drops(self):
        out = []
        for kind in 'ab':
            for acts in (['ok', 'd'], ['ok', 'ok', 'd']):
                s = self.new('drop', kind).act(*acts); s.st('call', 1, 'open')
                for _ in acts[2:]: s.st('call', 1, 'log', 'ttyout', '65:1')
                s.st('call', 1, 'close', 0, 0).st('call', 1, 'log', 'ttyout', '65:1').st('call', 1, 'close', 0, 0); out.append(s)
        return out

    def long(self):
        """many calls in one session, sizes and numbers of every width, long chains of causes"""
        out = []; r = self.r
        for kind in 'ab':
            for n, kinds in ((300, ['log']), (300, ['winsize']), (600, ['log', 'winsize', 'version'])) if self.q else ((300, ['log']), (300, ['winsize']), (300, ['version']), (1200, ['log', 'winsize', 'version']), (4000, ['log', 'winsize'])):
                s = self.new('lng', kind).act('ok'); s.st('call', 1, 'open'); k = n // 2
                for i in range(n):
                    s.act('ok' if i not in (k, n - 3) else err(1, 0, b'late'))
                    if kinds[i % len(kinds)] == 'log': s.st('call', 1, 'log', STREAMS[i % 5], '%d:1' % (i & 255))
                    else: self.call(s, kinds[i % len(kinds)])
                s.st('call', 1, 'close', 3, 4); self.call(s, 'log'); out.append(s)
            s = self.new('lnw', kind).act('ok'); s.st('call', 1, 'open')
            for k in range(32):
                for a, b in ((1 << k, (1 << k) - 1), (4294967295 ^ 1 << k, 1 << k)): s.st('call', 1, 'winsize', a, b)
            for i, z in enumerate([(1 << k) + d for k in range(2, 18) for d in (-1, 0, 1)]): s.st('call', 1, 'log', STREAMS[i % 5], '%d:%d,7:1' % (i & 255, z))
            s.st('call', 1, 'close', 0, 0); out.append(s)
            for k in range(0, 31):
                for x, e in ((1 << k, -(1 << k)), (-(1 << k), (1 << k) - 1)): s = self.new('lnc', kind).act('ok', 'ok'); s.st('call', 1, 'open').st('call', 1, 'close', x, e); out.append(s)
            for n in (7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 129, 200, 257)[::1 if not self.q else 2]:
                ts = [b'cause %d' % i for i in range(n)]
                for chain in (ts, [b'same'] * n, ts[:-1] + [b'cause 0']):
                    s = self.new('lne', kind).act('ok', err(-1, 0, *chain), err(1, -1, *chain[:3])); s.st('call', 1, 'open').st('call', 1, 'log', STREAMS[n % 5], '65:1').st('call', 1, 'winsize', n, 1).st('call', 1, 'close', 0, 0); out.append(s)
            for k in range(5, 14):
                for d in (-1, 0, 1):
                    t = b'a' * ((1 << k) + d) + b'%s!'
                    s = self.new('lnt', kind).act('ok', err(-1, 0, t, t[1:]), say('w', 'i', t)); s.st('call', 1, 'open').st('call', 1, 'log', STREAMS[k % 5], '65:1').st('call', 1, 'winsize', 1, 1).st('call', 1, 'close', 0, 0); out.append(s)
        return out
    def large(self):
        """lists of many entries, keys and values of many bytes"""
        out = []; r = self.r
        for n in (7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 700)[::1 if not self.q else 2]:
            for at in (0, 1, n // 2, n - 2, n - 1):
                L = [b'k%d=%d' % (i, i) for i in range(n)]; L[at] = b'k=7'
                if at % 2: L[0] = b'k=wrong'
                if at == n // 2: L[at] = b'k1=last'
                ks = [b'k', b'k1', b'k%d' % (n - 1), b'k%d' % (n // 2), b'k%d' % n]
                a = ['set', 'usr', 'cmd', 'opt', 'env'][(n + at) % 5]
                s = self.new('lrg', 'ab'[at % 2], keys=ks); x = s.hosts[1][5]; x[a] = L + list(x[a]) if at % 3 else list(x[a] or []) + L
                s.st('call', 1, 'open').st('call', 1, 'close', 0, 0); out.append(s)
        for k in range(4, 9 if self.q else 11):
            for d in (-1, 0, 1):
                z = (1 << k) + d; K = b'k' * z
                s = self.new('lrk', 'ab'[z % 2], keys=[K, K[1:], K + b'k', b'v', b'n', b'z', K[:z // 2]], raw=dict(opt=[K + b'=1', b'v=' + b'x' * z + b'=y', b'n=' + b'0' * z + b'7', b'z=' + b','.join([b'5'] * (z // 2 + 1)), K])); s.st('call', 1, 'open').st('call', 1, 'close', 0, 0); out.append(s)
        return out
    # ---- lists
    def entry(self, keys):
        r = self.r; c = r.random()
        k = r.choice(keys)
        if c < .7: return k + b'=' + self.value()
        if c < .78: return k
        if c < .84: return k + b'=' + self.value() + b'=' + self.value()
        if c < .88: return b'=' + self.value()
        if c < .92: return b''
        if c < .96: return bytes(r.choice(b'=k\xff ,') for _ in range(r.randrange(6)))
        return k + b' =' + self.value()
    NUMS = [0, 1, 127, 128, 129, 255, 256, 32767, 32768, 32769, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 10**30]
    def number(self):
        r = self.r; n = r.choice(self.NUMS) if r.random() < .7 else r.randrange(2 ** r.randrange(1, 70))
        t = str(n).encode()
        return r.choice([b'', b'', b'', b'-', b'-', b'+', b'0', b'000', b'-0', b'+0', b'--', b'+-', b' ', b'0x', b'-+']) + t + r.choice([b''] * 8 + [b' ', b'.', b'.0', b'e1', b'\n', b'_', b'u8', b'\xc2\xa0', b','])
    UTF = [b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x92\xa9', b'\xc0\x80', b'\xc1\xbf', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xe0\xa0\x80', b'\xed\x9f\xbf', b'\xed\xa0\x80', b'\xee\x80\x80', b'\xf0\x80\x80\x80',
           b'\xf0\x90\x80\x80', b'\xf4\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\x80', b'\xbf', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x92', b'\xff', b'\xfe', b'\xf8\x88\x80\x80\x80', b'\xef\xbb\xbf', b'\xd9\xa3', b'\xef\xbc\x91']
    def value(self):
        r = self.r; c = r.random()
        if c < .3: return self.number()
        if c < .5: return b','.join(self.number() if r.random() < .85 else r.choice([b'', b' ', b'x']) for _ in range(r.randrange(1, 6)))
        if c < .62: return r.choice([b'true', b'false', b'True', b'TRUE', b'true ', b' true', b'yes', b'1', b'0', b'', b't', b'falsee', b'truefalse', b'true,true'])
        if c < .8: return b''.join(r.choice(self.UTF + [b'a', b'1', b'true']) for _ in range(r.randrange(1, 4)))
        if c < .9: return bytes(r.randrange(1, 256) for _ in range(r.randrange(8)))
        return r.choice([b'/a/b', b'/a,/b', b',', b',,', b'1,', b',1', b'=', b'==', b'/x\xff', b'.', b'1,1,1', b'3,2,3,1', b'+1,1', b'01,1'])
    ADDR = [b'127.0.0.1', b'0.0.0.0', b'255.255.255.255', b'256.1.1.1', b'1.2.3', b'1.2.3.4.5', b'01.2.3.4', b'1.2.3.04', b'1.2.3.4 ', b'', b'::', b'::1', b'fe80::1', b'2001:db8::ffff:1', b'1:2:3:4:5:6:7:8', b'1:2:3:4:5:6:7', b'1:2:3:4:5:6:7:8:9', b'::1.2.3.4', b'1::2::3',
            b'12345::', b'g::', b':::', b'1:2:3:4:5:6:1.2.3.4', b'1:2:3:4:5:6:7:1.2.3.4', b'1.2.3.4::', b'ffff:ffff:ffff:ffff::', b'FFFF::A', b':1', b'1:', b'::1%eth0', b'fe80::1%1', b'1.2.3.+4', b'0x1.2.3.4', b'::ffff:1.2.3.4', b'1:2:3:4:5:6:7::', b'::2:3:4:5:6:7:8', b'1:2:3:4::5:6:7:8', b'[::1]']
    def addrs(self):
        r = self.r
        one = lambda: r.choice(self.ADDR) + r.choice([b'/'] * 10 + [b'', b'//', b' /']) + r.choice(self.ADDR)
        return r.choice([b' '] * 6 + [b'  ', b',']).join(one() if r.random() < .5 else r.choice([b'10.0.0.1/255.0.0.0', b'::1/ffff::', b'192.168.1.7/255.255.255.0']) for _ in range(r.randrange(1, 4)))
    def nets(self):
        """every address alone, without a mask, with one, as a mask, next to good ones"""
        out = []; ok = b'10.0.0.1/255.0.0.0'
        for i, a in enumerate(self.ADDR):
            for j, v in enumerate((a, a + b'/', b'/' + a, a + b'/255.0.0.0', b'10.0.0.1/' + a, ok + b' ' + a, a + b'/ffff:: ' + ok, b'::1/' + a + b' ', a + b'/' + a + b'/' + a, ok + b',' + ok)):
                s = self.new('net', 'ab'[(i + j) % 2], set=dict(network_addrs=v), facts=True); s.st('call', 1, 'open').st('call', 1, 'close', 0, 0); out.append(s)
        return out
    def lists(self, n):
        out = []; r = self.r
        for _ in range(n):
            keys = r.sample([b'k', b'key', b'\xff', b'k\xc3\xa9', b'K', b'', b'a b', b'kk', b'k-', b'\xc3', b'true', b'1'], 5)
            mk = lambda: [self.entry(keys) for _ in range(r.randrange(0, 9))]
            ask = keys + r.sample([b'k=', b'=', b'missing', b'k=1', b' k', b'\xe2\x82\xac'], 2)
            base = self.new('lst', 'a', keys=ask)
            # adversarial entries anywhere in every list (never a fact sudo always gives)
            def mix(l):
                l = list(l)
                for e in mk(): l.insert(r.randrange(len(l) + 1), e)
                return l
            maj, mi, pf, sa, um, a = base.hosts[1]
            for x in ('set', 'usr', 'cmd', 'opt', 'env'): a[x] = mix(a[x])
            base.st('call', 1, 'open').st('call', 1, 'close', 0, 0); out.append(base)
        return out
    # every list of at most two short entries over a small alphabet
    def small(self):
        out = []; al = [b'k', b'=', b'1', b'\xff', b',']
        ents = [b''.join(t) for n in range(0, 4) for t in itertools.product(al, repeat=n)]
        ks = [b'', b'k', b'1', b'kk', b'k1', b'\xff', b',', b'=', b'k=']
        pairs = [(e,) for e in ents] + [(a, b) for a in ents[:31] for b in ents[:31]]
        if self.q: pairs = [p for i, p in enumerate(pairs) if len(p) == 1 or (i + self.r.randrange(3)) % 6 == 0]
        for i in range(0, len(pairs), 3):
            g = pairs[i:i + 3]
            s = self.new('sml', 'b', keys=ks, raw=dict(opt=list(g[0]), env=list(g[1]) if len(g) > 1 else None)); out.append(s)
            if len(g) > 2: s.hosts[1][5]['set'] = s.hosts[1][5]['set'] + list(g[2])
            s.st('call', 1, 'open').st('call', 1, 'close', 0, 0)
        return out
    FLAGS = dict(set='ignore_ticket implied_shell login_shell noninteractive preserve_environment preserve_groups run_shell set_home sudoedit'.split(),
                 cmd='exec_background iolog_compress iolog_stdin iolog_stdout iolog_stderr iolog_ttyin iolog_ttyout noexec preserve_groups set_utmp sudoedit sudoedit_checkdir sudoedit_follow umask_override use_pty'.split(), usr=[])
    NUM = dict(set='closefrom debug_level max_groups'.split(), cmd='closefrom execfd nice timeout runas_egid runas_euid runas_gid runas_uid'.split(), usr='cols lines sid tcpgid egid euid gid pgid pid ppid uid'.split())
    TXT = dict(set='bsd_auth_type debug_flags login_class prompt remote_host runas_group runas_user selinux_role selinux_type timeout plugin_dir plugin_path progname'.split(),
               cmd='chroot command cwd iolog_group iolog_mode iolog_path iolog_user login_class selinux_role selinux_type utmp_user umask'.split(), usr='cwd host tty umask user'.split())
    LST = dict(set=[], cmd='runas_groups preserve_fds'.split(), usr=['groups'])
    MAND = set('plugin_dir plugin_path progname cwd egid euid gid groups host pgid pid ppid uid user command'.split())
    def facts(self, n):
        out = []; r = self.r
        good = lambda lim: str(r.choice([x for x in self.NUMS if x <= lim])).encode()
        def val(a, k, sane):
            if k == 'umask': return r.choice([b'022', b'0077', b'777', b'8', b'0o22', b'', b'+22', b'-1', b'37777777777', b'40000000000', b'9', b'02 2', b'0', b'000', b'1000', b'7777', b'077777777777777777'])
            if sane:
                if k in self.FLAGS[a]: return r.choice([b'true', b'false'])
                if k in self.NUM[a]: return good(2**31 - 1 if k in ('pid', 'pgid', 'ppid', 'sid', 'tcpgid') else 2**32 - 1)
                if k in self.LST[a]: return b','.join(good(2**31 - 1) for _ in range(r.randrange(1, 5)))
                return r.choice([b'x', b'', b'a b', b'/p/q', b'\xc3\xa9', b'x=y', b'%s'])
            return self.value()
        for _ in range(n):
            d = dict(set={}, usr={}, cmd={})
            for a in d:
                for k in self.FLAGS[a] + self.NUM[a] + self.TXT[a] + self.LST[a]:
                    c = r.random(); mand = k in self.MAND and not (a == 'cmd' and k == 'cwd')
                    if mand: 
                        if c < .3: d[a][k] = val(a, k, True)
                        elif c < .305: d[a][k] = r.choice([None, self.value()])
                    elif c < .35: d[a][k] = val(a, k, True)
                    elif c < .6: d[a][k] = val(a, k, False)
                    elif c < .7: d[a][k] = None
            if r.random() < .7: d['set']['network_addrs'] = self.addrs()
            if d['cmd'].get('command') == b'': d['cmd']['command'] = b'/c'
            s = self.new('fct', r.choice('ab'), set=d['set'], usr=d['usr'], cmd=d['cmd'], facts=True, argv=[bytes(r.randrange(1, 256) for _ in range(r.randrange(5))) for _ in range(r.randrange(5))])
            if r.random() < .2: s.hosts[1][5]['set'] = r.sample(s.hosts[1][5]['set'], len(s.hosts[1][5]['set']))
            s.st('call', 1, 'open').st('call', 1, 'close', 0, 0); out.append(s)
        return out
    # every mandatory fact missing or spoilt, alone
    def mandatory(self):
        out = []
        for a, ks in (('set', ('plugin_dir', 'plugin_path', 'progname')), ('usr', 'cwd egid euid gid groups host pgid pid ppid uid user'.split())):
            for k in ks:
                for v in (None, b'', b'x', b'-1', b'4294967296', b'2147483648', b'1,', b'\xff', b'0', b'%s', b'0' * 40):
                    for kind in 'ab':
                        s = self.new('man', kind, facts=True, **{a: {k: v}}); s.st('call', 1, 'open').st('call', 1, 'log', 'ttyout', '65:1').st('call', 1, 'close', 0, 0); out.append(s)
        return out
    def versions(self):
        out = []
        for kind in 'ab':
            for maj, mi in [(0, 0), (0, 9), (0, 65535), (1, 0), (1, 8), (1, 9), (1, 10), (1, 14), (1, 255), (1, 256), (1, 65535), (2, 0), (2, 8), (10, 1), (255, 3), (256, 0), (65535, 65535)]:
                for pf in ('ok', 'null', 'fail'):
                    s = self.new('ver', kind, facts=True, maj=maj, min=mi, pf=pf); s.st('call', 1, 'open').st('call', 1, 'version', 1).st('call', 1, 'log', 'stderr', '65:1').st('call', 1, 'close', 0, 0); out.append(s)
        return out
    def bare(self):
        """vectors that are not there at all, with and without the language's own checks"""
        out = []
        for dev in (True, False):
            for kind in 'ab':
                for q in (True, False):
                    for argv in (None, [], [b'x']):
                        for env in (None, []):
                            for opt in (None, []):
                                s = self.new('bar', kind, raw=dict(argv=argv, env=env, opt=opt, **(dict(cmd=None) if q else {}))); s.dev = dev
                                s.st('call', 1, 'open').st('call', 1, 'version', 1).st('call', 1, 'log', 'stderr', '65:1').st('call', 1, 'close', 0, 0); out.append(s)
        return out
    def texts(self, n):
        out = []; r = self.r
        for _ in range(n):
            s = self.new('txt', r.choice('ab'), pf=r.choice(['ok'] * 5 + ['null', 'fail'])).act('ok'); s.st('call', 1, 'open')
            for _ in range(4):
                t = [self.text() for _ in range(r.choice([1, 1, 2, 4]))]
                s.act(err(-1, r.choice([0, 1, -1]), *t) if r.random() < .4 else say(r.choice('wl'), r.choice('ie'), t[0])); s.st('call', 1, 'log', r.choice(STREAMS), '65:1')
            s.st('call', 1, 'close', 0, 0); out.append(s)
        return out
    def curious(self, what):
        out = []; T = curious.TEXT; R = curious.rot
        for i, t in enumerate(T):
            kind = 'ab'[i % 2]; u, v, w = R(T, 17)[i], R(T, 41)[i], R(T, 83)[i]
            if what == 'list':
                k = [t.split(b'=')[0], t, b'k', b'k' + t, u, b' k']
                s = self.new('cul', kind, keys=k, facts=True, usr=dict(user=t, host=u, cwd=v), set=dict(progname=w, prompt=u, remote_host=v), cmd=dict(chroot=t, login_class=w), raw=dict(opt=[b'k=' + t, t + b'=' + u, v], env=[t, b'k' + t + b'=1', b'k=' + t + b'=' + u, b'=' + t]))
            elif what == 'text':
                s = self.new('cut', kind, pf='ok').act('ok', say('w', 'i', t), err(-1, 0, *[x if curious.ok(x) else b'?' for x in (u, t)]), say('l', 'e', v), say('l', 'i', t + b'\n' + w)); s.st('call', 1, 'open')
                for st in STREAMS + STREAMS[:1]: s.st('call', 1, 'log', st, '65:1')
                s.st('call', 1, 'close', 0, 0); out.append(s); continue
            else:
                s = self.new('cua', 'b', facts=True, set=dict(prompt=t, runas_user=u, runas_group=v, login_class=w, selinux_role=u + t, selinux_type=v + t, bsd_auth_type=w + t), argv=[t, u, v, w])
            s.st('call', 1, 'open').st('call', 1, 'close', 0, 0); out.append(s)
        return out
    def cmdlines(self, n):
        out = []; r = self.r
        for _ in range(n):
            st = {k: r.choice([b'true', b'true', b'false', b'x', None]) for k in self.FLAGS['set'] if r.random() < .4}
            for k in ('runas_user', 'runas_group', 'prompt', 'login_class', 'selinux_role', 'selinux_type', 'bsd_auth_type'):
                if r.random() < .4: st[k] = r.choice([b'v', b'', b'a b', b'\xff', b'%s', b'x=y', b'\xc3\xa9', b'--'])
            if r.random() < .4: st['closefrom'] = self.number()
            if r.random() < .3: st['progname'] = r.choice([b'sudoedit', b'sudo', b'', b'su do', b'\xc3\xa9'])
            s = self.new('cml', 'b', set=st, facts=True, argv=[bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 3, 200]))) for _ in range(r.choice([0, 1, 2, 5, 60]))])
            s.st('call', 1, 'open').st('call', 1, 'close', 0, 0); out.append(s)
        return out
