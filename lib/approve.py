"""The approval script (C21): its design (spec/Script.tla), and runs of the real script judged by spec/Approve.tla.
The script runs as unprivileged users in a scratch directory; sudo, socat, stty and clear are stand-ins that only record how they were called."""
import grp, itertools, pwd, random, socket
from vlib import *
from model import gist
SCRIPT = os.path.join(REPO, 'sample/bin/sudo_approve')

def cfg(uids, gids, modes, kinds, gen=False, bugs=(), invs=('Holds', 'NeverOwn'), live=False):
    q = lambda s: '{%s}' % ','.join(str(x) if isinstance(x, int) else '"%s"' % x for x in s)
    t = '%s\nCONSTANTS\n Uids = %s\n Gids = %s\n Modes = %s\n ArgKinds = %s\n Generating = %s\n Bugs = %s\nCHECK_DEADLOCK FALSE\nINVARIANT %s\n%s' % (
        'SPECIFICATION ' + ('Fair' if live else 'Spec'), q(uids), q(gids), q(modes), q(kinds), 'TRUE' if gen else 'FALSE', q(bugs), ' '.join(invs) + (' Generate' if gen else ''), 'PROPERTY Ends\n' if live else '')
    f = os.path.join(work(), 'a%s.cfg' % hashlib.sha1(t.encode()).hexdigest()[:10]); open(f, 'w').write(t); return f
KINDS = ['good', 'otherpid', 'otheruid', 'text', 'few', 'many']
MODES = [0, 2, 16, 18, 128, 144, 146]
def design(big, gen=True):
    o = tlc('Script', cfg([0, 1, 2, 3] if big else [0, 1, 2], [0, 1, 4] if big else [1, 4], MODES, KINDS, gen))
    if o.rc: raise Broken('the design of the approval script violates its contract:\n' + gist(o.out))
    o2 = tlc('Script', cfg([0, 1, 2], [1, 4], [0, 16, 128], ['good'], invs=('Holds',), live=True))
    if o2.rc: raise Broken('the design of the approval script does not end:\n' + o2.out[-2000:])
    o.scens = sorted({l[6:-1].replace('\\"', '"') for l in o.out.splitlines() if l.startswith('"SCEN ')})
    return o
BUGS = ['ownuid', 'noself', 'evaluates', 'self0', 'groupfirst', 'ownerfirst', 'stuck0']
def seeded(b):
    o = tlc('Script', cfg([0, 1, 2], [1, 4], MODES, KINDS, bugs=[b], invs=('Holds',)), workers=1, mem='3g')
    if not (o.rc and 'OBJECTION' in o.out): raise Broken('the contract misses the seeded error of the script ' + b)

def build():
    with Lock():
        for src, out, fl in (('shim.c', 'shim.so', ['-shared', '-fPIC', '-ldl']), ('stub.c', 'stub', [])):
            s, o = os.path.join(V, 'harness', src), os.path.join(B, out); h = hashlib.sha256(open(s, 'rb').read()).hexdigest()
            if not (os.path.exists(o) and os.path.exists(o + '.stamp') and open(o + '.stamp').read() == h):
                sh(['gcc', '-O1', '-w', '-o', o, s] + fl); open(o + '.stamp', 'w').write(h)

class Sc:
    """sockets: [(name, uid, gid, write bits)]; runs: [(uid, gids, sudo uid or -1, [args])]; rerun: what sudo answers"""
    def __init__(self, id, socks, run, sudos=()): self.id, self.socks, self.run, self.sudos = id, socks, run, list(sudos)
    def dump(self): return dict(id=self.id, socks=[[n.hex(), u, g, m] for n, u, g, m in self.socks], run=[self.run[0], list(self.run[1]), self.run[2], [a.hex() for a in self.run[3]]], sudos=self.sudos)
    @staticmethod
    def load(d): return Sc(d['id'], [(bytes.fromhex(n), u, g, m) for n, u, g, m in d['socks']], (d['run'][0], d['run'][1], d['run'][2], [bytes.fromhex(a) for a in d['run'][3]]), d['sudos'])
bits = lambda m: m & 0o777     # 128, 16 and 2 are 0200, 020 and 002; the others decide nothing
RX = [0, 0, 0o555, 0o444, 0o111, 0o500, 0o050, 0o005, 0o400, 0o100, 0o040, 0o010, 0o455, 0o145]

def ident(kind, b):
    t = b.decode('latin1')
    try: return int(t[1:]) if t.startswith('#') else (pwd.getpwnam(t).pw_uid if kind == 'user' else grp.getgrnam(t).gr_gid)
    except (KeyError, ValueError): return -2
def sudo_call(args, script):
    """what a sudo command line asks for"""
    how, who, a = '', -2, list(args)
    while a and a[0].startswith(b'-'):
        x = a.pop(0)
        if x == b'--': break
        for k, s, l in (('user', b'-u', b'--user'), ('group', b'-g', b'--group')):
            if x in (s, l) and a: how = k if not how else 'both'; who = ident(k, a.pop(0)); break
            if x.startswith(l + b'=') or (x.startswith(s) and x != l and not x.startswith(b'--')): how = k if not how else 'both'; who = ident(k, x[len(l) + 1:] if x.startswith(l) else x[2:]); break
    while a and b'=' in a[0] and not a[0].startswith(b'/'): a.pop(0)
    cmd = a.pop(0) if a else b''
    if os.path.basename(cmd) in (b'bash', b'sh') and a: cmd = a.pop(0)
    return dict(e='sudo', how=how, who=who, same=cmd == script.encode() or os.path.basename(cmd) == b'sudo_approve', args=[list(x) for x in a])

class World:
    def __init__(self):
        build(); self.d = tempfile.mkdtemp(prefix='vpa.', dir='/tmp'); os.chmod(self.d, 0o711)
        b = os.path.join(self.d, 'bin'); os.mkdir(b); os.chmod(b, 0o755)
        shutil.copy(os.path.join(B, 'shim.so'), b); self.stub = os.path.join(b, 'stubs'); os.mkdir(self.stub); os.chmod(self.stub, 0o755)
        for n in ('sudo', 'socat', 'stty', 'clear', 'nc', 'ncat', 'tput', 'reset'): shutil.copy(os.path.join(B, 'stub'), os.path.join(self.stub, n))
        self.script = os.path.join(b, 'sudo_approve'); shutil.copy(SCRIPT, self.script)
        for r, ds, fs in os.walk(b):
            for f in fs: os.chmod(os.path.join(r, f), 0o755)
        self.n = itertools.count()
    def close(self): shutil.rmtree(self.d, ignore_errors=True)
    def play(self, s):
        w = os.path.join(self.d, 'w%d' % next(self.n)); os.mkdir(w); os.chmod(w, 0o711)
        dirs = [os.path.join(w, x) for x in ('s', 'c')]
        os.mkdir(dirs[0]); os.chmod(dirs[0], 0o755); os.mkdir(dirs[1]); os.chmod(dirs[1], 0o777)
        log = os.path.join(w, 'log'); open(log, 'w').close(); os.chmod(log, 0o666)
        ls = []
        for n, u, g, m in s.socks:
            x = socket.socket(socket.AF_UNIX); p = os.path.join(dirs[0].encode(), n); x.bind(p); x.listen(8); x.setblocking(False); os.chown(p, u, g); os.chmod(p, bits(m)); ls.append((n, x))
        ev = []; uid, gids, su, args = s.run; sudos = list(s.sudos)
        try:
            for turn in range(4):
                open(log, 'w').close()
                env = dict(PATH=self.stub + ':/usr/bin:/bin', LC_ALL='C', LD_PRELOAD=os.path.join(self.d, 'bin/shim.so'), VP_DIR=dirs[0], VP_LOG=log, HOME='/', TERM='dumb')
                if su >= 0:
                    env['SUDO_UID'] = str(su); env['SUDO_GID'] = str(su)
                    try: env['SUDO_USER'] = pwd.getpwuid(su).pw_name
                    except KeyError: env['SUDO_USER'] = 'u%d' % su
                ev.append(dict(e='run', uid=uid, gids=list(gids), sudo=su, args=[list(a) for a in args]))
                try: r = subprocess.run([self.script] + [bytes(a) for a in args], user=uid, group=gids[0], extra_groups=list(gids), env=env, cwd=dirs[1], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30).returncode
                except subprocess.TimeoutExpired: r = 124
                asked = None; told = set()
                for l in open(log):
                    c = json.loads(l); a = [bytes(x) for x in c['args']]
                    if c['prog'] == 'sudo': asked = sudo_call(a, self.script); ev.append(asked)
                    elif c['prog'] in ('socat', 'nc', 'ncat'):
                        for x in a:
                            p = re.sub(rb'(?i)^(unix-connect|unix-client|unix):', b'', x).split(b',')[0]
                            if b'/' not in p: continue
                            n = os.path.basename(p) if os.path.dirname(p).rstrip(b'/') in (b'/var/run/sudo_pair', b'/run/sudo_pair') else p
                            ev.append(dict(e='contact', n=list(n), uid=c['uid'])); told.add(n)
                for n, x in ls:
                    while True:
                        try: k, _ = x.accept()
                        except BlockingIOError: break
                        k.close()
                        if n not in told: ev.append(dict(e='contact', n=list(n), uid=uid))
                if os.listdir(dirs[1]) or len(os.listdir(dirs[0])) > len(s.socks): ev.append(dict(e='mark'))
                ev.append(dict(e='exit', r=r if r >= 0 else 128 - r))
                if not asked or not sudos or sudos.pop(0) != 'yes' or asked['how'] not in ('user', 'group') or asked['who'] < 0 or not asked['same']: break
                su = uid; args = [bytes(x) for x in asked['args']]
                if asked['how'] == 'user': uid = asked['who']; gids = [asked['who']]
                else: gids = [asked['who']] + list(gids)
        finally:
            for _, x in ls: x.close()
            shutil.rmtree(w, ignore_errors=True)
        return json.dumps(dict(id=s.id, socks=[dict(n=list(n), u=u, g=g, m=m) for n, u, g, m in s.socks], ev=ev), separators=(',', ':'))
    def run(self, scens):
        with cf.ThreadPoolExecutor(CORES) as ex: return list(ex.map(self.play, scens))

def name(u, p): return b'%d.%d.sock' % (u, p)
def from_model(scens):
    out = []
    for i, t in enumerate(scens):
        j = json.loads(t); k = j['sock']
        out.append(Sc('s%d' % i, [(bytes(k['n']), k['u'], k['g'], k['m'] | RX[i * 7 % len(RX)])], (j['uid'], [j['gid']], j['sudo'], [bytes(a) for a in j['args']]), j['sudos']))
    return out
def odd_args(r, n):
    """arguments that are not numbers, in every disguise"""
    bad = [b'', b' ', b'1 ', b' 1', b'+1', b'-1', b'1.0', b'1e0', b'0x1', b'1;id', b'$(>MARK)', b'`>MARK`', b'x[$(>MARK)]', b'a[$(>MARK)0]', b'1+0', b'2-1', b'1\n', b'\n1', b'1\n1', b'../1', b'1/1', b'1/../1', b'*', b'?', b'[0-9]', b'one', b'uid', b'ruid', b'PPID', b'$UID', b'UID', b'RANDOM',
           b'\xd9\xa1', b'\xef\xbc\x91', b'1\xff', b'1\t', b'(1)', b'1,1', b'1?1:1', b'16#1', b'2#1', b'64#_', b'!0', b'~0', b'--', b'-h', b'--help', b"'1'", b'"1"', b'\\1', b'1 7', b'x=1', b'SUDO_UID', b'1&', b'1|1', b'1>MARK', b'{1,1}', b'1..1', b'BASH_VERSINFO[$(>MARK)]', b'socket_path', b'1 -o 1', b'( 1 )', b'=', b'1=1']
    odd = [b'01', b'001', b'010', b'08', b'00', b'0001', b'18446744073709551617', b'4294967297', b'99999999999999999999', b'00000000000000000000001', b'007', b'07']
    out = []
    for who in (1, 2, 3, 0):
        for su in (-1, 1, 2):
            for side in (0, 1):
                for x in bad + odd:
                    a = [b'1', b'7']; a[side] = x
                    out.append((who, su, a))
    r.shuffle(out)
    socks = [(name(1, 7), 2, 2, 128), (name(1, 1), 2, 4, 16), (name(8, 7), 2, 2, 128), (name(2, 7), 1, 1, 146), (name(0, 7), 2, 2, 146), (b'.7.sock', 2, 2, 146), (b'1..sock', 2, 2, 146), (b'01.7.sock', 2, 2, 146), (b'1.07.sock', 2, 2, 146), (b'1 .7.sock', 2, 2, 146), (b'one.7.sock', 2, 2, 146), (b' 1.7.sock', 2, 2, 146), (b'+1.7.sock', 2, 2, 146), (b'1.7 .sock', 2, 2, 146), (b'1.one.sock', 2, 2, 146)]
    return [Sc('x%d' % i, socks, (w, [w], su, a)) for i, (w, su, a) in enumerate(out[:n])]
def several(r, n):
    """several sessions at once, people with several groups, every way to be recorded by sudo"""
    out = []
    for i in range(n):
        reqs = r.sample([0, 1, 2, 3, 5, 7, 12, 13, 65534], r.randrange(1, 5)); socks = {}
        for q in reqs: socks[name(q, r.choice([7, 8, 77, 123456]))] = (r.choice([0, 1, 2, 3, 65534]), r.choice([0, 1, 2, 4, 65534]), r.choice(MODES + [128, 16]) | r.choice(RX))
        n_ = r.choice(sorted(socks)); u, p = n_.split(b'.')[:2]
        if r.random() < .2: p = r.choice([b'7', b'9', b'77'])
        if r.random() < .1: u = r.choice([b'1', b'2', b'12'])
        who = r.choice([int(u), int(u), 0, 1, 2, 3, 12, 65534]); su = r.choice([-1, -1, int(u), int(u), 0, 1, 2, 65534])
        out.append(Sc('v%d' % i, [(k, *v) for k, v in sorted(socks.items())], (who, r.sample([0, 1, 2, 4, 65534, who], r.randrange(1, 4)), su, [u, p] + ([] if r.random() < .93 else [b'1'])), [r.choice(['yes', 'no']) for _ in range(3)]))
    return out
