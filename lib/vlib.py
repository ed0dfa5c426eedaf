"""Building the code under test, replaying scenarios on it, and running TLC."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, fcntl, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD') or os.path.join(V, '.build')   # development only: elsewhere for another tree
SPEC = os.path.join(V, 'spec')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CORES = os.cpu_count() or 4
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class Broken(Exception): pass          # the machinery, not the code, is at fault

ENV = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
           RUST_BACKTRACE='0', CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           PATH='/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin')
for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_TARGET_DIR'): ENV.pop(k, None)

# freed memory is overwritten at once, so that a use after free shows
HENV = dict(ENV, GLIBC_TUNABLES='glibc.malloc.tcache_count=0:glibc.malloc.perturb=165')

def sh(cmd, timeout=900, env=ENV, cwd=None, check=True):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, text=True, errors='replace')
    if check and r.returncode: raise Broken('%s\n%s' % (' '.join(map(str, cmd)), r.stdout[-4000:]))
    return r.stdout

def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', '__pycache__'))
        for f in sorted(fs):
            if not f.endswith(('.rs', '.toml', '.lock', '.h')): continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode()); h.update(open(p, 'rb').read() if os.path.isfile(p) else b'')
    return h.hexdigest()

class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True); self.f = open(os.path.join(B, 'lock'), 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def vhost():
    with Lock():
        src, out = os.path.join(V, 'harness/vhost.c'), os.path.join(B, 'vhost')
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
        st = out + '.stamp'
        if not (os.path.exists(out) and os.path.exists(st) and open(st).read() == h):
            sh(['gcc', '-O2', '-g', '-Wall', '-Wno-unused-result', '-Wno-stringop-truncation', '-o', out, src, '-ldl'])
            open(st, 'w').write(h)
    return out

def cargo(manifest, target, pkgs, args, stamp, prof=('--release',)):
    """cargo build, trusting contents rather than timestamps for the packages of /repo"""
    with Lock():
        os.makedirs(target, exist_ok=True)
        h = tree_hash(REPO) + tree_hash(os.path.dirname(manifest)); st = os.path.join(target, stamp)
        if not (os.path.exists(st) and open(st).read() == h):
            if os.path.exists(st): os.unlink(st)
            sh(['cargo', 'clean', '--offline', *prof, '--manifest-path', manifest, '--target-dir', target] + [x for p in pkgs for x in ('-p', p)], check=False)
        sh(['cargo', 'build', '--offline', *prof, '--locked', '--manifest-path', manifest, '--target-dir', target] + args)
        open(st, 'w').write(h)

# both ways to build: optimized (with arithmetic overflow reported rather than wrapped), and as /opt/vp/build.sh does, with all checks of the language on
def prof(dev): return ((), 'debug', 'stampdev') if dev else (('--release',), 'release', 'stamp')
def plugin(dev=False):
    """the shared library sudo would load, from /repo's working tree"""
    f, d, st = prof(dev)
    t = os.path.join(B, 'target')
    cargo(os.path.join(REPO, 'Cargo.toml'), t, ['sudo_pair', 'sudo_plugin', 'sudo_plugin-sys'], ['-p', 'sudo_pair'], st, f)
    return os.path.join(t, d, 'libsudo_pair.so')

def probe(dev=False):
    """the probe plugins, built with the framework of /repo's working tree"""
    f, d, st = prof(dev)
    src, m = os.path.join(V, 'harness/probe'), os.path.join(B, 'probe')
    if REPO != '/repo': # development only: the same crate against another tree
        shutil.rmtree(m, ignore_errors=True); shutil.copytree(src, m)
        c = os.path.join(m, 'Cargo.toml'); t = open(c).read().replace('/repo/', REPO + '/'); open(c, 'w').write(t); src = m
    t = os.path.join(B, 'ptarget')
    cargo(os.path.join(src, 'Cargo.toml'), t, ['probe', 'sudo_plugin', 'sudo_plugin-sys'], [], st, f)
    return os.path.join(t, d, 'libprobe.so')

def version():
    import tomllib
    v = tomllib.load(open(os.path.join(REPO, 'sudo_pair/Cargo.toml'), 'rb'))['package']['version']
    return v if isinstance(v, str) else tomllib.load(open(os.path.join(REPO, 'Cargo.toml'), 'rb'))['workspace']['package']['version']

WORK = None
def work():
    global WORK
    if WORK is None:
        os.makedirs(os.path.join(B, 'work'), exist_ok=True)
        WORK = tempfile.mkdtemp(prefix='w.', dir=os.path.join(B, 'work'))
        import atexit; atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))
    return WORK

LONG = 850 if TIER == 'quick' else 7200
def replay(so, symbol, scens, extra=None, flags=(), timeout=LONG):
    """runs scenarios (objects with .id, .text(), .focus) on the library; returns the recorded traces (lists of json text)"""
    host = vhost(); w = work()
    n = max(1, min(CORES, (len(scens) + 3) // 4))
    byid = {s.id: s for s in scens}
    if len(byid) != len(scens): raise Broken('duplicate scenario ids')
    def shard(i):
        a = os.path.join(w, 's%d.%d' % (os.getpid(), i)); b = a + '.out'
        open(a, 'w').write(''.join(s.text() for s in scens[i::n]))
        r = subprocess.run([host, so, symbol, a, b] + list(flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=HENV, text=True, errors='replace')
        if r.returncode: raise Broken('vhost exit %d: %s' % (r.returncode, r.stderr[-2000:]))
        out = open(b).read().splitlines()
        if len(out) != len(scens[i::n]): raise Broken('vhost recorded %d of %d' % (len(out), len(scens[i::n])))
        return out
    with cf.ThreadPoolExecutor(n) as ex: parts = list(ex.map(shard, range(n)))
    ver = list(version().encode()); res = []
    for p in parts:
        for line in p:
            id = re.match(r'\{"id":"([^"]*)"', line).group(1)
            top = {'ver': ver, 'focus': list(getattr(byid[id], 'focus', ()) or ())}
            if extra: top.update(extra)
            top.update(getattr(byid[id], 'extra', {}))
            res.append(json.dumps(top, separators=(',', ':'))[:-1] + ',' + line[1:])
    return res

class Tlc: pass
def tlc(module, cfg=None, env=None, args=(), timeout=LONG, workers=None, mem='8g', cwd=SPEC):
    w = work(); meta = tempfile.mkdtemp(prefix='tlc.', dir=w)
    e = dict(ENV, **(env or {}))
    cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Djava.io.tmpdir=' + w, '-Xms1g', '-Xmx' + mem, '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers or CORES)]
    if cfg: cmd += ['-config', cfg]
    cmd += list(args) + [module]
    t0 = time.time()
    try: r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired: raise Broken('TLC timeout on ' + module)
    finally: shutil.rmtree(meta, ignore_errors=True)
    o = Tlc(); o.out = r.stdout; o.rc = r.returncode; o.wall = time.time() - t0
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    o.generated, o.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    d = re.search(r'depth of the complete state graph search is (\d+)', r.stdout); o.depth = int(d.group(1)) if d else 0
    return o

def validate(traces, module='Trace', cfg=None, chunk=60_000_000):
    """TLC on recorded traces; returns (bad: {id: (event index, {(prop, why)})}, states)"""
    w = work(); bad = {}; states = 0
    n = max(1, min(4, len(traces) // 300)); n = max(n, sum(map(len, traces)) // chunk + 1)
    def one(i):
        g = traces[i::n]
        f = os.path.join(w, 'traces%d.ndjson' % i); open(f, 'w').write('\n'.join(g) + '\n')
        run = lambda stop: tlc(module, cfg or module + '.cfg', {'TRACES': f, 'STOP': stop}, mem='6g', workers=max(2, CORES // min(n, 4)), args=['-lncheck', 'final'])
        o = run('0'); stop = o.rc != 0
        if stop: o = run('1')   # a history that has left the contract may lead where the monitor is undefined
        if o.rc != 0: raise Broken('TLC on recorded traces (exit %d):\n%s' % (o.rc, o.out[-5000:]))
        b = {}
        for line in o.out.splitlines():
            m = re.match(r'"BAD (\S+) (\d+) (.*)"$', line)
            if m:
                id, ev, why = m.group(1), int(m.group(2)), set(re.findall(r'<<"(C\d\d)", "(.*?)">>(?=[,}])', re.sub(r'\\+"', '"', m.group(3))))
                if not why: raise Broken('objection not understood: ' + line)
                e0, w0 = b.get(id, (ev, set())); b[id] = (min(e0, ev), w0 | why)
        # every event of every trace was consumed: one state per event and one per beginning
        want = 0
        for l in g:
            t = json.loads(l); want += b[t['id']][0] if stop and t['id'] in b else len(t['ev']) + 1
        if o.distinct != want: raise Broken('TLC consumed %d states, expected %d' % (o.distinct, want))
        os.unlink(f)
        return b, o.distinct
    with cf.ThreadPoolExecutor(4) as ex:
        for b, s in ex.map(one, range(n)): bad.update(b); states += s
    return bad, states
