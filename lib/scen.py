"""Scenario texts for harness/vhost.c."""
def hx(b):
    if isinstance(b, str): b = b.encode()
    return 'x' + bytes(b).hex()

USER = dict(cols=b'80', cwd=b'/home/u', egid=b'1000', euid=b'0', gid=b'1000', groups=b'1000,1001',
            host=b'box', lines=b'24', pgid=b'4242', pid=b'4242', ppid=b'4000', sid=b'4000', tcpgid=b'4242',
            uid=b'1000', user=b'alice', tty=b'/V/tty')
SET = dict(plugin_dir=b'/usr/libexec/sudo/', plugin_path=b'/usr/libexec/sudo/sudo_pair.so', progname=b'sudo',
           runas_user=b'root')
CMD = dict(command=b'/bin/cmd', runas_uid=b'0', runas_gid=b'0', runas_groups=b'0',
           iolog_ttyout=b'true', iolog_stdout=b'true', iolog_stderr=b'true')
OPT = dict(socket_dir=b'/V/d', user_prompt_path=b'/V/tu', pair_prompt_path=b'/V/tp')

def kv(d):
    """dict/list -> list of bytes entries; value None removes the key"""
    if d is None: return None
    if isinstance(d, list): return [e if isinstance(e, bytes) else bytes(e) for e in d]
    return [k.encode() + b'=' + v for k, v in d.items() if v is not None]

class S:
    def __init__(self, id):
        self.id = id; self.l = []; self.objs = []; self.tty = b'/V/tty'; self.hosts = {}; self.steps = []; self.more = []
    def obj(self, p, kind, mode=0o644, uid=0, gid=0, data=b''):
        self.objs.append((p, kind, mode, uid, gid, data)); return self
    def std(self, tu=b'U:%u %p\n', tp=b'P:%U %C? ', tty=True):
        self.obj(b'/V/d', 'dir', 0o755)
        if tty: self.obj(b'/V/tty', 'reg', 0o666)
        if tu is not None: self.obj(b'/V/tu', 'reg', 0o644, 0, 0, tu)
        if tp is not None: self.obj(b'/V/tp', 'reg', 0o644, 0, 0, tp)
        return self
    def host(self, h=1, set={}, usr={}, cmd={}, env={}, opt={}, argv=(b'cmd', b'arg'), maj=1, min=14, pf='ok', sa='restart',
             umask=0o022, raw={}):
        m = lambda base, d: {**base, **(d or {})}
        a = dict(set=kv(m(SET, set)), usr=kv(m(USER, usr)), cmd=kv(m(CMD, cmd)), env=kv(env), opt=kv(m(OPT, opt)), argv=list(argv))
        a.update(raw)
        self.hosts[h] = (maj, min, pf, sa, umask, a); return self
    def probe(self, *words, h=1): self.more.append('probe %d %s' % (h, ' '.join(words))); return self
    def fds(self, n, h=1): self.more.append('fds %d %d' % (h, n)); return self
    def ids(self, uid, euid, gid, egid, h=1):
        """what getuid() and the like tell the plugin"""
        self.more.append('ids %d %d %d %d %d' % (h, uid, euid, gid, egid)); return self
    def st(self, *a):
        self.steps.append(' '.join(x if isinstance(x, str) else hx(x) if isinstance(x, bytes) else str(x) for x in a)); return self
    def text(self):
        o = ['scenario ' + self.id]
        for p, k, m, u, g, d in self.objs: o.append(f'obj {hx(p)} {k} {m:o} {u} {g} {hx(d)}')
        if self.tty: o.append('tty ' + hx(self.tty))
        for h, (maj, mi, pf, sa, um, a) in self.hosts.items():
            o.append(f'host {h} {maj} {mi} {pf} {sa} {um:o}')
            for n in ('set', 'usr', 'cmd', 'env', 'opt', 'argv'):
                v = a[n]
                o.append(f'arr {h} {n} ' + ('null' if v is None else ' '.join(hx(x) for x in v)))
        o += self.more
        o += ['step ' + s for s in self.steps]
        o.append('end')
        return '\n'.join(o) + '\n'

def rle(b):
    out = []
    for c in b:
        if out and out[-1][0] == c: out[-1][1] += 1
        else: out.append([c, 1])
    return ','.join(f'{c}:{n}' for c, n in out) or '0:0'
