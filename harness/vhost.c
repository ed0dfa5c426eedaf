/* vhost: replays scenarios on the real plugin (or a probe plugin built with
 * the framework) and records what happens as traces for TLC.
 *
 *   vhost PLUGIN.so SYMBOL SCENARIOS OUT.ndjson [flags]
 *
 * Each scenario runs in a fresh scratch directory.  Each sudo process of the
 * scenario is a forked child ("host") which calls the plugin through the
 * exported C function table, as sudo does.  While the plugin runs, Syscall
 * User Dispatch brings every system call of the host into on_sigsys(), which
 *   - maps the virtual paths of the scenario (/V/..., /var/run/sudo_pair,
 *     /etc/sudo_pair...) into the scratch directory and refuses every other
 *     call that would change the filesystem (containment),
 *   - injects scripted faults, pauses ("gates") and crashes,
 *   - records every change of the watched directories at the moment it
 *     happens.
 * The parent plays peers and signals.  It acts only when every host is
 * quiescent (idle, paused at a gate, or asleep inside a system call), so no
 * verdict depends on timing.
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <linux/futex.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/sysmacros.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif

/* ---- sudo_plugin(8), transcribed from the manual, not from /repo -------- */
typedef int (*printf_t)(int, const char *, ...);
struct io_plugin {
    unsigned type, version;
    int (*open)(unsigned, void *, printf_t, char *const *, char *const *, char *const *,
                int, char *const *, char *const *, char *const *, const char **);
    void (*close)(int, int);
    int (*show_version)(int);
    int (*log[5])(const char *, unsigned, const char **); /* ttyin ttyout stdin stdout stderr */
    void *register_hooks, *deregister_hooks;
    int (*change_winsize)(unsigned, unsigned, const char **);
    int (*log_suspend)(int, const char **);
    void *event_alloc;
};
static const char *LOGN[5] = {"ttyin", "ttyout", "stdin", "stdout", "stderr"};

#define MAXH 6
#define MAXP 16
#define MAXSTEP 5000
#define MAXOBJ 40
#define MAXWATCH 12
#define MAXENT 64
#define ARENA (24u << 20)

/* ---- scenario ------------------------------------------------------------ */
typedef struct { unsigned char *b; int n; int null; } Str;
typedef struct { Str *v; int n; int null; } Arr;
enum { A_SET, A_USR, A_CMD, A_ENV, A_OPT, A_ARGV, NARR };
static const char *ARRN[NARR] = {"set", "usr", "cmd", "env", "opt", "argv"};
typedef struct {
    int used, maj, min;
    char pf[16];          /* printf: ok null fail */
    char sa[16];          /* SIGINT action: restart norestart ign */
    unsigned umask;
    int fds;              /* descriptors below this number are taken */
    unsigned id[4];       /* what the process is told: uid euid gid egid */
    char *probe;          /* script of a probe plugin */
    Arr a[NARR];
} Host;
typedef struct { char path[512]; char kind[12]; unsigned mode; long uid, gid; Str data; } Obj;
typedef struct { char op[16]; int n; char *arg[16]; } Step;
typedef struct {
    char id[96];
    Host h[MAXH];
    Obj o[MAXOBJ]; int no;
    char tty[300];
    Step st[MAXSTEP]; int ns;
} Scen;

/* ---- shared state --------------------------------------------------------- */
enum { ST_IDLE, ST_RUN, ST_INSYS, ST_GATE, ST_DEAD };
enum { C_STAT, C_ACCESS, C_OPEN, C_READ, C_RECV, C_WRITE, C_SEND, C_CLOSE, C_SOCKET, C_BIND, C_LISTEN,
       C_UMASK, C_CHOWN, C_CHMOD, C_POLL, C_ACCEPT, C_UNLINK, C_SHUTDOWN, C_SIGACTION, C_FCNTL, C_IOCTL,
       C_GETID, C_SOCKOPT, C_CONNECT, C_MKDIR, C_RENAME, C_OTHER, C_MEM, NCLS };
static const char *CLSN[NCLS] = {"stat", "access", "open", "read", "recv", "write", "send", "close", "socket",
    "bind", "listen", "umask", "chown", "chmod", "poll", "accept", "unlink", "shutdown", "sigaction", "fcntl",
    "ioctl", "getid", "sockopt", "connect", "mkdir", "rename", "other", "mem"};
typedef struct { int cls, nth, err, kind; } Arm; /* cls<0: any; kind: 0 errno 1 short 2 kill-before 3 kill-after 4 gate 5 sig */
typedef struct {
    atomic_int state, nr, cmd, ack, hold, release, nsig, gateon, gategen;
    atomic_uint ctr;
    Arm arm[8]; int narm;
    int nev;
    unsigned count, occ[NCLS];
    char syslist[4096]; int nsl;
} HS;
typedef struct { int dir; char name[160]; char kind[6]; unsigned u, g, m; unsigned long ino; long size; int iid, seen; } Ent;
typedef struct {
    HS h[MAXH];
    atomic_int lock;
    Ent e[MAXENT]; int ne; int niid;
    long ttysize; unsigned ttyhash;
    atomic_uint off;
    char arena[ARENA];
} Shm;
static Shm *S;
static Scen *SC;
static int ME = -1;
static char ROOT[256];
static char WATCH[MAXWATCH][300], WVIRT[MAXWATCH][300]; static int NW;
static struct io_plugin *PL;
static int want_sys = 0;
static volatile char sel = 0;

extern long raw(long, long, long, long, long, long, long);
extern void raw_restorer(void), raw_sigret(void), raw_end(void);
__asm__(".text\n.globl raw\nraw: mov %rdi,%rax; mov %rsi,%rdi; mov %rdx,%rsi; mov %rcx,%rdx; mov %r8,%r10; "
        "mov %r9,%r8; mov 8(%rsp),%r9; syscall; ret\n"
        ".globl raw_restorer\nraw_restorer: mov $15,%eax; syscall\n"
        ".globl raw_sigret\nraw_sigret: mov $15,%eax; syscall\n.globl raw_end\nraw_end: nop\n");
#define R0(n) raw(n, 0, 0, 0, 0, 0, 0)
#define R3(n, a, b, c) raw(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define R4(n, a, b, c, d) raw(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)

/* ---- event text ------------------------------------------------------------ */
typedef struct { char *p; unsigned n, cap; } Buf;
static void bc(Buf *b, char c) { if (b->n + 1 < b->cap) b->p[b->n++] = c; }
static void bs(Buf *b, const char *s) { while (*s) bc(b, *s++); }
static void bi(Buf *b, long v) {
    char t[24]; int i = 0; unsigned long u = v < 0 ? -(unsigned long)v : (unsigned long)v;
    if (v < 0) bc(b, '-');
    do { t[i++] = '0' + u % 10; u /= 10; } while (u);
    while (i) bc(b, t[--i]);
}
static void bbytes(Buf *b, const void *d, int n) {
    bc(b, '[');
    for (int i = 0; i < n; i++) { if (i) bc(b, ','); bi(b, ((const unsigned char *)d)[i]); }
    bc(b, ']');
}
static void bdigits(Buf *b, unsigned long v) {
    char t[24]; int i = 0, n; char s[24];
    do { t[i++] = '0' + v % 10; v /= 10; } while (v);
    for (n = 0; i; n++) s[n] = t[--i];
    bbytes(b, s, n);
}
static void bdec(Buf *b, long v) { char t[32]; bbytes(b, t, snprintf(t, sizeof t, "%ld", v)); }
static void brle(Buf *b, const unsigned char *d, long n) {
    bc(b, '[');
    for (long i = 0, f = 1; i < n; f = 0) {
        long j = i; while (j < n && d[j] == d[i]) j++;
        if (!f) bc(b, ',');
        bc(b, '['); bi(b, d[i]); bc(b, ','); bi(b, j - i); bc(b, ']');
        i = j;
    }
    bc(b, ']');
}
static void emit(Buf *b) { /* the slot is reserved and filled here; order = offset */
    unsigned len = b->n, tot = (len + 4 + 3) & ~3u;
    unsigned o = atomic_fetch_add(&S->off, tot);
    if (o + tot + 64 > ARENA) { return; }
    memcpy(S->arena + o, &len, 4);
    memcpy(S->arena + o + 4, b->p, len);
}
static char SCR[1 << 20];
static Buf nb(void) { Buf b = {SCR, 0, sizeof SCR}; return b; }
static void begin(Buf *b, const char *e, int h) {
    *b = nb(); bs(b, "{\"e\":\""); bs(b, e); bs(b, "\"");
    if (h >= 0) { bs(b, ",\"h\":"); bi(b, h + 1); }
}
static void bk(Buf *b, const char *k) { bs(b, ",\""); bs(b, k); bs(b, "\":"); }
static void bkq(Buf *b, const char *k, const char *v) { bk(b, k); bc(b, '"'); bs(b, v); bc(b, '"'); }
static void done(Buf *b) { bc(b, '}'); emit(b); }

/* ---- virtual paths ----------------------------------------------------------- */
static int starts(const char *s, const char *p) { return strncmp(s, p, strlen(p)) == 0; }
static int vmap(const char *p, char *out, int cap) { /* 1 when mapped */
    const char *rest; const char *base;
    if (starts(p, "/V") && (p[2] == '/' || !p[2])) { base = "/V"; rest = p + 2; }
    else if (starts(p, "/var/run/sudo_pair")) { base = "/run/sudo_pair"; rest = p + 18; }
    else if (starts(p, "/run/sudo_pair")) { base = "/run/sudo_pair"; rest = p + 14; }
    else if (starts(p, "/etc/sudo_pair")) { base = "/etc/sudo_pair"; rest = p + 14; }
    else return 0;
    int n = 0; const char *q[3] = {ROOT, base, rest};
    for (int i = 0; i < 3; i++) for (const char *c = q[i]; *c && n < cap - 1; c++) out[n++] = *c;
    out[n] = 0;
    return 1;
}

/* ---- directory snapshots -------------------------------------------------------- */
struct ld64 { uint64_t ino; int64_t off; unsigned short len; unsigned char type; char name[]; };
static void lock(void) { int z = 0; while (!atomic_compare_exchange_weak(&S->lock, &z, 1)) { z = 0; R0(SYS_sched_yield); } }
static void unlock(void) { atomic_store(&S->lock, 0); }
static const char *kindof(unsigned m) {
    switch (m & S_IFMT) { case S_IFSOCK: return "sock"; case S_IFREG: return "reg"; case S_IFDIR: return "dir";
        case S_IFLNK: return "lnk"; case S_IFIFO: return "fifo"; } return "oth";
}
static void fs_event(int env, Ent *e, const char *kind) {
    Buf b; char p[600]; begin(&b, env ? "env" : "fs", ME);
    int n = 0; for (const char *c = WVIRT[e->dir]; *c; c++) p[n++] = *c;
    p[n++] = '/'; for (const char *c = e->name; *c; c++) p[n++] = *c;
    bk(&b, "p"); bbytes(&b, p, n);
    bkq(&b, "k", kind);
    bk(&b, "u"); bdigits(&b, e->u); bk(&b, "g"); bdigits(&b, e->g);
    bk(&b, "m"); bi(&b, e->m); bk(&b, "i"); bi(&b, e->iid);
    done(&b);
}
static void snapshot(int env) { /* env: 1 parent action, 0 host, 2 silent */
    static char db[8192];
    lock();
    for (int i = 0; i < S->ne; i++) S->e[i].seen = 0;
    for (int w = 0; w < NW; w++) {
        long fd = R3(SYS_open, WATCH[w], O_RDONLY | O_DIRECTORY | O_CLOEXEC | O_NONBLOCK, 0);
        if (fd < 0) continue;
        long n;
        while ((n = R3(SYS_getdents64, fd, db, sizeof db)) > 0) {
            for (long o = 0; o < n;) {
                struct ld64 *d = (void *)(db + o); o += d->len;
                if (!strcmp(d->name, ".") || !strcmp(d->name, "..")) continue;
                struct stat s;
                if (R4(SYS_newfstatat, fd, d->name, &s, AT_SYMLINK_NOFOLLOW) < 0) continue;
                /* content of the scenario's terminal and of watched directories is reported elsewhere */
                char vp[600]; int q = 0; for (const char *c = WVIRT[w]; *c; c++) vp[q++] = *c; vp[q++] = '/'; for (const char *c = d->name; *c && q < 590; c++) vp[q++] = *c; vp[q] = 0;
                int istty = SC && !strcmp(vp, SC->tty);
                const char *k = kindof(s.st_mode);
                long size = (!istty && S_ISREG(s.st_mode)) ? (long)s.st_size : 0;
                Ent *e = 0;
                for (int i = 0; i < S->ne; i++) if (S->e[i].dir == w && !strcmp(S->e[i].name, d->name)) e = &S->e[i];
                if (!e) {
                    if (S->ne >= MAXENT) continue;
                    e = &S->e[S->ne++]; e->dir = w; strncpy(e->name, d->name, 159); e->kind[0] = 0;
                }
                e->seen = 1;
                int inoch = !e->kind[0] || e->ino != s.st_ino;
                if (inoch || strcmp(e->kind, k) || e->u != s.st_uid || e->g != s.st_gid || e->m != (s.st_mode & 07777) || e->size != size) {
                    if (inoch || e->size != size) e->iid = ++S->niid;
                    strcpy(e->kind, k); e->u = s.st_uid; e->g = s.st_gid; e->m = s.st_mode & 07777; e->ino = s.st_ino; e->size = size;
                    if (env != 2) fs_event(env, e, k);
                }
            }
        }
        R3(SYS_close, fd, 0, 0);
    }
    for (int i = 0; i < S->ne; i++) if (!S->e[i].seen && S->e[i].kind[0]) {
        S->e[i].kind[0] = 0;
        if (env != 2) fs_event(env, &S->e[i], "none");
    }
    if (SC && SC->tty[0]) {
        char p[600]; struct stat s;
        if (vmap(SC->tty, p, sizeof p) && R3(SYS_stat, p, &s, 0) == 0 && S_ISREG(s.st_mode)) {
            static char tb[65536]; long fd = R3(SYS_open, p, O_RDONLY, 0), n = 0, r;
            if (fd >= 0) {
                while (n < (long)sizeof tb && (r = R3(SYS_read, fd, tb + n, sizeof tb - n)) > 0) n += r;
                R3(SYS_close, fd, 0, 0);
                unsigned hsh = 5381; for (long i = 0; i < n; i++) hsh = hsh * 33 + (unsigned char)tb[i];
                if (n != S->ttysize || hsh != S->ttyhash) {
                    S->ttysize = n; S->ttyhash = hsh;
                    if (env != 2) { Buf b; begin(&b, "tty", ME); bk(&b, "d"); bbytes(&b, tb, n); done(&b); }
                }
            }
        }
    }
    unlock();
}

/* ---- system-call interception ------------------------------------------------------ */
static int issock(long fd) { struct stat s; return R3(SYS_fstat, fd, &s, 0) == 0 && S_ISSOCK(s.st_mode); }
static int classify(long nr, long a0) {
    switch (nr) {
    case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_fstat: case SYS_statx: case SYS_statfs: case SYS_fstatfs:
    case SYS_readlink: case SYS_readlinkat: case SYS_getcwd: return C_STAT;
    case SYS_access: case SYS_faccessat: case 439: return C_ACCESS;
    case SYS_open: case SYS_openat: case 437: case SYS_creat: return C_OPEN;
    case SYS_read: case SYS_readv: case SYS_pread64: return issock(a0) ? C_RECV : C_READ;
    case SYS_recvfrom: case SYS_recvmsg: return C_RECV;
    case SYS_write: case SYS_writev: case SYS_pwrite64: return issock(a0) ? C_SEND : C_WRITE;
    case SYS_sendto: case SYS_sendmsg: return C_SEND;
    case SYS_close: return C_CLOSE;
    case SYS_socket: case SYS_socketpair: return C_SOCKET;
    case SYS_bind: return C_BIND;
    case SYS_listen: return C_LISTEN;
    case SYS_umask: return C_UMASK;
    case SYS_chown: case SYS_lchown: case SYS_fchown: case SYS_fchownat: return C_CHOWN;
    case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: case 452: return C_CHMOD;
    case SYS_select: case SYS_pselect6: case SYS_poll: case SYS_ppoll: case SYS_epoll_wait: case SYS_epoll_pwait: case 441: return C_POLL;
    case SYS_accept: case SYS_accept4: return C_ACCEPT;
    case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: return C_UNLINK;
    case SYS_shutdown: return C_SHUTDOWN;
    case SYS_rt_sigaction: return C_SIGACTION;
    case SYS_fcntl: case SYS_dup: case SYS_dup2: case SYS_dup3: return C_FCNTL;
    case SYS_ioctl: return C_IOCTL;
    case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: case SYS_getresuid: case SYS_getresgid:
    case SYS_getpid: case SYS_getppid: case SYS_gettid: case SYS_getgroups: return C_GETID;
    case SYS_setsockopt: case SYS_getsockopt: case SYS_getsockname: case SYS_getpeername: return C_SOCKOPT;
    case SYS_connect: return C_CONNECT;
    case SYS_mkdir: case SYS_mkdirat: return C_MKDIR;
    case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_symlinkat: return C_RENAME;
    case SYS_mmap: case SYS_munmap: case SYS_mprotect: case SYS_brk: case SYS_madvise: case SYS_mremap: case SYS_futex:
    case SYS_getrandom: case SYS_clock_gettime: case SYS_gettimeofday: case SYS_sched_yield: case SYS_rt_sigprocmask:
    case SYS_sigaltstack: case SYS_prctl: case SYS_set_robust_list: case SYS_rt_sigreturn: case SYS_getrusage:
    case SYS_sched_getaffinity: case SYS_uname: case SYS_sysinfo: return C_MEM;
    }
    return C_OTHER;
}
static void wait_gate(HS *h) {
    atomic_store(&h->release, 0);
    atomic_store(&h->gateon, 1);
    int prev = atomic_exchange(&h->state, ST_GATE);
    while (!atomic_load(&h->release)) R4(SYS_futex, &h->release, FUTEX_WAIT, 0, 0);
    atomic_store(&h->gateon, 0);
    atomic_store(&h->state, prev);
    atomic_fetch_add(&h->gategen, 1); /* last: release() goes on when it sees this */
}
static void ev_fault(const char *cls, const char *what, int err) {
    Buf b; begin(&b, "fault", ME); bkq(&b, "s", cls); bkq(&b, "w", what); bk(&b, "n"); bi(&b, err); done(&b);
}
static void escape(const char *cls, const char *path) {
    Buf b; begin(&b, "escape", ME); bkq(&b, "s", cls); bk(&b, "p"); bbytes(&b, path, strnlen(path, 300)); done(&b);
}
/* Rewrites path arguments; returns -errno to refuse the call, 0 to go on. */
static char PB[4][700];
static struct sockaddr_un SUN;
static long guard(long nr, long *a, int cls) {
    int pi[2] = {-1, -1}, np = 0, mut = 0;
    switch (nr) {
    case SYS_stat: case SYS_lstat: case SYS_access: case SYS_statfs: case SYS_readlink: pi[np++] = 0; break;
    case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case 439: case SYS_readlinkat: pi[np++] = 1; break;
    case SYS_open: pi[np++] = 0; mut = (a[1] & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; break;
    case SYS_openat: pi[np++] = 1; mut = (a[2] & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; break;
    case SYS_creat: case SYS_chown: case SYS_lchown: case SYS_chmod: case SYS_unlink: case SYS_rmdir: case SYS_mkdir:
    case SYS_truncate: case SYS_mknod: case SYS_utime: case SYS_utimes: pi[np++] = 0; mut = 1; break;
    case SYS_fchownat: case SYS_fchmodat: case 452: case SYS_unlinkat: case SYS_mkdirat: case SYS_mknodat: case SYS_utimensat: pi[np++] = 1; mut = 1; break;
    case SYS_rename: case SYS_link: case SYS_symlink: pi[np++] = 0; pi[np++] = 1; mut = 1; break;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat: pi[np++] = 1; pi[np++] = 3; mut = 1; break;
    case SYS_symlinkat: pi[np++] = 0; pi[np++] = 2; mut = 1; break;
    case SYS_bind: case SYS_connect: {
        struct sockaddr_un *s = (void *)a[1]; if (!s || s->sun_family != AF_UNIX) { if (nr == SYS_bind) return 0; escape("connect", "?"); return -EACCES; }
        char in[200]; int l = (int)a[2] - 2; if (l < 0) l = 0; if (l > 108) l = 108; memcpy(in, s->sun_path, l); in[l] = 0;
        char out[700];
        if (l && in[0] && vmap(in, out, sizeof out)) {
            if (strlen(out) > 107) { static char t[64]; (void)t; return -ENAMETOOLONG; }
            SUN.sun_family = AF_UNIX; strcpy(SUN.sun_path, out); a[1] = (long)&SUN; a[2] = 2 + strlen(out) + 1;
            return 0;
        }
        if (l && !strcmp(in, "/dev/log")) return -ENOENT; /* syslog is not part of any scenario */
        if (l && in[0]) { escape(CLSN[cls], in); return -EACCES; }
        return nr == SYS_connect ? -ECONNREFUSED : 0;
    }
    case SYS_fork: case SYS_vfork: case SYS_clone: case 435: case SYS_execve: case SYS_execveat: case SYS_mount: case SYS_umount2:
    case SYS_chroot: case SYS_pivot_root: case SYS_reboot: case SYS_setuid: case SYS_setgid: case SYS_setresuid: case SYS_setresgid:
    case SYS_setreuid: case SYS_setregid: case SYS_ptrace: case SYS_unshare: case SYS_setns:
        escape("forbidden", ""); return -EPERM;
    case SYS_kill: case SYS_tgkill: case SYS_tkill:
        if (a[0] == (long)getpid() || nr == SYS_tkill) return 0;
        escape("kill", ""); return -EPERM;
    }
    for (int i = 0; i < np; i++) {
        char *s = (char *)a[pi[i]];
        if (!s || !*s) continue; /* AT_EMPTY_PATH */
        if (vmap(s, PB[i], sizeof PB[i])) a[pi[i]] = (long)PB[i];
        else if (mut && strcmp(s, "/dev/full") && strcmp(s, "/dev/null")) { escape(CLSN[cls], s); return -EACCES; }
    }
    return 0;
}
/* Finite waits are cut short (to CLIP ms), so that `idle` steps let them run out. */
#define CLIP 20
static void clip(long nr, long *a) {
    static struct timespec ts; static struct timeval tv;
    int i = -1, usec = 0;
    switch (nr) {
    case SYS_poll: if ((int)a[2] > CLIP) a[2] = CLIP; return;
    case SYS_epoll_wait: case SYS_epoll_pwait: if ((int)a[3] > CLIP) a[3] = CLIP; return;
    case SYS_ppoll: i = 2; break;
    case SYS_pselect6: i = 4; break;
    case SYS_select: i = 4; usec = 1; break;
    case SYS_nanosleep: i = 0; break;
    case SYS_clock_nanosleep: if (!a[1]) i = 2; break;
    case SYS_recvmmsg: i = 4; break;
    case SYS_setsockopt: if (a[1] == SOL_SOCKET && (a[2] == SO_RCVTIMEO || a[2] == SO_SNDTIMEO) && a[4] >= (long)sizeof tv) { i = 3; usec = 1; } break;
    }
    if (i < 0 || !a[i]) return;
    if (usec) { tv = *(struct timeval *)a[i]; if (tv.tv_sec > 0 || tv.tv_usec > CLIP * 1000) { tv.tv_sec = 0; tv.tv_usec = CLIP * 1000; a[i] = (long)&tv; } }
    else { ts = *(struct timespec *)a[i]; if (ts.tv_sec > 0 || ts.tv_nsec > CLIP * 1000000) { ts.tv_sec = 0; ts.tv_nsec = CLIP * 1000000; a[i] = (long)&ts; } }
}
/* 1: answered here.  The host runs as root; the plugin is told the ids of the scenario. */
static int fakeid(long nr, long *a, long *ret) {
    unsigned *id = SC->h[ME].id;
    switch (nr) {
    case SYS_getuid: *ret = id[0]; return 1;
    case SYS_geteuid: *ret = id[1]; return 1;
    case SYS_getgid: *ret = id[2]; return 1;
    case SYS_getegid: *ret = id[3]; return 1;
    case SYS_getresuid: *(unsigned *)a[0] = id[0]; *(unsigned *)a[1] = *(unsigned *)a[2] = id[1]; *ret = 0; return 1;
    case SYS_getresgid: *(unsigned *)a[0] = id[2]; *(unsigned *)a[1] = *(unsigned *)a[2] = id[3]; *ret = 0; return 1;
    }
    return 0;
}
static void on_sigsys(int sig, siginfo_t *si, void *ucv) {
    ucontext_t *uc = ucv; greg_t *r = uc->uc_mcontext.gregs;
    (void)sig;
    sel = 0;
    long nr = si->si_syscall;
    if (nr == SYS_rt_sigreturn) { r[REG_RIP] = (greg_t)raw_sigret; sel = 1; return; }
    int saved = errno;
    HS *h = &S->h[ME];
    long a[6] = {r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9]};
    int cls = classify(nr, a[0]);
    long ret = 0; int skip = 0, killafter = 0;
    if (cls != C_MEM) {
        h->count++; h->occ[cls]++;
        if (want_sys && h->nsl + 16 < (int)sizeof h->syslist) {
            if (h->nsl) h->syslist[h->nsl++] = ' ';
            for (const char *c = CLSN[cls]; *c; c++) h->syslist[h->nsl++] = *c;
        }
        for (int i = 0; i < h->narm; i++) {
            Arm *m = &h->arm[i];
            if (!(m->cls < 0 ? (int)h->count == m->nth : (m->cls == cls && (int)h->occ[cls] == m->nth))) continue;
            switch (m->kind) {
            case 0: if (cls == C_UMASK || cls == C_SIGACTION || cls == C_GETID) break; /* these cannot fail */
                    ev_fault(CLSN[cls], "err", m->err); ret = -m->err; skip = 1; break;
            case 1: if (cls == C_WRITE || cls == C_SEND) { if (a[2] > m->err) { ev_fault(CLSN[cls], "short", m->err); a[2] = m->err; } } break;
            case 2: ev_fault(CLSN[cls], "kill", 0); R3(SYS_kill, getpid(), SIGKILL, 0); for (;;) pause();
            case 3: killafter = 1; break;
            case 4: wait_gate(h); break;
            case 5: ev_fault(CLSN[cls], "sig", m->err); R3(SYS_tgkill, getpid(), R0(SYS_gettid), m->err); break;
            }
        }
    }
    if (!skip) {
        long g = guard(nr, a, cls);
        if (g < 0) ret = g;
        else if (fakeid(nr, a, &ret)) ;
        else {
            clip(nr, a);
            atomic_store(&h->nr, (int)nr);
            atomic_fetch_add(&h->ctr, 1);
            atomic_store(&h->state, ST_INSYS);
            ret = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
            atomic_store(&h->state, ST_RUN);
            if (nr == SYS_rt_sigprocmask && !ret) { /* the change has to outlive this handler; SIGSYS stays ours */
                unsigned long m = 0; R4(SYS_rt_sigprocmask, SIG_BLOCK, 0, &m, 8); m &= ~(1UL << (SIGSYS - 1));
                R4(SYS_rt_sigprocmask, SIG_SETMASK, &m, 0, 8); memcpy(&uc->uc_sigmask, &m, 8);
            }
            if (atomic_load(&h->hold) && (cls == C_POLL || cls == C_ACCEPT || cls == C_RECV || cls == C_SEND)) wait_gate(h);
        }
    }
    switch (cls) {
    case C_BIND: case C_CHOWN: case C_CHMOD: case C_UNLINK: case C_OPEN: case C_MKDIR: case C_RENAME: case C_OTHER: case C_WRITE:
        snapshot(0);
    }
    if (killafter) { ev_fault(CLSN[cls], "kill", 1); R3(SYS_kill, getpid(), SIGKILL, 0); for (;;) pause(); }
    r[REG_RAX] = ret;
    errno = saved;
    sel = 1;
}
struct ksa { void *h; unsigned long fl; void *rs; unsigned long mask; };
static int nosud = 0;
static void sud_on(void) {
    struct ksa k = {on_sigsys, SA_SIGINFO | SA_NODEFER | 0x04000000, raw_restorer, 0};
    R4(SYS_rt_sigaction, SIGSYS, &k, 0, 8);
    if (prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, (unsigned long)raw, (unsigned long)raw_end - (unsigned long)raw + 1, &sel) != 0) {
        nosud = 1; fprintf(stderr, "vhost: no syscall user dispatch: %s\n", strerror(errno)); _exit(97);
    }
}

/* ---- the host -------------------------------------------------------------------------- */
static char pfmode[16];

static int host_printf(int level, const char *fmt, ...) {
    volatile char os = sel; sel = 0;
    static char t[1 << 16];
    va_list ap; va_start(ap, fmt);
    int n = -1;
    if (strcmp(pfmode, "fail")) n = vsnprintf(t, sizeof t, fmt, ap);
    va_end(ap);
    HS *h = &S->h[ME];
    if (++h->nev > 3000) { Buf b; begin(&b, "runaway", ME); done(&b); R3(SYS_kill, getpid(), SIGKILL, 0); }
    Buf b; begin(&b, "printf", ME); bk(&b, "lv"); bi(&b, level); bk(&b, "n"); bi(&b, n);
    bk(&b, "d"); if (n >= 0) bbytes(&b, t, n < (int)sizeof t ? n : (int)sizeof t - 1); else bs(&b, "[]");
    done(&b);
    if (n < 0) errno = EIO;
    sel = os;
    return n;
}
/* what a probe plugin (harness/probe) reports */
static void probe_emit(const char *name, const unsigned char *body, unsigned len) {
    volatile char os = sel; sel = 0;
    Buf b; begin(&b, name, ME); bc(&b, ',');
    for (unsigned i = 0; i < len; i++) bc(&b, body[i]);
    done(&b);
    sel = os;
}
static void (*HOOK)(void (*)(const char *, const unsigned char *, unsigned), const char *);
static void on_sig(int s) { (void)s; atomic_fetch_add(&S->h[ME].nsig, 1); }
static unsigned peek_umask(void) { unsigned u = umask(0); umask(u); return u; }

static unsigned char *RB; static long RBN; /* decoded data */
static void rle_decode(const char *s) {
    long cap = 0, n = 0; for (const char *p = s; *p;) { long b = strtol(p, (char **)&p, 10); (void)b; if (*p == ':') p++; cap += strtol(p, (char **)&p, 10); if (*p == ',') p++; }
    RB = malloc(cap + 1);
    for (const char *p = s; *p;) { long b = strtol(p, (char **)&p, 10); if (*p == ':') p++; long c = strtol(p, (char **)&p, 10); if (*p == ',') p++; memset(RB + n, (int)b, c); n += c; }
    RBN = n;
}
static char **carr(Arr *a) {
    if (a->null) return 0;
    char **v = calloc(a->n + 1, sizeof *v);
    for (int i = 0; i < a->n; i++) { v[i] = malloc(a->v[i].n + 1); memcpy(v[i], a->v[i].b, a->v[i].n); v[i][a->v[i].n] = 0; }
    return v;
}
static void host_call(Step *s) {
    Host *c = &SC->h[ME]; HS *h = &S->h[ME];
    const char *what = s->arg[1];
    Buf b; const char *err = 0; int ret = 0, hasret = 1;
    struct sigaction s0, s1; sigset_t m0, m1; memset(&s0, 0, sizeof s0); memset(&s1, 0, sizeof s1);
    unsigned um0 = peek_umask(), um1;
    unsigned char *map = 0, *data = 0; long maplen = 0;
    sigaction(SIGINT, 0, &s0); sigprocmask(SIG_BLOCK, 0, &m0);
    h->count = 0; memset(h->occ, 0, sizeof h->occ); h->nsl = 0;
    int sig0 = atomic_load(&h->nsig);
    begin(&b, "call", ME); bkq(&b, "c", what);
    if (!strcmp(what, "log")) {
        rle_decode(s->arg[3]);
        long pg = (RBN + 4095) / 4096 * 4096; maplen = pg + 4096;
        map = mmap(0, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(map + pg, 4096, PROT_NONE);
        data = map + pg - RBN; memcpy(data, RB, RBN);
        bkq(&b, "m", s->arg[2]); bk(&b, "d"); brle(&b, RB, RBN);
    } else if (!strcmp(what, "winsize")) {
        bk(&b, "l"); bdigits(&b, strtoul(s->arg[2], 0, 10)); bk(&b, "w"); bdigits(&b, strtoul(s->arg[3], 0, 10));
    } else if (!strcmp(what, "close") || !strcmp(what, "version")) {
        bk(&b, "x"); bdec(&b, atol(s->arg[2])); if (s->n > 3) { bk(&b, "y"); bdec(&b, atol(s->arg[3])); }
    } else if (!strcmp(what, "open")) {
        bk(&b, "ty"); bi(&b, PL->type); bk(&b, "vm"); bi(&b, PL->version >> 16);
    }
    done(&b);
    atomic_store(&h->state, ST_RUN);
    if (!strcmp(what, "open")) {
        char **a[NARR]; for (int i = 0; i < NARR; i++) a[i] = carr(&c->a[i]);
        strcpy(pfmode, c->pf);
        printf_t pf = strcmp(c->pf, "null") ? host_printf : 0;
        unsigned v = ((unsigned)c->maj << 16) | (unsigned)c->min;
        int argc = c->a[A_ARGV].null ? 0 : c->a[A_ARGV].n;
        sel = 1;
        ret = PL->open(v, 0, pf, a[A_SET], a[A_USR], a[A_CMD], argc, a[A_ARGV], a[A_ENV], a[A_OPT], &err);
    } else if (!strcmp(what, "log")) {
        int i; for (i = 0; i < 5; i++) if (!strcmp(LOGN[i], s->arg[2])) break;
        if (!PL->log[i]) { ret = 1; bs(&b, ""); } else { sel = 1; ret = PL->log[i]((char *)data, (unsigned)RBN, &err); }
    } else if (!strcmp(what, "winsize")) {
        if (!PL->change_winsize) ret = 1; else { sel = 1; ret = PL->change_winsize(strtoul(s->arg[2], 0, 10), strtoul(s->arg[3], 0, 10), &err); }
    } else if (!strcmp(what, "close")) {
        hasret = 0; if (PL->close) { sel = 1; PL->close(atoi(s->arg[2]), atoi(s->arg[3])); }
    } else if (!strcmp(what, "version")) {
        sel = 1; ret = PL->show_version(atoi(s->arg[2]));
    }
    sel = 0;
    um1 = peek_umask();
    sigaction(SIGINT, 0, &s1); sigprocmask(SIG_BLOCK, 0, &m1);
    snapshot(0);
    if (map) { memset(data, 0xDD, RBN); munmap(map, maplen); free(RB); RB = 0; }
    begin(&b, "ret", ME); bkq(&b, "c", what);
    bk(&b, "r"); bi(&b, hasret ? ret : 99);
    bk(&b, "um"); bs(&b, um0 == um1 ? "true" : "false");
    bk(&b, "sa"); bs(&b, (s0.sa_handler == s1.sa_handler && s0.sa_flags == s1.sa_flags && !memcmp(&s0.sa_mask, &s1.sa_mask, 8) && sigismember(&m0, SIGINT) == sigismember(&m1, SIGINT)) ? "true" : "false");
    bk(&b, "sg"); bi(&b, atomic_load(&h->nsig) - sig0);
    bk(&b, "ns"); bi(&b, h->count);
    if (want_sys) { h->syslist[h->nsl] = 0; bkq(&b, "sys", h->syslist); }
    done(&b);
    h->narm = 0; atomic_store(&h->hold, 0);
}
static void host_main(int me) {
    ME = me;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    prctl(PR_SET_DUMPABLE, 1); /* the parent changed its euid, which would hide /proc/PID/syscall of this child */
    int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); if (!getenv("VHOST_STDERR")) dup2(n, 2);
    if (n > 2) close(n);
    HS *h = &S->h[me]; Host *c = &SC->h[me];
    umask(c->umask);
    struct rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc);
    signal(SIGPIPE, SIG_DFL);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_sig; sa.sa_flags = !strcmp(c->sa, "norestart") ? 0 : SA_RESTART;
    sigaction(SIGUSR1, &sa, 0); sigaction(SIGWINCH, &sa, 0);
    if (!strcmp(c->sa, "ign")) sa.sa_handler = SIG_IGN;
    sigaddset(&sa.sa_mask, SIGUSR2);
    sigaction(SIGINT, &sa, 0);
    if (c->fds) { struct rlimit rl = {c->fds + 64, c->fds + 64}; setrlimit(RLIMIT_NOFILE, &rl); for (int f = 0; f >= 0 && f < c->fds - 1;) f = open("/dev/null", O_RDWR | O_CLOEXEC); }
    if (HOOK) HOOK(probe_emit, c->probe ? c->probe : "- -");
    sud_on();
    atomic_store(&h->state, ST_IDLE);
    atomic_store(&h->ack, -1);
    for (int last = -1;;) {
        int cmd = atomic_load(&h->cmd);
        if (cmd == last) { R4(SYS_futex, &h->cmd, FUTEX_WAIT, cmd, 0); continue; }
        last = cmd;
        if (cmd == -2) _exit(0);
        host_call(&SC->st[cmd]);
        atomic_store(&h->state, ST_IDLE);
        atomic_store(&h->ack, cmd);
    }
}

/* ---- parent ---------------------------------------------------------------------------- */
static pid_t PID[MAXH];
typedef struct { int fd, used, eof, drain, host; } Peer;
static Peer P[MAXP];
static char stat_of(pid_t p, unsigned long *cpu) {
    char f[64], t[512]; snprintf(f, sizeof f, "/proc/%d/stat", p);
    int fd = open(f, O_RDONLY); if (fd < 0) return 'X';
    int n = read(fd, t, sizeof t - 1); close(fd); if (n <= 0) return 'X'; t[n] = 0;
    char *q = strrchr(t, ')'); if (!q) return 'X';
    unsigned long u = 0, s = 0; char st;
    sscanf(q + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &st, &u, &s);
    if (cpu) *cpu = u + s;
    return st;
}
/* /proc/PID/stat may say S for a task that was woken and is about to check what it waits for;
   /proc/PID/syscall makes sure that it really is off the cpu */
static int asleep(pid_t p) {
    char f[64], t[32];
    if (stat_of(p, 0) != 'S') return 0;
    snprintf(f, sizeof f, "/proc/%d/syscall", p);
    int fd = open(f, O_RDONLY), n = -1;
    if (fd >= 0) { n = read(fd, t, sizeof t - 1); close(fd); }
    if (n > 0) return t[0] != 'r';
    for (int i = 0; i < 4; i++) { usleep(400); if (stat_of(p, 0) != 'S') return 0; }
    return 1;
}
enum { Q_IDLE, Q_BLK, Q_GATE, Q_DEAD, Q_BUSY };
static const char *QN[] = {"idle", "blk", "gate", "dead", "busy"};
/* did the process block this signal?  Then nobody will handle it. */
static int sig_blocked(int pid, int sg) {
    char f[64], l[256]; int r = 0; snprintf(f, sizeof f, "/proc/%d/status", pid);
    FILE *q = fopen(f, "r"); if (!q) return 0;
    while (fgets(l, sizeof l, q)) if (!strncmp(l, "SigBlk:", 7)) r = strtoull(l + 7, 0, 16) >> (sg - 1) & 1;
    fclose(q); return r;
}
static int qstate(int i) {
    HS *h = &S->h[i];
    int st = atomic_load(&h->state);
    if (st == ST_DEAD) return Q_DEAD;
    int ws; pid_t r = waitpid(PID[i], &ws, WNOHANG);
    if (r == PID[i]) {
        atomic_store(&h->state, ST_DEAD);
        Buf b; ME = i; begin(&b, "dead", i); bkq(&b, "how", WIFSIGNALED(ws) ? (WTERMSIG(ws) == SIGKILL ? "kill" : "crash") : "exit");
        bk(&b, "sig"); bi(&b, WIFSIGNALED(ws) ? WTERMSIG(ws) : WEXITSTATUS(ws)); done(&b);
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 97) exit(97);
        snapshot(0); ME = -1;
        return Q_DEAD;
    }
    if (st == ST_IDLE) return atomic_load(&h->ack) == atomic_load(&h->cmd) ? Q_IDLE : Q_BUSY;
    if (st == ST_GATE) return Q_GATE;
    if (st == ST_INSYS) {
        unsigned c0 = atomic_load(&h->ctr);
        for (int k = 0; k < 2; k++) {
            if (!asleep(PID[i])) return Q_BUSY;
            if (atomic_load(&h->state) != ST_INSYS || atomic_load(&h->ctr) != c0) return Q_BUSY;
        }
        return Q_BLK;
    }
    return Q_BUSY;
}
static int QS[MAXH];
static int quiesce(void) { /* 0 ok */
    unsigned long spin = 0; unsigned long cpu0[MAXH]; int have = 0;
    time_t t0 = time(0);
    for (;;) {
        int busy = 0;
        for (int i = 0; i < MAXH; i++) if (SC->h[i].used) { QS[i] = qstate(i); if (QS[i] == Q_BUSY) busy = 1; }
        if (!busy) return 0;
        spin++;
        if (spin < 30) sched_yield(); else usleep(spin < 2000 ? 20 : 1000);
        if (spin == 3000) { have = 1; for (int i = 0; i < MAXH; i++) if (SC->h[i].used) { cpu0[i] = 0; stat_of(PID[i], &cpu0[i]); } }
        if (have && spin % 256 == 0) for (int i = 0; i < MAXH; i++) if (SC->h[i].used && QS[i] == Q_BUSY) {
            unsigned long c = 0; stat_of(PID[i], &c);
            if (c - cpu0[i] > 400 || time(0) - t0 > 120) { /* 4 s of cpu: it spins */
                Buf b; begin(&b, "spin", i); done(&b);
                kill(PID[i], SIGKILL);
                while (qstate(i) != Q_DEAD) usleep(1000);
            }
        }
    }
}
static void as(long uid, long gid) {
    if (uid < 0) return;
    gid_t g = gid; if (syscall(SYS_setgroups, 1, &g)) perror("setgroups");
    if (syscall(SYS_setresgid, -1, g, -1)) perror("setresgid");
    if (syscall(SYS_setresuid, -1, (uid_t)uid, -1)) perror("setresuid");
}
static void back(void) {
    if (syscall(SYS_setresuid, -1, 0, -1)) perror("setresuid");
    if (syscall(SYS_setresgid, -1, 0, -1)) perror("setresgid");
    if (syscall(SYS_setgroups, 0, 0)) perror("setgroups");
}
static unsigned char RX[1 << 20];
static int drain_one(int i, long max) {
    Peer *p = &P[i]; if (!p->used || p->fd < 0 || p->eof) return 0;
    static unsigned char *acc; static long cap; long n = 0; int eof = 0; const char *how = "eof";
    for (;;) {
        long want = sizeof RX; if (max >= 0 && max - n < want) want = max - n;
        if (want <= 0) break;
        long r = recv(p->fd, RX, want, MSG_DONTWAIT);
        if (r > 0) { if (n + r > cap) { cap = (n + r) * 2; acc = realloc(acc, cap); } memcpy(acc + n, RX, r); n += r; continue; }
        if (r == 0) eof = 1;
        else if (errno == EINTR) continue;
        else if (errno != EAGAIN) { eof = 1; how = "reset"; }
        break;
    }
    if (n || eof) {
        static char *big; if (!big) big = malloc(8 << 20);
        Buf b = {big, 0, 8 << 20}; bs(&b, "{\"e\":\"recv\",\"p\":"); bi(&b, i + 1); bk(&b, "d"); brle(&b, acc, n);
        bk(&b, "eof"); bs(&b, eof ? "true" : "false"); bkq(&b, "how", how); bc(&b, '}'); emit(&b);
        if (eof) p->eof = 1;
        return 1;
    }
    return 0;
}
static void settle(void) {
    for (int k = 0; k < 200; k++) {
        quiesce();
        int any = 0;
        for (int i = 0; i < MAXP; i++) if (P[i].drain) any |= drain_one(i, -1);
        if (!any) break;
    }
    ME = -1;
    Buf b; begin(&b, "q", -1); bk(&b, "st"); bc(&b, '[');
    int f = 1; for (int i = 0; i < MAXH; i++) if (SC->h[i].used) { if (!f) bc(&b, ','); f = 0; bc(&b, '"'); bs(&b, QN[QS[i]]); bc(&b, '"'); }
    bc(&b, ']');
    bk(&b, "nr"); bc(&b, '['); f = 1;
    for (int i = 0; i < MAXH; i++) if (SC->h[i].used) { if (!f) bc(&b, ','); f = 0; bc(&b, '"');
        bs(&b, QS[i] == Q_BLK ? CLSN[classify(atomic_load(&S->h[i].nr), -1)] : ""); bc(&b, '"'); }
    bc(&b, ']');
    done(&b);
}
static void release(int i) {
    if (!atomic_load(&S->h[i].gateon)) return;
    int gen = atomic_load(&S->h[i].gategen);
    atomic_store(&S->h[i].release, 1); syscall(SYS_futex, &S->h[i].release, FUTEX_WAKE, 10, 0, 0, 0);
    while (atomic_load(&S->h[i].gategen) == gen && atomic_load(&S->h[i].state) != ST_DEAD) { if (qstate(i) == Q_DEAD) break; sched_yield(); }
}
static int clsno(const char *s) { for (int i = 0; i < NCLS; i++) if (!strcmp(CLSN[i], s)) return i; return -1; }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static Str unhex(const char *s) {
    Str r = {0, 0, 0}; if (*s != 'x') { fprintf(stderr, "bad hex %s\n", s); exit(2); } s++;
    int n = strlen(s) / 2; r.b = malloc(n + 1); r.n = n;
    for (int i = 0; i < n; i++) r.b[i] = hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]);
    r.b[n] = 0; return r;
}
static void rmtree(const char *p) {
    struct stat s; if (lstat(p, &s)) return;
    if (S_ISDIR(s.st_mode)) {
        DIR *d = opendir(p); struct dirent *e; char q[1024];
        if (d) { while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(q, sizeof q, "%s/%s", p, e->d_name); rmtree(q); } closedir(d); }
        rmdir(p);
    } else unlink(p);
}
static int mkobj(const char *v, const char *kind, unsigned mode, long uid, long gid, Str *d) {
    char p[700]; if (!vmap(v, p, sizeof p)) { if (starts(v, "/dev/")) return 0; fprintf(stderr, "unmapped %s\n", v); exit(2); }
    int r = 0;
    if (!strcmp(kind, "dir")) r = mkdir(p, 0700);
    else if (!strcmp(kind, "reg")) { int fd = open(p, O_CREAT | O_EXCL | O_WRONLY, 0600); if (fd < 0) r = -1; else { if (d && d->n) r = write(fd, d->b, d->n) == d->n ? 0 : -1; close(fd); } }
    else if (!strcmp(kind, "fifo")) r = mkfifo(p, 0600);
    else if (!strcmp(kind, "sock")) { int fd = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a = {AF_UNIX, {0}}; strncpy(a.sun_path, p, 107); r = bind(fd, (void *)&a, sizeof a); close(fd); }
    else if (!strcmp(kind, "lnk")) { char t[700], v[300]; memcpy(v, d->b, d->n); v[d->n] = 0; if (v[0] != '/' || !vmap(v, t, sizeof t)) strcpy(t, v); r = symlink(t, p); if (!r) r = lchown(p, uid, gid); return r; }
    else if (!strcmp(kind, "none")) return 0;
    else { fprintf(stderr, "kind %s\n", kind); exit(2); }
    if (!r) r = chown(p, uid, gid);
    if (!r) r = chmod(p, mode);
    return r;
}
static void ev_cfg(Buf *b, Scen *s) {
    bs(b, "{\"id\":\""); bs(b, s->id); bs(b, "\",\"hosts\":[");
    int f = 1;
    for (int i = 0; i < MAXH; i++) if (s->h[i].used) {
        Host *h = &s->h[i]; if (!f) bc(b, ','); f = 0;
        bs(b, "{\"maj\":"); bi(b, h->maj); bs(b, ",\"min\":"); bi(b, h->min); bkq(b, "pf", h->pf); bkq(b, "sa", h->sa);
        bk(b, "eu"); bdigits(b, h->id[1]); bk(b, "eg"); bdigits(b, h->id[3]);
        for (int k = 0; k < NARR; k++) { bk(b, ARRN[k]); bc(b, '['); if (!h->a[k].null) for (int j = 0; j < h->a[k].n; j++) { if (j) bc(b, ','); bbytes(b, h->a[k].v[j].b, h->a[k].v[j].n); } bc(b, ']'); }
        bc(b, '}');
    }
    bs(b, "],\"world\":["); f = 1;
    for (int i = 0; i < s->no; i++) {
        Obj *o = &s->o[i]; if (!f) bc(b, ','); f = 0;
        bs(b, "{\"p\":"); bbytes(b, o->path, strlen(o->path)); bkq(b, "k", o->kind);
        bk(b, "u"); bdigits(b, o->uid); bk(b, "g"); bdigits(b, o->gid); bk(b, "m"); bi(b, o->mode);
        bk(b, "d"); bbytes(b, o->data.b, o->data.n); bc(b, '}');
    }
    bs(b, "],\"ev\":[");
}
static void run(Scen *s, FILE *out) {
    SC = s;
    if (s->tty[0] && strcmp(s->tty, "-") == 0) s->tty[0] = 0;
    /* fresh world */
    rmtree(ROOT); mkdir(ROOT, 0755); chmod(ROOT, 0755);
    char p[700]; NW = 0;
    const char *base[3] = {"/V", "/run", "/etc"}; const char *bv[3] = {"/V", "/var/run", "/etc"};
    for (int i = 0; i < 3; i++) { snprintf(p, sizeof p, "%s%s", ROOT, base[i]); mkdir(p, 0755); chmod(p, 0755); strcpy(WATCH[NW], p); strcpy(WVIRT[NW++], bv[i]); }
    memset(S, 0, offsetof(Shm, arena)); atomic_store(&S->off, 0);
    for (int i = 0; i < s->no; i++) {
        Obj *o = &s->o[i];
        if (mkobj(o->path, o->kind, o->mode, o->uid, o->gid, &o->data)) { fprintf(stderr, "%s: mk %s: %s\n", s->id, o->path, strerror(errno)); exit(2); }
        if (!strcmp(o->kind, "dir") && NW < MAXWATCH) { vmap(o->path, p, sizeof p); strcpy(WATCH[NW], p); strcpy(WVIRT[NW++], o->path); }
    }
    ME = -1; snapshot(2);
    memset(P, 0, sizeof P);
    for (int i = 0; i < MAXH; i++) if (s->h[i].used) {
        atomic_store(&S->h[i].state, ST_RUN); atomic_store(&S->h[i].cmd, -1); atomic_store(&S->h[i].ack, -3);
        PID[i] = fork(); if (PID[i] < 0) { perror("fork"); exit(2); }
        if (!PID[i]) host_main(i);
    }
    quiesce();
    for (int k = 0; k < s->ns; k++) {
        Step *t = &s->st[k]; Buf b; ME = -1;
        int i = t->n > 0 ? atoi(t->arg[0]) - 1 : 0;
        const char *op = t->op; int nosettle = 0;
        int skipped = 0;
        if (!strcmp(op, "call") || !strcmp(op, "acall")) {
            if (QS[i] != Q_IDLE) skipped = 1;
            else { atomic_store(&S->h[i].cmd, k); syscall(SYS_futex, &S->h[i].cmd, FUTEX_WAKE, 10, 0, 0, 0); }
            if (op[0] == 'a') nosettle = 1;
        } else if (!strcmp(op, "fault") || !strcmp(op, "short") || !strcmp(op, "killb") || !strcmp(op, "killa") || !strcmp(op, "gate") || !strcmp(op, "sigat")) {
            HS *h = &S->h[i];
            if (h->narm < 8 && (QS[i] == Q_IDLE || QS[i] == Q_GATE || QS[i] == Q_BLK)) {
                Arm *m = &h->arm[h->narm]; m->cls = !strcmp(t->arg[1], "any") ? -1 : clsno(t->arg[1]); m->nth = atoi(t->arg[2]); m->err = t->n > 3 ? atoi(t->arg[3]) : 0;
                if (t->arg[2][0] == '+') m->nth = (m->cls < 0 ? h->count : h->occ[m->cls]) + atoi(t->arg[2] + 1);
                m->kind = op[0] == 'f' ? 0 : !strcmp(op, "short") ? 1 : !strcmp(op, "killb") ? 2 : !strcmp(op, "killa") ? 3 : op[0] == 'g' ? 4 : 5;
                h->narm++;
            }
            nosettle = 1;
        } else if (!strcmp(op, "hold")) { atomic_store(&S->h[i].hold, 1); nosettle = 1; }
        else if (!strcmp(op, "release")) { atomic_store(&S->h[i].hold, 0); if (QS[i] == Q_GATE) release(i); }
        else if (!strcmp(op, "connect")) { /* p hexpath uid gid */
            Str v = unhex(t->arg[1]); struct sockaddr_un a = {AF_UNIX, {0}}; char q[700];
            if (!vmap((char *)v.b, q, sizeof q)) { fprintf(stderr, "connect path\n"); exit(2); }
            strncpy(a.sun_path, q, 107);
            begin(&b, "connect", -1); bk(&b, "p"); bi(&b, i + 1); bk(&b, "n"); bbytes(&b, v.b, v.n);
            bk(&b, "u"); bdigits(&b, atol(t->arg[2])); bk(&b, "g"); bdigits(&b, atol(t->arg[3]));
            int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            /* reserve the slot first: the host may react at once */
            bk(&b, "ok"); unsigned at = b.n; bs(&b, "         "); bk(&b, "err"); unsigned at2 = b.n; bs(&b, "\"            \""); bc(&b, '}');
            unsigned o = atomic_load(&S->off); emit(&b);
            as(atol(t->arg[2]), atol(t->arg[3]));
            int r = connect(fd, (void *)&a, sizeof a); int e = errno; back();
            char *rec = S->arena + o + 4;
            memcpy(rec + at, r == 0 ? "true" : "false", r == 0 ? 4 : 5);
            const char *en = r == 0 ? "" : e == EACCES ? "EACCES" : e == ENOENT ? "ENOENT" : e == ECONNREFUSED ? "REFUSED" : e == EAGAIN ? "EAGAIN" : "OTHER";
            memcpy(rec + at2 + 1, en, strlen(en)); rec[at2 + 1 + strlen(en)] = '"'; if (strlen(en) < 12) rec[at2 + 13] = ' ';
            if (r == 0) { P[i].used = 1; P[i].fd = fd; P[i].eof = 0; P[i].drain = 1; } else close(fd);
        } else if (!strcmp(op, "send")) { /* p rle */
            if (!P[i].used || P[i].fd < 0) skipped = 1;
            else {
                rle_decode(t->arg[1]);
                begin(&b, "send", -1); bk(&b, "p"); bi(&b, i + 1); bk(&b, "d"); brle(&b, RB, RBN);
                bk(&b, "n"); unsigned at = b.n; bs(&b, "          "); bc(&b, '}');
                unsigned o = atomic_load(&S->off); emit(&b);
                long r = send(P[i].fd, RB, RBN, MSG_NOSIGNAL | MSG_DONTWAIT); if (r < 0) r = -1;
                char n[16]; int l = snprintf(n, sizeof n, "%ld", r); memcpy(S->arena + o + 4 + at, n, l);
                free(RB); RB = 0;
            }
        } else if (!strcmp(op, "shutwr") || !strcmp(op, "shutrd") || !strcmp(op, "pclose")) {
            if (!P[i].used || P[i].fd < 0) skipped = 1;
            else {
                begin(&b, "pclose", -1); bk(&b, "p"); bi(&b, i + 1); bkq(&b, "how", !strcmp(op, "pclose") ? "full" : op + 4); done(&b);
                if (!strcmp(op, "pclose")) { close(P[i].fd); P[i].fd = -1; P[i].drain = 0; }
                else shutdown(P[i].fd, op[4] == 'w' ? SHUT_WR : SHUT_RD);
            }
        } else if (!strcmp(op, "drain")) {
            if (!P[i].used) skipped = 1;
            else { P[i].drain = !strcmp(t->arg[1], "on"); begin(&b, "drain", -1); bk(&b, "p"); bi(&b, i + 1); bk(&b, "on"); bs(&b, P[i].drain ? "true" : "false"); done(&b); }
        }
        else if (!strcmp(op, "read")) { if (P[i].used && P[i].fd >= 0) drain_one(i, atol(t->arg[1])); }
        else if (!strcmp(op, "sig")) {
            int sg = !strcmp(t->arg[1], "INT") ? SIGINT : !strcmp(t->arg[1], "USR1") ? SIGUSR1 : SIGWINCH;
            if (QS[i] == Q_DEAD) skipped = 1;
            else {
                int n0 = atomic_load(&S->h[i].nsig);
                begin(&b, "sig", i); bkq(&b, "s", t->arg[1]); bkq(&b, "at", QN[QS[i]]); done(&b);
                kill(PID[i], sg);
                if (strcmp(s->h[i].sa, "ign") || sg != SIGINT) /* the handler runs before anything else is judged */
                    for (int z = 0; z < 200000 && atomic_load(&S->h[i].nsig) == n0 && qstate(i) != Q_DEAD; z++) { if (z < 50) sched_yield(); else usleep(50); if (z % 1000 == 999 && sig_blocked(PID[i], sg)) break; }
            }
        } else if (!strcmp(op, "mk")) { /* hexpath kind mode uid gid hexdata */
            Str v = unhex(t->arg[0]), d = unhex(t->arg[5]);
            if (mkobj((char *)v.b, t->arg[1], strtoul(t->arg[2], 0, 8), atol(t->arg[3]), atol(t->arg[4]), &d)) skipped = 1;
            snapshot(1);
        } else if (!strcmp(op, "rm")) { Str v = unhex(t->arg[0]); if (vmap((char *)v.b, p, sizeof p)) rmtree(p); snapshot(1); }
        else if (!strcmp(op, "chmod")) { Str v = unhex(t->arg[0]); if (vmap((char *)v.b, p, sizeof p) && chmod(p, strtoul(t->arg[1], 0, 8))) skipped = 1; snapshot(1); }
        else if (!strcmp(op, "chown")) { Str v = unhex(t->arg[0]); if (vmap((char *)v.b, p, sizeof p) && lchown(p, atol(t->arg[1]), atol(t->arg[2]))) skipped = 1; snapshot(1); }
        else if (!strcmp(op, "settle")) {}
        else if (!strcmp(op, "idle")) usleep(CLIP * 4000); /* every finite wait has run out */
        else { fprintf(stderr, "%s: bad step %s\n", s->id, op); exit(2); }
        if (skipped) { begin(&b, "skip", -1); bkq(&b, "op", op); done(&b); continue; }
        if (!nosettle) settle();
    }
    settle();
    { Buf b; ME = -1; begin(&b, "end", -1); done(&b); }
    for (int i = 0; i < MAXH; i++) if (s->h[i].used && atomic_load(&S->h[i].state) != ST_DEAD) { kill(PID[i], SIGKILL); waitpid(PID[i], 0, 0); }
    for (int i = 0; i < MAXP; i++) if (P[i].used && P[i].fd >= 0) close(P[i].fd);
    /* write */
    static char *cb; if (!cb) cb = malloc(8 << 20);
    Buf b = {cb, 0, 8 << 20}; ev_cfg(&b, s); fwrite(cb, 1, b.n, out);
    unsigned end = atomic_load(&S->off); int first = 1;
    for (unsigned o = 0; o < end && o + 8 < ARENA;) {
        unsigned len; memcpy(&len, S->arena + o, 4); if (!len) break;
        if (!first) fputc(',', out);
        first = 0;
        fwrite(S->arena + o + 4, 1, len, out);
        o += (len + 4 + 3) & ~3u;
    }
    fputs("]}\n", out);
    rmtree(ROOT);
}

static char *dupw(const char *s) { return strdup(s); }
int main(int argc, char **argv) {
    if (argc < 5) { fprintf(stderr, "usage: vhost PLUGIN SYMBOL SCENARIOS OUT [-s]\n"); return 2; }
    if (argc > 5 && !strcmp(argv[5], "-s")) want_sys = 1;
    char tmp[] = "/tmp/vh.XXXXXX"; if (!mkdtemp(tmp)) { perror("mkdtemp"); return 2; }
    chmod(tmp, 0755); snprintf(ROOT, sizeof ROOT, "%s/r", tmp);
    if (chdir(tmp)) return 2;
    signal(SIGPIPE, SIG_IGN);
    void *d = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL); if (!d) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    PL = dlsym(d, argv[2]); if (!PL) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    HOOK = dlsym(d, "vh_hook");
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (S == MAP_FAILED) { perror("mmap"); return 2; }
    FILE *in = fopen(argv[3], "r"), *out = fopen(argv[4], "w"); if (!in || !out) { perror("file"); return 2; }
    static char line[4 << 20]; Scen *s = 0; int count = 0;
    while (fgets(line, sizeof line, in)) {
        char *w[512]; int n = 0; char *sv = 0;
        for (char *t = strtok_r(line, " \n", &sv); t && n < 512; t = strtok_r(0, " \n", &sv)) w[n++] = t;
        if (!n || w[0][0] == '#') continue;
        if (!strcmp(w[0], "scenario")) { s = calloc(1, sizeof *s); strncpy(s->id, w[1], 95); }
        else if (!strcmp(w[0], "obj")) { /* hexpath kind mode uid gid hexdata */
            Obj *o = &s->o[s->no++]; Str v = unhex(w[1]); memcpy(o->path, v.b, v.n + 1); strcpy(o->kind, w[2]); o->mode = strtoul(w[3], 0, 8); o->uid = atol(w[4]); o->gid = atol(w[5]); o->data = unhex(w[6]);
        } else if (!strcmp(w[0], "tty")) { Str v = unhex(w[1]); memcpy(s->tty, v.b, v.n + 1); }
        else if (!strcmp(w[0], "host")) { /* h maj min printf sigact umask */
            Host *h = &s->h[atoi(w[1]) - 1]; h->used = 1; h->maj = atoi(w[2]); h->min = atoi(w[3]); strcpy(h->pf, w[4]); strcpy(h->sa, w[5]); h->umask = strtoul(w[6], 0, 8);
            h->id[0] = h->id[2] = 1000;
        } else if (!strcmp(w[0], "fds")) { s->h[atoi(w[1]) - 1].fds = atoi(w[2]); }
        else if (!strcmp(w[0], "ids")) { for (int i = 0; i < 4; i++) s->h[atoi(w[1]) - 1].id[i] = strtoul(w[2 + i], 0, 10); }
        else if (!strcmp(w[0], "probe")) { /* h script... */
            char *t = malloc(n * 600 + 10); t[0] = 0; size_t l = 0;
            for (int i = 2; i < n; i++) { size_t k = strlen(w[i]); t = realloc(t, l + k + 2); memcpy(t + l, w[i], k); t[l + k] = ' '; t[l + k + 1] = 0; l += k + 1; }
            s->h[atoi(w[1]) - 1].probe = t;
        } else if (!strcmp(w[0], "arr")) { /* h name (null | hex...) */
            Host *h = &s->h[atoi(w[1]) - 1]; int k; for (k = 0; k < NARR; k++) if (!strcmp(ARRN[k], w[2])) break;
            Arr *a = &h->a[k]; if (n > 3 && !strcmp(w[3], "null")) a->null = 1;
            else { a->n = n - 3; a->v = calloc(n, sizeof(Str)); for (int i = 3; i < n; i++) a->v[i - 3] = unhex(w[i]); }
        } else if (!strcmp(w[0], "step")) {
            if (s->ns >= MAXSTEP) { fprintf(stderr, "too many steps\n"); return 2; }
            Step *t = &s->st[s->ns++]; strcpy(t->op, w[1]); t->n = n - 2; for (int i = 2; i < n && i < 18; i++) t->arg[i - 2] = dupw(w[i]);
        } else if (!strcmp(w[0], "end")) { run(s, out); count++; /* scenario memory is small; leak */ }
        else { fprintf(stderr, "bad line %s\n", w[0]); return 2; }
    }
    fclose(out);
    rmtree(tmp);
    fprintf(stderr, "%d\n", count);
    return 0;
}
