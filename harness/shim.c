/* For runs of the approval script: /var/run/sudo_pair is a scratch directory ($VP_DIR). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
static __thread char buf[4][PATH_MAX];
static __thread int n;
static const char *r(const char *p) {
    static const char *pre[] = { "/var/run/sudo_pair", "/run/sudo_pair" };
    const char *d = getenv("VP_DIR");
    if (p && d) for (int i = 0; i < 2; i++) {
        size_t l = strlen(pre[i]);
        if (!strncmp(p, pre[i], l) && (p[l] == 0 || p[l] == '/')) { char *b = buf[n++ & 3]; snprintf(b, PATH_MAX, "%s%s", d, p + l); return b; }
    }
    return p;
}
#define NEXT(f) static typeof(f) *real; if (!real) real = (typeof(f) *)dlsym(RTLD_NEXT, #f)
int access(const char *p, int m) { NEXT(access); return real(r(p), m); }
int eaccess(const char *p, int m) { NEXT(eaccess); return real(r(p), m); }
int euidaccess(const char *p, int m) { NEXT(euidaccess); return real(r(p), m); }
int faccessat(int d, const char *p, int m, int f) { NEXT(faccessat); return real(d, r(p), m, f); }
int stat(const char *restrict p, struct stat *restrict s) { NEXT(stat); return real(r(p), s); }
int lstat(const char *restrict p, struct stat *restrict s) { NEXT(lstat); return real(r(p), s); }
int stat64(const char *restrict p, struct stat64 *restrict s) { NEXT(stat64); return real(r(p), s); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { NEXT(lstat64); return real(r(p), s); }
int fstatat(int d, const char *restrict p, struct stat *restrict s, int f) { NEXT(fstatat); return real(d, r(p), s, f); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int f) { NEXT(fstatat64); return real(d, r(p), s, f); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict s) { NEXT(statx); return real(d, r(p), f, m, s); }
int open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); NEXT(open); return real(r(p), f, m); }
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); NEXT(open64); return real(r(p), f, m); }
int openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); NEXT(openat); return real(d, r(p), f, m); }
int chdir(const char *p) { NEXT(chdir); return real(r(p)); }
int connect(int s, const struct sockaddr *a, socklen_t l) {
    static int (*real)(int, const struct sockaddr *, socklen_t); if (!real) real = dlsym(RTLD_NEXT, "connect");
    if (a->sa_family == AF_UNIX) {
        struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX;
        const char *p = ((const struct sockaddr_un *)a)->sun_path; const char *q = r(p);
        if (q != p) { strncpy(u.sun_path, q, sizeof u.sun_path - 1); return real(s, (void *)&u, sizeof u); }
    }
    return real(s, a, l);
}
