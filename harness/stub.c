/* Stands in for sudo, socat, stty and clear in runs of the approval script: writes down how it was called. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char **argv) {
    const char *me = strrchr(argv[0], '/'); me = me ? me + 1 : argv[0];
    if (!strcmp(me, "stty") && argc == 2 && !strcmp(argv[1], "-g")) { puts("500:5:bf:8a3b"); return 0; }
    if (!strcmp(me, "stty") || !strcmp(me, "clear")) return 0;
    const char *log = getenv("VP_LOG"); if (!log) return 1;
    char *b; size_t n; FILE *f = open_memstream(&b, &n);
    fprintf(f, "{\"prog\":\"%s\",\"uid\":%d,\"euid\":%d,\"args\":[", me, getuid(), geteuid());
    for (int i = 1; i < argc; i++) {
        fprintf(f, "%s[", i > 1 ? "," : "");
        for (unsigned char *p = (void *)argv[i]; *p; p++) fprintf(f, "%s%d", p == (void *)argv[i] ? "" : ",", *p);
        fputc(']', f);
    }
    fputs("]}\n", f); fclose(f);
    int d = open(log, O_WRONLY | O_APPEND); if (d < 0) return 1;
    if (write(d, b, n) != (ssize_t)n) return 1;
    return 0;
}
