/* Preloaded into the database tools: the n-th call that changes a file below TOOL_DIR ends the
 * process (TOOL_MODE 1), is cut short and then ends it (2) or fails (3); everything is logged. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
static long count, at;
static int mode, logfd = -1, inited;
static char dir[600];
static void init(void)
{
    const char *e;
    if (inited) return;
    inited = 1;
    if ((e = getenv("TOOL_DIR"))) snprintf(dir, sizeof dir, "%s/", e);
    if ((e = getenv("TOOL_MODE"))) mode = atoi(e);
    if ((e = getenv("TOOL_AT"))) at = atol(e);
    if ((e = getenv("TOOL_LOG"))) logfd = open(e, O_WRONLY | O_APPEND | O_CREAT, 0600);
}
static int below(const char *p)
{
    char full[1200], cwd[600];
    init();
    if (!dir[0]) return 0;
    if (p[0] != '/') { if (!getcwd(cwd, sizeof cwd)) return 0; snprintf(full, sizeof full, "%s/%s", cwd, p); p = full; }
    return !strncmp(p, dir, strlen(dir)) && !strstr(p, "/log.");
}
static int fdname(int fd, char *b, size_t n)
{
    char l[40];
    ssize_t k;
    struct stat s;
    if (fd <= 2 || fstat(fd, &s) || !S_ISREG(s.st_mode)) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    k = readlink(l, b, n - 1);
    if (k <= 0) return 0;
    b[k] = 0;
    return below(b);
}
static void note(const char *k, const char *a, const char *b)
{
    char t[2000];
    int n;
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (logfd < 0) return;
    n = snprintf(t, sizeof t, "%s %s %s\n", k, a, b);
    (void)!real(logfd, t, n);
}
static int hit(void)
{
    if (++count != at || !mode) return 0;
    if (mode == 1) _exit(70);
    return mode;
}
ssize_t write(int fd, const void *b, size_t n)
{
    static ssize_t (*real)(int, const void *, size_t);
    char f[700];
    int h;
    if (!real) real = dlsym(RTLD_NEXT, "write");
    init();
    if (fd == logfd || !fdname(fd, f, sizeof f)) return real(fd, b, n);
    h = hit();
    if (h == 2) { (void)!real(fd, b, n / 2); _exit(70); }
    if (h == 3) { errno = ENOSPC; return -1; }
    note("write", f, "");
    return real(fd, b, n);
}
#define SYNC(name) int name(int fd) { static int (*real)(int); char f[700]; int h; if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (!fdname(fd, f, sizeof f)) return real(fd); h = hit(); if (h == 2) _exit(70); if (h == 3) { errno = EIO; return -1; } note("sync", f, ""); return real(fd); }
SYNC(fsync)
SYNC(fdatasync)
static int moved(const char *k, const char *a, const char *b)
{
    int h = hit();
    if (h == 2) _exit(70);
    if (h == 3) { errno = EIO; return -1; }
    note(k, a, b);
    return 0;
}
int rename(const char *a, const char *b) { static int (*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "rename");
    return below(b) && moved("rename", a, b) ? -1 : real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { static int (*real)(int, const char *, int, const char *); if (!real) real = dlsym(RTLD_NEXT, "renameat");
    return below(b) && moved("rename", a, b) ? -1 : real(x, a, y, b); }
int unlink(const char *a) { static int (*real)(const char *); if (!real) real = dlsym(RTLD_NEXT, "unlink");
    return below(a) && moved("unlink", a, "") ? -1 : real(a); }
