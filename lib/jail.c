/* Stand-ins of the calls that change files or start programs, linked into the
   instrumented programs.  With VF_JAIL set they only act below that folder
   and start nothing, so that a script made of random pieces harms nothing. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <utime.h>
#include <sys/time.h>

static int inside(const char *path)
{
    const char *jail = getenv("VF_JAIL_DIR");
    char dir[PATH_MAX + 1], real[PATH_MAX + 1], jr[PATH_MAX + 1];
    char *s;
    size_t n;
    if (!jail)
        return 1;
    if (!path || !realpath(jail, jr) || strlen(path) >= PATH_MAX)
        return 0;
    n = strlen(jr);
    if (realpath(path, real))
        return !strncmp(real, jr, n) && (real[n] == '/' || !real[n]);
    strcpy(dir, path);
    while (*dir) {
        s = strrchr(dir, '/');
        if (s == dir)
            s[1] = 0;
        else if (s)
            *s = 0;
        else
            strcpy(dir, ".");
        if (realpath(dir, real))
            return !strncmp(real, jr, n) && (real[n] == '/' || !real[n]);
        if (!strcmp(dir, ".") || !strcmp(dir, "/"))
            return 0;
    }
    return 0;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)
#define DENY(p) if (!inside(p)) { errno = EACCES; return -1; }

int unlink(const char *p) { REAL(unlink); DENY(p) return real(p); }
int rmdir(const char *p) { REAL(rmdir); DENY(p) return real(p); }
int remove(const char *p) { REAL(remove); DENY(p) return real(p); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); DENY(p) return real(p, m); }
int chmod(const char *p, mode_t m) { REAL(chmod); DENY(p) return real(p, m); }
int truncate(const char *p, off_t n) { REAL(truncate); DENY(p) return real(p, n); }
int utime(const char *p, const struct utimbuf *t) { REAL(utime); DENY(p) return real(p, t); }
int utimes(const char *p, const struct timeval t[2]) { REAL(utimes); DENY(p) return real(p, t); }
int symlink(const char *a, const char *b) { REAL(symlink); DENY(b) return real(a, b); }
int link(const char *a, const char *b) { REAL(link); DENY(a) DENY(b) return real(a, b); }
int rename(const char *a, const char *b) { REAL(rename); DENY(a) DENY(b) return real(a, b); }
int creat(const char *p, mode_t m) { REAL(creat); DENY(p) return real(p, m); }

static int null_device(const char *p) { return p && !strcmp(p, "/dev/null"); }

int open(const char *p, int flags, ...)
{
    REAL(open);
    va_list va;
    int m;
    va_start(va, flags);
    m = va_arg(va, int);
    va_end(va);
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)))
        if (!null_device(p)) DENY(p)
    return real(p, flags, m);
}

FILE *fopen(const char *p, const char *mode)
{
    REAL(fopen);
    if (strpbrk(mode, "wa+") && !null_device(p) && !inside(p)) { errno = EACCES; return NULL; }
    return real(p, mode);
}

#define NOEXEC if (getenv("VF_JAIL_DIR")) { errno = EACCES; return -1; }
int execve(const char *p, char *const a[], char *const e[]) { REAL(execve); NOEXEC return real(p, a, e); }
int execvp(const char *p, char *const a[]) { REAL(execvp); NOEXEC return real(p, a); }
int execv(const char *p, char *const a[]) { REAL(execv); NOEXEC return real(p, a); }
int execl(const char *p, const char *a, ...)
{
    char *args[64];
    int n = 0;
    va_list va;
    va_start(va, a);
    for (args[n++] = (char *) a; n < 63 && args[n - 1]; n++)
        args[n] = va_arg(va, char *);
    args[63] = NULL;
    va_end(va);
    return execv(p, args);
}
int open64(const char *p, int flags, ...)
{
    va_list va;
    int m;
    va_start(va, flags);
    m = va_arg(va, int);
    va_end(va);
    return open(p, flags, m);
}
FILE *fopen64(const char *p, const char *mode) { return fopen(p, mode); }
