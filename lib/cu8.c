/* Runs the operations of the file argv[1] on libcu8 and writes what they gave
   to argv[2]. One operation per line; byte strings are written in hexadecimal
   ("-" is the empty one). Its own files go through plain Win32 calls. */
#define LIBCU8_NO_WRAPPERS
#include <windows.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <io.h>
#include <errno.h>
#include <process.h>
#include <libcu8.h>

static HANDLE rep;

static void say(const char *fmt, ...)
{
    static char buf[400000];
    DWORD n;
    va_list a;
    va_start(a, fmt);
    vsnprintf(buf, sizeof(buf), fmt, a);
    va_end(a);
    WriteFile(rep, buf, strlen(buf), &n, NULL);
}

static void sayhex(const char *tag, const char *p, size_t n)
{
    static char buf[300000];
    size_t i;
    if (!p) { say("%s NULL\n", tag); return; }
    if (!n) { say("%s -\n", tag); return; }
    for (i = 0; i < n && i < 140000; i++) sprintf(buf + 2 * i, "%02x", (unsigned char)p[i]);
    buf[2 * i] = 0;
    say("%s %s\n", tag, buf);
}

static char *unhex(const char *h, size_t *n)
{
    size_t i, l = !strcmp(h, "-") ? 0 : strlen(h) / 2;
    char *r = malloc(l + 1);     /* exactly what is needed */
    unsigned x;
    for (i = 0; i < l; i++) { sscanf(h + 2 * i, "%2x", &x); r[i] = (char)x; }
    r[l] = 0;
    if (n) *n = l;
    return r;
}

int main(int argc, char **argv)
{
    static char all[1 << 20];
    const char **uargv = NULL;
    DWORD got = 0;
    HANDLE h;
    FILE *f[4] = {0};
    char *line, *next, *w[64];
    int i, k;

    if (argc < 3) return 2;
    rep = CreateFileA(argv[2], GENERIC_WRITE, FILE_SHARE_READ, NULL, CREATE_ALWAYS, 0, NULL);
    if (rep == INVALID_HANDLE_VALUE) return 3;
    if (libcu8_init(&uargv)) { say("init failed\n"); return 4; }

    if (!strcmp(argv[1], "--args")) {
        for (i = 3; uargv[i]; i++) sayhex("arg", uargv[i], strlen(uargv[i]));
        say("end\n");
        return 37;
    }
    h = CreateFileA(argv[1], GENERIC_READ, FILE_SHARE_READ, NULL, OPEN_EXISTING, 0, NULL);
    if (h == INVALID_HANDLE_VALUE) return 3;
    ReadFile(h, all, sizeof(all) - 1, &got, NULL);
    CloseHandle(h);
    all[got] = 0;

    for (line = all; *line; line = next) {
        next = strchr(line, '\n');
        if (next) *next++ = 0; else next = line + strlen(line);
        for (k = 0, w[0] = strtok(line, " "); w[k] && k < 62; ) w[++k] = strtok(NULL, " ");
        if (!k) continue;
        size_t n, m;
        char *a = k > 1 ? unhex(w[1], &n) : NULL, *b = NULL;
#define OP(s) (!strcmp(w[0], s))
        if (OP("enc")) {
            char e[64];
            i = libcu8_set_fencoding(a);
            libcu8_get_fencoding(e, sizeof(e));
            say("enc %d %s\n", i != 0, e);
        } else if (OP("getenc")) {
            char e[64];
            memset(e, 'x', sizeof(e));
            libcu8_get_fencoding(e, atoi(w[2]));
            sayhex("getenc", e, atoi(w[2]) + 1);
        } else if (OP("xconv")) {       /* xconv HEX MODE */
            char *r = libcu8_xconvert(atoi(w[2]), a, n, &m);
            sayhex("xconv", r, m);
            free(r);
        } else if (OP("conv")) {        /* conv 00 MODE HEX... */
            char rem[8];
            size_t rc = 0;
            for (i = 3; i < k; i++) {
                b = unhex(w[i], &n);
                char *r = libcu8_convert(atoi(w[2]), b, n, rem, &rc, 4, &m);
                sayhex("conv", r, m);
                free(r);
            }
            say("left %d\n", (int)rc);
            b = NULL;
        } else if (OP("fopen")) {       /* fopen NAME SLOT MODE */
            FILE *x = libcu8_fopen(a, w[3]);
            f[atoi(w[2])] = x;
            say("fopen %d\n", x != NULL);
        } else if (OP("fputs")) {       /* fputs TEXT SLOT */
            say("fputs %d\n", libcu8_fputs(a, f[atoi(w[2])]) != EOF);
        } else if (OP("fprintf")) {
            int r = libcu8_fprintf(f[atoi(w[2])], "<%s|%d>", a, 42);
            say("fprintf %d\n", r);
        } else if (OP("fputc")) {
            for (i = 0; i < (int)n; i++) libcu8_fputc(a[i], f[atoi(w[2])]);
            say("fputc\n");
        } else if (OP("fgets")) {       /* fgets 00 SLOT SIZE */
            int sz = atoi(w[3]);
            char *buf = malloc(sz + 2);
            memset(buf, 0x7e, sz + 2);
            char *r = libcu8_fgets(buf, sz, f[atoi(w[2])]);
            if (r && r != buf) say("fgets gave another pointer\n");
            if (buf[sz] != 0x7e || buf[sz + 1] != 0x7e) say("fgets wrote behind its buffer\n");
            sayhex("fgets", r, r ? strlen(r) : 0);
            free(buf);
        } else if (OP("fgetc")) {
            i = libcu8_fgetc(f[atoi(w[2])]);
            if (i == EOF) say("fgetc EOF\n"); else say("fgetc %02x\n", i & 0xff);
        } else if (OP("fseek")) {
            say("fseek %d\n", libcu8_fseek(f[atoi(w[2])], atoi(w[3]), SEEK_SET));
        } else if (OP("fflush")) {
            say("fflush %d\n", libcu8_fflush(f[atoi(w[2])]));
        } else if (OP("fclose")) {
            fclose(f[atoi(w[2])]);
            f[atoi(w[2])] = NULL;
            say("fclose\n");
        } else if (OP("mkdir")) {
            say("mkdir %d\n", libcu8_mkdir(a) != 0);
        } else if (OP("rmdir")) {
            say("rmdir %d\n", libcu8_rmdir(a) != 0);
        } else if (OP("remove")) {
            say("remove %d\n", libcu8_remove(a) != 0);
        } else if (OP("unlink")) {
            say("unlink %d\n", libcu8_unlink(a) != 0);
        } else if (OP("rename")) {
            b = unhex(w[2], &m);
            say("rename %d\n", libcu8_rename(a, b) != 0);
        } else if (OP("chdir")) {
            say("chdir %d\n", libcu8_chdir(a) != 0);
        } else if (OP("getcwd")) {
            char cwd[1024];
            i = libcu8_getcwd(cwd, sizeof(cwd));
            say("getcwd %d\n", i == -1);
            sayhex("cwd", cwd, strlen(cwd));
        } else if (OP("stat")) {
            struct _stat64 st;
            i = libcu8_stat64(a, &st);
            if (i) say("stat none\n");
            else say("stat %s %d\n", (st.st_mode & _S_IFDIR) ? "dir" : "file",
                     (st.st_mode & _S_IFDIR) ? 0 : (int)st.st_size);
        } else if (OP("open") || OP("creat")) {    /* open NAME CONTENTS */
            b = unhex(w[2], &m);
            int fd = OP("open") ? libcu8_open(a, _O_WRONLY | _O_CREAT | _O_APPEND | _O_BINARY, 0600)
                                : libcu8_creat(a, 0600);
            say("%s %d\n", w[0], fd != -1);
            if (fd != -1) { _setmode(fd, _O_BINARY); _write(fd, b, m); _close(fd); }
        } else if (OP("list")) {
            DIR *d = libcu8_opendir(a);
            struct dirent *e;
            say("list %d\n", d != NULL);
            if (d) {
                while ((e = libcu8_readdir(d))) sayhex("ent", e->d_name, strlen(e->d_name));
                libcu8_closedir(d);
            }
        } else if (!strncmp(w[0], "spawn", 5)) {  /* spawn REPORT ARG... */
            static const char *av[64];
            for (i = 2; i < k; i++) av[i + 1] = unhex(w[i], NULL);
            av[0] = "cu8.exe"; av[1] = "--args"; av[2] = a; av[k + 1] = NULL;
            intptr_t r;
            if (OP("spawn")) r = libcu8_spawnv(_P_WAIT, argv[0], av);
            else if (OP("spawnlp") && k == 3) r = libcu8_spawnlp(_P_WAIT, argv[0], av[0], av[1], av[2], av[3], NULL);
            else if (OP("spawnle") && k == 3) r = libcu8_spawnle(_P_WAIT, argv[0], av[0], av[1], av[2], av[3], NULL, _environ);
            else if (OP("spawnlpe") && k == 3) r = libcu8_spawnlpe(_P_WAIT, argv[0], av[0], av[1], av[2], av[3], NULL, _environ);
            else if (OP("spawnvp")) r = libcu8_spawnvp(_P_WAIT, argv[0], av);
            else if (OP("spawnve")) r = libcu8_spawnve(_P_WAIT, argv[0], av, (const char * const *)_environ);
            else if (OP("spawnvpe")) r = libcu8_spawnvpe(_P_WAIT, argv[0], av, (const char * const *)_environ);
            else if (k == 3) r = libcu8_spawnl(_P_WAIT, argv[0], av[0], av[1], av[2], av[3], NULL);
            else r = libcu8_spawnl(_P_WAIT, argv[0], av[0], av[1], av[2], av[3], av[4], NULL);
            say("%s %d\n", w[0], (int)r);
        } else say("unknown operation %s\n", w[0]);
        free(a);
        free(b);
    }
    say("end\n");
    return 0;
}
