/* The external program the checks run: it shows what it has been given.
   $PR selects what: a arguments, e environment, c folder, i standard input,
   o a line on standard error, f inherited descriptors, p endless output, s arguments on standard error, x<n> exit status, k<n> signal */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

extern char** environ;

static int cmp(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }

int main(int argc, char** argv)
{
    const char* p = getenv("PR");
    const char* tag = getenv("PT");
    char buf[4096];
    int i, n, code = 0;
    if (!p) p = "a";
    if (tag) printf("T%s\n", tag);
    for (; *p; p++)
        switch (*p) {
        case 'n':
            printf("N%s\n", argc ? argv[0] : "");
            break;
        case 'a':
            for (i = 1; i < argc; i++) printf("A<%s>\n", argv[i]);
            printf("A%d\n", argc - 1);
            break;
        case 'e':
            for (n = 0; environ[n]; n++);
            qsort(environ, n, sizeof(char*), cmp);
            for (i = 0; i < n; i++) printf("E%s\n", environ[i]);
            printf("E.\n");
            break;
        case 's':
            fflush(stdout);
            for (i = 1; i < argc; i++) fprintf(stderr, "A<%s>\n", argv[i]);
            fprintf(stderr, "A%d\n", argc - 1);
            break;
        case 'c':
            printf("C%s\n", getcwd(buf, sizeof buf) ? buf : "?");
            break;
        case 'i':
            fflush(stdout);
            while ((n = read(0, buf, sizeof buf)) > 0) if (write(1, buf, n) != n) break;
            break;
        case 'o':
            fflush(stdout);
            fprintf(stderr, "O\n");
            break;
        case 'f':
            for (i = 3; i < 256; i++) if (fcntl(i, F_GETFD) != -1) printf("F%d\n", i);
            break;
        case 'p':
            /* writes on and on, without looking at errors: only a broken pipe ends it */
            for (i = 0; i < 50000; i++) if (write(1, buf, sizeof buf) < 0) n = 0;
            fprintf(stderr, "P\n");
            break;
        case 'x':
            code = atoi(p + 1);
            break;
        case 'k':
            fflush(stdout);
            signal(atoi(p + 1), SIG_DFL);
            raise(atoi(p + 1));
            break;
        }
    fflush(stdout);
    return code;
}
