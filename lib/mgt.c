/* Drives microgettext: reads operations (fields in hexadecimal) and prints
   the results.  The locale is the one the operations set. */
#include <locale.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char names[32][200];
static char *fake_setlocale(int cat, const char *name)
{
    if (name)
        snprintf(names[cat], sizeof(names[cat]), "%s", name);
    return names[cat];
}
#define setlocale fake_setlocale
#include "microgettext.c"

static char *unhex(char *s)
{
    size_t n = strlen(s) / 2, i;
    char *r = malloc(n + 1);
    for (i = 0; i < n; i++) {
        unsigned c;
        sscanf(s + 2 * i, "%2x", &c);
        r[i] = c;
    }
    r[n] = 0;
    return r;
}
static void show(const char *s)
{
    for (; s && *s; s++)
        printf("%02x", (unsigned char) *s);
    putchar('\n');
    fflush(stdout);
}
static int category(char c)
{
    return c == 't' ? LC_TIME : c == 'n' ? LC_NUMERIC : c == 'c' ? LC_CTYPE : LC_MESSAGES;
}

int main(void)
{
    static char line[200000];
    char *f[4];
    int i;
    while (fgets(line, sizeof(line), stdin)) {
        line[strcspn(line, "\n")] = 0;
        f[0] = line;
        for (i = 1; i < 4; i++) {
            f[i] = strchr(f[i - 1], ' ');
            if (f[i])
                *f[i]++ = 0;
            else
                f[i] = "";
            if (!*f[i])
                f[i] = f[i - 1] + strlen(f[i - 1]);
        }
        for (i = 1; i < 4; i++)
            f[i] = unhex(f[i]);
        switch (line[0]) {
        case 'L': fake_setlocale(category(line[1]), f[1]); if (line[1] == 'm') fake_setlocale(LC_ALL, f[1]); break;
        case 'B': bindtextdomain(f[1], f[2]); show(bindtextdomain(f[1], NULL)); break;
        case 'T': show(textdomain(f[1])); break;
        case 'G': show(gettext(f[1])); break;
        case 'D': show(dgettext(f[1], f[2])); break;
        case 'C': show(dcgettext(f[1], f[2], category(line[1]))); break;
        }
        for (i = 1; i < 4; i++)
            free(f[i]);
    }
    return 0;
}
