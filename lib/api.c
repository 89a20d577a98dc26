/* Drives libpBat: reads operations (an operation and its fields, the texts in
   hexadecimal after an 'x') and prints what they give, one line each. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <libpBat.h>

#define REGS 6
static ESTR *reg[REGS];
static LPSTACK stacks[3];
static LPCOMMANDLIST lists[3];
static int marks[64];           /* what the commands that are no alias point to */

static char *unhex(const char *s)
{
    size_t n, i;
    char *r;
    if (*s != 'x')
        return NULL;
    n = strlen(++s) / 2;
    r = malloc(n + 1);          /* exactly, so that overflows are seen */
    for (i = 0; i < n; i++) {
        unsigned c;
        sscanf(s + 2 * i, "%2x", &c);
        r[i] = c;
    }
    r[n] = 0;
    return r;
}

static void hex(const char *s)
{
    putchar('x');
    for (; *s; s++)
        printf("%02x", (unsigned char) *s);
}

static void place(const char *base, const char *p)
{
    printf("%ld\n", p ? (long) (p - base) : -1L);
}

static void command(COMMANDINFO *ci, const char *name, const char *flag, const char *proc)
{
    ci->ptrCommandName = unhex(name);
    ci->cfFlag = strtoul(flag, NULL, 0);
    ci->lpCommandProc = (*proc == 'x') ? (void *) unhex(proc) : (void *) &marks[atoi(proc)];
}

static void *thread(void *p)
{
    MUTEX *m = ((void **) p)[0];
    int *n = ((void **) p)[1], i;
    for (i = 0; i < 500; i++) {
        pBat_LockMutex(m);
        ++*n;
        pBat_ReleaseMutex(m);
    }
    pBat_EndThread(&marks[*(int *) ((void **) p)[2]]);
    return NULL;
}

static void freed(void *p)
{
    putchar(' ');
    hex(p);
    free(p);
}

int main(void)
{
    static char line[1 << 21];
    char *f[200], *s, *d, *q;
    int n, i;

    pBat_LibInit();
    for (i = 0; i < REGS; i++)
        reg[i] = pBat_EsInit();
    while (fgets(line, sizeof(line), stdin)) {
        line[strcspn(line, "\n")] = 0;
        for (n = 0, s = strtok(line, " "); s && n < 199; s = strtok(NULL, " "))
            f[n++] = s;
        f[n] = "";
#define OP(x) (!strcmp(f[0], x))
#define R(k) reg[atoi(f[k])]
        if (OP("cpy") || OP("cat") || OP("cpyn") || OP("catn")) {
            s = unhex(f[2]);
            if (OP("cpy")) pBat_EsCpy(R(1), s);
            else if (OP("cat")) pBat_EsCat(R(1), s);
            else if (OP("cpyn")) pBat_EsCpyN(R(1), s, atoi(f[3]));
            else pBat_EsCatN(R(1), s, atoi(f[3]));
            free(s);
            hex(pBat_EsToChar(R(1)));
            puts("");
        } else if (OP("cpye") || OP("cate")) {
            (OP("cpye") ? pBat_EsCpyE : pBat_EsCatE)(R(1), R(2));
            hex(pBat_EsToChar(R(1)));
            puts("");
        } else if (OP("rep") || OP("repi")) {
            s = unhex(f[2]);
            d = unhex(f[3]);
            (OP("rep") ? pBat_EsReplace : pBat_EsReplaceI)(R(1), s, d);
            hex(pBat_EsToChar(R(1)));
            puts("");
            free(s);
            free(d);
        } else if (OP("get")) {
            FILE *file = fopen(f[2], "rb");
            pBat_SetNewLineMode(atoi(f[3]));
            do {
                i = pBat_EsGet(R(1), file);
                printf("%d", !!i);
                hex(pBat_EsToChar(R(1)));
                putchar(' ');
            } while (!i);
            puts("");
            fclose(file);
        } else if (OP("new")) {
            pBat_EsFree(R(1));
            R(1) = pBat_EsInit();
            hex(pBat_EsToChar(R(1)));
            puts("");
        } else if (OP("dup")) {
            s = unhex(f[1]);
            d = pBat_strdup(s);
            free(s);
            hex(d);
            free(d);
            puts("");
        } else if (OP("push")) {
            stacks[atoi(f[1])] = pBat_PushStack(stacks[atoi(f[1])], unhex(f[2]));
            puts("ok");
        } else if (OP("pop")) {
            stacks[atoi(f[1])] = pBat_PopStack(stacks[atoi(f[1])], freed);
            puts("");
        } else if (OP("top")) {
            void *p = NULL;
            i = pBat_GetStack(stacks[atoi(f[1])], &p);
            printf("%d ", !!i);
            if (p)
                hex(p);
            puts("");
        } else if (OP("clear")) {
            pBat_ClearStack(stacks[atoi(f[1])], freed);
            stacks[atoi(f[1])] = NULL;
            puts("");
        } else if (OP("map")) {
            int k = (n - 2) / 3;
            COMMANDINFO *ci = malloc(k * sizeof(COMMANDINFO) + 1);
            for (i = 0; i < k; i++)
                command(ci + i, f[2 + 3 * i], f[3 + 3 * i], f[4 + 3 * i]);
            lists[atoi(f[1])] = pBat_MapCommandInfo(ci, k);
            for (i = 0; i < k; i++) {
                free(ci[i].ptrCommandName);
                if (ci[i].cfFlag & PBAT_DEF_FLAG)
                    free(ci[i].lpCommandProc);
            }
            free(ci);
            puts("ok");
        } else if (OP("add") || OP("subst")) {
            COMMANDINFO ci;
            command(&ci, f[2], f[3], f[4]);
            i = OP("add") ? pBat_AddCommandDynamic(&ci, &lists[atoi(f[1])]) : pBat_ReplaceCommand(&ci, lists[atoi(f[1])]);
            free(ci.ptrCommandName);
            if (ci.cfFlag & PBAT_DEF_FLAG)
                free(ci.lpCommandProc);
            printf("%d\n", !!i);
        } else if (OP("remap") || OP("copylist")) {
            LPCOMMANDLIST l = OP("remap") ? pBat_ReMapCommandInfo(lists[atoi(f[1])]) : pBat_DuplicateCommandList(lists[atoi(f[1])]);
            if (OP("remap") || atoi(f[1]) != atoi(f[2]))
                pBat_FreeCommandList(lists[atoi(f[OP("remap") ? 1 : 2])]);
            lists[atoi(f[OP("remap") ? 1 : 2])] = l;
            puts("ok");
        } else if (OP("drop")) {
            pBat_FreeCommandList(lists[atoi(f[1])]);
            lists[atoi(f[1])] = NULL;
            puts("ok");
        } else if (OP("find")) {
            void *p = NULL;
            s = unhex(f[2]);
            i = pBat_GetCommandProc(s, lists[atoi(f[1])], &p);
            free(s);
            if (i == -1)
                puts("none");
            else {
                printf("%u ", (unsigned) i);
                if (i & PBAT_DEF_FLAG)
                    hex(p);
                else
                    printf("%ld", (long) ((int *) p - marks));
                puts("");
            }
        } else if (OP("skip")) {
            s = unhex(f[1]);
            place(s, pBat_SkipBlanks(s));
            place(s, pBat_SkipAllBlanks(s));
            place(s, pBat_GetNextNonEscaped(s));
            free(s);
        } else if (OP("strip")) {
            s = unhex(f[1]);
            pBat_StripEndDelims(s);
            hex(s);
            puts("");
            free(s);
        } else if (OP("unescape")) {
            s = unhex(f[1]);
            pBat_UnEscape(s);
            hex(s);
            puts("");
            free(s);
        } else if (OP("char")) {
            s = unhex(f[1]);
            i = atoi(f[2]);
            place(s, pBat_SearchChar(s, i));
            place(s, pBat_SearchLastChar(s, i));
            place(s, pBat_SearchChar_OutQuotes(s, i));
            free(s);
        } else if (OP("token")) {
            s = unhex(f[1]);
            d = unhex(f[2]);
            q = unhex(f[3]);
            place(s, pBat_SearchToken(s, d));
            place(s, pBat_SearchLastToken(s, d));
            place(s, pBat_SearchToken_OutQuotes(s, d));
            place(s, pBat_SearchToken_Hybrid(s, d, q));
            free(s);
            free(d);
            free(q);
        } else if (OP("match")) {
            s = unhex(f[1]);
            d = unhex(f[2]);
            printf("%d\n", !!pBat_RegExpMatch(s, d));
            printf("%d\n", !!pBat_RegExpCaseMatch(s, d));
            place(s, s + pBat_GetStaticLength(s));
            free(s);
            free(d);
        } else if (OP("size")) {
            s = malloc(atoi(f[2]));
            pBat_FormatFileSize(s, atoi(f[2]), strtoull(f[1], NULL, 10));
            hex(s);
            free(s);
            puts("");
        } else if (OP("files")) {
            char *names[200];
            for (i = 1; i < n; i++)
                names[i - 1] = unhex(f[i]);
            names[n - 1] = NULL;
            s = pBat_GetFirstExistingFile(names);
            if (s)
                hex(s);
            puts("");
            for (i = 0; i < n - 1; i++) {
                printf("%d%d", !!pBat_FileExists(names[i]), !!pBat_DirExists(names[i]));
                free(names[i]);
            }
            puts("");
        } else if (OP("threads")) {
            int k = atoi(f[1]), num[16], count = 0;
            MUTEX m;
            THREAD th[16];
            void *a[16][3], *ret;
            pBat_CreateMutex(&m);
            for (i = 0; i < k; i++) {
                num[i] = i;
                a[i][0] = &m;
                a[i][1] = &count;
                a[i][2] = &num[i];
                printf("%d", !!pBat_BeginThread(&th[i], thread, 0, a[i]));
            }
            for (i = 0; i < k; i++) {
                ret = NULL;
                pBat_WaitForThread(&th[i], &ret);
                printf(" %ld", (long) ((int *) ret - marks));
                pBat_CloseThread(&th[i]);
            }
            pBat_CloseMutex(&m);
            printf(" %d\n", count);
        } else
            printf("unknown %s\n", f[0]);
        fflush(stdout);
    }
    for (i = 0; i < REGS; i++)
        pBat_EsFree(reg[i]);
    return 0;
}
