#include <windows.h>
#include <shellapi.h>
#include <stdio.h>
#include <string.h>
#include <fcntl.h>
#include <io.h>
static void put(FILE* f, const wchar_t* w) {
    char b[60000];
    WideCharToMultiByte(CP_UTF8, 0, w, -1, b, sizeof(b), NULL, NULL);
    fputs(b, f);
}
int main(void) {
    int n, i, c;
    static wchar_t v[32768];
    wchar_t** a = CommandLineToArgvW(GetCommandLineW(), &n);
    _setmode(0, _O_BINARY); _setmode(1, _O_BINARY); _setmode(2, _O_BINARY);
    for (i = 1; i < n; i++) {
        if (!wcsncmp(a[i], L"x=", 2)) { fflush(stdout); return _wtoi(a[i] + 2); }
        else if (!wcsncmp(a[i], L"e=", 2)) {
            if (!GetEnvironmentVariableW(a[i] + 2, v, 32768)) wcscpy(v, L"(none)");
            put(stdout, L"{"); put(stdout, v); put(stdout, L"}\n");
        } else if (!wcscmp(a[i], L"in")) { while ((c = getchar()) != EOF) putchar(c); }
        else if (!wcscmp(a[i], L"err")) { put(stderr, L"to-err\n"); fflush(stderr); }
        else if (!wcscmp(a[i], L"cwd")) { GetCurrentDirectoryW(32768, v); put(stdout, wcsrchr(v, L'\\') + 1); put(stdout, L"\n"); }
        else { put(stdout, L"["); put(stdout, a[i]); put(stdout, L"]\n"); }
        fflush(stdout);
    }
    return 0;
}
