"""No program text, command line or input makes the programs crash or touch memory they do not own."""
import os, re, runpy, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "lib"), HERE]
import vf


class _Got(Exception):
    pass


def families_of(check):
    got = []

    def main(pid, families, **kw):
        got.extend(families)
        raise _Got
    old, vf.main = vf.main, main
    try:
        runpy.run_path(os.path.join(HERE, check + ".py"), run_name="__main__")
    except _Got:
        pass
    finally:
        vf.main = old
    return got


def frames(text):
    """kind of the report and the functions it names"""
    kind = re.search(r"ERROR: AddressSanitizer: ([^\n]*)|runtime error: ([^\n]*)", text)
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*?([^/\s]+:\d+)", text)
    return "%s\n%s" % ((kind.group(1) or kind.group(2)) if kind else text[:300], "\n".join("   %s %s" % f for f in fr[:8]))


NESTING = re.compile(r" in (pBat_RunBatch|pBat_RunBlock|pBat_CmdCallFile|pBat_ExecCmd|pBat_RunLine|GetNextBlockEnd|pBat_GetNextBlockEnd|pBat_RunParsedLine)")


def own_recursion(text):
    """a script which calls itself for ever (or brackets nested thousands of times) uses up the stack"""
    return "AddressSanitizer: stack-overflow" in text and (len(NESTING.findall(text)) >= 10 or "SUMMARY" not in text)


def verdict(ctx):
    r = [x for x in ctx.reports() if not own_recursion(x) and "hard rss limit exhausted" not in x]
    return "memory error: " + frames(r[0]) if r else None


def wrap(check, f, quick, thorough):
    def run(case, ctx):
        ctx.reports()
        try:
            f.run(case, ctx)
        except vf.Reject:
            pass
        return verdict(ctx)
    return vf.Family(check + "-" + f.name, f.gen, run, quick, thorough, show=f.show)


# scripts made of random pieces, which only act below their folder (lib/jail.c)

CMDS = """echo exit pause set setlocal endlocal help rem cls color title type more goto start cd chdir dir if del erase ren rename move md mkdir rd rmdir copy for call def shift find break chcp pushd popd wc xargs prompt pecho timeout mod locale ver :a :b goto:a call:a echo. echo: echo, echo( set/p""".split()
SWITCHES = """/a /b /c /d /e /f /g /h /i /l /n /o /p /q /r /s /t /v /w /x /y /z /? /-a /-y /a:d /a:-d /a:hs /a:rwx /o:n /o:-s /t:1 /e:5 /c:3 /m:x /m:0 /: / // /: /a: /xyz /0 +3 +n /p:f /q:x /bg /ba""".split()
WORDS = """a b f.txt g.txt d d/h d/e nosuch * ? *.* *.txt d/* **/* .. . - -1 0 1 2 9 10 007 0x1F 08 2147483647 2147483648 99999999999999999999 -2147483648 1e9 nul con eol=; tokens=* tokens=1,2,3 tokens=1-5,* delims= delims=, skip=1 useback usebackq eol= tokens=0 tokens=99 skip=-1 tokens=5-1 in do else not exist defined errorlevel cmdextversion equ neq lss leq gtr geq == = += -= *= << >> ~ enabledelayedexpansion disableextensions cmdly enableextensions on off é 本 😀 e\u0301 eof s.bat s t.bat <""".split() + ["", " ", "\"\"", "\"a b\"", "\"", "\"\"\"", "\\", "\\\\", "a\\b", "\"f.txt\"", "/", "//", "%%", "%%i", "%i", "%%~i", "%%~dpnxfsatzi", "%%~$PATH:i", "%%~", "%%j", "%1", "%2", "%9", "%0", "%*", "%~1", "%~dpnx1", "%~f0", "%~", "%~$PATH:1", "%~$", "%", "%a", "%a%", "%b%", "%nosuch%", "%a:~1,2%", "%a:~-1%", "%a:~9,-9%", "%a:~", "%a:~%", "%a:x=y%", "%a:*x=y%", "%a:=%", "%a:", "%a:~1", "%a:~,%", "%a:~-99999999999,5%", "%a:~5000000000%", "%random%", "%time%", "%date%", "%cd%", "%errorlevel%", "%?%", "%+%", "%#%", "%@%", "%=%", "!", "!a!", "!b!", "!a:~1!", "!a:x=!", "!a:*b=c!", "!nosuch:~1!", "^", "^^", "^!", "^&", "^%", "^\n", "(", ")", "((", "))", "(a b)", "(f.txt)", "(1,1,3)", "(3,-1,0)", "('echo x')", "(\"a\")", "(`echo y`)", "&", "&&", "||", "|", "|&", "&|", ">", ">>", "> o1", ">> o2", "< f.txt", "2>", "2>&1", "1>&2", ">&", ">&-", "2>nul", "1<&0", "3> o3", "9>&8", "99> x", "<&", "|a", ",", ";", ":", "::", ":eof", "@", "@@", "$", "$p$g", "$e[1m", "$", "\t", "\r", "\x00", "\x01", "\x1a", "\x7f", "\udc80", "\udcff", "\udce9", "\udcf0\udc9f", "\udcc3", "\ufeff", "a=1", "a=", "=", "a=%a%x", "a=!a!!a!", "v=1", "v+=1", "v=1/0", "v=1%%0", "v=(1+2)*3", "v=1<<40", "v=((((1", "v=~-!1", "v=a,b=c", "v=0x", "#!/usr/bin/env pbat"]
NUMS = [16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 259, 260, 261, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 70000]
FILES = {"f.txt": "one two,three\n\n;four\tfive\n\"six seven\" eight\nlast", "g.txt": "x" * 300 + "\r\n" + "é本\r" + "\udcff\udc80\n" + "k=v\n" * 30, "d/h": "", "t.bat": "@echo in t %*\nshift\necho %1\nexit /b 3\n", "inc": ":a\necho a\ngoto:eof\n:b\nexit /b 1\n"}


def piece(s):
    k = s.weighted([(5, "cmd"), (12, "word"), (4, "sw"), (1, "rep"), (2, "lit"), (1, "num")])
    if k == "cmd": return s.choice(CMDS)
    if k == "word": return s.choice(WORDS)
    if k == "sw": return s.choice(SWITCHES)
    if k == "num": return str(s.rand(0, 70) - 3)
    if k == "rep": return s.choice(WORDS + ["x", "a ", "%a%", "!a!", "(", "echo x&", "\"", "^", "%%~", "é", "?", "*"]) * min(s.choice(NUMS), 9000)
    return s.text("abxyz :;,=%!^&|<>()\"'`~$@./\\*?-+#[]{}é", 0, 8)


def soup_line(s):
    out = s.choice(["", "", "", "@", ":"]) + s.choice(CMDS)
    for _ in range(s.rand(0, 7)):
        out += s.weighted([(8, " "), (2, ""), (1, "  ")]) + piece(s)
    return out


STRUCT = ["for %%i in (@) do @", "for /f \"@\" %%i in (@) do @", "for /l %%i in (@,@,@) do @", "for /r @ %%i in (@) do @", "for /d %%i in (@) do @",
          "if @==@ @ else @", "if not @ @ @ @", "if exist @ (@) else (@)", "if defined @ @", "(\n@\n@\n)", "(@) > @ 2>&1", "@ | @ | @", "@ && @ || @", "call :a @ @", "call @ @",
          "def z @", "def z (\n@\n)", "z @ @", "setlocal @\n@\nendlocal", "set @=@", "set a=@", "set /a @", "set a=@\necho !a:@=@! %a:~@%", "echo @> f.txt\nfor /f %%x in (f.txt) do @", "goto @\n:@",
          "pushd @\n@\npopd", "copy @ @", "move @ @", "ren @ @", "del @ @", "rd @ @", "md @", "dir @ @", "find @ @", "more @ @", "wc @ @", "xargs @ @", "type @", "start @ @", "shift @", "prompt @\necho on", "pecho @", "set /p a=@ < @", "exit /b @", "setlocal enabledelayedexpansion\n@\n@", "%@%", "!@!", "mod @ @", "set /x @", "set /q @ @", "setx @", "color @", "title @", "timeout @ @"]


def fill(s, depth=0):
    if depth > 4 or s.bool(25):
        return soup_line(s)
    t = s.choice(STRUCT)
    out = ""
    for c in t:
        if c == "@":
            out += piece(s) if s.bool(62) else fill(s, depth + 1)
        else:
            out += c
    return out


# places which take a number (#) or a text of any length (~)
PLACES = ["for /f \"tokens=#-#\" %%a in (\"x y z\") do echo %%a %%b", "for /f \"tokens=#,#,#-#*\" %%a in (f.txt) do echo %%a %%b %%z", "for /f \"tokens=1,#.#\" %%a in (\"x y z\") do echo %%a", "for /f \"skip=#\" %%a in (f.txt) do echo %%a",
          "for /f \"delims=~\" %%a in (\"x~y\") do echo %%a", "for /f \"eol=~ delims=~ tokens=~\" %%a in (f.txt) do echo %%a", "for /f \"usebackq delims=~\" %%a in (`echo ~`) do echo %%a", "for /l %%a in (#,1000000000,#) do echo %%a", "for %%a in (~ ~,~) do echo %%~nxa %%~dpa %%~fa %%~za%%~ta",
          "for %%a in (~*~) do echo %%a", "for /r ~ %%a in (*) do echo %%a", "for /d %%a in (~/*) do echo %%a", "for /l %%a in (1,1,3) do for %%b in (~) do set %%~b=%%a~", "shift /s:# /d:#", "shift /#", "timeout /t # /nobreak ~", "more /t:# f.txt", "more +# g.txt", "more /t:# /c /s /p g.txt < f.txt",
          "set a=~\necho %a:~#,#% [%a:~#%] !a:~#,#! !a:~#!", "set a=~\necho %a:x=~% !a:~=x! !a:x=!", "set /a a=#+#, b=#-#, c=#*#, d=#/#, e=#%%#", "set /a a=#<<#, b=#>>#, c=#^#, d=~#", "set /a ~=#", "set /a a=~", "set /a a=(#/#)*(#.5e#)", "set /p ~=~< f.txt", "set ~=~\necho %~% !~!",
          "if # equ # echo e", "if ~ gtr # echo e", "if errorlevel # echo e", "if [# lss #] echo e", "if exist ~ echo e", "if defined ~ echo e", "if /i ~==~ echo e", "exit /b #", "call :a ~ ~ # ~", "call :~ ~", "goto ~", "call ~ ~", "def ~=echo %%1 ~\n~ x ~", "setlocal ~", "prompt ~\necho on\necho a", "title ~", "color ~",
          "cd ~", "pushd ~\npopd", "md ~", "rd /q /s ~", "md d/~", "copy /y f.txt ~", "copy f.txt+~ g.txt", "copy /r /y d ~", "ren f.txt ~", "ren *.txt ~*", "move /y f.txt ~", "del ~", "del /p ~", "dir ~", "dir /a:~", "dir /b /s ~*", "type ~", "find \"~\" f.txt", "find /n \"~\" g.txt ~", "wc /~ f.txt", "wc /l /m /b ~", "xargs echo ~ < f.txt", "xargs ~ < g.txt",
          "start /wait ~", "start \"~\" /d ~ echo", "pecho ~", "locale ~", "mod ~", "chcp #", "echo ~| find \"~\"", "echo ~> ~", "#> o echo ~", "#>&# echo ~", "~ ~", "set PATH=~;~;~\n~ ~", "set PATHEXT=~;~\nnosuch ~", "set PBAT_PATH=~\nmod ~", "echo %#% %~# !#! !~!", "path ~"]


def big(s):
    k = s.weighted([(4, s.choice(NUMS)), (2, s.rand(0, 40)), (2, 2 ** s.rand(6, 66)), (1, 10 ** s.rand(2, 40))]) + s.weighted([(4, 0), (1, 1), (1, -1)])
    return s.weighted([(5, ""), (2, "-"), (1, "+")]) + s.weighted([(6, str(k)), (1, hex(k) if k >= 0 else "0"), (1, "0%o" % max(k, 0))])


def long_text(s):
    u = s.weighted([(4, s.choice("axZ0.?*")), (1, "a b"), (1, "a,"), (1, "d/"), (1, "../"), (1, "\u00e9"), (1, "%%~"), (1, "^"), (1, "!"), (1, "\"\""), (1, "[a]"), (1, "$p"), (1, ".x"), (1, "a=1 "), (1, "="), (1, "(")])
    return (u * s.choice(NUMS))[:9000] if s.bool(60) else s.choice(["f.txt", "d", "a", "", "x.y", "*.txt"])


def gen_extreme(s):
    lines = ["@echo off", "set a=%s" % s.choice(["hello world", "x" * 300, "1"])]
    for _ in range(s.rand(1, 3)):
        lines.append("".join(big(s) if c == "#" else long_text(s) if c == "~" and s.bool(85) else c for c in s.choice(PLACES)))
    c = pack(s, finish(s, lines))
    c["args"] = [long_text(s).replace("\0", "") if s.bool(20) else x for x in c["args"]]
    return c


LABELS = ["goto :eof", ":a", "echo in a %1 %2 %*", "shift /2", "set a=%~1%a%", "exit /b 2", ":b", "goto:eof"]


def finish(s, lines):
    if s.bool(60):
        lines = lines + LABELS
    eol = s.weighted([(8, "\n"), (1, "\r\n"), (1, "\r")])
    t = eol.join(x for x in lines)
    if s.bool(20):
        t = t[:s.rand(0, len(t))]
    elif s.bool(80):
        t += eol
    return t


def gen_soup(s):
    lines = []
    if s.bool(80):
        lines.append("@echo off")
    if s.bool(60):
        lines.append("set a=%s" % s.choice(["hello world", "x" * 300, "a b \"c d\" e", "é本x", "1", "*.txt", "%%a%%"]))
    for _ in range(s.rand(1, 6)):
        lines.append(fill(s) if s.bool(70) else soup_line(s))
    return pack(s, finish(s, lines))


def pack(s, text):
    return {"script": text, "mode": s.weighted([(8, "file"), (2, "stdin"), (1, "c"), (1, "k")]), "args": [piece(s)[:2000].replace("\0", "") for _ in range(s.rand(0, 3))],
            "stdin": s.choice(["", "y\nn\na\n", "one\ntwo", "\n\n", "x" * 5000]), "full": s.bool(10), "tags": []}


_SRC = []


def sources():
    if not _SRC:
        for c in all_checks():
            for f in families_of(c):
                _SRC.append((c, f))
    return _SRC


def texts(x):
    """the scripts of a case: its longest string, and what looks like lines"""
    if isinstance(x, str):
        return [x]
    if isinstance(x, dict):
        return [t for k in sorted(x) if k not in ("out", "err", "expect", "tags") for t in texts(x[k])]
    if isinstance(x, (list, tuple)):
        return [t for v in x for t in texts(v)]
    return []


def gen_mutant(s):
    for _ in range(20):
        c, f = s.choice(sources())
        try:
            case = f.gen(s)
        except vf.Reject:
            continue
        t = case.get("script")
        if not isinstance(t, str):
            t = max(texts(case) or [""], key=lambda x: x.count("\n") * 20 + len(x))
        if len(t) > 4:
            break
    else:
        raise vf.Reject()
    toks = re.findall(r"\s+|\w+|.", t)
    for _ in range(s.rand(1, 6)):
        i = s.rand(0, len(toks) - 1)
        k = s.weighted([(3, "ins"), (3, "rep"), (3, "del"), (2, "swap"), (1, "dup"), (1, "blow"), (1, "cut"), (1, "flip")])
        if k == "ins": toks.insert(i, piece(s))
        elif k == "rep": toks[i] = piece(s)
        elif k == "del": del toks[i:i + s.rand(1, 4)]
        elif k == "swap":
            j = s.rand(0, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == "dup": toks[i:i] = toks[i:i + s.rand(1, 8)]
        elif k == "blow": toks[i] = toks[i] * min(s.choice(NUMS), 9000, 1 + 200000 // len(toks[i]))
        elif k == "cut": toks = toks[:i + 1]
        elif k == "flip": toks[i] = "".join(s.choice(["%", "!", "^", "\"", "(", ")", " ", "&", "|", ">", "~", ":", ch]) for ch in toks[i][:20])
        if not toks:
            toks = ["echo"]
    r = pack(s, "".join(toks))
    r["tags"] = [c]
    return r


def run_soup(case, ctx):
    ctx.reports()
    for k, v in FILES.items():
        ctx.put(k, v)
    os.makedirs(os.path.join(ctx.cwd, "d/e"), exist_ok=True)
    prog = ctx.bin("full/pbat" if case["full"] else "pbat")
    text = case["script"].encode("utf-8", "surrogateescape")
    args = [a.encode("utf-8", "surrogateescape") for a in case["args"]]
    stdin = case["stdin"].encode()
    if case["mode"] == "file":
        ctx.put("s.bat", text)
        argv = [prog, "s.bat"] + args
    elif case["mode"] == "stdin":
        argv, stdin = [prog] + (["/a:q"] if case["args"] else []), text
    else:
        argv = [prog, "/" + case["mode"], text.replace(b"\0", b"")[:100000]]
    limited(ctx, argv, stdin)
    return verdict(ctx)


def gen_tool(s):
    tool = s.choice(["dump", "tea", "pbatize"])
    if tool == "dump":
        data = s.text("abc\n\0\t\udcff\udc80é", 0, 100) * s.choice([1, 1, 1, 50])
        args = [s.choice(["/t", "/q", "/h", "/c", "/a", "/b", "/x", "/f", "/", "//", "/hh", "/t:x", "int", "char", "float", "double", "short", "nosuch", "f.txt", "in", "d", "/e:2", "/h:x", "", "/Q", "/T"]) for _ in range(s.rand(0, 5))]
    elif tool == "tea":
        data = "".join(s.choice(["=", "==", "=======", "\n", "\n\n", " ", "a", "word ", "*", "**", "***", "- ", "{", "}", "{{", "}}", "[", "]", "[[", "]]", "|", "~", "~~", "~~~~~~~~", "\t", "\\", "\\=", "\\\\", "# ", "#", "^", "`", "_", "__", "x" * 100, "x" * 300, "é", "\udcff", "\0", "http://a", ":", "...", "1.", "\r"]) for _ in range(s.rand(0, 60)))
        args = ["in"] + [s.choice(["o.txt", "/f:text", "/f:html", "/f:md", "/f:text-ansi", "/f:text-plain", "/f:html-cutted", "/e:utf-8", "/e:x", "/o:o2", "/t:x", "/x:html", "/", "/h:f.txt", "/f", "/?", "nosuch/x", ""]) for _ in range(s.rand(0, 4))]
    else:
        data = "\n".join(soup_line(s) for _ in range(s.rand(1, 5))) if s.bool(70) else "rd/s/q " * s.choice([1, 50, 600]) + "x" * s.choice(NUMS)
        args = ["in"] + s.choice([[], ["o.bat"], ["nosuch/x"]])
    return {"tool": tool, "data": data, "args": args, "tags": [tool]}


def run_tool(case, ctx):
    ctx.reports()
    for k, v in FILES.items():
        ctx.put(k, v)
    ctx.put("in", case["data"])
    data = case["data"].encode("utf-8", "surrogateescape")
    limited(ctx, [ctx.bin("full/cmd/" + case["tool"])] + [a.replace("\0", "").encode("utf-8", "surrogateescape") for a in case["args"]], data)
    return verdict(ctx)


def limited(ctx, argv, stdin):
    """output to a file of limited size, short time; endless loops are no failure"""
    import resource, signal, subprocess

    def lim():
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 21, 1 << 21))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    env = dict(ctx.env, PATH="/nonexistent", VF_JAIL_DIR=ctx.root)
    env["ASAN_OPTIONS"] += ":hard_rss_limit_mb=1500"
    si = os.path.join(ctx.root, "in")
    with open(si, "wb") as f:
        f.write(stdin)
    with open(si, "rb") as i, open(os.path.join(ctx.root, "out"), "wb") as o:
        p = subprocess.Popen(argv, stdin=i, stdout=o, stderr=subprocess.STDOUT, env=env, cwd=ctx.cwd, start_new_session=True, preexec_fn=lim)
        try:
            p.wait(2)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        late = p.poll() is None
        p.wait()
    if p.returncode < 0 and not late and p.returncode not in (-signal.SIGXFSZ, -signal.SIGKILL):
        ctx.crash = "ended by signal %d" % -p.returncode


def all_checks():
    # P32 needs a driver and locales of its own, which it runs under the sanitizers itself
    return sorted(x[:-3] for x in os.listdir(HERE) if re.fullmatch(r"P\d\d\.py", x) and x not in ("P32.py", "P33.py", "P34.py", "P35.py", "P47.py"))


if __name__ == "__main__":
    fams = [vf.Family("soup", gen_soup, run_soup, 700, 30000), vf.Family("mutant", gen_mutant, run_soup, 1000, 40000), vf.Family("extreme", gen_extreme, run_soup, 900, 40000), vf.Family("tools", gen_tool, run_tool, 600, 20000)]
    for c in all_checks():
        fl = families_of(c)
        tot = sum(f.quick for f in fl)
        for f in fl:
            fams.append(wrap(c, f, max(2, f.quick * 50 // tot), max(20, f.quick * 3000 // tot)))
    sys.exit(vf.main("P35", fams, variants=("asan",), setup=vf.everything, rule="every case; the distinct ones are counted"))
