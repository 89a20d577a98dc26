"""External programs: parameters, environment, folder, streams, search and exit status."""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

W = "abcdefXYZ0189._-+:@#~*?$[]{}=/\\'\u00e9"


def use(ctx, rel="probe"):
    p = os.path.join(ctx.cwd, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p):
        os.link(ctx.bin("probe"), p) if os.stat(ctx.bin("probe")).st_uid == os.geteuid() else shutil.copy2(ctx.bin("probe"), p)


# ---------------------------------------------------------------- parameters
def piece(s):
    """(text as written, text received)"""
    k = s.weighted([(6, "w"), (2, "esc"), (2, "mid"), (1, "pct")])
    if k == "w":
        t = s.text(W, 1, 5)
        return t, t
    if k == "esc":
        c = s.choice(" ,;&|<>()\"^!")
        return "^" + c, c
    if k == "mid":
        t = '"' + s.text("ab1 ,;&|<>().=", 0, 5) + '"'
        return t, t
    return "%%", "%"


VARS = [("va", "one"), ("vb", "two words"), ("vc", "x,y;z"), ("vd", "a&b|c"), ("ve", "\u00e9t\u00e9"), ("vf", "p(q)r")]


def gen_arg(s, tags):
    k = s.weighted([(8, "plain"), (4, "quoted"), (1, "empty"), (3, "delayed"), (2, "pctvar")])
    if k == "empty":
        tags.add("empty")
        return '""', [""]
    if k == "quoted":
        t = s.text("abcXY01 ,;&|<>().=-'/", 1, 9)
        tags.add("quoted")
        return '"' + t + '"', [t]
    if k == "delayed":
        n, v = s.choice(VARS)
        a, b = (s.text("abc1", 0, 3), s.text("abc1", 0, 3))
        tags.add("delayed")
        if s.bool(30):
            return '"%s!%s!%s"' % (a, n, b), [a + v + b]
        return "%s!%s!%s" % (a, n, b), [a + v + b]
    if k == "pctvar":
        n, v = s.choice(VARS[:3] + VARS[4:5])
        tags.add("expanded")
        if s.bool(50):
            return '"%%%s%%"' % n, [v]
        return "%%%s%%" % n, {"two words": ["two", "words"], "x,y;z": ["x", "y", "z"]}.get(v, [v])
    w, r = "", ""
    for _ in range(s.rand(1, 4)):
        a, b = piece(s)
        # what begins with a quote is a quoted parameter; a lone caret is no parameter
        if (w == "" and a[0] == '"') or (w.endswith("%") and a.startswith("%")):
            a, b = "w", "w"
        w, r = w + a, r + b
        if len(a) > 1 and a[0] == "^":
            tags.add("escaped")
        elif '"' in a:
            tags.add("inner-quotes")
    if w[0] in "0123456789=" or w[-1] in "0123456789" or w.startswith("//"):
        w, r = "k" + w + "k", "k" + r + "k"
    if r == "^":
        w, r = "k" + w, "k" + r
    return w, [r]


def gen_line(s, tags):
    w, r = "", []
    for _ in range(s.weighted([(1, 0), (6, s.rand(1, 4)), (2, s.rand(5, 14))])):
        a, b = gen_arg(s, tags)
        w += s.weighted([(10, " "), (1, ","), (1, ";"), (1, "  "), (1, "\t"), (1, " ; ")]) + a
        r += b
    return w, r


def shown(args):
    return "".join("A<%s>\n" % a for a in args) + "A%d\n" % len(args)


def gen_args(s):
    L, out, tags = ["@echo off"], "", set()
    L += ['set "%s=%s"' % (n, v) for n, v in VARS]
    for _ in range(s.rand(1, 4)):
        w, r = gen_line(s, tags)
        k = s.weighted([(6, "plain"), (1, "if"), (1, "for"), (1, "block"), (1, "right"), (1, "quotedname"), (1, "call")])
        if k == "if":
            L.append("if 1==1 ./probe" + w)
        elif k == "for":
            n = s.rand(1, 3)
            L.append("for %%%%i in (%s) do ./probe %%%%i%s" % (" ".join("f%d" % i for i in range(n)), w))
            for i in range(n):
                out += shown(["f%d" % i] + r)
            r = None
        elif k == "block":
            L += ["(", "./probe" + w, ")"]
        elif k == "right":
            L.append("./probe" + w + "&&./probe z" if w[-1:] not in '^' else "./probe" + w)
            if L[-1].endswith("&&./probe z"):
                out += shown(r)
                r = ["z"]
        elif k == "quotedname":
            L.append('"./probe"' + w)
        elif k == "call":
            # the parameters of a procedure, handed over
            v = [s.text("abcXY01.-=", 1, 5) + s.choice(["", " z"]) for _ in range(s.rand(0, 5))]
            L.append("call :pass" + "".join(' "%s"' % x for x in v))
            r = v
        else:
            L.append("./probe" + w)
        if r is not None:
            out += shown(r)
    L += ["goto :eof", ":pass", "./probe %*", "goto :eof"]
    return {"script": "\n".join(L) + "\n", "out": out, "tags": sorted(tags), "nontrivial": len(tags) >= 2}


def run_args(case, ctx):
    use(ctx)
    return vf.expect_run(ctx.pbat(case["script"]), case["out"], rc=None)


# ---------------------------------------------------------------- environment, folder
NAMES = ["AA", "BB", "CC", "A_B", "Z1", "AAA", "PATHX", "MM"]
VALS = ["1", "two words", "x=y", "a;b,c", "\u00e9", "(p)", "it's", "c:/d", "a&b", "tab\there", "long" * 40, "|<>"]


def gen_env(s):
    ini = {n: s.choice(VALS) for n in NAMES if s.bool(35)}
    env, stack, cwd, tags = dict(ini), [], "", set()
    L, out = ["@echo off", "mkdir d1 d2", "mkdir d1/e", "set PR=ec"], []

    def snap():
        out.append([dict(env), cwd])

    L.append("%probe%")
    snap()
    for _ in range(s.rand(2, 10)):
        k = s.weighted([(6, "set"), (3, "unset"), (3, "show"), (2, "setlocal"), (2, "endlocal"), (2, "cd"), (1, "seta"), (1, "case"), (1, "loop"), (1, "thread"), (1, "sub")])
        if k in ("set", "case"):
            n, v = s.choice(NAMES), s.choice(VALS)
            L.append('set "%s=%s"' % (n.lower() if k == "case" else n, v))
            env[n] = v
            tags.add("set")
        elif k == "unset":
            n = s.choice(NAMES)
            L.append("set %s=" % n)
            env.pop(n, None)
            tags.add("unset")
        elif k == "seta":
            n, v = s.choice(NAMES), s.rand(0, 999)
            L.append("set /a %s=%d" % (n, v))
            env[n] = str(v)
        elif k == "setlocal":
            L.append("setlocal")
            stack.append(dict(env))
            tags.add("local")
        elif k == "endlocal" and stack:
            L.append("endlocal")
            env = stack.pop()
        elif k == "cd":
            t = s.choice(["d1", "d1/e", "d2", ""])
            L.append("cd %base%" + ("/" + t if t else ""))
            cwd = t
            tags.add("cd")
        elif k == "loop":
            n = s.choice(NAMES)
            L.append("for %%%%i in (p q) do (set %s=%%%%i&%%probe%%)" % n)
            for v in "pq":
                env[n] = v
                snap()
            tags.add("loop")
        elif k == "thread":
            # the left side of a pipe works on its own copy
            n = s.choice(NAMES)
            L.append("(set %s=inner&%%probe%%) | %%cat%%" % n)
            old = env.get(n)
            env[n] = "inner"
            snap()
            env.pop(n)
            if old is not None:
                env[n] = old
            tags.add("pipe")
        elif k == "sub":
            n = s.choice(NAMES)
            L.append("call :sub %s" % n)
            env[n] = "fromsub"
            snap()
            tags.add("call")
        L.append("%probe%")
        snap()
    L += ["goto :eof", ":sub", "set %1=fromsub", "%probe%", "goto :eof"]
    return {"script": "\n".join(L) + "\n", "env": ini, "out": out, "tags": sorted(tags), "nontrivial": len(tags) >= 2}


def run_env(case, ctx):
    use(ctx)
    sc = case["script"].replace("%probe%", ctx.cwd + "/probe").replace("%base%", ctx.cwd).replace("%cat%", "/bin/cat")
    r = ctx.pbat(sc, env=case["env"])
    if r.timeout or r.err:
        return "timeout %r, stderr %r" % (r.timeout, r.err[:300])
    got, cur = [], None
    for l in vf.b2s(r.out).split("\n"):
        if l == "E.":
            pass
        elif l.startswith("E"):
            cur = cur or {}
            n, _, v = l[1:].partition("=")
            n = n.upper()       # the names of variables have no case
            if n in cur:
                return "the program received %s twice" % n
            cur[n] = v
        elif l.startswith("C"):
            got.append((cur or {}, l[1:]))
            cur = None
        elif l:
            return "unexpected output %r" % l
    if len(got) != len(case["out"]):
        return "%d programs ran, %d expected" % (len(got), len(case["out"]))
    rest0 = None
    for i, ((e, c), (xe, xc)) in enumerate(zip(got, case["out"])):
        if os.path.normpath(c) != os.path.normpath(os.path.join(ctx.cwd, xc)):
            return "program %d ran in folder %r, expected %r" % (i, c, xc)
        for n in NAMES:
            if e.get(n) != xe.get(n):
                return "program %d received %s=%r, expected %r" % (i, n, e.get(n), xe.get(n))
        rest = {k: v for k, v in e.items() if k not in NAMES}
        if rest0 is None:
            rest0 = rest
            for k, v in list(ctx.env.items()) + [("PR", "ec")]:
                if k != "PATH" and rest.get(k) != v:
                    return "program received %s=%r, expected %r" % (k, rest.get(k), v)
        elif rest != rest0:
            d = [k for k in set(rest) | set(rest0) if rest.get(k) != rest0.get(k)]
            return "variables %r changed between programs" % sorted(d)
    return None


# ---------------------------------------------------------------- search
def gen_find(s):
    dirs = ["b0", "b1", "b2", "here", "here/sub"]
    files, tags = {}, set()
    names = ["foo", "bar", "baz.x"]
    exts = ["", ".bat", ".q", ".q.r"]
    for d in dirs:
        for n in names:
            for e in exts:
                if s.bool(22):
                    files["%s/%s%s" % (d, n, e)] = s.weighted([(6, "prog"), (1, "dir")])
    path = [s.choice(["b0", "b1", "b2", "here", "."]) for _ in range(s.rand(0, 3))]
    rel = [s.bool(25) for _ in path]
    pext = s.choice([[".bat"], [".q", ".bat"], [".bat", ".q"], [".q"], [], [".q.r", ".bat"]])
    L = ["@echo off", "cd here", "set PATHEXT=" + ":".join(pext)]
    L.append("set PATH=" + ":".join((("../" if r else "%base%/") + p) for p, r in zip(path, rel)))
    out = []
    cwd = "here"

    def exists(p):
        return files.get(os.path.normpath(p)) == "prog"

    for _ in range(s.rand(1, 6)):
        k = s.weighted([(6, "name"), (2, "rel"), (2, "abs"), (1, "cd"), (1, "path")])
        if k == "cd":
            cwd = s.choice(["here", "here/sub", "b1"])
            L.append("cd %base%/" + cwd)
            tags.add("cd")
            continue
        if k == "path":
            path = [s.choice(["b0", "b1", "b2", "here", "."]) for _ in range(s.rand(1, 3))]
            rel = [False] * len(path)
            L.append("set PATH=" + ":".join("%base%/" + p for p in path))
            tags.add("path")
            continue
        n = s.choice(names) + s.weighted([(4, ""), (1, ".bat"), (1, ".q")])
        if k == "name":
            base = [cwd + "/" + n]
            for p, r in zip(path, rel):
                base.append((cwd + "/../" + p if r else p) + "/" + n)
            w = n
        elif k == "rel":
            w = s.choice(["./", "../b0/", "sub/", "b0/", "here/", "b1/"]) + n
            base = [cwd + "/" + w]
        else:
            d = s.choice(dirs)
            w, base = "%base%/" + d + "/" + n, [d + "/" + n]
        hit = None
        for i, b in enumerate(base):
            for e in pext + [""]:
                if exists(b + e):
                    hit = os.path.normpath(b + e)
                    tags.add("extension" if e else "plain")
                    if i:
                        tags.add("path-%d" % i)
                    break
            if hit:
                break
        L.append(("call " if s.bool(10) else "") + w + " arg")
        if hit:
            out.append("run " + hit)
        else:
            tags.add("missing")
        L.append("if %errorlevel%==0 (echo:found) else (echo:missing)")
        out.append("found" if hit else "missing")
    return {"script": "\n".join(L) + "\n", "files": files, "out": "".join(o + "\n" for o in out), "tags": sorted(tags), "nontrivial": len(tags) >= 2}


def run_find(case, ctx):
    for d in ("b0", "b1", "b2", "here", "here/sub"):
        os.makedirs(os.path.join(ctx.cwd, d), exist_ok=True)
    for f, k in case["files"].items():
        if k == "dir":
            os.makedirs(os.path.join(ctx.cwd, f), exist_ok=True)
        elif f.endswith(".bat"):
            ctx.put(f, "@echo run " + f + "\n")
        else:
            ctx.put(f, "#!/bin/sh\necho run " + f + "\n", 0o755)
    r = ctx.pbat(case["script"].replace("%base%", ctx.cwd))
    bad = vf.expect_run(r, case["out"], rc=None, err_empty=False)
    return bad or (None if (b"recognized" in r.err) == ("missing" in case["out"]) else "stderr %r" % r.err[:300])


# ---------------------------------------------------------------- status and streams
def gen_stat(s):
    L, out, tags, files = ["@echo off"], "", set(), {}
    infile = "".join(s.choice("ab\n ") for _ in range(s.rand(0, 12)))
    for _ in range(s.rand(1, 7)):
        k = s.weighted([(4, "level"), (3, "cond"), (2, "signal"), (2, "in"), (2, "out"), (2, "pipe"), (1, "endless"), (1, "fds"), (1, "grab"), (1, "err")])
        tags.add(k)
        c = s.weighted([(2, 0), (2, 1), (1, 255), (3, s.rand(2, 254)), (1, 256), (1, 300)])
        if k == "level":
            L += ["set PR=x%d" % c, "./probe", "echo level %errorlevel%"]
            out += "level %d\n" % (c & 255)
        elif k == "cond":
            t = s.rand(1, 255)
            L += ["set PR=x%d" % c, "./probe && echo yes|| echo no", "./probe", "if errorlevel %d echo ge" % t]
            out += "yes\n" if c & 255 == 0 else "no\n"
            out += "ge\n" if (c & 255) >= t else ""
        elif k == "signal":
            L += ["set PR=k%d" % s.choice([9, 15, 11, 6]), "./probe && echo lived|| echo died", "./probe",
                  "if errorlevel 1 echo failed"]
            out += "died\nfailed\n"
        elif k == "in":
            L += ["set PR=i", "./probe < in.txt", "echo."]
            out += infile + "\n"
        elif k == "out":
            a, w = s.bool(), s.rand(1, 3)
            L += ["set PR=ao"] + ["./probe %d %s o.txt%s" % (i + 1000, ">>" if a else ">", s.choice(["", " 2>&1", " 2> e.txt", " 2> nul"])) for i in range(w)]
            t = ""
            for i, l in enumerate(L[-w:]):
                t = (t if a else "") + "A<%d>\nA1\n" % (i + 1000) + ("O\n" if l.endswith("&1") else "")
                if l.endswith("o.txt"):
                    L[L.index(l)] = l + " 2> e.txt"
            L += ["set PR=i", "./probe < o.txt", "del /q o.txt"]
            out += t
        elif k == "pipe":
            n = s.rand(1, 3)
            L += ["set PR=i", "echo first| " + "| ".join(["./probe"] * n), "set PR=a", "./probe q| find \"A\""]
            out += "first\nA<q>\nA1\n"
        elif k == "endless":
            L += ["set PR=p", "./probe | (set PR=x0&./probe&echo done)"]
            out += "done\n"
        elif k == "fds":
            L += ["set PR=f", s.choice(["./probe", "(./probe) > o.txt", "(./probe | ./probe) 2>&1", "for %%i in (1 2) do ./probe", "for /f %%i in ('./probe') do echo %%i", "./probe < in.txt"])]
        elif k == "grab":
            L += ["set PR=a", "for /f \"tokens=*\" %%i in ('./probe one \"two 2\"') do echo [%%i]"]
            out += "[A<one>]\n[A<two 2>]\n[A2]\n"
        else:
            L += ["set PR=o", "./probe 2> e.txt 1> o.txt", "set PR=i", "./probe < e.txt", "del /q o.txt"]
            out += "O\n"
    return {"script": "\n".join(L) + "\n", "in": infile, "out": out, "tags": sorted(tags), "nontrivial": len(tags) >= 2}


def run_stat(case, ctx):
    use(ctx)
    ctx.put("in.txt", case["in"])
    return vf.expect_run(ctx.pbat(case["script"]), case["out"], rc=None)


FAMS = [vf.Family("arguments", gen_args, run_args, 4000, 60000), vf.Family("environment", gen_env, run_env, 1200, 20000),
        vf.Family("search", gen_find, run_find, 1800, 30000), vf.Family("status", gen_stat, run_stat, 1500, 25000)]

if __name__ == "__main__":
    sys.exit(vf.main("P40", FAMS, setup=vf.probe, rule="arguments: at least two of quoted, escaped, inner quotes, empty, expanded, delayed; "
                     "environment: at least two of set, unset, SETLOCAL, cd, loop, pipe, CALL; search: at least two of folder change, PATH change, "
                     "extension added, found in PATH, not found; status: at least two kinds of use"))
