"""The variables that pBat provides, and its startup scripts."""
import os, re, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

ZONES = {"UTC0": 0, "AAA-13": 13 * 3600, "BBB+11:30": -41400, "CCC+3": -10800, "DDD-5:45": 20700}
FIXED = ["PBAT_OS_TYPE", "PBAT_PATH", "PBAT_IS_SCRIPT", "PBAT_SHARE", "PBAT_ETC", "USERPROFILE", "TMP", "TEMP", "OS", "COMSPEC", "USERNAME", "PATHEXT", "PATH", "CD", "ERRORLEVEL", "PBAT_OS", "HOME", "WINDIR", "SYSTEMDRIVE", "PROGRAMFILES"]
ASCII = [c for c in range(33, 127) if chr(c) not in '%!^&|<>()"@,;=']


def case(s, n):
    return "".join(c.lower() if s.bool(40) else c for c in n)


def ref(s, n):
    q = s.choice("%!")
    return q + case(s, n) + q


def startup(s, who):
    L = []
    for _ in range(s.rand(1, 4)):
        k = s.choice(["echo", "set", "def", "all", "call"])
        if k == "echo":
            L.append(["echo", "%s %s" % (who, s.text("abc xyz", 1, 8).strip() or "x")])
        elif k == "set":
            L.append(["set", s.choice(["sv1", "sv2"]), s.text("abcxyz 019", 1, 8).strip() or "v"])
        elif k == "def":
            L.append(["def", s.choice(["sdef", "sproc"]), s.text("abcxyz", 1, 5)])
        elif k == "call":
            L.append(["sub", s.text("abc", 1, 4)])
        else:
            L.append(["ref", s.choice(["PBAT_ETC", "PBAT_IS_SCRIPT", "USERPROFILE", "COMSPEC"])])
    return L


def gen(s):
    steps = []
    for _ in range(s.rand(1, 8)):
        k = s.weighted([(2, "random"), (2, "rloop"), (3, "time"), (2, "set"), (2, "ascii"), (5, "fixed"), (2, "sv"), (2, "sdef"), (1, "pipe"), (1, "forf"), (1, "child"), (1, "script"), (1, "call"), (1, "fixedall")])
        if k == "random":
            steps.append([k, [ref(s, "RANDOM") for _ in range(8)]])
        elif k == "rloop":
            steps.append([k, s.rand(8, 12)])
        elif k == "time":
            n = s.choice(["TIME", "DATE"])
            f = s.choice(["", "", "", ":~0,8", ":~3,2", ":~-2", ":~0,2", ":/=-", ":~0,-3"])
            q = s.choice("%!")
            steps.append([k, n, f, q + case(s, n) + f + q])
        elif k == "set":
            n = s.choice(["TIME", "DATE", "RANDOM", "CD", "ERRORLEVEL"])
            steps.append([k, case(s, n), s.choice(["5", "x y", "/nosuch", "0", "9", ""])])
        elif k == "ascii":
            steps.append([k, s.choice(ASCII), s.choice("%!")])
        elif k == "fixed":
            n = s.choice(FIXED)
            steps.append([k, n, ref(s, n)])
        elif k == "fixedall":
            steps += [["fixed", n, ref(s, n)] for n in s.shuffle(FIXED)]
        elif k == "sv":
            n = s.choice(["sv1", "sv2"])
            steps.append([k, n, ref(s, n)])
        elif k == "sdef":
            steps.append([k, s.choice(["sdef", "sproc"]), s.text("xyz", 1, 3)])
        else:
            steps.append([k])
    return {"steps": steps, "mode": s.weighted([(3, "script"), (2, "stdin")]), "dir": s.choice(["pb", "p b", "p\u00e9", "d/e"]), "home": s.choice(["h", "h\u00e9", "x/y", "h b", "h)x", "h&y"]), "path": s.choice(["", "", ":/no such/dir", ":/x(y)", ":/a&b", ":/p^q", ":/100%"]), "zone": s.choice(sorted(ZONES)),
            "etc": startup(s, "etc") if s.bool(60) else None, "user": startup(s, "user") if s.bool(60) else None, "nontrivial": len(steps) > 1, "tags": sorted({x[0] for x in steps})}


class Model:
    def __init__(self, c, ctx):
        self.c = c
        self.pb, self.home, self.cwd = ctx.cwd + "/" + c["dir"], ctx.cwd + "/" + c["home"], ctx.cwd + "/w"
        self.vars, self.defs, self.out = {}, {}, []
        self.script = c["mode"] == "script"

    def value(self, n, level=0):
        p = self.pb
        return {"PBAT_OS_TYPE": "*NIX", "PBAT_PATH": p, "PBAT_IS_SCRIPT": "true" if self.script else "false", "PBAT_SHARE": p + "/share", "PBAT_ETC": p + "/etc", "USERPROFILE": self.home, "HOME": self.home, "TMP": "/tmp", "TEMP": "/tmp",
                "OS": "GNU/Linux", "PBAT_OS": "GNU/Linux", "COMSPEC": p + "/pbat", "USERNAME": "nobody", "PATHEXT": ".bat:.cmd", "PATH": "/usr/bin:/bin%s:%s/cmd:%s" % (self.c["path"], p, p), "CD": self.cwd, "ERRORLEVEL": str(level), "WINDIR": "/bin", "SYSTEMDRIVE": "/", "PROGRAMFILES": p + "/bin"}[n]

    def startup(self):
        r = []
        for k in ("etc", "user"):
            for l in self.c[k] or []:
                if l[0] == "echo":
                    r.append(l[1])
                elif l[0] == "set":
                    self.vars[l[1]] = l[2]
                elif l[0] == "def":
                    self.defs[l[1]] = l[2]
                elif l[0] == "sub":
                    r.append("sub " + l[1])
                else:
                    r.append(self.value(l[1]))
        return r


def text_startup(L):
    r, n = ["@echo off"], 0
    sub = []
    for l in L:
        if l[0] == "echo":
            r.append("echo " + l[1])
        elif l[0] == "set":
            r.append("set %s=%s" % (l[1], l[2]))
        elif l[0] == "def":
            r.append("def /f %s=echo %s $1" % (l[1], l[2]))
        elif l[0] == "sub":
            n += 1
            r.append("call :s%d" % n)
            sub += [":s%d" % n, "echo sub " + l[1], "goto :eof"]
        else:
            r.append("echo !%s!" % l[1])
    return "\n".join(r + ["goto :eof"] + sub) + "\n"


def run(c, ctx):
    m = Model(c, ctx)
    src = ctx.bin("full")
    os.makedirs(m.pb + "/cmd")
    for f in ("pbat", "pBat_Auto.bat"):
        shutil.copy2(os.path.join(src, f), os.path.join(m.pb, f))
    os.makedirs(m.cwd)
    os.makedirs(m.home)
    if c["etc"]:
        ctx.put(c["dir"] + "/etc/pBat_Auto.bat", text_startup(c["etc"]))
    if c["user"]:
        ctx.put(c["home"] + "/.pbat/pBat_Auto.bat", text_startup(c["user"]))
    ctx.put("w/rc.bat", "@exit /b %1\n")
    ctx.put("w/child.bat", "@echo off\necho child %1 %pbat_is_script% %sv1%\n")
    exp = []      # texts, or functions that judge a line
    first = m.startup()
    m.script, script = True, m.script
    again = m.startup()
    m.script = script
    L = ["echo ==start=="]
    t0 = time.time()
    for st in c["steps"]:
        k = st[0]
        if k == "random":
            L.append("echo " + " ".join(st[1]))
            exp.append(randoms)
        elif k == "rloop":
            L.append(("for /l %%%%i in (1,1,%d) do set rl=!rl! !random!" % st[1]).replace("%%%%", "%%"))
            L += ["echo !rl!", "set rl="]
            exp.append(randoms)
        elif k == "time":
            L.append("echo " + st[3])
            exp.append(lambda l, st=st: times(l, st, c["zone"], t0))
        elif k == "set":
            L += ["set %s=%s" % (st[1], st[2]), "echo [%errorlevel%]", "echo !%s!" % st[1]]
            n = st[1].upper()
            exp.append(None if st[2] == "" else "[0]")
            exp.append({"RANDOM": lambda l: None if l.isdigit() else "%RANDOM% is " + repr(l), "CD": m.cwd, "ERRORLEVEL": "0"}.get(n) or (lambda l, n=n: times(l, ["", n, ""], c["zone"], t0)))
        elif k == "ascii":
            L += ["call rc.bat %d" % st[1], "echo {%s=exitcodeascii%s}" % (st[2], st[2])]
            exp.append("{%s}" % chr(st[1]))
        elif k == "fixed":
            L += ["rem x", "echo " + (st[2].replace("%", "!") if set("&^()%") & set(m.value(st[1])) else st[2])]
            exp.append(m.value(st[1]))
        elif k == "sv":
            L.append("echo [%s]" % st[2])
            exp.append("[%s]" % m.vars.get(st[1], ""))
        elif k == "sdef":
            if st[1] in m.defs:
                L.append("%s %s" % (st[1], st[2]))
                exp.append("%s %s" % (m.defs[st[1]], st[2]))
        elif k == "pipe":
            L.append("echo piped| cat")
            exp.append("piped")
        elif k == "forf":
            L.append("for /f %%i in ('echo listed') do echo %%i")
            exp.append("listed")
        elif k == "child":
            L.append('"%comspec%" child.bat one')
            exp += again + ["child one true " + m.vars.get("sv1", "")]
        elif k == "script":
            L.append("child.bat two")
            exp.append("child two true " + m.vars.get("sv1", ""))
        elif k == "call":
            L.append("call child.bat three")
            exp.append("child three %s %s" % ("true" if m.script else "false", m.vars.get("sv1", "")))
    env = {"PATH": "/usr/bin:/bin" + c["path"], "HOME": m.home, "TZ": c["zone"]}
    if m.script:
        ctx.put("w/s.bat", "@echo off\n" + "\n".join(L) + "\n")
        r = ctx.exec([m.pb + "/pbat", "s.bat"], env=env, cwd=m.cwd)
    else:
        r = ctx.exec([m.pb + "/pbat", "/a:e"], env=env, cwd=m.cwd, stdin="\n".join(L) + "\n")
    if r.timeout:
        return "it does not end"
    if r.err:
        return "error output %r" % r.err[:300]
    head, mark, rest = vf.b2s(r.out).partition("==start==\n")
    if not mark:
        return "no start: %r" % head[-300:]
    hl = [l for l in head.split("\n") if l.strip()]
    if hl[:len(first)] != first:
        return "startup scripts: expected %r, got %r" % (first, hl[:len(first) + 2])
    if m.script and len(hl) != len(first):
        return "unexpected output at start: %r" % hl
    got = rest.split("\n")[:-1]
    if not m.script:
        got = [l for l in got if l.strip()]
    if len(got) != len(exp):
        return "expected %d lines, got %r" % (len(exp), got)
    for e, l in zip(exp, got):
        if not m.script and isinstance(e, str):
            e, l = e.strip(), l.strip()
        bad = e(l) if callable(e) else None if e is None or e == l else "expected %r, got %r" % (e, l)
        if bad:
            return bad


def randoms(l):
    v = l.split()
    if not all(re.fullmatch(r"\d{1,10}", x) and int(x) < 2 ** 31 for x in v):
        return "not random numbers: %r" % l
    return "these random numbers are not random: %r" % l if len(set(v)) < len(v) // 2 else None


def times(l, st, zone, t0):
    """the value is right for one of the seconds of the run"""
    seen = []
    for t in range(int(t0), int(time.time()) + 2):
        g = time.gmtime(t + ZONES[zone])
        for v in [time.strftime("%m/%d/%y", g)] if st[1] == "DATE" else [time.strftime("%H:%M:%S", g) + ",%02d" % c for c in range(100)]:
            f = st[2]
            if f == ":/=-":
                v = v.replace("/", "-")
            elif f:
                a, _, n = f[2:].partition(",")
                v = v[int(a):][:int(n) if n else None]
            if l == v:
                return None
            seen.append(v)
    return "%%%s%s%% is %r, but may be %r" % (st[1], st[2], l, seen[:1])


if __name__ == "__main__":
    sys.exit(vf.main("P46", [vf.Family("provided", gen, run, 3000, 40000)], rule="more than one step"))
