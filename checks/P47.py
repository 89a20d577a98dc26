"""The interpreter for Windows under wine: the scripts of other checks, compared with the same models."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
sys.path.insert(0, HERE)
import flow, vf, wine
import P01, P04, P05, P06, P07, P08, P09, P11, P12, P13, P14, P17


def setup(base, bins):
    exe = os.path.join(base, "bin", "pbat.exe")
    shutil.copy2(os.path.join(bins["win"], "pbat", "pbat.exe"), exe)
    with open(os.path.join(base, "bin", "pBat_Auto.bat"), "w") as f:
        f.write("@(\nSET PATHEXT=.bat:.cmd\n)\n")
    subprocess.check_call(["x86_64-w64-mingw32-gcc", "-O1", "-w", "-o", os.path.join(base, "bin", "argp.exe"), os.path.join(vf.VERIF, "lib", "argp.c"), "-lshell32", "-static"])
    for x in ("pbat.exe", "pBat_Auto.bat", "argp.exe"):
        os.chmod(os.path.join(base, "bin", x), 0o755)
    with open(os.path.join(base, "bin", "t.bat"), "w") as f:
        f.write("@exit 37\n")
    wine.start(base, [exe, "Z:" + os.path.join(base, "bin", "t.bat")], 37)


class Win:
    """A context whose interpreter is the one for Windows."""

    def __init__(self, ctx):
        self._ctx = ctx

    def __getattr__(self, k):
        return getattr(self._ctx, k)

    def pbat(self, script, args=(), stdin=b"", name="s.bat", env=None, full=False, timeout=60, raw=False):
        if isinstance(script, str):
            script = script.encode("utf-8", "surrogateescape")
        with open(os.path.join(self.root, name), "wb") as f:
            f.write(script)
        e = wine.wine_env(self.base)
        e.update(env or {})
        r = self.exec(["wine", self.bin("pbat.exe"), "../" + name] + list(args), stdin=stdin, env=e, timeout=60)
        r.out = re.sub(rb"\r*\n", b"\n", r.out)
        r.err = re.sub(rb"\r*\n", b"\n", r.err)
        return r


def fits(c):
    """What does not depend on the system: no number beyond 32 bits, no help piped, no list of the environment (wine has variables of its own)."""
    t = json.dumps([c["script"], c.get("files")])
    return not (c.get("env") or re.search(r"[0-9]{10}|0[xX][0-9a-fA-F]{8}|/\?|printenv|sh -c|cat|echo \{", t))


def gen(g):
    def one(s):
        for _ in range(20):
            c = g(s)
            if fits(c):
                return c
        s.reject()
    return one


def win(run):
    return lambda c, ctx: run(c, Win(ctx))


# --- programs: what one gets from the interpreter, and what the interpreter gets back

LETTERS = "abcXYZ019._-+/:#@\u00e9\u00df\u0416\u03a9\u65e5\u20ac\U0001f600"


def word(s, hi=8):
    return "w" + "".join(s.choice(LETTERS) for _ in range(s.rand(0, hi)))


def words(s):
    """arguments: as written, and as received"""
    w, r = [], []
    for _ in range(s.rand(1, 5)):
        if s.bool(30):
            t = " ".join(word(s, 4) + s.choice(["", "", "&", "|", ">", "<", ")", ";", ","]) for _ in range(s.rand(1, 3)))
            w.append('"' + t + '"')
        else:
            t = word(s)
            w.append(t)
        r.append(t)
    return " ".join(w), "".join("[%s]\n" % x for x in r)


def gen_programs(s):
    """steps; each one is the lines of the script and what they print"""
    steps, var, files, n = [], {}, {}, 0
    for _ in range(s.rand(1, 7)):
        k = s.weighted([(4, "args"), (3, "set"), (3, "env"), (3, "code"), (2, "or"), (2, "out"), (2, "in"), (2, "pipe"), (2, "err"), (1, "both"), (2, "cwd"), (2, "forf"), (1, "local")])
        f = "f%d.txt" % len(files)
        a, r = words(s)
        if k == "args":
            st = [["argp.exe " + a], r]
        elif k in ("set", "local"):
            v = s.choice(["V", "long_name", "v2", "\u00e9t", "Zz"])
            t = word(s, s.choice([5, 20, 400])) + s.choice(["", " b", "  c"])
            if k == "local":
                st = [["setlocal", "set %s=%s" % (v, t), "argp.exe e=" + v, "endlocal", "argp.exe e=" + v], "{%s}\n{%s}\n" % (t, var.get(v, "(none)"))]
            elif s.bool(20):
                st = [["set %s=" % v], ""]
                var.pop(v, None)
            else:
                st = [["set %s=%s" % (v, t)], ""]
                var[v] = t
        elif k == "env":
            v = s.choice(sorted(var) or ["V"])
            st = [["argp.exe e=" + v], "{%s}\n" % var.get(v, "(none)")]
        elif k == "code":
            c = s.choice([0, 1, 2, 5, 127, 128, 255, 256, 1000, 70000])
            st = [["argp.exe w x=%d" % c, "echo %errorlevel%"], "[w]\n%d\n" % c]
        elif k == "or":
            c = s.choice([0, 0, 1, 3, 256])
            st = [["argp.exe x=%d %s" % (c, s.choice(["&& echo y|| echo n", "&& (echo y) || (echo n)"]))], "n\n" if c else "y\n"]
        elif k == "out":
            st = [["argp.exe %s > %s" % (a, f)], ""]
            files[f] = r
            if s.bool():
                a2, r2 = words(s)
                st[0].append("argp.exe %s >> %s" % (a2, f))
                files[f] += r2
            st[0].append("type " + f)
            st[1] += files[f]
        elif k == "in":
            fs = sorted(files)
            if not fs:
                continue
            f = s.choice(fs)
            st = [["argp.exe in < " + f], files[f]]
        elif k == "pipe":
            t = word(s)
            st = [["echo %s|argp.exe in" % t], t + "\n"] if s.bool() else [["argp.exe %s | argp.exe in" % a], r]
        elif k == "err":
            st = [["argp.exe %s err 2> %s" % (a, f), "type " + f], r + "to-err\n"]
            files[f] = "to-err\n"
        elif k == "both":
            st = [["argp.exe %s err %s > %s 2>&1" % (a, a, f), "type " + f], r + "to-err\n" + r]
            files[f] = r + "to-err\n" + r
        elif k == "cwd":
            n += 1
            d = "d%d%s" % (n, s.choice(["", "\u00e9", "\u65e5\u672c", " x"]))
            st = [["md \"%s\"" % d, "cd \"%s\"" % d, "..\\argp.exe cwd", "cd .."], d + "\n"]
        else:
            st = [["for /f \"delims=\" %%%%a in ('argp.exe %s') do echo {%%%%a}" % a.replace('"', "")], "".join("{[%s]}\n" % x for x in a.replace('"', "").split(" "))]
            if re.search("[&|<>);,]", a):
                continue
        steps.append(st)
    if not steps:
        s.reject()
    return {"script": "@echo off\n" + "\n".join(l for st in steps for l in st[0]) + "\n", "steps": steps}


def run_programs(c, ctx):
    shutil.copy2(ctx.bin("argp.exe"), os.path.join(ctx.cwd, "argp.exe"))
    os.chmod(os.path.join(ctx.cwd, "argp.exe"), 0o755)
    r = ctx.pbat("@echo off\n" + "\n".join(l for st in c["steps"] for l in st[0]) + "\n")
    return vf.expect_run(r, "".join(st[1] for st in c["steps"]))


FROM = [("expand", P01, P01.gen, P01.run), ("set", P04, P04.gen, P04.run), ("setlocal", P05, P05.gen, P05.run), ("integers", P06, P06.gen_int, P06.run), ("if", P08, P08.gen, P08.run),
        ("expr", P09, P09.gen, P09.run), ("floats", P07, P07.gen, P07.run), ("forf", P12, P12.gen, P12.run), ("count", P11, P11.gen, P11.run), ("chains", P13, P13.gen, flow.run), ("flow", P14, P14.gen, flow.run), ("def", P17, P17.gen, P17.run),
        ("programs", None, gen_programs, run_programs)]


if __name__ == "__main__":
    vf.MAX_MEMORY = 0
    sys.exit(vf.main("P47", [vf.Family(n, gen(g), win(r), 150, 2500) for n, _, g, r in FROM], variants=("win",), setup=setup, teardown=wine.stop, rule="as in the checks whose scripts are run"))
