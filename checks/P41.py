"""START: programs, scripts and internal commands started by it."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import P40

OPTS = ["/min", "/max", "/normal", "/low", "/high", "/realtime", "/shared", "/separate", "/abovenormal", "/belownormal", "/node 1", "/affinity F"]


def opts(s, tags, need, d=None):
    """the options, in any order"""
    o = list(need)
    if s.bool(30):
        o.append(s.choice(OPTS))
        tags.add("ignored-option")
    if d is not None:
        q = s.bool(30)
        o.append("/d " + ('"%s"' % d if q else d))
        tags.add("folder")
    o = s.shuffle(o)
    t = None
    if s.bool(30):
        t = '"' + s.text("abc x", 0, 6) + '"'
        o.insert(s.rand(0, len(o)), t)
        tags.add("title")
    return "".join(" " + (x.upper() if s.bool(15) and "d " not in x else x) for x in o), t


DIRS = ["d1", "d1/e", "d2", "sp ace"]


def gen(s):
    tags, files = set(), {}
    L = ["@echo off", "mkdir d1 d2 \"sp ace\"", "mkdir d1/e", "set PR=a"] + ['set "%s=%s"' % x for x in P40.VARS]
    out, cwd, val, nbg, bg = "", "", "v0", 0, {}
    L.append("set VAL=v0")
    script = None       # the start script: with none, programs run in this console
    if s.bool(60):
        L.append("set PBAT_START_SCRIPT=")
        script = ""

    def folder():
        if not s.bool(35):
            return None, cwd
        d = s.choice(DIRS)
        if cwd == "" and " " not in d and s.bool(50):
            return d, d
        return "%base%/" + d, d

    for _ in range(s.rand(1, 6)):
        k = s.weighted([(5, "prog"), (2, "internal"), (3, "bat"), (2 if script == "" else 0, "window"), (1, "missing"), (1, "nofolder"), (2, "status"), (2, "bg"), (1, "cd"), (1, "thread"), (2, "handler")])
        if k == "cd":
            cwd = s.choice(["", "d1", "d2"])
            L.append("cd %base%/" + cwd)
            continue
        d, where = folder()
        if d and " " in d:
            d = '"%s"' % d if '"' not in d else d
        if k in ("prog", "window"):
            o, t = opts(s, tags, ["/b", "/wait"] if k == "prog" else ["/wait"], None)
            if d is not None:
                o += " /d " + d
                tags.add("folder")
            w, r = P40.gen_line(s, tags)
            name = "%base%/probe"
            if t and s.bool(40):
                name = '"%s"' % name
            L += ["set PR=ac", "start%s %s%s" % (o, name, w)]
            out += P40.shown(r) + "C@/%s\n" % where
        elif k == "internal":
            o, t = opts(s, tags, ["/b", "/wait"])
            if d is not None:
                o += " /d " + d
                tags.add("folder")
            j = s.rand(0, 4)
            if j == 0:
                L.append("start%s echo one  two \"3 4\" %%VAL%% !VAL!" % o)
                out += "one  two \"3 4\" %s %s\n" % (val, val)
            elif j == 1:
                L.append("start%s cd" % o)
                out += "@/%s\n" % where
            elif j == 2:
                L.append("start%s for %%%%i in (1 2 3) do echo:%%%%i" % o)
                out += "1\n2\n3\n"
            elif j == 3:
                # the command works on a copy of the interpreter
                L += ["start%s set VAL=changed" % o, "echo:%VAL%"]
                out += val + "\n"
            else:
                L += ["start%s call :sub x \"y z\"" % o]
                out += "sub [x] [y z] %s\n" % val
            tags.add("internal")
        elif k == "bat":
            a = [s.text("abc1.-", 1, 4) + s.choice(["", " z"]) for _ in range(s.rand(0, 3))]
            o, t = opts(s, tags, s.choice([["/b", "/wait"]] + ([["/wait"]] if script == "" else [])))
            c = s.rand(0, 200)
            L.append("start%s %%base%%/q.bat %d%s" % (o, c, "".join(' "%s"' % x for x in a)))
            out += "bat [%d] [%s] [%s] %s @/%s\n" % (c, a[0] if a else "", a[1] if len(a) > 1 else "", val, cwd)
            L.append("if %%errorlevel%%==%d (echo:same) else (echo:level %%errorlevel%%)" % c)
            out += "same\n"
            tags.add("script")
        elif k == "missing":
            L += ["start /b /wait %base%/nosuch 2> nul", "if not %errorlevel%==0 echo:missing"]
            if script == "":
                out += "missing\n"
            else:
                L = L[:-2]
        elif k == "nofolder":
            L += ["start /b /wait /d %base%/d1/no " + s.choice(["%base%/probe", "echo hello", "cd"]) + " 2> nul", "if not %errorlevel%==0 echo:missing"]
            out += "missing\n"
            tags.add("no-folder")
        elif k == "status":
            c = s.rand(0, 255)
            L += ["set PR=x%d" % c, "start /b /wait %base%/probe"]
            if s.bool():
                L.append("if %%errorlevel%%==%d echo:right" % c)
                out += "right\n"
            else:
                L[-1] += "&&echo:ok||echo:failed"
                out += "ok\n" if c == 0 else "failed\n"
            tags.add("status")
        elif k == "bg":
            # a program in the background, which the interpreter does not wait for
            nbg += 1
            L += ["set PR=i", "start /b %%base%%/probe < %%base%%/in.txt > %%base%%/bg%d" % nbg]
            bg["bg%d" % nbg] = "input\n"
            tags.add("background")
        elif k == "thread":
            val = "v%d" % s.rand(1, 9)
            L.append("set VAL=" + val)
        elif k == "handler":
            # files that are no programs go to the start script, with their parameters
            old = script
            a = [s.text("abc1.-", 1, 4) + s.choice(["", " z"]) for _ in range(s.rand(0, 3))]
            L += ["set PR=s", "set PBAT_START_SCRIPT=%base%/probe",
                  s.choice(["start%s /wait", "start%s /b /wait"]) % ("" if d is None else " /d " + d) + " %base%/doc.txt" + "".join(' "%s"' % x for x in a) + " 2> %base%/h.txt",
                  "set PR=i", "%base%/probe < %base%/h.txt", "set PBAT_START_SCRIPT="]
            script = ""
            out += "A<@/doc.txt>\n" + P40.shown(a)[:-2 - len(str(len(a)))] + "A%d\n" % (len(a) + 1)
            tags.add("handler")
    L += ["goto :eof", ":sub", "echo:sub [%~1] [%~2] %VAL%", "goto :eof"]
    return {"script": "\n".join(L) + "\n", "out": out, "bg": bg, "tags": sorted(tags), "nontrivial": len(tags) >= 2}


def run(case, ctx):
    P40.use(ctx)
    ctx.put("q.bat", "@echo bat [%1] [%~2] [%~3] %VAL% %CD%\n@exit /b %1\n")
    ctx.put("in.txt", "input\n")
    ctx.put("doc.txt", "a document\n")
    r = ctx.pbat(case["script"].replace("%base%", ctx.cwd))
    cwd = ctx.cwd
    out = vf.b2s(r.out).replace(cwd + "/", "@/").replace(cwd, "@/")
    bad = vf.expect_run(vf.Result(r.rc, out.encode("utf-8", "surrogateescape"), r.err, r.timeout), case["out"], rc=None)
    if bad:
        return bad
    for f, t in case["bg"].items():
        with open(os.path.join(ctx.cwd, f)) as fd:
            g = fd.read()
        if g != t:
            return "the program in the background wrote %r, expected %r" % (g, t)
    return None


FAMS = [vf.Family("start", gen, run, 2500, 30000)]

if __name__ == "__main__":
    sys.exit(vf.main("P41", FAMS, setup=vf.probe, rule="at least two of: folder, title, ignored option, internal command, script, status, "
                     "background, handler, missing folder, or parameters of two kinds"))
