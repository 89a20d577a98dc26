"""The command line of the interpreter, and the ways of giving it commands."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, flow


class Line(flow.Gen):
    """commands that each hold on one line and need no script around them"""

    def block(self, depth, forv):
        return ("block", [self.chain(depth, forv, False)], True)

    def leaf(self, forv, top, depth):
        nd = flow.Gen.leaf(self, forv, False, depth)
        if nd[0] == "rc":
            return ("rc", nd[1], "run" if nd[2] == "run" else "file")
        return nd


class Interp(flow.Interp):
    """outside of scripts, SET /A shows its result"""

    def node(self, nd):
        flow.Interp.node(self, nd)
        if nd[0] == "inc" and self.shows:
            self.out.append(str(self.vars[nd[1]]) + "\0")     # with no line end


def attr(s, tags, need):
    """/A switches that hold at least the attributes needed"""
    l = list(need) + s.subset("vv", 20)
    l = [x.upper() if s.bool(30) else x for x in s.shuffle(l)]
    if len(l) > 1 and s.bool(30):
        k = s.rand(1, len(l) - 1)
        tags.add("several /A")
        parts = [l[:k], l[k:]]
    else:
        parts = [l]
    return [s.choice(["/a:", "/A:", "/a", "/A"]) + "".join(p) for p in parts]


def gen_ways(s):
    g = Line(s, False)
    items = []
    for _ in range(s.rand(1, 5)):
        g.budget = 25
        items.append(g.chain(0, [], False))
    code = s.weighted([(2, None), (3, s.rand(0, 255))])
    way = s.choice(["script", "stdin", "k", "kstdin", "c", "cvar", "type", "kscript"])
    it = Interp({"s.bat": items}, g.tags)
    it.shows = way != "script"
    try:
        it.frame("s.bat", 0, [])
        rc = None
    except flow.Exit as e:
        rc = e.args[0]
    out = it.out
    lines = [flow.r_chain(ch, "") for ch in items]
    if any("\n" in l for l in lines):
        raise vf.Reject()
    if code is not None:
        lines.append(s.choice(["exit %d", "EXIT %d", "exit /b %d", "(exit %d)"]) % code)
        rc = code
    tags = {way}
    pre = ["set n=0", "set m=0"]
    one = "&".join("(%s)" % l for l in pre + lines).replace("%%", "%")
    argv, stdin, env, files = [], "", {}, {}
    A = attr(s, tags, "qe")
    if way == "script":
        files["t.bat"] = "\n".join(["@echo off"] + pre + lines) + "\n"
        argv = (attr(s, tags, "q") if s.bool() else []) + ["t.bat"]
    elif way == "stdin":
        argv, stdin = A, "\n".join(pre + lines) + ("\n" if s.bool(80) else "")
    elif way == "k":
        argv = A + [s.choice(["/k", "/K"])] + pre[0].split(" ")
        stdin = "\n".join(pre[1:] + lines) + "\n"
    elif way == "kscript":
        # everything by /k; then standard input is empty, or says more
        argv = A + ["/k"] + one.split(" ")
        if code is None:
            stdin, out = "echo more\n", out + ["more"]
    elif way == "kstdin":
        env["__PBAT_COMMAND__"] = "&".join("(%s)" % l for l in pre)
        argv, stdin = A + ["/k", "@"], "\n".join(lines) + "\n"
    elif way == "c":
        # split at blanks, the words are put together again
        argv = A + [s.choice(["/c", "/C"])] + one.split(" ")
        stdin = s.choice(["", "echo never\n"])
    elif way == "cvar":
        env["__PBAT_COMMAND__"] = one
        argv = A + [s.choice(["/c", "/C"]), "@"]
        stdin = s.choice(["", "echo never\n"])
    else:
        files["t.bat"] = "\n".join(pre + lines) + "\n"
        argv, files["u.bat"] = ["u.bat"], "@echo off\ntype t.bat | pbat " + " ".join(A) + "\n"
        rc = None
    if rc == flow.NZ or (way == "c" and any(a == "" for a in argv)):
        raise vf.Reject()
    return {"argv": argv, "stdin": stdin, "env": env, "files": files, "out": ("\n".join(out + [""]).replace("\0\n", "")).split("\n"), "rc": rc, "tags": sorted(tags | g.tags),
            "nontrivial": len(items) > 1}


def run_ways(case, ctx):
    ctx.put("rc.bat", "@exit /b %1\n")
    for f, t in case["files"].items():
        ctx.put(f, t)
    env = dict(case["env"])
    env["PATH"] = os.path.dirname(ctx.bin("pbat")) + ":" + ctx.env["PATH"]
    r = ctx.exec([ctx.bin("pbat")] + case["argv"], stdin=case["stdin"], env=env)
    c = {"files": {}, "rc": case["rc"], "out": case["out"][:-1]}
    r.out += b"" if r.out.endswith(b"\n") or not case["out"][-1] else b"\n"
    c["out"] += [x for x in case["out"][-1:] if x]
    return flow.check(c, r)


def show_ways(c):
    return "pbat %s\nstdin: %r env: %r\nfiles: %r" % (" ".join(c["argv"]), c["stdin"], c["env"], c["files"])


# ---------------------------------------------------------------- options
def gen_opt(s):
    tags = set()
    argv, env, cwd = [], {}, ""
    name = s.weighted([(4, "sc.bat"), (1, "two words.bat"), (1, "noext"), (1, "d/in.bat"), (1, "(x).bat"), (1, "\u00e9.bat")])
    how = s.weighted([(4, "plain"), (2, "abs"), (2, "path"), (1, "dot"), (2, "missing"), (2, "badopt"), (1, "help"), (1, "nocmd"), (1, "dash")])
    tags.add(how)
    args = [s.choice(["/c", "//", "/k", "/?", "/a:q", "-x", "one", "two words", "", "a=b", "/zz", "@", "\u00e9", "a&b", "p|q", "x;y", "m,n"]) for _ in range(s.rand(0, 4))]
    opts = []
    if s.bool(60):
        opts += attr(s, tags, s.subset("qev"))
    opts = s.shuffle(opts)
    e = any("e" in o[2:].lower() for o in opts)
    p = name
    if how == "abs":
        p = "@CWD@/" + name
    elif how == "dot":
        p = "./" + name
    elif how == "path":
        env["PATH"] = "/nonexistent:@CWD@/d:/bin"
        name = p = "onpath.bat"
    elif how == "missing":
        p = s.choice(["nosuch.bat", "d", "d/nosuch.bat", "./no/such.bat"])
    if how == "badopt":
        opts.insert(s.rand(0, len(opts)), s.choice(["/z", "/zzz", "/1", "/-c", "/b:q"]))
    elif how == "nocmd":
        p, args = s.choice(["/c", "/k", "/C"]), []
    elif how == "help":
        opts.insert(0, "/?")
    elif how == "dash":
        opts.append("//")
    out, rc = None, None
    if how in ("missing", "badopt", "nocmd"):
        pass
    elif how == "help":
        out = ""
    else:
        a = (args + [""] * 9)[:9]
        out = "0=[@NAME@] " + " ".join("%d=[\"%s\"]" % (i + 1, x) for i, x in enumerate(a)) + "\n"
        # passed on by %*, they are the same parameters
        out += "again " + " ".join("%d=[\"%s\"]" % (i + 1, x) for i, x in enumerate(a[:8])) + "\n"
    return {"argv": opts + [p] + args, "env": env, "name": name, "how": how, "out": out, "tags": sorted(tags), "nontrivial": len(args) > 0 or len(opts) > 0}


def run_opt(case, ctx):
    text = "@echo off\necho 0=[%0] " + " ".join("%d=[\"%%%d\"]" % (i, i) for i in range(1, 10)) + "\ncall :again 1st %*\nexit 7\n:again\necho again " + " ".join("%d=[\"%%%d\"]" % (i, i + 1) for i in range(1, 9)) + "\nexit 7\n"
    os.makedirs(os.path.join(ctx.cwd, "d"))
    for n in ("sc.bat", "two words.bat", "noext", "d/in.bat", "(x).bat", "\u00e9.bat", "d/onpath.bat"):
        ctx.put(n, text)
    r = ctx.exec([ctx.bin("pbat")] + [a.replace("@CWD@", ctx.cwd) for a in case["argv"]],
                 env={k: v.replace("@CWD@", ctx.cwd) for k, v in case["env"].items()}, stdin="echo never\n")
    if r.timeout:
        return "pbat did not terminate"
    out = vf.b2s(r.out)
    if case["how"] in ("missing", "badopt", "nocmd"):
        if r.rc == 0 or r.rc < 0:
            return "exit status %r after a wrong command line" % r.rc
        if not r.err:
            return "no error message for a wrong command line"
        return "output %r after a wrong command line" % out[:200] if out else None
    if case["how"] == "help":
        if r.rc != 0 or b"/A" not in r.err + r.out:
            return "no help shown (status %r)" % r.rc
        return None
    p = os.path.normpath(os.path.join(ctx.cwd, "d" if case["how"] == "path" else "", case["name"]))
    out = out.replace("/./", "/")
    exp = case["out"].replace("@NAME@", p)
    if out != exp or r.rc != 7 or r.err:
        return "expected %r and status 7, got %r, status %r, stderr %r" % (exp, out, r.rc, r.err[:200])
    return None


FAMS = [vf.Family("ways", gen_ways, run_ways, 5000, 80000, show=show_ways), vf.Family("options", gen_opt, run_opt, 2000, 30000)]

if __name__ == "__main__":
    sys.exit(vf.main("P37", FAMS, rule="ways: at least two lines of commands; options: at least one option or parameter"))
