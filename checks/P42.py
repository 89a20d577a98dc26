"""/? shows the help of the command and does nothing else."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

# the commands which show their help when /? comes first, and those which do wherever it stands
FIRST = "break call cd chdir cls color def endlocal exit for goto if locale md mkdir mod pause popd prompt pushd ren rename set setlocal shift start timeout title ver".split()
ANY = "copy del erase dir find more move rd rmdir type wc".split()
PARAMS = ["f", "g", "d", "*", "d/x", "nosuch", "/q", "/s", "/y", "a=1", "3", "\"f\"", "@"]
FILES = {"f": b"hello\n", "g": b"2", "d/x": b"x"}


def gen(s):
    steps = []
    for _ in range(s.rand(1, 6)):
        c = s.choice(FIRST + ANY)
        ps = [s.choice(["f", "g"] if c in ANY else PARAMS) for _ in range(s.weighted([(4, 0), (2, 1), (2, 2), (1, 3)]))]
        if c in ("prompt", "locale", "break"):
            ps = []
        at = s.rand(0, len(ps)) if c in ANY else 0
        if c == "dir":
            at = min(at, 1)
        ps.insert(at, "/?")
        name = "".join(ch.upper() if s.bool(30) else ch for ch in c)
        k = s.weighted([(5, "plain"), (2, "block"), (2, "and"), (2, "to"), (1, "for"), (1, "else")])
        if c == "prompt" or c in ("if", "for", "def") and k != "to":
            k = "plain"
        steps.append([name, ps, k, s.choice([" ", "  ", "\t"])])
    return {"steps": steps, "mode": s.weighted([(5, "file"), (2, "stdin")]), "state": s.weighted([(3, "delay"), (1, "nodelay")]), "nontrivial": any(len(x[1]) > 1 or x[2] != "plain" for x in steps), "tags": [x[0].lower() for x in steps]}


def line(st, i):
    c = st[0] + st[3] + " ".join(st[1])
    if st[2] == "block":
        return "(\n\t%s\n\techo in\n)" % c, "in\n"
    if st[2] == "and":
        return "%s&& echo ok|| echo bad" % c, "ok\n"
    if st[2] == "to":
        return "%s 2> help%d" % (c, i), ""
    if st[2] == "for":
        return "for %s in (1 2) do %s" % ("%%i", c), ""
    if st[2] == "else":
        return "if a==b (echo no) else (%s)" % c, ""
    return c, ""


def run(case, ctx):
    for k, v in FILES.items():
        ctx.put(k, v)
    before = ctx.tree()
    # state that the commands whose help is asked could change
    script, out = ["@echo off", "set v=1", "set w=outer", "mkdir pa pb", "cd pa", "pushd ../pb", "pushd ..", "setlocal", "set w=inner"], ""
    mode = case["state"]
    if mode == "nodelay":
        script.append("setlocal disabledelayedexpansion")
    for i, st in enumerate(case["steps"]):
        l, o = line(st, i)
        script += [l, "echo #%d [%%1 %%v%% !w! %%w%%]" % i, "echo # 1>&2"]
        out += o + "#%d [%s 1 %s inner]\n" % (i, "one" if case["mode"] == "file" else "", "!w!" if mode == "nodelay" else "inner")
    script += ["if \"%cd%\"==\"" + ctx.cwd + "\" echo same"]
    script += ["endlocal"] * (2 if mode == "nodelay" else 1) + ["echo [%w% !w!]", "popd", "echo %cd%", "popd", "echo %cd%", "cd ..", "rmdir pa pb", ""]
    out += "same\n[outer outer]\n%s/pb\n%s/pa\n" % (ctx.cwd, ctx.cwd)
    text = "\n".join(script)
    if case["mode"] == "stdin":
        r = ctx.exec([ctx.bin("pbat"), "/a:qe"], stdin=text)
    else:
        r = ctx.pbat(text, args=["one"])
    if r.timeout:
        return "no end"
    got = r.out.decode("utf-8", "surrogateescape")
    if case["mode"] == "stdin":
        got = got.replace("%1", "")
    if case["mode"] == "file":
        bad = vf.expect_run(r, out, rc=None, err_empty=False)
        if bad:
            return bad
    else:
        # prompts stand between the outputs
        for l in out.split("\n"):
            if l not in got:
                return "%r is not in the output %r" % (l, got)
    err = r.err.decode("utf-8", "surrogateescape").split("# \n")
    if len(err) != len(case["steps"]) + 1:
        return "the commands after a help text did not all run: %r" % r.err[-300:]
    after = ctx.tree()
    for i, st in enumerate(case["steps"]):
        t = err[i]
        if st[2] == "to":
            t += after.pop("help%d" % i, b"").decode("utf-8", "surrogateescape")
        n = len(re.findall(r"(?m)^(Usage:)?\s+%s\b" % re.escape(st[0]), t, re.I))
        if n < (2 if st[2] == "for" else 1):
            return "no help on %s: %r" % (st[0], t)
        if t.startswith("Error") or "\nError" in t:
            return "help of %s comes with an error: %r" % (st[0], t)
    if after != before:
        return "files changed: %s" % sorted(set(after.items()) ^ set(before.items()))[:5]


if __name__ == "__main__":
    sys.exit(vf.main("P42", [vf.Family("help", gen, run, 3000, 60000)], rule="help is asked with other parameters, in a compound command or with redirected errors"))
