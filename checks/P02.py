"""Script and CALL parameters, %* and SHIFT against a reference model."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

W = "abcdefXYZ0189._-+:@#=~*?$[]{}"


def gen_arg(s, k=None):
    """(value, needs quotes)"""
    if s.bool(30):
        return s.text(W + " ,;", 0 if s.bool(20) else 1, 8)
    return s.choice("abcXYZ019._") + s.text(W, 0, 6)


def quote(s, a):
    if a == "" or any(c in a for c in " ,;\t") or s.bool(15):
        return '"' + a + '"'
    return a


def gen_shift(s):
    k = s.weighted([(5, 0), (4, 1), (2, 2), (3, 3), (2, 4)])
    b, d, t = 0, 1, "shift"
    if k in (1, 4):
        b = s.rand(0, 9)
        t += " /%d" % b
    if k == 2:
        b = s.rand(0, 9)
        t += s.choice([" /s:%d", " /s%d"]) % b
    if k in (3, 4):
        d = s.rand(0, 9)
        t += s.choice([" /d:%d", " /d%d"]) % d
    return [t if s.bool(80) else t.upper() if "/s" not in t and "/d" not in t else t, b, d]


def do_shift(a, rest, b, d):
    i = b
    while i + d < 10:
        a[i] = a[i + d]
        i += 1
    while i < 10 and rest:
        a[i] = rest.pop(0)
        i += 1
    while i < 10:
        a[i] = ""
        i += 1


SHOW = "echo %s0=[%%0] 1=[%%1] 2=[%%2] 3=[%%3] 4=[%%4] 5=[%%5] 6=[%%6] 7=[%%7] 8=[%%8] 9=[%%9]"


def show(tag, a):
    return "%s0=[%s] " % (tag, a[0]) + " ".join("%d=[%s]" % (i, a[i]) for i in range(1, 10))


def gen_proc(s, i, n, budget):
    """the statements of procedure i, which may call procedures with larger numbers"""
    r = [["show"]]
    for _ in range(s.rand(1, 4)):
        k = s.weighted([(4, "shift"), (3 if i + 1 < n else 0, "call"), (2 if i + 1 < n else 0, "callfile"), (2, "show"), (2, "star"), (1, "til"),
                        (1, "block"), (1 if i + 1 < n else 0, "fwd")])
        if k == "shift":
            r += [["shift"] + gen_shift(s), ["show"]]
        elif k in ("call", "callfile"):
            args = [gen_arg(s) for _ in range(s.weighted([(3, s.rand(0, 4)), (2, s.rand(5, 10)), (2, s.rand(11, 16))]))]
            seps = [s.weighted([(8, " "), (1, ","), (1, ";"), (1, "  "), (1, "\t")]) for _ in args]
            q = [quote(s, a) for a in args]
            r += [[k, s.rand(i + 1, n - 1), args, seps, q], ["show"]]
        elif k == "fwd":
            r += [["fwd", s.rand(i + 1, n - 1), s.rand(1, 9), s.rand(1, 9)], ["show"]]
        elif k == "til":
            r.append(["til", s.rand(1, 9)])
        elif k == "block":
            sh = gen_shift(s)
            r += [["block"] + sh, ["show"]]
        else:
            r.append([k])
    return r


def gen(s):
    n = s.rand(1, 4)
    procs = [gen_proc(s, i, n, 0) for i in range(n)]
    argv = [gen_arg(s) for _ in range(s.weighted([(2, 0), (2, s.rand(1, 5)), (2, s.rand(8, 14))]))]
    files = {}
    # proc 0 is the main program; each other one is a label of the script and
    # also a script file of its own, which only calls further files
    def render(i, infile):
        o = []
        for st in procs[i]:
            if st[0] == "show":
                o.append(SHOW % ("%d:" % i))
            elif st[0] == "shift":
                o.append(st[1])
            elif st[0] == "block":
                o += ["if 1==1 (", st[1], SHOW % "blk ", ")"]
            elif st[0] == "star":
                o.append("echo star[%*]")
            elif st[0] == "til":
                o.append("echo til[%%~%d]" % st[1])
            elif st[0] == "fwd":
                o.append('call %s "%%%d" "%%%d"' % (("p%d.bat" % st[1]) if infile else ":p%d" % st[1], st[2], st[3]))
            else:
                tgt = "p%d.bat" % st[1] if (infile or st[0] == "callfile") else ":p%d" % st[1]
                o.append("call " + tgt + "".join(a + b for a, b in zip(st[3], st[4])))
        return o
    L = ["@echo off"] + render(0, False) + ["goto :eof"]
    for i in range(1, n):
        L += [":p%d" % i] + render(i, False) + ["goto :eof"]
        files["p%d.bat" % i] = "\n".join(["@echo off"] + render(i, True)) + "\n"
    out, tags, count = [], set(), [0]

    def execute(i, a, rest, star, infile, depth):
        count[0] += 1
        if count[0] > 60:
            raise vf.Reject()
        for st in procs[i]:
            if st[0] == "show":
                out.append(show("%d:" % i, a))
            elif st[0] in ("shift", "block"):
                old = list(a)
                do_shift(a, rest, st[2], st[3])
                if st[0] == "block":
                    out.append(show("blk ", old))
                tags.add("shift-rest" if rest else "shift")
                if st[2]: tags.add("begin")
                if st[3] != 1: tags.add("step")
            elif st[0] == "star":
                out.append(("star", star))
            elif st[0] == "til":
                out.append("til[%s]" % a[st[1]])
            elif st[0] == "fwd":
                args = [a[st[2]], a[st[3]]]
                q = ['"%s"' % x for x in args]
                enter(st[1], args, [" ", " "], q, infile, infile, depth)
                tags.add("forward")
            else:
                f = infile or st[0] == "callfile"
                enter(st[1], st[2], st[3], st[4], f, infile, depth)
                tags.add("call>9" if len(st[2]) > 9 else "callfile" if f else "call")
                if depth:
                    tags.add("nested")

    def enter(i, args, seps, q, f, infile, depth):
        a = ["@CWD@/p%d.bat" % i if f else ":p%d" % i] + args[:9]
        a += [""] * (10 - len(a))
        execute(i, a, args[9:], "".join(x + y for x, y in zip(seps, q)), f, depth + 1)
    a = ["@SELF@"] + argv[:9]
    a += [""] * (10 - len(a))
    execute(0, a, argv[9:], "".join(('"%s" ' if x == "" or any(c in x for c in " ,;=\t&|") else "%s ") % x for x in argv), False, 0)
    return {"script": "\n".join(L) + "\n", "files": files, "argv": argv, "out": out, "tags": sorted(tags),
            "nontrivial": len(tags) >= 2}


def run(case, ctx):
    for f, t in case["files"].items():
        ctx.put(f, t)
    r = ctx.pbat(case["script"], args=case["argv"])
    if r.timeout or r.rc != 0 or r.err:
        return "exit status %r, stderr %r" % (r.rc, r.err[:300])
    got = vf.b2s(r.out).split("\n")
    exp = case["out"]
    if len(got) != len(exp) + 1:
        return "expected %d lines, got %d: %r" % (len(exp), len(got) - 1, got[:6])
    for i, e in enumerate(exp):
        g = got[i]
        if isinstance(e, (list, tuple)):
            # %* holds the parameters as they were given; outer blanks are not specified
            if not (g.startswith("star[") and g.endswith("]")) or g[5:-1].strip(" \t,;") != e[1].strip(" \t,;"):
                return "line %d: %%* expected %r, got %r" % (i + 1, e[1], g)
            continue
        e = e.replace("@CWD@", ctx.cwd).replace("@SELF@", os.path.join(ctx.root, "s.bat"))
        g = g.replace(ctx.cwd + "/../s.bat", os.path.join(ctx.root, "s.bat"))
        if e != g:
            return "line %d: expected %r, got %r" % (i + 1, e, g)
    return None


# ---- a script may CALL itself: every level starts from its first line
def gen_rec(s):
    n = s.rand(1, 6)
    pad = s.rand(0, 3)
    L = ["@echo off"] + ["rem filler"] * pad + ["echo down %1 %2", "if %1==0 goto :eof", "set /a n=%1-1",
         "call r.bat !n! %2" + s.choice(["", "x"]), "echo up %1"]
    x = L[-2].endswith("x")
    out, tok = [], "t"
    for i in range(n, -1, -1):
        out.append("down %d %s" % (i, tok))
        if x:
            tok += "x"
    out += ["up %d" % i for i in range(1, n + 1)]
    return {"rec": "\n".join(L) + "\n", "n": n, "out": "\n".join(out) + "\n"}


def run_rec(case, ctx):
    ctx.put("r.bat", case["rec"])
    return vf.expect_run(ctx.exec([ctx.bin("pbat"), "r.bat", str(case["n"]), "t"]), case["out"])


FAMS = [vf.Family("calls", gen, run, 20000, 250000), vf.Family("recursion", gen_rec, run_rec, 300, 1500)]

if __name__ == "__main__":
    sys.exit(vf.main("P02", FAMS, rule="a calls case is non-trivial when its script combines at least two of: CALL of a label, "
                     "CALL of a file, nested CALL, more than nine parameters, SHIFT with a start or a step, parameters forwarded"))
