"""Pipelines against a reference model: data, isolation of the left side, effects of the right side."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

WORDS = ["alpha", "beta", "gamma", "alphabet", "x y", "a,b;c", "1=2", "end", "alpha beta"]


class G:
    def __init__(self, s):
        self.s, self.k, self.tags, self.files = s, 0, set(), {}
        self.after = []

    def fresh(self):
        self.k += 1
        return self.k

    def lines(self, big=False):
        s = self.s
        if big:
            n = s.choice([500, 3000, 8000])
            pad = "z" * s.choice([0, 20, 50])
            self.tags.add("big")
            return ["%s %d %s" % (WORDS[i % 5], i, pad) for i in range(n)]
        return [s.choice(WORDS) + " %d" % self.fresh() for _ in range(s.weighted([(1, 0), (2, 1), (4, s.rand(2, 6))]))]

    def file(self, lines):
        f = "f%d" % self.fresh()
        self.files[f] = "".join(x + "\n" for x in lines)
        return f

    def source(self):
        """-> (text, lines)"""
        s = self.s
        k = s.weighted([(3, "echo"), (3, "block"), (3, "type"), (2, "cat"), (2, "call"), (2, "script"), (2, "for"), (1, "bigtype"), (1, "bigcat"), (2, "effects"), (1, "errs"), (1, "exit"), (1, "late"), (1, "none")])
        n = self.fresh()
        self.tags.add("from " + k)
        if k == "echo":
            return "echo e%d" % n, ["e%d" % n]
        if k == "block":
            L = self.lines() or ["q"]
            return "(" + "& ".join("echo " + x.replace(";", "") for x in L) + ")", [x.replace(";", "") for x in L]
        if k in ("type", "bigtype", "cat", "bigcat"):
            L = self.lines(k.startswith("big"))
            return ("type " if k.endswith("type") else "cat ") + self.file(L), L
        if k == "call": return "call :src c%d" % n, ["1c%d" % n, "2c%d" % n]
        if k == "script": return s.choice(["src.bat", "call src.bat"]) + " s%d" % n, ["1s%d" % n, "2s%d" % n]
        if k == "for":
            m = s.rand(1, 4)
            return "(for /L %%%%a in (1,1,%d) do echo n%%%%a)" % m, ["n%d" % (i + 1) for i in range(m)]
        if k == "effects":
            # what the left side changes stays there
            self.tags.add("isolation")
            t = s.choice(["set keep=changed", "cd sub", "set /a cnt+=5", "setlocal", "sh -c \"exit 9\"", "set new=1"])
            return "(%s& echo f%d)" % (t, n), ["f%d" % n]
        if k == "errs":
            return "(sh -c \"echo er%d >&2\"& echo g%d) 2>&1" % (n, n), ["er%d" % n, "g%d" % n]
        if k == "exit":
            self.tags.add("isolation")
            return "(echo h%d& %s& echo no)" % (n, s.choice(["exit", "exit 4", "exit /b 3"])), ["h%d" % n]
        if k == "late":
            # the line after the pipe runs once its left side is done
            m = s.choice(["", "sh -c \"sleep 0.02\"& "])
            self.after.append(("late%d" % n, ["w%dw" % n]))
            return "(echo l%d& %secho w%dw> late%d)" % (n, m, n, n), ["l%d" % n]
        return "(rem)", []

    def filt(self, L, last):
        """-> (text, lines out, error level or None)"""
        s = self.s
        k = s.weighted([(4, "cat"), (3, "find"), (2, "findv"), (2, "sed"), (2, "drop"), (2, "tail"), (2, "more"), (1, "type"), (1, "head"), (1, "ifcat"), (1, "loop"), (1, "callf"), (1, "ignore"), (1, "findc")])
        n = self.fresh()
        self.tags.add("to " + k)
        w = s.choice(["alpha", "a", "1", "zz"])
        if k == "cat": return "cat", L, 0
        if k == "find":
            r = [x for x in L if w in x]
            return 'find "%s"' % w, r, None
        if k == "findv":
            r = [x for x in L if w not in x]
            return 'find /v "%s"' % w, r, None
        if k == "findc":
            return 'find /c "%s"' % w, ["%d" % len([x for x in L if w in x])], None
        if k == "sed": return "sh -c \"sed s/a/A/;exit %d\"" % (n % 3), [x.replace("a", "A", 1) for x in L], n % 3
        if k == "drop":
            if not L: raise vf.Reject()
            return "(set /p drop%d=& cat)" % n, L[1:], 0
        if k == "tail": return "(cat& echo t%d)" % n, L + ["t%d" % n], 0
        if k == "more": return "more", L, None
        if k == "type": return "type", L, None
        if k == "head": return "head -n 2", L[:2], 0
        if k == "ifcat":
            if last and s.bool():
                return "if 1==1 cat", L, 0
            return "(if 1==1 (cat) else echo no)", L, 0
        if k == "loop":
            m = min(len(L), 3)
            if not m: raise vf.Reject()
            t = "for /L %%%%b in (1,1,%d) do (set /p lp=& echo %%%%b !lp!)" % m
            return (t if last else "(" + t + ")"), ["%d %s" % (i + 1, L[i]) for i in range(m)], 0
        if k == "callf":
            return "call flt.bat k%d" % n, ["<k%d" % n] + L + [">k%d" % n], 0
        return "echo i%d" % n, ["i%d" % n], 0

    def redirected(self, t, L):
        """a part with redirections of its own"""
        s = self.s
        if not s.bool(20) or t.endswith("2>&1"): return t, L
        n = self.fresh()
        k = s.weighted([(4, " 2>&1"), (2, " 2> nul"), (2, " 2>err%d" % n), (2 if not t.startswith(("if ", "for ")) else 0, ">")])
        self.tags.add("redirected")
        if k != ">": return t + k, L
        # nothing is left for the next one
        self.tags.add("redirected output")
        self.after.append(("w%d" % n, L))
        return t + " > w%d" % n, []

    def pipeline(self):
        """-> (text, output lines, error level or None, swallows)"""
        s = self.s
        t, L = self.source()
        t, L = self.redirected(t, L)
        el = 0
        swallow = False
        n = s.weighted([(5, 1), (3, 2), (2, 3), (1, 5)])
        if n > 1: self.tags.add("long")
        parts = [t]
        for i in range(n):
            t, L, el = self.filt(L, i == n - 1)
            t, L = self.redirected(t, L)
            parts.append(t)
            if t.startswith(("if ", "for ")): swallow = True
        return s.choice([" | ", "|", " |  "]).join(p if not p.startswith("echo") else p for p in parts), L, el, swallow


def norm(lines):
    # blanks before a pipe or the end of a line are of no interest here
    return [re.sub(r"\s+(\]|$)", r"\1", x) for x in lines]


def gen(s):
    g = G(s)
    out = []
    L = ["@echo off", "set keep=orig", "set cnt=0", "set new="]
    for _ in range(s.rand(1, 4)):
        k = s.weighted([(5, "plain"), (3, "capture"), (2, "ops"), (2, "redir"), (2, "if"), (2, "for"), (1, "capture2")])
        t, R, el, sw = g.pipeline()
        skipped = False
        g.tags.add("as " + k)
        if k == "plain":
            L.append(t)
            out += R
            if el is not None:
                L.append("echo el %errorlevel%")
                out.append("el %d" % el)
        elif k == "capture":
            if sw: raise vf.Reject()
            v = "cap%d" % g.fresh()
            L += ["set %s=old" % v, t + "| set /p %s=" % v, "echo [!%s!]" % v]
            if not R: raise vf.Reject()
            out.append("[%s]" % R[0])
        elif k == "capture2":
            if sw or len(R) < 2: raise vf.Reject()
            L += [t + "| (set /p ca=& set /p cb=)", "echo [!ca!][!cb!]"]
            out.append("[%s][%s]" % (R[0], R[1]))
        elif k == "ops":
            go = s.bool()
            c = s.choice([("1", True), ("0", False)])
            op = s.choice(["&&", "||", "&"])
            run = {"&&": c[0] == "0", "||": c[0] == "1", "&": True}[op]
            L.append("sh -c \"exit %s\" %s %s" % (c[0], op, t))
            skipped = not run
            if run: out += R
            if not sw and el is not None and s.bool():
                op2 = s.choice(["&&", "||", "&"])
                L[-1] += " " + op2 + " echo after"
                e = el if run else int(c[0])
                if {"&&": e == 0, "||": e != 0, "&": True}[op2]: out.append("after")
        elif k == "redir":
            if sw or ">" in t.split("|")[-1]: raise vf.Reject()
            f = "r%d" % g.fresh()
            L += [t + " > " + f, "echo --", "type " + f]
            out += ["--"] + R
        elif k == "if":
            b = s.bool(70)
            L.append(("if 1==1 " if b else "if 1==2 ") + t)
            skipped = not b
            if b: out += R
        elif k == "for":
            if sw or "exit" in t or "nowhere2" in t: raise vf.Reject()
            m = s.rand(1, 3)
            if "%%a" in t or "%%b" in t:
                L.append("for /L %%%%c in (1,1,%d) do (%s)" % (m, t))
            else:
                L.append("for /L %%%%c in (1,1,%d) do %s" % (m, t))
            out += R * m
        for f, FL in g.after:
            # skipped pipes leave no file behind
            L += ["if exist %s type %s" % (f, f), "if exist %s del /q %s" % (f, f)]
            if not skipped: out += FL
        g.after = []
        L.append("echo !keep! !cnt! [!new!] !cd:~-2!")
        out.append("orig 0 [] /c")
    rc = None
    if s.bool(30):
        # the program ends from within a pipe or a loop over the output of a command
        n = s.rand(0, 40)
        k = s.choice(["pipe", "block", "forf", "after"])
        if k in ("pipe", "block", "after"):
            t, R, el, sw = g.pipeline()
            if sw: raise vf.Reject()
        g.tags.add("exit in " + k)
        rc = n
        if k == "pipe": L.append(t + "| exit %d" % n)
        elif k == "block":
            L.append(t + "| (cat& exit %d)" % n)
            out += R
        elif k == "after":
            L.append("(%s)& exit %d" % (t, n))
            out += R
        else:
            big = s.bool()
            R = g.lines(big) or ["q"]
            if big: g.tags.add("big")
            L.append("for /f \"delims=\" %%%%a in ('%s %s') do (echo %%%%a& exit %d)" % (s.choice(["type", "cat"]), g.file(R), n))
            out.append(R[0])
        L.append("echo not reached")
    L += ["exit /b", ":src", "echo 1%1", "set keep=src", "echo 2%1", "exit /b 7"]
    return {"script": "\n".join(L) + "\n", "files": g.files, "out": norm(out), "rc": rc, "tags": sorted(g.tags),
            "nontrivial": True}


def run(case, ctx):
    ctx.put("sub/k", "")
    ctx.put("src.bat", "echo 1%1\nset keep=src\necho 2%1\nexit /b 7\n")
    ctx.put("flt.bat", "echo ^<%1\ncat\necho ^>%1\n")
    for f, t in case["files"].items():
        ctx.put(f, t)
    r = ctx.pbat(case["script"], timeout=30)
    if r.timeout:
        return "the program did not terminate; stdout so far %r" % r.out[:300]
    if r.rc is None or r.rc < 0:
        return "killed by signal %r" % r.rc
    got = norm(vf.b2s(r.out).split("\n"))
    if got != case["out"] + [""]:
        return "stdout: " + vf.diff_text("\n".join(case["out"] + [""]), "\n".join(got)) + " (stderr %r)" % r.err[:200]
    if case["rc"] is not None and r.rc != case["rc"]:
        return "the exit status is %d, not %d" % (r.rc, case["rc"])
    return None


FAMS = [vf.Family("pipes", gen, run, 8000, 150000)]

if __name__ == "__main__":
    sys.exit(vf.main("P16", FAMS, rule="every case runs at least one pipeline; the shapes are counted"))
