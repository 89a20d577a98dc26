"""CD, PUSHD, POPD and the use of the current folder against a model."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

POOL = ["a", "b", "c", "sub", "x y", "n.m", ".h", "..x", "...", "é", "日本", "a,b", "p;q", "k=v", "x  z", "long" * 40, "A", "(q", "-n", "~"]
ROOT = "@ROOT@"         # stands for the scratch folder


class T:
    """folders: {tuple: None | tuple (what a link leads to)}"""
    def __init__(self, s):
        self.d = {(): None}
        names = s.subset(POOL, 35)[:6] or ["a"]
        for _ in range(s.rand(2, 9)):
            p = s.choice([x for x in self.d if self.d[x] is None])
            if len(p) > 5: continue
            self.d[p + (s.choice(names),)] = None
        if s.bool(40):
            for i in range(s.rand(1, 2)):
                par = s.choice([x for x in self.d if self.d[x] is None])
                t = s.choice([x for x in self.d if self.d[x] is None])
                self.d[par + ("ln%d" % i,)] = t

    def phys(self, start, steps):
        """-> the real folder which is reached from start (real), None if there is none"""
        cur = start
        for x in steps:
            if x in (".", ""): continue
            if x == "..":
                if not cur: return "out"
                cur = cur[:-1]
                continue
            n = cur + (x,)
            if n not in self.d: return None
            cur = n if self.d[n] is None else self.d[n]
        return cur

    def real(self, lexical):
        return self.phys((), lexical)


def lex(cur, steps):
    for x in steps:
        if x in (".", ""): continue
        if x == "..":
            if not cur: return "out"
            cur = cur[:-1]
        else: cur = cur + (x,)
    return cur


class M:
    def __init__(self, s, t):
        self.s, self.t = s, t
        self.cur, self.stack = (), []
        self.tags = set()

    def path(self):
        """-> text, new folder or None if it is not one"""
        s = self.s
        for _ in range(8):
            absolute = s.bool(12)
            steps = []
            base = () if absolute else self.cur
            real = self.t.real(base)
            n = s.weighted([(6, 1), (4, 2), (2, 3), (1, 6)])
            for _ in range(n):
                kids = [x[-1] for x in self.t.d if x and x[:-1] == real] if real not in (None, "out") else []
                k = s.weighted([(6 if kids else 0, "kid"), (4, ".."), (1, "."), (1, "nope"), (1, "file")])
                x = s.choice(kids) if k == "kid" else {"..": "..", ".": ".", "nope": s.choice(["nope", "....", "x"]), "file": "id.txt"}[k]
                steps.append(x)
                real = self.t.phys(real, [x]) if real not in (None, "out") else real
            ph, lx = self.t.phys(self.t.real(base), steps), lex(base, steps)
            if ph == "out" or lx == "out": continue
            if ph is not None and self.t.real(lx) in (None, "out"): continue      # the way back from a link
            if ph is None and "".join(steps).strip(".") == "": continue
            if ph is not None and self.t.real(lx) != ph: self.tags.add("out of a link")
            text = ""
            for i, x in enumerate(steps):
                text += x + s.weighted([(8, "/"), (1, "//"), (1, "/./"), (1, "///")])
            text = text.rstrip("/")
            if text.endswith("/."): text = text[:-2]
            text += s.weighted([(6, ""), (2, "/"), (1, "//"), (1, "/.")])
            if absolute:
                text = s.weighted([(6, ROOT + "/"), (1, "/" + ROOT + "/"), (1, "//" + ROOT + "//")]) + text
                self.tags.add("absolute")
            if "~" in text.split("/")[0]: continue
            return text, (lx if ph is not None else None)
        raise vf.Reject()

    def quote(self, p, always=False):
        if always or self.s.bool(35) or any(c in p for c in "&|<>()^"): return '"%s"' % p
        return p

    def cd(self):
        s = self.s
        p, to = self.path()
        t = s.choice(["cd", "CD", "chdir", "Cd"]) + s.choice([" ", "  ", "\t"]) + s.weighted([(6, ""), (1, "/d "), (1, "/D  ")])
        first = p.split(" ")[0]
        if first.lower() in ("/d", "/?"): raise vf.Reject()
        t += self.quote(p) + s.weighted([(6, ""), (1, " "), (1, "  ")])
        if " " in p: self.tags.add("blank")
        if to is not None: self.cur = to
        else: self.tags.add("refused")
        return t, to is not None

    def pushd(self):
        s = self.s
        t = s.choice(["pushd", "PUSHD"])
        ok = True
        for _ in range(s.weighted([(6, 1), (2, 2), (1, 3)])):
            if not ok: break
            p, to = self.path()
            t += " " + self.quote(p, any(c in p for c in " ,;\t"))
            if to is None:
                ok = False
                self.tags.add("refused")
            else:
                self.stack.append(self.cur)
                self.cur = to
        self.tags.add("pushd")
        return t, ok

    def popd(self):
        t = self.s.choice(["popd", "POPD", "popd "])
        self.tags.add("popd")
        if not self.stack:
            self.tags.add("empty stack")
            return t, False
        self.cur = self.stack.pop()
        return t, True

    def one(self):
        return self.s.weighted([(5, self.cd), (4, self.pushd), (4, self.popd)])()


def lit(p):
    """how a folder is shown"""
    return ROOT + "".join("/" + x for x in p)


PROBES = ["var", "cd", "type", "cat", "pwd", "write", "exist", "for", "stack", "bang", "script"]


def gen(s):
    t = T(s)
    m = M(s, t)
    L, out = ["@echo off"], []
    logs = {}
    calls = []

    def probe(k, ind=""):
        real = t.real(m.cur)
        if k == "var":
            L.append(ind + "echo [%cd%]")
            out.append("[" + lit(m.cur) + "]")
        elif k == "bang":
            L.append(ind + "echo [!cd!]")
            out.append("[" + lit(m.cur) + "]")
        elif k == "cd":
            L.append(ind + s.choice(["cd", "CD", "chdir"]))
            out.append(lit(m.cur))
        elif k == "type":
            L.append(ind + "type id.txt")
            out.append("id" + repr(real))
        elif k == "cat":
            L.append(ind + "/bin/cat id.txt")
            out.append("id" + repr(real))
        elif k == "pwd":
            L.append(ind + "/bin/pwd -P")
            out.append(lit(real))
        elif k == "write":
            n = len(logs)
            L.append(ind + "echo w%d.>>log.txt" % n)
            logs.setdefault(real, []).append("w%d." % n)
        elif k == "exist":
            L.append(ind + "if exist id.txt (if exist log.txt (echo e1) else echo e2) else echo e3")
            out.append("e1" if real in logs else "e2")
        elif k == "for":
            L.append(ind + "for %%i in (i?.txt) do echo f%%i")
            out.append("fid.txt")
        elif k == "stack":
            L.append(ind + "pushd")
            out.extend(lit(x) for x in reversed(m.stack))
        elif k == "script":
            L.append(ind + "call sc.bat " + "p")
            out.append("s" + repr(real))

    n = s.rand(2, 12)
    for _ in range(n):
        how = s.weighted([(10, "plain"), (2, "call"), (2, "pipe"), (1, "if"), (1, "for"), (1, "block")])
        if how == "plain":
            x, ok = m.one()
            L.append(x)
            if s.bool(60):
                L.append("if errorlevel 1 (echo bad) else if errorlevel 0 (echo good) else echo bad")
                out.append("good" if ok else "bad")
            probe(s.choice(PROBES))
        elif how == "call":
            x, ok = m.one()
            y, ok2 = m.one()
            calls.append((x, y))
            L.append("call :l%d" % (len(calls) - 1))
            probe(s.choice(PROBES))
            m.tags.add("called")
        elif how == "pipe":
            # what happens there stays there
            save = m.cur, list(m.stack)
            x, ok = m.one()
            y, ok2 = m.one()
            m.tags.add("isolated")
            L.append("(%s& %s& cd)|/bin/cat" % (x.rstrip(), y.rstrip()))
            out.append(lit(m.cur))
            m.cur, m.stack = save[0], list(save[1])
            probe(s.choice(PROBES))
        elif how == "if":
            x, ok = m.one()
            L += ["if 1==1 (", " " + x, " echo in", ")"]
            out.append("in")
            probe(s.choice(PROBES))
        elif how == "for":
            p, to = m.path()
            if to is None: raise vf.Reject()
            if any(c in p for c in "?*,;=() ") or "@" in p: raise vf.Reject()
            m.cur = to
            L.append("for %%d in (%s) do cd %%d" .replace("%%", "%%%%") % p)
            probe(s.choice(PROBES))
        elif how == "block":
            L.append("(")
            for _ in range(s.rand(1, 3)):
                x, ok = m.one()
                L.append(" " + x)
                probe(s.choice([k for k in PROBES if k != "var"]), " ")
            L.append(")")
    probe("var")
    L.append("exit 0")
    for i, (x, y) in enumerate(calls):
        L += [":l%d" % i, x, y, "goto :eof"]
    case = {"dirs": [[list(p), None if v is None else list(v)] for p, v in t.d.items()], "script": "\n".join(L) + "\n",
            "out": "".join(x + "\n" for x in out), "logs": [[list(p), "".join(x + "\n" for x in v)] for p, v in sorted(logs.items())],
            "tags": sorted(m.tags)}
    case["nontrivial"] = len(out) > 2
    return case


def run(case, ctx):
    for p, v in case["dirs"]:
        q = os.path.join(ctx.cwd, *p)
        if v is None:
            os.makedirs(q, exist_ok=True)
            with open(os.path.join(q, "id.txt"), "w") as f: f.write("id%r\n" % (tuple(p),))
            with open(os.path.join(q, "sc.bat"), "w") as f: f.write("@echo s%r\n" % (tuple(p),))
    for p, v in case["dirs"]:
        if v is not None: os.symlink(os.path.join(ctx.cwd, *v), os.path.join(ctx.cwd, *p))
    r = ctx.pbat(case["script"].replace(ROOT, ctx.cwd))
    m = vf.expect_run(r, case["out"].replace(ROOT, ctx.cwd), 0, False)
    if m: return m + " (stderr %r)" % vf.b2s(r.err[:300])
    logs = {tuple(p): v for p, v in case["logs"]}
    for p, v in case["dirs"]:
        if v is not None: continue
        q = os.path.join(ctx.cwd, *p, "log.txt")
        got = open(q).read() if os.path.exists(q) else None
        if got != logs.get(tuple(p)): return "log.txt of %r holds %r, expected %r" % (p, got, logs.get(tuple(p)))
    return None


def show(case):
    return "folders:\n" + "\n".join("  %s%s" % ("/".join(p) or ".", "" if v is None else " -> " + ("/".join(v) or ".")) for p, v in case["dirs"]) + \
        "\n" + case["script"]


FAMS = [vf.Family("cd", gen, run, 9000, 150000, show=show)]

if __name__ == "__main__":
    sys.exit(vf.main("P22", FAMS, rule="at least three observations of the current folder or stack"))
