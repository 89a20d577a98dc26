"""Redirections against a reference model of the three streams."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

OUTN = ["f", "g.txt", "a b", "sub/h", "F2"]
INN = ["in1", "in 2", "sub/in3"]


class Jump(Exception):
    pass


class G:
    def __init__(self, s):
        self.s, self.k, self.tags = s, 0, set()
        self.budget = 14
        self.forv = []

    def fresh(self):
        self.k += 1
        return self.k

    def redirs(self, leaf, merged, depth, canread):
        """-> list of ('out',f,app) ('err',f,app) ('in',f) ('2>&1',) ('1>&2',)"""
        s = self.s
        r = []
        k = s.weighted([(3 if depth else 1, "none"), (4, "out"), (2, "err"), (2, "both"), (2, "merge"), (1, "outmerge"), (1, "1>&2")])
        if merged and k != "none":
            # what a redirection inside a block under 2>&1 does to the other stream is not specified
            k = "none"
        if k in ("out", "both", "outmerge"):
            r.append(("out", s.choice(OUTN + ["nul"]), s.bool(40)))
        if k in ("err", "both"):
            r.append(("err", s.choice(OUTN[:3] + ["nul"]), s.bool(40)))
        if k == "both" and r[0][1].lower() == r[1][1].lower():
            r.pop()
        if k in ("merge", "outmerge"):
            r.append(("2>&1",))
        if k == "1>&2":
            r.append(("1>&2",))
        if canread or (not leaf and s.bool(25)):
            r.append(("in", s.choice(INN)))
        r = s.shuffle(r)
        for x in r: self.tags.add(x[0])
        if len(r) > 1: self.tags.add("several")
        return r

    def leaf(self, merged, depth, havein):
        s = self.s
        self.budget -= 1
        k = s.weighted([(5, "echo"), (3, "prog"), (3, "nosuch"), (3, "setp"), (2, "cat"), (2, "call"), (1, "acc"), (1, "typ")])
        if k in ("setp", "cat"):
            # the enclosing input may be exhausted: only read from one's own file, or from the block's
            own = not (havein and s.bool(70))
            rd = self.redirs(True, merged, depth, own)
            if not own: self.tags.add("block input")
            return (k, self.fresh(), rd)
        if k == "call":
            self.tags.add("call")
            return ("call", self.fresh(), self.redirs(True, merged, depth, False), s.choice(["label", "file", "run"]), s.bool(30))
        if k == "typ":
            return ("typ", s.choice(INN), self.redirs(True, merged, depth, False))
        return (k, self.fresh(), self.redirs(True, merged, depth, False))

    def node(self, depth, merged, havein):
        s = self.s
        k = s.weighted([(6, "leaf"), (3 if depth < 3 and self.budget > 2 else 0, "block"), (1 if depth < 3 else 0, "if"), (2 if depth < 3 and len(self.forv) < 2 else 0, "for")])
        if k == "leaf":
            return self.leaf(merged, depth, havein)
        if k == "block":
            rd = self.redirs(False, merged, depth, False)
            m = merged or any(x[0] in ("2>&1", "1>&2") for x in rd)
            h = havein or any(x[0] == "in" for x in rd)
            body = [self.node(depth + 1, m, h) for _ in range(s.rand(1, 3))]
            if depth == 0 and s.bool(15):
                self.tags.add("goto out of block")
                body.insert(s.rand(0, len(body)), ("goto", self.fresh(), s.choice(["goto", "exitb"])))
            self.tags.add("block")
            if depth: self.tags.add("nested block")
            return ("block", body, rd, s.bool())
        if k == "if":
            return ("if", s.bool(75), self.node(depth + 1, merged, havein))
        v = "xyz"[len(self.forv)]
        self.forv.append(v)
        n = ("for", v, s.rand(1, 3), self.node(depth + 1, merged, havein))
        self.forv.pop()
        self.tags.add("for")
        return n

    # ------- rendering
    def rd(self, r):
        s = self.s
        if r[0] in ("2>&1", "1>&2"):
            return r[0]
        name = r[1]
        form = s.weighted([(6, "plain"), (3, "quoted"), (2, "var"), (1, "delayed")])
        if r[1] == "nul": name, form = s.choice(["nul", "NUL", "Nul"]), "plain"
        if " " in name and form == "plain": form = "quoted"
        if form == "quoted": t = '"' + name + '"'
        elif form == "var":
            t = '"%V' + self.vname(name) + '%"'
        elif form == "delayed":
            t = '"!V' + self.vname(name) + '!"'
        else: t = name
        sp = s.choice(["", " ", "", "  "])
        if r[0] == "in": return "<" + sp + t
        fd = {"out": s.choice(["", "", "1"]), "err": "2"}[r[0]]
        return fd + (">>" if r[2] else ">") + sp + t

    def vname(self, n):
        return str((OUTN + INN).index(n))

    def with_rd(self, words, rds, block=False):
        """put the redirections anywhere among the words"""
        s = self.s
        pre, post = [], []
        mid = {}
        for r in rds:
            t = self.rd(r)
            p = s.weighted([(5, "end"), (2 if not block else 0, "front"), (2 if len(words) > 1 and not block else 0, "mid")])
            if p == "end": post.append(t)
            elif p == "front": pre.append(t)
            else: mid.setdefault(s.rand(1, len(words) - 1), []).append(t)
            if p != "end": self.tags.add("redirection not at the end")
        o = list(pre)
        for i, w in enumerate(words):
            o += mid.get(i, [])
            o.append(w)
        return " ".join(o + post)

    def r(self, nd, ind):
        s = self.s
        k = nd[0]
        fv = "".join(" %%" + v for v in self.forv)
        if k == "echo": return self.with_rd(["echo", "T%d" % nd[1], "w"] + fv.split(), nd[2])
        if k == "acc": return self.with_rd(["set", "/a", "q+=1"], nd[2]) + "& echo Q!q!"
        if k == "prog": return self.with_rd(["sh", "../both.sh", "P%d" % nd[1]], nd[2])
        if k == "nosuch": return self.with_rd(["no-such-%d" % nd[1], "arg"], nd[2])
        if k == "setp":
            return "(" + self.with_rd(["set", "/p", "v="], nd[2]) + ")& echo V%d !v!" % nd[1]
        if k == "cat": return self.with_rd(["cat"], nd[2])
        if k == "typ": return self.with_rd(["type", '"' + nd[1] + '"'], nd[2])
        if k == "call":
            c = {"label": "call :lab", "file": "call ../lab.bat", "run": "../lab.bat"}[nd[3]]
            return self.with_rd(c.split() + ["C%d" % nd[1], "x" if nd[4] else "y"], nd[2])
        if k == "goto": return "goto over" if nd[2] == "goto" else "exit /b 0"
        if k == "if": return "if %s " % ("1==1" if nd[1] else "1==2") + self.r(nd[2], ind)
        if k == "for":
            self.forv.append(nd[1])
            t = "for /L %%%%%s in (1,1,%d) do %s" % (nd[1], nd[2], self.r(nd[3], ind))
            self.forv.pop()
            return t
        i2 = ind + " "
        if nd[3] and len(nd[1]) == 1:
            t = "(" + self.r(nd[1][0], i2) + ")"
        else:
            t = "(\n" + "".join(i2 + self.r(x, i2) + "\n" for x in nd[1]) + ind + ")"
        return (t + " " + self.with_rd([], nd[2], True)).rstrip()


class Interp:
    def __init__(self, ins):
        self.files = {}
        self.ins = ins
        self.out, self.err = [], []
        self.v = ""
        self.q = 0
        self.forv = {}
        self.n = 0

    def open(self, st, rds):
        """st = (in, out, err); streams are ('proc',n) or ('file',name) or ('read',[lines], pos)"""
        i, o, e = st
        no, ne = o, e
        for r in rds:
            if r[0] == "in":
                i = [self.ins[r[1]], [0]]
            elif r[0] in ("out", "err"):
                t = ("nul",) if r[1] == "nul" else ("file", r[1])
                if t[0] == "file" and t in (o, e):
                    raise vf.Reject()       # a file open twice at once: the order of what it gets is not specified
                if t[0] == "file":
                    if not r[2] or r[1] not in self.files: self.files[r[1]] = []
                if r[0] == "out": no = t
                else: ne = t
        if any(r[0] == "2>&1" for r in rds): ne = no
        if any(r[0] == "1>&2" for r in rds): no = ne
        return (i, no, ne)

    def put(self, stream, line):
        self.n += 1
        if stream[0] == "nul": return
        if stream[0] == "file": self.files[stream[1]].append(line)
        elif stream[1] == 1: self.out.append(line)
        else: self.err.append(line)

    def run(self, nd, st):
        k = nd[0]
        if k == "if":
            if nd[1]: self.run(nd[2], st)
            return
        if k == "for":
            for i in range(nd[2]):
                self.forv[nd[1]] = str(i + 1)
                self.run(nd[3], st)
            del self.forv[nd[1]]
            return
        if k == "goto": raise Jump(nd[2])
        s2 = self.open(st, nd[2])
        i, o, e = s2
        if k == "block":
            for x in nd[1]: self.run(x, s2)
        elif k == "echo": self.put(o, " ".join(["T%d w" % nd[1]] + [self.forv[v] for v in self.forv]))
        elif k == "acc":
            self.q += 1
            self.put(st[1], "Q%d" % self.q)
        elif k == "prog":
            self.put(o, "oP%d" % nd[1])
            self.put(e, "eP%d" % nd[1])
        elif k == "nosuch": self.put(e, "no-such-%d" % nd[1])
        elif k == "setp":
            if i is None or i[1][0] >= len(i[0]): raise vf.Reject()
            self.put(st[1], "V%d %s" % (nd[1], i[0][i[1][0]]))
            i[1][0] += 1
        elif k == "cat":
            if i is None: raise vf.Reject()
            for l in i[0][i[1][0]:]: self.put(o, l)
            i[1][0] = len(i[0])
        elif k == "typ":
            for l in self.ins[nd[1]]: self.put(o, l)
        elif k == "call":
            self.put(o, "1C%d" % nd[1])
            self.put(e, "eC%d" % nd[1])
            if nd[4]: return
            self.put(o, "2C%d" % nd[1])


def canon(t):
    r = []
    for l in t.split("\n"):
        m = re.search(r"no-such-\d+", l)
        l = m.group(0) if m else " ".join(l.split())
        r.append(l)
    return r


LAB = "echo 1%1\nsh -c \"echo e%1 >&2\"\nif %2==x exit /b\necho 2%1\n"


def gen(s):
    g = G(s)
    prog = [g.node(0, False, False) for _ in range(s.rand(1, 4))]
    ins = {n: ["%s-%d" % (n.replace(" ", "_").replace("/", "_"), j) for j in range(s.rand(3, 7))] for n in INN}
    L = ["@echo off", "set q=0"] + ["set V%d=%s" % (i, n) for i, n in enumerate(OUTN + INN)]
    it = Interp(ins)
    ended = False
    top = (None, ("proc", 1), ("proc", 2))
    for j, nd in enumerate(prog):
        t = g.r(nd, "")
        L.append(t.replace("goto over", "goto over%d" % j))
        L.append(":over%d" % j)
        L.append("echo M%d" % j)
        if ended: continue
        try:
            it.run(nd, top)
        except Jump as e:
            it.forv = {}
            if e.args[0] == "exitb":
                ended = True
                continue
        it.put(top[1], "M%d" % j)
        if it.n > 120: raise vf.Reject()
    L += ["exit /b", ":lab"] + LAB.strip().split("\n") + ["exit /b"]
    return {"script": "\n".join(L) + "\n", "ins": ins, "out": it.out, "err": it.err, "files": it.files, "tags": sorted(g.tags),
            "nontrivial": len(g.tags) >= 1}


def run(case, ctx):
    ctx.put("sub/x", "")
    os.unlink(os.path.join(ctx.cwd, "sub/x"))
    for n, l in case["ins"].items():
        ctx.put(n, "".join(x + "\n" for x in l))
    for n, t in (("both.sh", "echo o$1\necho e$1 >&2\n"), ("lab.bat", LAB)):
        with open(os.path.join(ctx.root, n), "w") as f:
            f.write(t)
    r = ctx.pbat(case["script"], stdin="stdin1\nstdin2\n")
    if r.timeout:
        return "the program did not terminate"
    if r.rc is None or r.rc < 0:
        return "killed by signal %r" % r.rc
    bad = vf.diff_text("\n".join(case["out"] + [""]), "\n".join(canon(vf.b2s(r.out)))) if canon(vf.b2s(r.out)) != case["out"] + [""] else None
    if bad: return "stdout: " + bad + " stderr %r" % r.err[:200]
    if canon(vf.b2s(r.err)) != case["err"] + [""]:
        return "stderr: " + vf.diff_text("\n".join(case["err"] + [""]), "\n".join(canon(vf.b2s(r.err))))
    tree = {k: v for k, v in ctx.tree().items() if v is not None and k not in case["ins"]}
    if set(tree) != set(case["files"]):
        return "files: expected %r, got %r" % (sorted(case["files"]), sorted(tree))
    for n, l in case["files"].items():
        if canon(vf.b2s(tree[n])) != l + [""]:
            return "file %r: " % n + vf.diff_text("\n".join(l + [""]), "\n".join(canon(vf.b2s(tree[n]))))
    for n, l in case["ins"].items():
        if ctx.tree()[n] != "".join(x + "\n" for x in l).encode():
            return "the input file %r was changed" % n
    return None


FAMS = [vf.Family("redir", gen, run, 9000, 200000)]

if __name__ == "__main__":
    sys.exit(vf.main("P15", FAMS, rule="a case is non-trivial when its script has a redirection"))
