"""Programs made of chains, blocks, IF, FOR, GOTO, CALL and EXIT, and the
reference interpreter which says what they print and return."""
import re
import vf

NZ = "<nonzero>"        # an error level of which only non-nullity is specified


class Goto(Exception):
    pass


class EndFrame(Exception):
    pass


class Exit(Exception):
    pass


LABELS = ["a", "ab", "abc", "loop", "loop2", "end", "x y", "x", "sub-1", "e.f", "case_1", "case_2", "eof2"]


class Gen:
    def __init__(self, s, flow):
        self.s, self.flow = s, flow
        self.tags = set()
        self.k = 0
        self.budget = 60
        self.files = {}

    def fresh(self):
        self.k += 1
        return self.k

    # ---- leaves
    def text(self, forv, top):
        s = self.s
        parts = [("lit", "t%d" % self.fresh())]
        for _ in range(s.weighted([(6, 0), (3, 1), (1, 2)])):
            k = s.weighted([(2, "var"), (3, "el"), (3 if self.flow else 0, "arg"), (3 if forv else 0, "for")])
            parts.append(("lit", s.choice(["-", " ", "="])))
            if k == "var":
                parts.append(("var", s.choice(["n", "m"])))
            elif k == "el":
                parts.append(("el", "%" if top and s.bool(40) else "!"))
            elif k == "arg":
                parts.append(("arg", s.rand(1, 3)))
            else:
                parts.append(("for", s.choice(forv)))
        return parts

    def leaf(self, forv, top, depth):
        s = self.s
        w = [(12, "echo"), (3, "inc"), (3, "ext"), (2, "extecho"), (2, "nosuch"), (3, "rc")]
        if self.flow:
            w += [(9, "goto"), (10, "call"), (5, "callf"), (4, "calle"), (3, "run"), (3, "exitb"), (1, "exit"), (2, "eof"), (2, "missing")]
        else:
            w = [(10, "echo"), (2, "inc"), (5, "ext"), (5, "extecho"), (2, "nosuch"), (5, "rc")]
        k = s.weighted(w)
        if k == "echo": return ("echo", self.text(forv, top))
        if k == "inc": return ("inc", s.choice(["n", "m"]))
        if k == "ext": return ("ext", s.choice([0, 0, 1, 2, 7, 77, 255]))
        if k == "extecho": return ("extecho", "x%d" % self.fresh(), s.choice([0, 1, 3]))
        if k == "nosuch": return ("nosuch",)
        if k == "rc": return ("rc", s.choice([0, 0, 1, 2, 9, 1000, -1, -5, 123456]), s.choice(["label", "label", "file", "run"]))
        if k == "goto":
            return ("goto", s.choice(self.labels), s.choice(["goto :", "goto ", "GOTO :", "goto:", "Goto  :", "goto /q :"]), s.choice(["", "", " ", "upper"]))
        if k in ("call", "callf", "calle", "run"):
            args = [s.choice(["p", "q1", "\"r s\"", "7"]) for _ in range(s.rand(0, 3))]
            f = s.choice(sorted(x for x in self.fnames if x != "s.bat") or ["s.bat"])
            if k in ("callf", "run", "calle") and f == "s.bat":
                k = "call"
            if k == "call": return ("call", None, s.choice(self.labels), args)
            if k == "calle": return ("call", f, s.choice(self.labels), args)
            if k == "callf": return ("callf", f, args)
            return ("run", f, args)
        if k == "exitb": return ("exitb", s.choice([None, 0, 1, 4, -3, 300]), s.choice(["exit /b", "EXIT /B", "exit /B"]))
        if k == "exit": return ("exit", s.choice([None, 0, 3, 200]))
        if k == "eof": return ("eof", s.choice(["goto :eof", "goto:eof", "GOTO :EOF", "goto eof"]))
        return ("missing", s.choice(["goto :nolabel", "call :nolabel", "goto /q :nolabel", "call nofile.bat", "goto nolabel"]))

    def cond(self, forv):
        s = self.s
        k = s.weighted([(4, "cnt"), (4, "el"), (2 if self.flow else 0, "arg"), (2 if forv else 0, "for"), (1, "const")])
        if k == "cnt": return ("cnt", s.choice(["n", "m"]), s.choice(["lss", "geq", "equ", "gtr"]), s.rand(0, 5))
        if k == "el": return ("elz", s.choice(["equ", "neq"]))
        if k == "arg": return ("arg", s.rand(1, 2), s.choice(["p", "q1", "7", ""]))
        if k == "for": return ("for", s.choice(forv), s.choice(["1", "2", "u"]))
        return ("const", s.bool())

    # ---- composites
    def chain(self, depth, forv, top, last=True):
        """-> [(op, node)]; an IF or a FOR may only end it"""
        s = self.s
        n = s.weighted([(5, 1), (3, 2), (2, 3), (1, 4), (1, 6)]) if not self.flow else s.weighted([(7, 1), (2, 2), (1, 3)])
        r = []
        for i in range(n):
            self.budget -= 1
            op = None if i == 0 else s.choice(["&", "&&", "||"])
            if self.budget <= 0 or depth >= 4:
                k = "leaf"
            else:
                k = s.weighted([(8, "leaf"), (2, "block"), (2 if i == n - 1 else 0, "if"), (2 if i == n - 1 and len(forv) < 3 else 0, "for")])
            if k == "leaf":
                nd = self.leaf(forv, top and n == 1, depth)
            elif k == "block":
                nd = self.block(depth + 1, forv)
            elif k == "if":
                nd = ("if", self.cond(forv), s.bool(25), self.body(depth + 1, forv), None)
                if nd[3][0] == "block" and s.bool(50):
                    nd = nd[:4] + (self.body(depth + 1, forv),)
            else:
                v = "abc"[len(forv)]
                items = s.choice([["1", "2"], ["1", "2", "3"], ["u"], [], ["u", "1"]])
                nd = ("for", s.choice(["list", "L"]), v, items, self.body(depth + 1, forv + [v]))
            if i and k != "leaf": self.tags.add("chained " + k)
            r.append((op, nd))
        if n > 1: self.tags.add("chain")
        if len(set(o for o, _ in r[1:])) > 1: self.tags.add("mixed operators")
        return r

    def body(self, depth, forv):
        if self.s.bool(65):
            return self.block(depth, forv)
        self.tags.add("swallow")
        return ("line", self.chain(depth, forv, False))

    def block(self, depth, forv):
        s = self.s
        return ("block", [self.chain(depth, forv, False) for _ in range(s.weighted([(4, 1), (4, 2), (2, 3)]))], s.bool(50))

    def file(self, name, nlines):
        s = self.s
        items = []
        for i in range(nlines):
            self.budget = max(self.budget, 4)
            k = s.weighted([(6, "stmt"), (5 if self.flow else 0, "label"), (1, "comment"), (3 if self.flow else 0, "guard")])
            if k == "label":
                items.append(("label", s.choice(self.labels), s.choice(["", "", " ", "\t", "  "]), s.choice(["", "", "", "", " some text", "\ttab", " ", ",c", ";x y", ", z"]), s.bool(20)))
            elif k == "comment":
                items.append(("comment", s.choice(["", "  ", ":: x", "rem y", "rem (", "  :: & echo no"])))
            elif k == "guard":
                # a bounded loop or recursion, the usual shape of a script
                v = s.choice(["n", "m"])
                items.append([(None, ("inc", v))])
                nd = self.leaf([], False, 0)
                tgt = s.choice([("goto", s.choice(self.labels), "goto :", ""), ("call", None, s.choice(self.labels), ["p"])])
                items.append([(None, ("if", ("cnt", v, "lss", s.rand(1, 5)), False, ("line", [(None, tgt)]), None))])
            else:
                items.append(self.chain(0, [], True))
        return items

    def program(self):
        s = self.s
        self.fnames = ["s.bat"]
        if self.flow:
            self.fnames += ["q%d.bat" % i for i in range(s.weighted([(3, 0), (3, 1), (1, 2)]))]
            self.labels = s.shuffle(LABELS)[: s.rand(2, 5)]
        for f in self.fnames:
            self.files[f] = self.file(f, s.rand(2, 12) if self.flow else s.rand(1, 6))
        return self.files


# ---------------------------------------------------------------- rendering

def r_text(parts):
    o = ""
    for p in parts:
        o += {"lit": lambda: p[1], "var": lambda: "!%s!" % p[1], "arg": lambda: "%%%d" % p[1], "for": lambda: "%%" + p[1],
              "el": lambda: p[1] + "errorlevel" + p[1]}[p[0]]()
    return o


def r_cond(c, neg):
    t = {"cnt": lambda: "!%s! %s %d" % (c[1], c[2], c[3]), "elz": lambda: "!errorlevel! %s 0" % c[1],
         "arg": lambda: "\"%%%d\"==\"%s\"" % (c[1], c[2]), "for": lambda: "%%%%%s==%s" % (c[1], c[2]),
         "const": lambda: "1==1" if c[1] else "1==2"}[c[0]]()
    return "if " + ("not " if neg else "") + t


def r_node(nd, ind):
    k = nd[0]
    if k == "echo": return "echo " + r_text(nd[1])
    if k == "inc": return "set /a %s+=1" % nd[1]
    if k == "ext": return "sh -c \"exit %d\"" % nd[1]
    if k == "extecho": return "sh -c \"echo %s;exit %d\"" % (nd[1], nd[2])
    if k == "nosuch": return "no-such-program arg"
    if k == "rc": return {"label": "call :rc %d", "file": "call rc.bat %d", "run": "rc.bat %d"}[nd[2]] % nd[1]
    if k == "goto":
        l = nd[1].upper() if nd[3] == "upper" else nd[1]
        return nd[2] + l + (" " if nd[3] == " " else "")
    if k == "call":
        return "call " + ("/e %s " % nd[1] if nd[1] else "") + ":" + nd[2].split(" ")[0] + "".join(" " + a for a in nd[3])
    if k == "callf": return "call " + nd[1] + "".join(" " + a for a in nd[2])
    if k == "run": return nd[1] + "".join(" " + a for a in nd[2])
    if k == "exitb": return nd[2] + ("" if nd[1] is None else " %d" % nd[1])
    if k == "exit": return "exit" + ("" if nd[1] is None else " %d" % nd[1])
    if k in ("eof", "missing"): return nd[1]
    if k == "block":
        if nd[2] and len(nd[1]) == 1:
            return "(" + r_chain(nd[1][0], ind) + ")"
        i2 = ind + "  "
        return "(\n" + "".join(i2 + r_chain(c, i2) + "\n" for c in nd[1]) + ind + ")"
    if k == "line": return r_chain(nd[1], ind)
    if k == "if":
        return r_cond(nd[1], nd[2]) + " " + r_node(nd[3], ind) + (" else " + r_node(nd[4], ind) if nd[4] else "")
    if k == "for":
        if nd[1] == "L":
            n = len(nd[3])
            h = "for /L %%%%%s in (1,1,%d) do " % (nd[2], n)
        else:
            h = "for %%%%%s in (%s) do " % (nd[2], " ".join(nd[3]))
        return h + r_node(nd[4], ind)


def r_chain(ch, ind):
    o = ""
    for i, (op, nd) in enumerate(ch):
        if op:
            prev = ch[i - 1][1][0]
            o += ("" if prev in ("echo",) else " ") + op + " "
        o += r_node(nd, ind)
    return o


def render(items):
    o = []
    for it in items:
        if it[0] == "label":
            o.append(it[2] + ":" + (it[1].upper() if it[4] else it[1]) + it[3])
        elif it[0] == "comment":
            o.append(it[1])
        else:
            o.append(r_chain(it, ""))
    return "\n".join(o)


# ------------------------------------------------------------- interpretation

class Interp:
    def __init__(self, files, tags):
        self.files, self.tags = files, tags
        self.vars = {"n": 0, "m": 0}
        self.el = 0
        self.out = []
        self.steps = 0
        self.depth = 0
        self.byeof = False

    def tick(self):
        self.steps += 1
        if self.steps > 250:
            raise vf.Reject()

    def find(self, f, label):
        l = label.lower()
        for i, it in enumerate(self.files[f]):
            if it[0] == "label":
                t = (it[1] + it[3]).lower()
                if t.startswith(l) and (len(t) == len(l) or t[len(l)] in " \t,;"):
                    return i
        return None

    def frame(self, f, start, args):
        """runs f from a line to its end; the code of EXIT ends up in Exit"""
        self.depth += 1
        if self.depth > 12:
            raise vf.Reject()
        i, items = start, self.files[f]
        self_f, self_args = getattr(self, "f", None), getattr(self, "args", None)
        self.f, self.args, self.forv = f, args, {}
        saved_for = self.forv
        self.byeof = False
        try:
            while i < len(items):
                it = items[i]
                i += 1
                if it[0] == "comment":
                    if it[1].strip().startswith("rem"):
                        self.el = 0
                    continue
                if it[0] == "label":
                    continue
                self.lineel = self.el
                try:
                    self.chain(it)
                except Goto as g:
                    self.forv.clear()
                    i = g.args[0]
                    self.tags.add("jump")
                except EndFrame as e:
                    self.byeof = bool(e.args)
                    break
        finally:
            self.depth -= 1
            self.f, self.args = self_f, self_args

    def text(self, parts):
        o = ""
        for p in parts:
            if p[0] == "lit": o += p[1]
            elif p[0] == "var": o += str(self.vars[p[1]])
            elif p[0] == "arg": o += self.args[p[1] - 1].strip('"') if p[1] <= len(self.args) else ""
            elif p[0] == "for": o += self.forv[p[1]]
            else: o += str(self.lineel if p[1] == "%" else self.el)
        return o

    def cond(self, c, neg):
        if c[0] == "cnt":
            a, b = self.vars[c[1]], c[3]
            v = {"lss": a < b, "geq": a >= b, "equ": a == b, "gtr": a > b}[c[2]]
        elif c[0] == "elz":
            v = (self.el == 0) == (c[1] == "equ")
        elif c[0] == "arg":
            v = (self.args[c[1] - 1].strip('"') if c[1] <= len(self.args) else "") == c[2]
        elif c[0] == "for":
            v = self.forv[c[1]] == c[2]
        else:
            v = c[1]
        return v != neg

    def chain(self, ch):
        for op, nd in ch:
            if op == "&&" and self.el != 0 or op == "||" and self.el == 0:
                self.tags.add("skipped")
                continue
            self.node(nd)

    def call(self, f, start, args):
        sv = (self.f, self.args, self.forv, self.lineel)
        try:
            self.frame(f, start, args)
        finally:
            self.f, self.args, self.forv, self.lineel = sv

    def node(self, nd):
        self.tick()
        k = nd[0]
        if k == "echo":
            self.out.append(self.text(nd[1]))
            self.el = 0
        elif k == "inc":
            self.vars[nd[1]] += 1
            self.el = 0
        elif k == "ext": self.el = nd[1]
        elif k == "extecho":
            self.out.append(nd[1])
            self.el = nd[2]
        elif k == "nosuch": self.el = NZ
        elif k == "rc": self.el = nd[1]
        elif k == "goto":
            j = self.find(self.f, nd[1])
            if j is None:
                if nd[2].startswith("goto /q"):
                    raise vf.Reject()      # whether it leaves an error is not specified
                self.el = NZ
                return
            raise Goto(j)
        elif k == "call":
            f = nd[1] or self.f
            l = nd[2].split(" ")[0]
            j = self.find(f, l)
            if j is None:
                self.el = NZ
                return
            self.tags.add("call label")
            if nd[1]: self.tags.add("call /e")
            if self.forv: self.tags.add("call in for")
            self.call(f, j, nd[3])
        elif k == "callf":
            self.tags.add("call script")
            self.call(nd[1], 0, nd[2])
        elif k == "run":
            self.tags.add("run script")
            sv = dict(self.vars)
            try:
                self.call(nd[1], 0, nd[2])
            except Exit as e:
                self.el = e.args[0]
            self.vars = sv
        elif k == "exitb":
            if nd[1] is not None: self.el = nd[1]
            self.tags.add("exit /b")
            raise EndFrame()
        elif k == "exit":
            self.tags.add("exit")
            raise Exit(self.el if nd[1] is None else nd[1])
        elif k == "eof":
            raise EndFrame("eof")
        elif k == "missing":
            if nd[1].startswith("goto /q"):
                raise vf.Reject()
            self.el = NZ
        elif k == "block":
            for c in nd[1]:
                self.chain(c)
        elif k == "line":
            self.chain(nd[1])
        elif k == "if":
            if self.cond(nd[1], nd[2]):
                self.node(nd[3])
            elif nd[4]:
                self.node(nd[4])
        elif k == "for":
            items = [str(i + 1) for i in range(len(nd[3]))] if nd[1] == "L" else nd[3]
            for x in items:
                self.forv[nd[2]] = x
                self.tick()
                self.node(nd[4])
            self.forv.pop(nd[2], None)


def make(s, flow):
    g = Gen(s, flow)
    files = g.program()
    it = Interp(files, g.tags)
    args = s.choice([[], ["p"], ["q1", "7"], ["7", "p", "zz"]]) if flow else []
    rc = None
    mainret = None
    try:
        it.frame("s.bat", 0, args)
        ended = True
        # EXIT /B outside of any subroutine is an EXIT; each script ends with one
        if not it.byeof and isinstance(it.el, int):
            rc = it.el
    except Exit as e:
        rc = e.args[0]
        ended = False
    out = it.out + (["the end"] if not flow else [])
    texts = {}
    for f, items in files.items():
        t = render(items)
        if f == "s.bat":
            t = "@echo off\nset n=0\nset m=0\n" + t
            t += "\necho the end\nexit 0\n:rc\nexit /b %1\n" if not flow else "\nexit /b\n:rc\nexit /b %1\n"
        else:
            t += "\nexit /b\n:rc\nexit /b %1" + ("\n" if s.bool(80) else "")
        texts[f] = t
    return {"script": texts.pop("s.bat"), "files": texts, "args": args, "out": out, "rc": rc if flow else 0, "tags": sorted(g.tags), "steps": it.steps}


def run(case, ctx):
    ctx.put("rc.bat", "exit /b %1\n")
    for f, t in case["files"].items():
        ctx.put(f, t)
    return check(case, ctx.pbat(case["script"], case["args"]))


def check(case, r):
    if r.timeout:
        return "the program did not terminate; stdout so far: %r" % vf.b2s(r.out[:300])
    if case["rc"] is not None and case["rc"] != NZ and r.rc != case["rc"] % 256:
        return "exit status %r, expected %r (stderr %r)" % (r.rc, case["rc"], vf.b2s(r.err[:300]))
    if case["rc"] is None and r.rc is not None and r.rc < 0:
        return "killed by signal %d" % -r.rc
    got = vf.b2s(r.out).split("\n")
    exp = case["out"] + [""]
    for i in range(max(len(got), len(exp))):
        a = exp[i] if i < len(exp) else None
        b = got[i] if i < len(got) else None
        if a is not None and b is not None and NZ in a:
            if re.fullmatch(re.escape(a).replace(re.escape(NZ), "-?[1-9][0-9]*"), b):
                continue
        if a != b:
            return "stdout line %d: expected %r, got %r (stderr %r)" % (i + 1, a, b, vf.b2s(r.err[:300]))
    return None


def show(case):
    return "--- s.bat %s\n" % " ".join(case["args"]) + case["script"] + "".join("\n--- %s\n%s" % x for x in case["files"].items())
