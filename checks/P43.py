"""COLOR, CLS, TITLE and the colours of prompts and errors: what the terminal shows, cell by cell."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, term

WORDS = ["a", "hello", "one two", "été", "日本", "x-y_z", "0123456789", "B.", "the quick brown fox jumps", "w" * 35]
# the numbers of the terminal for the colours of COLOR
def pen(d):
    n = int(d, 16)
    return (n & 8) | (4 if n & 1 else 0) | (n & 2) | (1 if n & 4 else 0)


class Model:
    """the statements of a script, and the text and colours that they paint"""
    def __init__(self, s):
        self.s = s
        self.col = [39, 39]         # what COLOR has set: text, background
        self.ops = []
        self.tags = set()
        self.prompt = [["text", "p>"]]
        self.echo = True
        self.subs = []
        self.vars = {}
        self.bats = []

    def shown(self, line, quiet):
        if not self.echo or quiet: return
        for k, v in self.prompt:
            if k == "text": self.ops.append(["text", v])
            else:
                c = self.code(v)
                self.ops.append(["pen"] + c)
        self.ops.append(["text", line + "\n"])

    def code(self, v):
        """the colours of a code"""
        fg = self.col[0] if v[-1] == "." else pen(v[-1])
        bg = self.col[1] if len(v) == 1 or v[0] == "." else pen(v[0])
        return [fg, bg]

    def gen_code(self):
        s = self.s
        k = s.weighted([(6, "two"), (2, "one"), (2, "dot-back"), (2, "dot-fore"), (1, "dots"), (1, "bad"), (1, "same"), (1, "long")])
        d = lambda: s.choice("0123456789abcdefABCDEF")
        self.tags.add("code-" + k)
        if k == "two": return d() + d()
        if k == "one": return d()
        if k == "dot-back": return "." + d()
        if k == "dot-fore": return d() + "."
        if k == "dots": return ".."
        if k == "bad": return s.choice(["g1", "1g", "zz", "-1", "#0", "1_"])
        if k == "same":
            c = d()
            return c + s.choice([c.lower(), c.upper()])
        return d() + d() + s.choice("0123")

    def color(self):
        """the statement, and what it does"""
        s = self.s
        if s.bool(10):
            self.tags.add("reset")
            return "color", lambda: self.set([39, 39])
        v = self.gen_code()
        src = v
        if s.bool(15) and "_" not in v:
            n = s.choice("pq")
            src = s.choice(["%%%s%%", "!%s!"]) % n
            pre = "@set %s=%s" % (n, v)
        else: pre = None
        return (pre, "color" + s.choice([" ", " ", "  ", "\t"]) + src, "color @" + v), lambda: self.do_color(v)

    def do_color(self, v):
        if not re.fullmatch(r"[0-9a-fA-F.]{1,2}", v): return self.error(v)
        c = self.code(v)
        # the default colours are no colours: they never are the same
        if c[0] == c[1] != 39: return self.error(v)
        self.set(c)

    def set(self, c):
        self.col = list(c)
        self.ops.append(["pen"] + c)
        self.ops.append(["clear"])

    def error(self, v):
        self.tags.add("error")
        # the beginning of a longer code names it
        self.ops.append(["pen", 9, self.col[1]])
        self.ops.append(["error", v])
        self.ops.append(["pen"] + self.col)

    def text(self):
        s = self.s
        return " ".join(s.choice(WORDS) for _ in range(s.rand(1, 3)))

    def statement(self, depth):
        s = self.s
        k = s.weighted([(5, "echo"), (6, "color"), (1, "cls"), (2, "title"), (3, "prompt"), (1, "onoff"), (2 if depth == 0 else 0, "for"), (2 if depth == 0 else 0, "if"),
                        (2 if depth == 0 else 0, "call"), (1 if depth == 0 else 0, "bat"), (1, "two"), (1, "bad")])
        quiet = s.bool(40)
        at = "@" if quiet else ""
        if k == "echo":
            t = self.text()
            self.shown("echo " + t, quiet)
            self.ops.append(["text", t + "\n"])
            return [at + "echo " + t]
        if k == "two":
            t, u = self.text(), self.text()
            c, act = self.plain_color()
            l = "echo %s&%s&echo %s" % (t, c, u)
            self.tags.add("compound")
            self.shown(l, quiet)
            self.ops.append(["text", t + "\n"])
            act()
            self.ops.append(["text", u + "\n"])
            return [at + l]
        if k == "color":
            c, act = self.color()
            if isinstance(c, str): pre, src = None, c
            else:
                pre, src, _ = c
            if pre: self.vars[src] = pre
            shown = src if not src[-1:] == "%" else re.sub("%.%", lambda m: pre.split("=", 1)[1], src)
            if pre and src[-1] == "!": shown = src
            self.shown(shown, quiet)
            act()
            return ([pre] if pre else []) + [at + src]
        if k == "cls":
            self.tags.add("cls")
            self.shown("cls", quiet)
            self.ops.append(["clear"])
            return [at + "cls"]
        if k == "title":
            self.tags.add("title")
            t = self.text()
            l = "title" + s.choice([" ", "  ", "\t"]) + t
            self.shown(l, quiet)
            self.ops.append(["title", t])
            return [at + l]
        if k == "prompt":
            p = []
            for _ in range(s.rand(1, 3)):
                if s.bool(60):
                    c = self.gen_code()
                    if len(c) > 2 or not re.fullmatch("[0-9a-fA-F.]+", c): c = "4e"
                    self.tags.add("prompt-color")
                    p.append(["x", c])
                p.append(["text", s.choice(["ab", "cd ", "-", "日", ">"])])
            if s.bool(60): p.append(["x", ".."])
            l = "prompt " + "".join("$g" if v == ">" else v if k == "text" else s.choice(["$x", "$X"]) + v + ";" for k, v in p)
            self.prompt = p
            return ["@" + l]
        if k == "onoff":
            self.echo = not self.echo
            return ["@echo " + ("on" if self.echo else "off")]
        if k == "for":
            cs = [self.gen_code() for _ in range(s.rand(1, 3))]
            self.tags.add("for")
            self.shown("for %%i in (%s) do color %%i" % " ".join(cs), quiet)
            for c in cs: self.do_color(c)
            return [at + "for %%%%i in (%s) do color %%%%i" % " ".join(cs)]
        if k == "if":
            self.tags.add("block")
            yes = s.bool()
            out = ["@if %d==1 (" % yes]
            for b in (True, False):
                for _ in range(s.rand(1, 2)):
                    c, act = self.plain_color()
                    t = self.text()
                    if b == yes:
                        act()
                        self.ops.append(["text", t + "\n"])
                    out += [c, "echo " + t]
                if b: out.append(") else (")
            return out + [")"]
        if k == "call" or k == "bat":
            self.tags.add("procedure" if k == "call" else "script")
            n = len(self.subs)
            self.subs.append(None)
            body = []
            for _ in range(s.rand(1, 3)): body += self.statement(1)
            if k == "call":
                self.subs[n] = [":s%d" % n] + body + ["@goto:eof"]
                return ["@call :s%d" % n]
            self.subs[n] = []
            self.bats.append(["b%d.bat" % n, body])
            return ["@call b%d.bat" % n]
        c = s.choice(["nosuch", "12345"])
        self.do_color("zz")
        return ["@color zz"]

    def plain_color(self):
        c = self.gen_code()
        return "color " + c, lambda: self.do_color(c)


def gen(s):
    m = Model(s)
    lines = []
    for _ in range(s.rand(1, 10)): lines += m.statement(0)
    lines.append("@exit /b 0")
    for x in m.subs: lines += x
    painted = [o for o in m.ops if o[0] == "clear"]
    return {"lines": lines, "bats": m.bats, "ops": m.ops, "rows": s.choice([24, 5, 10, 40]), "cols": s.choice([80, 20, 40, 132]), "tags": sorted(m.tags),
            "nontrivial": len(painted) > 1 and any(o[0] == "text" for o in m.ops)}


def lay(case, ctx):
    ctx.put("../s.bat", "@prompt p$g\n" + "\n".join(case["lines"]) + "\n")
    for n, b in case["bats"]: ctx.put(n, "\n".join(b) + "\n")


def message(ctx, code):
    """how a code is refused"""
    ctx.put("../m.bat", "@color zz\n")
    r = ctx.exec([ctx.bin("pbat"), "../m.bat"])
    return vf.b2s(r.err).replace("zz", code) if r.err and not r.out else None


def run(case, ctx):
    lay(case, ctx)
    want = term.Canvas(case["rows"], case["cols"])
    memo = {}
    for o in case["ops"]:
        if o[0] == "text": want.write(o[1])
        elif o[0] == "pen": want.fg, want.bg = o[1:]
        elif o[0] == "clear":
            want.goto(1, 1)
            want.clear()
        elif o[0] == "title": want.titles.append(o[1])
        else:
            if o[1] not in memo: memo[o[1]] = message(ctx, o[1])
            if not memo[o[1]]: return "COLOR %s is not refused" % o[1]
            want.write(memo[o[1]])
    se = term.Session([ctx.bin("pbat"), "../s.bat"], dict(ctx.env, TERM="xterm"), ctx.cwd, case["rows"], case["cols"], term.Canvas)
    rc = se.close(8)
    if rc is None: return "the program did not end"
    if rc: return "exit status %r" % rc
    got = se.scr
    if got.odd: return "the terminal gets %r" % got.odd
    if not got.visible or got.mouse: return "the terminal is left with its cursor hidden or its mouse followed"
    if got.titles[1:] != want.titles: return "the titles are %r, expected %r" % (got.titles[1:], want.titles)
    a, b = want.runs(), got.runs()
    for i in range(max(len(a), len(b))):
        x, y = a[i] if i < len(a) else "none", b[i] if i < len(b) else "none"
        if x != y:
            name = "what scrolled away" if i == 0 else "page %d of %d" % (i, len(a) - 1)
            if "none" in (x, y): return "the screen was cleared %d times, expected %d" % (len(b) - 2, len(a) - 2)
            j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            return "%s, row %d:\n%s\nexpected\n%s" % (name, j, term.show(y[j:j + 1]), term.show(x[j:j + 1]))
    if (got.fg, got.bg) != (want.fg, want.bg): return "the colours left are %r, expected %r" % ((got.fg, got.bg), (want.fg, want.bg))


def run_plain(case, ctx):
    """what is no terminal gets the texts alone"""
    lay(case, ctx)
    r = ctx.exec([ctx.bin("pbat"), "../s.bat"])
    out = "".join(o[1] for o in case["ops"] if o[0] == "text")
    memo = {}
    for o in case["ops"]:
        if o[0] == "error" and o[1] not in memo: memo[o[1]] = message(ctx, o[1])
    err = "".join(memo[o[1]] or "?" for o in case["ops"] if o[0] == "error")
    if vf.b2s(r.err) != err: return "errors: " + vf.diff_text(err, vf.b2s(r.err))
    return vf.expect_run(r, out, err_empty=False)


FAMS = [vf.Family("screen", gen, run, 2500, 40000), vf.Family("plain", gen, run_plain, 1200, 20000)]

if __name__ == "__main__":
    sys.exit(vf.main("P43", FAMS, rule="at least two changes of colour or clearings of the screen, and text"))
