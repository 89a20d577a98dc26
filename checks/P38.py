"""MOD loads modules and lists them; BATBOX draws on the terminal and reads keys and clicks."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, term

# ------------------------------------------------------------------ modules

def case_of(s, n): return "".join(c.upper() if s.bool(25) else c for c in n)


def gen_mod(s):
    """the sample module, which adds FOO"""
    loaded = [False]
    tags = set()
    own = s.weighted([(3, ""), (1, "path"), (1, "abs")])       # where the module is found
    name = s.choice(["sample", "sam ple", "x.so", "m/sample"]) if own else "sample"
    lines, out, subs = [], [], []
    spell = {"": "sample", "path": name, "abs": "@ABS@/modules/" + name}[own]
    if " " in spell: spell = '"%s"' % spell
    where = {"": "@PBAT@/modules/sample"}.get(own, "@ABS@/modules/" + name)
    if own == "path": lines.append('set "PBAT_PATH=@ABS@"')

    def foo():
        a = s.choice(["", " a", " a b", "  two  blanks", ' "q r"', " é", "/x", " 1,2;3"])
        return case_of(s, "foo") + a, a + " CRY NOOOOPS\n"

    def level(n): return ["echo [!errorlevel!]"], [["text", "[%d]\n" % n]]

    def step(depth):
        k = s.weighted([(4, "load"), (5, "foo"), (3, "list"), (2, "missing"), (1, "text"), (1, "both"), (2, "block"), (1, "for"), (1 if depth == 0 else 0, "bat"), (1 if depth == 0 else 0, "call"), (1, "pipe"), (1, "redir")])
        if k == "foo" or k in ("pipe", "redir", "for", "block") and not loaded[0]:
            l, t = foo()
            if loaded[0]: return [l, "echo [!errorlevel!]"], [["text", t + "[0]\n"]]
            tags.add("unknown")
            return [l, "echo [!errorlevel!]"], [["err", ""], ["text", "[-1]\n"]]
        if k == "load":
            q = s.choice(["", "", " /q", " /Q"])
            l = case_of(s, "mod") + q + " " + spell
            if not loaded[0]:
                loaded[0] = True
                tags.add("load" + (" in " + "depth" if depth else ""))
                return [l, "echo [!errorlevel!]"], [["text", "Registering FOO command !\n[0]\n"]]
            tags.add("again" + q.lower())
            return [l, "echo [!errorlevel!]"], ([["text", "[0]\n"]] if q else [["err", where], ["text", "[61]\n"]])
        if k == "list":
            tags.add("list")
            return ["mod " + s.choice(["/l", "/L"]), "echo [!errorlevel!]"], [["text", "Loaded modules :\n" + ("\t* " + where + "\n" if loaded[0] else "") + "[0]\n"]]
        if k == "missing":
            tags.add("missing")
            n = s.choice(["nosuch", "a/b", "@ABS@/nosuch"])
            return ["mod " + n, "echo [!errorlevel!]"], [["err", n if n[0] == "@" else ("@ABS@" if own == "path" else "@PBAT@") + "/modules/" + n], ["text", "[1]\n"]]
        if k == "text":
            # a file that is no module
            tags.add("not a module")
            return ["mod @ABS@/text.txt", "echo [!errorlevel!]"], [["err", "@ABS@/text.txt"], ["text", "[59]\n"]]
        if k == "both":
            # a module with one that is loaded already
            if not loaded[0]: return step(depth)
            tags.add("several")
            return ["mod /q %s %s" % (spell, spell), "echo [!errorlevel!]"], [["text", "[0]\n"]]
        if k == "block":
            tags.add("block")
            a, x = foo()
            b, y = foo()
            return ["(", a, b, ")"], [["text", x + y]]
        if k == "for":
            tags.add("for")
            return ["for %%i in (a b) do foo z"], [["text", " z CRY NOOOOPS\n z CRY NOOOOPS\n"]]
        if k == "pipe":
            tags.add("pipe")
            return ["foo p|type"], [["text", " p CRY NOOOOPS\n"]]
        if k == "redir":
            tags.add("redir")
            return ["foo r>f.txt", "type f.txt"], [["text", " r CRY NOOOOPS\n"]]
        body, o = [], []
        for _ in range(s.rand(1, 3)):
            l, t = step(1)
            body += l
            o += t
        n = len(subs)
        if k == "bat":
            tags.add("script")
            subs.append(["b%d.bat" % n, body])
            return ["call b%d.bat" % n], o
        tags.add("procedure")
        subs.append([None, [":p%d" % n] + body + ["goto:eof"]])
        return ["call :p%d" % n], o

    for _ in range(s.rand(1, 8)):
        l, o = step(0)
        lines += l
        out += o
    return {"lines": lines, "out": out, "subs": subs, "own": own and name, "tags": sorted(tags), "nontrivial": loaded[0] and len(out) > 1}


def run_mod(case, ctx):
    pb = os.path.dirname(os.path.realpath(ctx.bin("pbat")))
    top = os.path.join(ctx.root, "mods")
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(os.path.join(top, "modules", "m"))
    if case["own"]: shutil.copy(os.path.join(pb, "modules", "sample"), os.path.join(top, "modules", case["own"]))
    with open(os.path.join(top, "text.txt"), "w") as f: f.write("no module\n")
    fill = lambda t: t.replace("@ABS@", top).replace("@PBAT@", pb)
    text = lambda ls: fill("\n".join(ls) + "\n")
    ctx.put("../s.bat", "@echo off\n" + text(case["lines"]) + "exit /b 0\n" + "".join(text(b) for n, b in case["subs"] if not n))
    for n, b in case["subs"]:
        if n: ctx.put(n, text(b))
    r = ctx.exec([ctx.bin("pbat"), "../s.bat"])
    shutil.rmtree(top)
    out = fill("".join(v for k, v in case["out"] if k == "text"))
    bad = vf.expect_run(r, out, err_empty=False)
    if bad: return bad
    errs = [fill(v) for k, v in case["out"] if k == "err"]
    got = vf.b2s(r.err).splitlines()
    if len(errs) != len(got): return "%d errors are reported, expected %d: %r" % (len(got), len(errs), got[:4])
    for e, g in zip(errs, got):
        if e not in g: return "the error %r does not name %r" % (g, e)


# ------------------------------------------------------------------- BATBOX

def pen(n): return (n & 8) | (4 if n & 1 else 0) | (n & 2) | (1 if n & 4 else 0)


KEYS = [("a", 97), ("Z", 90), ("0", 48), (" ", 32), ("~", 126), ("/", 47), ("\r", 10), ("\t", 9), ("\x7f", 127), ("\x01", 1), ("%", 37), ("!", 33), ("\"", 34), ("^", 94),
        ("\x1b[A", 72), ("\x1b[B", 80), ("\x1b[C", 77), ("\x1b[D", 75), ("\x1b[H", 71), ("\x1b[F", 79), ("\x1b[2~", 82), ("\x1b[3~", 83), ("\x1b[5~", 73), ("\x1b[6~", 81)]
# button byte of the terminal -> what BATBOX calls it
CLICKS = [(0, 1), (1, 5), (2, 2), (64, 6), (65, 7)]


def gen_box(s):
    rows, cols = s.choice([(24, 80), (10, 40), (30, 100)])
    ops, lines, tags = [], ["@echo off", "mod batbox", "set n7=7", "set hx=0x12"], set()
    at = {"last": [0, 0], "orig": [0, 0]}
    nk = [0]

    def num(n):
        k = s.weighted([(5, "dec"), (2, "hex"), (1, "oct"), (1, "var")])
        if k == "hex": return "0x%x" % n
        if k == "oct": return "0%o" % n
        if k == "var" and n in (7, 18):
            tags.add("variable")
            return {7: "n7", 18: "hx"}[n]
        return str(n)

    def switch(c): return "/" + (c.upper() if s.bool(25) else c)

    for _ in range(s.rand(1, 8)):
        words = []
        after = []      # what is shown when the command has ended
        for _ in range(s.rand(1, 7)):
            k = s.weighted([(4, "d"), (2, "a"), (5, "g"), (2, "n"), (1, "o"), (1, "h"), (3, "c"), (1, "w"), (2, "key"), (2, "char"), (2, "ahead"), (1, "none"), (1, "last"), (1, "mouse"), (1, "report")])
            tags.add(k)
            if k == "d":
                t = s.choice(["x", "hello", "two words", "été", "日本", "a  b", "#", "=", "1,2", "/d"])
                words += [switch("d"), '"%s"' % t if re.search("[ ,^]", t) else t]
                ops.append(["text", t])
            elif k == "a":
                n = s.choice([65, 122, 33, 47, 48, 126, 18 + 47])
                words += [switch("a"), num(n)]
                ops.append(["text", chr(n)])
            elif k == "g":
                x, y = s.rand(0, cols - 30), s.rand(0, rows - 5)
                ox, oy = at["orig"]
                if s.bool(10): x, y = 7, 7 if rows < 24 else 18
                words += [switch("g"), num(x), num(y)]
                at["last"] = [x + ox, y + oy]
                ops.append(["goto"] + at["last"])
            elif k == "o":
                at["orig"] = [s.rand(0, 20), s.rand(0, 4)]
                words += [switch("o"), num(at["orig"][0]), num(at["orig"][1])]
            elif k == "n":
                if at["last"][1] + 1 >= rows: continue
                words.append(switch("n"))
                at["last"] = [at["last"][0], at["last"][1] + 1]
                ops.append(["goto"] + at["last"])
            elif k == "h":
                v = s.rand(0, 1)
                words += [switch("h"), num(v)]
                ops.append(["cursor", v])
            elif k == "c":
                v = s.rand(0, 255)
                words += [switch("c"), "0x%02x" % v]
                ops.append(["pen", pen(v & 15), pen(v >> 4)])
            elif k == "w":
                words += [switch("w"), num(s.rand(1, 20))]
            elif k == "none":
                # no key is there: nothing changes
                words += [switch(s.choice("kl")) + "_", "v"]
            elif k in ("key", "char", "ahead"):
                n = nk[0] = nk[0] + 1
                words += ["/d", "[%d]" % n]
                ops.append(["text", "[%d]" % n])
                some = [s.choice(KEYS)] + ([s.choice(KEYS) for _ in range(s.rand(1, 2))] if k == "ahead" else [])
                ops.append(["keys", "[%d]" % n, "".join(x for x, _ in some)])
                for i, (_, c) in enumerate(some):
                    l = s.bool() and 33 <= c < 127
                    v = s.choice(["v", "w", "key"])
                    words += [switch("l" if l else "k") + ("_" if i else ""), v]
                    after.append(["set", v, chr(c) if l else str(c)])
            elif k == "last":
                # ends the command, with the key as error level
                n = nk[0] = nk[0] + 1
                key, c = s.choice(KEYS)
                words += ["/d", "[%d]" % n, switch(s.choice("kl"))]
                ops += [["text", "[%d]" % n], ["keys", "[%d]" % n, key]]
                after.append(["level", c])
                if s.bool(): words += ["/d", "unseen"]
                break
            elif k in ("mouse", "report"):
                n = nk[0] = nk[0] + 1
                b, kind = s.choice(CLICKS)
                x, y = s.rand(0, 90), s.rand(0, 90)
                move = s.bool(30)
                if move and s.bool():
                    b, kind = 35, 0
                    tags.add("move")
                words += ["/d", "[%d]" % n, switch(s.choice(["m_", "y"]) if move else "m")]
                ops += [["text", "[%d]" % n], ["keys", "[%d]" % n, "\x1b[M" + chr(32 + b) + chr(33 + x) + chr(33 + y)]]
                if k == "mouse":
                    words += ["mx", "my", "mt"]
                    after += [["set", "mx", str(x)], ["set", "my", str(y)], ["set", "mt", str(kind)]]
                else: ops.append(["text", "%d:%d:%d\n" % (x, y, kind)])
        if not words: continue
        lines += [case_of(s, "batbox") + "".join(s.choice([" ", " ", "  ", "\t"]) + w for w in words)]
        lev = [x[1] for x in after if x[0] == "level"]
        ops.append(["level", lev[0] if lev else 0])
        lines.append(">>../log echo [!errorlevel!]")
        names = {}
        for x in after:
            if x[0] == "set": names[x[1]] = x[2]
        for v in sorted(names):
            ops.append(["var", v, names[v]])
            lines.append(">>../log set %s" % v)
    return {"lines": lines, "ops": ops, "rows": rows, "cols": cols, "tags": sorted(tags), "nontrivial": len(ops) > 6}


def run_box(case, ctx):
    ctx.put("../s.bat", "\n".join(case["lines"]) + "\nexit /b 0\n")
    want = term.Canvas(case["rows"], case["cols"])
    ctx.put("../log", "")
    log = []
    pos = [0, 0]
    se = term.Session([ctx.bin("pbat"), "../s.bat"], dict(ctx.env, TERM="xterm"), ctx.cwd, case["rows"], case["cols"], term.Canvas, "ahead" not in case["tags"])
    lost = None
    try:
        before = se.initial
        for o in case["ops"]:
            if o[0] == "text": want.write(o[1])
            elif o[0] == "goto": want.goto(o[2] + 1, o[1] + 1)
            elif o[0] == "pen": want.fg, want.bg = o[1:]
            elif o[0] == "cursor": want.visible = bool(o[1])
            elif o[0] == "keys":
                if not se.until(o[1].encode(), 6) or not se.awaits_key(6):
                    lost = "%s at %r" % ("the program ended" if se.eof else "no key is read", o[1])
                    break
                se.type(o[2])
            elif o[0] == "level": log.append("[%d]" % o[1])
            elif o[0] == "var": log.append("%s=%s" % (o[1], o[2]))
        if not lost:
            while not se.eof and se.pump(6): pass
            after = se.mode()
    finally:
        rc = se.close(4)
    try:
        with open(os.path.join(ctx.root, "log"), "rb") as f: got = vf.b2s(f.read())
    except OSError: got = ""
    if lost: return lost + "; read so far: %r; screen: %s" % (got, term.show(se.scr.picture()))
    if rc is None: return "the program did not end"
    if rc: return "exit status %r, screen %s" % (rc, term.show(se.scr.picture()))
    exp = "".join(x + "\n" for x in log)
    if got != exp: return "error levels and variables: " + vf.diff_text(exp, got)
    if se.scr.odd: return "the terminal gets %r" % se.scr.odd
    if se.scr.mouse: return "the mouse is still followed"
    if before and after and before != after: return "the mode of the terminal was %r and is %r" % (before, after)
    if se.scr.visible != want.visible: return "the cursor is %s" % ("shown" if se.scr.visible else "hidden")
    x, y = want.runs(), se.scr.runs()
    if x != y: return "the screen shows\n%s\nexpected\n%s" % (term.show(y[-1]), term.show(x[-1]))


FAMS = [vf.Family("mod", gen_mod, run_mod, 1200, 20000), vf.Family("batbox", gen_box, run_box, 2000, 30000)]

if __name__ == "__main__":
    sys.exit(vf.main("P38", FAMS, rule="modules: the module gets loaded and something follows; BATBOX: more than six operations", setup=vf.modules))
