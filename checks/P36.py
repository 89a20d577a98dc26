"""The line editor of a terminal: a model of the line, of the history and of the names that complete it."""
import sys, os, time, unicodedata
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, term

SAFE = list("abcdeXYZ0129  --_.,;=+") + ["é", "日", "ß", "本", "ж"]
HARD = SAFE + list("%!&|<>^()\"'/\\*?@:~`#$") + ["😀"]
COMB = ["\u0301", "\u0308"]
FILES = ["alpha1", "alpha2", "alphabet", "beta", "Beta2", "gamma.txt", "été", "étage", "ècole", "sub/inner", "sub/inlay", "sub/other", "dir2/x", "one two", "one three", "zz"]
KEYS = {"left": ["\x02", "\x1b[D"], "right": ["\x06", "\x1b[C"], "home": ["\x01", "\x1b[H", "\x1bOH"], "end": ["\x05", "\x1b[F", "\x1bOF"],
        "back": ["\x7f", "\x08"], "del": ["\x1b[3~", "\x04"], "kill": ["\x15"], "rest": ["\x0b"], "word": ["\x17"], "swap": ["\x14"],
        "up": ["\x10", "\x1b[A"], "down": ["\x0e", "\x1b[B"], "none": ["\x1b[5~", "\x1b[6~", "\x1b[Z", "\x1bOP", "\x1b[15~", "\x1b[1;5C", "\x1b[24;2~"],
        "junk": ["\udcff", "\udc80", "\udcf9"], "tab": ["\t"]}


def comb(c): return c in COMB


class Line:
    def __init__(self, hist):
        self.b, self.pos, self.hist, self.idx = [], 0, hist, 0
        if not hist or hist[-1] != "": add(hist, "")

    def text(self): return "".join(self.b)

    def next(self):
        n = 1
        while self.pos + n < len(self.b) and comb(self.b[self.pos + n]): n += 1
        return n

    def prev(self):
        n = 1
        while self.pos - n > 0 and comb(self.b[self.pos - n]): n += 1
        return n

    def insert(self, t):
        for c in t:
            self.b.insert(self.pos, c)
            self.pos += 1

    def key(self, k):
        b, p = self.b, self.pos
        if k == "left" and p: self.pos -= self.prev()
        elif k == "right" and p < len(b): self.pos += self.next()
        elif k == "home": self.pos = 0
        elif k == "end": self.pos = len(b)
        elif k == "back" and p:
            n = self.prev()
            del b[p - n:p]
            self.pos -= n
        elif k == "del" and p < len(b): del b[p:p + self.next()]
        elif k == "kill": self.b, self.pos = [], 0
        elif k == "rest": del b[p:]
        elif k == "word":
            while self.pos and b[self.pos - 1] == " ": self.pos -= 1
            while self.pos and b[self.pos - 1] != " ": self.pos -= 1
            del b[self.pos:p]
        elif k == "swap" and 0 < p < len(b):
            n, m = self.prev(), self.next()
            b[p - n:p + m] = b[p:p + m] + b[p - n:p]
            self.pos = p + m if p + m < len(b) else p - n + m
        elif k in ("up", "down") and len(self.hist) > 1:
            h = self.hist
            h[len(h) - 1 - self.idx] = self.text()
            i = self.idx + (1 if k == "up" else -1)
            if not 0 <= i < len(h): return
            self.idx = i
            self.b = list(h[len(h) - 1 - i])
            self.pos = len(self.b)


def add(hist, t):
    if hist and hist[-1] == t: return
    if len(hist) == 100: del hist[0]
    hist.append(t)


def candidates(item):
    """names that complete an item, None when that is not modelled"""
    d, _, m = item.rpartition("/")
    if any(c in item for c in "*?[]\\:~%\"'&|<>^") or "//" in item or item.startswith("/") or d not in ("", "sub", "dir2", ".", "nodir"): return None
    if m.startswith("."): return None
    names = set()
    pre = d + "/" if d not in ("", ".") else ""
    for f in FILES:
        if f.startswith(pre): names.add(f[len(pre):].split("/")[0])
    if d == "nodir": names = set()
    if unicodedata.normalize("NFC", m) != m or m.lower() != m and not m.isascii(): return None
    full = (d + "/" if d else "")
    return sorted(full + n for n in names if n.lower().startswith(m.lower()))


def tab(l):
    """-> 'nothing', 'done', 'list' or None when it is not modelled"""
    before, after = "".join(l.b[:l.pos]), "".join(l.b[l.pos:])
    if '"' in before or after.startswith('"'):
        i = before.rfind('"')
        if not after.startswith('"') or before.count('"') != 1 or (i and before[i - 1] not in " \t"): return None, None
        item = before[i + 1:]
    else:
        i = len(before)
        while i and before[i - 1] not in " \t&|": i -= 1
        item = before[i:]
    c = candidates(item)
    if c is None: return None, None
    if not c: return "nothing", c
    if len(c) == 1: m = len(c[0])
    else:
        m = 0
        while all(len(x) > m for x in c) and len({x[m] for x in c}) == 1: m += 1
    if len(c) > 1 and m <= len(item): return "list", [x.rpartition("/")[2] for x in c]
    l.insert(c[0][len(item):m])
    return "done", c


def strip_line(s, mode, hist, tags):
    """-> (keys, the line, whether the screen can be foretold, names listed)"""
    l = Line(hist)
    keys, plain, listed = [], True, []
    n = s.weighted([(2, 3), (5, 8), (5, 20), (1, 60)])
    alpha = HARD if mode == "setp" else SAFE
    for _ in range(s.rand(0, n)):
        k = s.weighted([(14, "char"), (4, "text"), (5, "left"), (3, "right"), (2, "home"), (2, "end"), (4, "back"), (3, "del"), (1, "rest"), (1, "word"), (2, "swap"), (3, "up"), (2, "down"), (1, "none"), (1, "junk"), (2, "tab"), (2, "name"), (1, "comb"), (1, "long")]
                       + ([(1, "kill")] if s.bool(30) else []))
        if k in ("char", "text", "long", "comb", "name"):
            if k == "char": t = s.choice(alpha)
            elif k == "comb":
                t = s.choice(COMB)
                if l.pos < len(l.b): continue
                if not l.pos: plain = False
            elif k == "long": t = s.choice(alpha) * s.choice([10, 30, 70, 130])
            elif k == "name": t = s.choice(["", " "]) + s.choice(["al", "alpha", "be", "B", "sub", "sub/", "sub/in", "sub/inl", "gam", "é", "ét", "dir2/", "nosuch", "z", "nodir/a", "on"] + (['"one t"', '"one th"', '"be"'] if mode == "setp" else []))
            else: t = s.text(alpha, 1, 8)
            if len(l.b) + len(t) > 300: continue
            l.insert(t)
            keys.append(t)
            if k == "name":
                if t.endswith('"'):
                    l.key("left")
                    keys.append("\x02")
                k = "tab" if s.bool(80) else ""
            if k != "tab": continue
        if k == "del" and not l.b: continue         # that is the end of the file
        tags.add(k)
        if k == "tab":
            r, c = tab(l)
            if r is None: continue
            tags.add("tab " + r)
            if r == "list":
                plain = False
                listed += c
        else: l.key(k)
        if k in ("up", "down") and len("".join(l.b)) > 300: raise vf.Reject()
        keys.append(s.choice(KEYS[k]))
    return keys, l, plain, listed


def gen(s, mode):
    tags = {mode}
    hist, lines = [], []
    n = s.weighted([(6, 4), (3, 9), (1, 125 if s.bool(30) else 20)])
    for i in range(s.rand(1, n) if n < 100 else n):
        keys, l, plain, listed = strip_line(s, mode, hist, tags) if n < 100 or i > 110 else ([], Line(hist), True, [])
        if n > 100 and i <= 110:
            t = s.choice(["l%d", "longer line %d"]) % i
            keys.append(t)
            l.insert(t)
        if mode == "shell":
            # only harmless commands
            l.key("home")
            l.insert("echo [")
            l.key("end")
            l.insert("]")
            keys += ["\x01", "echo [", "\x05", "]"]
        t = l.text()
        if len(t) > 600: raise vf.Reject()
        hist.pop()
        add(hist, t)
        lines.append([keys, t, plain, listed, l.pos])
    if len(lines) > 100: tags.add("full history")
    prompt = s.choice(["", ":", "p> ", "日本> ", "x" * 30 + ">"])
    case = {"mode": mode, "lines": lines, "rows": s.choice([24, 40, 60]), "cols": s.choice([20, 40, 80, 132]), "prompt": prompt, "end": s.choice(["exit\r", "\x04"]),
            "tags": sorted(tags), "nontrivial": len(tags & set(KEYS)) > 2}
    if any(len(t) > 5 * case["cols"] for _, t, _, _, _ in lines): raise vf.Reject()
    return case


def width(t): return sum(term.width(c) for c in t)


def run(case, ctx):
    for f in FILES: ctx.put(f, "")
    env = dict(ctx.env, TERM="xterm")
    prompt = case["prompt"] if case["mode"] == "setp" else case["prompt"].strip() or ">"
    if case["mode"] == "setp":
        # the parameters of SET /P lose their trailing blanks
        ctx.put("../log", "")
        ctx.put("../s.bat", "@echo off\n" + "".join('set v=\nset /p "v=%s"\necho [!v!]>>../log\n' % case["prompt"] for _ in case["lines"]))
        argv = [ctx.bin("pbat"), "../s.bat"]
    else: argv = [ctx.bin("pbat"), "/a:q", "/k", "prompt", prompt.replace(">", "$g")]
    se = term.Session(argv, env, ctx.cwd, case["rows"], case["cols"])
    want = term.Screen(case["rows"], case["cols"])
    judged = True
    marks = []
    lost = None
    try:
        for keys, t, plain, listed, pos in case["lines"]:
            st = se.prompt(6)
            if st != "ready":
                lost = "%s instead of asking for line %d (%r)" % ("the program ended" if st == "end" else "the program waits", len(marks), t)
                break
            marks.append(len(se.raw))
            se.type("".join(keys))
            judged = judged and plain
            if judged:
                # what is being edited, and the cursor
                p = prompt if case["mode"] == "setp" else "\r\n" + prompt
                want.feed((p + t[:pos]).encode())
                nxt = t[pos:pos + 1]
                at = (want.r + 1, 0) if want.pending or nxt and want.c + term.width(nxt) > want.cols else (want.r, want.c)
                want.feed(t[pos:].encode())
                a = [x for x in want.text()]
                while a and not a[-1]: a.pop()
                end = time.monotonic() + 4

                def shown():
                    b = se.scr.text()
                    while b and not b[-1]: b.pop()
                    return b == a and (se.scr.r, se.scr.c) == at and not se.scr.pending

                while not shown() and not se.eof and time.monotonic() < end: se.pump(end - time.monotonic())
                if not shown():
                    lost = "line %d: after the keys %r the cursor is at row %d, column %d of %r, expected row %d, column %d of %r" % (len(marks) - 1, keys, se.scr.r, se.scr.c, se.scr.text()[-3:], at[0], at[1], want.text()[-3:])
                    break
                want.feed(b"\r\n" * (2 if want.pending else 1))
                if case["mode"] == "shell": want.feed((t[5:] + "\r\n").encode())
            se.type("\r")
        else:
            if case["mode"] == "shell":
                st = se.prompt(6)
                if st != "ready": lost = "%s after the last line" % st
                else: se.type(case["end"])
    finally:
        rc = se.close(8)
    if lost: return lost + "; the screen: %r" % se.scr.text()[-6:]
    if rc is None: return "the program did not end"
    if rc: return "exit status %r" % rc
    exp = [t for _, t, _, _, _ in case["lines"]]
    if case["mode"] == "setp":
        try:
            with open(os.path.join(ctx.cwd, "..", "log"), "rb") as f: got = vf.b2s(f.read()).split("\n")[:-1]
        except OSError:
            return "nothing was read; screen %r" % se.scr.text()[-6:]
        for i, t in enumerate(exp):
            if i >= len(got) or got[i] != "[" + t + "]": return "line %d: keys %r give %r, expected %r" % (i, case["lines"][i][0], got[i:i + 1], "[" + t + "]")
        if len(got) != len(exp): return "%d lines were read" % len(got)
    # what was listed
    marks.append(len(se.raw))
    for i, (_, _, _, listed, _) in enumerate(case["lines"]):
        seen = vf.b2s(se.raw[marks[i]:marks[i + 1]])
        for x in listed:
            if x not in seen: return "line %d: %r is not among the completions: %r" % (i, x, seen[:500])
    # the screen
    if case["mode"] == "shell": want.feed(("\r\n" + prompt + (case["end"][:-1] if len(case["end"]) > 1 else "") + "\r\n").encode())
    if se.scr.odd: return "the terminal gets %r" % se.scr.odd
    if judged:
        a, b = want.text(), se.scr.text()
        while a and not a[-1]: a.pop()
        while b and not b[-1]: b.pop()
        if case["mode"] == "shell" and case["end"] == "\x04" and len(b) < len(a): a = a[:len(b)]
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return "row %d of the screen shows %r, expected %r" % (i, b[max(0, i - 1):i + 2], a[max(0, i - 1):i + 2])
    return None


# ------------------------------------------- terminals without an editor

def gen_dumb(s):
    lines = []
    for _ in range(s.rand(1, 5)):
        keys, b = [], []
        for _ in range(s.rand(0, 12)):
            # the terminal itself knows of erasing
            if s.bool(15) and b:
                b.pop()
                keys.append("\x7f")
            else:
                c = s.choice([x for x in SAFE if len(x.encode()) == 1])
                b.append(c)
                keys.append(c)
        lines.append(["".join(keys), "".join(b)])
    return {"term": s.choice(["dumb", "cons25", "emacs"]), "shell": s.bool(), "lines": lines, "prompt": s.choice([":>", "p>", "number_one>"]), "nontrivial": any(l for l, _ in lines)}


def run_dumb(case, ctx):
    env = dict(ctx.env, TERM=case["term"])
    p = case["prompt"]
    if case["shell"]: argv = [ctx.bin("pbat"), "/a:q", "/k", "prompt", p.replace(">", "$g")]
    else:
        ctx.put("../s.bat", "@echo off\n" + "".join('set v=\nset /p "v=%s"\necho [!v!]\n' % p for _ in case["lines"]))
        argv = [ctx.bin("pbat"), "../s.bat"]
    se = term.Session(argv, env, ctx.cwd, 60, 80)
    rows = []
    lost = None
    try:
        for i, (k, t) in enumerate(case["lines"] + ([["exit", "exit"]] if case["shell"] else [])):
            end = time.monotonic() + 6
            rows += ["", p] if case["shell"] else [p]

            def ready():
                b = se.scr.text()
                return len(b) == len(rows) and b[-1] == p

            while not ready() and not se.eof and time.monotonic() < end: se.pump(end - time.monotonic())
            if not ready():
                lost = "line %d: the screen shows %r, expected %r" % (i, se.scr.text()[-4:], rows[-4:])
                break
            last = i == len(case["lines"])
            se.type(("echo [" + k + "]" if case["shell"] and not last else k) + "\r")
            rows[-1] = p + ("echo [" + t + "]" if case["shell"] and not last else t)
            rows[-1] = rows[-1].rstrip()
            if not last: rows.append("[" + t + "]")
    finally:
        rc = se.close(8)
    if lost: return lost
    if rc: return "exit status %r" % rc
    got = se.scr.text()
    while got and not got[-1]: got.pop()
    while rows and not rows[-1]: rows.pop()
    if got != rows: return "the screen shows %r, expected %r" % (got, rows)
    return None


FAMS = [vf.Family("dumb", gen_dumb, run_dumb, 500, 8000), vf.Family("setp", lambda s: gen(s, "setp"), run, 2500, 40000), vf.Family("shell", lambda s: gen(s, "shell"), run, 2500, 40000)]

if __name__ == "__main__":
    sys.exit(vf.main("P36", FAMS, rule="at least three kinds of keys besides plain characters are typed"))
