"""PAUSE, TIMEOUT and MORE wait for keys, take those and no others, and leave the terminal as it was."""
import os, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, term

KEYS = ["a", "Q", "5", " ", "\r", "\t", "\x7f", "\x01", "\x15", "%", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[H", "\x1b[F", "\x1b[2~", "\x1b[3~", "\x1b[5~", "\x1b[6~"]
LINES = ["x", "two words", "été", "a=b", "12", "日本"]


# -------------------------------------------------- PAUSE and TIMEOUT

def gen_keys(s):
    lines, ops, tags, subs = [], [], set(), []
    n = [0]
    ahead = [0]

    def step(out, depth, last):
        k = s.weighted([(6, "pause"), (2, "line"), (2, "stty"), (2, "time"), (1 if depth == 0 else 0, "block"), (1 if depth == 0 else 0, "call"), (1 if depth == 0 else 0, "for"), (1, "null")])
        if ahead[0]:
            # keys that were typed before are for the next PAUSE
            k = "pause"
        if k == "pause":
            n[0] += 1
            out += ["echo ^<%d^>" % n[0], s.choice(["pause", "PAUSE", "pause ", "Pause>nul"])]
            if ahead[0]:
                ahead[0] -= 1
                ops.append(["mark", n[0]])
            else:
                if s.bool(25):
                    ahead[0] = s.rand(1, 3)
                    tags.add("ahead")
                ops.append(["keys", n[0], "".join(s.choice(KEYS) for _ in range(1 + ahead[0]))])
            out.append(">>../log echo p%d !errorlevel!" % n[0])
            ops.append(["log", "p%d 0" % n[0]])
        elif k == "line":
            t = s.choice(LINES)
            tags.add("line")
            out += ["set v=", 'set /p "v=? "', ">>../log echo [!v!]"]
            ops.extend([["line", t], ["log", "[" + t + "]"]])
        elif k == "stty":
            tags.add("mode")
            out.append("stty -g>>../log")
            ops.append(["mode"])
        elif k == "time":
            tags.add("timeout")
            out += ["timeout " + s.choice(["", "/t ", "/nobreak ", "/T /NOBREAK "]) + s.choice(["0", "0.05", "0.1", "0.15"]), ">>../log echo t"]
            ops.append(["log", "t"])
        elif k == "null":
            # what is no terminal has no keys, and PAUSE does not wait for any
            tags.add("null")
            out += ["pause<../empty", ">>../log echo n"]
            ops.append(["log", "n"])
        elif k == "block":
            tags.add("block")
            out.append("if 1==1 (")
            for _ in range(s.rand(1, 3)): step(out, 1, False)
            while ahead[0]: step(out, 1, False)
            out.append(")")
        elif k == "call":
            tags.add("procedure")
            b = []
            for _ in range(s.rand(1, 3)): step(b, 1, False)
            subs.append(b)
            out.append("call :s%d" % len(subs))
        else:
            tags.add("for")
            n[0] += 1
            c = s.rand(1, 3)
            out += ["echo ^<%d^>" % n[0], "for /l %%%%i in (1,1,%d) do pause" % c, ">>../log echo f"]
            ops.append(["keys", n[0], "".join(s.choice(KEYS) for _ in range(c))])
            ops.append(["log", "f"])

    for _ in range(s.rand(1, 6)): step(lines, 0, False)
    while ahead[0]: step(lines, 0, True)
    end = s.weighted([(3, None), (2, "key"), (1, "nobreak"), (1, "forever")])
    if end:
        tags.add("end-" + end)
        lines += ["echo ^<end^>", {"key": "timeout " + s.choice(["", "/t "]) + s.choice(["40", "99.5"]), "nobreak": "timeout /nobreak 0.4", "forever": "timeout -1"}[end], ">>../log echo end"]
        ops.append(["end", end, s.choice(["a", " ", "\r", "\x1b[A"])])
        ops.append(["log", "end"])
    return {"lines": lines, "subs": subs, "ops": ops, "echo": "ahead" not in tags and "for" not in tags, "tags": sorted(tags), "nontrivial": sum(1 for o in ops if o[0] in ("keys", "line", "end")) > 1}


def run_keys(case, ctx):
    text = "@echo off\n" + "\n".join(case["lines"]) + "\n>>../log echo over\nstty -g>>../log\nexit /b 0\n"
    for i, b in enumerate(case["subs"]): text += ":s%d\n%s\ngoto:eof\n" % (i + 1, "\n".join(b))
    ctx.put("../s.bat", text.replace("%%%%", "%%"))
    ctx.put("../log", "")
    ctx.put("../empty", "")
    log = os.path.join(ctx.root, "log")

    def read():
        with open(log, "rb") as f: return vf.b2s(f.read()).splitlines()

    want, lost = [], None
    se = term.Session([ctx.bin("pbat"), "../s.bat"], dict(ctx.env, TERM="xterm"), ctx.cwd, 24, 80, term.Canvas, case["echo"])
    try:
        for o in case["ops"]:
            if o[0] == "log": want.append(o[1])
            elif o[0] == "mode": want.append("mode")
            elif o[0] in ("keys", "mark", "end"):
                mark = "<%s>" % (o[1] if o[0] != "end" else "end")
                if not se.until(mark.encode(), 6):
                    lost = "%s and %s is not reached" % ("the program ended" if se.eof else "the program waits", mark)
                    break
                if o[0] == "mark": continue
                if o[0] == "keys":
                    if not se.awaits_key(6):
                        lost = "no key is awaited at " + mark
                        break
                    se.pump(0.01)
                    if len(read()) != len(want):
                        lost = "the program does not wait at %s: it went on to %r" % (mark, read()[-1:])
                        break
                    se.type(o[2])
                    continue
                t = time.monotonic()
                se.pump(0.02)
                se.type(o[2])
                while len(read()) <= len(want) and time.monotonic() < t + 15 and not se.eof: se.pump(0.05)
                t = time.monotonic() - t
                if len(read()) <= len(want): lost = "the key does not end the TIMEOUT"
                # the time began a little before the marker was seen
                elif o[1] == "nobreak" and t < 0.25: lost = "TIMEOUT /NOBREAK 0.4 ended after %.2f s" % t
                if lost: break
            elif o[0] == "line":
                st = se.prompt(6)
                if st != "ready":
                    lost = "%s instead of asking for a line" % st
                    break
                if len(read()) != len(want):
                    lost = "a line is asked for after %r" % read()[-1:]
                    break
                se.type(o[1] + "\r")
        if not lost:
            while not se.eof and se.pump(6): pass
            after = se.mode()
    finally:
        rc = se.close(4)
    got = read()
    if lost: return lost + "; done so far: %r" % got
    if rc is None: return "the program did not end: %r" % got
    if rc: return "exit status %r" % rc
    modes = set(x for x in got if re.fullmatch("[0-9a-f]+(:[0-9a-f]+)+", x))
    if len(modes) != 1: return "the terminal has the modes %r" % sorted(modes)
    got = ["mode" if x in modes else x for x in got]
    want += ["over", "mode"]
    if got != want: return "the script did %r, expected %r" % (got, want)
    if after and after != se.initial: return "the mode of the terminal was %r and is %r" % (se.initial, after)


# --------------------------------------------------- the keys of a pipe

def gen_pipe(s):
    mode = s.choice(["file", "stdin"])
    data = "" if mode == "stdin" else "".join(s.choice(["a", "b", "x", "1", " ", "\n", "\n", "é"]) for _ in range(s.rand(0, 14)))
    lines, want, left, tags = [], [], data.encode(), {mode}
    for i in range(s.rand(1, 6)):
        k = s.weighted([(4, "pause"), (4, "line"), (2, "both"), (1, "file")])
        tags.add(k)
        if k == "file":
            # another input, as long as the block lasts
            lines.append("(pause>nul&set /p v=)<../in")
            lines.append(">>../log echo [!v!]")
            want.append("[bc]")
        elif k == "pause":
            lines.append("pause" + s.choice(["", ">nul"]))
            if mode == "stdin": lines[-1] += "\n" + s.choice(["a", "1", "e", "%"]) + "echo p>>../log"
            else:
                left = left[1:]
                lines.append("echo p>>../log")
            want.append("p")
        elif mode == "stdin":
            t = s.choice(["", "hello", "a b", "é", "echo x", "a=b", "/?"])
            lines += ["set v="] + (["set /p v=\n" + t] if k == "line" else ["(pause>nul&set /p v=)\nx" + t]) + [">>../log echo [!v!]"]
            want.append("[" + t + "]")
        else:
            if k == "both": left = left[1:]
            l, _, left = left.partition(b"\n")
            t = l.decode("utf-8", "surrogateescape")
            lines += ["set v="] + (["pause>nul"] if k == "both" else []) + ["set /p v=", ">>../log echo [!v!]"]
            want.append("[" + t + "]")
    return {"mode": mode, "lines": lines, "want": want, "data": data, "tags": sorted(tags), "nontrivial": len(set(want)) > 1 and (mode == "stdin" or len(data) > 2)}


def run_pipe(case, ctx):
    ctx.put("../log", "")
    ctx.put("../in", "abc\nd\n")
    text = "\n".join(case["lines"]) + "\nexit /b 0\n"
    if case["mode"] == "file": r = ctx.pbat("@echo off\n" + text, stdin=case["data"])
    else: r = ctx.exec([ctx.bin("pbat"), "/a:q", "/a:e"], stdin=text)
    if r.rc: return "exit status %r" % r.rc
    with open(os.path.join(ctx.root, "log"), "rb") as f: got = vf.b2s(f.read()).splitlines()
    if got != case["want"]: return "got %r, expected %r" % (got, case["want"])


# ------------------------------------------------------- the time itself

def gen_time(s):
    ts = [s.choice(["0.1", "0.15", "0.25", "0.3", "0.40", "0.07"]) for _ in range(s.rand(1, 3))]
    return {"lines": ["timeout %s%s%s" % (s.choice(["", "/t ", "/T "]), s.choice(["", "/nobreak ", "/NoBreak "]), t) for t in ts], "time": sum(float(t) for t in ts), "nontrivial": len(ts) > 1}


def run_time(case, ctx):
    t = time.monotonic()
    r = ctx.pbat("@echo off\n" + "\n".join(case["lines"]) + "\necho over !errorlevel!\nexit /b 0\n")
    t = time.monotonic() - t
    # the parts of a second are counted in milliseconds, cut off
    if t < case["time"] - 0.02: return "%.2f s are over after %.2f s" % (case["time"], t)
    return vf.expect_run(r, "over 0\n", err_empty=False)


# ------------------------------------------------------------------ MORE

def gen_file(s):
    n = s.weighted([(1, 0), (2, s.rand(1, 5)), (2, s.rand(20, 26)), (3, s.rand(27, 120))])
    wide = s.bool(30)
    ls = []
    for i in range(n):
        k = s.weighted([(6, "num"), (1, "blank"), (1, "tab"), (1 if wide else 0, "long")])
        ls.append("%d." % i if k == "num" else "" if k == "blank" else "%d\tt\tu" % i if k == "tab" else ("%d-" % i) + "é" * s.choice([60, 76, 90, 200]))
    return "\n".join(ls) + ("\n" if ls and (s.bool(80) or len(ls[-1]) > 20) else "")


def gen_more(s):
    files = [gen_file(s) for _ in range(s.weighted([(5, 1), (2, 2), (1, 3)]))]
    how = s.weighted([(5, "args"), (1, "input"), (1, "pipe")]) if len(files) == 1 else "args"
    opts = {"c": s.bool(15), "s": s.bool(20), "t": s.choice([0, 0, 0, 4, 3])}
    keys = []
    for _ in range(s.rand(0, 9)):
        k = s.weighted([(4, "page"), (4, "one"), (4, "P"), (3, "S"), (1, "F"), (1, "Q"), (1, "help"), (2, "junk")])
        n = s.weighted([(5, s.rand(1, 9)), (2, s.rand(10, 60)), (1, 0)])
        keys.append({"page": ["page", "\r", 23], "one": ["one", " ", 1], "P": ["P", s.choice("pP") + "%d\r" % n, n], "S": ["S", s.choice("sS") + "%d\r" % n, n],
                     "F": ["F", s.choice("fF"), 0], "Q": ["Q", s.choice("qQ"), 0], "help": ["help", "?" + s.choice("xq "), 0], "junk": ["junk", s.choice(["x", "z", "7", "\t", "xyz"]), 0]}[k])
    return {"files": files, "how": how, "opts": opts, "keys": keys, "tags": sorted(set(k[0] for k in keys) | {how} | {o for o in opts if opts[o]}), "nontrivial": len(keys) > 2 and any(f.count("\n") > 23 for f in files)}


def layout(t, tab, squeeze):
    """the lines of a terminal of 79 columns"""
    out = []
    blank = False
    for l, end in re.findall(r"([^\n]*)(\n|$)", t)[:-1] if t.endswith("\n") else [x for x in re.findall(r"([^\n]*)(\n|$)", t) if x != ("", "")]:
        if not l:
            if blank and squeeze: continue
            blank = True
            out.append("\n")
            continue
        blank = False
        x = ""
        for c in l: x += " " * (tab - len(x) % tab) if c == "\t" else c
        while len(x) >= 79:
            out.append(x[:79] + "\n")
            x = x[79:]
        if x: out.append(x + end)
    return out


ASK = "-- More --"
WIPE = "\x1b[1K\x1b[1G"


def run_more(case, ctx):
    for i, f in enumerate(case["files"]): ctx.put("f%d" % i, f)
    o = case["opts"]
    args = (" /c" if o["c"] else "") + (" /s" if o["s"] else "") + (" /t:%d" % o["t"] if o["t"] else "")
    names = ["f%d" % i for i in range(len(case["files"]))]
    cmd = {"args": "more%s %s" % (args, " ".join(names)), "input": "more%s<f0" % args, "pipe": "type f0|more" + args}[case["how"]]
    ctx.put("../s.bat", "@echo off\n%s\necho [END]\nexit /b 0\n" % cmd)
    files = [layout(f, o["t"] or 8, o["s"]) for f in case["files"]]
    se = term.Session([ctx.bin("pbat"), "../s.bat"], dict(ctx.env, TERM="xterm"), ctx.cwd, 24, 100, term.Canvas, False)
    cur, p = 0, 0           # what is next
    want = 23               # so many lines are due
    least = 23
    keys = list(case["keys"])
    seen, lost, step, quit = 0, None, 0, False
    try:
        while True:
            # up to the next question, or the end
            end = time.monotonic() + 6
            while True:
                t = vf.b2s(se.raw)[seen:]
                m = re.search(r"-- More --|\[END\]", t)
                if m or se.eof or time.monotonic() > end: break
                se.pump(1)
            if not m:
                lost = "%s after %r" % ("the program ended" if se.eof else "the program waits", t[-60:])
                break
            shown = t[:m.start()]
            seen += m.end()
            if step == 0 and cur == 0: shown = re.sub(r"^(\x1b\[[0-9;]*m|\x1b\]0;[^\x07]*\x07)*", "", shown)
            shown = shown.replace("\r\n", "\n")
            over = m.group(0) != ASK
            shown = shown.replace("\x1b[H\x1b[2J", "\x0c").replace(WIPE, "\x0b").lstrip("\x0b")
            where = "answer %d %r: " % (step, case["keys"][step - 1][1] if 0 < step <= len(case["keys"]) else "\\r")
            if not o["c"] and "\x0c" in shown:
                lost = where + "the screen is cleared"
                break
            pages = shown.split("\x0c")
            if o["c"] and pages[0] == "": pages = pages[1:] or [""]
            body = "".join(pages)
            if quit:
                if body or not over: lost = where + "after quitting %r is shown" % (body or ASK)
                break
            # the rest of this file, and the files that follow
            text = body
            while True:
                ls = files[cur][p:p + want] if cur < len(files) else []
                due = "".join(ls)
                if not text.startswith(due):
                    lost = where + "%r is shown, expected %r" % (text[:200], due[:200])
                    break
                text = text[len(due):]
                p += len(ls)
                if cur < len(files) and p >= len(files[cur]) and (text or over):
                    cur, p, want = cur + 1, 0, 23
                    if cur >= len(files):
                        if text: lost = where + "%r is shown after the end" % text[:200]
                        break
                    continue
                if text or over:
                    if text or cur < len(files): lost = where + ("%r is shown, expected %r" % (body[:200], "".join(ls)[:200]) if text else "the end comes early")
                break
            if lost or over: break
            if not se.awaits_key(6):
                lost = where + "no key is awaited"
                break
            # answers until something is shown
            step += 1
            if step > 60:
                lost = "there is no end"
                break
            kind, k, n = keys.pop(0) if keys else ["page", "\r", 23]
            se.type(k)
            if kind == "junk":
                # nothing happens: the next answer tells
                case_next = keys.pop(0) if keys else ["page", "\r", 23]
                while case_next[0] in ("junk", "help"): case_next = keys.pop(0) if keys else ["page", "\r", 23]
                se.pump(0.005)
                kind, k, n = case_next
                se.type(k)
            if kind == "help":
                m = None
                end = time.monotonic() + 6
                while not m and not se.eof and time.monotonic() < end:
                    t = vf.b2s(se.raw)[seen:]
                    m = re.match(r"\x1b\[1K\x1b\[1G(.+)\x1b\[1K\x1b\[1G-- More --", t)
                    if not m: se.pump(1)
                if not m or not all(x in m.group(1) for x in ("Q", "Sn", "Pn")):
                    lost = "no help is shown: %r" % t
                    break
                seen += m.end()
                kind, k, n = ["page", "\r", 23]
                if not se.awaits_key(6):
                    lost = "no key is awaited after the help"
                    break
                se.type(k)
            want = 23 if o["c"] else n
            if kind == "S":
                p = min(len(files[cur]), p + n)
                want = 23
            elif kind == "F":
                cur, p, want = cur + 1, 0, 23
            elif kind == "Q": quit = True
        if not lost:
            while not se.eof and se.pump(6): pass
            after = se.mode()
    finally:
        rc = se.close(4)
    if lost: return lost
    if rc is None: return "the program did not end"
    if rc: return "exit status %r" % rc
    if se.scr.odd: return "the terminal gets %r" % se.scr.odd
    if any(ASK in l for l in se.scr.text()): return "the question of MORE stays on the screen: %r" % [l for l in se.scr.text() if ASK in l][:2]
    if after and after != se.initial: return "the mode of the terminal was %r and is %r" % (se.initial, after)


FAMS = [vf.Family("keys", gen_keys, run_keys, 900, 12000), vf.Family("time", gen_time, run_time, 80, 800), vf.Family("pipe", gen_pipe, run_pipe, 600, 10000), vf.Family("more", gen_more, run_more, 1200, 20000)]

if __name__ == "__main__":
    sys.exit(vf.main("P44", FAMS, rule="at least two waits for keys; a page is full and three answers are given; several inputs from a pipe"))
