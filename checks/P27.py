"""TYPE copies bytes, MORE lays out lines: against reference implementations."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import posixpath, re
import vf

PIECES = ["a", "b", "word", " ", "é", "日本", "😀", "1", "-", ".", ",", "x y", "!", "%v%", "^", "&", "|", "<", ">", "\"", "\\", "(", ")", "\n", "\n", "\n\n"]
RAW = ["\0", "\x1a", "\r", "\r\n", "\x01", "\x7f", "\v", "\f", "\x1b", "\udcff", "\udc80", "\udcc3"]
MARK = "\n#SEP#\n"
EMARK = " \n#SEP# \n"


def content(s, raw):
    n = s.weighted([(1, 0), (3, 1), (4, 3), (5, 8), (3, 30), (1, 400)])
    t = "".join(s.choice(RAW if raw and s.bool(30) else PIECES) for _ in range(s.rand(n // 2, n)))
    if t and s.bool(15):
        reach = s.choice([1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 20000, 70000])
        t = s.choice(["a", "é", "a b\n", "\n"]) * (reach // s.choice([1, 2, 3])) + t
    return t


NAMES = ["f", "g x", "h.txt", "d/i.txt"]


def pick(s, k, names):
    """-> (arguments, the files they stand for, in order)"""
    q = lambda x: '"%s"' % x if " " in x or s.bool(15) else x
    dot = lambda x: s.choice(["", "", "./", "d/../"]) + x
    if k == "one": return [q(dot(names[0]))], names[:1]
    if k == "several":
        n = s.rand(2, 5)
        u = [s.choice(names) for _ in range(n)]
        return [q(dot(x)) for x in u], u
    if k == "wild":
        a = s.choice(["h*", "?.txt", "*.TXT", "d/*"])
        r = ["d/i.txt" if a == "d/*" else "h.txt"]
        if s.bool(50):
            x = s.choice(names)
            return ([a, q(x)], r + [x]) if s.bool(50) else ([q(x), a], [x] + r)
        return [a], r
    if k == "folder":
        a = s.choice([[q(names[0]), "d"], ["d", q(names[0])], ["d", q(names[0]), "e"]])
        return a, names[:1]
    if k == "missing":
        return s.choice([["nosuch"], [q(names[0]), "nosuch"], ["nosuch", q(names[0])], ["*.zip"]]), None
    if k == "locked": return ["locked"], None
    if k == "only folders": return s.choice([["d"], ["d", "e"]]), None
    return [], names[:1]


KINDS = [(5, "one"), (3, "stdin"), (3, "pipe"), (4, "several"), (2, "wild"), (1, "missing"), (1, "locked"), (1, "folder"), (1, "only folders")]


def gen_type(s):
    tags = set()
    files = {n: content(s, s.bool(60)) for n in NAMES}
    L, exp = ["@echo off"], []
    for i in range(s.rand(1, 4)):
        k = s.weighted(KINDS)
        tags.add(k)
        a, u = pick(s, k, s.shuffle(NAMES))
        cmd = " ".join([s.choice(["type", "TYPE"])] + a)
        if k == "stdin": cmd += ' < "%s"' % u[0]
        elif k == "pipe": cmd = 'type "%s" | %s' % (u[0], cmd)
        w = s.weighted([(5, ""), (2, "file"), (1, "append"), (1, "block")])
        if w == "file": cmd += " > o%d" % i
        elif w == "append": cmd = "echo first> o%d\n%s >> o%d" % (i, cmd, i)
        elif w == "block": cmd = "(\n%s\n)" % cmd
        L += [cmd, "echo." * 0 + "set r%d=%%errorlevel%%" % i, "echo.", "echo #SEP#"]
        L += ["echo. 1>&2", "echo #SEP# 1>&2"]
        data = None if u is None else "".join(files[x] for x in u)
        exp.append({"out": data, "to": w, "names": u if u and len(u) > 1 else []})
        if data and len(data) > 2: tags.add("data")
    L += ["echo [%s]" % " ".join("%%r%d%%" % i for i in range(len(exp)))]
    return {"script": "\n".join(L) + "\n", "files": files, "exp": exp, "tags": sorted(tags), "nontrivial": "data" in tags}


def put(case, ctx):
    for k, v in case["files"].items(): ctx.put(k, v)
    ctx.put("locked", "a\n", 0)
    os.mkdir(os.path.join(ctx.cwd, "e"))


def run_type(case, ctx):
    put(case, ctx)
    r = ctx.pbat(case["script"])
    if r.timeout: return "the program did not terminate"
    if r.rc: return "exit status %r, stderr %r" % (r.rc, vf.b2s(r.err[:300]))
    outs = vf.b2s(r.out)
    errs = vf.b2s(r.err)
    exps = ""
    for i, e in enumerate(case["exp"]):
        d = vf.b2s(vf.s2b(e["out"] or ""))
        exps += ("" if e["to"] in ("file", "append") else d) + MARK
        if e["to"] in ("file", "append"):
            p = os.path.join(ctx.cwd, "o%d" % i)
            got = vf.b2s(open(p, "rb").read()) if os.path.exists(p) else "<no file>"
            want = ("first\n" if e["to"] == "append" else "") + d
            if got != want: return "command %d wrote to its file: %s" % (i, vf.diff_text(want, got))
        m = errs.find(EMARK)
        if m < 0: return "stderr %r" % errs[:300]
        er, errs = errs[:m], errs[m + len(EMARK):]
        if e["out"] is None:
            if not er: return "command %d: no error is reported" % i
        else:
            got = [posixpath.normpath(l[11:]) if l.startswith("---------- ") else l for l in er.split("\n")[:-1]]
            if got != [posixpath.join(ctx.cwd, n) for n in e["names"]]: return "command %d: names shown on standard error %r, expected %r" % (i, got, e["names"])
    m = re.match(r"(?s)(.*)\[([-\d ]*)\]\n$", outs)
    if not m: return "stdout ends with %r" % outs[-200:]
    if m.group(1) != exps: return "stdout: " + vf.diff_text(exps, m.group(1))
    lv = m.group(2).split(" ")
    for i, e in enumerate(case["exp"]):
        if (lv[i] == "0") != (e["out"] is not None): return "command %d: error level %s" % (i, lv[i])
    return None


def units(t):
    return re.findall(r"(?s)\x1b\[[^@-~]*[@-~]|\x1b.|.", t)


def more(t, skip=0, tab=8, squeeze=False):
    """the display lines of t, laid out on 79 columns"""
    out, cur, col, blank, folded = [], "", 0, False, False
    if t == "": return ""
    us = units(t)
    i = 0
    lines = []          # [text, ended]
    while i < len(us):
        u = us[i]
        i += 1
        if u == "\n":
            if folded and col == 0 and cur == "":
                folded = False
                continue
            if col == 0 and cur == "":
                if blank and squeeze: continue
                blank = True
            else: blank = False
            lines.append([cur, True])
            cur, col, folded = "", 0, False
            continue
        if u[0] == "\x1b":
            cur += u            # takes no room
            folded = folded and cur == u
            if folded: raise vf.Reject()
            continue
        if u == "\t":
            n = tab - col % tab
            blank = False
            if col + n < 80:
                cur += " " * n
                col += n
            else:
                lines.append([cur, True])
                cur, col, folded = "", 0, False
                continue
        else:
            cur += u
            col += 1
            blank = False
        folded = False
        if col == 79:
            lines.append([cur, True])
            cur, col, folded = "", 0, True
    if cur: lines.append([cur, False])
    if folded: lines[-1][1] = False
    return "".join(l + ("\n" if e else "") for l, e in lines[skip:])


TEXT = ["a", "b", "word", " ", "é", "日本", "😀", "1", "-", ".", ",", "x y", "!", "%v%", "^", "&", "\"", "\\"]


def text(s):
    ls = []
    for _ in range(s.weighted([(1, 0), (3, 1), (5, 3), (4, 8), (1, 60)])):
        k = s.weighted([(3, "blank"), (6, "short"), (3, "edge"), (3, "tabs"), (1, "long"), (1, "esc")])
        if k == "blank": ls.append("")
        elif k == "short": ls.append("".join(s.choice(TEXT) for _ in range(s.rand(1, 6))))
        elif k == "long": ls.append("".join(s.choice(TEXT) for _ in range(s.rand(50, 300))))
        elif k == "edge":
            n = s.choice([77, 78, 79, 80, 81, 157, 158, 159, 237])
            ls.append((s.choice(["a", "é", "日", "ab", "aé", "😀"]) * n)[:n])
        elif k == "tabs": ls.append("".join(s.choice(["\t", "\t", "a", "é", "word", "0123456789" * s.rand(1, 7)]) for _ in range(s.rand(1, 12))))
        else: ls.append("".join(s.choice(["\x1b[1m", "\x1b[0;31m", "\x1b[m", "\x1b7", "a", "é", "b c"]) for _ in range(s.rand(1, 6))) + "z")
    t = "\n".join(ls)
    if t and s.bool(70): t += "\n"
    return t


def gen_more(s):
    tags = set()
    files = {n: text(s) for n in NAMES}
    L, exp = ["@echo off"], []
    for i in range(s.rand(1, 4)):
        k = s.weighted(KINDS)
        tags.add(k)
        a, u = pick(s, k, s.shuffle(NAMES))
        opt = {}
        sw = []
        if s.bool(30):
            opt["tab"] = s.choice([1, 2, 3, 4, 7, 8, 16])
            sw.append(s.choice(["/t%d", "/T%d", "/t:%d"]) % opt["tab"])
            tags.add("/t")
        if s.bool(30):
            opt["squeeze"] = True
            sw.append(s.choice(["/s", "/S"]))
            tags.add("/s")
        if s.bool(25):
            opt["skip"] = s.rand(0, 6)
            sw.append("+%d" % opt["skip"])
            tags.add("+n")
        for x in ("/e", "/c", "/p", "/E"):
            if s.bool(8): sw.append(x)
        sw = s.shuffle(sw)
        if k not in ("stdin", "pipe") and s.bool(5):
            sw.append(s.choice(["/t0", "/tx", "+y", "/t:", "/t-1"]))
            if sw[-1] == "/t:": sw[-1] = "/t:0"
            k, u = "bad", None
        cmd = " ".join([s.choice(["more", "MORE"])] + (sw + a))
        if k == "stdin": cmd += ' < "%s"' % u[0]
        elif k == "pipe": cmd = 'type "%s" | %s' % (u[0], cmd)
        L += [cmd, "set r%d=%%errorlevel%%" % i, "echo.", "echo #SEP#"]
        exp.append(None if u is None else "".join(more(files[x], **opt) for x in u))
        if u:
            t = "".join(files[x] for x in u)
            if "\t" in t: tags.add("tabs")
            if any(len(l) > 78 for l in t.split("\n")): tags.add("folded")
            if "\n\n" in t: tags.add("blank lines")
    L += ["echo [%s]" % " ".join("%%r%d%%" % i for i in range(len(exp)))]
    return {"script": "\n".join(L) + "\n", "files": files, "exp": exp, "tags": sorted(tags), "nontrivial": bool(tags & {"tabs", "folded", "blank lines"})}


def run_more(case, ctx):
    put(case, ctx)
    r = ctx.pbat(case["script"])
    if r.timeout: return "the program did not terminate"
    if r.rc: return "exit status %r, stderr %r" % (r.rc, vf.b2s(r.err[:300]))
    m = re.match(r"(?s)(.*)\[([-\d ]*)\]\n$", vf.b2s(r.out))
    if not m: return "stdout ends with %r" % r.out[-200:]
    want = "".join((e or "") + MARK for e in case["exp"])
    if m.group(1) != want: return "stdout: " + vf.diff_text(want, m.group(1))
    lv = m.group(2).split(" ")
    for i, e in enumerate(case["exp"]):
        if (lv[i] == "0") != (e is not None): return "command %d: error level %s" % (i, lv[i])
    if bool(r.err) != any(e is None for e in case["exp"]): return "stderr %r" % vf.b2s(r.err[:300])
    return None


def show(case):
    return "".join("%s: %r\n" % (k, v[:300]) for k, v in case["files"].items()) + case["script"]


FAMS = [vf.Family("type", gen_type, run_type, 12000, 150000, show=show),
        vf.Family("more", gen_more, run_more, 14000, 200000, show=show)]

if __name__ == "__main__":
    sys.exit(vf.main("P27", FAMS, rule="files which are not trivial (TYPE) or have tabs, blank lines or lines to fold (MORE)"))
