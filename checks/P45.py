"""HLP: the manual is built from its sources, and the page asked for is shown."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

WORDS = ["set", "copy", "quick", "start", "guide", "command", "cd", "and", "Files", "list", "(v2)", "/a", "ab", "b", "100", "%cd%", "it's", "a,b", "x-y", "m;n", "c:d"]
BODY = ["one", "two", "three", "the {em} phasis", "{link|set}", "caf\u00e9", "words", "a longer_word-with-many-letters", "(x)", "100%"]
QUERY = ["set", "co", "quick start", "SET", "cd", "a", "nosuch", "command", "b", "guide", "Quick", "txt", "list", "zz", "100", "ab b"]


def gen_page(s, accents):
    title = " ".join(s.choice(WORDS) for _ in range(s.rand(1, 4)))
    src = "# a comment\n" if s.bool(30) else ""
    src += "{{%s}}\n\n" % title
    for _ in range(s.rand(0, 4)):
        k = s.weighted([(4, "par"), (2, "title"), (2, "code"), (1, "list")])
        t = " ".join(s.choice(BODY) for _ in range(s.rand(1, 12)))
        if not accents:
            t = t.replace("\u00e9", "e")
        src += {"par": "%s\n\n", "title": "{{{%s}}}\n\n", "code": "${%s}\n\n", "list": "- %s\n\n"}[k] % (re.sub(r"[{}|]", "", t) if k in ("title", "code") else t)
    return title, src


def gen(s):
    accents = s.bool(60)
    langs = {}
    for l in ["en_US", "fr_FR"][:s.rand(1, 2)]:
        pages = {}
        for _ in range(s.weighted([(6, s.rand(1, 5)), (1, s.rand(6, 15))])):
            name = s.choice(["", "", "", "", "spec/", "deep/er/"]) + s.choice(["set", "copy", "cd", "if", "p_q", "guide", "commands", "a.b", "x1"]) + ".tea"
            pages[name] = gen_page(s, accents)
        langs[l] = pages
    conf = {"mode": s.choice(["txt", "ansi", "html"]), "locale": s.choice(sorted(langs)), "charset": s.weighted([(4, "UTF-8"), (1, "utf-8"), (1, "ISO-8859-1")]), "how": s.choice(["file", "dialogue"])}
    if conf["how"] == "dialogue":
        wrong = [s.choice(["xx", "HTM", "txt2"]) for _ in range(s.rand(0, 2))]
        conf["answers"] = wrong + [s.choice([conf["mode"]] + ([""] if conf["mode"] == "html" else []))] + ["no_NO"] * s.rand(0, 1) + [s.choice([conf["locale"]] + ([""] if conf["locale"] == "en_US" else []))]
        conf["answers"] += ["" if conf["charset"] == "UTF-8" and s.bool() else conf["charset"], s.choice(["y", "Y"])]
    steps = []
    for _ in range(s.rand(1, 6)):
        k = s.weighted([(8, "query"), (2, "list"), (1, "build"), (1, "lang"), (1, "remove"), (1, "change"), (1, "none")])
        if k == "query":
            steps.append([k, s.choice(QUERY), [s.choice(["x", "0", "99", "1", "2", "3", "q", "Q"]) for _ in range(s.rand(0, 3))] + [s.choice(["1", "q"])], s.choice(["hlp", "help", "HELP"])])
        elif k == "lang":
            steps.append([k, s.choice(sorted(langs))])
        elif k in ("remove", "change"):
            l = s.choice(sorted(langs))
            steps.append([k, l, s.choice(sorted(langs[l])), gen_page(s, accents)])
        else:
            steps.append([k])
    return {"langs": langs, "conf": conf, "steps": steps, "prg": s.choice(["more", "type"]), "nontrivial": any(x[0] == "query" for x in steps), "tags": sorted({x[0] for x in steps} | {conf["mode"], conf["how"]})}


def convert(ctx, f, kind, title=""):
    """what TEA makes of a page, called directly"""
    o = os.path.join(ctx.cwd, "direct")
    d = os.path.join(ctx.cwd, "pb/share/pbat/hlp/")
    a = {"txt": ["/O:TEXT-PLAIN"], "ansi": ["/O:TEXT-ANSI"], "html": ["/O:html", "/M", d + "meta", "/H", d + "header", "/F", d + "footer", "/T", "The Dos9 Project :: "]}[kind]
    r = ctx.exec([ctx.bin("full/cmd/tea"), d + f, o, "/E:UTF-8"] + a)
    if r.rc:
        raise RuntimeError("tea fails on a page: %r" % r.err)
    with open(o, "rb") as fd:
        t = fd.read()
    os.unlink(o)
    return t


class Manual:
    def __init__(self, case, ctx):
        self.langs = {l: dict(p) for l, p in case["langs"].items()}
        self.conf, self.ctx, self.pages = case["conf"], ctx, None

    def build(self, lang):
        self.pages = {}
        for n in self.langs[lang]:
            e = {k: convert(self.ctx, lang + "/" + n, k) for k in ("txt", "ansi", "html")}
            e["title"] = vf.b2s(e["txt"].split(b"\n")[0])
            if self.conf["charset"].upper() != "UTF-8":
                for k in ("txt", "ansi"):
                    e[k] = e[k].decode("utf-8").encode(self.conf["charset"])
            self.pages[n[:-4]] = e

    def show(self, n):
        return self.pages[n][self.conf["mode"]]


def files(case, ctx):
    src = ctx.bin("full")
    pb = os.path.join(ctx.cwd, "pb")
    os.makedirs(pb + "/cmd")
    for f in ("pbat", "pBat_Auto.bat", "cmd/tea", "cmd/hlp.bat"):
        shutil.copy2(os.path.join(src, f), os.path.join(pb, f))
    for l, pages in case["langs"].items():
        for n, (t, x) in pages.items():
            ctx.put("pb/share/pbat/hlp/%s/%s" % (l, n), x)
    for n in ("meta", "header", "footer"):
        ctx.put("pb/share/pbat/hlp/" + n, "<!-- %s -->\n" % n)
    os.makedirs(ctx.cwd + "/home")
    os.makedirs(ctx.cwd + "/w")


def configure(case, ctx, hlp):
    c, prg = case["conf"], case["prg"] if case["conf"]["charset"].upper() == "UTF-8" else "type"
    f = "home/.pbat/hlp/hlp.conf.bat"
    if c["how"] == "file":
        ctx.put(f, "".join("set %s=%s\n" % x for x in (("mode", c["mode"]), ("locale", c["locale"]), ("charset", c["charset"]), ("html_prg", "type"), ("txt_prg", prg), ("ansi_prg", "type" if prg == "more" else prg), ("view_cmd", "!%mode%_prg!"))))
        return None
    r = hlp("hlp", ["/l"], "".join(x + "\n" for x in c["answers"]))
    if r.timeout:
        return "the configuration dialogue does not end"
    try:
        with open(os.path.join(ctx.cwd, f), newline="") as fd:
            t = fd.read()
    except OSError:
        return "no configuration was written: %r" % r.out[-300:]
    for k in ("mode", "locale", "charset"):
        if "set %s=%s\n" % (k, c[k]) not in t:
            return "%s=%s is not in the configuration written: %r" % (k, c[k], t)
    if "set txt_prg=more\n" not in t or "set view_cmd=!%mode%_prg!\n" not in t:
        return "wrong configuration written: %r" % t
    ctx.put(f, t.replace("=start\n", "=type\n").replace("set ansi_prg=more\n", "set ansi_prg=type\n").replace("=more\n", "=%s\n" % prg))


def run(case, ctx):
    files(case, ctx)
    w = ctx.cwd + "/w"

    def hlp(name, args, stdin=""):
        ctx.put("w/s.bat", "@echo off\n%s %%*\necho [%%errorlevel%%] %%cd%%\n" % name)
        return ctx.exec([ctx.cwd + "/pb/pbat", "s.bat"] + args, stdin=stdin, env={"HOME": ctx.cwd + "/home"}, cwd=w)

    bad = configure(case, ctx, hlp)
    if bad:
        return bad
    m = Manual(case, ctx)
    for n, st in enumerate(case["steps"]):
        bad = step(st, ctx, m, hlp)
        if bad:
            return "step %d %r: %s" % (n + 1, st, bad)


def step(st, ctx, m, hlp):
    k, end = st[0], lambda rc: b"[%d] %s/w\n" % (rc, ctx.cwd.encode())
    if k == "remove":
        if len(m.langs[st[1]]) > 1 and st[2] in m.langs[st[1]]:
            os.unlink(ctx.cwd + "/pb/share/pbat/hlp/%s/%s" % (st[1], st[2]))
            del m.langs[st[1]][st[2]]
        return None
    if k == "change":
        m.langs[st[1]][st[2]] = st[3]
        ctx.put("pb/share/pbat/hlp/%s/%s" % (st[1], st[2]), st[3][1])
        return None
    if k == "list" and m.pages is None:
        return None
    args, stdin = {"query": [st[1]] if k == "query" else [], "list": ["/l"], "build": ["/b"], "lang": ["/b"] + st[1:2], "none": []}[k], ""
    if k == "query":
        stdin = "".join(x + "\n" for x in st[2])
    r = hlp(st[3] if k == "query" else "hlp", args, stdin)
    if r.timeout:
        return "it does not end"
    out = r.out
    if k in ("build", "lang") or m.pages is None:
        m.build(st[1] if k == "lang" else m.conf["locale"])
        names = sorted(re.findall(r'Building "(.*)" :\n', vf.b2s(out)))
        if names != sorted(m.pages):
            return "the pages built are %r, expected %r: %r" % (names, sorted(m.pages), out[-1500:]+r.err[-300:])
        tree = {f: t for f, t in ctx.tree(ctx.cwd + "/home/.pbat/hlp").items() if t is not None and not f.endswith(".tmp") and f.split("/")[0] in ("txt", "ansi", "html")}
        exp = {"%s/%s.%s" % (x, p, x): e[x] for p, e in m.pages.items() for x in ("txt", "ansi", "html")}
        if tree != exp:
            f = sorted(x for x in set(tree) | set(exp) if tree.get(x) != exp.get(x))[0]
            return "page %s: %s" % (f, "not built" if f not in tree else "not expected" if f not in exp else vf.diff_text(exp[f], tree[f]))
        if k in ("build", "lang"):
            return None if r.rc == 0 else "status %r" % r.rc
        mark = b"HLP : Built with success\n"
        if mark not in out:
            return "the manual was not built at once: %r" % out[-300:]
        out = out[out.index(mark) + len(mark):]
    if r.err:
        return "error output %r" % r.err[:300]
    if k == "list":
        t = sorted(vf.b2s(out).split("\n"))
        exp = sorted([p["title"] for p in m.pages.values()] + [vf.b2s(end(0))[:-1], ""])
        return "the list is %r, expected %r" % (t, exp) if t != exp else None
    if k == "none":
        if "commands" in m.pages:
            exp = m.show("commands") + end(0)
        else:
            exp = b"Unable to find default manual page. Is the man page database really built ?\nIf not, try to compile it using the /b switch.\n" + end(1)
        return vf.diff_text(exp, out) if exp != out else None
    hits = [p for p in m.pages if st[1].lower() in m.pages[p]["title"].lower()]
    if not hits:
        exp = b'Error: no manual page available for "%s"\n\n' % st[1].encode() + end(1)
        return vf.diff_text(exp, out) if exp != out else None
    if len(hits) == 1:
        exp = m.show(hits[0]) + end(0)
        return vf.diff_text(exp, out) if exp != out else None
    head = 'Looking for manual page "%s"\n\nThere are many pages that match the name you gave.\nChoose the one you want to browse on the following menu:\n\n' % st[1]
    if not out.startswith(head.encode()):
        return "no menu: " + vf.diff_text(head, out)
    menu = re.findall(r"(?m)^\t(\d+)\.\t(.*)$", vf.b2s(out[len(head):]))[:len(hits)]
    if [x for x, y in menu] != [str(i + 1) for i in range(len(hits))] or sorted(y for x, y in menu) != sorted(m.pages[p]["title"] for p in hits):
        return "the menu is %r, expected %r" % (menu, [m.pages[p]["title"] for p in hits])
    for a in st[2]:
        if a.lower() == "q":
            exp = [b""]
            break
        if a.isdigit() and 0 < int(a) <= len(hits):
            exp = [m.show(p) for p in hits if m.pages[p]["title"] == menu[int(a) - 1][1]]
            break
    n = st[2].index(a) + 1
    ask = b"Your choice (either 'q' to quit or a number to select the page) : "
    rest = out[len(head) + sum(len(x) + len(vf.s2b(y)) + 4 - 1 + 1 for x, y in menu) + 1:]
    if rest not in [ask * n + e + end(0) for e in exp]:
        return "after the menu: " + vf.diff_text(ask * n + exp[0] + end(0), rest)


if __name__ == "__main__":
    sys.exit(vf.main("P45", [vf.Family("manual", gen, run, 1000, 20000)], rule="a page is asked for"))
