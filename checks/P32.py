"""Messages come from the catalogue of the language in use; nothing else depends on it."""
import os, struct, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "lib"), HERE]
import build, vf
vf.MAX_MEMORY = 0
from P35 import families_of

LOCALES = {"fr_FR.UTF-8": "fr", "tr_TR.UTF-8": "tr", "es_ES.UTF-8": "es", "eo.UTF-8": "eo", "ca_ES.UTF-8@valencia": "ca"}
WINDOWS = {"French": "fr", "Spanish": "es", "German": "de", "Dutch": "nl", "English": "en", "Portuguese": "pt", "Japanese": "ja", "Chinese": "zh", "Turkish": "tr", "Catalan": "ca", "Hindi": "hi",
           "Italian": "it", "Russian": "ru", "Greek": "el", "Basque": "eu", "Abkhazian": "ab", "Zulu": "zu", "Kikuyu": "ki", "Ossetian": "os", "Uighur": "ug", "Czech": "cs", "Polish": "pl", "Vietnamese": "vi"}


def setup(base, bins):
    b = os.path.join(base, "bin")
    loc = os.path.join(base, "loc")
    os.mkdir(loc)
    ps = [subprocess.Popen(["gcc", "-fsanitize=address", "-g", "-O1", "-w", "-I" + os.path.join(build.REPO, "microgettext"), "-o", os.path.join(b, "mgt"), os.path.join(vf.VERIF, "lib", "mgt.c")])]
    for l in LOCALES:
        src = l.replace(".UTF-8", "")
        ps.append(subprocess.Popen(["localedef", "--no-archive", "-c", "-i", src, "-f", "UTF-8", os.path.join(loc, l)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps:
        p.wait()
    if ps[0].returncode:
        raise RuntimeError("mgt does not build")


def mo(cat, s=None):
    """a catalogue; its tables may lie anywhere"""
    items = sorted((k.encode("utf-8", "surrogateescape"), v.encode("utf-8", "surrogateescape")) for k, v in cat.items())
    n = len(items)
    o = 28
    ids = o
    trs = o + 8 * n
    pos = trs + 8 * n
    blob, t1, t2 = b"", b"", b""
    for k, _ in items:
        t1 += struct.pack("<II", len(k), pos + len(blob))
        blob += k + b"\0"
    for _, v in items:
        t2 += struct.pack("<II", len(v), pos + len(blob))
        blob += v + b"\0"
    return struct.pack("<IIIIIII", 0x950412de, 0, n, ids, trs, 0, pos) + t1 + t2 + blob


# --- the library ---------------------------------------------------------

def gen_name(s):
    k = s.weighted([(5, "posix"), (3, "windows"), (1, "C"), (1, "odd")])
    if k == "posix":
        l = s.choice(["fr", "es", "tr", "de", "nl", "eo", "ast", "zh"])
        return l + s.choice(["", "_FR", "_BE", "_419"]) + s.choice(["", ".UTF-8", ".utf8", ".ISO-8859-1"]) + s.choice(["", "", "@euro"])
    if k == "windows":
        w = s.choice(sorted(WINDOWS))
        return s.choice([w, w, w.lower(), w.upper()]) + s.choice(["", "_Somewhere.1252", "_X", ".65001"])
    return "C" if k == "C" else s.choice(["x", "french2", "Spanishes", "A", "zz_ZZ", "zulus"])


def lang(name):
    for ch in "_.@":
        name = name.split(ch)[0]
    name = name.lower()
    return {k.lower(): v for k, v in WINDOWS.items()}.get(name, name)


MSGS = ["a", "b", "ab", "abc", "B", "Error : \"%s\" was unexpected.", "line\nline\n", "é", "z", "aa", "A", "~", " ", "x" * 300, "b c", "YES", "\x01"]


def gen_lookup(s):
    doms = ["pbat", "d", "dd"]
    dirs = ["L", "M/n", "L/x"]
    names = [gen_name(s) for _ in range(s.rand(1, 3))]
    langs = sorted({lang(n) for n in names})
    files = {}
    for _ in range(s.rand(2, 14)):
        cat = {m: s.choice(["", "T:", "é"]) + s.text("pqr\n%é", 1, 6) for m in (s.subset(MSGS) if s.bool(50) else MSGS)}
        if s.bool(80):
            cat[""] = "Content-Type: text/plain; charset=UTF-8\n"
        d = s.choice(dirs + [""])
        files[(d + "/" if d else "") + s.choice(langs[:2]) + "/" + s.weighted([(6, "LC_MESSAGES"), (1, "LC_TIME"), (1, "LC_NUMERIC")]) + "/" + s.choice(doms) + ".mo"] = cat
    ops = [["Lm", s.choice(names)]] + [["B", d, s.choice(dirs)] for d in s.subset(doms)]
    for _ in range(s.rand(4, 25)):
        k = s.weighted([(3, "L"), (3, "B"), (2, "T"), (6, "G"), (6, "D"), (2, "C")])
        if k == "L":
            ops.append(["L" + s.weighted([(4, "m"), (1, "t"), (1, "n")]), s.choice(names)])
        elif k == "B":
            ops.append(["B", s.choice(doms), s.choice(dirs)])
        elif k == "T":
            ops.append(["T", s.choice(doms)])
        elif k == "G":
            ops.append(["G", s.choice(MSGS)])
        elif k == "D":
            ops.append(["D", s.choice(doms), s.choice(MSGS)])
        else:
            # a category without locale is left aside
            c = s.choice("mtn")
            ops.append(["C" + (c if any(o[0] == "L" + c for o in ops) else "m"), s.choice(doms), s.choice(MSGS)])
    return {"files": [[k, files[k]] for k in sorted(files)], "ops": ops, "nontrivial": any(lookup_model(files, ops, hit=True)), "tags": sorted({o[0] for o in ops})}


def lookup_model(files, ops, hit=False):
    loc = {"m": "C", "t": "C", "n": "C"}
    base, dom = {}, ""
    out = []

    def get(d, m, cat="m"):
        if cat != "m" and not loc[cat]:
            return m
        p = "%s/%s/%s.mo" % (lang(loc[cat]), {"m": "LC_MESSAGES", "t": "LC_TIME", "n": "LC_NUMERIC"}[cat], d)
        if d in base:
            p = base[d] + "/" + p
        r = files.get(p, {}).get(m, m)
        hits.append(r != m)
        return r
    hits = []
    loc = {"m": None, "t": "", "n": ""}
    for o in ops:
        k = o[0]
        if k[0] == "L":
            loc[k[1]] = o[1]
        elif k == "B":
            base[o[1]] = o[2]
            out.append(o[2])
        elif k == "T":
            dom = o[1]
            out.append(dom)
        elif k == "G":
            out.append(get(dom or "C", o[1]))
        elif k == "D":
            out.append(get(o[1], o[2]))
        else:
            out.append(get(o[1], o[2], k[1]))
    return hits if hit else out


def ask(ctx, ops):
    hx = lambda x: x.encode("utf-8", "surrogateescape").hex()
    r = ctx.exec([ctx.bin("mgt")], stdin="".join(" ".join([o[0]] + [hx(x) for x in o[1:]]) + "\n" for o in ops), env={"ASAN_OPTIONS": "detect_leaks=0:log_path=%s/mgt" % ctx.root})
    rep = [f for f in os.listdir(ctx.root) if f.startswith("mgt.")]
    txt = ""
    for f in rep:
        with open(os.path.join(ctx.root, f), errors="replace") as fd:
            txt += fd.read()[:1500]
        os.unlink(os.path.join(ctx.root, f))
    if txt:
        return None, "memory error: " + txt
    if r.rc:
        return None, "the library ended with status %d" % r.rc
    return [bytes.fromhex(x).decode("utf-8", "surrogateescape") for x in r.out.decode().split("\n")[:-1]], None


def run_lookup(case, ctx):
    files = dict((k, v) for k, v in case["files"])
    for k, v in files.items():
        ctx.put(k, mo(v))
    got, bad = ask(ctx, case["ops"])
    if bad:
        return bad
    exp = lookup_model(files, case["ops"])
    if got != exp:
        for i, (a, b) in enumerate(zip(exp, got)):
            if a != b:
                return "result %d of the operations: expected %r, got %r" % (i, a, b)
        return "%d results instead of %d" % (len(got), len(exp))


def gen_damaged(s):
    cat = {m: "T" + s.text("pqr%", 0, 8) for m in s.subset(MSGS) or ["a"]}
    data = bytearray(mo(cat))
    k = s.weighted([(3, "cut"), (4, "byte"), (4, "word"), (1, "tail"), (1, "junk"), (1, "swap")])
    if k == "cut":
        data = data[:s.rand(0, len(data) - 1)]
    elif k == "byte":
        for _ in range(s.rand(1, 4)):
            data[s.rand(0, min(len(data), 200) - 1)] = s.rand(0, 255)
    elif k == "word":
        for _ in range(s.rand(1, 2)):
            o = 4 * s.rand(0, min(len(data) // 4, 40) - 1)
            data[o:o + 4] = struct.pack("<I", s.choice([0, 1, 2, 4, 27, 28, len(data) - 9, len(data) - 8, len(data) - 4, len(data) - 1, len(data), len(data) + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x20000000, 0x10000001, 0x3fffffff, 0xfffffff0]))
    elif k == "tail":
        data[-1:] = b"x" * s.rand(1, 9)
    elif k == "junk":
        data = bytearray(struct.pack("<I", 0x950412de)) + bytes(s.rand(0, 255) for _ in range(s.rand(0, 60)))
    else:
        data = bytearray(b"".join(data[i:i + 4][::-1] for i in range(0, len(data), 4)))
    return {"cat": cat, "data": bytes(data).hex(), "kind": k, "ask": s.shuffle(MSGS)[:8], "tags": [k]}


def run_damaged(case, ctx):
    ctx.put("L/fr/LC_MESSAGES/d.mo", bytes.fromhex(case["data"]))
    got, bad = ask(ctx, [["Lm", "fr"], ["B", "d", "L"]] + [["D", "d", m] for m in case["ask"]])
    if bad:
        return bad
    if case["kind"] in ("cut", "tail", "swap"):
        for m, g in zip(case["ask"], got[1:]):
            if g not in (m, case["cat"].get(m, m)):
                return "message %r became %r" % (m, g)


# --- the interpreter -----------------------------------------------------

E = "Error : "
CAUSES = [
    ("nosuch_@", E + "\"%s\" is not recognized as an internal or external command, an operable program or a batch file.", "nosuch_@"),
    ("goto nolab@", E + "Unable to find label \"%s\".", ":nolab@"), ("call :nolab@", E + "Unable to find label \"%s\".", ":nolab@"),
    ("cd nodir@", E + "Unable to find folder \"%s\".", "nodir@"),
    ("type nof@", E + "Pathspec \"%s\" does not match any file.", "#/nof@"), ("del nof@", E + "Pathspec \"%s\" does not match any file.", "#/nof@"), ("copy nof@ x", E + "Pathspec \"%s\" does not match any file.", "#/nof@"),
    ("find x nof@", E + "Pathspec \"%s\" does not match any file.", "#/nof@"), ("more nof@", E + "Pathspec \"%s\" does not match any file.", "#/nof@"),
    ("set /a 1/@(", E + "\"%s\" is not a valid mathematical expression.", None),
    ("ren nof@ nog", E + "Unable to rename \"%s\".", "#/nof@"),
    ("set undef@", E + "\"%s\" was unexpected.", None), ("if a@", E + "\"%s\" expected more arguments.", "IF"), ("for %%i", E + "\"%s\" expected more arguments.", "FOR"),
    ("echo", "Echo command disabled", ""),
]
CAUSES = [c for c in CAUSES if c[2] is not None]
HELPS = {"COLOR": "Change console color to the given code.\nUsage: COLOR [code]\n", "CLS": "Clear console screen\nUsage: CLS\n", "REN": "Renames a file.\nUsage: REN file name.ext\n       RENAME file name.ext\n",
         "PAUSE": "Wait for a keystroke from the user.\nUsage: PAUSE\n", "POPD": "Pull a directory on the stack to change current directory.\nUsage: POPD\n", "VER": "Print the OS type and version\nUsage: VER\n",
         "WC": "Display counts of a file or of stdin.\nUsage: WC [/L] [/C] [/M] [/W] [files ...]\n", "MD": "Create the given directory.\nUsage: MD directory\n       MKDIR directory\n", "TYPE": "Print a file.\nUsage: TYPE [file ...]\n"}
for k in HELPS:
    CAUSES.append((k + " /?", HELPS[k], ""))
IDS = sorted({c[1] for c in CAUSES})
WORDS = {"YES": ["OUI", "SI", "EVET", "JES", "\u0926", "YES"], "Y": ["O", "S", "E", "J", "Y"], "NO": ["NON", "HAYIR", "NE", "NO"], "N": ["X", "H", "N"], "ALL": ["TOUT", "HEPSI", "TODO", "ALL"], "A": ["T", "P", "A"]}
CHOICES, INVALID = " (yes/No/all) ", "Please enter a correct choice (or type enter to choose default) !\n"
DELMSG = "Are you sure you want to delete file \"%s\" ?"


def gen_cat(s, used):
    cat = {"": "Content-Type: text/plain; charset=UTF-8\n"}
    for m in IDS + [DELMSG, CHOICES, INVALID, " (yes/no) ", " (Yes/no) ", " (yes/No) "]:
        if s.bool(65):
            a, b = s.choice([("<<", ">>"), ("\u00ab ", " \u00bb"), ("T ", ""), ("", " \u0926")])
            t = m.rstrip("\n")
            cat[m] = a + t + b + "\n" * (len(m) - len(t))
    for w in WORDS:
        if s.bool(60):
            cat[w] = s.choice(WORDS[w])
    for m in s.shuffle(["zz", "AA", "Error : ", "Error", "\x7f"])[:2]:
        cat[m] = "never"
    return cat


def gen_env(s):
    l = s.choice(sorted(LOCALES))
    other = s.choice(sorted(LOCALES) + ["C"])
    k = s.weighted([(3, "all"), (3, "lang"), (3, "messages"), (2, "mixed"), (1, "none"), (1, "unknown")])
    if k == "all":
        return LOCALES[l], {"LC_ALL": l, "LANG": other}
    if k == "lang":
        return LOCALES[l], {"LANG": l}
    if k == "messages":
        return LOCALES[l], {"LC_MESSAGES": l, "LANG": other}
    if k == "mixed":
        return LOCALES[l], {"LANG": l, "LC_NUMERIC": other, "LC_TIME": s.choice(sorted(LOCALES)), "LC_COLLATE": other, "LC_CTYPE": s.choice(sorted(LOCALES) + ["C"])}
    return None, ({"LC_ALL": "C", "LANG": l} if k == "none" else {"LANG": "xx_XX.UTF-8"})


def gen_messages(s):
    code, env = gen_env(s)
    dirs = {}
    for d in s.shuffle(["A", "B b", "C/d"])[:s.rand(1, 3)]:
        dirs[d] = {}
        for c in s.shuffle(["fr", "tr", "es", "eo", "ca"])[:s.rand(1, 2)] + ([code] if code and s.bool(70) else []):
            dirs[d][c] = gen_cat(s, None)
    steps = []
    for _ in range(s.rand(3, 12)):
        k = s.weighted([(2, "locale"), (7, "cause"), (2, "ask")])
        if k == "locale":
            steps.append(["L", s.weighted([(5, s.choice(sorted(dirs))), (1, "nothere")])])
        elif k == "cause":
            steps.append(["C", s.rand(0, len(CAUSES) - 1), s.text("abc", 0, 3)])
        else:
            steps.append(["A", s.choice(sorted(WORDS) + ["bad"]), s.choice(["up", "low"]), s.bool(70)])
    r = {"env": env, "lang": code, "dirs": [[d, [[c, dirs[d][c]] for c in sorted(dirs[d])]] for d in sorted(dirs)], "steps": steps, "tags": ["lang-" + str(code)]}
    r["nontrivial"] = any(x[0] == "L" and code in dirs.get(x[1], {}) for x in steps)
    return r


def run_messages(case, ctx):
    dirs = {d: dict((c, cat) for c, cat in l) for d, l in case["dirs"]}
    for d in dirs:
        for c in dirs[d]:
            ctx.put(d + "/" + c + "/LC_MESSAGES/pbat.mo", mo(dirs[d][c]))
    cat = {}
    script, stdin = ["@echo off", "locale nothere"], []
    # an element of err is a text, or None for text that is not compared
    out, err, gone = "", "", []
    for i, st in enumerate(case["steps"]):
        if st[0] == "L":
            cat = dirs.get(st[1], {}).get(case["lang"], {})
            script.append("locale \"%s\"" % st[1])
        elif st[0] == "C":
            cmd, m, a = CAUSES[st[1]]
            script.append(cmd.replace("@", st[2]))
            t = cat.get(m, m)
            if "%s" in m:
                t = t.replace("%s", a.replace("@", st[2]).replace("#", ctx.cwd))
            t += "" if m.endswith("\n") else "\n"
            if cmd == "echo":
                out += t
            else:
                err += t
        else:
            f = "f%d" % i
            ctx.put(f, "x")
            script.append("del /p %s" % f)
            w = st[1]
            # the word in the language in use, or the English one
            a = "bad" if w == "bad" else cat.get(w, w) if st[3] else w
            a = a.lower() if st[2] == "low" else a
            cur = {k: cat.get(k, k).upper() for k in WORDS}
            u = a.upper()
            ans = [x for x in ("YES", "NO", "ALL") if u in (cur[x], cur[x[0]])]
            stdin.append(a)
            good = len(ans) == 1
            if not good:
                stdin.append(cat.get("NO", "NO"))
                ans = ["NO"] if not ans else None
            if ans is None:
                raise vf.Reject()
            ch = cat.get(CHOICES, CHOICES)
            err += cat.get(DELMSG, DELMSG).replace("%s", ctx.cwd + "/" + f) + ch + (cat.get(INVALID, INVALID) + ch) * (not good)
            gone.append((f, ans[0] != "NO", a))
    old = ctx.env
    ctx.env = {k: v for k, v in old.items() if not k.startswith("LC_") and k != "LANG"}
    try:
        r = ctx.pbat("\n".join(script) + "\n", stdin="\n".join(stdin) + "\n", env=dict(case["env"], LOCPATH=os.path.join(ctx.base, "loc")))
    finally:
        ctx.env = old
    if r.timeout:
        return "no end"
    if r.err.decode("utf-8", "surrogateescape") != err:
        return "messages differ: " + vf.diff_text(err.encode(), r.err)
    if r.out.decode("utf-8", "surrogateescape") != out:
        return "stdout differs: " + vf.diff_text(out.encode(), r.out)
    for f, g, a in gone:
        if os.path.exists(os.path.join(ctx.cwd, f)) == g:
            return "after the answer %r file %s is %s" % (a, f, "still there" if g else "gone")


# --- everything else -----------------------------------------------------

def wrap(check, f, quick, thorough):
    def gen(s):
        l = s.choice(sorted(LOCALES))
        env = {"LANG": l, "LC_MESSAGES": "C"} if s.bool(60) else {"LC_MESSAGES": "C", "LC_NUMERIC": l, "LC_CTYPE": s.choice(sorted(LOCALES)), "LC_COLLATE": s.choice(sorted(LOCALES))}
        return {"env": env, "case": f.gen(s), "tags": [check]}

    def run(case, ctx):
        old = ctx.env
        ctx.env = dict(old, LOCPATH=os.path.join(ctx.base, "loc"), **case["env"])
        ctx.env.pop("LC_ALL", None)
        try:
            return f.run(case["case"], ctx)
        finally:
            ctx.env = old
    return vf.Family(check + "-" + f.name, gen, run, quick, thorough)


NEUTRAL = [x[:-3] for x in sorted(os.listdir(HERE)) if x.endswith(".py") and x not in ("P32.py", "P33.py", "P34.py", "P35.py", "P47.py")]

if __name__ == "__main__":
    fams = [vf.Family("lookup", gen_lookup, run_lookup, 2500, 60000), vf.Family("damaged", gen_damaged, run_damaged, 2500, 100000), vf.Family("messages", gen_messages, run_messages, 1500, 40000)]
    for c in NEUTRAL:
        fl = families_of(c)
        tot = sum(f.quick for f in fl)
        for f in fl:
            fams.append(wrap(c, f, max(2, f.quick * 50 // tot), max(20, f.quick * 2000 // tot)))

    def both(base, bins):
        vf.everything(base, bins)
        setup(base, bins)
    sys.exit(vf.main("P32", fams, setup=both, rule="lookup, messages: a catalogue with a translation is in use at some time; damaged: every one"))
