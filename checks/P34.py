"""libcu8 under wine: conversions, text files in any encoding, file names and program arguments in Unicode."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import vf, wine

LATIN = "\u00e9\u00e8\u00e7\u00e0\u00fc\u00f1\u00c9\u00df\u00f6\u00e5"
CYR = "\u0436\u042f\u0451\u043f\u0440\u0418\u044b"
# the name libcu8 knows, the codec of Python, the letters that are used
ENC = [("UTF-8", "utf-8", LATIN + CYR + "\u672c\u65e5\u20ac\u2660\U0001f600\U00010348\u0800\uffee\u07ff\u0080"),
       ("CP850", "cp850", LATIN + "\u2592\u255a\u00f7"), ("CP1252", "cp1252", LATIN + "\u20ac\u0153\u2019"),
       ("ISO-8859-1", "latin-1", LATIN + "\u00ff\u00a0"), ("CP866", "cp866", CYR + "\u2502"), ("CP1251", "cp1251", CYR + "\u2116"),
       ("KOI8-R", "koi8-r", CYR), ("CP1253", "cp1253", "\u03b1\u03a9\u03c2\u03ac"), ("CP932", "cp932", "\u672c\u65e5\u30bd\u8868\u3042\uff71\uff9f"),
       ("GBK", "gbk", "\u4e2d\u6587\u6c49"), ("BIG5", "cp950", "\u4e2d\u6587\u529f"), ("WINDOWS-1252", "cp1252", LATIN), ("IBM850", "cp850", LATIN)]
CODEC = {e: c for e, c, _ in ENC}
TO16, FROM16, TOA, FROMA = 0, 1, 2, 3


def setup(base, bins):
    d = bins["cu8"]
    exe = os.path.join(base, "bin", "cu8.exe")
    subprocess.check_call(["x86_64-w64-mingw32-gcc", "-O1", "-w", "-I" + os.path.join(d, "libcu8", "include"), "-o", exe,
                           os.path.join(vf.VERIF, "lib", "cu8.c"), os.path.join(d, "libcu8", "libcu8.a"), "-static"])
    wine.start(base, [exe, "none", "out"], 3)


def hx(t):
    b = t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape")
    return b.hex() or "-"


def drive(ctx, lines, exp):
    ctx.put("ops", "\n".join(lines) + "\n")
    r = ctx.exec(["wine", ctx.bin("cu8.exe"), "ops", "out"], env=wine.wine_env(ctx.base), timeout=60)
    try:
        with open(os.path.join(ctx.cwd, "out"), encoding="latin-1") as f:
            got = f.read().split("\n")[:-1]
    except OSError:
        got = []
    ctx.reports()
    exp = exp + ["end"]
    if got != exp:
        for i in range(max(len(exp), len(got))):
            a, b = exp[i] if i < len(exp) else "(nothing)", got[i] if i < len(got) else "(nothing: the program ended, exit code %s)" % r.rc
            if a != b:
                return "result %d: expected %s, got %s (before it: %s)" % (i + 1, a[:300], b[:300], exp[max(0, i - 2):i])
    return None


def words(s, enc, lo, hi):
    letters = [l for e, _, l in ENC if e == enc][0]
    return "".join(s.choice("ab z.") if s.bool(40) else s.choice(letters) for _ in range(s.rand(lo, hi)))


# --- conversions ------------------------------------------------------------

def gen_convert(s):
    enc = s.choice(ENC)[0]
    ops = []
    for _ in range(s.rand(1, 8)):
        mode = s.rand(0, 3)
        t = words(s, enc, 0, 30)
        if s.bool(30):          # around the size of its chunks
            n = s.choice([126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000])
            t = (t * (n // max(1, len(t)) + 1))[:n] if s.bool() else "a" * max(0, n - len(t)) + t
        if s.bool(50):
            ops.append(["x", mode, t, s.weighted([(5, ""), (1, "cut"), (1, "bad")])])
        else:
            ops.append(["c", mode, t, [s.rand(0, 1000) for _ in range(s.rand(1, 5))]])
    return {"enc": enc, "ops": ops, "nontrivial": any(ord(c) > 127 for o in ops for c in o[2]), "tags": [enc] + sorted({o[0] + str(o[1]) for o in ops})}


def run_convert(c, ctx):
    lines, exp = ["enc " + hx(c["enc"])], ["enc 0 " + c["enc"]]
    codecs = {FROM16: ("utf-16-le", "utf-8"), TO16: ("utf-8", "utf-16-le"), FROMA: (CODEC[c["enc"]], "utf-8"), TOA: ("utf-8", CODEC[c["enc"]])}
    for o in c["ops"]:
        a, b = codecs[o[1]]
        src, dst = o[2].encode(a), o[2].encode(b)
        if o[0] == "x":
            if o[3] == "cut" and src:
                # the last character is incomplete
                last = o[2][-1].encode(a)
                if len(last) > 1:
                    src, dst = src[:-1], o[2][:-1].encode(b)
            elif o[3] == "bad" and a == "utf-8":
                k = len(o[2]) // 2      # a byte that is in no text
                src = o[2][:k].encode(a) + b"\xff" + o[2][k:].encode(a)
            lines.append("xconv %s %d" % (hx(src), o[1]))
            exp.append("xconv " + hx(dst))
        else:
            # whatever comes in pieces comes out as in one go
            cuts = sorted({x % (len(src) + 1) for x in o[3]})
            pieces = [src[i:j] for i, j in zip([0] + cuts, cuts + [len(src)])]
            lines.append("conv 00 %d %s" % (o[1], " ".join(hx(p) for p in pieces)))
            done, pos = 0, 0
            ends, n = {}, 0
            for ch in o[2]:
                n += len(ch.encode(a))
                ends[n] = len(ch.encode(b))
            k = 0
            for p in pieces:
                pos += len(p)
                out = b""
                upto = max([e for e in ends if e <= pos], default=0)
                m = sum(v for e, v in ends.items() if e <= upto)
                exp.append("conv " + hx(dst[k:m]))
                k = m
            exp.append("left 0")
    return drive(ctx, lines, exp)


# --- text files -------------------------------------------------------------

def gen_text(s):
    enc = s.choice(ENC)[0]
    ops, n = [], s.rand(1, 3)
    for _ in range(n):
        binary, app = s.bool(40), s.bool(20)
        text = "".join(words(s, enc, 0, s.choice([3, 12, 40])) + ("\n" if s.bool(85) else "") for _ in range(s.rand(1, 6)))
        if s.bool(10):
            text += words(s, enc, 200, 700)
        if binary and s.bool(30):
            text = text.replace("\n", "\r\n")
        ops.append({"text": text, "bin": binary, "app": app, "dangling": s.bool(15), "fill": s.bool(20),
                    "write": [[s.weighted([(5, "fputs"), (3, "fputc"), (3, "fprintf"), (1, "fflush")]), s.rand(0, 1000)] for _ in range(s.rand(1, 8))],
                    "read": [[s.weighted([(6, "fgets"), (3, "fgetc"), (1, "rewind")]), s.weighted([(8, s.rand(2, 6)), (3, s.rand(7, 60)), (1, 1), (2, 1024)])] for _ in range(s.rand(1, 12))]})
    return {"enc": enc, "files": ops, "together": s.bool(40), "nontrivial": any(ord(ch) > 127 for o in ops for ch in o["text"]),
            "tags": [enc] + sorted({r[0] for o in ops for r in o["read"] + o["write"]})}


def whole(b, k):
    """the first cut of b at k or before it that is between two characters"""
    while 0 < k < len(b) and 0x80 <= b[k] < 0xc0:
        k -= 1
    return k


def run_text(c, ctx):
    codec = CODEC[c["enc"]]
    lines, exp = ["enc " + hx(c["enc"])], ["enc 0 " + c["enc"]]
    todo, files = [], []
    for i, f in enumerate(c["files"]):
        name = "f%d.txt" % i
        w, x = ["fopen %s %d %s%s" % (hx(name), i, "a" if f["app"] else "w", "b" if f["bin"] else "")], ["fopen 1"]
        old = ""
        if f["app"]:
            old = "old \n"
            ctx.put(name, (old if f["bin"] else old.replace("\n", "\r\n")).encode(codec))
        elif f["fill"]:
            ctx.put(name, b"x" * 5000)
        raw = f["text"].encode()
        cuts = sorted(k % (len(raw) + 1) for _, k in f["write"])
        pos, out, clean = 0, b"", True
        for (how, _), k in zip(f["write"], cuts + [len(raw)]):
            if how == "fprintf":
                k = whole(raw, k)
            if k < pos:
                k = pos
            if how == "fflush":
                if clean:       # what is incomplete then is lost
                    w.append("fflush 00 %d" % i)
                    x.append("fflush 0")
                continue
            p = raw[pos:k]
            if how == "fprintf":
                if not clean:
                    continue
                w.append("fprintf %s %d" % (hx(p), i))
                x.append("fprintf %d" % (len(p) + 5))
                out += b"<" + p + b"|42>"
            elif p:
                w.append("%s %s %d" % (how, hx(p), i))
                x.append("fputs 1" if how == "fputs" else "fputc")
                out += p
            pos = max(pos, k)
            clean = whole(raw, pos) == pos
        p = raw[pos:]
        if p:
            w.append("fputs %s %d" % (hx(p), i))
            x.append("fputs 1")
            out += p
        if f["dangling"]:       # a character that is never completed
            w.append("fputs %s %d" % (hx(b"\xe6\x9c"), i))
            x.append("fputs 1")
        w.append("fclose 00 %d" % i)
        x.append("fclose")
        todo.append(list(zip(w, x)))
        text = old + out.decode()
        files.append((name, (text if f["bin"] else text.replace("\n", "\r\n")).encode(codec)))
        # reading
        data = text.encode()
        w, x, at = ["fopen %s %d r%s" % (hx(name), i, "b" if f["bin"] else "")], ["fopen 1"], 0
        for how, k in f["read"] + [["fgets", 4000], ["fgetc", 0]] * 3:
            if how == "rewind":
                if at < len(data):
                    w.append("fseek 00 %d 0" % i)
                    x.append("fseek 0")
                    at = 0
            elif how == "fgetc":
                w.append("fgetc 00 %d" % i)
                x.append("fgetc %02x" % data[at] if at < len(data) else "fgetc EOF")
                at += 1
            else:
                if k == 1:
                    if at >= len(data):
                        continue
                    p = b""
                else:
                    p = data[at:at + k - 1]
                    if b"\n" in p:
                        p = p[:p.index(b"\n") + 1]
                    at += len(p)
                w.append("fgets 00 %d %d" % (i, k))
                x.append("fgets " + (p.hex() if p else "-" if k == 1 else "NULL"))
        w.append("fclose 00 %d" % i)
        x.append("fclose")
        todo.append(list(zip(w, x)))
    if c["together"]:           # the files are written, then read, side by side
        for part in (todo[0::2], todo[1::2]):
            k = 0
            while any(part):
                q = part[k % len(part)]
                if q:
                    a, b = q.pop(0)
                    lines.append(a)
                    exp.append(b)
                k += 1
    else:
        for q in todo:
            for a, b in q:
                lines.append(a)
                exp.append(b)
    bad = drive(ctx, lines, exp)
    if bad:
        return bad
    for name, data in files:
        with open(os.path.join(ctx.cwd, name), "rb") as fd:
            got = fd.read()
        if got != data:
            return "%s (%s): %s" % (name, c["enc"], vf.diff_text(data, got))
    return None


# --- names ------------------------------------------------------------------

NAMES = ["a", "b.txt", "\u00e9t\u00e9", "\u672c\u65e5.txt", "\u0436 \u044f", "\U0001f600", "x\u2660y", "caf\u00e9.d", "\u00df", "n\u00f6 w", "\u03b1\u03b2\u03b3" * 8, "\u20ac" * 40]


def gen_names(s):
    names = [s.choice(NAMES) for _ in range(s.rand(2, 5))]

    def path():
        return "/".join(s.choice(names) for _ in range(s.weighted([(5, 1), (4, 2), (1, 3)])))

    ops = []
    for _ in range(s.rand(3, 25)):
        k = s.weighted([(6, "mkdir"), (3, "rmdir"), (3, "remove"), (2, "unlink"), (5, "rename"), (4, "stat"), (5, "list"), (5, "open"), (3, "creat"),
                        (4, "read"), (3, "write"), (3, "chdir"), (3, "getcwd")])
        if k == "rename":
            ops.append([k, path(), path()])
        elif k in ("open", "creat", "write"):
            ops.append([k, path(), s.text("xyz\n", 0, 9)])
        elif k == "chdir":
            ops.append([k, s.weighted([(4, path()), (3, "..")])])
        elif k == "list":
            ops.append([k, s.weighted([(3, "."), (4, path())])])
        else:
            ops.append([k, path()])
    return {"ops": ops, "back": s.bool(30), "nontrivial": len(ops) > 5, "tags": sorted({o[0] for o in ops})}


def run_names(c, ctx):
    top = os.path.join(ctx.cwd, "t")
    os.mkdir(top)
    fs, cwd = {"": None}, ""            # relative paths -> contents, None for folders
    lines, exp = ["chdir 74"], ["chdir 0"]

    def full(p):
        return p if not cwd else cwd + "/" + p

    def up(p):
        return p.rpartition("/")[0]

    def isdir(p):
        return p in fs and fs[p] is None

    def kids(p):
        return [q for q in fs if q and up(q) == p]

    for o in c["ops"]:
        k = o[0]
        arg = o[1].replace("/", "\\") if c["back"] and len(o) > 1 else o[1] if len(o) > 1 else ""
        if k == "getcwd":
            lines.append("getcwd")
            exp += ["getcwd 0", "cwd " + hx("Z:" + (top + ("/" + cwd if cwd else "")).replace("/", "\\"))]
            continue
        p = full(o[1])
        if k == "chdir":
            if o[1] == "..":
                if not cwd:
                    continue
                p = up(cwd)
            ok = isdir(p)
            lines.append("chdir " + hx(arg))
            exp.append("chdir %d" % (not ok))
            if ok:
                cwd = p
        elif k == "list":
            p = cwd if o[1] == "." else p
            lines.append("list " + hx(arg))
            if isdir(p):
                exp += ["list 1", ("ents", sorted([hx("."), hx("..")] + [hx(q.rpartition("/")[2]) for q in kids(p)]))]
            else:
                exp.append("list 0")
        elif k == "mkdir":
            ok = p not in fs and isdir(up(p))
            lines.append("mkdir " + hx(arg))
            exp.append("mkdir %d" % (not ok))
            if ok:
                fs[p] = None
        elif k == "rmdir":
            if isdir(p) and (cwd == p or cwd.startswith(p + "/")):
                continue
            ok = isdir(p) and not kids(p)
            lines.append("rmdir " + hx(arg))
            exp.append("rmdir %d" % (not ok))
            if ok:
                del fs[p]
        elif k in ("remove", "unlink"):
            ok = p in fs and not isdir(p)
            lines.append("%s %s" % (k, hx(arg)))
            exp.append("%s %d" % (k, not ok))
            if ok:
                del fs[p]
        elif k == "rename":
            q = full(o[2])
            if q == p or q.startswith(p + "/") or (isdir(p) and (cwd == p or cwd.startswith(p + "/"))):
                continue
            ok = p in fs and q not in fs and isdir(up(q))
            lines.append("rename %s %s" % (hx(arg), hx(o[2].replace("/", "\\") if c["back"] else o[2])))
            exp.append("rename %d" % (not ok))
            if ok:
                for x in [x for x in fs if x == p or x.startswith(p + "/")]:
                    fs[q + x[len(p):]] = fs.pop(x)
        elif k == "stat":
            lines.append("stat " + hx(arg))
            exp.append("stat none" if p not in fs else "stat dir 0" if isdir(p) else "stat file %d" % len(fs[p]))
        else:
            ok = not isdir(p) and (p in fs if k == "read" else isdir(up(p)))
            if k == "read":
                lines.append("fopen %s 0 rb" % hx(arg))
                exp.append("fopen %d" % ok)
                if ok:
                    lines += ["fgets 00 0 100", "fclose 00 0"]
                    l = fs[p][:fs[p].index("\n") + 1] if "\n" in fs[p] else fs[p]
                    exp += ["fgets " + (l.encode().hex() if l else "NULL"), "fclose"]
            elif k == "write":
                lines.append("fopen %s 1 wb" % hx(arg))
                exp.append("fopen %d" % ok)
                if ok:
                    lines += ["fputs %s 1" % hx(o[2]), "fclose 00 1"]
                    exp += ["fputs 1", "fclose"]
                    fs[p] = o[2]
            else:
                lines.append("%s %s %s" % (k, hx(arg), hx(o[2])))
                exp.append("%s %d" % (k, ok))
                if ok:
                    fs[p] = (fs.get(p) or "") + o[2] if k == "open" else o[2]
    # the entries of a folder come in any order
    ctx.put("ops", "\n".join(lines) + "\n")
    r = ctx.exec(["wine", ctx.bin("cu8.exe"), "ops", "out"], env=wine.wine_env(ctx.base), timeout=60)
    ctx.reports()
    try:
        with open(os.path.join(ctx.cwd, "out"), encoding="latin-1") as f:
            raw = f.read().split("\n")[:-1]
    except OSError:
        raw = []
    got = []
    for l in raw:
        if l.startswith("ent "):
            if not got or not isinstance(got[-1], tuple):
                got.append(("ents", []))
            got[-1][1].append(l[4:])
            got[-1][1].sort()
        else:
            got.append(l)
    exp.append("end")
    for i in range(max(len(exp), len(got))):
        a, b = exp[i] if i < len(exp) else "(nothing)", got[i] if i < len(got) else "(nothing: the program ended, exit code %s)" % r.rc
        if a != b:
            return "result %d: expected %s, got %s (before it: %s)" % (i + 1, a, b, exp[max(0, i - 2):i])
    have = {}
    for d, dn, fn in os.walk(top):
        for x in dn:
            have[os.path.relpath(os.path.join(d, x), top)] = None
        for x in fn:
            with open(os.path.join(d, x), "rb") as f:
                have[os.path.relpath(os.path.join(d, x), top)] = f.read().decode("latin-1")
    del fs[""]
    if have != fs:
        return "the files: expected %s, got %s" % (sorted(fs.items()), sorted(have.items()))
    return None


# --- arguments --------------------------------------------------------------

def gen_args(s):
    args = [s.weighted([(3, s.choice(NAMES).replace(" ", "_")), (3, words(s, "UTF-8", 1, 12).replace(" ", "")), (1, "a" * 300)]) or "x" for _ in range(s.rand(1, 8))]
    return {"args": args, "how": s.weighted([(3, "spawn"), (3, "spawnl"), (1, "spawnlp"), (1, "spawnle"), (1, "spawnlpe"), (1, "spawnvp"), (1, "spawnve"), (1, "spawnvpe")]), "nontrivial": any(ord(ch) > 127 for a in args for ch in a), "tags": []}


def run_args(c, ctx):
    how = c["how"]
    args = c["args"] if how[5:6] != "l" else c["args"][:2 if how == "spawnl" else 1]
    bad = drive(ctx, ["%s %s %s" % (how, hx("kid"), " ".join(hx(a) for a in args))], [how + " 37"])
    if bad:
        return bad
    with open(os.path.join(ctx.cwd, "kid"), encoding="latin-1") as f:
        got = f.read().split("\n")[:-1]
    exp = ["arg " + hx(a) for a in args] + ["end"]
    return None if got == exp else "the program got %s, expected %s" % (got, exp)


if __name__ == "__main__":
    vf.MAX_MEMORY = 0
    sys.exit(vf.main("P34", [vf.Family("convert", gen_convert, run_convert, 500, 9000), vf.Family("text", gen_text, run_text, 900, 15000), vf.Family("names", gen_names, run_names, 600, 9000),
                             vf.Family("args", gen_args, run_args, 150, 2000)],
                     variants=("cu8",), setup=setup, teardown=wine.stop, rule="characters beyond ASCII are converted, or more than five operations on names"))
