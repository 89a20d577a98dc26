"""WC against reference counts."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import re
import vf

WORDS = ["a", "word", "é", "日本", "😀", "x-y", "it's", "\"q\"", "!", "%", "^", "&", "/", "\\", "0", "A_B", "(", "=", "<", "|"]
SEPS = [" ", "\n", "\t", ".", ",", ";", "\r\n", "  ", "\n\n", ", ", "...", " ;\t"]
RAW = ["\0", "\x01", "\x7f", "\v", "\f", "\x1a", "\x1b"]


def content(s, raw):
    n = s.weighted([(1, 0), (3, 1), (4, 3), (5, 8), (3, 30), (1, 400)])
    n = s.rand(n // 2, n)
    out = []
    for _ in range(n):
        out.append(s.choice(RAW if raw and s.bool(20) else SEPS if s.bool(50) else WORDS))
    t = "".join(out)
    if t and s.bool(15):
        # meet the borders of the buffers of the program
        b = len(t.encode())
        reach = s.choice([1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 20000])
        t = s.choice(["a", "é", "a ", "\n", "日"]) * (max(0, reach - b) // s.choice([1, 2, 3])) + t
    return t


def counts(t):
    return {"l": t.count("\n"), "w": len([x for x in re.split("[ \t\r\n,.;]", t) if x]), "c": len(t.encode()), "m": len(t)}


def mix(s, sw, args, before):
    r = list(args)
    for x in sw: r.insert(0 if before else s.rand(0, len(r)), x)
    return r


def gen(s):
    tags = set()
    files = {n: content(s, s.bool(30)) for n in ["f", "g x", "h.txt", "d/i.txt"]}
    L, exp = ["@echo off"], []
    huge = {}
    base = ""
    if s.bool(20):
        base = "d/"
        L.append("cd d")
    for i in range(s.rand(1, 4)):
        k = s.weighted([(5, "one"), (3, "stdin"), (3, "pipe"), (3, "several"), (2, "wild"), (1, "missing"), (1, "locked"), (1, "huge"), (1, "folder"), (1, "bad switch")])
        tags.add(k)
        fl = s.subset("lwcm", 35)
        sw = ["/" + s.choice([c, c.upper()]) for c in s.shuffle(fl)]
        if s.bool(5) and sw: sw.append(sw[0])
        up = "../" if base else ""
        names = s.shuffle(["f", "g x", "h.txt", "d/i.txt"])
        rel = {n: (n[2:] if n.startswith("d/") else "../" + n) if base else n for n in names}
        dot = s.choice(["", "", "./"])
        q = lambda x: '"%s"' % x if " " in x or s.bool(15) else x
        if k in ("one", "stdin", "pipe"): names = names[:1]
        elif k == "several": names = names[:s.rand(2, 4)]
        elif k == "wild": names = ["f", "g x", "h.txt"]
        elif k == "folder": names = ["d/i.txt"]
        elif k == "huge":
            # only the size of these is asked for
            names = s.choice([["z/h%d" % i], ["z/h%d" % i, "z/h%dx" % i], ["h.txt", "z/h%d" % i]])
            sw, fl = ([], []) if s.bool() else (["/c"], ["c"])
            for n in names:
                if n != "h.txt": huge[n] = s.choice([1 << 24, 1 << 31, 1 << 32, 5000000000, 1 << 40]) + s.rand(-2, 2)
                rel[n] = up + n
        else: names = []
        args = []
        if k in ("one", "several", "huge"): args = [q((dot if not base else "") + rel[n]) for n in names]
        elif k == "wild": args = [q(up + "*")]
        elif k == "folder": args = [q("*" if base else "d/*")]
        elif k == "missing": args = ["nosuch"] if s.bool(50) else [q(rel["f"]), "nosuch"]
        elif k == "locked":
            args = [q(up + "locked")]
            if not set(fl) & set("lwm"): sw.append("/l")
        elif k == "bad switch": sw.append(s.choice(["/x", "/9"]))
        cmd = " ".join([s.choice(["wc", "WC"])] + mix(s, sw, args, k == "bad switch"))
        if k == "stdin": cmd += " < " + q(rel[names[0]])
        elif k == "pipe": cmd = "type %s | %s" % (q(rel[names[0]]), cmd)
        L += ["echo #SEP#", cmd, "echo [%errorlevel%]"]
        if not names:
            exp.append(None)
            continue
        fl = [c for c in "lwcm" if c in fl] or ["c"]
        for c in fl: tags.add("/" + c)
        rows = []
        tot = dict.fromkeys("lwcm", 0)
        for n in names:
            c = counts(files[n]) if n in files else {"c": huge[n]}
            for x in c: tot[x] += c[x]
            shown = "" if k in ("stdin", "pipe") else (dot if not base and k in ("one", "several", "huge") else "") + rel[n]
            rows.append([shown, [c[x] for x in fl]])
        exp.append([sorted(rows) if k == "wild" else rows, [tot[x] for x in fl] if len(names) > 1 else None, k == "wild"])
        if len(fl) > 1 and any(v > 2 for _, r in rows for v in r): tags.add("several counts")
    return {"script": "\n".join(L) + "\n", "files": files, "huge": huge, "exp": exp, "tags": sorted(tags), "nontrivial": any(len(v) > 2 for v in files.values()) and any(exp)}


def run(case, ctx):
    for k, v in case["files"].items(): ctx.put(k, v)
    ctx.put("locked", "a\n", 0)
    os.mkdir(os.path.join(ctx.cwd, "z"))
    for k, n in case["huge"].items():
        vf.sparse(os.path.join(ctx.cwd, k), n)
    if any(e and e[2] for e in case["exp"]): os.rename(os.path.join(ctx.cwd, "locked"), os.path.join(ctx.cwd, "d", "..", "..", "locked"))
    try: return check(case, ctx)
    finally:
        p = os.path.join(ctx.root, "locked")
        if os.path.exists(p): os.remove(p)


def check(case, ctx):
    r = ctx.pbat(case["script"])
    if r.timeout: return "the program did not terminate"
    if r.rc: return "exit status %r, stderr %r" % (r.rc, vf.b2s(r.err[:300]))
    secs = vf.b2s(r.out).split("#SEP#\n")[1:]
    if len(secs) != len(case["exp"]): return "stdout %r" % r.out[:400]
    for i, e in enumerate(case["exp"]):
        out, _, lv = secs[i].rpartition("[")
        lv = lv.rstrip("\n]")
        if e is None:
            if out: return "command %d: expected an error and no output, got %r" % (i, out[:200])
            if lv == "0": return "command %d: the error level is 0 after an error" % i
            continue
        got = [l.rstrip(" ") for l in out.split("\n")[:-1]]
        want = [" ".join(map(str, c + ([n] if n else []))) for n, c in e[0]]
        if e[2]: got = sorted(got[:-1]) + got[-1:]; want = sorted(want)
        if e[1] is not None: want.append(" ".join(map(str, e[1] + ["Total"])))
        if got != want: return "command %d: expected %r, got %r" % (i, want, got)
        if lv != "0": return "command %d: error level %s" % (i, lv)
    if bool(r.err) != any(e is None for e in case["exp"]): return "stderr %r" % vf.b2s(r.err[:300])
    return None


def show(case):
    return "".join("%s: %r\n" % (k, v[:300]) for k, v in case["files"].items()) + case["script"]


FAMS = [vf.Family("wc", gen, run, 20000, 250000, show=show)]

if __name__ == "__main__":
    sys.exit(vf.main("P25", FAMS, rule="at least one count of a file of more than two characters"))
