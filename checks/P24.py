"""FIND against a reference search."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import posixpath, re
import vf, wild

WORDS = ["a", "b", "ab", "aB", "A", "B", " ", "foo", "FOO", "oo", "é", "É", "日本", "x", "0", "1", ".", ","]
ODD = ["!", "%", "^", "&", "|", "<", ">", "\"", "(", ")", "'", "*", "?", "\t", "\\", "/", "[", "$", ";", "=", "@", ":", "#", "~", "-"]
same = lambda c: c


def line(s, odd):
    n = s.weighted([(2, 0), (3, 1), (4, 2), (5, 3), (4, 6), (1, 20)])
    t = "".join(s.choice(ODD if odd and s.bool(25) else WORDS) for _ in range(n))
    if s.bool(2): t += "ab," * s.rand(300, 3000) + s.choice(["", "foo"])
    return "" if t.startswith("----------") else t


def needle(s, lines, regexp):
    """-> the text to look for (in the lines, nearly, or not)"""
    pool = [l for l in lines if l and len(l) < 200]
    k = s.weighted([(6, "part"), (2, "words"), (1, "case")])
    if pool and k != "words":
        l = s.choice(pool)
        if regexp:
            n = wild.mutate(s, l)
        else:
            i = s.rand(0, len(l) - 1)
            n = l[i:i + s.rand(1, 8)]
            if s.bool(15): n += s.choice(WORDS)
        if k == "case": n = "".join(c.swapcase() if c.isascii() else c for c in n)
    else:
        n = "".join(s.choice(WORDS) for _ in range(s.rand(1, 3)))
        if regexp and s.bool(70): n = s.choice(["*%s*", "%s*", "*%s", "?%s", "%s?"]) % n
    return n


def literal(s, n):
    """how a parameter is written, or reject"""
    if re.search(r"[!%^]", n) or not n: raise vf.Reject()
    if re.match(r"[/+]", n): raise vf.Reject()
    bare = not re.search(r"[ ,;=&|<>()'\t\"]", n)
    if bare and s.bool(50): return n
    return '"%s"' % n.replace('"', '^"')


def search(lines, n, fl):
    f = wild.fold if "i" in fl else same
    r = []
    for i, l in enumerate(lines):
        if "e" in fl: hit = wild.match(n, l, f)
        else: hit = "".join(map(f, n)) in "".join(map(f, l))
        if hit != ("v" in fl): r.append((i + 1, l))
    return r


def gen(s):
    tags = set()
    files = {}
    for nm in ["f", "g x", "h.txt", "i.txt"]:
        ls = [line(s, s.bool(60)) for _ in range(s.weighted([(1, 0), (3, 1), (6, 4), (4, 8), (1, 40)]))]
        if s.bool(10): ls = ls * 3
        nl = s.choice(["\n", "\n", "\r\n"])
        end = s.bool(75)
        if ls and not end and not ls[-1]: end = True
        files[nm] = (ls, nl, end)
    L, exp = ["@echo off"], []
    for i in range(s.rand(1, 4)):
        fl = [c for c in "vie" if s.bool([0, 30, 40, 25]["xvie".index(c)])]
        k = s.weighted([(5, "one"), (3, "stdin"), (3, "pipe"), (3, "several"), (2, "wild"), (1, "missing"), (1, "locked"), (1, "folder"), (1, "nothing")])
        tags.add(k)
        for c in fl: tags.add("/" + c)
        use = {"one": 1, "stdin": 1, "pipe": 1, "missing": 1, "locked": 1, "folder": 1}.get(k, 2)
        names = s.shuffle(["f", "g x", "h.txt", "i.txt"])[:use if k != "several" else s.rand(2, 4)]
        if k == "wild": names = ["h.txt", "i.txt"]
        lines = [l for nm in names for l in files[nm][0]]
        n = needle(s, lines, "e" in fl)
        lit = literal(s, n)
        mode = s.choice(["", "", "c", "n", "cn", "nc"])
        sw = s.shuffle(["/" + c for c in fl])
        for c in mode: sw.insert(s.rand(max([0] + [sw.index(x) + 1 for x in sw if x in ("/c", "/n")]), len(sw)), "/" + c)
        if s.bool(30): sw = [x.upper() for x in sw]
        m = mode[-1:]
        if m: tags.add("/" + m)
        cmd = " ".join([s.choice(["find", "FIND", "Find"])] + sw + [lit])
        q = lambda x: '"%s"' % x if " " in x or s.bool(15) else x
        pre = lambda x: s.choice(["", "", "", "./", "d/../"]) + x
        if k == "nothing":
            L += ["echo #SEP#", " ".join(["find"] + sw), "echo [%errorlevel%]"]
            exp.append(["error"])
            continue
        if k == "one": cmd += " " + q(pre(names[0]))
        elif k == "stdin": cmd += s.choice([" < ", " <"]) + q(names[0])
        elif k == "pipe": cmd = "type %s | %s" % (q(names[0]), cmd)
        elif k == "several": cmd += "".join(" " + q(pre(x)) for x in names)
        elif k == "wild":
            cmd += s.choice([" *.txt", " ?.txt", " [hi].txt *.txt", " *.TXT", " ./*.txt"][:2] + [" *.TXT", " ./*.txt"])
        elif k == "folder": cmd += s.choice([" %s d" % q(names[0]), " d %s" % q(names[0])])
        elif k == "missing": cmd += s.choice([" nosuch %s" % q(names[0]), " %s nosuch" % q(names[0]), " *.zip"])
        elif k == "locked": cmd += " locked"
        L += ["echo #SEP#"] + ([cmd] if k != "pipe" else ["(" + cmd + ")"] if s.bool(20) else [cmd]) + ["echo [%errorlevel%]"]
        if k in ("missing", "locked"): exp.append(["error"])
        else:
            if k in ("one", "stdin", "pipe", "folder"): names = names[:1]
            res = []
            for nm in names:
                r = search(files[nm][0], n, fl)
                out = [str(len(r))] if m == "c" else ["[%d]%s" % x for x in r] if m == "n" else [l for _, l in r]
                res.append([nm, out, len(r)])
                if r: tags.add("found")
                else: tags.add("not found")
                if 0 < len(r) < len(files[nm][0]): tags.add("some lines")
            exp.append(["files", res])
    return {"script": "\n".join(L) + "\n", "files": {k: v[1].join(v[0]) + (v[1] if v[0] and v[2] else "") for k, v in files.items()},
            "exp": exp, "tags": sorted(tags), "nontrivial": "some lines" in tags}


def run(case, ctx):
    for k, v in case["files"].items(): ctx.put(k, v)
    ctx.put("locked", "a\n", 0)
    os.mkdir(os.path.join(ctx.cwd, "d"))
    r = ctx.pbat(case["script"])
    if r.timeout: return "the program did not terminate"
    if r.rc: return "exit status %r, stderr %r" % (r.rc, vf.b2s(r.err[:300]))
    secs = vf.b2s(r.out).split("#SEP#\n")[1:]
    if len(secs) != len(case["exp"]): return "stdout %r" % r.out[:400]
    errors = False
    for i, e in enumerate(case["exp"]):
        out, _, lv = secs[i].rpartition("[")
        lv = lv.rstrip("\n]")
        if e[0] == "error":
            errors = True
            if out: return "search %d: expected an error and no output, got %r" % (i, out[:200])
            if lv == "0": return "search %d: the error level is 0 after an error" % i
            continue
        if len(e[1]) > 1:
            got = {}
            cur = None
            for l in out.split("\n")[:-1]:
                if l.startswith("---------- "):
                    cur = posixpath.normpath(l[11:])
                    if cur in got: return "search %d: %r is shown twice" % (i, cur)
                    got[cur] = []
                elif cur is None: return "search %d: %r is shown before any name" % (i, l)
                else: got[cur].append(l)
            want = {posixpath.join(ctx.cwd, n): o for n, o, _ in e[1]}
            if got != want: return "search %d: expected %r, got %r" % (i, want, got)
            if len({bool(c) for _, _, c in e[1]}) > 1: continue
        else:
            want = "".join(x + "\n" for x in e[1][0][1])
            if out != want: return "search %d: %s" % (i, vf.diff_text(want, out))
        if (lv == "0") != bool(e[1][0][2]): return "search %d: error level %s, %s lines are selected" % (i, lv, e[1][0][2])
    if bool(r.err) != errors: return "stderr %r" % vf.b2s(r.err[:300])
    return None


def show(case):
    return "".join("%s: %r\n" % (k, v[:300]) for k, v in case["files"].items()) + case["script"]


FAMS = [vf.Family("find", gen, run, 24000, 300000, show=show)]

if __name__ == "__main__":
    sys.exit(vf.main("P24", FAMS, rule="at least one search which selects some, but not all, of the lines of a file"))
