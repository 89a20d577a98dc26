"""FOR over lists of strings and wildcards (also FOR /R and FOR /D) against a reference splitter and the real tree."""
import sys, os, fnmatch
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

TOK = "abcXYZ019._-+=@#/[]{}$~"
FILES = ["a1.txt", "b2.txt", "b2.dat", "c 3.txt", "abc", "sub/x.txt", "sub/y.dat", "sub/deep/z.txt", "sub/deep/w.c", "d.d/in.txt", "e m/f.txt"]
DIRS = ["sub", "sub/deep", "d.d", "e m", "empty"]


def match_files(pat):
    """files (not directories) matching a pattern, as FOR names them"""
    d, _, p = pat.rpartition("/")
    r = []
    for f in FILES:
        fd, _, fn = f.rpartition("/")
        if fd == d and fnmatch.fnmatchcase(fn, p):
            r.append(f)
    return r


PATS = ["*.txt", "*", "?2.*", "*.c", "sub/*", "sub/*.txt", "zz*", "b?.dat", "sub/deep/*", "*c*", "c*", "?????*", "empty/*", "d.d/*.txt", "*.*t"]
QPATS = ["c *", "e m/*", "? 3.txt", "*.txt", "q *"]


def gen_item(s):
    """-> (text in the list, values: list of (value, unordered group))"""
    k = s.weighted([(7, "word"), (3, "quoted"), (1, "mid"), (2, "wild"), (1, "qwild")])
    if k == "word":
        t = s.text(TOK, 1, 6)
        return k, t, [t]
    if k == "quoted":
        t = '"%s"' % s.text(TOK + " ,;:", 0, 7)
        return k, t, [t]
    if k == "mid":
        t = s.text("abc", 1, 2) + '"%s"' % s.text("ab ,;", 0, 4) + s.text("xy", 0, 2)
        return k, t, [t]
    if k == "wild":
        p = s.choice(PATS)
        return k, p, match_files(p)
    p = s.choice(QPATS)
    return k, '"%s"' % p, match_files(p)


def gen_list(s, tags):
    items = [gen_item(s) for _ in range(s.weighted([(5, s.rand(1, 4)), (2, s.rand(5, 12)), (1, 0)]))]
    text, groups = "", []
    lead = s.choice(["", "", " ", ":", " , "])
    for i, (k, t, v) in enumerate(items):
        if k == "word" and any(c in t for c in "*?"):
            s.reject()
        if i:
            text += s.weighted([(6, " "), (2, ","), (2, ";"), (2, ":"), (1, "\t"), (1, "  "), (1, ", "), (1, " : "), (1, ";;")])
        text += t
        if v:
            groups.append(v)
        if k in ("wild", "qwild"):
            tags.add("wildcard" if v else "nomatch")
        elif k != "word":
            tags.add(k)
    if not items:
        tags.add("empty")
        return " ", []
    if lead:
        tags.add("leading")
    return lead + text + s.choice(["", "", " ", ":"]), groups


def unq(v):
    if v.startswith('"'):
        v = v[1:]
        if v.endswith('"'):
            v = v[:-1]
    return v


def gen(s):
    tags = set()
    L = ["@echo off"]
    out = []     # strings, or ["u", [blocks...]] for unordered repetitions
    nlab = [0]
    for loop in range(s.rand(1, 4)):
        v, w = s.choice([("a", "b"), ("A", "B"), ("i", "J"), ("x", "n"), ("z", "q"), ("_", "@")])
        text, groups = gen_list(s, tags)
        via = s.weighted([(6, "lit"), (2, "delayed"), (1, "pct")]) if '"' not in text or True else "lit"
        if via != "lit" and text.strip(" :,;"):
            # the list comes out of a variable and is split all the same
            L.append("set list=%s" % text.lstrip())
            text = "!list!" if via == "delayed" else "%list%"
            tags.add(via)
        body = s.weighted([(3, "one"), (2, "block"), (2, "nested"), (2, "acc"), (1, "break"), (1, "line"), (2, "tilde"), (1, "modconf"), (1, "cd")])
        head = s.choice(["for", "FOR", "For"]) + " %%" + v + s.choice([" in ", " IN "]) + "(" + text + ") " + s.choice(["do ", "DO "])
        tags.add(body)
        f = None
        if body == "one":
            L.append(head + "echo {%%%%%s}" % v)
            f = lambda x: "{%s}\n" % x
        elif body == "line":
            L.append(head + "echo {%%%%%s}& echo %%%%%s%%%%%s" % (v, v, v))
            f = lambda x: "{%s}\n%s%s\n" % (x, x, x)
        elif body == "block":
            L += [head + "(", "echo 1 %%%%%s" % v, "echo 2 [%%%%~%s]" % v, ")"]
            f = lambda x: "1 %s\n2 [%s]\n" % (x, unq(x))
        elif body == "cd":
            # the loop goes over the names found where it started, wherever its body goes
            L.append("set base=%cd%")
            if s.bool():
                L += [head + "(", s.choice(["cd %s", "pushd %s", "chdir %s"]) % s.choice(["sub", "d.d", "empty", ".."]), "echo {%%%%%s}" % v, "cd %base%", ")"]
            else:
                p = s.choice(PATS)
                groups = [g for g in [match_files(p)] if g]
                words = [s.text("abcXYZ01", 1, 5) for _ in range(s.rand(0, 3))]
                groups += [[x] for x in words]
                L += ["for %%%%%s in (%s) do (" % (v, " ".join([p] + words)), "echo {%%%%%s}" % v, "cd %base%/" + s.choice(["sub", "d.d", "empty", "sub/deep"]), ")", "cd %base%"]
            f = lambda x: "{%s}\n" % x
        elif body == "tilde":
            L.append(head + 'echo [%%%%~%s]' % v)
            f = lambda x: "[%s]\n" % unq(x)
        elif body == "modconf":
            # %%~nQ: the variable is Q when it is defined, else n
            if v in "abx" or True:
                mv = "n"
                L.append("for %%%%n in (%s) do echo [%%%%~nQ]" % text)
                f = lambda x: "[%sQ]\n" % unq(x)
        elif body == "nested":
            t2, g2 = gen_list(s, tags)
            L += [head + "(", "for %%%%%s in (%s) do echo %%%%%s-%%%%%s" % (w, t2, v, w), "echo end %%%%%s" % v, ")"]
            f = (lambda g2: lambda x: [["u", ["%s-%s\n" % (x, y) for y in g]] if len(g) > 1 else "%s-%s\n" % (x, g[0]) for g in g2] + ["end %s\n" % x])(g2)
        elif body == "acc":
            L += ["set n=0", head + "(", "set /a n+=1", "echo !n! %%%%%s" % v, ")", "echo total !n!"]
            cnt = 0
            for g in groups:
                if len(g) > 1:
                    out.append(["n", cnt, list(g)])
                else:
                    out.append("%d %s\n" % (cnt + 1, g[0]))
                cnt += len(g)
            out.append("total %d\n" % cnt)
            continue
        else:
            nlab[0] += 1
            L += [head + "(", "echo {%%%%%s}" % v, "goto out%d" % nlab[0], "echo never", ")", "echo none", ":out%d" % nlab[0]]
            if groups:
                out.append(["one", ["{%s}\n" % y for y in groups[0]]])
            else:
                out.append("none\n")
            continue
        for g in groups:
            blocks = []
            for x in g:
                r = f(x)
                blocks.append(r)
            if len(g) > 1:
                out.append(["u", blocks])
            else:
                out += blocks[0] if isinstance(blocks[0], list) else [blocks[0]]
        L.append("echo after%d" % loop)
        out.append("after%d\n" % loop)
    return {"script": "\n".join(L) + "\n", "out": out, "tags": sorted(tags), "nontrivial": bool(tags & {"wildcard", "nested", "quoted", "acc", "break", "mid"})}


def consume(text, pat):
    """the rest of text after a match of pat, or None.  Unordered groups are
    matched greedily: their blocks are distinct, so it is exact."""
    if isinstance(pat, str):
        return text[len(pat):] if text.startswith(pat) else None
    if not pat:
        return text
    if pat[0] == "u":
        left = list(pat[1])
        while left:
            for i, b in enumerate(left):
                r = consume_seq(text, b if isinstance(b, list) and (not b or b[0] not in ("u", "n", "one")) else [b])
                if r is not None:
                    text = r
                    del left[i]
                    break
            else:
                return None
        return text
    if pat[0] == "n":
        left, n = list(pat[2]), pat[1]
        while left:
            n += 1
            for i, x in enumerate(left):
                if text.startswith("%d %s\n" % (n, x)):
                    text = text[len("%d %s\n" % (n, x)):]
                    del left[i]
                    break
            else:
                return None
        return text
    for b in pat[1]:
        if text.startswith(b):
            return text[len(b):]
    return None


def consume_seq(text, seq):
    for p in seq:
        text = consume(text, p)
        if text is None:
            return None
    return text


def setup_tree(ctx):
    for f in FILES:
        ctx.put(f, f + "\n")
    os.makedirs(os.path.join(ctx.cwd, "empty"), exist_ok=True)


def run(case, ctx):
    setup_tree(ctx)
    r = ctx.pbat(case["script"])
    if r.timeout:
        return "the program did not terminate"
    if r.err:
        return "unexpected error output %r" % vf.b2s(r.err[:300])
    t = vf.b2s(r.out)
    for i, p in enumerate(case["out"]):
        n = consume(t, p)
        if n is None:
            return "output item %d: expected %r, got %r" % (i, p, t[:200])
        t = n
    if t:
        return "unexpected further output %r" % t[:300]
    return None


# ---- FOR /R and FOR /D search a directory tree
def gen_rec(s):
    kind = s.choice(["R", "D"])
    base = s.choice(["sub", "", ".", "e m", "d.d", "./sub", "sub/deep", "empty"])
    pat = s.choice(["*", "*.txt", "*.dat", "x*", "?.txt", "zz*", "deep", "*.d", "d*", "e*"])
    q = ' "%s"' % base if " " in base or (base and s.bool(20)) else " " + base if base else ""
    L = ["@echo off", "for /%s%s %%%%f in (%s) do (" % (kind if s.bool() else kind.lower(), q, pat), "set /a n+=1", "echo !n! %%f", ")"]
    nb = os.path.normpath(base) if base else "."
    exp = []
    for f in (FILES if kind == "R" else DIRS):
        if nb != "." and not f.startswith(nb + "/"):
            continue
        if fnmatch.fnmatchcase(os.path.basename(f), pat):
            exp.append(f)
    if not any(c in pat for c in "*?"):
        s.reject()
    return {"script": "\n".join(L) + "\n", "exp": sorted(exp), "tags": [kind, "found" if exp else "none"], "nontrivial": bool(exp)}


def run_rec(case, ctx):
    setup_tree(ctx)
    r = ctx.pbat(case["script"])
    if r.timeout or r.err:
        return "timeout %r stderr %r" % (r.timeout, r.err[:200])
    got = []
    for i, l in enumerate(vf.b2s(r.out).split("\n")[:-1]):
        n, _, f = l.partition(" ")
        if n != str(i + 1):
            return "line %d: %r" % (i + 1, l)
        got.append(os.path.relpath(os.path.join(ctx.cwd, f), ctx.cwd))
    if sorted(got) != case["exp"]:
        return "expected %r, got %r" % (case["exp"], sorted(got))


FAMS = [vf.Family("list", gen, run, 15000, 200000), vf.Family("tree", gen_rec, run_rec, 1500, 8000)]

if __name__ == "__main__":
    sys.exit(vf.main("P10", FAMS, rule="a list case is non-trivial when a list has quoted or matching wildcard items, or the loop nests, counts or breaks; a tree case when something matches"))
