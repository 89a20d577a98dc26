"""The functions that libPBat offers to pBat, its tools and its modules, driven directly and checked against models."""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import build, vf, wild

DEF, LOOK = 0x80000000, 0x40000000
LENGTHS = [0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 5000]


def setup(base, bins):
    d = build.build("asan")
    subprocess.check_call(["gcc", "-fsanitize=address,bounds", "-g", "-O1", "-w", "-I" + os.path.join(d, "libpbat"), "-o", os.path.join(base, "bin", "api"), os.path.join(vf.VERIF, "lib", "api.c"),
                           os.path.join(d, "libpbat", "libpBat.a"), "-lpthread", "-lm"])


def hx(t):
    return "x" + (t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape")).hex()


def long_text(s):
    k = s.weighted([(5, "short"), (4, "edge"), (1, "utf")])
    if k == "short":
        return s.text("aAbB\r\n ^\"", 0, 12)
    if k == "utf":
        return s.text("\u00e9a\u672c", 0, 20)
    n = s.choice(LENGTHS) + s.choice([0, 0, -1, 1])
    return ("".join(s.choice("abAB") for _ in range(7)) * (max(n, 0) // 7 + 1))[:max(n, 0)]


def lower(t):
    return "".join(c.lower() if ord(c) < 128 else c for c in t)


# --- strings ----------------------------------------------------------------

def gen_strings(s):
    ops = []
    for _ in range(s.rand(3, 40)):
        r, q = s.rand(0, 5), s.rand(0, 5)
        k = s.weighted([(3, "cpy"), (4, "cat"), (2, "cpyn"), (2, "catn"), (2, "cpye"), (2, "cate"), (4, "rep"), (4, "repi"), (2, "get"), (1, "new"), (1, "dup")])
        if k in ("cpy", "cat"):
            ops.append([k, r, long_text(s)])
        elif k in ("cpyn", "catn"):
            t = long_text(s)
            ops.append([k, r, t, s.choice([0, 1, len(t), len(t) + 1, max(0, len(t) - 1), s.rand(0, 70)])])
        elif k in ("cpye", "cate"):
            ops.append([k, r, q if q != r else (q + 1) % 6])
        elif k in ("rep", "repi"):
            ops.append([k, r, s.weighted([(6, s.text("aAbB", 1, 2)), (1, ""), (1, s.text("aAbB\u00e9 ", 2, 6))]), s.choice(["", "a", "ab", "xyz", "AAAA", s.text("aAbB\u00e9", 0, 40)])])
        elif k == "get":
            ops.append([k, r, "".join(long_text(s) + s.choice(["\n", "\n", "\r\n", "\r", ""]) for _ in range(s.rand(0, 5))), s.choice([1, 1, 1, 2])])
        elif k == "dup":
            ops.append([k, long_text(s)])
        else:
            ops.append([k, r])
    return {"ops": ops, "nontrivial": len(ops) > 4, "tags": sorted({o[0] for o in ops})}


def cut(t, n):
    return t.encode("utf-8", "surrogateescape")[:n].decode("utf-8", "surrogateescape")


def replace_i(t, p, r):
    if not p:
        return t
    out, i, n, f, g = [], 0, len(p), lower(t), lower(p)
    while True:
        j = f.find(g, i)
        if j < 0:
            return "".join(out) + t[i:]
        out += [t[i:j], r]
        i = j + n


def run_strings(c, ctx):
    reg, lines, exp = [""] * 6, [], []
    for i, o in enumerate(c["ops"]):
        k = o[0]
        if k in ("cpy", "cat", "cpyn", "catn"):
            t = cut(o[2], o[3]) if k.endswith("n") else o[2]
            t = t if k.startswith("cpy") else reg[o[1]] + t
            # the halves of a character that meet again
            reg[o[1]] = t.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape")
            lines.append("%s %d %s %s" % (k, o[1], hx(o[2]), o[3] if k.endswith("n") else ""))
        elif k in ("cpye", "cate"):
            reg[o[1]] = (reg[o[1]] if k == "cate" else "") + reg[o[2]]
            lines.append("%s %d %d" % tuple(o))
        elif k in ("rep", "repi"):
            reg[o[1]] = reg[o[1]].replace(o[2], o[3]) if k == "rep" and o[2] else replace_i(reg[o[1]], o[2], o[3]) if k == "repi" else reg[o[1]]
            lines.append("%s %d %s %s" % (k, o[1], hx(o[2]), hx(o[3])))
        elif k == "get":
            ctx.put("f%d" % i, o[2])
            lines.append("get %d %s %d" % (o[1], os.path.join(ctx.cwd, "f%d" % i), o[3]))
            nl = "\n" if o[3] == 1 else "\r"
            L = o[2].split("\n")
            L = [l + "\n" for l in L[:-1]] + ([L[-1]] if L[-1] else [])
            L = [l.replace("\r\n", nl).replace("\r" if o[3] == 1 else "\n", nl) for l in L]
            reg[o[1]] = ""
            exp.append("".join("0%s " % hx(l) for l in L) + "1x ")
            continue
        elif k == "dup":
            lines.append("dup " + hx(o[1]))
            exp.append(hx(o[1]))
            continue
        else:
            reg[o[1]] = ""
            lines.append("new %d" % o[1])
        if len(reg[o[1]]) > 200000:
            raise vf.Reject()
        exp.append(hx(reg[o[1]]))
    return drive(c, ctx, lines, exp)


def drive(c, ctx, lines, exp):
    r = ctx.exec([ctx.bin("api")], stdin="\n".join(lines) + "\n")
    rep = ctx.reports()
    if rep or r.timeout or r.rc:
        return "%s, code %s, %r" % (rep, r.rc, r.err[-600:])
    got = vf.b2s(r.out).split("\n")[:-1]
    for i, e in enumerate(exp):
        g = got[i] if i < len(got) else "nothing"
        if e is not None and g != e:
            return "result %d of %r: expected %s, got %s" % (i, lines[:40] if len(exp) != len(lines) else lines[i], e[:300], g[:300])
    return "more results than operations" if len(got) != len(exp) else None


# --- stacks, command lists, threads -------------------------------------------

NAMES = ["a", "A", "ab", "Ab.c", "abc", "b", "BC", "call", "CALL:", "cd", "cda", "def", "DEFx", "z", "_x", "echo", "ECHO.", "m1", "m2", "m3", "m10", "\u00e9", "@", "go", "goto", "GOTO:", "g"]


def command(s, names):
    n = s.choice(names)
    fl = s.choice([len(n.encode()), len(n.encode()), 0]) | s.choice([0, 0, LOOK])
    if s.bool(40):
        return [n, fl | DEF, s.text("abc $*\n", 0, 12)]
    return [n, fl, s.rand(0, 63)]


def gen_lists(s):
    names = s.subset(NAMES) if s.bool(50) else NAMES
    names = names or ["a"]
    ops = []
    for _ in range(s.rand(3, 40)):
        l = s.rand(0, 2)
        k = s.weighted([(2, "map"), (6, "add"), (3, "subst"), (2, "remap"), (2, "copylist"), (1, "drop"), (9, "find"), (2, "push"), (1, "pop"), (1, "top"), (1, "clear"), (1, "threads")])
        if k == "map":
            seen, cs = set(), []
            for n in s.shuffle(names)[:s.choice([0, 1, 2, 3, 4, 5, 8, 20])]:
                if lower(n) not in seen:
                    seen.add(lower(n))
                    cs.append(command(s, [n]))
            ops.append([k, l, cs])
        elif k in ("add", "subst"):
            ops.append([k, l, command(s, names)])
        elif k == "copylist":
            ops.append([k, l, (l + s.rand(1, 2)) % 3])
        elif k == "find":
            n = s.choice(names)
            n = s.choice([n, n.upper(), n.lower(), n[:-1]]) + s.choice(["", "", " x", "/a", ",", ";b", "\tq", "\n", "x", ":l", ".", s.choice(names), "\u00e9", "&", ")"])
            ops.append([k, l, n])
        elif k == "push":
            ops.append([k, l, s.text("abc", 0, 5)])
        elif k == "threads":
            ops.append([k, s.rand(1, 8)])
        else:
            ops.append([k, l])
    return {"ops": ops, "nontrivial": len({o[0] for o in ops}) > 3, "tags": sorted({o[0] for o in ops})}


def run_lists(c, ctx):
    lists, stacks, lines, exp = [{}, {}, {}], [[], [], []], [], []
    cmd = lambda k: "%s %d %s" % (hx(k[0]), k[1], hx(k[2]) if k[1] & DEF else k[2])
    for o in c["ops"]:
        k = o[0]
        L = lists[o[1]] if k != "threads" else None
        lines.append("%s %d" % (k, o[1]))
        e = "ok"
        if k == "map":
            lines[-1:] = ["drop %d" % o[1], "map %d %s" % (o[1], " ".join(map(cmd, o[2])))]
            exp.append("ok")
            lists[o[1]] = {lower(x[0]): x for x in o[2]}
        elif k == "add":
            lines[-1] += " " + cmd(o[2])
            L.setdefault(lower(o[2][0]), o[2])
            e = "0"
        elif k == "subst":
            lines[-1] += " " + cmd(o[2])
            e = "0" if lower(o[2][0]) in L else "1"
            if e == "0":
                L[lower(o[2][0])] = o[2]
        elif k == "copylist":
            lines[-1] += " %d" % o[2]
            lists[o[2]] = dict(L)
        elif k == "drop":
            lists[o[1]] = {}
        elif k == "find":
            lines[-1] += " " + hx(o[2])
            b = o[2].encode()
            e = "none"
            for n in range(len(b), 0, -1):
                x = L.get(lower(b[:n].decode("utf-8", "surrogateescape")))
                if x and (not x[1] & ~(DEF | LOOK) or n == len(b) or b[n:n + 1] in b" ,;\n\t/"):
                    e = "%d %s" % (x[1], hx(x[2]) if x[1] & DEF else x[2])
                    break
        elif k == "push":
            lines[-1] += " " + hx(o[2])
            stacks[o[1]].append(o[2])
        elif k == "pop":
            e = " " + hx(stacks[o[1]].pop()) if stacks[o[1]] else ""
        elif k == "top":
            e = "0 " + hx(stacks[o[1]][-1]) if stacks[o[1]] else "1 "
        elif k == "clear":
            e = "".join(" " + hx(x) for x in reversed(stacks[o[1]]))
            stacks[o[1]] = []
        elif k == "threads":
            e = "0" * o[1] + "".join(" %d" % i for i in range(o[1])) + " %d" % (500 * o[1])
        exp.append(e)
    return drive(c, ctx, lines, exp)


# --- searches -----------------------------------------------------------------

def quoted(s):
    return s.text(s.choice(["ab^", "ab^\"", "ab^\"&|", "a ,;\t@", "a^\"() \n&", "\u00e9^\" ;"]), 0, s.choice([4, 8, 16, 40]))


def gen_search(s):
    ops = []
    for _ in range(s.rand(5, 40)):
        k = s.weighted([(4, "char"), (6, "token"), (2, "skip"), (2, "strip"), (2, "unescape"), (5, "match"), (1, "size"), (1, "files")])
        if k == "char":
            ops.append([k, quoted(s), s.choice("ab& ;|(\n")])
        elif k == "token":
            ops.append([k, quoted(s), s.choice(["a", "ab", "&|", " ;\t", "()", "\n", ""]), s.choice(["&|", "()", "b", "", "(&|"])])
        elif k == "match":
            n = s.text(s.choice(["ab", "abAB.", "a\u00e9\u672c.", "a/b"]), 0, 10)
            ops.append([k, wild.mutate(s, n) if s.bool(80) else s.text("ab*?/", 0, 8), n])
        elif k == "size":
            ops.append([k, s.choice([s.rand(0, 12), s.rand(90, 1100), 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, s.rand(0, 10 ** 9), s.rand(0, 10 ** 15)]), s.choice([8, 8, 32])])
        elif k == "files":
            ops.append([k, [s.choice(["f", "d", "no", "d/g", "l", "ld", "lx", "d/", ""]) for _ in range(s.rand(0, 5))]])
        else:
            ops.append([k, quoted(s)])
    return {"ops": ops, "nontrivial": any('"' in str(o) or "^" in str(o) for o in ops), "tags": sorted({o[0] for o in ops})}


def free_places(t):
    """places not escaped, then those also out of quotes"""
    free, out, esc, inq = [], [], False, False
    for i, ch in enumerate(t):
        if ch == '"' and not esc:
            inq = not inq
        elif not esc:
            free.append(i)
            if not inq:
                out.append(i)
        if ch == '"' and not esc:
            free.append(i)
        esc = ch == "^" and not esc
    # an unpaired quote goes to the end
    return free, out


def size_text(n):
    u, r = 0, 0
    while n >= 1000 and u < 4:
        n, r, u = n // 1000, n % 1000, u + 1
    w = ["o", "ko", "mo", "go", "to"][u]
    return " %d %s" % (n, w) if n >= 100 else "  %d %s" % (n, w) if n >= 10 else "%d,%02d %s" % (n, r // 10, w)


def run_search(c, ctx):
    lines, exp = [], []
    ctx.put("f", "x")
    ctx.put("d/g", "x")
    for l, t in (("l", "f"), ("ld", "d"), ("lx", "none")):
        os.symlink(t, os.path.join(ctx.cwd, l))
    for o in c["ops"]:
        k, t = o[0], o[1]
        pos = lambda i: str(-1 if i is None else len(t[:i].encode("utf-8", "surrogateescape")))
        first = lambda L, d: next((i for i in L if t[i] in d), None)
        if k in ("char", "token"):
            free, out = free_places(t)
            if k == "char":
                lines.append("char %s %d" % (hx(t), ord(o[2])))
            else:
                lines.append("token %s %s %s" % (hx(t), hx(o[2]), hx(o[3])))
            a = first(free, o[2])
            exp += [pos(a), pos(first(free[::-1], o[2])), pos(first(out, o[2]))]
            if k == "token":
                b = first(out, o[3])
                exp.append(pos(min([x for x in (a, b) if x is not None], default=None)))
        elif k == "skip":
            lines.append("skip " + hx(t))
            n = len(t) - len(t.lstrip(" \t,;\n"))
            m = len(t) - len(t.lstrip(" \t,;\n@"))
            e = t.encode()
            exp += [pos(n), pos(m), str(min(len(e), 2) if t[:1] == "^" else min(len(e), 1))]
        elif k == "strip":
            lines.append("strip " + hx(t))
            exp.append(hx(t.rstrip(" \t,;\n")))
        elif k == "unescape":
            lines.append("unescape " + hx(t))
            r, i = "", 0
            while i < len(t):
                if t[i] == "^":
                    i += 1
                r += t[i:i + 1]
                i += 1
            exp.append(hx(r))
        elif k == "match":
            lines.append("match %s %s" % (hx(t), hx(o[2])))
            for fold in (lambda x: x, wild.fold):
                a, b = wild.naive(t, o[2], fold), wild.first(t, o[2], fold)
                exp.append(None if a != b or re.search(r"\*\?|\?\*", t) else "01"[a])
            m = min([i for i, ch in enumerate(t) if ch in "*?"], default=len(t))
            exp.append(pos(max(t.rfind("/", 0, m), 0)))
        elif k == "size":
            lines.append("size %d %d" % (t, o[2]))
            exp.append(hx(size_text(t)[:o[2] - 1]))
        else:
            lines.append("files " + " ".join(map(lambda n: hx(os.path.join(ctx.cwd, n) if n else ""), t)))
            kind = {"f": "10", "d": "01", "d/g": "10", "l": "10", "ld": "01", "d/": "01"}
            exp += [next((hx(os.path.join(ctx.cwd, n)) for n in t if kind.get(n) == "10"), ""), "".join(kind.get(n, "00") for n in t)]
    return drive(c, ctx, lines, exp)


if __name__ == "__main__":
    sys.exit(vf.main("P33", [vf.Family("strings", gen_strings, run_strings, 2000, 30000), vf.Family("lists", gen_lists, run_lists, 2000, 30000), vf.Family("search", gen_search, run_search, 2500, 40000)],
                     variants=("asan",), setup=setup, rule="several kinds of operations, or quotes and escapes to handle"))
