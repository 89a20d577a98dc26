"""Wildcards, attributes, DIR and the loops over files against a model of the tree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import posixpath, re, time
import vf
from wild import match, mutate

PIECES = ["a", "b", "ab", "aB", "A", "test", "t", ".", ".txt", ".TXT", ".c", " ", "_", "-", "1", "10", "é", "è", "日", "本", "日本", "[a]", "{", "+", "ba", "x y", "$", "#", "😀", "~"]
ODD = ["!", "%", "^", "&", "'", ";", ",", "=", "(", ")", "@"]


def wild(p): return "*" in p or "?" in p


class Tree:
    def __init__(self, s, odd):
        self.d = {"": None}         # path -> None | (size, mode, mtime)
        self.link = {}
        pool = []
        for _ in range(s.rand(3, 8)):
            n = "".join(s.choice(PIECES + (ODD if odd else [])) for _ in range(s.weighted([(3, 2), (3, 1), (2, 3), (1, 5)])))
            n = n.strip(" ")
            if n in (".", "..", "") or n.startswith("~"): continue
            pool.append(n)
        if not pool: raise vf.Reject()
        dirs = [""]
        for _ in range(s.rand(1, 14)):
            p = posixpath.join(s.choice(dirs), s.choice(pool))
            if p in self.d or p.count("/") > 3: continue
            if s.bool(40):
                self.d[p] = None
                dirs.append(p)
            else:
                size = s.weighted([(4, 0), (3, 1), (3, 2), (2, 3), (1, 4), (1, 5)])
                size = s.rand(0, 999) if size < 2 else s.rand(1000, 9999) if size == 2 else s.rand(10000, 999999) if size == 3 else \
                    s.choice([1000, 999, 9999, 10000, 99999, 100000, 999999, 1000000, 0, 1]) if size == 4 else s.choice([1234567, 123456789, 4294967295, 4294967296, 5000000000, 2147483648])
                self.d[p] = (size, s.choice([0o644, 0o644, 0o444, 0o555, 0o755, 0o600, 0o200]))
        self.pool = pool
        self.mtime = {p: s.rand(0, 2 ** 31 - 1) for p in self.d if p}

    def isdir(self, p): return p in self.d and self.d[p] is None
    def isfile(self, p): return p in self.d and self.d[p] is not None

    def kids(self, d):
        return sorted(x for x in self.d if x and posixpath.dirname(x) == d)

    def norm(self, p):
        p = posixpath.normpath(p) if p else ""
        return "" if p == "." else p

    def rec(self, d, pat):
        r = []
        for x in self.kids(d):
            if match(pat, posixpath.basename(x)): r.append(x)
            if self.isdir(x): r += self.rec(x, pat)
        return r

    def select(self, base, pat, recursive=False, inside=True):
        """-> the list of what is selected; base: the folder pat is relative to"""
        p = self.norm(posixpath.join(base, pat))
        if not wild(pat):
            if p.startswith(".."): raise vf.Reject()
            if self.isdir(p):
                if inside or recursive:
                    r = self.rec(p, "*") if recursive else self.kids(p)
                    return r if inside else r + [p]
                return [p]
            if recursive: raise vf.Reject()
            return [p] if self.isfile(p) and not pat.endswith("/") else []
        levels = [x for x in pat.split("/") if x not in ("", ".")]
        cur = [base]
        for i, l in enumerate(levels):
            last = i == len(levels) - 1
            if l == "..":
                if "" in cur: raise vf.Reject()
                cur = [posixpath.dirname(c) for c in cur]
                continue
            nxt = []
            for c in cur:
                if not self.isdir(c): continue
                if not wild(l):
                    if last and recursive: raise vf.Reject()
                    x = posixpath.join(c, l)
                    if x in self.d: nxt.append(x)
                elif last and recursive: nxt += self.rec(c, l)
                else: nxt += [x for x in self.kids(c) if match(l, posixpath.basename(x))]
            cur = nxt
        return cur

    def attr(self, p, attrs):
        for a in attrs:
            neg, c = a.startswith("-"), a[-1].upper()
            if c == "D": v = self.isdir(p)
            elif c == "R": v = not self.isdir(p) and self.d[p][1] & 0o600 == 0o400
            elif c == "I":
                if self.isdir(p): raise vf.Reject()
                v = self.d[p][0] == 0
            if v == neg: return False
        return True


def pattern(s, t, base, tags, levels=(5, 3, 1), trivial=True):
    n = s.weighted([(w, i + 1) for i, w in enumerate(levels)])
    k = s.weighted([(2 if trivial else 0, "name"), (6, "made"), (3, "usual")])
    names = [x for x in t.d if x]
    if not names: raise vf.Reject()
    below = [posixpath.relpath(x, base or ".") if base else x for x in names if not base or x.startswith(base + "/")]
    if not below: raise vf.Reject()
    x = s.choice(below)
    parts = x.split("/")
    if k == "name": p = x
    elif k == "usual":
        p = "/".join(parts[:-1] + [s.choice(["*", "*.txt", "?", "*a*", "a*", "*.*", "??", "*.c", ".*", "é*"])])
    else:
        parts[-1] = mutate(s, parts[-1])
        for i in range(len(parts) - 1):
            if n > 1 and s.bool(60): parts[i] = mutate(s, parts[i])
        p = "/".join(parts)
    if any(x in (".", "..") for x in p.split("/")): raise vf.Reject()
    if p.count("/") and wild(posixpath.dirname(p)): tags.add("levels")
    if s.bool(10): p = "./" + p
    if s.bool(10): p = p.replace("/", "//")
    if wild(p): tags.add("wildcards")
    else: tags.add("plain name")
    return p


def q(s, p):
    return '"%s"' % p if any(c in p for c in " ,;=&^'()!%\t") or s.bool(20) else p


def ok_unquoted(p): return not any(c in p for c in "!%\"<>|^&")


def gen_dir(s):
    t = Tree(s, True)
    tags = set()
    dirs = [p for p in t.d if t.isdir(p)]
    base = s.choice(dirs) if s.bool(30) else ""
    if not ok_unquoted(base): raise vf.Reject()
    L = ["@echo off"]
    if base: L.append('cd "%s"' % base)
    case = {"q": []}
    for i in range(s.rand(1, 3)):
        rec = s.bool(35)
        long_ = s.bool(30)
        args = [s.choice(["/s", "/S"])] if rec else []
        if not long_: args.append(s.choice(["/b", "/B"]))
        attrs = []
        if s.bool(30):
            attrs = s.choice([["D"], ["-D"], ["R"], ["-R"], ["-D", "I"], ["-D", "-I"], ["R", "-D"], ["-R", "-D"], ["-D", "-R", "-I"], ["d"], ["-d", "r"]])
            args.append(s.choice(["/a:", "/A:", "/a", "/A"]) + "".join(attrs))
            tags.add("attributes")
        p = "" if s.bool(8) else pattern(s, t, base, tags, (1,) if long_ else (5, 3, 1))
        if not ok_unquoted(p): raise vf.Reject()
        absolute = p and s.bool(15)
        if p == "": sel = t.select(base, "*", rec)
        else: sel = t.select(base, p, rec)
        if len(set(sel)) != len(sel): raise vf.Reject()
        if "I" in "".join(attrs).upper(): sel = [x for x in sel if t.isfile(x)]
        sel = [x for x in sel if t.attr(x, attrs)]
        if p:
            if absolute:
                tags.add("absolute")
                args.append(q(s, "@ROOT@/" + (base + "/" if base else "") + p))
            else: args.append(q(s, p))
        L += ["echo #SEP#", s.choice(["dir", "DIR"]) + "".join(" " + a for a in s.shuffle(args))]
        rel = lambda x: ("@ROOT@/" + x) if absolute else posixpath.relpath("/" + x, "/" + base)
        if rec: tags.add("recursive")
        tags.add("long" if long_ else "bare")
        case["q"].append([long_, sorted([rel(x), None if t.isdir(x) else t.d[x][0], t.mtime[x]] for x in sel)])
        if len(sel) > 1: tags.add("several")
        if not sel: tags.add("nothing")
    case["tree"] = [[p, t.d[p], t.mtime[p]] for p in sorted(t.d) if p]
    case["script"] = "\n".join(L) + "\n"
    case["tags"] = sorted(tags)
    case["nontrivial"] = "several" in tags
    return case


UNITS = ["o", "ko", "mo", "go", "to"]


def fsize(n):
    i = last = 0
    while n >= 1000:
        last = n % 1000
        n //= 1000
        i += 1
    if n >= 100: return " %d %s" % (n, UNITS[i])
    if n >= 10: return "  %d %s" % (n, UNITS[i])
    return "%d,%02d %s" % (n, last // 10, UNITS[i])


def mk(case, ctx):
    for p, v, m in case["tree"]:
        x = os.path.join(ctx.cwd, p)
        if v is None: os.makedirs(x, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(x), exist_ok=True)
            vf.sparse(x, v[0])
            os.chmod(x, v[1])
    for p, v, m in sorted(case["tree"], key=lambda e: -e[0].count("/")):
        os.utime(os.path.join(ctx.cwd, p), (m, m))


LINE = re.compile(r"^(\d\d/\d\d/\d\d \d\d:\d\d:\d\d) (<REP>\t|       [ \d][^\t]*)\t(.{7})\t(.*)$", re.S)


def run_dir(case, ctx):
    mk(case, ctx)
    r = ctx.pbat(case["script"].replace("@ROOT@", ctx.cwd), env={"TZ": "UTC0"})
    if r.timeout: return "the program did not terminate"
    out = vf.b2s(r.out).replace(ctx.cwd + "/", "@ROOT@/")
    if r.err or r.rc: return "exit status %r, stderr %r" % (r.rc, vf.b2s(r.err[:300]))
    secs = out.split("#SEP#\n")[1:]
    if len(secs) != len(case["q"]): return "stdout %r" % out[:400]
    for i, (long_, exp) in enumerate(case["q"]):
        lines = secs[i].split("\n")[:-1]
        if long_:
            entries, counts = [], []
            for l in lines:
                m = LINE.match(l)
                if m: entries.append([m.group(4), m.group(2).rstrip("\t"), m.group(1), m.group(3)])
                else: counts += re.findall(r"^\t\t\t\t(\d+) ", l)
            nd = sum(1 for e in entries if e[1] == "<REP>")
            if (entries or exp) and counts != [str(len(entries) - nd), str(nd)]:
                return "listing %d: %d files and %d folders are listed, but the totals are %r" % (i, len(entries) - nd, nd, counts)
            entries = [e for e in entries if posixpath.basename(e[0]) not in (".", "..")]
            got = sorted(posixpath.normpath(e[0]) for e in entries)
        else: got = sorted(posixpath.normpath(l) for l in lines)
        want = sorted(e[0] for e in exp)
        if got != want:
            return "listing %d: missing %r, unexpected %r (listed %r)" % (i, [x for x in want if x not in got], [x for x in got if x not in want or got.count(x) > 1], got[:20])
        if long_:
            by = {e[0]: e for e in exp}
            for n, size, tm, ty in entries:
                _, s, m = by[posixpath.normpath(n)]
                wt = time.strftime("%m/%d/%y %H:%M:%S", time.gmtime(m))
                if tm != wt: return "%s is shown with the time %s, expected %s" % (n, tm, wt)
                ws = "<REP>" if s is None else " " * 7 + fsize(s)
                if size != ws: return "%s is shown with the size %r, expected %r" % (n, size, ws)
                if (ty[0] == "D") != (s is None): return "%s is shown with the type %r" % (n, ty)
    return None


def gen_for(s):
    t = Tree(s, False)
    tags = set()
    dirs = [p for p in t.d if t.isdir(p)]
    base = s.choice(dirs) if s.bool(30) else ""
    L = ["@echo off"]
    if base: L.append('cd "%s"' % base)
    case = {"q": []}
    for i in range(s.rand(1, 3)):
        k = s.weighted([(6, "plain"), (3, "r"), (2, "d")])
        tags.add("for " + k)
        v = s.choice("aiZ")
        if k == "plain":
            pats = [pattern(s, t, base, tags, trivial=False) for _ in range(s.weighted([(3, 1), (2, 2), (1, 3)]))]
            seq = []
            for p in pats:
                if any(c in p for c in ":"): raise vf.Reject()
                if not wild(p): seq.append([p, None])
                else: seq.append([None, sorted(x for x in t.select(base, p) if t.isfile(x))])
            body = " ".join('"%s"' % p if " " in p or (wild(p) and s.bool(20)) else p for p in pats)
            head = "for %%%%%s in (%s) do " % (v, body)
            exp = [[['"%s"' % a if " " in a else a], True] if a is not None else [[posixpath.relpath("/" + x, "/" + base) for x in b], False] for a, b in seq]
        else:
            p = pattern(s, t, "", tags, (1,), trivial=False)
            p = posixpath.basename(p)
            if not wild(p): raise vf.Reject()
            d = s.choice(["", "", "."] + [posixpath.relpath("/" + x, "/" + base) for x in dirs if x.startswith(base)])
            root = t.norm(posixpath.join(base, d))
            sel = [x for x in t.rec(root, p) if t.isdir(x) == (k == "d")]
            if " " in d or " " in p:
                if '"' in p: raise vf.Reject()
            head = "for /%s %s%%%%%s in (%s) do " % (s.choice([k, k.upper()]), ('"%s" ' % d if " " in d or s.bool(20) else d + " ") if d else "", v, p)
            exp = [[[posixpath.relpath("/" + x, "/" + base) for x in sel], False]]
        if k != "plain" and "  " in "".join(e for x in exp for e in x[0]): pass
        L += ["echo #SEP#"]
        if s.bool(30): L += [head + "(", "echo [%%" + v + "]", ")"]
        else: L += [head + "echo [%%" + v + "]"]
        case["q"].append(exp)
        n = sum(len(x[0]) for x in exp)
        if n > 1: tags.add("several")
        if not n: tags.add("nothing")
    case["tree"] = [[p, t.d[p], t.mtime[p]] for p in sorted(t.d) if p]
    case["script"] = "\n".join(L) + "\n"
    case["tags"] = sorted(tags)
    case["nontrivial"] = "several" in tags
    return case


def run_for(case, ctx):
    mk(case, ctx)
    r = ctx.pbat(case["script"])
    if r.timeout: return "the program did not terminate"
    out = vf.b2s(r.out)
    if r.err or r.rc: return "exit status %r, stderr %r" % (r.rc, vf.b2s(r.err[:300]))
    secs = out.split("#SEP#\n")[1:]
    if len(secs) != len(case["q"]): return "stdout %r" % out[:400]
    for i, exp in enumerate(case["q"]):
        got = [l[1:-1] if l[:1] == "[" and l[-1:] == "]" else "?" + l for l in secs[i].split("\n")[:-1]]
        for names, exact in exp:
            part, got = got[:len(names)], got[len(names):]
            if not exact: part = sorted(posixpath.normpath(x) for x in part)
            if part != sorted(names): return "loop %d: expected %r, got %r, then %r" % (i, sorted(names), part, got[:5])
        if got: return "loop %d: unexpected %r" % (i, got)
    return None


def show(case):
    return "tree:\n" + "\n".join("  %s %s" % (p, "<dir>" if v is None else "%d %o" % tuple(v)) for p, v, m in case["tree"]) + "\n" + case["script"]


FAMS = [vf.Family("dir", gen_dir, run_dir, 18000, 200000, show=show),
        vf.Family("for", gen_for, run_for, 12000, 150000, show=show)]

if __name__ == "__main__":
    sys.exit(vf.main("P23", FAMS, rule="at least one search which selects several files"))
