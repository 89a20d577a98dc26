"""A model of a file tree, of the names the file commands select and of the questions they ask.

A content is a list of groups, each a list of byte strings: the files of one group may come in any order (that in
which the system lists a folder)."""
import fnmatch, itertools, os, posixpath
import vf

NAMES = ["a", "b", "c", "a.txt", "b.txt", "c.dat", "x y", "e.txt"]
DIRS = ["d", "e", "d/s", "d/t", "d/s/u", "e/s"]


class FS:
    def __init__(self):
        self.n = {"": None}

    def copy(self):
        f = FS()
        f.n = dict(self.n)
        return f

    def isdir(self, p): return p in self.n and self.n[p] is None
    def isfile(self, p): return self.n.get(p) is not None
    def exists(self, p): return p in self.n

    def children(self, d):
        pre = d + "/" if d else ""
        return sorted(x for x in self.n if x and x.startswith(pre) and "/" not in x[len(pre):])

    def under(self, d):
        pre = d + "/" if d else ""
        return sorted(x for x in self.n if x and x.startswith(pre))

    def mkdir(self, p):
        if p in self.n: return False
        if not self.isdir(posixpath.dirname(p)): return False
        self.n[p] = None
        return True

    def mkdirs(self, p):
        """as MKDIR does -> success"""
        parts = p.split("/")
        for i in range(1, len(parts)):
            self.mkdir("/".join(parts[:i]))
        return self.isdir(p) or self.mkdir(p)

    def write(self, p, groups, mode):
        """-> success"""
        if self.isdir(p) or not self.isdir(posixpath.dirname(p)): return False
        if p in self.n and not self.n[p][1] & 0o200: return False       # read-only
        self.n[p] = (groups, self.n[p][1] if p in self.n else mode)
        return True

    def size(self, p): return sum(len(b) for g in self.n[p][0] for b in g)
    def ro(self, p): return self.n[p] is not None and not self.n[p][1] & 0o200

    def rmdir(self, p):
        if not self.isdir(p) or self.children(p): return False
        del self.n[p]
        return True


def norm(p):
    p = posixpath.normpath(p)
    return "" if p == "." else p


def wild(p): return "*" in p or "?" in p


def glob(fs, pat, recursive=False, indir=False, pseudo=True):
    """-> names selected, None if there is none.  `indir` as in COPY /R: a folder stands for all it contains;
    `pseudo`: . and .. may be selected"""
    if not wild(pat):
        p = norm(pat)
        if not fs.exists(p): return None
        if (recursive or indir) and fs.isdir(p):
            r = match_in(fs, p, "*", recursive)
            return r or None
        return [p]
    d, m = posixpath.split(pat)
    d = norm(d) if d else ""
    if wild(d): raise vf.Reject()
    if not fs.isdir(d): return None
    if pseudo and not recursive and not match_in(fs, d, m, recursive) and m in ("*", "?", "*.*"):
        raise vf.Reject()       # is . or .. selected?
    return match_in(fs, d, m, recursive) or None


def match_in(fs, d, m, recursive):
    r = []
    for x in (fs.under(d) if recursive else fs.children(d)):
        if fnmatch.fnmatchcase(posixpath.basename(x).lower(), m.lower()): r.append(x)
    return r


def attr_ok(fs, p, attr):
    if attr is None: return True
    neg = attr.startswith("-")
    if attr[-1] == "I": v = fs.size(p) == 0 if fs.isfile(p) else False
    elif attr[-1] == "R": v = fs.ro(p)
    elif attr[-1] == "D": v = fs.isdir(p)
    return v != neg


def gen_fs(s, small=False):
    """-> FS, with contents"""
    fs = FS()
    for d in s.subset(DIRS, 50):
        fs.mkdirs(d)
    k = 0
    dirs = [d for d in fs.n if fs.isdir(d)]
    for _ in range(s.rand(2, 9)):
        d = s.choice(dirs)
        p = posixpath.join(d, s.choice(NAMES))
        if fs.exists(p): continue
        k += 1
        kind = s.weighted([(5, "text"), (1, "empty"), (1, "binary"), (1, "big"), (1, "edge"), (1, "noeol")])
        tag = b"%d:" % k
        if kind == "text": b = tag + b"line\n" * s.rand(1, 3)
        elif kind == "empty": b = b""
        elif kind == "binary": b = tag + bytes([0, 13, 10, 26, 255, 200, 10, 13, 0]) * s.rand(1, 4)
        elif kind == "noeol": b = tag + b"x"
        elif kind == "edge": b = (tag * 2048)[:2048 * s.rand(1, 2) + s.rand(-1, 1)]
        else: b = tag * s.choice([3000, 40000])
        fs.n[p] = ([[b]], 0o444 if s.bool(15) else 0o644)
    return fs


def dump(fs):
    """-> a JSON-able description"""
    return [[p, None if v is None else [vf.b2s(b"".join(b for g in v[0] for b in g)), v[1]]]
            for p, v in sorted(fs.n.items()) if p]


def build(ctx, d):
    for p, v in d:
        q = os.path.join(ctx.cwd, p)
        if v is None: os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f: f.write(vf.s2b(v[0]))
            os.chmod(q, v[1])


def expect(fs):
    return [[p, None if v is None else [[[vf.b2s(b) for b in g] for g in v[0]], v[1]]]
            for p, v in sorted(fs.n.items()) if p]


def content_ok(groups, data):
    pos = 0
    for g in groups:
        for perm in itertools.permutations(g) if len(g) < 6 else [g]:
            j = "".join(perm)
            if data[pos:pos + len(j)] == j:
                pos += len(j)
                break
        else:
            return False
    return pos == len(data)


def compare(ctx, exp, modes=False, optional=()):
    """-> a message, or None"""
    got = ctx.tree()
    want = {p: v for p, v in exp}
    for p in sorted(set(got) | set(want)):
        if p in optional: continue
        if p not in got: return "%s is missing" % p
        if p not in want: return "there is an unexpected %s (%s)" % (p, "folder" if got[p] is None else repr(got[p][:80]))
        if (got[p] is None) != (want[p] is None): return "%s is %s" % (p, "a folder" if got[p] is None else "a file")
        if want[p] is not None:
            if not content_ok(want[p][0], vf.b2s(got[p])):
                return "%s holds %d bytes: %r..., expected %r..." % (p, len(got[p]), got[p][:80], repr(want[p][0])[:200])
            if modes:
                m = os.stat(os.path.join(ctx.cwd, p)).st_mode & 0o777
                if (m ^ want[p][1]) & 0o200: return "%s has mode %o, expected %o" % (p, m, want[p][1])
    return None


class Answers:
    """What is typed when asked; may be exhausted"""
    def __init__(self, s, uniform=False):
        self.used = 0
        self.a = []
        self.uniform = uniform
        base = s.choice(["y", "n"])
        if uniform:
            self.a = [base] * (30 if base == "y" else s.choice([30, 0, 1]))
        for _ in range(0 if uniform else s.weighted([(6, 6), (1, 0), (1, 1), (1, 2)])):
            self.a.append(base if uniform else s.weighted([(4, "y"), (3, "n"), (1, "a"), (1, ""), (1, "YES"), (1, "no"), (1, "All"), (1, "what")]))
        self.eof = s.bool(20)       # no new line after the last one
        self.asked = 0

    def text(self):
        t = "".join(x + "\n" for x in self.a)
        return t[:-1] if self.eof and self.a and self.a[-1] else t

    def ask(self):
        """-> 'y', 'n' or 'a'"""
        self.asked += 1
        while True:
            if self.used >= len(self.a): return "n"
            x = self.a[self.used].lower()
            self.used += 1
            if x in ("y", "yes"): return "y"
            if x in ("n", "no", ""): return "n"
            if x in ("a", "all"): return "a"
