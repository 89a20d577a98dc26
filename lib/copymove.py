"""COPY and MOVE: generator and reference model"""
import posixpath
import vf
from fsmodel import *


def dst_path(dest, name):
    return posixpath.join(norm(dest), name) if norm(dest) else name


class Cmd:
    """One COPY or MOVE command over a model tree"""
    def __init__(self, s, fs, move, tags, last):
        self.s, self.fs, self.move, self.tags, self.last = s, fs, move, tags, last
        self.optional = []

    def gen(self):
        s, fs = self.s, self.fs
        files = [p for p in fs.n if fs.isfile(p)]
        dirs = [p for p in fs.n if fs.isdir(p)]
        self.rec = s.bool(25)
        opts = []
        silent = None
        for _ in range(s.weighted([(6, 0), (6, 1), (1, 2)])):
            silent = s.choice(["/y", "/Y", "/-y", "/-Y"])
            opts.append(silent)
        self.silent = silent in ("/y", "/Y")
        self.attr = None
        if s.bool(15):
            self.attr = s.choice(["R", "-R"] if self.rec else ["R", "-R", "I", "-I"])
            opts.append(s.choice(["/a:", "/A", "/a"]) + s.choice([self.attr, self.attr.lower()]))
            self.attr = self.attr.upper()
        if self.rec: opts.append(s.choice(["/r", "/R"]))
        self.cat = False
        srcs = []
        for _ in range(s.weighted([(7, 1), (3, 2), (1, 3)])):
            k = s.weighted([(5, "file"), (4, "wild"), (1, "missing"), (3, "dir")] if self.rec else
                           [(6, "file"), (4, "wild"), (1, "missing")])
            if k == "file":
                if not files: raise vf.Reject()
                srcs.append(s.choice(files))
            elif k == "missing": srcs.append(s.choice(["nope", "d/nope", "no*pe", "nodir/x", "nodir/*"]))
            elif k == "dir":
                p = s.choice(dirs)
                if not p: raise vf.Reject()
                srcs.append(p)
            else:
                d = s.choice(dirs)
                srcs.append(posixpath.join(d, s.choice(["*", "*.txt", "a*", "?", "*a*", "*.*", "b.*", "[x*"])))
        if not self.move and not self.rec and len(srcs) > 1 and s.bool(40):
            self.cat = True
        k = s.weighted([(4, "new"), (4, "dir"), (4, "file"), (1, "dirslash"), (1, "newslash"), (1, "nodir"), (1, "self")])
        if k == "new": dest = posixpath.join(s.choice(dirs), s.choice(["n1", "n2.txt", "n 3"]))
        elif k == "dir": dest = s.choice(dirs) or "."
        elif k == "dirslash": dest = (s.choice(dirs) or ".") + "/"
        elif k == "newslash": dest = "newd/"
        elif k == "nodir": dest = "nodir/n"
        elif k == "self": dest = srcs[0]
        else:
            if not files: raise vf.Reject()
            dest = s.choice(files)
        if wild(dest): raise vf.Reject()
        self.tags.add("to " + k)
        self.srcs, self.dest = srcs, dest
        self.dirlike = fs.isdir(norm(dest)) or dest.endswith("/")
        if self.cat and self.dirlike: raise vf.Reject()
        # the text
        q = lambda p: '"%s"' % p if " " in p or s.bool(10) else (s.choice(["./", ""]) + p if s.bool(10) else p)
        words = []
        for i, x in enumerate(srcs):
            if i and self.cat: words.append("+")
            words.append(q(x))
        words.append(q(dest))
        if s.bool(30): words += opts
        else: words = opts + words
        self.answers = Answers(s, uniform=self.uniform())
        return s.choice(["COPY", "copy", "Copy"] if not self.move else ["move", "MOVE", "Move"]) + " " + " ".join(words)

    def uniform(self):
        return self.rec or any(wild(x) for x in self.srcs)

    def apply(self):
        """-> ok"""
        return self.apply_rec() if self.rec else self.apply_flat()

    def confirm(self, dest):
        if not self.fs.isfile(dest) or self.silent: return True
        self.tags.add("asked")
        a = self.answers.ask()
        if a == "a": self.silent = True
        return a != "n"

    def one(self, src, dest):
        """-> ok"""
        fs = self.fs
        if not self.confirm(dest): return True
        return self.transfer(src, dest)

    def transfer(self, src, dest):
        fs = self.fs
        if self.move:
            if src == dest: return True
            if fs.isdir(dest) or not fs.isdir(posixpath.dirname(dest)): return False
            fs.n[dest] = fs.n.pop(src)
            return True
        if src == dest:
            self.tags.add("onto itself")
            return False
        return fs.write(dest, fs.n[src][0], fs.n[src][1])

    def apply_flat(self):
        fs = self.fs
        groups = []
        for x in self.srcs:
            r = glob(fs, x)
            if r is None: return False
            groups.append(r)
        groups = [[p for p in g if fs.isfile(p) and attr_ok(fs, p, self.attr)] for g in groups]
        n = sum(len(g) for g in groups)
        if n > 1: self.tags.add("several")
        allf = [p for g in groups for p in g]
        if len(set(allf)) != len(allf) and self.move: raise vf.Reject()
        if n > 1 and not self.dirlike and not self.move: self.cat = True
        if self.cat: return self.concat(groups)
        multiple = self.dirlike or n > 1
        ok = True
        for g in groups:
            for p in g:
                d = dst_path(self.dest, posixpath.basename(p)) if multiple else norm(self.dest)
                if not self.one(p, d): ok = False
        return ok

    def concat(self, groups):
        fs, dest = self.fs, norm(self.dest)
        self.tags.add("concatenated")
        allf = [p for g in groups for p in g]
        if not allf: return True
        if allf == [dest]: return True
        if any(len(g) > 1 and dest in g for g in groups): raise vf.Reject()
        if allf[0] != dest and dest in allf: raise vf.Reject()      # its content is lost first
        if allf.count(dest) > 1: raise vf.Reject()
        if not self.confirm(dest): return True
        out = []
        for g in groups:
            if all(len(fs.n[p][0]) <= 1 for p in g):
                out.append([fs.n[p][0][0][0] for p in g if fs.n[p][0] and len(fs.n[p][0][0]) == 1])
                if len(out[-1]) != len(g): raise vf.Reject()
            elif len(g) == 1: out += fs.n[g[0]][0]
            else: raise vf.Reject()
        out = [g for g in out if g]
        if any(len(g) > 5 for g in out): raise vf.Reject()
        return fs.write(dest, out, 0o644)

    def apply_rec(self):
        fs = self.fs
        ok = True
        for x in self.srcs:
            r = glob(fs, x, recursive=True, indir=True)
            if r is None:
                ok = False
                continue
            base = posixpath.dirname(norm(x)) if not wild(x) else norm(posixpath.dirname(x) or ".")
            rel = lambda p: p[len(base) + 1:] if base else p
            r = [p for p in r if attr_ok(fs, p, self.attr)]
            dirs = sorted([p for p in r if fs.isdir(p)], key=lambda p: -p.count("/"))
            files = [p for p in r if fs.isfile(p)]
            self.tags.add("tree")
            fset = set(files)
            if any(dst_path(self.dest, rel(p)) in fset and dst_path(self.dest, rel(p)) != p for p in files): raise vf.Reject()
            for p in dirs + files:
                d = dst_path(self.dest, rel(p))
                # what ends up both as a file and as a folder depends on the order
                if fs.exists(d) and fs.isdir(d) != fs.isdir(p): raise vf.Reject()
                q = d
                while q:
                    q = posixpath.dirname(q)
                    if fs.isfile(q): raise vf.Reject()
                # nor is it clear what happens to a tree copied into itself
                if self.move and (d + "/").startswith(norm(x if not wild(x) else base) + "/") : raise vf.Reject()
                if self.move and norm(self.dest) and (norm(self.dest) + "/").startswith((base + "/") if base else ""): raise vf.Reject()
            for p in dirs: fs.mkdirs(dst_path(self.dest, rel(p)))
            for p in files:
                d = dst_path(self.dest, rel(p))
                if not fs.isdir(posixpath.dirname(d)): fs.mkdirs(posixpath.dirname(d))
                if not self.one(p, d): ok = False
            if self.move:
                for p in dirs:
                    if not fs.rmdir(p): ok = False
                if not wild(x) and fs.isdir(norm(x)) and not fs.children(norm(x)):
                    if not self.last: raise vf.Reject()
                    self.optional.append(norm(x))
        return ok


def gen(s, move):
    fs = gen_fs(s)
    tags = set()
    case = {"tree": dump(fs), "cmds": [], "optional": []}
    n = s.rand(1, 4)
    L = ["@echo off"]
    for i in range(n):
        mv = move if s.bool(85) else not move
        c = Cmd(s, fs, mv, tags, i == n - 1)
        t = c.gen()
        before = sorted(fs.n)
        ok = c.apply()
        case["cmds"].append([t, c.answers.text(), ok])
        case["optional"] += c.optional
        if not ok: tags.add("error")
    case["exp"] = expect(fs)
    case["tags"] = sorted(tags)
    case["nontrivial"] = any("tree" == t or t in ("asked", "several", "onto itself", "concatenated") for t in tags) or n > 1
    return case


def run(case, ctx):
    build(ctx, case["tree"])
    L = ["@echo off"]
    for i, (t, a, ok) in enumerate(case["cmds"]):
        ctx.put("../ans%d" % i, a)
        L += [t + " < ../ans%d" % i, "echo %errorlevel%"]
    r = ctx.pbat("\n".join(L) + "\n")
    if r.timeout: return "the program did not terminate"
    got = vf.b2s(r.out).split()
    if len(got) != len(case["cmds"]): return "stdout %r, stderr %r" % (r.out[:300], r.err[:300])
    m = compare(ctx, case["exp"], modes=True, optional=case["optional"])
    if m: return m + " (stderr %r)" % r.err[:400]
    for (t, a, ok), g in zip(case["cmds"], got):
        if (g == "0") != ok: return "the error level of %r is %s, although it %s (stderr %r)" % (t, g, "succeeds" if ok else "fails", r.err[:300])
    return None


def show(case):
    return "tree:\n" + "\n".join("  %s %s" % (p, "<dir>" if v is None else "%o %r" % (v[1], v[0][:30])) for p, v in case["tree"]) + \
        "\ncommands:\n" + "\n".join("  %s   answers %r -> %s" % (t, a, "ok" if ok else "error") for t, a, ok in case["cmds"])
