"""DEL, RD and MD against a reference model of the tree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import posixpath, re
import vf
from fsmodel import *


def q(s, p, isdir=False):
    if isdir and s.bool(15): p += "/"
    if s.bool(8): p = "./" + p
    return '"%s"' % p if " " in p or s.bool(10) else p


def case_of(s, w): return s.choice([w, w.upper(), w.capitalize()])


def words(s, name, opts, args):
    opts = [case_of(s, o) if len(o) == 2 else o for o in opts]
    w = opts + args if s.bool(70) else args + opts
    return " ".join([name] + w)


def cmd_del(s, fs, tags, links):
    files = [p for p in fs.n if fs.isfile(p)]
    dirs = [p for p in fs.n if p and fs.isdir(p) and p not in links]
    if links: raise vf.Reject()
    rec = s.bool(25)
    opts = ["/s"] if rec else []
    force = s.bool(30)
    if force: opts.append("/f")
    k = s.weighted([(6, ""), (4, "/q"), (3, "/p")])
    if k: opts.append(k)
    attr = None
    if s.bool(15):
        attr = s.choice(["R", "-R", "I", "-I", "D", "-D"])
        opts.append(s.choice(["/a:", "/A", "/a"]) + s.choice([attr, attr.lower()]))
    names = []
    for _ in range(s.weighted([(7, 1), (3, 2), (1, 3)])):
        t = s.weighted([(6 if not rec else 0, "file"), (4, "wild"), (1, "missing"), (3, "dir")])
        if t == "file":
            if not files: raise vf.Reject()
            names.append(s.choice(files))
        elif t == "missing": names.append(s.choice(["nope", "d/nope", "no*pe", "nodir/x", "nodir/*"]))
        elif t == "dir":
            if not dirs: raise vf.Reject()
            names.append(s.choice(dirs))
        else: names.append(posixpath.join(s.choice(dirs + [""]), s.choice(["*", "*.txt", "a*", "?", "*a*", "*.*", "b.*"])))
        tags.add("del " + t)
    text = words(s, case_of(s, s.choice(["del", "erase"])), opts, [q(s, p, fs.isdir(p)) for p in names])
    anywild = any(wild(x) for x in names)
    asks = k == "/p" or (anywild and k != "/q")
    many = anywild or any(fs.isdir(p) for p in names)
    ans = Answers(s, uniform=many)
    sel = []
    for x in names:
        r = glob(fs, x, recursive=rec, indir=True, pseudo=False)
        if r is None: return text, ans, False
        sel += r
    if len(set(sel)) != len(sel): raise vf.Reject()
    if rec: tags.add("del tree")
    all_ = False
    n = 0
    for p in sel:
        if not fs.isfile(p) or not attr_ok(fs, p, attr): continue
        if fs.ro(p):
            tags.add("read-only")
            if not force: continue
        n += 1
        if asks and not all_:
            tags.add("asked")
            a = ans.ask()
            if a == "n": continue
            if a == "a": all_ = True
        del fs.n[p]
    if n > 1: tags.add("several")
    return text, ans, True


def cmd_rd(s, fs, tags, links):
    dirs = [p for p in fs.n if p and fs.isdir(p)]
    empty = [p for p in dirs if not fs.children(p)]
    files = [p for p in fs.n if fs.isfile(p)]
    rec = s.bool(50)
    opts = ["/s"] if rec else []
    quiet = s.bool(50 if rec else 15)
    if quiet: opts.append("/q")
    names = []
    n = s.weighted([(7, 1), (3, 2), (1, 3)])
    for _ in range(n):
        t = s.weighted([(6, "dir"), (3, "empty"), (1, "missing"), (1, "file")])
        l = {"dir": dirs, "empty": empty, "file": files, "missing": ["nope", "d/nope", "nope/x"]}[t]
        if not l: raise vf.Reject()
        names.append(s.choice(l))
        tags.add("rd " + t)
    text = words(s, case_of(s, s.choice(["rd", "rmdir"])), opts, [q(s, p, fs.isdir(p) and p not in links) for p in names])
    ans = Answers(s, uniform=True)
    if any(not fs.exists(x) for x in names):
        if len(names) > 1: raise vf.Reject()
        return text, ans, False
    ok = True
    if not rec:
        if len(names) > 1 and any(x in links for x in names): raise vf.Reject()
        for x in names:
            if not fs.rmdir(x): ok = False
        return text, ans, ok
    if any((x + "/").startswith(y + "/") for i, x in enumerate(names) for j, y in enumerate(names) if i != j): raise vf.Reject()
    sel = []
    for x in names:
        if fs.isfile(x): ok = False
        elif x in links: raise vf.Reject()
        else: sel += fs.under(x) + [x]
    if len(sel) > 2: tags.add("rd tree")
    all_ = quiet
    if any(p in links for p in sel): tags.add("link removed")
    yes = []
    for p in sel:
        if not all_:
            tags.add("asked")
            a = ans.ask()
            if a == "a": all_ = True
            yes.append(a != "n")
        else: yes.append(True)
    if any(yes) and not all(yes): raise vf.Reject()
    if yes and yes[0]:
        for p in sel: del fs.n[p]
    return text, ans, ok


def cmd_md(s, fs, tags, links):
    names = []
    dirs = [p for p in fs.n if fs.isdir(p) and p not in links]
    files = [p for p in fs.n if fs.isfile(p)]
    ok = True
    n = s.weighted([(6, 1), (2, 2), (1, 3)])
    for i in range(n):
        t = s.weighted([(4, "new"), (4, "deep"), (1, "exists"), (1, "file"), (1, "below")])
        if t == "new": p = posixpath.join(s.choice(dirs), s.choice(["n1", "n2", "d", "x y", "e"]))
        elif t == "deep": p = posixpath.join(s.choice(dirs), "/".join(s.choice(["n1", "n2", "a", "x y", "s"]) for _ in range(s.rand(2, 5))))
        elif t == "exists": p = s.choice(dirs)
        else:
            if not files: raise vf.Reject()
            p = s.choice(files)
            if t == "below": p += "/n1"
        if not p: raise vf.Reject()
        tags.add("md " + t)
        names.append(q(s, p, t != "file"))
        if any(p == l or p.startswith(l + "/") for l in links): raise vf.Reject()
        if not fs.mkdirs(p):
            ok = False
            if i < n - 1: raise vf.Reject()
    return " ".join([case_of(s, s.choice(["md", "mkdir"]))] + names), Answers(s, uniform=True), ok


def gen(s, wd, wr, wm):
    fs = gen_fs(s)
    tags = set()
    links = []
    tree = dump(fs)
    if s.bool(30):
        # links to folders and files, in folders which do not hold the target
        dirs = [p for p in fs.n if p and fs.isdir(p)]
        for i in range(s.rand(1, 2)):
            if not dirs: break
            d, t = s.choice(dirs), s.choice([p for p in fs.n if p and p not in links])
            if (t + "/").startswith(d + "/") or (d + "/").startswith(t + "/"): continue
            if fs.isfile(t) and fs.ro(t): continue
            p = d + "/link%d" % i
            links.append(p)
            fs.n[p] = None if fs.isdir(t) else fs.n[t]
            tree.append([p, t])
    case = {"tree": [x for x in tree if not isinstance(x[1], str)], "links": [x for x in tree if isinstance(x[1], str)], "cmds": []}
    n = s.rand(1, 5)
    for i in range(n):
        text, ans, ok = s.weighted([(wd if not links else 0, cmd_del), (wr, cmd_rd), (wm, cmd_md)])(s, fs, tags, links)
        case["cmds"].append([text, ans.text(), ok])
        # a link is worth what it leads to
        for l, t in case["links"]:
            if not fs.exists(t) and fs.exists(l): raise vf.Reject()
        if not ok: tags.add("error")
    case["exp"] = expect(fs)
    case["tags"] = sorted(tags)
    case["nontrivial"] = n > 1 or any(t in tags for t in ("asked", "del tree", "rd tree", "several", "read-only", "md deep"))
    return case


def run(case, ctx):
    build(ctx, case["tree"])
    for l, t in case["links"]:
        os.symlink(os.path.relpath(os.path.join(ctx.cwd, t), os.path.join(ctx.cwd, os.path.dirname(l))), os.path.join(ctx.cwd, l))
    L = ["@echo off"]
    for i, (t, a, ok) in enumerate(case["cmds"]):
        ctx.put("../ans%d" % i, a)
        L += [t + " < ../ans%d" % i, "echo %errorlevel%"]
    r = ctx.pbat("\n".join(L) + "\n")
    if r.timeout: return "the program did not terminate"
    got = vf.b2s(r.out).split()
    if len(got) != len(case["cmds"]): return "stdout %r, stderr %r" % (r.out[:300], r.err[:300])
    m = compare(ctx, case["exp"], modes=True)
    if m: return m + " (stderr %r)" % r.err[:400]
    for (t, a, ok), g in zip(case["cmds"], got):
        if (g == "0") != ok: return "the error level of %r is %s, although it %s (stderr %r)" % (t, g, "succeeds" if ok else "fails", r.err[:300])
    return None


def show(case):
    return "tree:\n" + "\n".join("  %s %s" % (p, "<dir>" if v is None else "%o %r" % (v[1], v[0][:30])) for p, v in case["tree"]) + \
        "".join("\n  %s -> %s" % tuple(x) for x in case["links"]) + \
        "\ncommands:\n" + "\n".join("  %s   answers %r -> %s" % (t, a[:40], "ok" if ok else "error") for t, a, ok in case["cmds"])


# ------------------------------------------------ what is answered to what

def gen_answers(s):
    fs = gen_fs(s)
    tags = set()
    if not any(fs.isfile(p) for p in fs.n): raise vf.Reject()
    dirs = [p for p in fs.n if p and fs.isdir(p)]
    rd = bool(dirs) and s.bool(45)
    if rd:
        names = [s.choice(dirs)]
        if s.bool(25): names = names + [s.choice(dirs)]
        if any((x + "/").startswith(y + "/") for i, x in enumerate(names) for j, y in enumerate(names) if i != j): raise vf.Reject()
        cmd = words(s, case_of(s, s.choice(["rd", "rmdir"])), ["/s"], [q(s, p, True) for p in names])
        sel = [p for x in names for p in fs.under(x) + [x]]
        tags.add("rd")
    else:
        rec, force = s.bool(35), s.bool(40)
        names, pats = [], []
        for _ in range(s.weighted([(6, 1), (3, 2)])):
            d = s.choice(dirs + [""])
            if dirs and s.bool(25): x = s.choice(dirs)
            elif s.bool(15) and not rec: x = s.choice([p for p in fs.n if fs.isfile(p)])
            else: x = posixpath.join(d, s.choice(["*", "*.txt", "a*", "?", "*a*", "b.*", "*"]))
            names.append(x)
        anyw = any(wild(x) for x in names)
        opts = (["/s"] if rec else []) + (["/f"] if force else []) + (["/p"] if not anyw or s.bool(25) else [])
        cmd = words(s, case_of(s, s.choice(["del", "erase"])), opts, [q(s, p, fs.isdir(p)) for p in names])
        sel = []
        for x in names:
            r = glob(fs, x, recursive=rec, indir=True, pseudo=False)
            if r is None: raise vf.Reject()
            sel += r
        sel = [p for p in sel if fs.isfile(p) and (force or not fs.ro(p))]
        if len(set(sel)) != len(sel): raise vf.Reject()
        tags.add("del")
        if rec: tags.add("del /s")
    ans = [s.weighted([(9, "y"), (7, "n"), (1, "a"), (1, ""), (1, "YES"), (1, "no"), (1, "All"), (1, "what"), (1, "yn")]) for _ in range(s.weighted([(8, 40), (1, 1), (1, 3)]))]
    if len(sel) > 2: tags.add("several")
    return {"tree": dump(fs), "cmd": cmd, "ans": ans, "sel": sorted(sel), "rd": rd, "tags": sorted(tags), "nontrivial": len(sel) > 2}


def run_answers(case, ctx):
    build(ctx, case["tree"])
    ctx.put("../ans", "".join(x + "\n" for x in case["ans"]))
    modes = {p: os.stat(os.path.join(ctx.cwd, p)).st_mode & 0o777 for p, v in case["tree"]}
    r = ctx.pbat("@echo off\n" + case["cmd"] + " < ../ans\necho %errorlevel%\n")
    if r.timeout: return "the program did not terminate"
    asked = []
    for k, f, d in re.findall(r'delete (file) "([^"]*)" \?|remove "([^"]*)" directory', vf.b2s(r.err)):
        p = f if k else d
        if not p.startswith(ctx.cwd + "/"): return "there is a question about %r" % p
        p = posixpath.normpath(p[len(ctx.cwd) + 1:])
        if asked and asked[-1] == p: return "%s is asked about twice" % p
        asked.append(p)
    sel = set(case["sel"])
    if len(set(asked)) != len(asked): return "something is asked about twice: %r" % asked
    if not set(asked) <= sel: return "the questions are about %r, the command selects %r" % (asked, case["sel"])
    nodes = {p: v for p, v in case["tree"]}
    for i, p in enumerate(asked):
        if nodes[p] is None and any(x.startswith(p + "/") for x in asked[i:]): return "%s is asked about before what it holds: %r" % (p, asked)
    i, yes, all_ = 0, set(), False
    for k, p in enumerate(asked):
        a = "n"
        while i < len(case["ans"]):
            x = case["ans"][i].lower()
            i += 1
            if x in ("y", "yes", "n", "no", "a", "all", ""):
                a = x[:1] or "n"
                break
        if a == "y": yes.add(p)
        if a == "a":
            yes |= sel - set(asked[:k])
            all_ = True
            if k + 1 < len(asked): return "the answer to the question about %s was \"all\", but %s is asked about" % (p, asked[k + 1])
    if not all_ and set(asked) != sel: return "the questions are about %r, the command selects %r" % (asked, case["sel"])
    left = set(nodes)
    ok = True
    for p in sorted(yes, key=lambda x: -x.count("/")):
        if nodes[p] is not None: left.discard(p)
    for p in sorted(yes, key=lambda x: -x.count("/")):
        if nodes[p] is None:
            if any(x.startswith(p + "/") for x in left): ok = False
            else: left.discard(p)
    got = set(ctx.tree())
    if got != left: return "left are %r, expected %r; asked about %r" % (sorted(got), sorted(left), asked)
    for p in left:
        m = os.stat(os.path.join(ctx.cwd, p)).st_mode & 0o777
        if m != modes[p]: return "the mode of %s was %o and is %o" % (p, modes[p], m)
    lv = vf.b2s(r.out).strip()
    if (lv == "0") != ok: return "the error level is %s, although %s (stderr %r)" % (lv, "all is done" if ok else "a folder is not empty", r.err[-300:])
    return None


def show_answers(case):
    return "tree:\n" + "\n".join("  %s %s" % (p, "<dir>" if v is None else "%o %r" % (v[1], v[0][:30])) for p, v in case["tree"]) + \
        "\n%s   answers %r" % (case["cmd"], case["ans"])


FAMS = [vf.Family("del", lambda s: gen(s, 6, 1, 1), run, 9000, 150000, show=show),
        vf.Family("rd", lambda s: gen(s, 1, 6, 1), run, 9000, 150000, show=show),
        vf.Family("md", lambda s: gen(s, 1, 1, 6), run, 4000, 60000, show=show),
        vf.Family("answers", gen_answers, run_answers, 6000, 90000, show=show_answers)]

if __name__ == "__main__":
    sys.exit(vf.main("P21", FAMS, rule="several commands, or one which selects several files or a tree, asks, meets a read-only file or creates nested folders"))
