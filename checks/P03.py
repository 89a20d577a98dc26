"""%~ options of parameters and FOR variables against a path model."""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

ALPH = "abcxyzABZ0189._-+@#= ,;~" + "\u00e9\u4e2d"
FLAGS = "fdnpxzta"


def gen_name(s):
    while True:
        k = s.weighted([(5, 0), (2, 1), (1, 2), (1, 3)])
        n = s.choice("abcxyzABZ019_-@#") + s.text(ALPH, 0, 6)
        if k == 1:
            n += "." + s.choice(["txt", "b", "tar.gz", "E", ""])
        elif k == 2:
            n = "." + n
        elif k == 3:
            n += ".." + s.text("abc.", 1, 3)
        n = n.rstrip(" ")
        if n.strip("."):
            return n


def options(s):
    """an option string; path options in their usual compounds"""
    if s.bool(25):
        return s.text(FLAGS, 1, s.choice([2, 4, 16]))
    r = ""
    for _ in range(s.rand(1, 3)):
        r += s.choice(["f", "d", "p", "n", "x", "z", "t", "a", "nx", "dp", "dpnx", "dpn", "pn", "pnx"])
    return r[:16]


def split(p):
    i = max(p.rfind("/"), p.rfind("\\"))
    d, n = p[:i + 1], p[i + 1:]
    j = n.rfind(".")
    return (d, n, "") if j < 0 else (d, n[:j], n[j:])


def apply(opts, path, info):
    """path: absolute path; info: (size, time text, is dir) or None"""
    d, n, x = split(path)
    r = ""
    for i, c in enumerate(opts):
        nxt = opts[i + 1:i + 2]
        if c == "f":
            r += path
        elif c == "d":
            pass
        elif c == "p":
            r += d
        elif c == "n":
            r += n
        elif c == "x":
            r += x
        elif c == "z":
            r += str(info[0])
        elif c == "t":
            r += info[1]
        elif c == "a":
            r += "D      " if info[2] else "       "
        if nxt and not (c == "d" and nxt == "p") and not (c == "p" and nxt == "n") and not (c == "n" and nxt == "x"):
            r += "\t"
    return r


def gen(s):
    # a small tree
    dirs, files = [""], {}
    for _ in range(s.rand(0, 3)):
        d = s.choice(dirs)
        dirs.append((d + "/" if d else "") + gen_name(s))
    dirs = list(dict.fromkeys(dirs))
    for _ in range(s.rand(1, 4)):
        d = s.choice(dirs)
        f = (d + "/" if d else "") + gen_name(s)
        if f not in dirs:
            files[f] = [s.choice([0, 1, 5, 17, 1000, 70001]), s.rand(0, 2000000000), s.rand(0, 2000000000)]
    for f in files:
        for d in dirs:
            if d == f or d.startswith(f + "/"):
                raise vf.Reject()
    if not files:
        raise vf.Reject()
    cd = s.choice(dirs)

    def item():
        """[text, path below the top, how]"""
        k = s.weighted([(6, "rel"), (3, "abs"), (1, "dot"), (1, "none")])
        t = s.choice(sorted(files)) if s.bool(75) or len(dirs) == 1 else s.choice(dirs[1:])
        if k == "none":
            return ["none", gen_name(s) + "-missing"]
        if k == "rel":
            return ["rel", os.path.relpath("/" + t, "/" + cd)]
        if k == "dot":
            return ["rel", "./" + os.path.relpath("/" + t, "/" + cd)]
        return ["abs", t]
    mode = s.weighted([(3, "for"), (3, "arg"), (1, "zero")])
    tags = [mode]
    case = {"dirs": dirs[1:], "files": files, "cd": cd, "mode": mode}
    if mode == "for":
        names = [s.choice("IJKabdfnptxzQ19_") for _ in range(s.rand(1, 2))]
        if len(set(names)) != len(names):
            raise vf.Reject()
        case["items"] = [item() for _ in names]
        case["names"] = names
    elif mode == "arg":
        names = [str(i + 1) for i in range(s.rand(1, 4))]
        case["items"] = [item() for _ in names]
        case["names"] = names
        case["label"] = s.bool(40)
    else:
        names = ["0"]
        case["names"] = names
        case["items"] = []
        d = s.choice(dirs)
        case["script_at"] = (d + "/" if d else "") + gen_name(s).rstrip(".") + ".bat"
        if case["script_at"] in files or case["script_at"] in dirs:
            raise vf.Reject()
        case["label"] = s.bool(50)
    refs = []
    for _ in range(s.rand(1, 5)):
        v = s.choice(names)
        o = options(s) if s.bool(90) else ""
        if mode == "zero" and o == "":
            o = "f"
        refs.append([o, v])
        tags.append("opts%d" % min(3, len(o)))
        if any(n in FLAGS for n in names):
            tags.append("letter-conflict")
    case["refs"] = refs
    # text after a reference must not extend it
    case["tail"] = s.choice(["]", " .", "/q", "-" ])
    case["tags"] = sorted(set(tags))
    case["nontrivial"] = any(o for o, v in refs)
    return case


def resolve(names, text):
    """the documented greedy rule: which variable does the text after ~ refer to"""
    i = 0
    while i < len(text) and text[i] in FLAGS and i < 16:
        i += 1
    if i < len(text) and text[i] in names:
        return text[:i], text[i], text[i + 1:]
    while i > 0:
        i -= 1
        if text[i] in names:
            return text[:i], text[i], text[i + 1:]
    return None


def q(t):
    return '"%s"' % t


def run(case, ctx):
    top = ctx.cwd
    for d in case["dirs"]:
        os.makedirs(os.path.join(top, d), exist_ok=True)
    for f, (size, at, mt) in case["files"].items():
        p = ctx.put(f, b"x" * size)
        os.utime(p, (at, mt))
    mode, names = case["mode"], case["names"]
    cur = os.path.join(top, case["cd"]) if case["cd"] else top
    vals = {}
    for n, (k, t) in zip(names, case["items"]):
        vals[n] = top + "/" + t if k == "abs" else t
    script_path = os.path.join(top, case["script_at"]) if mode == "zero" else os.path.join(ctx.root, "s.bat")

    def describe(v):
        if v == "0":
            p = script_path
        else:
            p = vals[v] if vals[v].startswith("/") else cur + "/" + vals[v]
        if os.path.isdir(p):
            return p, (None, None, True)
        if not os.path.exists(p):
            return p, None
        st = os.stat(p)
        return p, (st.st_size, time.strftime("%m/%d/%y %H:%M:%S", time.gmtime(st.st_atime)), False)
    exp, lines = [], []
    allnames = names if mode == "for" else [str(i) for i in range(10)]
    for o, v in case["refs"]:
        r = resolve(allnames, o + v + case["tail"])
        if r is None:
            continue
        ro, rv, rest = r
        if rv in vals or rv == "0":
            if rv == "0" and not ro:
                continue
            if ro:
                p, info = describe(rv)
                if any(c in ro for c in "zta") and info is None:
                    continue           # nothing is specified about missing files
                if any(c in ro for c in "zt") and info[2]:
                    continue
                if rv == "0" and any(c in ro for c in "zt"):
                    if "t" in ro:
                        continue
                val = (ro, p, info)
            else:
                val = vals[rv]
        else:
            continue
        lines.append((o + v, case["tail"]))
        exp.append((val, rest))
    if not lines:
        raise vf.Reject()
    pc = "%%" if mode == "for" else "%"
    body = ["echo [%s~%s%s" % (pc, a, b) for a, b in lines]
    L = ["@echo off"]
    argv = []
    if case["cd"]:
        L.append("cd " + q(top + "/" + case["cd"]))
    if mode == "for":
        for i, n in enumerate(names):
            L.append("for %%%%%s in (%s) do (" % (n, q(vals[n])))
        L += body + [")"] * len(names)
    elif mode == "arg":
        if case["label"]:
            L += ["call :l " + " ".join(q(vals[n]) for n in names), "goto :eof", ":l"] + body
        else:
            L += body
            argv = [vals[n] for n in names]
    else:
        L += (["call :l", "goto :eof", ":l"] + body) if case["label"] else body
    text = "\n".join(L) + "\n"
    if mode == "zero":
        p = ctx.put(case["script_at"], text)
        argv0 = [ctx.bin("pbat"), case["script_at"]]
        if case["script_at"].startswith("/"):
            raise vf.Reject()
        r = ctx.exec(argv0, env={"TZ": "UTC"})
    else:
        r = ctx.pbat(text, args=argv, env={"TZ": "UTC"})
    out = ""
    for val, rest in exp:
        if isinstance(val, tuple):
            ro, p, info = val
            if names == ["0"] and info and "z" in ro:
                info = (os.path.getsize(p), info[1], info[2])
            val = apply(ro, p, info)
        out += "[" + val + rest + "\n"
    bad = vf.expect_run(r, out)
    if bad:
        return bad + "\nscript:\n" + text
    return None


FAMS = [vf.Family("tilde", gen, run, 20000, 250000)]

if __name__ == "__main__":
    sys.exit(vf.main("P03", FAMS, rule="a case is non-trivial when a reference carries at least one option letter",
                     assumptions=["size and time of missing files are not specified"]))
