"""XARGS delivers the lines of its input as parameters, untouched."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import re
import vf

PIECES = ["a", "b", "word", "é", "日本", "😀", "1", "-", ".", "_"]
ODD = ["!", "%", "^", "&", "|", "<", ">", "(", ")", "'", "@", "#", "$", "=", "~", "{", "[", "]", "+", ":", "`", "!v!", "%v%", "%i", "%1", "^^", "&&", "||", "2>x", "%~i", "!", "^!", "%%", "\\"]
SEP = [" ", ",", ";", "\t", "  "]


def line(s, md):
    n = s.weighted([(4, 1), (4, 3), (2, 8)])
    t = "".join(s.choice(SEP if s.bool(25) else ODD if s.bool(45) else PIECES) for _ in range(n))
    if s.bool(3): t += s.choice(["ab", "^", "!", "é ", "%i"]) * s.rand(50, 2000) if not md else ""
    if t.startswith("/") or not t.strip(" ,;\t"): t = "a" + t
    return t


def gen(s):
    tags = set()
    L, exp, files = ["@echo off", 'set "v=VALUE"'], [], {}
    for i in range(s.rand(1, 3)):
        k = s.weighted([(5, "printf"), (4, "echo"), (3, "md")])
        tags.add(k)
        ls = []
        for _ in range(s.weighted([(1, 0), (3, 1), (5, 3), (3, 8), (1, 300 if k != "md" else 20)])):
            t = line(s, k == "md")
            if k == "md": t = t.replace("|", "I").strip(" .")
            if k == "md" and (not t or len(t.encode()) > 200 or set(t) & set("*?/") or t.strip(" ,;\t") == "" or t.strip(".") == ""): continue
            ls.append(t)
        text = "".join(ls)
        if re.search("[!%^]", text): tags.add("special characters")
        if re.search("[ ,;\t]", text): tags.add("delimiters")
        nl = s.choice(["\n", "\n", "\r\n"])
        f = "in%d" % i
        files[f] = nl.join(ls) + (nl if ls and s.bool(80) else "")
        x = s.choice(["xargs", "XARGS", "xargs "])
        if k == "printf":
            n = s.rand(0, 2)
            cmd = '%s /usr/bin/printf "[%%%%s]\\n" x%s' % (x, "".join(" p%d" % j for j in range(n)))
            e = "".join("[%s]\n" % a for a in ["x"] + ["p%d" % j for j in range(n)] + ls)
        elif k == "echo":
            cmd = x + " echo x"
            e = "".join([" " + (('"%s"' % l) if re.search("[ ,;\t]", l) else l) for l in ls])
            e = "x" + e + "\n"
        else:
            L += ["md m%d" % i, "cd m%d" % i]
            cmd = x + " md z z"
            names = ["z"] + ls
            e = sorted(set(names))
        if s.bool(50): cmd = "type %s | %s" % (f if k != "md" else "../" + f, cmd)
        else: cmd = "%s< %s" % (cmd, f if k != "md" else "../" + f)
        w = s.weighted([(5, "plain"), (2, "for"), (1, "block"), (1, "nodelayed")])
        tags.add(w)
        if w == "for": cmd = "for %%i in (LOOP) do " + cmd
        elif w == "block": cmd = "(\n" + cmd + "\n)"
        L += ["echo #SEP#"]
        if w == "nodelayed": L += ["setlocal disabledelayedexpansion", cmd, "endlocal"]
        else: L.append(cmd)
        if k == "md": L += ["cd .."]
        exp.append([k, e])
    return {"script": "\n".join(L) + "\n", "files": files, "exp": exp, "tags": sorted(tags), "nontrivial": "special characters" in tags and "delimiters" in tags}


def run(case, ctx):
    for k, v in case["files"].items(): ctx.put(k, v)
    r = ctx.pbat(case["script"])
    if r.timeout: return "the program did not terminate"
    if r.rc or r.err: return "exit status %r, stderr %r" % (r.rc, vf.b2s(r.err[:300]))
    secs = vf.b2s(r.out).split("#SEP#\n")[1:]
    if len(secs) != len(case["exp"]): return "stdout %r" % r.out[:400]
    for i, (k, e) in enumerate(case["exp"]):
        if k == "md":
            got = sorted(os.listdir(os.path.join(ctx.cwd, "m%d" % i)))
            if got != sorted(e): return "command %d: expected the folders %r, got %r" % (i, e, got)
            e = ""
        if secs[i] != e: return "command %d: %s" % (i, vf.diff_text(e, secs[i]))
    return None


def show(case):
    return "".join("%s: %r\n" % (k, v[:300]) for k, v in case["files"].items()) + case["script"]


FAMS = [vf.Family("xargs", gen, run, 20000, 250000, show=show)]

if __name__ == "__main__":
    sys.exit(vf.main("P26", FAMS, rule="lines with delimiters and with characters that are special in scripts"))
