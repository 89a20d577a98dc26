"""PBATIZE: scripts with glued switches are rewritten, nothing else changes."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

SW = {"RD": "SQ", "RMDIR": "SQ", "CD": "D", "CHDIR": "D", "COPY": "RYA", "DEL": "PFSQA", "ERASE": "PFSQA", "DIR": "ASB", "FOR": "FLRD", "IF": "I", "SET": "AP", "EXIT": "B", "FIND": "NCVIE", "MORE": "EPSCT"}
# text in which no command is followed by a switch
FREE = ["echo hello", "rem a / b", ":label", "echo a/b c/d", "echo 50%% & echo x", "", "   ", "set V=a b", "echo \"quoted /q text\"", "goto :eof", "echo ^^! !V!", "echo é", "call x.bat /x/y", "if exist a echo b", "\tfor %%i in (a b) do echo %%i", "echo %s %d %n", "cd dir", "copy a b"]


def case(s, t):
    return t.upper() if s.bool(50) else t.lower() if s.bool(70) else t.title()


def gen(s):
    tags, src, exp = set(), [], []
    for _ in range(s.rand(1, 8)):
        if s.bool(30):
            x = s.choice(FREE)
            src.append(x)
            exp.append(x)
            continue
        c = s.choice(sorted(SW))
        sw = s.shuffle(s.subset(SW[c], 60))
        cc = case(s, c)
        pre = s.choice(["", "", "  ", "@", "(", "echo a & ", "x && "])
        a, e = pre + cc, pre + cc
        for i, w in enumerate(sw):
            w = "/" + case(s, w)
            g = s.bool(65)
            a += ("" if g else " ") + w
            e += " " + w
            if g:
                tags.add("glued" if i else "glued-to-command")
        if len(sw) > 2:
            tags.add("many")
        rest = s.choice(["", " name", " a b", " \"x y\"", " %1", " v=1+2", " (a) do echo b", " > out.txt", " dir/name"])
        a += rest
        e += rest
        src.append(a)
        exp.append(e)
        tags.add(c)
    end = s.bool(80)
    return {"script": "\n".join(src) + ("\n" if end else ""), "expect": "\n".join(exp) + ("\n" if end else ""), "file": s.bool(50), "tags": sorted(tags), "nontrivial": "glued" in tags or "glued-to-command" in tags}


def convert(ctx, text, tofile):
    ctx.put("in.bat", text)
    r = ctx.exec([ctx.bin("full/cmd/pbatize"), "in.bat"] + (["out.bat"] if tofile else []))
    if r.timeout or r.rc or r.err:
        return None, "pbatize: status %r, error output %r" % (r.rc, r.err[:200])
    return (ctx.tree()["out.bat"] if tofile else r.out).decode("utf-8", "surrogateescape"), None


def run(case, ctx):
    out, bad = convert(ctx, case["script"], case["file"])
    if bad:
        return bad
    e = case["expect"]
    # a command and a switch which are separated may become upper case
    if len(out) != len(e) or out.lower() != e.lower():
        return vf.diff_text(e, out)
    for i, (a, b) in enumerate(zip(e, out)):
        if a != b and b != a.upper():
            return "character %d became %r, was %r" % (i, b, a)
    for x, y, z in zip(case["script"].split("\n"), out.split("\n"), e.split("\n")):
        if x == z and not re.search(r"/\w", x) and y != x:
            return "line %r became %r" % (x, y)
    # what is separated already stays as it is
    again, bad = convert(ctx, out, False)
    if bad:
        return bad
    return None if again == out else "converting the result again changes it: " + vf.diff_text(out, again)


# scripts which are run

def gen_run(s):
    tags = set()
    L, out = [], ""

    def sw(c, ws, rest):
        r = case(s, c)
        for w in s.shuffle(ws):
            g = s.bool(70)
            r += ("" if g else " ") + "/" + case(s, w)
            if g:
                tags.add(c + "-glued")
        return r + rest

    n = 0
    for _ in range(s.rand(1, 6)):
        n += 1
        k = s.choice(["rd", "del", "copy", "for", "if", "set", "cd", "dir", "find"])
        if k == "rd":
            L += ["mkdir d%d" % n, "echo x> d%d/f" % n, sw("rd", ["s", "q"], " d%d" % n), "if not exist d%d echo:gone" % n]
            out += "gone\n"
        elif k == "del":
            L += ["echo x> f%d" % n, sw("del", ["q"] + (["f"] if s.bool() else []), " f%d" % n), "if not exist f%d echo:deleted" % n]
            out += "deleted\n"
        elif k == "copy":
            L += ["echo new> a%d" % n, "echo old> b%d" % n, sw("copy", ["y"], " a%d b%d > nul" % (n, n)), "type b%d" % n]
            out += "new\n"
        elif k == "for":
            L.append(sw("for", ["l"], " %%%%i in (1,1,%d) do echo:i%%%%i" % n))
            out += "".join("i%d\n" % i for i in range(1, n + 1))
        elif k == "if":
            L.append(sw("if", ["i"], " ab==AB echo:same"))
            out += "same\n"
        elif k == "set":
            L += [sw("set", ["a"], " v=%d*7" % n), "echo:%v%"]
            out += "%d\n" % (n * 7)
        elif k == "cd":
            L += ["mkdir c%d" % n, sw("cd", ["d"], " c%d" % n), "echo x> here", "cd ..", "if exist c%d/here echo:moved" % n]
            out += "moved\n"
        elif k == "dir":
            L += ["mkdir e%d" % n, "echo x> e%d/name%d" % (n, n), sw("dir", ["b"], " e%d" % n)]
            out += "e%d/name%d\n" % (n, n)
        elif k == "find":
            L += ["(echo:One& echo:two) > t%d" % n, sw("find", ["i"] + (["c"] if False else []), ' "ONE" t%d > u%d' % (n, n)), "find \"One\" < u%d > nul && echo:found" % n]
            out += "found\n"
    return {"script": "@echo off\n" + "\n".join(L) + "\n", "out": out, "tags": sorted(tags), "nontrivial": len(tags) >= 1}


def run_run(case, ctx):
    out, bad = convert(ctx, case["script"], True)
    if bad:
        return bad
    return vf.expect_run(ctx.pbat(out), case["out"], rc=None)


def gen_bad(s):
    return {"args": s.choice([[], ["nosuch.bat"], ["in.bat", "nodir/out.bat"]]), "tags": []}


def run_bad(case, ctx):
    ctx.put("in.bat", "echo x\n")
    r = ctx.exec([ctx.bin("full/cmd/pbatize")] + case["args"])
    if r.timeout or r.rc <= 0 or not r.err:
        return "status %r, error output %r" % (r.rc, r.err)
    return None


if __name__ == "__main__":
    sys.exit(vf.main("P31", [
        vf.Family("rewrite", gen, run, 4000, 60000),
        vf.Family("run", gen_run, run_run, 1500, 20000),
        vf.Family("errors", gen_bad, run_bad, 6, 6),
    ], rule="at least one switch is glued to a command or to another switch"))
