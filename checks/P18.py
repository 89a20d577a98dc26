"""Reading of scripts: the layout of the text does not matter, and a script
which changes while it runs goes on at the same command line."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import re
import vf, flow

KEYS = ["echo", "set", "if", "for", "goto", "call", "exit", "else", "do", "in", "not", "equ", "lss", "geq", "gtr", "neq"]


def relayout(s, text, name):
    """another text of the same script"""
    out = []
    st = {k: s.bool(45) for k in ("indent", "blank", "comment", "case", "at", "comma")}
    nl = s.choice(["\n", "\r\n", "mixed"])
    lines = text.split("\n")
    if s.bool(15): out.append("#!/usr/bin/env pbat %s" % s.choice(["", "& echo no", "(", "%n"]))
    depth = 0
    for l in lines:
        if st["blank"] and s.bool(25): out += [s.choice(["", "   ", "\t"])] * s.rand(1, 3)
        if st["comment"] and s.bool(25):
            out.append(s.choice(["", "  ", "\t"]) + "::" + s.choice(["", " text", ":", " ) else (", " & echo no", " > file", " (", ' "', " |", " %n% !n!", " ^", " é 日本", " if", "x" * 300, ": a", " goto x"]))
        if not l.strip():
            out.append(l)
            continue
        isl = l.lstrip().startswith(":")
        if st["indent"]: l = s.choice(["", " ", "    ", "\t", "\t\t  "]) + l.lstrip(" \t")
        if st["case"] and not isl:
            l = re.sub(r"^(\s*@?)([a-z]+)\b", lambda m: m.group(1) + (s.choice([m.group(2).upper(), m.group(2).title()]) if m.group(2) in KEYS else m.group(2)), l)
        if st["at"] and not isl and depth == 0 and s.bool(30) and not l.lstrip().startswith((")", "@")): l = re.sub(r"^(\s*)", r"\1@" + s.choice(["", "", " "]), l)
        depth += l.count("(") - l.count(")")
        out.append(l)
    if st["comment"] and s.bool(30): out.append(":: the end")
    t = "".join(x + (s.choice(["\n", "\r\n"]) if nl == "mixed" else nl) for x in out)
    if s.bool(40): t = t[:-2] if t.endswith("\r\n") else t[:-1]
    return t, [k for k in st if st[k]] + [repr(nl)]


def gen_layout(s):
    c = flow.make(s, s.bool(60))
    tags = set()
    for f in sorted(c["files"]):
        if f == "rc.bat": continue
        c["files"][f], tg = relayout(s, c["files"][f], f)
        tags |= set(tg)
    c["script"], tg = relayout(s, c["script"], "s.bat")
    c["tags"] = sorted(tags | set(tg))
    c["nontrivial"] = len(tags | set(tg)) > 1
    return c


# ------------------------------------------------------ scripts that change

def gen_mod(s):
    """Items are ("cmd", text, action) and ("label", name); versions v1, v2..
    of the script are files; the first is s.bat."""
    nv = s.rand(1, 3)
    labels = ["aa", "bb", "cc"]
    vers = []
    k = [0]

    def fresh():
        k[0] += 1
        return k[0]

    for v in range(nv + 1):
        items = [["cmd", "@echo off", None]]
        for _ in range(s.rand(2, 12)):
            w = s.weighted([(6, "echo"), (2, "append"), (3, "replace"), (2, "label"), (2, "goto"), (2, "call"), (2, "comment"), (1, "eof"), (1, "block"), (1, "pipe")])
            if w == "echo": items.append(["cmd", "echo t%d" % fresh(), ["echo", "t%d" % k[0]]])
            elif w == "block": items.append(["cmd2", "if 1==1 (\n  echo b%d\n)" % fresh(), ["echo", "b%d" % k[0]]])
            elif w == "append":
                a = s.weighted([(3, "echo"), (1, "label"), (1, "comment")])
                n = fresh()
                x = {"echo": "echo a%dx" % n, "label": ":" + s.choice(labels), "comment": ":: c%dx" % n}[a]
                items.append(["cmd", "echo %s>> s.bat" % x, ["append", x]])
            elif w == "replace":
                t = s.rand(1, nv) if nv else 0
                items.append(["cmd", s.choice(["copy /y v%d s.bat > nul", "type v%d > s.bat"]) % t, ["replace", t]])
            elif w == "label": items.append(["label", ":" + s.choice(labels)])
            elif w == "goto":
                l = s.choice(labels)
                n = fresh()
                # bounded: each goto is followed at most twice
                items.append(["cmd", "if not defined g%d (set g%d=1 & goto :%s)" % (n, n, l), ["goto", n, l]])
            elif w == "call":
                l = s.choice(labels)
                n = fresh()
                items.append(["cmd", "if not defined c%d (set c%d=1 & call :%s)" % (n, n, l), ["call", n, l]])
            elif w == "comment": items.append(["comment", s.choice([":: x", "", "  "])])
            elif w == "pipe": items.append(["cmd", "(echo p%d)| find \"p\"" % fresh(), ["echo", "p%d" % k[0]]])
            else: items.append(["cmd", "goto :eof", ["eof"]])
        vers.append(items)
    # the size tells most versions apart; a change in the first one may keep it
    def text(items): return "".join(i[1] + "\n" for i in items)
    same = s.bool(25)
    pads = []
    sizes = set()
    for v in range(nv + 1):
        t = text(vers[v])
        p = 0
        while (len(t) + p) in sizes: p += 1
        pads.append(p)
        sizes.add(len(t) + p)
    if same and nv:
        d = len(text(vers[0])) - len(text(vers[1]))
        i = 1 if d > 0 else 0
        if abs(d) >= 3: vers[i] = vers[i] + [["comment", "::" + "x" * (abs(d) - 3)]]
        elif d: same = False
    for v in range(nv + 1):
        if pads[v] and not (same and v < 2):
            vers[v] = vers[v] + [["comment", "::" + "x" * (pads[v])]]
    texts = [text(v) for v in vers]
    # ---- model
    st = {"content": list(vers[0]), "text": texts[0], "mods": 0, "steps": 0, "seen": {len(texts[0]): texts[0]}}
    defined = set()
    out = []
    tags = set()
    if same and len(texts) > 1 and len(texts[0]) == len(texts[1]): tags.add("same size")

    class Eof(Exception): pass

    def lines(items):
        """physical lines of commands; a block takes three"""
        r = []
        for i in items:
            if i[0] == "cmd": r.append(i)
            elif i[0] == "cmd2": r += [i, None, None]
        return r

    def write(items):
        st["content"] = items
        t = text(items)
        st["mods"] += 1
        o = st["seen"].setdefault(len(t), t)
        if o != t:
            # same size as another version: only the first change is far away in time from the previous one
            if st["mods"] > 1 or o != texts[0]: s.reject()
            st["seen"][len(t)] = t
            tags.add("unseen size")
        tags.add("modified")

    err = [0]

    def jump(cur, l):
        n = 0
        for i in cur:
            if i[0] in ("cmd", "cmd2"): n += 3 if i[0] == "cmd2" else 1
            elif i[0] == "label" and i[1] == ":" + l: return n
        return None

    def frame(pos, depth):
        if depth > 5: s.reject()
        while True:
            cs = lines(st["content"])
            if pos >= len(cs): return
            st["steps"] += 1
            if st["steps"] > 150: s.reject()
            if cs[pos] is None: s.reject()
            a = cs[pos][2]
            pos += 3 if cs[pos][0] == "cmd2" else 1
            if a is None: continue
            if a[0] == "echo": out.append(a[1])
            elif a[0] == "append":
                x = a[1]
                if x.startswith("::"): it = ["comment", x]
                elif x.startswith(":"): it = ["label", x]
                else: it = ["cmd", x, ["echo", x[5:]]]
                write(st["content"] + [it])
                tags.add("append")
            elif a[0] == "replace":
                write(list(vers[a[1]]))
                if pos > len(lines(st["content"])): tags.add("shorter")
            elif a[0] == "eof": return
            elif a[1] not in defined or a[0] == "call" and ("c%d" % a[1]) not in defined:
                key = "%s%d" % (a[0][0], a[1])
                if key in defined: continue
                defined.add(key)
                p = jump(st["content"], a[2])
                if p is None:
                    err[0] += 1
                    continue
                tags.add(a[0])
                if a[0] == "goto": pos = p
                else: frame(p, depth + 1)

    frame(0, 0)
    files = {"v%d" % i: texts[i] for i in range(1, nv + 1)}
    return {"script": texts[0], "files": files, "out": "".join(x + "\n" for x in out), "err": err[0], "tags": sorted(tags), "nontrivial": "modified" in tags and len(out) > 1}


def run_mod(case, ctx):
    for k, v in case["files"].items(): ctx.put(k, v)
    p = ctx.put("s.bat", case["script"])
    os.utime(p, (1000000000, 1000000000))
    r = ctx.exec([ctx.bin("pbat"), "s.bat"], timeout=8)
    if r.timeout: return "the program did not terminate; stdout so far %r" % vf.b2s(r.out[:300])
    if vf.b2s(r.out) != case["out"]: return "stdout differs: " + vf.diff_text(case["out"], vf.b2s(r.out)) + " (stderr %r)" % r.err[:200]
    n = len([x for x in r.err.split(b"\n") if x.strip()])
    if n != case["err"]: return "%d error messages expected, got %r" % (case["err"], vf.b2s(r.err[:300]))
    return None


def show(case):
    return "".join("--- %s\n%s" % (k, v) for k, v in sorted(case.get("files", {}).items())) + ("--- s.bat\n" + case["script"] if "script" in case else "")


# ------------------------------------------------------------ the #! line

def gen_first(s):
    """#! is skipped as the first line of a script, and is a command anywhere else"""
    pre = [s.weighted([(3, "@echo off"), (3, ""), (1, "  "), (2, ":: c"), (2, ":lab"), (1, "@echo x"), (1, "#!first"), (1, " #!indented")]) for _ in range(s.rand(0, 3))]
    bang = s.choice(["#!/usr/bin/env pbat", "#!x", "#!pbat -q a"])
    post = [s.choice(["", ":: d", "@echo y", "@rem z"]) for _ in range(s.rand(0, 2))]
    lines = pre + [bang] + ["@echo [%errorlevel%]"] + post
    bad = sum(1 for i, l in enumerate(lines) if l.strip().startswith("#!") and i)
    if lines[0].startswith(" #!"): s.reject()
    t = s.choice(["\n", "\r\n"]).join(lines + [""])
    return {"script": t, "bad": bad, "late": bool(pre), "tags": ["late" if pre else "first"], "nontrivial": bool(pre)}


def run_first(case, ctx):
    ctx.put("s.bat", case["script"])
    r = ctx.exec([ctx.bin("pbat"), "s.bat"], timeout=8)
    if r.timeout: return "the program did not terminate"
    n = len([x for x in r.err.split(b"\n") if x.strip()])
    if n != case["bad"]: return "%d error messages expected, got %r" % (case["bad"], vf.b2s(r.err[:300]))
    m = re.search(r"^\[(-?\d+)\]$", vf.b2s(r.out), re.M)
    if not m: return "stdout %r" % vf.b2s(r.out[:300])
    if (m.group(1) != "0") != case["late"]: return "the error level after the #! line is %s" % m.group(1)
    return None


FAMS = [vf.Family("first", gen_first, run_first, 600, 6000, show=show),
        vf.Family("layout", gen_layout, flow.run, 14000, 250000, show=flow.show),
        vf.Family("modified", gen_mod, run_mod, 14000, 250000, show=show)]

if __name__ == "__main__":
    sys.exit(vf.main("P18", FAMS, rule="layouts that differ in at least two respects, and scripts modified while they run"))
