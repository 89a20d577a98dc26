"""DEF procedures: substitution of parameters, scoping of _variables, lookup."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import re
import vf

PLAIN = ["p", "P1", "pp", "p.q", "p2", "Foo", "foo2", "strlen", "é", "zz", "aaa", "my_proc", "x-y", "x", "q+r", "q", "k@", "w~1", "rev", "cnt"]
CONF = {"set-x": "set", "dir.x": "dir", "del-all": "del", "md+": "md", "find-x": "find", "for-each": "for", "if-not": "if", "call-2": "call",
        "more-x": "more", "copy.txt": "copy", "ren-all": "ren", "rd!": "rd", "type2": "type", "goto-end": "goto", "exit-all": "exit", "cd-up": "cd",
        "rem-x": "rem", "shift-x": "shift", "popd-x": "popd", "xargs-0": "xargs", "move-x": "move", "wc-l": "wc"}
INTERNAL = ["title", "color", "TYPE", "more", "wc", "xargs", "pecho"]
WORDS = ["a", "b7", "one", "x=y", "7", "é", "-", "a.b", "#", "[]", "a:b", "0", "1", "@", "z_z", "日本"]
DOLLAR = ["$1", "$2", "$9", "$*", "$", "$$", "$0", "a$1b", "$:", "$12", "$x", "$a"]
GV = ["g", "h", "Long_name", "b"]
LV = ["_a", "_b", "_Q", "_long"]


def split(t):
    """parameters of a command: blanks, commas, semicolons; outer quotes go"""
    out, i = [], 0
    while i < len(t):
        if t[i] in " \t,;":
            i += 1
            continue
        j, q = i, False
        while j < len(t) and (q or t[j] not in " \t,;"):
            if t[j] == '"': q = not q
            j += 1
        w = t[i:j]
        if len(w) > 1 and w[0] == '"' and w[-1] == '"': w = w[1:-1]
        out.append(w)
        i = j
    return out


# ---------------------------------------------------------------- generator

def toks(s, star=True, n=None, percent=True):
    r = []
    for _ in range(n or s.rand(1, 4)):
        k = s.weighted([(3, "p"), (3, "w"), (2, "v"), (1, "star" if star else "p"), (1, "lit"), (1, "pc" if percent else "w")])
        if k == "p": r.append(["p", s.rand(1, 9) if s.bool(30) else s.rand(1, 3)])
        elif k == "w": r.append(["t", s.choice(WORDS)])
        elif k == "v": r.append(["v", s.choice(LV if s.bool(60) else GV)])
        elif k == "star": r.append(["s"])
        elif k == "lit": r.append(["t", s.choice(["$", "$$", "$0", "$:", "$x", "$a", "$-"])])
        else: r.append(["pc", s.choice(GV)])
        if s.bool(50): r.append(["t", s.choice([" ", "-", ".", "/", "$"])])
    # a literal ending in $ must not meet a digit or a star
    o = []
    for x in r:
        if o and o[-1][0] == "t" and o[-1][1].endswith("$") and (x[0] in ("p", "s", "pc", "v") or x[1][:1] in "0123456789*"): o.append(["t", "."])
        o.append(x)
    if o[-1] == ["t", " "]: o.append(["t", "."])
    return o


def args(s, inner, plain=False, quote=True):
    """the text of the parameters of a call, with $n tokens when inside a procedure"""
    r = []
    for i in range(s.weighted([(1, 0), (3, 1), (4, 2), (2, 4), (1, 11)])):
        if i: r.append(["t", s.choice([" ", " ", ",", ";", "\t", "  "])])
        k = s.weighted([(5, "w"), (2, "q" if quote and not plain else "w"), (2, "d" if not inner else "p"), (1, "e" if quote and not plain else "w")])
        if k == "w": r.append(["t", s.choice(WORDS)])
        elif k == "q" and inner and s.bool(40): r += [["t", '"'], ["p", s.rand(1, 3)], ["t", " "], ["p", s.rand(1, 9)], ["t", '"']]
        elif k == "q": r.append(["t", '"%s"' % s.choice(["a b", "x,y", " lead", "tail ", "a;b c", "$x $" if inner else "$1 $2", "q", "é, è"])])
        elif k == "d": r.append(["t", s.choice([d for d in DOLLAR if not (plain and "*" in d)])])
        elif k == "e": r.append(["t", '""'])
        else: r.append(s.choice([["p", s.rand(1, 3)], ["t", "w"] if plain else ["s"]]))
    return r


def stmt(s, procs, depth, me):
    k = s.weighted([(6, "echo"), (4, "set"), (2, "unset"), (2, "setx" if me["x"] else "set"), (3, "call" if procs else "echo"), (1, "for" if me["plain"] else "echo"),
                    (2, "if" if depth < 2 else "echo"), (2, "ifdef" if depth < 2 else "echo"), (2, "seta")])
    if k == "echo": return ["echo", toks(s)]
    if k in ("set", "setx"): return [k, s.choice(LV if s.bool(70) or k == "setx" else GV), toks(s, star=False)]
    if k == "unset": return [k, s.choice(LV if s.bool(70) else GV)]
    if k == "seta": return [k, s.choice(LV if s.bool(70) else GV), s.rand(1, 99)]
    if k == "call":
        p = s.choice(procs)
        return ["call", p["name"], args(s, True, plain=p["plain"], quote=not me["plain"])]
    if k == "for": return ["for"]
    if k == "if": return ["if", s.rand(1, 3), s.choice(WORDS), stmt(s, procs, depth + 1, me), stmt(s, procs, depth + 1, me)]
    return ["ifdef", s.choice(LV + GV), stmt(s, procs, depth + 1, me), stmt(s, procs, depth + 1, me)]


def text_toks(t):
    return "".join({"t": lambda: x[1], "p": lambda: "$%d" % x[1], "s": lambda: "$*", "v": lambda: "!%s!" % x[1], "pc": lambda: "%%%s%%" % x[1]}[x[0]]() for x in t)


def text(st, ind=""):
    k = st[0]
    if k == "echo": return ind + "echo " + "[" + text_toks(st[1]) + "]"
    if k == "set": return ind + "set %s=%s" % (st[1], text_toks(st[2]))
    if k == "setx": return ind + "set /x %s=%s" % (st[1], text_toks(st[2]))
    if k == "unset": return ind + "set %s=" % st[1]
    if k == "seta": return ind + "set /a %s=%d" % (st[1], st[2])
    if k == "call": return ind + (st[1] + " " + text_toks(st[2])).rstrip(" ")
    if k == "for": return ind + "for %%i in ($*) do echo i=%%i"
    if k == "recur": return ind + "if $1 gtr 0 (\n%sset /a _n=$1-1\n%s%s !_n! $2\n%s)" % (ind + "\t", ind + "\t", st[1], ind)
    if k == "if": return ind + 'if "$%d"=="%s" (\n%s\n%s) else (\n%s\n%s)' % (st[1], st[2], text(st[3], ind + "\t"), ind, text(st[4], ind + "\t"), ind)
    return ind + 'if defined %s (\n%s\n%s) else (\n%s\n%s)' % (st[1], text(st[2], ind + "\t"), ind, text(st[3], ind + "\t"), ind)


# -------------------------------------------------------------------- model

class M:
    def __init__(self):
        self.env, self.procs, self.out, self.err, self.steps = {}, {}, [], 0, 0

    def val(self, t, params, star):
        o = []
        for x in t:
            if x[0] == "t": o.append(x[1])
            elif x[0] == "p": o.append(params[x[1] - 1] if x[1] <= len(params) else "")
            elif x[0] == "s": o.append(star)
            elif x[0] == "v": o.append(self.env.get(x[1].lower(), ""))
        return "".join(o)

    def set(self, n, v):
        n = n.lower()
        if v: self.env[n] = v
        else: self.env.pop(n, None)

    def call(self, name, raw):
        self.steps += 1
        if self.steps > 300: raise vf.Reject()
        p = self.procs[name.lower()]
        raw = raw.lstrip(" \t,;")
        params = split(raw)[:9]
        saved = {k: v for k, v in self.env.items() if k[0] == "_"}
        x = set()
        for st in p: self.run(st, params, raw, x)
        for k in [k for k in self.env if k[0] == "_" and k not in x]: del self.env[k]
        for k, v in saved.items():
            if k not in x: self.env[k] = v

    def run(self, st, params, star, x):
        k = st[0]
        if k == "echo": self.out.append("[" + self.val(st[1], params, star) + "]\n")
        elif k in ("set", "setx"):
            v = self.val(st[2], params, star)
            if k == "setx":
                if not v: raise vf.Reject()
                x.add(st[1].lower())
            self.set(st[1], v)
        elif k == "unset":
            if st[1].lower() in x: raise vf.Reject()
            self.set(st[1], "")
        elif k == "seta": self.set(st[1], str(st[2]))
        elif k == "call": self.call(st[1], self.val(st[2], params, star))
        elif k == "for":
            if "*" in star or '"' in star: raise vf.Reject()
            for w in [x for x in re.split("[ \t,;:]+", star) if x]: self.out.append("i=%s\n" % w)
        elif k == "recur":
            if params[0] != "0":
                self.set("_n", str(int(params[0]) - 1))
                self.call(st[1], self.env["_n"] + " " + (params[1] if len(params) > 1 else ""))
        elif k == "if": self.run(st[3] if (params[st[1] - 1] if st[1] <= len(params) else "") == st[2] else st[4], params, star, x)
        elif k == "ifdef": self.run(st[2] if st[1].lower() in self.env else st[3], params, star, x)


def freeze(st, env):
    """%references are replaced when the definition is read"""
    def tk(t):
        if any(x[0] == "pc" and "$" in env.get(x[1].lower(), "") for x in t): raise vf.Reject()
        return [["t", env.get(x[1].lower(), "")] if x[0] == "pc" else x for x in t]
    k = st[0]
    if k == "echo": return [k, tk(st[1])]
    if k in ("set", "setx"): return [k, st[1], tk(st[2])]
    if k == "if": return [k, st[1], st[2], freeze(st[3], env), freeze(st[4], env)]
    if k == "ifdef": return [k, st[1], freeze(st[2], env), freeze(st[3], env)]
    return st


def gen(s):
    m, L, tags = M(), ["@echo off"], set()
    top, used = [], {}
    for v in s.subset(GV + LV + ["_Z9", "AA", "zz", "Z"], 45):
        x = s.choice(WORDS)
        L.append("set %s=%s" % (v, x))
        m.set(v, x)
    names = s.shuffle(PLAIN + list(CONF))
    n = s.weighted([(2, 3), (3, 6), (2, 12), (1, 30)])
    leaf = []
    hidden = []

    def define(name, leafs, force=False):
        me = {"name": name, "plain": s.bool(30), "x": s.bool(40)}
        cands = [] if me["x"] else [p for p in leafs if not p["x"] and not p.get("num")]
        form = s.weighted([(3, "line"), (5, "block"), (1, "recur")])
        if form == "line": b = [["echo", toks(s)]] if s.bool(70) else [stmt(s, cands, 2, me)]
        elif form == "recur":
            b = [["echo", toks(s, star=False)], ["recur", name], ["echo", [["p", 1], ["t", ":"], ["v", "_n"]]]]
            me["plain"], me["num"] = True, True
            me["x"] = False
        else: b = [stmt(s, cands, 0, me) for _ in range(s.rand(1, 5))]
        t = text(b[0]) if form == "line" else "(\n" + "\n".join(text(x, "\t") for x in b) + "\n)"
        m.procs[name.lower()] = [freeze(x, m.env) for x in b]
        me["body"] = text(freeze(b[0], m.env)) .replace("%%", "%") if form == "line" else None
        L.append("%s%s=%s" % (s.choice(["def /f ", "DEF /F "]) if force else "def ", name, t))
        used[name.lower()] = me
        tags.add(form)
        return me

    cur = 0
    for _ in range(s.rand(4, 25)):
        k = s.weighted([(5, "def" if cur < n else "call"), (6, "call" if top else "def"), (1, "redef" if top else "def"), (1, "dup" if top else "def"), (2, "set"), (2, "show"),
                        (1, "int"), (1, "bad"), (2, "conf" if hidden else "call" if top else "def"), (1, "list" if top else "def")])
        if k == "def":
            name = names[cur % len(names)]
            cur += 1
            if name.lower() in used or (name.split("!")[0] != name): continue
            me = define(name, top)
            top.append(me)
            if name in CONF and CONF[name] not in ("md", "ren", "rem", "xargs", "move"): hidden.append(CONF[name])
        elif k == "redef":
            i = s.draw(len(top) - 1)
            if top[i].get("num"): continue
            old = top[i]
            me = {"plain": old["plain"], "x": old["x"]}
            b = [["echo", toks(s)]]
            # same promises as before, for the procedures that call it
            m.procs[old["name"].lower()] = [freeze(b[0], m.env)]
            L.append("def /f %s=%s" % (s.choice([old["name"], old["name"].upper(), old["name"].lower()]) if old["name"].isascii() else old["name"], text(b[0])))
            top[i] = dict(old, body=text(freeze(b[0], m.env)))
            tags.add("redefined")
        elif k == "dup":
            p = s.choice(top)
            L += ["def %s=echo wrong" % p["name"], "if errorlevel 1 (echo bad) else echo good"]
            m.out.append("bad\n")
            m.err += 1
        elif k == "bad":
            L += ["def %s" % s.choice(["nope", "no such thing"]), "if errorlevel 1 (echo bad) else echo good"]
            m.out.append("bad\n")
            m.err += 1
        elif k == "call":
            p = s.choice(top)
            nm = p["name"]
            if nm.isascii(): nm = s.choice([nm, nm, nm.upper(), nm.lower()])
            if p.get("num"): a = "%d%s" % (s.rand(0, 4), s.choice(["", " x", ",y"]))
            else: a = text_toks(args(s, False, plain=p["plain"]))
            w = s.weighted([(7, "plain"), (1, "pipe"), (1, "file"), (1, "block"), (1, "slash"), (1, "forf"), (1, "tab"), (1, "thrice")])
            line = (nm + " " + a).rstrip(" ")
            if w == "slash" and not p.get("num") and '"' not in a:
                a = "/" + a.lstrip(" ,;\t")
                line = nm + a
            elif w == "tab": line = (nm + "\t" + a).rstrip(" \t")
            tags.add("call " + w)
            if w == "file" and "type" in used: w = "plain"
            if w == "pipe":
                env = dict(m.env)
                m.call(nm, a)
                m.env = env
                L.append(line + '| find /v "QQQQ"')
            elif w == "file":
                m.call(nm, a)
                L += ["(%s) > out" % line, "type out"]
            elif w == "block":
                L += ["(", "\techo {", "\t" + line, "\techo }", ")"]
                m.out.append("{\n")
                m.call(nm, a)
                m.out.append("}\n")
            elif w == "forf":
                env, o, m.out = dict(m.env), m.out, []
                m.call(nm, a)
                m.env = env
                if '"' in line or "'" in line or any(re.match(r"^\s*$", x) for x in m.out): s.reject()
                m.out = o + ["<%s>\n" % x.rstrip("\n") for x in m.out]
                L.append("for /f \"delims=\" %%%%y in ('%s') do echo ^<%%%%y^>" % line)
            elif w == "thrice":
                L.append("for %%%%y in (1 2 3) do %s" % line)
                for _ in range(3): m.call(nm, a)
            else:
                m.call(nm, a)
                L.append(line)
        elif k == "set":
            v, x = s.choice(LV + GV), s.choice(WORDS + [""])
            L.append("set %s=%s" % (v, x))
            m.set(v, x)
        elif k == "show":
            vs = s.subset(LV + GV + ["_n"], 50) or ["_a"]
            L.append("echo " + ",".join("[!%s!]" % v for v in vs))
            m.out.append(",".join("[%s]" % m.env.get(v.lower(), "") for v in vs) + "\n")
        elif k == "int":
            nm = s.choice([x for x in INTERNAL if x.lower() not in used] or [None])
            if nm is None: continue
            if s.bool(50):
                L += ["def %s=echo wrong" % nm, "if errorlevel 1 (echo bad) else echo good"]
                m.out.append("bad\n")
                m.err += 1
            top.append(define(nm, top, force=True))
            tags.add("internal redefined")
        elif k == "conf":
            c = s.choice(hidden)
            if c.lower() in used: continue
            L.append('%s/? 2>&1 | find /c "Usage"' % s.choice([c, c.upper()]))
            m.out.append("1\n")
            tags.add("internal after similar name")
            if c == "set":
                L += ["set/a b=5", "echo !b!"]
                m.set("b", "5")
                m.out.append("5\n")
        else:
            p = s.choice(top)
            if not p.get("body"): continue
            pre = p["name"][:s.rand(1, len(p["name"]))]
            hit = [q for q in top if q["name"].lower().startswith(pre.lower())]
            if any(q.get("body") is None or q["name"] in INTERNAL for q in hit) or not pre.isascii() or "help".startswith(pre.lower()): continue
            L += ["def /l %s" % pre]
            m.out.append(["list"] + sorted("%s=%s\n" % (q["name"], q["body"]) for q in hit))
            tags.add("listed")
    L.append("echo end")
    m.out.append("end\n")
    t = "\n".join(L) + "\n"
    if re.search(r"/\?(?! 2>&1)", t): s.reject()
    return {"script": t, "out": m.out, "err": m.err, "tags": sorted(tags), "nontrivial": m.steps > 2}


def run(case, ctx):
    r = ctx.pbat(case["script"])
    if r.timeout: return "the program did not terminate"
    if r.rc: return "exit status %r, stderr %r" % (r.rc, vf.b2s(r.err[:300]))
    got = vf.b2s(r.out).split("\n")
    exp, i = [], 0
    for o in case["out"]:
        if isinstance(o, list):                 # the order of a listing is free
            n = sum(x.count("\n") for x in o[1:])
            got[i:i + n] = sorted(x for x in got[i:i + n])
            exp += [x.rstrip("\n") for x in o[1:]]
            i += n
        else:
            exp += o.split("\n")[:-1]
            i += 1
    exp.append("")
    if got != exp: return "stdout differs: " + vf.diff_text("\n".join(exp), "\n".join(got)) + " (stderr %r)" % r.err[:200]
    n = len([x for x in r.err.split(b"\n") if x.strip()])
    if n != case["err"]: return "%d error messages expected, got %r" % (case["err"], vf.b2s(r.err[:400]))
    return None


FAMS = [vf.Family("def", gen, run, 25000, 300000)]

if __name__ == "__main__":
    sys.exit(vf.main("P17", FAMS, rule="at least three procedure calls"))
