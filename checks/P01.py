"""Variable expansion against a reference expander."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

SAFE = "abcxyzABC0123456789"
MID = SAFE + " ._-+/#@$[]{}'?*,;:="
NAMES = ["v", "Var2", "t[1]", "t[2]", "my var", "a.b", "_p", "x-y", "#n", "Q"]
WILD = "ab &|<>^()%!\"'~`=,;:@#$*?+-/\\{}[]." + "xyz019"


def sub(val, b, l):
    n = len(val)
    if b < 0:
        b = max(0, n + b)
    b = min(b, n)
    if l is None:
        e = n
    elif l < 0:
        e = max(0, n + l)
    else:
        e = min(n, b + l)
    return val[b:max(b, e)]


def gen_ref(s, names):
    name = s.choice(names)
    cased = "".join(c.swapcase() if c.isalpha() and s.bool(30) else c for c in name)
    k = s.weighted([(6, "plain"), (5, "sub"), (3, "rep"), (2, "def")])
    r = {"name": name, "as": cased, "k": k}
    if k == "sub":
        r["b"] = s.weighted([(5, s.rand(0, 6)), (3, -s.rand(1, 6)), (1, s.rand(7, 40)), (1, -s.rand(7, 40))])
        r["l"] = s.weighted([(3, None), (5, s.rand(0, 5)), (3, -s.rand(1, 5)), (1, s.rand(6, 60)), (1, -s.rand(6, 60))])
    elif k == "rep":
        r["p"] = s.text("abcxyz01 ._-", 1, s.choice([1, 1, 2, 3]))
        r["r"] = s.text("abcqrs01 ._-", 0, 3)
        if r["p"][0] == "~":
            r["p"] = "a"
    elif k == "def":
        r["d"] = s.text("defghi ._-0", 1, 6)
    return r


def ref_text(r, d):
    t = r["as"]
    if r["k"] == "sub":
        t += ":~%d" % r["b"] + ("" if r["l"] is None else ",%d" % r["l"])
    elif r["k"] == "rep":
        t += ":%s=%s" % (r["p"], r["r"])
    elif r["k"] == "def":
        t += ":" + r["d"]
    return d + t + d


def ref_val(r, env):
    v = env.get(r["name"].lower())
    if v is None:
        return r["d"] if r["k"] == "def" else ""
    if r["k"] == "sub":
        return sub(v, r["b"], r["l"])
    if r["k"] == "rep":
        # only the patterns whose matches do not depend on the case are specified
        if v.lower().count(r["p"].lower()) != v.count(r["p"]):
            raise vf.Reject()
        return v.replace(r["p"], r["r"])
    return v


def gen_text(s, n, pc, names, delayed, wild):
    """a list of segments"""
    segs = []
    for _ in range(s.rand(1, n)):
        k = s.weighted([(4, "lit"), (4, "%"), (5, "!"), (1, "%%"), (1, "esc"), (1, "quo"), (1, "idx")])
        if k == "lit":
            segs.append(["lit", s.text(MID, 1, 5)])
        elif k == "%":
            segs.append(["%", gen_ref(s, names)])
        elif k == "!":
            segs.append(["!", gen_ref(s, names + wild if s.bool(60) else names)])
        elif k == "%%":
            segs.append(["%%"])
        elif k == "esc":
            segs.append(["esc", s.choice("&|<>^!%a")])
        elif k == "quo":
            segs.append(["quo", s.text("ab &|<>()", 0, 5)])
        elif k == "idx":
            segs.append(["idx", s.choice(["1", "2"]), s.bool(50)])
    return segs


def text_of(segs):
    o = ""
    for g in segs:
        if g[0] == "lit": o += g[1]
        elif g[0] in "%!": o += ref_text(g[1], g[0])
        elif g[0] == "%%": o += "%%"
        elif g[0] == "esc": o += "^" + g[1]
        elif g[0] == "quo": o += '"' + g[1] + '"'
        elif g[0] == "idx": o += "!t[%i%]!" if g[2] else "!T[%I%]!"
    return o


def value_of(segs, penv, env, delayed):
    o = ""
    for g in segs:
        if g[0] == "lit": o += g[1]
        elif g[0] == "%":
            o += ref_val(g[1], penv)
        elif g[0] == "!":
            o += ref_val(g[1], env) if delayed else ref_text(g[1], "!")
        elif g[0] == "%%": o += "%"
        elif g[0] == "esc": o += g[1]
        elif g[0] == "quo": o += '"' + g[1] + '"'
        elif g[0] == "idx":
            i = penv.get("i", "")
            o += env.get("t[%s]" % i, "") if delayed else ("!t[%s]!" if g[2] else "!T[%s]!") % i
    return o


class M:
    def __init__(self):
        self.out = []
        self.env = {}


def gen_stmts(s, depth, names, wild, delayed):
    r = []
    for _ in range(s.rand(1, 5 if depth else 9)):
        k = s.weighted([(4, "set"), (1, "unset"), (8, "echo"), (2 if depth < 2 else 0, "if"), (2 if depth < 2 else 0, "for"),
                        (1, "seti")])
        if k == "set":
            q = s.bool(40)
            r.append(["set", s.choice(names), gen_text(s, 3, 0, names, delayed, wild), q])
        elif k == "unset":
            r.append(["unset", s.choice(names)])
        elif k == "seti":
            r.append(["seti", s.choice(["1", "2"])])
        elif k == "echo":
            r.append(["echo", gen_text(s, 6, 0, names, delayed, wild)])
        elif k == "if":
            r.append(["if", gen_stmts(s, depth + 1, names, wild, delayed)])
        else:
            r.append(["for", s.rand(1, 3), gen_stmts(s, depth + 1, names, wild, delayed), "JKL"[depth]])
    return r


def render(st, ind=0):
    p = "  " * ind
    o = []
    for x in st:
        if x[0] == "set":
            t = text_of(x[2])
            o.append(p + ('set "%s=%s"' if x[3] else "set %s=%s") % (x[1], t))
        elif x[0] == "unset":
            o.append(p + "set %s=" % x[1])
        elif x[0] == "seti":
            o.append(p + "set i=" + x[1])
        elif x[0] == "echo":
            o.append(p + "echo [" + text_of(x[1]) + "]")
        elif x[0] == "if":
            o += [p + "if 1==1 ("] + render(x[1], ind + 1) + [p + ")"]
        else:
            o += [p + "for %%%%%s in (%s) do (" % (x[3], " ".join("123"[:x[1]]))] + render(x[2], ind + 1) + [p + ")"]
    return o


def execute(st, m, penv, delayed):
    """penv: environment when the enclosing top-level line was read, None at top level"""
    for x in st:
        pe = dict(m.env) if penv is None else penv
        if x[0] == "set":
            v = value_of(x[2], pe, m.env, delayed)
            raw = v
            if any(c in raw for c in "&|<>") and False:
                pass
            if x[3]:
                pass
            elif v.startswith('"'):
                pass
            if v == "":
                m.env.pop(x[1].lower(), None)
            else:
                m.env[x[1].lower()] = v
        elif x[0] == "unset":
            m.env.pop(x[1].lower(), None)
        elif x[0] == "seti":
            m.env["i"] = x[1]
        elif x[0] == "echo":
            m.out.append("[" + value_of(x[1], pe, m.env, delayed) + "]")
        elif x[0] == "if":
            execute(x[1], m, pe, delayed)
        else:
            for _ in range(x[1]):
                execute(x[2], m, pe, delayed)


def refs_percent_unsafe(st, m):
    pass


SPECIAL = set("&|<>^\"!%()")


def walk(st, f):
    for x in st:
        f(x)
        if x[0] == "if":
            walk(x[1], f)
        elif x[0] == "for":
            walk(x[2], f)


def gen(s):
    delayed = s.bool(85)
    wild = {"E0": s.text(WILD, 1, 12), "E1": s.text(WILD, 1, 30), "E2": s.text(WILD, 1, 5)}
    st = gen_stmts(s, 0, NAMES, sorted(wild), delayed)
    m = M()
    for k, v in wild.items():
        m.env[k.lower()] = v
    # values read back through %...% are parsed as command text: they are kept
    # free of special characters by never copying a wild value or an escape
    # into a plain variable; wild values have variables of their own
    def fix(x):
        if x[0] == "set":
            x[2] = [g for g in x[2] if g[0] in ("lit", "%", "!", "idx") and not (g[0] == "!" and g[1]["name"] in wild)] or [["lit", "k"]]
            if not delayed:
                x[2] = [g for g in x[2] if g[0] in ("lit", "%")] or [["lit", "k"]]
    walk(st, fix)
    pre = ["@echo off"] + ([] if delayed else ["setlocal disabledelayedexpansion"])
    execute(st, m, None, delayed)
    tags = set()

    def tag(x):
        for g in (x[1] if x[0] == "echo" else x[2] if x[0] == "set" else []):
            tags.add(g[0] + (g[1]["k"] if g[0] in "%!" and len(g) > 1 else ""))
            if g[0] == "!" and g[1]["name"] in wild:
                tags.add("inert")
        if x[0] in ("if", "for"):
            tags.add(x[0])
    walk(st, tag)
    if len("\n".join(m.out)) > 20000 or any(len(v) > 300 for v in m.env.values()):
        s.reject()
    return {"script": "\n".join(pre + render(st)) + "\n", "env": wild, "out": "\n".join(m.out) + "\n" if m.out else "",
            "tags": sorted(tags), "nontrivial": len(tags) >= 4}


def run(case, ctx):
    return vf.expect_run(ctx.pbat(case["script"], env=case.get("env")), case["out"])


# --- text inserted by %...% is command text; text inserted by !...! never is
def gen_inert(s):
    w = s.text("abc", 1, 3)
    op = s.choice(["&", "&&", "||", "|", ">", ">>", "<", "2>"])
    tail = {"&": "& echo " + w, "&&": "&& echo " + w, "||": "|| echo " + w, "|": "| find \"zz\""}.get(op, op + " f_" + w)
    val = s.text("xy", 1, 4) + s.text(" ", 0, 2) + tail
    env = {"val": val}
    head = s.text("klm", 1, 3)
    d = s.choice("%!")
    wrap = s.rand(0, 2)
    cmd = "echo %s%sval%s" % (head, d, d)
    if wrap == 1:
        cmd = "if 1==1 (\n%s\n)" % cmd
    elif wrap == 2:
        cmd = "for %%i in (1) do " + cmd
    files = {"f_" + w: None}
    if d == "!":
        out, f = head + val + "\n", None
    else:
        left = val[:val.index(op)] if op not in ("2>",) else val[:val.index("2>")]
        if op == "&" or op == "&&":
            out, f = head + left + "\n" + w + "\n", None
        elif op == "||":
            out, f = head + left + "\n", None
        elif op == "|":
            out, f = "", None
        elif op in (">", ">>"):
            out, f = "", head + left + "\n"
        elif op == "2>":
            out, f = head + left + "\n", ""
        else:
            s.reject()
    if op == "<" :
        s.reject()
    return {"script": "@echo off\n%s\n" % cmd, "env": env, "out": out, "w": w, "f": f, "tags": [d + op]}


def run_inert(case, ctx):
    r = ctx.pbat(case["script"], env=case["env"])
    out = r.out.decode()
    exp = case["out"]
    if "|" in case["env"]["val"] and exp == "" or True:
        norm = lambda t: "\n".join(l.rstrip() for l in t.split("\n"))
        if norm(out) != norm(exp):
            return "stdout: expected %r, got %r (stderr %r)" % (exp, out, r.err[:200])
    t = ctx.tree()
    f = t.get("f_" + case["w"])
    if case["f"] is None:
        if t:
            return "unexpected files %r" % t
    elif f is None or f.decode().rstrip() != case["f"].rstrip():
        return "redirected file: expected %r, got %r" % (case["f"], f)
    return None


FAMS = [vf.Family("expand", gen, run, 40000, 500000), vf.Family("inert", gen_inert, run_inert, 3000, 12000)]

if __name__ == "__main__":
    sys.exit(vf.main("P01", FAMS, rule="an expand case is non-trivial when its script uses at least four kinds of expansion "
                     "(plain, substring, replacement, default; read-time or delayed; escapes, blocks, loops)"))
