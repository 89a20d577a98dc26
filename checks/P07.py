"""SET /A floating point arithmetic, functions and constants."""
import sys, os, math, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import importlib

PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "<<": 6, ">>": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}
CONST = {"e": math.e, "log2e": math.log2(math.e), "log10e": math.log10(math.e), "ln2": math.log(2),
         "ln10": math.log(10), "pi": math.pi, "pi_2": math.pi / 2, "pi_4": math.pi / 4, "1_pi": 1 / math.pi,
         "2_pi": 2 / math.pi, "2_sqrtpi": 2 / math.sqrt(math.pi), "sqrt2": math.sqrt(2), "sqrt1_2": math.sqrt(0.5)}


class Bad(Exception):
    pass


def rec(f):
    return lambda x: 1 / f(x)


def inv(f):
    return lambda x: f(1 / x)


FUN = {
    "exp": math.exp, "log": math.log, "log10": math.log10, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "cot": rec(math.tan), "sec": rec(math.cos), "csc": rec(math.sin), "asin": math.asin, "acos": math.acos,
    "atan": math.atan, "acot": inv(math.atan), "asec": inv(math.acos), "acsc": inv(math.asin),
    "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "coth": rec(math.tanh), "sech": rec(math.cosh),
    "csch": rec(math.sinh), "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh,
    "acoth": inv(math.atanh), "asech": inv(math.acosh), "acsch": inv(math.asinh), "abs": abs,
    "step": lambda x: 1.0 if x >= 0 else 0.0, "erf": math.erf,
}
VARS = ["x", "y", "w", "tot"]


def gen_expr(s, depth):
    k = s.weighted([(4, "flt"), (2, "int"), (2, "var"), (2, "const"), (8, "bin"), (2, "neg"), (4, "fun"), (1, "asg")]) \
        if depth > 0 else s.weighted([(4, "flt"), (3, "int"), (2, "var"), (2, "const")])
    if k == "flt":
        ip, fp = s.rand(0, s.choice([9, 9, 1000])), s.text("0123456789", 0, s.choice([1, 3, 6]))
        t = "%d.%s" % (ip, fp)
        if s.bool(15) and fp:
            t = "." + fp
        if s.bool(25):
            t += s.choice("eE") + s.choice(["", "+", "-"]) + str(s.rand(0, 6))
        return ["flt", t]
    if k == "int":
        return ["int", s.rand(0, s.choice([9, 100, 5000])), s.choice(["%d", "%d", "0x%x", "0x%X", "0%o"])]
    if k == "var":
        return ["var", s.choice(VARS)]
    if k == "const":
        return ["const", s.choice(sorted(CONST))]
    if k == "neg":
        return ["neg", gen_expr(s, depth - 1)]
    if k == "fun":
        return ["fun", s.choice(sorted(FUN)), gen_expr(s, depth - 1)]
    if k == "asg":
        return ["asg", s.choice(VARS), gen_expr(s, depth - 1)]
    op = s.choice(["+", "-", "*", "/", "+", "-", "*", "/", "%", "&", "|", "^", "&&", "||", "<<", ">>"])
    return ["bin", op, gen_expr(s, depth - 1), gen_expr(s, depth - 1), s.rand(0, 5)]


def text(e, ctx, sp):
    k = e[0]
    if k in ("flt", "var", "const"):
        return e[1]
    if k == "int":
        return e[2] % e[1]
    if k == "neg":
        return "-" + text(e[1], 20, sp)
    if k == "fun":
        return e[1] + sp() + "(" + text(e[2], 0, sp) + ")"
    if k == "asg":
        return "(" + e[1] + sp() + "=" + sp() + text(e[2], 19, sp) + ")"
    p = PREC[e[1]]
    l, r = text(e[2], p, sp), text(e[3], p + 1, sp)
    t = l + sp() + e[1] + sp() + r
    return "(" + t + ")" if p < ctx or e[4] == 5 else t


def isflt(e):
    if e[0] in ("flt", "const", "fun"):
        return True
    if e[0] in ("int", "var"):
        return False
    return any(isflt(x) for x in e[1:] if isinstance(x, list))


def i32(v):
    if not abs(v) < 2 ** 31 - 1:
        raise Bad()
    return int(v)


def ev(e, env, st):
    """value as a double; st collects what makes a result inexact"""
    k = e[0]
    if k == "flt":
        return float(e[1] if e[1][0] != "." else "0" + e[1])
    if k == "int":
        return float(e[1])
    if k == "var":
        return env.get(e[1], 0.0)
    if k == "const":
        st["approx"] = st.get("approx", 0) + (e[1] not in ("e", "pi", "pi_2", "pi_4"))
        return CONST[e[1]]
    if k == "neg":
        return -ev(e[1], env, st)
    if k == "asg":
        v = ev(e[2], env, st)
        if not isflt(e[2]):
            raise Bad()     # an assignment of an integer sub-expression stores an integer
        v = float("%.16g" % v)
        env[e[1]] = v
        st["approx"] = st.get("approx", 0) + 1
        return v
    if k == "fun":
        a = ev(e[2], env, st)
        if not isflt(e[2]):
            # an integer argument is evaluated with integer arithmetic first
            if not simple_int(e[2]):
                raise Bad()
        st["approx"] = st.get("approx", 0) + (e[1] not in ("abs", "step", "sqrt"))
        near(e[1], a)
        try:
            v = FUN[e[1]](a)
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Bad()
        return chk(v)
    op = e[1]
    a, b = ev(e[2], env, st), ev(e[3], env, st)
    if op == "+": return cancel(a, b, a + b, st)
    if op == "-": return cancel(a, -b, a - b, st)
    if op == "*": return chk(a * b)
    if op == "/":
        if b == 0:
            raise Bad()
        return chk(a / b)
    if op == "%":
        if b == 0:
            raise Bad()
        if st.get("approx") or not (isflt(e[2]) or isflt(e[3])):
            raise Bad()
        return math.fmod(a, b)
    if st.get("approx"):
        raise Bad()      # truncation of an inexact operand
    a, b = i32(a), i32(b)
    if op == "&": return float(a & b)
    if op == "|": return float(a | b)
    if op == "^": return float(a ^ b)
    if op == "&&": return float(bool(a) and bool(b))
    if op == "||": return float(bool(a) or bool(b))
    if not 0 <= b <= 20 or a < 0 or a > 1000:
        raise Bad()
    return float(a << b) if op == "<<" else float(a >> b)


def simple_int(e):
    if e[0] == "int":
        return True
    if e[0] == "neg":
        return simple_int(e[1])
    return e[0] == "bin" and e[1] in "+-*" and simple_int(e[2]) and simple_int(e[3])


def near(f, a):
    """stay away from poles, cuts and jumps, where the last bit matters"""
    if f == "step" and abs(a) < 1e-6 and a != 0:
        raise Bad()
    if f in ("sin", "cos", "tan", "cot", "sec", "csc") and abs(a) > 100:
        raise Bad()
    if f in ("asin", "acos", "atanh") and abs(abs(a) - 1) < 1e-6 or f in ("acosh",) and abs(a - 1) < 1e-6:
        raise Bad()
    if f in ("asec", "acsc", "acoth", "asech") and (abs(abs(a) - 1) < 1e-6 or abs(a) < 1e-6):
        raise Bad()
    if f in ("tan", "sec") and abs(math.cos(a)) < 1e-3 or f in ("cot", "csc", "coth", "csch") and abs(math.sin(a) if f in ("cot", "csc") else a) < 1e-3:
        raise Bad()
    if f in ("sin", "tan") and abs(math.sin(a)) < 1e-3 and a != 0 or f in ("cos", "cot") and abs(math.cos(a)) < 1e-3:
        raise Bad()
    if f in ("acsch", "acoth", "asech", "csch", "coth") and not 0.05 <= abs(a) <= 20:
        raise Bad()
    if f == "asinh" and abs(a) > 1e3:
        raise Bad()
    if f in ("log", "log10", "sqrt") and a <= 1e-9 and not (f == "sqrt" and a == 0) or f in ("log", "log10") and abs(a - 1) < 1e-4:
        raise Bad()
    if f in ("exp", "sinh", "cosh", "csch", "sech") and abs(a) > 50 or f == "acosh" and a > 1e8:
        raise Bad()


def cancel(a, b, r, st):
    if st.get("approx") and r != 0 and abs(r) < 1e-3 * max(abs(a), abs(b)) or st.get("approx") and r == 0 and (a or b):
        raise Bad()
    return chk(r)


def chk(v):
    if v != v or abs(v) > 1e15 or (v != 0 and abs(v) < 1e-12):
        raise Bad()
    return v


def names(e, acc):
    if e[0] == "bin":
        acc.add(e[1])
    elif e[0] in ("fun", "const"):
        acc.add(e[1])
    else:
        acc.add(e[0])
    for x in e[1:]:
        if isinstance(x, list):
            names(x, acc)
    return acc


def gen(s):
    env, lines, checks, seen = {}, ["@echo off", "setlocal disabledelayedexpansion"], [], set()
    for _ in range(s.rand(2, 9)):
        for _try in range(20):
            v = s.choice(VARS)
            e = gen_expr(s, s.weighted([(3, 1), (4, 2), (2, 3)]))
            if not isflt(e):
                e = ["bin", s.choice("+-"), e, ["flt", "0.0"], 0]
            st, e2 = {}, dict(env)
            try:
                val = ev(e, e2, st)
                aop = s.weighted([(8, ""), (1, "+"), (1, "*"), (1, "-"), (1, "/")])
                if aop:
                    old = e2.get(v, 0.0)
                    if aop == "/" and val == 0:
                        raise Bad()
                    val = {"+": lambda: cancel(old, val, old + val, {"approx": 1}), "-": lambda: cancel(old, -val, old - val, {"approx": 1}),
                           "*": lambda: chk(old * val), "/": lambda: chk(old / val)}[aop]()
            except Bad:
                continue
            break
        else:
            continue
        sp = lambda: s.weighted([(6, ""), (2, " ")])
        t = "%s%s=%s" % (v, aop, text(e, 0, sp))
        env = e2
        env[v] = float("%.14g" % val)
        seen |= names(e, set())
        lines.append('set /a "%s"' % t.replace("^", "^^").replace("%", "%%"))
        lines.append("echo %%%s%%" % v)
        checks.append(val)
        # later expressions must start from what is stored, inexact or not:
        # reset to a fixed value so that errors do not build up
        if st.get("approx") or aop:
            k = "%.6g" % val
            if abs(float(k)) > 1e-4 and abs(float(k)) < 1e9:
                k = repr(float(k))
            else:
                k = "2.5"
            lines.append("set %s=%s" % (v, k))
            env[v] = float(k)
            for o in VARS:
                if o != v and o in env and "e" not in ("%r" % env[o]):
                    k = "%.6f" % env[o]
                    lines.append("set %s=%s" % (o, k))
                    env[o] = float(k)
                elif o in env and o != v:
                    lines.append("set %s=1.5" % o)
                    env[o] = 1.5
    if not checks:
        s.reject()
    return {"script": "\n".join(lines) + "\n", "vals": checks, "tags": sorted(seen), "nontrivial": len(seen) >= 4}


def run(case, ctx):
    r = ctx.pbat(case["script"])
    if r.timeout or r.rc != 0 or r.err:
        return "exit status %r, stderr %r" % (r.rc, r.err[:200])
    got = r.out.decode().split("\n")
    if len(got) != len(case["vals"]) + 1:
        return "expected %d results, got %r" % (len(case["vals"]), got[:20])
    for i, v in enumerate(case["vals"]):
        if not re.match(r"^-?[0-9.]+(e[+-]?[0-9]+)?$", got[i]):
            return "result %d: expected %.14g, got %r" % (i + 1, v, got[i])
        g = float(got[i])
        if abs(g - v) > 1e-9 * max(abs(v), 1e-9) + 1e-13:
            return "result %d: expected %.14g, got %r" % (i + 1, v, got[i])
        if len(got[i].replace("-", "").replace(".", "").split("e")[0].lstrip("0")) > 14:
            return "result %d has more than 14 significant digits: %r" % (i + 1, got[i])
    return None


def gen_special(s):
    f = s.choice(["delta", "nandelta"])
    x = s.choice(["0.0", "0", "1.5", "-2", "(1-1)"])
    z = x in ("0.0", "0", "(1-1)")
    return {"script": "@set /a v=%s(%s)\n@echo %%v%%\n" % (f, x), "re": ("^-?(inf|nan)$" if f == "delta" and z else "^-?nan$" if z else "^-?0$"),
            "exact": "inf" if (f == "delta" and z) else None}


def run_special(case, ctx):
    r = ctx.pbat(case["script"])
    o = r.out.decode().strip()
    if r.rc != 0 or not re.match(case["re"], o) or (case["exact"] and o != case["exact"]):
        return "expected %s, got %r (rc %r)" % (case["re"], o, r.rc)


FAMS = [vf.Family("floats", gen, run, 20000, 250000),
        vf.Family("delta", gen_special, run_special, 40, 60)]

if __name__ == "__main__":
    sys.exit(vf.main("P07", FAMS, rule="a case is non-trivial when its floating point SET /A expressions use at least four "
                     "different operators, functions, constants or operand kinds"))
