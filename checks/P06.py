"""SET /A arithmetic against a reference evaluator."""
import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "<<": 6, ">>": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}
NAMES = ["x", "y", "Count", "a1", "_t", "total", "i.j", "b"]
LIM = 2 ** 31 - 1


class Bad(Exception):
    """outside of the domain in which the result is specified"""


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def intop(op, a, b):
    if op == "+": r = a + b
    elif op == "-": r = a - b
    elif op == "*": r = a * b
    elif op in "/%":
        if b == 0:
            raise Bad()
        q = tdiv(a, b)
        r = q if op == "/" else a - q * b
    elif op == "&": r = a & b
    elif op == "|": r = a | b
    elif op == "^": r = a ^ b
    elif op == "&&": r = int(bool(a) and bool(b))
    elif op == "||": r = int(bool(a) or bool(b))
    else:
        if not 0 <= b <= 30 or (op == "<<" and a < 0):
            raise Bad()
        r = a << b if op == "<<" else a >> b
    if abs(r) > LIM:
        raise Bad()
    return r


def lit(s, env):
    k = s.weighted([(5, 0), (2, 1), (1, 2), (1, 3)])
    if k == 0:
        v = s.weighted([(6, None), (2, s.rand(0, 9))])
        return v if v is not None else s.rand(0, s.choice([1, 20, 300, 70000, 2 ** 31 - 1]))
    return s.rand(0, s.choice([9, 255, 4095]))


def gen_expr(s, depth, allow_assign=True):
    k = s.weighted([(3, "num"), (3, "var"), (7, "bin"), (2, "un"), (1, "asg")]) if depth > 0 else s.choice(["num", "var"])
    if k == "num":
        v = lit(s, None)
        return ["num", v, s.weighted([(6, "d"), (1, "x"), (1, "X"), (1, "o")])]
    if k == "var":
        return ["var", s.choice(NAMES), s.rand(0, 1)]
    if k == "un":
        return ["un", s.choice("-~!-"), gen_expr(s, depth - 1)]
    if k == "asg":
        return ["asg", s.choice(NAMES), gen_expr(s, depth - 1)]
    op = s.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "+", "-", "*"])
    return ["bin", op, gen_expr(s, depth - 1), gen_expr(s, depth - 1), s.rand(0, 5)]


def text(e, ctx, sp):
    """renders with the parentheses the documented precedence requires,
       plus some redundant ones"""
    k = e[0]
    if k == "num":
        v = e[1]
        return {"d": "%d", "x": "0x%x", "X": "0x%X", "o": "0%o"}[e[2]] % v if not (e[2] == "d") else "%d" % v
    if k == "var":
        return e[1].upper() if e[2] else e[1]
    if k == "un":
        # an operand of a unary operator: atom, other unary, or parenthesised
        t = text(e[2], 20, sp)
        return e[1] + sp(0) + t
    if k == "asg":
        # the operand of '=' binds tighter than any binary operator
        t = "%s%s=%s%s" % (e[1], sp(0), sp(0), text(e[2], 19, sp))
        return "(" + t + ")" if ctx >= 0 else t
    p = PREC[e[1]]
    l = text(e[2], p, sp)
    r = text(e[3], p + 1, sp)
    t = l + sp(1) + e[1] + sp(1) + r
    if p < ctx or e[4] == 5:
        return "(" + t + ")"
    return t


def ev(e, env):
    k = e[0]
    if k == "num":
        return e[1]
    if k == "var":
        return env.get(e[1].lower(), 0)
    if k == "un":
        v = ev(e[2], env)
        r = -v if e[1] == "-" else ~v if e[1] == "~" else int(not v)
        if abs(r) > LIM:
            raise Bad()
        return r
    if k == "asg":
        v = ev(e[2], env)
        env[e[1].lower()] = v
        return v
    a = ev(e[2], env)
    b = ev(e[3], env)
    return intop(e[1], a, b)


def ops(e, acc):
    if e[0] == "bin":
        acc.add(e[1]); ops(e[2], acc); ops(e[3], acc)
    elif e[0] == "un":
        acc.add("u" + e[1]); ops(e[2], acc)
    elif e[0] == "asg":
        acc.add("="); ops(e[2], acc)
    return acc


def gen_int(s):
    env, lines, out, seen = {}, ["@echo off"], [], set()
    delayed = s.bool(40)
    if not delayed:
        lines.append("setlocal disabledelayedexpansion")
    for _ in range(s.rand(2, 10)):
        asgs, quoted = [], s.bool(70)
        for _ in range(s.weighted([(6, 1), (2, 2), (1, 3)])):
            for _try in range(8):
                name = s.choice(NAMES)
                e = gen_expr(s, s.weighted([(2, 1), (4, 2), (4, 3), (2, 4)]))
                aop = s.weighted([(6, ""), (4, s.choice(["+", "-", "*", "/", "%", "^", "&", "|", "&&", "||", "<<", ">>"]))])
                e2 = dict(env)
                try:
                    v = ev(e, e2)
                    if aop:
                        v = intop(aop, e2.get(name.lower(), 0), v)
                except Bad:
                    continue
                sp = lambda w: s.weighted([(5, ""), (3, " " if w else ""), (1, "  " if w else " "), (1, "\t")])
                t = name + s.weighted([(5, ""), (1, " ")]) + aop + "=" + s.weighted([(5, ""), (1, " ")]) + text(e, -1, sp)
                if not quoted and any(c in t for c in "&|<>^"):
                    continue
                env = e2
                env[name.lower()] = v
                acc = ops(e, set())
                if aop:
                    acc.add(aop + "=")
                seen |= acc
                asgs.append(t)
                break
        if not asgs:
            continue
        if quoted:
            t = s.choice([",", ", "]).join('"%s"' % a for a in asgs)
        else:
            t = s.choice([",", " , "]).join(asgs)
        t = t.replace("%", "%%")
        if delayed:
            t = t.replace("!", "^!") if quoted else t.replace("!", "^!")
            # '^' is an escape character when delayed expansion scans the line
            if "^" in t.replace("^!", ""):
                t = t.replace("^!", "\0").replace("^", "^^").replace("\0", "^!")
        else:
            if "^" in t:
                t = t.replace("^", "^^")
        lines.append(s.choice(["set /a ", "SET /A ", "set  /a "]) + t)
        ref = s.choice(NAMES) if s.bool(30) else asgs[-1].split("=")[0].rstrip("+-*/%^&|<> ").strip()
        n = ref
        lines.append("echo [%%%s%%]" % n)
        out.append("[%s]" % fmt(env[n.lower()]) if n.lower() in env else "[]")
    # the complete final state
    for n in NAMES:
        lines.append("echo %s=%%%s%%" % (n, n))
        out.append("%s=%s" % (n, fmt(env[n.lower()]) if n.lower() in env else ""))
    return {"script": "\n".join(lines) + "\n", "out": "\n".join(out) + "\n", "tags": sorted(seen),
            "nontrivial": len(seen) >= 3}


def fmt(v):
    return "%.14g" % float(v)


def run(case, ctx):
    return vf.expect_run(ctx.pbat(case["script"]), case["out"])


# ---- division by zero and overflowing quotients never take the interpreter down
def gen_zero(s):
    a = s.choice(["0", "1", "-5", "x", "(3-3)", "2147483647", "(-2147483647-1)", "(-9223372036854775807-1)"])
    z = s.choice(["0", "(1-1)", "nope", "(4-2*2)", "-1", "(0-1)", "~0"])
    op = s.choice(["/", "%%"])
    form = s.rand(0, 2)
    if form == 0:
        st = "set /a v=%s%s%s" % (a, op, z)
    elif form == 1:
        st = "set v=%s\nset /a v%s=%s" % (s.choice(["7", "0", "-2147483648"]), op, z)
    else:
        st = "set /a w=2+%s%s%s*3" % (a, op, z)
    return {"script": "@echo off\nset x=9\n%s\necho alive\n" % st}


def run_zero(case, ctx):
    r = ctx.pbat(case["script"])
    if r.timeout or r.rc != 0 or r.out != b"alive\n":
        return "division by zero or -1: exit status %r, stdout %r" % (r.rc, r.out[:200])
    return None


FAMS = [
    vf.Family("integers", gen_int, run, 30000, 400000),
    vf.Family("undefined-quotients", gen_zero, run_zero, 1500, 6000),
]

if __name__ == "__main__":
    sys.exit(vf.main("P06", FAMS, rule="an integers case is non-trivial when its SET /A expressions use at least three "
                     "different operators; every undefined-quotients case is"))
