"""IF [ expressions ], ELSE chains and nested blocks against a reference interpreter."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, ifcond


def gen_expr(s, c, depth, top=True):
    """-> (list of tokens, truth(ci) -> bool or None)"""
    k = s.weighted([(4, "test"), (3 if depth > 0 else 0, "or"), (3 if depth > 0 else 0, "and"), (2 if depth > 0 else 0, "br"), (3 if depth > 0 else 0, "flat")])
    if k == "test":
        text, tv, cc = c.test(True)
        if s.bool(25):
            c.tags.add("innernot")
            return [s.choice(["not", "NOT"]) + " " + text], lambda ci: neg3(tv(ci)), 3
        return [text], tv, 3
    if k == "br":
        t, f, p = gen_expr(s, c, depth - 1)
        c.tags.add("brackets")
        return ["["] + t + ["]"], f, 3
    if k == "flat":
        # a flat chain of mixed operators, judged by precedence
        n = s.rand(2, 6)
        parts = [gen_expr(s, c, depth - 1) for _ in range(n)]
        parts = [(["["] + t + ["]"], f) if p < 3 else (t, f) for t, f, p in parts]
        ops = [s.choice(["and", "or"]) for _ in range(n - 1)]
        toks = list(parts[0][0])
        for (t, f), o in zip(parts[1:], ops):
            toks += [o if s.bool(70) else o.upper()] + t
        if len(set(ops)) > 1:
            c.tags.add("mixed")

        def ev(ci):
            v = [f(ci) for t, f in parts]
            if None in v:
                return None
            groups, cur = [], v[0]
            for x, o in zip(v[1:], ops):
                if o == "and":
                    cur = cur and x
                else:
                    groups.append(cur)
                    cur = x
            return any(groups + [cur])
        return toks, ev, 1
    lt, lf, lp = gen_expr(s, c, depth - 1)
    rt, rf, rp = gen_expr(s, c, depth - 1)
    need = 2 if k == "and" else 1
    if lp < need: lt = ["["] + lt + ["]"]
    if rp < need: rt = ["["] + rt + ["]"]
    c.tags.add(k)

    def ev(ci):
        a, b = lf(ci), rf(ci)
        if a is None or b is None:
            return None
        return (a and b) if k == "and" else (a or b)
    return lt + [s.choice([k, k.upper()])] + rt, ev, need


def neg3(v):
    return None if v is None else not v


def gen_cond(s, c):
    """-> (text of IF up to the command, truth)"""
    if s.bool(70):
        toks, f, _ = gen_expr(s, c, s.rand(0, 4))
        ci = s.bool(30)
        if f(ci) is None:
            ci = False
        neg = s.bool(25)
        c.tags.add("expr")
        if len(toks) > 12: c.tags.add("long")
        return ("if " + ("/i " if ci else "") + ("not " if neg else "") + "[ " + " ".join(toks) + " ]"), f(ci) != neg
    text, tv, cc = c.test(False)
    ci = cc and s.bool(30) and tv(True) is not None
    neg = s.bool(30)
    return ("if " + ("/i " if ci else "") + ("not " if neg else "") + text), tv(ci) != neg


def gen(s):
    c = ifcond.Cond(s)
    out, count = [], [0]

    def stmt(depth, live):
        """-> lines; appends to out when live"""
        k = s.weighted([(3, "echo"), (4 if depth < 4 else 0, "if"), (3 if depth < 4 else 0, "chain"), (2, "oneline"), (1, "lineamp"), (1, "acc")])
        count[0] += 1
        i = count[0]
        if count[0] > 40:
            k = "echo"
        if k == "echo":
            if live: out.append("s%d" % i)
            return ["echo s%d" % i]
        if k == "acc":
            if live:
                acc[0] += 1
                out.append("acc %d" % acc[0])
            return ["set /a acc+=1", "echo acc !acc!"]
        r = [c.new_errorlevel()]
        if k == "oneline":
            t, v = gen_cond(s, c)
            if s.bool():
                if live: out.append("o%d %s" % (i, "yes" if v else "no"))
                return r + ["%s (echo o%d yes) else (echo o%d no)" % (t, i, i)]
            if live and v: out.append("o%d yes" % i)
            return r + ["%s echo o%d yes" % (t, i)]
        if k == "lineamp":
            t, v = gen_cond(s, c)
            if live and v: out.extend(["l%d a" % i, "l%d b" % i])
            c.tags.add("rest-of-line")
            return r + ["%s echo l%da& echo l%db" % (t, i, i)] if False else r + ["%s (echo l%d a&& echo l%d b)" % (t, i, i)] if s.bool() else r + ["%s echo l%d a&& echo l%d b" % (t, i, i)]
        n = 1 if k == "if" else s.rand(2, 4)
        conds = [gen_cond(s, c) for _ in range(n)]
        haselse = s.bool(60)
        taken = False
        for j, (t, v) in enumerate(conds):
            if j == 0:
                r.append(t + " (")
            else:
                r.append(") else " + t + " (")
                c.tags.add("else-if")
            mine = live and v and not taken
            for _ in range(s.rand(1, 3)):
                r += stmt(depth + 1, mine)
            taken = taken or v
        if haselse:
            r.append(s.choice([") else (", ") ELSE (", ")else ("]))
            c.tags.add("else")
            for _ in range(s.rand(1, 3)):
                r += stmt(depth + 1, live and not taken)
        r.append(")")
        if depth: c.tags.add("nested")
        return r
    acc = [0]
    L = list(ifcond.PROLOG) + ["set acc=0"]
    for _ in range(s.rand(1, 5)):
        c.pre = []
        st = stmt(0, True)
        L += c.pre + st
    L += ["echo end"] + ifcond.EPILOG
    out.append("end")
    return {"script": "\n".join(L) + "\n", "out": "".join(x + "\n" for x in out), "tags": sorted(c.tags),
            "nontrivial": bool({"expr", "else", "nested"} & c.tags)}


def run(case, ctx):
    ifcond.setup(ctx)
    return vf.expect_run(ctx.pbat(case["script"]), case["out"], rc=None)


FAMS = [vf.Family("expr", gen, run, 15000, 250000)]

if __name__ == "__main__":
    sys.exit(vf.main("P09", FAMS, rule="a case is non-trivial when its script uses an expression in brackets, an ELSE or a nested IF"))
