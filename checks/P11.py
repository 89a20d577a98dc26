"""FOR /L counting loops, nested and interrupted, against Python's range."""
import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

LIMIT = 1500


def spell(s, n, tags):
    k = s.weighted([(6, "dec"), (1, "hex"), (1, "oct"), (1, "float"), (1, "quote"), (2, "var"), (1, "plus")])
    g, a = ("-" if n < 0 else ""), abs(n)
    if k != "dec":
        tags.add(k)
    if k == "hex":
        return "%s0x%x" % (g, a), None
    if k == "oct":
        return "%s0%o" % (g, a), None
    if k == "float":
        f = s.rand(0, 99)
        # a number whose floor is n
        x = "%d.%02d" % (n, f) if n >= 0 else ("-%d.%02d" % (a - 1, 100 - f) if f else "%d.0" % n)
        return x, None
    if k == "quote":
        return '"%d"' % n, None
    if k == "var":
        return None, str(n)
    if k == "plus" and n > 0:
        return "+%d" % n, None
    return str(n), None


def gen_range(s):
    k = s.weighted([(5, "small"), (2, "neg"), (1, "edge"), (1, "none"), (1, "many"), (1, "single")])
    if k == "small":
        a, st = s.rand(0, 10), s.rand(1, 4)
        e = a + s.rand(0, 12)
    elif k == "neg":
        a, st = -s.rand(0, 30), s.rand(1, 7)
        e = a + s.rand(0, 40)
    elif k == "edge":
        st = s.rand(1, 5)
        if s.bool():
            e = 2147483647 - s.rand(0, 3)
            a = e - s.rand(0, 10)
        else:
            a = -2147483648 + s.rand(0, 3)
            e = a + s.rand(0, 10)
    elif k == "none":
        a, st = s.rand(0, 10), s.choice([1, 2, 5, -1, -3])
        e = a - s.rand(1, 10)
    elif k == "single":
        a = e = s.rand(-5, 5)
        st = s.rand(1, 100)
    else:
        a, st = s.rand(-50, 50), s.rand(1, 3)
        e = a + s.rand(50, 400)
    return k, a, st, e, range(a, e + 1, st) if e >= a else range(0)


def gen(s):
    L, out, tags, total = ["@echo off"], [], set(), [0]
    labels, nlab = [], [0]

    def loop(depth, live, var, fvars, times):
        """statements of one loop; execution is modelled by generating closures"""
        k, a, st, e, r = gen_range(s)
        if depth and len(r) > 6:
            k, a, st, e = "small", 1, 1, s.rand(1, 5)
            r = range(1, e + 1)
        if times * len(r) > LIMIT:
            s.reject()
        tags.add(k)
        txt = []
        for n in (a, st, e):
            t, v = spell(s, n, tags)
            if t is None:
                nm = "v%d" % len(labels)
                labels.append(nm)
                pre.append("set %s=%s" % (nm, v))
                t = ("!%s!" if s.bool() or depth else "%%%s%%") % nm
            txt.append(t)
        sep = s.choice([",", ",", " ", ";", ", "])
        head = "%s %%%%%s in (%s) do " % (s.choice(["for /l", "FOR /L", "for /L"]), var, sep.join(txt))
        body = s.weighted([(3, "echo"), (2, "sum"), (2 if depth < 3 else 0, "nest"), (1 if depth == 0 else 0, "break"), (1, "call"), (1, "if"), (1, "oneline")])
        tags.add(body)
        names = fvars + [var]
        show = " ".join("%%%%%s" % x for x in names)
        if body == "echo":
            return [head + "(", "echo %s" % show, ")"], lambda vals: [emit(" ".join(map(str, vals + [i]))) for i in r]
        if body == "oneline":
            return [head + "echo %s& echo ." % show], lambda vals: [emit(" ".join(map(str, vals + [i])) + "\n.") for i in r]
        if body == "sum":
            def f(vals):
                for i in r:
                    acc[0] = wrap(acc[0] + i)
                emit("sum %d" % acc[0])
            return [head + "set /a acc+=%%%%%s" % var, "echo sum !acc!"], f
        if body == "call":
            def f(vals):
                for i in r:
                    emit("sub %d [%s]" % (i, vals[0] if vals else ""))
            return [head + "call :sub %%%%%s %s" % (var, ("%%%%%s" % fvars[0]) if fvars else "")], f
        if body == "if":
            m = s.rand(-3, 8)
            def f(vals):
                for i in r:
                    emit("%s %d" % ("lt" if i < m else "ge", i))
            return [head + "if %%%%%s LSS %d (echo lt %%%%%s) else (echo ge %%%%%s)" % (var, m, var, var)], f
        if body == "break":
            nlab[0] += 1
            n, at = nlab[0], s.choice(list(r)) if len(r) else 0
            def f(vals):
                for i in r:
                    emit("it %d" % i)
                    if i == at:
                        return
                emit("fell")
            return [head + "(", "echo it %%%%%s" % var, "if %%%%%s==%d goto b%d" % (var, at, n), ")", "echo fell", ":b%d" % n], f
        # nest
        subs = [loop(depth + 1, live, "ijkl"[depth + 1], names, times * max(1, len(r))) for _ in range(s.rand(1, 2))]
        lines = [head + "("]
        for sl, sf in subs:
            lines += sl
        lines += ["echo n %%%%%s" % var, ")"]

        def f(vals):
            for i in r:
                for sl, sf in subs:
                    sf(vals + [i])
                emit("n %d" % i)
        return lines, f

    def emit(x):
        out.append(x)

    acc = [0]
    pre = []
    L.append("set /a acc=0")
    for _ in range(s.rand(1, 4)):
        pre = []
        lines, f = loop(0, True, "i", [], 1)
        L += pre + lines
        f([])
        L.append("echo --")
        out.append("--")
    L += ["goto :eof", ":sub", "echo sub %1 [%2]", "goto :eof"]
    if any("sum" in t for t in tags) and abs(acc[0]) > 2 ** 31 - 1:
        s.reject()
    return {"script": "\n".join(L) + "\n", "out": "".join(x + "\n" for x in out), "tags": sorted(tags),
            "nontrivial": len(out) > 4}


def wrap(n):
    if abs(n) > 2 ** 31 - 1:
        raise vf.Reject()
    return n


def run(case, ctx):
    return vf.expect_run(ctx.pbat(case["script"]), case["out"], rc=None)


FAMS = [vf.Family("count", gen, run, 10000, 120000)]

if __name__ == "__main__":
    sys.exit(vf.main("P11", FAMS, rule="a case is non-trivial when its loops print more than four lines"))
