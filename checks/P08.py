"""IF tests against a reference truth function."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, ifcond


def gen(s):
    c = ifcond.Cond(s)
    L, out = list(ifcond.PROLOG), []
    for i in range(s.rand(1, 14)):
        call = c.new_errorlevel()
        c.pre = []
        text, tv, cancase = c.test(False)
        ci = cancase and s.bool(40)
        if tv(ci) is None:
            ci = False
        neg = s.bool(30)
        head = s.choice(["if", "IF", "If"]) + " " + (s.choice(["/i ", "/I "]) if ci else "") + (s.choice(["not ", "NOT "]) if neg else "")
        t = tv(ci) != neg
        if neg: c.tags.add("not")
        if ci: c.tags.add("/i")
        form = s.weighted([(3, "line"), (3, "else"), (2, "block")])
        if form == "line" and text.endswith("["):
            form = "else"
        L += c.pre
        if "errorlevel" in text.lower():
            L.append(call)
        if form == "line":
            L.append("%s%s echo %d yes" % (head, text, i))
            if t:
                out.append("%d yes" % i)
        elif form == "else":
            L.append("%s%s (echo %d yes) else (echo %d no)" % (head, text, i, i))
            out.append("%d %s" % (i, "yes" if t else "no"))
        else:
            L += ["%s%s (" % (head, text), "echo %d yes" % i, ") else (", "echo %d no" % i, ")"]
            out.append("%d %s" % (i, "yes" if t else "no"))
        if "errorlevel" not in text.lower() or True:
            pass
    L += ifcond.EPILOG
    return {"script": "\n".join(L) + "\n", "out": "".join(x + "\n" for x in out), "tags": sorted(c.tags),
            "nontrivial": len(c.tags) >= 3}


def run(case, ctx):
    ifcond.setup(ctx)
    return vf.expect_run(ctx.pbat(case["script"]), case["out"], rc=None)


FAMS = [vf.Family("if", gen, run, 15000, 300000)]

if __name__ == "__main__":
    sys.exit(vf.main("P08", FAMS, rule="a case is non-trivial when its script uses at least three kinds of tests or modifiers"))
