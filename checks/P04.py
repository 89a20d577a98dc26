"""The environment behaves as a case-insensitive map: histories of SET."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

VAL = "abcXYZ019 ._-+/#@$[]{}'?*,;:=~\u00e9\u4e2d"
HARD = VAL + "&|<>()"


def gen_pool(s):
    """names sharing prefixes"""
    base = ["q", "qa", "Qab", "qab c", "z", "Z9", "q_1", "q-", "q.x", "_q", "qA\u00e9", "Y y", "yY2", "ab[1]", "ab[2]", "q#", "0q", "q$"]
    pool = s.subset(base, 50) or ["q"]
    if s.bool(12):
        pool += ["many%d" % i for i in range(s.rand(20, 160))]
    return pool


def case_of(s, n):
    if s.bool(60):
        return n
    return "".join(c.swapcase() if c.isascii() and c.isalpha() and s.bool() else c for c in n)


def key(n):
    return "".join(c.lower() if c.isascii() else c for c in n)


def gen(s):
    pool = gen_pool(s)
    env = {}                      # key -> [stored name, value]
    inherited = {}
    for n in pool[:40]:
        if s.bool(20) and " " not in n:
            v = s.text(VAL, 1, 8)
            inherited[n] = v
            env[key(n)] = [n, v]
    L, out, tags = ["@echo off"], [], set()
    nops = s.weighted([(6, s.rand(1, 12)), (3, s.rand(10, 60)), (1, s.rand(60, 250))])
    removed = 0
    for _ in range(nops):
        n = s.choice(pool)
        c = case_of(s, n)
        op = s.weighted([(8, "set"), (4, "unset"), (6, "get"), (3, "list"), (1, "long"), (1, "selfref"), (1, "swap"), (1, "child"), (1, "exists")])
        if op in ("set", "long"):
            style = s.weighted([(4, "plain"), (4, "quoted"), (1, "lead"), (1, "nameblank")])
            v = s.text(VAL if style != "quoted" else HARD, 1, 12) if op == "set" else s.text(VAL, 3, 9) * s.choice([s.rand(40, 400), s.rand(400, 2500)])
            if style == "quoted":
                tail = s.choice(["", "", " junk", "x"])
                L.append('set "%s=%s"%s' % (c, v, tail))
            elif style == "lead":
                L.append("  SET \t%s=%s" % (c, v))
            elif style == "nameblank":
                L.append("set %s%s=%s" % (c, s.choice([" ", "\t", "  "]), v))
                tags.add("nameblank")
            else:
                L.append("set %s=%s" % (c, v))
            if key(n) in env:
                env[key(n)][1] = v
                tags.add("overwrite")
            else:
                env[key(n)] = [c, v]
                if removed:
                    tags.add("reuse-after-remove")
        elif op == "unset":
            L.append(s.choice(["set %s=", 'set "%s="', "set  %s ="]) % c)
            if key(n) in env:
                removed += 1
                tags.add("remove")
            env.pop(key(n), None)
        elif op == "get":
            L.append("echo [!%s!]" % c)
            out.append("[%s]" % env.get(key(n), ["", ""])[1])
        elif op == "exists":
            L.append("if defined %s (echo D) else echo U" % c if " " not in c else 'if defined "%s" (echo D) else echo U' % c)
            out.append("D" if key(n) in env else "U")
        elif op == "list":
            p = c[:s.rand(1, len(c))] if s.bool(80) else c + "x"
            if p.endswith(" ") or p.startswith(" "):
                p = p.strip() or "q"
            L += ["echo {", "set %s 2>nul" % p, "echo }"]
            out.append(["list", key(p), sorted("%s=%s" % (a, b) for k, (a, b) in env.items() if k.startswith(key(p)))])
            tags.add("list")
        elif op == "selfref":
            v = env.get(key(n), ["", ""])[1]
            if len(v) > 3000:
                continue
            L.append("set %s=!%s!%s" % (c, case_of(s, n), "+x"))
            if key(n) in env:
                env[key(n)][1] = v + "+x"
            else:
                env[key(n)] = [c, "+x"]
            tags.add("selfref")
        elif op == "swap":
            m = s.choice(pool)
            if key(n) not in env or key(m) not in env:
                continue
            L += ["set zzswap=!%s!" % c, "set %s=!%s!" % (c, m), "set %s=!zzswap!" % m]
            a, b = env[key(n)][1], env[key(m)][1]
            env[key(n)][1] = b
            env[key(m)][1] = a
            env["zzswap"] = ["zzswap", a]
        elif op == "child":
            L += ["echo {", "printenv", "echo }"]
            out.append(["child", {a: b for k, (a, b) in env.items()}, sorted(k for k in set(map(key, pool)) if k not in env)])
            tags.add("child")
    for n in pool:
        L.append("echo %s [!%s!]" % (n, n))
        out.append("%s [%s]" % (n, env.get(key(n), ["", ""])[1]))
    L += ["echo {", "set %s 2>nul" % pool[0][:1], "echo }"]
    out.append(["list", key(pool[0][:1]), sorted("%s=%s" % (a, b) for k, (a, b) in env.items() if k.startswith(key(pool[0][:1])))])
    if len(pool) > 60:
        tags.add("many")
    return {"script": "\n".join(L) + "\n", "out": out, "env": inherited, "tags": sorted(tags), "nontrivial": bool(tags & {"remove", "overwrite", "list"})}


def run(case, ctx):
    r = ctx.pbat(case["script"], env=case["env"])
    if r.timeout or r.rc != 0 or r.err:
        return "exit status %r, stderr %r" % (r.rc, r.err[:300])
    got = vf.b2s(r.out).split("\n")
    i = 0
    for e in case["out"]:
        if i >= len(got):
            return "output ends early, expected %r" % (e,)
        if isinstance(e, str):
            if got[i] != e:
                return "line %d: expected %r, got %r" % (i + 1, e[:300], got[i][:300])
            i += 1
            continue
        if got[i] != "{":
            return "line %d: expected {, got %r" % (i + 1, got[i][:300])
        try:
            j = got.index("}", i)
        except ValueError:
            return "no end of listing after line %d" % (i + 1)
        body = got[i + 1:j]
        i = j + 1
        if e[0] == "list":
            mine = sorted(body)
            if mine != e[2]:
                a = [x for x in e[2] if x not in mine]
                b = [x for x in mine if x not in e[2]]
                return "SET %s: missing %r, unexpected %r (%d lines listed, %d expected)" % (e[1], a[:3], b[:3], len(mine), len(e[2]))
        else:
            d = dict(x.split("=", 1) for x in body if "=" in x)
            for n, v in e[1].items():
                if d.get(n) != v:
                    return "a program started by the script sees %s=%r, expected %r" % (n, d.get(n), v[:200])
            for n in d:
                if key(n) in e[2]:
                    return "a program started by the script sees the removed variable %s" % n
    if got[i:] not in ([""], []):
        return "unexpected trailing output %r" % (got[i:][:3],)
    return None


FAMS = [vf.Family("set", gen, run, 12000, 150000)]

if __name__ == "__main__":
    sys.exit(vf.main("P04", FAMS, rule="a case is non-trivial when a variable is removed, overwritten or listed"))
