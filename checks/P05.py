"""SETLOCAL / ENDLOCAL histories against a stack of environments.

CMDLYCORRECT is left out: the manual says that changing it restarts the script."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

NAMES = ["a", "b", "Cc", "d e", "v1", "v2", "_l", "xx"]
VAL = "abcXYZ019._-+/#@$[]{}?*:=~ "
OPTS = ["ENABLEDELAYEDEXPANSION", "DISABLEDELAYEDEXPANSION", "ENABLEEXTENSIONS", "DISABLEEXTENSIONS"]


def gen(s):
    env, stack, delayed, correct = {}, [], True, False
    L, out, tags = ["@echo off"], [], set()
    procs = []
    maxdepth = s.choice([2, 3, 5, 30])
    deepest = [0]

    def val():
        return s.text(VAL, 1, 6).strip() or "x"

    def step(L, depth, inblock):
        nonlocal env, delayed, correct
        op = s.weighted([(6, "set"), (2, "unset"), (6, "get"), (6, "setlocal"), (6, "endlocal"), (2, "all"), (2, "errl"), (1, "proc"), (1, "block"), (1, "loop"), (1, "seta")])
        n = s.choice(NAMES)
        if op == "set":
            v = val()
            L.append('set "%s=%s"' % (n, v))
            env[n] = v
        elif op == "seta":
            k = s.rand(-99, 99)
            L.append("set /a v1=%d" % k)
            env["v1"] = str(k)
        elif op == "unset":
            L.append("set %s=" % n)
            if n in env:
                tags.add("unset-in-scope" if stack else "unset")
            env.pop(n, None)
        elif op in ("get", "all"):
            for m in ([n] if op == "get" else NAMES):
                if inblock or s.bool():
                    L.append("echo %s[!%s!]" % (m.replace(" ", ""), m))
                    out.append("%s[%s]" % (m.replace(" ", ""), env.get(m, "") if delayed else "!%s!" % m))
                    if not delayed:
                        tags.add("literal-!")
                else:
                    L.append('echo -"%%%s%%"' % m)
                    out.append('-"%s"' % env.get(m, ""))
        elif op == "setlocal":
            if len(stack) >= maxdepth:
                return
            o = [x for x in OPTS if s.bool(18)]
            if "ENABLEDELAYEDEXPANSION" in o and "DISABLEDELAYEDEXPANSION" in o:
                o = []
            t = s.choice(["setlocal", "SETLOCAL", "SetLocal"])
            L.append(" ".join([t] + [x if s.bool(70) else x.lower() for x in s.shuffle(o)]))
            stack.append((dict(env), delayed, correct))
            if "ENABLEDELAYEDEXPANSION" in o: delayed = True
            if "DISABLEDELAYEDEXPANSION" in o: delayed = False
            if o:
                tags.add("options")
            deepest[0] = max(deepest[0], len(stack))
            if len(stack) > 1:
                tags.add("nested")
        elif op == "endlocal":
            L.append(s.choice(["endlocal", "ENDLOCAL", "endlocal "]))
            if stack and len(stack) > depth:
                if env != stack[-1][0]:
                    tags.add("reverted")
                env, delayed, correct = stack.pop()
            elif not stack:
                tags.add("excess")
            else:
                L.pop()
        elif op == "errl":
            k = s.rand(0, 200)
            what = s.choice(["setlocal", "endlocal"])
            if what == "setlocal":
                if len(stack) >= maxdepth:
                    return
                stack.append((dict(env), delayed, correct))
            else:
                if len(stack) <= depth and stack:
                    return
                if stack:
                    env, delayed, correct = stack.pop()
            L += ["call :rc %d" % k, what]
            L.append("if errorlevel %d if not errorlevel %d echo E%d" % (k, k + 1, k))
            out.append("E%d" % k)
            tags.add("errorlevel")
        elif op == "proc" and depth == 0 and not inblock and len(procs) < 4:
            # a label whose SETLOCALs are balanced
            i = len(procs)
            procs.append([])
            L.append("call :p%d" % i)
            d0 = len(stack)
            body = []
            body.append("setlocal")
            stack.append((dict(env), delayed, correct))
            for _ in range(s.rand(1, 6)):
                step(body, d0 + 1, False)
            while len(stack) > d0:
                body.append("endlocal")
                env, delayed, correct = stack.pop()
            body.append("goto :eof")
            procs[i] = body
            tags.add("proc")
        elif op == "block" and not inblock:
            L.append("(")
            for _ in range(s.rand(1, 5)):
                step(L, depth, True)
            L.append(")")
            tags.add("block")
            if L[-2] == "(":
                L[-1:] = ["rem", ")"]
        elif op == "loop" and not inblock:
            items = [s.text("abc019", 1, 3) for _ in range(s.rand(1, 4))]
            balanced = s.bool(70)
            if not balanced and len(stack) + len(items) > maxdepth:
                balanced = True
            L.append("for %%%%i in (%s) do (" % " ".join(items))
            L += ["setlocal", "set xx=!xx!%%i" if delayed else "set xx=.%%i", "echo !xx!"] + (["endlocal"] if balanced else []) + [")"]
            for it in items:
                stack.append((dict(env), delayed, correct))
                if delayed:
                    env["xx"] = env.get("xx", "") + it
                    out.append(env["xx"])
                else:
                    env["xx"] = "." + it
                    out.append("!xx!")
                if balanced:
                    env, delayed, correct = stack.pop()
            tags.add("loop")
            deepest[0] = max(deepest[0], len(stack))

    for _ in range(s.weighted([(4, s.rand(2, 12)), (2, s.rand(10, 40)), (1, s.rand(40, 120))])):
        step(L, 0, False)
    for m in NAMES:
        L.append('echo %s"%%%s%%"' % (m.replace(" ", ""), m))
        out.append('%s"%s"' % (m.replace(" ", ""), env.get(m, "")))
    L.append("exit /b 0")
    L += [":rc", "exit /b %1"]
    for i, b in enumerate(procs):
        L += [":p%d" % i] + b
    if deepest[0] > 4:
        tags.add("deep")
    return {"script": "\n".join(L) + "\n", "out": "\n".join(out) + "\n", "tags": sorted(tags), "nontrivial": bool(tags & {"reverted", "nested", "options"})}


def run(case, ctx):
    return vf.expect_run(ctx.pbat(case["script"]), case["out"], rc=None)


FAMS = [vf.Family("setlocal", gen, run, 15000, 200000)]

if __name__ == "__main__":
    sys.exit(vf.main("P05", FAMS, rule="a case is non-trivial when an ENDLOCAL reverts a change, or SETLOCALs nest or carry options"))
