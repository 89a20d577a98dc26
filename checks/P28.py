"""What is displayed: echoed lines, prompts and PECHO, and what SET /P reads."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

WORDS = ["one", "Two", "3", "x-y", "a.b", "k=v", "\"q r\"", "z,z", "é", "~"]


class St:
    """the state the prompt depends on"""

    def __init__(self):
        self.cwd, self.dirs, self.prompt, self.vars, self.echo = "", [], "$P$G", {"USERNAME": "jim", "USERDOMAIN": "dom"}, True

    def show(self, f=None):
        f = self.prompt if f is None else f
        out, i = "", 0
        while i < len(f):
            c = f[i]
            i += 1
            if c != "$":
                out += c
                continue
            if i >= len(f):
                break
            c = f[i].lower()
            i += 1
            simple = {"a": "&", "b": "|", "c": "(", "f": ")", "g": ">", "l": "<", "q": "=", "s": " ", "$": "$", "e": "\x1b", "h": "\b", "_": "\n", "n": "/", "+": "+" * len(self.dirs)}
            if c in simple:
                out += simple[c]
            elif c == "p":
                out += "@@" + ("/" + self.cwd if self.cwd else "")
            elif c == "u":
                out += self.vars.get("USERNAME", "")
            elif c == "w":
                out += self.vars.get("USERDOMAIN", "")
            elif c == "x":
                j = f.find(";", i)
                i = j + 1
        return out


def gen_format(s, tags, lo=0, safe=False):
    """text with $ specifiers; no character which the parser treats specially"""
    out = ""
    for _ in range(s.rand(lo, 6)):
        k = s.weighted([(4, "spec"), (4, "text"), (1, "unknown"), (1, "color"), (1, "pair")])
        if k == "spec":
            c = s.choice("abcefghlnpqs$_+uw")
            out += "$" + (c.upper() if s.bool(40) else c)
            tags.add("spec-" + c)
        elif k == "text":
            out += s.choice(["abc", "x y", "[", "]", "1", "-", "#", ".", ":", "~", "é", "a  b", "=", "ok"])
        elif k == "unknown":
            out += "$" + s.choice("jkyzJ019 ]-[")
            tags.add("unknown-specifier")
        elif k == "color":
            out += "$" + s.choice("xX") + s.choice(["7", "f", "0a", ".4", "3.", "..", "."]) + ";"
            tags.add("color")
        else:
            out += "$$" + s.choice(["p", "g", "$$", "a"])
            tags.add("escaped-dollar")
    if not safe and s.bool(10):
        out += "$"
        tags.add("final-dollar")
    return out


def words(s, st, params=None, lo=1):
    """(source, expanded)"""
    src = exp = ""
    for i in range(s.rand(lo, 4)):
        sep = s.choice([" ", " ", "  ", "   "]) if i else ""
        k = s.weighted([(6, "w"), (2, "v"), (1, "p" if params is not None else "w"), (1, "pct")])
        a = b = s.choice(WORDS)
        if k == "v":
            n = s.choice(["A", "B", "C"])
            a, b = "%" + n + "%", st.vars.get(n, "")
        elif k == "p":
            n = s.rand(1, 2)
            a, b = "%%%d" % n, params[n - 1] if n <= len(params) else ""
        elif k == "pct":
            a, b = "%%", "%"
        src += sep + a
        exp += sep + b
    return src, exp


# ---------------------------------------------------------------------------
# the lines of a script which are echoed

class Script:
    def __init__(self, s):
        self.s, self.st, self.tags, self.lines, self.out, self.subs = s, St(), set(), [], "", []

    def shown(self, text, quiet=False):
        if self.st.echo and not quiet:
            self.out += self.st.show() + text + "\n"

    def line(self, src, text=None, effect=""):
        """a statement on one line; at: how it starts"""
        s = self.s
        lead = s.weighted([(6, ""), (1, " "), (1, "\t  "), (1, "   ")])
        quiet = s.bool(25)
        at = ""
        if quiet:
            at = s.choice(["@", "@", "@ ", "@@"]) if False else "@"
            self.tags.add("@")
        if lead:
            self.tags.add("indented")
        self.lines.append(lead + at + src)
        self.shown(src if text is None else text, quiet)
        self.out += effect

    def statement(self, depth, params):
        s, st = self.s, self.st
        k = s.weighted([(6, "echo"), (2, "set"), (2, "off"), (3, "on"), (1, "comment"), (1, "label"), (1, "blank"), (1, "rem"), (2, "for"), (3, "block"),
                        (2 if depth == 0 else 0, "sub"), (3, "prompt"), (1, "cd"), (1, "pushd"), (1, "popd"), (1 if depth == 0 else 0, "goto"), (1, "redir"),
                        (1 if depth == 0 else 0, "bat"), (1, "two"), (1, "local"), (1, "state")])
        if k == "echo":
            a, b = words(s, st, params)
            self.line("echo:" + a, "echo:" + b, b + "\n")
        elif k == "two":
            a, b = words(s, st, params)
            self.line("echo:" + a + "&echo:x", "echo:" + b + "&echo:x", b + "\nx\n")
        elif k == "set":
            n = s.choice(["A", "B", "C"])
            v = s.text("abc 12", 0, 5)
            self.line('set "%s=%s"' % (n, v))
            if v:
                st.vars[n] = v
            else:
                st.vars.pop(n, None)
        elif k in ("off", "on"):
            w = s.choice([k, k.upper(), k.title()])
            self.line(s.choice(["echo ", "ECHO "]) + w)
            st.echo = k == "on"
            self.tags.add("echo-" + k)
        elif k == "state":
            self.line("echo", None, "Echo command %s\n" % ("enabled" if st.echo else "disabled"))
        elif k == "comment":
            self.lines.append(s.choice(["::", "  ::"]) + " a comment " + s.choice(["%A%", "here"]))
            self.tags.add("comment")
        elif k == "label":
            self.lines.append(":lab%d" % len(self.lines))
            self.tags.add("label")
        elif k == "blank":
            self.lines.append(s.choice(["", "   ", "\t"]))
        elif k == "rem":
            a, b = words(s, st, params)
            self.line("rem " + a, "rem " + b)
        elif k == "for":
            it = [s.choice("pqr") for _ in range(s.rand(1, 3))]
            self.line("for %%i in (" + " ".join(it) + ") do echo:%%i-", "for %i in (" + " ".join(it) + ") do echo:%i-", "".join(x + "-\n" for x in it))
            self.tags.add("for")
        elif k == "block":
            n, cond = s.rand(1, 3), s.bool()
            quiet = s.bool(15)
            a = ["if %s==1 (" % ("1" if cond else "2")]
            t = [a[0]]
            eff = ""
            change = None
            for _ in range(n):
                x, y = words(s, st, params)
                at = s.bool(15)
                ind = s.choice(["", "  ", "\t"])
                a.append(ind + ("@" if at else "") + "echo:" + x)
                t.append(("@" if at else "") + "echo:" + y)
                if cond:
                    eff += y + "\n"
            if s.bool(25):
                change = s.bool()
                w = "echo " + ("on" if change else "off")
                a.append(w)
                t.append(w)
            els = s.bool(40)
            if els:
                x, y = words(s, st, params)
                a += [") else (", "echo:" + x, ")"]
                t += [") else (", "echo:" + y, ")"]
                if not cond:
                    eff += y + "\n"
            else:
                a.append(")")
                t.append(")")
            if quiet:
                a[0] = "@" + a[0]
            self.lines += a
            self.shown("\n".join(t), quiet)
            self.out += eff
            if change is not None and cond:
                st.echo = change
                self.tags.add("echo-in-block")
            self.tags.add("block")
        elif k == "sub":
            ps = [s.choice(["u", "v w", "1"]) for _ in range(s.rand(0, 2))]
            name = "sub%d" % len(self.subs)
            self.line("call :" + name + "".join(' "%s"' % p if " " in p else " " + p for p in ps))
            keep, self.lines = self.lines, [":" + name]
            self.subs.append(self.lines)
            for _ in range(s.rand(1, 4)):
                self.statement(1, ps)
            self.line(s.choice(["goto :eof", "exit /b"]))
            self.lines = keep
            self.tags.add("sub")
        elif k == "bat":
            self.line("call %base%/q.bat", "call @@/q.bat")
            self.shown("echo:in q")
            self.out += "in q\n"
            self.tags.add("other-script")
        elif k == "prompt":
            if s.bool(20):
                self.line(s.choice(["prompt", "PROMPT ", "set PROMPT=$P$G"]))
                st.prompt = "$P$G"
            else:
                f = gen_format(s, self.tags, 1).strip()
                if not f or f.startswith("=") or f.startswith("["):
                    f = "$g" + f
                self.line(s.choice(["prompt " + f, "prompt   " + f, "set PROMPT=" + f]))
                st.prompt = f
            self.tags.add("prompt")
        elif k == "cd":
            d = s.choice(["d1", "d2", "d1/e"])
            self.line("cd %base%/" + d, "cd @@/" + d)
            st.cwd = d
            self.tags.add("cd")
        elif k == "pushd":
            d = s.choice(["d1", "d2", "d1/e"])
            self.line("pushd %base%/" + d, "pushd @@/" + d)
            st.dirs.append(st.cwd)
            st.cwd = d
            self.tags.add("pushd")
        elif k == "popd":
            if st.dirs:
                self.line("popd")
                st.cwd = st.dirs.pop()
        elif k == "goto":
            n = "to%d" % len(self.lines)
            self.line("goto " + n)
            self.lines += ["echo never", ":" + n]
        elif k == "redir":
            a, b = words(s, st, params)
            self.line("echo:" + a + " >%base%/f.txt", "echo:" + b + " >@@/f.txt")
        elif k == "local":
            # the prompt is a variable
            self.line("setlocal")
            keep, kv = st.prompt, dict(st.vars)
            self.line("set PROMPT=local$g")
            st.prompt = "local$g"
            self.statement_simple(params)
            self.line("endlocal")
            st.prompt, st.vars = keep, kv
            self.tags.add("local")

    def statement_simple(self, params):
        a, b = words(self.s, self.st, params)
        self.line("echo:" + a, "echo:" + b, b + "\n")


def gen_echo(s):
    t = Script(s)
    t.lines = ["@echo off", 'set "PROMPT=$P$G"', "set USERNAME=jim", "set USERDOMAIN=dom"]
    t.st.echo = False
    if s.bool(90):
        t.lines.append("@echo on")
        t.st.echo = True
    for _ in range(s.rand(1, 9)):
        t.statement(0, [])
    t.line("goto :eof")
    for x in t.subs:
        t.lines += x
    return {"script": "\n".join(t.lines) + "\n", "out": t.out, "tags": sorted(t.tags), "nontrivial": len(t.tags) >= 3}


def run_echo(case, ctx):
    for d in ("d1/e", "d2"):
        os.makedirs(os.path.join(ctx.cwd, d))
    ctx.put("q.bat", "echo:in q\n")
    r = ctx.pbat(case["script"].replace("%base%", ctx.cwd))
    return vf.expect_run(r, case["out"].replace("@@", ctx.cwd))


# ---------------------------------------------------------------------------
# the prompt of the interactive interpreter, PECHO

def gen_prompt(s):
    st, tags = St(), set()
    L, out = [], ""
    pre = "set USERNAME=jim\nset USERDOMAIN=dom\nset PROMPT=$P$G\n"
    stdin = s.bool(60)
    skip = 0

    def ask():
        return "\n" + st.show() if stdin and st.echo else ""

    for _ in range(s.rand(1, 7)):
        k = s.weighted([(5, "pecho"), (3 if stdin else 0, "prompt"), (1, "cd"), (2, "pushd"), (1, "popd"), (1, "user"), (1 if stdin else 0, "blank"), (1 if stdin else 0, "echo"), (1 if stdin else 0, "label"), (1 if stdin else 0, "block")])
        if stdin:
            out += ask()
        if k == "pecho":
            f = gen_format(s, tags)
            sep = s.choice([" ", ":", ".", " "])
            if f == "" and sep == " ":
                sep = ":"
            L.append(s.choice(["pecho", "PECHO"]) + sep + f)
            out += st.show(f) + "\n"
            tags.add("pecho" + ("" if sep == " " else sep))
        elif k == "prompt":
            f = gen_format(s, tags, 1)
            f = f.lstrip()
            if f[:1] in ("=", "[", ":", ".", "~", "-", "#", "]", ""):
                f = "$g" + f
            if s.bool(20):
                L.append("prompt")
                f = "$P$G"
            else:
                L.append(s.choice(["prompt ", "set PROMPT="]) + f)
            st.prompt = f
            tags.add("prompt")
        elif k == "cd":
            st.cwd = s.choice(["d1", "d2", "d1/e"])
            L.append("cd %base%/" + st.cwd)
        elif k == "pushd":
            st.dirs.append(st.cwd)
            st.cwd = s.choice(["d1", "d2", "d1/e"])
            L.append("pushd %base%/" + st.cwd)
            tags.add("pushd")
        elif k == "popd":
            if not st.dirs:
                L.append("rem")
            else:
                st.cwd = st.dirs.pop()
                L.append("popd")
        elif k == "user":
            n = s.choice(["USERNAME", "USERDOMAIN"])
            v = s.choice(["bob", "a b", ""])
            L.append("set %s=%s" % (n, v))
            st.vars[n] = v
        elif k == "blank":
            L.append("")
        elif k == "label":
            L.append(s.choice([":lab", ":: text"]))
        elif k == "echo":
            on = s.bool()
            L.append("@echo " + ("on" if on else "off"))
            st.echo = on
            tags.add("echo")
        elif k == "block":
            # the following lines of a command have a prompt of their own
            n = s.rand(1, 3)
            L += ["if 1==1 ("] + ["echo:l%d" % i for i in range(n)] + [")"]
            out += ">" * (n + 1) + "".join("l%d\n" % i for i in range(n))
            tags.add("block")
    if stdin:
        out += ask()
    return {"script": "\n".join(L) + "\n", "stdin": stdin, "out": out, "tags": sorted(tags), "nontrivial": len(tags) >= 2}


def run_prompt(case, ctx):
    for d in ("d1/e", "d2"):
        os.makedirs(os.path.join(ctx.cwd, d))
    t = case["script"].replace("%base%", ctx.cwd)
    exp = case["out"].replace("@@", ctx.cwd)
    env = {"USERNAME": "jim", "USERDOMAIN": "dom"}
    if not case["stdin"]:
        r = ctx.pbat("@echo off\nset USERNAME=jim\nset USERDOMAIN=dom\n" + t)
        return vf.expect_run(r, exp)
    r = ctx.exec([ctx.bin("pbat"), "/a:q"], stdin=t0 + t)
    if r.timeout:
        return "the program did not terminate"
    mark = b"##begin##\n"
    i = r.out.find(mark)
    if i < 0:
        return "no output after the preamble: %r" % r.out[:300]
    r.out = r.out[i + len(mark):]
    return vf.expect_run(r, exp)


t0 = "@echo off\nset USERNAME=jim\nset USERDOMAIN=dom\nset PROMPT=$P$G\necho:##begin##&echo on\n"


# ---------------------------------------------------------------------------
# SET /P

DATA = list("abcxyz") + [" ", " ", "\"", "&", "|", "<", ">", "%", "!", "^", "=", ",", ";", "(", ")", "'", "$", "~", "é", "\t"]


def gen_setp(s):
    tags = set()
    nl = [s.text(DATA, 0, 8) if s.bool(80) else "" for _ in range(s.rand(0, 8))]
    crlf = s.bool(20)
    final = s.bool(75)
    end = "\r\n" if crlf else "\n"
    data = end.join(nl) + (end if final and nl else "")
    if crlf:
        tags.add("crlf")
    if not final:
        tags.add("no-final-newline")
    rest = list(nl)
    if not final and rest and rest[-1] == "":
        rest.pop()
    L, out, files, vars = ["@echo off"], "", {}, {}

    def prompt():
        p = s.choice(["", "question ? ", "x=y ", "a  b", "say: ", "1", "=", "... "])
        form = s.weighted([(4, "plain"), (2, "whole"), (2, "quoted")])
        if form == "plain":
            return "", p, "", p
        if form == "whole":
            tags.add("quoted-whole")
            return '"', p, '"', p
        p = p.strip()
        tags.add("quoted-prompt")
        return "", '"%s"' % p, "", '"%s"' % p

    def show(var, val):
        # the contents as they were read, whatever they are; an empty line leaves an empty variable
        L.append("set ##" if var is None else "set %s" % var)
        return "%s=%s\n" % (var, val)

    n = 0
    for _ in range(s.rand(1, 6)):
        n += 1
        v = "zq%dv" % n
        k = s.weighted([(6, "stdin"), (2, "file"), (3, "pipe"), (2, "block"), (2, "loop"), (2, "program"), (1, "sub"), (1, "bad"), (1, "script"), (1, "confirm")])
        a, b, c, p = prompt()
        cmd = "set /p %s%s=%s%s" % (a, v, b, c)
        if s.bool(20):
            cmd = cmd.replace("set /p", "SET /P", 1)
        if k in ("stdin", "sub", "script"):
            val = rest.pop(0) if rest else ""
            if k == "stdin":
                L.append(cmd)
            elif k == "sub":
                L.append("call :read")
                p, v = "", "zqsub"
                tags.add("sub")
            else:
                L.append("call %base%/read.bat")
                p, v = "?", "zqbat"
                tags.add("script")
            out += p
            L.append("if errorlevel 1 (echo:empty) else (echo:read)")
            out += "empty\n" if val == "" else "read\n"
            if val:
                L.append("set " + v)
                out += "%s=%s\n" % (v, val)
            else:
                tags.add("end" if not rest else "empty-line")
                L.append("if defined %s (echo:defined) else echo:undefined" % v)
                out += "undefined\n"
        elif k == "file":
            lines = [s.text(DATA, 1, 8) for _ in range(s.rand(1, 3))]
            files["f%d" % n] = "\n".join(lines) + s.choice(["\n", ""])
            L += [cmd + "<f%d" % n if not cmd.endswith(" ") else cmd + "<f%d" % n, "set " + v]
            out += p + "%s=%s\n" % (v, lines[0])
            tags.add("file")
        elif k == "pipe":
            lines = [s.text("abc12", 1, 5) for _ in range(s.rand(1, 3))]
            L.append("(" + "&".join("echo:" + x for x in lines) + ")|(" + cmd + "&set " + v + ")")
            out += p + "%s=%s\n" % (v, lines[0])
            tags.add("pipe")
        elif k == "block":
            vals = [rest.pop(0) if rest else "" for _ in range(2)]
            L.append("(")
            for i in range(2):
                L.append("set /p %s%s=" % (v, "ab"[i]))
                if vals[i]:
                    L.append("set " + v + "ab"[i])
                    out += "%s=%s\n" % (v + "ab"[i], vals[i])
            L.append(")")
            tags.add("block")
        elif k == "loop":
            m = s.rand(1, 3)
            vals = [rest.pop(0) if rest else "" for _ in range(m)]
            L.append("for /l %%%%i in (1,1,%d) do (set /p %s=&&set %s)" % (m, v, v))
            for x in vals:
                if x:
                    out += "%s=%s\n" % (v, x)
            tags.add("loop")
        elif k == "program":
            # a program takes what was not read
            m = s.rand(1, 2)
            vals = [rest.pop(0) if rest else None for _ in range(m)]
            L.append("%%base%%/line %d" % m)
            out += "".join("<%s>\n" % x for x in vals if x is not None)
            if None in vals:
                tags.add("program-at-end")
            tags.add("program")
        elif k == "bad":
            L += ["set /p " + v + " 2>nul", "if errorlevel 1 echo:bad"]
            out += "bad\n"
        elif k == "confirm":
            # a question of another command takes its answer from the following line
            if rest and rest[0] == "y" or not rest:
                continue
            rest.insert(0, "y")
            s.reject() if False else rest.pop(0)
            continue
    # what remains is for the last program
    L.append("%base%/line 99")
    last = "".join("<%s>\n" % x for x in rest) if True else ""
    out += last
    L += ["goto :eof", ":read", "set /p zqsub=", "goto :eof"]
    return {"script": "\n".join(L) + "\n", "data": data, "files": files, "out": out, "crlf": crlf, "final": final, "tags": sorted(tags), "nontrivial": len(tags) >= 2}


LINE = """#!/bin/sh
n=$1
while [ "$n" -gt 0 ]; do
  IFS= read -r x || [ -n "$x" ] || break
  printf '<%s>\\n' "$x"
  n=$((n-1))
done
"""


def run_setp(case, ctx):
    for k, v in case["files"].items():
        ctx.put(k, v)
    ctx.put("line", LINE, 0o755)
    ctx.put("read.bat", "@set /p zqbat=?\n")
    r = ctx.pbat(case["script"].replace("%base%", ctx.cwd), stdin=case["data"])
    exp = case["out"]
    if case["crlf"]:
        r.out = r.out.replace(b"\r>", b">")
    return vf.expect_run(r, exp, err_empty=True, rc=None)


if __name__ == "__main__":
    sys.exit(vf.main("P28", [
        vf.Family("echo", gen_echo, run_echo, 4500, 60000),
        vf.Family("prompt", gen_prompt, run_prompt, 3500, 40000),
        vf.Family("setp", gen_setp, run_setp, 3500, 40000),
    ], rule="the case uses at least two (echo: three) distinct features: kinds of statements, specifiers, ways to get input"))
