#!/usr/bin/env python3
"""FOR /F over strings, files and commands against a reference tokenizer."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

ALPH = "abcxyz019._@#{}[]$~+"
DEL = " ,:;|=-x/"


def gen_tokens(s, tags):
    """-> (text, [(n, p or None)])"""
    r, t, last = [], [], 0
    for _ in range(s.rand(1, 4)):
        k = s.weighted([(5, "n"), (2, "range"), (2, "cat"), (2, "n*"), (2, "*"), (2, "n.*")])
        n = s.rand(1, 6)
        sp = lambda: s.weighted([(12, ""), (1, " ")])
        tags.add("tok " + k)
        if k == "n":
            t.append("%s%d" % (sp(), n))
            r.append((n, n))
            last = n
        elif k == "range":
            p = n + s.rand(0, 3)
            t.append("%d-%d" % (n, p))
            r += [(i, i) for i in range(n, p + 1)]
            last = p
        elif k == "cat":
            p = n + s.rand(0, 3)
            t.append("%d.%d" % (n, p))
            r.append((n, p))
            last = p
        elif k == "n*":
            t.append("%d*" % n)
            r += [(n, n), (n + 1, None)]
            last = None
        elif k == "*":
            if last is None:
                s.reject()
            t.append("*")
            r.append((last + 1, None))
            last = None
        else:
            t.append("%d.*" % n)
            r.append((n, None))
            last = None
        if len(r) > 10:
            s.reject()
    return ",".join(t), r


def spans(line, delims):
    if not delims:
        return [(0, len(line))] if line else []
    return [m.span() for m in re.finditer("[^%s]+" % re.escape(delims), line)]


def value(line, delims, n, p):
    sp = spans(line, delims)
    if n > len(sp):
        return ""
    b = sp[n - 1][0]
    if p is None or p > len(sp):
        return line[b:]
    return line[b:sp[p - 1][1]]


class Opts:
    def __init__(self):
        self.delims, self.eol, self.skip, self.tok, self.backq = " ", ";", 0, [(1, 1)], False


def gen_opts(s, tags, backq):
    o = Opts()
    parts = []
    if s.bool(75):
        parts.append("tokens")
    if s.bool(60):
        parts.append("delims")
    if s.bool(30):
        parts.append("skip")
    if s.bool(30):
        parts.append("eol")
    if backq:
        parts.append("usebackq")
        o.backq = True
    if parts and s.bool(10):
        d = s.choice(parts)
        if d != "usebackq":
            parts.append(d)
            tags.add("repeated option")
    parts = s.shuffle(parts)
    texts = []
    eolset = False
    for k in parts:
        K = s.weighted([(5, k), (1, k.upper())])
        if k == "tokens":
            t, o.tok = gen_tokens(s, tags)
            texts.append(K + "=" + t)
        elif k == "delims":
            d = "".join(sorted(set(s.text(DEL, 0, 3))))
            if s.bool(30):
                d = d[::-1]
            o.delims = d
            tags.add("delims %d" % len(d))
            if ";" in d and not eolset:
                o.eol = ""
            texts.append(K + "=" + d)
        elif k == "skip":
            o.skip = s.rand(0, 4)
            tags.add("skip")
            texts.append(K + "=" + s.weighted([(4, "%d"), (1, "0x%x")]) % o.skip)
        elif k == "eol":
            o.eol = s.choice(["#", "a", "#;", "@b", "$,", ""])
            eolset = True
            tags.add("eol")
            texts.append(K + "=" + o.eol)
        else:
            texts.append(K)
    if not texts:
        return "", o
    # one parameter with everything, or several
    groups, cur = [], []
    for i, t in enumerate(texts):
        cur.append(t)
        if s.bool(30):
            groups.append(cur)
            cur = []
    if cur:
        groups.append(cur)
    out = []
    for g in groups:
        x = ""
        for i, t in enumerate(g):
            x += t
            if i < len(g) - 1:
                # a value ending with blanks is followed by one more
                x += " "
        if any(re.match(r"(?i)(delims|eol)=.* $", t) for t in g[:-1]) and False:
            pass
        out.append('"%s"' % x)
    if len(groups) > 1:
        tags.add("several parameters")
    return " ".join(out) + " ", o


def gen_line(s, delims, quote_ok):
    d = delims or " "
    alph = ALPH
    t = s.weighted([(5, ""), (1, s.text(d, 1, 2)), (1, s.choice(";#a@b$,"))])
    for i in range(s.weighted([(6, s.rand(1, 5)), (1, s.rand(6, 12)), (1, 0)])):
        if i:
            t += s.text(d, 1, 2)
        t += s.weighted([(8, s.text(alph, 1, 5)), (1, s.text(alph + " ,;=&|<>()", 1, 6)), (1, '"' + s.text(alph, 0, 3) + '"')])
    t += s.weighted([(5, ""), (1, s.text(d, 1, 2))])
    if not quote_ok:
        t = t.replace('"', "")
    return t


def fmt(vals, letters, style):
    if style == "plain":
        return "".join("[%s]" % v for v in vals)
    return "|".join(vals)


def gen(s):
    tags = set()
    L, out, files = ["@echo off"], [], {}
    tail = []
    nl = [0]
    for _ in range(s.rand(1, 3)):
        nl[0] += 1
        k = s.weighted([(3, "file"), (3, "string"), (2, "cmd"), (1, "files"), (1, "bstring"), (1, "bcmd"), (1, "bfile"), (1, "var")])
        tags.add(k)
        otext, o = gen_opts(s, tags, k.startswith("b"))
        lines = []
        pre = []
        if k in ("string", "bstring", "var"):
            q = "'" if k == "bstring" else '"'
            t = gen_line(s, o.delims, k == "bstring")
            if k == "bstring":
                t = t.replace("(", "").replace(")", "")
                for c in "<>&|":
                    t = t.replace(c, "")
                if t.count('"') % 2:
                    s.reject()
            lines = [t] if t else []
            if k == "var":
                if not t.strip(" "):
                    s.reject()
                pre.append('set "v=%s"' % t)
                src = '("!v!")'
            else:
                src = "(%s%s%s)" % (q, t, q)
        else:
            def mk(name):
                ls = [gen_line(s, o.delims, True) for _ in range(s.weighted([(1, 0), (6, s.rand(1, 6)), (1, s.rand(20, 60))]))]
                nlc = s.weighted([(3, "\n"), (1, "\r\n")])
                t = nlc.join(ls)
                fin = s.bool(80)
                if ls and (fin or ls[-1] == ""):
                    t += nlc
                files[name] = t
                if len(ls) > 10:
                    tags.add("long")
                return ls
            if k == "file":
                n = "f%d" % nl[0]
                lines = mk(n)
                src = "(%s)" % n
            elif k == "bfile":
                n = s.choice(["f %d x", "g%d", "a;b%d"]) % nl[0]
                lines = mk(n)
                src = '("%s")' % n
            elif k == "files":
                ns = ["m%d%s" % (nl[0], c) for c in "abc"[:s.rand(2, 3)]]
                for n in ns:
                    lines += mk(n)
                src = "(%s)" % s.choice([" ", ",", "  "]).join(ns)
            else:
                n = "f%d" % nl[0]
                lines = mk(n)
                q = "`" if k == "bcmd" else "'"
                c = s.choice(["type %s", "/bin/cat %s", "cat %s", "sub.bat %s", "type %s | cat", "cat < %s", "echo two&type %s"]) % n
                tags.add("cmd " + c.split()[0])
                if c.startswith("echo"):
                    lines = ["two"] + lines
                src = "(%s%s%s)" % (q, c, q)
        lines = lines[o.skip:]
        lines = [l for l in lines if not (l and l[0] in o.eol)]
        rows = [[value(l, o.delims, n, p) for n, p in o.tok] for l in lines]
        first = s.choice("abcdijkABKPQ")
        letters = [chr(ord(first) + i) for i in range(len(o.tok))]
        head = s.choice(["for /f ", "FOR /F "]) + otext + "%%" + first + " in " + src + " do "
        allv = "".join("[%%%%%s]" % c for c in letters)
        rowt = lambda r: "".join("[%s]" % v for v in r)
        body = s.weighted([(5, "one"), (3, "block"), (2, "count"), (2, "break"), (1, "call"), (1, "nested"), (1, "iff"), (1, "cd")])
        if body == "nested" and any(c in v for r in rows for v in r for c in '"()&|<>'):
            body = "one"
        if body == "cd" and "cmd" in k:
            body = "one"
        tags.add(body)
        L += pre
        if body == "one":
            L.append(head + "echo " + allv)
            out += [rowt(r) for r in rows]
        elif body == "block":
            L += [head + "(", "echo " + allv, "echo -%%%%%s-" % letters[-1], ")"]
            for r in rows:
                out += [rowt(r), "-%s-" % r[-1]]
        elif body == "cd":
            # the files are those of the folder where the loop starts
            L += ["set base=%cd%", head + "(", "echo " + allv, s.choice(["cd ..", "cd /", "pushd .."]), ")", "cd %base%"]
            out += [rowt(r) for r in rows]
        elif body == "count":
            L += ["set n=0", head + "(", "set /a n+=1", "echo !n! " + allv, ")", "echo total !n!"]
            out += ["%d %s" % (i + 1, rowt(r)) for i, r in enumerate(rows)] + ["total %d" % len(rows)]
        elif body == "break":
            at = s.rand(1, max(1, len(rows) + 1))
            L += ["set n=0", head + "(", "set /a n+=1", "echo !n! " + allv, "if !n!==%d goto l%d" % (at, nl[0]), ")", "echo all", ":l%d" % nl[0]]
            for i, r in enumerate(rows):
                out.append("%d %s" % (i + 1, rowt(r)))
                if i + 1 == at:
                    break
            if len(rows) < at:
                out.append("all")
        elif body == "call":
            L.append("set n=0")
            L.append(head + "(call :inc & echo !n! " + allv + ")")
            out += ["%d %s" % (i + 1, rowt(r)) for i, r in enumerate(rows)]
        elif body == "iff":
            L.append(head + 'if "%%%%%s"=="" (echo none) else echo %s' % (letters[0], allv))
            if any('"' in r[0] or "==" in r[0] for r in rows):
                s.reject()
            out += ["none" if r[0] == "" else rowt(r) for r in rows]
        else:
            L += [head + "(", "echo " + allv, 'for /f "tokens=1,2* eol=" %%%%%s in ("%%%%%s") do echo {%%%%%s}{%%%%%s}{%%%%%s}' %
                  ("x", letters[-1], "x", "y", "z"), ")"]
            for r in rows:
                out.append(rowt(r))
                t = r[-1]
                if t:
                    out.append("".join("{%s}" % value(t, " ", n, p) for n, p in ((1, 1), (2, 2), (3, None))))
        L.append("echo after [%%%%%s]" % first)
        out.append("after [%%%%%s]" % first if False else "after [%" + first + "]")
    L += ["goto :eof", ":inc", "set /a n+=1", "goto :eof"]
    return {"script": "\n".join(L) + "\n", "out": "".join(x + "\n" for x in out), "files": files, "tags": sorted(tags),
            "nontrivial": len(out) > 3}


def run(case, ctx):
    for n, t in case["files"].items():
        ctx.put(n, t)
    ctx.put("sub.bat", "@type %1\n")
    return vf.expect_run(ctx.pbat(case["script"]), case["out"], rc=None)


def gen_inuse(s):
    """a loop that would assign a variable of an enclosing loop fails without running its command"""
    outer = s.choice("hijk")
    n = s.rand(1, 6)
    start = chr(ord(outer) - s.rand(1, 6))
    nested = s.choice(["for %%%%%s in (o p) do (", 'for /f "tokens=1,2" %%%%%s in ("o p") do (', "for /l %%%%%s in (1,1,2) do ("]) % outer
    used = {outer, chr(ord(outer) + 1)} if "/f" in nested else {outer}
    vals = ["o"] if "/f" in nested else ["o", "p"] if "/l" not in nested else ["1", "2"]
    letters = [chr(ord(start) + i) for i in range(n)]
    bad = bool(used & set(letters))
    L = ["@echo off", nested, "echo out %%%%%s" % outer, 'for /f "tokens=1-%d" %%%%%s in ("1 2 3 4 5 6") do echo in %s' % (n, start, "".join("%%%%%s" % c for c in letters)),
         "echo end %%%%%s" % outer, ")"]
    out = ""
    for v in vals:
        out += "out %s\n" % v + ("" if bad else "in %s\n" % "123456"[:n]) + "end %s\n" % v
    return {"script": "\n".join(L) + "\n", "out": out, "bad": bad, "tags": ["in use" if bad else "free"]}


def run_inuse(case, ctx):
    r = ctx.pbat(case["script"])
    e = vf.expect_run(r, case["out"], rc=None, err_empty=not case["bad"])
    if not e and case["bad"] and not r.err:
        return "a loop over a variable in use gave no error"
    return e


FAMS = [vf.Family("inuse", gen_inuse, run_inuse, 400, 1500), vf.Family("forf", gen, run, 20000, 200000)]

if __name__ == "__main__":
    sys.exit(vf.main("P12", FAMS, rule="a case is non-trivial when its loops print more than three lines"))
