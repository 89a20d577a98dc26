"""Generates IF tests together with their truth value, shared by P08 and P09."""
import re
import vf

ALPHA = "abcABCxyzXYZ"
SYM = ALPHA + "0189._-+:@#/$[]{}"


def numeric(v):
    """the documented numeric forms, else None"""
    if re.fullmatch(r"[+-]?(0|[1-9][0-9]*)", v):
        return int(v)
    if re.fullmatch(r"[+-]?0[xX][0-9a-fA-F]+", v):
        return int(v.lower().replace("0x", ""), 16)
    if re.fullmatch(r"[+-]?0[0-7]+", v):
        return int(v, 8)
    if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", v):
        return float(v)
    return None


def clean(v):
    """strings whose numeric reading is a matter of C library are avoided"""
    if numeric(v) is not None:
        return True
    return not re.match(r"\s*[+-]?(0x|inf|nan)", v.lower()) and v.strip() == v


def gen_num(s):
    k = s.weighted([(4, "dec"), (2, "hex"), (2, "oct"), (3, "float"), (1, "edge")])
    n = s.weighted([(3, s.rand(0, 12)), (2, s.rand(0, 300)), (1, s.rand(0, 2147483647)), (1, s.rand(2147483648, 2 ** 53)), (1, s.choice([4294967296, 8589934592, 1 << 40]) + s.rand(0, 12)),
                    (1, 10 ** s.rand(19, 24) * s.rand(1, 9))])
    if n >= 1 << 63 and k == "oct":
        k = "dec"
    neg = s.bool(30)
    if k == "dec":
        t = "%d" % n
    elif k == "hex":
        t = s.choice(["0x%x", "0x%X", "0X%x"]) % n
    elif k == "oct":
        t = "0%o" % n
    elif k == "edge":
        return s.choice(["2147483647", "-2147483648", "0", "-0", "1", "-1"])
    else:
        t = s.choice(["%d.%d" % (n, s.rand(0, 99)), "%d.0" % n, "%de%d" % (n % 1000, s.rand(0, 5)), "%d.5e-%d" % (n % 1000, s.rand(0, 3)), ".%d" % s.rand(0, 99)])
    return ("-" if neg else "") + t


def respell(s, v):
    """another spelling of the same number"""
    n = numeric(v)
    if n is None or n != int(n) or abs(n) > 1 << 62:
        return v
    n = int(n)
    a, g = abs(n), "-" if n < 0 else ""
    return s.choice(["%s%d" % (g, a), "%s0x%x" % (g, a), "%s0%o" % (g, a), "%s%d.0" % (g, a)])


def gen_pair(s):
    """two operands, related often enough for every comparison to matter"""
    k = s.weighted([(4, "num"), (2, "samenum"), (3, "str"), (2, "case"), (2, "same"), (2, "prefix"), (2, "mixed"), (1, "near")])
    if k in ("num", "samenum"):
        a = gen_num(s)
        b = respell(s, a) if k == "samenum" else gen_num(s)
    else:
        a = s.text(ALPHA if s.bool() else SYM, 1, 6)
        if k == "str":
            b = s.text(SYM, 1, 6)
        elif k == "case":
            b = "".join(c.swapcase() if s.bool() else c for c in a)
        elif k == "same":
            b = a
        elif k == "prefix":
            b = a + s.text(SYM, 1, 2)
        elif k == "near":
            i = s.rand(0, len(a) - 1)
            b = a[:i] + s.choice(ALPHA) + a[i + 1:]
        else:
            b = gen_num(s)
        if s.bool(20):
            a, b = b, a
    return a, b


def compare(op, a, b, ci):
    x, y = numeric(a), numeric(b)
    if x is not None and y is not None:
        x, y = float(x), float(y)
    else:
        x, y = (a.lower(), b.lower()) if ci else (a, b)
    op = op.upper()
    return {"==": x == y, "EQU": x == y, "NEQ": x != y, "LSS": x < y, "LEQ": x <= y, "GTR": x > y, "GEQ": x >= y}[op]


OPS = ["EQU", "NEQ", "LSS", "LEQ", "GTR", "GEQ"]


class Cond:
    """state the conditions may refer to"""

    def __init__(self, s):
        self.s = s
        self.n = 0
        self.pre = []          # lines to put before the IF
        self.tags = set()
        self.vars = {"defd": "1", "a b": "2", "EMPTYNOT": "x"}
        self.files = ["f1.txt", "sub/g.dat", "with sp.txt", "sub/deep/h", "Z.bat"]
        self.errl = 0

    def operand(self, v, special=False):
        """how an operand is given: literally, quoted, or through a variable"""
        s = self.s
        special = special or re.search(r'[ ,;()&|<>"!%^]', v) or v == ""
        k = s.weighted([(0 if special else 4, "lit"), (3, "delayed"), (0 if special else 1, "pct"), (2 if not re.search(r'["!%^]', v) else 0, "quote")])
        if k == "lit":
            return v
        if k == "quote":
            return '"%s"' % v
        n = "o%d" % self.n
        self.n += 1
        self.pre.append('set "%s=%s"' % (n, v))
        return "!%s!" % n if k == "delayed" else "%%%s%%" % n

    def test(self, inexpr):
        """-> (text, truth(ignore case), usable under /i)"""
        for _ in range(8):
            try:
                return self._test(inexpr)
            except vf.Reject:
                pass
        self.s.reject()

    def _test(self, inexpr):
        s = self.s
        k = s.weighted([(8, "cmp"), (3 if not inexpr else 0, "old"), (2, "defined"), (2, "exist"), (2, "errorlevel"), (1 if not inexpr else 0, "oldq"), (1, "eqop")])
        if k in ("cmp", "eqop"):
            op = s.choice(OPS) if k == "cmp" else "=="
            a, b = gen_pair(s)
            if k == "cmp" and s.bool(8):
                # a == inside an operand must not matter to these forms
                a, b = "x" + a + "==" + b, s.choice(["x" + a + "==" + b, "x" + a, b])
                self.tags.add("inner==")
            elif k == "cmp" and s.bool(8) and not inexpr:
                a = s.text("ab c,;&|<>()", 1, 6).strip() or "a b"
                b = s.choice([a, a + "x", a.upper()])
                self.tags.add("spaces")
            if not (clean(a) and clean(b)):
                s.reject()
            if numeric(a) is not None and numeric(b) is not None:
                self.tags.add("numeric")
                if k == "eqop" and (a == b) != (numeric(a) == numeric(b)):
                    s.reject()
            ordered = op not in ("EQU", "NEQ", "==")
            tv = lambda ci: None if (ci and ordered and re.search(r"[^a-zA-Z0-9]", a + b) and (numeric(a) is None or numeric(b) is None)) else compare(op, a, b, ci)
            if not inexpr and a in ("[",) or a.upper() in ("NOT", "EXIST", "DEFINED", "ERRORLEVEL", "/I", "/?", "AND", "OR") or b.upper() in ("AND", "OR", "[", "]") or a in "[]":
                s.reject()
            if b in "[]":
                s.reject()
            o = op if s.bool(75) else op.lower()
            self.tags.add(op)
            return "%s %s %s" % (self.operand(a), o, self.operand(b)), tv, True
        if k in ("old", "oldq"):
            a, b = gen_pair(s)
            if not (clean(a) and clean(b)) or "==" in a + b or a.startswith("=") or a.endswith("=") or a.startswith("/") or a == "[":
                s.reject()
            na, nb = numeric(a), numeric(b)
            if na is not None and nb is not None and (a == b) != (na == nb):
                s.reject()
            self.tags.add(k)
            tv = lambda ci: compare("==", a, b, ci)
            if k == "oldq":
                return '"%s"=="%s"' % (a, b), tv, True
            x = lambda v: v if s.bool(50) else self.var(v)
            return "%s==%s" % (x(a), x(b)), tv, True
        if k == "defined":
            n = s.choice(list(self.vars) + ["nope", "de", "defdx", "A B ", "a"])
            t = n.strip().lower() in [v.lower() for v in self.vars] and n == n.strip()
            if n != n.strip():
                n = "a"
                t = False
            if s.bool(30):
                n = n.upper()
            self.tags.add("defined")
            return "%s %s" % (s.choice(["DEFINED", "defined"]), '"%s"' % n if " " in n or s.bool(20) else n), (lambda ci: t), False
        if k == "exist":
            f, t = s.choice([("f1.txt", 1), ("f2.txt", 0), ("sub", 1), ("sub/g.dat", 1), ("sub/x", 0), ("with sp.txt", 1), ("*.txt", 1), ("f?.txt", 1),
                             ("f??.txt", 0), ("*.c", 0), ("sub/*.dat", 1), ("sub/*.txt", 0), ("./f1.txt", 1), ("sub/deep/h", 1), ("sub/deep/*", 1), ("with*", 1), ("nodir/f", 0),
                             ("../c/f1.txt", 1), ("Z.bat", 1), ("f1", 0), ("*", 1)])
            self.tags.add("exist")
            return "%s %s" % (s.choice(["EXIST", "exist", "Exist"]), '"%s"' % f if " " in f or s.bool(20) else f), (lambda ci: bool(t)), False
        n = max(0, self.errl + s.choice([-1, 0, 1, -5, 7]))
        self.tags.add("errorlevel")
        e = self.errl
        return "%s %d" % (s.choice(["ERRORLEVEL", "errorlevel"]), n), (lambda ci: e >= n), False

    def var(self, v):
        n = "o%d" % self.n
        self.n += 1
        self.pre.append('set "%s=%s"' % (n, v))
        return "!%s!" % n

    def new_errorlevel(self):
        self.errl = self.s.weighted([(2, 0), (2, 1), (3, self.s.rand(0, 255)), (1, self.s.rand(256, 100000))])
        return "call :rc %d" % self.errl


def setup(ctx):
    for f in ["f1.txt", "sub/g.dat", "with sp.txt", "sub/deep/h", "Z.bat"]:
        ctx.put(f, "x\n")


PROLOG = ["@echo off", "set defd=1", "set a b=2", "set EMPTYNOT=x"]
EPILOG = ["goto :eof", ":rc", "exit /b %1"]
