"""DUMP: the dump of any data tells the data back."""
import math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

TYPES = {"c": ("b", 1), "uc": ("B", 1), "s": ("h", 2), "us": ("H", 2), "i": ("i", 4), "ui": ("I", 4), "ll": ("q", 8), "ull": ("Q", 8), "f": ("f", 4), "d": ("d", 8)}


def gen_data(s, tags):
    k = s.weighted([(4, "bytes"), (3, "text"), (2, "extreme"), (2, "numbers"), (1, "long"), (1, "empty")])
    tags.add(k)
    if k == "empty":
        return b""
    if k == "text":
        return b"\n".join(s.text("abc xyz.%", 0, 20).encode() for _ in range(s.rand(1, 6)))
    if k == "extreme":
        return b"".join(bytes([s.choice([0, 255, 127, 128, 1, 31, 32, 126])]) * s.choice([1, 2, 3, 4, 8]) for _ in range(s.rand(1, 20)))
    if k == "numbers":
        r = b""
        for _ in range(s.rand(1, 20)):
            t = s.choice(["f", "d", "i", "q", "h"])
            if t in "fd":
                v = s.choice([0.0, -0.0, 1.0, -1.5, 3.14159, 1e30, -1e-30, 1e-40, 12345.678, 0.1, 1e300 if t == "d" else 2.0, float("inf"), float("nan")])
            else:
                v = s.choice([0, 1, -1, 255, -128, 32767, -32768])
            r += struct.pack("<" + t, v)
        return r
    n = s.rand(1, 120) if k == "bytes" else s.choice([512, 1000, 4095, 4096, 4097, 9000, 70000])
    if k == "long":
        a, b = s.rand(1, 255), s.rand(1, 255)
        return bytes((i * a + b + (i >> 8)) & 255 for i in range(n))
    return bytes(s.rand(0, 255) for _ in range(n))


def gen(s):
    tags = set()
    ops, files, last = [], {}, None
    t, hexa, fl = "c", False, set("act")
    nf = s.weighted([(6, 1), (3, 0), (2, 2), (1, 3)])
    how = None
    expect = []

    def setopts():
        nonlocal t, hexa, fl
        for _ in range(s.weighted([(2, 0), (4, 1), (4, 2), (2, 3)])):
            k = s.weighted([(4, "T"), (3, "B"), (2, "H")])
            if k == "T":
                t = s.choice(sorted(TYPES))
                n = t.upper() if s.bool(30) else t
                ops.append(s.choice(["/T:", "/t:", "/T", "/t"]) + n)
                tags.add("type-" + t)
            elif k == "H":
                hexa = True
                ops.append(s.choice(["/H", "/h"]))
                tags.add("hex")
            else:
                f = s.subset("actq")
                if "q" in fl and "q" not in f:
                    f.append("q")       # whether a second /B cancels Q is not specified
                f = s.shuffle(f)
                fl = set(f)
                txt = "".join(f)
                ops.append(s.choice(["/B:", "/b:", "/B"]) + (txt.upper() if s.bool(30) else txt))
                tags.add("format")

    setopts()
    for i in range(nf):
        n = "f%d" % i
        if s.bool(15):
            n = "sp ace%d" % i
        files[n] = gen_data(s, tags).hex()
        ops.append(s.choice(["@/", "", "./"]) + n)
        expect.append([ops[-1], n, t, hexa, "".join(sorted(fl))])
        if s.bool(20):
            setopts()
            tags.add("options-between")
    bad = None
    if s.bool(6):
        bad = s.choice(["missing", "folder", "type"])
        tags.add("error")
        ops.append({"missing": "nosuch", "folder": "@/", "type": "/T:zz"}[bad])
    data, cut = "", []
    if nf == 0:
        data = gen_data(s, tags).hex()
        if s.bool(40):
            cut = sorted(s.rand(0, max(1, len(data) // 2)) for _ in range(s.rand(1, 3)))
            tags.add("slow-pipe")
        if not bad:
            expect.append([None, None, t, hexa, "".join(sorted(fl))])
        else:
            tags.add("stdin")
    return {"args": ops, "files": files, "stdin": data, "cut": cut, "expect": expect, "bad": bad, "tags": sorted(tags), "nontrivial": len(tags) >= 2 and tags != {"empty"}}


def element(raw, t, hexa):
    """the text of an element, made from its bytes"""
    fmt, w = TYPES[t]
    if hexa:
        return "%0*x" % (2 * w, int.from_bytes(raw, "little"))
    v = struct.unpack("<" + fmt, raw)[0]
    if t not in "fd":
        lo = {1: 4, 2: 6, 4: 11, 8: 20}[w]
        hi = {1: 3, 2: 5, 4: 10, 8: 20}[w]
        return "%0*d" % (hi if t[0] == "u" else lo, v)
    width = len("1.17549435e-38") if t == "f" else len("2.2250738585072014e-308")
    if math.isnan(v) or math.isinf(v):
        sign = raw[-1] & 0x80
        return (("-" if sign else "") + ("nan" if math.isnan(v) else "inf")).rjust(width)
    r = "%.*g" % (9 if t == "f" else 17, v)
    return "-" + r[1:].rjust(width - 1, "0") if r[0] == "-" else r.rjust(width, "0")


def render(raw, t, hexa, fl, per):
    """the lines of a dump with per elements in a line"""
    w = TYPES[t][1]
    sp = "" if "q" in fl else " "
    raw = raw + b"\0" * (-len(raw) % w)
    blank = " " * len(element(b"\0" * w, t, hexa)) + sp
    out = []
    for off in range(0, len(raw), per * w):
        part = raw[off:off + per * w]
        x = "%016x%s" % (off, sp) if "a" in fl else ""
        els = [element(part[i:i + w], t, hexa) + sp for i in range(0, len(part), w)]
        x += "".join(els)
        if "c" in fl:
            x += blank * (per - len(els)) + "".join(chr(c) if 32 <= c < 128 else "." for c in part)
        out.append(x.encode())
    return out


def check(lines, e, raw, title):
    """consumes the lines of one file; returns an error"""
    t, hexa, fl = e[2], e[3], e[4]
    if "t" in fl and title is not None:
        if not lines:
            return "no title"
        x = lines.pop(0)
        if x.rstrip(b"-").rstrip() != title.encode():
            return "title %r, expected %r" % (x, title)
    w = TYPES[t][1]
    size = len(element(b"\0" * w, t, hexa)) + ("q" not in fl) + (w if "c" in fl else 0)
    # the number of elements which fit in a line of 80 columns
    per = (80 - (16 + ("q" not in fl) if "a" in fl else 0)) // size
    exp = render(raw, t, hexa, fl, per)
    for i, x in enumerate(exp):
        if i >= len(lines):
            return "the output ends before line %r" % x
        if lines[i] != x:
            return "line %r, expected %r" % (lines[i], x)
    del lines[:len(exp)]
    return None


def run(case, ctx):
    for n, d in case["files"].items():
        ctx.put(n, bytes.fromhex(d))
    argv = [ctx.bin("full/cmd/dump")] + [a.replace("@/", ctx.cwd + "/") if a.startswith("@/") else a for a in case["args"]]
    stdin = bytes.fromhex(case["stdin"])
    if case["cut"]:
        p = [0] + case["cut"] + [len(stdin)]
        for i in range(len(p) - 1):
            ctx.put("p%d" % i, stdin[p[i]:p[i + 1]])
        argv = ["/bin/sh", "-c", 'd=$1; shift; n=$1; shift; (i=0; while [ $i -lt $n ]; do cat p$i; sleep 0.02; i=$((i+1)); done) | "$d" "$@"; exit ${PIPESTATUS:-$?}', "sh", argv[0], str(len(p) - 1)] + argv[1:]
        r = ctx.exec(argv)
    else:
        r = ctx.exec(argv, stdin=stdin)
    if r.timeout:
        return "dump did not terminate"
    if case["bad"]:
        if r.rc == 0 or r.rc < 0 or r.rc > 127:
            return "exit status %r on an error" % r.rc
        if not r.err:
            return "no error message"
    elif r.rc or r.err:
        return "exit status %r, error output %r" % (r.rc, r.err[:200])
    lines = r.out.split(b"\n")
    if lines.pop() != b"":
        return "the last line has no end"
    for e in case["expect"]:
        raw = stdin if e[0] is None else bytes.fromhex(case["files"][e[1]])
        title = None if e[0] is None else (ctx.cwd + e[0][1:] if e[0].startswith("@/") else e[0])
        bad = check(lines, e, raw, title)
        if bad:
            return bad
    if case["bad"] == "folder":
        return None
    if lines:
        return "extra output %r" % lines[0]
    return None


if __name__ == "__main__":
    sys.exit(vf.main("P29", [
        vf.Family("dump", gen, run, 6000, 80000),
    ], rule="the case combines at least two features: kind of data, type, base, format, several files, slow pipe, error"))
