"""TEA: documents are converted without losing or changing anything."""
import html.parser, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

WORD = ["a", "of", "the", "text", "word", "example", "1", "2018", "x-y", "it's", "end.", "(see", "note)", "a/b", "f(x)", "\"q\"", "50%", "R&D", "<tag>", "a>b", "snake_case", "*", "[1]", "~", "été", "日本", "C:", "!", "=", "a;b", "&amp;"]
SPECIAL = "{}|\\$#-@"


def esc_plain(s, w, first, tags):
    """a word as it is written in the source"""
    out = ""
    for i, c in enumerate(w):
        if c in "{}|\\":
            out += "\\" + c
        elif c in "#-@" and i == 0 and first:
            out += "\\" + c
        elif s.bool(3):
            out += "\\" + c
            tags.add("escape")
        else:
            out += c
    return out


def gen_word(s, tags, long=True):
    k = s.weighted([(20, "w"), (2, "special"), (1 if long else 0, "long")])
    if k == "w":
        return s.choice(WORD)
    if k == "special":
        tags.add("special")
        return s.choice(["a", "", "x"]) + s.choice(["{", "}", "|", "\\", "#", "-", "@", "{x}", "a|b", "\\n"]) + s.choice(["z", ""])
    tags.add("long-word")
    n = s.choice([60, 68, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 100, 150, 160, 200])
    return (s.choice(["abcdefghij", "0123456789", "xyz"]) * n)[:n]


def gen_space(s, tags):
    k = s.weighted([(12, " "), (2, "  "), (2, "\n"), (1, "\n\t"), (1, " \n  "), (1, "\t")])
    if "\n" in k:
        tags.add("wrapped-source")
        if s.bool(15):
            tags.add("comment-inside")
            return "\n# a comment {{ with }} markup ${\n"
    return k


def gen_nodes(s, tags):
    """[kind, text, target], source; texts hold single blanks"""
    nodes, src = [], ""
    sep = ""
    n = s.rand(1, 14) if s.bool(70) else s.rand(10, 60)
    first = True
    while n > 0:
        k = s.weighted([(12, "plain"), (2, "em"), (2, "link")])
        glue = not first and s.bool(12)
        if glue and (k == "plain" or nodes and nodes[-1][0] == "plain"):
            sp, tsp = "", ""
            tags.add("glued-node")
        else:
            sp = "" if first else gen_space(s, tags)
            tsp = "" if first else " "
        if k == "plain":
            m = min(n, s.rand(1, 5))
            ws = [gen_word(s, tags) for _ in range(m)]
            if first:
                # a leading dash belongs to the lists
                ws[0] = ws[0].lstrip("-@") or "w"
            txt = " ".join(ws)
            out = ""
            for i, w in enumerate(ws):
                if i:
                    out += gen_space(s, tags)
                out += esc_plain(s, w, True, tags)
            txt = tsp + txt
            src += sp + out
            if nodes and nodes[-1][0] == "plain":
                nodes[-1][1] += txt
            else:
                nodes.append(["plain", txt, ""])
            n -= m
        else:
            m = s.rand(1, 3)
            ws = [gen_word(s, tags) for _ in range(m)]
            txt = " ".join(ws)
            out = ""
            for i, w in enumerate(ws):
                if i:
                    out += gen_space(s, tags)
                out += esc_plain(s, w, True, tags)
            if tsp:
                if nodes and nodes[-1][0] == "plain":
                    nodes[-1][1] += tsp
                else:
                    nodes.append(["plain", tsp, ""])
            target = ""
            if k == "link":
                target = s.choice(["page", "dir/page", "page.html", "http://a.org/x", "https://b.net", "mail://me", "../up/page", "d.x/page", "img.png", "x_y", "a#b"])
                out = target + "|" + out
                tags.add("link")
            else:
                tags.add("emphasis")
            # "${" and "{{" begin blocks
            if src and sp == "" and src[-1] in "${":
                src += "."
                if nodes and nodes[-1][0] == "plain":
                    nodes[-1][1] += "."
                else:
                    nodes.append(["plain", ".", ""])
            src += sp + "{" + out + "}"
            if nodes and nodes[-1][0] != "plain" and sp == "":
                pass
            nodes.append([k, txt, target])
            n -= m
        first = False
    return nodes, src


def gen_code(s, tags):
    lines = []
    for _ in range(s.rand(1, 4)):
        x = s.choice(["", "  ", "\t", "    "]) + " ".join(s.choice(["code", "x=1", "{a}", "if (1) {b {c}}", "<b>", "a&b", "echo.", "%i", "- x", "|", "été", "a  b"]) for _ in range(s.rand(1, 4)))
        if s.bool(5):
            x += "y" * s.choice([60, 70, 80, 150])
            tags.add("long-code")
        lines.append(x)
    if s.bool(30):
        lines.insert(0, "")
    if s.bool(30):
        lines.append("")
    tags.add("code")
    return lines


def gen(s):
    tags = set()
    blocks, src = [], ""
    utf8 = s.bool(60)
    if utf8 and s.bool(20):
        src += "\ufeff" + s.choice(["# comment\n", "\n"])
        tags.add("bom")
    if s.bool(40):
        src += "# a comment\n"
    needgap = False
    for _ in range(s.rand(1, 8)):
        k = s.weighted([(6, "p"), (3, "li"), (3, "h"), (2, "code")])
        gap = s.choice(["\n\n", "\n\n\n", "\n \t\n", "\n\n# comment\n\n", "\n\n\t"])
        if k == "h":
            ws = [gen_word(s, tags) for _ in range(s.rand(1, 5))]
            txt = " ".join(ws)
            if "{{" in txt or "}}" in txt:
                continue
            out = ""
            for i, w in enumerate(ws):
                if i:
                    out += s.choice([" ", " ", "  ", "\n", "\t"])
                out += esc_plain(s, w, True, tags)
            if out.endswith("}"):
                out += " "
                tags.add("special")
            src += (s.choice(["\n", gap]) if needgap else "") + "{{" + s.choice(["", " ", "\n"]) + out + s.choice(["", " "]) + "}}"
            blocks.append(["h", txt])
            needgap = False
            tags.add("heading")
        elif k == "code":
            lines = gen_code(s, tags)
            src += (s.choice(["\n", gap]) if needgap else "\n") + "${" + "\n".join(lines) + "}"
            blocks.append(["code", lines])
            needgap = False
        else:
            nodes, t = gen_nodes(s, tags)
            level, mark = 0, True
            m = ""
            if k == "li":
                level = s.rand(1, 3)
                mark = s.bool(75)
                m = ("" if mark else "@") + "-" * level + s.choice([" ", " ", "  ", "\n"])
                tags.add("list" if mark else "list-no-mark")
            src += (gap if needgap else s.choice(["\n", gap])) + s.choice(["", "\t", "  "]) + m + t
            blocks.append(["p", level, mark, nodes])
            needgap = True
    if not blocks:
        s.reject()
    src += s.choice(["\n", "", "\n\n"])
    mode = s.choice(["TEXT", "TEXT-PLAIN", "TEXT-ANSI", "HTML", "HTML", "MD"])
    opts = {}
    if mode == "HTML":
        if s.bool(30):
            opts["T"] = s.choice(["My - ", "doc: "])
        for o in "MHF":
            if s.bool(25):
                opts[o] = s.choice(["<!-- %s -->\n", "<div>%s</div>\n", "%s"]) % ("file" + o)
        if s.bool(40):
            opts["C"] = s.choice(["HTML4", "XHTML", "MD"])
        if opts:
            tags.add("html-options")
    return {"src": src, "blocks": blocks, "mode": mode, "utf8": utf8, "opts": opts, "trick": s.bool(20), "tofile": bool(opts) or s.bool(30), "tags": sorted(tags | {mode}), "nontrivial": len(blocks) >= 2 and len(tags) >= 3}


def upper(t):
    return "".join(c.upper() if c.isascii() else c for c in t)


def md(t):
    return re.sub(r"([_*\]\[()|~#])", r"\\\1", t)


def flat(nodes, mode):
    out = ""
    for k, t, target in nodes:
        if mode == "TEXT":
            t = "_%s_" % t if k == "em" else "%s (<%s>)" % (t, target) if k == "link" else t
        elif mode == "MD":
            t = "**%s**" % md(t) if k == "em" else "[%s](%s)" % (md(t), md(target)) if k == "link" else md(t)
        elif mode == "TEXT-ANSI":
            t = "\x02%s\x03" % t if k == "em" else "\x01%s\x03" % t if k == "link" else t
        out += t
    return out


ANSI = {"\x1b[36m\x1b[1m": "\x02", "\x1b[34m\x1b[1m": "\x01", "\x1b[39m\x1b[0m": "\x03", "\x1b[32m\x1b[1m": "\x04", "\x1b[35m\x1b[1m": "\x05"}


def nomark(t):
    return re.sub("[\x01-\x05]", "", t)


def check_text(case, out):
    mode, utf8 = case["mode"], case["utf8"]
    if mode == "TEXT-ANSI":
        for k, v in ANSI.items():
            out = out.replace(k, v)
    if "\x1b" in out:
        return "unexpected escape sequence in %r" % out[:200]
    if not out.endswith("\n\n"):
        return "the document does not end with an empty line"
    chunks = out[:-2].split("\n\n")
    # a code block may hold lines which are empty
    if len(chunks) != len(case["blocks"]):
        return "%d blocks, expected %d" % (len(chunks), len(case["blocks"]))
    level = 0
    for i, (b, c) in enumerate(zip(case["blocks"], chunks)):
        lines = c.split("\n")
        where = "block %d (%s)" % (i + 1, b[0])
        if b[0] != "code" or mode != "MD":
            for x in lines:
                x = nomark(x)
                n = len(x)
                if n > 79 and not (b[0] == "h" and mode == "MD"):
                    return "%s: line of %d columns: %r" % (where, n, x)
        if b[0] == "h":
            level = 0
            t = b[1]
            if mode == "TEXT" or mode == "TEXT-PLAIN":
                t = upper(t)
            elif mode == "TEXT-ANSI":
                t = "\x05" + t + "\x03"
            elif mode == "MD":
                t = ("# " if i == 0 else "## ") + t
            bad = same_words(t, lines, 0, 0)
            if not bad and any("  " in nomark(x).strip() or "\t" in x for x in lines):
                bad = "blanks are not joined in a title: %r" % lines
        elif b[0] == "code":
            exp = [x.replace("\t", " ") for x in b[1]]
            if exp and exp[0] == "":
                exp = exp[1:]
            ind = 4 + 4 * level if mode == "MD" else 8 + 4 * level
            if mode == "TEXT-ANSI":
                if not c.startswith("\x04") or not c.endswith("\x03"):
                    return "%s: no colours: %r" % (where, c)
                lines = c[1:-1].split("\n")
            width = 10000 if mode == "MD" else 79
            if all(len(x if utf8 else x.encode()) + ind < width for x in exp):
                e = [(" " * ind + x).rstrip() for x in exp]
                g = [x.rstrip() for x in lines]
                bad = None if e == g else "expected %r, got %r" % (e, g)
            else:
                e, g = "".join("".join(exp).split()), "".join("".join(lines).split())
                bad = None if e == g else "expected %r, got %r" % (e, g)
        else:
            level, mark = b[1], b[2]
            t = flat(b[3], mode)
            base = 2 * level if mode == "MD" else 4 * level + 4
            f = base
            if level and mark:
                t = ("* " if mode == "MD" else "- ") + t
                f -= 2
            bad = same_words(t, lines, f, base)
        if bad:
            return "%s: %s" % (where, bad)
    return None


def same_words(t, lines, first, rest):
    """the words of t, on lines with the given indentations"""
    for i, x in enumerate(lines):
        y = nomark(x)
        ind = first if i == 0 else rest
        if y.strip() and (y[:ind].strip(" ") or y[ind:ind + 2] == "  "):
            return "indentation of %r, expected %d" % (x, ind)
    e, g = t.split(), " ".join(lines).split()
    if any(len(nomark(w)) + max(first, rest) + 1 >= 79 for w in e):
        # words longer than the line are split
        e, g = ["".join(e)], ["".join(g)]
        e, g = [nomark(e[0])], [nomark(g[0])]
        if e != g:
            return "expected %r, got %r" % (e[0], g[0])
        return None
    # a marker may stand on either side of the blank or line end
    e, g = norm(t), norm(" ".join(lines))
    if e != g:
        return "expected %r, got %r" % (e, g)
    return None


def norm(t):
    t = re.sub(r"([\x01\x02\x05])\s+", r" \1", t)
    t = re.sub(r"\s+\x03", "\x03 ", t)
    return " ".join(t.split())


class Html(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.ev, self.txt, self.pre, self.par = [], "", False, False

    def flush(self):
        if self.txt and (self.pre or self.par or self.txt.strip()):
            self.ev.append("t:" + (self.txt if self.pre else re.sub(r"\s+", " ", self.txt)))
        self.txt = ""

    def handle_data(self, d):
        self.txt += d

    def handle_starttag(self, t, a):
        if t == "br":
            self.txt += "\n"
            return
        self.flush()
        self.ev.append("<" + t + ("" if not a else " " + repr(dict(a))) + ">")
        if t == "code":
            self.pre = True
        if t == "p":
            self.par = True

    def handle_startendtag(self, t, a):
        self.handle_starttag(t, a)

    def handle_endtag(self, t):
        self.flush()
        self.ev.append("</" + t + ">")
        if t == "code":
            self.pre = False
        if t == "p":
            self.par = False


def events(t):
    p = Html()
    p.feed(t)
    p.close()
    p.flush()
    return p.ev


def expect_html(case):
    ev, depth, level, hn = [], 0, 0, 1
    mdmode = case["opts"].get("C") == "MD"
    for b in case["blocks"]:
        want = 0 if b[0] == "h" else level if b[0] == "code" else b[1]
        old = depth
        while depth > want:
            ev += ["</li>", "</ul>"]
            depth -= 1
        while depth < want:
            ev += ["<ul>", "<li>"]
            depth += 1
        if b[0] == "h":
            level = 0
            ev += ["<h%d>" % hn, "t:" + b[1], "</h%d>" % hn]
            hn = 2
        elif b[0] == "code":
            ev += ["<pre>", "<code>", "t:" + "\n".join(x.replace("\t", " ") for x in b[1]), "</code>", "</pre>"]
        else:
            level = b[1]
            if depth and depth <= old and b[2]:
                ev += ["</li>", "<li>"]
            ev.append("<p>")
            for k, t, target in b[3]:
                if k == "plain":
                    ev.append("t:" + t)
                elif k == "em":
                    ev += ["<strong>", "t:" + t, "</strong>"]
                else:
                    if not mdmode and "." not in target.rsplit("/", 1)[-1] and not target.startswith(("http://", "https://", "mail://")):
                        target += ".html"
                    ev += ["<a %r>" % {"href": target}, "t:" + t, "</a>"]
            ev.append("</p>")
    while depth:
        ev += ["</li>", "</ul>"]
        depth -= 1
    return ev


def tidy(ev):
    """blanks at the ends of a paragraph do not count"""
    r = []
    for i, x in enumerate(ev):
        if x.startswith("t:") and not (i and ev[i - 1] == "<code>"):
            t = x[2:]
            if i and (ev[i - 1] == "<p>" or ev[i - 1].startswith("<h")):
                t = t.lstrip()
            if i + 1 < len(ev) and (ev[i + 1] == "</p>" or ev[i + 1].startswith("</h")):
                t = t.rstrip()
            if t == "":
                continue
            x = "t:" + t
        r.append(x)
    return r


def check_html(case, out):
    o = case["opts"]
    title = next((b[1] for b in case["blocks"] if b[0] == "h"), "")
    full = o.get("T", "") + title
    comp = o.get("C")
    if comp == "MD":
        m = re.match(r"---\nTitle: (.*)\nDescription: (.*)\ntemplate: index\n---\n\n", out)
        if not m:
            return "no front matter: %r" % out[:200]
        if m.group(1).rstrip() != html_esc(full).rstrip():
            return "title %r, expected %r" % (m.group(1), full)
        body = out[m.end():]
    else:
        m = re.match(r"(?s)<!DOCTYPE ([^>]*)>\n<!--.*?-->\n<html[^>]*>\n<head>\n(.*?)</head>\n<body>\n(.*)\n</body>\n</html>\Z", out)
        if not m:
            return "not a whole document: %r" % out[:300]
        want = {None: "html", "HTML4": "HTML 4.01", "XHTML": "XHTML 1.0"}[comp]
        if want not in m.group(1):
            return "document type %r" % m.group(1)
        head, body = m.group(2), m.group(3)
        meta, _, rest = head.partition("\n<title>")
        enc = "UTF-8" if case["utf8"] else "US-ASCII"
        if enc not in meta or "charset" not in meta:
            return "encoding: %r" % meta
        t, _, rest = rest.partition("</title>\n")
        if t.rstrip() != html_esc(full).rstrip():
            return "title %r, expected %r" % (t, full)
        if rest.strip() != o.get("M", "").strip():
            return "head %r, expected %r" % (rest, o.get("M"))
        h, f = o.get("H", "").strip(), o.get("F", "").strip()
        body = body.strip()
        if not body.startswith(h):
            return "the body begins with %r" % body[:80]
        body = body[len(h):]
        if f:
            if not body.endswith(f):
                return "the body ends with %r" % body[-80:]
            body = body[:-len(f)]
    e, g = tidy(expect_html(case)), tidy(events(body))
    if e != g:
        for i in range(max(len(e), len(g))):
            a, b = e[i:i + 1], g[i:i + 1]
            if a != b:
                return "element %d: expected %r, got %r (after %r)" % (i, a, b, e[max(0, i - 2):i])
    return None


def html_esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def run(case, ctx):
    ctx.put("in.tea", case["src"])
    src = "in.tea"
    if case["trick"]:
        src = "/etc/.." + ctx.cwd + "/in.tea"
    argv = [ctx.bin("full/cmd/tea"), src]
    if case["tofile"]:
        argv.append("out.txt")
    argv.append("/O:" + case["mode"])
    if case["utf8"]:
        argv.append("/E:UTF-8")
    for k, v in case["opts"].items():
        if k == "T":
            argv += ["/T", v]
        elif k == "C":
            argv.append("/C:" + v)
        else:
            ctx.put("file" + k, v)
            argv += ["/" + k, "file" + k]
    if case["mode"] == "HTML" and not case["tofile"]:
        pass
    r = ctx.exec(argv, timeout=10)
    if r.timeout:
        return "tea did not terminate"
    if r.rc or r.err:
        return "exit status %r, error output %r" % (r.rc, r.err[:300])
    out = r.out
    if case["tofile"]:
        if out:
            return "unexpected output %r" % out[:100]
        out = ctx.tree()["out.txt"]
    try:
        out = out.decode()
    except UnicodeDecodeError:
        return "the text is no longer UTF-8"
    return check_html(case, out) if case["mode"] == "HTML" else check_text(case, out)


TOK = ["{", "}", "{{", "}}", "${", "|", "\\", "#", "@", "-", "--", " ", "\n", "\n\n", "\t", "a", "bc", "word", "\r\n", "é", "<", "&", "{a}", "{a|b}", "\\{", "${x}", "{{t}}", "x" * 90, "\n#c\n", "$", "*", "_"]


def gen_any(s):
    src = "".join(s.choice(TOK) for _ in range(s.rand(0, 25)))
    mode = s.choice(["TEXT", "TEXT-PLAIN", "TEXT-ANSI", "HTML", "MD"])
    return {"src": src, "mode": mode, "nontrivial": len(src) > 3, "tags": [mode]}


def gen_bad(s):
    k = s.choice(["title", "code", "inline", "missing", "mode", "output"])
    src = "some text\n\n" + s.choice(["", "{{title}}\n", "{em} x\n\n"])
    args = ["/O:" + s.choice(["TEXT", "HTML", "MD"])]
    if k == "title":
        src += "{{never ended"
    elif k == "code":
        src += s.choice(["${never {ended}", "${ never ended \\} x"])
    elif k == "inline":
        src += s.choice(["a {never ended", "a {b\\} c"])
    elif k == "mode":
        args = ["/O:WORD"]
    return {"src": src, "kind": k, "args": args, "tags": [k]}


def run_any(case, ctx):
    """any text at all is converted or refused"""
    ctx.put("in.tea", case["src"])
    argv = [ctx.bin("full/cmd/tea"), "in.tea", "/O:" + case["mode"]]
    # the output is limited, so that an endless one is seen at once
    r = ctx.exec(["/bin/sh", "-c", 'ulimit -f 2048; exec "$@" > out', "sh"] + argv, timeout=10)
    if r.timeout:
        return "tea did not terminate"
    if r.rc < 0 or r.rc > 255:
        return "tea was ended by signal %r" % -r.rc
    if r.rc == 0:
        return None
    return None if r.err else "exit status %d without a message" % r.rc


def run_bad(case, ctx):
    ctx.put("in.tea", case["src"])
    argv = [ctx.bin("full/cmd/tea"), "nosuch.tea" if case["kind"] == "missing" else "in.tea"] + (["nodir/out"] if case["kind"] == "output" else []) + case["args"]
    r = ctx.exec(argv, timeout=10)
    if r.timeout:
        return "tea did not terminate"
    if r.rc <= 0:
        return "exit status %r for a bad document or command line" % r.rc
    return None if r.err or b"rror" in r.out else "no error message"


if __name__ == "__main__":
    sys.exit(vf.main("P30", [
        vf.Family("document", gen, run, 6000, 80000, show=lambda c: c["src"] + "\n[" + c["mode"] + (" UTF-8" if c["utf8"] else "") + "]"),
        vf.Family("any", gen_any, run_any, 3000, 80000),
        vf.Family("errors", gen_bad, run_bad, 300, 2000),
    ], rule="the document has at least two blocks and three distinct features"))
