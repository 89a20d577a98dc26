"""A terminal: a pseudo terminal, the screen that its output paints, and the keys typed at it."""
import errno, fcntl, os, re, select, signal, struct, subprocess, termios, time, unicodedata


def width(c):
    if unicodedata.combining(c): return 0
    return 2 if unicodedata.east_asian_width(c) in "WF" else 1


class Screen:
    """what an xterm shows; lines that scroll away are kept"""
    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols
        self.lines = [[]]
        self.top = 0            # first line on the screen
        self.r = self.c = 0     # r counts from the first line ever
        self.pending = False    # the last column was written, the cursor is still on it
        self.buf = b""
        self.queries = 0
        self.odd = []           # what is not understood

    def line(self, r):
        while len(self.lines) <= r: self.lines.append([])
        return self.lines[r]

    def down(self):
        self.r += 1
        self.line(self.r)
        if self.r >= self.top + self.rows: self.top = self.r - self.rows + 1

    def put(self, ch):
        w = width(ch)
        if w == 0:
            l = self.line(self.r)
            i = self.c if self.pending else self.c - 1
            while 0 <= i < len(l) and l[i] == "": i -= 1
            if 0 <= i < len(l): l[i] += ch
            return
        if self.pending or self.c + w > self.cols:
            self.c = 0
            self.down()
            self.pending = False
        l = self.line(self.r)
        while len(l) < self.c + w: l.append(" ")
        l[self.c] = ch
        if w == 2: l[self.c + 1] = ""
        self.c += w
        if self.c >= self.cols: self.c, self.pending = self.cols - 1, True

    def feed(self, data):
        self.buf += data
        while self.buf:
            b = self.buf
            if b[0] == 27:
                m = re.match(rb"\x1b\[([0-9;?]*)([A-Za-z])", b)
                if not m:
                    if len(b) < 16 and re.fullmatch(rb"\x1b(\[[0-9;?]*)?", b): return
                    if len(b) >= 2 and b[1:2] == b"]":
                        e = b.find(b"\x07")
                        if e < 0: return
                        self.osc(b[2:e])
                        self.buf = b[e + 1:]
                        continue
                    self.odd.append(b[:8])
                    self.buf = b[1:]
                    continue
                self.buf = b[m.end():]
                self.csi(m.group(1).decode(), m.group(2).decode())
            elif b[0] < 32 or b[0] == 127:
                self.buf = b[1:]
                c = b[0]
                if c == 13: self.c, self.pending = 0, False
                elif c == 10:
                    self.down()
                    self.pending = False
                elif c == 8: self.c, self.pending = max(0, self.c - 1), False
                elif c == 9:
                    self.c = min(self.cols - 1, (self.c // 8 + 1) * 8)
                elif c == 7: pass
                else: self.odd.append(b[:1])
            else:
                n = 1 if b[0] < 0x80 else 2 if b[0] >> 5 == 6 else 3 if b[0] >> 4 == 14 else 4 if b[0] >> 3 == 30 else 1
                if len(b) < n: return
                try:
                    ch = b[:n].decode()
                except UnicodeDecodeError:
                    self.odd.append(b[:n])
                    ch, n = "\ufffd", 1
                self.buf = b[n:]
                self.put(ch)

    def osc(self, text): pass

    def csi(self, a, k):
        if k == "n" and a == "6":
            self.queries += 1
            return
        if k == "m": return
        n = int(a) if a.isdigit() else None
        if k == "J" and a == "2":
            # cleared: nothing of the screen stays
            for r in range(self.top, len(self.lines)): self.lines[r] = []
            return
        self.pending = False
        m = n or 1
        if k == "A": self.r = max(self.top, self.r - m)
        elif k == "B":
            self.r = min(self.top + self.rows - 1, self.r + m)
            self.line(self.r)
        elif k == "C": self.c = min(self.cols - 1, self.c + m)
        elif k == "D": self.c = max(0, self.c - m)
        elif k == "K" and not n: del self.line(self.r)[self.c:]
        elif k == "H" and not a: self.r, self.c = self.top, 0
        else: self.odd.append(b"ESC[" + (a + k).encode())

    def cursor(self): return self.r - self.top + 1, self.c + 1

    def text(self):
        return ["".join(l).rstrip() for l in self.lines]


class Canvas(Screen):
    """a screen with its colours: what was painted in every cell, each page that was cleared away, the titles, the cursor"""
    def __init__(self, rows, cols):
        Screen.__init__(self, rows, cols)
        self.fg = self.bg = 39
        self.fill = {}          # the background of a row that nothing was written to
        self.ink = {}           # (row, column) -> colours
        self.pages = []
        self.gone = []          # rows that scrolled away
        self.titles = []
        self.visible = True
        self.mouse = set()

    def put(self, ch):
        Screen.put(self, ch)
        c = self.c if self.pending else self.c - 1
        if width(ch):
            self.ink[self.r, c] = (self.fg, self.bg)
            if width(ch) == 2: self.ink[self.r, c - 1] = (self.fg, self.bg)

    def down(self):
        if self.r + 1 >= self.top + self.rows: self.gone.append(self.cells(self.top))
        Screen.down(self)

    def osc(self, text):
        t = text.decode("utf-8", "replace")
        if t.startswith("0;"): self.titles.append(t[2:])
        else: self.odd.append(b"ESC]" + text)

    def csi(self, a, k):
        if k == "m":
            for p in a.split(";"):
                n = int(p) if p else 0
                if n == 0: self.fg = self.bg = 39
                elif n == 39: self.fg = 39
                elif n == 49: self.bg = 39
                elif 30 <= n <= 37: self.fg = n - 30
                elif 90 <= n <= 97: self.fg = n - 82
                elif 40 <= n <= 47: self.bg = n - 40
                elif 100 <= n <= 107: self.bg = n - 92
                else: self.odd.append(b"ESC[" + (a + k).encode())
        elif k == "J" and a == "2": self.clear()
        elif k == "H": self.goto(*[int(x or 1) for x in ((a or "1") + ";1").split(";")[:2]])
        elif k in "hl" and a == "?25": self.visible = k == "h"
        elif k in "hl" and a in ("?1000", "?1003"):
            if k == "h": self.mouse.add(a)
            else: self.mouse.discard(a)
        elif k == "K" and a == "1":
            l = self.line(self.r)
            for i in range(min(len(l), self.c + 1)):
                l[i] = " "
                self.ink[self.r, i] = (self.fg, self.bg)
        elif k == "G": self.c, self.pending = min(self.cols, int(a or 1)) - 1, False
        else: Screen.csi(self, a, k)

    def goto(self, row, col):
        """counted from 1"""
        self.pending = False
        self.r = self.top + min(max(row, 1), self.rows) - 1
        self.c = min(max(col, 1), self.cols) - 1
        self.line(self.r)

    def clear(self):
        self.pages.append(self.picture())
        for r in range(self.top, self.top + self.rows):
            if r < len(self.lines): self.lines[r] = []
            for c in range(self.cols): self.ink.pop((r, c), None)
            self.fill[r] = self.bg

    def write(self, text):
        for c in text:
            if c == "\n":
                self.down()
                self.c, self.pending = 0, False
            elif c == "\t": self.c = min(self.cols - 1, (self.c // 8 + 1) * 8)
            else: self.put(c)

    def cells(self, r):
        """the background of a row, its cells (text, foreground, background)"""
        f = self.fill.get(r, 39)
        row = []
        for c, ch in enumerate(self.lines[r] if r < len(self.lines) else []):
            i = self.ink.get((r, c), (39, f))
            row.append((" ", i[1]) if ch == " " else (ch,) + i)
        while row and row[-1] == (" ", f): row.pop()
        return f, row

    def picture(self):
        out = [self.cells(r) for r in range(self.top, self.top + self.rows)]
        while out and out[-1] == (39, []): out.pop()
        return out

    def runs(self):
        """everything: lines that scrolled away, each page, the rest"""
        return [self.gone] + self.pages + [self.picture()]


def show(pic):
    """a picture for a message"""
    out = []
    for f, row in pic:
        t, last = "", None
        for x in row:
            k = x[1:]
            if k != last and x[0] != " ":
                t += "{%s}" % ",".join(map(str, k))
                last = k
            elif x[0] == " " and x[1] != (last[-1] if last else None):
                t += "{,%s}" % x[1]
                last = x[1:]
            t += x[0]
        out.append("%s|%s" % (f, t))
    return "\n".join(out)


class Session:
    def __init__(self, argv, env, cwd, rows=24, cols=80, screen=Screen, echo=True):
        m, s = os.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        if not echo:
            a = termios.tcgetattr(s)
            a[3] &= ~termios.ECHO
            termios.tcsetattr(s, termios.TCSANOW, a)
        self.fd = m
        self.scr = screen(rows, cols)
        self.raw = b""
        self.initial = self.mode()

        def ctty():
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)

        self.p = subprocess.Popen(argv, stdin=s, stdout=s, stderr=s, env=env, cwd=cwd, preexec_fn=ctty, close_fds=True)
        os.close(s)
        self.answered = 0
        self.eof = False

    def pump(self, wait):
        """reads what comes within a time -> whether something came"""
        if self.eof: return False
        r, _, _ = select.select([self.fd], [], [], wait)
        if not r: return False
        try:
            d = os.read(self.fd, 65536)
        except OSError as e:
            if e.errno != errno.EIO: raise
            d = b""
        if not d:
            self.eof = True
            return False
        self.raw += d
        self.scr.feed(d)
        return True

    def prompt(self, limit):
        """waits until the editor asks where the cursor is, and answers -> 'ready', 'end' or 'late'"""
        end = time.monotonic() + limit
        while self.scr.queries <= self.answered:
            if self.eof: return "end"
            t = end - time.monotonic()
            if t <= 0: return "late"
            self.pump(t)
        self.answered += 1
        self.type("\x1b[%d;%dR" % self.scr.cursor())
        return "ready"

    def until(self, text, limit):
        """waits for a text in the output"""
        end = time.monotonic() + limit
        while text not in self.raw:
            t = end - time.monotonic()
            if self.eof or t <= 0: return False
            self.pump(t)
        return True

    def awaits_key(self, limit):
        """waits until single keys are read"""
        end = time.monotonic() + limit
        while True:
            m = self.mode()
            if m and not m["canonical"]: return True
            if self.eof or time.monotonic() > end: return False
            self.pump(0.001)

    def mode(self):
        """how the terminal is set"""
        try:
            a = termios.tcgetattr(self.fd)
        except termios.error:
            return None
        return {"in": a[0], "out": a[1], "canonical": bool(a[3] & termios.ICANON), "echo": bool(a[3] & termios.ECHO), "signals": bool(a[3] & termios.ISIG)}

    def type(self, keys):
        b = keys.encode("utf-8", "surrogateescape") if isinstance(keys, str) else keys
        while b:
            n = os.write(self.fd, b[:512])
            b = b[n:]
            if b: self.pump(0)

    def close(self, limit=5):
        end = time.monotonic() + limit
        while not self.eof and time.monotonic() < end:
            self.pump(max(0, end - time.monotonic()))
        late = not self.eof
        try:
            if late: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(max(0.1, end - time.monotonic()) if not late else 5)
        except subprocess.TimeoutExpired:
            late = True
            self.p.kill()
            self.p.wait()
        os.close(self.fd)
        return None if late else self.p.returncode
