"""Small property-based-testing core used by every check.

* Source      - a recorded stream of bounded integer choices.  Generators draw
                everything from it, so any failing case is shrunk by editing
                the recorded choices (the Hypothesis / minithesis approach)
                and replays exactly.
* Family      - a generator, an executor+oracle, and case counts.
* main()      - runs families over worker processes, confirms, shrinks and
                reports, and writes the evidence file.

Every run is a pure function of the tree under test and VERIF_SEED.
"""
import hashlib, json, multiprocessing, os, random, resource, selectors, shutil, signal, stat, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as _build

VERIF = _build.VERIF
NOBODY = 65534


class Reject(Exception):
    """The drawn choices do not make a valid case."""


class Source:
    def __init__(self, rng=None, prefix=None):
        self.rng, self.prefix, self.rec = rng, prefix, []

    def draw(self, n):
        """an int in [0, n]"""
        if n <= 0:
            return 0
        i = len(self.rec)
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v > n:
                v = n
        else:
            v = self.rng.randint(0, n)
        self.rec.append(v)
        if len(self.rec) > 20000:
            raise Reject()
        return v

    def rand(self, lo, hi):
        return lo + self.draw(hi - lo)

    def bool(self, p=50):
        """True with p percent; shrinks to False"""
        if self.prefix is None and self.rng is not None:
            v = 1 if self.rng.randrange(100) < p else 0
            self.rec.append(v)
            return bool(v)
        return bool(self.draw(1))

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs of (weight, value); shrinks toward the first"""
        pairs = [x for x in pairs if x[0] > 0]
        if len(pairs) == 1:
            return pairs[0][1]      # draw() records nothing either when there is no choice
        if self.prefix is None and self.rng is not None:
            t = self.rng.randrange(sum(w for w, _ in pairs))
            for i, (w, v) in enumerate(pairs):
                if t < w:
                    break
                t -= w
            self.rec.append(i)
            return v
        return pairs[self.draw(len(pairs) - 1)][1]

    def text(self, alphabet, lo, hi):
        return "".join(self.choice(alphabet) for _ in range(self.rand(lo, hi)))

    def subset(self, seq, p=50):
        return [x for x in seq if self.bool(p)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def reject(self):
        raise Reject()


class Family:
    """gen(src) -> case (JSON-able dict, may carry 'nontrivial' and 'tags')
       run(case, ctx) -> None if the oracle holds, else a description."""

    def __init__(self, name, gen, run, quick, thorough, chunk=25, confirm=3, show=None):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough, self.chunk, self.confirm = quick, thorough, chunk, confirm
        self.show = show


MAX_MEMORY = 6 << 30        # address space of what is run, 0 when sanitizers are in it
MAX_OUTPUT = 64 << 20       # a program that prints more is taken as one that does not end


def talk(p, stdin, timeout):
    """communicate(), but what is kept of the output is bounded -> out, err, why it was killed or None"""
    end = time.monotonic() + timeout
    got = {p.stdout: [], p.stderr: []}
    size, why = 0, None
    sel = selectors.DefaultSelector()
    for f in got:
        sel.register(f, selectors.EVENT_READ)
    view = memoryview(stdin or b"")
    if view:
        os.set_blocking(p.stdin.fileno(), False)
        sel.register(p.stdin, selectors.EVENT_WRITE)
    else:
        p.stdin.close()
    while sel.get_map():
        left = end - time.monotonic()
        if left <= 0 or size > MAX_OUTPUT:
            why = "time" if left <= 0 else "output"
            break
        for key, _ in sel.select(left):
            f = key.fileobj
            if f is p.stdin:
                try:
                    view = view[os.write(f.fileno(), view[:65536]):]
                except BlockingIOError:
                    continue
                except OSError:
                    view = view[:0]
                if not view:
                    sel.unregister(f)
                    try:
                        f.close()
                    except OSError:
                        pass
            else:
                d = os.read(f.fileno(), 65536)
                if d:
                    got[f].append(d)
                    size += len(d)
                else:
                    sel.unregister(f)
    sel.close()
    if not why:
        try:
            p.wait(max(0.01, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            why = "time"
    if why:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.kill()
        p.wait()
    for f in (p.stdin, p.stdout, p.stderr):
        try:
            f.close()
        except OSError:
            pass
    return b"".join(got[p.stdout]), b"".join(got[p.stderr]), why


class Result:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


class Ctx:
    """What a worker gives the oracles: scratch directory and runners."""

    def __init__(self, base, wid, bins):
        self.base, self.bins = base, bins
        self.root = os.path.join(base, "w%s" % wid)
        self.cwd = os.path.join(self.root, "c")
        self.dirty = False
        os.makedirs(self.cwd, exist_ok=True)
        self.env = {"PATH": "/usr/bin:/bin", "HOME": self.root, "LC_ALL": "C.UTF-8", "TERM": "xterm"}
        self.crash = None       # how the first program that crashed in this case did it
        if "san" in bins:
            self.env["ASAN_OPTIONS"] = "detect_leaks=0:log_path=%s/san:handle_abort=1:allocator_may_return_null=1:hard_rss_limit_mb=2000" % self.root
            self.env["UBSAN_OPTIONS"] = "log_path=%s/san:halt_on_error=1" % self.root

    def reports(self):
        """takes away and returns what sanitizers and signals reported since the last call"""
        r = [self.crash] if self.crash else []
        self.crash = None
        for f in sorted(os.listdir(self.root)):
            if f.startswith("san."):
                p = os.path.join(self.root, f)
                with open(p, errors="replace") as fd:
                    r.append(fd.read())
                os.unlink(p)
        return r

    def clean(self):
        def onerr(fn, p, e):
            try:
                os.chmod(os.path.dirname(p), 0o700)
                os.chmod(p, 0o700)
                fn(p)
            except OSError:
                pass
        assert self.cwd.startswith(self.base + "/")
        if os.path.isdir(self.cwd) and not os.listdir(self.cwd):
            return
        for d, dn, fn in os.walk(self.cwd):
            try:
                os.chmod(d, 0o700)
            except OSError:
                pass
        shutil.rmtree(self.cwd, onerror=onerr)
        os.makedirs(self.cwd, exist_ok=True)

    def bin(self, name):
        return os.path.join(self.base, "bin", name)

    def put(self, rel, data, mode=None):
        p = os.path.join(self.cwd, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        with open(p, "wb") as f:
            f.write(data)
        if mode is not None:
            os.chmod(p, mode)
        return p

    def exec(self, argv, stdin=b"", env=None, cwd=None, timeout=20):
        e = dict(self.env)
        if env:
            e.update(env)
        if isinstance(stdin, str):
            stdin = stdin.encode("utf-8", "surrogateescape")
        p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=e, cwd=cwd or self.cwd, start_new_session=True)
        out, err, why = talk(p, stdin, timeout)
        if why:
            return Result(None, out, err, True)
        if p.returncode < 0:
            self.crash = "ended by signal %d: %s" % (-p.returncode, b2s(err[-300:]))
        return Result(p.returncode, out, err, False)

    def pbat(self, script, args=(), stdin=b"", name="s.bat", env=None, full=False, timeout=20, raw=False):
        """Runs a script text through the interpreter, in the scratch cwd."""
        if isinstance(script, str):
            script = script.encode("utf-8", "surrogateescape")
        p = os.path.join(self.root, name)
        with open(p, "wb") as f:
            f.write(script)
        return self.exec([self.bin("full/pbat" if full else "pbat"), "../" + name] + list(args),
                         stdin=stdin, env=env, timeout=timeout)

    def tree(self, top=None):
        """{relative path: bytes | None for a directory}"""
        top = top or self.cwd
        r = {}
        for d, dn, fn in os.walk(top):
            for x in dn:
                r[os.path.relpath(os.path.join(d, x), top)] = None
            for x in fn:
                p = os.path.join(d, x)
                try:
                    with open(p, "rb") as f:
                        r[os.path.relpath(p, top)] = f.read()
                except OSError as e:
                    r[os.path.relpath(p, top)] = b"<" + str(e).encode() + b">"
        return r


def sparse(path, size):
    """an empty file of any size"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
    try:
        with open(path, "wb") as f:
            f.truncate(size)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def b2s(b):
    return b.decode("utf-8", "surrogateescape")


def s2b(t):
    return t.encode("utf-8", "surrogateescape")


def diff_text(exp, got, n=400):
    """short description of the first difference between two texts"""
    if isinstance(exp, bytes):
        exp = b2s(exp)
    if isinstance(got, bytes):
        got = b2s(got)
    el, gl = exp.split("\n"), got.split("\n")
    for i in range(max(len(el), len(gl))):
        a = el[i] if i < len(el) else "<end>"
        b = gl[i] if i < len(gl) else "<end>"
        if a != b:
            return "line %d: expected %r, got %r" % (i + 1, a[:n], b[:n])
    return "equal?"


def expect_run(res, out, rc=0, err_empty=True):
    """standard oracle for a script: exact stdout, exit code, silent stderr"""
    if res.timeout:
        return "the program did not terminate; stdout so far: %r" % b2s(res.out[:300])
    if rc is not None and res.rc != rc:
        return "exit status %r, expected %r (stderr %r, stdout %r)" % (res.rc, rc, b2s(res.err[:300]), b2s(res.out[-200:]))
    if isinstance(out, str):
        out = out.encode("utf-8", "surrogateescape")
    if res.out != out:
        return "stdout differs: " + diff_text(out, res.out) + (" (stderr %r)" % b2s(res.err[:200]) if res.err else "")
    if err_empty and res.err:
        return "unexpected error output %r" % b2s(res.err[:300])
    return None


# --------------------------------------------------------------------------
# worker side

_W = {}


def _winit(base, bins, families, ids, drop):
    wid = ids.get()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if drop:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
    _W["ctx"] = Ctx(base, wid, bins)
    os.chdir(_W["ctx"].root)
    _W["fam"] = {f.name: f for f in families}
    # a program that runs away must not take the machine with it
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if MAX_MEMORY and "san" not in _W["ctx"].bins:
        resource.setrlimit(resource.RLIMIT_AS, (MAX_MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))


def run_case(fam, case, ctx):
    ctx.clean()
    try:
        return fam.run(case, ctx)
    except Reject:
        raise
    except Exception:
        # the oracle could not make sense of what it observed
        return "the oracle failed: " + traceback.format_exc()[-600:]


def make_case(fam, pid, seed, idx):
    src = Source(rng=random.Random("%s/%s/%s/%s" % (seed, pid, fam.name, idx)))
    return fam.gen(src), src.rec


def _wchunk(job):
    pid, fname, seed, lo, hi, deadline = job
    fam, ctx = _W["fam"][fname], _W["ctx"]
    n = rej = 0
    keys, tags, samples, fails = [], {}, [], []
    for i in range(lo, hi):
        if time.monotonic() > deadline:
            break
        try:
            case, rec = make_case(fam, pid, seed, i)
        except Reject:
            rej += 1
            continue
        try:
            bad = run_case(fam, case, ctx)
        except Reject:
            rej += 1
            continue
        n += 1
        if case.get("nontrivial", True):
            keys.append(hashlib.md5(json.dumps(case, sort_keys=True).encode("utf-8", "surrogateescape")).digest()[:8])
        for t in case.get("tags", ()):
            tags[t] = tags.get(t, 0) + 1
        if i < lo + 1 and case.get("nontrivial", True):
            samples.append(case)
        if bad:
            fails.append((len(rec), i, rec, bad))
            break
    return fname, n, rej, keys, tags, samples, fails


def _wreplay(job):
    fname, case = job
    try:
        return run_case(_W["fam"][fname], case, _W["ctx"])
    except Reject:
        return None


def _wshrink(job):
    fname, rec, budget, = job
    fam, ctx = _W["fam"][fname], _W["ctx"]
    t0 = time.monotonic()
    best = {"rec": list(rec), "case": None, "bad": None}
    seen = set()

    def attempt(r):
        if time.monotonic() - t0 > budget:
            return False
        k = tuple(r)
        if k in seen:
            return False
        seen.add(k)
        src = Source(prefix=list(r))
        try:
            case = fam.gen(src)
            bad = run_case(fam, case, ctx)
        except Reject:
            return False
        except Exception:
            return False
        if not bad:
            return False
        new = src.rec
        if best["case"] is None or (len(new), new) < (len(best["rec"]), best["rec"]):
            best.update(rec=list(new), case=case, bad=bad)
            return True
        return False

    attempt(rec)
    if best["case"] is None:
        return None
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best["rec"]) - size
            while i >= 0:
                r = best["rec"]
                if i + size <= len(r):
                    if attempt(r[:i] + r[i + size:]):
                        improved = True
                    else:
                        # deleting inside a list usually needs its length lowered
                        for j in range(max(0, i - 4), i):
                            if r[j] > 0 and attempt(r[:j] + [r[j] - 1] + r[j + 1:i] + r[i + size:]):
                                improved = True
                                break
                i -= 1 if size < 4 else size // 2
                if time.monotonic() - t0 > budget:
                    break
        for size in (8, 4, 2, 1):
            i = 0
            while i + size <= len(best["rec"]):
                r = best["rec"]
                if any(r[i:i + size]) and attempt(r[:i] + [0] * size + r[i + size:]):
                    improved = True
                i += size
        for i in range(len(best["rec"])):
            lo, r = 0, best["rec"]
            if i >= len(r):
                break
            hi = r[i]
            while lo < hi:
                mid = (lo + hi) // 2
                r = best["rec"]
                if i >= len(r):
                    break
                if attempt(r[:i] + [mid] + r[i + 1:]):
                    improved = True
                    hi = mid
                else:
                    lo = mid + 1
    return best["rec"], best["case"], best["bad"]


# --------------------------------------------------------------------------
# driver

def _prepare_bins(base, variants):
    bins = {}
    for v in variants:
        bins[v] = _build.build(v)
    if "asan" in bins:
        # the instrumented programs take the place of the plain ones
        bins = {"linux": bins["asan"], "san": True}
    os.makedirs(os.path.join(base, "bin"), exist_ok=True)
    if "linux" in bins:
        b = os.path.join(bins["linux"], "bin")
        shutil.copytree(b, os.path.join(base, "bin", "full"))
        for x in ("pbat",):
            shutil.copy2(os.path.join(b, x), os.path.join(base, "bin", x))
        # hermetic start-up script for the bare interpreter
        with open(os.path.join(base, "bin", "pBat_Auto.bat"), "w") as f:
            f.write("@(\nSET PATHEXT=.bat:.cmd\n)\n")
    for d, dn, fn in os.walk(os.path.join(base, "bin")):
        os.chmod(d, 0o755)
        for f in fn:
            p = os.path.join(d, f)
            os.chmod(p, os.stat(p).st_mode | 0o444)
    return bins


def probe(base, bins):
    """setup of the checks that run external programs: the program they run"""
    subprocess.check_call(["gcc", "-O1", "-w", "-o", os.path.join(base, "bin", "probe"), os.path.join(VERIF, "lib", "probe.c")])


def _kill_leftovers(base):
    for p in os.listdir("/proc"):
        if p.isdigit() and int(p) != os.getpid():
            try:
                if os.readlink("/proc/%s/exe" % p).startswith(base + "/"):
                    os.kill(int(p), signal.SIGKILL)
            except OSError:
                pass


def known_findings(pid):
    r = []
    d = os.path.join(VERIF, "known")
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as fd:
                    k = json.load(fd)
                if k["property"] == pid:
                    r.append(k)
    return r


def modules(base, bins):
    """setup of the checks that load modules: the modules beside the interpreter"""
    shutil.copytree(os.path.join(base, "bin", "full", "modules"), os.path.join(base, "bin", "modules"))


def everything(base, bins):
    """setup of the checks that run the cases of the others"""
    probe(base, bins)
    modules(base, bins)


def main(pid, families, variants=("linux",), rule="", setup=None, workers=None, assumptions=(), teardown=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    replay = None
    scale, only = 1.0, None
    av = sys.argv[1:]
    i = 0
    while i < len(av):
        if av[i] in ("quick", "thorough"):
            tier = av[i]
        elif av[i] == "--seed":
            i += 1
            seed = av[i]
        elif av[i] == "--replay":
            i += 1
            replay = av[i]
        elif av[i] == "--scale":
            i += 1
            scale = float(av[i])
        elif av[i] == "--only":
            i += 1
            only = av[i]
        i += 1
    t0 = time.monotonic()
    for v in ("VERIF_SEED", "VERIF_TIER"):
        os.environ.pop(v, None)
    workers = workers or max(2, min(8, os.cpu_count() or 2))
    drop = os.geteuid() == 0
    tmp = "/tmp"
    base = tempfile.mkdtemp(prefix="vf", dir=tmp)
    os.chmod(base, 0o755)
    if only:
        families = [f for f in families if f.name in only.split(",")]
    code = 2
    pool = None
    try:
        bins = _prepare_bins(base, variants)
        if setup:
            setup(base, bins)
        tb = time.monotonic() - t0
        for w in range(workers):
            p = os.path.join(base, "w%d" % w)
            os.mkdir(p)
            if drop:
                os.chown(p, NOBODY, NOBODY)
        mp = multiprocessing.get_context("fork")
        ids = mp.Queue()
        for w in range(workers):
            ids.put(w)
        pool = mp.Pool(workers, _winit, (base, bins, families, ids, drop))
        if replay:
            with open(replay) as f:
                k = json.load(f)
            bad = pool.apply(_wreplay, ((k["family"], k["case"]),))
            print("replay: %s" % (bad or "the property holds on this case"))
            code = 1 if bad else 0
            if bad:
                print("VIOLATION property=%s replay=%s" % (pid, replay))
            return code
        code = _explore(pid, families, tier, seed, scale, pool, t0, tb, rule, assumptions)
        return code
    except _build.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 3
    finally:
        if pool:
            pool.terminate()
            pool.join()
        if teardown:
            teardown(base)
        _kill_leftovers(base)
        for d, dn, fn in os.walk(base):
            try:
                os.chmod(d, 0o700)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)


def _explore(pid, families, tier, seed, scale, pool, t0, tb, rule, assumptions):
    limit = float(os.environ.get("VF_LIMIT", 700 if tier == "quick" else 6000))
    deadline = t0 + limit
    total = rej = 0
    keys, tags, samples, fails, counts = set(), {}, {}, [], {}
    famby = {f.name: f for f in families}
    # regression replays: committed minimal cases, always run first
    known = known_findings(pid)
    for k in known:
        if k["family"] not in famby:
            continue
        bad = pool.apply(_wreplay, ((k["family"], k["case"]),))
        if bad:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    jobs = []
    for f in families:
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * scale))
        fj = [(pid, f.name, seed, lo, min(n, lo + f.chunk), deadline) for lo in range(0, n, f.chunk)]
        jobs.append(fj)
    # interleave the families so that an early stop still covers all of them
    order, pos = [], [0.0] * len(jobs)
    merged = sorted((j / max(1, len(fj)), fi, j) for fi, fj in enumerate(jobs) for j in range(len(fj)))
    for _, fi, j in merged:
        order.append(jobs[fi][j])
    extra = 0
    for fname, n, r, ks, tg, sm, fl in pool.imap_unordered(_wchunk, order):
        total += n
        rej += r
        counts[fname] = counts.get(fname, 0) + n
        keys.update(ks)
        for t, c in tg.items():
            t = fname + ":" + t
            tags[t] = tags.get(t, 0) + c
        samples.setdefault(fname, [])
        if len(samples[fname]) < 3:
            samples[fname] += sm[:1]
        for x in fl:
            fails.append((fname,) + x)
        if fails:
            extra += 1
            if extra >= 8 or len(fails) >= 4:
                break
    violations = []
    flaky = []
    if fails:
        fails.sort(key=lambda x: (x[1], x[2]))
        for fname, ln, idx, rec, bad in fails:
            fam = famby[fname]
            src = Source(prefix=rec)
            case = fam.gen(src)
            ok = 0
            for _ in range(fam.confirm):
                b = pool.apply(_wreplay, ((fname, case),))
                if b:
                    ok += 1
                    bad = b
            if ok < fam.confirm:
                flaky.append({"family": fname, "index": idx, "what": bad, "confirmed": ok})
                print("note: family %s case %d failed once but only %d/%d replays: %s" % (fname, idx, ok, fam.confirm, bad))
                # a failure that comes and goes is given a longer hearing before it is dropped
                again = 0
                for _ in range(20):
                    b = pool.apply(_wreplay, ((fname, case),))
                    if b:
                        again += 1
                if ok + again < 4:
                    continue
                print("note: reproduced in %d of 20 more replays" % again)
            if ok == fam.confirm:
                sh = pool.apply(_wshrink, ((fname, rec, float(os.environ.get("VF_SHRINK", "40"))),))
                if sh:
                    rec, case, bad = sh
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, fname, hashlib.md5(json.dumps(case, sort_keys=True).encode("utf-8", "surrogateescape")).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": pid, "family": fname, "choices": rec, "case": case, "what": bad, "seed": seed, "index": idx}, f, indent=1)
            print("--- minimal failing case (family %s):" % fname)
            txt = fam.show(case) if fam.show else case.get("script") or json.dumps(case, indent=1)
            print(txt[:3000])
            print("--- %s" % bad)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            violations.append({"family": fname, "what": bad[:500], "replay": path})
            break
    wall = time.monotonic() - t0
    sm = []
    for fname in samples:
        for c in samples[fname][:2]:
            sm.append({"family": fname, "case": _clip(c)})
    ev = {
        "property": pid, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else seed,
        "level": "exploration",
        "coverage": {"evaluations": total, "distinct_nontrivial": len(keys), "rule": rule,
                     "samples": sm[:12], "rejected": rej, "per_family": counts, "classes": dict(sorted(tags.items()))},
        "wall_s": round(wall, 2), "assumptions": list(assumptions),
        "violations": violations, "flaky": flaky, "build_s": round(tb, 2),
    }
    evd = os.path.join(VERIF, "evidence") if not os.environ.get("VF_NOEV") else os.environ.get("VF_CACHE", "/tmp")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%s %s seed=%s: %d cases (%d distinct non-trivial, %d rejected) in %.1f s%s" %
          (pid, tier, seed, total, len(keys), rej, wall, "" if not violations else " - VIOLATED"))
    if os.environ.get("VF_TAGS"):
        for t, c in sorted(tags.items()):
            print("   %-40s %d" % (t, c))
    return 1 if violations else 0


def _clip(o, n=700):
    if isinstance(o, str):
        return o if len(o) <= n else o[:n] + "..."
    if isinstance(o, dict):
        return {k: _clip(v, n) for k, v in o.items() if k not in ("tags",)}
    if isinstance(o, list):
        return [_clip(v, n) for v in o[:20]]
    return o
