"""Builds the programs under test from /repo's current working tree.

Every run hashes the tree and (re)builds into /verif/build/<hash>-<variant>
(git-ignored) unless that exact tree was already built there.  Nothing is
written to /repo.
"""
import fcntl, hashlib, os, shutil, subprocess, sys

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VF_CACHE", os.path.join(VERIF, "build"))

EXCL_DIRS = {".git", "_build", "tests", "bin"}


class BuildError(Exception):
    pass


def _files(root):
    for d, dn, fn in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel == ".":
            dn[:] = [x for x in dn if x not in EXCL_DIRS]
        dn.sort()
        for f in sorted(fn):
            if f.endswith((".o", ".a", ".exe")):
                continue
            yield os.path.normpath(os.path.join(rel, f))


def tree_hash():
    h = hashlib.sha256()
    for f in _files(REPO):
        p = os.path.join(REPO, f)
        h.update(f.encode("utf-8", "surrogateescape") + b"\0")
        try:
            if os.path.islink(p):
                h.update(b"L" + os.readlink(p).encode())
            else:
                with open(p, "rb") as fd:
                    h.update(hashlib.sha256(fd.read()).digest())
        except OSError:
            h.update(b"?")
    return h.hexdigest()[:20]


def _env(extra=None):
    e = {k: v for k, v in os.environ.items()
         if k not in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "LDFLAGS", "CC", "AR", "RANLIB", "WINDRES",
                      "BINDIR", "EXEC_SUFFIX", "LANGUAGE", "DISPLAY", "MAKELEVEL", "CPPFLAGS")}
    e.update(LC_ALL="C.UTF-8", TERM="xterm",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["HOME"] = "/root"
    if extra:
        e.update(extra)
    return e


def _run(cmd, cwd, log, env):
    with open(log, "ab") as lf:
        lf.write(("\n$ %s   (in %s)\n" % (cmd, cwd)).encode())
        lf.flush()
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdin=subprocess.DEVNULL, stdout=lf,
                           stderr=subprocess.STDOUT, env=env, timeout=600)
    if r.returncode:
        with open(log, "rb") as lf:
            tail = lf.read()[-3000:].decode("utf-8", "replace")
        raise BuildError("%s failed in %s:\n%s" % (cmd, cwd, tail))


def _copy_tree(dst):
    for f in _files(REPO):
        s, d = os.path.join(REPO, f), os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if os.path.islink(s):
            os.symlink(os.readlink(s), d)
        else:
            shutil.copy2(s, d)


def _build_linux(d, log):
    env = _env({"CC": "gcc"})
    _run("make config", d, log, env)
    for sub, j in (("microgettext", 8), ("libpbat", 8), ("libfasteval", 1), ("pbat", 8),
                   ("pbatize", 4), ("dump", 1), ("tea", 4), ("scripts", 1)):
        _run("make -j%d -C %s" % (j, sub), d, log, env)
    e2 = dict(env, LDFLAGS="-O2")
    for m in ("sample", "batbox"):
        _run("make -C modules/%s %s" % (m, m), d, log, e2)
    _run("make bin", d, log, env)
    for f in ("pbat", "cmd/pbatize", "cmd/dump", "cmd/tea", "pBat_Auto.bat"):
        if not os.path.exists(os.path.join(d, "bin", f)):
            raise BuildError("missing bin/" + f)


def _build_asan(d, log):
    """The same programs with AddressSanitizer and the bounds checks of UBSan."""
    env = _env({"CC": "gcc"})
    _run("make config", d, log, env)
    san = "-fsanitize=address,bounds -fno-omit-frame-pointer"
    jail = os.path.join(d, "jail.o")
    _run("gcc -O1 -w -fPIC -c -o %s %s" % (jail, os.path.join(VERIF, "lib", "jail.c")), d, log, env)
    env2 = dict(env, CFLAGS="-O1 -g -w " + san, LDFLAGS="-O1 -g %s %s" % (san, jail), ASAN_OPTIONS="detect_leaks=0")
    for sub, j in (("microgettext", 8), ("libpbat", 8), ("libfasteval", 1), ("pbat", 8),
                   ("pbatize", 4), ("dump", 1), ("tea", 4), ("scripts", 1)):
        _run("make -j%d -C %s" % (j, sub), d, log, env2)
    for m in ("sample", "batbox"):
        _run("make -C modules/%s %s" % (m, m), d, log, env2)
    _run("make bin", d, log, env2)
    for f in ("pbat", "cmd/pbatize", "cmd/dump", "cmd/tea", "pBat_Auto.bat"):
        if not os.path.exists(os.path.join(d, "bin", f)):
            raise BuildError("missing bin/" + f)


MW = ("CC=x86_64-w64-mingw32-gcc AR=x86_64-w64-mingw32-ar RANLIB=x86_64-w64-mingw32-ranlib "
      "WINDRES=x86_64-w64-mingw32-windres EXEC_SUFFIX=.exe")


def _build_cu8(d, log):
    """Only libcu8 (mingw)."""
    env = _env(dict(x.split("=", 1) for x in MW.split()))
    _run("make config && make use-libcu8 && make no-modules", d, log, env)
    env["LDFLAGS"] = "-O2 -s -static"
    _run("make -j8 -C libcu8", d, log, env)


def _build_win(d, log):
    """The interpreter for Windows (mingw)."""
    env = _env(dict(x.split("=", 1) for x in MW.split()))
    _run("make config && make use-libcu8 && make no-modules", d, log, env)
    env["LDFLAGS"] = "-O2 -s -static"
    for sub, j in (("microgettext", 8), ("libpbat", 8), ("libfasteval", 1), ("libcu8", 8), ("pbat", 8)):
        _run("make -j%d -C %s" % (j, sub), d, log, env)
    if not os.path.exists(os.path.join(d, "pbat", "pbat.exe")):
        raise BuildError("missing pbat.exe")


BUILDERS = {"linux": _build_linux, "asan": _build_asan, "cu8": _build_cu8, "win": _build_win}


def build(variant="linux"):
    """Returns the directory holding the built tree of the given variant."""
    os.makedirs(CACHE, exist_ok=True)
    os.chmod(CACHE, 0o755)
    h = tree_hash()
    if variant == "asan":
        with open(os.path.join(VERIF, "lib", "jail.c"), "rb") as fd:
            h += hashlib.sha256(fd.read()).hexdigest()[:6]
    with open(os.path.join(CACHE, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(CACHE, "%s-%s" % (variant, h))
        if os.path.exists(os.path.join(d, ".ready")):
            return d
        # keep the cache small: drop older trees of this variant
        for x in os.listdir(CACHE):
            if x.startswith(variant + "-"):
                shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
        os.makedirs(d)
        log = os.path.join(CACHE, "build-%s.log" % variant)
        open(log, "w").close()
        _copy_tree(d)
        BUILDERS[variant](d, log)
        open(os.path.join(d, ".ready"), "w").close()
        return d


if __name__ == "__main__":
    for v in sys.argv[1:] or ["linux"]:
        print(v, build(v))
