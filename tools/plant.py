#!/usr/bin/env python3
"""Development helper: turns an edit of a scratch copy of /repo into seeded/<id>/ and tries the checks on it.

  plant.py try <id> [check...]   build the scratch copy with the patch, run the demo on both trees and the checks on the patched one
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PLANT_W", "/tmp/plant")
R = os.environ.get("VF_REPO", "/repo")


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    if os.path.isdir(W):
        shutil.rmtree(W)
    os.makedirs(W)
    p = subprocess.Popen(["git", "-C", R, "archive", "HEAD"], stdout=subprocess.PIPE)
    subprocess.check_call(["tar", "x", "-C", W], stdin=p.stdout)
    sh("git", "init", "-q", cwd=W)
    sh("git", "config", "core.autocrlf", "false", cwd=W)
    sh("git", "add", "-A", "-f", cwd=W)
    sh("git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x", cwd=W)


def sub(f, old, new, n=1):
    p = os.path.join(W, f)
    s = open(p, newline="", encoding="latin-1").read()
    if "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == n, (f, s.count(old))
    open(p, "w", newline="", encoding="latin-1").write(s.replace(old, new))


def plant(id, prop, edits, demo, needs, breaks, checks=None):
    """edits: [(file, old, new)]"""
    copy()
    for e in edits:
        sub(*e)
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "patch.diff"), "wb") as f:
        f.write(subprocess.check_output(["git", "diff", "--no-color"], cwd=W))
    head = "#!/bin/bash\n# exit 0 when the property holds on the build of /repo, 1 otherwise\nB=${B:-/repo/_build/linux/bin}\nP=$B/pbat\nT=$(mktemp -d /tmp/demoXXXXXX) || exit 2\ntrap 'rm -rf \"$T\"' EXIT\ncd \"$T\" || exit 2\n"
    open(os.path.join(d, "demo.sh"), "w").write(head + demo.strip() + "\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return attempt(id, checks or [prop])


BASE = "6448c32"


def original(diff):
    """every removed line must be one of the original repository"""
    f, n, bad = None, 0, []
    for l in diff.split("\n"):
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("--- ") or l.startswith("+++ "): pass
        elif l.startswith("-"):
            b = subprocess.run(["git", "-C", R, "blame", "-s", "-l", "-L", "%d,%d" % (n, n), "HEAD", "--", f], stdout=subprocess.PIPE).stdout.decode("latin-1")
            if not b.lstrip("^").startswith(BASE): bad.append(b[:100])
            n += 1
        elif l.startswith(" "): n += 1
    return bad


def attempt(id, checks):
    d = os.path.join(V, "seeded", id)
    copy()
    r = sh("git", "apply", os.path.join(d, "patch.diff"), cwd=W)
    if r.returncode:
        print(id, "patch does not apply", r.stdout)
        return False
    bad = original(open(os.path.join(d, "patch.diff"), encoding="latin-1").read())
    if bad:
        print(id, "<<<<<< changes lines that are not original:", bad)
    env = dict(os.environ, VF_REPO=W, VF_CACHE=W + "cache", VF_NOEV="1")
    v = os.environ.get("PLANT_VARIANT", "linux")
    r = sh(sys.executable, os.path.join(V, "lib/build.py"), v, env=env)
    if r.returncode:
        print(id, "DOES NOT BUILD", r.stdout[-2000:])
        return False
    B = r.stdout.split()[-1] + "/bin"
    r0 = sh(sys.executable, os.path.join(V, "lib/build.py"), v)
    B0 = r0.stdout.split()[-1] + "/bin"
    a = sh("timeout", "300", "bash", os.path.join(d, "demo.sh"), env=dict(os.environ, B=B0, L=B0[:-4] + "/libcu8"))
    b = sh("timeout", "300", "bash", os.path.join(d, "demo.sh"), env=dict(os.environ, B=B, L=B[:-4] + "/libcu8"))
    print(id, "demo: unchanged %d, patched %d%s" % (a.returncode, b.returncode, "" if a.returncode == 0 and b.returncode else "   <<<<<< BAD DEMO " + a.stdout[-500:] + b.stdout[-500:]))
    res = {}
    for c in checks:
        r = sh("timeout", "800", sys.executable, os.path.join(V, "checks", c + ".py"), "quick", env=dict(env, VERIF_SEED="1"))
        res[c] = r.returncode
        print("   ", c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + c in r.stdout else "<<<<<< MISSED", "|", [l for l in r.stdout.split("\n") if l.startswith("--- ")][-1:])
    sys.stdout.flush()
    return res


if __name__ == "__main__":
    ids = [sys.argv[1]] if sys.argv[1] != "all" else sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        attempt(i, sys.argv[2:] or [m["property"]])
