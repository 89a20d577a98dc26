"""MOVE and REN against a reference model of the tree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import posixpath
import vf, copymove
from fsmodel import *


def gen_ren(s):
    fs = gen_fs(s)
    case = {"tree": dump(fs), "cmds": [], "optional": [], "tags": set()}
    for _ in range(s.rand(1, 5)):
        k = s.weighted([(6, "file"), (2, "dir"), (1, "missing"), (1, "none"), (1, "one"), (1, "wild")])
        names = [p for p in fs.n if p and (fs.isdir(p) if k == "dir" else fs.isfile(p))] if k in ("file", "dir") else ["nope", "d/nope"]
        if not names: raise vf.Reject()
        src = s.choice(names)
        if k == "wild": src = "*.txt"
        new = s.choice(["n1", "n2.txt", "new name", posixpath.basename(src), "d", "Zed"] + NAMES + ["sub/x", "./n1"])
        if wild(new): new = "n1"
        q = lambda p: '"%s"' % p if " " in p or s.bool(10) else p
        t = s.choice(["ren", "REN", "rename", "Rename"])
        case["tags"].add("ren " + k)
        if k == "none": ok = False
        elif k == "one": t, ok = t + " " + q(src), False
        else:
            t += " " + q(src) + " " + q(new)
            dst = posixpath.join(posixpath.dirname(src), new)
            if "/" in new or not fs.exists(src): ok = False
            elif dst == src: ok = True
            elif fs.exists(dst):
                case["tags"].add("exists")
                ok = False
            else:
                ok = True
                for p in [p for p in fs.n if p == src or p.startswith(src + "/")]:
                    fs.n[dst + p[len(src):]] = fs.n.pop(p)
        case["cmds"].append([t, "", ok])
    case["tags"] = sorted(case["tags"])
    case["exp"] = expect(fs)
    case["nontrivial"] = any(c[2] for c in case["cmds"])
    return case


FAMS = [vf.Family("move", lambda s: copymove.gen(s, True), copymove.run, 10000, 200000, show=copymove.show),
        vf.Family("ren", gen_ren, copymove.run, 4000, 60000, show=copymove.show)]

if __name__ == "__main__":
    sys.exit(vf.main("P20", FAMS, rule="move: several commands, or one which selects several files or a tree, asks, concatenates or copies a file onto itself; ren: at least one name changes"))
