"""GOTO, CALL and EXIT against a reference interpreter."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, flow


def gen(s):
    c = flow.make(s, True)
    c["nontrivial"] = bool({"jump", "call label", "call script", "run script"} & set(c["tags"]))
    return c


FAMS = [vf.Family("flow", gen, flow.run, 24000, 500000, show=flow.show)]

if __name__ == "__main__":
    sys.exit(vf.main("P14", FAMS, rule="a case is non-trivial when its script jumps, calls or runs another script"))
