"""Chains of commands, blocks and error levels against a reference interpreter."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, flow


def gen(s):
    c = flow.make(s, False)
    c["nontrivial"] = bool({"skipped", "mixed operators", "chained block", "chained if", "chained for"} & set(c["tags"]))
    return c


FAMS = [vf.Family("chains", gen, flow.run, 10000, 200000, show=flow.show)]

if __name__ == "__main__":
    sys.exit(vf.main("P13", FAMS, rule="a case is non-trivial when an operator skips a command, or operators are mixed or join blocks, IFs or FORs"))
