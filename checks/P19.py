"""COPY against a reference model of the tree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, copymove

FAMS = [vf.Family("copy", lambda s: copymove.gen(s, False), copymove.run, 15000, 250000, show=copymove.show)]

if __name__ == "__main__":
    sys.exit(vf.main("P19", FAMS, rule="several commands, or one which selects several files or a tree, asks, concatenates or copies a file onto itself"))
