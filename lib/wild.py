"""The wildcards of picobat: * any characters, ? exactly one, letters in either case."""
import re
import vf


def fold(c): return c.upper() if ord(c) < 128 else c


def naive(p, n, fold=fold):
    """what the wildcards p select, by definition"""
    ok = [[False] * (len(n) + 1) for _ in range(len(p) + 1)]
    ok[len(p)][len(n)] = True
    for i in range(len(p) - 1, -1, -1):
        for j in range(len(n), -1, -1):
            if p[i] == "*": ok[i][j] = ok[i + 1][j] or (j < len(n) and ok[i][j + 1])
            else: ok[i][j] = j < len(n) and (p[i] == "?" or fold(p[i]) == fold(n[j])) and ok[i + 1][j + 1]
    return ok[0][0]


def first(p, n, fold=fold):
    """the same where * takes as little as it can and never more (documented: no backtracking)"""
    i = j = 0
    while i < len(p):
        if p[i] == "*":
            lit = re.match(r"[^*?]*", p[i + 1:]).group(0)
            if not lit: return i + 1 == len(p)
            if i + 1 + len(lit) == len(p):
                t = n[j:]
                return len(t) >= len(lit) and "".join(map(fold, t[len(t) - len(lit):])) == "".join(map(fold, lit))
            k = "".join(map(fold, n)).find("".join(map(fold, lit)), j)
            if k < 0: return False
            i, j = i + 1 + len(lit), k + len(lit)
            continue
        if j >= len(n) or not (p[i] == "?" or fold(p[i]) == fold(n[j])): return False
        i, j = i + 1, j + 1
    return j == len(n)


def match(p, n, fold=fold):
    """rejects the cases whose answer depends on backtracking"""
    a, b = naive(p, n, fold), first(p, n, fold)
    if a != b: raise vf.Reject()
    return a


def mutate(s, n, others=("a", "é", "本", ".")):
    """a wildcard made from a name"""
    out = []
    i = 0
    while i < len(n):
        k = s.weighted([(7, "same"), (2, "?"), (3, "*"), (1, "*0"), (1, "other"), (1, "case")])
        if k == "same": out.append(n[i])
        elif k == "?": out.append("?")
        elif k == "*":
            out.append("*")
            i += s.rand(1, 4) - 1
        elif k == "*0":
            out.append("*")
            continue
        elif k == "other": out.append(s.choice(others))
        else: out.append(n[i].swapcase() if n[i].isascii() else n[i])
        i += 1
    p = "".join(out)
    return re.sub(r"[*?]*\*[*?]*", "*", p)
