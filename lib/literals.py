"""Integer, character and string literals of the library's sources. They are hints for inputs, nothing more: the ones
that data/literals.json (the tree the specification was written against) does not have are tried more often."""
import glob, json, os, re
from collections import Counter


def files(repo):
    fs = glob.glob(f"{repo}/source/*.?xx") + glob.glob(f"{repo}/interface/*.?xx") + glob.glob(f"{repo}/interface/*/*.?xx") + \
        glob.glob(f"{repo}/source/bits*/*.cxx") + glob.glob(f"{repo}/mkUnicodeTestData/*.?xx")
    return {os.path.relpath(f, repo): f for f in sorted(fs)}


def of_text(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    strs = Counter(); out = []
    def s(m):
        strs[m[1]] += 1; return " "
    t = re.sub(r"//[^\n]*", "", t)
    vals = Counter()
    for h in re.findall(r"\\[uUx]([0-9a-fA-F]{2,8})", t): vals[int(h, 16)] += 1
    u = re.sub(r'"((?:\\.|[^"\\\n])*)"', s, t)
    for c in re.findall(r"'(\\?.)'", u):
        if len(c) == 1: vals[ord(c)] += 1
    for h in re.findall(r"\b0[xX]([0-9a-fA-F']+)", u): vals[int(h.replace("'", ""), 16)] += 1
    for h in re.findall(r"\b0[bB]([01']+)", u): vals[int(h.replace("'", ""), 2)] += 1
    for h in re.findall(r"(?<![\w.'])(\d[\d']*)[uUlL]*\b(?!')", u): vals[int(h.replace("'", ""))] += 1
    # what is written as an expression of two literals
    for a, op, b in re.findall(r"\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\s*(<<|\*|\+|-)\s*(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b", u):
        x, y = int(a, 0) if not re.fullmatch(r"0\d+", a) else int(a, 8), int(b, 0) if not re.fullmatch(r"0\d+", b) else int(b, 8)
        r = x << y if op == "<<" and y < 40 else x * y if op == "*" else x + y if op == "+" else x - y if op == "-" else 0
        vals[r] += 1
    return {v: n for v, n in vals.items() if 0 < v < 2 ** 32}, dict(strs)


def scan(repo):
    res = {}
    for rel, f in files(repo).items():
        try: v, s = of_text(open(f, errors="replace").read())
        except OSError: continue
        res[rel] = {"v": v, "s": s}
    return res


def novel(repo, base):
    """Literals there are more of than in the base, per file."""
    vs, ss = set(), set()
    for rel, x in scan(repo).items():
        b = base.get(rel, {"v": {}, "s": {}})
        vs |= {v for v, n in x["v"].items() if n > b["v"].get(str(v), 0)}
        ss |= {v for v, n in x["s"].items() if n > b["s"].get(v, 0)}
    return sorted(vs), sorted(ss)
