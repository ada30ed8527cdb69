#!/usr/bin/env python3
"""Literals of the library's sources that the tree these checks were written for does not have.

Run as a program, records the literals of /repo in literals.json.  The checks take the literals that are new since (in
number, per file) as values of particular interest when they generate inputs: a size, a code unit, a name that the code
singles out is then met by the workloads, where chance would hardly find it.  Nothing is decided by them: an input made
of them is judged by the same oracles as any other, and without new literals the workloads are what they always are."""
import collections, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
INT = r"0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*"
SUF = r"(?:[ui](?:8|16|32|64|128|size))?"
TOK = re.compile(r"//[^\n]*|/\*.*?\*/|b?r#+\".*?\"#+|b?\"(?:\\.|[^\"\\])*\"|b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])'|(?<![\w.])(?:" + INT + r")(?:\.\d+)?(?:[eE][+-]?\d+)?(?:f32|f64|" + SUF + r")?(?!\w)", re.S)
OPER = re.compile(r"(?<![\w.])(" + INT + ")" + SUF + r"\s*(<<|\*|\+|-)\s*(" + INT + ")" + SUF + r"(?![\w.])")
def num(s):
    s = s.replace("_", "")
    try: return int(s, 0) if not re.fullmatch(r"0\d+", s) else int(s)
    except ValueError: return None
def unesc(s):
    s = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(int(m[1].replace("_", ""), 16)), s)
    s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: chr(int(m[1], 16)), s)
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m[1], m[1]), s, flags=re.S)
def of(text):
    n, s = collections.Counter(), collections.Counter()
    code = []
    for m in TOK.finditer(text):
        t = m[0]
        if t.startswith(("//", "/*")): continue
        if t[0] == '"' or t.startswith('b"'):
            x = unesc(t[t.index('"') + 1:-1])
            if 0 < len(x) <= 60: s[x] += 1
        elif t[0] == "'" or t.startswith("b'"):
            x = unesc(t[t.index("'") + 1:-1])
            if len(x) == 1: n[ord(x)] += 1
        elif not t.startswith(("r", "br")):
            m2 = re.match("(" + INT + ")" + SUF + "$", t)
            if m2 and (v := num(m2[1])) is not None and v < 1 << 64: n[v] += 1
            else:
                try: n[int(float(re.sub("_|f32|f64", "", t)))] += 1
                except (ValueError, OverflowError): pass
    text = re.sub(r"//[^\n]*", "", text)
    for u, b, e in re.findall(r"\b([ui])(8|16|32|64)::(MAX|MIN)\b", text):
        if u == "i" or e == "MAX": n[(1 << int(b)) - 1 if u == "u" else (1 << int(b) - 1) - (e == "MAX")] += 1
    for a, o, b in OPER.findall(text):
        a, b = num(a), num(b)
        if a is None or b is None: continue
        v = a << b if o == "<<" and b < 64 else a * b if o == "*" else a + b if o == "+" else a - b if o == "-" else -1
        if 0 <= v < 1 << 64: n[v] += 1
    return n, s
def scan(repo):
    out = {}
    for d in ("src", "wtf8/src", "coffer_macros/src"):
        for base, dirs, files in os.walk(os.path.join(repo, d)):
            dirs[:] = sorted(x for x in dirs if x != "tests")
            for f in sorted(files):
                if not f.endswith(".rs"): continue
                p = os.path.join(base, f)
                n, s = of(open(p, errors="replace").read())
                out[os.path.relpath(p, repo)] = [dict((str(k), v) for k, v in sorted(n.items())), dict(sorted(s.items()))]
    return out
def fresh(repo):
    """(numbers, texts) the sources have more often, in some file, than when they were recorded"""
    try: old = json.load(open(os.path.join(H, "literals.json")))
    except OSError: return [], []
    n, s = collections.Counter(), collections.Counter()
    for f, (a, b) in scan(repo).items():
        oa, ob = old.get(f, [{}, {}])
        for k, v in a.items():
            if v > oa.get(k, 0): n[int(k)] += 1
        for k, v in b.items():
            if v > ob.get(k, 0): s[k] += 1
    return sorted(n)[:64], sorted(s)[:64]
if __name__ == "__main__":
    json.dump(scan("/repo"), open(os.path.join(H, "literals.json"), "w"), indent=0, sort_keys=True)
    print(fresh("/repo"))
