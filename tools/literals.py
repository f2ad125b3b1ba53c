#!/usr/bin/env python3
"""literals.py REPO OUT [--base FILE]: the string, character and integer literals of the non-test code, as a
dictionary for the drivers' generators (what a fuzzer calls a dictionary). With --base, the ones not in FILE are
listed again under "new": the generators try those more often. What a case must satisfy never depends on them."""
import json, os, re, sys
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", '"': '"'}
def unesc(s): 
    s = re.sub(r"\\\n\s*", "", s)
    def f(m):
        g = m.group(1)
        if g[0] == "u":
            try: return chr(int(g[2:-1].replace("_", ""), 16))
            except (ValueError, OverflowError): return ""
        if g[0] == "x": return chr(int(g[1:], 16))
        return ESC.get(g, g)
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)", f, s)
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(?P<h>#*)"(?P<raw>.*?)"(?P=h)|b?"(?P<s>(?:[^"\\]|\\.)*)"|b?'(?P<c>[^'\\\n]|\\(?:u\{[^}]*\}|x..|.))'|'\w+|(?<![\w.])(?P<n>0x[0-9a-fA-F_]+|\d[\d_]*)''', re.S)
def scan(repo):
    S, N = set(), set(); root = os.path.join(repo, "rust/pact_models/src")
    for d, _, ns in os.walk(root):
        for n in sorted(ns):
            if not n.endswith(".rs") or n.endswith("tests.rs"): continue
            t = open(os.path.join(d, n), errors="replace").read()
            t = re.split(r"#\[cfg\(test\)\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?mod ", t)[0]
            for m in TOK.finditer(t):
                if m.group("raw") is not None: S.add(m.group("raw"))
                elif m.group("s") is not None: S.add(unesc(m.group("s")))
                elif m.group("c") is not None: S.add(unesc(m.group("c")))
                elif m.group("n") is not None:
                    v = int(m.group("n").replace("_", ""), 0) if not re.match(r"0\d", m.group("n")) else int(m.group("n").replace("_", ""))
                    if v < 2**64: N.add(v)
    return {"strings": sorted(x for x in S if 0 < len(x) <= 40), "numbers": sorted(N)}
if __name__ == "__main__":
    r = scan(sys.argv[1])
    if "--base" in sys.argv:
        b = json.load(open(sys.argv[sys.argv.index("--base") + 1]))
        r["new_strings"] = [x for x in r["strings"] if x not in set(b["strings"])]; r["new_numbers"] = [x for x in r["numbers"] if x not in set(b["numbers"])]
    new = json.dumps(r, indent=0)
    try:
        if open(sys.argv[2]).read() == new: sys.exit(0)
    except OSError: pass
    open(sys.argv[2], "w").write(new)
