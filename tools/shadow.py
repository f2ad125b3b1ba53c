#!/usr/bin/env python3
"""Copy /repo/rust/pact_models to DEST so that it builds natively with what is installed here.
Mechanical edits only: every cfg on target_family = "wasm" is taken as true (the variant the
repository's own test set-up compiles), dev-dependencies are dropped, [workspace] is added.
Files whose content is unchanged are not rewritten, so cargo rebuilds only what changed."""
import os, re, sys
def put(path, text):
    if isinstance(text, str): text = text.encode()
    try:
        if open(path, "rb").read() == text: return
    except OSError: pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(text)
def main(repo, dest):
    src = os.path.join(repo, "rust/pact_models"); seen = set()
    for top in ("src", "tzdata", "build.rs", "README.md"):
        p = os.path.join(src, top)
        files = [p] if os.path.isfile(p) else [os.path.join(d, n) for d, _, ns in os.walk(p) for n in ns]
        for f in files:
            rel = os.path.relpath(f, src); data = open(f, "rb").read()
            if rel.endswith(".rs") and rel.startswith("src"):
                data = data.decode().replace('target_family = "wasm"', "all()").encode()
            put(os.path.join(dest, rel), data); seen.add(rel)
    m = open(os.path.join(src, "Cargo.toml")).read()
    m = re.sub(r"(?ms)^\[target\.'cfg\(not\(target_family = \"wasm\"\)\)'\.dependencies\]\n.*?(?=^\[|\Z)", "", m)
    m = m.replace("[target.'cfg(target_family = \"wasm\")'.dependencies]\n", "[target.'cfg(all())'.dependencies]\n")
    m = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", m)
    put(os.path.join(dest, "Cargo.toml"), m + "\n[workspace]\n"); seen.add("Cargo.toml")
    for d, _, ns in os.walk(dest):
        for n in ns:
            p = os.path.join(d, n)
            if os.path.relpath(p, dest) not in seen: os.remove(p)
if __name__ == "__main__": main(sys.argv[1], sys.argv[2])
