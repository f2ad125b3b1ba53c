#!/usr/bin/env python3
"""Single source of the property list; writes properties.jsonl, MANIFEST.json and checks.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), state=(), observe=(), units=None, na=None, note="", theorems=(), trusted=(), assumptions=(), bounded="", rule=None, driver="driver", extra=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over), state=list(state), observe=list(observe), units=units, na=na, note=note, theorems=list(theorems), trusted=list(trusted), assumptions=list(assumptions), bounded=bounded, rule=rule, driver=driver))
PM = "rust/pact_models/src/"
exec(open(os.path.join(HERE, "tools/props_data.py")).read())
def design(ck):
    """DESIGN.md = tools/design.md with the per-property parts filled in from the property data and the seeded bugs"""
    import glob
    t = open(f"{HERE}/tools/design.md").read(); props, na, seeds, fixed = [], [], [], []
    for p in P:
        if p["units"] is None: na.append(f"* **{p['id']} {p['title']}**: {p['na']}"); continue
        fns = "; ".join(f"{a} ({b.replace(PM, '')})" for a, b in p["mech"])
        props.append(f"### {p['id']} {p['title']}\n\n*Quantified over* {p['text']}. *Why tests cannot settle it:* {p['why']}\n\n*Under contract:* {fns}. *Units:* {', '.join('`'+u+'`' for u in p['units'])}. *Theorems:* {', '.join('`'+x+'`' for x in p['theorems']) or '(the contracts themselves)'}.\n\n{p['note']}" + (f"\n\n*Bounded, by the driver only:* {p['bounded']}." if p["bounded"] else "") + (f"\n\n*Assumes:* {'; '.join(p['assumptions'])}." if p["assumptions"] else "") + (f"\n\n{p['extra']}" if p.get("extra") else ""))
    res = json.load(open(f"{HERE}/tools/seed_results.json")) if os.path.exists(f"{HERE}/tools/seed_results.json") else {}
    for d in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); seeds.append(f"* **{i}** ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']} Caught by: {res.get(i, m['property'] + ' (driver)')}.")
    for l in open(f"{HERE}/known_findings.txt"):
        if l.startswith("fixed:"): _, pr, c, r = l.split(" ", 3); fixed.append(f"* `{c}` ({pr.split('=')[1]}) {r.strip()}")
    for k, v in (("@@PROPS@@", "\n\n".join(props)), ("@@NA@@", "\n".join(na)), ("@@SEEDS@@", "\n".join(seeds)), ("@@FIXED@@", "\n".join(fixed))): t = t.replace(k, v)
    open(f"{HERE}/DESIGN.md", "w").write(t)
def main():
    ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
    P.sort(key=lambda p: p["id"])
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]], "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    ck = {}
    man = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none", "enable": "no hooks: the checks build an unmodified copy of the sources", "source_commits": []}, "checks": [], "not_applicable": [],
      "notes": "Each check: Verus on functions extracted mechanically from /repo (units/*.vx, tools/vx) plus a driver running the real code against an executable oracle. See DESIGN.md."}
    for p in P:
        if p["units"] is None:
            assert p["na"], p["id"]; man["not_applicable"].append({"property": p["id"], "reason": p["na"]}); continue
        ck[p["id"]] = {"units": p["units"], "theorems": p["theorems"], "trusted": p["trusted"], "assumptions": p["assumptions"], "bounded": p["bounded"], "driver": p["driver"]}
        if p["rule"]: ck[p["id"]]["rule"] = p["rule"]
        e = {"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}", "evidence_file": f"evidence/{p['id']}.json",
             "technique": "contract-based deductive verification (Verus/Z3) of functions extracted from the real source; driver on the real code for failing inputs", "level": "proof", "level_note": p["note"]}
        if p["theorems"]: e["theorems"] = p["theorems"]
        man["checks"].append(e)
    design(ck)
    json.dump(man, open(f"{HERE}/MANIFEST.json", "w"), indent=1); json.dump(ck, open(f"{HERE}/checks.json", "w"), indent=1)
main()
