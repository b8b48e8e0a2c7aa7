"""Writes properties.jsonl and MANIFEST.json from props.py and the registered rules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "analyzer")]
import props, check
from iba.rules import PROPS as RULES
check.load_rules()
ids = [p["id"] for p in props.PROPS]
assert len(ids) == len(set(ids)), "duplicate ids"
assert set(RULES) <= set(ids), "rules without property: %s" % (set(RULES) - set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        for fn in p["files"]:
            assert os.path.exists(os.path.join("/repo", fn)), fn
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = None
        f.write(json.dumps(d) + "\n")
na = dict(props.NA)
NOTE = ("Decides the listed rules on every path of the analysed functions, as written today; it follows same-crate calls, treats other crates' functions as events and "
        "assumes external crates behave as documented. Constructs it cannot interpret are reported as undecided in the evidence, neither proved nor alarmed.")
checks, rest = [], []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    i = p["id"]
    if i in RULES and i not in na:
        checks.append(dict(property=i, quick_cmd="python3 analyzer/check.py " + i, thorough_cmd="python3 analyzer/check.py " + i,
                           technique=props.TECH, level="other", level_note=p["note"] or NOTE))
    else:
        assert i in na, "no rule and no reason: " + i
        rest.append(dict(property=i, reason=na[i]))
json.dump(dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=rest,
               notes="All checks read /repo's current sources; none runs code of /repo. No hooks are needed."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(rest), "not applicable")
