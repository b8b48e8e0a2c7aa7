#!/usr/bin/env python3
"""Writes analyzer/names.json: the private items of /repo's tree, by place and shape (see analyzer/iba/names.py)."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analyzer"))
from iba import index, names

root = sys.argv[1] if len(sys.argv) > 1 else "/repo"
got = {}
names.restore = lambda data, crate_of: got.update(data=dict(data)) or []
names.gone = lambda ix: set()
ix = index.Index(root)
src = {}


def private(f, kind, name):
    t = src.get(f)
    if t is None:
        t = src[f] = open(os.path.join(root, f)).read()
    if kind == "field":
        return not re.search(r"\bpub\s+%s\s*:" % re.escape(name or "0"), t)
    kw = {"fn": r"(?:(?:const|unsafe|async)\s+)*fn", "const": "(?:const|static)"}.get(kind, kind)
    return not re.search(r"\bpub\s+%s\s+%s\b" % (kw, re.escape(name)), t)


inv = names.inventory(got["data"], ix.crate_of, private)
json.dump(inv, open(names.FILE, "w"), indent=0, sort_keys=True)
print(len(inv), "crates", sum(len(d["items"]) for d in inv.values()), "private items")
