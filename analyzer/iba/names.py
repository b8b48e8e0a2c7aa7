"""Names of private items are nobody's business but the code's own: a tree in which one was renamed throughout means
what it meant before.  The rules speak of some private items by the name they have in the committed inventory
(names.json, written by tools/names.py); here a private item of the analysed tree that is missing from the inventory's
place and whose place is taken by an item of the same shape under a name the crate never used is given its old name
back, consistently in the whole crate.  A consistent renaming to an unused name changes no meaning, so whatever is
matched here, what is analysed afterwards is equivalent to the tree that was read."""
import json, os, re

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "names.json")
W = re.compile(r"\b[A-Za-z_]\w*\b")


def text(x):
    return json.dumps(x)


def words(x):
    return set(W.findall(text(x)))


def items_of(items, place=""):
    """(kind, place, name, shape, item) of every named item; shape is what has to agree for two items to be the same"""
    for it in items:
        k = it[0]
        if k == "fn":
            yield "fn", place, it[2], text([[p[1] for p in it[5]], it[6]]), it
        elif k == "items":
            yield from items_of(it[2], place)
        elif k == "mod" and it[4] is not None:
            yield from items_of(it[4], place + "::" + it[2])
        elif k == "impl" and not it[3]:
            st = it[2].split("<")[0]
            for x in it[5]:
                if x[0] == "fn":
                    yield "fn", place + "/" + st, x[2], text([[p[1] for p in x[5]], x[6]]), x
                elif x[0] == "const":
                    yield "const", place + "/" + st, x[2], text(x[3]), x
        elif k == "structdef":
            yield "struct", place, it[2], text([f[1] for f in it[4]]).replace(it[2], "Self"), it
        elif k == "enumdef":
            yield "enum", place, it[2], text([[v[0], [f[:2] for f in v[1]]] for v in it[4]]).replace(it[2], "Self"), it
        elif k == "trait":
            yield "trait", place, it[2], text(sorted(x[2] for x in it[4])), it
        elif k == "const":
            yield "const", place, it[2], text(it[3]), it


def params(it):
    return [p[0][1] if p[0][0] == "pid" else "_" for p in it[5]]


def body_words(it):
    return words(it[7]) if it[0] == "fn" else words(it[4]) if it[0] == "const" else words(it[4])


def inventory(data, crate_of, private):
    """data: file -> items; private(file, kind, name): may this name be changed without anyone outside noticing"""
    inv = {}
    for f, items in sorted(data.items()):
        if isinstance(items, dict):
            continue
        c = crate_of(f)[0]
        if c is None:
            continue
        d = inv.setdefault(c, {"words": set(), "items": [], "fields": {}, "params": {}})
        d["words"] |= words(items)
        for kind, place, name, shape, it in items_of(items):
            if private(f, kind, name):
                d["items"].append([kind, f + place, name, shape, " ".join(sorted(body_words(it)))])
                if kind == "fn":
                    d["params"].setdefault(f + place + "/" + name, []).append(params(it))
            if kind == "struct":
                fs = [[x[0], x[1], bool(private(f, "field", x[0]))] for x in it[4]]
                if any(x[2] and x[0] and not x[0].isdigit() for x in fs):
                    d["fields"][f + place + "::" + name] = fs
    for d in inv.values():
        d["words"] = " ".join(sorted(d["words"]))
    return inv


def like(a, b):
    return len(a & b) / max(1, len(a | b))


def restore(data, crate_of):
    """the trees with renamed private items under their old names; returns the renamings that were undone"""
    if not os.path.exists(FILE):
        return []
    inv = json.load(open(FILE))
    per = {}
    for f, items in data.items():
        if isinstance(items, dict):
            continue
        c = crate_of(f)[0]
        if c in inv:
            per.setdefault(c, []).append(f)
    undone = []
    for c, fs in per.items():
        d = inv[c]
        old = set(d["words"].split())
        if not any(words(data[f]) - old for f in fs):
            continue
        for kinds in (("struct", "enum", "trait"), ("field",), ("const",), ("fn",)):
            m = {}
            cur = {}
            for f in fs:
                for kind, place, name, shape, it in items_of(data[f]):
                    cur.setdefault((kind, f + place), {})[name] = (shape, it)
            present = set()
            for f in fs:
                present |= words(data[f])
            if kinds == ("field",):
                for k, bf in d["fields"].items():
                    place, sn = k.rsplit("::", 1)
                    got = cur.get(("struct", place), {}).get(sn)
                    if not got:
                        continue
                    cf = [(x[0], x[1]) for x in got[1][4]]
                    names = {x[0] for x in cf}
                    gone = [x for x in bf if x[0] not in names]
                    new = [x for x in cf if x[0] not in {y[0] for y in bf}]
                    for n, ty, priv in gone:
                        cands = [x for x in new if x[1] == ty]
                        if len(cands) > 1:
                            at = [x[0] for x in bf].index(n)
                            cands = [x for x in cands if at < len(cf) and cf[at] == x]
                        if priv and len(cands) == 1 and cands[0][0] not in old:
                            m[cands[0][0]] = n
            else:
                gone, new = {}, {}
                base = {}
                for kind, place, name, shape, bw in d["items"]:
                    if kind in kinds and name not in cur.get((kind, place), {}):
                        gone.setdefault((kind, place), []).append((name, shape, set(bw.split())))
                for k, l in gone.items():
                    # a name the crate used nowhere
                    cands = [(n, s, body_words(it)) for n, (s, it) in cur.get(k, {}).items() if n not in old]
                    pairs = []
                    for name, shape, bw in l:
                        for n, s, w in cands:
                            if s == shape:
                                pairs.append((like(bw - {name}, w - {n}), name, n))
                    pairs.sort(key=lambda p: -p[0])
                    used = set()
                    for sc, name, n in pairs:
                        only = len(l) == 1 and len([x for x in pairs if x[1] == name]) == 1 and k[0] != "fn"
                        if name in used or n in used or sc < 0.4 and not only:
                            continue
                        used |= {name, n}
                        if n not in m:
                            m[n] = name
            # two names must not become one
            m = {n: o for n, o in m.items() if list(m.values()).count(o) == 1}
            if not m:
                continue
            rx = re.compile(r"\b(" + "|".join(map(re.escape, sorted(m))) + r")\b")
            for f in fs:
                t = text(data[f])
                t2 = rx.sub(lambda x: m[x.group(1)], t)
                if t2 != t:
                    data[f] = json.loads(t2)
            undone += ["%s %s: %s is %s" % (c, "/".join(kinds), n, o) for n, o in sorted(m.items())]
    return undone


def gone(ix, crates=("bitcoin", "interbtc_primitives", "btc_swap")):
    """ids of private functions of the inventory that the tree no longer has (moved, merged or inlined, not just renamed)"""
    if not os.path.exists(FILE):
        return set()
    inv = json.load(open(FILE))
    out = set()
    for c in crates:
        for kind, place, name, shape, bw in inv.get(c, {"items": []})["items"]:
            if kind != "fn":
                continue
            f, _, rest = place.partition(".rs")
            if "/" in rest:
                q = rest.rsplit("/", 1)[1]
            else:
                ms = [x for x in rest.split("::") if x and x != "pallet"]
                stem = os.path.basename(f)
                q = ms[-1] if ms else "" if stem in ("lib", "main", "mod") else stem
            fid = "::".join([c] + ([q] if q else []) + [name])
            l = ix.by_id.get(fid)
            if not l:
                out.add(fid)
            elif len(l) == 1:
                # the same name with other parameters is another function
                now = [p[0][1] if p[0][0] == "pid" else "_" for p in l[0].params]
                was = inv[c]["params"][place + "/" + name][0]
                if text([[p[1] for p in l[0].params], l[0].ret]) != shape or now != was and sorted(now) == sorted(was):
                    out.add(fid)
    return out
