"""Whole-repository index built from the rsfront syntax trees: crates, modules, functions, types, storage, constants."""
import json, os, re, subprocess, glob, tomllib
from iba import terms as tm
from iba import names as nm

HERE = os.path.dirname(os.path.abspath(__file__))
FRONT = os.path.join(HERE, "..", "front")

SKIP = re.compile(r"(^|/)(tests?|mock|benchmarking|default_weights|weights|target|integration-tests|runtime-tests|fuzz)(\.rs|/)")
ROOTS = ["crates", "primitives", "contracts", "parachain", "rpc"]


class AnalysisError(Exception):
    pass


def front_bin():
    b = os.path.join(FRONT, "target", "release", "rsfront")
    src = [os.path.join(FRONT, "src", f) for f in ("main.rs", "macros.rs")] + [os.path.join(FRONT, "Cargo.toml")]
    if not os.path.exists(b) or any(os.path.getmtime(s) > os.path.getmtime(b) for s in src):
        r = subprocess.run(
            ["cargo", "build", "--release", "--offline", "--quiet"],
            cwd=FRONT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env={k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN")},
        )
        if r.returncode != 0 and not os.path.exists(b):
            raise AnalysisError("front end does not build:\n" + r.stdout.decode())
    return b


def split_generics(s):
    """split top-level comma list inside <...>"""
    out, d, cur = [], 0, ""
    prev = ""
    for c in s:
        if c in "<([{":
            d += 1
        elif c in ">)]}" and prev != "-":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
        prev = c
    if cur:
        out.append(cur)
    return out


def parse_type(s):
    """returns (base last-segment path list, generic arg strings)"""
    s = s.strip()
    while True:
        m = re.match(r"^(&|mut |'[a-z_]+ ?|dyn |impl |ref |\*const |\*mut )", s)
        if not m:
            break
        s = s[m.end():].strip()
    if s.startswith("<"):
        # <A as B>::C
        d = 0
        for i, c in enumerate(s):
            if c == "<":
                d += 1
            elif c == ">" and s[i - 1] != "-":
                d -= 1
                if d == 0:
                    return ([s[: i + 1]] + [x for x in s[i + 1:].split("::") if x], [])
    i = s.find("<")
    if i < 0:
        return ([x for x in s.split("::") if x], [])
    base = s[:i]
    j = s.rfind(">")
    return ([x for x in base.split("::") if x], split_generics(s[i + 1: j]))


class Fn:
    __slots__ = ("crate", "mod", "self_ty", "self_full", "trait", "name", "params", "ret", "body", "attrs", "file", "line",
                 "vis", "generics", "impl_attrs", "is_call")

    @property
    def id(self):
        q = self.self_ty if self.self_ty and self.self_ty != "Pallet" else ""
        if self.trait and self.self_ty == "Pallet":
            q = parse_type(self.trait)[0][-1]
        if not self.self_ty and self.mod:
            ms = [m for m in self.mod if m not in ("pallet",)]
            q = ms[-1] if ms else ""
        return "::".join([self.crate] + ([q] if q else []) + [self.name])

    def __repr__(self):
        return "<fn %s %s:%s>" % (self.id, self.file, self.line)


class Mod:
    def __init__(self, crate, path, file):
        self.crate, self.path, self.file = crate, path, file
        self.uses = {}
        self.globs = []
        self.items = {}  # name -> kind
        self.line = 0


class Index:
    def __init__(self, root="/repo"):
        self.root = root
        self.files = []
        self.fns = []
        self.by_id = {}
        self.by_name = {}
        self.mods = {}
        self.structs = {}  # (crate,name) -> [(field, ty)]
        self.enums = {}  # (crate,name) -> [variant names]
        self.enum_fields = {}
        self.field_attrs = {}
        self.enum_attrs = {}
        self.type_attrs = {}
        self.enum_discr = {}
        self.consts = {}  # (crate, container, name) -> (ty, expr, mod)
        self.storage = {}  # (crate,name) -> dict
        self.getters = {}  # (crate, fn) -> storage name
        self.types = {}  # (crate,name) -> ty string
        self.traits = {}
        self.impls = []
        self.macroitems = []
        self.config_impls = {}
        self.pkg = {}
        self.load()
        self.gone = nm.gone(self)
        u, o = set(), set()
        for l in list(self.structs.values()) + [f for e in self.enum_fields.values() for f in e.values()]:
            for n, ty in l:
                (u if ty and ty.replace(" ", "") in tm.UNSIGNED else o).add(n)
        tm.UFIELDS.clear()
        tm.UFIELDS.update(x for x in u - o if x and not x.isdigit())

    def load(self):
        files = []
        pkgs = []
        for r in ROOTS:
            for toml in glob.glob(os.path.join(self.root, r, "**", "Cargo.toml"), recursive=True):
                if "/target/" in toml:
                    continue
                try:
                    doc = tomllib.load(open(toml, "rb"))
                except Exception:
                    continue
                if "package" not in doc:
                    continue
                lib = doc.get("lib", {})
                d = os.path.dirname(toml)
                name = lib.get("name", doc["package"]["name"]).replace("-", "_")
                pth = lib.get("path")
                srcroot = os.path.dirname(os.path.join(d, pth)) if pth else os.path.join(d, "src")
                if not os.path.isdir(srcroot) and os.path.exists(os.path.join(d, "lib.rs")):
                    srcroot = d
                pkgs.append((os.path.relpath(srcroot, self.root), name))
        pkgs.sort(key=lambda x: -len(x[0]))
        self.pkgs = pkgs
        names = [p[1] for p in pkgs]
        self.crates = set(names)
        for r in ROOTS:
            for f in glob.glob(os.path.join(self.root, r, "**", "*.rs"), recursive=True):
                rel = os.path.relpath(f, self.root)
                if SKIP.search(rel):
                    continue
                files.append(rel)
        files.sort()
        out = subprocess.run([front_bin(), self.root] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if out.returncode != 0:
            raise AnalysisError("front end failed: " + out.stderr.decode()[-2000:])
        data = json.loads(out.stdout)
        self.parse_errors = {}
        self.renamed = nm.restore(data, self.crate_of)
        for f, items in data.items():
            if isinstance(items, dict):
                self.parse_errors[f] = items["error"]
                continue
            crate, rel = self.crate_of(f)
            if crate is None:
                continue
            parts = rel[:-3].split("/")
            if parts[-1] in ("lib", "mod", "main"):
                parts = parts[:-1]
            self.files.append(f)
            self.add_items(items, crate, tuple(parts), f)

    def crate_of(self, f):
        for d, n in self.pkgs:
            if f.startswith(d + "/"):
                return n, f[len(d) + 1:]
        return None, None

    def mod(self, crate, path, file):
        k = (crate, path)
        if k not in self.mods:
            self.mods[k] = Mod(crate, path, file)
        return self.mods[k]

    def add_fn(self, it, crate, path, file, self_ty=None, self_full=None, trait=None, impl_attrs=()):
        f = Fn()
        _, f.line, f.name, f.attrs, f.vis, f.params, f.ret, f.body, f.generics = it
        f.crate, f.mod, f.file = crate, path, file
        f.self_ty, f.self_full, f.trait = self_ty, self_full, trait
        f.impl_attrs = impl_attrs
        f.is_call = any(a.startswith("pallet::call") for a in impl_attrs)
        self.fns.append(f)
        self.by_id.setdefault(f.id, []).append(f)
        self.by_name.setdefault(f.name, []).append(f)
        return f

    def add_items(self, items, crate, path, file):
        m = self.mod(crate, path, file)
        for it in items:
            k = it[0]
            if k == "fn":
                self.add_fn(it, crate, path, file)
                m.items[it[2]] = "fn"
            elif k == "items":
                self.add_items(it[2], crate, path, file)
            elif k == "use":
                for p, n in it[2]:
                    if n == "*":
                        m.globs.append(p)
                    else:
                        m.uses[n] = p
            elif k == "mod":
                m.items[it[2]] = "mod"
                if it[4] is not None:
                    self.add_items(it[4], crate, path + (it[2],), file)
            elif k == "impl":
                st, tr, attrs = it[2], it[3], it[4]
                base = parse_type(st)[0]
                bn = base[-1] if base else st
                self.impls.append((crate, path, bn, st, tr, file, it[1], it[5]))
                for x in it[5]:
                    if x[0] == "fn":
                        self.add_fn(x, crate, path, file, bn, st, tr, attrs)
                    elif x[0] == "const":
                        self.consts[(crate, bn, x[2])] = (x[3], x[4], m)
                    elif x[0] == "type" and tr:
                        self.config_impls[(crate, tr, bn, x[2])] = x[3]
            elif k == "trait":
                m.items[it[2]] = "trait"
                self.traits[(crate, it[2])] = it[4]
                for x in it[4]:
                    if x[0] == "fn":
                        self.add_fn(x, crate, path, file, it[2], it[2], "trait:" + it[2])
            elif k == "structdef":
                m.items[it[2]] = "struct"
                self.structs[(crate, it[2])] = [(f[0], f[1]) for f in it[4]]
                self.field_attrs[(crate, it[2])] = {f[0]: f[2] for f in it[4]}
                self.type_attrs[(crate, it[2])] = it[3]
            elif k == "enumdef":
                m.items[it[2]] = "enum"
                self.enums[(crate, it[2])] = [v[0] for v in it[4]]
                self.type_attrs[(crate, it[2])] = it[3]
                self.enum_fields[(crate, it[2])] = {v[0]: [(f[0], f[1]) for f in v[1]] for v in it[4]}
                self.enum_attrs[(crate, it[2])] = {v[0]: v[3] for v in it[4]}
                self.enum_discr[(crate, it[2])] = {v[0]: v[2] for v in it[4]}
            elif k == "const":
                m.items[it[2]] = "const"
                self.consts[(crate, path[-1] if path else "", it[2])] = (it[3], it[4], m)
            elif k == "paramtypes":
                for x in it[2] or []:
                    self.consts[(crate, path[-1] if path else "", x[2])] = (x[3], x[4], m)
            elif k == "type":
                m.items[it[2]] = "type"
                attrs = it[4]
                if any(a.startswith("pallet::storage") and not a.startswith("pallet::storage_version") for a in attrs):
                    self.add_storage(crate, it, attrs, m)
                else:
                    self.types[(crate, it[2])] = it[3]
            elif k == "macroitem":
                self.macroitems.append((crate, path, it[2], it[4], file, it[1]))

    def add_storage(self, crate, it, attrs, m):
        name, ty = it[2], it[3]
        base, args = parse_type(ty)
        kind = base[-1]
        if kind == "CountedStorageMap":
            kind = "StorageMap"
        args = args[1:]
        keys, val, query = [], None, None
        if kind == "StorageValue":
            val = args[0]
            query = args[1] if len(args) > 1 else "OptionQuery"
        elif kind == "StorageMap":
            keys, val = [args[1]], args[2]
            query = args[3] if len(args) > 3 else "OptionQuery"
        elif kind == "StorageDoubleMap":
            keys, val = [args[1], args[3]], args[4]
            query = args[5] if len(args) > 5 else "OptionQuery"
        elif kind == "StorageNMap":
            keys = [args[0]]
            val = args[1]
            query = args[2] if len(args) > 2 else "OptionQuery"
        q = "value" if query and query.split("<")[0].endswith("ValueQuery") else "option"
        if query and query.startswith("ResultQuery"):
            q = "result"
        self.storage[(crate, name)] = dict(kind=kind, keys=keys, val=val, query=q, name=name, crate=crate)
        for a in attrs:
            g = re.match(r"pallet::getter\(fn (\w+)\)", a)
            if g:
                self.getters[(crate, g.group(1))] = name
        m.items[name] = "storage"

    # ------------------------------------------------------------ lookup
    def fn(self, fid):
        l = self.by_id.get(fid)
        if not l:
            return None
        l2 = [f for f in l if f.body is not None]
        return (l2 or l)[0]

    def find_fns(self, crate=None, name=None, self_ty=None, trait=None):
        r = self.by_name.get(name, []) if name else self.fns
        return [f for f in r if (crate is None or f.crate == crate) and (self_ty is None or f.self_ty == self_ty)
                and (trait is None or (f.trait and parse_type(f.trait)[0][-1] == trait))]


_expr_cache = {}


def parse_exprs(lines):
    need = [l for l in lines if l not in _expr_cache]
    if need:
        out = subprocess.run([front_bin(), "--expr"], input="\n".join(need).encode() + b"\n", stdout=subprocess.PIPE)
        res = out.stdout.decode().splitlines()
        for l, r in zip(need, res):
            _expr_cache[l] = json.loads(r)
    return [_expr_cache[l] for l in lines]


def parse_expr(s):
    return parse_exprs([s])[0]
