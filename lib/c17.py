"""C17: the macro accepts the declarations that follow its rules, with the
documented result, and rejects those that break one.

Valid declarations are generated at random and compiled, many modules at a time;
those that compile are run through a check of what the macro made of them.
Invalid ones are a valid declaration that did compile plus one rule broken.
"""
import concurrent.futures, copy, json, os, random, re, subprocess, sys

FIXED_INTS = ["u32", "i32", "u64", "i64", "u128", "i128"]
BULK = ["u8", "i8", "bool", "u16", "u32", "u64", "u128", "i16", "i32", "i64", "i128", "f32", "f64"]

# type, a value of it
PLAIN = [
    ("u8", "9"), ("i8", "-9"), ("u16", "900"), ("i16", "-900"), ("u32", "90000"), ("i32", "-90000"), ("u64", "1 << 40"),
    ("i64", "-1 << 40"), ("u128", "1 << 100"), ("i128", "-1 << 100"), ("usize", "70000"), ("isize", "-7"), ("bool", "true"),
    ("char", "'x'"), ("f32", "1.5"), ("f64", "-2.5"), ("::std::string::String", "\"abc\".into()"),
    ("::std::option::Option<u32>", "::std::option::Option::Some(4)"), ("::std::vec::Vec<u8>", "[1, 2, 3].into()"),
    ("::std::vec::Vec<::std::string::String>", "[\"q\".into()].into()"), ("(u8, ::std::string::String)", "(3, \"t\".into())"),
    ("::std::boxed::Box<u64>", "5.into()"), ("[u8; 4]", "[4, 3, 2, 1]"),
    ("::std::collections::BTreeMap<u32, ::std::string::String>", "[(1, \"m\".into())].into()"),
    ("::std::collections::HashMap<::std::string::String, u16>", "[(\"m\".into(), 1)].into()"),
    ("::std::collections::BTreeSet<i64>", "[-4].into()"), ("::std::collections::HashSet<u8>", "[4].into()"),
    ("crate::Nested", "crate::Nested { a: 300, b: \"n\".into() }"), ("crate::Choice", "crate::Choice::Two(77)"),
    ("::std::option::Option<::std::boxed::Box<crate::Nested>>", "::std::option::Option::None"),
    ("::std::vec::Vec<crate::Choice>", "[crate::Choice::One].into()"),
]
FIXED_SIZE = {"u8": 1, "i8": 1, "bool": 1, "f32": 4, "f64": 8, "[u8; 4]": 4}
INDEXED = {
    "indexed_map": [("::std::collections::BTreeMap<u32, crate::Nested>", "[(1, crate::Nested { a: 1, b: \"\".into() })].into()"),
                    ("::std::collections::HashMap<::std::string::String, u16>", "[(\"m\".into(), 1)].into()")],
    "indexed_seq": [("::std::vec::Vec<::std::string::String>", "[\"q\".into(), \"\".into()].into()"), ("::std::vec::Vec<u32>", "[1, 2].into()")],
    "indexed_set": [("::std::collections::BTreeSet<i64>", "[-4].into()"),
                    ("::std::collections::HashSet<::std::string::String>", "[\"x\".into()].into()")],
}
NAMES = ["a", "b", "c", "id", "reader", "writer", "revision", "value", "tag", "len", "buf", "bytes", "cursor", "wire_rev", "slice", "err",
         "walker", "this", "body", "payload", "offset", "offsets", "start", "end", "size", "variant", "disc", "discriminant", "repr",
         "field", "fields", "object", "x", "y", "z9", "_under", "__double", "name", "key", "v", "e", "r", "w", "f", "n", "out", "index",
         "scratch", "r#type", "r#match", "r#fn", "r#move", "r#ref", "r#use", "r#struct", "r#in", "r#loop", "r#async", "r#try", "r#where",
         "naïve", "a1", "camelCase", "UPPER", "default", "convert", "optimised", "skip", "walk", "serialize", "deserialize", "revisioned"]
VNAMES = ["A", "B", "Cee", "DeeDee", "HTTP", "Some", "Ok", "Err", "None", "Null", "Leaf", "Node", "Pair", "Z9", "X1", "Y2", "Self_",
          "Vec", "String", "Error", "Reader", "Fields", "lower", "r#type", "r#match", "Union", "Default", "Walker", "Wire", "Write",
          "Option", "Result", "Box", "Read", "U8", "Émile"]
TNAMES = ["T", "Item", "Error", "Result", "Option", "Vec", "String", "Box", "Ok2", "Walker", "Reader", "Writer", "Fields", "Revision",
          "R", "W", "Value", "SliceReader", "StructWalker", "LeafWalker", "r#Raw", "Ünïcode", "lower_case", "Cow", "Read", "Write",
          "Revisioned", "Default", "Clone", "Self_", "A", "B"]


def unraw(s):
    return s[2:] if s.startswith("r#") else s


def accessors(x):
    return {f"decode_{x}", f"skip_{x}", f"walk_{x}", f"into_walk_{x}", f"into_{x}_bytes"}


def clash(names):
    """Fields whose walker would have two methods of one name."""
    return len(set().union(*(accessors(unraw(x)) for x in names))) < 5 * len(names)


class Field:
    def __init__(self, name, ty, val, start=None, end=None, opts=None, vis=""):
        self.name, self.ty, self.val, self.start, self.end, self.vis = name, ty, val, start, end, vis
        self.opts = opts or []
        self.default = self.convert = None
        self.other = []

    def alive(self, r):
        return (self.start or 1) <= r and (self.end is None or r < self.end)


class Variant(Field):
    def __init__(self, name, kind, fields=()):
        super().__init__(name, "", "")
        self.kind, self.fields, self.size, self.discs, self.fields_name = kind, list(fields), None, {}, None


class Decl:
    def __init__(self):
        self.kind = "named"      # named, tuple, unit or enum
        self.name = "T"
        self.vis = "pub"
        self.entries = [[]]      # options of each revision
        self.history = []        # what is written of them
        self.place = "macro"     # where
        self.switches = {}       # name -> value
        self.on_macro, self.on_item = [], []   # switches as written
        self.fields, self.variants = [], []
        self.other = []          # other attributes
        self.local = False       # declared inside of a function
        self.generics = ""
        self.replace = None      # another item altogether
        self.scope = []          # other items around
        self.split = 0           # how attributes are laid out

    @property
    def n(self):
        return len(self.entries)

    def optimised(self, r=None):
        return any("optimised" in e for e in self.entries) if r is None else "optimised" in self.entries[r - 1]

    def all_fields(self):
        return [(None, f) for f in self.fields] + [(v, f) for v in self.variants for f in v.fields]

    def converts(self):
        return any(f.end for _, f in self.all_fields()) or any(v.end for v in self.variants)

    def on(self, what):
        d = self.switches
        if what in d:
            return d[what]
        return True if what in ("serialize", "deserialize") else self.on("deserialize")


def discriminants(d, r):
    """Explicit ones first, the others the lowest free in declaration order."""
    out = {v.name: v.discs[r] for v in d.variants if v.alive(r) and r in v.discs}
    used, nxt = set(out.values()), 0
    for v in d.variants:
        if v.alive(r) and v.name not in out:
            while nxt in used:
                nxt += 1
            used.add(nxt)
            out[v.name] = nxt
    return out


# ---------------------------------------------------------------- generation

class Gen:
    def __init__(self, rng):
        self.rng = rng

    def p(self, x):
        return self.rng.random() < x

    def decl(self):
        r = self.rng
        d = Decl()
        d.kind = r.choice(["named", "named", "named", "tuple", "unit"] + ["enum"] * 4) if not self.p(0.05) else "unit"
        d.name = r.choice(TNAMES) if self.p(0.5) else "T"
        d.vis = r.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", ""])
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5]) if not self.p(0.03) else r.choice([12, 40])
        style = r.choice(["legacy", "legacy", "optimised", "mixed", "mixed"])
        switch = r.randint(0, n - 1)
        d.entries = []
        for i in range(n):
            e = []
            if style == "optimised" or (style == "mixed" and i >= switch):
                e = ["optimised"]
                if d.kind != "enum" and self.p(0.4):
                    e.append("indexed_struct")
                if self.p(0.06):
                    e.append(r.choice(['map = "default"', 'seq = "default"']))
                r.shuffle(e)
            d.entries.append(e)
        opt = d.optimised()
        if not opt and self.p(0.6):
            d.history = [f"revision = {n}"]
        else:
            d.history = ["revision(" + ", ".join([str(i + 1)] + e) + (", " if e and self.p(0.1) else "") + ")" for i, e in enumerate(d.entries)]
        d.place = r.choice(["macro", "macro", "macro", "item"])
        removal = n > 1 and self.p(0.45)
        if d.kind == "enum":
            self.enum(d, n, opt, removal)
        elif d.kind != "unit":
            d.fields = self.fields(n, opt, removal, d.kind == "tuple", r.choice([0, 1, 1, 2, 3, 4, 6]), True)
            if d.kind == "named":
                for f in d.fields:
                    f.vis = r.choice(["", "pub ", "pub(crate) "])
            else:
                for f in d.fields:
                    f.vis = r.choice(["", "pub "])
        # which implementations to generate
        sw = {}
        x = r.random()
        if x < 0.08:
            sw["serialize"] = False
        elif x < 0.16:
            sw["deserialize"] = False
        elif x < 0.2:
            sw["serialize"] = sw["deserialize"] = False
        if self.p(0.1):
            sw["skip"] = False
        if self.p(0.1):
            sw["walk"] = False
        d.switches = sw
        if d.converts() and not (d.on("serialize") and d.on("deserialize")) and d.on("walk"):
            sw["walk"] = False
        for k in ("serialize", "deserialize", "skip", "walk"):
            if k not in sw and self.p(0.07) and (k in ("serialize", "deserialize") or d.on("deserialize")):
                sw[k] = True
        ks = list(sw)
        r.shuffle(ks)
        for k in ks:
            (d.on_macro if self.p(0.7) else d.on_item).append(f"{k} = {str(sw[k]).lower()}")
        d.split = r.randint(0, 2)
        d.local = self.p(0.1)
        if d.local or not d.vis.startswith("pub "):
            for _, f in d.all_fields():
                f.vis = "" if d.local else f.vis
        der = [x for x in ("Debug", "Clone", "PartialEq") if self.p(0.5)]
        if der:
            d.other.append(f"#[derive({', '.join('::std::prelude::v1::' + x if x != 'Debug' else '::std::fmt::Debug' for x in der)})]")
        if self.p(0.2):
            d.other.append("/// A documented type.")
        if self.p(0.1):
            d.other.append("#[allow(dead_code, unused)]")
        if self.p(0.05):
            d.other.append("#[must_use]")
        if d.kind == "enum" and self.p(0.2):
            d.other.append("#[derive(::std::prelude::v1::Default)]")
            next(v for v in d.variants if v.name == "Zero").other.append("#[default]")
        for x in [v for v in d.variants] + [f for _, f in d.all_fields()]:
            if self.p(0.06):
                x.other.append(r.choice(["/// documented", "#[allow(dead_code)]", "#[allow(unused)]"]))
        if self.p(0.15):
            d.scope.append(r.choice(["type Result<T> = ::std::result::Result<T, ()>;", "struct Error;", "struct Vec;", "struct Option;",
                                     "struct Box;", "struct Default;", "struct SliceReader;", "trait Read {}", "trait Write {}",
                                     "struct String;", "mod std {}", "mod revision {}", "mod core {}", "struct Cow;",
                                     "type Self_ = ();"]))
            if any(re.search(rf"\b{d.name}\b", s) for s in d.scope):
                d.scope = []
        shadowed = re.findall(r"struct (\w+)", " ".join(d.scope)) + [d.name]
        if self.p(0.15):
            # a nested type that goes by a name of the macro's own
            name = r.choice([x for x in ["R", "W", "Error", "Reader", "Walker", "T", "Fields", "Revision", "SliceReader", "A", "K", "V", "E", "F"]
                             if x not in shadowed])
            fs = [f for _, f in d.all_fields() if not set(f.opts) & {"fixed", "specialised", *INDEXED}]
            if fs and not any(v.size and v.size.startswith("fixed") for v in d.variants):
                f = r.choice(fs)
                f.ty, f.val = name, f"{name} {{ q: 7 }}"
                d.scope.append(f"#[::revision::revisioned(revision = 1)] #[derive(Debug, Clone, PartialEq, Default)] pub struct {name} {{ pub q: u8 }}")
        for _, f in d.all_fields():
            if "Vec" in shadowed and f.ty.startswith("Vec"):
                f.ty = "::std::vec::" + f.ty
        return d

    def ty(self, fixed=False):
        if fixed:
            t = self.rng.choice(sorted(FIXED_SIZE))
            return next(p for p in PLAIN if p[0] == t)
        return self.rng.choice(PLAIN)

    def fields(self, n, opt, removal, tuple_, m, struct, fixed=False):
        r = self.rng
        names = r.sample(NAMES, m)
        while clash(names):
            names = r.sample(NAMES, m)
        out = []
        for i in range(m):
            t, val = self.ty(fixed)
            opts = []
            if not fixed and not opt and self.p(0.2):
                if self.p(0.5):
                    t, val, opts = r.choice(FIXED_INTS), "11", ["fixed"]
                else:
                    t, val, opts = f"{r.choice(['', '::std::vec::'])}Vec<{r.choice(BULK)}>", "::std::vec::Vec::new()", ["specialised"]
            elif struct and opt and self.p(0.3):
                o = r.choice(sorted(INDEXED))
                (t, val), opts = r.choice(INDEXED[o]), [o]
            f = Field(str(i) if tuple_ else names[i], t, val, opts=opts)
            if n > 1 and not fixed:
                if self.p(0.35):
                    f.start = r.randint(2, n)
                    f.opts.append(f"start = {f.start}")
                    if self.p(0.4):
                        f.default = f"default_{i}"
                        f.opts.append(f'default_fn = "{f.default}"')
                if removal and (f.start or 1) < n and self.p(0.4):
                    f.end = r.randint((f.start or 1) + 1, n)
                    f.convert = f"convert_{i}"
                    f.opts += [f"end = {f.end}", f'convert_fn = "{f.convert}"']
            if self.p(0.04) and f.start is None:
                f.opts.append("start = 1")
            r.shuffle(f.opts)
            out.append(f)
        return out

    def enum(self, d, n, opt, removal):
        r = self.rng
        m = r.choice([0, 1, 2, 3, 4, 6]) if not self.p(0.08) else r.choice([20, 31])
        names = r.sample(VNAMES, min(m, 20)) + [f"V{i}" for i in range(20, m)]
        names = [x for x in names if x != d.name]
        vs = [Variant("Zero", "unit")]
        for i, name in enumerate(names):
            v = Variant(name, r.choice(["unit", "tuple", "tuple", "named", "named"]))
            if n > 1 and self.p(0.3):
                v.start = r.randint(2, n)
                v.opts.append(f"start = {v.start}")
            if removal and (v.start or 1) < n and self.p(0.3):
                v.end = r.randint((v.start or 1) + 1, n)
                v.convert = f"convert_v{i}"
                v.opts += [f"end = {v.end}", f'convert_fn = "{v.convert}"']
            fixed = opt and v.kind != "unit" and self.p(0.3)
            if v.kind != "unit":
                k = r.choice([0, 1, 1, 2, 3])
                v.fields = self.fields(n, opt, removal and v.end is None, v.kind == "tuple", k, False, fixed)
                for j, f in enumerate(v.fields):
                    for what in ("default", "convert"):
                        old = getattr(f, what)
                        if old:
                            new = f"{what}_v{i}_{j}"
                            setattr(f, what, new)
                            f.opts = [o.replace(f'"{old}"', f'"{new}"') for o in f.opts]
            if fixed:
                v.size = f"fixed({sum(FIXED_SIZE[f.ty] for f in v.fields)})"
            elif opt:
                v.size = "varlen" if v.fields or self.p(0.2) else "inline"
            vs.append(v)
            if self.p(0.1):
                v.fields_name = f"Renamed{i}"
                v.opts.append(f'fields_name = "{v.fields_name}"')
        if opt:
            vs[0].size = "inline"
        for v in vs:
            if v.size:
                v.opts.append(f'size = "{v.size}"')
        if self.p(0.3):
            r.shuffle(vs)
        for rev in range(1, n + 1):
            if not self.p(0.3):
                continue
            taken = set()
            for v in vs:
                x = r.choice([0, 1, 2, 3, 7, 30, 31] if opt else [0, 1, 2, 3, 31, 32, 250, 251, 65536, 4294967295])
                if v.alive(rev) and x not in taken and self.p(0.4):
                    taken.add(x)
                    v.discs[rev] = x
                    o = [f"revision = {rev}", f"discriminant = {x}"]
                    r.shuffle(o)
                    v.opts.append(f"override({', '.join(o)})")
        for v in vs:
            r.shuffle(v.opts)
        d.variants = vs


# ---------------------------------------------------------------- writing

def attrs(name, opts, split):
    if not opts:
        return ""
    if split == 0:
        return f"#[{name}({', '.join(opts)})] "
    if split == 1:
        return " ".join(f"#[{name}({o})]" for o in opts) + " "
    return f"#[{name}({', '.join(opts)},)] "


def fields_name(d, v):
    return v.fields_name or f"{unraw(d.name)}{unraw(v.name)}Fields"


def item(d):
    o = []
    macro, it = list(d.on_macro), list(d.on_item)
    (macro if d.place == "macro" else it).extend(d.history)
    o.append(f"#[::revision::revisioned({', '.join(macro)})]")
    o += [x for x in d.other]
    if it:
        o.append(attrs("revision", it, d.split))
    if d.replace:
        return o + [d.replace]

    def other(x):
        return "".join(y + ("\n" if y.startswith("//") else " ") for y in x.other)

    def fl(f, tuple_):
        a = other(f) + attrs("revision", f.opts, d.split)
        return f"{a}{f.vis}{f.ty}" if tuple_ else f"{a}{f.vis}{f.name}: {f.ty}"
    head = f"{d.vis}{'enum' if d.kind == 'enum' else 'struct'} {d.name}{d.generics}"
    if d.kind == "unit":
        o.append(head + ";")
    elif d.kind == "named":
        o.append(head + " {")
        o += [fl(f, False) + "," for f in d.fields]
        o.append("}")
    elif d.kind == "tuple":
        o.append(head + "(")
        o += [fl(f, True) + "," for f in d.fields]
        o.append(");")
    else:
        o.append(head + " {")
        for v in d.variants:
            a = other(v) + attrs("revision", v.opts, d.split)
            if v.kind == "unit":
                o.append(f"{a}{v.name},")
            elif v.kind == "named":
                o.append(f"{a}{v.name} {{ " + ", ".join(fl(f, False) for f in v.fields) + " },")
            else:
                o.append(f"{a}{v.name}(" + ", ".join(fl(f, True) for f in v.fields) + "),")
        o.append("}")
    return "\n".join(o).split("\n")


def methods(d):
    o = []
    res = "::std::result::Result"
    err = "::revision::Error"
    for v, f in d.all_fields():
        if f.default:
            o.append(f"fn {f.default}(_rev: u16) -> {res}<{f.ty}, {err}> {{ {res}::Ok({f.val}) }}")
        if f.convert:
            me = "&mut self" if v is None else f"_f: &mut {fields_name(d, v)}"
            o.append(f"fn {f.convert}({me}, _rev: u16, _v: {f.ty}) -> {res}<(), {err}> {{ {res}::Ok(()) }}")
    for v in d.variants:
        if v.convert:
            fs = [f for f in v.fields if f.alive(d.n)]
            fn = fields_name(d, v)
            pat = fn
            if v.kind == "named":
                pat = f"{fn} {{ {', '.join(f'{f.name}: _x{i}' for i, f in enumerate(fs))} }}"
            elif v.kind == "tuple":
                pat = f"{fn}({', '.join(f'_x{i}' for i in range(len(fs)))})"
            typed = " ".join(f"let _: {f.ty} = _x{i};" for i, f in enumerate(fs))
            o.append(f"fn {v.convert}(_f: {fn}, _rev: u16) -> {res}<Self, {err}> {{ let {pat} = _f; {typed} {res}::Ok(Self::Zero) }}")
    return o


def check_fn(d):
    """What the macro has to make of the declaration."""
    n, t = d.n, d.name
    o = []
    w = o.append
    w(f"    if <{t} as ::revision::Revisioned>::revision() != {n} || {t}::REVISION != {n} {{ return ::std::result::Result::Err(::std::format!(\"the revision is {{}}\", <{t} as ::revision::Revisioned>::revision())); }}")
    traits = [("serialize", "SerializeRevisioned"), ("deserialize", "DeserializeRevisioned"), ("skip", "SkipRevisioned"), ("walk", "WalkRevisioned")]
    for k, tr in traits:
        w(f"    if crate::has!({t}, ::revision::{tr}) != {str(d.on(k)).lower()} {{ return ::std::result::Result::Err(\"{tr} is implemented or not against the options\".into()); }}")
    if d.on("skip") and d.on("deserialize"):
        w(f"    if !crate::has!({t}, ::revision::SkipCheckRevisioned) {{ return ::std::result::Result::Err(\"SkipCheckRevisioned is missing\".into()); }}")

    def build(path, kind, fs, pre=""):
        ex = [f"{{ let x: {f.ty} = {f.val}; x }}" for f in fs]
        if kind == "unit":
            return path, path
        if kind == "named":
            return (f"{path} {{ {', '.join(f'{f.name}: {e}' for f, e in zip(fs, ex))} }}",
                    f"{path} {{ {', '.join(f'{f.name}: _{i}' for i, f in enumerate(fs))} }}".replace(": _", ": _p"))
        return f"{path}({', '.join(ex)})", f"{path}({', '.join(f'_p{i}' for i in range(len(fs)))})"
    vals = []
    if d.kind == "enum":
        vs = [v for v in d.variants if v.alive(n)]
        arms = []
        for v in vs:
            e, pat = build(f"{t}::{v.name}", v.kind, [f for f in v.fields if f.alive(n)])
            vals.append(e)
            arms.append(f"{pat} => {{}}")
        w(f"    #[allow(unused)] fn exact(x: {t}) {{ match x {{ {', '.join(arms)} }} }}")
    else:
        e, pat = build(t, d.kind, [f for f in d.fields if f.alive(n)])
        vals.append(e)
        w(f"    #[allow(unused)] fn exact(x: {t}) {{ let {pat} = x; }}")
    for e in vals:
        w(f"    {{ let x = {e};")
        if d.on("serialize"):
            w("    let b = crate::str_err(::revision::to_vec(&x))?;")
            if d.on("deserialize"):
                w(f"    let y: {t} = crate::str_err(::revision::from_slice(&b))?;")
                w("    let c = crate::str_err(::revision::to_vec(&y))?;")
                w("    if b != c { return ::std::result::Result::Err(::std::format!(\"{b:?} comes back as {c:?}\")); }")
            if d.on("skip"):
                w(f"    let mut r: &[u8] = &b; crate::str_err(<{t} as ::revision::SkipRevisioned>::skip_revisioned(&mut r))?;")
                w("    if !r.is_empty() { return ::std::result::Result::Err(\"skipping stops early\".into()); }")
            if d.on("walk"):
                w(f"    let mut r: &[u8] = &b; crate::str_err(<{t} as ::revision::WalkRevisioned>::walk_revisioned(&mut r).map(|_| ()))?;")
        w("    drop(x); }")
    if d.on("walk"):
        rows = []
        if d.kind == "enum":
            for q in range(1, n + 1):
                ds = discriminants(d, q)
                rows.append("&[" + ", ".join(f'("{unraw(v.name)}", {ds[v.name]})' for v in d.variants if v.alive(q)) + "]")
            w(f"    crate::variants(&[{', '.join(rows)}], {t}::walk_revisioned_variant_table, {t}::walk_revisioned_variant_name)?;")
        else:
            for q in range(1, n + 1):
                rows.append("&[" + ", ".join(f'"{unraw(f.name)}"' for f in d.fields if f.alive(q)) + "]")
            w(f"    crate::fields(&[{', '.join(rows)}], {t}::walk_revisioned_field_names)?;")
    w("    ::std::result::Result::Ok(())")
    return o


def module(d, name, check=True):
    """The declaration in a module of its own, as lines."""
    o = [f"pub mod {name} {{"] + list(d.scope)
    decl = item(d)
    ms = methods(d) if not d.replace else []
    if ms:
        decl += ["#[allow(unused)]", f"impl {d.name} {{"] + ms + ["}"]
    sig = "pub fn check() -> ::std::result::Result<(), ::std::string::String> {"
    if d.local:
        o += [sig] + decl + (check_fn(d) if check else ["::std::result::Result::Ok(())"]) + ["}"]
    else:
        o += decl
        if check:
            o += [sig] + check_fn(d) + ["}"]
    o.append("}")
    return "\n".join(o).split("\n")


PRELUDE = '''#![allow(warnings)]
#[::revision::revisioned(revision = 1)]
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Nested { pub a: u32, pub b: String }
#[::revision::revisioned(revision = 1)]
#[derive(Debug, Clone, PartialEq, Default)]
pub enum Choice { #[default] One, Two(u64) }
pub fn str_err<T>(r: Result<T, ::revision::Error>) -> Result<T, String> { r.map_err(|e| e.to_string()) }
macro_rules! has { ($t:ty, $tr:path) => {{
    struct __Probe<T: ?Sized>(::std::marker::PhantomData<T>);
    trait __Fallback { const HAS: bool = false; }
    impl<T: ?Sized> __Fallback for __Probe<T> {}
    impl<T: ?Sized + $tr> __Probe<T> { const HAS: bool = true; }
    <__Probe<$t>>::HAS
}} }
pub(crate) use has;
pub fn fields(rows: &[&[&str]], names: impl Fn(u16) -> &'static [&'static str]) -> Result<(), String> {
    for (i, want) in rows.iter().enumerate() {
        let got = names(i as u16 + 1);
        if got != *want { return Err(format!("the fields of revision {} are {got:?} instead of {want:?}", i + 1)); }
    }
    Ok(())
}
pub fn variants(rows: &[&[(&str, u32)]], table: impl Fn(u16) -> &'static [(&'static str, u32)],
                name: impl Fn(u16, u32) -> Option<&'static str>) -> Result<(), String> {
    for (i, want) in rows.iter().enumerate() {
        let rev = i as u16 + 1;
        let (mut a, mut b): (Vec<_>, Vec<_>) = (table(rev).to_vec(), want.to_vec());
        a.sort(); b.sort();
        if a != b { return Err(format!("the variants of revision {rev} are {a:?} instead of {b:?}")); }
        for (n, d) in *want {
            if name(rev, *d) != Some(n) { return Err(format!("discriminant {d} of revision {rev} is {:?} instead of {n:?}", name(rev, *d))); }
        }
    }
    Ok(())
}
'''.splitlines()


# ---------------------------------------------------------------- breaking one rule

RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


class Skip(Exception):
    """The rule has no place in this declaration."""


def some(r, xs):
    xs = list(xs)
    if not xs:
        raise Skip
    return r.choice(xs)


def put(r, opts, o):
    opts.insert(r.randint(0, len(opts)), o)


def as_entries(d):
    d.history = ["revision(" + ", ".join([str(i + 1)] + e) + ")" for i, e in enumerate(d.entries)]


def macro_or_item(d, r):
    return r.choice([d.on_macro, d.on_item])


def history_list(d):
    """The list next to which the history is written."""
    return d.on_macro if d.place == "macro" else d.on_item


@rule
def no_revision(d, r):
    d.history = []


@rule
def revision_zero(d, r):
    if d.history[0].startswith("revision ="):
        d.history = ["revision = 0"]
    else:
        d.history[0] = d.history[0].replace("revision(1", "revision(0", 1)
        if r.random() < 0.5:
            put(r, d.history, "revision(1)")


@rule
def revision_gap(d, r):
    as_entries(d)
    if d.n == 1:
        d.history = [d.history[0].replace("revision(1", f"revision({r.choice([2, 3, 100])}", 1)]
    else:
        d.history.pop(r.randint(0, d.n - 2))


@rule
def revision_jump(d, r):
    as_entries(d)
    d.history[-1] = d.history[-1].replace(f"revision({d.n}", f"revision({d.n + r.choice([1, 2, 65535, 70000])}", 1)


@rule
def revision_repeated(d, r):
    as_entries(d)
    k = r.randint(1, d.n)
    put(r, d.history, r.choice([d.history[k - 1], f"revision({k})"]))


@rule
def revision_mixed(d, r):
    as_entries(d)
    put(r, d.history, f"revision = {d.n}")


@rule
def revision_set_twice(d, r):
    d.history = [f"revision = {d.n}", f"revision = {r.choice([d.n, d.n, 1])}"]
    if d.optimised():
        raise Skip


@rule
def revision_in_two_places(d, r):
    x = d.on_item if d.place == "macro" else d.on_macro
    if d.optimised() or r.random() < 0.5:
        x.extend("revision(" + ", ".join([str(i + 1)] + e) + ")" for i, e in enumerate(d.entries))
    else:
        x.append(f"revision = {d.n}")


@rule
def revision_too_large(d, r):
    if d.optimised():
        raise Skip
    d.history = [f"revision = {r.choice([65536, 65537, 70000])}"]


@rule
def revision_malformed(d, r):
    d.history = [r.choice(["revision", "revision = \"1\"", "revision = -1", "revision()", "revision(optimised, 1)", "revision = 1.0",
                           "revision(1; optimised)", "revision(1 optimised)", "revision(\"1\")", "revision: 1"])]


@rule
def entry_option_repeated(d, r):
    as_entries(d)
    k = some(r, [i for i, e in enumerate(d.entries) if e])
    o = r.choice(d.entries[k])
    d.history[k] = d.history[k][:-1] + ", " + o + ")"


@rule
def form_without_optimised(d, r):
    as_entries(d)
    k = some(r, [i for i, e in enumerate(d.entries) if not e])
    if d.kind == "enum":
        raise Skip
    d.history[k] = d.history[k][:-1] + ", indexed_struct)"


@rule
def entry_form_unknown(d, r):
    as_entries(d)
    k = some(r, [i for i, e in enumerate(d.entries) if not any("=" in x for x in e)])
    d.history[k] = d.history[k][:-1] + ", " + r.choice(['map = "indexed"', 'seq = "indexed"', 'map = "other"', 'seq = ""', 'map = "Default"']) + ")"


@rule
def entry_option_unknown(d, r):
    as_entries(d)
    k = r.randint(0, d.n - 1)
    d.history[k] = d.history[k][:-1] + ", " + r.choice(["optimized", "indexed", "legacy", "indexed_map", "encoding = \"optimised\"", "fixed",
                                                          "optimised = true", "set = \"default\"", "walk = false", "indexed_structs"]) + ")"


@rule
def item_option_unknown(d, r):
    put(r, macro_or_item(d, r), r.choice(["optimised", "serialise = true", "default", "start = 1", "encoding = \"optimised\"", "version = 1",
                                          "indexed_struct", "skip", "serialize", "walk = \"no\"", "deserialize = 0", "convert_fn = \"x\""]))


@rule
def switch_repeated(d, r):
    k = r.choice(["serialize", "deserialize", "skip", "walk"])
    v = str(d.on(k)).lower()
    here = [o for o in d.on_macro + d.on_item if o.startswith(k + " ")]
    for _ in range(2 - len(here)):
        put(r, macro_or_item(d, r), f"{k} = {v}")


@rule
def walk_needs_both(d, r):
    """Walking converted values needs both directions."""
    if not d.converts():
        raise Skip
    d.on_macro, d.on_item = [], []
    x = r.choice(["serialize = false", "deserialize = false", "both"])
    for o in (["serialize = false", "deserialize = false"] if x == "both" else [x]):
        put(r, macro_or_item(d, r), o)
    if x != "serialize = false" or r.random() < 0.5:
        put(r, macro_or_item(d, r), "walk = true")


@rule
def generic(d, r):
    g = r.choice(["<A>", "<'a>", "<const N: usize>"])
    ty = {"<A>": "::std::marker::PhantomData<A>", "<'a>": "::std::marker::PhantomData<&'a ()>", "<const N: usize>": "[u8; N]"}[g]
    d.generics = g
    if d.kind == "named":
        d.fields.append(Field("phantom", ty, ""))
    elif d.kind == "enum":
        d.variants.append(Variant("Phantom", "tuple", [Field("0", ty, "")]))
        if d.optimised():
            d.variants[-1].opts.append('size = "varlen"')
    elif d.kind == "tuple":
        d.fields.append(Field(str(len(d.fields)), ty, ""))
    else:
        raise Skip


@rule
def not_a_type(d, r):
    d.replace = r.choice(["fn f() {}", "trait F {}", "union F { a: u8 }", "mod f {}", "const F: u8 = 0;", "type F = u8;", "impl Clone for F {}",
                          "use std::fmt;", "static F: u8 = 0;"])
    d.other = []


def members(d, variants=True, fields=True):
    out = []
    if fields:
        out += [(v, f) for v, f in d.all_fields()]
    if variants:
        out += [(None, v) for v in d.variants if v.name != "Zero"]
    return out


@rule
def start_too_late(d, r):
    v, f = some(r, [(v, f) for v, f in members(d) if f.start])
    x = d.n + r.choice([1, 1, 2, 60000, 70000])
    f.opts = [f"start = {x}" if o.startswith("start =") else o for o in f.opts]


@rule
def start_too_late_added(d, r):
    v, f = some(r, [(v, f) for v, f in members(d) if not any(o.startswith("start") for o in f.opts)])
    put(r, f.opts, f"start = {d.n + r.choice([1, 1, 2, 60000])}")


@rule
def end_too_late(d, r):
    v, f = some(r, [(v, f) for v, f in members(d) if f.end])
    x = d.n + r.choice([1, 1, 2, 60000])
    f.opts = [f"end = {x}" if o.startswith("end =") else o for o in f.opts]


@rule
def end_without_conversion(d, r):
    v, f = some(r, [(v, f) for v, f in members(d) if f.end])
    f.opts = [o for o in f.opts if not o.startswith("convert_fn")]


@rule
def end_added(d, r):
    """As the above, where nothing else is removed."""
    v, f = some(r, [(v, f) for v, f in members(d) if not f.end and (f.start or 1) < d.n])
    put(r, f.opts, f"end = {r.randint((f.start or 1) + 1, d.n)}")


@rule
def conversion_missing(d, r):
    """The function named does not exist."""
    v, f = some(r, [(v, f) for v, f in members(d) if f.end and any(f.alive(q) and (v is None or v.alive(q)) for q in range(1, d.n))])
    if not d.on("deserialize"):
        raise Skip
    f.opts = ['convert_fn = "no_such_function"' if o.startswith("convert_fn") else o for o in f.opts]


@rule
def default_missing(d, r):
    v, f = some(r, [(v, f) for v, f in d.all_fields() if f.default and f.alive(d.n) and (v is None or v.alive(d.n)) and f.start > ((v.start if v else 1) or 1)])
    if not d.on("deserialize"):
        raise Skip
    f.opts = ['default_fn = "no_such_function"' if o.startswith("default_fn") else o for o in f.opts]


@rule
def member_option_repeated(d, r):
    v, f = some(r, [(v, f) for v, f in members(d) if [o for o in f.opts if not o.startswith("override")]])
    put(r, f.opts, r.choice([o for o in f.opts if not o.startswith("override")]))


@rule
def member_option_repeated_differently(d, r):
    v, f = some(r, [(v, f) for v, f in members(d) if [o for o in f.opts if "=" in o and not o.startswith("override")]])
    k = r.choice([o for o in f.opts if "=" in o and not o.startswith("override")]).split(" ")[0]
    put(r, f.opts, {"start": "start = 1", "end": f"end = {d.n}", "convert_fn": 'convert_fn = "other"', "default_fn": 'default_fn = "other"',
                    "fields_name": 'fields_name = "Other"', "size": 'size = "varlen"'}[k])


@rule
def two_indexed_kinds(d, r):
    v, f = some(r, [(v, f) for v, f in d.all_fields() if any(o.startswith("indexed_") for o in f.opts)])
    have = next(o for o in f.opts if o.startswith("indexed_"))
    put(r, f.opts, r.choice([o for o in INDEXED if o != have]))


@rule
def fixed_on_other_types(d, r):
    v, f = some(r, [(v, f) for v, f in d.all_fields() if not d.optimised() and "fixed" not in f.opts and "specialised" not in f.opts
                    and f.alive(d.n) and (v is None or v.alive(d.n)) and not f.default and (d.on("serialize") or d.on("deserialize"))])
    f.ty = r.choice(["::std::string::String", "bool", "u16", "u8", "i16", "usize", "isize", "f32", "f64", "::std::option::Option<u32>", "::core::primitive::u32",
                     "crate::Nested", "(u32,)", "::std::vec::Vec<u32>", "[u8; 4]", "::std::boxed::Box<u64>", "char", "Vec<u64>"])
    put(r, f.opts, "fixed")


@rule
def specialised_on_other_types(d, r):
    v, f = some(r, [(v, f) for v, f in d.all_fields() if not d.optimised() and "fixed" not in f.opts and "specialised" not in f.opts
                    and f.alive(d.n) and (v is None or v.alive(d.n)) and not f.default and (d.on("serialize") or d.on("deserialize"))])
    f.ty = r.choice(["Vec<::std::string::String>", "u32", "[u8; 4]", "Vec<usize>", "Vec<isize>", "Vec<char>", "::std::option::Option<Vec<u8>>", "Vec<Vec<u8>>",
                     "::std::collections::BTreeSet<u8>", "Vec<crate::Nested>", "::std::string::String", "Vec<(u8, u8)>", "Vec<Option<u8>>"])
    put(r, f.opts, "specialised")


@rule
def field_option_unknown(d, r):
    v, f = some(r, d.all_fields())
    put(r, f.opts, r.choice(["foo", "size = \"inline\"", "begin = 1", "fields_name = \"X\"", "override(revision = 1)", "optimised", "indexed",
                             "skip", "default = \"x\"", "start", "start(1)", "start = \"1\"", "end = 1.5", "indexed_map = true", "fixed = true",
                             "indexed_struct", "revision = 1", "convert_fn = x", "default_fn = x", "start = -1"]))


@rule
def variant_option_unknown(d, r):
    v = some(r, d.variants)
    put(r, v.opts, r.choice(["foo", "fixed", "indexed_map", "specialised", "discriminant = 3", "optimised", "start", "start = \"1\"", "size = inline",
                             "override = 3", "override(3)", "override(revision = 1, tag = 3)", "index = 1", "revision = 1", "start = -1"]))


@rule
def size_unknown(d, r):
    v = some(r, [v for v in d.variants if v.size])
    bad = r.choice(["tiny", "", "fixed", "fixed()", "fixed(256)", "fixed(300)", "fixed(-1)", "fixed(a)", "Inline", "fixed 3", "fixed(1", "var len",
                    "fixed(1.0)", "indexed"])
    v.opts = [f'size = "{bad}"' if o.startswith("size") else o for o in v.opts]


@rule
def size_missing(d, r):
    v = some(r, [v for v in d.variants if v.size and any(d.optimised(q) and v.alive(q) for q in range(1, d.n + 1))])
    v.opts = [o for o in v.opts if not o.startswith("size")]


@rule
def inline_with_fields(d, r):
    v = some(r, [v for v in d.variants if v.size and any(d.optimised(q) and v.alive(q) and any(f.alive(q) for f in v.fields)
                                                         for q in range(1, d.n + 1))])
    v.opts = ['size = "inline"' if o.startswith("size") else o for o in v.opts]


@rule
def too_many_variants(d, r):
    """More than 32 at one optimised revision."""
    q = some(r, [q for q in range(1, d.n + 1) if d.kind == "enum" and d.optimised(q)])
    have = sum(v.alive(q) for v in d.variants)
    for i in range(33 - have + r.choice([0, 0, 1, 5])):
        v = Variant(f"Extra{i}", "unit")
        v.opts.append('size = "inline"')
        if q > 1 and r.random() < 0.5:
            v.opts.append(f"start = {r.randint(2, q)}")
        if q < d.n and r.random() < 0.5:
            v.end = d.n
            v.convert = f"convert_extra{i}"
            v.opts += [f"end = {r.randint(q + 1, d.n)}", f'convert_fn = "{v.convert}"']
        put(r, d.variants, v)


@rule
def discriminant_too_large(d, r):
    v, q = some(r, [(v, q) for v in d.variants for q in range(1, d.n + 1) if d.optimised(q) and v.alive(q) and q not in v.discs])
    put(r, v.opts, f"override(revision = {q}, discriminant = {r.choice([32, 33, 63, 64, 255, 256, 4294967295])})")


@rule
def discriminant_taken(d, r):
    a, q = some(r, [(v, q) for v in d.variants for q in range(1, d.n + 1) if v.alive(q) and q in v.discs])
    b = some(r, [v for v in d.variants if v is not a and v.alive(q) and q not in v.discs])
    put(r, b.opts, f"override(revision = {q}, discriminant = {a.discs[q]})")


@rule
def discriminants_both_set(d, r):
    q = some(r, [q for q in range(1, d.n + 1) if d.kind == "enum" and sum(v.alive(q) and q not in v.discs for v in d.variants) > 1])
    x = r.choice([x for x in range(0, 32) if all(v.discs.get(q) != x for v in d.variants)])
    for v in r.sample([v for v in d.variants if v.alive(q) and q not in v.discs], 2):
        put(r, v.opts, f"override(revision = {q}, discriminant = {x})")


@rule
def override_without_revision(d, r):
    v = some(r, d.variants)
    put(r, v.opts, r.choice(["override(discriminant = 5)", "override()"]))


@rule
def override_repeated(d, r):
    v = some(r, [v for v in d.variants if v.discs])
    q = r.choice(sorted(v.discs))
    put(r, v.opts, f"override(revision = {q}, discriminant = {r.choice([v.discs[q], 30])})")


@rule
def override_option_repeated(d, r):
    v, q = some(r, [(v, q) for v in d.variants for q in range(1, d.n + 1) if v.alive(q) and q not in v.discs])
    free = next(x for x in range(0, 32) if all(w.discs.get(q) != x for w in d.variants))
    o = [f"revision = {q}", f"discriminant = {free}", r.choice([f"revision = {q}", f"discriminant = {free}", f"discriminant = {free + 1}"])]
    r.shuffle(o)
    put(r, v.opts, f"override({', '.join(o)})")


@rule
def override_out_of_range(d, r):
    v = some(r, [v for v in d.variants if 1 not in v.discs])
    put(r, v.opts, r.choice(["override(revision = 1, discriminant = 4294967296)", "override(revision = 1, discriminant = -1)",
                             "override(revision = 1, discriminant = \"a\")"]))


# ---------------------------------------------------------------- compiling

class Prelude(Exception):
    """The plain declarations every file begins with are rejected."""


class Compiler:
    """Compiles files against the crate as it is in /repo now."""

    def __init__(self, run):
        self.run = run
        cmd = ["cargo", "build", "--offline", "--locked", "--message-format=json", "--target-dir", run.TARGET, "-p", "bare"]
        r = subprocess.run(cmd, cwd=run.HARNESS, env=run.ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise run.ToolError("build failed: " + r.stderr.decode("utf8", "replace")[-3000:])
        self.rlib = None
        for line in r.stdout.decode().splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "revision":
                self.rlib = next((f for f in m["filenames"] if f.endswith(".rlib")), None)
        if not self.rlib:
            raise run.ToolError("the crate was not built")
        self.dir = os.path.join(run.BUILD, "c17")
        os.makedirs(self.dir, exist_ok=True)

    def rustc(self, name, lines, exe=False):
        """(errors as (message, line numbers), path of the executable)"""
        src, out = os.path.join(self.dir, name + ".rs"), os.path.join(self.dir, name)
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        cmd = ["rustc", "--edition", "2024", "--crate-name", "decls", "--error-format=json", "--cap-lints", "allow", "-C", "debuginfo=0",
               "--extern", f"revision={self.rlib}", "-L", f"dependency={os.path.dirname(self.rlib) + '/deps'}",
               "-L", f"dependency={os.path.dirname(self.rlib)}"]
        cmd += ["--crate-type", "bin", "-o", out] if exe else ["--crate-type", "lib", "--emit", "metadata", "-o", out + ".rmeta"]
        env = dict(self.run.ENV)
        env.pop("RUSTC_BOOTSTRAP", None)
        r = subprocess.run(cmd + [src], cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
        errors = []
        for line in r.stderr.decode("utf8", "replace").splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("level") not in ("error", "error: internal compiler error"):
                continue
            at = set()

            def spans(m):
                for s in m.get("spans", []):
                    while s:
                        if s["file_name"] == src:
                            at.add(s["line_start"])
                        s = (s.get("expansion") or {}).get("span")
                for c in m.get("children", []):
                    spans(c)
            spans(m)
            primary = [s for s in m.get("spans", []) if s.get("is_primary") and s["file_name"] == src]
            primary = {s["line_start"] for s in primary if s["line_start"] > len(PRELUDE)}
            at = primary or at
            if m["message"].startswith("aborting due to"):
                continue
            errors.append((m["message"], at))
        if r.returncode != 0 and not errors:
            raise self.run.ToolError("rustc failed without an error: " + r.stderr.decode("utf8", "replace")[-2000:])
        if r.returncode == 0:
            errors = []
        return errors, out

    def sift(self, name, mods, tail=lambda left: []):
        """Compile modules together; those with errors are taken out until the
        rest compiles. Returns {module: message} of those taken out, and the
        others."""
        bad, left = {}, dict(mods)
        while left:
            lines, where = list(PRELUDE), []
            for k, v in left.items():
                where += [(len(lines) + 1, len(lines) + len(v), k)]
                lines += v
            lines += tail(left)
            errors, _ = self.rustc(name, lines)
            if not errors:
                break
            hit = {}
            for msg, at in errors:
                for a, b, k in where:
                    if any(a <= x <= b for x in at):
                        hit.setdefault(k, msg)
            if not hit and self.broken():
                raise Prelude(str(errors[0][0]))
            if not hit:
                raise self.run.ToolError(f"errors outside of every module: {errors[:3]}")
            bad.update(hit)
            for k in hit:
                del left[k]
        return bad, list(left)


    def broken(self):
        return bool(self.rustc("prelude", PRELUDE)[0])


def main_fn(keys):
    o = ["fn main() {"]
    for k in keys:
        o.append(f"    match ::std::panic::catch_unwind({k}::check) {{ Ok(Ok(())) => println!(\"ok {k}\"), "
                 f"Ok(Err(e)) => println!(\"bad {k} {{}}\", e.replace('\\n', \" \")), Err(_) => println!(\"bad {k} panicked\") }}")
    return o + ["}"]


def judge_valid(c, name, decls):
    """{module: what is wrong} of declarations that follow the rules."""
    mods = {k: module(d, k) for k, d in decls.items()}
    bad, left = c.sift(name, mods)
    out = {k: "is rejected: " + m for k, m in bad.items()}
    if left:
        lines = list(PRELUDE)
        for k in left:
            lines += mods[k]
        errors, exe = c.rustc(name + "_run", lines + main_fn(left), exe=True)
        if errors:
            raise c.run.ToolError(f"building the checks: {errors[:3]}")
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
        seen = set()
        for line in r.stdout.decode("utf8", "replace").splitlines():
            what, k = line.split(" ")[:2]
            seen.add(k)
            if what == "bad":
                out[k] = line.split(" ", 2)[2]
        if r.returncode != 0:
            k = next(k for k in left if k not in seen)
            out[k] = f"its check ended the process with {r.returncode}"
    return out


def judge_invalid(c, name, decls):
    """Those accepted, and the messages of the others."""
    bad, left = c.sift(name, {k: module(d, k, False) for k, d in decls.items()})
    return left, bad


# ---------------------------------------------------------------- shrinking

def smaller(d):
    """Declarations with something less."""
    def less(xs, back):
        for i in range(len(xs)):
            e = copy.deepcopy(d)
            back(e).pop(i)
            yield e
    yield from less(d.scope, lambda e: e.scope)
    yield from less(d.other, lambda e: e.other)
    for i, v in enumerate(d.variants):
        if v.name != "Zero" and not any("Default" in x for x in d.other):
            e = copy.deepcopy(d)
            e.variants.pop(i)
            yield e
        for j in range(len(v.fields)):
            if d.optimised():
                continue
            e = copy.deepcopy(d)
            e.variants[i].fields.pop(j)
            for x, f in enumerate(e.variants[i].fields):
                if v.kind == "tuple":
                    f.name = str(x)
            yield e
    for i in range(len(d.fields)):
        e = copy.deepcopy(d)
        e.fields.pop(i)
        for x, f in enumerate(e.fields):
            if d.kind == "tuple":
                f.name = str(x)
        yield e
    if d.local:
        e = copy.deepcopy(d)
        e.local = False
        yield e
    if d.name != "T":
        e = copy.deepcopy(d)
        e.name = "T"
        yield e


def shrink(d, fails, budget=120):
    while budget > 0:
        for e in smaller(d):
            budget -= 1
            if budget <= 0:
                break
            try:
                if fails(e):
                    d = e
                    break
            except Exception:
                continue
        else:
            break
    return d


# ---------------------------------------------------------------- the check

# Rules known to be broken, each by its declaration: (signature, source).
SPECIAL = [
    ("optimised-ignores-fixed", ["#[::revision::revisioned(revision(1, optimised))]",
                                 'pub enum T { #[revision(size = "varlen")] A { #[revision(fixed)] a: String } }']),
    ("optimised-ignores-specialised", ["#[::revision::revisioned(revision(1, optimised))]",
                                       "pub struct T { #[revision(specialised)] pub a: Vec<String> }"]),
]


def weight(d):
    return sum(len(x) for x in item(d))


def save(run, prop, name, expect, what, msg, lines):
    path = os.path.join(run.REPLAYS, f"{prop}-{name}.txt")
    with open(path, "w") as f:
        f.write(f"property: {prop}\nconfig: python\ncase: {what}\nmessage: {' '.join(msg.split())}\nexpect: {expect}\n---\n")
        f.write("\n".join(lines) + "\n")
    return path


def check(prop, tier, seed, run):
    valid_n, per_rule, rounds = (56, 3, 3) if tier == "quick" else (90, 8, 30)
    c = Compiler(run)
    cov = dict(evaluations=0, distinct_nontrivial=0, samples=[], by_config={},
               rule="one case = a generated declaration that follows the rules, compiled and examined, or one that did compile with one "
                    "rule broken, compiled; non-trivial with at least two revisions, fields or variants (valid ones) or always (invalid "
                    "ones); distinct by source")
    violations, knowns, seen, broken_rules, labels = [], [], set(), {}, {}
    valid_bad, accepted = [], []
    if c.broken():
        msg = "a plain declaration is rejected: " + c.rustc("prelude", PRELUDE)[0][0][0]
        violations.append((msg, save(run, prop, "prelude", "accept", "prelude", msg, ["pub mod m { pub fn check() -> Result<(), String> { Ok(()) } }"])))
        cov["evaluations"] = 1
        return cov, violations, knowns, {}

    def chunk(k):
        ds = {f"m{i}": Gen(random.Random(f"{seed}/{k}/{i}")).decl() for i in range(valid_n)}
        bad = judge_valid(c, f"v{k % 8}", ds)
        good = [x for x in ds if not bad.get(x, "").startswith("is rejected")]
        inv, rules = {}, {}
        for name, breaking in RULES.items():
            m = 0
            for a in range(40 * per_rule):
                if m == per_rule or not good:
                    break
                r = random.Random(f"{seed}/{k}/{name}/{a}")
                d = copy.deepcopy(ds[r.choice(good)])
                try:
                    breaking(d, r)
                except Skip:
                    continue
                m += 1
                key = f"i{len(inv)}"
                inv[key], rules[key] = d, name
        left, msgs = judge_invalid(c, f"i{k % 8}", inv)
        return ds, bad, inv, rules, left, msgs

    total_valid = 0
    for rnd in range(rounds):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for k, (ds, bad, inv, rules, left, msgs) in zip(range(8), ex.map(chunk, range(rnd * 8, rnd * 8 + 8))):
                total_valid += len(ds)
                cov["evaluations"] += len(ds) + len(inv)
                for d in ds.values():
                    txt = "\n".join(item(d))
                    lab = "enum" if d.kind == "enum" else "struct"
                    labels[lab] = labels.get(lab, 0) + 1
                    if txt not in seen and (d.n > 1 or len(d.all_fields()) + len(d.variants) > 1):
                        seen.add(txt)
                for key, d in inv.items():
                    seen.add("\n".join(item(d)))
                    broken_rules[rules[key]] = broken_rules.get(rules[key], 0) + 1
                valid_bad += [(ds[x], m) for x, m in bad.items()]
                accepted += [(rules[x], inv[x]) for x in left]
                if rnd == 0 and k < 3:
                    cov["samples"] += ["accepted: " + " ".join(item(d))[:400] for d in list(ds.values())[:2]]
                    cov["samples"] += [f"rejected ({rules[x]}: {msgs[x][:80]}): " + " ".join(item(inv[x]))[:300] for x in list(msgs)[5:60:20]]
        if len(valid_bad) + len(accepted) > 5:
            break
    cov["distinct_nontrivial"] = len(seen)
    cov["by_config"] = {"valid": total_valid, "kinds": labels, "invalid by rule": broken_rules}

    def kind(m):
        return re.sub(r"`[^`]*`|\d+", "", m)[:60]
    shown = set()
    for d, m in sorted(valid_bad, key=lambda x: weight(x[0])):
        if kind(m) in shown or len(shown) > 5:
            continue
        shown.add(kind(m))
        d = shrink(d, lambda e: kind(judge_valid(c, "shrink", {"m": e}).get("m", "")) == kind(m), 40)
        text = module(d, "m")
        violations.append((f"valid declaration: {m} | {' '.join(item(d))}", save(run, prop, f"valid{len(violations)}", "accept", "valid declaration", m, text)))
    by_rule = {}
    for name, d in accepted:
        if name not in by_rule or weight(d) < weight(by_rule[name]):
            by_rule[name] = d
    for name, d in sorted(by_rule.items()):
        m = f"a declaration breaking the rule {name} compiles"
        violations.append((f"{m} | {' '.join(item(d))}", save(run, prop, f"rule-{name}", "reject", name, m, module(d, "m", False))))
    kn = run.known()
    for sig, lines in SPECIAL:
        cov["evaluations"] += 1
        bad, left = c.sift("special", {"m": ["pub mod m {"] + lines + ["}"]})
        if left:
            if (prop, sig) in kn:
                knowns.append(kn[(prop, sig)])
            else:
                m = f"an override on a type that does not support it compiles ({sig})"
                violations.append((m, save(run, prop, sig, "reject", sig, m, ["pub mod m {"] + lines + ["}"])))
    return cov, violations, knowns, {}


def replay(prop, path, run):
    head, body = open(path).read().split("\n---\n", 1)
    head = dict(x.split(": ", 1) for x in head.splitlines())
    print(f"case: {head['case']}\nmessage when found: {head['message']}\n{body}")
    c = Compiler(run)
    mods = {"m": body.rstrip("\n").split("\n")}
    try:
        bad, left = c.sift("replay", mods)
    except Prelude as e:
        print("every declaration is rejected:", e)
        return 1
    if head["expect"] == "reject":
        print("rejected: " + bad["m"] if bad else "accepted")
        return 0 if bad else 1
    if bad:
        print("rejected:", bad["m"])
        return 1
    errors, exe = c.rustc("replay_run", PRELUDE + mods["m"] + main_fn(["m"]), exe=True)
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    print(r.stdout.decode("utf8", "replace"))
    return 0 if r.returncode == 0 and b"ok m" in r.stdout else 1
