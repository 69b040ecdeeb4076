"""Random declarations of revisioned types, with their reference models.

A family is a few types, each with its own revision history, nested in one
another. For each of a few moments in time the declarations are written out as
they stood then, and the latest ones are also given a walk driver. The output is
a pure function of the seed.
"""
import os, random, hashlib

# ---------------------------------------------------------------- type terms
# ("leaf", name) ("user", idx) ("self",) ("opt", t) ("vec", t) ("box", t)
# ("tup", ts) ("map", k, v) ("hmap", k, v) ("set", t) ("hset", t) ("res", a, b)
# ("arr", n)

ORD = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "bool", "char", "String"]
LEAF = ORD + ["f32", "f64"]
FIXED_INTS = ["u32", "i32", "u64", "i64", "u128", "i128"]
BULK = ["u8", "i8", "bool", "u16", "u32", "u64", "u128", "i16", "i32", "i64", "i128", "f32", "f64"]


def uses(t, acc=None):
    acc = set() if acc is None else acc
    if t[0] == "user":
        acc.add(t[1])
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            for y in x:
                uses(y, acc)
        elif isinstance(x, tuple):
            uses(x, acc)
    return acc


def has_self(t):
    if t[0] == "self":
        return True
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            if any(has_self(y) for y in x):
                return True
        elif isinstance(x, tuple) and has_self(x):
            return True
    return False


def ty(t, me):
    k = t[0]
    if k == "leaf":
        return t[1]
    if k == "user":
        return f"T{t[1]}"
    if k == "self":
        return me
    if k == "opt":
        return f"Option<{ty(t[1], me)}>"
    if k == "vec":
        return f"Vec<{ty(t[1], me)}>"
    if k == "box":
        return f"Box<{ty(t[1], me)}>"
    if k == "arc":
        return f"Arc<{ty(t[1], me)}>"
    if k == "tup":
        return "(" + ", ".join(ty(x, me) for x in t[1]) + ")"
    if k == "map":
        return f"BTreeMap<{ty(t[1], me)}, {ty(t[2], me)}>"
    if k == "hmap":
        return f"HashMap<{ty(t[1], me)}, {ty(t[2], me)}>"
    if k == "set":
        return f"BTreeSet<{ty(t[1], me)}>"
    if k == "hset":
        return f"HashSet<{ty(t[1], me)}>"
    if k == "res":
        return f"Result<{ty(t[1], me)}, {ty(t[2], me)}>"
    if k == "arr":
        return f"[u8; {t[1]}]"
    raise KeyError(k)


def defaultable(t):
    k = t[0]
    if k == "res" or k == "self":
        return False
    if k in ("box", "arc"):
        return defaultable(t[1])
    if k == "tup":
        return all(defaultable(x) for x in t[1])
    return True


# ---------------------------------------------------------------- declarations

class Field:
    def __init__(self, name, t, start=1, end=None, default=None, indexed=None, raw=None):
        self.name, self.t, self.start, self.end = name, t, start, end
        self.default, self.indexed, self.raw = default, indexed, raw

    def alive(self, r):
        return self.start <= r and (self.end is None or r < self.end)


class Variant:
    def __init__(self, name, kind, fields=(), start=1, end=None, size=None, discs=None, fields_name=None):
        self.name, self.kind, self.fields = name, kind, list(fields)
        self.start, self.end, self.size, self.discs = start, end, size, discs or {}
        self.fields_name = fields_name

    def alive(self, r):
        return self.start <= r and (self.end is None or r < self.end)


class Decl:
    """kind: named, tuple, unit (structs) or enum"""

    def __init__(self, kind, revs, fields=(), variants=(), ordd=False, errs=False, short=False):
        self.kind, self.revs, self.fields, self.variants = kind, revs, list(fields), list(variants)
        self.ordd, self.errs, self.short = ordd, errs, short

    @property
    def n(self):
        return len(self.revs)

    def form(self, r):
        o = self.revs[r - 1]
        if "indexed_struct" in o:
            return "Indexed"
        return "Optimised" if "optimised" in o else "Legacy"

    def all_fields(self):
        return self.fields if self.kind != "enum" else [f for v in self.variants for f in v.fields]

    def deps(self):
        a = set()
        for f in self.all_fields():
            uses(f.t, a)
        return a

    def converts(self):
        return any(f.end for f in self.all_fields()) or any(v.end for v in self.variants)

    def overrides(self):
        return any(f.raw for f in self.all_fields())

    def optimised_enum(self):
        return self.kind == "enum" and any(o for o in self.revs)


def discriminants(d, r):
    """Explicit ones first, the others the lowest free in declaration order."""
    out, used = {}, set()
    for v in d.variants:
        if v.alive(r) and r in v.discs:
            out[v.name] = v.discs[r]
            used.add(v.discs[r])
    nxt = 0
    for v in d.variants:
        if v.alive(r) and v.name not in out:
            while nxt in used:
                nxt += 1
            used.add(nxt)
            out[v.name] = nxt
    return out


# ---------------------------------------------------------------- random families

NAMES = ["a", "b", "c", "id", "key", "val", "pos", "bytes", "cursor", "wire_rev", "len", "slice", "name", "item",
         "data", "tag", "x", "y", "this", "fields", "revision", "value", "buf", "payload", "out", "k", "v", "r", "w",
         "offset", "scratch", "disc", "variant", "repr", "err", "res", "self_", "n0", "n1", "n2"]
VNAMES = ["A", "B", "Cee", "DeeDee", "Eff", "G2", "HTTP", "Ixy", "Jay", "K", "Some", "Ok", "Null", "None", "Err", "Leaf",
          "Node", "Pair", "Quad", "Z9"]


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def p(self, x):
        return self.rng.random() < x

    def ordt(self, fam, d=0):
        r = self.rng
        keys = [i for i, t in enumerate(fam) if t.ordd]
        if keys and self.p(0.3):
            return ("user", r.choice(keys))
        if d < 2 and self.p(0.2):
            return r.choice([lambda: ("opt", self.ordt(fam, d + 1)), lambda: ("vec", self.ordt(fam, d + 1)),
                             lambda: ("tup", (self.ordt(fam, d + 1), self.ordt(fam, d + 1))),
                             lambda: ("box", self.ordt(fam, d + 1)), lambda: ("arr", r.randint(1, 6))])()
        return ("leaf", r.choice(ORD))

    def anyt(self, fam, d=0):
        r = self.rng
        if fam and self.p(0.35 if d == 0 else 0.3):
            return ("user", r.choice(range(len(fam))))
        if d < 3 and self.p(0.5 if d == 0 else 0.3):
            k = r.choice(["opt", "vec", "vec", "box", "tup", "map", "hmap", "set", "hset", "res", "arr", "arc"])
            if k in ("opt", "vec", "box", "arc"):
                return (k, self.anyt(fam, d + 1))
            if k == "tup":
                return ("tup", tuple(self.anyt(fam, d + 1) for _ in range(r.choice([2, 2, 3]))))
            if k in ("map", "hmap"):
                return (k, self.ordt(fam, d + 1), self.anyt(fam, d + 1))
            if k in ("set", "hset"):
                return (k, self.ordt(fam, d + 1))
            if k == "res":
                return ("res", self.anyt(fam, d + 1), self.anyt(fam, d + 1))
            return ("arr", r.randint(1, 9))
        return ("leaf", r.choice(LEAF))

    def coll(self, fam):
        k = self.rng.choice(["map", "hmap", "vec", "set", "hset"])
        if k in ("map", "hmap"):
            return (k, self.ordt(fam, 1), self.anyt(fam, 2)), "indexed_map"
        if k == "vec":
            return (k, self.anyt(fam, 2)), "indexed_seq"
        return (k, self.ordt(fam, 1)), "indexed_set"

    def revs(self, n, style, enum):
        """style: legacy, optimised or mixed"""
        out = []
        switched = style == "optimised"
        for i in range(n):
            if style == "mixed" and not switched and (self.p(0.5) or (i == n - 1)):
                switched = True
            elif style == "mixed" and switched and i < n - 1 and self.p(0.1):
                switched = False
            if not switched:
                out.append(())
            elif not enum and self.p(0.5):
                out.append(("optimised", "indexed_struct"))
            else:
                out.append(("optimised",))
        return out

    def struct(self, fam, style, ordd, n):
        r = self.rng
        kind = r.choice(["named", "named", "named", "tuple"])
        revs = self.revs(n, style, False)
        opt = any(revs)
        removal = not ordd and n > 1 and self.p(0.6)
        fields = []
        names = r.sample(NAMES, 12)
        m = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        if removal:
            fields.append(Field("acc", ("leaf", "u64")))
        for i in range(m):
            t, indexed, raw = None, None, None
            if ordd:
                t = self.ordt(fam)
            elif opt and self.p(0.5):
                t, indexed = self.coll(fam)
            elif style == "raw" and self.p(0.7):
                if self.p(0.6):
                    t, raw = ("leaf", r.choice(FIXED_INTS)), "fixed"
                else:
                    t, raw = ("vec", ("leaf", r.choice(BULK))), "specialised"
            elif self.p(0.08):
                t = r.choice([("opt", ("box", ("self",))), ("vec", ("self",))])
            else:
                t = self.anyt(fam)
            start = 1 if (n == 1 or self.p(0.6)) else r.randint(2, n)
            end = r.randint(start + 1, n) if removal and start < n and self.p(0.45) else None
            dflt = self.p(0.5) or not defaultable(t)
            fields.append(Field(names[i], t, start, end, dflt and start > 1, indexed, raw))
        if removal and kind == "named" and self.p(0.3):
            # the place of the untouched field matters for walks
            fields.append(fields.pop(0))
        return Decl(kind, revs, fields, ordd=ordd, errs=removal and self.p(0.15), short=n > 0 and not any(revs) and self.p(0.4))

    def enum(self, fam, style, ordd, n):
        r = self.rng
        revs = self.revs(n, style, True)
        opt = any(revs)
        removal = not ordd and n > 1 and self.p(0.5)
        m = r.choice([1, 2, 3, 3, 4, 5, 6]) if not self.p(0.06) else r.choice([20, 31])
        names = (r.sample(VNAMES, min(m, len(VNAMES))) + [f"X{i}" for i in range(max(0, m - len(VNAMES)))])
        vs = [Variant("Zero", "unit", size="inline" if opt else None)]
        if m >= 20:
            # many variants: the optimised tag holds up to 32
            for i in range(m):
                if i % 5 == 0:
                    vs.append(Variant(names[i], "tuple", [Field("0", ("leaf", "u8"))], size=("fixed", 1) if opt else None))
                else:
                    vs.append(Variant(names[i], "unit", size="inline" if opt else None))
            return Decl("enum", revs, variants=vs, ordd=ordd)
        for i in range(m):
            kind = r.choice(["unit", "one", "one", "tuple", "named", "named"])
            start = 1 if (n == 1 or self.p(0.6)) else r.randint(2, n)
            end = r.randint(start + 1, n) if removal and start < n and self.p(0.4) else None
            if kind == "unit":
                vs.append(Variant(names[i], "unit", start=start, end=end, size=self.usize(opt)))
                continue
            size, fixed = None, 0
            if opt:
                if self.p(0.35):
                    fixed = 1
                size = "varlen"
            fs = []
            fnames = r.sample(NAMES, 6)
            vary = not fixed and n > 1 and self.p(0.5)
            vrem = vary and removal and end is None and kind != "one" and self.p(0.7)
            if vrem:
                fs.append(Field("acc", ("leaf", "u64"), start=1))
            total = 0
            for j in range(1 if kind == "one" else r.choice([1, 2, 2, 3, 4])):
                raw = None
                if fixed:
                    t = r.choice([("leaf", "u8"), ("leaf", "i8"), ("leaf", "bool"), ("arr", r.randint(1, 9))] +
                                 ([] if ordd else [("leaf", "f32"), ("leaf", "f64")]))
                    total += {"u8": 1, "i8": 1, "bool": 1, "f32": 4, "f64": 8}.get(t[1], t[1] if t[0] == "arr" else 0)
                elif ordd:
                    t = self.ordt(fam)
                elif style == "raw" and self.p(0.6):
                    if self.p(0.6):
                        t, raw = ("leaf", r.choice(FIXED_INTS)), "fixed"
                    else:
                        t, raw = ("vec", ("leaf", r.choice(BULK))), "specialised"
                elif self.p(0.15):
                    t = r.choice([("box", ("self",)), ("vec", ("self",)), ("opt", ("box", ("self",)))])
                else:
                    t = self.anyt(fam)
                fstart = 1
                fend = None
                if vary and self.p(0.5):
                    fstart = r.randint(2, n)
                if vrem and fstart < n and self.p(0.5):
                    fend = r.randint(fstart + 1, n)
                dflt = fstart > 1 and (self.p(0.5) or not defaultable(t))
                fs.append(Field(fnames[j], t, fstart, fend, dflt, None, raw))
            if fixed:
                size = ("fixed", total)
            kind = "tuple" if kind == "one" else kind
            if kind == "tuple":
                for j, f in enumerate(fs):
                    f.name = str(j)
            vs.append(Variant(names[i], kind, fs, start, end, size,
                              fields_name=f"Custom{names[i]}" if self.p(0.15) else None))
        # explicit discriminants
        for rev in range(1, n + 1):
            if not self.p(0.25):
                continue
            taken = set()
            for v in vs:
                if v.alive(rev) and self.p(0.3):
                    x = r.choice([0, 1, 2, 3, 7, 30, 31] if opt else [0, 1, 2, 3, 5, 250, 251, 300, 65536, 4294967295])
                    if x not in taken:
                        taken.add(x)
                        v.discs[rev] = x
        return Decl("enum", revs, variants=vs, ordd=ordd, errs=removal and self.p(0.15),
                    short=not opt and self.p(0.4))

    def usize(self, opt):
        return None if not opt else self.rng.choice(["inline", "inline", "inline", "varlen"])

    def family(self, style):
        fam = []
        n_types = self.rng.choice([2, 3, 3, 4])
        for i in range(n_types):
            n = self.rng.choice([1, 2, 3, 3, 4, 5])
            st = style if style != "any" else self.rng.choice(["legacy", "optimised", "mixed", "mixed"])
            ordd = i < n_types - 1 and self.p(0.3)
            f = self.enum if self.p(0.45) else self.struct
            if st == "raw" and ordd:
                st = "legacy"
            fam.append(f(fam, st, ordd, n))
        return fam


# ---------------------------------------------------------------- fixtures

def L(x):
    return ("leaf", x)


def fixtures():
    out = []
    O, OI = ("optimised",), ("optimised", "indexed_struct")
    # every wire form in one history, with additions, removals and indexed fields
    out.append(("forms", [
        Decl("enum", [(), ()], variants=[
            Variant("Zero", "unit"), Variant("One", "tuple", [Field("0", L("u32"))]),
            Variant("Pair", "named", [Field("a", L("String")), Field("b", L("i64"), start=2)]),
            Variant("Late", "unit", start=2)], ordd=True),
        Decl("named", [(), (), O, OI, OI], [
            Field("acc", L("u64")), Field("id", L("u32")),
            Field("names", ("map", L("String"), ("user", 0)), indexed="indexed_map"),
            Field("gone", L("String"), end=3), Field("items", ("vec", ("user", 0)), indexed="indexed_seq"),
            Field("late", L("u16"), start=2, default=True), Field("tags", ("hset", L("String")), start=3, indexed="indexed_set"),
            Field("brief", ("vec", ("user", 0)), start=2, end=4), Field("last", ("opt", ("user", 0)), start=5)]),
        Decl("tuple", [(), O], [Field("0", L("u8")), Field("1", ("user", 1)), Field("2", ("vec", ("user", 1)), start=2)]),
    ]))
    # optimised enums in every size class, renumbered over time
    out.append(("tags", [
        Decl("enum", [O, O, O], variants=[
            Variant("Nil", "unit", size="inline"),
            Variant("Byte", "tuple", [Field("0", L("u8"))], size=("fixed", 1)),
            Variant("Quad", "tuple", [Field("0", ("arr", 3)), Field("1", L("bool"))], size=("fixed", 4)),
            Variant("Text", "tuple", [Field("0", L("String"))], size="varlen", discs={2: 31, 3: 0}),
            Variant("Both", "named", [Field("x", L("u64")), Field("y", ("vec", L("u16")))], size="varlen"),
            Variant("Gone", "tuple", [Field("0", L("i32"))], size="varlen", end=3),
            Variant("New", "unit", size="inline", start=2),
            Variant("Void", "unit", size="varlen", start=3)]),
        Decl("enum", [(), O], variants=[
            Variant("A", "unit", size="inline"), Variant("B", "tuple", [Field("0", ("user", 0))], size="varlen"),
            Variant("C", "tuple", [Field("0", L("f64"))], size=("fixed", 8)),
            Variant("D", "named", [Field("one", ("vec", ("user", 0)))], size="varlen")]),
        Decl("named", [OI, OI], [Field("a", ("user", 0)), Field("m", ("map", L("u32"), ("user", 1)), indexed="indexed_map"),
                                 Field("b", ("user", 1), start=2), Field("z", L("u8"))]),
    ]))
    # overrides in every place
    ints = [Field(f"f{i}", L(x), raw="fixed") for i, x in enumerate(FIXED_INTS)]
    vecs = [Field(f"v{i}", ("vec", L(x)), raw="specialised") for i, x in enumerate(BULK)]
    out.append(("raw", [
        Decl("named", [()], ints + [Field("end", L("u8"))]),
        Decl("named", [()], vecs + [Field("end", L("u8"))]),
        Decl("named", [(), (), ()], [
            Field("acc", L("u64"), raw="fixed"), Field("old", L("u32"), end=2, raw="fixed"),
            Field("olds", ("vec", L("i16")), end=3, raw="specialised"), Field("a", L("i128"), raw="fixed"),
            Field("new", L("i64"), start=2, raw="fixed", default=True), Field("plain", L("u64")),
            Field("news", ("vec", L("bool")), start=3, raw="specialised")]),
        Decl("enum", [(), ()], variants=[
            Variant("Zero", "unit"), Variant("One", "tuple", [Field("0", L("u64"), raw="fixed")]),
            Variant("Bits", "tuple", [Field("0", ("vec", L("bool")), raw="specialised")]),
            Variant("Mix", "named", [Field("acc", L("u64")), Field("p", L("i32"), raw="fixed"), Field("q", L("i32")),
                                     Field("gone", L("u128"), end=2, raw="fixed"),
                                     Field("w", ("vec", L("f32")), start=2, raw="specialised")]),
            Variant("Gone", "tuple", [Field("0", L("i64"), raw="fixed"), Field("1", ("vec", L("u8")), raw="specialised")], end=2)]),
        Decl("tuple", [(), ()], [Field("0", L("u32"), raw="fixed"), Field("1", ("user", 3)), Field("2", ("vec", ("user", 2))),
                                 Field("3", ("vec", L("u32")), start=2, raw="specialised")]),
    ]))
    # additions only, in every form: walked on the wire
    out.append(("adds", [
        Decl("named", [(), ()], [Field("k", L("i32")), Field("l", L("String"), start=2, default=True)], ordd=True),
        Decl("named", [(), O, OI], [Field("a", L("u32")), Field("b", ("vec", ("user", 0)), start=2, indexed="indexed_seq"),
                                    Field("c", ("opt", ("user", 0))), Field("d", L("u8"), start=3, default=True),
                                    Field("m", ("map", ("user", 0), L("String")), indexed="indexed_map")]),
        Decl("enum", [(), ()], variants=[
            Variant("Zero", "unit"), Variant("Was", "tuple", [Field("0", ("user", 1))]),
            Variant("Grows", "tuple", [Field("0", ("user", 0), start=2)]),
            Variant("Wide", "named", [Field("x", L("u8")), Field("y", L("u64"), start=2)])], short=True),
        Decl("named", [()] * 2, [Field("e", ("user", 2)), Field("es", ("vec", ("user", 2))), Field("t", ("user", 1), start=2)]),
    ]))
    # fields of optimised variants come and go
    out.append(("sways", [
        Decl("named", [(), (), (), O], [Field("a", L("u16")), Field("b", L("String"), start=2), Field("z", L("u8"), start=3)], ordd=True),
        Decl("enum", [(), O, O, O], variants=[
            Variant("Zero", "unit", size="inline"),
            Variant("Swap", "tuple", [Field("0", L("u64")), Field("1", L("u8"), end=3), Field("2", ("user", 0), start=3, default=True)], size="varlen"),
            Variant("Mixed", "named", [Field("acc", L("u64")), Field("old", ("vec", ("user", 0)), start=2, end=4),
                                       Field("x", ("opt", ("user", 0))), Field("y", L("i32"), start=4)], size="varlen"),
            Variant("Gone", "named", [Field("p", ("user", 0)), Field("q", L("u32"), start=3)], size="varlen", end=4)]),
        Decl("enum", [O, O, O], variants=[
            Variant("Nil", "unit", size="inline"),
            Variant("Grows", "tuple", [Field("0", ("user", 0), start=2)], size="varlen"),
            Variant("Late", "tuple", [Field("0", L("String"), start=2, default=True), Field("1", L("u16"), start=3)], size="varlen"),
            Variant("Wide", "named", [Field("x", L("u8")), Field("y", ("user", 0), start=3, default=True)], size="varlen"),
            Variant("Deep", "tuple", [Field("0", ("vec", ("self",)), start=2), Field("1", L("i64"))], size="varlen")]),
        Decl("tuple", [(), O, OI], [Field("0", ("user", 2)), Field("1", ("user", 1)), Field("2", ("vec", ("user", 2)), start=2, indexed="indexed_seq")]),
    ]))
    # conversions that refuse some of what they are given
    out.append(("errs", [
        Decl("enum", [(), ()], variants=[Variant("Zero", "unit"), Variant("Was", "tuple", [Field("0", L("u16"))], end=2),
                                         Variant("Kept", "tuple", [Field("0", L("String"))])], errs=True),
        Decl("named", [(), O, OI], [Field("acc", L("u64")), Field("cut", L("u8"), end=2), Field("mid", ("vec", L("u8")), start=2, end=3),
                                    Field("e", ("user", 0))], errs=True),
        Decl("enum", [O, O], variants=[Variant("Nil", "unit", size="inline"),
                                       Variant("Two", "tuple", [Field("0", L("u64")), Field("1", L("i32"), end=2)], size="varlen"),
                                       Variant("Old", "named", [Field("x", ("user", 1))], size="varlen", end=2)], errs=True),
        Decl("named", [()], [Field("a", ("user", 1)), Field("b", ("opt", ("user", 2)))]),
    ]))
    # histories long enough for every width of the revision number
    out.append(("tall", [
        Decl("named", [()] * 256, [
            Field("acc", L("u64")), Field("k", L("u16")), Field("cut", L("String"), start=249, end=252),
            Field("late", L("i32"), start=251, default=True), Field("last", L("u8"), start=256)], short=True),
        Decl("enum", [()] * 252, variants=[
            Variant("Zero", "unit"), Variant("One", "tuple", [Field("0", L("u32")), Field("1", L("u8"), start=251)]),
            Variant("Gone", "tuple", [Field("0", L("i64"))], end=252),
            Variant("Late", "named", [Field("a", L("String"))], start=252)], short=True),
        Decl("named", [()] * 250 + [O] * 6 + [OI], [
            Field("a", ("user", 0)), Field("e", ("user", 1), start=250), Field("z", ("vec", L("u16")), start=252, indexed="indexed_seq")]),
    ], [(1, 1, 1), (250, 250, 250), (251, 251, 251), (255, 252, 252), (256, 252, 257)]))
    # degenerate shapes and recursion
    out.append(("odd", [
        Decl("unit", [()]), Decl("unit", [(), O]), Decl("named", [OI], []),
        Decl("named", [(), O, OI], [Field("acc", L("u64")), Field("x", L("u8"), start=2, end=3)]),
        Decl("enum", [O], variants=[Variant("Only", "unit", size="inline")], ordd=True),
        Decl("enum", [(), O], variants=[
            Variant("Zero", "unit", size="inline"), Variant("Rec", "tuple", [Field("0", ("box", ("self",)))], size="varlen"),
            Variant("Many", "named", [Field("xs", ("vec", ("self",))), Field("u", ("user", 0))], size="varlen")]),
        Decl("tuple", [OI, OI], [Field("0", ("user", 5)), Field("1", ("opt", ("box", ("self",)))), Field("2", ("user", 1), start=2),
                                 Field("3", ("set", ("user", 4)), indexed="indexed_set")]),
    ]))
    return out


# ---------------------------------------------------------------- writing

def tag(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "little")


class Writer:
    def __init__(self, name, fam, snapshots):
        self.name, self.fam, self.snaps = name, fam, snapshots
        self.latest = tuple(d.n for d in fam)
        self.out = []
        self.trans = []
        for i, d in enumerate(fam):
            a = set()
            for x in d.deps():
                a |= {x} | self.trans[x]
            self.trans.append(a)
        self.instances = []  # (type, module, revs of the relevant types)
        seen = {}
        for snap in snapshots:
            for i in range(len(fam)):
                key = self.key(i, snap)
                if key not in seen:
                    seen[key] = snap
                    self.instances.append((i, snap))
        self.errs = []
        for i, d in enumerate(fam):
            self.errs.append(d.errs or any(self.errs[x] for x in self.trans[i]))

    def key(self, i, snap):
        return (i, snap[i], tuple(snap[x] for x in sorted(self.trans[i])))

    def mod(self, i, snap):
        k = self.key(i, snap)
        return f"t{i}_r{snap[i]}" + "".join(f"_{x}" for x in k[2])

    def is_latest(self, i, snap):
        return self.key(i, snap) == self.key(i, self.latest)

    def w(self, s):
        self.out.append(s)

    # -- one field's attribute
    def field_attr(self, d, f, r, ename=None):
        o = []
        if f.start > 1:
            o.append(f"start = {f.start}")
            if f.default:
                o.append(f'default_fn = "{self.dfn(f, ename)}"')
        if f.end and f.end <= r:
            o.append(f"end = {f.end}")
            o.append(f'convert_fn = "{self.cfn(f, ename)}"')
        if f.indexed and any(d.revs[:r]):
            o.append(f.indexed)
        if f.raw:
            o.append(f.raw)
        return f"#[revision({', '.join(o)})] " if o else ""

    def dfn(self, f, v):
        return f"df_{(v + '_') if v else ''}{f.name}".lower()

    def cfn(self, f, v):
        return f"cv_{(v + '_') if v else ''}{f.name}".lower()

    def rev_attr(self, d, r):
        revs = d.revs[:r]
        if not any(revs) and d.short:
            return f"revision = {r}"
        return ", ".join("revision(" + ", ".join([str(i + 1)] + list(o)) + ")" for i, o in enumerate(revs))

    def emit_field(self, f, form, expr):
        """Code appending the field to `o`."""
        if form != "Legacy" and f.indexed:
            fn = {"indexed_map": "emit_indexed_map", "indexed_seq": "emit_indexed_seq", "indexed_set": "emit_indexed_set"}[f.indexed]
            return f"{fn}({expr}.iter(), o, c)"
        if form == "Legacy" and f.raw:
            return f"o.extend({expr}.raw())"
        return f"{expr}.emit(o, c)"

    def strict(self, d, r, me):
        if r > 1 or any(d.revs[:r]):
            return "false"
        parts = []
        for f in d.all_fields():
            if not f.alive(r):
                continue
            if has_self(f.t):
                return "false"
            if f.raw == "specialised":
                if f.t[1][1] == "bool":
                    return "false"
                continue
            parts.append(f"<{ty(f.t, me)} as Subject>::STRICT")
        return " && ".join(dict.fromkeys(parts)) or "true"

    def gen_expr(self, f, me):
        if has_self(f.t):
            if f.t[0] == "box":
                return f"Box::new(<{me} as Subject>::gen_(s, d + 1))"
            return f"if d >= 3 {{ Default::default() }} else {{ <{ty(f.t, me)} as Subject>::gen_(s, d + 1) }}"
        return f"<{ty(f.t, me)} as Subject>::gen_(s, d + 1)"

    def instance(self, i, snap):
        d, r, me = self.fam[i], snap[i], f"T{i}"
        latest = self.is_latest(i, snap)
        w = self.w
        w(f"pub mod {self.mod(i, snap)} {{")
        w("use crate::support::*;")
        for x in sorted(self.trans[i]):
            if x in d.deps():
                w(f"use super::{self.mod(x, snap)}::T{x};")
        walk = "" if latest else ", walk = false"
        w(f"#[revisioned({self.rev_attr(d, r)}{walk})]")
        der = "Clone, Debug" + (", PartialEq, Eq, PartialOrd, Ord, Hash" if d.ordd else "")
        w(f"#[derive({der})]")
        if d.kind == "enum":
            self.enum_instance(i, d, r, me, latest)
        else:
            self.struct_instance(i, d, r, me, latest)
        revs = ", ".join(str(x) for x in snap)
        w(f"impl Default for {me} {{ fn default() -> Self {{ Self::from_seed(7) }} }}")
        tags = ""
        if d.kind == "enum" and any(d.revs[:r]):
            rows = []
            for q in range(1, r + 1):
                if d.form(q) == "Legacy":
                    rows.append("None")
                    continue
                ds = discriminants(d, q)
                ent = []
                for v in d.variants:
                    if v.alive(q):
                        size = v.size if isinstance(v.size, str) else v.size[0]
                        n = v.size[1] if isinstance(v.size, tuple) else 0
                        ent.append(f"({ds[v.name]}, Size::{size.capitalize()}, {n})")
                rows.append(f"Some(&[{', '.join(ent)}])")
            tags = f"const TAGS: &'static [Option<&'static [(u32, Size, usize)]>] = &[{', '.join(rows)}];"
        w(f"impl Instance for {me} {{ const REV: u16 = {r}; const REVS: &'static [u16] = &[{revs}]; const ID: usize = {i};"
          f" const ERRS: bool = {str(self.errs[i]).lower()}; {tags}")
        self.parts(d, r, me)
        if latest:
            self.tables(d, me)
        w("}")
        w(f"impl Subject for {me} {{ const STRICT: bool = {self.strict(d, r, me)};")
        w("fn emit(&self, o: &mut Vec<u8>, c: bool) { o.extend(self.parts(c).assemble(<Self as Instance>::REV).0) }")
        w("fn gen_(s: &mut Src, d: u32) -> Self { let _ = d;")
        self.gen_body(d, r, me)
        w("}")
        self.read(d, r, me, latest)
        w("}")
        if latest:
            self.drive(i, d, me)
        w("}")

    # -- structs
    def struct_instance(self, i, d, r, me, latest):
        w = self.w
        fs = [f for f in d.fields if f.start <= r]
        if d.kind == "unit":
            w(f"pub struct {me};")
        elif d.kind == "named":
            w(f"pub struct {me} {{")
            for f in fs:
                w(f"{self.field_attr(d, f, r)}pub {f.name}: {ty(f.t, me)},")
            w("}")
        else:
            w(f"pub struct {me}(")
            for f in fs:
                w(f"{self.field_attr(d, f, r)}pub {ty(f.t, me)},")
            w(");")
        w("#[allow(dead_code)]")
        w(f"impl {me} {{")
        for f in fs:
            if f.start > 1 and f.default:
                w(f"fn {self.dfn(f, None)}(rev: u16) -> Result<{ty(f.t, me)}, Error> {{ {self.default_body(i, f, None, me)} }}")
            if f.end and f.end <= r:
                acc = "self.acc" if d.kind == "named" else "self.0"
                w(f"fn {self.cfn(f, None)}(&mut self, rev: u16, v: {ty(f.t, me)}) -> Result<(), Error> {{ let h = v.digest(); "
                  f"{self.refuse(d)} {acc} = fold({acc}, {tag(i, f.name)}, rev, h); Ok(()) }}")
        w("}")

    def refuse(self, d):
        return 'if h % 8 == 0 { return Err(Error::Conversion("refused".into())); }' if d.errs else ""

    def default_body(self, i, f, v, me):
        if has_self(f.t):
            return "let _ = rev; Ok(Default::default())" if f.t[0] != "box" else f"let _ = rev; Ok(Box::new({me}::from_seed(rev as u64)))"
        return f"Ok(<{ty(f.t, me)} as Subject>::from_seed(mix({tag(i, v, f.name)} ^ rev as u64)))"

    def default_value(self, i, f, v, me, rev):
        if f.default:
            if has_self(f.t):
                return "Default::default()" if f.t[0] != "box" else f"Box::new({me}::from_seed({rev}))"
            return f"<{ty(f.t, me)} as Subject>::from_seed(mix({tag(i, v, f.name)} ^ {rev}u64))"
        return f"<{ty(f.t, me)} as Default>::default()"

    def acc_of(self, d, r, f):
        """Name or index of a struct's field at revision r."""
        if d.kind == "named":
            return f.name
        return str([x for x in d.fields if x.alive(r)].index(f))

    def parts(self, d, r, me):
        w = self.w
        form = d.form(r)
        w("fn parts(&self, c: bool) -> Parts { let _ = c;")
        if d.kind != "enum":
            es = [f"piece(|o| {self.emit_field(f, form, 'self.' + self.acc_of(d, r, f))})" for f in d.fields if f.alive(r)]
            w(f"Parts {{ form: Form::{form}, variant: None, fields: vec![{', '.join(es)}] }} }}")
            return
        w("match self {")
        ds = discriminants(d, r)
        for v in d.variants:
            if not v.alive(r):
                continue
            fs = [f for f in v.fields if f.alive(r)]
            size = "Inline"
            if form != "Legacy":
                size = (v.size if isinstance(v.size, str) else v.size[0]).capitalize()
            es = [f"piece(|o| {self.emit_field(f, form, f'f{k}')})" for k, f in enumerate(fs)]
            w(f"{self.pat(v, fs, me)} => Parts {{ form: Form::{form}, variant: Some(({ds[v.name]}, Size::{size})), fields: vec![{', '.join(es)}] }},")
        w("} }")

    def read_field(self, f, form, me):
        """Code reading the field from `e`."""
        t = ty(f.t, me)
        if form != "Legacy" and f.indexed:
            return f"read_{f.indexed}(e)?"
        if form == "Legacy" and f.raw:
            return f"<{t} as Raw>::unraw(e)?"
        return f"<{t} as Subject>::read(e)?"

    def read(self, d, r, me, latest):
        w = self.w
        form = d.form(r)
        w("#[allow(unused_mut, unused_variables)]")
        w(f"fn read(b: &mut &[u8]) -> Got<Self> {{ refdec::head(b, {r}, {str(latest).lower()})?;")

        def fields(fs, body, make):
            w("let e = b;" if body == "plain" else f"let mut e = {body}; let e = &mut e;")
            for k, f in enumerate(fs):
                w(f"let f{k} = {self.read_field(f, form, me)};")
            if body != "plain":
                w("refdec::end(e)?;")
            w(f"Ok({make}) }}")
        if d.kind != "enum":
            fs = [f for f in d.fields if f.alive(r)]
            body = "plain" if form == "Legacy" else "refdec::envelope(b)?"
            if d.kind == "unit":
                make = me
            elif d.kind == "named":
                make = me + " { " + ", ".join(f"{f.name}: f{k}" for k, f in enumerate(fs)) + " }"
            else:
                make = me + "(" + ", ".join(f"f{k}" for k in range(len(fs))) + ")"
            if form == "Indexed":
                w("let mut e = refdec::envelope(b)?; let whole = e; let e = &mut e;")
                w(f"refdec::take(e, {4 * len(fs)})?;")
                for k, f in enumerate(fs):
                    w(f"refdec::starts(whole, e, {k})?; let f{k} = {self.read_field(f, form, me)};")
                w(f"refdec::end(e)?; Ok({make}) }}")
            else:
                fields(fs, body, make)
            return
        ds = discriminants(d, r)
        w("match refdec::uint(b, 4)? as u32 {" if form == "Legacy" else "match refdec::tag(b)? {")
        for v in d.variants:
            if not v.alive(r):
                continue
            fs = [f for f in v.fields if f.alive(r)]
            body, pat = "plain", f"{ds[v.name]}"
            if form != "Legacy":
                size = v.size if isinstance(v.size, str) else v.size[0]
                pat = f"({ds[v.name]}, Size::{size.capitalize()})"
                body = {"inline": "{ let none: &[u8] = &[]; none }", "varlen": "refdec::envelope(b)?"}.get(size)
                if body is None:
                    body = f"refdec::take(b, {v.size[1]})?"
            w(f"{pat} => {{")
            fields(fs, body, self.make(v, fs, me, [f"f{k}" for k in range(len(fs))]))
        w("_ => Err(Stop::Bad) } }")

    def pat(self, v, fs, me, prefix="f"):
        if v.kind == "unit":
            return f"{me}::{v.name}"
        if v.kind == "named":
            return f"{me}::{v.name} {{ {', '.join(f'{f.name}: {prefix}{k}' for k, f in enumerate(fs))} }}"
        return f"{me}::{v.name}({', '.join(f'{prefix}{k}' for k in range(len(fs)))})"

    def make(self, v, fs, me, exprs):
        if v.kind == "unit":
            return f"{me}::{v.name}"
        if v.kind == "named":
            return f"{me}::{v.name} {{ {', '.join(f'{f.name}: {e}' for f, e in zip(fs, exprs))} }}"
        return f"{me}::{v.name}({', '.join(exprs)})"

    def gen_body(self, d, r, me):
        w = self.w
        if d.kind == "unit":
            w(f"let _ = s; {me}")
        elif d.kind == "named":
            w(f"{'let _ = &s; ' if not any(f.alive(r) for f in d.fields) else ''}{me} {{ " +
              ", ".join(f"{f.name}: {self.gen_expr(f, me)}" for f in d.fields if f.alive(r)) + " }")
        elif d.kind == "tuple":
            w(f"let _ = &s; {me}(" + ", ".join(self.gen_expr(f, me) for f in d.fields if f.alive(r)) + ")")
        else:
            vs = [v for v in d.variants if v.alive(r)]
            flat = [v for v in vs if not any(has_self(f.t) for f in v.fields)]
            rec = [v for v in vs if v not in flat]
            w(f"match s.below(if d >= 3 {{ {len(flat)} }} else {{ {len(vs)} }}) {{")
            for k, v in enumerate(flat + rec):
                fs = [f for f in v.fields if f.alive(r)]
                pat = str(k) if k < len(vs) - 1 else "_"
                w(f"{pat} => {self.make(v, fs, me, [self.gen_expr(f, me) for f in fs])},")
            w("}")

    # -- enums
    def fields_name(self, v, me):
        return v.fields_name or f"{me}{v.name}Fields"

    def enum_instance(self, i, d, r, me, latest):
        w = self.w
        w(f"pub enum {me} {{")
        opt = any(d.revs[:r])
        for v in d.variants:
            if v.start > r:
                continue
            o = []
            if v.start > 1:
                o.append(f"start = {v.start}")
            if v.end and v.end <= r:
                o += [f"end = {v.end}", f'convert_fn = "cv_{v.name.lower()}"']
            for q, x in sorted(v.discs.items()):
                if q <= r:
                    o.append(f"override(revision = {q}, discriminant = {x})")
            if opt and v.size:
                size = v.size if isinstance(v.size, str) else f"fixed({v.size[1]})"
                o.append(f'size = "{size}"')
            if v.fields_name:
                o.append(f'fields_name = "{v.fields_name}"')
            if o:
                w(f"#[revision({', '.join(o)})]")
            fs = [f for f in v.fields if f.start <= r]
            if v.kind == "unit":
                w(f"{v.name},")
            elif v.kind == "named":
                w(f"{v.name} {{ " + ", ".join(f"{self.field_attr(d, f, r, v.name)}{f.name}: {ty(f.t, me)}" for f in fs) + " },")
            else:
                w(f"{v.name}(" + ", ".join(f"{self.field_attr(d, f, r, v.name)}{ty(f.t, me)}" for f in fs) + "),")
        w("}")
        w("#[allow(dead_code)]")
        w(f"impl {me} {{")
        for v in d.variants:
            if v.start > r:
                continue
            gone = v.end and v.end <= r
            for f in v.fields:
                if f.start > r:
                    continue
                if f.start > 1 and f.default:
                    w(f"fn {self.dfn(f, v.name)}(rev: u16) -> Result<{ty(f.t, me)}, Error> {{ {self.default_body(i, f, v.name, me)} }}")
                if f.end and f.end <= r:
                    acc = "fields.acc" if v.kind == "named" else "fields.0"
                    w(f"fn {self.cfn(f, v.name)}(fields: &mut {self.fields_name(v, me)}, rev: u16, v: {ty(f.t, me)}) -> Result<(), Error> {{ "
                      f"let h = v.digest(); {self.refuse(d)} {acc} = fold({acc}, {tag(i, v.name, f.name)}, rev, h); Ok(()) }}")
            if gone:
                fs = [f for f in v.fields if f.alive(r)]
                w(f"fn cv_{v.name.lower()}(fields: {self.fields_name(v, me)}, rev: u16) -> Result<Self, Error> {{ let _ = &fields; "
                  f"let h = {tag(i, v.name)}u64;")
                for k, f in enumerate(fs):
                    w(f"let h = fold(h, {k}, rev, fields.{f.name if v.kind == 'named' else k}.digest());")
                w(f"let h = fold(h, 99, rev, 0); {self.refuse(d)} Ok(Self::from_seed(h)) }}")
        w("}")

    # -- tables
    def tables(self, d, me):
        w = self.w
        w("fn tables() -> Result<(), String> {")
        n = d.n
        if d.kind == "enum":
            rows = []
            for q in range(1, n + 1):
                ds = discriminants(d, q)
                rows.append("&[" + ", ".join(f'("{v.name}", {ds[v.name]})' for v in d.variants if v.alive(q)) + "]")
            w(f"variant_tables(&[{', '.join(rows)}], {me}::walk_revisioned_variant_table, {me}::walk_revisioned_variant_name)")
        else:
            rows = []
            for q in range(1, n + 1):
                rows.append("&[" + ", ".join('"' + (f.name if d.kind == "named" else str(d.fields.index(f))) + '"'
                                              for f in d.fields if f.alive(q)) + "]")
            w(f"field_tables(&[{', '.join(rows)}], {me}::walk_revisioned_field_names)")
        w("}")

    # -- walking
    def field_static(self, f, name, n, before):
        kind = "Indexed" if f.indexed else "Raw" if f.raw else "Plain"
        pos = []
        for q in range(1, n + 1):
            k = sum(1 for x in before if x.alive(q))
            pos.append(k if f.alive(q) else -1 - k)
        return f'Field {{ name: "{name}", kind: Kind::{kind}, pos: &[{", ".join(map(str, pos))}] }}'

    def special(self, f, expr):
        if f.indexed:
            return f"|b| is_{f.indexed[8:]}(&{expr}, b)"
        if f.raw:
            return f"|b| is_raw(&{expr}, b)"
        return "|_| unreachable!()"

    def drive(self, i, d, me):
        w = self.w
        n = d.n
        w(f"const INFO: Info = Info {{ id: {i}, name: \"{self.name}::{me}\", converts: {str(d.converts()).lower()}, "
          f"is_enum: {str(d.kind == 'enum').lower()}, forms: &[{', '.join('Form::' + d.form(q) for q in range(1, n + 1))}] }};")
        w(f"impl Drive for {me} {{")
        if d.kind == "enum":
            self.drive_enum(d, me)
        else:
            self.drive_struct(d, me)
        w("}")

    def drive_struct(self, d, me):
        w = self.w
        n = d.n
        fs = [f for f in d.fields if f.alive(n)]
        w("fn calm(cx: &Cx) -> bool { cx.at_type(&INFO).mode != Mode::Owned }")
        w("#[allow(unused_mut, unused_variables)]")
        w("fn drive<'r, R: BorrowedReader>(&self, mut w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {")
        stat = []
        for k, f in enumerate(fs):
            before = d.fields[:d.fields.index(f)]
            name = f.name if d.kind == "named" else f"field_{k}"
            stat.append(self.field_static(f, name, n, before))
        w(f"static F: [Field; {len(fs)}] = [{', '.join(stat)}];")
        w("let at = cx.at_type(&INFO); struct_head(&INFO, &at, w.revision(), cx)?;")
        w(f"for i in order({len(fs)}, &at, s) {{ let last = i + 1 == {len(fs)}; match i {{")
        for k, f in enumerate(fs):
            m = f.name if d.kind == "named" else f"field_{k}"
            x = f"self.{f.name if d.kind == 'named' else k}"
            if f.indexed:
                def walked(what, call):
                    if f.indexed == "indexed_map":
                        return f"map_view({x}.iter(), &F[{k}], &at, \"{what}\", {call}, s, cx)?"
                    return f"{f.indexed[8:]}_view({x}.iter(), &F[{k}], &at, \"{what}\", {call}, cx)?"
            else:
                def walked(what, call):
                    return f"walked(&{x}, &F[{k}], &at, \"{what}\", {call}, s, cx)?"
            w(f"{k} => match op(&{x}, &F[{k}], last, &at, s, cx) {{")
            w(f"Op::Skip => {{ cx.note(\"skip_{m}\"); let r = cx.meter(\"skip_{m}\", at.mode != Mode::Owned, || w.skip_{m}()); cx.ok(\"skip_{m}\", r)?; }}")
            w(f"Op::Walk => {{ let r = cx.meter(\"walk_{m}\", opens_on(&{x}, &F[{k}], &at, cx), || w.walk_{m}()); if !{walked('walk', 'r')} {{ let r = w.decode_{m}(); cx.same(\"decode_{m} after a refused walk\", r, &{x})?; }} }}")
            w(f"Op::IntoWalk => {{ let r = cx.meter(\"into_walk_{m}\", opens_on(&{x}, &F[{k}], &at, cx), || w.into_walk_{m}()); let done = {walked('into_walk', 'r')}; ended(&F[{k}], &at, done, cx); return Ok(()); }}")
            w(f"Op::IntoBytes => {{ let r = cx.meter(\"into_{m}_bytes\", at.mode != Mode::Owned, || w.into_{m}_bytes()); bytes_of(&{x}, &F[{k}], &at, r, {self.special(f, x)}, s, cx)?; ended(&F[{k}], &at, true, cx); return Ok(()); }}")
            w(f"Op::Drop => {{ drop(w); ended(&F[{k}], &at, false, cx); return Ok(()); }}")
            w(f"Op::Decode => {{ cx.note(\"decode_{m}\"); let r = w.decode_{m}(); cx.same(\"decode_{m}\", r, &{x})?; }}")
            w("},")
        w("_ => unreachable!() } } Ok(()) }")

    def snake(self, s):
        o = ""
        for i, c in enumerate(s):
            if c.isupper() and i > 0:
                o += "_"
            o += c.lower()
        return o

    def drive_enum(self, d, me):
        w = self.w
        n = d.n
        vs = [v for v in d.variants if v.alive(n)]
        single = [v.kind == "tuple" and sum(f.alive(n) for f in v.fields) == 1 for v in vs]
        multi = [not s1 and v.kind != "unit" for v, s1 in zip(vs, single)]
        pats = []
        for v, m in zip(vs, multi):
            if m:
                pats.append(f"{me}::{v.name} {{ .. }}")
        w("#[allow(unused_variables)] fn drivable(&self, cx: &Cx) -> bool { " +
          (f"!(cx.at_type(&INFO).mode == Mode::Wire && matches!(self, {' | '.join(pats)}))" if pats else "true") + " }")
        w("fn calm(cx: &Cx) -> bool { cx.at_type(&INFO).mode != Mode::Owned }")
        w("#[allow(unused_mut, unused_variables)]")
        w("fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {")
        table = []
        for v in vs:
            row = []
            for q in range(1, n + 1):
                row.append(f"Some({discriminants(d, q)[v.name]})" if v.alive(q) else "None")
            table.append(f'Variant {{ name: "{v.name}", disc: &[{", ".join(row)}] }}')
        w(f"static V: [Variant; {len(vs)}] = [{', '.join(table)}];")
        w("let at = cx.at_type(&INFO);")
        arms = ", ".join(f"{me}::{v.name} {{ .. }} => {k}" for k, v in enumerate(vs))
        w(f"let me = match self {{ {arms} }};")
        isx = ", ".join(f"w.is_{self.snake(v.name)}()" for v in vs)
        w(f"let is = [{isx}]; enum_head(&V, me, &at, w.revision(), w.discriminant(), &is, {me}::walk_revisioned_variant_name, cx)?;")
        w(f"if let Some(k) = wrong({len(vs)}, me, &at, s, cx) {{ match k {{")
        for k, v in enumerate(vs):
            sn = self.snake(v.name)
            pat = str(k) if k < len(vs) - 1 else "_"
            if multi[k]:
                w(f"{pat} => cx.refused(\"{sn}_view\", w.{sn}_view())?,")
            elif single[k]:
                w(f"{pat} => match s.below(3) {{ 0 => {{ let r = w.into_{sn}().map(|_| ()); cx.refused(\"into_{sn}\", r)? }} "
                  f"1 => cx.refused(\"decode_{sn}\", w.decode_{sn}())?, _ => cx.refused(\"{sn}_view\", w.{sn}_view())? }},")
            else:
                w(f"{pat} => if s.bool() {{ cx.refused(\"into_{sn}\", w.into_{sn}())? }} else {{ cx.refused(\"decode_{sn}\", w.decode_{sn}())? }},")
        w("} cx.halt(&at, 0); return Ok(()); }")
        w("match self {")
        form = d.form(n)
        for k, v in enumerate(vs):
            sn = self.snake(v.name)
            fs = [f for f in v.fields if f.alive(n)]
            w(f"{self.pat(v, fs, me)} => {{")
            if single[k]:
                f = fs[0]
                w(f"static F: Field = {self.field_static(f, sn, n, v.fields[:v.fields.index(f)])};")
                w(f"match op(f0, &F, true, &at, s, cx) {{")
                w(f"Op::Walk | Op::IntoWalk if into_ok(f0, &F, &at, cx) => {{ let r = cx.meter(\"into_{sn}\", opens_on(f0, &F, &at, cx), || w.into_{sn}()); let done = walked(f0, &F, &at, \"into\", r, s, cx)?; ended(&F, &at, done, cx); }}")
                w(f"Op::IntoBytes => {{ let r = cx.meter(\"{sn}_view\", at.mode == Mode::Optimised && F.present(&at), || w.{sn}_view()); variant_view(f0, &F, &at, r, cx)?; }}")
                w(f"Op::Drop => {{ drop(w); cx.halt(&at, 0); }}")
                w(f"_ => {{ cx.note(\"decode_{sn}\"); let r = w.decode_{sn}(); cx.same(\"decode_{sn}\", r, f0)?; }} }}")
            elif multi[k]:
                def tk(f, j):
                    if form == "Legacy" and f.raw:
                        return f"take_raw(f{j}, b)?"
                    return f"take(f{j}, b)?"
                on = [", ".join(str(f.alive(q)).lower() for q in range(1, n + 1)) for f in fs]
                w(f"static ON: [&[bool]; {len(fs)}] = [{', '.join(f'&[{o}]' for o in on)}];")
                w("let q = at.rev() as usize - 1;")
                body = " && ".join(["true"] + [f"(!ON[{j}][q] || {tk(f, j)})" for j, f in enumerate(fs)])
                w(f"let r = cx.meter(\"{sn}_view\", at.mode == Mode::Optimised, || w.{sn}_view()); body_view(\"{sn}\", ON.iter().filter(|o| o[q]).count(), &at, r, |b| {{ let _ = &b; Ok({body}) }}, cx)?; cx.halt(&at, 0);")
            else:
                w(f"let r = if s.bool() {{ w.into_{sn}() }} else {{ w.decode_{sn}() }}; cx.ok(\"into_{sn}\", r)?;")
            w("}")
        w("} Ok(()) }")

    # -- migration
    def migration(self, i, snap):
        d, r, n = self.fam[i], snap[i], self.latest[i]
        w = self.w
        A, B = f"{self.mod(i, snap)}::T{i}", f"{self.mod(i, self.latest)}::T{i}"
        me = B
        w(f"#[allow(unused_mut, unused_variables)] impl Migrate<{B}> for {A} {{ fn migrate(&self) -> Result<{B}, String> {{")
        if self.is_latest(i, snap):
            w("Ok(self.clone()) } }")
            return

        def full(t):  # type term in terms of the latest modules
            return self.lty(t, i)
        if d.kind == "enum":
            w("Ok(match self {")
            for v in d.variants:
                if not v.alive(r):
                    continue
                old = [f for f in v.fields if f.alive(r)]
                new = [f for f in v.fields if f.alive(n)]
                w(f"{self.pat(v, old, A)} => {{")
                exprs = self.migrate_fields(i, d, v.name, v.fields, old, new, r, full,
                                            {f: f"f{k}" for k, f in enumerate(old)})
                if v.alive(n):
                    self.removed(i, d, v.name, old, new, r)
                    w(self.make(v, new, B, exprs))
                else:
                    # fields of a removed variant are those of its last revision
                    w(f"let h = {tag(i, v.name)}u64;")
                    for k, f in enumerate(new):
                        w(f"let h = fold(h, {k}, {r}, ({exprs[k]}).digest());")
                    w(f"let h = fold(h, 99, {r}, 0);")
                    if d.errs:
                        w('if h % 8 == 0 { return Err("refused".into()); }')
                    w(f"<{B} as Subject>::from_seed(h)")
                w("}")
            w("}) } }")
            return
        old = [f for f in d.fields if f.alive(r)]
        new = [f for f in d.fields if f.alive(n)]
        exprs = self.migrate_fields(i, d, None, d.fields, old, new, r, full,
                                    {f: "(&self." + (f.name if d.kind == "named" else str(k)) + ")" for k, f in enumerate(old)})
        self.removed(i, d, None, old, new, r)
        if d.kind == "unit":
            w(f"Ok({B})")
        elif d.kind == "named":
            w(f"Ok({B} {{ " + ", ".join(f"{f.name}: {e}" for f, e in zip(new, exprs)) + " })")
        else:
            w(f"Ok({B}(" + ", ".join(exprs) + "))")
        w("} }")

    def migrate_fields(self, i, d, v, decl, old, new, r, full, src):
        w = self.w
        for f in decl:
            if f in old:
                nm = f"m_{f.name}"
                w(f"let mut {nm}: {full(f.t)} = {src[f]}.migrate()?;")
            elif f in new:
                w(f"let mut m_{f.name}: {full(f.t)} = {self.lat(self.default_value(i, f, v, '@ME@', r), i, f)};")
        return [f"m_{f.name}" for f in new]

    def lat(self, s, i, f):
        me = f"{self.mod(i, self.latest)}::T{i}"
        s = s.replace(ty(f.t, "@ME@"), self.lty(f.t, i))
        return s.replace("@ME@", me)

    def lty(self, t, i):
        me = f"{self.mod(i, self.latest)}::T{i}"
        k = t[0]
        if k == "user":
            return f"{self.mod(t[1], self.latest)}::T{t[1]}"
        if k == "leaf" or k == "arr" or k == "self":
            return ty(t, me)
        if k == "tup":
            return "(" + ", ".join(self.lty(x, i) for x in t[1]) + ")"
        name = {"opt": "Option", "vec": "Vec", "box": "Box", "arc": "Arc", "map": "BTreeMap", "hmap": "HashMap", "set": "BTreeSet",
                "hset": "HashSet", "res": "Result"}[k]
        return f"{name}<{', '.join(self.lty(x, i) for x in t[1:])}>"

    def removed(self, i, d, v, old, new, r):
        w = self.w
        acc = "m_acc" if (v is None and d.kind == "named") or any(f.name == "acc" for f in new) else "m_0"
        for f in old:
            if f in new:
                continue
            t = tag(i, f.name) if v is None else tag(i, v, f.name)
            w(f"let h = m_{f.name}.digest();")
            if d.errs:
                w('if h % 8 == 0 { return Err("refused".into()); }')
            w(f"{acc} = fold({acc}, {t}, {r}, h);")

    def write(self):
        self.w(f"pub mod {self.name} {{")
        self.w("#[allow(unused_imports)] use crate::support::*;")
        for i, snap in self.instances:
            self.instance(i, snap)
        for i, snap in self.instances:
            self.migration(i, snap)
        self.w("}")
        return "\n".join(self.out)


def snapshots(rng, fam, extra):
    """Points in time, from the first revisions to the latest."""
    latest = tuple(d.n for d in fam)
    seen = []
    cur = [1] * len(fam)
    path = [tuple(cur)]
    while tuple(cur) != latest:
        can = [i for i in range(len(fam)) if cur[i] < latest[i]]
        for i in rng.sample(can, rng.randint(1, len(can))):
            cur[i] += 1
        path.append(tuple(cur))
    if len(path) > extra + 2:
        mid = sorted(rng.sample(range(1, len(path) - 1), extra))
        path = [path[0]] + [path[k] for k in mid] + [path[-1]]
    for p in path:
        if p not in seen:
            seen.append(p)
    return seen


STYLES = ["any", "legacy", "mixed", "optimised", "raw", "any", "mixed", "any"]


def families(seed, count, which=None):
    """(name, family, snapshots); `which`: styles of the random families."""
    out = []
    for name, fam, *times in fixtures():
        rng = random.Random(f"fix-{name}-{seed}")
        out.append((f"fix_{name}", fam, times[0] if times else snapshots(rng, fam, 2)))
    for k in range(count):
        rng = random.Random(f"fam-{seed}-{k}-{which}")
        styles = which or STYLES
        fam = Gen(rng).family(styles[k % len(styles)])
        out.append((f"fam{k}", fam, snapshots(rng, fam, 2)))
    return out


def write_all(out, seed, count, style=""):
    fams = families(seed, count, [style] if style else None)
    code, latest, old, mig = [], [], [], []
    for name, fam, snaps in fams:
        wr = Writer(name, fam, snaps)
        code.append(wr.write())
        for i, snap in wr.instances:
            p = f"$crate::{name}::{wr.mod(i, snap)}::T{i}"
            lt = f"$crate::{name}::{wr.mod(i, wr.latest)}::T{i}"
            d = fam[i]
            fl = dict(raw=d.overrides(), tags=d.optimised_enum())
            if wr.is_latest(i, snap):
                latest.append((p, fl))
            else:
                old.append((p, fl))
                mig.append((p, lt, fl))
    src = ["// Generated; see lib/gen.py."] + code

    def macro(name, items):
        src.append(f"#[macro_export] macro_rules! {name} {{ ($m:ident) => {{ {' '.join(f'$m!({x});' for x in items)} }}; }}")
    macro("latest_types", [p for p, _ in latest])
    macro("old_types", [p for p, _ in old])
    macro("migrations", [f"{a} => {b}" for a, b, _ in mig])
    macro("raw_types", [p for p, f in latest + old if f["raw"]])
    macro("raw_latest", [p for p, f in latest if f["raw"]])
    macro("raw_migrations", [f"{a} => {b}" for a, b, f in mig if f["raw"]])
    macro("enum_types", [p for p, f in latest if f["tags"]])
    macro("enum_migrations", [f"{a} => {b}" for a, b, f in mig if f["tags"]])
    text = "\n".join(src) + "\n"
    path = os.path.join(out, "derived.rs")
    if not (os.path.exists(path) and open(path).read() == text):
        with open(path, "w") as f:
            f.write(text)
    return dict(families=len(fams), latest=len(latest), old=len(old))


if __name__ == "__main__":
    import sys
    os.makedirs(sys.argv[1], exist_ok=True)
    print(write_all(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), *sys.argv[4:]))
