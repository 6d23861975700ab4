"""C02 and C03: generated declarations, derived, observed, judged."""
from vf import *
from types_ import *
import types_

HARD = ["rem", "ordinal", "from_ordinal", "f0", "f1", "size", "self_", "_ignore", "_check_overflow", "value", "r#type", "r#fn", "r#match", "std_",
        "None", "Some", "ORDINAL_SIZE", "Ordinal", "A", "N", "x", "__rem", "__f0", "__ordinal", "a", "usize_", "ordinal_map_", "i", "r#struct", "r#mod"]
VARIANTS = ["None", "Some", "Ok", "Err", "Option", "ORDINAL_SIZE", "Ordinal", "Left", "A", "B", "C", "rem", "ordinal", "f0", "r#fn", "Box", "Result",
            "Vals", "bool_", "T", "N", "Some_", "X", "Y", "Z", "First", "Self_"]


class Variant:
    def __init__(self, name, style, fields):
        self.name, self.style, self.fields = name, style, fields   # fields: [(key, T)]


class Decl:
    """One declared type, possibly generic, with the harness's own enumeration of its values."""
    def __init__(self, name, enum, variants, generics=(), disc=None, attrs="", where="", usevariants=False, macro=False, junk=""):
        self.name, self.enum, self.variants, self.generics = name, enum, variants, list(generics)   # generics: [(param, argument T)], param text such as "P0" or "const N: usize"
        self.disc, self.attrs, self.where, self.usevariants, self.macro, self.junk = disc or {}, attrs, where, usevariants, macro, junk
        sizes = []
        for v in variants:
            n = 1
            for _, t in v.fields: n *= t.n
            sizes.append(n)
        self.n = sum(sizes) if enum else sizes[0]

    def fits(self):
        return self.n <= TOP and all(partial_products_fit([t for _, t in v.fields]) for v in self.variants)

    def inst(self):
        return self.name + ("<%s>" % ", ".join(a for _, a in self.generics) if self.generics else "")

    def header(self, extra):
        if not self.generics: return "", ""
        ps, names = [], []
        for p, _ in self.generics:
            if p.startswith("const "):
                ps.append(p); names.append(p.split()[1].rstrip(":"))
            else:
                ps.append("%s: %s" % (p, extra)); names.append(p)
        return "<%s>" % ", ".join(ps), "<%s>" % ", ".join(names)

    def body(self, v, sub=lambda s: s):
        if v.style == "unit": return ""
        fs = ["%s%s%s" % ("pub " if not self.enum else "", "" if v.style == "tuple" else k + ": ", sub(t.decl)) for k, t in v.fields]
        return "(%s)" % ", ".join(fs) if v.style == "tuple" else " { %s }" % ", ".join(fs)

    def text(self, derives):
        gen, args = self.header("ordinal_map::Ordinal")
        d = "#[derive(%s)]\n%s" % (", ".join(derives), self.attrs)
        if self.enum:
            vs = []
            for i, v in enumerate(self.variants):
                vs.append("%s%s%s" % (v.name, self.body(v), " = %d" % self.disc[i] if i in self.disc else ""))
            d += "pub enum %s%s%s {\n  %s\n}\n" % (self.name, gen, self.where, ",\n  ".join(vs))
        else:
            v = self.variants[0]
            b = self.body(v)
            d += "pub struct %s%s%s" % (self.name, gen, (self.where + b if v.style == "record" else b + self.where) if v.style != "unit" else self.where) + \
                 (";\n" if v.style != "record" else "\n")
        if self.macro: d = self.as_macro(d)
        return d + (("pub use self::%s::*;\n" % self.name) if self.usevariants else "") + self.vals()

    def as_macro(self, d):
        """The same declaration through macro_rules, some names passed in, some written inside."""
        names, types = [], []
        for v in self.variants:
            for k, t in v.fields:
                if v.style == "record" and k not in names: names.append(k)
                if t.decl not in types: types.append(t.decl)
        names = names[::2]; types = [t for t in types if not re.search(r"\bP\d\b|\bN\d?\b", t)][:2]
        pats, args = [], []
        for i, t in enumerate(types):
            d = re.sub(r"(?<=[ (:])%s(?=[,) }])" % re.escape(t), "$t%d" % i, d); pats.append("$t%d:ty" % i); args.append(t)
        for i, n in enumerate(names):
            d = re.sub(r"(?<![\w$#])%s(?=: )" % re.escape(n), "$n%d" % i, d); pats.append("$n%d:ident" % i); args.append(n)
        return "macro_rules! make { (%s) => { %s } }\nmake!(%s);\n" % (", ".join(pats), d, ", ".join(args))

    def vals(self):
        gen, args = self.header("ordinal_map::Ordinal + ::harness::vals::Vals")
        V = "::harness::vals::Vals"
        cnt = lambda v: "1u128" + "".join(".saturating_mul(<%s as %s>::COUNT)" % (t.decl, V) for _, t in v.fields)
        o = ["impl%s %s for %s%s%s {" % (gen, V, self.name, args, self.where)]
        if self.enum:
            o.append("  const COUNT: u128 = 0u128" + "".join(".saturating_add(%s)" % cnt(v) for v in self.variants) + ";")
        else:
            o.append("  const COUNT: u128 = %s;" % cnt(self.variants[0]))
        ty = lambda v: "::harness::vals::prod(&[%s])" % ", ".join("<%s as %s>::ty()" % (t.decl, V) for _, t in v.fields)
        o.append("  fn ty() -> ::std::string::String { %s }" % ("::harness::vals::sum(&[%s])" % ", ".join(ty(v) for v in self.variants) if self.enum else ty(self.variants[0])))
        o.append("  fn nth(mut __i: u128) -> Self {")
        for v in self.variants:
            o.append("    { let __n: u128 = %s; if __i < __n { let mut __rest = __n;" % cnt(v))
            for k, (f, t) in enumerate(v.fields):
                o.append("      __rest /= <%s as %s>::COUNT; let __v%d = <%s as %s>::nth(__i / __rest); __i %%= __rest;" % (t.decl, V, k, t.decl, V))
            o.append("      return Self%s { %s }; } __i -= __n; }" % ("::" + v.name if self.enum else "", ", ".join("%s: __v%d" % (f, k) for k, (f, t) in enumerate(v.fields))))
        o.append("    ::std::panic!(\"no such value\") }")
        o.append("  fn code(&self, __o: &mut ::std::string::String) {")
        parts = lambda v: "::harness::parts_code!(__o%s)" % "".join(", __v%d" % k for k in range(len(v.fields)))
        pat = lambda v: "{ %s }" % ", ".join("%s: __v%d" % (f, k) for k, (f, t) in enumerate(v.fields))
        if not self.enum:
            o.append("    let Self %s = self; %s;" % (pat(self.variants[0]), parts(self.variants[0])))
        elif not self.variants:
            o.append("    match *self {}")
        else:
            o.append("    match self {")
            for i, v in enumerate(self.variants):
                o.append("      Self::%s %s => { __o.push_str(\"[%d,\"); %s; __o.push(']'); }" % (v.name, pat(v), i + 1, parts(v)))
            o.append("    }")
        o.append("  }\n}")
        return "\n".join(o)


class F:
    """A field type: how it is written in the declaration, and its number of values."""
    def __init__(self, decl, n, wide=False):
        self.decl, self.n, self.wide = decl, n, wide


def absolute(s):
    """Type text that resolves whatever names are in scope."""
    for n, p in (("Option", "::core::option::"), ("Result", "::core::result::"), ("Box", "::std::boxed::"), ("Ordering", "::core::cmp::"), ("Infallible", "::core::convert::")):
        s = re.sub(r"(?<![\w:])%s\b" % n, p + n, s)
    s = re.sub(r"(?<![\w:])(NonZero\w+)", r"::core::num::\1", s)
    s = re.sub(r"(?<![\w:])either::", "::either::", s)
    return s.replace(", )", ",)").replace("(,)", "()")


class Part:
    def __init__(self, text, calls):
        self.text, self.calls = text, calls


LEAVES = [T("bool", 2), T("Ordering", 3), T("()", 1), T("Infallible", 0), T("Option<bool>", 3), T("u8", 256), T("NonZeroI8", 255), T("[bool; 2]", 4),
          T("Box<bool>", 2), T("(bool, Ordering)", 6), T("Result<bool, ()>", 3), T("either::Either<(), bool>", 3), T("[(); 5]", 1), T("Option<Infallible>", 1)]
BIGLEAVES = [T("u16", 65536), T("i32", 1 << 32), T("u32", 1 << 32), T("char", 0x110000 - 0x800), T("NonZeroU32", (1 << 32) - 1), T("[u8; 3]", 1 << 24), T("i16", 65536),
             T("NonZeroU64", TOP), T("NonZeroIsize", TOP)]


class Gen:
    def __init__(self, rng, order):
        self.rng, self.order = rng, order
        self.parts, self.n = [], 0

    def field(self, t):
        return F(absolute(t.s), t.n, t.wide)

    def names(self, k, pool):
        r = self.rng
        if r.random() < .5:
            base = r.sample(pool, min(k, len(pool)))
        else:
            base = ["fld%d" % i for i in range(k)]
        return (base + ["more%d" % i for i in range(k)])[:k]

    def variant(self, name, ts):
        r = self.rng
        style = r.choice(["tuple", "record"]) if ts else r.choice(["unit", "unit", "tuple", "record"])
        keys = self.names(len(ts), HARD) if style == "record" else [str(i) for i in range(len(ts))]
        return Variant(name, style, [(k, self.field(t)) for k, t in zip(keys, ts)])

    def leaf(self, inner, big=.07):
        r = self.rng
        if inner and r.random() < .25: return r.choice(inner)
        if r.random() < big: return r.choice(BIGLEAVES)
        if r.random() < .85: return r.choice(LEAVES)
        while True:
            t = random_type(r, 2, [t for t in base_types() if t.n <= 65536])
            if not (self.order and t.wide): return t

    def emit(self, decls, top):
        """A module with helper declarations and the observed one."""
        i = self.n
        self.n += 1
        mod = "m%d" % i
        derives = ["::ordinal_map::Ordinal"] + (["PartialEq", "Eq", "PartialOrd", "Ord"] if self.order else [])
        text = "pub mod %s {\n%s\n%s}\n" % (mod, top.junk, "\n".join(
            "pub mod in%d {\n%s\n}\n" % (k, d.text(derives)) for k, d in enumerate(decls)) + top.text(derives))
        name = "%s %s" % (mod, top.name)
        path = "%s::%s" % (mod, top.inst())
        call = "order::<%s>(&mut out, %d, %s, %s)" % (path, i, quoted(name), "false" if top.disc else "true") if self.order \
            else "observe::<%s>(&mut out, %d, %s)" % (path, i, quoted(name))
        # paths in generic arguments
        self.parts.append(Part(text, [(name, call)]))

    def from_model(self, t):
        """A declaration of a type of the specification's state graph."""
        r, inner = self.rng, []

        def small(x):
            """a field type for x; nested sums and products sometimes become declared types"""
            if x["k"] == "prim": return T("bool", 2) if len(x["iv"]) == 1 else T("Ordering", 3)
            if x["k"] == "arr": return arr(small(x["e"]), x["n"])
            a = x["a"]
            if x["k"] == "prod":
                if r.random() < .6: return tup([small(y) for y in a])
                return declare(x)
            if not a: return T("Infallible", 0) if r.random() < .5 else declare(x)
            if len(a) == 2 and r.random() < .6:
                if a[0] == {"k": "prod", "a": []}: return option(small(a[1]))
                return (result if r.random() < .5 else either)(small(a[0]), small(a[1]))
            return declare(x)

        def build(x, name):
            if x["k"] == "prod":
                return Decl(name, False, [self.variant("", [small(y) for y in x["a"]])])
            if x["k"] != "sum":
                return Decl(name, False, [self.variant("", [small(x)])])
            vs = []
            for nm, y in zip(self.names(len(x["a"]), VARIANTS), x["a"]):
                vs.append(self.variant(nm, [small(z) for z in y["a"]] if y["k"] == "prod" and r.random() < .8 else [small(y)]))
            return Decl(name, True, vs)

        def declare(x):
            d = build(x, "In%d" % len(inner))
            inner.append(d)
            return T("in%d::%s" % (len(inner) - 1, d.name), d.n)

        top = build(t, "Top")
        # names inside helper modules are relative to the enclosing module
        for d in inner:
            for v in d.variants:
                for _, f in v.fields: f.decl = re.sub(r"(?<![\w:])in(\d+)::", r"super::in\1::", f.decl)
        top.usevariants = top.enum and bool(top.variants) and r.random() < .3
        self.emit(inner, top)

    def random(self):
        r = self.rng
        inner, generics, junk, attrs = [], [], "", ""
        if r.random() < .3:
            d = Decl("Sub", True, [self.variant(nm, [self.leaf([]) for _ in range(r.randint(0, 2))]) for nm in self.names(r.randint(1, 3), VARIANTS)])
            if d.fits() and d.n < 1 << 30: inner = [(d, T("in0::Sub", d.n))]
        pool = [t for _, t in inner]
        gp = []
        if r.random() < .35:
            for i in range(r.randint(1, 2)):
                t = self.leaf([], big=0)
                gp.append(("P%d" % i, t))
        constn = r.choice([0, 1, 2, 3]) if r.random() < .15 else None
        def ts(k):
            out = []
            for _ in range(k):
                x = r.random()
                if gp and x < .4:
                    p, t = r.choice(gp)
                    out.append(r.choice([T(p, t.n), option(T(p, t.n)), tup([T(p, t.n), T("bool", 2)]), arr(T(p, t.n), 2)]))
                elif constn is not None and x < .6:
                    out.append(T("[bool; N]", 2 ** constn))
                else:
                    out.append(self.leaf(pool))
            return out
        kind = r.random()
        if kind < .4:
            d = Decl("Top", False, [self.variant("", ts(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 9, 12, 17])))])
        elif kind < .5:   # many variants
            k = r.choice([20, 64, 65, 128, 130, 257, 300])
            vs = []
            for i in range(k):
                vs.append(self.variant("V%d" % i, ts(r.randint(1, 2)) if r.random() < .04 else []))
            d = Decl("Top", True, vs)
        else:
            k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8])
            d = Decl("Top", True, [self.variant(nm, ts(r.choice([0, 0, 1, 1, 2, 2, 3, 5]))) for nm in self.names(k, VARIANTS)])
        used = " ".join(f.decl for v in d.variants for _, f in v.fields)
        gens = []
        for p, t in gp:
            if re.search(r"\b%s\b" % p, used): gens.append((p, absolute(t.s)))
        if constn is not None and re.search(r"\bN\b", used): gens.append(("const N: usize", str(constn)))
        for v in d.variants:   # a field may not be called like the const parameter... it may: keep
            pass
        d = Decl(d.name, d.enum, d.variants, gens)
        if not d.fits(): return self.random()
        if self.order and any(f.wide for v in d.variants for _, f in v.fields): return self.random()
        if any(p.startswith("P") for p, _ in gens) and r.random() < .4:
            d.where = " where P%s: ::core::marker::Sized" % [p for p, _ in gens if p.startswith("P")][0][1:]
        if d.enum and d.variants and r.random() < .25:
            fieldless = all(v.style == "unit" for v in d.variants)
            if not fieldless or len(d.variants) > 100: d.attrs = "#[repr(i32)]\n"
            xs = r.sample(range(-1000, 1000), len(d.variants))
            keep = r.random()
            last = None
            for i, x in enumerate(xs):      # implicit ones follow the previous: keep them distinct
                if keep < .5 or i == 0 or r.random() < .6: d.disc[i] = x * 1000 + i
            d.disc = self.distinct(d.disc, len(d.variants))
        elif not gens and r.random() < .2:
            d.macro = True
        elif d.enum and d.variants and r.random() < .3 and len(d.variants) < 50 and not gens:
            d.usevariants = True
        if r.random() < .2 and not d.usevariants:
            keys = {k for v in d.variants if v.style == "record" for k, _ in v.fields} | {"f0", "rem", "ordinal", "f1"}
            taken = {p.split()[1].rstrip(":") if " " in p else p for p, _ in gens} | {"Top", "Sub", "in0"}
            keys = sorted(k for k in keys if k not in taken and not k.startswith("_") and not k.startswith("r#"))
            junk = "".join("pub const %s: u8 = %d;\n" % (k, i) for i, k in enumerate(keys[::2])) + "".join("pub struct %s;\n" % k for k in keys[1::2])
        if r.random() < .15 and not gens and not d.macro and not any(v.name == "ORDINAL_SIZE" for v in d.variants):
            junk += "impl Top { pub const ORDINAL_SIZE: usize = %d; pub fn ordinal(&self) -> usize { 77 } pub fn from_ordinal(_: usize) -> ::core::option::Option<Self> { ::core::option::Option::None } }\n" % r.choice([0, 1, 999])
        d.junk = junk
        self.emit([x for x, _ in inner], d)

    @staticmethod
    def distinct(disc, k):
        out, seen, cur = {}, set(), -1
        for i in range(k):
            if i in disc: cur = disc[i]
            else: cur += 1
            if cur in seen:
                cur = max(seen) + 7
                out[i] = cur
            elif i in disc:
                out[i] = cur
            seen.add(cur)
        return out


def grouped(parts, n):
    out = []
    for i in range(0, len(parts), n):
        ps = parts[i:i + n]
        out.append(("d%d" % (i // n), Decls(ps), [x for p in ps for x in p.calls]))
    return out


def model_types(check, nodes, size):
    cfg = cfg_text("Spec", consts={"MaxSize": size, "MaxNodes": nodes}, action_constraint="Types")
    r = tlc_must_pass(check, "MCTypes", cfg, workers=1, timeout=600)
    seen, out = set(), []
    for l in r["out"].splitlines():
        if l.startswith('"TYPE ') and l not in seen:
            seen.add(l)
            out.append(json.loads(json.loads(l)[5:]))
    return out


def declared(check, order, nmodel, nrandom):
    g = Gen(check.rng, order)
    types = model_types(check, 5 if check.thorough else 4, 9)
    check.add("types_of_the_state_graph", len(types))
    if len(types) > nmodel:
        types = check.rng.sample(types, nmodel)
    for t in types: g.from_model(t)
    for _ in range(nrandom): g.random()
    return g.parts


def check_derive(c):
    t = c.thorough
    model(c, 6 if t else 4, 12 if t else 9)
    parts = declared(c, False, 1500 if t else 150, 1500 if t else 200)
    c.log("%d declarations" % len(parts))
    rec = programs(c, "num", grouped(parts, 25), full=70000, rows=30, samples=300 if t else 100)
    c.log("%d types observed" % len(rec))
    c.add("declarations", len(parts))
    for _, r in rec[::max(1, len(rec) // 4)]:
        c.sample({"type": r["key"], "observations": r["ev"][:3]})
    validate(c, "TraceNumbering", rec, {}, judge="num", label="num")
    c.log("validated")


def check_order_derived(c):
    t = c.thorough
    parts = declared(c, True, 600 if t else 80, 800 if t else 120)
    rec = programs(c, "ord", grouped(parts, 25), full=70000, rows=3, samples=300 if t else 100)
    c.add("declarations", len(parts))
    c.log("%d derived types observed" % len(rec))
    validate(c, "TraceNumbering", rec, {}, judge="ord", label="derived")
    c.log("validated")
