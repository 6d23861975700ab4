"""C16: generated programs, the compiler's verdict, judged by Limits.tla."""
import concurrent.futures as cf
from vf import *
from types_ import libs, rustc, control, TOP, PRIMS
import types_

NEVER, UNIT = {"k": "sum", "a": []}, {"k": "prod", "a": []}


def big(n):
    out = []
    while n: out.append(n % 10000); n //= 10000
    return out


def rng_(n): return {"k": "prim", "iv": [[[], big(n - 1)]]}     # n values in a row


class L:
    """A key type: Rust text, spec type, declarations it needs."""
    def __init__(self, s, j, decl="", n=None):
        self.s, self.j, self.decl = s, j, decl
        self.n = n if n is not None else size(j)


def size(j):
    if j["k"] == "prim": return sum(int("".join("%04d" % d for d in hi[::-1]) or "0") - int("".join("%04d" % d for d in lo[::-1]) or "0") + 1 for lo, hi in j["iv"])
    if j["k"] == "sum": return sum(size(x) for x in j["a"])
    if j["k"] == "arr": return size(j["e"]) ** j["n"]
    n = 1
    for x in j["a"]: n *= size(x)
    return n


def P(s): return L(s, UNIT if s == "()" else NEVER if s == "Infallible" else rng_(PRIMS[s]))
def opt(a): return L("Option<%s>" % a.s, {"k": "sum", "a": [UNIT, a.j]}, a.decl)
def res(a, b): return L("Result<%s, %s>" % (a.s, b.s), {"k": "sum", "a": [a.j, b.j]}, a.decl + b.decl)
def eit(a, b): return L("either::Either<%s, %s>" % (a.s, b.s), {"k": "sum", "a": [a.j, b.j]}, a.decl + b.decl)
def tup(*a): return L("(%s)" % "".join(x.s + "," for x in a), {"k": "prod", "a": [x.j for x in a]}, "".join(x.decl for x in a))
def arr(a, n): return L("[%s; %d]" % (a.s, n), {"k": "arr", "n": n, "e": a.j}, a.decl)
def box(a): return L("Box<%s>" % a.s, a.j, a.decl)


_n = [0]


def struct(*a):
    _n[0] += 1
    nm = "S%d" % _n[0]
    return L(nm, {"k": "prod", "a": [x.j for x in a]}, "#[derive(ordinal_map::Ordinal)] pub struct %s(%s);\n" % (nm, ", ".join("pub " + x.s for x in a)))


def enum(*vs):
    _n[0] += 1
    nm = "E%d" % _n[0]
    return L(nm, {"k": "sum", "a": [{"k": "prod", "a": [x.j for x in v]} for v in vs]}, "#[derive(ordinal_map::Ordinal)] pub enum %s { %s }\n" % (
        nm, ", ".join("V%d%s" % (i, "(%s)" % ", ".join(x.s for x in v) if v else "") for i, v in enumerate(vs))))


def sized(n):
    """A derived enum of n values."""
    return enum(*[[] for _ in range(n)])


def catalogue(rng, extra, narrow=False):
    """Types around the largest size; on 32 bits those of half as many bits."""
    b, nu, ni, tri = P("bool"), P("NonZeroUsize"), P("NonZeroIsize"), P("Ordering")
    if narrow:
        u8, u16, u32, n32, n64, i64, bits = arr(b, 4), P("u8"), P("u16"), P("NonZeroU16"), P("NonZeroU32"), P("NonZeroI32"), 32
    else:
        u8, u16, u32, n32, n64, i64, bits = P("u8"), P("u16"), P("u32"), P("NonZeroU32"), P("NonZeroU64"), P("NonZeroI64"), 64
    B = lambda n: arr(b, n * bits // 64)
    top = arr(b, bits - 1)
    nv, un = P("Infallible"), P("()")
    big_ = tup(u32, n32)              # 2^64 - 2^32
    out = [n64, i64, nu, ni, u32, nv, un, P("char"), opt(u32), big_,
           arr(u8, 7), arr(u8, 8), arr(u8, 9), arr(u16, 3), arr(u16, 4), arr(u16, 5), arr(u32, 1), arr(u32, 2), arr(u32, 3), arr(b, bits - 1), arr(b, bits), arr(b, bits + 1),
           arr(b, 2 * bits), arr(n64, 1), arr(n64, 2), arr(n64, 0), arr(tri, 40 * bits // 64), arr(tri, 40 * bits // 64 + 1), arr(un, 1000), arr(nv, 3), arr(n32, 2),
           tup(u32, u32), tup(u32, u32, b), tup(u32, u16, u16), tup(u32, u16, u8), tup(n32, n32), tup(*[u8] * 8), tup(*[u8] * 7), tup(*[B(4)] * 16),
           tup(*[tri if narrow else tup(tri, b, b)] * 16), tup(n64), tup(n64, un), tup(un, n64), tup(n64, b), tup(b, n64),
           opt(n64), opt(opt(big_)), opt(nu), box(n64), box(opt(n64)), opt(box(n64)),
           res(n64, un), res(un, n64), res(n64, nv), res(nv, n64), res(n32, big_), res(big_, n32), res(u32, big_), res(big_, u32), res(n64, n64), res(big_, big_),
           eit(n64, un), eit(un, n64), eit(n64, nv), eit(nv, n64), eit(n32, big_), eit(u32, big_), eit(big_, u32), eit(n64, n64), eit(big_, big_), eit(i64, ni),
           struct(n64), struct(u32, u32), struct(u32, n32), struct(u32, u32, b), struct(n64, un), struct(n64, b), struct(*[u8] * 8), struct(*[u8] * 7), struct(un, opt(n64)),
           enum([n64]), enum([n64], []), enum([], [n64]), enum([n64], [nv]), enum([nv, u8], [n64]), enum([u32, n32], [n32]), enum([u32, n32], [n32], []), enum([u32, n32], [u32]),
           enum([n32], [u32, n32]), enum([u32], [u32, n32]), enum([u32, u32]), enum([u32, u32, b], []), enum([n64], [n64]), enum([], [u32, u32]), enum([big_], [b], [u32]),
           enum([big_], [n32]), enum([top], [top]), enum([top], [arr(b, bits - 2)], [arr(b, bits - 2)]), enum([top], [arr(b, bits - 2)]),
           res(res(big_, n32), nv), res(tup(n64), nv), res(arr(u32, 1), big_), opt(res(big_, n32)), arr(res(b, un), 40 * bits // 64), arr(res(b, un), 40 * bits // 64 + 1)]
    edge = [b, u8, u16, u32, n32, n64, un, P("Ordering"), arr(b, bits // 2 - 1), arr(b, bits // 2), arr(u8, 3), arr(u8, 4), top]
    if narrow:      # no key types at all there
        out += [L(s, rng_(n)) for s, n in (("u32", 1 << 32), ("i32", 1 << 32), ("NonZeroU64", (1 << 64) - 1), ("NonZeroI64", (1 << 64) - 1))]
    k = 0
    while k < extra:
        a, c = rng.choice(edge), rng.choice(edge)
        t = rng.choice([lambda: tup(a, c), lambda: res(tup(a, c), a), lambda: eit(a, tup(c, c)), lambda: struct(a, c), lambda: enum([a, c], [a]), lambda: arr(tup(a, c), 2),
                        lambda: res(a, res(c, a)), lambda: opt(tup(a, c)), lambda: enum([a], [c], []), lambda: tup(a, b, c), lambda: arr(a, rng.randint(0, 9))])()
        out.append(t); k += 1
    return out


PRE = """#![allow(warnings)]
use std::hint::black_box; use std::cmp::Ordering; use std::convert::Infallible; use std::num::*;
use ordinal_map::Ordinal; use ordinal_map::map::*; use ordinal_map::map::total::*; use ordinal_map::set::*;
"""
USES = {
    "size": "black_box(<{T} as Ordinal>::ORDINAL_SIZE);",
    "values": "fn f() -> usize {{ <{T} as Ordinal>::all_values().count() }} black_box(f as fn() -> usize);",
    "ordinal": "black_box(<{T} as Ordinal>::ordinal as fn(&{T}) -> usize);",
    "from_ordinal": "black_box(<{T} as Ordinal>::from_ordinal as fn(usize) -> Option<{T}>);",
    "map": "fn f(k: {T}) {{ let mut m = OrdinalMap::<{T}, ()>::new(); m.insert(k, ()); black_box(&m); }} black_box(f as fn({T}));",
    "set": "fn f(k: {T}) {{ let mut m = OrdinalSet::<{T}>::new(); m.insert(k); black_box(&m); }} black_box(f as fn({T}));",
    "total": "fn f() {{ let m = OrdinalTotalMap::<{T}, ()>::new(|_| ()); black_box(&m); }} black_box(f as fn());",
    "set64.new": "fn f() {{ black_box(OrdinalSet64::<{T}>::new()); }} black_box(f as fn());",
    "set64.all": "fn f() {{ black_box(OrdinalSet64::<{T}>::all()); }} black_box(f as fn());",
    "set64.default": "fn f() {{ black_box(<OrdinalSet64::<{T}> as Default>::default()); }} black_box(f as fn());",
    "set64.from_iter": "fn f(k: {T}) {{ black_box([k].into_iter().collect::<OrdinalSet64::<{T}>>()); }} black_box(f as fn({T}));",
    "arrayset.new": "fn f() {{ black_box(OrdinalArraySet::<{T}, {S}>::new()); }} black_box(f as fn());",
    "arrayset.from_iter": "fn f(k: {T}) {{ black_box([k].into_iter().collect::<OrdinalArraySet::<{T}, {S}>>()); }} black_box(f as fn({T}));",
    "arrayset.insert": "fn f(k: {T}) {{ let mut s: OrdinalArraySet<{T}, {S}> = Default::default(); s.insert(k); black_box(&s); }} black_box(f as fn({T}));",
    "arrayset.contains": "fn f(k: {T}) -> bool {{ let s: OrdinalArraySet<{T}, {S}> = Default::default(); s.contains(&k) }} black_box(f as fn({T}) -> bool);",
    "arraymap.new": "fn f() {{ black_box(OrdinalArrayMap::<{T}, u8, {S}>::new()); }} black_box(f as fn());",
    "arraymap.default": "fn f() {{ black_box(<OrdinalArrayMap::<{T}, u8, {S}> as Default>::default()); }} black_box(f as fn());",
    "arraymap.from_iter": "fn f(k: {T}) {{ black_box([(k, 0u8)].into_iter().collect::<OrdinalArrayMap::<{T}, u8, {S}>>()); }} black_box(f as fn({T}));",
    "totalarray.new": "fn f() {{ black_box(OrdinalTotalArrayMap::<{T}, u8, {S}>::new(|_| 1)); }} black_box(f as fn());",
    "totalarray.try_new": "fn f() {{ black_box(OrdinalTotalArrayMap::<{T}, u8, {S}>::try_new(|_| Ok::<u8, ()>(1)).ok()); }} black_box(f as fn());",
    "totalarray.from_array": "fn f() {{ black_box(OrdinalTotalArrayMap::<{T}, u8, {S}>::from_array([1; {S}])); }} black_box(f as fn());",
    "totalarray.default": "fn f() {{ black_box(<OrdinalTotalArrayMap::<{T}, u8, {S}> as Default>::default()); }} black_box(f as fn());",
}
SIZE_USES = ["size", "values", "ordinal", "from_ordinal"]
DYN_USES = ["map", "set", "total"]
WORD_USES = [u for u in USES if u.startswith("set64")]
ASET_USES = [u for u in USES if u.startswith("arrayset")]
AMAP_USES = [u for u in USES if u.startswith("arraymap") or u.startswith("totalarray")]


def big_plain(t):
    """Option and Box do not check by themselves: only their size is asked for."""
    return t.s.startswith("Option<") or t.s.startswith("Box<") or "Option<" in t.s or "Box<" in t.s


def requests(c):
    rng, t = c.rng, c.thorough
    types = catalogue(rng, 250 if t else 25, c.narrow)
    reqs = []          # (type, use, s, expected size of s)
    for x in types:
        for u in SIZE_USES:
            if x.n > TOP and u in ("ordinal", "from_ordinal") and big_plain(x): continue
            reqs.append((x, u, 0))
        if x.n <= TOP:
            for u in DYN_USES if t else [rng.choice(DYN_USES)]: reqs.append((x, u, 0))
    small = [P("Infallible"), P("()"), P("bool"), opt(P("bool")), arr(P("bool"), 5), arr(P("bool"), 6), arr(P("bool"), 7), sized(63), sized(64), sized(65), sized(127), sized(128), sized(129),
             P("NonZeroU8"), P("u8"), opt(P("u8")), res(arr(P("bool"), 6), P("()")), eit(sized(32), sized(32)), eit(sized(32), sized(33)), tup(sized(8), sized(8)), tup(sized(13), sized(5)),
             enum([arr(P("bool"), 5)], [arr(P("bool"), 5)]), enum([arr(P("bool"), 5)], [arr(P("bool"), 5)], []), enum([P("Infallible")]), arr(P("Infallible"), 2)]
    wide = [P("u16"), L("u32", rng_(1 << 32)), P("char"), L("NonZeroU64", rng_((1 << 64) - 1)), arr(P("bool"), 31 if c.narrow else 63)]
    for x in small + wide:
        for u in WORD_USES: reqs.append((x, u, 0))
    for x in small + [P("u16")]:
        w, m = -(-x.n // 64), x.n
        for u in ASET_USES:
            for s in sorted({max(0, w - 1), w, w + 1, m} if t else {w, rng.choice([max(0, w - 1), w + 1])}): reqs.append((x, u, s))
        if x.n <= 300:
            for u in AMAP_USES:
                for s in sorted({max(0, m - 1), m, m + 1, w, m + 64} if t else {m, rng.choice([max(0, m - 1), m + 1, w])}): reqs.append((x, u, s))
    return reqs


def program(x, u, s):
    return PRE + x.decl + "fn main() { %s }\n" % USES[u].format(T=x.s, S=s)


def check_limits(c):
    t = c.thorough
    cfg = cfg_text("Spec", consts={"MaxSize": 12 if t else 9, "MaxNodes": 5 if t else 4, "Max": 7, "Word": 3},
                   invariants=["NumberingSafe", "WordSafe", "ArraySetSafe", "ArrayMapSafe"])
    tlc_must_pass(c, "MCLimits", cfg, workers=NCPU, timeout=700)
    reqs = requests(c)
    profiles = ["dev", "release"]
    jobs = [(p, i) for p in profiles for i in range(len(reqs)) if p == "dev" or t or i % 3 == 0]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        args = c.narrow or dict(zip(profiles, ex.map(lambda p: libs(c, p), profiles)))
        control(c, args["dev"])
        c.log("%d programs" % len(jobs))

        def one(job):
            p, i = job
            x, u, s = reqs[i]
            rc, exe, err = rustc(c, "p%d%s" % (i, p), program(x, u, s), args[p], p, emit="obj")
            for f in (exe, exe[:exe.rindex("-")] + ".rs"):
                if os.path.exists(f): os.remove(f)
            if rc not in (0, 1): raise ToolError("rustc: %s %s" % (rc, err[-2000:]))
            return p, i, rc == 0, err

        recs, broken = {}, []
        for p, i, ok, err in ex.map(one, jobs):
            x, u, s = reqs[i]
            r = recs.setdefault((x.s, x.decl, p), {"subject": p, "key": x.s, "val": "-", "t": x.j, "ev": []})
            r["ev"].append({"use": u, "s": big(s), "compiles": ok})
            if not ok and "E0080" not in err and not c.narrow:
                broken.append((x.s, u, s, err))
            c.add("accepted" if ok else "rejected")
    # a template that never compiles would prove nothing
    good = {e["use"] for r in recs.values() for e in r["ev"] if e["compiles"]}
    if set(USES) - good:
        if not any(True for _ in good):
            raise ToolError("no generated program compiles")
    for b in broken[:3]:
        c.sample({"rejected otherwise than by constant evaluation": b[:3], "rustc": b[3][:300]})
    c.sample({"program": program(*reqs[0])})
    rec = [(p, r) for (_, _, p), r in recs.items()]
    cons = {"MaxNumber": "<- " + ("MaxNumber32" if c.narrow else "MaxNumberDef"), "WordBits": 64}
    validate(c, "TraceLimits", [(o, dict(r, id=i)) for i, (o, r) in enumerate(rec)], cons, judge="accept", label="limits")
    c.log("validated")
