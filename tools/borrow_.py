"""C21: which uses of references and threads the compiler accepts."""
import concurrent.futures as cf
from vf import *
from types_ import libs, control

IT = ["next", "next_back", "nth", "size_hint"]
SHARED = IT + ["clone_iter", "collect"]
MUTIT = IT + ["collect"]
OWNIT = ["next_owned", "next_back_owned", "nth_owned", "size_hint", "collect_owned"]
OWNITC = OWNIT + ["clone_iter"]
ENTRY, OCC, VAC = ["entry_key", "or_insert"], ["entry_key", "entry_get", "entry_get_mut"], ["entry_key", "vacant_insert"]
# call on the collection: (text, what can be called on the result)
R, OK = "W({})", lambda t: "let {v} = W(m.%s);" % t
SPARSE = {
    "get": (OK("get(&k)"), []), "get_mut": (OK("get_mut(&k)"), []), "contains_key": (OK("contains_key(&k)"), []), "remove": (OK("remove(&k)"), []),
    "len": (OK("len()"), []), "is_empty": (OK("is_empty()"), []), "clone": (OK("clone()"), []), "insert": (OK("insert(K::A, V::default())"), []),
    "clear": (OK("clear()"), []), "iter": (OK("iter()"), SHARED), "ref_into_iter": ("let {v} = W((&m).into_iter());", SHARED), "iter_mut": (OK("iter_mut()"), MUTIT),
    "keys": (OK("keys()"), OWNITC), "values": (OK("values()"), SHARED), "values_mut": (OK("values_mut()"), MUTIT), "drain": (OK("drain()"), OWNIT),
    "into_iter": (OK("into_iter()"), OWNITC), "entry": (OK("entry(K::A)"), ENTRY),
    "occupied": ("let {v} = W(match m.entry(K::B) {{ Entry::Occupied(e) => e, _ => return }});", OCC),
    "vacant": ("let {v} = W(match m.entry(K::A) {{ Entry::Vacant(e) => e, _ => return }});", VAC)}
TOTAL = {
    "get": (OK("get(&k)"), []), "get_mut": (OK("get_mut(&k)"), []), "index": ("let {v} = W(&m[&k]);", []), "index_mut": ("let {v} = W(&mut m[&k]);", []),
    "len": (OK("len()"), []), "is_empty": (OK("is_empty()"), []), "clone": (OK("clone()"), []), "insert": (OK("insert(K::A, V::default())"), []),
    "iter": (OK("iter()"), SHARED), "ref_into_iter": ("let {v} = W((&m).into_iter());", SHARED), "iter_mut": (OK("iter_mut()"), MUTIT),
    "total_keys": (OK("keys()"), OWNITC), "values": (OK("values()"), SHARED), "values_mut": (OK("values_mut()"), MUTIT),
    "into_iter": (OK("into_iter()"), OWNITC), "into_keys": (OK("into_keys()"), OWNITC), "into_values": (OK("into_values()"), [])}
ARRAY = {**TOTAL, "values_array": (OK("values_array()"), []), "values_array_mut": (OK("values_array_mut()"), []), "as_ref": (OK("as_ref()"), []),
         "as_mut": (OK("as_mut()"), []), "map": (OK("map(|_, v| (v, 1))"), []), "map_values": (OK("map_values(|v| Some(v))"), []),
         "zip": (OK("zip(OrdinalTotalArrayMap::<K, u8, 2>::new(|_| 1))"), [])}
SETS = {"contains": (OK("contains(&k)"), []), "insert": (OK("insert(K::A)"), []), "clone": (OK("clone()"), [])}
CELL = {"load": (OK("load(SeqCst)"), []), "store": (OK("store(K::A, SeqCst)"), []), "compare_exchange": (OK("compare_exchange(K::A, K::B, SeqCst, SeqCst)"), [])}
TYPES = {
    "OrdinalMap": ("OrdinalMap::<K, V>::new()", SPARSE), "OrdinalArrayMap": ("OrdinalArrayMap::<K, V, 2>::new()", {**SPARSE, "retain": (OK("retain(|_, _| true)"), [])}),
    "OrdinalTotalMap": ("OrdinalTotalMap::<K, V>::new(|_| V::default())", TOTAL), "OrdinalTotalArrayMap": ("OrdinalTotalArrayMap::<K, V, 2>::new(|_| V::default())", ARRAY),
    "OrdinalSet": ("OrdinalSet::<K>::new()", {**SETS, "iter": (OK("iter()"), OWNITC)}), "OrdinalSet64": ("OrdinalSet64::<K>::new()", {**SETS, "set64_iter": (OK("iter()"), OWNITC)}),
    "OrdinalArraySet": ("OrdinalArraySet::<K, 1>::new()", SETS), "AtomicOrdinal": ("AtomicOrdinal::<K>::new(K::A)", CELL)}
ONV = {"next": "{r}.0.next()", "next_back": "{r}.0.next_back()", "nth": "{r}.0.nth(1)", "size_hint": "{r}.0.size_hint()", "clone_iter": "{r}.0.clone()",
       "collect": "un({r}).collect::<Vec<_>>()", "entry_key": "{r}.0.key()", "or_insert": "un({r}).or_insert(V::default())", "entry_get": "{r}.0.get()",
       "entry_get_mut": "{r}.0.get_mut()", "vacant_insert": "un({r}).insert(V::default())"}
ONV.update({f + "_owned": ONV[f] for f in ("next", "next_back", "nth", "collect")})
KEYED = {"get", "get_mut", "contains_key", "remove", "index", "index_mut", "contains"}
HEAD = """#![allow(warnings)]
use ordinal_map::{Ordinal, OrdinalValues, AtomicOrdinal}; use ordinal_map::map::{self, *}; use ordinal_map::map::total::{self, *}; use ordinal_map::set::{self, *};
use std::sync::atomic::Ordering::SeqCst; use std::marker::PhantomData; use std::cell::Cell; use std::rc::Rc;
"""
PRE = HEAD + """#[derive(Ordinal)] pub enum K { A, B }
#[derive(Clone, Default)] pub struct V(String);
pub struct W<T>(T);
fn un<T>(w: W<T>) -> T { w.0 }
fn look<T>(_: &T) {} fn touch<T>(_: &mut T) {}
"""


def C(f, on=0): return dict(s="call", f=f, on=on, mode="", key=f in KEYED and on == 0)
def A(on, mode): return dict(s="acc", f="len", on=on, mode=mode, key=False)


def text(ty, prog):
    """The body of the function, or None if the calls do not fit."""
    make, calls = TYPES[ty]
    out, can = ["let mut m = %s; let mut k = K::A;" % make], []
    pn = lambda on: "m" if on == 0 else "k" if on == -1 else "r%d" % on
    for st in prog:
        if st["s"] == "acc":
            out.append({"shared": "look(&%s);", "mut": "touch(&mut %s);", "own": "drop(%s);"}[st["mode"]] % pn(st["on"]))
        else:
            v = "mut r%d" % (len(can) + 1)
            if st["on"] == 0:
                t, c = calls[st["f"]]
                out.append(t.format(v=v)); can.append(c)
            else:
                if st["on"] > len(can) or st["f"] not in can[st["on"] - 1]: return None
                out.append("let %s = W(%s);" % (v, ONV[st["f"]].format(r=pn(st["on"]))))
                can.append(can[st["on"] - 1] if st["f"] == "clone_iter" else [])
    return " ".join(out)


def programs(rng, ty, thorough):
    calls = TYPES[ty][1]
    acc = [A(0, "shared"), A(0, "mut"), A(0, "own"), A(-1, "shared"), A(-1, "mut"), A(-1, "own")]
    out = []
    for f, (_, can) in calls.items():
        out += [[C(f)], [C(f), A(1, "shared")], [C(f), A(1, "mut")], [C(f), A(1, "own"), A(1, "shared")]]
        for a in acc:
            out += [[C(f), a, A(1, "shared")], [C(f), A(1, "shared"), a], [C(f), A(1, "own"), a]]
        for g in (calls if thorough else rng.sample(list(calls), min(6, len(calls)))):
            out += [[C(f), C(g), A(1, "shared")], [C(f), C(g)], [C(f), C(g), A(2, "shared"), A(1, "shared")]]
        for d in can:
            out += [[C(f), C(d, 1)], [C(f), C(d, 1), A(2, "shared")], [C(f), C(d, 1), A(1, "own"), A(2, "shared")], [C(f), C(d, 1), A(1, "mut"), A(2, "shared")],
                    [C(f), C(d, 1), A(2, "shared"), A(1, "shared")]]
            out += [[C(f), C(d, 1), a, A(2, "shared")] for a in acc]
            for e in can: out.append([C(f), C(d, 1), C(e, 1), A(2, "shared"), A(3, "shared")])
    n = 0
    while n < (600 if thorough else 120):
        p, made = [], 0
        for _ in range(rng.randint(3, 7)):
            x = rng.random()
            if x < 0.25 or not made: p.append(C(rng.choice(list(calls)))); made += 1
            elif x < 0.55: p.append(C(rng.choice(list(ONV)), rng.randint(1, made))); made += 1
            elif x < 0.9: p.append(A(rng.randint(1, made), rng.choice(["shared", "shared", "mut", "own"])))
            else: p.append(rng.choice(acc))
        if text(ty, p): out.append(p); n += 1
    return out


VALS = {"u8": "Send Sync Clone", "VSendSync": "Send Sync", "Cell<u8>": "Send Clone", "VSend": "Send", "VSyncClone": "Sync Clone", "VSync": "Sync", "Rc<u8>": "Clone", "VNone": ""}
KEYS = {"K": "Send Sync", "Kn": "", "Ks": "Send", "Ky": "Sync"}
TRAITS = [  # type, what it does with values, whether it holds a key, traits besides Send and Sync
    ("OrdinalMap<{K}, {V}>", "owns", False), ("OrdinalArrayMap<{K}, {V}, 2>", "owns", False), ("OrdinalTotalMap<{K}, {V}>", "owns", False), ("OrdinalTotalArrayMap<{K}, {V}, 2>", "owns", False),
    ("map::IntoIter<{K}, {V}>", "owns", False), ("map::IntoIterArray<{K}, {V}, 2>", "owns", False), ("total::IntoIter<{K}, {V}>", "owns", False), ("total::IntoIterArray<{K}, {V}, 2>", "owns", False),
    ("map::Iter<'{a}, {K}, {V}>", "shares", False), ("map::Keys<'{a}, {K}, {V}>", "shares", False), ("map::Values<'{a}, {K}, {V}>", "shares", False), ("total::Iter<'{a}, {K}, {V}>", "shares", False),
    ("map::IterMut<'{a}, {K}, {V}>", "muts", False), ("total::IterMut<'{a}, {K}, {V}>", "muts", False), ("map::Drain<'{a}, {K}, {V}>", "muts", False),
    ("Entry<'{a}, {K}, {V}>", "muts", True), ("OccupiedEntry<'{a}, {K}, {V}>", "muts", True), ("VacantEntry<'{a}, {K}, {V}>", "muts", True),
    ("OrdinalSet<{K}>", "none", False), ("OrdinalSet64<{K}>", "none", False), ("OrdinalArraySet<{K}, 1>", "none", False), ("set::Iter<'{a}, {K}>", "none", False),
    ("set::Iter64<{K}>", "none", False), ("OrdinalValues<{K}>", "none", False), ("AtomicOrdinal<{K}>", "none", False)]
def key(n, marker, more=""):
    return ("pub struct %s(u8, PhantomData<%s>); %s\nimpl Ordinal for %s { const ORDINAL_SIZE: usize = 2; fn ordinal(&self) -> usize { self.0 as usize } "
            "fn from_ordinal(o: usize) -> Option<Self> { if o < 2 { Some(%s(o as u8, PhantomData)) } else { None } } }\n" % (n, marker, more, n, n))
TPRE = HEAD + """#[derive(Ordinal)] pub enum K { A, B }
""" + key("Kn", "*const ()") + key("Ks", "*const ()", "unsafe impl Send for Ks {}") + key("Ky", "*const ()", "unsafe impl Sync for Ky {}") + """
pub struct VSendSync; pub struct VSend(Cell<u8>); #[derive(Clone)] pub struct VSyncClone(PhantomData<*const ()>); unsafe impl Sync for VSyncClone {}
pub struct VSync(PhantomData<*const ()>); unsafe impl Sync for VSync {} pub struct VNone(PhantomData<*const ()>);
fn is_send<T: Send>() {} fn is_sync<T: Sync>() {} fn is_clone<T: Clone>() {}
"""


def auto():
    """(session, event, line of Rust, whether it is about lifetimes)"""
    out = []
    for ty, kind, holds in TRAITS:
        for v in VALS if kind != "none" else ["u8"]:
            for k in KEYS:
                for tr in ("Send", "Sync", "Clone"):
                    if tr == "Clone" and (k != "K" or ty.startswith("AtomicOrdinal")): continue
                    e = dict(op="auto", kind=kind, trait=tr, v=VALS[v].split(), key=KEYS[k].split(), holds=holds)
                    out.append((ty, e, "is_%s::<%s>();" % (tr.lower(), ty.format(a="static", K=k, V=v)), False))
        if kind != "none":
            e = dict(op="auto", kind=kind, trait="Covariant", v=[], key=["Send", "Sync"], holds=holds)
            out.append((ty, e, "fn f<'a>(x: %s) -> %s { x }" % (ty.format(a="static", K="K", V="&'static u8"), ty.format(a="a", K="K", V="&'a u8")), True))
    return out


# what a generic client may do knowing nothing of its key and value types: (function, call)
MAPISH = ["m.get(&k);", "m.get_mut(&k);", "m.len();", "m.is_empty();", "m.insert(k, v);", "m.iter();", "m.iter_mut();", "m.keys();", "m.values();", "m.values_mut();",
          "m.into_iter();", "for (_, _) in &m {}"]
SPARSISH = MAPISH + ["m.contains_key(&k);", "m.remove(&k);", "m.entry(k).or_insert(v);", "let e = m.entry(k); e.key(); match e { Entry::Occupied(mut e) => { e.key(); e.get(); *e.get_mut() = v; } Entry::Vacant(e) => { e.key(); e.insert(v); } }",
                     "m.drain();", "m.clear();", "m = m.into_iter().collect();"]
TOTALISH = MAPISH + ["&m[&k];", "m[&k] = v;", "m.into_keys();", "m.into_values();"]
GENERIC = [("OrdinalMap<K, V>", "", SPARSISH + ["m = OrdinalMap::new();", "m = Default::default();"]),
           ("OrdinalArrayMap<K, V, S>", ", const S: usize", SPARSISH + ["m = OrdinalArrayMap::new();", "m = Default::default();", "let mut n = 0; m.retain(|_, _| { n += 1; n > 2 });", "m.retain(|_: K, v: &mut V| { look(v); true });"]),
           ("OrdinalTotalMap<K, V>", "", TOTALISH + ["let mut v = Some(v); m = OrdinalTotalMap::new(|_| v.take().unwrap());", "let mut v = Some(v); let _: Result<OrdinalTotalMap<K, V>, K> = OrdinalTotalMap::try_new(|k: K| v.take().ok_or(k));", "let _: Box<[V]> = m.into_values();"]),
           ("OrdinalTotalArrayMap<K, V, S>", ", const S: usize", TOTALISH + ["let mut v = Some(v); m = OrdinalTotalArrayMap::new(|_| v.take().unwrap());", "let mut v = Some(v); let _: Result<OrdinalTotalArrayMap<K, V, S>, K> = OrdinalTotalArrayMap::try_new(|k: K| v.take().ok_or(k));",
            "m = OrdinalTotalArrayMap::from_array(m.into_values());", "let _: [V; S] = m.into_values();", "m.as_ref();", "m.as_mut();", "let n = m.zip(OrdinalTotalArrayMap::<K, u8, S>::new(|_| 1)); let _: OrdinalTotalArrayMap<K, (V, u8), S> = n;", "let mut n = 0; m.map(|k: K, v: V| { n += 1; (k, v) });",
            "let mut n = 0; m.map_values(|v: V| { n += 1; Some(v) });", "let _: &[V; S] = m.values_array();", "let _: &mut [V; S] = m.values_array_mut();"]),
           ("OrdinalSet<K>", "", ["m.insert(k);", "m.contains(&k);", "m.iter();", "m = OrdinalSet::new();", "m = Default::default();", "m = Some(k).into_iter().collect();", "m.clone();"]),
           ("OrdinalSet64<K>", "", ["m.insert(k);", "m.contains(&k);", "m.iter();", "m = OrdinalSet64::new();", "m = OrdinalSet64::all();", "m = Default::default();", "m = Some(k).into_iter().collect();", "m.clone();"]),
           ("OrdinalArraySet<K, S>", ", const S: usize", ["m.insert(k);", "m.contains(&k);", "m = OrdinalArraySet::new();", "m = Default::default();", "m = Some(k).into_iter().collect();", "m.clone();"]),
           ("AtomicOrdinal<K>", "", ["m = AtomicOrdinal::new(k);", "let k: K = m.load(SeqCst);", "m.store(k, SeqCst);"])]
NEEDS = [("OrdinalMap<K, V>", ""), ("OrdinalArrayMap<K, V, S>", ", const S: usize"), ("OrdinalTotalMap<K, V>", ""), ("OrdinalTotalArrayMap<K, V, S>", ", const S: usize")]
STEPS = ["it.next();", "it.next_back();", "it.nth(1);", "it.nth_back(1);", "it.len();", "it.size_hint();", "let mut it = it.rev(); it.next();", "for _ in it {}", "it.count();", "it.last();", "it.fold(0, |n, _| n + 1);",
         "it.by_ref().skip(1).step_by(2).next();", "it.rposition(|_| false);", "it.rfold(0, |n, _| n + 1);"]
WALKS = [(t, g, c) for t, g in NEEDS for c in ("m.iter()", "m.iter_mut()", "m.keys()", "m.values()", "m.values_mut()", "(&m).into_iter()", "m.into_iter()")] + \
        [(t, g, "m.drain()") for t, g in NEEDS[:2]] + [("OrdinalSet<K>", "", "m.iter()"), ("OrdinalSet64<K>", "", "m.iter()"), ("u8", "", "K::all_values()")]


def bounds():
    """(type, event, line): every call in a client that is generic in the key and value type."""
    f = lambda ty, gen, call, k="", v="", what="plain": (ty, dict(op="bound", call=what, key=k.split(), v=v.split(), at=call),
        "fn g<K: Ordinal%s, V%s%s>(mut m: %s, k: K, v: V) { %s }" % ("".join(" + " + b for b in k.split()), ": " + " + ".join(v.split()) if v else "", gen, ty, call))
    out = [f(ty, gen, call) for ty, gen, calls in GENERIC for call in calls]
    out.append(f("AtomicOrdinal<K>", "", "let r: Result<K, K> = m.compare_exchange(m.load(SeqCst), k, SeqCst, SeqCst);"))
    for ty, gen, make in WALKS:
        out += [f(ty, gen, "let mut it = %s; %s" % (make, st)) for st in STEPS
                if "Total" in ty or "64" in ty or "all_values" in make or st not in ("it.len();", "it.rposition(|_| false);")]
        if not ("mut" in make or "into_iter" in make or "drain" in make): out.append(f(ty, gen, "let it = %s; it.clone();" % make))
    for ty, gen in NEEDS:
        for k, v in ((k, v) for k in ("", "Clone", "Debug") for v in ("", "Clone", "Default", "Debug", "Clone Default Debug")):
            out += [f(ty, gen, "let n: %s = m.clone();" % ty, k, v, "clone"), f(ty, gen, "let it = m.into_iter(); it.clone();", k, v, "clone"), f(ty, gen, "let n: %s = Default::default();" % ty, k, v, "default_total" if "Total" in ty else "plain")]
            for what in ("m", "m.iter()", "m.iter_mut()", "m.into_iter()"): out.append(f(ty, gen, 'format!("{:?}", %s);' % what, k, v, "debug"))
    for ty, gen in (("OrdinalSet<K>", ""), ("OrdinalSet64<K>", ""), ("OrdinalArraySet<K, S>", ", const S: usize"), ("AtomicOrdinal<K>", "")):
        for k in ("", "Clone", "Debug"): out.append(f(ty, gen, 'format!("{:?}", m);', k, "", "debug_key"))
    return out


ORD_FIELDS = ["bool", "u8", "Option<bool>", "(K, bool)", "[bool; 2]", "std::cmp::Ordering", "std::convert::Infallible", "()", "Result<bool, K>", "Box<K>", "char", "std::num::NonZeroU8", "std::num::NonZeroU32"]
OPAQUE = ["usize", "i64", "u128", "String", "f32", "Vec<u8>", "fn()", "std::cell::Cell<bool>", "&'static str", "std::collections::HashMap<K, K>", "Option<String>", "[f64; 2]", "(bool, String)"]


def derives(rng, n):
    """Declarations that ask for the derive: accepted exactly if every part can be numbered."""
    out = []
    for _ in range(n):
        shape, kinds = rng.choice(["struct", "struct", "enum", "enum", "enum", "union"] if rng.random() < 0.3 else ["struct", "enum"]), []
        bound, arg = rng.choice([("", "bool"), ("", "bool"), ("<T: Ordinal>", "bool"), ("<T: Ordinal>", "String"), ("<T> where T: Ordinal", "K")])
        bad = rng.random() < 0.35

        def field():
            if bound and rng.random() < 0.3: kinds.append("param"); return rng.choice(["T", "Option<T>", "(T, bool)", "[T; 2]"])
            if bad and rng.random() < 0.3: kinds.append("opaque"); return rng.choice(OPAQUE)
            kinds.append("ordinal"); return rng.choice(ORD_FIELDS)

        def parts():
            form, m = rng.choice(["unit", "tuple", "named"]), rng.randint(1, 3)
            fs = [] if form == "unit" else [field() for _ in range(m)]
            return form, "" if form == "unit" else "(%s)" % ", ".join(fs) if form == "tuple" else " { %s }" % ", ".join("x%d: %s" % (i, f) for i, f in enumerate(fs))
        g, wh = (bound.split(" where ") + [""])[:2]
        wh = " where " + wh if wh else ""
        if shape == "struct":
            form, b = parts(); decl = "struct D%s%s%s%s" % (g, wh if form == "named" else "", b, "" if form == "named" else wh + ";")
        elif shape == "enum":
            decl = "enum D%s%s { %s }" % (g, wh, ", ".join("V%d%s" % (i, parts()[1]) for i in range(rng.randint(0, 4))))
        else:
            bound = ""; kinds.append("ordinal"); decl = "union D { a: u8, b: bool }"
        if bound and "param" not in kinds: bound, decl = "", decl.replace("D" + g + wh, "D", 1).replace("D" + g, "D", 1).replace(wh + ";" if wh else ";;", ";")
        e = dict(op="derive", shape=shape, fields=sorted(set(kinds)), arg="opaque" if bound and arg == "String" else "ordinal")
        out.append((e, "#[derive(Ordinal)] %s is_ordinal::<D%s>();" % (decl, "<%s>" % arg if bound else "")))
    return out


CONSTS = ["const X: OrdinalSet64<K> = OrdinalSet64::new();", "static X: OrdinalSet64<K> = OrdinalSet64::new();", "const X: usize = ordinal_array_set_s::<K>(); let y: OrdinalArraySet<K, X> = OrdinalArraySet::new();",
          "const X: usize = K::ORDINAL_SIZE; let a = [0u8; X];", "const X: usize = <(K, Option<bool>)>::ORDINAL_SIZE; let a: OrdinalArrayMap<(K, Option<bool>), u8, X> = OrdinalArrayMap::new();",
          "const fn f(m: &OrdinalTotalMap<K, u8>) -> (usize, bool) { (m.len(), m.is_empty()) }", "const fn f(m: &OrdinalTotalArrayMap<K, u8, 2>) -> (usize, bool) { (m.len(), m.is_empty()) }",
          "struct S(OrdinalArrayMap<K, u8, { K::ORDINAL_SIZE }>, OrdinalArraySet<K, { ordinal_array_set_s::<K>() }>);"]


def compile_lines(c, name, pre, lines, args):
    """Which of the functions, one per line, the compiler rejects: {line: first error}"""
    d = os.path.join(c.work, "gen"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name + ".rs")
    base = pre.count("\n") + 1
    open(path, "w").write(pre + "".join("mod f%d { use super::*; fn f() { %s } }\n" % (i, l) for i, l in enumerate(lines)) + "fn main() {}\n")
    rc, out, err = run(["rustc", "--edition", "2021", "--cap-lints", "allow", "--error-format=json", "--emit=metadata", "-o", os.path.join(d, name + ".rmeta"), path] + args, timeout=600, cwd=d)
    bad, other = {}, []
    for l in err.splitlines():
        try: m = json.loads(l)
        except ValueError: other.append(l); continue
        if m.get("level") not in ("error", "error: internal compiler error"): continue
        at = [s["line_start"] - base for s in m["spans"] if s["is_primary"] and s["file_name"] == path and s["line_start"] >= base]
        # an error inside a macro or elsewhere counts for the line it is expanded in
        if at and 0 <= at[0] < len(lines): bad.setdefault(at[0], m["message"])
        elif m["spans"]: other.append(m["rendered"])
    if other or (rc != 0) != bool(bad) or rc not in (0, 1):
        raise ToolError("compiling %s: rc %s %s %s" % (name, rc, "\n".join(other)[-2500:], "" if bad else err[-1500:]))
    return bad


def check_borrow(c):
    with cf.ThreadPoolExecutor(3) as ex:
        fa = ex.submit(lambda: libs(c, "dev"))
        fm = ex.submit(lambda: tlc_must_pass(c, "MCBorrow", cfg_text("Spec", consts={
            "MaxLen": 5 if c.thorough else 4, "OnM": tla_set(["get", "get_mut", "entry", "insert", "into_iter"]),
            "OnV": tla_set(["next", "clone_iter", "entry_get", "entry_get_mut", "or_insert", "vacant_insert"])}, invariants=["Sound", "Precise", "EitherOnlyGuards"]), workers=4, timeout=800))
        args = fa.result()
        control(c, args)
        jobs = []
        for ty in TYPES:
            ps = programs(c.rng, ty, c.thorough)
            jobs.append((ty, "b-" + ty, PRE, [dict(op="prog", prog=p) for p in ps], [text(ty, p) for p in ps]))
        au = auto()
        for nm, life in (("traits", False), ("variance", True)):
            sel = [(t, e, l) for t, e, l, f in au if f == life]
            jobs.append((nm, "t-" + nm, TPRE, [dict(e, ty=t) for t, e, _ in sel], [l for _, _, l in sel]))
        bs = bounds()
        jobs.append(("bounds", "t-bounds", TPRE + "use std::fmt::Debug; fn look<T>(_: &T) {}\n", [dict(e, ty=t) for t, e, _ in bs], [l for _, _, l in bs]))
        ds = [(dict(op="derive", shape="const", fields=["ordinal"], arg="ordinal"), l) for l in CONSTS] + derives(c.rng, 1500 if c.thorough else 300)
        jobs.append(("derive", "t-derive", TPRE + "fn is_ordinal<T: Ordinal>() {}\n", [e for e, _ in ds], [l for _, l in ds]))
        rec = []
        for job, bad in zip(jobs, ex.map(lambda j: compile_lines(c, j[1], j[2], j[4], args), jobs)):
            name, _, _, evs, lines = job
            for i, (e, l) in enumerate(zip(evs, lines)):
                rec.append(({"program": l}, {"id": i, "subject": e.get("ty", name), "key": "", "val": "",
                                             "ev": [dict(e, on=name, verdict="rejected" if i in bad else "accepted", text=l, says=bad.get(i, ""))]}))
        fm.result()
    n = collections.Counter(r["ev"][0]["op"] + " " + r["ev"][0]["verdict"] for _, r in rec)
    c.log("%d programs: %s" % (len(rec), dict(n)))
    c.cov["programs"] = sum(n.values()); c.cov["programs_by_verdict"] = dict(n)
    for _, r in rec[:: max(1, len(rec) // 5)]: c.sample({"subject": r["subject"], "program": r["ev"][0]["text"], "verdict": r["ev"][0]["verdict"]})
    validate(c, "TraceBorrow", rec, {})
    c.log("validated")
