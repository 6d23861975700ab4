"""C01, C02, C03: numbering of provided, nested and derived types."""
import concurrent.futures as cf
from vf import *

TOP = (1 << 64) - 1
PRIMS = {"bool": 2, "u8": 256, "i8": 256, "u16": 65536, "i16": 65536, "u32": 1 << 32, "i32": 1 << 32, "char": 0x110000 - 0x800,
         "Ordering": 3, "Infallible": 0, "()": 1}
for w in (8, 16, 32, 64):
    PRIMS["NonZeroU%d" % w] = PRIMS["NonZeroI%d" % w] = (1 << w) - 1
PRIMS["NonZeroUsize"] = PRIMS["NonZeroIsize"] = TOP
STAND_IN = {}       # types a platform does not have
HEAD = """#![allow(warnings)]
use harness::numbering::{observe, order, Out};
use harness::vals::Vals;
use std::cmp::Ordering; use std::convert::Infallible; use std::num::*;
"""


# ---------------------------------------------------------------- building
def libs(check, profile):
    """Build the harness library from /repo's tree; returns rustc arguments."""
    tgt = os.path.join(HARNESS, "target", "p-" + profile)
    cmd = ["cargo", "build", "--offline", "--quiet", "--lib", "--target-dir", tgt, "--message-format=json"] + \
          (["--release"] if profile == "release" else ["--profile", "ir"] if profile == "ir" else [])
    rc, out, err = run(cmd, timeout=600, cwd=HARNESS)
    if rc:
        raise ToolError("the harness library does not build:\n" + err[-4000:] + "".join(
            json.loads(l).get("message", {}).get("rendered") or "" for l in out.splitlines() if '"rendered"' in l)[-4000:])
    ext, deps = {}, None
    for l in out.splitlines():
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if f.endswith(".rlib"):
                ext[m["target"]["name"].replace("-", "_")] = f
                if "/deps/" in f:
                    deps = os.path.dirname(f)
    args = []
    for n in ("harness", "ordinal_map", "either"):
        args += ["--extern", "%s=%s" % (n, ext[n])]
    return args + ["-L", "dependency=" + deps]


def rustc(check, name, src, args, profile="dev", opt=0, timeout=600, emit=None):
    d = os.path.join(check.work, "gen")
    os.makedirs(d, exist_ok=True)
    path, exe = os.path.join(d, name + ".rs"), os.path.join(d, name + "-" + profile + (".wasm" if check.narrow and not emit else ""))
    open(path, "w").write(src)
    on = "yes" if profile == "dev" else "no"
    cmd = ["rustc"] + (["+nightly"] if check.narrow else []) + ["--edition", "2021", "--cap-lints", "allow", "-C", "opt-level=%d" % opt, "-C", "debug-assertions=" + on, "-C", "overflow-checks=" + on,
           "-C", "codegen-units=4", "-o", exe, path] + (["--emit", emit] if emit else []) + args
    rc, out, err = run(cmd, timeout=timeout, cwd=d)
    return rc, exe, err


def control(check, args):
    """The tool chain itself works on a trivial program that uses the crate."""
    rc, exe, err = rustc(check, "control", HEAD + "use ordinal_map::Ordinal;\nfn main() { let _ = Out::from_args; assert!(u8::ORDINAL_SIZE == 256); }\n", args)
    if rc:
        raise ToolError("the control program does not build:\n" + err[-3000:])


# ---------------------------------------------------------------- provided types
class T:
    def __init__(self, s, n, depth=0, of=(), wide=False):
        self.s, self.n, self.depth, self.wide = s, n, depth, wide or any(x.wide for x in of)


def base_types():
    return [T(k, n) for k, n in PRIMS.items()]


def fixed_types():
    """Every constructor over types of 0, 1, several and very many values."""
    c, b = [], {t.s: t for t in base_types()}
    for t, u in STAND_IN.items(): b[t] = b[u]
    for x in ["Infallible", "()", "bool", "u8", "i16", "char", "u32", "NonZeroI8", "NonZeroI32"]:
        c += [option(b[x]), box(b[x])]
    pick = ["Infallible", "()", "bool", "Ordering", "u8"]
    for x in pick:
        for y in pick:
            c += [result(b[x], b[y]), either(b[x], b[y]), tup([b[x], b[y]])]
    for x in ["Infallible", "()", "bool", "Ordering", "u8", "u16", "NonZeroU8"]:
        for n in (0, 1, 2, 3, 7):
            c.append(arr(b[x], n))
    c += [arr(b["bool"], 63), arr(b["()"], 200), arr(b["u16"], 3), arr(b["u32"], 1), arr(b["NonZeroU32"], 2), arr(arr(b["bool"], 2), 3),
          option(b["u16"]), result(b["u32"], b["u32"]), either(b["char"], b["u32"]), tup([b["u32"], b["NonZeroI32"]]),
          tup([b["i32"], b["u16"], b["u8"]]), option(option(option(b["Infallible"]))), result(option(b["char"]), b["i16"]), box(box(b["i8"])),
          arr(option(b["i16"]), 3), tup([b["char"], b["char"], b["char"]]), arr(b["char"], 3), tup([arr(b["i8"], 3), arr(b["bool"], 8)])]
    small = [b["bool"], b["Ordering"], b["()"], option(b["bool"])]
    for n in range(0, 17):
        c.append(tup([b["bool"]] * n))
        c.append(tup([small[(i * 7 + n) % 4] for i in range(n)]))
        if n: c.append(tup([b["Infallible"] if i == n // 2 else b["bool"] for i in range(n)]))
        if n > 2: c.append(tup([[b["u8"], b["Ordering"], b["bool"], b["()"]][min(i, 3) if n % 2 else max(0, 3 - (n - 1 - i))] for i in range(n)]))
    return c


def option(a): return T("Option<%s>" % a.s, a.n + 1, a.depth + 1, [a])
def box(a): return T("Box<%s>" % a.s, a.n, a.depth + 1, [a])
def result(a, b): return T("Result<%s, %s>" % (a.s, b.s), a.n + b.n, max(a.depth, b.depth) + 1, [a, b])
def either(a, b): return T("either::Either<%s, %s>" % (a.s, b.s), a.n + b.n, max(a.depth, b.depth) + 1, [a, b])
def arr(a, n): return T("[%s; %d]" % (a.s, n), a.n ** n, a.depth + 1, [a])
def tup(a):
    n = 1
    for x in a: n *= x.n
    return T("(%s)" % "".join(x.s + ", " for x in a), n if partial_products_fit(a) else 1 << 65, max([x.depth for x in a] or [0]) + 1, a, len(a) > 12)


def partial_products_fit(a):
    """Products are formed left to right (and from the right): none may exceed the range on the way to 0."""
    for xs in (a, a[::-1]):
        n = 1
        for x in xs:
            n *= x.n
            if n > TOP: return False
    return True


def random_type(rng, depth, leaves=None):
    leaves = leaves or base_types()
    while True:
        if depth == 0 or rng.random() < .15:
            return rng.choice(leaves) if rng.random() < .5 else rng.choice([l for l in leaves if l.n <= 4])
        sub = lambda: random_type(rng, depth - 1 - (rng.random() < .4) if depth > 1 else 0, leaves)
        k = rng.choice(["option", "result", "either", "box", "arr", "tup", "tup"])
        if k == "option": t = option(sub())
        elif k == "result": t = result(sub(), sub())
        elif k == "either": t = either(sub(), sub())
        elif k == "box": t = box(sub())
        elif k == "arr":
            a, n = sub(), rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 13])
            if a.n ** n > TOP: continue
            t = arr(a, n)
        else:
            xs = [sub() for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 16]))]
            if not partial_products_fit(xs): continue
            t = tup(xs)
        if t.n <= TOP and len(t.s) < 600: return t


def provided(check, nrandom):
    rng = check.rng
    return [x for x in fixed_types() if x.n <= TOP] + [random_type(rng, rng.choice([1, 2, 2, 3, 3, 4])) for _ in range(nrandom)]


# ---------------------------------------------------------------- running programs
def programs(check, mode, chunks, profiles=("dev", "release"), full=70000, rows=16, samples=150, opt=0, pid_of_failure=True):
    """chunks: list of (name, declarations, [(name, call)]).  Builds and runs each in each profile.
    Returns recorded sessions; a chunk that does not compile is taken apart."""
    recorded = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        args = check.narrow or dict(zip(profiles, ex.map(lambda p: libs(check, p), profiles)))
        control(check, args[profiles[0]])
        check.log("harness library built")
        start = ["node", os.path.join(VERIF, "tools", "wasm_run.mjs")] if check.narrow else []

        def src(decl, calls):
            return HEAD + decl + "\nfn main() {\n let mut out = Out::from_args();\n" + "".join(
                " harness::numbering::%s;\n" % c for _, c in calls) + "}\n"

        def one(job):
            prof, (name, decl, calls), depth = job
            rc, exe, err = rustc(check, name, src(decl, calls), args[prof], prof, opt)
            if rc:
                return ("broken", job, err)
            op = exe + ".ndjson"
            rc, out, err = run(start + [exe, op, mode, str(check.seed), str(full), str(rows), str(samples)], timeout=800, mem_gb=0 if start else 8)
            rec = []
            if os.path.exists(op):
                for l in open(op):
                    try: rec.append(json.loads(l))
                    except ValueError: pass
                os.remove(op)
            os.remove(exe)
            return ("ran" if rc == 0 and len(rec) == len(calls) else "died", job, rec, rc, err)

        jobs = [(p, c, 0) for p in profiles for c in chunks]
        while jobs:
            again = []
            for r in ex.map(one, jobs):
                if r[0] == "ran":
                    recorded += [("%s/%s" % (r[1][0], r[1][1][0]), s) for s in r[2]]
                elif r[0] == "broken":
                    prof, (name, decl, calls), depth = r[1]
                    if depth == 0 and not decl and len(calls) > 1:
                        again += [(prof, ("%s_%d" % (name, i), "", [c]), 1) for i, c in enumerate(calls)]
                    elif depth == 0 and isinstance(decl, Decls) and len(decl.parts) > 1:
                        again += [(prof, ("%s_%d" % (name, i), Decls([p]), p.calls), 1) for i, p in enumerate(decl.parts)]
                    else:
                        check.violation("this program should compile and does not: %s\n%s" % ([c[0] for c in calls][:3], "\n".join(
                            l for l in r[2].splitlines() if l.strip())[:1500]),
                            {"program": src(decl, calls), "rustc": r[2][-6000:]})
                else:
                    _, (prof, (name, decl, calls), _), rec, rc, err = r
                    recorded += [(prof, s) for s in rec]
                    dead = calls[len(rec)][0] if len(rec) < len(calls) else "?"
                    check.violation("the program dies (exit %s) while numbering %s: %s" % (rc, dead, err[-500:]),
                                    {"program": src(decl, calls), "at": dead})
            if len(check.violations) > 20: break
            jobs = again
    return recorded


class Decls(str):
    """Declarations of a chunk, made of separable parts (each with .text and .calls)."""
    def __new__(cls, parts):
        s = super().__new__(cls, "\n".join(p.text for p in parts))
        s.parts = parts
        return s


def chunked(types, n, fn):
    out = []
    for i in range(0, len(types), n):
        out.append(("t%d" % (i // n), "", [(t.s, fn(i + k, t)) for k, t in enumerate(types[i:i + n])]))
    return out


def model(check, nodes, size):
    cfg = cfg_text("Spec", consts={"MaxSize": size, "MaxNodes": nodes}, properties=["AppendStable", "OptionShifts"],
                   invariants=["SizeCounts", "Member", "OneToOne", "OrderAgrees", "MostSignificant", "ArrayAsTuple"])
    return tlc_must_pass(check, "MCTypes", cfg, workers=NCPU, timeout=800)


def quoted(s):
    return json.dumps(s)


def check_numbering(c, judge):
    t = c.thorough
    model(c, 6 if t else 4, 12 if t else 9)
    types = provided(c, 400 if t else 90)
    if judge == "ord":
        types = [x for x in types if not x.wide]   # tuples of more than 12 components have no Ord
    base = base_types()
    if judge == "bij":
        f = lambda i, x: "observe::<%s>(&mut out, %d, %s)" % (x.s, i, quoted(x.s))
    else:
        f = lambda i, x: "order::<%s>(&mut out, %d, %s, true)" % (x.s, i, quoted(x.s))
    rec = programs(c, judge, [("base", "", [(x.s, f(i, x)) for i, x in enumerate(base)])], full=1200000, rows=40, samples=4000 if t else 1000)
    rec += programs(c, judge, chunked(types, 24, f), full=140000 if t else 70000, rows=16 if judge == "bij" else 4, samples=2000 if t else 200)
    c.log("%d types observed" % len(rec))
    if t:  # 32-bit types value by value
        big = ["u32", "i32", "NonZeroU32", "NonZeroI32", "Option<u32>", "[u8; 4]", "[i16; 2]", "(u16, i16)"]
        if judge == "bij": big += ["Result<u32, i32>", "(u8, u16, bool, [bool; 7])"]
        rec += programs(c, judge, [("big%d" % i, "", [(x, f(i, T(x, 0)))]) for i, x in enumerate(big)], profiles=("release",), opt=3,
                        full=1 << 34, rows=20, samples=2000)
        c.log("32-bit types gone through completely")
    c.add("types", len({r["key"] for _, r in rec}))
    c.add("types_gone_through_completely", len({r["key"] for _, r in rec if r["ev"][-1]["full"]}))
    for _, r in rec[::max(1, len(rec) // 5)]:
        c.sample({"type": r["key"], "observations": r["ev"][:3]})
    validate(c, "TraceNumbering", rec, {}, judge=judge, label=judge)
    c.log("validated")
