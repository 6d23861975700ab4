"""C22: the same behaviour where usize has 32 bits."""
import concurrent.futures as cf
from vf import *
import types_, limits_, values, atomic_, derive_, maps, wasm_

TOP32 = (1 << 32) - 1


def thirty_two():
    """The tables of types as they are on 32 bits."""
    types_.TOP = limits_.TOP = derive_.TOP = TOP32
    for t in ("u32", "i32", "NonZeroU64", "NonZeroI64"): del types_.PRIMS[t]
    types_.STAND_IN.update(u32="NonZeroU32", i32="NonZeroI32")
    for t in ("NonZeroUsize", "NonZeroIsize"): types_.PRIMS[t] = TOP32
    for t in ("e2p32", "e2p32p1", "e2p63", "u32", "i32", "optu32", "arr16", "wide"): del values.SIZES[t]
    values.SIZES.update(emax=TOP32, emax1=TOP32 - 1, e2p31=1 << 31, e2p31p1=(1 << 31) + 1, nzu32=TOP32, nzsize=TOP32, nzisize=TOP32, arr31=1 << 31,
                        pair3=1 << 31, resnz=(1 << 31) + 65535)
    values.JMAX = TOP32
    atomic_.COUNT.update(u32=TOP32, i32=TOP32, nzu64=TOP32, nzi64=TOP32, nzusize=TOP32, optu32=65536, wide=65536 * 2 * 256, arr16=1 << 24, one=TOP32)
    derive_.BIGLEAVES[:] = [types_.T("u16", 65536), types_.T("char", 0x110000 - 0x800), types_.T("NonZeroU32", TOP32), types_.T("NonZeroIsize", TOP32),
                            types_.T("[u8; 3]", 1 << 24), types_.T("i16", 65536)]


def map_sessions(c, fam, feat, sizes, nrandom):
    g = maps.explore(c, fam, feat, sizes)
    walks = g.cover(c.rng, maxlen=50)
    walks = c.rng.sample(walks, min(len(walks), 600 if c.thorough else 60))
    return maps.sessions(c, fam, walks, g, sizes, nrandom, 45, maps.MIX[fam.name] + ["dbg"], ("tok",) if fam is maps.SET else ("tok", "u8", "u32", "wide"), embeds=2, focus=feat)


def check_narrow(c):
    t = c.thorough
    with cf.ThreadPoolExecutor(NCPU) as ex:
        host = ex.submit(cargo_build, c, ["sparse", "total", "sets", "values", "atomics"], ("dev",))
        root = wasm_.sysroot(c)
        c.log("standard library for wasm32 built")
        # the tool chain itself works
        rc, _, err = control(c, root)
        if rc: raise ToolError("no 32-bit program can be built: " + err[-3000:])
        host.result()
        try:
            bins, args = wasm_.build(c, root, ["sparse", "total", "sets", "values", "atomics"], lib=True)
        except wasm_.Broken as x:
            c.violation("the library, or a program that uses it and compiles for 64 bits, does not compile for 32 bits:\n" + x.args[0][:2500], {"rustc": x.args[0]})
            return
    c.log("drivers built for wasm32")
    c.narrow = args
    thirty_two()
    # maps and sets
    n = 1200 if t else 130
    for fam, feat, sizes in ((maps.SPARSE, ["dict", "entry", "drain", "retain"], (1, 2, 3)), (maps.TOTAL, ["dict", "bulk"], (1, 2, 3)), (maps.SET, ["dict", "iter"], (1, 2, 3))):
        sess = map_sessions(c, fam, feat, sizes, n)
        rec = maps.run_sessions(c, bins, fam.bin, sess)
        c.log("%s: %d sessions, %d calls" % (fam.name, len(rec), sum(len(r["ev"]) for _, r in rec)))
        maps.validate_family(c, fam, rec, "ret", maps.ALL)
        c.add("sessions", len(sess))
    # the iterator over all values
    values.judge_values(c, bins, values.value_sessions(c, ["clone"], "ret", 4000 if t else 400, (0, 1, 2, 3), True, 0.3), "ret")
    # the cell, used by one thread
    g = atomic_.seq_graph(c, [1, 2, 3] if t else [1, 2])
    rec = atomic_.seq_run(c, {(b, p): wasm_.wrapper(c, x[:-3], "seq") for (b, p), x in bins.items() if b == "atomics"}, atomic_.seq_sessions(c, g))
    c.log("%d sessions of the cell" % len(rec))
    validate(c, "TraceReg", rec, {"Cells": "{}", "Threads": "{}", "MaxVal": 0}, label="seq")
    # numbering, of provided and of derived types
    types = types_.provided(c, 300 if t else 60)
    P = types_.programs
    f = lambda i, x: "observe::<%s>(&mut out, %d, %s)" % (x.s, i, types_.quoted(x.s))
    o = lambda i, x: "order::<%s>(&mut out, %d, %s, true)" % (x.s, i, types_.quoted(x.s))
    base = types_.base_types()
    rec = P(c, "bij", [("base", "", [(x.s, f(i, x)) for i, x in enumerate(base)])], full=1200000, rows=30, samples=1000)
    rec += P(c, "bij", types_.chunked(types, 24, f), full=70000, rows=10, samples=300)
    validate(c, "TraceNumbering", rec, {}, judge="bij", label="bij")
    plain = [x for x in base + c.rng.sample(types, min(len(types), 200 if t else 60)) if not x.wide]
    rec2 = P(c, "ord", types_.chunked(plain, 24, o), full=70000, rows=4, samples=300)
    validate(c, "TraceNumbering", rec2, {}, judge="ord", label="ord")
    gen = derive_.Gen(c.rng, False)
    for m in c.rng.sample(derive_.model_types(c, 4, 9), 300 if t else 60): gen.from_model(m)
    for _ in range(200 if t else 40): gen.random()
    rec3 = P(c, "num", derive_.grouped(gen.parts, 25), full=70000, rows=20, samples=100)
    validate(c, "TraceNumbering", rec3, {}, judge="num", label="num")
    c.log("%d types observed" % len(rec + rec2 + rec3))
    c.add("types", len({r["key"] for _, r in rec + rec2 + rec3}))
    # what is accepted
    limits_.check_limits(c)


def control(c, root):
    d = os.path.join(c.work, "control.rs")
    open(d, "w").write("fn main() { assert!(usize::MAX == u32::MAX as usize); }\n")
    rc, out, err = run(["rustc", "+nightly", "--edition", "2021", "--target", wasm_.TARGET, "--sysroot", root, "-o", d + ".wasm", d] + wasm_.FLAGS)
    return rc, d, err
