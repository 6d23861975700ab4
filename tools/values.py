"""C04 (and C17, C18 on the all-values iterator)."""
import concurrent.futures as cf
from vf import *
from maps import run_sessions

M = 1 << 64
SIZES = {"e0": 0, "e1": 1, "e2": 2, "e3": 3, "e4": 4, "e5": 5, "e65": 65, "e300": 300, "e2p32": 1 << 32, "e2p32p1": (1 << 32) + 1,
         "e2p63": 1 << 63, "emax": M - 1, "emax1": M - 2, "u8": 256, "u16": 65536, "u32": 1 << 32, "i8": 256, "i16": 65536, "i32": 1 << 32,
         "char": 0x110000 - 0x800, "bool": 2, "ordering": 3, "unit": 1, "never": 0, "optbool": 3, "optu32": (1 << 32) + 1, "nzu8": 255,
         "nzi8": 255, "nzi16": 65535, "nzi32": (1 << 32) - 1, "res": 5, "pair": 6, "pair2": 256 * 256 * 2, "arr": 8, "arr0": 1, "arr16": 1 << 48,
         "wide": 1 << 56, "shape": 9, "rec": 20, "either": 258, "boxed": 257, "optnever": 1}
SMALL = {}
for t, n in SIZES.items():
    if n <= 5: SMALL.setdefault(n, []).append(t)
JMAX = (1 << 63) - 1
LOTS = 70000          # items worth running through


def fit(ops, n):
    """Replace calls that would run through too many items."""
    its, out = [], []
    for o in ops:
        o = dict(o); op, h, j = o["op"], o.get("h", 0), o.get("j", 0)
        if op == "all":
            its = [[0, n]]
            out.append(o); continue
        if op == "cclone":
            if len(its) != 1: continue
            its.append(list(its[0])); out.append(o); continue
        if h < 1 or h > len(its) or its[h - 1] is None: continue
        it = its[h - 1]; rem = it[1] - it[0]
        if op == "step" and rem // (j + 1) > 60: op = "len"
        if rem > LOTS:
            if op in ("fold", "skip"): op, j = "tfold", j + 3
            if op in ("rfold", "rskip"): op, j = "trfold", j + 3
            if op in ("nth", "nthb", "find", "rfind") and j > LOTS: j %= 1000
        o["op"], o["j"] = op, j
        if op in ("next", "nth", "find", "tfold"): it[0] = min(it[1], it[0] + (1 if op == "next" else j if op == "tfold" else j + 1))
        elif op in ("back", "nthb", "rfind", "trfold"): it[1] = max(it[0], it[1] - (1 if op == "back" else j if op == "trfold" else j + 1))
        elif op not in ("len", "hint", "cdbg"):
            its[h - 1] = None
            if all(i is None for i in its): its = []
        out.append(o)
    return out


def random_ops(rng, n, length, feat):
    ops, tot = [], 0
    while len(ops) < length:
        ops.append(dict(op="all"))
        cs = [1]
        for _ in range(rng.randint(0, 12)):
            c = rng.choice(cs)
            op = rng.choice(["next", "back", "nth", "nthb", "find", "rfind", "tfold", "trfold", "len", "hint", "cclone"] + ["cdbg"] * (4 if "dbg" in feat else 0))
            if op == "cclone":
                if len(cs) == 2 or "clone" not in feat and rng.random() < .7: continue
                cs = [1, 2]
            j = rng.choice([0, 0, 1, 1, 2, 3, 7, max(0, n // 2), max(0, n - 2), n, n + 1, 255, 256, 65535])
            j = min(j, JMAX)
            if op in ("tfold", "trfold"): j = max(1, min(j, 2000))
            if op == "cdbg": j = 0
            ops.append(dict(op=op, h=1 if op == "cclone" else c, j=j))
        for c in cs:
            ops.append(dict(op=rng.choice(["fold", "rfold", "count", "last", "skip", "rskip", "step", "cdrop"]), h=c, j=rng.randint(0, 2)))
            ops.append(dict(op="cdrop", h=c))
    return ops


def check_values(c, feat, judge="ret", nrandom=300, sizes=(0, 1, 2, 3, 4), clone=True, embeds=1.0):
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(cargo_build, c, ["values"])
        sess = value_sessions(c, feat, judge, nrandom, sizes, clone, embeds)
        bins = fb.result()
    judge_values(c, bins, sess, judge)


def value_sessions(c, feat, judge, nrandom, sizes, clone, embeds):
    tlc_must_pass(c, "MCBigNat", cfg_text("Spec", invariants=["Agree", "Laws", "Known"]), workers=2)
    cfg = cfg_text("MCSpec", view="View", action_constraint="Edges",
                       consts={"Sizes": tla_set(sizes), "Feat": tla_set(["clone"] if clone else [])},
                       invariants=["Within"], properties=["Shrinks", "Fused"])
    r = tlc_must_pass(c, "MCAllValues", cfg, workers=1, timeout=600)
    g = Graph(r["out"])
    want = None
    if judge == "dbg": want = lambda o: o["op"] == "cdbg"
    walks = g.cover(c.rng, maxlen=40, want=want)
    if g.uncovered:
        raise ToolError("%d transitions not covered" % g.uncovered)
    sess, rng = [], c.rng
    S = lambda t, ops: sess.append(Sess(subject="OrdinalValues", key=t, val="-", ops=ops))
    small = {**SMALL, 2: ["e2", "bool"]}
    bigs = [t for t, n in SIZES.items() if n > 5]
    for root, w in walks:
        n = g.size(root)
        for t in small.get(n, []):
            S(t, w)
        if n == max(sizes) and rng.random() < embeds:
            t = rng.choice(bigs)
            ops = []
            for o in w:
                ops.append(o)
                if o["op"] == "all":
                    ops += [dict(op="nth", h=1, j=rng.choice([0, 1, 2, 62, 127, 254, 255])), dict(op="nthb", h=1, j=rng.choice([0, 1, 2, 62, 127, 254]))]
                    m = SIZES[t]
                    if m <= 70000 and rng.random() < 0.7: ops.append(dict(op="nth", h=1, j=max(0, m - rng.randint(255, 270))))
            S(t, fit(ops, SIZES[t]))
    for i in range(nrandom):
        t = list(SIZES)[i % len(SIZES)]
        S(t, fit(random_ops(rng, SIZES[t], 40, feat), SIZES[t]))
    return sess


def judge_values(c, bins, sess, judge):
    rec = run_sessions(c, bins, "values", sess)
    c.log("%d sessions, %d calls recorded" % (len(rec), sum(len(r["ev"]) for _, r in rec)))
    validate(c, "TraceAllValues", rec, {}, judge=judge, label=judge)
    c.add("sessions", len(sess))
    c.log("validated")
