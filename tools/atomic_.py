"""C14, C15 and the Debug text of the atomic cell (C18)."""
import concurrent.futures as cf
from vf import *
from types_ import TOP

COUNT = {"bool": 2, "u8": 256, "i8": 256, "u16": 65536, "i16": 65536, "u32": 1 << 32, "i32": 1 << 32, "char": 0x110000 - 0x800, "unit": 1,
         "ordering": 3, "nzu8": 255, "nzu64": TOP, "nzi64": TOP, "nzusize": TOP, "nzi32": (1 << 32) - 1, "optbool": 3, "optu32": (1 << 32) + 1,
         "res": 5, "pair": 6, "wide": 1 << 56, "arr": 8, "arr16": 1 << 48, "shape": 10, "either": 258, "boxed": 257, "one": TOP, "optnever": 1}


# ------------------------------------------------------------- one thread
def seq_graph(c, sizes):
    cfg = cfg_text("SSpec", view="View", action_constraint="Edges",
                   consts={"Cells": "{1,2}", "Threads": "{1}", "MaxVal": 2, "Sizes": tla_set(sizes)})
    r = tlc_must_pass(c, "MCRegSeq", cfg, workers=1)
    g = Graph(r["out"])
    c.log("MCRegSeq: %d states, %d transitions" % (len(g.ids), len(g.edges)))
    return g


def seq_sessions(c, g, want=None, per=1):
    walks, sess, rng = g.cover(c.rng, maxlen=60, want=want), [], c.rng
    if g.uncovered: raise ToolError("%d transitions not covered" % g.uncovered)
    for root, w in walks:
        n = g.size(root)
        ops = [dict(o, xs=[o["v"]]) for o in w]
        types = [t for t, m in COUNT.items() if m >= n]
        for t in types if c.thorough or n < 3 else rng.sample(types, 8):
            for mix in range(per):
                sess.append(Sess(subject="AtomicOrdinal", key=t, val=str(rng.choice([0, 0, 1, 2, 3, 4, 5])), ops=ops))
    return sess


def seq_run(c, bins, sess):
    rec = []
    for prof in ("dev", "release"):
        got = drive_as(c, bins["atomics", prof], "seq-" + prof, sess)
        rec += [({"profile": prof, "script": [op_line(o) for o in sess[i]["ops"]]}, r) for i, r in got.items()]
    return rec


def drive_as(c, exe, tag, sess):
    """drive() with the driver's mode in front."""
    if c.narrow: return drive(c, exe, tag, sess)
    wrap = os.path.join(c.work, tag + ".sh")
    open(wrap, "w").write('#!/bin/sh\nexec "%s" seq "$@"\n' % exe)
    os.chmod(wrap, 0o755)
    return drive(c, wrap, tag, sess)


# ------------------------------------------------------------- threads
def native_histories(c, bins, trials, threads, calls, types):
    """Real threads on real cores."""
    rec = []
    jobs = [(p, t, s) for p in ("dev", "release") for t in types for s in range(2)]

    def one(job):
        p, t, s = job
        rc, out, err = run([bins["atomics", p], "hist", str(c.seed * 1000 + s), str(trials), str(threads), str(calls), t], timeout=300, mem_gb=6)
        return job, rc, out, err
    with cf.ThreadPoolExecutor(3) as ex:
        for job, rc, out, err in ex.map(one, jobs):
            lines = [json.loads(l) for l in out.splitlines() if l.startswith("{")]
            if rc:
                c.violation("the implementation dies or hangs in concurrent use (exit %s): %s" % (rc, err[-300:]), {"job": job, "stderr": err[-2000:]})
            rec += [({"profile": job[0], "seed": job[2], "threads": "native"}, r) for r in lines]
    return rec


class Miri:
    FLAGS = "-Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-preemption-rate=0.05"

    def __init__(self, c):
        self.c = c
        self.cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--release", "--quiet", "--target-dir", os.path.join(HARNESS, "target", "miri"), "--bin", "atomics", "--"]
        rc, out, err = self.raw(["litmus", "1", "1", "u8", "1:S1"], 1, "")
        if rc or not out.startswith("OUT"):
            raise ToolError("the driver does not run under Miri (exit %s):\n%s" % (rc, err[-3000:]))

    def raw(self, args, seed, flags, timeout=700):
        return run(self.cmd + args, timeout=timeout, cwd=HARNESS, env={"MIRIFLAGS": "%s -Zmiri-seed=%d %s" % (self.FLAGS, seed, flags)})

    def all(self, jobs, flags=""):
        """jobs: (mode, runs, type, [programs]); yields (job, stdout)."""
        def one(x):
            i, (mode, runs, ty, progs) = x
            s = c.seed * 10000 + i
            return x[1], s, self.raw([mode, str(s), str(runs), ty] + progs, s, flags)
        c, out = self.c, []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for job, s, (rc, so, se) in ex.map(one, enumerate(jobs)):
                if rc:
                    c.violation("the implementation fails under Miri (exit %s): %s" % (rc, se[-1500:]), {"job": job, "miri_seed": s, "stderr": se[-4000:]})
                out.append((job, s, so))
        return out


def steps(text):
    """A program, as MemModel.tla takes it."""
    out = []
    for t in text.split("|"):
        th = []
        for s in t.split(";"):
            d = dict(op="", x=0, v=0, e=0, o=0, f=0)
            if s.startswith("f."): d.update(op="f", o=int(s[2:]))
            else:
                x, s = s.split(":")
                d["x"] = int(x)
                k = s[0]
                if k == "l": d.update(op="ld", o=int(s[2]))
                elif k == "s": d.update(op="st", v=int(s[1]), o=int(s[3]))
                elif k == "c": d.update(op="cas", e=int(s[1]), v=int(s[2]), o=int(s[4]), f=int(s[6]))
                elif k == "L": d.update(op="ld")
                elif k == "S": d.update(op="st", v=int(s[1]))
            th.append(d)
        out.append(th)
    return out


def nlocs(p): return max(d["x"] for t in p for d in t)


def random_call(rng, vals, cells):
    h = rng.randint(1, cells)
    x = rng.random()
    v = lambda: rng.randrange(vals)
    if x < .2: return "%d:l.%d" % (h, rng.choice([0, 1, 4]))
    if x < .4: return "%d:s%d.%d" % (h, v(), rng.choice([0, 2, 4]))
    a = v()
    return "%d:c%d%d.%d.%d" % (h, a, rng.choice([(a + 1) % vals, v()]), rng.randint(0, 4), rng.choice([0, 1, 4]))


def random_program(rng, vals=3):
    cells = 1 if rng.random() < .8 else 2
    shape = rng.choice([(1, 1), (2, 1), (2, 2), (2, 2), (3, 2), (3, 3), (1, 1, 1), (2, 1, 1), (2, 2, 2), (2, 2, 1), (3, 2, 2)])
    return "|".join(";".join(random_call(rng, vals, cells) for _ in range(n)) for n in shape)


def unhex(s):
    return sum((ord(ch) - 97) << (4 * i) for i, ch in enumerate(s))


def stamped_histories(job, seed, out):
    mode, runs, ty, progs = job
    for line in out.splitlines():
        if not line.startswith("ALL "): continue
        _, text, body = line.split(" ", 2)
        p = steps(text)
        nl = nlocs(p)
        for one in body.split("/"):
            if not one: continue
            parts = one.split(".")
            ev = []
            for h in range(1, nl + 1):
                ev += [(-1, dict(t=1, ph=ph, op="new", h=h, k=0, v=0, ret=[])) for ph in ("call", "return")]
            for t, th in enumerate(p):
                code = unhex(parts[t])
                for i in range(len(th) - 1, -1, -1):
                    d, w = th[i], code & 0xfffff
                    code >>= 20
                    o = dict(t=t + 1, op={"ld": "load", "st": "store", "cas": "cas"}[d["op"]], h=d["x"], k=d["e"] if d["op"] == "cas" else d["v"], v=d["v"] if d["op"] == "cas" else 0)
                    ret = [] if d["op"] == "st" else [w & 7] if d["op"] == "ld" else [(w >> 3) & 1, w & 7]
                    ev += [(w >> 14, dict(o, ph="call", ret=[])), ((w >> 8) & 63, dict(o, ph="return", ret=ret))]
            fin = unhex(parts[len(p)])
            for h in range(nl, 0, -1):
                v = fin & 7
                fin >>= 3
                ev += [(99, dict(t=1, ph=ph, op="load", h=h, k=0, v=0, ret=[v] if ph == "return" else [])) for ph in ("call", "return")]
            ev.sort(key=lambda x: x[0])
            yield {"threads": "miri", "program": text, "miri_seed": seed}, {"id": 0, "subject": "AtomicOrdinal", "key": ty, "val": "0", "nt": len(p), "nc": nl, "ev": [e for _, e in ev]}


def check_register(c):
    t = c.thorough
    with cf.ThreadPoolExecutor(3) as ex:
        fb = ex.submit(cargo_build, c, ["atomics"])
        fm = ex.submit(Miri, c)
        inv = dict(invariants=["Followed", "Tracked", "CasExact", "InRange"], properties=["Changes"])
        for threads, calls, cells, mx in [("{1,2}", 2, "{1}", 1), ("{1,2,3}", 1, "{1}", 1), ("{1,2}", 1, "{1,2}", 1)] + [("{1,2}", 2, "{1}", 2), ("{1,2}", 3, "{1}", 1)] * t:
            tlc_must_pass(c, "MCReg", cfg_text("MSpec", consts={"Cells": cells, "Threads": threads, "MaxVal": mx, "Calls": calls, "Split": "FALSE"}, **inv), workers=4)
        # the monitor tells an exchange made of two steps
        r = tlc(c, "MCReg", cfg_text("MSpec", invariants=["Followed"], consts={"Cells": "{1}", "Threads": "{1,2}", "MaxVal": 1, "Calls": 2, "Split": "TRUE"}), workers=4)
        if "Followed" not in r["violated"]:
            raise ToolError("the monitor accepts a compare-exchange made of two steps: " + r["out"][-1500:])
        g = seq_graph(c, [1, 2, 3])
        bins, miri = fb.result(), fm.result()
    sess = seq_sessions(c, g, want=lambda o: o["op"] != "dbg", per=1)
    rec = [(o, cut(r, "dbg")) for o, r in seq_run(c, bins, sess)]
    c.log("%d single-threaded sessions" % len(rec))
    types = [k for k in COUNT if k not in ("unit", "optnever")]
    rec2 = native_histories(c, bins, 1500 if t else 60, 4, 5, types) + native_histories(c, bins, 60 if t else 6, 5, 40, ["u8", "nzu64", "optbool"])
    c.log("%d histories of native threads" % len(rec2))
    jobs = [("stamped", 60, ty, [random_program(c.rng, 3 if ty != "u8" else 4) for _ in range(6)])
            for ty in ["u8", "i32", "nzu64", "optbool"] for _ in range(60 if t else 10)]
    rec3 = [x for job, seed, out in miri.all(jobs) for x in stamped_histories(job, seed, out)]
    c.log("%d histories of Miri's threads" % len(rec3))
    overlap = sum(1 for _, r in rec2 + rec3 if any(a["ph"] == b["ph"] == "call" and a["t"] != b["t"] for a, b in zip(r["ev"], r["ev"][1:])))
    c.add("histories_with_overlapping_calls", overlap)
    for o, r in (rec2[:1] + rec3[-1:]):
        c.sample({"origin": o, "events": [brief(e) for e in r["ev"][:12]]})
    validate(c, "TraceReg", rec + rec2 + rec3, {"Cells": "{}", "Threads": "{}", "MaxVal": 0})
    c.log("validated")
    c.cov["transition_coverage"] = "every call in every state of one and two cells over up to 3 values, with every legal combination of orderings, on types of 1 to 2^64-1 values"


def cut(r, op):
    return dict(r, ev=[e for e in r["ev"] if e["op"] != op])


def check_cell_debug(c):
    bins = cargo_build(c, ["atomics"])
    g = seq_graph(c, [1, 2, 3])
    sess = seq_sessions(c, g, want=lambda o: o["op"] in ("dbg", "store", "new") and o["j"] < 2)
    rec = [(o, dict(r, ev=[e for e in r["ev"] if e["op"] != "load"])) for o, r in seq_run(c, bins, sess)]
    validate(c, "TraceReg", rec, {"Cells": "{}", "Threads": "{}", "MaxVal": 0}, label="dbg")


# ------------------------------------------------------------- memory ordering
ACQ, REL, CASO = (1, 4), (2, 4), (0, 1, 2, 3, 4)
FAILO = (0, 1, 4)


def shapes(rng, full):
    """Litmus programs in which the orderings asked for decide what can be seen."""
    P = []
    some = lambda xs, n: list(xs) if full or len(xs) <= n else rng.sample(list(xs), n)
    W = ["2:s1.2", "2:s1.4"] + ["2:c01.%d.%d" % (o, f) for o in (2, 3, 4) for f in FAILO]            # release writes of 1
    R = ["2:l.1", "2:l.4"] + ["2:c12.%d.%d" % (o, f) for o in (1, 3, 4) for f in FAILO] + \
        ["2:c20.%d.%d" % (o, f) for o in CASO for f in ACQ]                                          # acquire reads, succeeding and failing
    # message passing: every release write against a plain acquire, every acquire read against a plain release
    for w in W: P.append("1:S1;%s|2:l.1;1:L" % w)
    for r in R: P.append("1:S1;2:s1.2|%s;1:L" % r)
    for w, r in some([(w, r) for w in W for r in R], 24): P.append("1:S1;%s|%s;1:L" % (w, r))
    # exchanges and stores that leave the value as it is
    for o in (2, 3, 4):
        for f in FAILO: P.append("1:S1;2:c00.%d.%d|2:c01.1.0;1:L" % (o, f))
    for o in (2, 4): P.append("1:S1;2:s0.%d|2:c01.1.0;1:L" % o)
    for o in (1, 3, 4): P.append("1:S1;2:s1.2|2:c11.%d.0;1:L" % o)
    for f in ACQ: P.append("1:S1;2:s1.2|2:c00.0.%d;1:L" % f)
    # release sequences, chains of threads
    P += ["1:S1;2:s1.2|2:c12.0.0|2:l.1;1:L", "1:S1;2:s1.4|2:c12.0.0|2:c20.0.1;1:L", "1:S1;2:c01.2.0|2:c12.0.0|2:l.4;1:L"]
    for a in ("2:c12.3.0", "2:c12.3.1", "2:c12.4.4"): P.append("1:S1;2:s1.2|3:S1;%s|2:l.1;1:L;3:L" % a)
    for r in ("2:l.1", "2:c12.3.0", "2:c20.0.1"):
        for w in ("3:s1.2", "3:c01.3.0"): P.append("1:S1;2:s1.2|%s;%s|3:l.1;1:L" % (r, w))
    # store buffering
    X = ["1:s1.4"] + ["1:c01.4.%d" % f for f in FAILO]
    Y = ["2:l.4"] + ["2:c02.4.%d" % f for f in FAILO] + ["2:c20.%d.4" % o for o in CASO]
    for x in X:
        for y in Y:
            if x == X[0] or y == Y[0] or full: P.append("%s;%s|2:s1.4;1:l.4" % (x, y))
    # independent readers, competing writers
    P += ["1:s1.4|2:s1.4|1:l.4;2:l.4|2:l.4;1:l.4", "1:c01.4.0|2:s1.4|1:l.4;2:c20.0.4|2:l.4;1:l.4", "1:s1.4|2:c01.4.1|1:c20.1.4;2:l.4|2:l.4;1:l.4",
          "1:s1.4;2:s2.4|2:s1.4;1:s2.4", "1:s1.4;2:c02.4.4|2:s1.4;1:s2.4", "1:s1.4;2:s1.4|2:s2.4;1:l.4", "1:s2.0;2:s1.2|2:l.1;1:s1.0", "1:s2.0;2:c01.2.0|2:c12.1.0;1:s1.0",
          "1:s1.2|2:s1.2|1:l.1;2:l.1|2:l.1;1:l.1"]
    # coherence of one cell; fences around relaxed calls
    P += ["1:s1.0|1:l.0;1:l.0", "1:s1.0|1:l.0;1:c20.0.0", "1:s1.0|1:c20.0.0;1:l.0", "1:c01.0.0|1:c02.0.0|1:l.0;1:l.0", "1:s1.0;1:l.0|1:s2.0;1:l.0", "1:c01.0.0;1:l.0|1:c01.0.0;1:l.0",
          "1:S1;f.2;2:s1.0|2:l.0;f.1;1:L", "1:S1;f.2;2:c01.0.0|2:c20.0.0;f.1;1:L", "1:s1.0;f.4;2:l.0|2:s1.0;f.4;1:l.0", "1:s1.0;f.4;2:c20.0.0|2:s1.0;f.4;1:l.0"]
    # nothing asked for
    P += ["1:S1;2:s1.0|2:l.0;1:L", "1:S1;2:c01.0.0|2:c20.0.0;1:L", "1:s1.0;2:l.0|2:s1.0;1:l.0"]
    return list(dict.fromkeys(P))


def random_litmus(rng):
    """Two or three threads over one or two cells and plain data."""
    shape = rng.choice([(2, 2), (2, 2), (3, 2), (2, 3), (2, 1, 2), (1, 2, 2), (1, 1, 2)])
    return "|".join(";".join(rng.choice(["3:S1", "3:L"]) if rng.random() < .3 else random_call(rng, 3, 2) for _ in range(n)) for n in shape)


def allowed(c, progs, label="progs"):
    """All outcomes MemModel.tla permits: {index: set of (reads, finals)}."""
    path = os.path.join(c.work, label + ".ndjson")
    with open(path, "w") as f:
        for p in progs: f.write(json.dumps({"p": p, "nl": nlocs(p)}) + "\n")
    cfg = cfg_text("Spec", invariants=["Outcomes", "Coherent", "Atomic", "HbOrder"])
    r = tlc_must_pass(c, "MCMem", cfg, workers=NCPU, env={"PROGRAMS": path}, timeout=800, heap="8g")
    out = collections.defaultdict(set)
    for line in r["out"].splitlines():
        if line.startswith('"OUT '):
            i, reads, fin = json.loads(json.loads(line)[4:])
            out[i - 1].add((tuple(map(tuple, reads)), tuple(fin)))
    return out


def outcome(p, f):
    """Decode a printed outcome."""
    un = lambda code, n: tuple((code >> (3 * (n - 1 - i))) & 7 for i in range(n))
    return tuple(un(int(f[t], 16), len(p[t])) for t in range(len(p))), un(int(f[4], 16), nlocs(p))


def judge_outcomes(c, texts, allow, runs, how):
    """runs: (job, seed, stdout).  Every observed outcome must be permitted."""
    index = {t: i for i, t in enumerate(texts)}
    seen, total = collections.defaultdict(set), 0
    for job, seed, out in runs:
        for line in out.splitlines():
            if not line.startswith("OUT "): continue
            f = line.split(" ")
            i = index[f[1]]
            o = outcome(steps(f[1]), f[2:7])
            seen[i].add(o)
            total += int(f[7])
            if o not in allow[i]:
                c.violation("%s: the program %s on AtomicOrdinal<%s> shows reads %s and final values %s, which the orderings it asks for rule out" %
                            (how, f[1], job[2], o[0], o[1]), {"program": f[1], "outcome": o, "permitted": sorted(allow[i]), "job": job, "seed": seed, "how": how})
    return seen, total


# --- the atomic instructions the compiler emits for a call
IRT = {"u8": "u8", "nz": "NonZeroU64", "ob": "Option<bool>", "un": "()", "i32": "i32"}
ORD = ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"]
LLVM = {"monotonic": 0, "acquire": 1, "release": 2, "acq_rel": 3, "seq_cst": 4}


def emitted(c):
    """{(call, success, failure): primitive steps} for every call the compiler
    turned into one unconditional atomic access; None where it is not so simple."""
    src = ["#![allow(warnings)]\nuse ordinal_map::AtomicOrdinal; use std::sync::atomic::Ordering::*; use std::num::*;"]
    for n, t in IRT.items():
        for i in FAILO: src.append("#[no_mangle] pub fn load_%s_%d(a: &AtomicOrdinal<%s>) -> %s { a.load(%s) }" % (n, i, t, t, ORD[i]))
        for i in (0, 2, 4): src.append("#[no_mangle] pub fn store_%s_%d(a: &AtomicOrdinal<%s>, v: %s) { a.store(v, %s) }" % (n, i, t, t, ORD[i]))
        for i in CASO:
            for f in FAILO:
                src.append("#[no_mangle] pub fn cas_%s_%d_%d(a: &AtomicOrdinal<%s>, x: %s, y: %s) -> Result<%s, %s> { a.compare_exchange(x, y, %s, %s) }" % (n, i, f, t, t, t, t, t, ORD[i], ORD[f]))
    from types_ import libs
    args = libs(c, "ir")
    d = os.path.join(c.work, "ir")
    os.makedirs(d, exist_ok=True)
    open(d + "/ir.rs", "w").write("\n".join(src) + "\n")
    rc, out, err = run(["rustc", "--edition", "2021", "--cap-lints", "allow", "-Copt-level=3", "-Ccodegen-units=1", "-Clto=fat", "--crate-type=cdylib", "--emit=llvm-ir",
                        "--out-dir", d, d + "/ir.rs"] + args, timeout=300)
    if rc:
        raise ToolError("the calls do not compile: " + err[-2000:])
    res = {}
    text = open(d + "/ir.ll").read()
    fn = r"(load|store|cas)_(\w+?)_(\d)(?:_(\d))?"
    name = lambda g: (g[0], g[1], int(g[2]), int(g[3] or 0))
    same = {}
    for m in re.finditer(r"^define [^\n]*@%s\(([^\n]*)\{\n(.*?)^\}" % fn, text, re.M | re.S):
        body = m.group(6)
        call = re.search(r"call [^\n]*@%s\(" % fn, body)
        if call: same[name(m.groups())] = name(call.groups())
        else: res[name(m.groups())] = shape_of(body)
    # identical functions are merged
    for m in re.finditer(r"^@%s =[^\n]* alias [^\n]*@%s" % (fn, fn), text, re.M):
        same[name(m.groups()[:4])] = name(m.groups()[4:])
    for k, v in same.items():
        while v in same: v = same[v]
        res[k] = res[v]
    if len(res) != 21 * len(IRT):
        raise ToolError("only %d of %d calls found in the compiler's output" % (len(res), 21 * len(IRT)))
    return res


def shape_of(body):
    blocks, cur = collections.OrderedDict(), None
    for l in body.splitlines():
        l = l.split(";")[0].rstrip()
        m = re.match(r"^([\w.$\"-]+):", l)
        if m: cur = blocks.setdefault(m.group(1), [])
        elif l.strip() and cur is not None: cur.append(l.strip())
    prims = []
    for n, (name, ls) in enumerate(blocks.items()):
        if any(l == "unreachable" for l in ls): continue          # panics
        for l in ls:
            if re.search(r"\bcall\b", l) and "llvm." not in l and re.search(r"ptr[^,)]*%a\b", l): return None
            m = re.match(r"(?:%\S+ = )?(?:tail )?(load atomic|store atomic|cmpxchg|atomicrmw|fence)(.*)", l)
            if not m:
                if re.search(r"\b(load|store)\b.*ptr %a\b", l): return None      # not atomic
                continue
            if n > 0: return None                                     # on some paths only
            words = [w for w in re.findall(r"[a-z_]+", m.group(2)) if w in LLVM]
            k = m.group(1)
            if k == "cmpxchg":
                if " weak " in m.group(2): return None
                prims.append(("cas", LLVM[words[0]], LLVM[words[1]]))
            elif k == "atomicrmw":
                if " xchg " not in m.group(2): return None
                prims.append(("xchg", LLVM[words[0]], 0))
            else: prims.append(({"load atomic": "ld", "store atomic": "st", "fence": "f"}[k], LLVM[words[0]], 0))
    return prims if sum(1 for p in prims if p[0] != "f") == 1 else None


def stronger(a, b):
    """Ordering a promises all that b does."""
    return a == b or a == 4 or (a == 3 and b in (0, 1, 2)) or b == 0


def meets(prims, call, o, f):
    """The access alone already promises what was asked for."""
    k, so, fo = [p for p in prims if p[0] != "f"][0]
    want = {"load": "ld", "store": "st", "cas": "cas"}[call]
    return k == want and stronger(so, o) and (call != "cas" or stronger(fo, f))


def as_emitted(p, table):
    """The program made of the instructions the compiler emits; raw accesses and fences stay."""
    out = []
    for t in p:
        th = []
        for d in t:
            key = {"ld": "load", "st": "store", "cas": "cas"}.get(d["op"])
            prims = None if key is None or d.get("raw") else table.get((key, d["o"], d["f"] if key == "cas" else 0))
            if prims is None: th.append(d); continue
            for k, so, fo in prims:
                th.append(dict(d, op=k, o=so, f=fo) if k != "f" else dict(op="f", x=0, v=0, e=0, o=so, f=0))
        out.append(th)
    return out


def project(outs, p, q):
    """Outcomes of the emitted program q on the steps of p."""
    def keep(reads):
        r = []
        for t in range(len(p)):
            vals = [v for v, d in zip(reads[t], q[t]) if d["op"] != "f" or any(x["op"] == "f" for x in p[t])]
            r.append(tuple(0 if d["op"] == "st" else v for v, d in zip(vals, p[t])))
        return tuple(r)
    return {(keep(r), f) for r, f in outs}


def raw_marked(text):
    p = steps(text)
    for t, th in zip(text.split("|"), p):
        for s, d in zip(t.split(";"), th):
            if s[2:3] in ("L", "S"): d["raw"] = 1
    return p


def bare(p): return [[{k: v for k, v in d.items() if k != "raw"} for d in t] for t in p]


def known_litmus(c):
    """The model itself, on classical programs."""
    T = [("1:S1;2:s1.2|2:l.1;1:L", ((0, 0), (1, 0)), False), ("1:S1;2:s1.0|2:l.1;1:L", ((0, 0), (1, 0)), True), ("1:S1;2:s1.2|2:l.0;1:L", ((0, 0), (1, 0)), True),
         ("1:s1.4;2:l.4|2:s1.4;1:l.4", ((0, 0), (0, 0)), False), ("1:s1.2;2:l.1|2:s1.2;1:l.1", ((0, 0), (0, 0)), True), ("1:s1.4;2:l.4|2:s1.4;1:l.1", ((0, 0), (0, 0)), True),
         ("1:s1.4|2:s1.4|1:l.4;2:l.4|2:l.4;1:l.4", ((0,), (0,), (1, 0), (1, 0)), False), ("1:s1.4|2:s1.4|1:l.1;2:l.1|2:l.1;1:l.1", ((0,), (0,), (1, 0), (1, 0)), True),
         ("1:S1;2:s1.2|2:c12.0.0|2:l.1;1:L", ((0, 0), (1,), (2, 0)), False), ("1:S1;2:s1.2|2:l.0;2:s2.0|2:l.1;1:L", ((0, 0), (1, 0), (2, 0)), True),
         ("1:s1.0;f.4;2:l.0|2:s1.0;f.4;1:l.0", ((0, 0, 0), (0, 0, 0)), False), ("1:S1;f.2;2:s1.0|2:l.0;f.1;1:L", ((0, 0, 0), (1, 0, 0)), False),
         ("1:s1.0|1:l.0;1:l.0", ((0,), (1, 0)), False), ("1:S1;2:s1.2|2:c20.4.0;1:L", ((0, 0), (1, 0)), True), ("1:S1;2:s1.2|2:c20.0.1;1:L", ((0, 0), (1, 0)), False),
         ("1:s1.4;2:c20.4.1|2:s1.4;1:l.4", ((0, 0), (0, 0)), True), ("1:s1.4;2:c20.0.4|2:s1.4;1:l.4", ((0, 0), (0, 0)), False)]
    out = allowed(c, [steps(x) for x, _, _ in T], "known")
    for i, (text, reads, may) in enumerate(T):
        if (reads in {r for r, _ in out[i]}) != may:
            raise ToolError("the memory model gets %s wrong" % text)


def check_ordering(c):
    t = c.thorough
    with cf.ThreadPoolExecutor(4) as ex:
        fb, fm, fi = ex.submit(cargo_build, c, ["atomics"]), ex.submit(Miri, c), ex.submit(emitted, c)
        known_litmus(c)
        texts = shapes(c.rng, t)
        texts += list(dict.fromkeys(random_litmus(c.rng) for _ in range(400 if t else 60)))
        texts = list(dict.fromkeys(texts))
        allow = allowed(c, [bare(steps(x)) for x in texts])
        bins, miri, ir = fb.result(), fm.result(), fi.result()
    c.log("%d litmus programs, %d permitted outcomes" % (len(texts), sum(map(len, allow.values()))))
    # 1. what the compiler emits for every call and combination of orderings
    table, plain, weak = {}, 0, []
    for (call, ty, o, f), prims in sorted(ir.items()):
        if prims is None: continue
        plain += 1
        if not meets(prims, call, o, f):
            weak.append((call, ty, o, f, prims))
            table.setdefault(ty, {})[call, o, f] = prims
    c.cov["calls_compiled"] = len(ir)
    c.cov["calls_that_are_one_atomic_access"] = plain
    c.log("%d of %d compiled calls are one atomic access, %d of them not literally what was asked for" % (plain, len(ir), len(weak)))
    for ty, tab in table.items():
        ps = [raw_marked(x) for x in texts]
        qs = [as_emitted(p, tab) for p in ps]
        top = {"un": 1, "ob": 3}.get(ty, 99)
        diff = [i for i in range(len(ps)) if qs[i] != ps[i] and all(d["v"] < top and d["e"] < top for t in ps[i] for d in t if not d.get("raw"))]
        outs = allowed(c, [bare(qs[i]) for i in diff], "emitted-" + ty)
        for n, i in enumerate(diff):
            more = project(outs[n], ps[i], qs[i]) - allow[i]
            if more:
                c.violation("the instructions emitted for %s on AtomicOrdinal<%s> permit reads %s, final values %s, which the orderings it asks for rule out" %
                            (texts[i], IRT[ty], *sorted(more)[0]), {"program": texts[i], "emitted": qs[i], "more": sorted(more)})
    # 2. what is observed on this machine
    runs = []
    def native(prof, seed, ty):
        rc, out, err = run([bins["atomics", prof], "litmus", str(seed), str(20000 if t else 2000), ty] + texts, timeout=600, mem_gb=6)
        if rc: c.violation("the implementation dies or hangs in concurrent use (exit %s): %s" % (rc, err[-300:]), {"type": ty, "stderr": err[-2000:]})
        return ("litmus", 0, ty, []), seed, out
    with cf.ThreadPoolExecutor(2) as ex:
        runs = list(ex.map(lambda a: native(*a), [("release", c.seed, "u8"), ("dev", c.seed, "nzu64")]))
    seen, n1 = judge_outcomes(c, texts, allow, runs, "on this machine")
    c.log("%d native runs" % n1)
    # 3. what Miri's weak memory shows
    order = list(texts)
    jobs = []
    for rep in range(4 if t else 1):
        c.rng.shuffle(order)
        for i in range(0, len(order), 4):
            jobs.append(("litmus", 400 if t else 100, ["u8", "optbool", "nzu64", "i32"][(i // 4 + rep) % 4], order[i:i + 4]))
    miri_seen, n2 = judge_outcomes(c, texts, allow, miri.all(jobs), "under Miri")
    both = sum(len(seen[i] | miri_seen[i]) for i in range(len(texts)))
    c.log("%d runs under Miri; %d of %d permitted outcomes seen" % (n2, both, sum(map(len, allow.values()))))
    c.cov["litmus_programs"] = len(texts)
    c.cov["permitted_outcomes"] = sum(map(len, allow.values()))
    c.cov["outcomes_observed"] = both
    c.cov["traces_validated_against_impl"] = n1 + n2
    c.sample({"program": texts[0], "permitted": sorted(allow[0]), "seen": sorted(miri_seen[0])})
    c.sample({"program": texts[-1], "permitted": sorted(allow[len(texts) - 1])[:6], "seen": sorted(miri_seen[len(texts) - 1])[:6]})
    c.assumptions += ["Miri's emulation of weak memory and this processor show only executions the C11 model permits",
                      "calls compiled to more than one access are judged by their observed outcomes only"]
