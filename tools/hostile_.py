"""C19: key types that break their contract."""
import concurrent.futures as cf
import struct
from vf import *
from maps import Gen, SPARSE, TOTAL, SET, MIX
import values as vals

SIZE = {"h1": 1, "h3": 3, "h65": 65, "hopt": 4, "hpair": 6, "harr": 4, "hd": 7}
OWN = {"HARNESS_OWN": "1"}


def noisy(rng, ops):
    """The session with the key type giving wrong answers now and then."""
    out, on = [], False
    p = rng.choice([0.05, 0.2, 0.5])
    for o in ops:
        if on and rng.random() < 0.6 or on and o["op"] in ("new", "fromiter"):
            out.append(dict(op="noise")); on = False
        if rng.random() < p and (o["op"] != "new" or rng.random() < 0.3):
            out.append(dict(op="noise", k=rng.randrange(1, 1 << 30), j=rng.choice([1, 1, 2, 3, 6, 20]))); on = True
        out.append(o)
    return out


def cell_ops(rng, n, length):
    ops = [dict(op="new", k=rng.randrange(n))]
    for _ in range(length):
        ops.append(dict(op=rng.choice(["load", "store", "cas", "cas", "dbg", "new"]), k=rng.randrange(n), j=rng.randrange(n)))
    return ops


CALLS = {"sparse": ["insert", "get", "getmut", "has", "remove", "entry eor", "entry eins", "entry ekey edrop", "entry eget edrop", "entry egetmut edrop",
                    "retain", "clear", "len", "dbg", "clone", "iterate"],
         "total": ["insert", "get", "getmut", "index", "indexmut", "new", "newe", "map", "mapvalues", "zip", "valarrmut", "asmut", "intovalues", "dbg", "clone", "iterate"],
         "sets": ["insert", "has", "eq", "dbg", "clone", "fromiter", "all", "iterate"]}


def systematic(rng, fam, n, rounds):
    """Each call with the key type giving only wrong answers, on a map that is fine."""
    out = []
    for _ in range(rounds):
        for c in CALLS[fam.bin]:
            full = [dict(op="new", h=1)] + [dict(op="insert", h=1, k=k) for k in range(n) if n <= 7 or k in (0, 1, 63, 64)] * (fam.name != "Total")
            def wrong(*ops):
                for o in ops:
                    out.extend([dict(op="noise", k=rng.randrange(1, 1 << 30), j=rng.choice([1, 1, 2, 4])), o, dict(op="noise")])
            ks = rng.sample(range(n), min(n, 2))
            out += full
            if c == "iterate":
                for kind in fam.kinds:
                    out += full + [dict(op="begin", h=1, kind=kind)]
                    wrong(*[dict(op=o, h=1, j=rng.randint(0, 2), w=1) for o in rng.sample(["next", "back", "nth", "nthb", "find", "rfind", "tfold", "trfold"], 4)])
                    wrong(dict(op=rng.choice(["fold", "rfold", "count", "last", "skip", "rskip", "step", "cdrop"]), h=1, j=1, w=1), dict(op="cdrop", h=1))
            elif c in ("new", "newe", "fromiter", "all"):
                out.append(dict(op="dropmap", h=1))
                wrong(dict(op=c, h=1, k=rng.randint(1, n), xs=[rng.randrange(n) for _ in range(4)] if c == "fromiter" else []))
            elif c == "zip":
                out.append(dict(op="new", h=2))
                wrong(dict(op="zip", h=1, j=2))
            elif c in ("clone", "eq"):
                if c == "eq": out.append(dict(op="clone", h=1, j=2))
                wrong(dict(op=c, h=1, j=2))
                out.append(dict(op="peek", h=2))
            else:
                for k in ks:
                    for o in c.split():
                        wrong(dict(op=o, h=1, k=k, j=rng.randint(0, 1), w=1, xs=[k] if o == "retain" else []))
            out += [dict(op="cdrop", h=1), dict(op="edrop"), dict(op="peek", h=1), dict(op="dropmap", h=1), dict(op="dropmap", h=2)]
    return out


def make(rng, count, length, rounds=0):
    """{driver: sessions}"""
    res = {"sparse": [], "total": [], "sets": [], "values": [], "cells": []}
    for fam in (SPARSE, TOTAL, SET):
        for t in ["h3", "h65", rng.choice(["h1", "hopt", "hpair", "harr", "hd"])] * (rounds > 0):
            for s in fam.subjects:
                if s == "OrdinalSet64" and t == "h65": t = "h64"
                res[fam.bin].append(Sess(subject=s, key=t, val="tok", ops=systematic(rng, fam, SIZE.get(t, 64), rounds)))
    for i in range(count):
        for fam in (SPARSE, TOTAL, SET):
            keys = list(SIZE) + (["h64"] if fam is SET else [])
            t = keys[i % len(keys)]
            n = SIZE.get(t, 64)
            feat = MIX[fam.name] + ["iter", "dbg"] + (["fault"] if fam is not SET and rng.random() < 0.3 else [])
            ops = noisy(rng, Gen(rng, fam, n, feat, length).run())
            for s in fam.subjects:
                if s != "OrdinalSet64" or n <= 64:
                    res[fam.bin].append(Sess(subject=s, key=t, val="tok", ops=ops))
        t = list(SIZE)[i % len(SIZE)]
        res["values"].append(Sess(subject="OrdinalValues", key=t, val="-", ops=noisy(rng, vals.fit(vals.random_ops(rng, SIZE[t], length, ["clone"]), SIZE[t]))))
        res["cells"].append(Sess(subject="AtomicOrdinal", key=t, val="-", ops=noisy(rng, cell_ops(rng, SIZE[t], length))))
    return res


def binary(sessions):
    """Scripts in a form that takes no parsing: records of eight words."""
    names, body, pool = {"": 0}, [], []
    nm = lambda s: names.setdefault(s or "", len(names))
    for s in sessions:
        body.append((nm(s["subject"]), nm(s["key"]), nm(s["val"]), len(s["ops"]), 0, 0, 0, 0))
        for o in s["ops"]:
            xs = o.get("xs") or []
            body.append((nm(o["op"]), o.get("h", 0), o.get("k", 0), min(o.get("j", 0), (1 << 31) - 1), 1 if o.get("w") or o.get("vs") else 0, nm(o.get("kind")), len(pool), len(xs)))
            pool += xs
    rec = lambda r: struct.pack("<8i", *r)
    pool += [0] * (-len(pool) % 8)
    return (rec((len(sessions), len(names), 1 + len(names) + len(body), 0, 0, 0, 0, 0)) + b"".join((bytes([len(n)]) + n.encode()).ljust(32, b"\0") for n in names)
            + b"".join(map(rec, body)) + struct.pack("<%di" % len(pool), *pool))


def miri(c, per_shard, shards):
    """The same kind of sessions under an interpreter that notices every
    undefined behaviour."""
    tgt = os.path.join(HARNESS, "target", "miri")
    flags = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks", "CARGO_TARGET_DIR": tgt}
    base = ["cargo", "+nightly", "miri", "run", "--offline", "-q"]
    # build once, on no sessions at all
    empty = os.path.join(c.work, "empty.bin")
    open(empty, "wb").write(binary([]))
    bins = ["sparse", "total", "sets", "values", "cells"]
    for b in bins:
        rc, out, err = run(base + ["--bin", b, "--", empty, os.path.join(c.work, "empty.out"), "0"], timeout=600, cwd=HARNESS, env=flags)
        if rc:
            raise ToolError("Miri does not run the driver %s: %s" % (b, err[-3000:]))
    jobs = []
    for i in range(shards):
        for b, ss in make(c.rng, per_shard, 14, 1).items():
            jobs.append((i, b, ss))
    def go(job):
        i, b, ss = job
        sp, op = os.path.join(c.work, "m%d-%s.bin" % (i, b)), os.path.join(c.work, "m%d-%s.out" % (i, b))
        open(sp, "wb").write(binary(ss))
        rc, out, err = run(base + ["--bin", b, "--", sp, op, "0"], timeout=600, cwd=HARNESS, env={**flags, "HARNESS_MUTE": "1"})
        done = open(op).read().split() if os.path.exists(op) else []
        return job, rc, err, done
    n = 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (i, b, ss), rc, err, done in ex.map(go, jobs):
            n += len(done)
            if rc == 0 and len(done) == len(ss): continue
            if "Undefined Behavior" in err:
                bad = len(done)
                what = re.search(r"error: (Undefined Behavior: .*)", err).group(1)
                c.violation("a key type that breaks its contract leads to undefined behaviour: %s" % what,
                            {"driver": b, "session": ss[bad] if bad < len(ss) else None, "miri": err[-4000:],
                             "script": [op_line(o) for o in ss[bad]["ops"]] if bad < len(ss) else None})
                continue
            raise ToolError("Miri: rc %s %s" % (rc, err[-2500:]))
    c.add("sessions_under_miri", n)
    c.log("%d sessions under Miri" % n)


def check_hostile(c):
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(cargo_build, c, ["sparse", "total", "sets", "values", "cells"])
        for total in ("FALSE", "TRUE"):
            s, m = ("3", "8") if c.thorough else ("3", "6")
            if total == "TRUE": m = str(int(m) + 3)
            tlc_must_pass(c, "Hostile", cfg_text("Spec", consts={"S": s, "MaxId": m, "Total": total}, invariants=["Distinct"], properties=["Owned"]), workers=4)
        bins = fb.result()
    groups = make(c.rng, 900 if c.thorough else 150, 40, 20)
    rec = []
    def go(b, p):
        return b, p, drive(c, bins[b, p], "%s-%s" % (b, p), groups[b], env=OWN)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for b, p, got in ex.map(lambda x: go(*x), [(b, p) for b in groups for p in ("dev", "release")]):
            c.add("sessions", len(got))
            if b in ("sparse", "total"):
                rec += [({"profile": p, "script": [op_line(o) for o in groups[b][i]["ops"]]}, r) for i, r in got.items()]
    c.log("%d sessions of maps recorded, %d calls" % (len(rec), sum(len(r["ev"]) for _, r in rec)))
    answers = collections.Counter(("panic" if e["ret"][-1:] in ([-1], [-999]) else "answer") for _, r in rec for e in r["ev"])
    c.cov["calls_that_panicked"] = answers["panic"]
    own(c, rec)
    miri(c, 4, 40 if c.thorough else 6)


KEEP = ("op", "lo", "hi", "drops", "back", "seen", "alive")


def own(c, rec, label="own"):
    slim = []
    for o, r in rec:
        if all("lo" in e for e in r["ev"]):
            slim.append((o, {**r, "ev": [{k: e[k] for k in KEEP} for e in r["ev"]]}))
    if not slim:
        raise ToolError("no recording says who owned what")
    for _, r in slim[:: max(1, len(slim) // 2)][:2]:
        c.sample({"subject": r["subject"], "key": r["key"], "events": [json.dumps(e) for e in r["ev"][:10]]})
    validate(c, "TraceOwn", slim, {}, "own", label=label)
    c.log("ownership validated")
