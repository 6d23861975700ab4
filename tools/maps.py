"""Maps and sets: model-check the specification, cover its graph with
sessions on the real types, validate what they did against it."""
import concurrent.futures as cf
import copy, json, os
from vf import *

# key types with few values: the walks run on them as they are
SMALL = {0: ["e0", "never"], 1: ["e1", "unit"], 2: ["e2", "bool"], 3: ["e3", "ordering", "optbool"], 4: ["e4"], 5: ["e5"]}
# and with many: the walks run on chosen keys of them
BIG = {"e8": 8, "e64": 64, "e65": 65, "e130": 130, "e300": 300, "u8": 256, "i8": 256, "res": 5, "pair": 6, "arr": 8,
       "nzi8": 255, "optu8": 257, "shape": 9, "rec": 20}
SIZE = {t: n for n, ts in SMALL.items() for t in ts}
SIZE.update(BIG)
SIZE.update(e63=63, e128=128, e129=129, u16=65536)
KEY_OPS = {"insert", "get", "getmut", "has", "remove", "entry", "index", "indexmut"}
KEYS_OPS = {"retain", "retainp", "fromiter", "fromiterp"}


class Family:
    def __init__(self, name, subjects, kinds, exact, invariants, properties, vals=("tok",), small=SMALL, big=BIG, only=None):
        self.name, self.subjects, self.kinds, self.exact = name, subjects, kinds, exact
        self.invariants, self.properties, self.vals = invariants, properties, vals
        self.mc, self.trace = "MC" + name, "Trace" + name
        self.bin = {"Sparse": "sparse", "Total": "total", "Set": "sets"}[name]
        self.small, self.big = small, big
        self.only = only or {}

    def focused(self, focus):
        """The same family, judging the replies of the calls in these groups only (and the dictionary calls)."""
        f = copy.copy(self)
        f.focus = [x for x in focus if x in ALL]
        return f

    def trace_consts(self, exact=None):
        return {**self.consts(exact=exact), "Focus": tla_set(self.focus)}

    def fits(self, subject, key):
        return SIZE[key] <= self.only.get(subject, 1 << 62)

    def consts(self, feat=(), sizes=(), handles="{1,2}", ledger=False, exact=None):
        return {"Handles": handles, "Feat": tla_set(feat), "Sizes": tla_set(sizes),
                "Ledger": "TRUE" if ledger else "FALSE", "Exact": "TRUE" if (self.exact if exact is None else exact) else "FALSE"}


# what the random histories of every check mix in, whatever the check is about
ALL = ["iter", "drain", "entry", "retain", "clone", "dbg", "bulk"]
MIX = {"Sparse": ["dict", "entry", "drain", "retain", "iter", "into", "clone"],
       "Total": ["dict", "bulk", "iter", "into", "clone"], "Set": ["dict", "iter", "clone"]}

SPARSE = Family("Sparse", ["OrdinalMap", "OrdinalArrayMap"],
                ["iter", "iter_mut", "keys", "values", "values_mut", "drain", "into", "ref"], False,
                ["TypeOK", "OneOwner", "CurAgrees", "DrainEmpties"], ["Frame", "EntryPure", "OneKey"])
TOTAL = Family("Total", ["OrdinalTotalMap", "OrdinalTotalArrayMap"],
               ["iter", "iter_mut", "keys", "values", "values_mut", "into", "into_keys", "ref"], True,
               ["TypeOK", "OneOwner", "CurAgrees", "Total"], ["Frame", "Single"])
SET = Family("Set", ["OrdinalSet", "OrdinalSet64", "OrdinalArraySet"], ["elems"], None,
             ["TypeOK", "CurAgrees"], ["Frame", "Grows", "Exhausted"],
             big={**BIG, "e63": 63, "e128": 128, "e129": 129}, only={"OrdinalSet64": 64})


def places(m, n, rng):
    """An order-preserving choice of n keys among m, favouring edges."""
    if m < n:
        return None
    base = sorted({b for b in [0, 1, m // 2, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, m - 2, m - 1] if 0 <= b < m})
    return sorted(rng.sample(base if rng.random() < 0.7 and len(base) >= n else range(m), n))


def embed(op, place):
    o = dict(op)
    if o["op"] in KEY_OPS:
        o["k"] = place[o["k"]]
    elif o["op"] in KEYS_OPS:
        o["xs"] = [place[x] for x in o["xs"]]
    return o


# ------------------------------------------------------------- random histories
class Gen:
    """A random history over n keys, steered towards states worth visiting."""

    def __init__(self, rng, fam, n, feat, length, focus=()):
        self.focus, self.dense = set(focus) or set(feat), n > 5 and n <= 300 and rng.random() < 0.25
        self.rng, self.fam, self.n, self.feat, self.length = rng, fam, n, set(feat), length
        self.ops, self.present, self.alive = [], set(), {1}
        self.spots = [x for x in sorted({0, 1, n // 2, 62, 63, 64, 65, 127, 128, 255, 256, n - 2, n - 1}) if 0 <= x < n]

    def o(self, op, **kw):
        self.ops.append(dict(op=op, **kw))

    def key(self):
        r = self.rng.random()
        if self.present and r < 0.45: return self.rng.choice(sorted(self.present))
        if self.spots and r < 0.75: return self.rng.choice(self.spots)
        return self.rng.randrange(self.n)

    def bit(self):
        return self.rng.randint(0, 1)

    def create(self, h):
        r = self.rng
        if self.fam.name == "Sparse":
            if self.dense:
                ks = [k for k in range(self.n) if r.random() < r.choice([0.5, 0.9, 1])]
                if r.random() < 0.5: r.shuffle(ks)
                self.present |= set(ks)
                self.o("fromiter", h=h, xs=ks)
            elif self.n and r.random() < 0.3:
                ks = [self.key() for _ in range(r.randint(0, min(self.n, 12)))]
                self.present |= set(ks)
                self.o("fromiter", h=h, xs=ks)
            else:
                self.o("new", h=h, j=self.bit())
        elif self.fam.name == "Total":
            if "dict" in self.feat and r.random() < 0.3: self.o("fromvals", h=h, j=self.bit())
            else: self.o("new", h=h, j=self.bit())
        else:
            x = r.random()
            if self.dense: self.o("fromiter", h=h, xs=[k for k in range(self.n) if r.random() < 0.9])
            elif x < 0.3: self.o("fromiter", h=h, xs=[self.key() for _ in range(r.randint(0, min(self.n * 2, 12)))])
            elif x < 0.45: self.o("all", h=h)
            self.o("new", h=h, j=self.bit())
        self.alive.add(h)

    def iterate(self, h, kind):
        r = self.rng
        self.o("begin", h=h, kind=kind)
        cs = [1]
        for _ in range(r.randint(0, 9)):
            ci = r.choice(cs)
            op = r.choice(["next", "back", "next", "back", "nth", "nthb", "find", "rfind", "hint", "hint", "len", "tfold", "trfold", "cdbg", "cclone"])
            if op == "cclone" and ("clone" not in self.feat and r.random() < 0.5 or len(cs) > 1): continue
            if op == "cdbg" and "dbg" not in self.feat: continue
            if op == "cclone": cs = [1, 2]
            j = (r.choice([0, 0, 1, 1, 2, 3, 7, max(0, self.n - 2), self.n, 2 * self.n + 1]) if op in ("nth", "nthb", "find", "rfind")
                 else r.randint(1, 4) if op in ("tfold", "trfold") else self.bit() if op == "cdbg" else 0)
            self.o(op, h=1 if op == "cclone" else ci, j=j, w=self.bit())
        for ci in cs:
            self.o(r.choice(["fold", "rfold", "count", "last", "skip", "rskip", "step", "cdrop", "cdrop"]), h=ci, j=r.randint(0, 2), w=self.bit())
            self.o("cdrop", h=ci)
        if kind in ("into", "into_keys"):
            self.present.clear()
            self.create(h)
        elif kind == "drain":
            self.present.clear()
            self.o("isempty", h=h); self.o("len", h=h)
        elif self.n:
            self.o("get", h=h, k=self.key())
            self.o("has", h=h, k=self.key())

    def choices(self):
        """Calls to choose from; those the property is about come more often."""
        f, name, c = self.feat, self.fam.name, []
        w = lambda g: 3 if g in self.focus else 1
        if self.n: c += ["insert"] * 4
        if name == "Sparse":
            if self.n: c += ["remove"] * 2
            if "dict" in f: c += ((["get", "getmut", "has"] * 2 if self.n else []) + ["len", "isempty"] * 2)
            if "entry" in f and self.n: c += ["entry"] * 2 * w("entry")
            if "drain" in f: c += ["drain", "clear"] if "drain" in self.focus else [self.rng.choice(["drain", "clear"])]
            if "retain" in f: c += ["retain"] * w("retain")
        elif name == "Total":
            if "dict" in f: c += (["get", "index", "getmut", "indexmut"] * 2 if self.n else []) + ["len", "isempty", "dropnew", "newe"]
            if "bulk" in f:
                b = ["valarr", "valarrmut", "asref", "asmut", "map", "mapvalues", "intovalues", "zip"]
                c += b if "bulk" in self.focus else self.rng.sample(b, 3)
        else:
            if "dict" in f: c += (["has"] * 4 if self.n else []) + ["eq", "dropnew"]
        if "iter" in f: c += ["iter"] * w("iter")
        if "into" in f: c += ["into"]
        if "clone" in f: c += (["clone"] * 2 if len(self.alive) == 1 else ["clonefrom", "eq"]) if "clone" in self.focus else ["clone" if len(self.alive) == 1 else "clonefrom"]
        if "dbg" in f: c += ["dbg"] * 3
        if "fault" in f: c += ["fault"] * 3
        return c or ["len"]

    def fault(self, h):
        r = self.rng
        if self.fam.name == "Sparse":
            x = r.choice(["retainp", "clonep", "foldp", "fromiterp"])
            if x == "retainp": self.o(x, h=h, k=r.randint(1, len(self.present) + 1), xs=[k for k in sorted(self.present) if r.random() < .5])
            elif x == "clonep": self.o(x, h=h, j=3 - h, k=r.randint(1, len(self.present) + 1))
            elif x == "fromiterp": self.o(x, h=2, xs=[self.key() for _ in range(r.randint(0, 4))] if self.n else [])
            else:
                self.o("begin", h=h, kind=r.choice(["drain", "into"]))
                self.o("foldp", h=1, j=r.randint(1, len(self.present) + 1)); self.o("cdrop", h=1); self.o("new", h=h)
        else:
            x = r.choice(["newp", "newe", "clonep", "mapp", "mapvaluesp", "foldp"])
            if x in ("newp", "newe"): self.o(x, h=3 - h, k=r.randint(1, max(1, self.n)), j=self.bit()); self.o("dropmap", h=3 - h)
            elif x == "clonep": self.o(x, h=h, j=3 - h, k=r.randint(1, max(1, self.n))); self.o("dropmap", h=3 - h)
            elif x == "foldp":
                self.o("begin", h=h, kind="into")
                for _ in range(r.randint(0, 2)): self.o(r.choice(["next", "back"]), h=1)
                self.o("foldp", h=1, j=r.randint(1, max(1, self.n))); self.o("cdrop", h=1); self.create(h)
            else: self.o(x, h=h, k=r.randint(1, max(1, self.n))); self.create(h)

    def run(self):
        r = self.rng
        self.create(1)
        while len(self.ops) < self.length:
            h = r.choice(sorted(self.alive))
            c = r.choice(self.choices())
            if c in ("insert", "remove", "get", "getmut", "has", "index", "indexmut"):
                k = self.key()
                self.o(c, h=h, k=k, w=self.bit() if c in ("getmut", "indexmut") else 0)
                if c == "insert": self.present.add(k)
                if c == "remove" and r.random() < 0.7: self.present.discard(k)
            elif c in ("len", "isempty", "clear", "valarr", "asref", "map", "mapvalues"):
                self.o(c, h=h)
            elif c in ("valarrmut", "asmut"):
                self.o(c, h=h, w=self.bit())
            elif c == "dbg":
                self.o(c, h=h, j=self.bit())
            elif c == "entry":
                k = self.key(); self.present.add(k)
                self.o("entry", h=h, k=k)
                for _ in range(r.randint(0, 2)):
                    self.o(r.choice(["ekey", "eget", "egetmut"]), w=self.bit())
                self.o(r.choice(["eins", "eor", "eor", "edrop"]), w=self.bit())
                self.o("edrop"); self.o("get", h=h, k=k)
            elif c == "retain":
                d = r.choice([0.6, 0.6, 0.6, 0, 0.05, 0.95, 1])
                acc = [k for k in sorted(self.present) if r.random() < d]
                self.o("retain", h=h, xs=acc, w=self.bit())
                self.present &= set(acc)
            elif c == "fault":
                self.fault(h)
            elif c == "clone":
                self.o("clone", h=h, j=3 - h); self.alive = {1, 2}
            elif c in ("clonefrom", "eq"):
                self.o(c, h=h, j=r.choice(sorted(self.alive)) if c == "eq" else 3 - h)
            elif c == "dropnew":
                self.o("dropmap", h=h); self.create(h)
            elif c == "newe":
                self.o("dropmap", h=h); self.o("newe", h=h, k=r.randint(1, max(1, self.n))); self.create(h)
            elif c == "intovalues":
                self.o(c, h=h); self.create(h)
            elif c == "zip":
                if len(self.alive) == 1: self.create(3 - h)
                self.o("zip", h=h, j=3 - h); self.o("dropmap", h=3 - h); self.alive = {h}; self.create(h)
            elif c == "drain":
                self.iterate(h, "drain")
            elif c == "into":
                self.iterate(h, r.choice(["into", "into_keys"]) if self.fam.name == "Total" else "into")
            else:
                self.iterate(h, r.choice([k for k in self.fam.kinds if k not in ("drain", "into", "into_keys")]))
        return self.ops


def watched(ops, hs=(1,), every=1, rng=None):
    """The session with the contents of every map read back after each call."""
    out = []
    for o in ops:
        out.append(o)
        if every >= 1 or rng.random() < every:
            out += [dict(op="peek", h=h) for h in hs]
    return out


# ------------------------------------------------------------- the pipeline
def explore(c, fam, feat, sizes, handles="{1}", ledger=False, emit=True, timeout=800):
    cfg = cfg_text("MCSpec", view="View" if emit else None, action_constraint="Edges" if emit else None,
                   consts=fam.consts(feat, sizes, handles, ledger, exact=bool(fam.exact)),
                   invariants=fam.invariants, properties=fam.properties)
    r = tlc_must_pass(c, fam.mc, cfg, workers=1, timeout=timeout, heap="10g")
    g = Graph(r["out"])
    c.log("%s: %d states, %d transitions" % (fam.mc, len(g.ids), len(g.edges)))
    return g


def run_sessions(c, bins, name, sess, profiles=("dev", "release"), env=None):
    recorded = []
    with cf.ThreadPoolExecutor(2) as ex:
        futs = {p: ex.submit(drive, c, bins[name, p], "%s-%s" % (name, p), sess, env=env) for p in profiles}
        for p, f in futs.items():
            for i, r in f.result().items():
                recorded.append(({"profile": p, "script": [op_line(o) for o in sess[i]["ops"]]}, r))
    for _, r in recorded[:: max(1, len(recorded) // 2)][:2]:
        c.sample({"subject": r["subject"], "key": r["key"], "events": [brief(e) for e in r["ev"][:14]]})
    return recorded


def sessions(c, fam, walks, g, sizes, nrandom, length, feat, vals, embeds=1, bigmax=300, u16=0, hs=(1,), focus=()):
    sess, rng = [], c.rng
    raw = walks
    walks = [(r, watched(w, hs)) for r, w in walks]
    sized = {}
    for root, w in walks:
        sized.setdefault(g.size(root), []).append(w)
    thin = {}
    for root, w in raw:
        thin.setdefault(g.size(root), []).append(watched(w, hs, 0.15, rng))
    for n, ws in sized.items():
        ts = fam.small[n]
        for i, w in enumerate(ws):
            for subj in fam.subjects:
                for t in ts if c.thorough else [ts[0]] + ([ts[1 + i % (len(ts) - 1)]] if len(ts) > 1 and i % 3 == 0 else []):
                    sess.append(Sess(subject=subj, key=t, val="tok", ops=w))
                if n == 3:
                    for j, v in enumerate(vals[1:]):
                        if c.thorough or i % 3 == j % 3:
                            sess.append(Sess(subject=subj, key="e3", val=v, ops=w))
    # the same walks on chosen keys of larger types
    top = max(sized)
    bigs = [t for t, m in fam.big.items() if m <= bigmax]
    for i, w in enumerate(thin[top]):
        for t in rng.sample(bigs, min(len(bigs), embeds)) if embeds >= 1 else ([rng.choice(bigs)] if rng.random() < embeds else []):
            place = places(fam.big[t], top, rng)
            if place:
                for subj in fam.subjects:
                    if fam.fits(subj, t):
                        sess.append(Sess(subject=subj, key=t, val="tok", ops=[embed(o, place) for o in w]))
    # seeded random histories over every key type
    types = [t for ts in fam.small.values() for t in ts] + bigs
    for i in range(nrandom):
        t = types[i % len(types)]
        ops = watched(Gen(rng, fam, SIZE[t], feat, length, focus).run(), (1, 2), 0.1 if SIZE[t] > 20 else 0.5, rng)
        for subj in fam.subjects:
            if fam.fits(subj, t):
                sess.append(Sess(subject=subj, key=t, val="tok", ops=ops))
    for v in vals[1:]:
        for i in range(nrandom // 20):
            t = rng.choice(["e3", "e65", "e130"]) if v in ("u32", "wide", "box") else "e3"
            ops = Gen(rng, fam, SIZE[t], feat, length, focus).run()
            for subj in fam.subjects:
                sess.append(Sess(subject=subj, key=t, val=v, ops=ops))
    for i in range(u16):
        ops = Gen(rng, fam, 65536, [f for f in feat if f not in ("iter", "clone", "dbg")], 25).run()
        sess.append(Sess(subject=fam.subjects[0], key="u16", val="tok", ops=ops))
    return sess


def check_family(c, fam, feat, sizes, handles="{1}", judge="ret", ledger=False, nrandom=300, length=45, vals=("tok",),
                 randfeat=None, maxlen=50, embeds=1, bigmax=300, u16=0, want=None, focus=None):
    focus = focus or feat
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(cargo_build, c, [fam.bin])
        g = explore(c, fam, feat, sizes, handles, ledger)
        bins = fb.result()
    walks = g.cover(c.rng, maxlen=maxlen, want=want)
    if g.uncovered:
        raise ToolError("%d transitions not covered" % g.uncovered)
    sess = sessions(c, fam, walks, g, sizes, nrandom, length, (randfeat or MIX[fam.name] + [f for f in feat if f not in MIX[fam.name]]), vals, embeds, bigmax, u16,
                    hs=(1, 2) if "2" in handles else (1,), focus=focus)
    c.log("%d walks cover every transition; %d sessions" % (len(walks), len(sess)))
    recorded = run_sessions(c, bins, fam.bin, sess, env={"HARNESS_OWN": "1"} if judge == "drops" else None)
    c.log("%d sessions recorded, %d calls" % (len(recorded), sum(len(r["ev"]) for _, r in recorded)))
    validate_family(c, fam, recorded, judge, ALL if judge == "drops" else focus)
    if judge == "drops":
        # and by ownership alone, which also follows sessions whose replies are wrong
        from hostile_ import own
        own(c, [x for x in recorded if x[1]["val"] == "tok"], label="own")
    c.log("validated")
    c.add("sessions", len(sess))
    c.cov["transition_coverage"] = "every transition of each explored graph, on every subject, in a checked and a wrapping build"
    return recorded


def validate_family(c, fam, recorded, judge="ret", focus=()):
    fam = fam.focused(focus)
    if fam.name == "Set":
        validate(c, fam.trace, [x for x in recorded if x[1]["subject"] == "OrdinalSet64"], fam.trace_consts(exact=True), judge, label="set64")
        validate(c, fam.trace, [x for x in recorded if x[1]["subject"] != "OrdinalSet64"], fam.trace_consts(exact=False), judge, label="set")
    else:
        validate(c, fam.trace, recorded, fam.trace_consts(), judge)
