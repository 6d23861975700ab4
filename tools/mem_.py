"""C20: what the calls cost."""
import concurrent.futures as cf
from vf import *

KEYS = {"q%d" % n: n for n in (0, 1, 2, 3, 63, 64, 65, 128, 129, 300, 1000)}
SUBJECTS = {"OrdinalMap": ("u8", "wide", "unit", "char"), "OrdinalArrayMap": ("u8", "char"), "OrdinalTotalMap": ("u8", "wide", "unit", "char"),
            "OrdinalTotalArrayMap": ("u8", "char"), "OrdinalSet": ("-",), "OrdinalArraySet": ("-",), "OrdinalSet64": ("-",), "AtomicOrdinal": ("-",)}
KIND = {"OrdinalMap": "lazy", "OrdinalTotalMap": "always", "OrdinalSet": "lazy"}
ALLOPS = ["new", "fromiter", "all", "trynew", "clone", "clonefrom", "dropmap", "into", "intokeys", "intovalues"] + ["insert"] * 6 + ["entry"] * 3 + [
    "get", "getmut", "has", "remove", "len", "iter", "iter_mut", "keys", "values", "values_mut", "index", "valarr", "asref", "map", "zip", "clear", "drain", "retain"]


def spots(rng, n):
    return min(max(0, n - 1), rng.choice([0, 1, 2, 62, 63, 64, 127, 128, n // 2, n - 1, n - 1, rng.randrange(max(n, 1))]))


def fill(rng, n, o):
    """A call of the specification on some keys of a type with n."""
    o = dict(op=o["op"], h=o["h"], j=o.get("j", 0), k=spots(rng, n), xs=[])
    if o["op"] == "entry": o["j"] = rng.randint(0, 2)
    if o["op"] == "trynew": o["k"] = rng.choice([0, n - 1, n // 2, n, n + 1, n + 1])
    if o["op"] == "fromiter" and n: o["xs"] = [spots(rng, n) for _ in range(rng.choice([0, 1, 2, 3, 10]))]
    return o


def random_ops(rng, n, length):
    return [fill(rng, n, dict(op=rng.choice(ALLOPS), h=rng.randint(1, 2), j=rng.randint(0, 1))) for _ in range(length)]


def check_cost(c):
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(cargo_build, c, ["mem"])
        cfg = cfg_text("RSpec", view="View", action_constraint="Edges", consts={"Handles": "{1, 2}", "Kinds": '{"never", "lazy", "always"}', "Feat": "<- Everything"},
                       invariants=["HeldOK"], properties=["Balance", "Settled", "NeverAllocates"])
        r = tlc_must_pass(c, "MCResources", cfg, workers=1)
        bins = fb.result()
    g = Graph(r["out"])
    c.log("%d states, %d transitions" % (len(g.ids), len(g.edges)))
    rng, sess = c.rng, []
    walks = {k: [] for k in ("never", "lazy", "always")}
    for root, w in g.cover(rng, maxlen=60):
        walks[re.search(r'"(\w+)"', list(g.ids)[root]).group(1)].append(w)
    if g.uncovered:
        raise ToolError("%d transitions not covered" % g.uncovered)
    for s, vals in SUBJECTS.items():
        for t, n in KEYS.items():
            if s == "OrdinalSet64" and t not in ("q0", "q1", "q3", "q63", "q64"): continue
            for v in vals:
                kind = KIND.get(s, "never")
                if s == "OrdinalSet" and n <= 64: kind = "never"
                for w in walks[kind]:
                    sess.append(Sess(subject=s, key=t, val=v, ops=[fill(rng, n, o) for o in w]))
                for _ in range(60 if c.thorough else 12):
                    sess.append(Sess(subject=s, key=t, val=v, ops=random_ops(rng, n, 60)))
    rec = []
    with cf.ThreadPoolExecutor(2) as ex:
        for p, got in zip(("dev", "release"), ex.map(lambda p: drive(c, bins["mem", p], "mem-" + p, sess), ("dev", "release"))):
            for i, r in got.items():
                rec.append(({"profile": p, "script": [op_line(o) for o in sess[i]["ops"]]}, dict(r, what=[r["subject"], r["key"], r["val"]])))
    for _, r in rec[:: max(1, len(rec) // 3)]:
        c.sample({"subject": r["subject"], "key": r["key"], "events": [brief(e) for e in r["ev"][:14]]})
    # time, in the optimised build, one process at a time
    path = os.path.join(c.work, "times.ndjson")
    for attempt in range(3):
        rc, out, err = run([bins["mem", "release"], "times", path], timeout=300)
        if rc:
            raise ToolError("measuring times: %s %s" % (rc, err[-500:]))
        times = [json.loads(x) for x in open(path)]
        # a busy machine is not a slow collection
        if all(e["large"] <= 20000 + 100 * e["small"] for t in times for e in t["ev"]): break
    for t in times:
        rec.append(({"times": True}, dict(t, what=[t["subject"], t["id"]])))
    c.cov["slowest_call_ns"] = max((e["large"], e["small"], t["subject"], e["call"]) for t in times for e in t["ev"])
    c.log("%d sessions, %d calls measured" % (len(rec), sum(len(r["ev"]) for _, r in rec)))
    validate(c, "TraceRes", rec, {"Handles": "{1, 2}"})
    c.add("sessions", len(sess))
    c.log("validated")
