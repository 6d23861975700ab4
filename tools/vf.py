"""Shared machinery of the checks: run TLC, turn state graphs into scripts,
build and run the Rust drivers, validate recorded traces, report."""
import collections, hashlib, json, os, random, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not run: exit 2."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Check:
    narrow = None        # on 32 bits: rustc's arguments, by profile

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.level = level
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays", pid)
        os.makedirs(self.replays, exist_ok=True)
        self.cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, what, data):
        """Record a violation and its replay file."""
        body = json.dumps(data, indent=1, sort_keys=True, default=str)
        name = hashlib.sha1(body.encode()).hexdigest()[:12] + ".json"
        path = os.path.join(self.replays, name)
        with open(path, "w") as f:
            f.write(body)
        self.violations.append((what, path))
        self.log("violation:", what[:2000])

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for what, path in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + what.replace("\n", "\n  ")[:3000])
        sys.stdout.flush()
        return 1 if self.violations else 0


# ---------------------------------------------------------------- subprocess
def limits(mem_gb):
    def f():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout=600, mem_gb=0, cwd=None, env=None, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd,
                           env=e, preexec_fn=limits(mem_gb), input=stdin, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        out = x.stdout if isinstance(x.stdout, str) else (x.stdout or b"").decode(errors="replace")
        return -99, out, "timeout"


# ---------------------------------------------------------------- TLC
def cfg_text(spec=None, init=None, consts=None, invariants=(), properties=(), view=None, constraint=None,
             action_constraint=None, postcondition=None):
    t = ["SPECIFICATION %s" % spec if spec else "", "CHECK_DEADLOCK FALSE"]
    if view: t.append("VIEW " + view)
    if constraint: t.append("CONSTRAINT " + constraint)
    if action_constraint: t.append("ACTION_CONSTRAINT " + action_constraint)
    if postcondition: t.append("POSTCONDITION " + postcondition)
    for i in invariants: t.append("INVARIANT " + i)
    for p in properties: t.append("PROPERTY " + p)
    if consts:
        t.append("CONSTANTS")
        for k, v in consts.items(): t.append("  %s %s" % (k, v) if str(v).startswith("<-") else "  %s = %s" % (k, v))
    return "\n".join(t) + "\n"


def tla_set(xs):
    return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in sorted(xs)) + "}"


_tlc_n = [0]


def tlc(check, module, cfg, workers=1, timeout=600, env=None, heap="6g", extra=(), name=None):
    """Run TLC; returns a dict with raw output and statistics."""
    _tlc_n[0] += 1
    name = name or "%s-%d" % (module, _tlc_n[0])
    d = os.path.join(check.work, "tlc-" + name)
    os.makedirs(os.path.join(d, "tmp"), exist_ok=True)
    cf = os.path.join(d, "model.cfg")
    open(cf, "w").write(cfg)
    e = {"JAVA_TOOL_OPTIONS": "-Xss32m -Xmx%s -XX:+UseParallelGC -Djava.io.tmpdir=%s/tmp" % (heap, d)}
    e.update(env or {})
    rc, out, err = run(["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
                        "-config", cf] + list(extra) + [os.path.join(SPEC, module + ".tla")],
                       timeout=timeout, cwd=d, env=e)
    for x in ("meta", "tmp"): shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    res = {"rc": rc, "out": out, "err": err, "name": name}
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    res["generated"], res["distinct"] = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    res["ok"] = rc == 0 and "No error has been found" in out
    res["violated"] = re.findall(r"(?:Invariant|Action property|Property|Postcondition|Temporal properties?) ?(\S*) (?:is|was|were) (?:violated|false)", out)
    return res


def tlc_must_pass(check, module, cfg, **kw):
    r = tlc(check, module, cfg, **kw)
    if not r["ok"]:
        tail = "\n".join(l for l in r["out"].splitlines() if not l.startswith('"EDGE'))[-3000:]
        raise ToolError("the specification %s does not check: %s\n%s" % (module, tail, r["err"][-500:]))
    check.add("states", r["distinct"])
    check.add("transitions", r["generated"])
    return r


# ---------------------------------------------------------------- graphs -> scripts
class Graph:
    def __init__(self, out):
        self.ids, self.edges, self.succ, seen = {}, [], collections.defaultdict(list), set()
        self.roots = []
        for line in out.splitlines():
            if line.startswith('"ROOT '):
                self.roots.append(self.node(json.loads(json.loads(line)[5:])[0]))
            if not line.startswith('"EDGE '):
                continue
            key = line
            if key in seen:
                continue
            seen.add(key)
            a, op, b = json.loads(json.loads(line)[5:])
            x, y = self.node(a), self.node(b)
            self.succ[x].append(len(self.edges))
            self.edges.append((x, op, y))

    def size(self, root):
        if not hasattr(self, "names"):
            self.names = {v: k for k, v in self.ids.items()}
        return int(re.match(r"<<(\d+)", self.names[root]).group(1))

    def node(self, s):
        return self.ids.setdefault(s, len(self.ids))

    def cover(self, rng, maxlen=50, want=None, roots=None):
        """Walks from the roots that together take every edge (that `want`s)."""
        todo = {n: [] for n in range(len(self.ids))}
        left = 0
        for i, (x, op, y) in enumerate(self.edges):
            if want is None or want(op):
                todo[x].append(i)
                left += 1
        for n in todo:
            rng.shuffle(todo[n])
        roots = roots or self.roots
        walks = []
        # shortest route back towards unfinished work is recomputed lazily
        def route(n, depth):
            if todo[n]:
                return []
            prev, q, seen = {}, collections.deque([(n, 0)]), {n}
            while q:
                x, d = q.popleft()
                if d >= depth:
                    continue
                for i in self.succ[x]:
                    y = self.edges[i][2]
                    if y in seen:
                        continue
                    seen.add(y)
                    prev[y] = i
                    if todo[y]:
                        path = []
                        while y != n:
                            path.append(prev[y])
                            y = self.edges[prev[y]][0]
                        return path[::-1]
                    q.append((y, d + 1))
            return None
        dead = set()
        while left > 0:
            progress = False
            for r in roots:
                if r in dead:
                    continue
                n, walk, took = r, [], 0
                while len(walk) < maxlen:
                    p = route(n, 40 if not walk else 8)
                    if p is None:
                        break
                    if walk and len(walk) + len(p) > maxlen:
                        break
                    for i in p:
                        walk.append(i)
                        n = self.edges[i][2]
                    i = todo[n].pop()
                    left -= 1
                    took += 1
                    walk.append(i)
                    n = self.edges[i][2]
                if took:
                    progress = True
                    walks.append((r, [self.edges[i][1] for i in walk]))
                else:
                    dead.add(r)
            if not progress:
                break
        self.uncovered = left
        return walks


# ---------------------------------------------------------------- drivers
def op_line(o):
    xs = o.get("xs") or []
    w = 1 if (o.get("w") or o.get("vs")) else 0
    return "%s %d %d %d %d %s %s" % (o["op"], o.get("h", 0), o.get("k", 0), o.get("j", 0), w,
                                     o.get("kind") or "-", ",".join(map(str, xs)) if xs else "-")


def cargo_build(check, bins, profiles=("dev", "release"), crate=HARNESS):
    """Build the drivers from /repo's current tree; returns {(bin, profile): path}."""
    res, procs = {}, []
    for prof in profiles:
        tgt = os.path.join(crate, "target", "p-" + prof)
        cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", tgt] + (["--release"] if prof == "release" else [])
        for b in bins:
            cmd += ["--bin", b]
        procs.append((prof, tgt, subprocess.Popen(cmd, cwd=crate, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for prof, tgt, p in procs:
        try:
            out, _ = p.communicate(timeout=700)
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("building the drivers took too long")
        if p.returncode:
            raise ToolError("the drivers do not build (%s):\n%s" % (prof, out[-6000:]))
        for b in bins:
            res[b, prof] = os.path.join(tgt, "release" if prof == "release" else "debug", b)
    return res


class Sess(dict):
    """subject, key, val, ops"""


def drive(check, exe, tag, sessions, secs=60, mem_gb=6, env=None):
    """Run sessions through a driver.  Returns {index: recorded session}; a
    session that kills or hangs the driver is reported as a violation."""
    if check.narrow: mem_gb = 0       # (node reserves addresses)
    got, start = {}, 0
    order = list(range(len(sessions)))
    rounds = 0
    while order and rounds < 4:
        rounds += 1
        sp = os.path.join(check.work, "%s.%d.script" % (tag, rounds))
        op = os.path.join(check.work, "%s.%d.ndjson" % (tag, rounds))
        with open(sp, "w") as f:
            for i in order:
                s = sessions[i]
                f.write("session %d %s %s %s\n" % (i, s["subject"], s["key"], s["val"]))
                f.write("\n".join(op_line(o) for o in s["ops"]))
                f.write("\nend\n")
        rc, out, err = run([exe, sp, op, str(secs)], timeout=1500, mem_gb=mem_gb, env=env)
        done = []
        if os.path.exists(op):
            for line in open(op):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                got[r["id"]] = r
                done.append(r["id"])
        os.remove(sp)
        if os.path.exists(op):
            os.remove(op)
        if rc == 0 and len(done) == len(order):
            return got
        if "no driver for" in err or (not done and rc == 101 and "script" in err):
            raise ToolError("driver %s: %s" % (exe, err[-500:]))
        rest = [i for i in order if i not in set(done)]
        if not rest:
            raise ToolError("driver %s: rc %s %s" % (exe, rc, err[-500:]))
        bad = rest[0]
        check.violation("the implementation %s in this session (exit %s): %s" %
                        ("hangs" if rc in (97, -99) else "dies", rc, err[-300:]),
                        {"driver": os.path.basename(exe), "tag": tag, "session": sessions[bad],
                         "script": [op_line(o) for o in sessions[bad]["ops"]]})
        order = rest[1:]
    return got


# ---------------------------------------------------------------- trace validation
def validate(check, module, recorded, consts, judge="ret", workers=NCPU, label="", chunk=400000, timeout=800):
    """recorded: list of (origin, session dict).  Identical recordings are
    checked once.  Every distinct one must be a behaviour of the spec."""
    uniq = {}
    for origin, r in recorded:
        k = json.dumps({x: y for x, y in r.items() if x not in ("id", "subject", "key", "val")}, sort_keys=True)
        uniq.setdefault(k, []).append((origin, r))
    items = list(uniq.values())
    # chunks of bounded size
    chunks, cur, size = [], [], 0
    for it in items:
        cur.append(it)
        size += len(it[0][1]["ev"]) + 1
        if size >= chunk:
            chunks.append(cur); cur, size = [], 0
    if cur:
        chunks.append(cur)
    total_ev = 0
    for ci, ch in enumerate(chunks):
        path = os.path.join(check.work, "trace-%s-%s-%d.ndjson" % (module, label, ci))
        expect = 0
        with open(path, "w") as f:
            for it in ch:
                r = it[0][1]
                f.write(json.dumps(r) + "\n")
                expect += len(r["ev"]) + 1
        cs = dict(consts)
        cs["Judge"] = '"%s"' % judge
        cfg = cfg_text("TSpec", consts=cs, invariants=["Conforms"])
        r = tlc(check, module, cfg, workers=workers, timeout=timeout, env={"TRACE": path}, heap="12g", name="%s-%s-%d" % (module, label, ci))
        if r["ok"] and r["distinct"] == expect:
            total_ev += expect - len(ch)
            os.remove(path)
            continue
        if not r["ok"] and "Conforms" not in r["violated"]:
            raise ToolError("trace validation failed to run: " + r["out"][-3000:] + r["err"][-500:])
        if r["ok"] and judge == "drops" and r["distinct"] < expect:
            # sessions whose replies diverged are judged by other properties
            check.add("sessions_diverged_in_replies", 1)
            total_ev += r["distinct"] - len(ch)
            continue
        if r["ok"]:
            cfg = cfg_text("TSpec", consts=cs, invariants=["NotStuck"])
            r = tlc(check, module, cfg, workers=1, timeout=timeout, env={"TRACE": path}, heap="12g", name="%s-%s-%d-stuck" % (module, label, ci))
        s, l, state = last_state(r["out"])
        if s is None:
            raise ToolError("no verdict from trace validation (%d of %d states): %s" % (r["distinct"], expect, r["out"][-2000:]))
        it = ch[s - 1]
        rec = it[0][1]
        at = l - 2 if "Conforms" in r["violated"] else l - 1
        evn = rec["ev"][at]
        what = "call %d of a session on %s<%s, %s> does not conform: %s\n  recorded: %s\n  specification: %s" % (
            at + 1, rec.get("subject"), rec.get("key"), rec.get("val"), brief(evn),
            json.dumps({k: evn[k] for k in ("ret", "drops", "dbg") if k in evn}), state.get("out") or state.get("ver") or "this call cannot happen here")
        check.violation(what, {"module": module, "judge": judge, "call": at + 1, "session": rec, "origins": [o for o, _ in it],
                               "specification_state": state})
    check.add("traces_validated_against_impl", len(recorded))
    check.add("distinct_traces", len(items))
    check.add("events_validated", total_ev)
    return not check.violations


def brief(e):
    d = {k: v for k, v in e.items() if k not in ("ret", "drops", "dbg") and v not in (0, "", [])}
    return json.dumps(d)


def last_state(out):
    """The final state of TLC's error trace (or the violating initial state)."""
    parts = re.split(r"\nState \d+: |is violated by the initial state:\n", out)
    if len(parts) < 2:
        return None, None, {}
    st = {}
    body = parts[-1].split("\n\n")[0]
    cur = None
    for line in body.splitlines():
        m = re.match(r"/\\ (\w+) = (.*)", line)
        if m:
            cur = m.group(1)
            st[cur] = m.group(2)
        elif cur:
            st[cur] += " " + line.strip()
    try:
        return int(st["s"]), int(st["l"]), st
    except (KeyError, ValueError):
        return None, None, st


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
    except ToolError as x:
        print("ERROR %s: %s" % (pid, x), flush=True)
        if c.violations:
            return c.finish()
        return 2
    return c.finish()
