"""P12, P13: several real commands at once, decided with spec/PkgConc.tla.

TLC explores every interleaving of two (thorough: three) commands, lock and changes separate
(PkgConcMC), and confirms that without the lock the property fails.  The real commands are then
interleaved at every system call of one of them (and with a second switch inside the other), and
let run freely at the same time; TLC judges the recorded outcomes (PkgConcTrace)."""
import os, json, random, time, signal
from core import *
import pkgdb, fam_pkg, fam_crash, fam_query, world

SHIM = {"CELL_PRELOAD": "/usr/lib/shim.so", "SHIM_CAT": "MRL"}
Q = {"cmd": "query"}
QS = [["-i"], ["-n"], ["-o", "."], ["-d", "p"], ["-b", "p"]]     # these never fail

class Proc:
    """One command under way in a session, stopping before the given calls."""
    def __init__(self, s, op, tag, pauses=(), env=()):
        self.s, self.op, self.tag = s, op, tag
        av, self.fn, kw = s.cmdline(op)
        self.sync = "/pk/sync." + tag
        e = dict(SHIM, SHIM_LOG="/pk/log." + tag, SHIM_SYNC=self.sync, SHIM_PAUSE=",".join(map(str, pauses)))
        e.update(env)
        self.p = s.cell.popen(av, env=e, **kw)
        self.end = time.time() + 30
    def reach(self, k):
        """Wait until it stands before call k; False if it ended first."""
        f = self.s.cell.path("%s.at.%d" % (self.sync, k))
        while True:
            if os.path.exists(f): return True
            if self.p.poll() is not None: return os.path.exists(f)
            if time.time() > self.end: self.hang(); return False
            time.sleep(.0004)
    def hang(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        raise ToolError("a stopped command did not go on")
    def go(self, k): open(self.s.cell.path("%s.go.%d" % (self.sync, k)), "w").close()
    def finish(self):
        try: o, e = self.p.communicate(timeout=max(1, self.end - time.time()))
        except subprocess.TimeoutExpired: self.hang()
        if self.p.returncode == 125: raise ToolError("cell: " + e.decode(errors="replace"))
        self.out, self.err = o.decode(errors="replace"), e.decode(errors="replace")
        return self.p.returncode
    def log(self):
        f = self.s.cell.path("/pk/log." + self.tag)
        return [l.rstrip("\n").split(" ", 3) for l in open(f, errors="surrogateescape")] if os.path.exists(f) else []
    def run(self, rc):
        return {"op": self.op, "rc": rc, "lines": lines_of(self.op, rc, self.out), "may": rc != 0}

def lines_of(op, rc, out):
    return fam_query.parse({"k": "installed"}, out) if rc == 0 and op["cmd"] == "query" and not op.get("args") else []

def inside(log, k):
    """Does the command hold the lock when it stands before its call k?"""
    held = False
    for l in log:
        if int(l[0]) >= k: break
        if l[1] == "L": held = l[3] in ("EX", "SH")
    return held

def sess(job):
    s = pkgdb.Session("/", job["s"]["rules"]); s.load(job["s"]); return s
def snap(s): return dict(s.state(), log=[])
def full(s):
    st = s.state()
    return {"db": st["db"], "fs": st["fs"], "log": st["log"]}

def calls_of(job):
    s = sess(job)
    try:
        p = Proc(s, job["A"], "a"); rc = p.finish()
        return rc, p.log()
    finally: s.close()

def execute(job):
    """What TLC is to judge about this job."""
    s = sess(job); out = []
    try:
        kind = job["kind"]; s0 = snap(s)
        if kind == "switch":
            A, B, k = job["A"], job["B"], job["k"]
            a = Proc(s, A, "a", [k])
            at = a.reach(k)
            pre = full(s)
            b = Proc(s, B, "b"); rb = b.finish()
            post = full(s)
            isin = at and inside(a.log(), k)
            if at: a.go(k)
            ra = a.finish()
            final = snap(s)
            if isin: out.append({"kind": "inside", "op": B, "other": A, "rc": rb, "told": "locked" in b.err, "pre": pre, "post": post})
            elif not B.get("args"):
                out.append({"kind": "free", "op": B, "rc": rb, "s": dict(s0, db=pre["db"], fs=pre["fs"]), "post": post})
            runs = [a.run(ra)] + ([] if B.get("args") else [b.run(rb)])
            # one that found the lock taken counts as not run; one that found it free does not
            if not isin and len(runs) > 1: runs[1]["may"] = False
            if isin or rb != 0 or B["cmd"] == "query": runs[0]["may"] = False
            out.append({"kind": "runs", "s": s0, "runs": runs, "final": final})
        elif kind == "two":
            A, B, k, m = job["A"], job["B"], job["k"], job["m"]
            a = Proc(s, A, "a", [k]); ka = a.reach(k)
            b = Proc(s, B, "b", [m]); kb = b.reach(m)
            if ka: a.go(k)
            ra = a.finish()
            if kb: b.go(m)
            rb = b.finish()
            out.append({"kind": "runs", "s": s0, "runs": [a.run(ra), b.run(rb)], "final": snap(s)})
        elif kind == "free":
            ps = [Proc(s, op, "x%d" % i, env={"CELL_PRELOAD": ""}) for i, op in enumerate(job["ops"])]
            rs = [p.finish() for p in ps]
            out.append({"kind": "runs", "s": s0, "runs": [p.run(r) for p, r in zip(ps, rs)], "final": snap(s)})
        elif kind == "sig":
            a = Proc(s, job["A"], "a", env={"SHIM_SIG": "%d:%d" % (job["k"], job["sig"])})
            ra = a.finish()
            L = a.log()
            ex = [int(l[0]) for l in L if l[1] == "L" and l[3] in ("EX", "SH")]; un = [int(l[0]) for l in L if l[1] == "L" and l[3] == "UN"]
            if ex and job["k"] > ex[0]:
                if un and job["k"] >= un[0]: ra = 0     # it had finished
                out.append({"kind": "runs", "s": s0, "runs": [dict(a.run(ra), may=False)], "final": snap(s)})
            elif ra != 0: out.append({"kind": "same", "s": s0, "post": snap(s)})
        elif kind == "kill":
            a = Proc(s, job["A"], "a", env={"SHIM_KILL": str(job["k"])}); a.finish()
            left = snap(s)
            b = Proc(s, Q, "b"); rb = b.finish()
            left["db"] = fam_crash.clean(left)["db"]
            out.append({"kind": "free", "op": Q, "rc": rb, "s": left, "post": dict(snap(s), db=fam_crash.clean(snap(s))["db"])})
        elif kind == "calls":
            a = Proc(s, job["A"], "a"); a.finish()
            out.append({"kind": "calls", "reader": job["A"]["cmd"] == "query", "calls": [c for c in map(classify, a.log()) if c]})
        return out
    finally: s.close()

def classify(l):
    n, cat, what, path = (l + [""])[:4]
    if cat == "L": return path
    if cat == "M":
        if what in ("write", "writev", "fwrite", "fclose") and path.startswith("fd"): return None
        return None if path.startswith(("/dev/", "/pk/")) else "M"
    if cat == "R" and what in ("open", "open64", "openat", "fopen", "fopen64") and pkgdb.DB in path: return "R"
    return None

def validate(cases):
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    with open(f, "w") as h: json.dump(cases, h)
    rc, out = tlc("PkgConcTrace", "PkgConcTrace.cfg", workers=8, env={"CASES": f}, mem="8g", timeout=1800, want=range(0, 256))
    shutil.rmtree(d)
    if rc == 0: return lines(out, "C")
    if len(cases) == 1: return [{"k": 1, "bad": ["Unreadable"]}]
    h = len(cases) // 2
    return validate(cases[:h]) + [dict(x, k=x["k"] + h) for x in validate(cases[h:])]

P12K = {"NotExcluded", "ReaderExcluded", "ChangedWhileLocked", "FreeButRefused", "Interrupted", "ChangeOutsideLock", "ReadOutsideLock", "Crashed"}
def mine(c, job, x, bad):
    if "Unreadable" in bad: return bad
    if c.id == "P12": return [b for b in bad if b in P12K or b == "NotSerial" and job["kind"] == "sig"]
    return [b for b in bad if b in ("NotSerial", "Crashed", "FreeButDifferent") and job["kind"] in ("switch", "two", "free")]

def br(op): return "pkginfo %s" % " ".join(op.get("args", ["-i"])) if op["cmd"] == "query" else fam_pkg.brief(op)
def say(job):
    k = job["kind"]
    if k == "switch": return "%s stopped before call %d, meanwhile %s" % (br(job["A"]), job["k"], br(job["B"]))
    if k == "two": return "%s stopped before call %d, %s before call %d" % (br(job["A"]), job["k"], br(job["B"]), job["m"])
    if k == "free": return " & ".join(br(o) for o in job["ops"])
    if k == "sig": return "%s, signal %d before call %d" % (br(job["A"]), job["sig"], job["k"])
    if k == "kill": return "%s killed before call %d, then pkginfo" % (br(job["A"]), job["k"])
    return br(job["A"])
def keyof(job, bad):
    ops = job.get("ops") or [job[x] for x in ("A", "B") if x in job]
    return "%s/%s/%s" % (job["kind"], "+".join(o["cmd"] + ("-u" if o.get("u") else "") for o in ops), "+".join(sorted(bad)))

def detail(x):
    if x["kind"] == "calls": return " ".join(x["calls"])
    if x["kind"] == "runs": return "; ".join("%s -> %d" % (br(r["op"]), r["rc"]) for r in x["runs"]) + "; final " + json.dumps({n: r["files"] for n, r in x["final"]["db"].items()})[:300]
    return "exit %s" % x.get("rc")

def judge(c, jobs, label):
    world.template()
    t0 = time.time()
    res = pool_map(execute, jobs)
    flat = [(i, x) for i, r in enumerate(res) for x in r]
    t1 = time.time()
    # TLC judges each distinct observation once
    uniq, feed, idx = {}, [], []
    for i, x in flat:
        h = json.dumps(x, sort_keys=True)
        if h not in uniq: uniq[h] = len(feed); feed.append(x); idx.append(i)
    V = []
    for b in range(0, len(feed), 3000):
        V += [dict(v, k=v["k"] + b) for v in validate(feed[b:b + 3000])]
    if len(V) != len(feed): raise ToolError("TLC judged %d of %d" % (len(V), len(feed)))
    c.count("traces_validated_against_impl", len(jobs)); c.count("observations", len(flat)); c.count("distinct_observations", len(feed))
    for j in jobs: c.hist("schedules", j["kind"])
    for i, x in flat:
        c.hist("observed", x["kind"])
    c.log("%s: %d schedules in %.1fs, %d observations judged in %.1fs" % (label, len(jobs), t1 - t0, len(feed), time.time() - t1))
    done = set()
    for v in sorted(V, key=lambda v: v["k"]):
        job, x = jobs[idx[v["k"] - 1]], feed[v["k"] - 1]
        bad = mine(c, job, x, v["bad"])
        if v["bad"] and not bad: c.hist("other_mismatches", "+".join(v["bad"]))
        if not bad: continue
        key = keyof(job, bad)
        if key in done: continue
        if again(c, job, 40 if job["kind"] == "free" else 3, x, bad): done.add(key)
        else: c.count("unreproduced")
    if jobs: c.sample({"kind": label, "schedules": [say(j) for j in jobs[::max(1, len(jobs) // 4)]][:4]})

def again(c, job, tries, x=None, bad0=None):
    for _ in range(tries):
        xs = execute(job)
        for y, v in zip(xs, validate_each(xs)):
            bad = mine(c, job, y, v)
            if bad:
                c.violation(keyof(job, bad), "%s: %s (%s)" % (say(job), ",".join(bad), detail(y)), {"job": job})
                return True
    if job["kind"] == "free" and x:   # seen once in a free race: the recording itself is the evidence
        c.violation(keyof(job, bad0), "%s: %s (%s), in a free race" % (say(job), ",".join(bad0), detail(x)), {"job": job, "seen": x})
        return True
    return False
def validate_each(xs):
    V = validate(xs) if xs else []
    return [v["bad"] for v in sorted(V, key=lambda v: v["k"])]

def pairs(c, scopes, num):
    """(s, A, B): an accepted command and what may come in between, from states TLC reached."""
    rnd = c.rnd("pairs"); out = []
    for sc in scopes:
        by = {}
        for t in fam_pkg.edges(c, sc):
            op = t["ops"][0]
            if op["cmd"] == "user": continue
            by.setdefault(json.dumps(t["load"], sort_keys=True), []).append(op)
        groups = {}
        for st, ops in by.items():
            s = json.loads(st)
            for op in ops:
                db = s["db"] or {}
                inst = (op["arc"]["name"] if op["cmd"] == "pkgadd" else op["name"]) in db
                if op["cmd"] == "pkgadd" and op["u"] != inst or op["cmd"] == "pkgrm" and not inst: continue
                groups.setdefault((op["cmd"], op.get("u"), op.get("f"), len(db)), []).append((s, op, ops))
        keys = sorted(groups, key=str)
        for i in range(num):
            s, A, ops = rnd.choice(groups[keys[i % len(keys)]])
            B = rnd.choice(ops + [Q] * (len(ops) // 5))
            out.append((s, A, B))
    rnd.shuffle(out)
    return out

def mk_jobs(c, scopes, npairs, every, ntwo, nfree):
    rnd = c.rnd("jobs")
    jobs = []
    P = pairs(c, scopes, npairs)
    for s, A, B in P:
        for x in ([A] if c.id == "P12" else []): jobs.append({"kind": "calls", "s": s, "A": x})
    if c.id == "P12":
        for a in QS + [["-l", "p"]]: jobs.append({"kind": "calls", "s": P[0][0], "A": dict(Q, args=a)})
    logs = pool_map(calls_of, [{"s": s, "A": A} for s, A, B in P])
    blogs = pool_map(calls_of, [{"s": s, "A": B} for s, A, B in P])
    for (s, A, B), (rc, L), (rb, LB) in zip(P, logs, blogs):
        n = len(L)
        if rc != 0 or not n: c.count("refused_alone"); continue
        lock = [int(l[0]) for l in L if l[1] == "L"]
        def pts(frac):
            near = {x + d for x in lock for d in (0, 1)} | {1, n}
            return sorted(k for k in range(1, n + 1) if k in near or L[k - 1][1] == "M" and rnd.random() < min(1, frac * 2) or rnd.random() < frac)
        for k in pts(every): jobs.append({"kind": "switch", "s": s, "A": A, "B": B, "k": k})
        if c.id == "P12":
            if B["cmd"] != "query":
                for k in pts(every / 4): jobs.append({"kind": "switch", "s": s, "A": B if rb == 0 else A, "B": dict(Q, args=rnd.choice(QS)) if rnd.random() < .5 else Q, "k": k})
            for k in pts(every / 2): jobs.append({"kind": "sig", "s": s, "A": A, "k": k, "sig": rnd.choice([1, 2, 3, 15])})
            body = [k for k in range(lock[0] + 1, lock[-1] + 1) if L[k - 1][1] == "M"] if len(lock) > 1 else []
            for g in (1, 2, 3, 15):
                for k in rnd.sample(body, min(2, len(body))): jobs.append({"kind": "sig", "s": s, "A": A, "k": k, "sig": g})
            for k in pts(every / 4): jobs.append({"kind": "kill", "s": s, "A": A, "k": k})
            rl = calls_of({"s": s, "A": Q})[1]
            for k in range(1, len(rl) + 1):
                if rnd.random() < every / 2: jobs.append({"kind": "switch", "s": s, "A": Q, "B": rnd.choice([A, Q, dict(Q, args=rnd.choice(QS))]), "k": k})
        else:
            for _ in range(ntwo):
                jobs.append({"kind": "two", "s": s, "A": A, "B": B, "k": rnd.choice(pts(.3)), "m": rnd.randrange(1, max(2, len(LB) + 1))})
            for _ in range(nfree):
                ops = [A, B] + rnd.sample([A, B, Q, Q] + [x for _, x, _ in rnd.sample(P, min(3, len(P)))], 2)
                jobs.append({"kind": "free", "s": s, "ops": ops[:rnd.choice([2, 3, 4])]})
    return jobs

def run(c):
    world.template()
    c.assumptions = ["interleavings at system-call granularity with at most two switches, plus free races", "commands of the database tools (pkgadd, pkgrm, pkginfo)"]
    c.mc("PkgConcMC", "PkgConcMC.cfg", workers=8, timeout=3600, mem="12g")
    rc, out = tlc("PkgConcMC", "PkgConcMC_nolock.cfg", workers=8, timeout=3600, mem="12g", want=(12,))
    c.log("TLC: without the lock the property fails, as it must")
    if c.quick:
        judge(c, mk_jobs(c, ["own"], 20 if c.id == "P12" else 28, .5, 14, 8), "schedules")
    else:
        for nm, rep in (("deep", (("MaxOps = 1", "MaxOps = 2"),)), ("three", (("Procs = 2", "Procs = 3"), ("MaxOps = 1", "MaxOps = 0")))):
            t = os.path.join(scratch(), "PkgConcMC_%s.cfg" % nm); x = open(os.path.join(SPEC, "PkgConcMC.cfg")).read()
            for a, b in rep: x = x.replace(a, b)
            open(t, "w").write(x); c.mc("PkgConcMC", t, workers=8, timeout=7200, mem="16g")
        seed = c.seed
        for k in range(50):
            if c.viol or c.left() < 4.5 * 3600: break
            c.seed = seed * 1000 + k
            judge(c, mk_jobs(c, ["own", "confq"], 24, 1.0, 40, 20), "round %d" % k)
        c.seed = seed

def replay(c, data):
    c.count("traces_validated_against_impl")
    if "seen" in data and not again(c, data["job"], 60):
        v = validate([data["seen"]])[0]
        if v["bad"]: c.violation(keyof(data["job"], v["bad"]), say(data["job"]), data)
    elif "seen" not in data: again(c, data["job"], 5)
