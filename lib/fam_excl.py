"""C14: several cards commands at once, decided with spec/RepoConc.tla.

TLC explores every interleaving of the steps of two commands (RepoConcMC), and confirms that
without the lock the laws fail.  The real cards is then stopped before sampled calls while another
command runs, gets signals while it holds the lock, and races freely with others; TLC judges what
was found (RepoConcTrace)."""
import os, json, random, time, copy, signal
from core import *
import world, repoworld as rw, fam_repo as fr, fam_int

SHIM = {"CELL_PRELOAD": "/usr/lib/shim.so", "SHIM_CAT": "ML"}
fr.MIX["C14"] = {"install": 5, "upgrade": 4, "remove": 4}

class Proc:
    """One command under way in a cell, stopping before the given call."""
    def __init__(self, cell, av, tag, pause=None, env=()):
        self.cell, self.sync = cell, "/sync." + tag
        e = dict(SHIM, SHIM_LOG="/shimlog." + tag, SHIM_SYNC=self.sync, SHIM_PAUSE=str(pause or ""))
        e.update(env); self.tag = tag
        self.p = cell.popen(av, env=e); self.end = time.time() + 30
    def reach(self, k):
        f = self.cell.path("%s.at.%d" % (self.sync, k))
        while not os.path.exists(f):
            if self.p.poll() is not None: return os.path.exists(f)
            if time.time() > self.end: return False
            time.sleep(.0004)
        return True
    def hang(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = self.p.communicate(); self.err = "hangs " + (o + e).decode(errors="replace")[-200:]
        return 997
    def go(self, k): open(self.cell.path("%s.go.%d" % (self.sync, k)), "w").close()
    def finish(self):
        try: o, e = self.p.communicate(timeout=max(1, self.end - time.time()))
        except subprocess.TimeoutExpired: return self.hang()
        if self.p.returncode == 125: raise ToolError("cell: " + e.decode(errors="replace"))
        self.err = (o + e).decode(errors="replace")[-300:]
        return self.p.returncode
    def log(self):
        f = self.cell.path("/shimlog." + self.tag)
        return [l.rstrip("\n").split(" ", 3) for l in open(f, errors="surrogateescape")] if os.path.exists(f) else []

def held(log, k):
    """Does it hold the lock when it stands before its call k?"""
    h = False
    for n, l in enumerate(log, 1):
        if n >= k: break
        if l[1] == "L": h = l[3] == "EX"
    return h

OWN = ("/depot/", "/dev/", "/slog", "/sync.", "/shimlog.")
def classify(l):
    cat, what, path = (l[1:] + ["", ""])[:3]
    if cat == "L": return path
    if cat != "M" or (what in ("write", "writev", "fwrite", "fclose", "fflush") and path.startswith("fd")): return None
    return None if path.startswith(OWN) or path in ("", "/", "/depot") else "M"

def snap(cell): return {"db": rw.read_db(cell), "inst": rw.read_inst(cell), "sh": rw.read_inst(cell, "q")}

def alone(job):
    cell, w, db = fam_int.fresh(job)
    try:
        a = Proc(cell, fr.argv(job["A"]), "a"); rc = a.finish()
        return {"rc": rc, "log": a.log(), "want": snap(cell), "pre": db, "w": w}
    finally: cell.destroy()

def wcase(w):
    cw = {"groups": w["groups"], "rem": w["rem"], "rlab": w["rlab"], "loc": w["loc"]}
    for k in ("idx", "ridx"): cw[k] = {c: {n: {k: v for k, v in r.items() if k in fr.FIELDS} for n, r in ix.items()} for c, ix in w[k].items()}
    cw["colls"] = [{k: c[k] for k in ("name", "url", "key")} for c in w["colls"]]
    return cw
def opcase(op): return dict(op, force="-f" in op["flags"]) if op["k"] == "install" else op

def overlap(x):
    """x: (job, info, what) -> the case for TLC"""
    job, info, what = x
    kind = what["kind"]
    if kind == "calls": return {"kind": kind, "calls": [y for y in map(classify, info["log"]) if y]}
    cell, w, db = fam_int.fresh(job)
    try:
        if kind == "free":
            ps = [Proc(cell, fr.argv(o), "x%d" % n, env={"CELL_PRELOAD": ""}) for n, o in enumerate(what["ops"])]
            rcs = [p.finish() for p in ps]
            return {"kind": kind, "w": wcase(w), "pre": db, "ops": [opcase(o) for o in what["ops"]], "rcs": rcs, "f": snap(cell), "msg": "|".join(p.err for p in ps)}
        if kind == "sig":
            a = Proc(cell, fr.argv(job["A"]), "a", env={"SHIM_SIG": "%d:%d" % (what["k"], what["sig"])})
            rc = a.finish()
            return {"kind": kind, "want": info["want"], "rcA": rc, "f": snap(cell), "msg": a.err}
        k = what["k"]; B = what["B"]
        a = Proc(cell, fr.argv(job["A"]), "a", k)
        if not a.reach(k): a.finish(); return None
        inside = held(a.log(), k)
        if inside:
            cell.timeout = 6; m1 = snap(cell); rb, o, e = cell.run(fr.argv(B)); m2 = snap(cell)
            a.go(k); ra = a.finish()
            return {"kind": "in", "w": wcase(w), "pre": db, "A": opcase(job["A"]), "B": opcase(B), "want": info["want"], "rcB": rb, "m1": m1, "m2": m2, "rcA": ra, "f": snap(cell), "msg": a.err + "|" + o[-100:] + e[-200:]}
        m1 = snap(cell)
        loc, labs, odd = rw.read_depot(cell, w)
        w2 = copy.deepcopy(w); w2["loc"] = loc
        # what B would find of the indices
        for c in w2["colls"]:
            n = c["name"]
            if c["url"] and labs[n]["repo"] == w["rlab"][n]["repo"]: w2["idx"][n] = w2["ridx"][n]
        # a part of a download is no file
        for n in w2["loc"]: w2["loc"][n] = {f: i for f, i in w2["loc"][n].items() if not f.endswith(".part")}
        r, err = fr.one(cell, w2, B, m1["db"])
        r["w"]["loc"] = w2["loc"]
        r["loc"] = {n: {f: i for f, i in y.items() if not f.endswith(".part")} for n, y in r["loc"].items()}
        r["other"] = True; r["lab"] = r["plab"] if B["k"] != "upgrade" else r["lab"]
        a.go(k); ra = a.finish()
        return {"kind": "out", "w": wcase(w), "pre": db, "A": opcase(job["A"]), "rep": r, "m1": m1, "rcA": ra, "f": snap(cell), "msg": a.err + "|" + err[-200:]}
    finally: cell.destroy()

def validate(cases):
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    with open(f, "w") as h: json.dump([{k: v for k, v in c.items() if k != "msg"} for c in cases], h)
    rc, out = tlc("RepoConcTrace", "RepoConcTrace.cfg", env={"CASES": f}, mem="4g", timeout=1800, want=range(0, 256))
    shutil.rmtree(d)
    if "semantic analysis failed" in out or "Parsing or semantic" in out: raise ToolError(out[-1500:])
    v = lines(out, "C")
    if rc == 0 and len(v) == len(cases): return v
    if len(cases) == 1: return [{"k": 1, "bad": ["Unreadable"], "why": out[-1500:]}]
    h = len(cases) // 2
    return validate(cases[:h]) + [dict(x, k=x["k"] + h) for x in validate(cases[h:])]

def mk(seed, pid="C14"):
    g = fam_int.Gen(seed, pid)
    w = g.world(); g.pid = "C05" if g.rnd.random() < .6 else pid
    db = g.db(w); g.pid = pid
    A = g.op(w, db)
    return {"w": w, "db": db, "A": A, "Bs": [g.op(w, db) for _ in range(6)]}

def plans(rnd, job, info, per, nfree):
    L = info["log"]; n = len(L); out = [{"kind": "calls"}]
    ex = [k for k in range(1, n + 1) if held(L, k)]; no = [k for k in range(1, n + 1) if not held(L, k)]
    # the calls beside the lock are the interesting ones; outside, the first of each stretch says it all
    edge = [k for k in no if k == 1 or L[k - 2][1] == "L" or held(L, k - 1) or L[k - 1][1] == "L"]
    Bi = [b for b in job["Bs"]]
    Bo = [b for b in Bi if b["k"] != "upgrade"]
    # it would exchange the indices and archives the other one is working with
    if job["A"]["k"] == "install": Bi = Bo
    for k in sorted(rnd.sample(ex, min(len(ex), per)) if Bi else []): out.append({"kind": "at", "k": k, "B": rnd.choice(Bi)})
    if Bo:
        for k in sorted(set(rnd.sample(edge, min(len(edge), per)) + rnd.sample(no, min(len(no), 2)))): out.append({"kind": "at", "k": k, "B": rnd.choice(Bo)})
    body = [k for k in ex if L[k - 1][1] == "M"]
    for k in rnd.sample(body, min(len(body), max(2, per // 2))): out.append({"kind": "sig", "k": k, "sig": rnd.choice([1, 2, 3, 15])})
    for _ in range(nfree):
        o = [job["A"]] + rnd.sample(Bi, min(len(Bi), rnd.choice([1, 1, 2])))
        if not any(x["k"] == "upgrade" for x in o): out.append({"kind": "free", "ops": o})
    return out

def say(job, what, x):
    A = " ".join(fr.argv(job["A"]))
    if x["kind"] == "calls": return A
    if x["kind"] == "free": return " & ".join(" ".join(fr.argv(o)) for o in what["ops"]) + " -> %s" % x["rcs"]
    if x["kind"] == "sig": return "%s, signal %d before call %d -> %d" % (A, what["sig"], what["k"], x["rcA"])
    rb = x["rcB"] if x["kind"] == "in" else x["rep"]["rc"]
    return "%s stopped before call %d (%s the lock), meanwhile %s -> %d, then -> %d" % (A, what["k"], "holding" if x["kind"] == "in" else "without", " ".join(fr.argv(what["B"])), rb, x["rcA"])

def explore(c, salt, n, per, nfree):
    world.template(); rw.keys(); rnd = c.rnd(salt); t0 = time.time()
    jobs = [mk(rnd.randrange(1 << 40)) for _ in range(n)]
    infos = pool_map(alone, jobs); xs = []
    for j, info in zip(jobs, infos):
        if info["rc"] != 0 or not any(classify(l) == "M" for l in info["log"]): c.count("nothing_alone"); continue
        c.hist("commands", j["A"]["k"])
        xs += [(j, info, p) for p in plans(rnd, j, info, per, nfree)]
    t1 = time.time()
    # where commands wait for each other for ever a few of them will do
    first = sorted(range(len(xs)), key=lambda i: (xs[i][2]["kind"] != "at", i))[:64]; out = dict(zip(first, pool_map(overlap, [xs[i] for i in first])))
    if not any(r and 997 in (r.get("rcA"), r.get("rcB")) for r in out.values()):
        rest = [i for i in range(len(xs)) if i not in out]; out.update(zip(rest, pool_map(overlap, [xs[i] for i in rest])))
    res = [(xs[i], out[i]) for i in sorted(out) if out[i] is not None]
    t2 = time.time()
    m = max(20, len(res) // 24 + 1)
    V = [dict(v, k=v["k"] + b * m) for b, vs in enumerate(pool_map(validate, [[r for _, r in res[b:b + m]] for b in range(0, len(res), m)])) for v in vs]
    if len(V) != len(res): raise ToolError("TLC judged %d of %d" % (len(V), len(res)))
    c.count("traces_validated_against_impl", len(res))
    for _, r in res: c.hist("overlaps", r["kind"])
    c.log("%s: %d commands, %d overlaps (prepared %.1fs, run %.1fs, judged %.1fs)" % (salt, n, len(res), t1 - t0, t2 - t1, time.time() - t2))
    done = set(); nbad = 0
    for v in V:
        (job, info, what), x = res[v["k"] - 1]; bad = set(v["bad"])
        if "Unreadable" in bad: c.log("TLC could not judge:", v.get("why", "")[-600:])
        if not bad: continue
        nbad += 1
        if os.environ.get("VERIF_ALL"): print("ALL", sorted(bad), say(job, what, x)[:300], fr.brief({"w": job["w"], "pre": job["db"]})[:300], "|", x.get("msg", "").replace("\n", "~")[-300:], flush=True)
        key = "%s/%s/%s" % (x["kind"], job["A"]["k"], "+".join(sorted(bad)))
        if key in done: continue
        done.add(key)
        c.violation(key, "%s: %s; %s" % (say(job, what, x), ",".join(sorted(bad)), fr.brief({"w": job["w"], "pre": job["db"]})), {"job": job, "what": what, **({"seen": x} if x["kind"] == "free" else {})})
    if res: c.sample({"overlaps": [say(x[0], x[2], r) for x, r in res[::max(1, len(res) // 5)]][:5]})
    return nbad

def run(c):
    c.level = "model_checking"
    c.assumptions = ["interleavings at system-call granularity with one switch there and back, plus free races", "no shared files between packages", "an upgrade that comes in between is only tried while the other holds the lock: it would exchange the indices and empty the depot"]
    c.mc("RepoConcMC", "RepoConcMC.cfg", workers=8)
    tlc("RepoConcMC", "RepoConcMC_nolock.cfg", workers=8, timeout=3600, want=range(1, 256))
    c.log("TLC: without the lock the laws fail, as they must")
    if c.quick: explore(c, "q", 240, 10, 4)
    else:
        for k in range(400):
            if c.viol or c.left() < 600: break
            explore(c, "t%d" % k, 400, 30, 10)

def replay(c, data):
    world.template(); rw.keys(); j = data["job"]
    info = alone(j); c.count("traces_validated_against_impl")
    for _ in range(40 if data["what"]["kind"] == "free" else 1):
        x = overlap((j, info, data["what"]))
        v = validate([x])[0]
        print(say(j, data["what"], x), sorted(v["bad"]), x.get("msg", ""), v.get("why", "")[-800:])
        if v["bad"]: c.violation("%s/%s/%s" % (x["kind"], j["A"]["k"], "+".join(sorted(v["bad"]))), say(j, data["what"], x), data); return
    if "seen" in data:
        v = validate([data["seen"]])[0]
        if v["bad"]: c.violation("free/" + "+".join(v["bad"]), say(j, data["what"], data["seen"]), data)
