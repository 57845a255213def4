"""C12, C13: one cards command on repositories, killed at or failed at its system calls, and
then repeated, decided with spec/RepoCrash.tla.

TLC interrupts every command of every small repository anywhere, repeats it, and checks what is
found in between and at the end (RepoCrashMC).  The real cards is then killed before sampled
file-changing calls (and halfway through writes), or one of its calls fails, on generated worlds;
TLC judges what is left and what repeating the command does (RepoCrashTrace)."""
import os, json, random, time, copy
from core import *
import world, repoworld as rw, fam_repo as fr

SHIM = {"CELL_PRELOAD": "/usr/lib/shim.so"}
ERR = {"ENOSPC": 28, "EIO": 5, "EACCES": 13}
MIX = {"C12": {"install": 5, "upgrade": 6, "remove": 3, "sync": 2, "purge": 1}, "C13": {"install": 4, "upgrade": 7, "remove": 3, "sync": 3, "purge": 1}}
fr.MIX.update(MIX)

class Gen(fr.Gen):
    """No shared files, nothing altered: every package has files of its own, which differ between builds."""
    def share(self):
        self.ser += 1
        return ["u%d" % self.ser] if self.rnd.random() < .7 else []
    def sabotage(self, w): pass
    def op(self, w, db):
        o = super().op(w, db)
        if o["k"] == "install": o["flags"] = ["-f"]
        if o["k"] == "upgrade": o["proceed"] = True
        return o

def mk(seed, pid):
    g = Gen(seed, pid); g.pid = "C05" if g.rnd.random() < .4 else pid
    w = g.world()
    db = g.db(w); g.pid = pid
    return {"w": w, "db": db, "op": g.op(w, db)}

def fresh(job):
    w = copy.deepcopy(job["w"]); cell = world.Cell(); cell.timeout = 15
    rw.setup(cell, w, job["db"], w["style"])
    return cell, w, rw.read_db(cell)

def recorded(cell):
    b = cell.path("/" + world.DB)
    return {n: r for n, r in rw.read_db(cell).items() if os.path.exists(os.path.join(b, n, "files"))}

def left(cell, w):
    """What was left, as the tools see it: a record without its list of files is none, a part of a download is no file."""
    db = recorded(cell)
    loc, labs, odd = rw.read_depot(cell, w)
    loc = {c: {f: i for f, i in x.items() if not f.endswith(".part")} for c, x in loc.items()}
    return {"db": db, "inst": rw.read_inst(cell), "sh": rw.read_inst(cell, "q"), "loc": loc, "lab": labs}

def prepare(job):
    """The calls of the undisturbed command, and where it ends."""
    out = {}
    for cat in ("M", "RG"):
        if cat == "RG" and job["pid"] != "C13": continue
        cell, w, db = fresh(job)
        try:
            _, out["plab"], _ = rw.read_depot(cell, w)
            rc, o, e = cell.run(fr.argv(job["op"]), env=dict(SHIM, SHIM_CAT=cat, SHIM_LOG="/shimlog"))
            lp = cell.path("/shimlog")
            out[cat] = [l.rstrip("\n").split(" ", 3) for l in open(lp, errors="surrogateescape")] if os.path.exists(lp) else []
            out["rc"] = rc; out["want"] = left(cell, w); out["pre"] = db; out["w"] = w
        finally: cell.destroy()
    return out

def again(op, db):
    """The command to repeat (compare Again in RepoCrash)."""
    if op["k"] != "remove": return op
    def known(x): return any(x == n or x == r["coll"] or x == r["group"] or x in r["sets"] or x in r["alias"] for n, r in db.items())
    a = [x for x in op["args"] if known(x)]
    return dict(op, args=a) if a else None

def disturbed(job):
    """job: (job, kind, env) -> run"""
    j, kind, env = job
    cell, w, db = fresh(j)
    try:
        oth = rw.others(cell); _, _, odd0 = rw.read_depot(cell, w)
        rc, o, e = cell.run(fr.argv(j["op"]), env=dict(SHIM, **env))
        m = left(cell, w)
        x = {"kind": kind, "rc": rc, "said": bool(e.strip()), "mid": m, "again": False, "msg": (o + e)[-300:], "sig": kind == "fail" and (rc < 0 or rc > 128), "hang": rc == 997}
        a = again(j["op"], m["db"])
        if a and not x["hang"]:
            # the world as the repeated command finds it
            w2 = copy.deepcopy(w); w2["loc"] = m["loc"]; ok = True
            for c in w2["colls"]:
                n = c["name"]
                if c["url"] and m["lab"][n]["repo"] == w["rlab"][n]["repo"]: w2["idx"][n] = w2["ridx"][n]
            r, err = fr.one(cell, w2, a, m["db"])
            r["w"]["loc"] = m["loc"]; r["post"] = recorded(cell); r["other"] = oth == rw.others(cell); r["plab"] = m["lab"]
            x["again"] = True; x["rep"] = r; x["msg2"] = err[-300:]
        return x
    finally: cell.destroy()

def case(job, info, runs):
    w = info["w"]
    cw = {"groups": w["groups"], "rem": w["rem"], "rlab": w["rlab"], "loc": w["loc"]}
    for k in ("idx", "ridx"): cw[k] = {c: {n: {k: v for k, v in r.items() if k in fr.FIELDS} for n, r in ix.items()} for c, ix in w[k].items()}
    cw["colls"] = [{k: c[k] for k in ("name", "url", "key")} for c in w["colls"]]
    op = job["op"]
    return {"w": cw, "pre": info["pre"], "op": dict(op, force="-f" in op["flags"]) if op["k"] == "install" else op, "want": info["want"],
            "runs": [dict({k: x[k] for k in ("kind", "rc", "said", "mid", "again")}, plab=info["plab"], **({"rep": x["rep"]} if x["again"] else {})) for x in runs]}

def validate(cases):
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    for c in cases:
        for x in c["runs"]: c["plab"] = x.pop("plab", c.get("plab"))
    with open(f, "w") as h: json.dump(cases, h)
    rc, out = tlc("RepoCrashTrace", "RepoCrashTrace.cfg", env={"CASES": f}, mem="4g", timeout=1800, want=range(0, 256))
    shutil.rmtree(d)
    if "semantic analysis failed" in out: raise ToolError(out[-1500:])
    v = lines(out, "C")
    if rc == 0 and len(v) == sum(len(c["runs"]) for c in cases): return v
    if len(cases) == 1:
        r = cases[0]["runs"]
        if len(r) == 1: return [{"k": 1, "j": 1, "bad": ["Unreadable"], "why": out[-1500:]}]
        h = len(r) // 2
        return validate([dict(cases[0], runs=r[:h])]) + [dict(x, j=x["j"] + h) for x in validate([dict(cases[0], runs=r[h:])])]
    h = len(cases) // 2
    return validate(cases[:h]) + [dict(x, k=x["k"] + h) for x in validate(cases[h:])]

ATTR = {"chmod", "fchmod", "fchmodat", "chown", "lchown", "fchown", "futimens", "utimensat"}
READS = {"readdir", "open", "open64", "openat", "openat64", "fopen", "fopen64", "read", "opendir", "fgets", "access"}
# calls on these make all the difference; the files of packages are P14's and P15's
def weight(l):
    p = l[3] if len(l) > 3 else ""
    if l[2] == "fgets": return .3
    if "/remote/" in p: return 1 if l[2] == "fwrite" else 12
    return 8 if l[2] in ("rename", "renameat", "unlink", "remove", "rmdir", "mkdir") and (world.DB in p or "/depot" in p) else 5 if "/depot" in p else 3 if world.DB in p or ".META" in p else 1

def pick(rnd, log, n, ok=lambda l: True):
    """n calls, the telling ones more often"""
    c = [(rnd.random() ** (1. / weight(l)), k) for k, l in enumerate(log, 1) if ok(l)]
    return sorted(k for _, k in sorted(c, reverse=True)[:n])

def jobs_of(c, rnd, job, info, n):
    js = []
    if c.id == "C12":
        for k in pick(rnd, info["M"], n):
            l = info["M"][k - 1]
            half = l[2] in ("write", "writev", "fwrite") and rnd.random() < .6
            js.append((job, "kill", {"SHIM_CAT": "M", "SHIM_KILLB" if half else "SHIM_KILL": str(k)}))
    else:
        for k in pick(rnd, info["M"], (n + 1) // 2, lambda l: l[2] not in ATTR):
            js.append((job, "fail", {"SHIM_CAT": "M", "SHIM_FAIL": "%d%s:%d" % (k, "+" if rnd.random() < .15 else "", ERR[rnd.choice(list(ERR))])}))
        for k in pick(rnd, info["RG"], n // 2, lambda l: l[2] in READS and "/usr/lib" not in (l + [""])[3] and "/etc/ld" not in (l + [""])[3]):
            js.append((job, "fail", {"SHIM_CAT": "RG", "SHIM_FAIL": "%d:%d" % (k, ERR[rnd.choice(["EIO", "EACCES"])])}))
    return js

def call_of(info, env):
    k = env.get("SHIM_KILL") or env.get("SHIM_KILLB") or env["SHIM_FAIL"].split(":")[0].rstrip("+")
    log = info[env["SHIM_CAT"]]
    return " ".join(log[int(k) - 1][2:]) if int(k) <= len(log) else "?"

def describe(job, env, info, x, bad):
    what = "killed before" if "SHIM_KILL" in env else "killed halfway through" if "SHIM_KILLB" in env else "failing (%s)" % env["SHIM_FAIL"]
    return "%s, %s %s: %s (exit %d); %s" % (" ".join(fr.argv(job["op"])), what, call_of(info, env), ",".join(sorted(bad)), x["rc"], fr.brief({"w": job["w"], "pre": job["db"]}))

def explore(c, salt, n, per):
    world.template(); rw.keys(); rnd = c.rnd(salt); t0 = time.time()
    jobs = [dict(mk(rnd.randrange(1 << 40), c.id), pid=c.id) for _ in range(n)]
    infos = pool_map(prepare, jobs); js = []; own = []
    for i, (j, info) in enumerate(zip(jobs, infos)):
        if info["rc"] != 0 or not info["M"]: c.count("refused_alone"); continue
        x = jobs_of(c, rnd, j, info, per); js += x; own += [i] * len(x)
        c.hist("commands", j["op"]["k"])
    t1 = time.time()
    runs = pool_map(disturbed, js)
    t2 = time.time()
    by = {}
    for k, i in enumerate(own): by.setdefault(i, []).append(k)
    ids = sorted(by); m = max(4, len(ids) // 24 + 1)
    parts = [ids[b:b + m] for b in range(0, len(ids), m)]
    V = pool_map(validate, [[case(jobs[i], infos[i], [runs[k] for k in by[i]]) for i in p] for p in parts])
    c.count("traces_validated_against_impl", len(js))
    for k, x in enumerate(js): c.hist("calls", call_of(infos[own[k]], x[2]).split(" ")[0])
    c.log("%s: %d commands, %d disturbed runs (prepared %.1fs, run %.1fs, judged %.1fs)" % (salt, len(ids), len(js), t1 - t0, t2 - t1, time.time() - t2))
    done = set(); nbad = 0
    for p, vs in zip(parts, V):
        if len(vs) != sum(len(by[i]) for i in p): raise ToolError("TLC judged %d" % len(vs))
        for v in vs:
            i = p[v["k"] - 1]; k = by[i][v["j"] - 1]; x = runs[k]
            if "Unreadable" in v["bad"]: c.log("TLC could not judge:", v.get("why", "")[-600:])
            bad = set(v["bad"]) | ({"Crashes"} if x["sig"] else set()) | ({"Hangs"} if x["hang"] else set())
            if not bad: continue
            nbad += 1
            if os.environ.get("VERIF_ALL"): print("ALL", describe(jobs[i], js[k][2], infos[i], x, bad)[:400], "|", x["msg"][-200:].replace("\n", "~"), flush=True)
            key = "%s/%s/%s" % (jobs[i]["op"]["k"], call_of(infos[i], js[k][2]).split(" ")[0], "+".join(sorted(bad)))
            if key in done: continue
            done.add(key)
            c.violation(key, describe(jobs[i], js[k][2], infos[i], x, bad), {"job": jobs[i], "kind": js[k][1], "env": js[k][2]})
    if ids: c.sample({"command": " ".join(fr.argv(jobs[ids[0]]["op"])), "calls": [" ".join(l[2:]) for l in infos[ids[0]]["M"]][:12]})
    return nbad

def run(c):
    c.level = "model_checking"
    c.assumptions = ["a killed process leaves exactly the file-system calls it had completed", "the calls of cards itself (C library level) are killed or failed, not those of the scripts it starts",
                     "packages without shared files (P14 and P15 decide those for one package)", "nothing but cards changes the depot meanwhile"]
    import int_pub
    if c.quick:
        c.mc("RepoCrashMC", "RepoCrashMC.cfg", workers=8)
        c.mc("RepoPubCrashMC", "RepoPubCrashMC.cfg", workers=8)
        explore(c, "q", 400, 14)
        int_pub.explore(c, "q", 40, 24)
    else:
        c.mc("RepoCrashMC", "RepoCrashMC_deep.cfg", workers=8, timeout=7200, mem="12g")
        c.mc("RepoPubCrashMC", "RepoPubCrashMC_two.cfg", workers=8)
        for k in range(400):
            if c.viol or c.left() < 600: break
            explore(c, "t%d" % k, 600, 40)
            int_pub.explore(c, "t%d" % k, 60, 60)

def replay(c, data):
    world.template(); rw.keys(); j = data["job"]
    if j.get("pub"):
        import int_pub
        return int_pub.replay(c, data)
    info = prepare(j); x = disturbed((j, data["kind"], data["env"]))
    c.count("traces_validated_against_impl")
    v = validate([case(j, info, [x])])[0]
    bad = set(v["bad"]) | ({"Crashes"} if x["sig"] else set()) | ({"Hangs"} if x["hang"] else set())
    print(fr.argv(j["op"]), x["rc"], sorted(bad), x["msg"], x.get("msg2", ""), v.get("why", "")[-800:])
    if bad: c.violation("%s/%s/%s" % (j["op"]["k"], call_of(info, data["env"]).split(" ")[0], "+".join(sorted(bad))), describe(j, data["env"], info, x, bad), data)
