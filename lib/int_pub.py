"""Part of C12, C13: `cards repo' killed at or failed at its system calls, and repeated, decided
with spec/RepoPubCrash.tla (TLC: every publication interrupted anywhere; real runs are judged by
RepoPubCrashTrace)."""
import os, re, json, hashlib, shutil, tempfile, time
from core import *
import world, repoworld as rw, fam_pub as fp, fam_int as fi

TEXTS = ["REPO", "FILES", "REPO.zst", "FILES.zst"]

def fresh(job):
    """A publisher with one publication behind him and changes since."""
    W = fp.World({"seed": job["seed"], "pid": "C06", "kind": "pub"}); rnd = W.g.rnd
    W.conf("publish")
    if rnd.random() < .85:
        rc, o, e = W.cell.run(["cards", "repo"], uid=1000)
        if rc: raise ToolError("cards repo: " + e[-300:])
    for _ in range(rnd.choice([1, 2, 3, 5])): W.event(rnd.choice(["add", "add", "replace", "drop", "keys"]))
    ask = rnd.choice(["", "", rnd.choice(W.colls)])
    return W, ask
def label(b): return "" if b is None else hashlib.sha1(b).hexdigest()[:8]
def texts(W): return {c: {t: label(rw.rd(W.cell.path(rw.remote(c)) + "/." + t)) for t in TEXTS} for c in W.colls}
def others(W):
    out = {}
    for c in W.colls:
        d = W.cell.path(rw.remote(c))
        for f in sorted(os.listdir(d)):
            if f.startswith(".REPO") or f.startswith(".FILES"): continue
            out[c + "/" + f] = label(rw.rd(d + "/" + f))
    return out
def said(e):
    """Was anything told but the progress and that there is no index yet?"""
    t = re.sub(r"\x08|\[ [-|/\\] \]", "", e)
    return any(l.strip() and not l.startswith(("Cannot read the file: ", "... continue with next")) for l in t.split("\n"))
def argv(ask): return ["cards", "repo"] + ([ask] if ask else [])
def kill(W): W.cell.destroy()

def prepare(job):
    out = {}
    for cat in ("M", "RG"):
        if cat == "RG" and job["pid"] != "C13": continue
        W, ask = fresh(job)
        try:
            out["old"] = texts(W); out["ask"] = ask; out["colls"] = [ask] if ask else W.colls
            rc, o, e = W.cell.run(argv(ask), uid=1000, env=dict(fi.SHIM, SHIM_CAT=cat, SHIM_LOG="/tmp/shimlog"))
            lp = W.cell.path("/tmp/shimlog")
            out[cat] = [l.rstrip("\n").split(" ", 3) for l in open(lp, errors="surrogateescape")] if os.path.exists(lp) else []
            out["rc"] = rc; out["want"] = texts(W)
        finally: kill(W)
    return out

def disturbed(job):
    j, kind, env = job
    W, ask = fresh(j)
    try:
        o0 = others(W)
        rc, o, e = W.cell.run(argv(ask), uid=1000, env=dict(fi.SHIM, **env))
        x = {"kind": kind, "rc": rc, "said": said(e), "seen": texts(W), "arcs": others(W) == o0, "msg": e[-300:], "sig": kind == "fail" and (rc < 0 or rc > 128), "hang": rc == 997}
        rc, o, e = W.cell.run(argv(ask), uid=1000)
        x["rerc"] = rc; x["again"] = texts(W)
        return x
    finally: kill(W)

def validate(cases):
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    with open(f, "w") as h: json.dump(cases, h)
    rc, out = tlc("RepoPubCrashTrace", "RepoPubCrashTrace.cfg", env={"CASES": f}, mem="2g", timeout=1800, want=range(0, 256))
    shutil.rmtree(d)
    v = lines(out, "C")
    if rc != 0 or len(v) != sum(len(c["runs"]) for c in cases): raise ToolError(out[-1500:])
    return v
def case(info, runs):
    return {"colls": info["colls"], "old": info["old"], "want": info["want"], "runs": [{k: x[k] for k in ("kind", "rc", "said", "seen", "arcs", "rerc", "again")} for x in runs]}
def badness(v, x): return set(v["bad"]) | ({"Crashes"} if x["sig"] else set()) | ({"Hangs"} if x["hang"] else set())
def describe(job, env, info, x, bad):
    what = "killed before" if "SHIM_KILL" in env else "killed halfway through" if "SHIM_KILLB" in env else "failing (%s)" % env["SHIM_FAIL"]
    return "%s, %s %s: %s (exit %d)" % (" ".join(argv(info["ask"])), what, fi.call_of(info, env), ",".join(sorted(bad)), x["rc"])

def explore(c, salt, n, per):
    rnd = c.rnd("pub" + salt); t0 = time.time()
    jobs = [{"pid": c.id, "seed": rnd.randrange(1 << 40), "pub": True} for _ in range(n)]
    infos = pool_map(prepare, jobs); js = []; own = []
    for i, (j, info) in enumerate(zip(jobs, infos)):
        if info["rc"] != 0 or not info["M"]: c.count("refused_alone"); continue
        x = fi.jobs_of(c, rnd, j, info, per); js += x; own += [i] * len(x); c.hist("commands", "repo")
    runs = pool_map(disturbed, js); by = {}
    for k, i in enumerate(own): by.setdefault(i, []).append(k)
    ids = sorted(by); V = validate([case(infos[i], [runs[k] for k in by[i]]) for i in ids]) if ids else []
    c.count("traces_validated_against_impl", len(js))
    for k, x in enumerate(js): c.hist("calls", fi.call_of(infos[own[k]], x[2]).split(" ")[0])
    c.log("%s: %d publications, %d disturbed runs (%.1fs)" % (salt, len(ids), len(js), time.time() - t0))
    done = set(); nbad = 0
    for v in V:
        i = ids[v["k"] - 1]; k = by[i][v["j"] - 1]; x = runs[k]; bad = badness(v, x)
        if not bad: continue
        nbad += 1
        if os.environ.get("VERIF_ALL"): print("ALL", describe(jobs[i], js[k][2], infos[i], x, bad)[:400], "|", x["msg"][-200:].replace("\n", "~"), flush=True)
        key = "repo/%s/%s" % (fi.call_of(infos[i], js[k][2]).split(" ")[0], "+".join(sorted(bad)))
        if key in done: continue
        done.add(key)
        c.violation(key, describe(jobs[i], js[k][2], infos[i], x, bad), {"job": jobs[i], "kind": js[k][1], "env": js[k][2]})
    return nbad

def replay(c, data):
    j = data["job"]; info = prepare(j); x = disturbed((j, data["kind"], data["env"]))
    c.count("traces_validated_against_impl"); bad = badness(validate([case(info, [x])])[0], x)
    print(argv(info["ask"]), x["rc"], sorted(bad), x["msg"])
    if bad: c.violation("repo/%s/%s" % (fi.call_of(info, data["env"]).split(" ")[0], "+".join(sorted(bad))), describe(j, data["env"], info, x, bad), data)
