"""P14, P15: one command of the real tools, killed at or failed at every system call.

spec/PkgCrash.tla models the separate changes inside a command; TLC explores every crash
point of it over the scopes of PkgDbMC (PkgCrashMC).  The real commands are then killed before
every file-changing call (and halfway through every write), or one of their calls fails, from
states TLC reached or generated; TLC judges what is left against PkgCrash (PkgCrashTrace)."""
import os, json, random
from core import *
import pkgdb, fam_pkg, world

SHIM = {"CELL_PRELOAD": "/usr/lib/shim.so"}
ERR = {"ENOSPC": 28, "EIO": 5, "EACCES": 13}
MARK = ("db", "fs")

def fresh(case):
    s = pkgdb.Session(case["root"], case["s"]["rules"])
    s.load(case["s"])
    s.cell.timeout = 6
    return s

def calls(case, cat):
    """The calls of an undisturbed run, and how it ends."""
    s = fresh(case)
    try:
        pre = s.state()
        rc = s.do(case["op"], env=dict(SHIM, SHIM_CAT=cat, SHIM_LOG="/shimlog"))
        lp = s.cell.path("/shimlog"); log = []
        if os.path.exists(lp):
            log = [l.rstrip("\n").split(" ", 3) for l in open(lp, errors="surrogateescape")]
            os.unlink(lp)
        post = s.state()
        return {"rc": rc, "log": log, "pre": pre, "post": post}
    finally: s.close()

def clean(st):
    """What was left, as the tools see it: a record without its file list is none."""
    db = {}
    for n, r in st["db"].items():
        if "<nofiles>" in r["meta"]: continue
        db[n] = dict(r, meta=[m for m in r["meta"] if not m.startswith("<extra:")])
    return dict(st, db=db, log=[], trig=[])

def listed(s):
    """What pkginfo -i lists, or why it does not."""
    rc = s.do({"cmd": "query"})
    if rc != 0: return "pkginfo -i exits %d: %s" % (rc, s.last[1][-200:])
    return sorted(l.split()[-2] for l in s.last[0].splitlines() if len(l.split()) > 2)

def readable(s, c):
    got = listed(s)
    if isinstance(got, str): return got
    want = sorted(c["db"])
    return None if got == want else "pkginfo -i lists %s, the database holds %s" % (got, want)

def again(case, c):
    op = case["op"]
    if op["cmd"] == "pkgrm": return op if op["name"] in c["db"] else None
    if not op["u"] and op["arc"]["name"] in c["db"]: return None
    return dict(op, f=True)

def one(job):
    """job: (case, kind, k, arg) -> run"""
    case, kind, k, arg = job
    s = fresh(case)
    try:
        if kind in ("SHIM_KILL", "SHIM_KILLB"):
            rc = s.do(case["op"], env=dict(SHIM, SHIM_CAT="M", **{kind: str(k)}))
            raw = s.state(); c = clean(raw)
            x = {"c": c, "rc": 0, "act": False, "r": c, "unread": readable(s, c), "killed": rc in (-9, 137)}
            a = again(case, c)
            if a:
                x["act"] = True
                x["rc"] = s.do(a); x["r"] = dict(s.state(), log=[], trig=[])
                x["msg"] = s.last[1][-300:]
            return x
        cat, spec = arg[:2]; flush = len(arg) > 2
        rc = s.do(case["op"], env=dict(SHIM, SHIM_CAT=cat, SHIM_FAIL=spec))
        said = bool(s.last[1].strip()); msg = s.last[1][-300:]
        c = clean(s.state())
        return {"c": c, "rc": 0 if rc == 0 else 1, "said": said, "flush": flush, "unread": readable(s, c), "msg": msg, "sig": rc if rc < 0 or 127 < rc else 0, "hang": rc == 997}
    finally: s.close()

def mk_cases(c, scopes, per, flavours, gen):
    """(s, op) pairs whose command is accepted."""
    rnd = c.rnd("cases")
    out = []
    for sc in scopes:
        E = [t for t in fam_pkg.edges(c, sc) if t["ops"][0]["cmd"] != "user"]
        groups = {}
        for t in E:
            op = t["ops"][0]
            inst = (op["arc"]["name"] if op["cmd"] == "pkgadd" else op["name"]) in (t["load"]["db"] or {})
            if op["cmd"] == "pkgadd" and op["u"] != inst or op["cmd"] == "pkgrm" and not inst: continue
            groups.setdefault((op["cmd"], op.get("u"), op.get("f")), []).append(t)
        for g in sorted(groups, key=str):
            l = groups[g]
            for t in rnd.sample(l, min(len(l), per)):
                out.append({"root": "/", "s": t["load"], "op": t["ops"][0], "from": sc})
    if gen:
        tr = fam_pkg.flavour_traces(c, flavours, (40, 4), 10, ["/"])
        recs = pool_map(fam_pkg.do_replay, tr)
        groups = {}
        for t, r in zip(tr, recs):
            pre = r["init"]
            for x in r["steps"]:
                op = x["op"]
                if op["cmd"] in ("pkgadd", "pkgrm") and x["rc"] == 0:
                    groups.setdefault((op["cmd"], op.get("u"), op.get("f")), []).append((pre, op, t))
                pre = x["post"]
        for g in sorted(groups, key=str):
            l = groups[g]
            for pre, op, t in rnd.sample(l, min(len(l), gen)):
                out.append({"root": "/", "s": dict(pre, log=[], trig=[]), "op": op, "from": "generated"})
    return out

def tlc_cases(cases, workers=8):
    d = tempfile.mkdtemp(dir=scratch())
    f = os.path.join(d, "c.json")
    with open(f, "w") as h: json.dump(cases, h)
    rc, out = tlc("PkgCrashTrace", "PkgCrashTrace.cfg", workers=workers, env={"CASES": f}, mem="8g", timeout=900, want=range(0, 256))
    shutil.rmtree(d)
    L = lines(out, "CASE")
    if rc == 0: return L
    if len(cases) == 1:
        if len(cases[0]["runs"]) == 1: return [{"k": 1, "j": 1, "bad": ["~eval"], "diff": [out[-600:]]}]
        h = len(cases[0]["runs"]) // 2
        A = tlc_cases([dict(cases[0], runs=cases[0]["runs"][:h])], workers)
        B = tlc_cases([dict(cases[0], runs=cases[0]["runs"][h:])], workers)
        return A + [dict(b, j=b["j"] + h) for b in B]
    h = len(cases) // 2
    return tlc_cases(cases[:h], workers) + [dict(b, k=b["k"] + h) for b in tlc_cases(cases[h:], workers)]

def evaluate(case_runs):
    """[(case, [(job, run)])] -> [(case, job, run, bad, diff)] for those that fail; dedupes what TLC sees."""
    feed, back = [], []
    for case, rs in case_runs:
        seen, runs, ix = {}, [], []
        for job, x in rs:
            y = {k: x[k] for k in x if k in ("c", "act", "rc", "r", "said", "flush")}
            h = json.dumps(y, sort_keys=True)
            if h not in seen: seen[h] = len(runs); runs.append(y); ix.append([])
            ix[seen[h]].append((job, x))
        feed.append({"s": case["s"], "op": case["op"], "runs": runs}); back.append((case, ix))
    L = tlc_cases(feed)
    if len(L) != sum(len(f["runs"]) for f in feed): raise ToolError("TLC judged %d of %d" % (len(L), sum(len(f["runs"]) for f in feed)))
    out = []
    verdict = {(l["k"] - 1, l["j"] - 1): l for l in L}
    for a, (case, ix) in enumerate(back):
        for b, js in enumerate(ix):
            l = verdict[a, b]
            for job, x in js:
                bad = sorted(set(l["bad"]) | ({"Readable"} if x.get("unread") else set()) | ({"Hangs"} if x.get("hang") else {"Crashed"} if x.get("sig") else set()))
                if bad: out.append((case, job, x, bad, l["diff"]))
    return out, len(L)

def jobs_of(c, case, info, log=None):
    """The disturbances of one case."""
    rnd = c.rnd("jobs", json.dumps(case["op"], sort_keys=True))
    js = []
    if c.id == "P14":
        for k, l in enumerate(info["log"], 1):
            js.append((case, "SHIM_KILL", k, None))
            if l[2] in ("write", "writev"): js.append((case, "SHIM_KILLB", k, None))
    else:
        M = [i for i, l in enumerate(info["log"], 1) if l[2] not in ATTR]
        names = list(ERR)
        for k in M:
            flush = info["log"][k - 1][2] in ("fsync", "fdatasync") and any(world.DB in w for w in info["log"][k - 1][3:])
            if flush:   # what could not be flushed may be gone: an error however well the files look
                js += [(case, "SHIM_FAIL", k, ("M", "%d:%d" % (k, ERR[e]), True)) for e in names]; continue
            es = names if not c.quick else [names[(k + len(js)) % 3]]
            for e in es: js.append((case, "SHIM_FAIL", k, ("M", "%d:%d" % (k, ERR[e]))))
            if not c.quick or rnd.random() < .25: js.append((case, "SHIM_FAIL", k, ("M", "%d+:%d" % (k, ERR[rnd.choice(names)]))))
        nr = len(info["logR"])
        for k in range(1, nr + 1):
            if info["logR"][k - 1][2] not in READS: continue
            if c.quick and rnd.random() > (.12 if info["logR"][k - 1][2] == "fgets" else .35): continue
            js.append((case, "SHIM_FAIL", k, ("RG", "%d:%d" % (k, ERR[rnd.choice(["EIO", "EACCES"])]))))
    return js
ATTR = {"chmod", "fchmod", "fchmodat", "chown", "lchown", "fchown", "futimens", "utimensat"}
READS = {"readdir", "open", "open64", "openat", "openat64", "fopen", "fopen64", "read", "opendir", "fgets"}

def prepare(case):
    info = calls(case, "M")
    if case.get("wantR"): info["logR"] = calls(case, "RG")["log"]
    return info

def describe(case, job, x, bad):
    what = {"SHIM_KILL": "killed before call %d" % job[2], "SHIM_KILLB": "killed halfway through write %d" % job[2],
            "SHIM_FAIL": "failing call %s" % (job[3],)}[job[1]]
    return "%s, %s: %s%s" % (fam_pkg.brief(case["op"]), what, ",".join(bad), ("; " + x["unread"]) if x.get("unread") else "")

def explore(c, cases, label):
    world.template()
    for x in cases: x["wantR"] = c.id == "P15"
    infos = pool_map(prepare, cases)
    jobs, kept = [], 0
    for case, info in zip(cases, infos):
        if info["rc"] != 0: continue
        kept += 1
        case["s"] = dict(clean(info["pre"]), rules=case["s"]["rules"])
        case["n"] = len(info["log"]); case["log"] = info["log"]; case["logR"] = info.get("logR")
        jobs += jobs_of(c, case, info)
    c.log("%s: %d cases, %d disturbed runs" % (label, kept, len(jobs)))
    runs = pool_map(one, [(slim(j[0]),) + j[1:] for j in jobs])
    per = {}
    for j, x in zip(jobs, runs): per.setdefault(id(j[0]), (j[0], []))[1].append((j, x))
    c.log("executed")
    failing, nt = evaluate(list(per.values()))
    c.count("traces_validated_against_impl", len(jobs)); c.count("distinct_outcomes_judged", nt)
    for case, info in zip(cases, infos):
        if info["rc"] == 0: c.hist("commands", "%s%s%s" % (case["op"]["cmd"], " -u" if case["op"].get("u") else "", " -f" if case["op"].get("f") else ""))
    for j in jobs:
        l = j[0]["log"][j[2] - 1] if j[1] != "SHIM_FAIL" or j[3][0] == "M" else j[0]["logR"][j[2] - 1]
        c.hist("calls", l[2])
    groups = {}
    if os.environ.get("VERIF_ALL"):
        for case, job, x, bad, diff in failing:
            print("ALL", case["op"]["cmd"], case["op"].get("u"), bad, " ".join((case["log"] if job[1] != "SHIM_FAIL" or job[3][0] == "M" else case["logR"])[job[2] - 1][2:]), job[3], "rc", x["rc"], diff[:3])
    for case, job, x, bad, diff in failing:
        groups.setdefault((case["op"]["cmd"], bool(case["op"].get("u")), bool(case["op"].get("f")), tuple(bad)), []).append((case, job, x, bad, diff))
    for g in sorted(groups, key=str):
        for case, job, x, bad, diff in groups[g][:3]:
            y = one((slim(case),) + job[1:])
            f2, _ = evaluate([(case, [(job, y)])])
            if f2:
                log = case["log"] if job[1] != "SHIM_FAIL" or job[3][0] == "M" else case["logR"]
                c.violation(key_of(case, job, bad), describe(case, job, y, f2[0][3]) + " (%s)" % " ".join(log[job[2] - 1][2:]) + " differs: %s" % f2[0][4][:5] + " msg: %s" % y.get("msg", ""),
                            {"case": slim(case), "job": list(job[1:])})
                break
        else: c.count("unreproduced")
    c.log("%s: %d failing" % (label, len(failing)))
    if kept: c.sample({"case": fam_pkg.brief(cases[0]["op"]), "calls": [" ".join(l[2:]) for l in infos[0]["log"]][:12]})
    return failing

def key_of(case, job, bad):
    log = case.get("log") if job[1] != "SHIM_FAIL" or job[3][0] == "M" else case.get("logR")
    call = " ".join(log[job[2] - 1][2:3]) if log else "?"
    return "%s%s%s/%s/%s" % (case["op"]["cmd"], "-u" if case["op"].get("u") else "", "-f" if case["op"].get("f") else "", call, "+".join(bad))

def slim(case): return {k: case[k] for k in ("root", "s", "op")}

def run(c):
    c.level = "model_checking"
    c.assumptions = ["a killed process leaves exactly the file-system calls it had completed (no loss of unsynced data by a power failure)",
                     "calls are interposed at the C library: what the kernel does inside one call is atomic, except writes, which are also cut in half" if c.id == "P14" else
                     "faults are injected at the C library calls that open, read, write, create, rename, link, delete or list files"]
    scopes = ["own", "confq", "scr"] if c.quick else ["own", "conf", "confq", "scr"]
    for sc in scopes:
        cfg = os.path.join(SPEC, "PkgCrashMC_%s.cfg" % sc)
        if not c.quick:
            t = os.path.join(scratch(), "PkgCrashMC_%s.cfg" % sc)
            open(t, "w").write(open(cfg).read().replace("MaxOps = 2", "MaxOps = 3")); cfg = t
        c.mc("PkgCrashMC", cfg, workers=8, timeout=7200, mem="12g")
    if c.quick:
        explore(c, mk_cases(c, ["own", "scr"], 3, ["base", "conf", "scr", "share"], 6), "quick cases")
    else:
        k = 0; seed = c.seed
        while c.left() > 3600 * 4 and k < 40 and not c.viol:
            k += 1; c.seed = seed * 1000 + k
            explore(c, mk_cases(c, scopes, 12, ["base", "conf", "scr", "share", "excl", "trig"], 20), "round %d" % k)
        c.seed = seed

def replay(c, data):
    case = data["case"]; job = (case,) + tuple(data["job"][:2]) + (data["job"][2],)
    case["wantR"] = True
    info = prepare(case); case["log"] = info["log"]; case["logR"] = info["logR"]
    c.count("traces_validated_against_impl")
    y = one((slim(case),) + job[1:])
    f, _ = evaluate([(case, [(job, y)])])
    if f: c.violation(key_of(case, job, f[0][3]), describe(case, job, y, f[0][3]), data)
