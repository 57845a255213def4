"""P01..P11: the installed-package database, decided with spec/PkgDb.tla.

1. TLC explores PkgDb exhaustively over small scopes, every property predicate on every
   transition (the specification itself has the properties).
2. TLC generates behaviours of PkgDb over larger universes, and dumps every transition of the
   small scopes; both are executed by the real pkgadd/pkgrm/pkginfo in a cell.
3. TLC validates what was recorded: each real step must be the step PkgDb allows and must
   satisfy the property predicates, which do not use PkgDb's transition function."""
import os, json, random
from core import *
import pkgdb, world

ALL = "~rc ~db ~fs ~log ~trig ~crash ~eval".split()
# property -> (predicates, classes whose conformance mismatches count, generation flavours, MC scopes)
PLAN = {
    "P01": ({"InstallExact", "BystandersKept"}, {"install"}, ["base", "share", "excl", "alias"], ["own"]),
    "P02": ({"RemoveExact"}, {"remove"}, ["share", "base", "conf"], ["own"]),
    "P03": ({"ConflictRefused", "OneOwner"}, {"conflict"}, ["share", "base", "excl"], ["own"]),
    "P04": ({"ForceTransfers"}, {"force"}, ["share", "base", "conf"], ["own"]),
    "P05": ({"UpgradeExact", "AutoKept"}, {"upgrade"}, ["base", "conf", "share"], ["own"]),
    "P06": ({"ConfigProtected"}, {"protected"}, ["conf", "conf", "base"], ["confq"]),
    "P07": ({"ExcludedAbsent"}, {"excluded"}, ["excl", "excl", "trig"], ["confq"]),
    "P08": ({"RefusalInert", "MustRefuse"}, {"refused"}, ["bad", "bad", "alias", "share"], ["scr"]),
    "P09": ({"Scripts"}, {"scripts"}, ["scr", "scr", "bad"], ["scr"]),
    "P10": ({"Triggers"}, {"triggers"}, ["trig"], ["own"]),
    "P11": (None, None, ["base", "bad", "scr", "conf", "trig"], ["own"]),
}
ANY = {"P08": {"~rc", "~crash", "~eval"}, "P09": {"~log"}, "P10": {"~trig"}, "P02": set(), "P01": set()}
WHERE = {"P01": {"pkgadd"}, "P02": {"pkgrm"}}

def relevant(pid, op, bad, cls):
    """Which of the failing aspects of a step concern the property."""
    preds, classes, _, _ = PLAN[pid]
    if pid == "P11": return sorted(bad)
    out = {b for b in bad if b in preds or b in ANY.get(pid, ())}
    if set(cls) & classes: out |= {b for b in bad if b in ALL}
    return sorted(out)

def tlc_validate(recs, workers=8, mem="6g"):
    """STEP lines for a list of recorded traces; traces TLC cannot evaluate are isolated."""
    d = tempfile.mkdtemp(dir=scratch())
    f = os.path.join(d, "t.json")
    with open(f, "w") as h: json.dump(recs, h)
    rc, out = tlc("PkgDbTrace", "PkgDbTrace.cfg", workers=workers, env={"TRACES": f}, mem=mem, timeout=900, want=range(0, 256))
    shutil.rmtree(d)
    if rc == 0: return lines(out, "STEP")
    if len(recs) == 1:
        n = len(recs[0]["steps"])
        S = lines(out, "STEP"); done = {s["i"] for s in S}
        k = min((i for i in range(1, n + 1) if i not in done), default=n)
        return S + [{"tr": 1, "i": k, "bad": ["~eval"], "diff": [out[-800:]], "cls": ["refused", "install", "remove", "upgrade"]}]
    h = len(recs) // 2
    A = tlc_validate(recs[:h], workers, mem); B = tlc_validate(recs[h:], workers, mem)
    for s in B: s["tr"] += h
    return A + B

def generate(c, unis, depth, num, tag):
    f = os.path.join(scratch(), "u-%s.json" % tag)
    with open(f, "w") as h: json.dump({"depth": depth, "unis": [{k: v for k, v in u.items() if k != "setup"} for u in unis]}, h)
    rc, out = tlc("PkgDbGen", "PkgDbGen.cfg", simulate="num=%d" % max(1, num // 8), depth=depth + 1, seed=c.seed * 1000 + zlib_crc(tag) % 997, workers=8, env={"UNIVERSE": f}, timeout=1200, mem="6g")
    H = lines(out, "HIST")
    if not H: raise ToolError("no behaviours generated\n" + out[-3000:])
    tr = []
    for h in H:
        u = unis[h["uni"] - 1]
        tr.append({"root": u["root"], "rules": u["rules"], "setup": u["setup"], "ops": h["ops"]})
    return tr

def zlib_crc(s):
    import zlib
    return zlib.crc32(s.encode())

def edges(c, scope):
    """Every transition of a small scope, each as a one-step trace from its own start state."""
    cfg = os.path.join(scratch(), "edges-%s.cfg" % scope)
    txt = open(os.path.join(SPEC, "PkgDbMC_%s.cfg" % scope)).read().replace("Dump = FALSE", "Dump = TRUE")
    with open(cfg, "w") as f: f.write(txt)
    rc, out = tlc("PkgDbMC", cfg, workers=8, timeout=3600, mem="12g")
    g, d = tlc_stats(out)
    E = lines(out, "EDGE")
    if not E: raise ToolError("no transitions dumped\n" + out[-2000:])
    c.count("states", d); c.count("transitions", g)
    c.hist("model_checked", "PkgDbMC/" + scope, d)
    return [{"root": "/", "rules": e["s"]["rules"], "load": e["s"], "ops": [e["op"]]} for e in E]

def do_replay(t):
    return pkgdb.replay(t)

def judge(c, traces, label):
    """Execute, validate, report."""
    if not traces: return
    world.template()
    t0 = time.time()
    recs = pool_map(do_replay, traces)
    t1 = time.time()
    S = []
    B = 1500
    for k in range(0, len(recs), B):
        for s in tlc_validate(recs[k:k + B]):
            s["tr"] += k; S.append(s)
    c.log("replayed %d traces in %.1fs, validated in %.1fs" % (len(recs), t1 - t0, time.time() - t1))
    want = sum(len(r["steps"]) for r in recs)
    if len(S) < want and not any("~eval" in s["bad"] for s in S):
        raise ToolError("TLC validated %d of %d steps" % (len(S), want))
    c.count("traces_validated_against_impl", len(recs))
    c.count("steps_validated", len(S))
    fail = {}
    for s in S:
        op = recs[s["tr"] - 1]["steps"][s["i"] - 1]["op"]
        for x in s["cls"]: c.hist("classes", x)
        bad = relevant(c.id, op, s["bad"], s["cls"])
        if s["bad"] and not bad: c.hist("other_mismatches", ",".join(sorted(s["bad"])))
        if bad:
            k = (tuple(bad), op["cmd"])
            t = fail.setdefault(k, [])
            t.append((s["i"], s["tr"], s))
    for k, t in sorted(fail.items()):
        t.sort(key=lambda x: x[:2])
        for i, tr, s in t[:3]:
            trace = dict(traces[tr - 1]); trace["ops"] = trace["ops"][:i]
            w = confirm(c, trace)
            if w: report(c, trace, w); break
        else:
            c.log("not reproduced:", k, len(t))
            c.count("unreproduced", len(t))
    c.log("%s: %d traces, %d steps, %d failing" % (label, len(recs), len(S), sum(map(len, fail.values()))))
    if recs:
        r = recs[0]
        c.sample({"kind": label, "ops": [brief(x["op"]) + " -> %d" % x["rc"] for x in r["steps"]][:8]})

def brief(op):
    if op["cmd"] == "pkgadd":
        a = op["arc"]
        return "pkgadd%s%s%s %s-%s[%s]%s%s" % ("".join(f for f, k in ((" -u", "u"), (" -f", "f"), (" -i", "i")) if op[k]), "" if op["root"] == "/" else " -r", "", a["name"],
               next((m[1:] for m in a["meta"] if m[0] == "V"), "?"), " ".join(e["p"] for e in a["ents"])[:90], "" if a["bad"] == "none" else " bad:" + a["bad"], "" if op.get("how", "ok") == "ok" else " how:" + op["how"])
    if op["cmd"] == "pkgrm": return "pkgrm %s%s" % (op["name"], "" if op.get("how", "ok") == "ok" else " how:" + op["how"])
    if op["cmd"] == "user": return "user %s %s" % (op["act"], op.get("path", ""))
    return op["cmd"]

def confirm(c, trace):
    """Re-run one trace on its own; the failing aspects of its last step."""
    for _ in range(2):
        rec = pkgdb.replay(trace)
        S = tlc_validate([rec], workers=1)
        for s in sorted(S, key=lambda x: x["i"]):
            op = rec["steps"][s["i"] - 1]["op"]
            bad = relevant(c.id, op, s["bad"], s["cls"])
            if bad: return {"bad": bad, "i": s["i"], "op": op, "rc": rec["steps"][s["i"] - 1]["rc"], "diff": s["diff"], "post": rec["steps"][s["i"] - 1]["post"],
                            "pre": rec["steps"][s["i"] - 2]["post"] if s["i"] > 1 else rec["init"]}
    return None

def report(c, trace, w):
    trace = dict(trace); trace["ops"] = trace["ops"][:w["i"]]
    det = []
    for p in w["diff"][:5]:
        det.append("%s: %s -> %s" % (p, w["pre"]["fs"].get(p) if isinstance(w["pre"]["fs"], dict) else "", w["post"]["fs"].get(p) if isinstance(w["post"]["fs"], dict) else ""))
    key = "%s/%s" % (w["op"]["cmd"], "+".join(w["bad"]))
    c.violation(key, "step %d (%s, exit %s) fails %s %s" % (w["i"], brief(w["op"]), w["rc"], ",".join(w["bad"]), "; ".join(det)[:600]), {"trace": trace, "detail": {k: w[k] for k in ("bad", "i", "op", "rc", "diff")}})

def flavour_traces(c, flavours, per, depth, roots, spell=False):
    out = []
    world.template()
    jobs = []
    for i, fl in enumerate(flavours):
        for k in range(per[1]):
            jobs.append((c.seed, c.id, fl, i, k, roots[(i + k) % len(roots)]))
    unis = pool_map(mk_uni, jobs, chunk=1)
    c.log("%d universes" % len(unis))
    tr = generate(c, unis, depth, per[0] * len(flavours), "%s-%s" % (c.id, "-".join(flavours)[:40]))
    c.log("generated %d behaviours" % len(tr))
    for t in tr: t["spell"] = spell
    return tr

def mk_uni(j):
    seed, pid, fl, i, k, root = j
    return pkgdb.mk_universe(random.Random("%s/%s/%s/%s/%s" % (seed, pid, fl, i, k)), fl, root)

def run(c):
    preds, classes, flavours, scopes = PLAN[c.id]
    c.assumptions = [
        "the tools run in a user namespace with one mapped id: ownership of extracted files is not compared",
        "package contents stay within the generated universes: no file/directory type clashes between packages, no top-level dot files, no device nodes",
        "archives are written by Python's tarfile; the tools are built from /repo/src with -O1",
    ]
    rnd = c.rnd("edges")
    # 1+2a: exhaustive scopes, and direct-state replay of their transitions
    if not c.quick: scopes = scopes + [s for s in ("own", "scr", "conf") if s not in scopes and not (s == "conf" and "confq" in scopes and False)]
    for sc in scopes:
        E = edges(c, sc)
        n = len(E)
        cap = 1200 if c.quick else 60000
        if n > cap: E = rnd.sample(E, cap)
        if c.id == "P11":
            for t in E: t["root"] = "/mnt/r/"; t["spell"] = True; t["ops"] = [dict(o, root="/mnt/r/") if o["cmd"] != "user" else o for o in t["ops"]]
        judge(c, E, "transitions of scope %s (%d of %d)" % (sc, len(E), n))
    # 2b: generated behaviours
    alt = c.id == "P11"
    roots = ["/mnt/r/"] if alt else ["/", "/", "/mnt/r/"]
    if c.quick:
        judge(c, flavour_traces(c, flavours, (480, 24) if len(flavours) == 1 else (160 if len(flavours) < 4 else 110, 8), 12, roots, alt), "generated behaviours")
    else:
        k = 0
        while c.left() > 3600 * 5 and k < 40:
            k += 1
            c2seed, c.seed = c.seed, c.seed * 1000 + k
            judge(c, flavour_traces(c, flavours, (400, 12), 10 + 4 * (k % 5), roots, alt), "generated behaviours, round %d" % k)
            c.seed = c2seed
            if c.viol: break

def replay(c, data):
    w = confirm(c, data["trace"])
    c.count("traces_validated_against_impl")
    if w: report(c, data["trace"], w)
