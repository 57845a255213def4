"""B01, B02: `cards create', the build service, decided with spec/Build.tla.

TLC explores a small build service (BuildMC); the real command builds ports of generated trees with
a stand-in packager that records the environment it finds, and TLC judges every run (BuildTrace)."""
import os, json, random, re, shutil, time
from core import *
import world, repoworld as rw, fam_ports as fp, fam_repo as fr

SUFF = ("devel", "fr", "lib", "man")

class Fake:
    """The environment the packager saw, as a cell."""
    def __init__(self, d): self.dir = d
    def path(self, p): return os.path.join(self.dir, p.lstrip("/"))

class Gen(fr.Gen):
    def case(self):
        rnd = self.rnd
        cn = rnd.sample(["gui", "cli", "base", "cli-extra"], rnd.choice([1, 1, 2, 3]))
        groups = rnd.sample(SUFF, rnd.choice([0, 1, 1, 2]))
        n = rnd.choice([1, 2, 3, 4, 6, 9]); names = rnd.sample(fr.NAMES + ["k1", "k2", "tool"], n)
        kind = rnd.choice(["dag", "dag", "chain", "diamond", "sparse"]); g = {p: [] for p in names}
        for i, p in enumerate(names):
            if kind == "chain": g[p] = names[max(0, i - 1):i]
            elif kind == "diamond": g[p] = names[max(0, i - 2):i]
            else: g[p] = [q for q in names[:i] if rnd.random() < (.4 if kind == "dag" else .2)]
        t = {}; w = {"colls": [{"name": c, "url": False, "key": True} for c in cn], "groups": sorted(groups), "idx": {c: {} for c in cn}, "ridx": {c: {} for c in cn},
                     "loc": {c: {} for c in cn}, "rem": {c: {} for c in cn}, "stale": [], "rlack": {}, "vary": rnd.randrange(1, 1 << 30) if rnd.random() < .3 else 0}
        basic = lambda p: [s for s in ("chroot", "devel") if rnd.random() < p]
        def offer(r, c=None):
            c = c or r["coll"]; w["idx"][c][r["n"]] = r; w["loc"][c][r["fn"]] = r["id"]
        recs = {}
        def binary(p, c, ver, rel, deps):
            r = self.rec(p, c, ver, rel, rnd.randrange(1, 4), deps, sets=basic(.12) + [s for s in ("s1",) if rnd.random() < .2]); recs[p] = r; offer(r)
            for s in SUFF:
                if rnd.random() < .3:
                    offer(self.rec("%s.%s" % (p, s), c, ver, rel, r["build"], [{"n": p, "b": r["build"]}] if rnd.random() < .3 else [], group="" if s == "fr" else s, nls="fr" if s == "fr" else "",
                                   sets=r["sets"] if rnd.random() < .5 else basic(.1)))
        for p in names:
            c = rnd.choice(cn); ver = rnd.choice(["1.0", "1.1", "2.0-rc1", "7"]); rel = rnd.choice([1, 1, 2, 12])
            t[p] = {"coll": c, "ver": ver, "rel": rel, "deps": [{"full": q, "port": q} for q in sorted(g[p])] + ([{"full": "unknown", "port": "unknown"}] if rnd.random() < .06 else [])}
            if rnd.random() < .8:
                x = rnd.random()
                binary(p, c, *((ver, rel) if x < .6 else ("0.9", rel) if x < .75 else (ver, rel + 1) if x < .9 else (ver, max(1, rel - 1))),
                       [{"n": q, "b": recs[q]["build"]} for q in g[p] if q in recs and rnd.random() < .6])
        # what every build has, and what nobody builds any more
        for b, s in (("cards", ["chroot"]), ("bash", ["chroot", "devel"]), ("gcc", ["devel"]), ("glibc", ["chroot"] if rnd.random() < .6 else []), ("zlib", [])):
            if rnd.random() < .75 and b not in recs:
                c = rnd.choice(cn); r = self.rec(b, c, "1.0", 1, rnd.randrange(1, 3), [], sets=s); recs[b] = r
                if b == "gcc" and "glibc" in recs: r["deps"] = [{"n": "glibc", "b": 1}]
                offer(r)
                if rnd.random() < .3: offer(self.rec(b + ".devel", c, "1.0", 1, 1, [], group="devel", sets=basic(.4)))
                if b != "cards" and rnd.random() < .6: t[b] = {"coll": c, "ver": "1.0", "rel": 1, "deps": []}
        if rnd.random() < .97:
            c = rnd.choice(cn); offer(self.rec("cards.devel", c, "1.0", 1, 1, [{"n": b, "b": 1} for b in ("cards", "zlib") if b in recs], group="devel", sets=["devel"] if rnd.random() < .8 else []))
        if len(cn) > 1 and recs and rnd.random() < .15:     # offered elsewhere, too
            p = rnd.choice(sorted(recs)); c = rnd.choice([c for c in cn if c != recs[p]["coll"]]); r = self.bump(recs[p]); r["coll"] = c; offer(r, c)
        # what is installed: some as offered, some older, some from elsewhere
        db = {}
        for c in cn:
            for n_, r in w["idx"][c].items():
                if rnd.random() < .3:
                    q = r if rnd.random() < .7 else self.rec(n_, r["coll"], "0.5", 1, 0, [], r["group"], r["nls"], r["sets"] if rnd.random() < .8 else basic(.5))
                    db[n_] = rw.dbrec(q, rnd.random() < .4)
        for n_ in ("left", "over"):
            if rnd.random() < .3: db[n_] = rw.dbrec(self.rec(n_, "", "1", 1, 1, [], sets=basic(.3)), rnd.random() < .5)
        if rnd.random() < .12:     # an archive nobody has
            c = rnd.choice(cn); l = sorted(w["loc"][c])
            if l:
                f = rnd.choice(l); r = [r for r in w["idx"][c].values() if r["fn"] == f]
                if r and not r[0]["group"] and not r[0]["nls"]: del w["loc"][c][f]
        out = {}
        for p in t:
            c = t[p]["coll"]; old = {n_ for n_, r in w["idx"][c].items() if n_ == p or (r["group"] or r["nls"]) and n_ == p + "." + (r["group"] or r["nls"])}
            o = {"rc": 0 if rnd.random() < .88 else rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 126]), "gone": sorted(old), "recs": {}}
            b = rnd.randrange(4, 9); prev = w["idx"][c].get(p)
            o["recs"][p] = self.rec(p, c, t[p]["ver"], t[p]["rel"], b, prev["deps"] if prev else [], sets=prev["sets"] if prev and rnd.random() < .9 else basic(.2))
            for s in SUFF:
                n_ = p + "." + s
                if rnd.random() < (.8 if n_ in old else .1): o["recs"][n_] = self.rec(n_, c, t[p]["ver"], t[p]["rel"], b, [], group="" if s == "fr" else s, nls="fr" if s == "fr" else "", sets=w["idx"][c][n_]["sets"] if n_ in old else [])
            out[p] = o
        for r in rw.records(w): r["share"] = []
        x = rnd.random()
        arg = rnd.choice(cn) if x < (.02 if self.pid == "B01" else .85) else rnd.choice(sorted(t)) if x < .97 else "nosuch"
        return {"w": w, "t": t, "db": {n_: dict(r, share=[]) for n_, r in db.items()}, "out": out, "arg": arg, "root": rnd.random() < .97, "setup": rnd.random() < .97, "dry": rnd.random() < .15, "logdir": rnd.random() < .3, "seed": rnd.randrange(1 << 30)}

def prepare(cell, case):
    """The depot, the ports, the database and the packager's plans."""
    w = case["w"]; rnd = random.Random(case["seed"])
    for o in case["out"].values():
        for r in o["recs"].values(): r["share"] = []; rw.archive(r)
    rw.setup(cell, w, case["db"], "dir")
    if case["logdir"]: open(cell.path("/etc/cards.conf"), "a").write("logdir /LOGS/x\n")
    if case["setup"]: rw.write(cell.path("/tmp/setup"), "")
    for p, port in case["t"].items(): rw.write(cell.path("/ports/%s/%s/Pkgfile" % (port["coll"], p)), fp.pkgfile(rnd, p, port))
    for c in w["colls"]:
        os.makedirs(cell.path("/ports/" + c["name"]), exist_ok=True); os.makedirs(cell.path("/bl/blocks/" + c["name"]), exist_ok=True)
        for n, r in w["idx"][c["name"]].items(): rw.write(cell.path("/bl/blocks/%s/%s" % (c["name"], n)), rw.index_text({n: r}, False)[0])
    for p, o in case["out"].items():
        d = cell.path("/bl/plan/" + p); c = case["t"][p]["coll"]
        rw.write(d + "/rc", "%d\n" % o["rc"]); rw.write(d + "/gone", "".join("%s/%s\n" % (c, n) for n in o["gone"]))
        for n, r in o["recs"].items():
            rw.write("%s/blocks/%s/%s" % (d, c, n), rw.index_text({n: r}, False)[0]); rw.write("%s/files/%s/%s" % (d, c, r["fn"]), rw.content(r["id"]))
    shutil.copy(build()["pkgmk"], cell.path("/usr/bin/pkgmk")); os.chmod(cell.path("/usr/bin/pkgmk"), 0o755)

def outside(cell): return [x for x in rw.others(cell) if x[0].split("/")[0] not in ("bl", "LOGS")]
def said_of(o): return re.findall(r"^(\S+?)(?:: Binary: .*)? ===> SHOULD BE BUILD !$", o, re.M)
def play(case):
    case = json.loads(json.dumps(case)); cell = world.Cell(); cell.timeout = 20
    try:
        prepare(cell, case)
        before = outside(cell)
        rc, o, e = cell.run(["cards", "create"] + (["--dry"] if case["dry"] else []) + [case["arg"]], cwd="/ports", uid=0 if case["root"] else 1000)
        envs, nlog = [], 0
        while os.path.isdir(cell.path("/bl/env%d" % len(envs))):
            f = Fake(cell.path("/bl/env%d" % len(envs)))
            call = open(f.path("/call")).read().split("\n"); log = [x["s"] for x in world.read_slog(f)]
            d = call[0][len("/ports/"):] if call[0].startswith("/ports/") else call[0]
            envs.append({"port": d.split("/")[-1], "dir": d, "arg": call[1].strip(), "db": rw.read_db(f), "inst": rw.read_inst(f), "sh": rw.read_inst(f, "q") or [], "log": log[nlog:]}); nlog = len(log)
        log = [x["s"] for x in world.read_slog(cell)][nlog:]
        said = said_of(o); obs = re.findall(r"^Package: (\S+) package should be removed", o, re.M)
        loc, _, odd = rw.read_depot(cell, case["w"])
        logged = sorted(x[:-4] for x in os.listdir(cell.path("/LOGS/x")) if x.endswith(".log")) if os.path.isdir(cell.path("/LOGS/x")) else []
        post = {"post": rw.read_db(cell), "inst": rw.read_inst(cell), "sh": rw.read_inst(cell, "q") or [], "other": outside(cell) == before and not odd}
        again = []
        if rc == 0 and not case["dry"] and case["arg"] in loc: rc2, o2, _ = cell.run(["cards", "create", "--dry", case["arg"]], cwd="/ports"); again = said_of(o2) + (["?"] if rc2 else [])
        return {"w": {k: case["w"][k] for k in ("colls", "groups", "idx", "loc", "rem")}, "t": case["t"], "db": case["db"], "out": case["out"], "arg": case["arg"], "root": case["root"], "setup": case["setup"], "dry": case["dry"],
                "rc": rc if rc in (997,) else 0 if rc == 0 else 1 if rc == 1 else 2, "envs": envs, "said": said, "obs": obs, **post, "again": again, "loc": loc, "log": log,
                "logdir": case["logdir"], "logged": logged, "text": (o[-600:] + "|" + e[-400:])}
    finally: cell.destroy()

def tlc_cases(recs):
    if not recs: return []
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    with open(f, "w") as h: json.dump([{k: v for k, v in r.items() if k != "text"} for r in recs], h)
    rc, out = tlc("BuildTrace", "RepoTrace.cfg", env={"CASES": f}, mem="3g", timeout=1200, want=range(0, 256))
    shutil.rmtree(d); L = lines(out, "C")
    if os.environ.get("VERIF_ALL") and rc: print(out[-1500:])
    if rc == 0 and len(L) == len(recs): return L
    if len(recs) == 1: return [{"k": 1, "bad": ["Unreadable"], "text": out[-1500:]}]
    h = len(recs) // 2; A = tlc_cases(recs[:h])
    return A + [dict(l, k=l["k"] + h) for l in tlc_cases(recs[h:])]

def describe(r):
    return "cards create %s%s (exit %d): built %s" % ("--dry " if r["dry"] else "", r["arg"], r["rc"], [x["port"] for x in r["envs"]])

def judge(c, cases, label):
    world.template(); rw.keys()
    recs = pool_map(play, cases); c.log("%s: %d runs played" % (label, len(recs)))
    B = 60; chunks = [recs[k:k + B] for k in range(0, len(recs), B)]
    fails = {}
    for i, L in enumerate(pool_map(tlc_cases, chunks, chunk=1)):
        for l in L:
            if l["bad"]: fails.setdefault(tuple(sorted(l["bad"])), []).append(i * B + l["k"] - 1)
    c.count("traces_validated_against_impl", len(recs)); c.count("builds", sum(len(r["envs"]) for r in recs))
    for r in recs:
        c.hist("outcome", ("dry" if r["dry"] else "collection" if r["arg"] in r["loc"] else "port") + ("" if r["rc"] == 0 else " failing"))
        for x in r["envs"]: c.hist("installed for a build", min(12, len(x["log"])))
    for bad, ks in sorted(fails.items()):
        for k in sorted(ks, key=lambda k: len(json.dumps(cases[k])))[:3]:
            l = tlc_cases([play(cases[k])])[0]
            if l["bad"]: c.violation("+".join(sorted(l["bad"])), describe(recs[k]) + ": " + ",".join(sorted(l["bad"])) + l.get("text", ""), {"case": cases[k]}); break
        else: c.count("unreproduced")
    c.log("%s: %d runs, %d failing" % (label, len(recs), sum(map(len, fails.values()))))
    c.sample({"run": describe(recs[0]), "environments": [sorted(x["db"]) for x in recs[0]["envs"]][:4]})

def cases(c, salt, n):
    rnd = c.rnd(salt); return [Gen(rnd.randrange(1 << 40), c.id).case() for _ in range(n)]

def run(c):
    c.level = "model_checking"
    c.assumptions = ["the packager is a stand-in that records what it finds and publishes prepared archives; scripts/pkgmk itself is not run",
                     "all collections are local directories; ports do not depend on each other in cycles; dependencies name ports, not parts of them"]
    c.mc("BuildMC", "BuildMC.cfg", workers=8)
    if c.quick: judge(c, cases(c, "q", 700), "builds")
    else:
        for f in ("full", "two", "three"): c.mc("BuildMC", "BuildMC_%s.cfg" % f, workers=8)
        k = 0
        while c.left() > 3600 * 5 and k < 60 and not c.viol: k += 1; judge(c, cases(c, "t%d" % k, 2000), "round %d" % k)

def replay(c, data):
    r = play(data["case"]); l = tlc_cases([r])[0]; c.count("traces_validated_against_impl")
    if l["bad"]: c.violation("+".join(sorted(l["bad"])), describe(r) + ": " + ",".join(sorted(l["bad"])), data)
