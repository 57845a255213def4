"""C01-C05, C07-C09: the cards commands on packages and repositories, decided with spec/Repo.tla.

TLC checks the laws of the specification over every small repository and history (RepoMC); the
real cards runs in cells on small-scope states TLC enumerates (RepoGen) and on larger generated
worlds and histories; TLC judges every recorded command (RepoTrace)."""
import os, json, random, re, itertools, time, copy
from core import *
import world, repoworld as rw, confs

GLOBAL = {
 "C01": {"Hangs", "Crashes", "Missing", "Extra", "Lost", "Once", "Order", "Owner", "TakesOver", "Failed", "AcceptedNoDep", "NoDepNotInert", "Files", "Wrong"},
 "C02": {"AcceptedUnverified", "UnverifiedNotInert", "Genuine", "Wrong", "Depot", "Failed", "UpgradeFailed", "Crashes"},
 "C03": {"RemoveAccepted", "RefusedNotInert", "RemoveFailed", "NamedStays", "OrphanStays", "NeededGone", "OthersChanged", "Files", "Hangs", "Crashes", "Meddles"},
 "C04": {"MarkOld", "MarkAsked", "MarkPulled"},
 "C05": {"DiffFailed", "DiffChanges", "Counts", "Answer", "NoConsent", "NothingOffered", "UpgradeFailed", "NotConverged", "Missing", "Extra", "Lost", "Wrong", "Once", "Owner", "Files", "NotPurged", "Hangs", "Crashes"},
 "C07": {"PurgeFailed", "PurgeChanges", "PurgeLeft", "PurgeLocal", "PurgeIndex", "PurgeOther", "Hangs", "Crashes"},
 "C08": {"AcceptedUnknown", "UnknownNotInert", "Names", "NamedStays", "Failed", "Meddles", "Crashes", "Hangs"},
 "C09": {"SyncChanges", "SyncLocal", "SyncDepot", "SyncFailed", "SyncNotEqual", "SyncAccepted", "SyncTorn", "Hangs", "Crashes"},
 "C10": {"Source"},
}
# what each property's check exercises: share of commands, and of kinds of worlds
MIX = {
 "C01": {"install": 8, "upgrade": 1},
 "C02": {"install": 6, "upgrade": 3},
 "C03": {"remove": 9, "install": 1},
 "C04": {"install": 5, "upgrade": 3, "remove": 2},
 "C05": {"upgrade": 5, "diff": 3, "ask": 3},
 "C07": {"purge": 8, "install": 1, "upgrade": 1},
 "C08": {"install": 7, "remove": 2},
 "C09": {"sync": 8, "diff": 1},
 "C10": {"install": 6, "upgrade": 3},
}
NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "lib-x", "lib", "gtk+", "x11", "python3", "z_z"]

def graph(rnd, names):
    kind = rnd.choice(["dag", "dag", "chain", "diamond", "any", "loop", "sparse", "sparse"])
    ns = names[:]; rnd.shuffle(ns); g = {p: set() for p in ns}; n = len(ns)
    for i, p in enumerate(ns):
        if kind == "chain" and i: g[p].add(ns[i - 1])
        elif kind == "diamond" and i: g[p] |= set(ns[max(0, i - 2):i])
        elif kind == "dag": g[p] |= {q for q in ns[:i] if rnd.random() < .4}
        elif kind == "any": g[p] |= {q for q in ns if rnd.random() < 1.8 / n}
        elif kind == "sparse": g[p] |= {q for q in ns[:i] if rnd.random() < .15}
        elif kind == "loop":
            if i % 4: g[p].add(ns[i - 1])
            elif i + 3 < n: g[p].add(ns[i + 3])
            g[p] |= {q for q in ns[:i] if rnd.random() < .1}
    for p in ns:
        if rnd.random() < .05: g[p].add(p)
    return g

class Gen:
    def __init__(self, seed, pid):
        self.rnd, self.pid, self.ser, self.tag = random.Random(seed), pid, 0, "%x" % seed
        self.sh = self.rnd.choice([0, 0, .1, .3, .6])
    def rec(self, n, coll, ver, rel, build, deps, group="", nls="", sets=(), alias=(), share=()):
        self.ser += 1
        return {"n": n, "ver": ver, "rel": rel, "build": build, "deps": deps, "coll": coll, "group": group, "nls": nls, "sets": sorted(sets), "alias": sorted(alias), "share": sorted(share),
                "fn": "%s.cards-%s-x86_64-%d.tar.gz" % (n, ver, rel), "id": "%s/%s-%d-%d/%s/%s.%d" % (n, ver, rel, build, coll, self.tag, self.ser), "hash": True, "sig": True}
    def bump(self, r, deps=None):
        """a later build of the same package"""
        rnd = self.rnd; k = rnd.randrange(4)
        ver, rel = r["ver"], r["rel"]
        if k == 0: ver = ver + ".1"
        elif k == 1: rel += 1
        x = self.rec(r["n"], r["coll"], ver, rel, r["build"] + rnd.randrange(1, 3), deps if deps is not None else r["deps"], r["group"], r["nls"], r["sets"], r["alias"], r["share"] if rnd.random() < .6 else self.share())
        return x
    def share(self):
        return self.rnd.sample(["x1", "x2", "x3"], self.rnd.choice([0, 1, 1, 2])) if self.rnd.random() < self.sh else []
    def world(self):
        rnd = self.rnd; pid = self.pid
        cn = rnd.sample(["gui", "cli", "base", "cli-extra"], rnd.choice([1, 2, 2, 3]))
        urlp = {"C02": .9, "C09": .8, "C07": .6, "C05": .5, "C10": .4}.get(pid, .25)
        style = rnd.choice(["dir", "dir", "dir", "url", "coll"])
        colls = [{"name": c, "url": style != "dir" or rnd.random() < urlp, "key": True} for c in cn]
        groups = rnd.sample(["devel", "fr", "lib", "man"], rnd.choice([0, 1, 2, 3]))
        names = rnd.sample(NAMES, rnd.randrange(2, 8))
        g = graph(rnd, names)
        base = {}
        for n in names:
            b = rnd.randrange(1, 4)
            base[n] = self.rec(n, rnd.choice(cn), rnd.choice(["1.0", "1.1", "2.0-rc1", "7"]), rnd.choice([1, 1, 2]), b, [],
                               sets=[s for s in ("s1", "s2", "cli-set") if rnd.random() < .2], alias=["al-" + n] if rnd.random() < .2 else [], share=self.share())
        for n in names:
            ds = []
            for q in sorted(g[n]):
                hi = base[q]["build"]
                ds.append({"n": q, "b": rnd.choice([hi, hi, 1, max(1, hi - 1)] + ([hi + 1] if rnd.random() < .1 else []))})
            if rnd.random() < {"C01": .06}.get(pid, .02): ds.append({"n": "nosuch", "b": 1})
            base[n]["deps"] = ds
        for n in names[:]:      # companions
            for s in ("devel", "fr", "lib", "man"):
                if rnd.random() < (.3 if groups else .1):
                    r = self.rec(n + "." + s, base[n]["coll"], base[n]["ver"], base[n]["rel"], base[n]["build"], [],
                                 group="" if s == "fr" else s, nls="fr" if s == "fr" else "", sets=base[n]["sets"] if rnd.random() < .3 else [])
                    if rnd.random() < .3: r["deps"] = [{"n": n, "b": base[n]["build"]}]
                    if rnd.random() < .1: q = rnd.choice(names); r["deps"] = [{"n": q, "b": base[q]["build"]}]
                    base[r["n"]] = r
        idx = {c: {} for c in cn}
        for n, r in base.items(): idx[r["coll"]][n] = r
        for n in list(base):      # also offered elsewhere
            if len(cn) > 1 and rnd.random() < (.5 if pid == "C10" else .08):
                c = rnd.choice([c for c in cn if c != base[n]["coll"]])
                r = self.bump(base[n]) if rnd.random() < .5 else self.rec(**{k: base[n][k] for k in ("n", "coll", "ver", "rel", "build", "deps", "group", "nls", "sets", "alias", "share")})
                r["coll"] = c; r["id"] += "/" + c
                idx[c][n] = r
        w = {"colls": colls, "groups": sorted(groups), "idx": idx, "ridx": {c: {} for c in cn}, "loc": {c: {} for c in cn}, "rem": {c: {} for c in cn}, "stale": [], "style": style, "rlack": {}, "vary": rnd.randrange(1, 1 << 30) if rnd.random() < .4 else 0}
        for c in colls:
            if c["url"]:
                w["ridx"][c["name"]] = self.republish(idx[c["name"]], .35 if pid in ("C05", "C09", "C02", "C04") else .15)
                w["rem"][c["name"]] = {r["fn"]: r["id"] for r in w["ridx"][c["name"]].values()}
                if rnd.random() < .8:     # the mirror still carries what the local index lists
                    for r in idx[c["name"]].values(): w["rem"][c["name"]].setdefault(r["fn"], r["id"])
                for r in idx[c["name"]].values():
                    if rnd.random() < .3: w["loc"][c["name"]][r["fn"]] = r["id"]
            else:
                w["loc"][c["name"]] = {r["fn"]: r["id"] for r in idx[c["name"]].values()}
        self.sabotage(w)
        return w
    def republish(self, ix, p):
        rnd = self.rnd; new = {}
        for n, r in ix.items():
            x = rnd.random()
            if x < p: new[n] = self.bump(r, None if rnd.random() < .7 else [d for d in r["deps"] if rnd.random() < .6] + ([{"n": rnd.choice(sorted(ix)), "b": 1}] if rnd.random() < .5 else []))
            elif x < p * 1.25: continue
            else: new[n] = r
        for n, r in new.items():
            seen = {}
            for d in r["deps"]: seen.setdefault(d["n"], d)
            r["deps"] = sorted(seen.values(), key=lambda d: d["n"])
        if rnd.random() < p:
            n = rnd.choice(["new1", "new2"]); new[n] = self.rec(n, next(iter(ix.values()))["coll"] if ix else "cli", "1.0", 1, 2, [])
            if new and rnd.random() < .7:
                q = rnd.choice(sorted(new))
                if q != n and not any(d["n"] == n for d in new[q]["deps"]) and new[q] is not ix.get(q): new[q]["deps"] = sorted(new[q]["deps"] + [{"n": n, "b": 2}], key=lambda d: d["n"])
        return new
    def sabotage(self, w):
        rnd = self.rnd; p = {"C02": .25, "C07": .1, "C01": .02}.get(self.pid, .03)
        for c in w["colls"]:
            cn = c["name"]
            if c["url"]:
                rs = list(w["idx"][cn].values()) + list(w["ridx"][cn].values())
                for r in rs:
                    if rnd.random() < p: w["loc"][cn][r["fn"]] = self.wrong(w, r)
                    if rnd.random() < p * .5: w["rem"][cn][r["fn"]] = self.wrong(w, r)
                    if rnd.random() < p * .3: w["rem"][cn].pop(r["fn"], None)
                    if rnd.random() < p * .3: r["hash"] = False
                    if rnd.random() < p * .3: r["sig"] = False
                if rnd.random() < p * .4: c["key"] = False; c["keyfile"] = rnd.choice(["other", "none"])
                if self.pid in ("C09",) and rnd.random() < .3 or rnd.random() < .02: w["rlack"][cn] = rnd.choice(["repo", "files", "key", "broken"])
                if self.pid == "C07" and rnd.random() < .5: w["loc"][cn]["left.over"] = "junk-left"
            else:
                for r in w["idx"][cn].values():
                    if rnd.random() < p * .2: w["loc"][cn].pop(r["fn"], None)
        for c in w["colls"]:
            # an unaltered archive is not "content the index was made from" when the entry is wrong
            pass
    def wrong(self, w, r):
        rnd = self.rnd; k = rnd.randrange(4)
        if k == 0: return "junk-%d" % rnd.randrange(3)
        if k == 1: return "cut:" + r["id"]
        if k == 2: return "app:" + r["id"]
        x = self.rec(*[r[k] for k in ("n", "coll", "ver", "rel", "build", "deps", "group", "nls", "sets", "alias", "share")]); x["fn"] = r["fn"]
        w["stale"].append(x); return x["id"]
    def db(self, w):
        rnd = self.rnd; pool = {}
        for c in reversed([c["name"] for c in w["colls"]]):
            for k in ("idx", "ridx"):
                for n, r in w[k][c].items():
                    if k == "idx" or rnd.random() < .3: pool[n] = r
        db = {}; dens = rnd.choice([0, .2, .5, .8, .95])
        if self.pid in ("C03", "C05"): dens = rnd.choice([.5, .5, .8, .8, .95, .95, 1, 1, 0])
        fresh = rnd.choice([.2, .6, .95, 1])
        closed = rnd.random() < .5
        for n, r in sorted(pool.items()):
            if rnd.random() >= dens: continue
            x = r
            if rnd.random() > fresh:
                x = self.rec(n, r["coll"], rnd.choice([r["ver"], "0.9"]), r["rel"], max(0, r["build"] - rnd.choice([0, 1, 1, 2])), r["deps"] if rnd.random() < .7 else r["deps"][:1], r["group"], r["nls"], r["sets"], r["alias"], r["share"] if rnd.random() < .6 else self.share())
                if rnd.random() < .1: x["build"] += 5
            db[n] = rw.dbrec(x, rnd.random() < .5)
        if rnd.random() < .3:
            for n in ("old1", "old2"):
                if rnd.random() < .6: db[n] = rw.dbrec(self.rec(n, rnd.choice(["cli", "base", "local"]), "1.0", 1, 1, [{"n": rnd.choice(sorted(pool)), "b": 1}] if pool and rnd.random() < .4 else []), rnd.random() < .5)
            if pool and rnd.random() < .4 and "old1" in db:
                q = rnd.choice(sorted(pool))
                if q in db: db[q]["deps"] = db[q]["deps"] + [{"n": "old1", "b": 1}]
        if closed:      # what is installed has what it needs
            todo = list(db)
            while todo:
                for d in db[todo.pop()]["deps"]:
                    if d["n"] not in db and d["n"] in pool: db[d["n"]] = rw.dbrec(pool[d["n"]], True); todo.append(d["n"])
        taken = set()       # every file has one owner
        for n in rnd.sample(sorted(db), len(db)):
            db[n]["share"] = sorted(set(db[n]["share"]) - taken); taken |= set(db[n]["share"])
        return db
    def op(self, w, db):
        rnd = self.rnd; mix = MIX[self.pid]
        k = rnd.choices(list(mix), list(mix.values()))[0]
        off = sorted({n for c in w["idx"].values() for n in c})
        if k == "remove" and not db: k = "install"
        if k == "install":
            groupish = ["s1", "s2", "cli-set"] + [c["name"] for c in w["colls"]]
            pg = .4 if self.pid == "C08" else .12
            args = []
            for _ in range(rnd.choice([1, 1, 1, 2, 2, 3])):
                x = rnd.random()
                if x < pg: args.append(rnd.choice(groupish))
                elif x < pg + (.1 if self.pid == "C08" else .02) or not off: args.append(rnd.choice(["nosuch", "unknown", "a.devel", "s9"]))
                else: args.append(rnd.choice(off))
            return {"k": k, "args": args, "flags": rnd.choice([[], [], [], ["-u"], ["-f"], ["-u", "-f"], ["-nL"] if False else []])}
        if k == "remove":
            free = [p for p in db if not any(d["n"] == p for q in db if q != p for d in db[q]["deps"])]
            args = []
            for _ in range(rnd.choice([1, 1, 1, 2, 2, 3])):
                x = rnd.random()
                if x < .5 and free: args.append(rnd.choice(sorted(free)))
                elif x < .65: args.append(rnd.choice(sorted(db)))
                elif x < .8:
                    al = [a for p in db for a in db[p]["alias"]]
                    args.append(rnd.choice(sorted(al)) if al else rnd.choice(sorted(db)))
                else: args.append(rnd.choice(["s1", "s2", "cli-set", "devel", "man"] + [c["name"] for c in w["colls"]]))
            return {"k": k, "args": args, "force": rnd.random() < .6}
        if k == "upgrade": return {"k": k, "proceed": rnd.random() < .75}
        if k == "ask": return {"k": k, "ask": rnd.choice(["-c", "-s"])}
        return {"k": k}

def jobs(c, salt, n):
    rnd = c.rnd(salt); out = []
    for _ in range(n):
        seed = rnd.randrange(1 << 40)
        g = Gen(seed, c.id)
        w = g.world(); db = g.db(w)
        out.append({"w": w, "db": db, "ops": None, "n": rnd.choice([1, 1, 2, 3]), "seed": seed})
    return out

def argv(op):
    k = op["k"]
    if k == "install": return ["cards", "install"] + op.get("flags", []) + op["args"]
    if k == "remove": return ["cards", "remove"] + (["-f"] if op["force"] else []) + op["args"]
    if k == "upgrade": return ["cards", "upgrade"] + (["--proceed"] if op["proceed"] else [])
    if k == "ask": return ["cards", "upgrade", op["ask"]]
    return ["cards", k]

def parse_diff(o):
    r = {"uptodate": "up to date" in o, "counts": {k: 0 for k in ("ok", "newer", "rebuilt", "obsolete", "unmaintained", "all")}, "newer": [], "rebuilt": [], "obsolete": [], "unmaintained": [], "consent": "Percentage of" in o}
    heads = (("Number of Packages", "all"), ("Unchanged", "ok"), ("Out of Date", "newer"), ("Rebuild", "rebuilt"), ("Obsoletes Packages", "obsolete"), ("Unmaintained", "unmaintained"), ("Added packages", None), ("Available space", None), ("Percentage", None))
    cur = None
    for l in o.split("\n"):
        for h, k in heads:
            if l.startswith(h):
                cur = k
                if k: r["counts"][k] = int(l.rsplit(":", 1)[1]); 
                break
        else:
            if not l.strip(): cur = None if cur != "newer" else cur
            elif cur == "newer":
                f = l.split()
                if f[0] != "Name:": r["newer"].append("|".join(f))
            elif cur in ("rebuilt", "obsolete", "unmaintained"): r[cur].append(l.strip())
    return r

def one(cell, w, op, db):
    """Runs one command; returns the case for TLC."""
    try: os.unlink(cell.path("/slog"))
    except FileNotFoundError: pass
    loc0, lab0, odd0 = rw.read_depot(cell, w); oth = rw.others(cell)
    rc, o, e = cell.run(argv(op))
    loc, labs, odd = rw.read_depot(cell, w)
    post = rw.read_db(cell)
    out = {}
    if op["k"] == "diff": out = parse_diff(o)
    elif op["k"] == "ask": out = {"answer": o.split("\n")[-2] if "\n" in o else o}
    cw = {"groups": w["groups"], "rem": copy.deepcopy(w["rem"]), "rlab": copy.deepcopy(w["rlab"]), "loc": loc0}
    cw["idx"] = {c: {n: {k: v for k, v in r.items() if k in FIELDS} for n, r in ix.items()} for c, ix in w["idx"].items()}
    cw["ridx"] = {c: {n: {k: v for k, v in r.items() if k in FIELDS} for n, r in ix.items()} for c, ix in w["ridx"].items()}
    cw["colls"] = [{k: c[k] for k in ("name", "url", "key")} for c in w["colls"]]
    return {"w": cw, "pre": db, "op": dict(op, force="-f" in op["flags"]) if op["k"] == "install" else op, "rc": rc, "post": post, "log": [x["s"] for x in world.read_slog(cell)], "loc": loc, "lab": labs, "plab": lab0,
            "inst": rw.read_inst(cell), "sh": rw.read_inst(cell, "q"), "other": oth == rw.others(cell) and odd == odd0, "out": out}, e
FIELDS = {"n", "ver", "rel", "build", "deps", "coll", "group", "nls", "sets", "alias", "share", "fn", "id", "hash", "sig"}

def history(job, err=False):
    w = copy.deepcopy(job["w"]); db = copy.deepcopy(job["db"])
    g = Gen(job["seed"] ^ (1 << 41), job.get("pid", "C01")); g.ser = 100000
    cell = world.Cell(); cell.timeout = 10; out = []
    try:
        rw.setup(cell, w, db, w["style"])
        db = rw.read_db(cell)
        for i in range(len(job["ops"]) if job["ops"] is not None else job["n"]):
            op = job["ops"][i] if job["ops"] is not None else g.op(w, db)
            snap = {"w": copy.deepcopy(w), "db": db, "ops": [op], "n": 1, "seed": 1}
            x, e = one(cell, w, op, db)
            x["job"] = snap
            if err: x["err"] = e[-1500:]
            out.append(x)
            if x["rc"] in (997,) or x["rc"] > 128 or x["rc"] < 0: break
            w["loc"] = x["loc"]; db = x["post"]
            if any(x["inst"].get(p) != r["id"] for p, r in db.items()) or any(i.startswith("?") for c in w["loc"].values() for i in c.values()): break
            stop = False
            for c in w["colls"]:
                n = c["name"]
                if x["lab"][n] != x["plab"][n]:
                    if c["url"] and x["lab"][n] == {k: w["rlab"][n][k] for k in ("repo", "files", "key")}: w["idx"][n] = w["ridx"][n]; c["key"] = True
                    else: stop = True
            if stop: break
            if i + 1 < job["n"] and job["ops"] is None and g.rnd.random() < .5:      # the publisher goes on
                for c in w["colls"]:
                    if c["url"] and g.rnd.random() < .6:
                        n = c["name"]; old = w["ridx"][n]
                        w["ridx"][n] = g.republish(old, .4); w["rem"][n] = dict(w["rem"][n], **{r["fn"]: r["id"] for r in w["ridx"][n].values()})
                        for r in w["ridx"][n].values(): rw.archive(r)
                        w["rlack"].pop(n, None); w["rlab"][n] = rw.put_remote(cell, w, c)
        return out
    finally: cell.destroy()

def validate(cases):
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    with open(f, "w") as h: json.dump([{k: v for k, v in x.items() if k not in ("job", "err")} for x in cases], h)
    rc, out = tlc("RepoTrace", "RepoTrace.cfg", env={"CASES": f}, mem="4g", timeout=1800, want=range(0, 256))
    shutil.rmtree(d)
    v = lines(out, "C")
    if rc == 0 and len(v) == len(cases): return v
    if len(cases) == 1: return [{"k": 1, "bad": ["Unreadable"], "why": out[-1500:]}]
    h = len(cases) // 2
    return validate(cases[:h]) + [dict(x, k=x["k"] + h) for x in validate(cases[h:])]

def judge(c, js, label):
    world.template(); rw.keys(); t0 = time.time()
    for j in js: j["pid"] = c.id
    res = pool_map(history, js)
    flat = [(i, k, x) for i, r in enumerate(res) for k, x in enumerate(r)]
    t1 = time.time(); n = max(60, min(400, len(flat) // 8 + 1))
    V = [dict(v, k=v["k"] + b * n) for b, vs in enumerate(pool_map(validate, [[x for _, _, x in flat[b:b + n]] for b in range(0, len(flat), n)])) for v in vs]
    if len(V) != len(flat): raise ToolError("TLC judged %d of %d" % (len(V), len(flat)))
    c.count("traces_validated_against_impl", len(flat)); c.count("histories", len(js))
    for _, _, x in flat: c.hist("commands", x["op"]["k"] + ("" if x["rc"] == 0 else "!"))
    c.log("%s: %d histories, %d commands in %.1fs, judged in %.1fs" % (label, len(js), len(flat), t1 - t0, time.time() - t1))
    done = set()
    want = GLOBAL[c.id] | {"Unreadable"}
    for v in sorted(V, key=lambda v: (len(json.dumps(flat[v["k"] - 1][2]["w"])), v["k"])):
        bad = set(v["bad"]) & want
        if "Unreadable" in v["bad"]: c.log("TLC could not judge:", v.get("why", "")[-600:])
        if not bad: continue
        i, k, x = flat[v["k"] - 1]
        key = "%s/%s" % (x["op"]["k"], "+".join(sorted(bad)))
        if key in done: continue
        done.add(key)
        report(c, key, bad, x)
    if js: c.sample({"kind": label, "commands": [" ".join(argv(x["op"])) for _, _, x in flat[:6]]})

def brief(x):
    ix = x["w"]["idx"]
    return "offered %s; installed %s" % (" ".join("%s:%s%s" % (c, n, "<-" + ",".join(d["n"] for d in r["deps"]) if r["deps"] else "") for c in sorted(ix) for n, r in sorted(ix[c].items()))[:300],
        " ".join("%s%s" % (n, "(auto)" if r["auto"] else "") for n, r in sorted(x["pre"].items()))[:200])

def report(c, key, bad, x):
    c.violation(key, "%s: %s (exit %d); %s" % (" ".join(argv(x["op"])), ",".join(sorted(bad)), x["rc"], brief(x)), {"job": x["job"]})

MODELS = {"C01": ["dep", "comp", "share"], "C03": ["dep"], "C04": ["up", "dep"], "C05": ["up", "share"], "C08": ["comp"]}
IO = {"C02": [("RepoIo", "RepoIo.cfg")], "C09": [("RepoIo", "RepoIo.cfg"), ("RepoDepotMC", "RepoDepotMC.cfg")], "C07": [("RepoDepotMC", "RepoDepotMC.cfg"), ("RepoDepotMC", "RepoDepotMC2.cfg")],
      "C10": [("RepoDepotMC", "RepoDepotMC.cfg"), ("RepoDepotMC", "RepoDepotMC2.cfg")]}
KINDS = {"C01": ("install",), "C03": ("remove",), "C04": ("install", "upgrade", "remove"), "C05": ("upgrade", "diff", "ask"), "C08": ("install", "remove")}

def models(c):
    for m, f in IO.get(c.id, []): c.mc(m, f, workers=8)
    st = []
    for m in MODELS.get(c.id, []):
        out = c.mc("RepoMC", "RepoMC_%s_emit.cfg" % m, workers=8)
        st += [(m, x) for x in sorted(set(l for l in out.split("\n") if l.startswith('"S ')))]
    return st

def small(m, x):
    """A world and a database out of a state TLC printed."""
    s = json.loads(json.loads(x)[2:]); ix, db = s["ix"] or {}, s["db"] or {}
    def rec(n, r):
        deps = sorted(r["deps"], key=lambda d: d["n"])
        return {"n": n, "ver": r["ver"], "rel": r["rel"], "build": r["build"], "deps": deps, "coll": r["coll"], "group": r["group"], "nls": "", "sets": [], "alias": [], "share": sorted(r["share"]),
                "fn": "%s.cards-1-x86_64-1.tar.gz" % n, "id": "%s/%d/%s/%s/%s" % (n, r["build"], ",".join(sorted(r["share"])), ",".join("%s%d" % (d["n"], d["b"]) for d in deps), r["coll"]), "hash": True, "sig": True}
    idx = {n: rec(n, r) for n, r in ix.items()}
    w = {"colls": [{"name": "cli", "url": False, "key": True}], "groups": ["g"] if m == "comp" else [], "idx": {"cli": idx}, "ridx": {"cli": {}},
         "loc": {"cli": {r["fn"]: r["id"] for r in idx.values()}}, "rem": {"cli": {}}, "stale": [], "style": "dir", "rlack": {}}
    d = {n: rw.dbrec(rec(n, dict(r, sets=[], alias=[])), r["auto"]) for n, r in db.items()}
    return w, d

def commands(pid, m, w, db):
    ns = ["a", "b", "a.g"] if m == "comp" else ["a", "b"] if m in ("up", "share") else ["a", "b", "c"]
    K = KINDS[pid]; out = []
    if "install" in K:
        out += [{"k": "install", "args": [n], "flags": []} for n in ns] + ([{"k": "install", "args": [a, b], "flags": []} for a in ns for b in ns if a != b] if m == "dep" else []) + [{"k": "install", "args": ["cli"], "flags": []}]
        if m == "share": out = [dict(o, flags=f) for o in out for f in ([], ["-f"])]
    if "remove" in K and db: out += [{"k": "remove", "args": a, "force": f} for f in (False, True) for a in [[n] for n in sorted(db)] + [["cli"]] + [[a, b] for a in sorted(db) for b in sorted(db) if a != b]]
    if "upgrade" in K: out += [{"k": "upgrade", "proceed": True}, {"k": "upgrade", "proceed": False}]
    if "diff" in K: out.append({"k": "diff"})
    if "ask" in K: out += [{"k": "ask", "ask": a} for a in ("-c", "-s")]
    return out

def smalljobs(c, states, rnd):
    for m, x in states:
        w, db = small(m, x); ops = commands(c.id, m, w, db)
        if ops: yield {"w": w, "db": db, "ops": [rnd.choice(ops)], "n": 1, "seed": 1}

def run(c):
    c.assumptions = ["packages share single files of one directory (other kinds of conflicts are P03/P04)", "the mark of companions that come along unasked is left open", "one collection per remote; local copies altered only where a checksum exists"]
    st = models(c); rnd = c.rnd("small")
    if c.id == "C10": confs.run(c)
    if st: c.hist("small_scope", "states", len(st))
    if c.quick:
        if st: judge(c, list(smalljobs(c, rnd.sample(st, min(2500, len(st))), rnd)), "small scope")
        judge(c, jobs(c, "q", {"C02": 1500, "C09": 1500}.get(c.id, 2000)), "worlds")
    else:
        rnd.shuffle(st)
        for k in range(400):
            if c.viol or c.left() < 600: break
            if k % 2 and st:
                n = (k // 2 * 8000) % len(st)
                judge(c, list(smalljobs(c, st[n:n + 8000], rnd)), "small scope from %d" % n)
            else: judge(c, jobs(c, "t%d" % k, 4000), "round %d" % k)

def replay(c, data):
    if "job" not in data: return confs.replay(c, data)
    world.template(); rw.keys(); j = data["job"]; x = history(j, True)
    c.count("traces_validated_against_impl", len(x))
    for i, v in enumerate(validate(x)):
        print(argv(x[i]["op"]), x[i]["rc"], v["bad"], x[i].get("err", "")[-400:])
        bad = set(v["bad"]) & GLOBAL[c.id]
        if bad: report(c, "%s/%s" % (x[i]["op"]["k"], "+".join(sorted(bad))), bad, x[i])
