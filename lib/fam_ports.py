"""L01, L02: the port tree, decided with spec/Ports.tla.

TLC checks the level computation over every small graph (PortsMC); the real commands are run on
port trees (every graph TLC's small scope has, and larger random ones) and TLC judges each output
(PortsTrace)."""
import os, json, random, re, itertools, time
from core import *
import world

GLOBAL = {"L01": {"Failed", "Hangs", "Unreadable", "ListedOnce", "Collection", "LevelExact", "Order", "SortedByLevel", "UnknownReported"}}
SUBS = [".devel", ".lib", ".fr", ".man"]

def pkgfile(rnd, p, port):
    """The recipe, in one of the layouts a recipe can have."""
    deps = [d["full"] for d in port["deps"]]
    rnd.shuffle(deps)
    run = [d for d in deps if rnd.random() < .25]; mk = [d for d in deps if d not in run]
    out = ["# a recipe", "description=\"%s\"" % p, "url=http://x", "version=%s" % port["ver"]]
    if port["rel"] != 1 or rnd.random() < .3: out.append("release=%d" % port["rel"])
    def arr(k, ds):
        m = rnd.randrange(5)
        if not ds and rnd.random() < .6: return
        if m == 0: out.append("%s=(%s)" % (k, " ".join(ds)))
        elif m == 1: out.append("%s=(%s)" % (k, "\n ".join(ds)))
        elif m == 2: out.append("%s=(\n%s\n)" % (k, "\n".join(ds)))
        elif m == 3: out.append("%s=(%s)" % (k, " \\\n\t".join(ds)))
        else: out.append("%s=( %s )" % (k, "  ".join(ds)))
    arr("makedepends", mk); arr("run", run)
    if rnd.random() < .4: out.insert(rnd.randrange(1, len(out)), "packager=me") if rnd.random() < .1 else out.append("maintainer=me")
    out += ["", "build() {", "  make", "}"]
    return "\n".join(out) + "\n"

def setup(cell, rnd, t, colls, shadow=None):
    base = cell.path("/ports")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(cell.path("/etc"), exist_ok=True); os.makedirs(cell.path("/var/lib/pkg/DB"), exist_ok=True)
    with open(cell.path("/etc/cards.conf"), "w") as f:
        for c in colls: f.write("dir /ports/%s\n" % c)
    for c in colls: os.makedirs(os.path.join(base, c))
    for p, port in list(t.items()) + list((shadow or {}).items()):
        d = os.path.join(base, port["coll"], p); os.makedirs(d)
        with open(d + "/Pkgfile", "w") as f: f.write(pkgfile(rnd, p, port))
    for c in colls:      # what is no port
        if rnd.random() < .3: os.makedirs(os.path.join(base, c, "nothing"))
        if rnd.random() < .3: open(os.path.join(base, c, "README"), "w").close()

def parse(ask, out):
    rows = []
    bad = lambda l: {"k": "?", "l": 0, "coll": "", "name": l, "ver": "", "rel": 0, "dep": ""}
    for l in out.split("\n"):
        if not l or l.startswith("  dependencies ("): continue
        r = dict(bad(""), k="port")
        if ask == "level":
            m = re.match(r"(\d+): ([^/]+)/(\S+)$", l)
            w = re.match(r"WARNING (\S+) from (\S+) \((\S+)\)\s+NOT FOUND", l)
            if m: r.update(l=int(m[1]), coll=m[2], name=m[3])
            elif w: r.update(k="bad", name=w[2], dep=w[1], coll=w[3])
            else: r = bad(l)
        elif ask == "depends":
            m = re.match(r"(\d+): (\S+)$", l)
            if m: r.update(l=int(m[1]), name=m[2].rsplit(".", 1)[0])
            else: r = bad(l)
        elif ask == "deptree":
            m = re.match(r"( *)(\d+)\) (\S+?)( -->)?$", l)
            if m and len(m[1]) == 2 * int(m[2]): r.update(l=int(m[2]), name=m[3].rsplit(".", 1)[0])
            else: r = bad(l)
        else:
            m = re.match(r"\((\S+)\) (\S+) (\S+)-(\d+)$", l)
            if m: r.update(coll=m[1], name=m[2], ver=m[3], rel=int(m[4]))
            else: r = bad(l)
        rows.append(r)
    return rows

def ask(job):
    """All questions about one tree."""
    rnd = random.Random(job["seed"]); t = job["t"]
    cell = world.Cell(); cell.timeout = 10
    try:
        setup(cell, rnd, t, job["colls"], job.get("shadow"))
        out = []
        for a, arg in job["asks"]:
            rc, o, e = cell.run(["cards", a] + ([arg] if arg else []), cwd="/ports")
            out.append({"t": {p: dict(v, deps=v["deps"]) for p, v in t.items()}, "ask": a, "arg": arg or "", "rc": rc, "rows": parse(a, o)})
        return out
    finally: cell.destroy()

def asks(c, rnd, t, n):
    if c.id == "L01": return [("level", None)]
    ps = sorted(t); out = []
    for p in (ps if len(ps) <= n else rnd.sample(ps, n)):
        out += [("depends", p), ("deptree", p), ("dependent", p)]
    return out

def dep(rnd, q, sub=.25):
    return {"full": q + (rnd.choice(SUBS) if rnd.random() < sub else ""), "port": q}
def uniq(ds):
    seen = {}
    for d in ds: seen[d["full"]] = d
    return sorted(seen.values(), key=lambda d: d["full"])

def tree(rnd, g, colls, sub=.25):
    t = {}
    for p in g:
        ds = [dep(rnd, q, sub) for q in g[p]]
        for q in g[p]:
            if rnd.random() < sub * .4: ds.append(dep(rnd, q, 1))
        t[p] = {"coll": rnd.choice(colls), "ver": rnd.choice(["1.0", "2.3.4", "7b", "20240101", "1.0-rc1"]), "rel": rnd.choice([1, 1, 2, 13]), "deps": uniq(ds)}
    return t

def rnd_graph(rnd):
    n = rnd.choice([1, 2, 4, 6, 9, 14, 22, 40]); kind = rnd.choice(["dag", "dag", "dag", "chain", "layers", "diamond", "any", "sparse", "loop"])
    base = ["p%d" % i for i in range(n)] if rnd.random() < .4 else rnd.sample(["a", "aa", "a-b", "ab", "libx", "libx-y", "x11", "zz", "B", "C_d", "e+", "e++", "f", "gg", "h1", "h2", "h10", "i", "jj", "k", "l", "mm"] + ["q%d" % i for i in range(40)], n)
    rnd.shuffle(base)
    g = {p: set() for p in base}
    for i, p in enumerate(base):
        if kind == "chain" and i: g[p].add(base[i - 1])
        elif kind == "diamond" and i: g[p] |= set(base[max(0, i - 3):i])
        elif kind == "layers" and i: g[p] |= set(rnd.sample(base[:i], min(i, rnd.randrange(0, 3))))
        elif kind == "dag": g[p] |= {q for q in base[:i] if rnd.random() < 2.5 / (n + 1)}
        elif kind == "any": g[p] |= {q for q in base if rnd.random() < 1.6 / n}
        elif kind == "sparse": g[p] |= {q for q in base[:i] if rnd.random() < .7 / n}
        elif kind == "loop": g[p].add(base[i - 1])
    for p in base:
        if rnd.random() < .08: g[p].add(p)
        if rnd.random() < .12: g[p].add(rnd.choice(["nosuch", "missing-port"]))
    return g

def small(rnd, k, keep):
    """Every graph on k ports (with self loops and one unknown name), a share of them."""
    N = ["a", "b", "c", "d"][:k]
    T = N + ["u"]
    for m in range(2 ** (k * len(T))):
        if rnd.random() >= keep: continue
        yield {p: {q for j, q in enumerate(T) if m >> (i * len(T) + j) & 1} for i, p in enumerate(N)}

def jobs(c, salt, nbig, keep, nask):
    rnd = c.rnd(salt); out = []
    for g in [g for k in (1, 2, 3) for g in small(rnd, k, 1 if k < 3 else keep)] + [rnd_graph(rnd) for _ in range(nbig)]:
        colls = rnd.sample(["base", "cli", "gui", "cli-extra"], rnd.choice([1, 2, 3]))
        t = tree(rnd, g, colls, 0 if rnd.random() < .5 else .3)
        out.append({"t": t, "colls": colls, "seed": rnd.randrange(1 << 30), "asks": asks(c, rnd, t, nask)})
    return out

def validate(cases):
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    with open(f, "w") as h: json.dump(cases, h)
    rc, out = tlc("PortsTrace", "PortsTrace.cfg", env={"CASES": f}, mem="4g", timeout=1800, want=range(0, 256))
    shutil.rmtree(d)
    if rc == 0: return lines(out, "C")
    if len(cases) == 1: return [{"k": 1, "bad": ["Unreadable"]}]
    h = len(cases) // 2
    return validate(cases[:h]) + [dict(x, k=x["k"] + h) for x in validate(cases[h:])]
def vpart(part): return validate(part)

def brief(t):
    return "; ".join("%s<-%s" % (p, ",".join(d["full"] for d in v["deps"])) for p, v in sorted(t.items()) if v["deps"])[:200]

def judge(c, js, label):
    world.template(); t0 = time.time()
    res = pool_map(ask, js)
    flat = [(i, x) for i, r in enumerate(res) for x in r]
    t1 = time.time()
    n = 400
    parts = [[x for _, x in flat[b:b + n]] for b in range(0, len(flat), n)]
    V = [dict(v, k=v["k"] + b * n) for b, vs in enumerate(pool_map(vpart, parts, procs=6)) for v in vs]
    if len(V) != len(flat): raise ToolError("TLC judged %d of %d" % (len(V), len(flat)))
    c.count("traces_validated_against_impl", len(flat)); c.count("trees", len(js))
    for _, x in flat: c.hist("outputs", x["ask"])
    c.log("%s: %d trees, %d outputs in %.1fs, judged in %.1fs" % (label, len(js), len(flat), t1 - t0, time.time() - t1))
    done = set()
    for v in sorted(V, key=lambda v: (len(flat[v["k"] - 1][1]["t"]), v["k"])):
        if not v["bad"]: continue
        i, x = flat[v["k"] - 1]
        key = "%s/%s" % (x["ask"], "+".join(sorted(v["bad"])))
        if key in done: continue
        done.add(key)
        report(c, dict(js[i], asks=[(x["ask"], x["arg"])]))
    if js: c.sample({"kind": label, "trees": [brief(j["t"]) for j in js[-3:]]})

def report(c, job):
    for x in ask(job):
        bad = validate([x])[0]["bad"]
        if bad:
            c.violation("%s/%s" % (x["ask"], "+".join(sorted(bad))), "cards %s %s: %s on %s (exit %d, %d lines)" % (x["ask"], x["arg"], ",".join(bad), brief(x["t"]), x["rc"], len(x["rows"])), {"job": job})

def run(c):
    c.assumptions = ["port names carry no dot (x.sub as a dependency means a part of the port x)", "recipes in the layouts of the driver, each port in one collection"]
    c.mc("PortsMC", "PortsMC.cfg", workers=8)
    c.mc("PortsMC", "PortsMC_four.cfg", workers=8)
    if c.quick:
        judge(c, jobs(c, "q", 500 if c.id == "L01" else 160, .35 if c.id == "L01" else .05, 8), "trees")
    else:
        t = os.path.join(scratch(), "four.cfg"); x = open(os.path.join(SPEC, "PortsMC_four.cfg")).read()
        open(t, "w").write(x.replace("Self = FALSE", "Self = TRUE").replace("PROPERTY Ends", "")); c.mc("PortsMC", t, workers=8, timeout=7200, mem="16g")
        for k in range(60):
            if c.viol or c.left() < 4.5 * 3600: break
            judge(c, jobs(c, "t%d" % k, 1500, 1.0 if k == 0 else .1, 12), "round %d" % k)

def replay(c, data):
    c.count("traces_validated_against_impl"); j = data["job"]; report(c, dict(j, asks=[tuple(a) for a in j["asks"]]))
