"""C10: configuration files (spec/RepoConf.tla) and precedence among ports (spec/Ports.tla)."""
import os, json, random, time
from core import *
import world, fam_ports

GAP = [" ", " ", "\t", "  ", " \t", "\t\t "]
def gap(rnd): return rnd.choice(GAP)
def indent(rnd): return rnd.choice(["", "", "", "", " ", "\t", " \t "])
def end(rnd): return rnd.choice(["", "", "", "", " ", "\t", "# note", " # dir /no/where", "  #", "\t# url http://no"])
def noise(rnd): return rnd.choice(["", "", "#", "# comment", " # dir /x/y", "   ", "\t", "#url http://nowhere", "## group fr"])
def bar(rnd): return rnd.choice(["|", " | ", "\t|\t", "| ", " |", "  |\t"])

def vary(text, rnd):
    """The same configuration written down differently."""
    out = []
    for l in text.split("\n"):
        if not l.strip() or l.startswith("#"): out.append(l); continue
        k, v = l.split(" ", 1)
        if "|" in v: a, b = v.split("|"); v = a.strip() + bar(rnd) + b.strip()
        while rnd.random() < .2: out.append(noise(rnd))
        out.append(indent(rnd) + k + gap(rnd) + v + end(rnd))
    return "\n".join(out).rstrip("\n") + "\n"

DIRS = ["/var/lib/pkg/depot/%s", "/depot/%s", "/a/b/c/%s", "/srv/x-y/%s", "/%s"]
URLS = ["http://downloads.nutyx.org", "ftp://h.org:21/p", "file:///remote", "https://x/y/z", "u"]
COLLS = ["base", "base-extra", "cli", "cli-extra", "gui", "kde5", "a"]
def text(rnd):
    n = rnd.choice([0, 1, 2, 3, 4, 6, 9]); out = []
    for _ in range(n):
        k = rnd.choice(["dir", "dir", "dir", "collection", "collection", "depot", "url", "group", "group", "locale", "logdir", "keypath", "odd", "version", "arch", "name"])
        if k == "dir":
            v = rnd.choice(DIRS) % rnd.choice(COLLS)
            if rnd.random() < .4: v += bar(rnd) + rnd.choice(URLS)
        elif k == "collection": v = rnd.choice(COLLS)
        elif k == "depot": v = rnd.choice(["/var/lib/pkg/depot", "/d", "/srv/p q".replace(" ", "_")])
        elif k == "url": v = rnd.choice(URLS)
        elif k in ("group", "locale"): v = rnd.choice(["fr", "devel", "man", "lib", "de"])
        elif k == "version": v = rnd.choice(["rolling", "24.10"])
        elif k == "odd": k = rnd.choice(["dirs", "directory", "DIR", "urls", "groups", "dir:", "collections", "x"]); v = rnd.choice(["/x/y", "z", "/d/cli | u"])
        else: v = rnd.choice(["/var/log/pkg", "/k", "x86_64"])
        while rnd.random() < .25: out.append(noise(rnd))
        if rnd.random() < .04: out.append(indent(rnd) + k + rnd.choice(["", " ", "\t"])); continue     # a key without a value
        out.append(indent(rnd) + k + gap(rnd) + v + end(rnd))
    vs = [noise(rnd) for _ in range(rnd.randrange(2))] + ([indent(rnd) + "version" + gap(rnd) + rnd.choice(["rolling", "development", "11.2"]) + end(rnd)] if rnd.random() < .9 else [])
    return out, vs

def ask(job):
    cell = world.Cell(); cell.timeout = 10; out = []
    try:
        for seed in job["seeds"]:
            rnd = random.Random(seed); ls, vs = text(rnd)
            os.makedirs(cell.path("/etc"), exist_ok=True)
            for p, t in (("/etc/cards.conf", ls), ("/var/lib/pkg/nutyx-version", vs)):
                with open(cell.path(p), "w") as f: f.write("\n".join(t) + ("\n" if t and rnd.random() < .85 else ""))
            rc, o, e = cell.run(["cards", "config"], uid=rnd.choice([0, 1000]))
            out.append({"ls": ls, "vs": vs, "arch": os.uname().machine, "rc": rc, "out": o.split("\n")[:-1], "seed": seed})
        return out
    finally: cell.destroy()

def validate(cases):
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    with open(f, "w") as h: json.dump(cases, h)
    rc, out = tlc("RepoConfTrace", "RepoConfTrace.cfg", env={"CASES": f}, mem="3g", timeout=900, want=range(0, 256))
    shutil.rmtree(d); v = lines(out, "C")
    if rc != 0 or len(v) != len(cases): raise ToolError("configuration files: TLC judged %d of %d: %s" % (len(v), len(cases), out[-600:]))
    return v

def configs(c, salt, n):
    world.template(); rnd = c.rnd(salt); t0 = time.time()
    js = [{"seeds": [rnd.randrange(1 << 40) for _ in range(25)]} for _ in range(n // 25)]
    flat = [x for r in pool_map(ask, js) for x in r]
    m = max(60, min(400, len(flat) // 8 + 1))
    V = [dict(v, k=v["k"] + b * m) for b, vs in enumerate(pool_map(validate, [flat[b:b + m] for b in range(0, len(flat), m)])) for v in vs]
    c.count("traces_validated_against_impl", len(flat)); c.count("configurations", len(flat))
    c.log("configurations: %d in %.1fs" % (len(flat), time.time() - t0))
    for v in sorted(V, key=lambda v: len(flat[v["k"] - 1]["ls"])):
        if v["bad"]:
            x = flat[v["k"] - 1]; report(c, x, v["bad"]); break
def report(c, x, bad):
    c.violation("config/" + "+".join(bad), "cards config: %s (exit %d) for the file %s: shows %s" % (",".join(bad), x["rc"], json.dumps(x["ls"])[:300], json.dumps(x["out"])[:300]), {"conf": x["seed"]})

def shadows(c, salt, n):
    """Ports of the same name in several directories: the first one counts."""
    world.template(); rnd = c.rnd(salt); js = []
    for _ in range(n):
        g = fam_ports.rnd_graph(rnd)
        if len(g) > 14 or not g: continue
        colls = rnd.sample(["base", "cli", "gui", "cli-extra"], rnd.choice([2, 3]))
        t = fam_ports.tree(rnd, g, colls, 0); sh = {}
        for p in t:
            later = colls[colls.index(t[p]["coll"]) + 1:]
            if later and rnd.random() < .6:
                q = fam_ports.tree(rnd, {p: {x for x in t if rnd.random() < .3}}, [rnd.choice(later)], 0)[p]
                q["ver"] += ".9"; sh[p] = q
        if not sh: continue
        asks = [("level", None)] + [(a, p) for p in rnd.sample(sorted(t), min(2, len(t))) for a in ("depends", "dependent")]
        js.append({"t": t, "colls": colls, "seed": rnd.randrange(1 << 30), "asks": asks, "shadow": sh})
    t0 = time.time(); res = pool_map(fam_ports.ask, js)
    flat = [(i, x) for i, r in enumerate(res) for x in r]; m = max(60, len(flat) // 8 + 1)
    V = [dict(v, k=v["k"] + b * m) for b, vs in enumerate(pool_map(fam_ports.validate, [[x for _, x in flat[b:b + m]] for b in range(0, len(flat), m)])) for v in vs]
    c.count("traces_validated_against_impl", len(flat)); c.count("shadowed_port_trees", len(js))
    c.log("ports in several directories: %d trees, %d outputs in %.1fs" % (len(js), len(flat), time.time() - t0))
    for v in sorted(V, key=lambda v: len(flat[v["k"] - 1][1]["t"])):
        if v["bad"]:
            i, x = flat[v["k"] - 1]; sreport(c, dict(js[i], asks=[(x["ask"], x["arg"])]), x, v["bad"]); break
def sreport(c, job, x, bad):
    c.violation("ports/%s/%s" % (x["ask"], "+".join(sorted(bad))), "cards %s %s with ports of the same name in several directories: %s on %s" % (x["ask"], x["arg"], ",".join(bad), fam_ports.brief(x["t"])), {"ports": job})

def run(c):
    c.mc("RepoConfMC", "RepoConfMC.cfg", workers=8)
    configs(c, "conf", 2000 if c.quick else 30000); shadows(c, "shadow", 250 if c.quick else 4000)

def replay(c, data):
    world.template()
    if "conf" in data:
        for x in ask({"seeds": [data["conf"]]}):
            bad = validate([x])[0]["bad"]
            if bad: report(c, x, bad)
    else:
        j = data["ports"]
        for x in fam_ports.ask(dict(j, asks=[tuple(a) for a in j["asks"]])):
            bad = fam_ports.validate([x])[0]["bad"]
            if bad: sreport(c, j, x, bad)
