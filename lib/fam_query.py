"""P16: what pkginfo answers, decided with spec/PkgQuery.tla.

TLC generates histories (PkgDbGen); after every step the real pkginfo is asked, and TLC judges
the answers against the recorded database; further databases are written directly."""
import os, json, random, re, time, calendar
from core import *
import pkgdb, world, fam_pkg

WRONG = [[], ["-z"], ["-i", "-n"], ["-l"], ["-o", "x", "-l", "pa"], ["-i", "-o", "x"], ["-f", "/pk/q", "-n"], ["-r"]]
DET = {"Name": "name", "Description": "desc", "Alias": "alias", "Categories": "categories", "Sets": "sets", "Group": "group", "Collection": "coll",
       "URL": "url", "License": "license", "Contributor(s)": "contributors", "Packager": "packager", "Version": "ver", "Release": "rel", "Build date": "build",
       "Installed date": None, "Installed Size": "size", "Arch": "arch", "Man. installed": "auto", "Dependencies": "deps", "Architecture": "arch"}
MODES = {"-": "f", "d": "d", "l": "l"}

def epoch(s):
    return str(calendar.timegm(time.strptime(s, "%a %b %d %H:%M:%S %Y")))

def mode_of(s):
    m = 0
    for i, (r, w, x, sp) in enumerate(((0o400, 0o200, 0o100, 0o4000), (0o40, 0o20, 0o10, 0o2000), (4, 2, 1, 0o1000))):
        a, b, c = s[3 * i:3 * i + 3]
        if a == "r": m |= r
        if b == "w": m |= w
        if c in "xst": m |= x
        if c in "sStT": m |= sp
    return "%o" % m

def parse(q, out):
    """pkginfo's output as the records spec/PkgQuery.tla speaks of."""
    k = q["k"]; L = out.split("\n")
    if L and L[-1] == "": L.pop()
    raw = [{"raw": out[:400]}]
    try:
        if k == "installed":
            r = []
            for l in L:
                m = re.match(r"(AUTO| MAN): \((.*?)\) (\S+) (.*)-(\d+)$", l)
                r.append({"auto": m.group(1) == "AUTO", "coll": m.group(2), "name": m.group(3), "ver": m.group(4), "rel": m.group(5)})
            return r
        if k == "number": return L
        if k in ("list", "listarc", "meta", "build"): return L
        if k == "owner":
            if L == ["pkginfo: no owner(s) found"]: return []
            w1 = L[0].index("Package"); w2 = L[0].index("File")
            assert L[0][:w1].strip() == "Collection"
            return [{"coll": l[:w1].rstrip(), "name": l[w1:w2].rstrip(), "file": l[w2:]} for l in L[1:]]
        if k in ("details", "archive"):
            if not L: return []
            d = {"alias": [], "categories": [], "sets": [], "deps": [], "group": ""} if k == "details" else {"deps": []}
            seen = set()
            for l in L:
                if k == "archive":
                    nm, l = l.split(" : ", 1)
                    assert d.setdefault("name", nm) == nm
                lab, v = re.match(r"(\S[\w. ()]*?) *: ?(.*)$", l).groups()
                assert lab in DET and lab not in seen; seen.add(lab)
                key = DET[lab]
                if key is None: continue
                if key in ("alias", "categories", "sets", "deps"): v = v.split()
                elif key == "auto": v = {"Yes": False, "No": True}[v]
                elif key == "size":
                    m = re.match(r" *([\d.]+) ?([KMG]?)bytes$", v)
                    d["unit"] = m.group(2); v = int(round(float(m.group(1)) * (100 if m.group(2) else 1)))
                elif key == "build" and k == "details": v = epoch(v)
                d[key] = v
            return [d]
        if k == "footprint":
            r = []
            for l in L:
                md, ug, p = l.split("\t", 2)
                assert ug == "0/0" or ug == "root/root"
                x = {"t": MODES[md[0]], "m": mode_of(md[1:]), "to": "", "empty": False}
                if x["t"] == "l": p, x["to"] = p.split(" -> ", 1)
                elif x["t"] == "f" and p.endswith(" (EMPTY)"): p = p[:-8]; x["empty"] = True
                x["p"] = p; r.append(x)
            return r
        return []
    except Exception:
        return raw

OPT = {"installed": ("-i", "--installed"), "number": ("-n", "--number"), "list": ("-l", "--list"), "owner": ("-o", "--owner"), "details": ("-d", "--details"),
       "build": ("-b", "--buildtime"), "archive": ("-a", "--archive"), "meta": ("-m", "--meta"), "listarc": ("-l", "--list"), "footprint": ("-f", "--footprint")}

def ask(s, q, n=0):
    """Put a question to the real pkginfo in session s."""
    cell = s.cell
    fn = None
    if q["k"] == "wrong": args = list(WRONG[q["arg"] % len(WRONG)])
    else:
        args = [OPT[q["k"]][n % 2]]
        if "arc" in q:
            fn = "/pk/q%d.cards.tar.%s" % (n, q["comp"]); world.write_archive(cell.path(fn), q["arc"], q["comp"])
            args.append(fn)
        elif q["k"] == "owner":
            args.append(q["pat"]["s"] if q["pat"]["k"] == "bad" else pkgdb.rx(q["pat"]))
        elif "arg" in q: args.append(q["arg"])
    rootarg = s.argv_root({"cmd": "q", "q": q}) if "arc" not in q else []
    rc, o, e = cell.run(["pkginfo"] + (rootarg + args if n % 3 else args + rootarg), cwd=s.root, uid=1000 if n % 4 == 3 and q["k"] not in ("wrong",) else 0)
    if fn and os.path.exists(cell.path(fn)): os.unlink(cell.path(fn))
    return {"q": q, "rc": rc, "lines": parse(q, o) if rc == 0 else [], "err": e[-200:]}

def strip(st):
    return {"db": st["db"], "fs": {p: n for p, n in st["fs"].items() if p not in JUNK}, "log": st["log"]}
JUNK = {".PRE", ".META", ".MTREE", ".POST", ".PRER", ".POSTR", ".INFO", ".README"}

def questions(rnd, st, arcs, comps, num):
    db = st["db"]; names = sorted(db)
    files = sorted({f for r in db.values() for f in r["files"]})
    al = sorted({a for r in db.values() for a in r["alias"]})
    who = names + al + ["nope", "pa", "p", "pa-alia"]
    pats = [{"k": "all", "s": ""}, {"k": "bad", "s": rnd.choice(["[x", "(", "a[b"])}, {"k": "sub", "s": "/"}, {"k": "prefix", "s": "/"}, {"k": "prefix", "s": "opt"}, {"k": "sub", "s": "//"}]
    for f in rnd.sample(files, min(5, len(files))) + ["opt/nope"]:
        pats += [{"k": "exact", "s": "/" + f}, {"k": "exact", "s": f}, {"k": "prefix", "s": "/" + f[:max(1, len(f) // 2)]}, {"k": "suffix", "s": f[-3:]},
                 {"k": "suffix", "s": "/" + f.rsplit("/", 1)[-1]}, {"k": "sub", "s": f[1:4]}]
    Q = [{"k": "installed"}, {"k": "number"}]
    for k in ("list", "details", "build"):
        for w in rnd.sample(who, min(3, len(who))): Q.append({"k": k, "arg": w})
        for a in rnd.sample(al, min(1, len(al))): Q.append({"k": k, "arg": a})
    Q += [{"k": "owner", "pat": p} for p in rnd.sample(pats, min(4, len(pats)))]
    good = [a for a in arcs if a["bad"] not in ("missing",)]
    for k in ("archive", "meta", "listarc", "footprint"):
        for a in rnd.sample(good, min(1, len(good))):
            if a["bad"] == "trunc" or k == "footprint" and a["bad"] in ("noname", "nometa", "nomtree"): continue
            Q.append({"k": k, "arc": a, "comp": rnd.choice(comps)})
    Q.append({"k": "wrong", "arg": rnd.randrange(100)})
    if len(Q) > num: Q = rnd.sample(Q, num)
    return Q

def rich(rnd, db):
    """Variations of recorded metadata: fields absent, long, odd characters, sizes."""
    out = {}
    for n, r in db.items():
        m = [l for l in r["meta"] if l[0] not in "AS" and rnd.random() < .85]
        if rnd.random() < .4: m = [l for l in m if l[0] != "r"]
        m = [l for l in m if l[0] not in "DUL"] + [rnd.choice(["Da: b : c", "D" + "long " * 40 + "x", "Dd1", "Duni \u00e9"]), "Uhttp://h/a?b=c&d", "L" + rnd.choice(["GPL, MIT", "x: y"])]
        if rnd.random() < .6: m.append("S%d" % rnd.choice([0, 7, 1023, 1024, 1025, 5000, 1048575, 1048576, 3333333, 19999999]))
        if rnd.random() < .5: m.append("C" + rnd.choice(["some one <a@b>", "d1"]))
        for t in ("kde", "app"):
            if rnd.random() < .3: m.append("T" + t)
        if rnd.random() < .4: m.append("g" + rnd.choice(["lib", "devel"]))
        for d in ("r-dep", "x1234567890y", "libq"):
            if rnd.random() < .3 and not any(l.startswith("R" + d) for l in m): m.append("R%s%d" % (d, 1600000000 + rnd.randrange(9)))
        al = sorted({a for a in ["common", n + "2", rnd.choice(sorted(db))] if rnd.random() < .4} - {n})
        m += ["A" + a for a in al]
        out[n] = dict(r, meta=sorted(set(m)), alias=al, auto=rnd.random() < .5)
    return out

def one(job):
    """job: (trace, archives, comps, seed, num) -> cases [{db, qs}]"""
    tr, arcs, comps, seed, num = job
    rnd = random.Random(seed)
    s = pkgdb.Session(tr["root"], tr["rules"], tr.get("setup", ()), tr.get("spell", False))
    cases = []
    def inquire(qs=None):
        pre = s.state()
        if any(set(r["meta"]) & {"<odd>"} for r in pre["db"].values()): return
        qs = qs or questions(rnd, pre, arcs, comps, num)
        rs = [ask(s, q, rnd.randrange(12)) for q in qs]
        same = strip(s.state()) == strip(pre)
        for x in rs: x["same"] = same
        cases.append({"db": pre["db"], "qs": rs})
    try:
        if "load" in tr: s.load(tr["load"])
        for i, op in enumerate(tr["ops"]):
            s.do(op)
            if i % 2 or i == len(tr["ops"]) - 1: inquire()
        if num and not tr.get("plain"):
            db = s.state()["db"]
            if db:
                s2 = pkgdb.Session(tr["root"], ())
                try:
                    s2.load({"fs": {}, "rules": [], "db": rich(rnd, db)})
                    s, s1 = s2, s
                    try: inquire()
                    finally: s = s1
                finally: s2.close()
        return cases
    finally: s.close()

def validate(cases):
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    feed = [{"db": c["db"], "qs": [{k: v for k, v in x.items() if k != "err"} for x in c["qs"]]} for c in cases]
    with open(f, "w") as h: json.dump(feed, h)
    rc, out = tlc("PkgQueryTrace", "PkgQueryTrace.cfg", workers=8, env={"CASES": f}, mem="6g", timeout=1800, want=range(0, 256))
    shutil.rmtree(d)
    if rc == 0: return lines(out, "Q")
    if len(cases) == 1:
        if len(cases[0]["qs"]) == 1: return [{"k": 1, "j": 1, "bad": ["Unreadable"], "out": out[-1500:]}]
        r = []
        for j, q in enumerate(cases[0]["qs"]):
            for x in validate([{"db": cases[0]["db"], "qs": [q]}]): r.append(dict(x, j=j + 1))
        return r
    h = len(cases) // 2
    return validate(cases[:h]) + [dict(x, k=x["k"] + h) for x in validate(cases[h:])]

def keyof(q, bad):
    return "%s/%s" % (q["k"], "+".join(sorted(bad)))

def say(x):
    q = x["q"]
    return "pkginfo %s %s -> %d %s" % (OPT.get(q["k"], ("?",))[0], q.get("arg", (q.get("pat") or {}).get("s", (q.get("arc") or {}).get("name", ""))), x["rc"], json.dumps(x["lines"])[:300])

def judge(c, jobs, label):
    world.template()
    res = pool_map(one, jobs)
    cases = [x for r in res for x in r]
    c.log("%s: %d histories, %d databases asked" % (label, len(jobs), len(cases)))
    V = validate(cases)
    n = sum(len(x["qs"]) for x in cases)
    if len(V) != n: raise ToolError("TLC judged %d of %d answers" % (len(V), n))
    c.count("traces_validated_against_impl", len(jobs)); c.count("answers_validated", n)
    for x in cases:
        for q in x["qs"]: c.hist("queries", q["q"]["k"] + ("" if q["rc"] == 0 else "!"))
    done = set()
    for v in V:
        if not v["bad"]: continue
        cs = cases[v["k"] - 1]; x = cs["qs"][v["j"] - 1]
        key = keyof(x["q"], v["bad"])
        if key in done: continue
        if redo(c, cs["db"], x["q"]): done.add(key)
        else: c.count("unreproduced")
    if cases: c.sample({"kind": label, "asked": [say(x) for x in cases[0]["qs"]][:6]})

def redo(c, db, q):
    """Ask again on a freshly written database; report if the answer is still wrong."""
    for root in ("/", "/mnt/r/"):
        s = pkgdb.Session(root, ())
        try:
            s.load({"fs": {}, "rules": [], "db": db})
            for n in range(4):
                pre = s.state()
                x = ask(s, q, n); x["same"] = strip(s.state()) == strip(pre)
                v = validate([{"db": pre["db"], "qs": [x]}])[0]
                if v["bad"]:
                    c.violation(keyof(q, v["bad"]), "%s: %s; database: %s" % (say(x), ",".join(v["bad"]), json.dumps({k: [r["meta"], r["files"]] for k, r in db.items()})[:600]),
                                {"db": db, "q": q})
                    return True
        finally: s.close()
    return False

def jobs_for(c, depth, num, qn, roots):
    rnd = c.rnd("uni")
    unis = []
    for fl in ("alias", "base", "share", "alias"):
        for root in roots:
            for _ in range(2): unis.append(pkgdb.mk_universe(rnd, fl, root))
    tr = fam_pkg.generate(c, unis, depth, num, "q%d" % c.seed)
    jobs = []
    for i, t in enumerate(tr):
        arcs = [op["arc"] for op in t["ops"] if op["cmd"] == "pkgadd"]
        jobs.append((t, arcs, ["gz", "xz", "tar", "zst"], "%d/%d" % (c.seed, i), qn))
    return jobs

def run(c):
    c.assumptions = ["metadata fields that may occur once occur once; dates are read in the C locale and UTC; the queries about shared libraries (-L, -R, --runtime*) are not covered"]
    c.mc("PkgQueryMC", "PkgQueryMC.cfg", workers=8)
    if c.quick:
        judge(c, jobs_for(c, 10, 160, 12, ["/", "/mnt/r/"]), "generated")
    else:
        seed = c.seed
        for k in range(60):
            if c.viol or c.left() < 4.5 * 3600: break
            c.seed = seed * 1000 + k
            judge(c, jobs_for(c, 16, 400, 22, ["/", "/mnt/r/"]), "round %d" % k)
        c.seed = seed

def replay(c, data):
    c.count("traces_validated_against_impl")
    redo(c, data["db"], data["q"])
