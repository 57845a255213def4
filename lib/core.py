"""One check run: verdict, known findings, evidence."""
import os, sys, json, time, random, hashlib, traceback
from common import *

class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.id = pid
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED") or 1)
        self.t0 = time.time()
        self.quick = self.tier == "quick"
        self.viol = []      # (key, what, replay path)
        self.knownhit = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.level = "model_checking"
        self.known = known_findings(pid)
    def rnd(self, *salt):
        return random.Random("%d/%s/%s" % (self.seed, self.id, "/".join(map(str, salt))))
    def log(self, *a):
        print("[%s %6.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)
    def left(self):
        """Seconds left of the run's budget."""
        return (600 if self.quick else 6 * 3600) - (time.time() - self.t0)
    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n
    def hist(self, k, item, n=1):
        d = self.cov.setdefault(k, {}); d[item] = d.get(item, 0) + n
    def sample(self, s, cap=4):
        if len(self.cov["samples"]) < cap: self.cov["samples"].append(s)
    def mc(self, module, cfg, **kw):
        """Exhaustive model check that must hold on the specification itself."""
        rc, out = tlc(module, cfg, **kw)
        g, d = tlc_stats(out)
        if not d: raise ToolError("no statistics from TLC on %s %s\n%s" % (module, cfg, out[-2000:]))
        self.count("states", d); self.count("transitions", g)
        self.hist("model_checked", "%s/%s" % (module, cfg), d)
        self.log("TLC %s %s: %d distinct states, %d transitions" % (module, cfg, d, g))
        return out
    def violation(self, key, what, replay):
        """key: stable identification of the failing input/call site/history."""
        if key in self.known:
            self.knownhit.setdefault(key, self.known[key])
            return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = json.dumps({"property": self.id, "key": key, "what": what, "data": replay}, indent=1, sort_keys=True, default=str)
        p = os.path.join("replays", "%s-%s.json" % (self.id, hashlib.sha256(body.encode()).hexdigest()[:12]))
        with open(os.path.join(VERIF, p), "w") as f: f.write(body + "\n")
        self.viol.append((key, what, p))
    def finish(self):
        for k, w in sorted(self.knownhit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.id, w))
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.id)
        with open(tmp, "w") as f: json.dump(ev, f, indent=1, sort_keys=True, default=str); f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", self.id + ".json"))
        seen = set()
        for key, what, p in self.viol:
            if key in seen: continue
            seen.add(key)
            if len(seen) > 10: break
            print("--", what)
            print("VIOLATION property=%s replay=%s" % (self.id, p))
        self.log("done: %d violation(s)" % len(self.viol))
        return 1 if self.viol else 0

def known_findings(pid):
    """key -> description, for the findings that are recorded, not repaired."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def lines(out, tag):
    """The records a specification printed with PrintT(tag \\o ToJson(..))."""
    r = []
    p = '"' + tag + " "
    for l in out.splitlines():
        if l.startswith(p): r.append(json.loads(json.loads(l)[len(tag) + 1:]))
    return r

def pool_map(fn, items, procs=8, chunk=None):
    """Parallel map; the first worker error is raised here."""
    from multiprocessing import get_context
    items = list(items)
    if not items: return []
    if len(items) == 1: return [fn(items[0])]
    p = get_context("fork").Pool(min(procs, len(items)), initializer=_worker)
    try:
        r = p.map(fn, items, chunksize=chunk or max(1, len(items) // (procs * 8)))
        p.close()
    except BaseException:
        p.terminate(); raise
    finally: p.join()
    return r

def _worker():
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP): signal.signal(s, signal.SIG_DFL)
