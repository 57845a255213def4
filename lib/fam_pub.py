"""C06, C11: publishing and verifying collections, and what clients read out of an index,
decided with spec/RepoPub.tla.

TLC explores every history of a small publisher and client (RepoPubMC); the real `cards repo',
`keys', `sync', `list', `info', `files', `query' and `search' run on generated collections and
indices, and TLC judges every recorded command (RepoPubTrace)."""
import os, json, random, time, copy, hashlib, gzip, calendar, re, string
from core import *
import world, repoworld as rw, confs

GLOBAL = {
 "C06": {"Hangs", "Crashes", "Index", "Once", "Lists", "Packed", "AcceptedUnknown", "PublishFailed", "Meddles", "NotReported", "WronglyReported", "Keys", "SyncFailed", "NotEqual", "InfoFailed", "InfoUnknown", "Fields", "Lists2", "Sizes"},
 "C11": {"Hangs", "Crashes", "ListAll", "ListSets", "InfoSet", "FilesOf", "Query", "Search", "InfoFailed", "InfoUnknown", "Fields", "Lists2", "Sizes"},
}
WORDS = ["Small", "fast", "library", "for", "the X", "Window", "System", "a tool", "GNU", "editor", "of", "http://x.org", "c++", "@home", "#1", "r1", "N", "100%", "Mesa", "caf\u00e9", "(old)", "a b", "H", "--", "'q'", "=", "|", "gui"]
NAMES = ["a", "b", "ab", "abc", "b-c", "lib", "lib-x", "gtk+", "x11", "MesaLib", "zz", "python3", "c", "d1", "1up", "e_e"]
PATHS = ["usr/bin/%s", "usr/lib/lib%s.so", "usr/share/%s/read me", "usr/share/%s/data@2x.png", "etc/%s.conf", "usr/include/%s.h", "usr/lib/%s/x.cards-1", "boot/%s", "usr/share/%s/\u00e9t\u00e9", "opt/%s/#1"]

class Gen:
    def __init__(self, seed, pid):
        self.rnd, self.pid, self.ser, self.seed = random.Random(seed), pid, 0, seed
        self.bytes = {}
    def phrase(self): return " ".join(self.rnd.choice(WORDS) for _ in range(self.rnd.choice([1, 1, 2, 3, 5])))
    def lines(self, n, ver, rel, coll, group, nls, pool):
        rnd = self.rnd
        one = [("V", ver), ("r", str(rel)), ("B", str(rw.T0 + rnd.randrange(1 << 22)))]
        if rnd.random() < .9: one.append(("S", str(rnd.choice([0, 7, 1023, 1024, 1025, 5000, 10239, 1 << 20, (1 << 20) - 1, 123456789, (1 << 30) + 1024 * 77, rnd.randrange(1 << 28)]))))
        if rnd.random() < .9: one.append(("a", "x86_64"))
        if rnd.random() < .8: one.append(("c", coll))
        p = .25 if group or nls else .75
        for k in "DUCMPL":
            if rnd.random() < p: one.append((k, self.phrase()))
        if rnd.random() < .03: one.append(("D", self.phrase()))
        if group: one.append(("g", group))
        if nls: one.append(("n", nls))
        many = []
        for k, vs in (("A", ["al1", "al2", n.upper(), "a"]), ("s", ["s1", "s2", "gui", "full-set", coll]), ("T", ["web", "net", "Games"]), ("o", ["x"]), ("l", ["libx.so.1", "liby.so.2"])):
            for v in vs:
                if rnd.random() < .25: many.append((k, v))
        for q in pool:
            if rnd.random() < .3: many.append(("R", "%s%010d" % (q, rw.T0 + rnd.randrange(9))))
        head = [("N", n)]
        if rnd.random() < .4: rnd.shuffle(one)
        rest = one + many
        if rnd.random() < .2: rnd.shuffle(rest)
        return [list(x) for x in head + rest]
    def arc(self, n, coll, group, nls, pool, build=True):
        rnd = self.rnd; self.ser += 1
        ver = rnd.choice(["1.0", "1.1", "2.0-rc1", "20240101", "7"]); rel = rnd.choice([1, 1, 2, 10])
        ls = self.lines(n, ver, rel, coll, group, nls, pool)
        files = [f % n for f in PATHS if rnd.random() < .4]
        dirs = sorted({"/".join(f.split("/")[:i]) + "/" for f in files for i in range(1, f.count("/") + 1)})
        a = {"id": "c%x.%d" % (self.seed, self.ser), "lines": ls, "files": dirs + files, "fn": "%s.cards-%s-x86_64-%d.tar.gz" % (n, ver, rel), "ok": True}
        if build:
            ents = [{"p": d[:-1], "n": {"t": "d", "m": "755"}} for d in dirs] + [{"p": f, "n": {"t": "f", "c": a["id"] + f, "m": "644", "tm": "1000000000"}} for f in files]
            p = os.path.join(scratch(), "pa-%d" % os.getpid())
            world.write_archive(p, {"meta": [k + v for k, v in ls], "ents": ents, "post": n if rnd.random() < .5 else "", "probe": "/x", "nonl": rnd.random() < .1}, "tar")
            b = gzip.compress(open(p, "rb").read(), 1, mtime=0)
        else: b = a["id"].encode()
        self.bytes[a["id"]] = b; a["size"] = len(b) if build else rnd.choice([0, 5, 1023, 1024, 99999, 1 << 20, rnd.randrange(1 << 29), (1 << 30) + 1024])
        return a
    def collections(self, build=True):
        rnd = self.rnd
        colls = rnd.sample(["gui", "cli", "base", "cli-extra"], rnd.choice([1, 2, 2, 3])); arcs = {}
        for c in colls:
            arcs[c] = {}
            names = rnd.sample(NAMES, rnd.choice([0, 1, 2, 3, 5]) if rnd.random() < .9 else 8)
            for n in names:
                a = self.arc(n, c, "", "", [q for q in names if rnd.random() < .5], build); arcs[c][a["fn"]] = a
                for s in ("devel", "fr", "doc"):
                    if rnd.random() < .25:
                        g, l = ("", "fr") if s == "fr" else (s, "fr" if rnd.random() < .25 else "")
                        a = self.arc(n + "." + s, c, g, l, [n] if rnd.random() < .5 else [], build); arcs[c][a["fn"]] = a
        return colls, arcs

def tl(s):
    return [{"k": l[:1], "v": l[1:]} for l in s.split("\n")[:-1]] if s else []
def tf(s):
    return [{"k": "", "v": ""} if l == "" else {"k": "@", "v": l[1:]} if l[0] == "@" and ".cards-" in l and not "/" in l else {"k": "f", "v": l} for l in s.split("\n")[:-1]] if s else []
def dec(b): return b.decode(errors="surrogateescape") if b is not None else None
def unzst(b):
    f = os.path.join(scratch(), "u-%d" % os.getpid())
    open(f + ".zst", "wb").write(b)
    r = subprocess.run(["zstd", "-q", "-d", "-f", f + ".zst", "-o", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return open(f, "rb").read() if r.returncode == 0 else None

class World:
    def __init__(self, job):
        self.g = Gen(job["seed"], job["pid"]); self.cell = world.Cell(); self.cell.timeout = 10
        self.kind = job["kind"]; g = self.g
        self.ids, self.sigs, self.rsig, self.nkeys = {}, {}, {}, 0
        self.colls, self.arcs = g.collections(self.kind == "pub")
        self.priv = "pub"; self.pkey = {c: "pub" for c in self.colls}
        self.db = []
        rw.write(self.cell.path("/var/lib/pkg/nutyx-version"), "version %s\n" % rw.VER)
        for c in self.colls:
            os.makedirs(self.cell.path(rw.depot(c)), exist_ok=True)
            if self.kind == "pub":
                os.makedirs(self.cell.path(rw.remote(c)), exist_ok=True)
                self.put_pkey(c)
                for fn, a in self.arcs[c].items(): self.put(c, fn, a)
        if self.kind == "pub": self.put_priv()
        else: self.texts()
        names = sorted({a["lines"][0][1] for c in self.arcs.values() for a in c.values()})
        for n in names:
            if g.rnd.random() < .3: self.db.append(n); rw.put_db(self.cell, n, {"ver": "1", "rel": 1, "build": 1, "deps": [], "coll": "", "group": "", "nls": "", "sets": [], "alias": [], "id": "x", "auto": False})
        self.snap = {k: copy.deepcopy(getattr(self, k)) for k in ("colls",)}
    # keys
    def keyfile(self, k, ext): return "%s/%s.%s" % (rw.keys(), k, ext) if k in rw.KEYS else os.path.join(scratch(), "gk-%d-%s.%s" % (os.getpid(), k, ext))
    def put_priv(self):
        rw.write(self.cell.path("/keys/.private.key"), open(self.keyfile(self.priv, "pem"), "rb").read())
    def put_pkey(self, c): rw.write(self.cell.path(rw.remote(c) + "/.PKEY"), open(self.keyfile(self.pkey[c], "pub"), "rb").read())
    def put(self, c, fn, a): rw.write(self.cell.path(rw.remote(c) + "/" + fn), self.g.bytes[a["id"]])
    def signature(self, h, k):
        if k in rw.KEYS: return rw.sign(h, k)
        f = os.path.join(scratch(), "gs-%d" % os.getpid()); open(f, "wb").write(bytes.fromhex(h))
        r = subprocess.run(["openssl", "pkeyutl", "-sign", "-rawin", "-inkey", self.keyfile(k, "pem"), "-in", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return r.stdout.hex()
    def learn(self, keys):
        """what the hashes and signatures that can occur stand for"""
        for i, b in self.g.bytes.items():
            h = hashlib.sha512(b).hexdigest(); self.ids[h] = i
            for k in keys:
                if (i, k) not in self.sigs: self.sigs[(i, k)] = self.signature(h, k)
        self.rsig = {s: "%s:%s" % (k, i) for (i, k), s in self.sigs.items()}
    def plain(self, lines):
        if self.kind != "pub": return lines
        for l in lines:
            if l["k"] == "H": l["v"] = self.ids.get(l["v"], "?" + l["v"][:8])
            elif l["k"] == "I": l["v"] = self.rsig.get(l["v"], "?" + l["v"][:8])
        return lines
    # a client's index out of nothing
    def texts(self):
        rnd = self.g.rnd
        self.learn(("pub",)) if self.kind == "pub" else None
        for c in self.colls:
            t, f = [], []
            for fn in sorted(self.arcs[c], key=lambda x: rnd.random()) if rnd.random() < .5 else sorted(self.arcs[c]):
                a = self.arcs[c][fn]
                t += ["@" + fn] + [k + v for k, v in a["lines"]]
                if rnd.random() < .9: t.append("H" + a["id"])
                if rnd.random() < .9: t.append("I" + a["id"] + "s")
                t += ["i%d" % a["size"], ""]
                f += ["@" + fn] + a["files"] + [""]
            if rnd.random() < .07: continue        # not there yet
            rw.write(self.cell.path(rw.depot(c) + "/.REPO"), "".join(x + "\n" for x in t)); rw.write(self.cell.path(rw.depot(c) + "/.FILES"), "".join(x + "\n" for x in f))
    def conf(self, side):
        out = []
        if side == "client": out += ["dir %s | file:///remote" % rw.depot(c) if self.kind == "pub" else "dir " + rw.depot(c) for c in self.colls]
        else:
            out += ["dir " + rw.remote(c) for c in self.colls]
            if side == "publish": out.append("keypath /keys")
        rw.write(self.cell.path("/etc/cards.conf"), confs.vary("".join(l + "\n" for l in out), self.g.rnd))
    def publisher(self):
        p = {"colls": self.colls, "arcs": {c: {fn: {"id": a["id"], "size": a["size"], "lines": [{"k": k, "v": v} for k, v in a["lines"]], "files": a["files"]} for fn, a in self.read_arcs(c).items()} for c in self.colls},
             "pub": {}, "fil": {}, "packed": {}, "priv": self.priv, "pkey": dict(self.pkey)}
        for c in self.colls:
            d = self.cell.path(rw.remote(c)); t = rw.rd(d + "/.REPO"); f = rw.rd(d + "/.FILES"); z = rw.rd(d + "/.REPO.zst"); zf = rw.rd(d + "/.FILES.zst")
            p["pub"][c] = self.plain(tl(dec(t or b""))); p["fil"][c] = tf(dec(f or b""))
            p["packed"][c] = z is not None and zf is not None and unzst(z) == t and unzst(zf) == f
        return p
    def read_arcs(self, c):
        """the archives as they are: what was put there, or something else"""
        d = self.cell.path(rw.remote(c)); out = {}
        for f in sorted(os.listdir(d)):
            if f.startswith("."): continue
            b = rw.rd(d + "/" + f); a = self.arcs[c].get(f)
            if a and self.g.bytes[a["id"]] == b: out[f] = a
            else: out[f] = {"id": "?" + hashlib.sha1(b).hexdigest()[:8], "size": len(b), "lines": [], "files": []}
        return out
    def client(self):
        w = {"colls": self.colls, "idx": {}, "fil": {}}
        for c in self.colls:
            d = self.cell.path(rw.depot(c)); t = rw.rd(d + "/.REPO"); f = rw.rd(d + "/.FILES")
            if t is not None: w["idx"][c] = self.plain(tl(dec(t)))
            if f is not None: w["fil"][c] = tf(dec(f))
        return w
    # what happens between commands
    def event(self, e):
        g = self.g; rnd = g.rnd; c = rnd.choice(self.colls)
        if e == "keys":
            self.priv = rnd.choice(rw.KEYS); self.put_priv()
            for c in self.colls:
                if rnd.random() < .8: self.pkey[c] = self.priv; self.put_pkey(c)
        elif e == "add":
            have = {a["lines"][0][1] for a in self.arcs[c].values()}; free = [n for n in NAMES if n not in have]
            if not free: return
            a = g.arc(rnd.choice(free), c, "", "", sorted(have)[:2]); self.arcs[c][a["fn"]] = a; self.put(c, a["fn"], a)
        elif self.arcs[c]:
            fn = rnd.choice(sorted(self.arcs[c])); a = self.arcs[c][fn]
            if e == "drop": os.unlink(self.cell.path(rw.remote(c) + "/" + fn)); del self.arcs[c][fn]
            elif e == "replace":
                b = g.arc(a["lines"][0][1], c, next((v for k, v in a["lines"] if k == "g"), ""), next((v for k, v in a["lines"] if k == "n"), ""), [])
                b["fn"] = fn; self.arcs[c][fn] = b; self.put(c, fn, b)
            elif e == "alter":
                g.ser += 1; x = dict(a, id="c%x.%d" % (g.seed, g.ser), ok=False); o = g.bytes[a["id"]]
                g.bytes[x["id"]] = rnd.choice([o[:-30], o + b"x", b"junk", b"", o[:-9] + bytes([o[-9] ^ 1]) + o[-8:] if len(o) > 9 else b"z"]); x["size"] = len(g.bytes[x["id"]])
                self.arcs[c][fn] = x; self.put(c, fn, x)
    def mend(self):
        """only archives in a collection that is published"""
        for c in self.colls:
            for fn, a in list(self.arcs[c].items()):
                if not a["ok"]: os.unlink(self.cell.path(rw.remote(c) + "/" + fn)); del self.arcs[c][fn]
    def sizes(self, n):
        for c in self.colls:
            t = tl(dec(rw.rd(self.cell.path(rw.depot(c)) + "/.REPO") or b"")); cur = {}
            for l in t:
                if l["k"] == "@": cur = {}
                elif l["k"] == "": 
                    if cur.get("N") == n: return int(cur.get("i", 0)), int(cur.get("S", 0))
                else: cur[l["k"]] = l["v"]
        return 0, 0
    def ops(self):
        rnd = self.g.rnd
        names = sorted({a["lines"][0][1] for c in self.arcs.values() for a in c.values()})
        def query():
            k = rnd.choice(["info", "info", "info", "listb", "lists", "infos", "files", "query", "search", "search"] if self.g.pid == "C11" else ["info", "info", "info", "info", "listb", "files"])
            n = rnd.choice(names) if names and rnd.random() < .93 else rnd.choice(["nosuch", "al1", "s1", "a.cards-1.0"])
            if k == "info": return {"k": k, "x": n}
            if k == "infos": return {"k": k, "x": rnd.choice(["s1", "s2", "gui", "full-set", "cli", "base", "nosuch"])}
            if k == "files": return {"k": k, "x": n}
            if k == "query":
                f = rnd.choice([f for c in self.arcs.values() for a in c.values() for f in a["files"]] or ["usr/"])
                s = "/" + f; at = rnd.random() < .3; to = rnd.random() < .3
                i = 0 if at else rnd.randrange(len(s)); j = len(s) if to else min(len(s), i + rnd.randrange(1, 9))
                return {"k": k, "pat": {"s": s[i:j], "at": at, "to": to}} if not any(ch in "+(){}[]|?*^$\\.-" for ch in s[i:j]) and not s[i:j].startswith(" ") else {"k": k, "pat": {"s": "/", "at": at, "to": to}}
            if k == "search":
                x = rnd.choice([rnd.choice(WORDS), rnd.choice(names or ["x"])[:rnd.randrange(1, 4)], rnd.choice(["s1", "web", "1.", "cli", "gui", "GNU", "MESA", "games", "full"])])
                x = x.strip("-'").encode("ascii", "ignore").decode() or "a"
                return {"k": k, "x": x, "names": rnd.random() < .3}
            return {"k": k}
        if self.kind != "pub": return [query() for _ in range(10)]
        out = [{"k": "publish", "c": ""}] if rnd.random() < .8 else []
        for _ in range(rnd.randrange(3, 8)):
            x = rnd.random()
            if x < .4: out.append({"k": "event", "e": rnd.choice(["keys", "add", "drop", "replace", "replace", "alter", "alter"])})
            elif x < .58: out.append({"k": "publish", "c": rnd.choice(["", "", rnd.choice(self.colls), rnd.choice(["nosuch"] + self.colls)])})
            elif x < .82: out.append({"k": "verify", "c": rnd.choice(["", "", rnd.choice(self.colls)])})
            elif x < .86: out.append({"k": "keys"})
            else: out += [{"k": "sync"}] + [query() for _ in range(2)]
        if rnd.random() < .5: out += [{"k": "publish", "c": ""}, {"k": "verify", "c": ""}, {"k": "sync"}] + [query() for _ in range(3)]
        return out
    def run(self, op):
        k = op["k"]; cell = self.cell
        if k == "publish": self.mend()
        side = {"publish": "publish", "keys": "publish", "verify": "verify"}.get(k, "client")
        self.conf(side)
        if side != "client" or k == "sync": self.learn(rw.KEYS + tuple({self.priv} | set(self.pkey.values())))
        x = {"op": op, "p": self.publisher() if side != "client" or k == "sync" else {}, "w": self.client() if side == "client" and k != "sync" else {}, "out": {}, "post": {}, "db": self.db, "low": {}}
        cwd = "/"
        if k == "publish": a, uid = ["cards", "repo"] + ([op["c"]] if op["c"] else []), 1000
        elif k == "verify": a, uid = ["cards", "repo"] + ([op["c"]] if op["c"] else []), 1000
        elif k == "keys": a, uid, cwd = ["cards", "keys"], 1000, rw.remote(self.colls[0])
        elif k == "sync": a, uid = ["cards", "sync"], 0
        elif k == "info": a, uid = ["cards", "info", "-b", op["x"]], 1000
        elif k == "listb": a, uid = ["cards", "list", "-b"], 1000
        elif k == "lists": a, uid = ["cards", "list", "-S"], 1000
        elif k == "infos": a, uid = ["cards", "info", "-S", op["x"]], 1000
        elif k == "files": a, uid = ["cards", "files", "-b", op["x"]], 1000
        elif k == "query":
            p = op["pat"]; a, uid = ["cards", "query", "-b", ("^" if p["at"] else "") + p["s"] + ("$" if p["to"] else "")], 1000
        else: a, uid = ["cards", "search"] + (["-n"] if op["names"] else []) + [op["x"]], 1000
        rc, o, e = cell.run(a, cwd=cwd, uid=uid, env={"TZ": "UTC"})
        x["rc"] = rc; x["argv"] = a; x["err"] = e[-600:]
        if k == "keys":
            pem, pk = rw.rd(cell.path("/keys/.private.key")), rw.rd(cell.path(rw.remote(self.colls[0]) + "/.PKEY"))
            self.nkeys += 1; n = "gen%d-%d" % (self.nkeys, os.getpid()); self.priv = n; self.pkey[self.colls[0]] = n
            open(self.keyfile(n, "pem"), "wb").write(pem or b""); open(self.keyfile(n, "pub"), "wb").write(pk or b"")
            r = subprocess.run(["openssl", "pkey", "-in", self.keyfile(n, "pem"), "-pubout"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            x["out"] = {"pair": r.returncode == 0 and r.stdout == pk, "mode": "%o" % (os.stat(cell.path("/keys/.private.key")).st_mode & 0o777) if pem is not None else ""}
        elif k in ("publish", "verify"):
            x["post"] = self.publisher()
            if k == "verify": x["out"] = {"wrong": [re.match(r"Package (.*): Wrong signature", l.split("\b")[-1]).group(1) for l in o.split("\n") if "Wrong signature" in l]}
            else: x["p"]["priv"] = self.priv
        elif k == "sync": x["out"] = self.client()
        elif k == "info": x["out"] = info_fields(o, self); op["size"], op["space"] = self.sizes(op["x"])
        elif k == "search":
            x["out"] = [{"t": l.replace("\033[1;32m", "").replace("\033[1;0m", ""), "inst": "\033[1;32m" in l} for l in o.split("\n")[:-1]]
            low = set([op["x"]])
            for t in x["w"]["idx"].values(): low |= {l["v"] for l in t if l["k"] in "NDUPVcsT"}
            low |= set(self.colls)
            x["low"] = {s: "".join(ch.lower() if ch in string.ascii_uppercase else ch for ch in s) for s in low if s}
        elif k == "query": x["out"] = [r for l in o.split("\n")[1:-1] for r in [[l.split()[0], l.split()[1], l[l.index("/"):]]]] if o.startswith("Collection") else []
        else: x["out"] = o.split("\n")[:-1]
        return x

LABELS = ["Name", "Alias", "Description", "Archive name", "Group", "Categories", "Collection", "Sets", "URL", "License", "Version", "Release", "Build date", "Hashsum", "Signature", "Archive Size", "Installed Size",
          "Maintainer(s)", "Packager", "Contributor(s)", "Arch", "Binary URL", "Local folder", "Dependencies"]
MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
def info_fields(o, W):
    out = {}
    for l in o.split("\n")[:-1]:
        lab, _, v = l.partition(":"); lab = lab.strip()
        if lab not in LABELS: out["?" + l] = ""; continue
        if lab in out: out["?twice " + lab] = ""
        if lab in ("Alias", "Categories", "Sets", "Dependencies"): out[lab] = v.split(); continue
        v = v[1:]
        if lab == "Build date":
            f = v.split()
            try: h, m, s = f[3].split(":"); v = str(calendar.timegm((int(f[4]), MONTHS.index(f[1]) + 1, int(f[2]), int(h), int(m), int(s))))
            except (IndexError, ValueError): pass
        elif lab == "Hashsum": v = W.ids.get(v, v)
        elif lab == "Signature": v = getattr(W, "rsig", {}).get(v, v)
        elif lab.endswith("Size"): v = v[:-5] if v.endswith("bytes") else "?" + v
        out[lab] = v
    return out

def history(job):
    W = World(job); out = []
    try:
        ops = W.ops()
        for k, op in enumerate(ops):
            if op["k"] == "event": W.event(op["e"]); continue
            x = W.run(op); x["job"] = job; x["step"] = k
            out.append(x)
            if x["rc"] == 997 or x["rc"] > 128 or x["rc"] < 0: break
        return out
    finally: W.cell.destroy()

def validate(cases):
    d = tempfile.mkdtemp(dir=scratch()); f = os.path.join(d, "c.json")
    with open(f, "w") as h: json.dump([{k: v for k, v in x.items() if k not in ("job", "err", "argv", "step")} for x in cases], h)
    rc, out = tlc("RepoPubTrace", "RepoPubTrace.cfg", env={"CASES": f}, mem="4g", timeout=1800, want=range(0, 256))
    shutil.rmtree(d)
    v = lines(out, "C")
    if rc == 0 and len(v) == len(cases): return v
    if len(cases) == 1: return [{"k": 1, "bad": ["Unreadable"], "why": out[-1500:]}]
    h = len(cases) // 2
    return validate(cases[:h]) + [dict(x, k=x["k"] + h) for x in validate(cases[h:])]

def jobs(c, salt, n):
    rnd = c.rnd(salt)
    return [{"seed": rnd.randrange(1 << 40), "pid": c.id, "kind": "pub" if rnd.random() < (.7 if c.id == "C06" else .15) else "cat"} for _ in range(n)]

def judge(c, js, label):
    world.template(); rw.keys(); t0 = time.time()
    res = pool_map(history, js)
    flat = [x for r in res for x in r]
    t1 = time.time(); n = max(60, min(300, len(flat) // 8 + 1))
    V = [dict(v, k=v["k"] + b * n) for b, vs in enumerate(pool_map(validate, [flat[b:b + n] for b in range(0, len(flat), n)])) for v in vs]
    if len(V) != len(flat): raise ToolError("TLC judged %d of %d" % (len(V), len(flat)))
    c.count("traces_validated_against_impl", len(flat)); c.count("histories", len(js))
    for x in flat: c.hist("commands", x["op"]["k"] + ("" if x["rc"] == 0 else "!"))
    c.log("%s: %d histories, %d commands in %.1fs, judged in %.1fs" % (label, len(js), len(flat), t1 - t0, time.time() - t1))
    done = set(); want = GLOBAL[c.id] | {"Unreadable"}
    for v in sorted(V, key=lambda v: (len(json.dumps(flat[v["k"] - 1]["w"])) + len(json.dumps(flat[v["k"] - 1]["p"])), v["k"])):
        bad = set(v["bad"]) & want
        if "Unreadable" in v["bad"]: c.log("TLC could not judge:", v.get("why", "")[-600:])
        if not bad: continue
        x = flat[v["k"] - 1]; key = "%s/%s" % (x["op"]["k"], "+".join(sorted(bad)))
        if key in done: continue
        done.add(key); report(c, key, bad, x)
    if js: c.sample({"kind": label, "commands": [" ".join(x["argv"]) for x in flat[:6]]})
    return flat, V

def report(c, key, bad, x):
    c.violation(key, "%s: %s (exit %d) %s" % (" ".join(x["argv"]), ",".join(sorted(bad)), x["rc"], x["err"][-150:].strip().replace("\n", " / ")), {"job": x["job"], "step": x["step"]})

def run(c):
    c.assumptions = ["archives are directly in the collection's directory, one per package name and collection", "metadata values without line ends"]
    c.mc("RepoPubMC", "RepoPubMC.cfg" if c.quick else "RepoPubMC3.cfg", workers=8)
    if c.quick: judge(c, jobs(c, "q", 900 if c.id == "C06" else 700), "collections")
    else:
        for k in range(200):
            if c.viol or c.left() < 300: break
            judge(c, jobs(c, "t%d" % k, 2500), "round %d" % k)

def replay(c, data):
    world.template(); rw.keys(); x = history(data["job"])
    c.count("traces_validated_against_impl", len(x))
    for i, v in enumerate(validate(x)):
        bad = set(v["bad"]) & GLOBAL[c.id]
        print(x[i]["argv"], x[i]["rc"], v["bad"], x[i]["err"][-300:])
        if bad: report(c, "%s/%s" % (x[i]["op"]["k"], "+".join(sorted(bad))), bad, x[i])
