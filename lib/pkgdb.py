"""PkgDb family: universes, replay of operation sequences, recording."""
import os, random, json, re, zlib
from world import *

RX = {"bad": lambda s: s, "all": lambda s: ".*", "prefix": lambda s: "^" + re.escape(s).replace("\\/", "/"),
      "suffix": lambda s: re.escape(s).replace("\\/", "/") + "$",
      "exact": lambda s: "^" + re.escape(s).replace("\\/", "/") + "$", "sub": lambda s: re.escape(s).replace("\\/", "/")}
def rx(pat):
    return RX[pat["k"]](pat["s"])
BADLINES = {"few": "UPGRADE ^x$", "many": "UPGRADE ^x$ NO NO", "event": "UPGRAD ^x$ NO", "action": "INSTALL ^x$ MAYBE",
            "long": "UPGRADE ^%s$ NO" % ("x" * 1100), "lower": "upgrade ^x$ NO"}
def rules_text(rules):
    out = ["# rules written by the driver", ""]
    for i, r in enumerate(rules):
        if r["ev"] == "BAD":
            out.append(BADLINES[r["pat"]["k"]]); continue
        sep = " " if i % 2 else "\t\t"
        out.append(r["ev"] + sep + rx(r["pat"]) + sep + ("YES" if r["act"] else "NO"))
    return "\n".join(out) + "\n"

def strip_rec(r):
    """Record in the shape the spec compares; oddities become visible as extra meta lines."""
    meta = list(r["meta"])
    for k in ("odd", "nometa", "nofiles"):
        if r.get(k): meta.append("<%s>" % k)
    for x in r.get("extra", []): meta.append("<extra:%s>" % x)
    return {"meta": meta, "auto": r["auto"], "files": r["files"], "alias": r["alias"], "prer": r["prer"], "postr": r["postr"], "probe": r["probe"]}

class Session:
    """One real system under one target root."""
    def __init__(self, root="/", rules=(), setup=(), spell=False):
        self.root = root
        self.cell = Cell([root] if root != "/" else ["/"])
        self.pre = root if root != "/" else ""
        self.set_rules(rules)
        self.n = 0
        self.trig = []
        os.makedirs(self.cell.path("/pk"), exist_ok=True)
        self.spell = spell
        for op in setup: self.do(op)
        if root != "/":
            # canaries on the host side of an alternate root; its rules are not the rules of that root
            rnd = random.Random(json.dumps([rules, setup], sort_keys=True))
            p = self.cell.path(CONF); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f: f.write("UPGRADE .* NO\nINSTALL opt/.* NO\nINSTALL .*[a-m]$ NO\nLDCONF .* YES\nINFO .* YES\n" if rnd.random() < .8 else "")
            for f in (".META", ".MTREE", ".PRE", ".POST", ".README", ".INFO", "opt/x", "etc/a.conf"):
                p = self.cell.path("/" + f); os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as h: h.write("host " + f + "\n")
            os.makedirs(self.cell.path("/" + DB), exist_ok=True)
            self.host0 = self.hosttree()
    def hosttree(self):
        t = self.cell.tree("/", skip=("pk", self.root.strip("/")))
        return {k: (v["t"], v["c"], v["m"]) for k, v in t.items()}
    def rp(self, p): return self.cell.path(self.pre + p)
    def set_rules(self, rules):
        self.rules = list(rules)
        p = self.cell.path(self.pre + CONF)
        # no rules at all: an empty file and a missing one mean the same
        if not rules and self.root != "/" and os.path.exists(p): os.unlink(p)
        if rules or self.root == "/":
            with open(p, "w") as f: f.write(rules_text(rules))
    def state(self):
        skip = {DB, CONF, "slog", "tlog", "pk", "lib", "lib64", "dev", "tmp", "usr/lib", "usr/bin/pkgadd", "usr/bin/pkgrm", "usr/bin/pkginfo", "usr/bin/cards", "proc"}
        fs = self.cell.tree(self.root, skip=skip)
        db = {k: strip_rec(v) for k, v in self.cell.db(self.root).items()}
        if self.root != "/" and self.hosttree() != self.host0:
            h = self.hosttree()
            d = sorted(set(k for k in set(h) | set(self.host0) if h.get(k) != self.host0.get(k)))
            fs["<host changed: %s>" % ",".join(d[:6])] = {"t": "?", "c": "", "m": "", "tm": ""}
        miss = [p for p, v in self.cell.base.items() if not os.path.lexists(os.path.join(self.cell.dir, p))]
        for p in miss: fs["<base file gone: %s>" % p] = {"t": "?", "c": "", "m": "", "tm": ""}
        return {"db": db, "fs": fs, "log": read_slog(self.cell, self.root), "rules": self.rules, "trig": self.trig}
    SPELL = ("/mnt/r", "/mnt/r/", ".", "../r", "./", "/mnt/../mnt/r")
    def argv_root(self, op):
        if self.root == "/": return []
        if not self.spell: return ["-r", "/mnt/r"]
        h = zlib.crc32(json.dumps(op, sort_keys=True).encode())
        return ["-r" if h % 3 else "--root", self.SPELL[h % len(self.SPELL)]]
    def read_trig(self):
        p = self.rp("tlog"); out = set()
        if os.path.exists(p):
            for l in open(p):
                l = l.rstrip("\n")
                m = re.match(r"(usr/bin/ldconfig -r) (\S+)$", l)
                if m and os.path.normpath(os.path.join("/" + self.root, m.group(2))).lstrip("/") == self.root.strip("/"):
                    l = m.group(1) + " ROOT"
                out.add(l)
            os.unlink(p)
        return sorted(out)
    def cmdline(self, op):
        """argv, the archive written for it, and how to run it."""
        c = op["cmd"]; how = op.get("how", "ok")
        kw = {"cwd": self.root, "uid": 1000 if how == "nonroot" else 0}
        hx = {"badopt": ["-x"], "extra": ["zzz"]}.get(how, [])
        if c == "pkgadd":
            self.n += 1
            a = op["arc"]
            comp = op.get("comp", "gz")
            fn = "/pk/%s%d.cards.tar.%s" % (a["name"] or "x", self.n, comp)
            write_archive(self.cell.path(fn), a, comp)
            fl = [f for f, k in (("-u", "u"), ("-f", "f"), ("-i", "i")) if op[k]]
            return ["pkgadd"] + self.argv_root(op) + fl + hx + ([fn] if how != "noarg" else []), self.cell.path(fn), kw
        if c == "pkgrm":
            return ["pkgrm"] + self.argv_root(op) + hx + ([op["name"]] if how != "noarg" else []), None, kw
        return ["pkginfo"] + self.argv_root(op) + op.get("args", ["-i"]), None, kw
    def do(self, op, env=None, extra=()):
        """Execute one operation; returns exit code (0/1, others as they come)."""
        c = op["cmd"]
        if c != "user":
            av, fn, kw = self.cmdline(op)
            rc, o, e = self.cell.run(av + list(extra), env=env, **kw)
            if fn and os.path.exists(fn): os.unlink(fn)
        else:
            rc, o, e = 0, "", ""
            if op["act"] == "write":
                n = op["node"]; p = self.rp(op["path"])
                d = os.path.dirname(p)
                self.mkdirs(d)
                if os.path.lexists(p) and not os.path.isdir(p): os.unlink(p)
                if n["t"] == "l": os.symlink(n["c"], p)
                elif n["t"] == "d": os.makedirs(p, exist_ok=True); os.chmod(p, int(n["m"], 8))
                else:
                    with open(p, "wb") as f: f.write(content_of(n["c"]))
                    os.chmod(p, int(n["m"], 8)); os.utime(p, (int(n["tm"]), int(n["tm"])))
            elif op["act"] == "delete":
                p = self.rp(op["path"])
                if os.path.lexists(p): os.unlink(p)
            elif op["act"] == "rules":
                self.set_rules(op["rules"])
        self.last = (o, e)
        self.trig = self.read_trig() if c != "user" else []
        return rc
    def load(self, st):
        """Put the system into an abstract state (records and files, on top of the empty root)."""
        self.set_rules(st["rules"])
        fs = st["fs"] or {}
        for p in sorted(fs):
            if fs[p]["c"] == "tmpl": continue
            if p == ".PRE":   # what an aborted install left
                with open(self.rp(p), "w") as f: f.write(script("pre", fs[p]["c"], "e/a"))
                continue
            self.do({"cmd": "user", "act": "write", "path": p, "node": fs[p]})
        for n, r in (st["db"] or {}).items():
            d = self.rp(DB + "/" + n); os.makedirs(d)
            with open(d + "/META", "w") as f: f.write("".join(l + "\n" for l in sorted(list(r["meta"]) + (["d1"] if r["auto"] else []))))
            with open(d + "/files", "w") as f: f.write("".join(l + "\n" for l in sorted(r["files"])))
            for k, fn in (("prer", "PRER"), ("postr", "POSTR")):
                if r[k]:
                    with open(d + "/" + fn, "w") as f: f.write(script(k, r[k], r["probe"]))
    def mkdirs(self, d):
        todo = []
        while not os.path.isdir(d): todo.append(d); d = os.path.dirname(d)
        for x in reversed(todo): os.mkdir(x); os.chmod(x, 0o755)
    def close(self): self.cell.destroy()

def replay(trace, **kw):
    """trace: {root, rules, ops:[...], setup?, load?}; returns recorded {init, steps:[{op,rc,post}]}"""
    s = Session(trace["root"], trace["rules"], trace.get("setup", ()), trace.get("spell", False))
    try:
        if "load" in trace: s.load(trace["load"])
        out = {"init": s.state(), "steps": []}
        for op in trace["ops"]:
            rc = s.do(op)
            out["steps"].append({"op": op, "rc": rc, "post": s.state()})
        return out
    finally:
        s.close()

# ---------------------------------------------------------------- universes
FILES = ["etc/a.conf", "etc/b.conf", "opt/x", "opt/y", "opt/s/z", "srv/w", "etc/rc.d/net"]
MORE = ["opt/with space", "opt/xx", "opt/x+y", "opt/[b]", "top", "opt/s/t/u/deep", "etc.d/x", "opt/x.so.1", "opt/-dash", "opt/.META",
        "opt/" + "n" * 130, "opt/a'q", 'opt/q"q', "srv/$v", "opt/x;y", "opt/*", "opt/back\\slash", "var/lib/pkgs/f"]
LINKS = ["opt/l"]
NAMES = ["pa", "pb", "pc"]
TRIG = {  # event -> path stem, helper
    "LDCONF": ("usr/lo/ld/", "ldconfig"), "INFO": ("usr/share/info/", "install-info"),
    "ICONS": ("usr/share/icons/", "gtk-update-icon-cache"), "FONTS": ("usr/share/fonts/", "mkfontscale mkfontdir fc-cache"),
    "SCHEMAS": ("usr/share/glib/", "glib-compile-schemas"), "DESKTOP_DB": ("usr/share/applications/", "update-desktop-database"),
    "MIME_DB": ("usr/share/mime/", "update-mime-database"), "QUERY_PIXBUF": ("usr/lo/gdk/", "gdk-pixbuf-query-loaders"),
    "GIO_QUERY": ("usr/lo/gio/", "gio-querymodules"), "QUERY_IMOD3": ("usr/lo/g3/", "gtk-query-immodules-3.0"),
    "QUERY_IMOD2": ("usr/lo/g2/", "gtk-query-immodules-2.0")}
BADS = ["missing", "notar", "empty", "noname", "nometa", "nomtree", "trunc"]
FL = {  # flavours: knobs of the universe builder
    "base": {}, "conf": {"up": 3, "edits": 6, "same": .5}, "excl": {"ins": 3}, "scr": {"scripts": .75}, "trig": {"trig": True, "ins": 1},
    "bad": {"bads": 5, "hows": True, "badrules": True}, "share": {"nfiles": 5, "dens": .6}, "alias": {"alias": True},
}

def mk_archive(rnd, name, ver, files, K, bad="none", arch=None):
    mine = [p for p in files if rnd.random() < K.get("dens", .42)] or [rnd.choice(files)]
    need = set()
    for p in mine:
        while "/" in p:
            p = p.rsplit("/", 1)[0]; need.add(p)
    need -= {d for d in need if d.startswith("var")}
    ents = []
    dirs = sorted({p.rsplit("/", k)[0] for p in files for k in range(1, p.count("/") + 1)} - {"var", "var/lib", "var/lib/pkg"})
    extra = {d for d in dirs if rnd.random() < .15}
    for d in list(extra):
        while "/" in d: d = d.rsplit("/", 1)[0]; extra.add(d)
    extra -= {d for d in extra if d.startswith("var")}
    for d in sorted(need | extra):
        if rnd.random() < .85:
            ents.append({"p": d, "n": {"t": "d", "c": "", "m": rnd.choice(["755", "755", "755", "700", "1777"]), "tm": ""}})
    if rnd.random() < .1: ents.append({"p": "opt/empty" if "opt" in dirs else "emptydir", "n": {"t": "d", "c": "", "m": "755", "tm": ""}})
    same = K.get("same", .3)
    regs = []
    for p in mine:
        if p in LINKS and rnd.random() < .8:
            ents.append({"p": p, "n": {"t": "l", "c": rnd.choice(["x", "y", "nowhere", "/opt/x"]), "m": "777", "tm": ""}})
            continue
        if regs and K.get("hard") and rnd.random() < .25:
            ents.append({"p": p, "n": {"t": "h", "c": rnd.choice(regs), "m": "", "tm": ""}}); continue
        c = rnd.choice(["same:" + p, "%s:%s" % (name, p), ""]) if rnd.random() < same else \
            rnd.choice(["%s.%s:%s" % (name, ver, p), "%s.%s:%s#%d" % (name, ver, p, rnd.choice([9, 3000, 8192, 20000, 70000]))])
        ents.append({"p": p, "n": {"t": "f", "c": c, "m": rnd.choice(["644", "644", "644", "755", "600", "4755", "444"]), "tm": str(1000000000 + rnd.randrange(1000))}})
        regs.append(p)
    arch = arch or rnd.choice(["native"] * 5 + ["any"])
    al = []
    meta = ["N" + name, "V" + ver, "r%d" % rnd.choice([1, 1, 2, 10]), "a" + {"native": NATIVE, "any": "any", "other": "z80"}[arch], "Ddesc of " + name,
            "B17000000%02d" % rnd.randrange(100), "c" + rnd.choice(["base", "xorg"]), "Uhttp://x", "Mme", "Pme", "Lgpl", "S%d" % rnd.randrange(9999)]
    for d in ("libq", "libz", "pa", "pb"):
        if d != name and rnd.random() < .25: meta.append("R%s1600000000" % d)
    for s in ("cli", "gui"):
        if rnd.random() < .2: meta.append("s" + s)
    if rnd.random() < .25: al = [name + "-alias"]
    if K.get("alias") and rnd.random() < .5: al.append(rnd.choice([n for n in NAMES if n != name]))
    meta += ["A" + x for x in al]
    tok = lambda k: "%s.%s.%s:%s" % (k, name, ver, rnd.choice(["fail", "kill", "ok", "ok", "ok", "ok", "ok"])) if rnd.random() < K.get("scripts", .25) else ""
    return {"name": name, "meta": sorted(set(meta)), "arch": arch, "alias": sorted(al), "ents": ents, "probe": rnd.choice([f for f in mine if "'" not in f] or ["opt/x"]),
            "pre": tok("pre"), "post": tok("post"), "prer": tok("prer"), "postr": tok("postr"), "bad": bad, "nonl": rnd.random() < .2}

def mk_pats(rnd, files):
    out = [{"k": "prefix", "s": "etc/"}, {"k": "suffix", "s": ".conf"}, {"k": "sub", "s": "pt/"}, {"k": "all", "s": ""}]
    for f in files:
        if re.search(r"\s", f): continue
        out.append({"k": "exact", "s": f})
        if "/" in f: out.append({"k": "prefix", "s": f.rsplit("/", 1)[0] + "/"})
        out.append({"k": "suffix", "s": f[-1]})
        out.append({"k": "prefix", "s": f[:max(1, len(f) // 2)]})
    return out

def mk_rules(rnd, files, K):
    pats = mk_pats(rnd, files); out = []
    for _ in range(rnd.randrange(0, 2 + K.get("up", 1))):
        out.append({"ev": "UPGRADE", "pat": rnd.choice(pats), "act": rnd.random() < .35})
    if K.get("up") and rnd.random() < .7: out.insert(0, {"ev": "UPGRADE", "pat": rnd.choice(pats[:4]), "act": False})
    for _ in range(rnd.randrange(0, 2 + K.get("ins", 0))):
        if K.get("ins") or rnd.random() < .4:
            out.append({"ev": "INSTALL", "pat": rnd.choice([p for p in pats if p["k"] != "all"]), "act": rnd.random() < .3})
    if K.get("trig"):
        for ev, (stem, _) in TRIG.items():
            if rnd.random() < .6: out.append({"ev": ev, "pat": {"k": "prefix", "s": stem}, "act": rnd.random() < .8})
            if rnd.random() < .3: out.append({"ev": ev, "pat": rnd.choice(pats), "act": rnd.random() < .6})
            if rnd.random() < .2: out.append({"ev": ev, "pat": {"k": "suffix", "s": "x"}, "act": rnd.random() < .4})
    if rnd.random() < .5: rnd.shuffle(out)
    return out

def mk_universe(rnd, flavour="base", root="/"):
    K = dict(FL[flavour])
    K["hard"] = not K.get("up") and not K.get("badrules") and rnd.random() < .4
    nf = K.get("nfiles", 8)
    files = rnd.sample(FILES, min(nf, 5)) + (rnd.sample(MORE, 3) if rnd.random() < .7 else [])
    if rnd.random() < .6: files.append("opt/l")
    setup = []
    if K.get("trig"):
        files = rnd.sample(FILES, 3)
        for ev, (stem, tools) in TRIG.items():
            if rnd.random() < .7: files += [stem + "a", stem + "d/x"]
            some = rnd.choice([.3, .75])
            for t in tools.split():
                if rnd.random() < some:
                    tp = "usr/bin/" + t
                    setup.append({"cmd": "user", "act": "write", "path": tp, "node": {"t": "f", "c": "tool:" + tp, "m": "755", "tm": "1000000000"}})
        if rnd.random() < .75:
            setup.append({"cmd": "user", "act": "write", "path": "etc/ld.so.conf", "node": {"t": "f", "c": "", "m": "644", "tm": "1000000000"}})
    rules = mk_rules(rnd, files, K)
    if K.get("hard"): rules = [r for r in rules if r["ev"] not in ("UPGRADE", "INSTALL")]
    arcs = [mk_archive(rnd, n, v, files, K) for n in NAMES for v in ("1", "2")]
    for b in rnd.sample(BADS, min(len(BADS), K.get("bads", 1))):
        arcs.append(mk_archive(rnd, rnd.choice(NAMES), "3", files, K, bad=b))
    arcs.append(mk_archive(rnd, rnd.choice(NAMES), "4", files, K, arch="other"))
    user = []
    for _ in range(K.get("edits", 4)):
        p = rnd.choice(files)
        n = {"t": "f", "c": rnd.choice(["user:" + p, "same:" + p, ""]), "m": rnd.choice(["644", "600", "755"]), "tm": "1500000000"}
        if rnd.random() < .15: n = {"t": "l", "c": rnd.choice(["x", "elsewhere"]), "m": "777", "tm": ""}
        user.append({"cmd": "user", "act": "write", "path": p, "node": n})
    for _ in range(2): user.append({"cmd": "user", "act": "delete", "path": rnd.choice(files)})
    user.append({"cmd": "user", "act": "rules", "rules": [r for r in mk_rules(rnd, files, K) if not (K.get("hard") and r["ev"] in ("UPGRADE", "INSTALL"))]})
    user.append({"cmd": "query"})
    if K.get("badrules"):
        for _ in range(2):
            r = mk_rules(rnd, files, K)
            b = rnd.choice([{"ev": "BAD", "pat": {"k": rnd.choice(list(BADLINES)), "s": ""}, "act": False},
                            {"ev": rnd.choice(["UPGRADE", "INSTALL", "INFO"]), "pat": {"k": "bad", "s": rnd.choice(["[x", "(", "a[b"])}, "act": False}])
            r.insert(rnd.randrange(len(r) + 1), b)
            user.append({"cmd": "user", "act": "rules", "rules": r})
        user.append({"cmd": "user", "act": "rules", "rules": rules})
    s = Session(root, rules, setup); fs = s.state()["fs"]; s.close()
    return {"root": root, "rules": rules, "fs": fs, "archives": arcs, "names": NAMES + ["nope", "pa-alias"], "user": user, "setup": setup,
            "comps": rnd.sample(["gz", "gz", "xz", "bz2", "zst", "tar"], 2), "hows": K.get("hows", False)}
