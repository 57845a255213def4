"""Repositories, depots and databases on disk, and what is read back of them (see spec/Repo.tla)."""
import functools, os, hashlib, subprocess, shutil, re, copy, tempfile
from common import scratch, ToolError
import random
import world, confs

T0 = 1700000000
VER = "rolling"
KEYS = ("pub", "other", "third")

def keys():
    """Two key pairs for this run: the publisher's and somebody else's."""
    d = os.path.join(scratch(), "keys")
    if not os.path.exists(d + "/done"):
        os.makedirs(d, exist_ok=True)
        for k in KEYS:
            for cmd in (["openssl", "genpkey", "-algorithm", "ed25519", "-out", "%s/%s.pem" % (d, k)],
                        ["openssl", "pkey", "-in", "%s/%s.pem" % (d, k), "-pubout", "-out", "%s/%s.pub" % (d, k)]):
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode: raise ToolError("openssl: " + r.stderr.decode())
        open(d + "/done", "w").close()
    return d

_sig = {}
def sign(h, key="pub"):
    """hex signature of a hex digest, as the publisher makes it"""
    if (h, key) not in _sig:
        f = os.path.join(scratch(), "sig-%d" % os.getpid())
        with open(f, "wb") as o: o.write(bytes.fromhex(h))
        r = subprocess.run(["openssl", "pkeyutl", "-sign", "-rawin", "-inkey", "%s/%s.pem" % (keys(), key), "-in", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode: raise ToolError("openssl: " + r.stderr.decode())
        _sig[(h, key)] = r.stdout.hex()
    return _sig[(h, key)]

def verified(h, sig, key="pub"):
    d = tempfile.mkdtemp(dir=scratch())
    try:
        open(d + "/h", "wb").write(bytes.fromhex(h)); open(d + "/s", "wb").write(bytes.fromhex(sig))
        r = subprocess.run(["openssl", "pkeyutl", "-verify", "-rawin", "-pubin", "-inkey", "%s/%s.pub" % (keys(), key), "-in", d + "/h", "-sigfile", d + "/s"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return r.returncode == 0
    finally: shutil.rmtree(d)

def meta(r, extra=True):
    m = ["N" + r["n"], "V" + r["ver"], "r%d" % r["rel"], "B%d" % (T0 + r["build"]), "S1000"]
    if r["coll"]: m.append("c" + r["coll"])
    m.append("ax86_64")
    if r["group"] or r["nls"]: m.append(("g" + r["group"]) if r["group"] else ("n" + r["nls"]))
    elif not r.get("plain"): m += ["Dpackage " + r["n"], "Uhttp://" + r["n"], "Cnone", "Mnone", "Pnone", "LGPL"]
    m.append("x" + r["id"])
    m += ["R%s%010d" % (d["n"], T0 + d["b"]) for d in r["deps"]]
    m += ["A" + a for a in r["alias"]] + ["s" + s for s in r["sets"]]
    return m + (r.get("more") or [])

_arch = {}; _ids = {}
def archive(r):
    """The bytes of the archive a record describes (the content id in the record)."""
    i = r["id"]
    if i not in _arch:
        f = os.path.join(scratch(), "arch-%d" % os.getpid())
        a = {"meta": meta(r), "ents": [{"p": "usr", "n": {"t": "d", "m": "755"}}, {"p": "usr/share", "n": {"t": "d", "m": "755"}}, {"p": "usr/share/p", "n": {"t": "d", "m": "755"}},
                                       {"p": "usr/share/p/" + r["n"], "n": {"t": "f", "c": i, "m": "644", "tm": "1000000000"}}]
                                      + [{"p": "usr/share/q", "n": {"t": "d", "m": "755"}}] * bool(r.get("share"))
                                      + [{"p": "usr/share/q/" + x, "n": {"t": "f", "c": i, "m": "644", "tm": "1000000000"}} for x in r.get("share", ())],
             "post": r["n"], "probe": "/x"}
        world.write_archive(f, a, "tar")
        b = open(f, "rb").read()
        import gzip; b = gzip.compress(b, 1, mtime=0)
        _arch[i] = b; _ids[hashlib.sha512(b).hexdigest()] = i
    return _arch[i]
def bad(i):
    """Altered contents: 'junk..' no archive, 'cut:<id>' an archive cut short"""
    if i not in _arch:
        b = (i * 50).encode() if i.startswith("junk") else _arch[i[4:]][:-40] if i.startswith("cut:") else _arch[i[4:]] + b"\0tail"
        _arch[i] = b; _ids[hashlib.sha512(b).hexdigest()] = i
    return _arch[i]
def content(i): return _arch[i] if i in _arch else bad(i)
def hash_of(i): return hashlib.sha512(content(i)).hexdigest()
def id_of(b):
    h = hashlib.sha512(b).hexdigest()
    return _ids.get(h, "?" + h[:12])

def shared(r): return ["usr/share/q/"] * bool(r.get("share")) + ["usr/share/q/" + x for x in r.get("share", ())]

def index_text(ix, signed):
    out, fo = [], []
    for n in sorted(ix, key=lambda n: ix[n]["fn"]):
        r = ix[n]; archive(r)
        h = hash_of(r["id"])
        fo += ["@" + r["fn"], "usr/", "usr/share/", "usr/share/p/", "usr/share/p/" + n] + shared(r) + [""]
        out.append("@" + r["fn"]); out += meta(r)
        out.append("H" + (h if r["hash"] else hashlib.sha512(b"x" + h.encode()).hexdigest()))
        if signed: out.append("I" + (sign(h) if r["sig"] else sign(h, "third")))
        out += ["i%d" % len(content(r["id"])), ""]
    return "".join(l + "\n" for l in out), "".join(l + "\n" for l in fo)

@functools.lru_cache(4096)
def zst(b):
    f = tempfile.mktemp(dir=scratch())
    open(f, "wb").write(b)
    r = subprocess.run(["zstd", "-q", "-1", f, "-o", f + ".zst"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: raise ToolError("zstd: " + r.stderr.decode())
    o = open(f + ".zst", "rb").read(); os.unlink(f); os.unlink(f + ".zst")
    return o

def lab(b): return hashlib.sha1(b).hexdigest()[:10] if b is not None else ""
def rd(p):
    try: return open(p, "rb").read()
    except (FileNotFoundError, NotADirectoryError): return None

def depot(c): return "/depot/" + c
def remote(c, arch="x86_64"): return "/remote/%s/%s/%s" % (arch, VER, c)

def write(p, b):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f: f.write(b if isinstance(b, bytes) else b.encode())

def conf_text(w, style):
    """style: 'dir' addresses per directory, 'url' one address for all (all collections have one)"""
    out = ["# cards.conf", ""]
    if style == "url":
        out.append("url file:///remote")
        out += ["dir /depot/" + c["name"] for c in w["colls"]]
    elif style == "coll":
        out += ["depot /depot", "url file:///remote"] + ["collection " + c["name"] for c in w["colls"]]
    else:
        out += ["dir /depot/%s%s" % (c["name"], " | file:///remote" if c["url"] else "") for c in w["colls"]]
    out += ["group " + g for g in w["groups"]]
    out = "\n".join(out) + "\n"
    return confs.vary(out, random.Random(w["vary"])) if w.get("vary") else out

def put_local(cell, w, c):
    t, f = index_text(w["idx"][c["name"]], c["url"])
    d = cell.path(depot(c["name"]))
    write(d + "/.REPO", t); write(d + "/.FILES", f)
    if c["url"]:
        # an earlier synchronisation leaves the packed texts as well
        if int(lab((t + c["name"]).encode())[-1:], 16) % 4:
            write(d + "/.REPO.zst", zst(t.encode())); write(d + "/.FILES.zst", zst(f.encode()))
        k = c.get("keyfile", "pub" if c["key"] else "other")
        if k != "none": write(d + "/.PKEY", open("%s/%s.pub" % (keys(), k), "rb").read())
    for fn, i in w["loc"][c["name"]].items(): write(d + "/" + fn, content(i))

def put_remote(cell, w, c):
    d = cell.path(remote(c["name"]))
    shutil.rmtree(d, ignore_errors=True)
    t, f = index_text(w["ridx"][c["name"]], True)
    x = w.get("rlack", {}).get(c["name"], "")
    z = zst(t.encode()); zf = zst(f.encode())
    if x == "broken": z = z[:len(z) // 2]
    os.makedirs(d, exist_ok=True)
    if x != "repo": write(d + "/.REPO.zst", z)
    if x != "files": write(d + "/.FILES.zst", zf)
    kb = open(keys() + "/pub.pub", "rb").read()
    if x != "key": write(d + "/.PKEY", kb)
    for fn, i in w["rem"][c["name"]].items(): write(d + "/" + fn, content(i))
    return {"repo": lab(t.encode()), "files": lab(f.encode()), "key": lab(kb), "ok": x == ""}

def records(w):
    for k in ("idx", "ridx"):
        for c in w[k].values():
            yield from c.values()

def setup(cell, w, db, style):
    """Puts a world and a database into a cell; w gets the labels of the published texts."""
    for r in records(w): archive(r)
    for r in w.get("stale", []): archive(r)
    write(cell.path("/etc/cards.conf"), conf_text(w, style))
    write(cell.path("/var/lib/pkg/nutyx-version"), "version %s\n" % VER)
    for c in w["colls"]: put_local(cell, w, c)
    w["rlab"] = {}
    for c in w["colls"]:
        if c["url"]: w["rlab"][c["name"]] = put_remote(cell, w, c)
    for n, r in db.items(): put_db(cell, n, r)

def put_db(cell, n, r):
    d = cell.path("/" + world.DB + "/" + n)
    write(d + "/META", "".join(l + "\n" for l in meta(dict({"nls": ""}, **dict(r, n=n))) + (["d1"] if r["auto"] else [])))
    write(d + "/files", "usr/\nusr/share/\nusr/share/p/\nusr/share/p/%s\n" % n + "".join(x + "\n" for x in shared(r)))
    write(cell.path("/usr/share/p/" + n), world.content_of(r["id"]))
    for x in r.get("share", ()): write(cell.path("/usr/share/q/" + x), world.content_of(r["id"]))

def read_meta(lines):
    r = {"ver": "", "rel": 0, "build": 0, "deps": [], "coll": "", "group": "", "sets": [], "alias": [], "id": "", "auto": False, "n": "", "nls": ""}
    for l in lines:
        k, v = l[:1], l[1:]
        if k == "V": r["ver"] = v
        elif k == "r": r["rel"] = int(v)
        elif k == "B": r["build"] = int(v) - T0
        elif k == "R": r["deps"].append({"n": v[:-10], "b": int(v[-10:]) - T0})
        elif k == "c": r["coll"] = v
        elif k == "g": r["group"] = v
        elif k == "n": r["nls"] = v
        elif k == "s": r["sets"].append(v)
        elif k == "A": r["alias"].append(v)
        elif k == "x": r["id"] = v
        elif k == "N": r["n"] = v
        elif l == "d1": r["auto"] = True
    for k in ("sets", "alias"): r[k] = sorted(set(r[k]))
    r["deps"].sort(key=lambda d: (d["n"], d["b"]))
    return r

def dbrec(r, auto):
    return {k: r[k] for k in ("ver", "rel", "build", "deps", "coll", "group", "sets", "alias", "id")} | {"auto": auto, "share": sorted(r.get("share", ()))}

def read_db(cell):
    b = cell.path("/" + world.DB); out = {}
    for n in sorted(os.listdir(b)):
        t = rd(os.path.join(b, n, "META")); f = rd(os.path.join(b, n, "files"))
        if t is None: out[n] = dict(dbrec(read_meta([]), False), id="?nometa"); continue
        r = read_meta(t.decode(errors="replace").split("\n"))
        r["share"] = [l[len("usr/share/q/"):] for l in (f or b"").decode(errors="replace").split("\n") if l.startswith("usr/share/q/") and l != "usr/share/q/"]
        x = dbrec(r, r["auto"])
        if r["n"] != n or f is None or b"usr/share/p/" + n.encode() not in f.split(b"\n"): x["id"] = "?" + x["id"]
        out[n] = x
    return out

def read_inst(cell, d="p"):
    b = cell.path("/usr/share/" + d); out = {}
    if os.path.isdir(b):
        for n in sorted(os.listdir(b)): out[n] = world.token_of(rd(os.path.join(b, n)) or b"")
    return out

INDEX = {".REPO", ".FILES", ".PKEY", ".REPO.zst", ".FILES.zst"}
def read_depot(cell, w):
    loc, labs, odd = {}, {}, []
    for c in w["colls"]:
        n = c["name"]; d = cell.path(depot(n)); loc[n] = {}
        labs[n] = {"repo": lab(rd(d + "/.REPO")), "files": lab(rd(d + "/.FILES")), "key": lab(rd(d + "/.PKEY"))}
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if os.path.isdir(os.path.join(d, f)): odd.append(n + "/" + f)
            elif f in INDEX: pass
            else: loc[n][f] = id_of(rd(os.path.join(d, f)))
    return loc, labs, odd

def others(cell):
    """Everything outside the depot, the database and the packages' files."""
    out = []
    for top in sorted(os.listdir(cell.dir)):
        if top in ("depot", "remote", "slog"): continue
        for dp, dn, fn in os.walk(os.path.join(cell.dir, top)):
            rel = os.path.relpath(dp, cell.dir)
            if rel in ("var/lib/pkg/DB", "usr/share/p", "usr/share/q"): dn[:] = []; continue
            dn.sort()
            for f in fn:
                st = os.lstat(os.path.join(dp, f)); out.append((rel + "/" + f, st.st_size))
            if rel not in ("usr/share", "usr"): out.append((rel, 0))
    return sorted(out)
