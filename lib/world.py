"""A cell: a scratch root tree in which the real tools run, chrooted in their own user
namespace; plus archive writing and projection of what is on disk to abstract state."""
import os, io, stat, tarfile, hashlib, gzip, shutil, subprocess, tempfile, itertools, zlib
from common import build, scratch, ToolError

_ids = itertools.count()
DB = "var/lib/pkg/DB"
CONF = "var/lib/pkg/pkgadd.conf"
NATIVE = os.uname().machine

def linktree(src, dst):
    for dp, dn, fn in os.walk(src):
        rel = os.path.relpath(dp, src)
        d = dst if rel == "." else os.path.join(dst, rel)
        os.makedirs(d, exist_ok=True)
        for f in fn:
            s = os.path.join(dp, f)
            if os.path.islink(s): os.symlink(os.readlink(s), os.path.join(d, f))
            else:
                os.link(s, os.path.join(d, f))

_tmpl = None
def template():
    """Private copy of the template on the scratch file system (so it can be hard-linked)."""
    global _tmpl
    if _tmpl is None:
        t = os.path.join(scratch(), "template")
        shutil.copytree(os.path.join(build()["dir"], "template"), t, symlinks=True)
        _tmpl = t
    return _tmpl

class Cell:
    def __init__(self, roots=("/",)):
        """roots: target roots ('/' or '/mnt/x/') inside the cell."""
        self.dir = os.path.join(scratch(), "c%d-%d" % (os.getpid(), next(_ids)))
        linktree(template(), self.dir)
        for r in roots:
            self.prep_root(r)
        self.base = {}
        for dp, dn, fn in os.walk(self.dir):
            for f in fn:
                p = os.path.join(dp, f); st = os.lstat(p)
                self.base[os.path.relpath(p, self.dir)] = (st.st_ino, st.st_size, stat.S_IMODE(st.st_mode))
    def prep_root(self, r):
        b = self.path(r)
        os.makedirs(os.path.join(b, DB), exist_ok=True)
        if r != "/":
            os.makedirs(os.path.join(b, "usr/bin"), exist_ok=True)
            os.link(os.path.join(template(), "usr/bin/sh"), os.path.join(b, "usr/bin/sh"))
    def path(self, p):
        return os.path.join(self.dir, p.lstrip("/"))
    def popen(self, argv, cwd="/", uid=0, env=None, **kw):
        e = {"PATH": "/usr/bin", "LC_ALL": "C", "HOME": "/"}
        # fresh memory with arbitrary contents: what is not initialised must not decide
        m = (0, 90, 165)[zlib.crc32("\0".join(argv).encode("utf-8", "surrogateescape")) % 3]
        if m: e["MALLOC_PERTURB_"] = str(m)
        e.update(env or {})
        prog = argv[0] if argv[0].startswith("/") else "/usr/bin/" + argv[0]
        return subprocess.Popen([build()["cell"], self.dir, str(uid), cwd, prog] + list(argv[1:]),
                                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True, **kw)
    timeout = 30
    def run(self, argv, cwd="/", uid=0, timeout=None, env=None):
        timeout = timeout or self.timeout
        p = self.popen(argv, cwd, uid, env)
        try:
            o, e = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            import signal
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            o, e = p.communicate(); rc = 997
        if rc == 125:
            raise ToolError("cell failed: " + e.decode(errors="replace"))
        return rc, o.decode(errors="surrogateescape"), e.decode(errors="surrogateescape")
    def destroy(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------ projection
    def tree(self, sub="/", skip=(), names=None):
        """path -> node for everything below sub (paths relative to it)."""
        b = self.path(sub).rstrip("/") or "/"
        out = {}
        skip = set(skip)
        stack = [""]
        while stack:
            rel = stack.pop()
            full = os.path.join(b, rel) if rel else b
            try: ents = list(os.scandir(full))
            except FileNotFoundError: continue
            for en in ents:
                r = en.name if not rel else rel + "/" + en.name
                if r in skip: continue
                st = en.stat(follow_symlinks=False)
                m = "%o" % stat.S_IMODE(st.st_mode)
                if stat.S_ISDIR(st.st_mode):
                    out[r] = {"t": "d", "c": "", "m": m, "tm": ""}
                    stack.append(r)
                elif stat.S_ISLNK(st.st_mode):
                    out[r] = {"t": "l", "c": os.readlink(os.path.join(b, r)), "m": "777", "tm": ""}
                elif stat.S_ISREG(st.st_mode):
                    rootrel = os.path.relpath(os.path.join(b, r), self.dir)
                    bs = self.base.get(rootrel)
                    if bs is not None and bs == (st.st_ino, st.st_size, stat.S_IMODE(st.st_mode)):
                        out[r] = {"t": "f", "c": "tmpl", "m": m, "tm": ""}
                    else:
                        with open(os.path.join(b, r), "rb") as f: data = f.read()
                        out[r] = {"t": "f", "c": token_of(data), "m": m, "tm": str(int(st.st_mtime))}
                else:
                    out[r] = {"t": "?", "c": "", "m": m, "tm": ""}
        return out

    def db(self, root="/"):
        """name -> record as on disk."""
        b = self.path(root.lstrip("/") + DB if root != "/" else DB)
        out = {}
        if not os.path.isdir(b): return {"<nodb>": {}}
        for n in sorted(os.listdir(b)):
            d = os.path.join(b, n)
            rec = {"meta": [], "auto": False, "files": [], "alias": [], "prer": "", "postr": "", "probe": ""}
            if not os.path.isdir(d):
                rec["odd"] = True; out[n] = rec; continue
            have = set(os.listdir(d))
            if "META" in have:
                ls = open(os.path.join(d, "META"), errors="surrogateescape").read().split("\n")
                if ls and ls[-1] == "": ls.pop()
                rec["auto"] = "d1" in ls
                rec["meta"] = sorted(l for l in set(ls) if l != "d1")
                rec["alias"] = sorted(l[1:] for l in set(ls) if l.startswith("A"))
            else: rec["nometa"] = True
            if "files" in have:
                fl = open(os.path.join(d, "files"), errors="surrogateescape").read()
                rec["files"] = sorted(set(fl.split("\n")) - {""})
            else: rec["nofiles"] = True
            for k, f in (("prer", "PRER"), ("postr", "POSTR")):
                if f in have:
                    txt = open(os.path.join(d, f), errors="replace").read()
                    rec[k] = script_token(txt) or "?" + f; rec["probe"] = script_token(txt, "# probe ")
            extra = sorted(have - {"META", "files", "PRER", "POSTR"})
            if extra: rec["extra"] = extra
            out[n] = rec
        return out

# contents <-> tokens: a token's bytes are the token itself plus padding chosen by a digit suffix
def content_of(tok):
    if tok == "": return b""
    if tok.startswith("tool:"):
        return ("#!/usr/bin/sh\n# token %s\necho \"%s $*\" >> tlog\n" % (tok, tok[5:])).encode()
    n = 0
    if "#" in tok:
        n = int(tok.rsplit("#", 1)[1])
    b = (tok + "\n").encode()
    if n: b += bytes((i * 7 + len(tok)) % 251 for i in range(n))
    return b

def token_of(data):
    if data == b"": return ""
    head = data.split(b"\n", 1)[0]
    try: tok = head.decode()
    except UnicodeDecodeError: tok = None
    if tok is not None and len(tok) < 200 and tok.count("#") <= 1:
        try:
            if content_of(tok) == data: return tok
        except ValueError: pass
    t = script_token(data.decode(errors="replace"))
    if t: return t
    return "?" + hashlib.sha256(data).hexdigest()[:16]

def script_token(text, tag="# token "):
    for l in text.split("\n"):
        if l.startswith(tag): return l[len(tag):]
    return ""

def script(kind, tok, probe):
    """A package script: records that it ran, and whether the probe path is there."""
    end = "exit 1" if tok.endswith(":fail") else "kill -9 $$" if tok.endswith(":kill") else "exit 0"
    return ("# token %s\n# probe %s\nif test -e '%s' || test -h '%s'; then s=y; else s=n; fi\n"
            "echo '%s|%s|'$s >> slog\n%s\n" % (tok, probe, probe, probe, kind, tok, end))

def read_slog(cell, root="/"):
    p = cell.path((root if root != "/" else "") + "slog")
    out = []
    if os.path.exists(p):
        for l in open(p):
            f = l.rstrip("\n").split("|")
            out.append({"k": f[0], "s": f[1], "seen": f[2] == "y"} if len(f) == 3 else {"k": "?", "s": l.rstrip("\n"), "seen": False})
    return out

def write_archive(path, a, comp="gz"):
    """a: abstract archive (see spec/PkgDb.tla). Returns nothing; honours a['bad']."""
    bad = a.get("bad", "none")
    if bad == "missing": return
    if bad == "notar":
        with open(path, "wb") as f: f.write(b"this is not an archive\n" * 40)
        return
    if bad == "empty":
        open(path, "wb").close(); return
    buf = io.BytesIO()
    tf = tarfile.open(fileobj=buf, mode="w", format=tarfile.GNU_FORMAT)
    def add(name, data, mode=0o644, mtime=1000000000):
        ti = tarfile.TarInfo(name); ti.size = len(data); ti.mode = mode; ti.mtime = mtime
        tf.addfile(ti, io.BytesIO(data))
    meta = list(a["meta"])
    if bad == "noname": meta = [l for l in meta if not l.startswith("N")]
    nl = "" if a.get("nonl") else "\n"     # the last line may end without a newline
    metab = ("\n".join(meta) + nl).encode()
    names = []
    for x in a["ents"]:
        e = x["p"] + ("/" if x["n"]["t"] == "d" else "")
        if e not in names: names.append(e)
    dots = [".META"]
    scr = []
    for k, f in (("pre", ".PRE"), ("post", ".POST"), ("prer", ".PRER"), ("postr", ".POSTR")):
        if a.get(k): scr.append((f, script(k, a[k], a["probe"]).encode())); dots.append(f)
    mtree = ("\n".join(dots + names) + nl).encode()
    if bad != "nometa": add(".META", metab)
    if bad != "nomtree": add(".MTREE", mtree)
    for f, s in scr: add(f, s, 0o755)
    for x in a["ents"]:
        n = x["n"]; p = x["p"]
        if n["t"] == "d":
            ti = tarfile.TarInfo(p + "/"); ti.type = tarfile.DIRTYPE; ti.mode = int(n["m"], 8); ti.mtime = 1000000000
            tf.addfile(ti)
        elif n["t"] == "h":
            ti = tarfile.TarInfo(p); ti.type = tarfile.LNKTYPE; ti.linkname = n["c"]; ti.mode = 0o644; ti.mtime = 1000000000
            tf.addfile(ti)
        elif n["t"] == "l":
            ti = tarfile.TarInfo(p); ti.type = tarfile.SYMTYPE; ti.linkname = n["c"]; ti.mode = 0o777; ti.mtime = 1000000000
            tf.addfile(ti)
        else:
            add(p, content_of(n["c"]), int(n["m"], 8), int(n["tm"]))
    last = tf.members[-1].offset
    tf.close()
    data = buf.getvalue()
    if bad == "trunc" and comp == "tar": data = data[:last + 100]
    if comp == "gz": data = gzip.compress(data, 1, mtime=0)
    elif comp == "bz2":
        import bz2; data = bz2.compress(data, 1)
    elif comp == "xz":
        import lzma; data = lzma.compress(data, preset=0)
    elif comp == "zst":
        r = subprocess.run(["zstd", "-q", "-1", "-c"], input=data, stdout=subprocess.PIPE); data = r.stdout
    if bad == "trunc" and comp != "tar": data = data[:max(40, len(data) * 2 // 3)]
    with open(path, "wb") as f: f.write(data)
