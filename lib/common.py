"""Shared plumbing: build the tools from /repo's working tree, cells, TLC, evidence."""
import os, sys, subprocess, hashlib, shutil, tempfile, json, time, re, fcntl, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"

class ToolError(Exception):
    """The machinery itself failed: exit 2, never a verdict."""

# ---------------------------------------------------------------- scratch
_scratch = None
def scratch():
    """One scratch directory per run, removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and \
            shutil.disk_usage("/dev/shm").free > 4 << 30 and not os.environ.get("VERIF_NOSHM") else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="cards-verif-", dir=base)
        pid = os.getpid()
        def clean():
            if os.getpid() == pid and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch

# ---------------------------------------------------------------- build
def _objs(mk, var):
    m = re.search(r"^%s\s*=((?:.*\\\n)*.*)$" % var, mk, re.M)
    return re.findall(r"([\w.-]+)\.o\b", m.group(1)) if m else None

TOOLS = ("pkg db cache system_utils string_utils archive file_utils process "
         "runtime_dependencies_utils lock pkgdbh pkgadd pkgrm pkginfo tools").split()

def _src_files():
    out = []
    for d in ("src", "scripts"):
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            for f in fn:
                if f.endswith((".cxx", ".c", ".h", ".in", "Makefile")) and f != "libcards.h":
                    out.append(os.path.join(dp, f))
    out.append(os.path.join(REPO, "Makefile.inc"))
    return sorted(out)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

_built = None
def build():
    """Compile pkgadd/pkgrm/pkginfo and cards (dynamic), the cell launcher and the
    interposer; returns a dict of paths.  Keyed by the content of the sources."""
    global _built
    if _built: return _built
    h = hashlib.sha256()
    for f in _src_files() + [os.path.join(VERIF, "lib", x) for x in ("cell.c", "shim.c", "pkgmk.c", "common.py")]:
        if os.path.exists(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    d = os.path.join(CACHE, "b-" + h.hexdigest()[:20])
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "done")):
            olds = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith("b-")), key=os.path.getmtime)
            for old in olds[:-6]:
                shutil.rmtree(old, ignore_errors=True)
            _compile(d)
            open(os.path.join(d, "done"), "w").close()
    _built = {k: os.path.join(d, k) for k in ("pkgadd", "cards", "cell", "shim.so", "pkgmk")}
    _built["dir"] = d
    return _built

def _compile(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = os.path.join(REPO, "src")
    mk = open(os.path.join(src, "Makefile")).read()
    tools = _objs(mk, "TOOLSOBJECTS") or TOOLS
    cards = _objs(mk, "CARDSOBJECTS")
    ver = re.search(r"^VERSION\s*=\s*(\S+)", open(os.path.join(REPO, "Makefile.inc")).read(), re.M)
    flags = ["-O1", "-DNDEBUG", "-std=c++17", "-D_GNU_SOURCE", "-w",
             '-DPACKAGE_VERSION="%s"' % (ver.group(1) if ver else "0"),
             "-D_LARGEFILE_SOURCE", "-D_FILE_OFFSET_BITS=64", "-fPIC"]
    jobs = []
    for o in sorted(set(tools) | set(cards)):
        f = os.path.join(src, o + ".cxx")
        jobs.append(["g++", "-c"] + flags + [f, "-o", os.path.join(d, o + ".o")])
    jobs.append(["gcc", "-O1", "-w", os.path.join(VERIF, "lib/cell.c"), "-o", os.path.join(d, "cell")])
    jobs.append(["gcc", "-O1", "-w", os.path.join(VERIF, "lib/pkgmk.c"), "-o", os.path.join(d, "pkgmk")])
    sh = os.path.join(VERIF, "lib/shim.c")
    if os.path.exists(sh):
        jobs.append(["gcc", "-O1", "-w", "-shared", "-fPIC", sh, "-o", os.path.join(d, "shim.so"), "-ldl"])
    procs = []
    def reap(p, c):
        o = p.communicate()[0]
        if p.returncode:
            raise ToolError("build failed: %s\n%s" % (" ".join(c), o.decode(errors="replace")[-3000:]))
    for c in jobs:
        while len(procs) >= 8:
            reap(*procs.pop(0))
        procs.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
    for x in procs: reap(*x)
    libs = {}
    for pk in ("libarchive", "libcurl"):
        r = run(["pkg-config", "--libs", pk])
        libs[pk] = r.stdout.decode().split()
    P = lambda os_: [os.path.join(d, o + ".o") for o in os_]
    for out, objs, ll in (("pkgadd", tools, libs["libarchive"]),
                          ("cards", cards, libs["libarchive"] + libs["libcurl"])):
        r = run(["g++", "-o", os.path.join(d, out)] + P(objs) + ll + ["-lcrypto", "-lzstd", "-lpthread"])
        if r.returncode:
            raise ToolError("link failed: " + r.stderr.decode(errors="replace")[-3000:])
    # only what is needed stays
    for o in os.listdir(d):
        if o.endswith(".o"): os.unlink(os.path.join(d, o))
    _template(d)

def _template(d):
    """A root tree holding the tools, their libraries and a shell."""
    t = os.path.join(d, "template")
    os.makedirs(t)
    def put(src, dst, mode=0o755):
        dst = os.path.join(t, dst.lstrip("/"))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst):
            shutil.copyfile(src, dst); os.chmod(dst, mode)
    def libs_of(b):
        for l in re.findall(r"(/\S+) \(0x", run(["ldd", b]).stdout.decode()):
            put(os.path.realpath(l), l)
    for b in ("pkgadd", "cards", "shim.so"):
        p = os.path.join(d, b)
        if os.path.exists(p): libs_of(p)
    put(os.path.join(d, "pkgadd"), "usr/bin/pkgadd")
    for n in ("pkgrm", "pkginfo"):
        os.link(os.path.join(t, "usr/bin/pkgadd"), os.path.join(t, "usr/bin", n))
    put(os.path.join(d, "cards"), "usr/bin/cards")
    if os.path.exists(os.path.join(d, "shim.so")): put(os.path.join(d, "shim.so"), "usr/lib/shim.so")
    put("/bin/sh", "usr/bin/sh"); libs_of("/bin/sh")
    os.makedirs(os.path.join(t, "dev"), exist_ok=True)
    open(os.path.join(t, "dev/null"), "w").close(); os.chmod(os.path.join(t, "dev/null"), 0o666)
    os.makedirs(os.path.join(t, "tmp"), exist_ok=True)

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, *, workers=1, timeout=600, mem="4g", simulate=None, depth=None, seed=None,
        extra=(), env=None, cwd=None, want=(0,)):
    """Run TLC; returns (rc, output).  Anything that is not 'finished' or a property
    violation is a ToolError."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem,
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + scratch(),
           "-cp", TLAJAR + ":" + _cm(), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg]
    if simulate: cmd += ["-simulate", simulate]
    if depth: cmd += ["-depth", str(depth)]
    if seed is not None: cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module]
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd or SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out after %ss: %s %s" % (timeout, module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    if r.returncode not in want:
        raise ToolError("TLC exit %d on %s:\n%s" % (r.returncode, module, out[-6000:]))
    return r.returncode, out

_cmj = None
def _cm():
    global _cmj
    if _cmj is None:
        txt = ""
        try: txt = open(shutil.which("tlc")).read()
        except Exception: pass
        c = [x for x in re.findall(r"/\S+?\.jar", txt) if "tla2tools" not in x]
        if not c:
            import glob
            c = glob.glob("/opt/veriftools/tla/*ommunity*.jar")
        _cmj = ":".join(c)
    return _cmj

def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)
