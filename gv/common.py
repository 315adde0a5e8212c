"""Paths, scratch space, building gaia, running TLC."""
import atexit, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CPUS = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class CheckError(Exception):
    """The check itself failed; says nothing about gaia."""

_scratch = None
def scratch():
    """The check's own temporary directory, removed at the end."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="gv.")
        os.chmod(_scratch, 0o755)
        pid = os.getpid()
        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- building
def _copy_src():
    d = os.path.join(scratch(), "repo")
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "obj"))
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
        for f in os.listdir(REPO):
            if f.startswith("Makefile") or f.endswith(".mk"):
                shutil.copy(os.path.join(REPO, f), d)
        for f in os.listdir(os.path.join(d, "src")):
            if f.endswith((".o", ".d")):
                os.unlink(os.path.join(d, "src", f))
    return d

def _sources(d):
    r = []
    for root, _, files in os.walk(os.path.join(d, "src")):
        r += [os.path.join(root, f) for f in files if f.endswith(".c")]
    return sorted(r)

def build():
    """gaia as its Makefile builds it, from REPO's working tree."""
    d = _copy_src()
    exe = os.path.join(d, "gaia")
    if os.path.exists(exe):
        return exe
    env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CFLAGS", "CC")}
    p = subprocess.run(["make", "-j4", "gaia"], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or not os.path.exists(exe):
        q = subprocess.run(["gcc", "-std=c11", "-O3", "-g", "-I" + d + "/src"] + _sources(d) +
                           ["-lm", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode:
            raise CheckError("gaia does not build:\n" + p.stdout.decode("latin1")[-3000:] +
                             q.stdout.decode("latin1")[-3000:])
    return exe

def build_san(kind="address,undefined"):
    """gaia with sanitizers; None if that does not build."""
    d = _copy_src()
    exe = os.path.join(d, "gaia-" + kind.replace(",", "-"))
    if os.path.exists(exe):
        return exe
    q = subprocess.run(["gcc", "-std=c11", "-O1", "-g", "-I" + d + "/src",
                        "-fsanitize=" + kind, "-fno-sanitize-recover=all",
                        "-fno-omit-frame-pointer"] + _sources(d) + ["-lm", "-o", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if q.returncode:
        raise CheckError("instrumented gaia does not build:\n" + q.stdout.decode("latin1")[-3000:])
    return exe

def build_nomem():
    """a library that refuses memory (gv/nomem.c); None where it has no effect"""
    so = os.path.join(scratch(), "nomem.so")
    q = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", os.path.join(VERIF, "gv", "nomem.c"), "-o", so],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if q.returncode:
        return None
    ref = so + ".refused"
    subprocess.run([build(), "--version"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20,
                   env=dict(os.environ, LD_PRELOAD=so, GV_NOMEM="1", GV_NOMEM_LOG=ref))
    return so if os.path.exists(ref) else None

def build_world():
    """a library that makes up another world (gv/world.c); None where there is none"""
    so = os.path.join(scratch(), "world.so")
    q = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", os.path.join(VERIF, "gv", "world.c"), "-o", so],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return None if q.returncode else so

# ---------------------------------------------------------------- TLC
def tlc_cmd(cfg, module, workers=1, heap="2g", extra=()):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    return ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
            "-XX:ParallelGCThreads=2" if workers > 1 else "-XX:CICompilerCount=2",
            "-Djava.io.tmpdir=" + meta,
            "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
            "-workers", str(workers), *extra, "-config", cfg, module]

def tlc_start(cfg, module, env=None, outfile=None, **kw):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    f = open(outfile, "wb")
    p = subprocess.Popen(tlc_cmd(cfg, module, **kw), cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
    f.close()
    _tlcs.append(p)
    return p

_tlcs = []
def stop_all():
    for p in _tlcs:
        if p.poll() is None:
            p.kill(); p.wait()
