"""Runs the real program and records what can be seen from outside."""
import multiprocessing, os, re, resource, select, shutil, signal, subprocess, tempfile, threading, time

class Job:
    """One run.  text: source bytes; the rest are the run's conditions.
    fault: "target:system calls:error:which", injected by strace.
    nomem: (library, n, bool): the n-th request for memory fails, and those behind it.
    tag: what is special about the source (fifoN, link, 1970, readonly, siblings), about
    the output (symlink, hardlink, path, dir), or descriptors that are closed (fd02).
    oname: the output's name.  stretch: (i, n): what is really run has n more copies
    of the character at i, which makes no difference by the specification (`Idle`)."""
    __slots__ = ("text", "src", "out", "cap", "pre", "args", "name", "env", "tag", "exe", "full", "fault", "nomem", "oname", "stretch")
    def __init__(self, text, src="ok", out="ok", cap=-1, pre=None, args="o", name="p.asm",
                 env=None, tag="", exe=None, full=False, fault=None, nomem=None, oname=None, stretch=None):
        self.fault, self.nomem, self.oname, self.stretch = fault, nomem, oname, stretch
        self.text, self.src, self.out, self.cap, self.pre = text, src, out, cap, pre
        self.args, self.name, self.env, self.tag, self.exe, self.full = args, name, env, tag, exe, full
    def desc(self):
        d = {k: getattr(self, k) for k in self.__slots__ if k not in ("text",)}
        d["pre"] = None if self.pre is None else self.pre.hex()
        d["text"] = self.text.decode("latin1")
        return d

MAXINT = 2**31 - 1
def _int(s, base=10):
    v = int(s, base)
    return min(v, MAXINT)

RX_DIAG = re.compile(rb"^(?:(.*):(-?\d+): )?ERROR: (.*)$", re.S)
RX_BYTES = re.compile(rb"^(-?\d+) \(0x([0-9a-fA-F]+)\) bytes assembled\.\s*$")
RX_SYMS = re.compile(rb"^(-?\d+) symbols\.\s*$")

def rstrip(b):
    return b.rstrip(b" \t\r\n\xff")

def parse_stdout(so, name):
    o = dict(announced=False, ndiag=0, kind="", line=0, col=-1, echo=[], fileok=False,
             total=-1, totalhex=-1, hexdigits=0, nsyms=-1)
    lines = so.split(b"\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith(b"Assembly successful."):
            o["announced"] = True
        m = RX_BYTES.match(l)
        if m:
            o["total"] = _int(m.group(1)); o["totalhex"] = _int(m.group(2), 16)
            o["hexdigits"] = len(m.group(2))
        m = RX_SYMS.match(l)
        if m:
            o["nsyms"] = _int(m.group(1))
        m = RX_DIAG.match(l)
        if m and (m.group(1) is not None or l.startswith(b"ERROR: ")):
            o["ndiag"] += 1
            if o["ndiag"] == 1:
                kind = m.group(3)
                if m.group(1) is not None:
                    o["fileok"] = m.group(1) == name
                    o["line"] = _int(m.group(2))
                    if i + 1 < len(lines):
                        o["echo"] = list(rstrip(lines[i + 1][:4 << 20]))
                    if i + 2 < len(lines):
                        mk = lines[i + 2]
                        if mk.lstrip(b" ").startswith(b"^"):
                            o["col"] = len(mk) - len(mk.lstrip(b" "))
                    i += 2
                suffix = b" could not be opened"
                if kind.endswith(suffix):
                    o["fileok"] = kind[:-len(suffix)] == name
                    kind = b"could not be opened"
                o["kind"] = rstrip(kind).decode("latin1")
        i += 1
    return o

def _limits(cap):
    def f():
        if cap is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (cap, cap))
    return f

_dir = None
_exe = None
_timeout = 10
_hangs = None
MAXHANGS = 12
def _init(exe, base, timeout, hangs):
    global _dir, _exe, _timeout, _hangs
    _exe, _timeout, _hangs = exe, timeout, hangs
    # whatever the program does, it fills neither the disk nor the memory
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    _dir = tempfile.mkdtemp(prefix="w.", dir=base)
    os.chdir(_dir)

OLD = b"\xa5previous output\x5a" * 9

def _spawn(cmd, env, cap, timeout, tap=None, sink=None, group=False):
    """-> (status text, stdout+stderr); what arrives at tap goes to sink"""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, env=env, close_fds=False,
                         restore_signals=False, start_new_session=group,
                         preexec_fn=None if cap is None else _limits(cap))
    chunks, left, size = [], timeout, 0
    fd = p.stdout.fileno()
    end = time.monotonic() + timeout
    hung = False
    taps = [] if tap is None else [tap]
    while True:
        r, _, _ = select.select([fd] + taps, [], [], max(0, end - time.monotonic()))
        if not r or size > 64 << 20:
            hung = True
            break
        if tap in r:
            b = os.read(tap, 1 << 16)
            sink.append(b); size += len(b)
            if fd not in r:
                continue
        b = os.read(fd, 1 << 16)
        if not b:
            break
        chunks.append(b); size += len(b)
    if not hung:
        try:
            p.wait(max(0.01, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            hung = True
    if hung:
        if group:
            os.killpg(p.pid, signal.SIGKILL)
        p.kill(); p.wait()
    p.stdout.close()
    while taps and select.select(taps, [], [], 0)[0]:
        sink.append(os.read(tap, 1 << 16))
    rc = p.returncode
    st = ("hang" if hung else "accept" if rc == 0 else "reject" if rc == 1 else
          "signal %d" % -rc if rc < 0 else "exit %d" % rc)
    return st, b"".join(chunks)

def run_job(job):
    """None: not run because many runs hung before"""
    if _hangs.value >= MAXHANGS:
        return None
    o = _run_job(job)
    if o["status"] == "hang":
        with _hangs.get_lock():
            _hangs.value += 1
    return o

def _clean():
    """a clean directory for each run"""
    for f in os.listdir("."):
        if os.path.isdir(f) and not os.path.islink(f):
            shutil.rmtree(f)
        else:
            os.unlink(f)

WRITES = "write,writev,pwrite64,pwritev,close"
READS = "read,readv,pread64,preadv"
_RX_CALL = re.compile(r"^\d+\s+(\w+)\(.*?\)?\s*= (-?\d+)")
def tracing():
    """can faults be injected here?"""
    try:
        d = tempfile.mkdtemp()
        try:
            p = subprocess.run(["strace", "-f", "-o", d + "/t", "-P", "/dev/null", "-e", "inject=openat:error=EIO:when=1",
                                "cat", "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
            with open(d + "/t") as f:
                return p.returncode == 1 and "INJECTED" in f.read()
        finally:
            shutil.rmtree(d)
    except Exception:
        return False

def _faulty(cmd, fault, src, outp):
    target, calls, err, which = fault.split(":")
    calls = {"W": WRITES, "R": READS}.get(calls, calls)
    path = os.path.abspath(src if target == "src" else outp)
    return ["strace", "-f", "-q", "-o", "../trace." + os.path.basename(_dir), "-P", path, "-s", "0",
            "-e", "trace=" + calls + ("," + READS if target == "src" else ""),
            "-e", "inject=%s:error=%s:when=%s" % (calls, err, which)] + cmd

def _delivered():
    """-> was the fault injected?  and how many bytes were read before it"""
    n = 0
    with open("../trace." + os.path.basename(_dir), errors="replace") as f:
        for l in f:
            if "INJECTED" in l:
                return True, n
            m = _RX_CALL.match(l)
            if m and m.group(1) in READS and int(m.group(2)) > 0:
                n += int(m.group(2))
    return False, n

def _feed(name, text, n):
    """a source that arrives in pieces of n bytes"""
    try:
        with open(name, "wb", buffering=0) as f:
            for i in range(0, len(text), n):
                f.write(text[i:i + n])
                if i % 3 == 0 and n > 1: time.sleep(.0003)
    except OSError:
        pass

def _run_job(job):
    src, outp = job.name, job.oname or "o.bin"
    _clean()
    for d in (os.path.dirname(src), os.path.dirname(outp)):
        if d and not d.startswith("/"):
            os.makedirs(d, exist_ok=True)
    text = job.text
    if job.stretch:
        i, n = job.stretch
        text = text[:i] + text[i:i + 1] * n + text[i:]
    feeder = None
    if job.src == "ok" and job.tag.startswith("fifo"):
        os.mkfifo(src)
        feeder = threading.Thread(target=_feed, args=(src, text, int(job.tag[4:])))
        feeder.start()
    elif job.src == "ok":
        if job.tag == "link":
            os.symlink("real.file", src)
        with open(src, "wb") as f:
            f.write(text)
        if job.tag in ("1970", "2037"):
            t = (int(job.tag) - 1970) * 31556952
            os.utime(src, (t, t))
        elif job.tag == "readonly":
            os.chmod(src, 0o444)
    elif job.src == "unreadable":
        os.mkdir(src)
    elif job.tag == "siblings":     # files with names like the missing one's
        d, b = os.path.split(src)
        for f in {b + ".asm", b + ".s", os.path.splitext(b)[0], b.upper(), b + "~", "a.asm", "main.asm"} - {b}:
            with open(os.path.join(d, f), "wb") as g:
                g.write(b"LDA #1\n")
    cap = None if job.cap < 0 or job.full else job.cap
    if job.full:
        outp = "/dev/full"
    if job.out == "uncreatable":
        outp = "nodir/o.bin"
        if job.tag == "dir":
            os.mkdir("outdir"); outp = "outdir"
    elif job.out == "source":
        if job.tag == "symlink":
            os.symlink(src, outp)
        elif job.tag == "hardlink" and job.src == "ok":
            os.link(src, outp)
        elif job.tag == "path":
            outp = "./" + src
        else:
            outp = src
    if job.args == "none":
        outp = "a.out"
    tap, sink = None, []
    if job.out == "pipe":
        os.mkfifo(outp)
        tap = os.open(outp, os.O_RDWR | os.O_NONBLOCK)
    elif job.pre is not None and job.out == "ok" and not job.full:
        with open(outp, "wb") as f:
            f.write(job.pre)
    exe = job.exe or _exe
    cmd = [exe] + {"o": ["-o", outp, src], "last": [src, "-o", outp], "joined": ["-o" + outp, src],
                   "long": ["--output", outp, src], "longeq": [src, "--output=" + outp],
                   "none": [src], "twice": ["-o", "other.bin", "-o", outp, src],
                   "dash": ["-o", outp, "--", src]}[job.args]
    if job.tag in ("fd0", "fd2", "fd02"):
        cmd = ["/bin/sh", "-c", 'exec "$@"' + "".join(" %s>&-" % k for k in job.tag[2:]), "sh"] + cmd
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=2500"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=0"
    if job.env:
        env.update(job.env)
    refused = "../refused." + os.path.basename(_dir)
    if job.nomem:
        lib, n, more = job.nomem
        env.update(LD_PRELOAD=lib, GV_NOMEM=str(n), GV_NOMEM_LOG=refused, GV_NOMEM_MORE="1" if more else "")
    if job.fault:
        cmd = _faulty(cmd, job.fault, src, outp)
    st, so = _spawn(cmd, env, cap, _timeout, tap, sink, bool(job.fault))
    if tap is not None:
        os.close(tap)
    if feeder:                          # (it waits for ever if nobody read)
        d = os.open(src, os.O_RDONLY | os.O_NONBLOCK)
        while feeder.is_alive():
            feeder.join(.01)
            try: os.read(d, 1 << 16)
            except BlockingIOError: pass
        os.close(d)
    o = parse_stdout(so, src.encode())
    o["status"] = st
    if job.stretch:
        o["echo"] = []
    # the conditions that the run really met
    o["met"] = {}
    if job.fault:
        hit, n = _delivered()
        if hit and job.fault.startswith("src:open"): o["met"] = {"src": "missing"}
        elif hit and job.fault.startswith("src:"): o["met"] = {"src": "breaks", "text": n}
        elif hit and job.fault.startswith("out:open"): o["met"] = {"out": "uncreatable"}
        elif hit: o["met"] = {"out": "flaky"}
    if job.nomem and os.path.exists(refused):
        os.unlink(refused)
        o["met"] = {"mem": "scarce"}
    # output file
    o["size"], o["nz"] = -1, []
    data = None
    if job.full:
        o["size"] = -2
    elif job.out == "ok":
        try:
            with open(outp, "rb") as f:
                data = f.read(1 << 18)
            o["size"] = min(os.path.getsize(outp), MAXINT)
        except OSError:
            data = None
    elif job.out == "pipe":
        data = b"".join(sink)
        o["size"] = len(data)
    o["outuntouched"] = data == job.pre if job.out == "ok" and not job.full else not (
        job.out == "uncreatable" and os.path.isfile("nodir/o.bin") or job.out == "pipe" and bool(data))
    if data is not None and st == "accept":
        o["nz"] = [[i, b] for i, b in enumerate(data) if b] if data.count(0) != len(data) else []
    if job.src == "ok" and not feeder:
        try:
            with open(src, "rb") as f:
                o["srcok"] = f.read() == text
        except OSError:
            o["srcok"] = False
    else:
        o["srcok"] = True
    o["san"] = b"Sanitizer" in so or b"runtime error:" in so
    if st.startswith(("signal", "exit", "hang")) or o["san"]:
        o["stdout"] = so[-1500:].decode("latin1")
    return o

class Runner:
    def __init__(self, exe, base, procs=8, timeout=20):
        self.hangs = multiprocessing.Value("i", 0)
        self.pool = multiprocessing.Pool(procs, _init, (exe, base, timeout, self.hangs))
    def run(self, jobs):
        """-> one observation per job, None for those that were not run"""
        self.hangs.value = 0
        return self.pool.map(run_job, jobs, chunksize=max(1, min(64, len(jobs) // 32 + 1)))
    def histories(self, tasks):
        from .session import run_history
        return self.pool.map(run_history, tasks, chunksize=max(1, min(64, len(tasks) // 32 + 1)))
    def together(self, tasks):
        from .together import run_together
        return self.pool.map(run_together, tasks, chunksize=max(1, min(64, len(tasks) // 32 + 1)))
    def close(self):
        self.pool.terminate(); self.pool.join()
