"""Drives the real code (the pv harness), collects traces and has TLC judge them."""
import hashlib, json, os, re, shutil, stat, sqlite3, subprocess, sys, tempfile, time, fcntl, ctypes, random, traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(ROOT, ".cache")
TARGET = os.path.join(CACHE, "target")
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
BASE_MS = 1_700_000_000_000
BIN = os.environ.get("PV_BIN") or os.path.join(TARGET, "debug", "pv")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


HAVE_CLI = True


class Infra(Exception):
    """The machinery itself failed; never a verdict on the code."""


def build_env():
    env = dict(os.environ)
    txt = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout
    for kv in txt.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode(errors="replace")
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_BUILD_JOBS"] = "8"
    return env


def build():
    """Build the harness (and with it the code) from /repo's working tree."""
    global HAVE_CLI
    os.makedirs(CACHE, exist_ok=True)
    hdr = os.path.join(REPO, "go/cpossum/possum.h")
    old = open(hdr, "rb").read() if os.path.exists(hdr) else None
    with open(os.path.join(CACHE, "build.lock"), "w") as lockf:
        fcntl.flock(lockf, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"),
                           env=build_env(), capture_output=True, text=True)
        HAVE_CLI = r.returncode == 0
        if r.returncode != 0:       # perhaps for want of the command line tool
            err = r.stderr
            r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--no-default-features"],
                               cwd=os.path.join(ROOT, "harness"), env=build_env(), capture_output=True, text=True)
            r.stderr = err + r.stderr
        if old is not None and open(hdr, "rb").read() != old:
            open(hdr, "wb").write(old)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise Infra("the harness does not build against /repo")


_scratch = None


def scratch():
    """A scratch root on a file system that can punch holes."""
    global _scratch
    if _scratch:
        return _scratch
    libc = ctypes.CDLL(None, use_errno=True)
    for base in (CACHE, "/tmp", "/dev/shm", "/var/tmp"):
        try:
            os.makedirs(base, exist_ok=True)
            d = tempfile.mkdtemp(prefix="pvrun-", dir=base)
        except OSError:
            continue
        p = os.path.join(d, "x")
        with open(p, "wb") as f:
            f.write(b"x" * 12288)
            f.flush()
            os.fsync(f.fileno())
            ok = libc.fallocate(f.fileno(), 3, ctypes.c_long(4096), ctypes.c_long(4096)) == 0
        if ok:
            with open(p, "rb") as f:
                ok = os.lseek(f.fileno(), 0, os.SEEK_HOLE) == 4096
        os.unlink(p)
        if ok:
            _scratch = d
            import atexit
            atexit.register(lambda pid=os.getpid(): os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
            return d
        os.rmdir(d)
    raise Infra("no file system that punches holes")


class Died(Exception):
    pass


class Worker:
    def __init__(self, run, p, env=None, args=()):
        e = {"PATH": os.environ.get("PATH", ""), "HOME": "/root", "PV_TMP": run.tmp, "RUST_BACKTRACE": "0"}
        e["PV_PANIC"] = "1"
        if run.mode == "flock":
            e["POSSUM_EMULATE_FREEBSD"] = "1"
        e.update(env or {})
        self.run, self.p = run, p
        self.errf = open(os.path.join(run.tmp, "stderr-%d-%d" % (p, len(run.all_workers))), "w+b")
        self.proc = subprocess.Popen([run.bin, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self.errf, env=e, cwd=run.tmp)
        self.st = {}
        self.alive = True

    def cmd(self, c):
        try:
            self.proc.stdin.write((json.dumps(c) + "\n").encode())
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        line = self.proc.stdout.readline()
        if not line:
            self.alive = False
            rc = self.proc.wait()
            raise Died("worker %d ended unexpectedly with %s: %s" % (self.p, rc, self.stderr()))
        r = json.loads(line)
        if r.get("crash"):
            self.alive = False
            self.proc.wait()
        else:
            self.st = r.get("st", self.st)
        return r

    def stderr(self):
        self.errf.flush()
        self.errf.seek(0)
        return self.errf.read()[-2000:].decode(errors="replace")

    def kill(self):
        self.alive = False
        try:
            self.proc.kill()
        except OSError:
            pass
        self.proc.wait()
        for f in (self.proc.stdin, self.proc.stdout, self.errf):
            try:
                f.close()
            except OSError:
                pass


def clampi(x):
    return max(-2_000_000_000, min(2_000_000_000, int(x)))


class Run:
    """One recorded execution: a scratch directory, some processes, a trace."""

    def __init__(self, mode="seg", gate=False, name="", calls=False, mgate=False, tmp=None, sub="d", sgate=False):
        self.mode, self.gate, self.name, self.calls, self.mgate = mode, gate, name, calls, mgate or sgate
        self.sgate = sgate
        self.tmp = tmp or tempfile.mkdtemp(prefix="r", dir=scratch())
        self.dir = os.path.join(self.tmp, sub)
        self.bin = BIN
        self.procs, self.all_workers = {}, []
        self.clis = set()
        self.opened, self.hop = set(), {}     # handles that are open
        self.raw = []        # (ts, p, event), appended in order
        self.script = []     # commands, for replay
        self.files, self.fnames = {}, []
        self.bs = 4096
        self.db = None
        self.cands = []
        self.dead = False
        self.base_ts = 0
        self.notes = []
        self.stop = False    # a panic or hang was seen: nothing more to learn
        self.meta = {}

    # ---- processes
    def proc(self, p=1, clone=None, env=None):
        if p in self.procs and self.procs[p].alive:
            return self.procs[p]
        w = Worker(self, p, env)
        self.procs[p] = w
        self.all_workers.append(w)
        self.cmd(p, {"c": "init", "dir": self.dir, "gate": self.gate, "calls": self.calls, "mgate": self.mgate, "sgate": self.sgate,
                     "clone": self.mode == "clone" if clone is None else clone})
        return w

    def cli(self, p, args):
        """a process for one run of the command line tool"""
        if not HAVE_CLI:
            raise Infra("the command line tool does not build into the harness")
        args = [self.dir if a is None else a for a in args]
        w = Worker(self, p, {"PV_CLI": os.path.join(self.tmp, "cli-out-%d" % p)}, args)
        self.procs[p] = w
        self.all_workers.append(w)
        self.clis.add(p)
        self.cmd(p, {"c": "init", "dir": self.dir, "gate": self.gate, "calls": False, "mgate": self.mgate, "sgate": self.sgate,
                     "clone": self.mode == "clone", "args": [os.fsencode(a).decode("latin-1") for a in args]})
        return w

    def moves(self, actors, ms=20, n=100):
        """Somebody seems to stand still. Is it so, or has the machine been slow?"""
        was = {a: self.states().get(a) for a in actors}
        for _ in range(n):
            for p in {x[0] for x in was.values() if x}:
                if self.procs[p].alive and not self.stop:
                    self.cmd(p, {"c": "wait", "ms": ms})
            if self.stop or any(self.states().get(a) != was[a] for a in actors):
                return True
        return False

    def end(self, p):
        """the process is done"""
        if self.procs[p].alive:
            self.procs[p].kill()
            self.raw.append((time.monotonic_ns(), p, {"e": "crash"}))

    def cmd(self, p, c):
        w = self.procs[p]
        self.script.append([p, c])
        try:
            r = w.cmd(c)
        except Died as e:
            self.raw.append((time.monotonic_ns(), p, {"e": "bad", "what": "process died", "msg": str(e),
                                                       "last": c.get("op", {}).get("o", c.get("a", ""))}))
            self.notes.append(str(e))
            self.stop = True
            return {"ev": [], "st": {}, "died": True}
        self._take(p, r)
        if r.get("crash"):
            self.raw.append((time.monotonic_ns(), p, {"e": "crash"}))
        if r.get("timeout"):
            self.raw.append((time.monotonic_ns(), p, {"e": "hang", "a": ",".join(
                a for a, s in r["st"].items() if s == "running")}))
            self.stop = True
        return r

    def _take(self, p, r):
        for e in r.get("ev", ()):
            self.raw.append((e.pop("ts", 0), p, e))
            if e["e"] == "call" and e["op"]["o"] in ("open", "close"):
                self.hop[e["a"]] = e["op"]
            elif e["e"] == "ret" and e["a"] in self.hop:
                o = self.hop.pop(e["a"])
                if e["res"]["ok"]:
                    (self.opened.add if o["o"] == "open" else self.opened.discard)(o["h"])
            if e["e"] == "panic":
                if "harness:" in e["msg"]:
                    raise Infra("harness misuse: %s\nscript: %s" % (e["msg"], json.dumps(self.script[-6:])))
                self.stop = True

    def poll(self):
        """Let the other processes report what they did meanwhile."""
        for p, w in list(self.procs.items()):
            if w.alive:
                self.cmd(p, {"c": "status"})

    def states(self):
        r = {}
        for p, w in self.procs.items():
            if w.alive:
                for a, s in w.st.items():
                    r[a] = (p, s)
        return r

    def op(self, a, op, now=0, p=1, run="end"):
        """Start an operation on actor a. With run="end" it goes through all gates."""
        op = dict(op)
        if op["o"] == "open" and "dir" not in op:
            op["dir"] = self.dir
        if "id" in op and op["id"] not in self.cands:
            self.cands.append(op["id"])
        if op["o"] in ("get", "sread", "cread"):
            # (also contents that are written while the operation is on its way)
            m = max(self.cands, default=0)
            op["cand"] = self.cands + list(range(m + 1, m + 41))
        r = self.cmd(p, {"c": "op", "a": a, "op": op, "now": now, "run": run})
        if len(self.procs) > 1:
            self.poll()
        for e in r.get("ev", ()):
            if e["e"] == "ret" and e["a"] == a:
                return e["res"]
        return None

    def step(self, a, run="gate"):
        p, _ = self.states()[a]
        r = self.cmd(p, {"c": "step", "a": a, "run": run})
        if len(self.procs) > 1:
            self.poll()
        return r

    def pdrain(self, a=None, maxn=2000, sleeps=0, p=None):
        for q, w in list(self.procs.items()):
            if w.alive and (p is None or p == q):
                self.cmd(q, {"c": "pdrain", "max": maxn, "a": a or "", "sleeps": sleeps})

    def ev(self, e):
        self.raw.append((time.monotonic_ns(), 0, e))

    # ---- observations
    def _db(self):
        if self.db is None:
            self.db = sqlite3.connect("file:%s/manifest.db?mode=rw" % self.dir, uri=True, timeout=10,
                                      isolation_level=None)
        return self.db

    def close_db(self):
        if self.db is not None:
            self.db.close()
            self.db = None

    def read_rows(self):
        db = self._db()
        db.execute("begin")
        try:
            rows = db.execute("select key, value_length, file_id, file_offset, last_used from keys").fetchall()
            s = db.execute("select value from sums where key='value_length'").fetchall()
        finally:
            db.execute("rollback")
        return rows, (s[0][0] if s else -1)

    def audit(self):
        t0 = time.monotonic_ns()
        try:
            rows, s = self.read_rows()
        except sqlite3.Error as x:
            self.close_db()
            self.raw.append((t0, 0, {"e": "bad", "what": "manifest unreadable", "msg": repr(x)}))
            self.stop = True
            return
        self.raw.append((t0, 0, {"e": "audit", "rows": [
            {"k": list(k), "len": l, "f": self.fid("values-%08x" % f) if f is not None else -1,
             "off": o if o is not None else -1, "lu": clampi(lu - BASE_MS)}
            for k, l, f, o, lu in rows], "sum": clampi(s)}))

    def alloc(self, path):
        out = []
        with open(path, "rb") as f:
            size = os.fstat(f.fileno()).st_size
            pos = 0
            while pos < size:
                try:
                    a = os.lseek(f.fileno(), pos, os.SEEK_DATA)
                except OSError:
                    break
                b = os.lseek(f.fileno(), a, os.SEEK_HOLE)
                out.append([a, b])
                pos = b
        return out

    def space(self):
        files = []
        t0 = time.monotonic_ns()
        for n in sorted(os.listdir(self.dir)):
            if n.startswith("values-") and stat.S_ISREG(os.lstat(os.path.join(self.dir, n)).st_mode):
                files.append({"f": self.fid(n), "alloc": self.alloc(os.path.join(self.dir, n))})
        self.raw.append((t0, 0, {"e": "space", "files": files}))

    def scratch_files(self):
        return sorted(n for n in os.listdir(self.tmp) if n.startswith("scratch-"))

    def map(self, e="map"):
        """where there are bytes in the files"""
        t0 = time.monotonic_ns()
        files = []
        for d, names in ((self.dir, sorted(os.listdir(self.dir))), (self.tmp, self.scratch_files())):
            for n in names:
                path = os.path.join(d, n)
                if d == self.dir and not (n.startswith("values-") and stat.S_ISREG(os.lstat(path).st_mode)):
                    continue
                nz = []
                if d == self.tmp:
                    b = open(path, "rb").read()
                    nz = [[m.start(), m.end()] for m in re.finditer(rb"[^\0]+", b)]
                files.append({"f": self.fid(n), "size": os.path.getsize(path), "data": self.alloc(path), "nz": nz})
        self.raw.append((t0, 0, {"e": e, "files": files}))

    def dirs(self):
        """the snapshot directories there are"""
        t0 = time.monotonic_ns()
        self.raw.append((t0, 0, {"e": "dirs", "dirs": sorted(
            self.fid(n) for n in os.listdir(self.dir)
            if n.startswith("snapshot-") and os.path.isdir(os.path.join(self.dir, n))
            and not os.path.islink(os.path.join(self.dir, n)))}))

    def fabricate(self, rng):
        d = "snapshot-%06x" % rng.randrange(1 << 24)
        os.makedirs(os.path.join(self.dir, d))
        self.ev({"e": "mkdir", "a": "x", "f": d})
        for _ in range(rng.randint(0, 2)):
            f = d + "/values-%08x" % rng.randrange(1 << 32)
            open(os.path.join(self.dir, f), "wb").write(b"left over")
            self.ev({"e": "clone", "a": "x", "f": f, "n": 9, "c": "S", "src": "", "fd": 0})

    def others(self, set=False):
        """a digest of all other items, with their contents"""
        h = hashlib.sha1()
        t0 = time.monotonic_ns()

        def add(path, rel):
            st = os.lstat(path)
            h.update(("%s %o\n" % (rel, st.st_mode)).encode(errors="surrogateescape"))
            if os.path.islink(path):
                h.update(os.readlink(path).encode(errors="surrogateescape"))
            elif os.path.isdir(path):
                for n in sorted(os.listdir(path)):
                    add(os.path.join(path, n), rel + "/" + n)
            else:
                h.update(open(path, "rb").read())
        for n in sorted(os.listdir(self.dir)):
            path = os.path.join(self.dir, n)
            isdir = os.path.isdir(path) and not os.path.islink(path)
            isfile = os.path.isfile(path) and not os.path.islink(path)
            if (n.startswith("manifest.db") and isfile) or (n.startswith("values-") and isfile) or \
                    (n.startswith("snapshot-") and isdir):
                continue
            add(path, n)
        out = os.path.join(self.tmp, "outside")
        if os.path.isdir(out):
            add(out, "//")
        self.raw.append((t0, 0, {"e": "others", "h": h.hexdigest()[:12], "set": set}))

    def mkother(self, rng):
        """items that are none of the cache's business, some of them confusing"""
        d = self.dir
        out = os.path.join(self.tmp, "outside")
        os.makedirs(out, exist_ok=True)
        for n in ("values-12345678", "manifest.db", "x"):
            open(os.path.join(out, n), "wb").write(b"outside " + n.encode())

        def put(n, b=b"other"):
            open(os.path.join(d, n), "wb").write(b)

        def mk(n, *fs):
            os.makedirs(os.path.join(d, n))
            for f in fs:
                open(os.path.join(d, n, f), "wb").write(b"inner " + f.encode())
        makers = [lambda: put("notes.txt"), lambda: put("value-1"), lambda: put("Values-00000001"),
                  lambda: put("snapshot-readme"), lambda: put("snapshot"), lambda: put(".values-00000002"),
                  lambda: put("xvalues-00000003"), lambda: put("manifest", b""),
                  lambda: mk("values-dir", "values-00000001"), lambda: mk("sub", "values-00000004", "manifest.db"),
                  lambda: mk("snap", "x"), lambda: mk("empty"), lambda: mk("mysnapshot-1", "values-00000009"),
                  lambda: os.symlink(out, os.path.join(d, "snapshot-link")),
                  lambda: os.symlink(os.path.join(out, "values-12345678"), os.path.join(d, "values-link")),
                  lambda: os.symlink("nowhere", os.path.join(d, "dangling")),
                  lambda: put("caf\u00e9 \n"), lambda: put(os.fsdecode(b"bad\xff\xfename")),
                  lambda: mk(os.fsdecode(b"dir\xc3"), "x")]
        for m in rng.sample(makers, rng.randint(3, len(makers))):
            m()

    # ---- the trace
    def fid(self, n):
        if n not in self.files:
            self.files[n] = len(self.files) + 1
        return self.files[n]

    def canon(self):
        out = [{"e": "reset", "mode": self.mode, "bs": self.bs, "name": self.name}]
        for ts, p, e in sorted(self.raw, key=lambda x: x[0]):
            e = dict(e)
            e["p"] = e.get("p", p)
            if "f" in e and isinstance(e["f"], str):
                n = e["f"]
                if n.startswith("snapshot-"):
                    e["d"] = self.fid(n.split("/")[0])
                    if "/" in n:
                        e["vf"] = self.fid(n.split("/")[-1])
                if "c" not in e and e["e"] in ("unlink", "rmdir", "mkdir", "trunc", "punch", "write", "lock", "close"):
                    e["c"] = ("V" if n.startswith("values-") else
                              ("S" if "/" in n else "D") if n.startswith("snapshot-") else "-")
                e["f"] = self.fid(n)
            if e["e"] == "old":
                e["files"] = [self.fid(f) for f in e["files"]]
            if "src" in e and e["e"] == "clone":
                e["src"] = self.fid(e["src"] or "?")
            for k in ("off", "n", "len"):
                if k in e and isinstance(e[k], int):
                    e[k] = e[k] if abs(e[k]) < 2_000_000_000 else 0 if e["e"] == "lock" else clampi(e[k])
            if e["e"] == "punch":
                if not e.pop("mode") & 0x3a:
                    continue
            if e["e"] in ("punch", "fault", "trunc", "unlink"):
                m = re.match(r"P(\d+)", e["a"])
                e["h"] = int(m.group(1)) if m else 0
            if e["e"] == "call":
                o = dict(e["op"])
                for k in ("cand", "dir", "api", "seek", "null"):
                    o.pop(k, None)
                o.pop("src_file", None)
                o.pop("path", None)
                if isinstance(o.get("f"), str):
                    o["f"] = self.fid(o["f"])
                if "fs" in o:
                    o["fs"] = [self.fid(x) for x in o["fs"]]
                if o["o"] == "limits":
                    o.setdefault("nohp", False)
                if o["o"] == "vwrite":
                    o.setdefault("via", "write")
                if o["o"] in ("get",):
                    o.setdefault("s", 0)
                e["op"] = o
            if e["e"] == "ret":
                res = e["res"]
                if not res["ok"]:
                    res = {"ok": False, "err": res["err"], "v": 0}
                    e["msg"] = e["res"].get("msg", "")[:300]
                else:
                    v = res["v"]
                    v = {k: (clampi(x) if isinstance(x, int) and not isinstance(x, bool) else x)
                         for k, x in v.items() if x is not None}
                    if "entries" in v:
                        v["entries"] = [{"t": t, "f": self.fid(n) if t != "unknown" else 0} for t, n in v["entries"]]
                    if "lines" in v:
                        v["lines"] = [dict(x, f=self.fid(x["f"]), a=clampi(x["a"]), b=clampi(x["b"])) for x in v["lines"]]
                    if "items" in v:
                        v["items"] = [{"k": i["k"], "len": clampi(i["len"]), "lu": clampi(i["lu"])} for i in v["items"]]
                    res = {"ok": True, "v": v}
                e["res"] = res
            out.append(e)
        return out

    def finish(self):
        """End all processes, remove the scratch directory, return the trace."""
        for w in self.all_workers:
            w.kill()
        self.close_db()
        t = self.canon()
        shutil.rmtree(self.tmp, ignore_errors=True)
        return Trace(self.name, t, self.script, self.mode, self.meta, self.notes)


class Trace:
    def __init__(self, name, events, script=None, mode="seg", meta=None, notes=None):
        self.name, self.events, self.script, self.mode = name, events, script, mode
        self.meta, self.notes = meta or {}, notes or []
        self.skips = 0      # events stepped over


# ------------------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, args=(), timeout=600, heap="2g", workers=1, cwd=None):
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + md,
           "-cp", TLAJARS, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", cfg or module + ".cfg", *args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
    finally:
        shutil.rmtree(md, ignore_errors=True)


class Reject:
    def __init__(self, trace, at, event, whys):
        self.trace, self.at, self.event, self.whys = trace, at, event, whys

    def __str__(self):
        return "%s at event %d %s: %s" % (self.trace.name, self.at, json.dumps(self.event)[:300],
                                          "; ".join(self.whys) or "no step of the specification explains this")


def step_over(t, at):
    """A copy of the trace in which the rejected event is stepped over, or None: what the real code does next
    may speak about other properties."""
    evs = t.events
    e = evs[at]
    if t.skips >= 6 or "skip" in e or e["e"] in ("hang", "panic", "bad"):
        return None
    new = dict(e, skip=True)
    rest = evs[at + 1:]
    audit = next((x for x in rest if x["e"] == "audit"), None)
    if e["e"] == "ret" and e["res"]["ok"]:
        op = next((x["op"]["o"] for x in reversed(evs[:at]) if x["e"] == "call" and x["a"] == e["a"]), None)
        if op not in READS:
            nxt = next((x for x in rest if x["e"] in ("call", "audit")), None)
            if audit is None:
                return None
            if nxt is audit:
                new["rows"] = audit["rows"]
            else:       # nobody looked before the next operation: only the state at the next look is judged
                new = audit
                t2 = Trace(t.name, evs[:at] + [new], t.script, t.mode, t.meta, t.notes)
                t2.skips = 99
                return t2
    t2 = Trace(t.name, evs[:at] + [new] + rest, t.script, t.mode, t.meta, t.notes)
    t2.skips = t.skips + 1
    return t2


READS = ("get", "cread", "ls", "rls", "sum", "walk", "sread", "sstat", "vlen", "clils", "cliinfo", "clholes", "clshow",
         "regions", "cllast")


def judge_batch(traces, timeout=800, about=None, found=None):
    """-> (rejections, events judged). Every rejection costs another run of TLC: after a few about the property
    (in this or parallel batches) there is nothing more to learn."""
    rej, n = [], 0
    todo = list(traces)
    start0 = time.time()
    found = [] if found is None else found
    while todo:
        path = tempfile.mktemp(prefix="trace-", suffix=".ndjson", dir=scratch())
        ends, total = [], 0
        with open(path, "w") as f:
            for t in todo:
                for e in t.events:
                    f.write(json.dumps(e) + "\n")
                total += len(t.events)
                ends.append(total)
        rc, out = tlc("PossumTrace", env={"TRACE": path}, timeout=timeout, heap="3g")
        os.unlink(path)
        m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
        evalerr = None
        if m and int(m.group(2)) == total:
            reached = int(m.group(1))
        else:
            # an event to which the specification gives no meaning at all (say, a use of something that
            # does not exist): the behaviour up to it is printed
            g = re.findall(r"^/\\ i = (\d+)", out, re.M)
            if rc != 75 or "evaluating" not in out or not g:
                raise Infra("TLC gave no verdict (rc %s):\n%s" % (rc, out[-3000:]))
            reached = int(g[-1])
            x = re.search(r"Error: (.*?)(?:\n\n|The behavior|Error:)", out, re.S)
            evalerr = "the specification gives no meaning to this event: " + (x.group(1)[:300] if x else "")
        if reached == total:
            return rej, n + total
        j = next(i for i, x in enumerate(ends) if x > reached)
        start = ends[j - 1] if j else 0
        whys = []
        for w in re.finditer(r'<<\s*"WHY",\s*%d,\s*(.*?)>>\s*\n(?=<<|\S|$)' % reached, out, re.S):
            x = re.sub(r"\s+", " ", w.group(1)).strip()
            if x not in whys:
                whys.append(x)
        if evalerr:
            whys.append(evalerr)
        elif "Error: " in out and "ostcondition" not in out:
            raise Infra("TLC error:\n" + out[-3000:])
        n += reached
        t, at = todo[j], reached - start
        todo = todo[j + 1:]
        if "skip" in t.events[at]:      # stepped over already, and that led nowhere
            continue
        r = Reject(t, at, t.events[at], whys)
        rej.append(r)
        if about is None or about(r):
            found.append(r)
        else:
            t2 = step_over(t, at)
            if t2:
                todo.insert(0, t2)
        if len(found) >= 10 or time.time() - start0 > (60 if found else timeout / 3):
            break
    return rej, n


def judge(traces, par=8, timeout=800, about=None):
    """Judge many traces in parallel batches of about equal size."""
    if not traces:
        return [], 0
    tot = sum(len(t.events) for t in traces)
    k = max(1, min(par, tot // 400 + 1))
    bins = [[] for _ in range(k)]
    size = [0] * k
    for t in sorted(traces, key=lambda t: -len(t.events)):
        i = size.index(min(size))
        bins[i].append(t)
        size[i] += len(t.events)
    with ThreadPoolExecutor(k) as ex:
        found = []
        res = list(ex.map(lambda b: judge_batch(b, timeout, about, found), [b for b in bins if b]))
    return [r for x in res for r in x[0]], sum(x[1] for x in res)


FAILED = []     # executions that got no result: without a violation elsewhere there is no verdict


def pmap(f, items, par=8):
    def g(x):
        try:
            return [f(x)]
        except Exception as e:
            FAILED.append(e if isinstance(e, Infra) else Infra(traceback.format_exc()))
            return []
    with ThreadPoolExecutor(par) as ex:
        return [y for x in ex.map(g, items) for y in x]
