"""The suites of executions behind each property's check."""
import json, os, random, re, sys, threading, time, zlib
import classify, pv, gen, sched, scen, crash, outdated
from kv import transitions
from store import follows
from pv import Run, pmap


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.traces, self.pending, self.rejects, self.direct = [], [], [], []
        self.events = 0
        self.models = {}
        self.threads = []
        self.info = {}
        self.suites = {}
        self.cur = None

    def log(self, *a):
        print("#", *a, file=sys.stderr, flush=True)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def seeds(self, what, n):
        base = zlib.crc32(("%s/%s/%s" % (self.prop, what, self.seed)).encode())
        return [base * 1000 + i for i in range(n)]

    # ---- models checked by TLC on their own
    def background_models(self, spec):
        for m in spec.get("models", ()):
            m = dict(m)
            if m.get("thorough") and not self.thorough:
                continue
            t = threading.Thread(target=self._model, args=(m,), daemon=True)
            t.start()
            self.threads.append(t)

    def _model(self, m):
        t0 = time.time()
        try:
            cfg = m["cfg"]
            if m.get("old"):
                with open(os.path.join(pv.SPEC, cfg)) as f:
                    text = f.read()
                cfg = os.path.join(pv.scratch(), "%s-%s.cfg" % (m["module"], m["old"]))
                with open(cfg, "w") as f:
                    f.write(text.replace("Old = {}", 'Old = {"%s"}' % m["old"]))
            rc, out = pv.tlc(m["module"], cfg=cfg, workers=m.get("workers", 2), heap=m.get("heap", "2g"),
                             timeout=m.get("timeout", 600), env=m.get("env"), args=m.get("args", ()))
        except Exception as e:
            rc, out = -1, repr(e)
        g = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.models[m["cfg"] + (" with " + m["old"] if m.get("old") else "")] = dict(rc=rc, out=out, generated=int(g[-1][0]) if g else 0,
                                     distinct=int(g[-1][1]) if g else 0, s=round(time.time() - t0, 1),
                                     expect=m.get("expect", "ok"))

    def join_models(self):
        for t in self.threads:
            t.join()
        for n, m in self.models.items():
            if m["expect"] == "ok" and (m["rc"] != 0 or "No error has been found" not in m["out"]):
                raise pv.Infra("the model %s does not check:\n%s" % (n, m["out"][-3000:]))
            if m["expect"] == "violated" and "is violated" not in m["out"] and "Deadlock reached" not in m["out"]:
                raise pv.Infra("the model %s should show a violation:\n%s" % (n, m["out"][-3000:]))

    # ---- executions of the real code
    def add(self, traces):
        for t in traces:
            if t is None:
                continue
            if self.cur:
                t.meta.setdefault("suite", self.cur)
                s = self.suites.setdefault(self.cur, {"executions": 0, "events": 0})
                s["executions"] += 1
                s["events"] += len(t.events)
            self.traces.append(t)
            self.pending.append(t)

    def judge_all(self):
        rej, n = pv.judge(self.pending, timeout=3000 if self.thorough else 700,
                          about=lambda r: not classify.props(r) or self.prop in classify.props(r))
        self.pending = []
        self.rejects += rej
        self.events += n

    # ---- what was covered
    def evidence(self):
        ops, kinds, distinct = {}, {}, set()
        samples = []
        for t in self.traces:
            sig = []
            for e in t.events:
                kinds[e["e"]] = kinds.get(e["e"], 0) + 1
                if e["e"] == "call":
                    ops[e["op"]["o"]] = ops.get(e["op"]["o"], 0) + 1
                sig.append((e["e"], e.get("a"), json.dumps(e["op"], sort_keys=True) if "op" in e else e.get("off")))
            distinct.add(hash(tuple(map(str, sig))))
        for t in self.traces[:2] + self.traces[-1:]:
            samples.append({"run": t.name, "mode": t.mode, "events": len(t.events),
                            "calls": [dict(e["op"], actor=e["a"]) for e in t.events if e["e"] == "call"][:25]})
        ms = {n: {k: m[k] for k in ("generated", "distinct", "s")} for n, m in self.models.items()}
        cov = {
            "states": sum(m["distinct"] for m in ms.values()) + self.events,
            "transitions": sum(m["generated"] for m in ms.values()) + self.events,
            "traces_validated_against_impl": len(self.traces),
            "distinct_executions": len(distinct),
            "events_judged": self.events,
            "operations_executed": ops, "events_by_kind": kinds,
            "models": ms, "suites": self.suites, "samples": samples,
            "rule": "every recorded execution of the real code must be a behaviour of spec/PossumTrace.tla (judged by "
                    "TLC, one state per event); executions are distinct by their sequence of events and calls",
        }
        cov.update(self.info)
        return {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                "coverage": cov,
                "assumptions": [
                    "the kernel's lock, hole punching and file semantics are as on this machine (file cloning is emulated)",
                    "SQLite is trusted for the atomicity of its own transactions",
                    "executions are those generated; models are checked within the bounds of their .cfg files"]}


# ------------------------------------------------------------------ sequential
def seqs(name, n, steps, tn=None, tsteps=None, space=False, tags=(), holes=0, off=0, **kw):
    """random sequences of calls, one at a time, with reclaimers in between"""
    def f(cx):
        cx.cur = name

        def one(s):
            k = dict(kw)
            for x in list(k):
                if callable(k[x]):
                    k[x] = k[x](random.Random(s))
            g = gen.Seq(s, cx.q(steps, tsteps or steps * 2), name="%s-%d" % (name, s), **k)
            t = g.run_holes(holes) if holes else g.run_off(off) if off else g.run(space=space)
            t.meta["tags"] = list(tags) + (["c"] if "c" in k.get("apis", ()) and
                                           any(e["e"] == "call" and e["op"]["o"] == "open" for e in t.events) else [])
            return t
        cx.add(pmap(one, cx.seeds(name, cx.q(n, tn or n * 10))))
    return (name, f)


def resolve(kw, s):
    k = dict(kw)
    for x in list(k):
        if callable(k[x]):
            k[x] = k[x](random.Random(s))
    return k


# ------------------------------------------------------------------ cut short, disturbed
def _disturbed(name, kind, choose, n, tn, steps, tags, kw):
    """choose(cx, rng, calls) -> plans"""
    def f(cx):
        cx.cur = name

        def dry(s):
            k = resolve(kw, s)
            _, calls = crash.dry(lambda nm: crash.Disturbed(s, cx.q(steps, steps * 2), name="%s-%d-%s" % (name, s, nm), **k))
            rng = random.Random(s)
            return [(s, i, p) for i, p in enumerate(choose(cx, rng, calls)) if p]
        jobs = [j for js in pmap(dry, cx.seeds(name, cx.q(n, tn))) for j in js]

        def one(j):
            s, i, p = j
            g = crash.Disturbed(s, cx.q(steps, steps * 2), name="%s-%d-%d" % (name, s, i), **resolve(kw, s))
            g.faulty = kind == "fault"
            g.prepare(p, kind)
            t = g.go()
            t.meta["tags"] = list(tags)
            t.meta["plan"] = p
            return t
        ts = pmap(one, jobs)
        cx.add(ts)
        d = cx.info.setdefault(kind + "_points", {})
        for t in ts:
            p = t.meta["plan"]
            if any(e["e"] == ("crash" if kind == "crash" else "fault") for e in t.events):
                x = "%s:%s" % (p["cls"] or "*", p["call"])
                d[x] = d.get(x, 0) + 1
    return (name, f)


def spread(rng, pts, k):
    """k of the points, every kind of call represented"""
    by = {}
    for p in pts:
        by.setdefault((p["cls"], p["call"], p["actor"]), []).append(p)
    for x in by.values():
        rng.shuffle(x)
    out = []
    while len(out) < k and by:
        for x in sorted(by):
            if len(out) < k:
                out.append(by[x].pop())
            if not by[x]:
                del by[x]
    return out


def crashes(name, n, per, tn, tper, steps=25, tags=("crash",), only=None, after=.3, cls=None, **kw):
    """a process dies at (just before, or just after) some call; others look at what it left"""
    def choose(cx, rng, calls):
        pts = crash.points(calls, crash.MUT, cls=cls)
        if only:
            pts = [p for p in pts if only(p)]
        out = []
        for p in spread(rng, pts, cx.q(per, tper)):
            out.append(dict(p, after=rng.random() < after))
        return out
    return _disturbed(name, "crash", choose, n, tn, steps, tags, kw)


def faults(name, n, per, tn, tper, steps=25, tags=("fault",), cls=None, calls=None, **kw):
    """one system call fails"""
    want = calls

    def choose(cx, rng, calls):
        out = []
        for p in spread(rng, crash.points(calls, want or tuple(crash.ERRNO), cls=cls), cx.q(per, tper)):
            out.append(dict(p, errno=rng.choice(crash.ERRNO[p["call"]]), short=rng.random() < .3,
                            times=2 if p["call"] == "open" and p["cls"] in "MWHJ" else 1))
        return out
    return _disturbed(name, "fault", choose, n, tn, steps, tags, kw)


def stretches(name, n, per, tn, tper, steps=25, tags=("fault",), **kw):
    """system calls of one kind fail for a while"""
    return _disturbed(name, "fault", lambda cx, rng, calls: [crash.stretch(rng, calls) for _ in range(cx.q(per, tper))],
                      n, tn, steps, tags, kw)


# ------------------------------------------------------------------ interleaved
def scheds(name, n, kinds, tn=None, tags=("sched",), **kw):
    """random programs, randomly interleaved from one step of the code to the next"""
    def f(cx):
        cx.cur = name

        def one(s):
            k = resolve(kw, s)
            t = scen.random_run(s, kinds if isinstance(kinds, (list, tuple)) else kinds.split(), name="%s-%d" % (name, s),
                                tags=tags, **k)
            return t
        cx.add(pmap(one, cx.seeds(name, cx.q(n, tn or n * 12))))
    return (name, f)


def twice(kind, q, others, i):
    """every third time the next opening is cut short as well"""
    if i % 3:
        return [(kind, q)]
    o = random.Random(i * 7 + q["nth"]).choice(others)
    return [(kind, q), (kind, dict(o, nth=max(1, o["nth"] - i % 4)))]


def first_opens(name, kind, n, tn, tags, **kw):
    """the very first opening dies, or is disturbed, at every one of its calls; then several use the directory"""
    def f(cx):
        cx.cur = name
        mk = lambda nm: crash.Disturbed(1, 0, name="%s-%s" % (name, nm))
        _, calls = crash.dry(mk)
        rng = random.Random(cx.seed)
        jobs = []
        for p in crash.points(calls, crash.MUT if kind == "crash" else tuple(crash.ERRNO)):
            for after in ((False, True) if kind == "crash" else (False,)):
                q = dict(p, after=after)
                if kind == "fault":
                    q.update(errno=rng.choice(crash.ERRNO[p["call"]]), short=rng.random() < .3,
                             times=2 if p["call"] == "open" and p["cls"] in "MWHJ" else 1)
                jobs.append(q)
        rng.shuffle(jobs)
        last = max([j["nth"] for j in jobs if j["cls"] == "J" and j["call"] == "write"] or [0])
        lastm = max([j["nth"] for j in jobs if j["cls"] == "M" and j["call"] == "write"] or [0])
        keep = [j for j in jobs if not (j["cls"] == "J" and j["call"] == "write" and j["nth"] < last - 6)]
        jobs = (keep + [j for j in jobs if j not in keep])[:cx.q(n, tn)]

        # the last steps of the opening leave most to get wrong: several goes at these
        jobs += [j for j in jobs if j["cls"] in "JM" and j["call"] in ("write", "unlink") and j["nth"] >= last - 6
                 or j["call"] == "unlink" or j["cls"] == "M" and j["nth"] >= lastm] * cx.q(6, 20)

        def one(x):
            i, q = x
            return scen.random_run(cx.seed * 1000 + i, ["put", "dele", "dele", "put", "ls", "get"], actors=3, ops=3,
                                   handles=3, name="%s-%d" % (name, i), mgate=i % 2 == 0, pre=twice(kind, q, jobs, i), tags=tags,
                                   fill=2, mode="flock" if i % 3 == 0 else "seg")
        cx.add(pmap(one, list(enumerate(jobs))))
        cx.info["first_open_" + kind] = len(jobs)
    return (name, f)


def upgrades(name, n, tn, tags=("open",), kind=None, per=14, tper=40, held=False):
    """outdated directories are opened (and the opening dies, or is disturbed, at some call), then used"""
    def f(cx):
        cx.cur = name

        def prep(s):
            return lambda r, rng: outdated.prepare(r, random.Random(s))

        def jobs_of(s):
            if not kind:
                return [(s, 0, None)]

            class D(crash.Disturbed):
                pass

            def mk(nm):
                g = crash.Disturbed(s, 0, name="%s-%s" % (name, nm))
                outdated.prepare(g.r, random.Random(s))
                return g
            _, calls = crash.dry(mk)
            rng = random.Random(s)
            pts = crash.points(calls, crash.MUT if kind == "crash" else tuple(crash.ERRNO))
            out = []
            for i, p in enumerate(spread(rng, pts, cx.q(per, tper))):
                q = dict(p, after=rng.random() < .4)
                if kind == "fault":
                    q.update(errno=rng.choice(crash.ERRNO[p["call"]]), short=rng.random() < .3,
                             times=2 if p["call"] == "open" and p["cls"] in "MWHJ" else 1)
                out.append((s, i, q))
            return out
        jobs = [j for js in pmap(jobs_of, cx.seeds(name, cx.q(n, tn))) for j in js]

        def one(j):
            s, i, q = j
            return scen.random_run(s, ["put", "dele", "ls", "get", "batch"], actors=2, ops=2, handles=2, prep=prep(s),
                                   apis=("r", "c") if s % 2 else ("r",), pre=twice(kind, q, [x[2] for x in jobs if x[0] == s], i) if q else (), tags=tags, fill=2, held=held,
                                   name="%s-%d-%d" % (name, s, i), mode=("seg", "clone", "flock")[s % 3])
        ts = pmap(one, jobs)
        cx.add(ts)
        d = cx.info.setdefault("outdated", {})
        for t in ts:
            k = t.meta.get("outdated", "?")
            d[k] = d.get(k, 0) + 1
    return (name, f)


def explores(name, what, limit, tlimit, bound=2, tbound=3, modes=("seg",), mgate=False, tags=("sched",)):
    """all interleavings of small scenarios with few preemptions"""
    def f(cx):
        cx.cur = name

        def one(x):
            w, m = x
            return x, scen.explore(w, m, cx.q(bound, tbound), cx.q(limit, tlimit), cx.seed, tags=tags, mgate=mgate)
        jobs = [(w, m) for w in what.split() for m in modes]
        for (w, m), (ts, complete) in pmap(one, jobs):
            cx.add(ts)
            cx.info.setdefault("interleavings", {})["%s/%s%s" % (w, m, "/manifest" if mgate else "")] = {
                "schedules": len(ts), "all_within_bound": complete, "preemptions": cx.q(bound, tbound)}
    return (name, f)


def patient(name, tags=("sched",)):
    """somebody keeps the manifest for longer than any timeout: everybody else waits, and then completes"""
    def f(cx):
        cx.cur = name
        jobs = [(i, what, m, p, api) for i, (what, m, p, api) in enumerate(
            (what, m, p, api) for what in scen.PATIENT
            for m, p, api in (("seg", 1, "r"), ("seg", 2, "r"), ("clone", 1, "r"), ("flock", 1, "r"), ("seg", 1, "c"))
            if not (api == "c" and what == "ren"))]
        ts = pmap(lambda j: scen.patience(cx.seed * 100 + j[0], j[1], j[2], j[3], j[4]), jobs)
        cx.add(ts)
        cx.info[name] = {"runs": len(ts), "waited_out": sum(t.meta.get("slept", 0) > 80 for t in ts)}
    return (name, f)


def pick(*xs):
    return lambda rng: rng.choice(xs)


SMALL = [0, 1, 4096, 5000, 12288]
ABYTES = [[], [0], [97], [97, 98], [97, 255], [97, 255, 255], [98], [255], [255, 255], [97, 0], [254, 255], [97, 0, 98]]
KALL = ["put", "batch", "dele", "delp", "mvp", "ls", "get", "reader", "sum"]

W17 = dict(cleanup=6, dirs=6, fab=2, reader=14, sread=8, sdrop=5, walk=3, close=2)

W18 = dict(cli=60, put=20, dele=10, batch=14, limits=5, reader=3, sread=1, sdrop=5, drain=2, pstep=3, close=2)
L18 = [0, 1, 4095, 4096, 4097, 5000, 8192, 10000, 12288, 20000, 40000]
OLD = lambda m: dict(module=m, cfg=m + "Old.cfg", expect="violated")
STORE = lambda m, cfg=None, **kw: dict(module=m, cfg=(cfg or m) + ".cfg", **kw)
WAS = lambda m, old: dict(module=m, cfg=m + ".cfg", old=old, expect="violated")

LP = [0, 1, 100, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 12288, 12300, 16000, 20000]
KP = [[97], [98], [99], [97, 98], [97, 99], [100], [101], [102]]
K18 = lambda rng: [[97], [97, 98], [98]] + rng.sample([[195, 169], [97, 32, 98], [99, 255], [226, 130, 172, 120], [100]], 3)

CHECKS = {
    "C01": dict(suites=[
        seqs("basic", 24, 70),
        seqs("mixed", 16, 70, apis=("r", "c"), handles=3, tags=()),
        seqs("clone", 10, 60, mode="clone"),
        seqs("flock", 10, 60, mode="flock"),
        seqs("procs", 8, 50, nproc=2, handles=3, apis=("r", "r", "c")),
        scheds("interleaved", 24, "put batch get reader dele", actors=3, ops=2),
        scheds("cinterleaved", 12, "put batch cread reader dele", actors=3, ops=2, apis=("c",)),
        explores("systematic", "put_get staged staged_procs", 25, 1500),
    ]),
    "C02": dict(suites=[
        seqs("batches", 28, 80, handles=3, w=dict(batch=30, put=2, dele=3, audit=4, reader=6)),
        seqs("cbatches", 10, 80, handles=3, apis=("r", "c"), w=dict(batch=30, put=2, dele=3, audit=4)),
        seqs("procs", 8, 60, nproc=2, handles=3, w=dict(batch=30, put=2, audit=4)),
        seqs("clone", 6, 60, mode="clone", w=dict(batch=30, put=2, audit=4)),
        scheds("interleaved", 30, "batch batch reader ls get mvp", actors=3, ops=2),
        scheds("iprocs", 14, "batch batch reader ls get", actors=4, ops=2, procs=2, handles=4),
        scheds("imanifest", 24, "batch batch reader ls ls", actors=3, ops=2, mgate=True),
        explores("sysmanifest", "batch_rename batch_observer", 40, 1500, mgate=True),
        explores("systematic", "batch_observer two_batches", 25, 1500),
        crashes("crash", 4, 20, 20, 100, w=dict(batch=40, put=2), tags=("crash", "batch")),
        faults("fault", 3, 16, 15, 100, w=dict(batch=40, put=2), tags=("fault", "batch")),
        transitions("model", "KvBatch", maxops=4000),
    ]),
    "C03": dict(models=[STORE("Store1"), STORE("Clone3"), WAS("Clone3", "len")], suites=[
        seqs("snaps", 24, 90, handles=2, w=dict(reader=14, sread=14, sdrop=3, close=2, dele=8, drain=4, pstep=6)),
        seqs("clone", 12, 80, mode="clone", w=dict(reader=14, sread=14, sdrop=3, close=2, dele=8, drain=4)),
        seqs("flock", 10, 80, mode="flock", w=dict(reader=14, sread=14, sdrop=3, close=2, dele=8, drain=4)),
        seqs("procs", 10, 60, nproc=3, handles=4, w=dict(reader=14, sread=14, sdrop=3, close=2, dele=8, drain=4)),
        seqs("c", 6, 80, apis=("c",), w=dict(reader=14, sread=14, sdrop=3, dele=8, drain=4)),
        scheds("interleaved", 30, "reader get get put dele batch", actors=3, ops=2),
        scheds("iprocs", 16, "reader get put dele", actors=4, ops=2, procs=2, handles=4),
        scheds("iclone", 12, "reader get put dele batch", actors=3, ops=2, mode="clone"),
        explores("systematic", "del_read snapdrop put_get close", 25, 1500),
        explores("sysclone", "clone_read", 20, 600, modes=("clone",)),
        follows("model", ["Store1", "Store1:recheck"], 120, 10 ** 6, procs=(1,)),
        follows("clones", ["Clone3", "Clone3:len"], 100, 10 ** 6, procs=(1, 2)),
    ]),
    "C04": dict(models=[STORE("Store2"), WAS("Store1", "recheck"), WAS("Store3", "split"), STORE("Store1", "Store1Big", thorough=True)], suites=[
        seqs("reclaim", 32, 100, lens=[1, 100, 4096, 5000, 8192, 12288, 20000], handles=2, nohp=0.02,
             w=dict(dele=14, put=14, drain=4, pstep=12, delp=2)),
        seqs("flock", 8, 80, mode="flock", w=dict(dele=14, put=14, drain=4, pstep=12)),
        seqs("procs", 10, 60, nproc=2, handles=3, w=dict(dele=14, put=14, drain=4, pstep=12)),
        seqs("clone", 6, 60, mode="clone", w=dict(dele=14, put=14, drain=4, pstep=12)),
        scheds("interleaved", 50, "dele put dele get batch delp", actors=3, ops=3, handles=2, lens=[1, 4096, 5000, 12288, 20000]),
        scheds("iprocs", 24, "dele put dele get batch", actors=4, ops=2, procs=2, handles=4),
        scheds("iflock", 16, "dele put dele get batch", actors=3, ops=3, mode="flock"),
        scheds("imanifest", 16, "dele put dele get", actors=3, ops=3, mgate=True),
        explores("systematic", "del_read del_put stale_punch stale_procs evict_all split split_procs", 40, 2000),
        explores("sysflock", "split", 20, 600, modes=("flock",)),
        crashes("crash", 3, 20, 15, 100, w=dict(dele=14, put=14, drain=4, pstep=12), cls="V"),
        follows("model", ["Store1", "Store2", "Store3:split", "Store1:recheck", "Store2:recheck"], 200, 10 ** 6, procs=(1, 2)),
    ]),
    "C05": dict(models=[STORE("StoreLive")], suites=[
        seqs("space", 32, 90, space=True, handles=2, lens=[0, 100, 4096, 8192, 12288, 20000, 40000], nohp=0.05,
             w=dict(dele=12, put=12, drain=4, pstep=8, delp=2, space=4, close=1.5)),
        seqs("flock", 8, 70, mode="flock", space=True, nohp=0.05, w=dict(dele=14, put=14, drain=4, space=3)),
        seqs("c", 6, 70, apis=("c",), space=True, nohp=0.05, w=dict(dele=14, put=14, drain=4, space=3)),
        seqs("off", 24, 1, off=4, apis=("r", "c"), lens=[0, 1, 100, 4096, 5000, 8192, 12288, 20000]),
        seqs("offprocs", 6, 1, off=4, nproc=2, handles=3, lens=[100, 4096, 8192, 12288, 20000]),
        seqs("offflock", 6, 1, off=4, mode="flock", apis=("r", "c"), lens=[100, 4096, 8192, 12288, 20000]),
        scheds("interleaved", 30, "dele put dele get batch delp", actors=3, ops=3, handles=2, space=True),
        scheds("iprocs", 12, "dele put dele get batch", actors=4, ops=2, procs=2, handles=4, space=True),
        faults("fault", 4, 16, 20, 100, w=dict(dele=14, put=14, drain=4, pstep=6)),
    ]),
    "C06": dict(models=[OLD("KvLru")], suites=[
        seqs("limits", 32, 90, handles=3, w=dict(limits=10, put=14, batch=14, dele=3, audit=2),
             limit_choices=(-1, 0, 1, 4096, 5000, 12000, 20000, 40000, 100000)),
        seqs("mixed", 12, 80, handles=3, apis=("r", "c"), w=dict(limits=10, put=14, batch=14)),
        seqs("procs", 6, 60, nproc=2, handles=3, w=dict(limits=10, put=14, batch=10)),
        scheds("interleaved", 24, "put batch limits limits", actors=3, ops=3, handles=1, excl=True),
        scheds("manifest", 16, "put batch put get dele", actors=3, ops=2, handles=3, limit=pick(5000, 9000, 15000), mgate=True),
        transitions("model", "KvLru", maxops=6000),
    ]),
    "C07": dict(suites=[
        seqs("lru", 32, 100, handles=2, lens=[0, 1000, 1000, 2000, 4096], limit_choices=(-1, 3000, 5000, 7000, 9000),
             w=dict(limits=6, put=16, get=14, ren=4, mvp=2, reader=10, audit=4, ls=6)),
        seqs("lruc", 12, 90, apis=("r", "c"), lens=[0, 1000, 1000, 2000, 4096], limit_choices=(-1, 3000, 5000, 7000),
             w=dict(limits=6, put=16, get=14, cread=8, reader=10, audit=4, ls=6)),
        seqs("clone", 6, 60, mode="clone", lens=[0, 1000, 2000], limit_choices=(-1, 3000, 5000), w=dict(limits=6, get=14)),
        scheds("interleaved", 20, "get put reader batch put ls", actors=3, ops=2, handles=2, limit=pick(3000, 5000, 7000),
               lens=[0, 1000, 1000, 2000], mgate=pick(False, True)),
        transitions("model", "KvLru", maxops=9000),
    ]),
    "C08": dict(suites=[
        seqs("sums", 32, 80, audit_each=True, handles=2, w=dict(ren=6, mvp=4, delp=3, limits=4, batch=12, sum=6)),
        seqs("sumc", 10, 80, audit_each=True, apis=("r", "c"), w=dict(mvp=4, delp=3, limits=4, batch=12)),
        crashes("crash", 4, 20, 20, 100, audit_each=False, w=dict(ren=6, mvp=4, delp=3, limits=4)),
        faults("fault", 4, 20, 20, 100, w=dict(ren=6, mvp=4, delp=3, limits=4)),
        scheds("interleaved", 16, KALL + ["ren"], actors=3, ops=2, handles=1, excl=True),
        transitions("model", "KvLru", maxops=4000),
    ]),
    "C09": dict(models=[STORE("Store3"), WAS("Store1", "lent"), STORE("Store3", "Store3Big", thorough=True)], suites=[
        seqs("writers", 24, 90, handles=3, w=dict(batch=40, put=6, dele=6, drain=4, pstep=8)),
        seqs("procs", 12, 70, nproc=3, handles=4, w=dict(batch=40, put=6, dele=6, drain=4, pstep=6)),
        seqs("clone", 8, 60, mode="clone", handles=3, w=dict(batch=40, put=6, clonefrom=6)),
        seqs("flock", 8, 60, mode="flock", handles=3, w=dict(batch=40, put=6)),
        scheds("interleaved", 40, "batch batch put dele", actors=3, ops=2, handles=3),
        scheds("iprocs", 20, "batch put dele", actors=4, ops=2, procs=3, handles=4),
        scheds("iflock", 14, "batch put dele", actors=3, ops=2, mode="flock"),
        explores("systematic", "two_batches del_put evict_all staged staged_procs split split_procs", 40, 2000),
        follows("model", ["Store3", "Store1", "Store3:split", "Store1:lent"], 150, 10 ** 6),
    ]),
    "C10": dict(models=[STORE("PossumInit"), WAS("PossumInit", "no wal"), WAS("PossumInit", "version first")], suites=[
        first_opens("first", "crash", 140, 400, ("crash", "open")),
        crashes("open", 1, 60, 2, 300, steps=1, after=.5),
        crashes("crash", 10, 32, 40, 150, apis=("r", "r", "c")),
        crashes("clone", 4, 30, 20, 120, mode="clone"),
        crashes("others", 5, 24, 20, 100, nproc=2, handles=3),
        crashes("flock", 3, 24, 10, 100, mode="flock"),
        scheds("together", 40, KALL, tn=800, procs=2, actors=4, handles=2, crash=("write", "punch", "trunc", "unlink", "lock"),
               tags=("crash",)),
    ]),
    "C11": dict(models=[OLD("KvBatch")], suites=[
        seqs("renames", 32, 90, handles=2, audit_each=False, w=dict(ren=16, mvp=8, batch=20, reader=8, audit=4, get=8),
             keys=lambda rng: rng.sample(ABYTES, 6)),
        seqs("cren", 10, 80, apis=("r", "c"), w=dict(ren=6, mvp=12, batch=24, reader=8, audit=4, get=6)),
        seqs("clone", 6, 60, mode="clone", w=dict(ren=16, mvp=8, batch=20, reader=8, audit=4)),
        scheds("interleaved", 24, "ren mvp put dele batch", actors=3, ops=2, handles=1, excl=True),
        scheds("manifest", 16, "mvp mvp dele put batch", actors=3, ops=2, handles=2, mgate=True),
        explores("manifest-systematic", "prefix", 30, 1500, mgate=True),
        explores("systematic", "rename prefix", 30, 1500),
        transitions("move", "KvMove", maxops=20000),
        transitions("batch", "KvBatch", maxops=5000),
    ]),
    "C12": dict(models=[OLD("KvPrefix")], suites=[
        seqs("prefixes", 36, 110, handles=2, lens=[0, 1, 100], keys=lambda rng: rng.sample(ABYTES, 9),
             w=dict(ls=30, delp=8, mvp=5, put=30, batch=3, reader=6, limits=0, clonefrom=0)),
        seqs("cprefixes", 16, 100, apis=("r", "c"), lens=[0, 1, 100], keys=lambda rng: rng.sample(ABYTES, 9),
             w=dict(ls=30, delp=8, mvp=5, put=30, batch=3, limits=0, reader=6)),
        scheds("interleaved", 16, "ls delp mvp put batch", actors=3, ops=2),
        scheds("manifest", 12, "ls delp delp mvp put batch reader", actors=3, ops=2, handles=2, mgate=True),
        explores("manifest-systematic", "prefix", 30, 1500, mgate=True),
        transitions("model", "KvPrefix", maxops=20000),
    ]),
    "C13": dict(suites=[
        first_opens("first", "fault", 90, 400, ("fault", "open")),
        faults("faults", 12, 36, 40, 200, apis=("r", "r", "c")),
        faults("clone", 5, 30, 20, 150, mode="clone", apis=("r", "c")),
        faults("flock", 4, 24, 15, 120, mode="flock"),
        faults("others", 4, 24, 15, 120, nproc=2, handles=3),
        stretches("stretch", 10, 16, 40, 60, apis=("r", "r", "c")),
        stretches("stretchclone", 4, 12, 20, 60, mode="clone"),
        seqs("sources", 12, 70, w=dict(putsrc=14, batch=24)),
    ]),
    "C14": dict(models=[WAS("Store1", "nowait"), WAS("StoreLive", "trim")], suites=[
        patient("patience"),
        scheds("any", 50, KALL, actors=3, ops=2, handles=2),
        scheds("excl", 20, KALL + ["ren", "limits"], actors=3, ops=2, handles=1, excl=True),
        scheds("procs", 20, KALL, actors=4, ops=2, handles=4, procs=2),
        scheds("flock", 16, KALL, actors=3, ops=2, mode="flock"),
        scheds("clone", 16, KALL, actors=3, ops=2, mode="clone"),
        scheds("c", 20, KALL + ["stat", "cread"], actors=3, ops=2, handles=2, apis=("c", "r")),
        scheds("manifest", 24, KALL, actors=3, ops=2, handles=2, mgate=True),
        explores("systematic", "put_get put_get2 del_read two_batches prefix rename close c", 30, 2500),
        explores("manifest-systematic", "prefix put_get", 25, 800, mgate=True),
        follows("model", ["Store1", "Store1:nowait"], 80, 10 ** 6),
    ]),
    "C15": dict(suites=[
        seqs("capi", 36, 100, apis=("c",), handles=2, w=dict(cread=14, ls=8, batch=14, reader=8, delp=2, mvp=2)),
        seqs("mixed", 16, 90, apis=("r", "c"), handles=3, w=dict(cread=14, ls=8, batch=14, reader=8)),
        seqs("procs", 6, 60, apis=("r", "c"), nproc=2, handles=3, w=dict(cread=14, ls=8)),
        scheds("interleaved", 24, "put batch cread reader dele mvp delp ls stat", actors=3, ops=2, apis=("c",)),
        scheds("iclone", 10, "put batch cread reader dele", actors=3, ops=2, apis=("c",), mode="clone"),
        explores("systematic", "c", 40, 1500),
    ]),
    "C16": dict(models=[STORE("PossumInit"), WAS("PossumInit", "files last")], suites=[
        upgrades("upgrade", 40, 400),
        upgrades("upgradeheld", 24, 240, held=True),
        upgrades("upgradecrash", 10, 60, kind="crash", tags=("open", "crash")),
        upgrades("upgradefault", 6, 40, kind="fault", tags=("open", "fault")),
        seqs("reopen", 16, 60, handles=3, apis=("r", "r", "c"), other=True, tags=("open",), audit_each=True, w=dict(close=20)),
        seqs("reopenprocs", 12, 60, nproc=3, handles=4, apis=("r", "c"), tags=("open",), w=dict(close=20, audit=10)),
        seqs("reopenclone", 8, 50, mode="clone", handles=3, tags=("open",), w=dict(close=20, audit=10)),
        scheds("opens", 30, "open open put dele get", actors=3, ops=2, handles=1, sub=pick("d", "n1/n2/d"), tags=("open", "sched")),
        scheds("openprocs", 30, "open open open put dele", actors=4, ops=2, procs=3, handles=3, tags=("open", "sched")),
        scheds("opensmanifest", 20, "open open put", actors=3, ops=2, handles=1, mgate=True, tags=("open", "sched")),
        explores("systematic", "open_open open_put", 40, 1500, mgate=True, tags=("open", "sched")),
        first_opens("first", "crash", 40, 400, ("crash", "open")),
    ]),
    "C17": dict(models=[STORE("Clone2"), WAS("Clone1", "nolock"), WAS("Clone2", "vanish"), STORE("Clone1", thorough=True)], suites=[
        seqs("life", 24, 80, mode="clone", apis=("r", "r", "c"), handles=3, other=True, tags=("dirs",), w=W17),
        seqs("procs", 16, 70, mode="clone", nproc=3, handles=4, apis=("r", "r", "c"), tags=("dirs",), w=W17),
        seqs("seg", 6, 60, other=True, tags=("dirs",), w=W17),
        seqs("flock", 6, 60, mode="flock", other=True, tags=("dirs",), w=W17),
        scheds("interleaved", 40, "reader get cleanup cleanup put dele", actors=3, ops=2, handles=3, mode="clone",
               fab=pick(0, 1, 2), tags=("dirs", "sched")),
        scheds("iprocs", 40, "reader get cleanup cleanup put dele", actors=4, ops=2, handles=4, procs=2, mode="clone",
               fab=pick(0, 1, 2), tags=("dirs", "sched")),
        scheds("killed", 40, "reader get cleanup reader put", actors=4, ops=2, handles=4, procs=3, mode="clone",
               crash=("mkdir", "clone", "open", "lock", "unlink", "rmdir"), tags=("dirs", "sched", "crash")),
        explores("systematic", "cleanup_read cleanup_procs cleanup_drop clone_read", 60, 2500, modes=("clone",),
                 tags=("dirs", "sched")),
        crashes("crash", 6, 20, 30, 80, mode="clone", cls="SD", tags=("crash", "dirs"), w=W17),
        crashes("crashprocs", 4, 16, 20, 60, mode="clone", cls="SD", nproc=2, handles=3, tags=("crash", "dirs"), w=W17),
        faults("fault", 5, 20, 25, 80, mode="clone", cls="SD", tags=("fault", "dirs"), w=W17),
        follows("model", ["Clone1", "Clone2", "Clone3", "Clone1:nolock", "Clone2:nolock", "Clone2:vanish"], 100, 10 ** 6, procs=(1, 2), tags=("dirs",)),
    ]),
    "C18": dict(models=[STORE("Store2")], suites=[
        seqs("tool", 24, 60, handles=2, tags=("cli",), nohp=.6, w=W18, keys=K18, lens=L18),
        seqs("toolflock", 6, 50, mode="flock", handles=2, tags=("cli",), nohp=.6, w=W18, keys=K18, lens=L18),
        seqs("toolclone", 6, 50, mode="clone", handles=2, tags=("cli",), nohp=.6, w=W18, keys=K18, lens=L18),
        seqs("toolprocs", 6, 50, nproc=2, handles=3, tags=("cli",), nohp=.6, w=W18, keys=K18, lens=L18),
        seqs("punching", 40, 1, holes=3, handles=2, nproc=2, tags=("cli",), keys=KP, lens=LP),
        seqs("punchingflock", 6, 1, mode="flock", holes=3, nproc=2, tags=("cli",), keys=KP, lens=LP),
        seqs("punchingclone", 6, 1, mode="clone", holes=3, nproc=2, tags=("cli",), keys=KP, lens=LP),
        scheds("interleaved", 40, "dele put dele get batch delp reader", actors=2, ops=3, handles=2, tools=2, nohp=.6, fill=6,
               keys=lambda rng: [[97], [98], [97, 99], [100], [101]], tags=("cli", "sched")),
        scheds("iprocs", 24, "dele put dele get batch", actors=3, ops=2, procs=2, handles=4, tools=1, nohp=.6, fill=6,
               keys=lambda rng: [[97], [98], [97, 99], [100]], tags=("cli", "sched")),
        scheds("iflock", 12, "dele put dele get batch", actors=2, ops=3, mode="flock", handles=2, tools=2, nohp=.6, fill=6,
               tags=("cli", "sched")),
        scheds("iclone", 12, "dele put dele get batch", actors=2, ops=3, mode="clone", handles=2, tools=2, nohp=.6, fill=6,
               tags=("cli", "sched")),
        explores("systematic", "tool_put tool_read tool_stale tool_del", 20, 800, tags=("cli", "sched")),
        follows("model", ["Store2", "Store2:toolview"], 160, 10 ** 6, procs=(1, 2), tags=("cli",)),
    ]),
}
