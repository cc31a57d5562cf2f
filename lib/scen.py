"""Small concurrent programs, and complete runs of them."""
import fcntl, os, random, struct
from pv import Run
import sched

K = [[97], [98], [97, 99]]
LEN = [1, 4096, 5000, 9000, 12288, 20000]


class World:
    """what the programs of one run share: fresh ids and names, keys, handles"""

    def __init__(self, rng, handles, keys=None, lens=None):
        self.rng, self.n, self.i = rng, 100, 0
        self.handles = handles         # h -> (process, api)
        self.keys = keys or K
        self.lens = lens or LEN
        self.excl = set()              # handles used by one actor only

    def new(self):
        self.n += 1
        return self.n

    def id(self):
        self.i += 1
        return self.i

    def key(self):
        return self.rng.choice(self.keys)

    def len(self):
        return self.rng.choice(self.lens)

    def pick(self, p, api=None, excl=False):
        hs = [h for h, (q, a) in sorted(self.handles.items()) if q == p and (api is None or a == api)]
        return self.rng.choice(hs) if hs else None


def p_put(w, p):
    h = w.pick(p)
    yield {"o": "put", "h": h, "k": w.key(), "id": w.id(), "n": w.len()}


def p_batch(w, p, n=None, rename=None, drop=False):
    h = w.pick(p)
    api = w.handles[h][1]
    held = None
    if api == "r" and (w.rng.random() < .3 if rename is None else rename):
        s = w.new()
        x = yield {"o": "get", "h": h, "k": w.key(), "s": s}
        if x["ok"] and x["v"]["len"] >= 0:
            held = s
    b = w.new()
    x = yield {"o": "bnew", "h": h, "b": b}
    vals = []
    for _ in range(n or w.rng.randint(1, 3)):
        v = w.new()
        x = yield {"o": "vbegin", "b": b, "v": v}
        if not x["ok"]:
            continue
        i, off = w.id(), 0
        good = True
        for _ in range(w.rng.randint(1, 2)):
            m = w.len()
            x = yield {"o": "vwrite", "v": v, "id": i, "off": off, "n": m,
                       "via": "fd" if api == "c" else w.rng.choice(["write", "copy", "fd"])}
            off += m
            if not x["ok"]:
                good = False
                break
        if good:
            vals.append(v)
        elif api == "r":
            yield {"o": "vdrop", "v": v}
        if vals and w.rng.random() < .6:
            yield {"o": "stage", "b": b, "v": vals.pop(0), "k": w.key()}
    for v in vals:
        yield {"o": "stage", "b": b, "v": v, "k": w.key()}
    if held:
        yield {"o": "brename", "b": b, "s": held, "i": 0, "k": w.key()}
    if drop and api == "r":
        yield {"o": "bdrop", "b": b}
    else:
        yield {"o": "commit", "b": b}
    if held:
        yield {"o": "sdrop", "s": held}


def p_del(w, p):
    yield {"o": "del", "h": w.pick(p), "k": w.key()}


def p_delp(w, p):
    yield {"o": "delp", "h": w.pick(p), "p": w.key()[:1]}


def p_mvp(w, p):
    yield {"o": "mvp", "h": w.pick(p), "from": w.key(), "to": w.key()}


def p_ren(w, p):
    # rename_item needs the handle for itself
    hs = [h for h in w.excl if w.handles[h][0] == p and w.handles[h][1] == "r"]
    if hs:
        yield {"o": "ren", "h": hs[0], "from": w.key(), "to": w.key()}


def p_limits(w, p):
    hs = [h for h in w.excl if w.handles[h][0] == p]
    if hs:
        yield {"o": "limits", "h": hs[0], "max": w.rng.choice([-1, 0, 9000, 15000, 30000]), "nohp": False}


def p_ls(w, p):
    yield {"o": "ls", "h": w.pick(p), "p": w.rng.choice([[], [97], w.key()])}


def p_sum(w, p):
    h = w.pick(p, "r")
    if h:
        yield {"o": "sum", "h": h}


def p_get(w, p, reads=1):
    h = w.pick(p, "r")
    if not h:
        return
    s = w.new()
    x = yield {"o": "get", "h": h, "k": w.key(), "s": s}
    if x["ok"] and x["v"]["len"] >= 0:
        for _ in range(reads):
            yield {"o": "sread", "s": s, "i": 0, "m": w.rng.choice(["view", "at", "reader"]), "pos": 0,
                   "n": x["v"]["len"] + 1}
        yield {"o": "sdrop", "s": s}


def p_stat(w, p):
    h = w.pick(p, "c")
    if h:
        yield {"o": "get", "h": h, "k": w.key()}


def p_cread(w, p):
    h = w.pick(p, "c")
    if h:
        yield {"o": "cread", "h": h, "k": w.key(), "pos": 0, "n": 20001}


def p_reader(w, p, reads=2, drop=False):
    h = w.pick(p)
    api = w.handles[h][1]
    r, s = w.new(), w.new()
    x = yield {"o": "rnew", "h": h, "r": r}
    if not x["ok"]:
        return
    lens = []
    for _ in range(w.rng.randint(1, 3)):
        x = yield {"o": "radd", "r": r, "k": w.key()}
        if x["ok"] and x["v"]["len"] >= 0:
            lens.append(x["v"]["len"])
    if w.rng.random() < .3:
        yield {"o": "rls", "r": r, "p": []}
    if drop:
        yield {"o": "rdrop", "r": r}
        return
    x = yield {"o": "rbegin", "r": r, "s": s}
    if not x["ok"]:
        return
    if not lens:
        yield {"o": "sdrop", "s": s}
        return
    for j in range(reads):
        for i in range(len(lens)):
            yield {"o": "sread", "s": s, "i": i, "m": "at" if api == "c" else w.rng.choice(["view", "at", "reader"]),
                   "pos": 0, "n": lens[i] + 3}
    yield {"o": "sdrop", "s": s}


def p_cleanup(w, p):
    yield {"o": "cleanup", "h": w.pick(p)}


def p_open(w, p):
    """somebody opens the directory, looks around, and leaves"""
    h = w.new()
    api = w.rng.choice(["r", "r", "c"])
    x = yield {"o": "open", "h": h, "api": api}
    if not x["ok"]:
        return
    for _ in range(w.rng.randint(1, 2)):
        k = w.key()
        if api == "c":
            yield {"o": "cread", "h": h, "k": k, "pos": 0, "n": 20001}
        else:
            yield from getting(w, h, k, w.new())
    yield {"o": "ls", "h": h, "p": []}
    yield {"o": "close", "h": h}


def cli_op(w, p, what):
    """(operation, arguments) of one run of the command line tool in directory None"""
    d = ["database", None]
    k = w.key()
    if what == "punch":
        return {"o": "clpunch", "f": 0, "fr": False}, d + ["punch-missing-holes"]
    if what == "holes":
        return {"o": "clholes", "f": 0, "fr": True}, d + ["print-missing-holes", "-f"]
    if what == "read":
        return {"o": "cread", "k": k, "pos": 0, "n": 2_000_000_000, "cand": list(range(1, 60))}, d + ["read-key", bytes(k).decode()]
    if what == "ls":
        return {"o": "clils", "p": []}, d + ["list-keys"]
    if what == "write":
        src = os.path.join(w.r.tmp, "src-%d" % w.new())
        os.makedirs(src)
        src = os.path.join(src, os.fsdecode(bytes(k)))
        return {"o": "put", "k": k, "id": w.id(), "n": w.len(), "src_file": list(os.fsencode(src))}, d + ["write-file", src]


def p_cli(w, p, what=None):
    """a run of the tool in a process of its own"""
    op, args = cli_op(w, p, what or w.rng.choice(["punch", "punch", "punch", "read", "write", "ls", "holes"]))
    w.r.cli(p, args)
    yield dict(op, cli=True, h=w.new())


PROGS = dict(open=p_open, cleanup=p_cleanup, put=p_put, batch=p_batch, dele=p_del, delp=p_delp, mvp=p_mvp, ren=p_ren, limits=p_limits, ls=p_ls,
             sum=p_sum, get=p_get, stat=p_stat, cread=p_cread, reader=p_reader)


def seq_of(w, p, kinds):
    def g():
        for k in kinds:
            yield from PROGS[k](w, p)
    return g()


class NotOpened(Exception):
    """opening failed, or worse: the trace says it all"""


def must_open(r, h, api, now, p):
    r.proc(p)
    x = r.op("m%d" % p, {"o": "open", "h": h, "api": api}, now=now, p=p)
    if not x or not x["ok"] or r.stop:
        raise NotOpened()
    if x["v"].get("bs"):
        r.bs = x["v"]["bs"]


def setup(r, rng, nh, procs=1, apis=("r",), keys=None, lens=None, fill=3, limit=None, nohp=0):
    """handles, and some values to begin with"""
    hs = {}
    for i in range(nh):
        p = 1 + i % procs
        api = apis[i % len(apis)]
        must_open(r, i + 1, api, 10 + i, p)
        hs[i + 1] = (p, api)
    w = World(rng, hs, keys, lens)
    w.r = r
    t = 100
    for h in hs:
        if rng.random() < nohp:
            t += 1
            r.op("m%d" % hs[h][0], {"o": "limits", "h": h, "max": -1, "nohp": True}, now=t, p=hs[h][0])
    for i in range(fill):
        h = rng.choice(list(hs))
        t += 1
        r.op("m%d" % hs[h][0], {"o": "put", "h": h, "k": w.keys[i % len(w.keys)], "id": w.id(), "n": w.len()},
             now=t, p=hs[h][0])
    if limit is not None:
        for h in hs:
            t += 1
            r.op("m%d" % hs[h][0], {"o": "limits", "h": h, "max": limit, "nohp": False}, now=t, p=hs[h][0])
    if rng.random() < .5:
        r.pdrain()
    return w


def wind_up(r, w, space=False):
    """nobody is in the middle of anything any more: look at everything there is"""
    t = 90000
    for p in list(r.procs):     # nothing else is to happen
        if r.procs[p].alive and not r.stop:
            r.cmd(p, {"c": "crash", "plan": None})
    if r.stop:
        return
    if any(not r.procs[p].alive for p, _ in w.handles.values()):
        # somebody died: a newcomer finds all in order
        w.handles = {h: x for h, x in w.handles.items() if r.procs[x[0]].alive}
        r.proc(9)
        x = r.op("m9", {"o": "open", "h": 99, "api": "r"}, now=80000, p=9)
        if r.stop or not x or not x["ok"]:
            return
        w.handles[99] = (9, "r")
    r.audit()
    r.dirs()
    w.handles = {h: x for h, x in w.handles.items() if h in r.opened}
    if not w.handles:
        return
    hs = list(w.handles)
    h0 = w.rng.choice(hs)
    p, api = w.handles[h0]

    def do(p, op):
        nonlocal t
        t += 1
        return r.op("m%d" % p, op, now=t, p=p) if not r.stop else None
    for k in w.keys:
        if api == "r":
            s = w.new()
            x = do(p, {"o": "get", "h": h0, "k": k, "s": s})
            if x and x["ok"] and x["v"]["len"] >= 0:
                do(p, {"o": "sread", "s": s, "i": 0, "m": "view", "pos": 0, "n": 0})
                do(p, {"o": "sdrop", "s": s})
        else:
            do(p, {"o": "cread", "h": h0, "k": k, "pos": 0, "n": 50000})
    do(p, {"o": "ls", "h": h0, "p": []})
    for h in hs:
        do(w.handles[h][0], {"o": "close", "h": h})
    if not r.stop:
        r.pdrain(sleeps=8)
        r.audit()
        r.dirs()
        if any(e["e"] == "others" for _, _, e in r.raw):
            r.others()
        if space:
            r.space()


def held_open(r, rng):
    """the directory is opened while something else, an older version say, still has some of its old values files
    locked; later it lets go of them"""
    fds = []
    fs = [f for f in sorted(os.listdir(r.dir)) if f.startswith("values-") and
          os.path.isfile(os.path.join(r.dir, f)) and not os.path.islink(os.path.join(r.dir, f))]
    for f in rng.sample(fs, rng.randint(1, len(fs))) if fs else ():
        fd = os.open(os.path.join(r.dir, f), os.O_RDWR)
        w = rng.random() < .4
        if r.mode == "flock":
            fcntl.flock(fd, (fcntl.LOCK_EX if w else fcntl.LOCK_SH) | fcntl.LOCK_NB)
        else:
            a, n = rng.choice([(0, 0), (0, 1), (4096, 100), (100000, 1)])
            fcntl.fcntl(fd, fcntl.F_OFD_SETLK, struct.pack("hhqqi", fcntl.F_WRLCK if w else fcntl.F_RDLCK, 0, a, n, 0))
        fds.append(fd)
    rng.shuffle(fds)
    p, h, m = 8, 90, "m8"
    r.proc(p)
    x = r.op(m, {"o": "open", "h": h, "api": "r"}, now=5, p=p)
    waited = 0
    for _ in range(200):
        if x is not None or r.stop or not r.procs[p].alive:
            break
        if r.states().get(m, (0, ""))[1].startswith("gate"):
            evs = r.step(m, run="end").get("ev", ())
        elif fds and not r.moves([m], n=3):
            waited += 1
            os.close(fds.pop())
            r.moves([m], n=3)
            evs = ()
        else:
            r.moves([m], n=100)
            evs = ()
        x = next((e["res"] for _, q, e in reversed(r.raw) if e["e"] == "ret" and e["a"] == m), None)
    r.meta["waited"] = waited
    if x is None and not r.stop:
        r.ev({"e": "hang", "a": m})
        r.stop = True
    for fd in fds:
        os.close(fd)
    if x and x["ok"] and not r.stop:
        r.op(m, {"o": "close", "h": h}, now=6, p=p)


def random_run(seed, kinds, actors=3, ops=2, handles=2, procs=1, apis=("r",), mode="seg", name=None, keys=None,
               lens=None, space=False, stay=None, limit=None, tags=("sched",), excl=False, fill=3, mgate=False, crash=None, pre=None,
               fab=0, prep=None, sub="d",
               tools=0, nohp=0, held=False):
    rng = random.Random(seed)
    r = Run(mode=mode, gate=True, name=name or "sched-%s" % seed, mgate=mgate, sub=sub)
    r.meta["tags"] = list(tags) + (["c"] if "c" in apis else [])
    if prep:
        prep(r, rng)
    if held:
        held_open(r, rng)
        if r.stop:
            return r.finish()
    for i, (kind, plan) in enumerate(pre or ()):
        # the very first opening was cut short or disturbed (and the next one too, perhaps)
        p, h, m = 8 + i, 90 + i, "m%d" % (8 + i)
        r.proc(p)
        r.cmd(p, {"c": kind, "plan": plan})
        x = r.op(m, {"o": "open", "h": h, "api": "r"}, now=5 + 2 * i, p=p)
        if r.procs[p].alive and not r.stop:
            r.cmd(p, {"c": kind, "plan": None})
            for _ in range(60):         # it may be waiting to try again
                if x is None and not r.stop and r.states().get(m, (0, ""))[1].startswith("gate"):
                    for e in r.step(m, run="end").get("ev", ()):
                        if e["e"] == "ret" and e["a"] == m:
                            x = e["res"]
            if x and x["ok"]:
                r.op(m, {"o": "close", "h": h}, now=6 + 2 * i, p=p)
        if r.stop:
            return r.finish()
    try:
        w = setup(r, rng, handles, procs, apis, keys, lens, fill=fill, limit=limit, nohp=nohp)
        for _ in range(fab):
            r.fabricate(rng)
        if excl:
            for i in range(actors):       # one more handle per actor, for calls that need it exclusively
                h = 10 + i
                p = 1 + i % procs
                must_open(r, h, "r", 50 + i, p)
                w.handles[h] = (p, "r")
    except NotOpened:
        return r.finish()
    progs = {}
    for i in range(actors):
        p = 1 + i % procs
        ww = w
        if excl:
            ww = World(rng, w.handles, w.keys, w.lens)
            ww.new, ww.id = w.new, w.id
            ww.handles = {h: x for h, x in w.handles.items() if h < 10 or h == 10 + i}
            ww.excl = {10 + i}
        progs["a%d" % i] = (p, seq_of(ww, p, [rng.choice(kinds) for _ in range(ops)]))
    for i in range(tools):
        progs["t%d" % i] = (100 + i, p_cli(w, 100 + i))
    ch = (sched.pct_chooser(rng, rng.randint(1, 4)) if rng.random() < .4 else
          sched.random_chooser(rng, rng.choice([.2, .5, .8]) if stay is None else stay))
    if crash:
        # one process (not the first) dies at some call
        r.cmd(rng.randint(2, procs), {"c": "crash", "plan": dict(
            cls="", call=rng.choice(crash), actor="", nth=rng.randint(1, 6), after=rng.random() < .3)})
    s = sched.Sched(r, progs, ch)
    ok = s.run()
    if ok:
        wind_up(r, w, space)
    return r.finish()


def fixed_run(name, mode, build, chooser, procs=1, space=False, tags=("sched",), trail=None, mgate=False):
    """build(r) -> (world, progs). For systematic exploration."""
    r = Run(mode=mode, gate=True, name=name, mgate=mgate)
    r.meta["tags"] = list(tags)
    try:
        w, progs = build(r)
    except NotOpened:
        return r.finish()
    s = sched.Sched(r, progs, chooser)
    ok = s.run()
    if trail is not None:
        trail += s.trail
    if ok:
        wind_up(r, w, space)
    return r.finish()


# ------------------------------------------------ small scenarios for systematic exploration
def _w(r, n=1, procs=1, apis=("r",), fill=(), mode=None, keys=None):
    hs = {}
    for i in range(n):
        p = 1 + i % procs
        must_open(r, i + 1, apis[i % len(apis)], 10 + i, p)
        hs[i + 1] = (p, apis[i % len(apis)])
    w = World(random.Random(5), hs, keys)
    w.r = r
    for j, (h, k, m) in enumerate(fill):
        r.op("m%d" % hs[h][0], {"o": "put", "h": h, "k": k, "id": w.id(), "n": m}, now=100 + j, p=hs[h][0])
    return w


def one(*ops):
    for o in ops:
        yield o


def reading(w, h, keys, s, api="r", n=20000, again=True):
    r = w.new()
    x = yield {"o": "rnew", "h": h, "r": r}
    got = 0
    for k in keys:
        x = yield {"o": "radd", "r": r, "k": k}
        got += x["ok"] and x["v"]["len"] >= 0
    x = yield {"o": "rbegin", "r": r, "s": s}
    if not x["ok"]:
        return
    for _ in range(2 if again else 1):
        for i in range(got):
            yield {"o": "sread", "s": s, "i": i, "m": "at" if api == "c" else "view", "pos": 0, "n": n}
    yield {"o": "sdrop", "s": s}


def getting(w, h, k, s):
    x = yield {"o": "get", "h": h, "k": k, "s": s}
    if x["ok"] and x["v"]["len"] >= 0:
        yield {"o": "sread", "s": s, "i": 0, "m": "view", "pos": 0, "n": 0}
        yield {"o": "sread", "s": s, "i": 0, "m": "at", "pos": 0, "n": 30000}
        yield {"o": "sdrop", "s": s}


def batch(w, h, items, b=50):
    yield {"o": "bnew", "h": h, "b": b}
    for j, (k, n) in enumerate(items):
        v = b * 10 + j
        yield {"o": "vbegin", "b": b, "v": v}
        yield {"o": "vwrite", "v": v, "id": w.id(), "off": 0, "n": n, "via": "copy"}
        yield {"o": "stage", "b": b, "v": v, "k": k}
    yield {"o": "commit", "b": b}


A, B, C = [97], [98], [97, 99]


def s_put_get(r):
    w = _w(r, 1, fill=[(1, A, 9000)])
    return w, {"a0": (1, one({"o": "put", "h": 1, "k": A, "id": w.id(), "n": 12288})), "a1": (1, getting(w, 1, A, 7))}


def s_put_get2(r):
    w = _w(r, 2, fill=[(1, A, 9000), (2, B, 5000)])
    return w, {"a0": (1, one({"o": "put", "h": 1, "k": A, "id": w.id(), "n": 12288})), "a1": (1, getting(w, 2, A, 7))}


def s_del_read(r):
    w = _w(r, 2, fill=[(1, A, 9000), (1, B, 9000), (1, C, 1)])
    return w, {"a0": (1, one({"o": "del", "h": 1, "k": A}, {"o": "del", "h": 2, "k": B})),
               "a1": (1, reading(w, 2, [A, B], 7))}


def s_del_put(r):
    w = _w(r, 2, fill=[(1, A, 9000), (1, B, 12288)])
    return w, {"a0": (1, one({"o": "del", "h": 1, "k": B})),
               "a1": (1, one({"o": "put", "h": 1, "k": C, "id": w.id(), "n": 9000})),
               "a2": (1, one({"o": "put", "h": 2, "k": B, "id": w.id(), "n": 5000}))}


def s_del_put_procs(r):
    w = _w(r, 2, procs=2, fill=[(1, A, 9000), (2, B, 12288)])
    return w, {"a0": (1, one({"o": "del", "h": 1, "k": A})),
               "a1": (2, one({"o": "put", "h": 2, "k": C, "id": w.id(), "n": 9000}))}


def opening(w, h, k, api="r"):
    x = yield {"o": "open", "h": h, "api": api}
    if x["ok"]:
        yield {"o": "ls", "h": h, "p": []}
        if api == "r":
            yield from getting(w, h, k, w.new())
        else:
            yield {"o": "cread", "h": h, "k": k, "pos": 0, "n": 20001}
        yield {"o": "close", "h": h}


def s_open_open(r):
    """several open a directory nobody has open"""
    w = _w(r, 1, fill=[(1, A, 5000), (1, B, 100)])
    r.op("m1", {"o": "close", "h": 1}, now=300)
    r.pdrain(sleeps=3)
    r.proc(2)
    w.handles = {}
    for i in (3, 4):
        w.handles[50 + i] = (1, "r")
    def late():
        yield from opening(w, 4, B, "c")
        yield {"o": "open", "h": 53, "api": "r"}
        yield {"o": "open", "h": 54, "api": "r"}
    return w, {"a0": (1, late()), "a1": (2, opening(w, 6, A))}


def s_open_put(r):
    w = _w(r, 1, fill=[(1, A, 5000), (1, B, 100)])
    return w, {"a0": (1, opening(w, 4, A)),
               "a1": (1, one({"o": "put", "h": 1, "k": A, "id": w.id(), "n": 100}, {"o": "del", "h": 1, "k": B}))}


def s_cleanup_read(r):
    """a snapshot comes and goes while others clean up"""
    w = _w(r, 2, fill=[(1, A, 5000), (1, B, 100)])
    r.fabricate(random.Random(1))
    return w, {"a0": (1, reading(w, 1, [A], 7, again=False)), "a1": (1, one({"o": "cleanup", "h": 2}))}


def s_cleanup_procs(r):
    w = _w(r, 2, procs=2, fill=[(1, A, 5000), (1, B, 100)])
    r.fabricate(random.Random(2))
    return w, {"a0": (1, reading(w, 1, [A, B], 7, again=False)), "a1": (2, one({"o": "cleanup", "h": 2}))}


def s_cleanup_drop(r):
    """the last user of a directory goes while others clean up"""
    w = _w(r, 3, fill=[(1, A, 5000), (1, B, 100)])
    r.op("m1", {"o": "get", "h": 1, "k": A, "s": 60}, now=200)
    r.op("m1", {"o": "close", "h": 1}, now=201)
    del w.handles[1]
    return w, {"a0": (1, one({"o": "sread", "s": 60, "i": 0, "m": "view", "pos": 0, "n": 0}, {"o": "sdrop", "s": 60})),
               "a1": (1, one({"o": "cleanup", "h": 2})), "a2": (1, one({"o": "cleanup", "h": 3}))}


def s_evict_all(r):
    """the only value of a file goes while another writer fills the file again"""
    w = _w(r, 2, fill=[(1, A, 9000)])
    return w, {"a0": (1, one({"o": "del", "h": 1, "k": A})),
               "a1": (1, batch(w, 1, [(B, 5000), (C, 9000)])),
               "a2": (1, getting(w, 2, B, 7))}


def _staged(r, procs):
    """a value is staged, the next one is given up; its neighbours go meanwhile, and then it is committed"""
    w = _w(r, 2, procs=procs, fill=[(1, A, 9000), (1, C, 1)])
    p2 = w.handles[2][0]

    def prog():
        yield {"o": "bnew", "h": 1, "b": 50}
        yield {"o": "vbegin", "b": 50, "v": 500}
        yield {"o": "vwrite", "v": 500, "id": w.id(), "off": 0, "n": 12288, "via": "copy"}
        yield {"o": "stage", "b": 50, "v": 500, "k": B}
        yield {"o": "vbegin", "b": 50, "v": 501}
        yield {"o": "vwrite", "v": 501, "id": w.id(), "off": 0, "n": 5000, "via": "write"}
        yield {"o": "vdrop", "v": 501}
        yield {"o": "vbegin", "b": 50, "v": 502}
        yield {"o": "vwrite", "v": 502, "id": w.id(), "off": 0, "n": 5000, "via": "write"}
        yield {"o": "stage", "b": 50, "v": 502, "k": A}
        yield {"o": "commit", "b": 50}
        yield from getting(w, 1, B, 7)
    return w, {"a0": (1, prog()),
               "a1": (p2, one({"o": "del", "h": 2, "k": C}, {"o": "put", "h": 2, "k": C, "id": w.id(), "n": 9000},
                              {"o": "del", "h": 2, "k": A}))}


def s_staged(r):
    return _staged(r, 1)


def s_staged_procs(r):
    return _staged(r, 2)


def _split(r, procs, close=False):
    """of two values written to one file the later one is committed first, in another batch; neighbours go meanwhile"""
    w = _w(r, 2, procs=procs, fill=[(1, A, 9000)])
    p2 = w.handles[2][0]
    for j, o in enumerate([{"o": "bnew", "h": 1, "b": 50}, {"o": "vbegin", "b": 50, "v": 500},
                           {"o": "vwrite", "v": 500, "id": w.id(), "off": 0, "n": 12288, "via": "copy"},
                           {"o": "stage", "b": 50, "v": 500, "k": B},
                           {"o": "vbegin", "b": 50, "v": 501},
                           {"o": "vwrite", "v": 501, "id": w.id(), "off": 0, "n": 5000, "via": "write"},
                           {"o": "bnew", "h": 1, "b": 51}, {"o": "stage", "b": 51, "v": 501, "k": C}]):
        r.op("m1", o, now=200 + j)
    return w, {"a0": (1, one({"o": "commit", "b": 51}, {"o": "commit", "b": 50})),
               "a1": (p2, one({"o": "del", "h": 2, "k": A}, {"o": "del", "h": 2, "k": C}))}


def s_split(r):
    return _split(r, 1)


def s_split_procs(r):
    return _split(r, 2)


def s_two_batches(r):
    w = _w(r, 2, fill=[(1, A, 100)])
    return w, {"a0": (1, batch(w, 1, [(A, 5000), (B, 1)], 50)), "a1": (1, batch(w, 2, [(B, 4096), (A, 7)], 51))}


def s_batch_observer(r):
    w = _w(r, 2, fill=[(1, A, 100), (1, B, 200)])
    return w, {"a0": (1, batch(w, 1, [(A, 5000), (B, 6000)], 50)), "a1": (1, reading(w, 2, [A, B], 7, again=False)),
               "a2": (1, one({"o": "ls", "h": 2, "p": []}))}


def s_batch_rename(r):
    """a batch writes and renames: nobody sees one without the other"""
    w = _w(r, 2, fill=[(1, A, 9000), (1, B, 1)])
    r.op("m1", {"o": "get", "h": 1, "k": A, "s": 60}, now=200)

    def prog():
        yield {"o": "bnew", "h": 1, "b": 50}
        yield {"o": "vbegin", "b": 50, "v": 500}
        yield {"o": "vwrite", "v": 500, "id": w.id(), "off": 0, "n": 5000, "via": "copy"}
        yield {"o": "stage", "b": 50, "v": 500, "k": C}
        yield {"o": "brename", "b": 50, "s": 60, "i": 0, "k": B}
        yield {"o": "commit", "b": 50}
        yield {"o": "sdrop", "s": 60}
    return w, {"a0": (1, prog()), "a1": (1, one({"o": "ls", "h": 2, "p": []}, {"o": "ls", "h": 2, "p": []}))}


def s_prefix(r):
    w = _w(r, 2, fill=[(1, A, 100), (1, C, 200)])
    return w, {"a0": (1, one({"o": "mvp", "h": 1, "from": [97], "to": [99]})),
               "a1": (1, one({"o": "put", "h": 2, "k": C, "id": w.id(), "n": 10})),
               "a2": (1, one({"o": "delp", "h": 2, "p": [97]}))}


def s_snapdrop(r):
    w = _w(r, 2, fill=[(1, A, 9000), (1, B, 9000)])
    r.op("m1", {"o": "get", "h": 1, "k": A, "s": 60}, now=200)
    r.op("m1", {"o": "get", "h": 2, "k": A, "s": 61}, now=201)
    return w, {"a0": (1, one({"o": "sread", "s": 60, "i": 0, "m": "view", "pos": 0, "n": 0}, {"o": "sdrop", "s": 60})),
               "a1": (1, one({"o": "del", "h": 1, "k": A})),
               "a2": (1, one({"o": "sread", "s": 61, "i": 0, "m": "view", "pos": 0, "n": 0},
                             {"o": "sdrop", "s": 61}))}


def s_clone_read(r):
    w = _w(r, 1, fill=[(1, A, 5000), (1, B, 100)])
    return w, {"a0": (1, reading(w, 1, [A, B], 7, again=False)), "a1": (1, getting(w, 1, A, 8)),
               "a2": (1, one({"o": "del", "h": 1, "k": A}))}


def s_rename(r):
    w = _w(r, 2, fill=[(1, A, 5000), (1, B, 100)])
    r.op("m1", {"o": "get", "h": 1, "k": A, "s": 60}, now=200)

    def ren():
        yield {"o": "bnew", "h": 1, "b": 50}
        yield {"o": "brename", "b": 50, "s": 60, "i": 0, "k": B}
        yield {"o": "commit", "b": 50}
    return w, {"a0": (1, ren()), "a1": (1, one({"o": "put", "h": 2, "k": A, "id": w.id(), "n": 8192})),
               "a2": (1, one({"o": "del", "h": 2, "k": B}))}


def s_close(r):
    w = _w(r, 2, fill=[(1, A, 9000), (1, B, 9000)])
    r.op("m1", {"o": "get", "h": 1, "k": A, "s": 60}, now=200)
    del w.handles[1]
    return w, {"a0": (1, one({"o": "del", "h": 1, "k": A}, {"o": "close", "h": 1})),
               "a1": (1, one({"o": "sread", "s": 60, "i": 0, "m": "view", "pos": 0, "n": 0}, {"o": "sdrop", "s": 60})),
               "a2": (1, one({"o": "put", "h": 2, "k": B, "id": w.id(), "n": 4096}))}


def s_c(r):
    w = _w(r, 2, apis=("c", "c"), fill=[(1, A, 9000), (2, B, 5000)])
    return w, {"a0": (1, reading(w, 1, [A, B], 7, api="c", again=False)),
               "a1": (1, one({"o": "put", "h": 2, "k": A, "id": w.id(), "n": 100})),
               "a2": (1, one({"o": "cread", "h": 2, "k": B, "pos": 0, "n": 9000}, {"o": "del", "h": 2, "k": B}))}


def s_stale_punch(r):
    """a reclaimer has looked at the manifest; the file's writer commits more into it and goes away"""
    w = _w(r, 2, fill=[(1, A, 9000)])
    del w.handles[1]
    return w, {"a0": (1, one({"o": "del", "h": 2, "k": A})),
               "a1": (1, one({"o": "put", "h": 1, "k": B, "id": w.id(), "n": 5000}, {"o": "close", "h": 1}))}


def s_stale_procs(r):
    w = _w(r, 2, procs=2, fill=[(1, A, 9000), (1, C, 9000)])
    del w.handles[1]
    return w, {"a0": (2, one({"o": "del", "h": 2, "k": A}, {"o": "del", "h": 2, "k": C})),
               "a1": (1, one({"o": "put", "h": 1, "k": B, "id": w.id(), "n": 5000}, {"o": "close", "h": 1}))}


def tool(w, p, what="punch"):
    return p_cli(w, p, what)


def s_tool_put(r):
    """the tool looks for holes below the last value while more is written and the file's owner leaves"""
    w = _w(r, 2)
    for h in (1, 2):
        r.op("m1", {"o": "limits", "h": h, "max": -1, "nohp": True}, now=50)
    r.op("m1", {"o": "put", "h": 1, "k": A, "id": w.id(), "n": 9000}, now=101)
    r.op("m1", {"o": "put", "h": 1, "k": B, "id": w.id(), "n": 5000}, now=102)
    r.op("m1", {"o": "del", "h": 2, "k": A}, now=103)
    del w.handles[1]
    return w, {"t0": (101, tool(w, 101)),
               "a0": (1, one({"o": "put", "h": 1, "k": C, "id": w.id(), "n": 9000}, {"o": "close", "h": 1}))}


def s_tool_read(r):
    """... while a value is read, and goes away"""
    w = _w(r, 2, fill=[(1, A, 9000), (1, B, 5000), (1, C, 9000)])
    r.op("m1", {"o": "limits", "h": 2, "max": -1, "nohp": True}, now=150)
    r.op("m1", {"o": "close", "h": 1}, now=151)
    del w.handles[1]
    return w, {"t0": (101, tool(w, 101)), "a0": (1, getting(w, 2, A, 30)), "a1": (1, one({"o": "del", "h": 2, "k": A}))}


def s_tool_stale(r):
    """... while a value that was staged before the last one gets committed, and the file's owner leaves"""
    w = _w(r, 5)
    for h in (3, 4, 5):              # files that the tool may get to first
        r.op("m1", {"o": "put", "h": h, "k": [99, h], "id": w.id(), "n": 100}, now=100)
        r.op("m1", {"o": "close", "h": h}, now=100)
        del w.handles[h]
    for j, o in enumerate([{"o": "bnew", "h": 1, "b": 1}, {"o": "vbegin", "b": 1, "v": 1},
                           {"o": "vwrite", "v": 1, "id": w.id(), "off": 0, "n": 9000},
                           {"o": "stage", "b": 1, "v": 1, "k": A},
                           {"o": "vbegin", "b": 1, "v": 2},
                           {"o": "vwrite", "v": 2, "id": w.id(), "off": 0, "n": 5000},
                           {"o": "bnew", "h": 1, "b": 2}, {"o": "stage", "b": 2, "v": 2, "k": B},
                           {"o": "commit", "b": 2}]):
        r.op("m1", o, now=110 + j)
    del w.handles[1]
    return w, {"t0": (101, tool(w, 101)), "a0": (1, one({"o": "commit", "b": 1}, {"o": "close", "h": 1}))}


def s_tool_del(r):
    """... while another reclaims"""
    w = _w(r, 2, fill=[(1, A, 9000), (1, B, 5000), (1, C, 9000)])
    r.op("m1", {"o": "close", "h": 1}, now=151)
    del w.handles[1]
    return w, {"t0": (101, tool(w, 101)), "a0": (1, one({"o": "del", "h": 2, "k": A}, {"o": "del", "h": 2, "k": B})),
               "t1": (102, tool(w, 102))}


PATIENT = ["put", "del", "delp", "mvp", "commit", "rename", "get", "limits", "ren", "reader"]


def patience(seed, what, mode="seg", procs=1, api="r", waits=90):
    """an operation that needs the manifest waits for it as long as somebody else keeps it: longer than
    any timeout that SQLite's waiting could have (its sleeps are taken as done, not slept)"""
    rng = random.Random(seed)
    r = Run(mode=mode, gate=True, name="patience-%s-%s-%d" % (what, mode, seed))
    r.meta["tags"] = ["sched"]
    try:
        w = _w(r, 2, procs=procs, apis=("r", api), fill=[(1, A, 9000), (2, B, rng.choice(LEN)), (1, C, 1)])
    except NotOpened:
        return r.finish()
    p1, p2 = w.handles[1][0], w.handles[2][0]
    r.pdrain()
    now = 300
    r.op("m1", {"o": "rnew", "h": 1, "r": 1}, now=now, p=p1)
    r.op("m1", {"o": "radd", "r": 1, "k": A}, now=now + 1, p=p1)
    op = {"o": what, "h": 2}
    if what == "put":
        op.update(k=w.key(), id=w.id(), n=w.len())
    elif what == "del":
        op.update(k=B)
    elif what in ("delp", "mvp"):
        op.update(p=A) if what == "delp" else op.update(**{"from": A, "to": [120]})
    elif what == "ren":
        op.update(**{"from": B, "to": [120]})
    elif what == "limits":
        op.update(max=9500, nohp=False)
    elif what == "get":
        op.update(k=B, s=70)
        if api == "c":
            op = {"o": "cread", "h": 2, "k": B, "pos": 0, "n": 30000}
    elif what == "reader":
        op = {"o": "rnew", "h": 2, "r": 2}
    elif what in ("commit", "rename"):
        now += 10
        for o in ({"o": "bnew", "h": 2, "b": 1}, {"o": "vbegin", "b": 1, "v": 1},
                  {"o": "vwrite", "v": 1, "id": w.id(), "off": 0, "n": 5000, "via": "fd" if api == "c" else "copy"},
                  {"o": "stage", "b": 1, "v": 1, "k": B}):
            now += 1
            r.op("m2", o, now=now, p=p2)
        op = {"o": "commit", "b": 1}
    done, slept, noted = [], 0, False
    x = r.op("w0", op, now=now + 20, p=p2, run="gate")
    for n in range(1200):
        if r.stop or x is not None or not r.procs[p2].alive:
            break
        st = r.states().get("w0", (0, "gone"))[1]
        if st == "idle" or st == "gone":
            break
        if st == "gate sleep":
            slept += 1
            if not noted:
                r.ev({"e": "blocked", "a": "w0"})
                noted = True
        if slept == waits:
            slept += 1
            r.op("m1", {"o": "rbegin", "r": 1, "s": 60}, now=now + 30, p=p1)
            r.op("m1", {"o": "sread", "s": 60, "i": 0, "m": "view", "pos": 0, "n": 0}, now=now + 31, p=p1)
            r.op("m1", {"o": "sdrop", "s": 60}, now=now + 32, p=p1)
        if st == "blocked" and not r.moves(["w0"]):
            r.ev({"e": "hang", "a": "w0"})
            r.stop = True
            break
        if st.startswith("gate"):
            res = r.step("w0")
            for e in (res or {}).get("ev", ()):
                if e["e"] == "ret" and e["a"] == "w0":
                    x = e["res"]
    r.meta["slept"] = slept
    if slept < waits and not r.stop:
        r.op("m1", {"o": "rbegin", "r": 1, "s": 60}, now=now + 30, p=p1)
        r.op("m1", {"o": "sdrop", "s": 60}, now=now + 32, p=p1)
    if not r.stop and x and x["ok"]:
        if what == "reader":
            r.op("w0", {"o": "rbegin", "r": 2, "s": 71}, now=now + 40, p=p2)
            r.op("w0", {"o": "sdrop", "s": 71}, now=now + 41, p=p2)
        elif op["o"] == "get":
            r.op("w0", {"o": "sdrop", "s": 70}, now=now + 41, p=p2)
    if not r.stop:
        wind_up(r, w)
    return r.finish()


SCEN = {n[2:]: f for n, f in list(globals().items()) if n.startswith("s_")}


def explore(name, mode, bound, limit, seed, tags=("sched",), mgate=False):
    """every schedule of the scenario with at most `bound` preemptions, as far as `limit` allows"""
    out = []

    def execute(ch):
        tr = []
        t = fixed_run("x-%s-%s%s-%d" % (name, mode, "m" if mgate else "", len(out)), mode, SCEN[name], ch, tags=tags + (("c",) if name == "c" else ()),
                      trail=tr, mgate=mgate)
        t.meta["schedule"] = [x[0] for x in tr if len(x[1]) > 1]
        out.append(t)
        return tr
    n, complete = sched.enumerate_schedules(execute, bound, limit, random.Random(seed))
    return out, complete
