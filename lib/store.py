"""Behaviours of the model spec/PossumStore.tla, as TLC generates them, are driven through the real code: every
actor is led from one of the model's steps to the next. (What happens is judged like any other execution; where
the code cannot be led along, because it takes another file or gets to several places in another order, the step
is skipped and counted.)"""
import heapq, os, random, re, shutil, subprocess, tempfile, threading, time, zlib
import pv, sched
from pv import Run
from scen import must_open, NotOpened, World, wind_up, p_cli

UNIT = {"Store": 2048, "Clone": 4096}
KEYS = {"a": [97], "b": [97, 98], "c": [98]}
OP = re.compile(r"^/\\ op = \[(.*?)\]", re.M | re.S)
FIELD = re.compile(r'(\w+) \|-> ("[^"]*"|-?\d+)')
MAN = re.compile(r"^/\\ man = (\{.*?\})\n/\\", re.M | re.S)
FINAL = {"Clone1": [(1, "a", 1), (2, "b", 1)], "Clone2": [(1, "a", 1), (2, "b", 1)], "Clone3": [(1, "a", 1)], "Store1": [(1, "a", 3), (1, "b", 2)], "Store2": [(1, "a", 4), (1, "b", 3)], "Store3": [(1, "a", 4)]}
HOME = {"Clone1": dict(r=1, w=1, c=2, q=2), "Clone2": dict(r=1, c=1, q=2), "Clone3": dict(r=1, w=1, q=2), "Store1": dict(w=1, d=1, r=1), "Store2": dict(w=1, c=1, d=2, t=2), "Store3": dict(w=1, x=1)}


class Behaviour:
    def __init__(self, text):
        self.steps = []
        for m in OP.finditer(text):
            d = {k: (v[1:-1] if v[0] == '"' else int(v)) for k, v in FIELD.findall(m[1])}
            if d.get("s"):
                self.steps.append(d)
        m = MAN.findall(text)
        self.man = sorted((dict(FIELD.findall(x))["k"][1:-1], int(dict(FIELD.findall(x))["n"]))
                          for x in re.findall(r"\[[^\]]*\]", m[-1])) if m else []

    def features(self):
        """where everybody is at each step"""
        at, out = {}, set()
        was = ()
        for d in self.steps:
            at[d["a"]] = d["s"] + (str(d["n"]) if d["s"] in ("pmax", "plock", "tmax", "klock") else "")
            now = tuple(sorted(at.items()))
            out.add((was, now))
            was = now
        return out


def behaviours(module, num, seed, old=None, depth=90, workers=4):
    d = tempfile.mkdtemp(prefix="sim-", dir=pv.scratch())
    try:
        cfg = None
        if old:
            with open(os.path.join(pv.SPEC, module + ".cfg")) as f:
                text = f.read().replace("Old = {}", 'Old = {"%s"}' % old)
            cfg = os.path.join(d, "old.cfg")
            with open(cfg, "w") as f:
                f.write(re.sub(r"^(INVARIANTS?|PROPERTY|PROPERTIES) .*$", "", text, flags=re.M) + "\nCHECK_DEADLOCK FALSE\n")
        rc, out = pv.tlc(module, cfg=cfg, workers=workers, timeout=600,
                         args=("-simulate", "file=%s/t,num=%d" % (d, max(1, num // workers)), "-depth", str(depth), "-seed", str(seed)))
        bs = []
        for n in sorted(os.listdir(d)):
            if n.endswith(".cfg"):
                continue
            with open(os.path.join(d, n)) as f:
                bs.append(Behaviour(f.read()))
        if not bs:
            raise pv.Infra("no behaviours of %s:\n%s" % (module, out[-2000:]))
        return bs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def choose(bs, n, rng, known=frozenset()):
    """those that get to the most situations that others (and the known) don't"""
    fs = [(b, b.features() - known) for b in bs]
    rng.shuffle(fs)
    every = set().union(*[f for _, f in fs])
    seen, out = set(), []
    heap = [(-len(f), i) for i, (b, f) in enumerate(fs)]
    heapq.heapify(heap)
    while heap and len(out) < n:
        k, i = heapq.heappop(heap)
        g = -len(fs[i][1] - seen)
        if g == 0:
            continue
        if heap and g > heap[0][0]:
            heapq.heappush(heap, (g, i))
            continue
        seen |= fs[i][1]
        out.append(fs[i][0])
    return out, len(seen), len(every)


def ops(b, module, w):
    """the calls each actor makes: actor -> [call], and where in them each step of the model is"""
    calls, batch, val, sn, files, lent, pend = {}, {}, {}, {}, {}, {}, {}
    plan = []
    n = [0]
    unit = UNIT[module[:-1]]

    def new():
        n[0] += 1
        return n[0]

    def add(a, *os):
        calls.setdefault(a, []).extend(os)
        return len(calls[a])
    for d in b.steps:
        a, s = d["a"], d["s"]
        h = HOME[module].get(a)
        g = {"d": d}
        if s == "new":
            if not batch.get(a):
                batch[a] = new()
                files[a], lent[a], pend[a] = set(), set(), []
                add(a, {"o": "bnew", "h": h, "b": batch[a]})
            if d["f"] in files[a]:
                files[a].discard(d["f"])
                lent[a].add(d["f"])
            val[a] = (new(), d["f"])
            g["rets"] = add(a, {"o": "vbegin", "b": batch[a], "v": val[a][0]})
        elif s == "write":
            g["rets"] = add(a, {"o": "vwrite", "v": val[a][0], "id": w.id(), "off": 0, "n": d["n"] * unit, "via": "copy"})
        elif s == "stage":
            g["rets"] = add(a, {"o": "stage", "b": batch[a], "v": val[a][0], "k": KEYS[d["k"]]})
            files[a].add(d["f"])
            lent[a].discard(d["f"])
            pend[a].append(d["f"])
        elif s == "give":
            g["rets"] = add(a, {"o": "stage", "b": batch[d["b"]], "v": val[a][0], "k": KEYS[d["k"]]})
            files[d["b"]].add(d["f"])
            pend[d["b"]].append(d["f"])
        elif s == "drop":
            g["rets"] = add(a, {"o": "vdrop", "v": val[a][0]})
        elif s == "trim":
            add(a, {"o": "commit", "b": batch[a]})
            g["unlocks"] = len(files[a]) + sum(f in lent[a] for f in pend[a])
            batch[a] = None
        elif s == "ret":
            g["rets"] = len(calls[a])
        elif s == "del":
            k = add(a, {"o": "del", "h": h, "k": KEYS[d["k"]]})
            if module[:-1] == "Clone":
                g["rets"] = k
        elif s == "dsend":
            g["rets"] = len(calls[a])
        elif s == "rbegin":
            ks = [d["k"]] if d["k"] else sorted(KEYS)[:2]
            r = new()
            g["rets"] = add(a, {"o": "rnew", "h": h, "r": r}, *[{"o": "radd", "r": r, "k": KEYS[k]} for k in ks])
            sn[a] = new()
            add(a, {"o": "rbegin", "r": r, "s": sn[a]})
        elif s == "rcommit":
            g["rets"] = len(calls[a])
        elif s == "rdrop":
            k = add(a, {"o": "sread", "s": sn[a], "i": 0, "m": "view", "pos": 0, "n": 0}, {"o": "sdrop", "s": sn[a]})
            g["rets" if module[:-1] == "Store" else "or"] = k
        elif s == "close":
            add(a, {"o": "close", "h": h})
            g["rets" if module[:-1] == "Store" else "or"] = len(calls[a])
        elif s == "part":
            add(a, {"o": "vwrite", "v": val[a][0], "id": w.id(), "off": 0, "n": 2 * unit, "via": "copy", "src": "fail", "good": unit})
        elif s in ("back", "dropped", "kend"):
            g["rets"] = len(calls[a])
        elif s == "commit" and module[:-1] == "Clone":
            add(a, {"o": "stage", "b": batch[a], "v": val[a][0], "k": KEYS[d["k"]]}, {"o": "commit", "b": batch[a]})
            batch[a] = None
            g["or"] = len(calls[a])
        elif s == "kbegin":
            add(a, {"o": "cleanup", "h": h})
        plan.append(g)
    # ... and batches that the behaviour leaves open
    for a in batch:
        if batch.get(a):
            add(a, {"o": "commit", "b": batch[a]})
    return calls, plan


GATE = {"popen": "open", "pmax": "lockw", "plock": "lockw", "ppunch": "punch", "ptrunc": "trunc", "punlink": "unlink",
        "tmax": "lockw", "topen": "open",
        "mkdir": "mkdir", "clone": "clone", "open": "open", "lock": "lockr", "rmopen": "opendir", "rmfile": "unlink", "rmdir": "rmdir",
        "part": "write", "kdir": "opendir", "kopen": "open", "klock": "lockw", "kunlink": "unlink", "kparent": "rmdir", "krmdir": "rmdir"}


class Follow:
    """chooses who moves by a behaviour of the model"""

    def __init__(self, plan, names):
        self.plan, self.names, self.i = plan, names, 0
        self.rets, self.ev, self.stepped = {}, {}, {}
        self.skipped = []
        self.did = 0
        self._begin()

    def _begin(self):
        self.n = 0
        self.base = {}

    def _count(self, a, k):
        return self.ev.get((a, k), 0)

    def done(self, g, a, s):
        d = g["d"]
        k = d["s"]
        if "rets" in g:
            return self.rets.get(a, 0) >= g["rets"]
        since = lambda kind: self._count(a, kind) - self.base.setdefault(kind, self._count(a, kind))
        st = s.r.states().get(a, (0, "gone"))[1].removeprefix("gate ")
        if k == "trim":
            return since("u") >= g["unlocks"] and s.inop.get(a, {}).get("o") == "commit"
        if k == "begin":
            return since("txb") >= 1 or st in ("txbegun", "txend") or a not in s.inop
        if k == "commit" and "or" in g:
            return st == "txend" or self.rets.get(a, 0) >= g["or"]
        if k in ("commit", "del"):
            return since("txe") >= 1 or st == "txend" or (k == "commit" and a not in s.inop)
        if k == "send":
            return self.n >= 1 or a not in s.inop
        if k == "rmutex":
            return s.inop.get(a, {}).get("o") == "rbegin"
        if k == "rlock":
            return since("r") >= 1
        if k in GATE:
            return since("s " + GATE[k]) >= 1
        if k in ("rdrop", "close"):
            return s.inop.get(a, {}).get("o") in ("sdrop", "close") or a not in s.gen or self.rets.get(a, 0) >= g["or"]
        if k == "inval":
            return st != "txend"
        if k == "kbegin":
            return st.startswith("opendir") or self.n > 1 and a not in s.inop
        if k in ("pview", "pre", "tview"):
            return not st.startswith(("view", "mread")) and (self.n >= 1 or st.startswith(("lock", "seekend", "trunc", "unlink", "punch")))
        return True     # ptake, pend, pclose, pskip, tpunch, tclose

    def __call__(self, c, cur, s):
        while self.i < len(self.plan):
            g = self.plan[self.i]
            a = self.names.get(g["d"]["a"], g["d"]["a"])
            if g["d"]["s"] in ("kill", "hole"):
                if g["d"]["s"] == "kill":
                    s.r.end(self.victim)
                    s._scan()
                elif self.n < 40:
                    for b in c:
                        if b.startswith("P"):
                            self.n += 1
                            return self._go(b, s)
                self.did += 1
                self.i += 1
                self._begin()
                if g["d"]["s"] == "kill":
                    return None
                continue
            if self.done(g, a, s):
                self.did += 1
                self.i += 1
                self._begin()
                continue
            if a not in c and self.n <= 25:
                # (a handle does one transaction at a time, and this is where the previous one stops)
                b = next((x for x in c if x != a and s.r.states().get(x, (0, ""))[1] == "gate txend"), None)
                if b:
                    self.n += 1
                    return self._go(b, s)
            if a not in c or self.n > 25:
                self.skipped.append(g["d"]["s"])
                self.i += 1
                self._begin()
                continue
            self.n += 1
            return self._go(a, s)
        return self._go(cur if cur in c else c[0], s)

    def _go(self, a, s):
        st = s.r.states().get(a, (0, ""))[1]
        if st.startswith("gate "):
            k = (a, "s " + st.split()[1])
            self.ev[k] = self.ev.get(k, 0) + 1
        return a


class Led(sched.Sched):
    """(where the code goes another way than the behaviour, a handle may be closed by one actor before, or while,
    another one uses it: the former leaves out the call, the latter lets the close wait)"""
    def __init__(self, *a, closed):
        self.closed = closed
        super().__init__(*a)

    def cands(self):
        self.closed |= {o["h"] for o in self.inop.values() if o["o"] == "close"}
        for a in list(self.todo):
            while a in self.todo and a not in self.inop and self.todo[a]["o"] != "close" and self.todo[a].get("h") in self.closed:
                self._next(a, {"ok": False, "err": "closed", "v": 0})
        c = super().cands()
        busy = {o.get("h") for o in self.inop.values()}
        return [a for a in c if a in self.inop or a not in self.todo or self.todo[a]["o"] != "close" or self.todo[a]["h"] not in busy]

    def _next(self, a, res):
        if res is not None:
            self.chooser.rets[a] = self.chooser.rets.get(a, 0) + 1
        super()._next(a, res)

    def _scan(self):
        for _, p, e in self.r.raw[self.seen:]:
            k = e["t"] if e["e"] == "lock" else e["e"]
            if k in ("u", "r", "txb", "txe") and "a" in e:
                x = (e["a"], k)
                self.chooser.ev[x] = self.chooser.ev.get(x, 0) + 1
        super()._scan()


def follow(b, module, name, procs=1, tags=()):
    r = Run(mode="clone" if module.startswith("Clone") else "seg", gate=True, name=name, sgate=True)
    r.meta["tags"] = ["sched"] + list(tags) + (["crash"] if any(d["s"] == "kill" for d in b.steps) else [])
    unit = UNIT[module[:-1]]
    home = HOME[module]
    w = World(random.Random(5), {}, None)
    w.r = r
    try:
        for h in sorted(set(home.values())):
            p = 1 + (h - 1) % procs
            must_open(r, h, "r", 10 + h, p)
            w.handles[h] = (p, "r")
        r.pdrain()
        for j, (h, k, n) in enumerate(FINAL[module]):
            r.op("m%d" % w.handles[h][0], {"o": "put", "h": h, "k": KEYS[k], "id": w.id(), "n": n * unit},
                 now=100 + j, p=w.handles[h][0])
        r.pdrain()
    except NotOpened:
        return r.finish()
    calls, plan = ops(b, module, w)
    progs, names, closed = {}, {}, set()
    for a, h in home.items():
        if a == "t":
            if any(d["a"] == "t" for d in b.steps):
                names[a] = "t0"
                progs["t0"] = (101, p_cli(w, 101, "punch"))
        elif a in calls:
            progs[a] = (w.handles[h][0], iter_calls(calls[a], closed))
    for h in home.values():
        names["P%d" % h] = "P%d" % h
    f = Follow(plan, names)
    f.victim = w.handles[max(w.handles)][0]
    s = Led(r, progs, f, closed=closed)
    s.always = True
    ok = s.run()
    for a in calls:
        for o in calls[a]:
            if o["o"] == "close":
                w.handles.pop(o["h"], None)
    r.meta["model"] = {"steps": len(plan), "led": f.did, "skipped": len(f.skipped)}
    r.meta["skipped"] = f.skipped
    if ok:
        rows, _ = r.read_rows()
        r.meta["same_end"] = sorted((bytes(x[0]), x[1] // unit) for x in rows) == sorted((bytes(KEYS[k]), n) for k, n in b.man)
        wind_up(r, w)
    return r.finish()


def iter_calls(cs, closed):
    """(where the code goes another way than the behaviour, calls may have become impossible)"""
    there, found = set(), {}
    for o in cs:
        if o.get("h") in closed:
            continue
        k = o["o"]
        if k in ("radd", "rbegin") and ("r", o["r"]) not in there or k in ("sread", "sdrop") and not found.get(o["s"]):
            if k == "sdrop" and o["s"] in found:
                pass
            else:
                continue
        if k in ("vbegin", "commit") and ("b", o["b"]) not in there:
            continue
        if k in ("vwrite", "stage", "vdrop") and ("v", o["v"]) not in there:
            continue
        x = yield o
        if k == "close":
            closed.add(o["h"])
        if k in ("bnew", "rnew", "vbegin") and x["ok"]:
            there.add({"bnew": ("b", o.get("b")), "rnew": ("r", o.get("r")), "vbegin": ("v", o.get("v"))}[k])
            found.setdefault(o.get("r"), 0)
        elif k == "radd" and x["ok"] and x["v"]["len"] >= 0:
            found[o["r"]] = 1
        elif k == "rbegin" and x["ok"]:
            found[o["s"]] = found.get(o["r"], 0)


def follows(name, modules, n, tn, num=1200, tnum=12000, procs=(1,), tags=()):
    """a suite: behaviours of the models, led through the code; "Module:switch" is the model with that defect switched
    on: the code is led towards situations the model says are impossible without the defect"""
    def f(cx):
        cx.cur = name
        todo, known = [], {}

        def make(m, old):
            return behaviours(m, cx.q(num, tnum), zlib.crc32(("%s%s%s" % (m, old or "", cx.seed)).encode()) % 100000, old)
        for mm in modules:
            m, _, old = mm.partition(":")
            bs = make(m, old)
            if old and m not in known:
                known[m] = set().union(*[b.features() for b in make(m, None)])
            elif not old:
                known[m] = set().union(*[b.features() for b in bs])
            chosen, seen, every = choose(bs, cx.q(n if not old else max(20, n // 4), tn), random.Random(cx.seed), known[m] if old else frozenset())
            cx.info.setdefault("model_behaviours_led_through_the_code", {})[mm] = {
                "generated": len(bs), "led": len(chosen), "situations_in_those": seen, "situations_in_all_generated": every}
            todo += [(mm, i, b, 2 if any(d["s"] == "kill" for d in b.steps) else procs[i % len(procs)]) for i, b in enumerate(chosen)]

        def one(x):
            m, i, b, p = x
            return m, follow(b, m.partition(":")[0], "%s-%s-%d" % (name, m.replace(":", "-"), i), p, tags)
        for m, t in pv.pmap(one, todo):
            cx.add([t])
            k = t.meta.get("model")
            if k:
                d = cx.info["model_behaviours_led_through_the_code"][m]
                d["steps"] = d.get("steps", 0) + k["steps"]
                d["steps_led"] = d.get("steps_led", 0) + k["led"]
                d["same_final_contents"] = d.get("same_final_contents", 0) + bool(t.meta.get("same_end"))
    return (name, f)
