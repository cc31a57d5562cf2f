"""Every transition of the model spec/PossumKv.tla (as enumerated by TLC) is driven through the real code."""
import collections, json, os, random, re, threading, time
import pv
from pv import Run

UNIT = {"KvLru": 3000, "KvPrefix": 40, "KvMove": 40, "KvBatch": 5000}
NOT_C = ("ren",)


def tup(x):
    return tuple(x)


def state(v):
    rows, mx, held = v
    return (frozenset((tup(r["k"]), r["n"], r["r"], bool(r["h"])) for r in rows), mx, held)


def op_key(o):
    return json.dumps(o, sort_keys=True)


class Graph:
    """succ: state -> {op (json) -> set of states}"""

    def __init__(self, module, out):
        self.module = module
        self.succ = collections.defaultdict(dict)
        self.edges = 0
        for line in out.splitlines():
            if not line.startswith('"{'):
                continue
            e = json.loads(json.loads(line))
            s, t = state(e["s"]), state(e["t"])
            ts = self.succ[s].setdefault(op_key(e["o"]), set())
            if t not in ts:
                ts.add(t)
                self.edges += 1
        self.order = any(r[2] for s in self.succ for r in s[0])
        self.todo = {s: set(ops) for s, ops in self.succ.items()}
        self.pairs = sum(len(x) for x in self.todo.values())
        self.done = 0
        self.lock = threading.Lock()
        self.seen_edges = set()

    def next(self, s, rng, usable):
        """the operations that lead to the nearest one not done yet"""
        if s not in self.todo:
            return None
        prev = {s: None}
        q = collections.deque([s])
        while q:
            x = q.popleft()
            c = [o for o in self.todo[x] if usable(o)]
            if c:
                path = [rng.choice(c)]
                while prev[x]:
                    x, o = prev[x]
                    path.append(o)
                return path[-1]
            ops = list(self.succ[x].items())
            rng.shuffle(ops)
            for o, ts in ops:
                if not usable(o):
                    continue
                for t in ts:
                    if t not in prev:
                        prev[t] = (x, o)
                        q.append(t)
        return None

    def mark(self, s, o, t):
        with self.lock:
            if o in self.todo.get(s, ()):
                self.todo[s].discard(o)
                self.done += 1
            self.seen_edges.add((s, o, t))


class Walk:
    def __init__(self, g, seed, api, name, tags):
        self.g, self.rng, self.api = g, random.Random(seed), api
        self.r = Run(name=name)
        self.r.meta["tags"] = list(tags)
        self.unit = UNIT[g.module]
        self.now, self.n, self.i = 1000, 0, 0
        self.held = None
        self.max = -1
        self.ok = True

    def new(self):
        self.n += 1
        return self.n

    def do(self, op):
        if not self.ok or self.r.stop:
            return None
        self.now += 1
        x = self.r.op("a1", op, now=self.now)
        if x is None or (not x["ok"] and x["err"] == "panic"):
            self.ok = False
        return x

    def id(self):
        self.i += 1
        return self.i

    def snap(self, k):
        s = self.new()
        if self.api == "r":
            x = self.do({"o": "get", "h": 1, "k": k, "s": s})
            return s if x and x["ok"] and x["v"]["len"] >= 0 else None
        rd = self.new()
        self.do({"o": "rnew", "h": 1, "r": rd})
        x = self.do({"o": "radd", "r": rd, "k": k})
        got = x and x["ok"] and x["v"]["len"] >= 0
        x = self.do({"o": "rbegin", "r": rd, "s": s})
        if x and x["ok"] and not got:
            self.do({"o": "sdrop", "s": s})
        return s if got else None

    def exec(self, o):
        u = self.unit
        k = o["o"]
        if k == "put":
            self.do({"o": "put", "h": 1, "k": o["k"], "id": self.id(), "n": o["n"] * u})
        elif k == "del":
            self.do({"o": "del", "h": 1, "k": o["k"]})
        elif k == "get":
            if self.api == "c":
                self.do({"o": "cread", "h": 1, "k": o["k"], "pos": 0, "n": 3 * u})
            else:
                s = self.snap(o["k"])
                if s:
                    if self.rng.random() < .3:
                        self.do({"o": "sread", "s": s, "i": 0, "m": "view", "pos": 0, "n": 0})
                    self.do({"o": "sdrop", "s": s})
        elif k == "ls":
            if self.rng.random() < .3:
                rd = self.new()
                self.do({"o": "rnew", "h": 1, "r": rd})
                self.do({"o": "rls", "r": rd, "p": o["p"]})
                s = self.new()
                x = self.do({"o": "rbegin", "r": rd, "s": s})
                if x and x["ok"]:
                    self.do({"o": "sdrop", "s": s})
            else:
                self.do({"o": "ls", "h": 1, "p": o["p"]})
        elif k == "delp":
            self.do({"o": "delp", "h": 1, "p": o["p"]})
        elif k in ("mvp", "ren"):
            self.do({"o": k, "h": 1, "from": o["from"], "to": o["to"]})
        elif k == "limits":
            self.max = o["max"]
            self.do({"o": "limits", "h": 1, "max": o["max"] * u if o["max"] >= 0 else -1, "nohp": True})
        elif k == "batch":
            b = self.new()
            self.do({"o": "bnew", "h": 1, "b": b})
            # staged in the order given, but the values may be written in another one
            vs = []
            ws = [w for w in o["ws"]]
            early = self.rng.random() < .5
            for w in ws:
                v = self.new()
                self.do({"o": "vbegin", "b": b, "v": v})
                if w["n"]:
                    self.do({"o": "vwrite", "v": v, "id": self.id(), "off": 0, "n": w["n"] * u,
                             "via": "fd" if self.api == "c" else "copy"})
                if early:
                    vs.append((v, w))
                else:
                    self.do({"o": "stage", "b": b, "v": v, "k": w["k"]})
            for v, w in vs:
                self.do({"o": "stage", "b": b, "v": v, "k": w["k"]})
            for n in o["rn"]:
                self.do({"o": "brename", "b": b, "s": self.held[0], "i": 0, "k": n})
            self.do({"o": "commit", "b": b})
        elif k == "hold":
            s = self.snap(o["k"])
            if s:
                rows, _ = self.r.read_rows()
                x = next((r for r in rows if r[0] == bytes(o["k"])), None)
                self.held = (s, (x[2], x[3]) if x else None)
        elif k == "unhold":
            if self.held:
                self.do({"o": "sdrop", "s": self.held[0]})
            self.held = None

    def observe(self):
        rows, _ = self.r.read_rows()
        lus = sorted({r[4] for r in rows})
        st = []
        for k, n, f, off, lu in rows:
            st.append((tuple(k), n // self.unit, 1 + lus.index(lu) if self.g.order else 0,
                       bool(self.held and f is not None and (f, off) == self.held[1])))
        held = 0 if not self.held else (1 if any(x[3] for x in st) else -1)
        return (frozenset(st), self.max, held)

    def run(self, steps, until):
        r = self.r
        r.proc(1)
        x = self.do({"o": "open", "h": 1, "api": self.api})
        if not x or not x["ok"]:
            return r.finish()
        if x["v"].get("bs"):
            r.bs = x["v"]["bs"]
        self.do({"o": "limits", "h": 1, "max": -1, "nohp": True})
        usable = (lambda o: True) if self.api == "r" else (lambda o: not any('"o": "%s"' % k in o for k in NOT_C))
        try:
            s = self.observe()
            for _ in range(steps):
                if time.time() > until:
                    break
                with self.g.lock:
                    o = self.g.next(s, self.rng, usable)
                    if o and o in self.g.todo[s]:       # mine
                        self.g.todo[s].discard(o)
                        self.g.done += 1
                if o is None:
                    break
                self.exec(json.loads(o))
                if not self.ok or r.stop:
                    break
                t = self.observe()
                r.audit()
                self.g.mark(s, o, t)
                if t not in self.g.succ[s][o]:
                    r.notes.append("a state the model does not lead to: %s %s %s" % (s, o, t))
                    break
                s = t
            if self.held:
                self.do({"o": "sdrop", "s": self.held[0]})
            self.do({"o": "close", "h": 1})
            if self.ok and not r.stop:
                r.audit()
        except pv.sqlite3.Error as e:
            r.audit()
        return r.finish()


def enumerate_model(module, workers=2, timeout=800):
    t0 = time.time()
    rc, out = pv.tlc(module, workers=workers, timeout=timeout, heap="4g")
    g = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or "No error has been found" not in out:
        raise pv.Infra("the model %s does not check:\n%s" % (
            module, "\n".join(x for x in out.splitlines() if not x.startswith('"'))[-3000:]))
    return Graph(module, out), {"generated": int(g[-1][0]), "distinct": int(g[-1][1]), "s": round(time.time() - t0, 1)}


def transitions(name, module, apis=("r", "c"), budget=60, tbudget=1500, steps=400, tags=(), maxops=9000, tmaxops=10 ** 9):
    """a suite: TLC enumerates the model's transitions, the real code goes through them"""
    def f(cx):
        cx.cur = name
        g, info = enumerate_model(module)
        cx.models[module] = dict(rc=0, out="No error has been found", generated=info["generated"], distinct=info["distinct"],
                                 s=info["s"], expect="ok")
        until = time.time() + cx.q(budget, tbudget)
        limit = cx.q(maxops, tmaxops)
        par = 8

        def one(j):
            out = []
            n = 0
            while time.time() < until and g.done < limit:
                api = apis[(j + n) % len(apis)]
                before = g.done
                t = Walk(g, cx.seed * 1000 + j * 100 + n, api, "%s-%d-%d" % (name, j, n), tags).run(steps, until)
                n += 1
                out.append(t)
                if g.done == before and len(t.events) < 40 and api == apis[-1]:
                    break
                if n > 40 and not cx.thorough:
                    break
                if not any(g.todo.values()):
                    break
            return out
        ts = [t for x in pv.pmap(one, range(par), par) for t in x]
        cx.add(ts)
        cx.info.setdefault("model_transitions_driven_through_the_code", {})[module] = {
            "states": len(g.succ), "transitions": g.edges, "state_and_operation_pairs": g.pairs,
            "pairs_executed": g.done, "transitions_observed": len(g.seen_edges),
            "left": g.pairs - g.done}
    return (name, f)
