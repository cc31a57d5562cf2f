"""Random operation generator and sequential driver: one call at a time, on any number of handles
(native or C), in one or several processes, with reclaimers running a little or a lot in between."""
import os, random
from pv import Run

KEYS = [[], [0], [97], [97, 98], [97, 255], [97, 255, 255], [98], [255], [255, 255], [97, 0], [254, 255], [120, 121, 122]]
LENS = [0, 1, 100, 4095, 4096, 4097, 8192, 10000, 12288, 16385, 20000]
W = dict(put=10, putsrc=2, get=8, dele=5, ren=2, mvp=1, delp=1, ls=3, sum=1, walk=0.3, limits=1, batch=8,
         reader=4, sread=8, sdrop=5, audit=1, drain=2, close=0.5, cread=3, cleanup=0.3, pstep=3, space=0,
         clonefrom=2, dirs=0.5, fab=0, cli=0)


class Crashed(Exception):
    pass


class Seq:
    def __init__(self, seed, steps=60, mode="seg", apis=("r",), nproc=1, keys=None, lens=None, w=None,
                 limit_choices=(-1, -1, 0, 5000, 12000, 20000, 40000), name=None, nohp=0.15, audit_each=False,
                 handles=2, hot=None, other=False):
        self.rng = random.Random(seed)
        self.r = Run(mode=mode, gate=True, name=name or "seq-%s" % seed)
        self.steps, self.apis, self.nproc = steps, apis, nproc
        self.keys = keys or self.rng.sample(KEYS, self.rng.randint(3, len(KEYS)))
        if keys is None and self.rng.random() < .2:
            # long ones, with long prefixes in common
            p = [self.rng.choice([97, 97, 255, 0])] * self.rng.choice([6, 7, 8, 9, 15, 16, 31, 64, 127, 255, 300])
            self.keys = [p + k if self.rng.random() < .7 else k for k in self.keys[:6]] + [p[:-1], p + [98, 97]]
        self.lens = lens or LENS
        self.w = dict(W)
        self.w.update(w or {})
        self.limits = limit_choices
        self.nohp = nohp
        self.now, self.nid, self.n = 1000, 0, 0
        self.h, self.b, self.v, self.rd, self.s = {}, {}, {}, {}, {}
        self.orphans = {}
        self.maxh = handles
        self.other = other
        self.audit_each = audit_each
        self.bad = False
        self.faulty = False
        self.loc = {}

    def new(self):
        self.n += 1
        return self.n

    def id(self):
        self.nid += 1
        return self.nid

    def key(self):
        return self.rng.choice(self.keys)

    def pfx(self):
        k = self.key()
        x = self.rng.random()
        if x < 0.2:
            return []
        if x < 0.3:
            return k + [255]
        return k[:self.rng.randint(max(0, len(k) - 3) if x < .7 else 0, len(k))]

    def tick(self):
        self.now += self.rng.choice([0, 1, 1, 1, 2, 7, 1000])
        return self.now

    def actor(self, p):
        return "a%d" % p

    def do(self, p, op, a=None):
        """Run one call to its end, letting whoever stands in its way go on."""
        r = self.r
        if self.bad or r.stop:
            return None
        if p in r.procs and not r.procs[p].alive:
            raise Crashed(p)
        res = r.op(a or self.actor(p), op, now=self.tick(), p=p, run="end")
        res = self.complete(a or self.actor(p), p, res)
        if not r.procs[p].alive and not r.stop:
            raise Crashed(p)
        if res is None or (not res["ok"] and res["err"] == "panic"):
            self.bad = True
        return res

    def complete(self, a, p, res):
        r = self.r
        for _ in range(4000):
            if res is not None or r.stop:
                return res
            if not r.procs[p].alive:
                return None
            st = r.states()
            s = st.get(a, (0, "gone"))[1]
            if s == "idle":
                break
            if s.startswith("gate") and s != "gate sleep":
                x = a
            else:
                c = [y for y in st if st[y][1].startswith("gate") and st[y][1] != "gate sleep" and y != a]
                d = [y for y in st if st[y][1] == "gate sleep"]
                if c:
                    x = self.rng.choice(sorted(c))
                elif d:
                    x = a if a in d else d[0]
                elif r.moves([a]):
                    continue
                else:
                    r.ev({"e": "hang", "a": a})
                    r.stop = True
                    return None
            q = st[x][0]
            out = r.step(x, run="end" if x == a else "gate")
            for q2, w in [(q, out)]:
                for e in w.get("ev", ()):
                    if e["e"] == "ret" and e["a"] == a:
                        res = e["res"]
            if res is None:
                for ts, q2, e in r.raw[-200:]:
                    if e["e"] == "ret" and e["a"] == a:
                        pass
        if res is None:
            for ts, q2, e in reversed(r.raw):
                if e["e"] == "ret" and e["a"] == a:
                    return e["res"]
        return res

    # ---- the operations
    def open(self, p, api):
        h = self.new()
        self.r.proc(p)
        x = self.do(p, {"o": "open", "h": h, "api": api})
        if x and x["ok"]:
            self.h[h] = dict(p=p, api=api, max=-1)
            if x["v"].get("bs"):
                self.r.bs = x["v"]["bs"]
        return h

    def busy_reader(self):
        return any(not x.get("s") for x in self.rd.values())

    def step(self):
        for p, w in self.r.procs.items():
            if not w.alive and any(x["p"] == p for x in self.h.values()):
                raise Crashed(p)
        rng = self.rng
        rd = self.busy_reader()
        ops = []

        def add(k, n=None):
            ops.append((k, self.w.get(n or k, 0)))
        if not rd:
            for k in ("put", "putsrc", "get", "dele", "ren", "mvp", "delp", "ls", "sum", "walk", "limits",
                      "close", "cread", "cleanup", "clonefrom"):
                add(k)
            add("rnew", "reader")
        else:
            ops.append(("rstep", 25))
        add("batch")
        add("sread"), add("sdrop"), add("drain"), add("pstep")
        if not rd:
            add("audit"), add("space"), add("dirs"), add("cli")
        add("fab")
        k = rng.choices([o[0] for o in ops], [o[1] for o in ops])[0]
        getattr(self, "o_" + k)()
        if self.audit_each and not self.bad and not self.r.stop and not self.busy_reader():
            self.r.audit()

    def pick(self, api=None):
        hs = [h for h in self.h if api is None or self.h[h]["api"] == api]
        return self.rng.choice(hs) if hs else None

    def o_put(self, src=None):
        h = self.pick()
        n = self.rng.choice(self.lens)
        op = {"o": "put", "h": h, "k": self.key(), "id": self.id(), "n": n}
        if src and self.h[h]["api"] == "r":
            op["src"] = src
            if src == "fail":
                op["good"] = self.rng.randint(0, n)
        self.do(self.h[h]["p"], op)

    def o_putsrc(self):
        self.o_put(self.rng.choice(["slice", "short", "file", "fail"]))

    def o_clonefrom(self):
        h = self.pick("r")
        if h and not self.excl(h):
            self.do(self.h[h]["p"], {"o": "clonefrom", "h": h, "k": self.key(), "id": self.id(),
                                     "n": self.rng.choice(self.lens), "seek": self.rng.random() < .5})

    def excl(self, h):
        return False

    def o_get(self):
        h = self.pick()
        p = self.h[h]["p"]
        op = {"o": "get", "h": h, "k": self.key()}
        if self.h[h]["api"] == "r":
            op["s"] = self.new()
        x = self.do(p, op)
        if x and x["ok"] and x["v"]["len"] >= 0 and "s" in op:
            self.s[op["s"]] = dict(p=p, n=1, lens=[x["v"]["len"]], api="r", held={0}, a=self.actor(p))

    def o_cread(self):
        h = self.pick("c")
        if h:
            n = self.rng.choice(self.lens)
            self.do(self.h[h]["p"], {"o": "cread", "h": h, "k": self.key(),
                                     "pos": self.rng.choice([0, 0, 1, 4096, n]), "n": self.rng.choice([0, 1, n, 25000])})

    def o_dele(self):
        h = self.pick()
        op = {"o": "del", "h": h, "k": self.key()}
        if self.h[h]["api"] == "c" and self.rng.random() < .3:
            op["null"] = True
        self.do(self.h[h]["p"], op)

    def o_ren(self):
        h = self.pick("r")
        if h:
            self.do(self.h[h]["p"], {"o": "ren", "h": h, "from": self.key(), "to": self.key()})

    def o_mvp(self):
        h = self.pick()
        self.do(self.h[h]["p"], {"o": "mvp", "h": h, "from": self.pfx(), "to": self.pfx()})

    def o_delp(self):
        h = self.pick()
        self.do(self.h[h]["p"], {"o": "delp", "h": h, "p": self.pfx()})

    def o_ls(self):
        h = self.pick()
        self.do(self.h[h]["p"], {"o": "ls", "h": h, "p": self.pfx()})

    def o_sum(self):
        h = self.pick("r")
        if h:
            self.do(self.h[h]["p"], {"o": "sum", "h": h})

    def o_walk(self):
        h = self.pick("r")
        if h:
            self.do(self.h[h]["p"], {"o": "walk", "h": h})

    def o_cleanup(self):
        h = self.pick()
        self.do(self.h[h]["p"], {"o": "cleanup", "h": h})

    def o_limits(self):
        h = self.pick()
        if not self.excl(h):
            nohp = self.rng.random() < self.nohp
            self.h[h]["nohp"] = nohp
            self.do(self.h[h]["p"], {"o": "limits", "h": h, "max": self.rng.choice(self.limits), "nohp": nohp})
            self.o_audit()

    def o_close(self):
        h = self.pick()
        if len(self.h) > 1 or self.rng.random() < .5:
            # everything made from the handle first
            for b in [b for b in self.b if self.b[b]["h"] == h]:
                self.end_batch(b)
            hh = self.h.pop(h)
            if hh["api"] == "c" and any(x["h"] == h for x in self.s.values() if x.get("h")):
                pass
            self.do(hh["p"], {"o": "close", "h": h})
        if len(self.h) < self.maxh:
            self.open(self.rng.randint(1, self.nproc), self.rng.choice(self.apis))

    def end_batch(self, b):
        bb = self.b[b]
        for v in [v for v in self.v if self.v[v]["b"] == b]:
            vv = self.v.pop(v)
            if bb["api"] == "c":
                self.do(bb["p"], {"o": "stage", "b": b, "v": v, "k": self.key()})
            elif self.rng.random() < .6:
                self.do(bb["p"], {"o": "vdrop", "v": v})
            else:
                self.orphans[v] = bb["p"]   # outlives its batch
        del self.b[b]
        if bb["api"] == "c" or self.rng.random() < .75:
            self.do(bb["p"], {"o": "commit", "b": b})
        else:
            self.do(bb["p"], {"o": "bdrop", "b": b})

    def o_batch(self):
        rng = self.rng
        rd = self.busy_reader()
        if not self.b or (len(self.b) < 3 and rng.random() < .2):
            h = self.pick()
            b = self.new()
            p = self.h[h]["p"]
            x = self.do(p, {"o": "bnew", "h": h, "b": b})
            if x and x["ok"]:
                self.b[b] = dict(h=h, p=p, api=self.h[h]["api"], n=0)
            return
        b = rng.choice(list(self.b))
        bb = self.b[b]
        vs = [v for v in self.v if self.v[v]["b"] == b]
        if bb["api"] == "r" and rng.random() < .15:
            self.o_orphan(b)
        c = rng.random()
        if not vs and c < .5 or c < .15:
            v = self.new()
            if bb["api"] == "r" and rng.random() < .2:
                n, i = rng.choice(self.lens), self.id()
                x = self.do(bb["p"], {"o": "vclone", "b": b, "v": v, "id": i, "n": n})
                if x and x["ok"]:
                    self.v[v] = dict(b=b, id=i, off=n)
                return
            x = self.do(bb["p"], {"o": "vbegin", "b": b, "v": v})
            if x and x["ok"]:
                self.v[v] = dict(b=b, id=self.id(), off=0)
        elif vs and c < .55:
            v = rng.choice(vs)
            vv = self.v[v]
            n = rng.choice(self.lens)
            op = {"o": "vwrite", "v": v, "id": vv["id"], "off": vv["off"], "n": n}
            if bb["api"] == "r":
                op["via"] = rng.choice(["write", "copy", "copy", "fd"])
                if op["via"] == "copy":
                    op["src"] = rng.choice(["slice", "short", "file", "fail"])
                    if op["src"] == "fail":
                        op["good"] = rng.randint(0, n)
            else:
                op["via"] = "fd"
            x = self.do(bb["p"], op)
            if x and x["ok"]:
                vv["off"] += n
            elif op["via"] != "copy" or self.faulty:
                self.drop_v(v)
        elif vs and c < .6:
            v = rng.choice(vs)
            if bb["api"] == "r":
                self.do(bb["p"], {"o": "vlen", "v": v})
        elif vs and c < .64:
            self.drop_v(rng.choice(vs))
        elif vs and c < .85:
            v = rng.choice(vs)
            del self.v[v]
            if rng.random() < .15:      # staged with a batch other than the one it was begun with
                b = rng.choice([x for x in self.b if (self.b[x]["p"], self.b[x]["api"]) == (bb["p"], bb["api"])])
            self.do(bb["p"], {"o": "stage", "b": b, "v": v, "k": self.key()})
            self.b[b]["n"] += 1
        elif c < .93:
            ss = [s for s in self.s if self.s[s]["api"] == bb["api"] and self.s[s]["p"] == bb["p"]]
            ss = [(s, i) for s in ss for i in self.s[s]["held"]]
            if ss:
                s, i = rng.choice(ss)
                self.do(bb["p"], {"o": "brename", "b": b, "s": s, "i": i, "k": self.key()})
        elif not rd:
            self.end_batch(b)

    def o_orphan(self, b=None):
        """a value whose batch is gone is dropped, or staged with another one"""
        vs = [v for v in self.orphans if b is None or self.orphans[v] == self.b[b]["p"]]
        if vs and not self.bad and not self.r.stop:
            v = self.rng.choice(vs)
            p = self.orphans.pop(v)
            if b is None or self.rng.random() < .5:
                self.do(p, {"o": "vdrop", "v": v})
            else:
                self.do(p, {"o": "stage", "b": b, "v": v, "k": self.key()})

    def drop_v(self, v):
        p, api = self.b[self.v[v]["b"]]["p"], self.b[self.v[v]["b"]]["api"]
        if api == "r":
            del self.v[v]
            self.do(p, {"o": "vdrop", "v": v})
        elif self.faulty:
            del self.v[v]       # the C interface cannot drop a value

    def o_rnew(self):
        h = self.pick()
        r = self.new()
        p = self.h[h]["p"]
        x = self.do(p, {"o": "rnew", "h": h, "r": r})
        if x and x["ok"]:
            self.rd[r] = dict(p=p, api=self.h[h]["api"], h=h, lens=[])

    def broken(self, r, x):
        """the reader's transaction may be gone after an error: nothing but ending it makes sense"""
        if x and not x["ok"] and not self.bad:
            rr = self.rd.pop(r)
            self.do(rr["p"], {"o": "rdrop", "r": r})

    def o_rstep(self):
        rng = self.rng
        r = next(iter(self.rd))
        rr = self.rd[r]
        c = rng.random()
        if c < .55:
            x = self.do(rr["p"], {"o": "radd", "r": r, "k": self.key()})
            if x and x["ok"] and x["v"]["len"] >= 0:
                rr["lens"].append(x["v"]["len"])
            self.broken(r, x)
        elif c < .65:
            x = self.do(rr["p"], {"o": "rls", "r": r, "p": self.pfx()})
            self.broken(r, x)
        elif c < .92:
            s = self.new()
            x = self.do(rr["p"], {"o": "rbegin", "r": r, "s": s})
            del self.rd[r]
            if x and x["ok"]:
                self.s[s] = dict(p=rr["p"], api=rr["api"], n=len(rr["lens"]), lens=rr["lens"],
                                 held=set(range(len(rr["lens"]))), a=self.actor(rr["p"]), h=rr["h"])
                if not rr["lens"]:
                    del self.s[s]
                    self.do(rr["p"], {"o": "sdrop", "s": s})
        else:
            del self.rd[r]
            self.do(rr["p"], {"o": "rdrop", "r": r})

    def o_sread(self, s=None):
        rng = self.rng
        if not self.s:
            return
        s = s or rng.choice(list(self.s))
        ss = self.s[s]
        i = rng.choice(sorted(ss["held"]))
        n = ss["lens"][i]
        m = rng.choice(["at", "at", "read", "view", "reader"]) if ss["api"] == "r" else "at"
        pos = rng.choice([0, 0, 1, n // 2, max(0, n - 1), n, n + 1, 4096])
        self.do(ss["p"], {"o": "sread", "s": s, "i": i, "m": m, "pos": pos,
                          "n": rng.choice([0, 1, n, n + 5, n // 2, 4096])}, a=ss["a"])
        if rng.random() < .15:
            self.do(ss["p"], {"o": "sstat", "s": s, "i": i}, a=ss["a"])

    def o_sdrop(self):
        if not self.s:
            return
        s = self.rng.choice(list(self.s))
        ss = self.s[s]
        if len(ss["held"]) > 1 and ss["api"] == "r" and self.rng.random() < .5:
            i = self.rng.choice(sorted(ss["held"]))
            ss["held"].discard(i)
            self.do(ss["p"], {"o": "sdropv", "s": s, "i": i}, a=ss["a"])
        else:
            del self.s[s]
            self.do(ss["p"], {"o": "sdrop", "s": s}, a=ss["a"])

    def o_drain(self):
        self.r.pdrain()

    def o_pstep(self):
        """some single steps of reclaimers"""
        for _ in range(self.rng.randint(1, 6)):
            st = self.r.states()
            c = sorted(a for a in st if a.startswith("P") and st[a][1].startswith("gate"))
            if not c or self.r.stop:
                return
            self.r.step(self.rng.choice(c))

    def o_audit(self):
        if not self.bad and not self.r.stop and self.h:
            self.r.audit()

    def o_dirs(self):
        if not self.bad and not self.r.stop and self.h:
            self.r.dirs()
            if self.other:
                self.r.others()

    def o_fab(self):
        """what somebody who died long ago has left"""
        if self.h and not self.r.stop:
            self.r.fabricate(self.rng)

    def mkother(self):
        if self.other and not self.r.stop and self.h:
            self.r.mkother(self.rng)
            self.r.others(set=True)

    def o_space(self):
        if any(x.get("nohp") for x in self.h.values()):
            return
        self.quiesce()
        if not self.bad and not self.r.stop:
            self.r.space()

    # ---- the command line tool
    def run_holes(self, rounds=3, space=False):
        """Dead ranges of all shapes in files nobody is writing to, and then the tool."""
        rng = self.rng
        self.nohp = 1
        self.mkother()
        try:
            for _ in range(rounds):
                hs = [self.open(p, rng.choice(self.apis)) for p in rng.sample(range(1, self.nproc + 1), rng.randint(1, self.nproc))]
                for h in hs:
                    if rng.random() < .85:
                        self.h[h]["nohp"] = True
                        self.do(self.h[h]["p"], {"o": "limits", "h": h, "max": -1, "nohp": True})
                some = rng.sample(self.keys, min(len(self.keys), rng.randint(3, 8)))
                for k in some:
                    h = rng.choice(hs)
                    self.do(self.h[h]["p"], {"o": "put", "h": h, "k": k, "id": self.id(), "n": rng.choice(self.lens)})
                for k in rng.sample(some, rng.randint(1, len(some))):
                    h = rng.choice(hs)
                    self.do(self.h[h]["p"], {"o": "del", "h": h, "k": k} if rng.random() < .8 else
                            {"o": "put", "h": h, "k": k, "id": self.id(), "n": rng.choice(self.lens)})
                if rng.random() < .3:
                    self.o_get()
                for h in hs:        # (one of them may stay)
                    if len(self.h) > 1 or rng.random() < .85:
                        hh = self.h.pop(h)
                        self.do(hh["p"], {"o": "close", "h": h})
                if rng.random() < .5:
                    self.r.pdrain(sleeps=3)
                for _ in range(rng.randint(1, 3)):
                    self.o_cli(rng.choice(["holes", "punch", "punch", "show", "regions", "last"]))
                for s in list(self.s):
                    self.o_sread(s)
                    if s in self.s:
                        self.do(self.s[s]["p"], {"o": "sdrop", "s": s}, a=self.s[s]["a"])
                        self.s.pop(s)
                self.r.audit()
                h = self.open(1, "r")
                for k in self.keys:
                    self.look(1, h, k)
                if rng.random() < .7:
                    self.h.pop(h)
                    self.do(1, {"o": "close", "h": h})
                for h in list(self.h):
                    if rng.random() < .7:
                        self.do(self.h[h]["p"], {"o": "close", "h": h})
                        self.h.pop(h)
        except KeyError:
            if not (self.bad or self.r.stop):
                raise
        if not self.h and not self.bad and not self.r.stop:
            self.open(1, "r")
        return self.finish(space)

    # ---- hole punching on and off
    def run_off(self, rounds=4):
        """Values go in all the ways there are through handles that reclaim and handles that don't."""
        rng = self.rng
        try:
            hs = [self.open(p, rng.choice(self.apis)) for p in
                  (rng.choices(range(1, self.nproc + 1), k=self.maxh) if self.nproc > 1 else [1] * rng.randint(1, self.maxh))]
            for j in range(rounds):
                for h in hs:
                    if rng.random() < (.95 if j % 2 == 0 else .3):
                        self.h[h]["nohp"] = j % 2 == 0 or rng.random() < .2
                        self.do(self.h[h]["p"], {"o": "limits", "h": h, "max": rng.choice([-1, 10 ** 7]), "nohp": self.h[h]["nohp"]})
                for k in rng.sample(self.keys, min(len(self.keys), rng.randint(3, 8))):
                    h = rng.choice(hs)
                    self.do(self.h[h]["p"], {"o": "put", "h": h, "k": k, "id": self.id(), "n": rng.choice(self.lens)})
                for _ in range(rng.randint(2, 5)):
                    h = rng.choice(hs)
                    p, c = self.h[h]["p"], rng.random()
                    if c < .25:
                        self.do(p, {"o": "del", "h": h, "k": self.key()})
                    elif c < .35:
                        self.do(p, {"o": "put", "h": h, "k": self.key(), "id": self.id(), "n": rng.choice(self.lens)})
                    elif c < .5:
                        self.do(p, {"o": "delp", "h": h, "p": self.pfx()})
                    elif c < .75:
                        b = self.new()
                        self.do(p, {"o": "bnew", "h": h, "b": b})
                        for k in rng.sample(self.keys, rng.randint(1, min(4, len(self.keys)))):
                            v, n = self.new(), rng.choice(self.lens)
                            self.do(p, {"o": "vbegin", "b": b, "v": v})
                            self.do(p, {"o": "vwrite", "v": v, "id": self.id(), "off": 0, "n": n, "via": "fd"})
                            self.do(p, {"o": "stage", "b": b, "v": v, "k": k})
                        self.do(p, {"o": "commit", "b": b})
                    elif c < .9:
                        self.do(p, {"o": "limits", "h": h, "max": rng.choice([0, 4096, 9000, 20000]), "nohp": self.h[h].get("nohp", False)})
                    else:
                        self.o_get()
                    if rng.random() < .3:
                        self.o_pstep()
                for s in list(self.s):
                    self.o_sread(s)
                    if s in self.s:
                        self.do(self.s[s]["p"], {"o": "sdrop", "s": s}, a=self.s[s]["a"])
                        self.s.pop(s)
                self.r.pdrain(sleeps=3)
                if not any(self.h[h].get("nohp") for h in hs):
                    self.o_space()
                else:
                    self.r.audit()
        except KeyError:
            if not (self.bad or self.r.stop):
                raise
        return self.finish()

    def cli(self, op, args):
        p = 1000 + self.new()
        if self.bad or self.r.stop:
            return None
        self.r.cli(p, args)
        x = self.do(p, dict(op, cli=True, h=self.new()), a="c%d" % p)
        self.r.end(p)
        return x

    def utf8(self):
        def ok(k):
            try:
                return "\0" not in bytes(k).decode() and k[:1] != [45]
            except UnicodeDecodeError:
                return False
        return [k for k in self.keys if ok(k)]

    def mk_scratch(self):
        """a file with holes in odd places"""
        rng = self.rng
        n = "scratch-%d" % self.new()
        bs = 4096
        with open(os.path.join(self.r.tmp, n), "wb") as f:
            for _ in range(rng.randint(0, 5)):
                if rng.random() < .5:
                    f.seek(rng.choice([1, bs - 1, bs, 3 * bs, rng.randrange(6 * bs)]), 1)
                else:
                    f.write(b"x" * rng.choice([1, bs, 2 * bs, rng.randrange(3 * bs)]))
            f.truncate(max(f.tell(), rng.choice([0, 0, bs, 5 * bs, rng.randrange(8 * bs)])))
        return n

    def o_cli(self, what=None):
        rng = self.rng
        r = self.r
        d = ["database", None]
        vf = sorted(n for n in os.listdir(r.dir) if n.startswith("values-"))
        what = what or rng.choice(["write", "write", "ls", "read", "holes", "holes", "punch", "punch", "show", "regions", "last",
                                   "phole", "info"])
        if what == "regions" and not self.h:
            what = "show"
        if what == "write":
            k = self.key()
            name = bytes(k)
            if not name or b"/" in name or b"\0" in name or name in (b".", b".."):
                return
            src = os.path.join(r.tmp, "src-%d" % self.new())
            os.makedirs(src)
            src = os.path.join(src, os.fsdecode(name))
            self.cli({"o": "put", "k": k, "id": self.id(), "n": rng.choice(self.lens), "src_file": list(os.fsencode(src))},
                     d + ["write-file", src])
        elif what == "ls":
            p = self.pfx()
            try:
                s = bytes(p).decode()
            except UnicodeDecodeError:
                return
            if any(10 in k for k in self.keys) or "\0" in s or s.startswith("-"):
                return
            self.cli({"o": "clils", "p": p}, d + ["list-keys"] + ([s] if s or rng.random() < .5 else []))
        elif what == "read":
            ks = self.utf8()
            if ks:
                k = rng.choice(ks)
                self.cli({"o": "cread", "k": k, "pos": 0, "n": 2_000_000_000, "cand": list(r.cands)},
                         d + ["read-key", bytes(k).decode()])
        elif what == "info":
            self.cli({"o": "cliinfo"}, d + ["info"])
        elif what in ("holes", "punch"):
            f = rng.choice(vf) if vf and rng.random() < .4 else None
            fr = what == "holes" and rng.random() < .6
            if r.stop or self.bad:
                return
            r.map()
            self.cli({"o": "cl" + what, "f": f or 0, "fr": fr},
                     d + ["print-missing-holes" if what == "holes" else "punch-missing-holes"] + (["-f"] if fr else [])
                     + ([os.path.join(r.dir, f)] if f else []))
            if not r.stop and not self.bad:
                r.map("mapped")
        elif what in ("show", "regions", "phole"):
            if what == "phole" or rng.random() < .5:
                self.mk_scratch()
            sf = r.scratch_files()
            paths = [os.path.join(r.dir, n) for n in vf] + [os.path.join(r.tmp, n) for n in sf]
            if not paths:
                return
            r.map()
            if what == "show":
                ps = rng.sample(paths, rng.randint(1, len(paths)))
                self.cli({"o": "clshow", "fs": [os.path.basename(x) for x in ps]}, ["show-holes"] + ps)
            elif what == "regions":
                x = rng.choice(paths)
                h = self.pick()
                n = os.path.basename(x)
                self.do(self.h[h]["p"], {"o": "regions", "path": x, "f": n, "fs": [n]})
            else:
                n = rng.choice(sf)
                size = os.path.getsize(os.path.join(r.tmp, n))
                off = rng.choice([0, 4096, 8192, rng.randrange(size + 1)])
                m = rng.choice([1, 4096, 8192, 5000, 20000])
                self.cli({"o": "clphole", "f": n, "off": off, "n": m},
                         ["punch-hole", os.path.join(r.tmp, n), str(off), str(m)])
            if not r.stop and not self.bad:
                r.map("mapped")
        elif what == "last":
            if vf:
                f = rng.choice(vf)
                off = rng.choice([0, 4096, 8192, 100000, rng.randrange(60000)])
                self.cli({"o": "cllast", "f": f, "off": off}, ["last-end-offset", r.dir, f[len("values-"):], str(off)])

    def quiesce(self):
        """Reclaimers finish what they can. Waiting for new values to reclaim takes real time (a second),
        unless there are some: so give each of them one."""
        self.r.pdrain(sleeps=3)
        for h in list(self.h):
            p = self.h[h]["p"]
            self.do(p, {"o": "put", "h": h, "k": [1, 2, 3, 4], "id": self.id(), "n": 1})
            self.do(p, {"o": "del", "h": h, "k": [1, 2, 3, 4]})
            self.r.pdrain(sleeps=3)

    def finish(self, space=False):
        for r in list(self.rd):
            self.do(self.rd[r]["p"], {"o": "rdrop", "r": r})
        self.rd = {}
        for s in list(self.s):
            self.o_sread(s)
        for b in list(self.b):
            if not self.bad:
                self.end_batch(b)
        while self.orphans and not self.bad and not self.r.stop:
            self.o_orphan()
        for s in list(self.s):
            self.do(self.s[s]["p"], {"o": "sdrop", "s": s}, a=self.s[s]["a"])
        if not self.bad and not self.r.stop:
            self.r.audit()
            self.r.dirs()
        for h in list(self.h)[:1]:
            for k in self.keys:
                self.look(self.h[h]["p"], h, k)
        for h in list(self.h):
            self.do(self.h[h]["p"], {"o": "close", "h": h})
        if not self.bad and not self.r.stop:
            self.r.pdrain(sleeps=8)
            self.r.audit()
            self.r.dirs()
            if self.other:
                self.r.others()
            if space:
                self.r.space()
        return self.r.finish()

    def forget(self, p):
        """process p is gone"""
        self.h = {h: x for h, x in self.h.items() if x["p"] != p}
        gone = {b for b, x in self.b.items() if x["p"] == p}
        self.b = {b: x for b, x in self.b.items() if b not in gone}
        self.v = {v: x for v, x in self.v.items() if x["b"] not in gone}
        self.rd = {r: x for r, x in self.rd.items() if x["p"] != p}
        self.orphans = {v: q for v, q in self.orphans.items() if q != p}
        self.s = {s: x for s, x in self.s.items() if x["p"] != p}

    def after_crash(self, p, q, apis=("r",), steps=12, others=True):
        """p died: another process opens the directory and finds all in order; the directory stays usable,
        also for those that had it open."""
        self.forget(p)
        r = self.r
        for x in list(self.rd):     # nobody can open the directory while there is a reader that hasn't begun
            self.do(self.rd.pop(x)["p"], {"o": "rdrop", "r": x})
        if r.stop:
            return r.finish()
        self.open(q, self.rng.choice(apis))
        if self.bad or r.stop:
            return r.finish()
        r.audit()
        h = [x for x in self.h if self.h[x]["p"] == q]
        if not h:
            return r.finish()
        h = h[0]
        self.do(q, {"o": "ls", "h": h, "p": []})
        for k in self.keys:
            self.look(q, h, k)
        for i in range(steps):
            if self.bad or r.stop:
                break
            self.step()
        return self.finish(space=True)

    def look(self, p, h, k):
        if self.h[h]["api"] == "c":
            self.do(p, {"o": "cread", "h": h, "k": k, "pos": 0, "n": 50000})
            return
        s = self.new()
        x = self.do(p, {"o": "get", "h": h, "k": k, "s": s})
        if x and x["ok"] and x["v"]["len"] >= 0:
            self.do(p, {"o": "sread", "s": s, "i": 0, "m": "view", "pos": 0, "n": 0})
            self.do(p, {"o": "sdrop", "s": s})

    def run(self, space=False):
        for i in range(max(1, self.rng.randint(1, self.maxh))):
            self.open(1 + i % self.nproc, self.rng.choice(self.apis))
        self.mkother()
        for _ in range(self.steps):
            if self.bad or self.r.stop:
                break
            if not self.h:
                self.open(self.rng.randint(1, self.nproc), self.rng.choice(self.apis))
                continue
            self.step()
        return self.finish(space)
