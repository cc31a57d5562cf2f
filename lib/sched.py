"""Controlled interleavings: every actor is a program (a generator that yields calls and gets their
results); who moves next is decided here, from one file-level step of the code to the next."""
import random
from pv import Run

TXLESS = 12      # how many fruitless retries a waiting actor may be given


PREP = ("bnew", "vbegin", "vwrite", "vlen", "stage", "brename", "bdrop", "vdrop", "sread", "sdrop", "sdropv", "sstat", "vclone")


class Sched:
    """progs: {actor: (process, generator)}. chooser(cands, cur, info) -> actor."""

    def __init__(self, r, progs, chooser, now=5000, maxsteps=3000, punchers=True):
        self.r, self.chooser = r, chooser
        self.gen = {a: g for a, (p, g) in progs.items()}
        self.pof = {a: p for a, (p, g) in progs.items()}
        self.todo = {}
        self.now = now
        self.maxsteps = maxsteps
        self.punchers = punchers
        self.seen = 0
        self.txe = 0
        self.slept_at = {}
        self.inop = {}
        self.blocked_noted = {}
        self.trail = []
        self.always = False
        for a in list(self.gen):
            self._next(a, None)

    def _next(self, a, res):
        try:
            self.todo[a] = self.gen[a].send(res)
        except StopIteration:
            self.todo.pop(a, None)
            self.gen.pop(a, None)

    def _scan(self):
        new = self.r.raw[self.seen:]
        self.seen = len(self.r.raw)
        for _, p, e in new:
            if e["e"] == "crash":       # its actors are gone
                for a in [a for a in self.pof if self.pof[a] == p]:
                    self.inop.pop(a, None)
                    self.todo.pop(a, None)
                    self.gen.pop(a, None)
            if e["e"] in ("txe", "close", "crash") or (e["e"] == "lock" and e["t"] == "u"):
                self.txe += 1
            if e["e"] == "ret" and e["a"] in self.inop:
                self.inop.pop(e["a"])
                res = e["res"]
                self.blocked_noted.pop(e["a"], None)
                self.txe += 1
                if not res["ok"] and res["err"] == "panic":
                    self.r.stop = True
                if p in self.r.clis:        # a run of the command line tool
                    self.r.end(p)
                self._next(e["a"], res)

    def cands(self):
        st = self.r.states()
        a1, a2, a3 = [], [], []
        for a in sorted(self.todo):
            if a not in self.inop:
                a1.append(a)
        for a in sorted(st):
            s = st[a][1]
            if not s.startswith("gate"):
                continue
            if a.startswith("P"):
                if s == "gate sleep":
                    continue
                if self.punchers:
                    a1.append(a)
                else:
                    a3.append(a)
            elif s == "gate sleep":
                (a2 if self.slept_at.get(a, -1) != self.txe else a3).append(a)
            else:
                a1.append(a)
        return (a1 + a2) or a3

    def note_blocked(self):
        """operations that stand still without being at a gate of their own"""
        st = self.r.states()
        for a in list(self.inop):
            s = st.get(a, (0, "gone"))[1]
            if s in ("blocked", "gate sleep"):
                # (between reading and locking the manifest SQLite may find that it has to begin anew, and
                # sleeps although nobody is in the way: only seen when stopping at its reads)
                if not self.blocked_noted.get(a) and not (self.r.mgate and s == "gate sleep"):
                    self.blocked_noted[a] = True
                    o = self.inop[a]["o"]
                    if s == "blocked" and (o in PREP or len(self.inop) == 1) and self.r.moves([a], n=15):
                        self.blocked_noted[a] = False       # it was not
                        continue
                    self.r.ev({"e": "blocked", "a": a})
            else:
                self.blocked_noted[a] = False

    def run(self):
        r = self.r
        cur = None
        n = 0
        stuck = 0
        while not r.stop and n < self.maxsteps:
            c = self.cands()
            if not c:
                if self.inop:
                    # only sleeping reclaimers are left, or nobody at all
                    ps = [a for a, (p, s) in r.states().items() if a.startswith("P") and s == "gate sleep"]
                    if ps and stuck < 20:
                        stuck += 1
                        r.step(ps[stuck % len(ps)])
                        self._scan()
                        continue
                    if r.moves(list(self.inop)):
                        self._scan()
                        continue
                    r.ev({"e": "hang", "a": ",".join(sorted(self.inop))})
                    r.stop = True
                break
            stuck = 0
            a = c[0] if len(c) == 1 and not self.always else self.chooser(c, cur, self)
            if a is None:       # (the chooser did something else)
                continue
            self.trail.append((a, tuple(c)))
            n += 1
            if a in self.todo and a not in self.inop:
                op = self.todo[a]
                self.now += 1
                self.inop[a] = op
                if not r.procs[self.pof[a]].alive:
                    self.inop.pop(a)
                    self.todo.pop(a)
                    continue
                r.op(a, op, now=self.now, p=self.pof[a], run="gate")
            else:
                if r.states()[a][1] == "gate sleep":
                    self.slept_at[a] = self.txe
                r.step(a)
            self._scan()
            self.note_blocked()
            cur = a
        if n >= self.maxsteps and not r.stop:
            r.notes.append("schedule cut off")
        return not r.stop and n < self.maxsteps


def random_chooser(rng, stay=0.6, bias=None):
    def f(c, cur, s):
        if cur in c and rng.random() < stay:
            return cur
        return rng.choice(c)
    return f


def pct_chooser(rng, depth=3, horizon=120):
    """fixed random priorities, lowered at a few random points"""
    pri, points, n = {}, sorted(rng.sample(range(horizon), depth)), [0]

    def f(c, cur, s):
        for a in c:
            if a not in pri:
                pri[a] = rng.random()
        n[0] += 1
        best = max(c, key=lambda a: pri[a])
        if points and n[0] >= points[0]:
            points.pop(0)
            pri[best] = -n[0]
            best = max(c, key=lambda a: pri[a])
        return best
    return f


def prefix_chooser(prefix):
    """follow a list of choices as far as it goes, then stay with whoever runs"""
    i = [0]

    def f(c, cur, s):
        if i[0] < len(prefix):
            a = prefix[i[0]]
            i[0] += 1
            if a in c:
                return a
        else:
            i[0] += 1
        return cur if cur in c else c[0]
    return f


def enumerate_schedules(execute, bound, limit, rng=None):
    """Stateless exploration: every schedule with at most `bound` preemptions.
    execute(chooser) -> trail [(chosen, candidates)] of the decisions with a choice.
    Breadth first over the number of preemptions; at most `limit` executions."""
    done = 0
    work = [()]
    seen = {()}
    while work and done < limit:
        if rng and len(work) > 1 and done:
            i = rng.randrange(len(work))
            work[i], work[-1] = work[-1], work[i]
            pre = work.pop()
        else:
            pre = work.pop(0)
        trail = execute(prefix_chooser(pre))
        done += 1
        choices = [x for x in trail if len(x[1]) > 1]
        chosen = [x[0] for x in choices]
        # preemptions used before position i
        used = 0
        allprev = {}
        prev = None
        j = 0
        for a, c in trail:
            if len(c) > 1:
                if j >= len(pre):
                    for b in c:
                        if b == a:
                            continue
                        cost = used + (1 if prev in c and b != prev else 0)
                        if cost <= bound:
                            k = tuple(chosen[:j]) + (b,)
                            if k not in seen:
                                seen.add(k)
                                work.append(k)
                if prev in c and a != prev:
                    used += 1
                j += 1
            prev = a
    return done, not work
