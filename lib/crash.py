"""Executions that are cut short at, or disturbed at, one particular system call."""
import random
import gen

MUT = ("write", "trunc", "punch", "unlink", "rmdir", "mkdir", "open", "lock", "clone", "sync")
ERRNO = {"open": [24, 28, 5], "write": [28, 5], "trunc": [5], "punch": [5, 28], "unlink": [5], "rmdir": [5],
         "mkdir": [28, 5], "lock": [37], "clone": [28, 5], "read": [5], "sync": [5]}


def dry(mk):
    """run undisturbed, and list the calls made: ["u:V:write", ...]"""
    g = mk("dry")
    g.r.calls = True
    g.prepare()
    t = g.go()
    return t, g.calls


class Disturbed(gen.Seq):
    def prepare(self, plan=None, kind=None, at_open=True):
        self.plan, self.kind = plan, kind
        self.calls = []
        self.r.proc(1)
        if plan:
            out = self.r.cmd(1, {"c": kind, "plan": plan})
        self.prepared = True

    def go(self, q=7, steps_after=12, apis_after=("r",)):
        try:
            for i in range(max(1, self.rng.randint(1, self.maxh))):
                self.open(1 + i % self.nproc, self.rng.choice(self.apis))
            self.mkother()
            n = 0
            while n < self.steps and not self.bad and not self.r.stop:
                n += 1
                if not self.h:
                    self.open(1, self.rng.choice(self.apis))
                    if not self.h:
                        continue
                self.step()
            if self.r.calls and self.r.procs[1].alive and not self.r.stop:
                self.calls = self.r.cmd(1, {"c": "calls", "on": False}).get("calls", [])
            if self.kind == "fault" and not self.r.stop:
                self.r.cmd(1, {"c": "fault", "plan": None})
                if not self.h and not self.bad:
                    self.open(1, self.rng.choice(self.apis))
            return self.finish(space=True)
        except gen.Crashed:
            try:
                return self.after_crash(1, q, apis_after, steps_after)
            except gen.Crashed:
                return self.r.finish()


def points(calls, kinds, actor=None, cls=None):
    """the n-th call in its own (class, call, actor) counting, for every call of interest"""
    cnt, out = {}, []
    for c in calls:
        who, cl, call = c.split(":")
        k = (who, cl, call)
        cnt[k] = cnt.get(k, 0) + 1
        if call in kinds and (actor is None or actor == who) and (cls is None or cl in cls):
            out.append({"cls": cl, "call": call, "actor": "user" if who == "u" else "puncher", "nth": cnt[k]})
    return out


def stretch(rng, calls):
    """a condition that lasts for a while: the disk is full, no descriptors are left, and so on. (SQLite falls
    back to opening its files for reading only if just one attempt fails, and takes failing locks for busy
    ones: so those two do not last.)"""
    call = rng.choice(["write", "write", "write", "open", "read", "lock", "trunc", "mkdir", "clone", "sync"])
    cls = "VSD" if call == "open" else ""
    tot = sum(c.endswith(":" + call) and c[0] == "u" and (not cls or c.split(":")[1] in cls) for c in calls)
    if not tot:
        return None
    return dict(cls=cls, call=call, actor="user", nth=rng.randint(1, tot), times=rng.randint(2, 30),
                errno=rng.choice(ERRNO[call]), short=rng.random() < .3, sticky=call != "lock" and rng.random() < .2)
