#!/usr/bin/env python3
"""How much does the specification say? Takes recorded executions, falsifies one thing in each copy (a field of an
event, or the event's presence), and has them judged: a copy that is still accepted shows something that
PossumTrace does not constrain (or that cannot matter). Not a check: a measure of the oracle.

selftest.py [per-kind] [seed]  -> out/selftest.txt"""
import copy, json, os, random, sys
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
import gen, pv, suites

PER = int(sys.argv[1]) if len(sys.argv) > 1 else 2
SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1


def traces():
    T = []
    k18 = dict(w=suites.W18, keys=suites.K18, lens=suites.L18, nohp=.6, handles=2)
    for i, (kind, kw) in enumerate([
            ("run", dict(apis=("r", "c"), handles=2, w=dict(sum=1, walk=1))),
            ("run", dict(apis=("r", "c"), nproc=2, handles=3, w=dict(ren=6, mvp=6, delp=3, batch=12))),
            ("run", dict(mode="clone", handles=2, w=dict(dirs=6, cleanup=3, reader=10))),
            ("run", dict(mode="clone", nproc=2, handles=2, w=dict(dirs=6, cleanup=3, fab=2, reader=10), other=True)),
            ("run", dict(mode="flock", handles=2, w=dict(dele=10, drain=4))),
            ("run", dict(lens=[0, 1000, 2000, 4096], limit_choices=(-1, 3000, 5000), w=dict(limits=6, get=10))),
            ("space", dict(handles=2, w=dict(dele=12, drain=4, space=4))),
            ("off", dict()),
            ("holes", k18), ("run", k18)] * 2):
        def one(g=None):
            s = SEED * 1000 + i
            g = gen.Seq(s, 70, name="%s-%d" % (kind, i), **suites.resolve(kw, s))
            return (g.run_holes(3) if kind == "holes" else g.run_off(3) if kind == "off"
                    else g.run(space=kind == "space"))
        T.append(one())
    return T


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path, "drop"
            yield path, "twice"
        for i in range(len(x)):
            yield from leaves(x[i], path + (i,))
    elif isinstance(x, bool):
        yield path, "not"
    elif isinstance(x, int):
        yield path, "+1"
        yield path, "-1"


def change(e, path, how):
    e = copy.deepcopy(e)
    x = e
    for k in path[:-1]:
        x = x[k]
    y = x[path[-1]]
    if how == "drop":
        y.pop(0)
    elif how == "twice":
        y.append(copy.deepcopy(y[-1]))
    elif how == "not":
        x[path[-1]] = not y
    else:
        x[path[-1]] = y + (1 if how == "+1" else -1)
    return e


def main():
    pv.build()
    T = traces()
    rej, n = pv.judge(T)
    assert not rej, [str(r) for r in rej]
    kinds = {}
    for t in T:
        cur = {}
        for i, e in enumerate(t.events):
            if e["e"] in ("reset",):
                continue
            o = ""
            if e["e"] == "call":
                o = cur[e["a"]] = e["op"]["o"]
            elif e["e"] == "ret":
                o = cur.get(e["a"], "?") + (":ok" if e["res"]["ok"] else ":err")
            elif "c" in e:
                o = str(e["c"])
            kinds.setdefault((e["e"], o, "", "absent"), []).append((t, i, None))
            if e["e"] == "call":
                continue        # (that would be another execution)
            for path, how in leaves(e):
                if path[0] in ("p", "now"):
                    continue
                kinds.setdefault((e["e"], o, ".".join("*" if isinstance(k, int) else k for k in path), how), []).append((t, i, path))
    rng = random.Random(SEED)
    jobs = [(k, x) for k in sorted(kinds) for x in rng.sample(kinds[k], min(PER, len(kinds[k])))]
    print("%d traces, %d events, %d kinds, %d copies" % (len(T), n, len(kinds), len(jobs)), flush=True)

    def one(job):
        (k, (t, i, path)) = job
        ev = list(t.events)
        if path is None:
            del ev[i]
        else:
            ev[i] = change(ev[i], path, k[3])
        try:
            rej, _ = pv.judge_batch([pv.Trace(t.name, ev, mode=t.mode)], timeout=120)
        except pv.Infra as x:
            return k, "?", str(x)[:200]
        return k, bool(rej), "" if not rej else "%+d %s" % (rej[0].at - i, str(rej[0].whys[:1])[:150])
    res = {}
    with ThreadPoolExecutor(6) as ex:
        for k, ok, why in ex.map(one, jobs):
            res.setdefault(k, []).append((ok, why))
    with open(os.path.join(R, "out", "selftest.txt"), "w") as f:
        for k in sorted(res):
            got = sum(1 for ok, _ in res[k] if ok is True)
            f.write("%d/%d  %s\n" % (got, len(res[k]), " ".join(k)))
            for ok, why in res[k]:
                f.write("         %s %s\n" % (ok, why))
    a = sum(len(v) for v in res.values())
    b = sum(1 for v in res.values() for ok, _ in v if ok is True)
    print("%d of %d copies rejected; kinds never rejected: %d of %d" %
          (b, a, sum(1 for v in res.values() if not any(ok is True for ok, _ in v)), len(res)))


main()
