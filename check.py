#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] | check.py --replay DIR"""
import argparse, json, os, re, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import pv, classify

FINDINGS = os.path.join(pv.ROOT, "known_findings.json")


def load_findings():
    try:
        return json.load(open(FINDINGS))
    except FileNotFoundError:
        return []


def known(f, prop, rej):
    return (f.get("status") == "known" and f["property"] == prop
            and re.search(f["trace"], rej.trace.name) and re.search(f["why"], " | ".join(rej.whys) or str(rej)))


def save(prop, i, rej):
    d = os.path.join(pv.OUT, prop, "%d-%d" % (os.getpid(), i))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "trace.ndjson"), "w") as f:
        for e in rej.trace.events:
            f.write(json.dumps(e) + "\n")
    with open(os.path.join(d, "info.json"), "w") as f:
        json.dump({"property": prop, "run": rej.trace.name, "mode": rej.trace.mode, "rejected_at": rej.at,
                   "event": rej.event, "why": rej.whys, "speaks_about": sorted(classify.props(rej)),
                   "meta": rej.trace.meta, "notes": rej.trace.notes, "script": rej.trace.script}, f, indent=1)
    return d


def replay(d):
    pv.build()
    info = json.load(open(os.path.join(d, "info.json")))
    evs = [json.loads(x) for x in open(os.path.join(d, "trace.ndjson"))]
    rej, _ = pv.judge([pv.Trace(info["run"], evs, mode=info["mode"])])
    print("recorded trace:", "rejected: %s" % rej[0] if rej else "accepted")
    if info["script"]:
        r = pv.Run(mode=info["mode"], name=info["run"] + "-replay")
        old = None
        for p, c in info["script"]:
            c = json.loads(json.dumps(c))
            if c["c"] == "init":
                old = c["dir"]
                c["dir"] = r.dir
                if "args" in c:     # a run of the command line tool
                    args = [os.fsdecode(a.encode("latin-1")).replace(os.path.dirname(old), r.tmp) for a in c["args"]]
                    for a in args:
                        if "/src-" in a:
                            os.makedirs(os.path.dirname(a), exist_ok=True)
                    r.cli(p, args)
                    continue
                w = pv.Worker(r, p)
                r.procs[p] = w
                r.all_workers.append(w)
            elif "op" in c and "dir" in c["op"]:
                c["op"]["dir"] = c["op"]["dir"].replace(old, r.dir)
            if "src_file" in c.get("op", {}):
                c["op"]["src_file"] = list(bytes(c["op"]["src_file"]).replace(
                    os.path.dirname(old).encode(), r.tmp.encode()))
            if r.stop:
                break
            if r.procs[p].alive:
                r.cmd(p, c)
        if os.path.exists(os.path.join(r.dir, "manifest.db")) and not r.stop:
            try:
                r.audit()
            except Exception as e:
                print("audit:", e)
        t = r.finish()
        rej2, _ = pv.judge([t])
        print("re-execution:", "rejected: %s" % rej2[0] if rej2 else "accepted (%d events)" % len(t.events))
        return 1 if rej2 else 0
    return 1 if rej else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--only", help="only suites whose name matches")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    import suites
    t0 = time.time()
    spec = suites.CHECKS[a.prop]
    cx = suites.Ctx(a.prop, a.tier, a.seed)
    if not a.no_build:
        cx.background_models(spec)       # TLC on the models while the code is being built
        pv.build()
    tb = time.time()
    for name, fn in spec["suites"]:
        if a.only and not re.search(a.only, name):
            continue
        ts = time.time()
        try:
            fn(cx)
        except Exception as e:
            pv.FAILED.append(e if isinstance(e, pv.Infra) else pv.Infra(traceback.format_exc()))
        cx.log("%s: %.1fs" % (name, time.time() - ts))
    tj = time.time()
    cx.judge_all()
    try:
        cx.join_models()
    except pv.Infra as e:
        pv.FAILED.append(e)
    t1 = time.time()
    findings = load_findings()
    nviol = nother = 0
    seen = set()
    printed = set()
    for rej in cx.rejects:
        ps = classify.props(rej)
        rel = a.prop in ps or not ps
        f = next((f for f in findings if known(f, a.prop, rej)), None)
        if f:
            if f["id"] not in printed:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
                printed.add(f["id"])
            continue
        if not rel:
            nother += 1
            cx.log("note: rejected, but speaks about %s, not %s: %s" % (sorted(ps), a.prop, str(rej)[:400]))
            continue
        nviol += 1
        key = (rej.trace.name.split("-")[0], (rej.whys or [""])[0][:40])
        if key in seen and nviol > 5:
            continue
        seen.add(key)
        d = save(a.prop, nviol, rej)
        print("VIOLATION property=%s replay=%s" % (a.prop, d))
        print("  " + str(rej)[:1500])
    for v in cx.direct:
        f = next((f for f in findings if f.get("status") == "known" and f["property"] == a.prop
                  and re.search(f["trace"], v["name"]) and re.search(f["why"], v["what"])), None)
        if f:
            if f["id"] not in printed:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
                printed.add(f["id"])
            continue
        nviol += 1
        d = os.path.join(pv.OUT, a.prop, "%d-d%d" % (os.getpid(), nviol))
        os.makedirs(d, exist_ok=True)
        json.dump(dict(v, property=a.prop, run=v["name"], script=v.get("script", [])),
                  open(os.path.join(d, "info.json"), "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, d))
        print("  %s: %s" % (v["name"], v["what"][:1500]))
    ev = cx.evidence()
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = nviol
    ev["coverage"]["phases_s"] = {"build": round(tb - t0, 1), "run": round(tj - tb, 1), "judge": round(t1 - tj, 1)}
    ev["coverage"]["rejections_about_other_properties"] = nother
    os.makedirs(os.path.join(pv.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(pv.ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d events, %d violations, %.0fs (build %.0f, run %.0f, judge %.0f)" % (
        a.prop, a.tier, len(cx.traces), cx.events, nviol, time.time() - t0, tb - t0, tj - tb, t1 - tj))
    if pv.FAILED:
        cx.log("%d executions got no result, the first: %s" % (len(pv.FAILED), pv.FAILED[0]))
        if not nviol:
            raise pv.FAILED[0]
    return 1 if nviol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except pv.Infra as e:
        print("INFRASTRUCTURE ERROR (no verdict): %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
