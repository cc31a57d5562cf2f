"""Which properties does a rejected event speak about?"""
import re

R = [
    # reading and data
    (r'read returned|wrong number of bytes', {"C01", "C03", "C04", "C09", "C10", "C15"}),
    (r'read wrote outside', {"C01", "C15"}),
    (r'read missed its key', {"C01", "C02", "C06", "C07", "C11", "C12", "C14"}),
    (r'read reported a wrong length or time|wrong stat of deleted|reader reported', {"C01", "C07", "C15"}),
    (r'found a key that is not there', {"C01", "C02", "C11", "C12", "C14"}),
    (r'delete missed its key', {"C01", "C02", "C11", "C12", "C14", "C15"}),
    (r'wrong stat of a snapshot value', {"C03", "C15"}),
    (r'write reported a wrong length|stored with a wrong length|do not add up|wrong value length|imported with',
     {"C01", "C13"}),
    (r'wrong number of writes reported', {"C02"}),
    # storage
    (r'live values overlap|over protected bytes', {"C09", "C01", "C04"}),
    (r'outside its file', {"C09", "C01", "C04"}),
    (r'value not contiguous|write without exclusive lock|write outside of a write|write to a file that is not', {"C09", "C01"}),
    (r'truncation destroys|removal of a file with protected|hole punched into', {"C04", "C03", "C09", "C01"}),
    (r'truncation without exclusive|removal without exclusive|punched without exclusive', {"C04"}),
    (r'reclaimed though disabled', {"C05"}),
    (r'open snapshot left unlocked|handed out without lock', {"C03", "C04"}),
    (r'space not given back', {"C05"}),
    # effects
    (r'failed operation took effect', {"C13", "C02", "C11"}),
    (r'failed copy left bytes', {"C13", "C01"}),
    (r'wrong kind of error', {"C11", "C15", "C13"}),
    (r'limit not enforced', {"C06"}),
    (r'wrong listing|key listed twice', {"C12", "C02", "C07", "C01", "C15"}),
    (r'wrong total', {"C08"}),
    (r'recorded total differs', {"C08", "C06"}),
    (r'rename reported a wrong time', {"C11", "C07"}),
    (r'panic', {"C13", "C14", "C01", "C10", "C15"}),
    (r'hang|waits for nobody|had to wait', {"C14"}),
    (r'snapshot director', {"C17"}),
    (r'opening touched|opening an outdated', {"C16"}),
]
OPPROPS = {
    "put": {"C01", "C02", "C06", "C07"}, "clonefrom": {"C01", "C06", "C07"}, "commit": {"C02", "C01", "C06", "C07", "C11"},
    "del": {"C01", "C11", "C08"}, "ren": {"C11", "C07"}, "mvp": {"C11", "C12"}, "delp": {"C12"},
    "limits": {"C06", "C07"}, "get": {"C07", "C01", "C03"}, "rbegin": {"C07", "C03"}, "radd": {"C07"}, "cread": {"C15", "C07"},
    "ls": {"C12", "C07"}, "sum": {"C08"}, "open": {"C16"}, "sread": {"C01", "C03"}, "brename": {"C11"},
    "stage": {"C01", "C02"}, "vwrite": {"C01", "C13"}, "vbegin": {"C09"}, "vclone": {"C01"}, "bdrop": {"C02"},
    "rnew": {"C03"}, "rls": {"C12"}, "rdrop": {"C07"}, "cleanup": {"C17"}, "sdrop": {"C03"},
}
MUT = ("put", "clonefrom", "commit", "del", "ren", "mvp", "delp", "limits", "get", "rbegin", "cread")


def last_ops(rej, n=1):
    """the most recent finished or running operations that may change items"""
    out, t = [], rej.trace.events[:rej.at + 1]
    names, running = {}, []
    for e in t:
        if e["e"] == "call":
            names[e["a"]] = e["op"]["o"]
    for e in reversed(t):
        if e["e"] == "call" and e["op"]["o"] in MUT:
            out.append(e["op"]["o"])
            if len(out) >= n:
                break
    return out


def props(rej):
    """-> (set of properties this rejection speaks about, kind)"""
    s = set()
    text = " | ".join(rej.whys)
    for rx, p in R:
        if re.search(rx, text):
            s |= p
    e = rej.event
    if e["e"] in ("ret", "call") and rej.at:
        o = e.get("op", {}).get("o")
        if e["e"] == "ret":
            for x in reversed(rej.trace.events[:rej.at]):
                if x["e"] == "call" and x["a"] == e["a"]:
                    o = x["op"]["o"]
                    break
        if re.search(r'no effect explains|effect without|should have failed|operation failed', text) or not text:
            s |= OPPROPS.get(o, set())
        if re.search(r'operation failed', text):
            s |= {"C13", "C14"}
        if o in ("ls", "rls"):
            s |= {"C12"}
        if o in ("radd", "get", "rls", "ls") and 'time' in text:
            s |= {"C07"}
    if "manifest differs" in text or e["e"] == "audit":
        if "manifest differs" in text:
            for o in last_ops(rej, 1):
                s |= OPPROPS.get(o, set())
            m, u = text.split('"unexpected"')[0], text.split('"unexpected"')[1]
            strip = lambda x: sorted(re.findall(r"k \|-> (<<[^>]*>>)", x))
            if strip(m) == strip(u):
                s |= {"C07"}            # same keys, other contents
                if re.sub(r"lu \|-> -?\d+", "", m.split('missing"')[1]) == re.sub(r"lu \|-> -?\d+", "", u):
                    s = {"C07", "C11"}  # only the times differ
                else:
                    s |= {"C01", "C09", "C11"}
            elif not strip(u):
                s |= {"C01", "C06", "C07", "C13"}
            else:
                s |= {"C02", "C06", "C07"}
            if "C11" not in s and "brename" in [x["op"]["o"] for x in rej.trace.events[:rej.at] if x["e"] == "call"]:
                s |= {"C11"}
    tags = rej.trace.meta.get("tags", ())
    if "crash" in tags:
        s |= {"C10"}
    if "fault" in tags:
        s |= {"C13"}
    if "sched" in tags:
        s |= {"C14"}
        if any(o == "commit" for o in last_ops(rej, 3)):
            s |= {"C02"}
    if "c" in tags:
        s |= {"C15"}
    if "open" in tags:
        s |= {"C16"}
    if "dirs" in tags:
        s |= {"C17"}
    if "cli" in tags:
        s |= {"C18"}
    if e["e"] == "bad":
        s |= set(rej.trace.meta.get("props", ())) | {"C13", "C14"}
    return s
