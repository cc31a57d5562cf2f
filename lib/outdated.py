"""Directories as older versions, or something else, may have left them."""
import os, random, shutil, sqlite3, subprocess, sys


def values(r, rng, n=None):
    out = []
    for _ in range(rng.randint(0, 4) if n is None else n):
        f = "values-%08x" % rng.randrange(1 << 32)
        b = bytes(rng.randrange(256) for _ in range(16)) * rng.choice([0, 1, 100, 700, 3000])
        open(os.path.join(r.dir, f), "wb").write(b)
        r.ev({"e": "open", "a": "x", "f": f, "fd": 0, "c": "V", "cr": True, "n": len(b)})
        out.append(f)
    return out


OLD_SQL = [
    "create table keys (key_id integer primary key, key blob unique, file_id text, file_offset integer, value_length integer)",
    "create table \"values\" (value_id integer primary key, file_id text, file_offset integer, value_length integer, last_used integer)",
    "create table sums (key text primary key, value integer)",
    "create table manifest (x)",
    "create index last_used_index on keys (file_offset)",
    "create trigger value_length_sum_on_insert insert on keys begin update sums set value=value+1; end",
    "create view items as select * from keys",
]


def manifest(r, rng):
    """an old manifest: another schema, contents, an older user_version; perhaps with a log not yet checkpointed"""
    path = os.path.join(r.dir, "manifest.db")
    kind = rng.choice(["empty", "old", "old", "oldwal", "hotwal", "current", "cut", "none"])
    r.meta["outdated"] = kind
    if kind == "none":
        return
    if kind == "empty":
        open(path, "wb").close()
        return
    db = sqlite3.connect(path, isolation_level=None)
    db.execute("pragma page_size=%d" % rng.choice([1024, 4096, 4096, 8192]))
    if rng.random() < .2:
        db.execute("pragma auto_vacuum=%d" % rng.choice([1, 2]))
    if kind in ("oldwal", "hotwal"):
        db.execute("pragma journal_mode=wal")
    ver = rng.choice([0, 1, 2])
    if kind in ("current", "cut"):
        sql = open("/repo/manifest.sql").read()
        if kind == "cut":
            # an upgrade that was cut short within the schema
            parts = [x for x in sql.split(";\n\n") if x.strip()]
            sql = ";\n\n".join(parts[:rng.randint(1, len(parts) - 1)]) + ";"
            ver = 0
        db.executescript(sql)
        try:
            for i in range(rng.randint(0, 20)):
                db.execute("insert into keys (file_id, file_offset, value_length, last_used, key) values (?,?,?,?,?)",
                           (rng.randrange(5), i * 5000, 4000, i, os.urandom(4)))
        except sqlite3.Error:
            pass
    else:
        for s in rng.sample(OLD_SQL[:4], rng.randint(1, 4)) + OLD_SQL[4:]:
            try:
                db.execute(s)
            except sqlite3.Error:
                pass
        db.execute("create table if not exists filler (x)")
        for i in range(rng.choice([0, 10, 300])):
            db.execute("insert into filler values (?)", (b"x" * rng.randint(0, 2000),))
    if kind == "hotwal":
        db.execute("pragma wal_checkpoint(truncate)")
        db.execute("pragma user_version=%d" % ver)
        db.execute("create table later (x)")
        for s in ("", "-wal"):
            shutil.copy(path + s, path + s + ".keep")
        db.close()
        for s in ("", "-wal"):
            os.replace(path + s + ".keep", path + s)
        return
    db.execute("pragma user_version=%d" % ver)
    db.close()


def prepare(r, rng, other=True):
    os.makedirs(r.dir, exist_ok=True)
    manifest(r, rng)
    fs = values(r, rng)
    r.ev({"e": "old", "a": "x", "files": fs})
    for _ in range(rng.choice([0, 0, 1])):
        r.fabricate(rng)
    if other:
        r.mkother(rng)
        r.others(set=True)
