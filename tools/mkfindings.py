#!/usr/bin/env python3
"""Writes known_findings.json: defects found in the code, repaired ("fixed") or recorded ("known")."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def fixed(prop, commit, what):
    F.append({"id": "F%02d" % (len(F) + 1), "status": "fixed", "property": prop, "commit": commit, "what": what,
              "line": "fixed: property=%s %s %s" % (prop, commit, what)})
def known(prop, trace, why, what):
    F.append({"id": "K%02d" % (len(F) + 1), "status": "known", "property": prop, "trace": trace, "why": why, "what": what,
              "line": "KNOWN-FINDING: property=%s %s" % (prop, what)})
fixed("C12", "f1d4a0c", "listing, deleting or moving a prefix that ends in 0xff missed items (or panicked): the end of the "
      "range was computed by incrementing the last byte only")
fixed("C11", "79b20f3", "renaming a value read earlier onto its own key, or one no longer stored, deleted the item at the new key")
fixed("C15", "82c9049", "possum_reader_new began a deferred transaction: its last-use updates failed with SQLITE_BUSY_SNAPSHOT "
      "when someone else committed in between")
fixed("C06", "f5920ef", "set_instance_limits never evicted: the total stayed above the limit after the call returned")
fixed("C14", "6e9be24", "delete_prefix and move_prefix failed with SQLITE_BUSY_SNAPSHOT when another commit came between their "
      "reading and writing")
fixed("C13", "7ee7ff4", "Error::root_cause panicked for i/o errors, so the C interface aborted on them")
fixed("C18", "7c326d5", "punch-missing-holes went on punching although the file lock was not obtained")
fixed("C14", "7d3b1a6", "a read panicked when its value's bytes were still locked by the committing writer or by the puncher")
fixed("C13", "ce1fd92", "a failed copy_from left its bytes in the values file: the value's length and the next value's place "
      "were then wrong")
fixed("C04", "48a556e", "the puncher judged by a stale read transaction after getting the whole-file lock: it could truncate "
      "or remove a file to which another writer had just committed new values")
fixed("C05", "3000f78", "one failing system call while punching ended the handle's puncher thread: nothing was reclaimed any more")
fixed("C13", "6ed4179", "possum_single_stat aborted the process when the read failed")
fixed("C10", "02e74be", "a crash or i/o error at the end of the first open left the manifest in rollback journal mode for good: later calls then failed with SQLITE_BUSY because of readers")
fixed("C17", "36960be", "snapshot clean-up removed the directory or the files of a snapshot that was just being made (between making, cloning, opening and locking): the read failed or panicked")
fixed("C17", "3cc8ae9", "snapshot clean-up (and opening an outdated directory) failed with NotFound when a snapshot was dropped while the directory was walked")
fixed("C13", "884971b", "opening an outdated directory panicked if removing the journal failed (locking mode could not be set back)")
fixed("C16", "f712596", "an item whose name isn't UTF-8 made walking the directory fail (so opening an outdated one did), and writes panic")
fixed("C01", "f16cd2f", "a batch's staged values lost their file's lock when a later value writer of the batch was dropped: the file could be "
      "removed before the commit, which then stored items without bytes")
fixed("C18", "f5c1cdb", "punch-missing-holes looked up a file's values in a transaction begun before that file was locked: a value "
      "that was staged earlier and committed in between was punched")
fixed("C14", "d1c8510", "operations failed with SQLITE_BUSY (\"database is locked\") when others kept the manifest's write lock for 5 s, "
      "a long-lived reader or just an unlucky waiter under sustained contention")
fixed("C04", "419e437", "a value begun by one batch and staged with another was committed in the file of the first batch's staged values: "
      "their lock went with that commit, and reclaimers, which take it that values of a file are committed in order, punched them")
fixed("C15", "0cdc804", "the C functions made Rust slices of null pointers for empty keys, prefixes, values and buffers, which C and Go "
      "callers pass for them: undefined behaviour, and an abort in builds with debug assertions")
if __name__ == "__main__":
    json.dump(F, open(os.path.join(R, "known_findings.json"), "w"), indent=1)
