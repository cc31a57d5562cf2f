#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay readable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Committed values read back byte for byte",
  "After a write of a key is committed, every later read of that key, through any handle or process on the directory and through any read method (whole read, positioned read at any offset, streaming reader, memory view), returns exactly the bytes and the length that were supplied, until that key is next written, deleted, renamed away or evicted. This holds for any key bytes, any value length including zero and lengths that are not multiples of a filesystem block, and any way of supplying the value (several writes, stream copies, the raw file handle, importing a whole file), also when several values go into one batch or are written at the same time.",
  ["inputs", "histories", "configurations"],
  "all keys, value lengths and supply methods; all histories of writes, deletes, evictions and reclaims before the read; segment-lock, whole-file-lock and file-clone configurations",
  "The tests write one or a few values with fixed sizes into fresh directories and read them back at once; long histories in which values share files and blocks with dead neighbours, several handles, odd sizes and mixed read methods are not sampled.",
  ["src/lib.rs", "src/reader.rs", "src/tx.rs", "src/exclusive_file.rs"],
  [("append only value files and offset bookkeeping", "src/lib.rs ValueWriter / BatchWriter::stage_write"),
   ("row insertion", "src/tx.rs Transaction::insert_key"), ("snapshot value reads", "src/lib.rs SnapshotValue")],
  [("manifest rows", "key -> value location and length", "manifest.sql keys")],
  ["Handle::read_single, Handle::read, Snapshot::value, SnapshotValue::{view,read,read_at,new_reader}"])

p("C02", "A write batch becomes visible all at once or not at all",
  "Nothing staged in a write batch is visible to any reader before the batch's commit takes effect, and at that point all its writes and renames become visible together to every handle and process; of several writes staged for one key the last staged wins. A batch that is dropped, or whose commit returns an error, changes nothing that any reader can see, and never disturbs batches prepared after it.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of readers in other threads, handles and processes with the steps of a commit; every batch content, including duplicate keys and renames; dropped batches",
  "The tests stage one write and check one read before and after the commit from the same thread; no test observes the manifest from elsewhere while a multi-item commit is running, nor drops a batch.",
  ["src/lib.rs", "src/tx.rs", "src/ownedtx.rs"],
  [("single immediate transaction per commit", "src/lib.rs BatchWriter::commit_inner"), ("files returned to the pool on drop", "src/lib.rs BatchWriter::drop")],
  [("pending writes", "staged but uncommitted items", "src/lib.rs BatchWriter")],
  ["manifest contents seen by an independent connection after every transaction", "Handle::list_items, Handle::read_single"])

p("C03", "A snapshot keeps showing exactly what it captured",
  "All values obtained from one read snapshot come from a single committed state of the cache, and the bytes readable through the snapshot never change during its lifetime. This holds whatever is overwritten, deleted, evicted, renamed, appended or reclaimed meanwhile by any handle or process, and also after the handle the snapshot came from has been closed.",
  ["schedules", "histories", "configurations"],
  "every interleaving of taking a snapshot with writes, deletes, evictions and background reclaim from any handle; snapshots over several keys and files; all three locking/cloning configurations",
  "One test races one overwrite against one single-key snapshot for a second of random scheduling; multi-key snapshots, snapshots kept over long histories, neighbours in the same block or file, and other handles' reclaim are not exercised.",
  ["src/reader.rs", "src/lib.rs", "src/handle.rs", "src/tx.rs"],
  [("write transaction held while keys are added and extents locked or cloned", "src/handle.rs Handle::read, src/reader.rs Reader::begin"),
   ("shared segment lock on every extent of the snapshot", "src/reader.rs lock_read_extents"), ("clone cache invalidation", "src/tx.rs PostCommitWork::complete")],
  [("file clones", "per-handle cache of cloned or locked files", "src/handle.rs Handle.clones")],
  ["SnapshotValue reads at any later time"])

p("C04", "Space reclamation only ever touches dead bytes",
  "Hole punching, truncation and removal of value files never alter or destroy any byte of a live committed value, of a value being written or staged, or of a value still held by a snapshot. This holds for every layout of live and dead values within files and blocks, and for every interleaving of reclaim with writers, readers and other reclaimers in any handle or process.",
  ["schedules", "histories", "inputs"],
  "every arrangement of value boundaries relative to filesystem blocks, every order of deletions, and every interleaving of background reclaim steps with writer, reader and other reclaimer steps",
  "Tests use values of whole blocks with at most two or three values; unaligned neighbours, multi-step orders, stale reclaim decisions and files given up by their writer between two reclaim steps are out of reach of unit tests.",
  ["src/lib.rs", "src/handle.rs", "src/tx.rs", "src/sys/flock/ofd.rs", "src/sys/punchfile/linux.rs"],
  [("bounds from neighbouring live values", "src/lib.rs punch_value, src/tx.rs query_last_end_offset / next_value_offset"),
   ("exclusive segment lock before a punch, whole file lock before truncate or remove", "src/lib.rs punch_value"),
   ("tail lock of the appending writer", "src/exclusive_file.rs from_file / committed")],
  [("pending punches", "deleted value locations waiting for reclaim", "src/handle.rs value_puncher")],
  ["fallocate/ftruncate/unlink on value files, in order with lock and append calls", "later reads of live values and snapshots"])

p("C05", "The space of removed values is eventually given back",
  "Once a value has been deleted, overwritten, replaced by a rename or evicted, and no snapshot holds its bytes, the handle's background reclaim deallocates every whole filesystem block lying inside that value's bytes (or truncates or removes the file), also after the handle has been closed as long as its process lives. A snapshot only delays this until it is dropped, and with hole punching disabled in the handle's limits nothing is reclaimed.",
  ["histories", "schedules", "inputs"],
  "all value sizes and layouts, orders of deletions, snapshots held and dropped in between, and all ways a value can be removed",
  "Only one test measures allocated space, for two one-block values in a fresh file; removal by eviction, rename or deletion, blocks shared between dead values, retries after a snapshot and multi-handle use are not covered.",
  ["src/handle.rs", "src/lib.rs", "src/tx.rs"],
  [("deleted values are queued after commit", "src/tx.rs PostCommitWork::complete"), ("retry of refused punches", "src/handle.rs value_puncher / punch_values"), ("greedy block rounding", "src/lib.rs punch_value")],
  [("deleted_values", "locations to reclaim", "src/tx.rs Transaction.deleted_values")],
  ["data/hole map of the values files once reclaim is idle"])

p("C06", "The configured size limit holds after every commit",
  "When a maximum total value length is set on a handle, the total length of all live values is at most that maximum when the call that sets it returns and whenever a later commit of writes through that handle returns, whatever other handles did before. Without a limit nothing is ever evicted, and a commit never loses anything when the total already fits.",
  ["histories", "inputs"],
  "all sequences of writes (including values larger than the limit, zero-length values and multi-item batches), limit changes (including raising, lowering, removing and zero), and commits through other handles without a limit",
  "No test of the Rust crate sets a limit at all.",
  ["src/tx.rs", "src/handle.rs"],
  [("limits applied before every commit", "src/tx.rs Transaction::commit / apply_limits"), ("limit change applied at once", "src/handle.rs set_instance_limits")],
  [("sums", "running total of live value lengths", "manifest.sql sums")],
  ["Handle::list_items lengths after each commit"])

p("C07", "Eviction takes the least recently used values and stops when the total fits",
  "When a commit has to evict, it removes values strictly in order of last use, oldest first, and removes no further value once the remaining total fits the limit. Writing a key and obtaining it for reading count as a use of that key at that time and of no other key, and the time is what listings and reads report; renaming keeps the last-use time, and listing, failed lookups or abandoned reads change nothing.",
  ["histories", "inputs"],
  "all histories of reads, writes, renames, listings and abandoned reads over several keys with increasing or equal clock values, followed by any eviction",
  "One test checks that a timestamp grows on reads; nothing checks the victim order, the stopping point, or what does not count as a use.",
  ["src/tx.rs", "src/handle.rs", "src/reader.rs", "manifest.sql"],
  [("touch on read", "src/tx.rs touch_for_read"), ("victim selection", "src/tx.rs evict_values"), ("default last_used", "manifest.sql")],
  [("last_used", "per key time of last use in milliseconds", "manifest.sql keys")],
  ["Handle::list_items (keys and last_used) after each operation"])

p("C08", "The recorded total always equals the sum of the live value lengths",
  "In every committed state the total value length the cache maintains for its limit equals the sum of the lengths of all items it lists. This holds after any history of writes, overwrites, deletes, prefix deletes, renames onto existing keys, evictions, aborted and failed operations, crashes and reopening.",
  ["histories", "crash_points"],
  "all operation histories, including aborted transactions and crashes at any point",
  "No test reads the total; it is maintained incrementally, so errors only show up after particular histories.",
  ["manifest.sql", "src/tx.rs"],
  [("insert and delete triggers", "manifest.sql"), ("sum query", "src/tx.rs sum_value_length")],
  [("sums", "running total", "manifest.sql")],
  ["ReadTransaction::sum_value_length versus list_items"])

p("C09", "Value writers never share bytes",
  "Values being written at the same time, from any batches, handles or processes, always go to disjoint file regions, so neither can corrupt or see the other. At every moment no two live values overlap in storage, every live non-empty value lies wholly inside an existing values file at the place where its bytes were written, and zero-length values occupy no storage.",
  ["schedules", "histories", "inputs"],
  "all interleavings of value writers in the same batch, different batches, handles and processes, with dropped writers and reused files",
  "The tests run at most parallel whole-value writes with one handle and only check the values' hashes; overlapping lifetimes of several open value writers with reuse of files after drops and failures are not covered.",
  ["src/exclusive_file.rs", "src/lib.rs", "src/handle.rs", "src/sys/flock/ofd.rs"],
  [("exclusive tail lock per values file", "src/exclusive_file.rs from_file"), ("pool of exclusive files", "src/handle.rs get_exclusive_file"), ("append mode", "src/exclusive_file.rs new_open_options")],
  [("exclusive_files", "files this handle may append to", "src/handle.rs Handle.exclusive_files")],
  ["append positions and lock calls on values files", "locations reported by list_items"])

p("C10", "A crash leaves exactly the committed state",
  "If a process dies at any point, including in the middle of a write, commit, delete, rename, eviction, reclaim or open, then opening the directory again succeeds and shows every operation that had returned before, and for the interrupted operation either all of its effects or none, with every listed value readable in full. The directory stays fully usable afterwards, including for processes that had it open all along.",
  ["crash_points", "histories"],
  "process death (kill) before any system call that touches the directory, for every kind of operation, followed by reopening and further use",
  "No test kills a process; the crash points lie between system calls that no in-process test can stop at.",
  ["src/handle.rs", "src/lib.rs", "src/tx.rs", "src/exclusive_file.rs"],
  [("values are written before the row is committed, one transaction per operation", "src/lib.rs commit_inner"), ("kernel locks vanish with the process", "src/sys/flock"), ("restartable initialisation", "src/handle.rs init_sqlite_conn")],
  [], ["contents of the directory through a fresh handle after the kill"])

p("C11", "Renames move items without losing or duplicating anything",
  "Renaming an item moves its value and last-use time to the new key; a missing source reports no-such-key and an occupied destination reports an error, both changing nothing, and moving a whole prefix renames every item under it or, on a collision, nothing. Renaming a value obtained from a read within a batch re-keys that value, replacing whatever held the new key; renaming it onto its own key, or when the value is no longer stored, changes nothing.",
  ["inputs", "histories"],
  "all source and destination keys (equal, missing, occupied, nested prefixes, bytes 0x00 and 0xff), value lengths, and histories between reading a value and committing its rename",
  "One test renames one key to a free key and one missing key; batch renames, collisions, self-renames and prefix moves are untested in Rust.",
  ["src/tx.rs", "src/handle.rs", "src/lib.rs"],
  [("rename_item / rename_value", "src/tx.rs"), ("move_prefix", "src/handle.rs")],
  [("keys.key", "unique key column", "manifest.sql")], ["list_items and read_single after each rename"])

p("C12", "Prefix listing and deletion select exactly the matching keys",
  "Listing a prefix returns each live key that starts with those bytes exactly once, with its current length and last-use time, and no other key; deleting a prefix removes exactly those keys. This holds for every prefix and every key set as arbitrary byte strings, including the empty prefix, prefixes ending in or consisting of 0xff bytes, embedded zero bytes, and listings made inside a read transaction.",
  ["inputs", "histories"],
  "all byte-string prefixes and key sets",
  "Tests list a few ASCII prefixes; the interesting cases are boundary bytes and keys adjacent to the end of the prefix range.",
  ["src/tx.rs", "src/lib.rs", "src/handle.rs", "src/reader.rs"],
  [("range end computation", "src/lib.rs inc_big_endian_array, src/tx.rs list_items"), ("delete_prefix", "src/handle.rs")],
  [], ["Handle::list_items, Reader::list_items, Handle::delete_prefix"])

p("C13", "A failed operation reports an error and changes nothing",
  "When an I/O error occurs (no space, device error, too many open files) or a source stream fails during writing, staging, committing, reading, deleting or renaming, the operation returns an error instead of panicking, the committed state and open snapshots stay intact, and the handle remains usable for all later operations. A failed copy into a value contributes no bytes to it, so retrying or abandoning the value, or writing the next one, yields exactly the bytes of the successful writes.",
  ["fault_sequences", "inputs"],
  "a failure of any single data-path system call (write, open, truncate, lock, clone, punch, manifest I/O) or of the source stream after any number of bytes, in any operation, followed by further use",
  "No test injects a failure.",
  ["src/lib.rs", "src/tx.rs", "src/exclusive_file.rs", "src/reader.rs", "src/error.rs"],
  [("rewind of failed copies", "src/lib.rs ValueWriter::copy_from"), ("transaction rollback on early return", "src/lib.rs commit_inner"), ("error classification", "src/error.rs")],
  [], ["results of the failing call and of all later calls; contents afterwards"])

p("C14", "Concurrent use never makes an operation fail, panic or hang",
  "Reads, batch commits, deletes, renames, prefix operations, limit changes and snapshot drops issued concurrently from several threads, handles and processes on one directory all complete, in every interleaving among themselves and with background reclaim, with the results of some one-at-a-time order; none fails, panics or deadlocks because of the others. Preparing a write batch never waits for readers or for other batches, and an unfinished batch never makes a read, delete or other commit wait or fail.",
  ["schedules"],
  "all interleavings, at the granularity of file locks, file operations and manifest transactions, of two or three concurrent operations and background reclaim, within one handle and across handles",
  "Tests run a few operations concurrently under whatever schedule occurs; one existing test fails in 1-4% of runs in the default mode because of such an interleaving.",
  ["src/handle.rs", "src/reader.rs", "src/lib.rs", "src/tx.rs", "src/ownedtx.rs", "src/exclusive_file.rs"],
  [("immediate transactions", "src/handle.rs start_immediate_transaction"), ("release of the exclusive lock on committed bytes", "src/exclusive_file.rs committed"), ("lock order connection -> clones / exclusive files", "src/handle.rs, src/reader.rs")],
  [("segment locks", "exclusive tail locks and shared read locks", "src/sys/flock")],
  ["result of every operation in controlled schedules"])

p("C15", "The C interface gives the same results as the native one",
  "Every sequence of calls to the C functions has the same effect on the cache and returns the same bytes, lengths, times, keys and existence results as the corresponding native operations, for any key, value, offset and buffer size. A missing key is reported as no-such-key, reads never write past the given buffer and report the exact number of bytes read, listings hand out exactly the keys under the prefix with the prefix removed, and values read through a C reader are from one consistent snapshot.",
  ["programs", "inputs"],
  "all call sequences over handles, writers, value writers, readers and values, with arbitrary keys, lengths, offsets and buffer sizes, interleaved with other handles",
  "The Rust tests never call the C functions; the Go tests (not run here) cover a few calls.",
  ["src/c_api/mod.rs", "src/c_api/ext_fns/mod.rs", "src/c_api/ext_fns/handle.rs", "src/c_api/types.rs"],
  [("error mapping", "src/c_api/mod.rs"), ("reader life cycle", "src/c_api/ext_fns")],
  [], ["return codes and out parameters of possum_* functions"])

p("C16", "Opening a directory preserves it, or resets an outdated one cleanly",
  "Opening a directory of the current format, any number of times, from several threads or processes, keeps every item readable and unchanged. Opening one written by an older format version leaves an empty, fully usable cache with all old value files removed and unrelated files untouched, also if an earlier such attempt was cut short; a missing directory is created, and other items of the directory are never touched.",
  ["configurations", "crash_points", "histories"],
  "all prior directory states: missing, empty, current with any items, older format with any files, newer format, interrupted upgrade; concurrent openings of an initialised directory",
  "Tests only open fresh or current directories.",
  ["src/handle.rs", "src/dir.rs", "manifest.sql"],
  [("user_version check and reset", "src/handle.rs init_sqlite_conn"), ("removal of old value files", "src/handle.rs delete_all_values_files")],
  [("user_version", "format version in the manifest header", "src/handle.rs USER_VERSION")],
  ["directory listing, list_items and reads after opening"])

p("C17", "Snapshot directories live as long as they are used and no longer",
  "On a file system with file cloning, the private files behind a snapshot exist while any value of that snapshot, or the handle's cache, uses them and are removed once nothing does; cleaning up snapshots removes every abandoned snapshot directory (left by a killed process) and never one that a live snapshot in any process still uses. Clean-up never touches values files, the manifest or other items.",
  ["histories", "crash_points", "configurations"],
  "all histories of taking, sharing and dropping snapshots in several handles and processes, processes killed while holding snapshots, and clean-ups in between",
  "The only test returns at once here because the file system has no cloning, so nothing of this is executed.",
  ["src/lib.rs", "src/reader.rs", "src/walk.rs"],
  [("temporary directory owned by the clones", "src/reader.rs clone_file"), ("shared lock marks a clone as used", "src/reader.rs clone_file, src/lib.rs delete_unused_snapshots")],
  [], ["directory walk after each step; reads of snapshots after clean-up"])

p("C18", "Hole inspection and the punching tool are exact and harmless",
  "Walking a file's regions yields consecutive, non-empty, alternating data and hole regions that cover the file exactly and agree with the file system. The command line tool's missing-hole report lists exactly the unpunched dead ranges below each live value, and its punching command deallocates whole blocks of such ranges only, never altering live values or bytes held by snapshots or writers, and reading a key with the tool prints exactly its value.",
  ["inputs", "histories"],
  "all layouts of data, holes and live values in a values file, at every alignment; files in use by snapshots and writers",
  "One test checks one two-block file; the tool has no tests.",
  ["src/main.rs", "src/sys/seekhole/mod.rs", "src/sys/seekhole/unix.rs", "src/walk.rs"],
  [("region iterator", "src/sys/seekhole/mod.rs Iter"), ("missing_holes_pure", "src/main.rs"), ("whole file lock before punching", "src/main.rs PunchMissingHoles")],
  [], ["output and effect of the possum binary; seekhole::file_regions"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
import sys
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError:
    pass
print(len(P), "properties")
