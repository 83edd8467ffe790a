#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts is here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Committed values read back exactly, by every read path",
  "After a write of a key commits, every way of reading it (whole-value read, positional read at any offset with any buffer length, memory-mapped view, streaming reader, reads in one transaction with other keys, single read) returns exactly the bytes written and nothing beyond the value's end. The reported length equals the number of bytes written, including zero. This holds whatever other values share its file and wherever in the file it starts.",
  ["inputs", "configurations"], "all value lengths (0 included), contents, read offsets and buffer lengths, layouts of several values in one file, and all three read modes (file cloning, segment locking, flock)",
  "set_get, set_get_reader and big_set_get read a handful of fixed values from the start with buffers that fit; no test reads at an offset at or beyond the end, across the end, or a value starting at an arbitrary file position, and no test can use file cloning on this filesystem.",
  ["src/lib.rs", "src/reader.rs", "src/handle.rs", "src/exclusive_file.rs", "src/tx.rs"],
  [("ValueWriter::value_length / BatchWriter::stage_write record offset and length", "src/lib.rs"), ("SnapshotValue::read_at, view, read, new_reader bound reads to the value", "src/lib.rs"), ("Reader::get_file_clone picks a clone or the locked source", "src/reader.rs")],
  [("keys row", "file_id, file_offset, value_length of a committed value", "manifest.sql")],
  ["Handle::read_single", "Reader::begin", "SnapshotValue::{read_at,read,view,new_reader}"])

p("C02", "A batch commits all of its writes or none, and nothing before",
  "Nothing staged in a batch is visible to any reader before commit returns; after a successful commit every staged key has its new value (the last one staged for a key wins) and every key not staged is unchanged. A batch that is dropped, or whose commit reports an error, leaves the visible contents exactly as before. The commit result counts the writes applied.",
  ["inputs", "histories", "fault_sequences"], "all batches of up to the bound of writes over all keys (repeated keys included), lengths, and positions of an injected failure during commit",
  "test_replace_keys and simple_tests commit small fixed batches that succeed; none drops a batch, observes the store while a batch is open, repeats a key in a batch, or fails in the middle of a commit.",
  ["src/lib.rs", "src/tx.rs", "src/ownedtx.rs", "src/handle.rs"],
  [("BatchWriter::commit_inner applies pending writes in one immediate transaction", "src/lib.rs"), ("Transaction::{delete_key,insert_key,commit}", "src/tx.rs")],
  [("pending_writes", "writes staged and not yet committed", "src/lib.rs")],
  ["Handle::read_single", "Handle::list_items", "WriteCommitResult::count"])

p("C03", "The store behaves as a map under any history of operations",
  "After any sequence of writes, replacements, deletes, prefix deletes and reads, the set of keys and the value of each key equal those of a plain map subjected to the same operations. Deleting reports the size of what was deleted, and nothing when the key is absent; an absent key reads as absent. Operations on one key or prefix never affect a key outside it.",
  ["histories", "inputs"], "all sequences of operations up to the bound over a small set of keys, with all value lengths in range",
  "tests run a few fixed sequences with distinct keys; none deletes and rewrites, deletes an absent key, or deletes a prefix.",
  ["src/tx.rs", "src/handle.rs", "src/lib.rs"],
  [("delete_key / insert_key / list_items on the keys table", "src/tx.rs"), ("Handle::{single_delete,delete_prefix,single_write_from}", "src/handle.rs")],
  [("keys table", "the map", "manifest.sql")], ["Handle::read_single", "Handle::list_items", "Handle::single_delete"])

p("C04", "Reclaiming space never damages a live value",
  "Whatever values share a file, at whatever offsets and lengths, deleting or replacing some of them and letting the background reclamation finish leaves every other committed value readable with exactly its bytes. Reclamation never removes, truncates or zeroes any byte of a value that is still committed.",
  ["inputs", "histories"], "all layouts of up to the bound of values in a file (any lengths, aligned or not), all subsets deleted, in any order and any grouping into reclamation batches",
  "punch_value_before_snapshot_cloned and test_replace_keys use one or two values with a fixed, mostly block-aligned size; the block-boundary arithmetic with neighbours on both sides of a partial block is not sampled.",
  ["src/lib.rs", "src/handle.rs", "src/tx.rs", "src/sys/punchfile/linux.rs"],
  [("punch_value computes the punch region from neighbouring values", "src/lib.rs"), ("query_last_end_offset / next_value_offset", "src/tx.rs"), ("ceil_multiple / floored_multiple", "src/lib.rs"), ("value_puncher", "src/handle.rs")],
  [("deleted_values", "values scheduled for reclamation", "src/tx.rs")], ["read after Handle::get_value_puncher_done().wait()"])

p("C05", "Space of deleted values is given back",
  "Once a value has been deleted or replaced and the background reclamation has finished with nothing locking the region, every whole block that held only deleted data between its neighbouring live values is deallocated. A file in which no live value remains and nobody is writing is removed, and one with no live value at its end is cut back to the block after the last live value. With reclamation disabled in the limits, nothing is deallocated.",
  ["inputs", "histories"], "all layouts of up to the bound of values in a file (any lengths), all subsets and orders of deletion",
  "the tests check one aligned hole; a punch region that is a block too small, or a fragment left between two deleted values, is not noticed by any of them.",
  ["src/lib.rs", "src/handle.rs", "src/tx.rs"],
  [("greedy start and end in punch_value", "src/lib.rs"), ("PostCommitWork::complete schedules deleted values", "src/tx.rs"), ("value_puncher retries failed punches", "src/handle.rs")],
  [("deleted_values", "values scheduled for reclamation", "src/tx.rs")], ["block allocation of the values files", "Handle::walk_dir"])

p("C06", "A snapshot never changes",
  "A value obtained from a snapshot returns the same bytes for as long as it is held, whatever is then replaced, deleted, evicted, renamed, reclaimed or written, by the same handle or another, in every read mode. All values of one snapshot reflect the same committed state. Taking or dropping a snapshot changes no value.",
  ["histories", "inputs", "configurations"], "all value layouts, all sequences up to the bound of later operations and reclamation, reads at every point, in file-cloning, segment-locking and flock modes",
  "punch_value_before_snapshot_cloned covers one order of events for one value in the segment-locking mode (this filesystem has no cloning); sharing a cached clone, several extents per file, or a neighbour's reclamation over the snapshot's range are not sampled.",
  ["src/reader.rs", "src/lib.rs", "src/handle.rs"],
  [("Reader::lock_read_extents locks what is read", "src/reader.rs"), ("clone_file and the clone cache", "src/reader.rs"), ("punch_value locks what it punches", "src/lib.rs")],
  [("clones", "cache of cloned files per handle", "src/handle.rs"), ("reads", "extents a reader will use", "src/reader.rs")], ["SnapshotValue::{read_at,view,read}"])

p("C07", "The configured size limit holds after every commit",
  "With a maximum total value length set on a handle, the total length of all committed values is at most the maximum after every committed write through that handle. The store's own accounting of the total always equals the true sum of the lengths of the listed items. Without a limit nothing is ever evicted.",
  ["inputs", "histories"], "all limits, all value lengths and all histories up to the bound of writes, replacements, deletes and renames",
  "the torrent_storage tests set one generous limit; no test compares the accounted sum with the items after replacements or deletes, or commits a value larger than the limit.",
  ["src/tx.rs", "src/handle.rs", "manifest.sql", "src/c_api/mod.rs"],
  [("Transaction::apply_limits before commit", "src/tx.rs"), ("sum triggers on the keys table", "manifest.sql")],
  [("sums.value_length", "accounted total", "manifest.sql"), ("instance_limits", "limits of the handle", "src/handle.rs")], ["ReadTransaction::sum_value_length", "Handle::list_items"])

p("C08", "Eviction removes the least recently used values, and only enough",
  "When a commit must evict, it removes values in order of their last use, oldest first, and stops as soon as the limit is met, so that no value is evicted while one used strictly earlier is kept, and keeping the most recently used of the evicted values would exceed the limit. Writing and reading a value both count as using it, at the time of the operation. Values never go away for any other reason.",
  ["inputs", "histories", "schedules"], "all value lengths, limits, and times of the operations (any non-decreasing clock), with reads interleaved with writes",
  "reads_update_last_used checks one read's timestamp; no test ever causes an eviction and looks at which values remain.",
  ["src/tx.rs", "manifest.sql"],
  [("evict_values: order by last_used", "src/tx.rs"), ("touch_for_read updates last_used", "src/tx.rs"), ("last_used default", "manifest.sql")],
  [("last_used", "time of last use", "manifest.sql")], ["Handle::list_items", "Value::last_used"])

p("C09", "Listing a prefix returns exactly the keys with that prefix",
  "Listing items by a prefix returns every committed key that starts with the prefix, once, with the length and last-use time of its value, and no other key. This holds for arbitrary byte strings as keys and prefixes, including empty ones and bytes 0x00 and 0xff. Prefix deletion and prefix moves act on exactly the same set.",
  ["inputs"], "all prefixes and keys of up to the bound of arbitrary bytes",
  "test_inc_array checks four fixed arrays of the helper and no test lists with a prefix ending in 0xff or containing mixed bytes.",
  ["src/tx.rs", "src/lib.rs", "src/handle.rs"],
  [("list_items builds a key range from the prefix", "src/tx.rs"), ("inc_big_endian_array", "src/lib.rs")],
  [], ["Handle::list_items", "Reader::list_items", "Handle::delete_prefix", "Handle::move_prefix"])

p("C10", "Renames move exactly one value and keep its bytes",
  "Renaming an item makes its bytes and last-use time available under the new key only, and fails with the no-such-key error, changing nothing, when the source is absent. Renaming a value in a batch puts it under the new key, replacing what was there, and removes it from its old key; renaming onto its own key, or a value no longer stored or empty (it has no location to be found by), changes nothing. Moving a prefix renames every key with the prefix and no other; a rename that reports an error changes nothing.",
  ["inputs", "histories"], "all source, target and bystander keys (equal ones included), value lengths, and whether source and target exist",
  "rename_key renames one present key to one absent key; collisions, self-renames, renames of values in batches with other writes, and prefix moves are untested.",
  ["src/tx.rs", "src/handle.rs", "src/lib.rs"],
  [("Transaction::rename_value", "src/tx.rs"), ("Transaction::rename_item", "src/tx.rs"), ("Handle::{rename_item,move_prefix}", "src/handle.rs")],
  [("value_renames", "renames staged in a batch", "src/lib.rs")], ["Handle::read_single", "Handle::list_items"])

p("C11", "Concurrent batches never share or overwrite each other's bytes",
  "Any number of batches open at once, on one handle or several (in the same or different processes), each commit exactly the bytes written to them, in whatever order they begin values, write pieces, stage, commit or are dropped. No two committed values ever occupy overlapping regions of a file. A batch that is dropped does not disturb values written before or after it.",
  ["schedules", "histories", "inputs"], "all interleavings of the steps of up to the bound of batches on up to two handles, with all piece lengths",
  "read_and_writes_different_handles runs one timing of one writer and one reader; no test interleaves two open batches or reuses a file after a dropped batch.",
  ["src/lib.rs", "src/handle.rs", "src/exclusive_file.rs", "src/sys/flock/ofd.rs"],
  [("ExclusiveFile::from_file takes an exclusive lock past the end", "src/exclusive_file.rs"), ("Handle.exclusive_files pool", "src/handle.rs"), ("BatchWriter::return_exclusive_files_to_handle", "src/lib.rs")],
  [("exclusive_files", "files owned for appending", "src/handle.rs")], ["Handle::read_single", "keys (file_id, file_offset, value_length)"])

p("C12", "Data being written is safe from reclamation",
  "Bytes written to a value of an open batch survive until commit whatever deletions, replacements and reclamation happen meanwhile in the same file, by the same or another handle: when the batch commits, its values read back exactly. Reclamation leaves a region in use by a writer or a reader and finishes it after the use ends.",
  ["schedules", "inputs"], "all lengths of the values before the one being written, and all points between begin, write, stage and commit at which a neighbour is deleted and reclaimed",
  "the tests never delete a value while another is being written to the same file and reclamation runs.",
  ["src/lib.rs", "src/exclusive_file.rs", "src/handle.rs"],
  [("punch_value stops at locked regions", "src/lib.rs"), ("ExclusiveFile keeps its exclusive lock, committed() trims it", "src/exclusive_file.rs"), ("value_puncher keeps failed punches pending", "src/handle.rs")],
  [("last_committed_offset", "left end of the writer's lock", "src/exclusive_file.rs")], ["Handle::read_single after commit"])

p("C13", "Snapshot cleanup removes exactly the abandoned snapshots",
  "Cleaning up snapshots removes the snapshot files and directories that no live snapshot uses, such as those left by a process that died, and never one that a live snapshot, or the cache of clones of an open handle, still needs in any process. It never touches values files, the manifest or unknown files. Values read through live snapshots are unaffected.",
  ["histories", "configurations"], "all combinations of live and abandoned snapshots of up to the bound, held by this or another handle or process, each file cloned or not",
  "cleanup_snapshots runs where file cloning is unsupported, so on this filesystem it never sees a snapshot directory.",
  ["src/lib.rs", "src/walk.rs", "src/reader.rs"],
  [("delete_unused_snapshots locks a snapshot value before removing it", "src/lib.rs"), ("clone_file takes a shared lock on the clone", "src/reader.rs"), ("walk_dir classification", "src/walk.rs")],
  [], ["Handle::cleanup_snapshots", "Handle::walk_dir"])

p("C14", "Readers and writers on different handles never fail each other",
  "A read through one handle while another handle of the same directory commits, deletes, reclaims, cleans up or is dropped returns some committed value of the key, complete and unmixed, or absence if it was absent at some point during the read. Neither side panics, reports a spurious error or blocks forever because of the other's timing.",
  ["schedules"], "all interleavings, at the granularity of system calls, of one read with one commit, delete, reclamation or drop on another handle, up to the preemption bound",
  "read_and_writes_different_handles samples one timing per run; it is documented to fail in 1-4% of runs in the default locking mode.",
  ["src/reader.rs", "src/lib.rs", "src/handle.rs", "src/exclusive_file.rs"],
  [("Reader::lock_read_extents", "src/reader.rs"), ("BatchWriter::commit_inner commits, then trims its lock", "src/lib.rs"), ("punch_value", "src/lib.rs")],
  [], ["Handle::read_single on a second handle"])

p("C15", "A store reopens with its contents, and only old formats are reset",
  "Dropping a handle and opening the directory again (any number of times, or while other handles are open) shows exactly the committed contents, byte for byte. A directory whose manifest has an older format version is reset to an empty working store whose old values files are gone; one with the current version is never reset. Opening succeeds on an empty or absent directory.",
  ["histories", "configurations", "inputs"], "all manifest versions and all contents up to the bound, with and without another open handle",
  "tests open fresh directories; none reopens one with contents or with an older manifest version.",
  ["src/handle.rs", "src/dir.rs", "src/walk.rs"],
  [("init_sqlite_conn compares user_version", "src/handle.rs"), ("delete_all_values_files", "src/handle.rs")],
  [("user_version", "format version of the manifest", "src/handle.rs")], ["Handle::new", "Handle::list_items"])

p("C16", "A crash of the process loses nothing that was committed",
  "If the process dies at any instant during any operation, opening the store again succeeds and shows for every key exactly the state before or the state after the interrupted operation: all of a batch or none of it, with every value complete. Values whose write, delete or rename had completed are exactly as then. The reopened store accepts new writes and they read back.",
  ["crash_points"], "death of the process immediately before or after any system call that changes the file system, in the course of open, write, replace, delete, rename, evict, reclaim and reopen",
  "no test kills a process.",
  ["src/lib.rs", "src/tx.rs", "src/handle.rs", "src/exclusive_file.rs"],
  [("values are written before the manifest transaction that refers to them", "src/lib.rs"), ("reclamation is scheduled after the commit of the deletion", "src/tx.rs"), ("locks vanish with the process", "src/exclusive_file.rs")],
  [], ["Handle::new after the crash", "Handle::read_single", "Handle::list_items"])

p("C17", "An I/O error is reported and damages nothing",
  "If any single system call fails while a value is being written, committed, deleted, renamed or read, the operation either succeeds anyway or returns an error; in both cases every value committed before is intact and the key concerned is in its state before or after the operation. A failed or short copy into a value writer never becomes part of a value committed later. The store stays usable afterwards. (File locks are taken to work.)",
  ["fault_sequences"], "failure of any one system call on the values files or the manifest (no space, I/O error, short write), and a source reader failing after any number of bytes",
  "no test injects a failure.",
  ["src/lib.rs", "src/exclusive_file.rs", "src/tx.rs", "src/handle.rs", "src/error.rs"],
  [("ValueWriter::copy_from rewinds on error", "src/lib.rs"), ("ExclusiveFile::revert_to_offset", "src/exclusive_file.rs"), ("transaction rolls back on drop", "src/ownedtx.rs")],
  [], ["results of the operations", "Handle::read_single afterwards"])

p("C18", "Enumerating the holes of a file partitions it",
  "Enumerating the regions of a file yields consecutive non-empty regions that start at 0, end at the file's size, abut exactly, and say hole or data as the file system does, for any pattern of holes and data including leading and trailing holes and an empty file.",
  ["inputs"], "all file sizes and hole patterns up to the bound of blocks",
  "just_a_hole checks two fixed files.",
  ["src/sys/seekhole/mod.rs", "src/sys/seekhole/unix.rs"],
  [("seekhole::Iter::next", "src/sys/seekhole/mod.rs"), ("seek_hole_whence", "src/sys/seekhole/unix.rs")],
  [("offset, last_whence", "iterator state", "src/sys/seekhole/mod.rs")], ["seekhole::file_regions"])

p("C19", "The C interface says what the store says",
  "Each C function has the effect of the corresponding operation and reports it faithfully: sizes, last-use times, the number of bytes read into a caller's buffer, listed keys with their prefix stripped, and the error code for absence versus success. It never writes outside the caller's buffers. A maximum of all ones means no limit; any other is the limit.",
  ["inputs"], "all keys, prefixes, values, read offsets and buffer sizes up to the bound, over the whole C interface",
  "no Rust test calls the C interface; the Go tests (not run here) cover simple uses.",
  ["src/c_api/mod.rs", "src/c_api/ext_fns/mod.rs", "src/c_api/ext_fns/handle.rs", "src/c_api/types.rs"],
  [("items_list_to_c", "src/c_api/mod.rs"), ("possum_single_read_at / possum_value_read_at set buf.size", "src/c_api/ext_fns"), ("From<PossumLimits> for Limits", "src/c_api/mod.rs")],
  [], ["possum_* functions"])

p("C20", "File names identify value files, both ways",
  "Every value file id has one name, the name parses back to the same id, and distinct ids have distinct names. Walking the directory classifies the manifest and its side files, values files, snapshot directories with their values, and everything else correctly, whatever else lies in the directory.",
  ["inputs"], "all 2^32 ids and all file names up to the bound of bytes after each known prefix",
  "tests only meet random ids that happen to be drawn, and never walk a directory with foreign names.",
  ["src/file_id.rs", "src/walk.rs"],
  [("FileId::values_file_path, FromStr, TryFrom<&OsStr>", "src/file_id.rs"), ("walk_dir", "src/walk.rs")],
  [], ["FileId::values_file_path", "str::parse::<FileId>", "Entry::file_id", "walk::walk_dir"])

p("C21", "The hole-repair tool only ever targets unreferenced data",
  "The regions the command-line tool reports or punches as missing holes never overlap a committed value and never overlap an existing hole, and what it punches is never data of a live snapshot or an open batch; they are in order and disjoint, and together cover every byte before the last value that is neither in a value nor in a hole.",
  ["inputs"], "all sequences of values and holes up to the bound, with all offsets and lengths",
  "missing_holes_pure has no test.",
  ["src/main.rs"],
  [("missing_holes_pure merges holes and values", "src/main.rs")],
  [], ["possum database print-missing-holes / punch-missing-holes"])

p("C22", "The Go bindings say what the library says",
  "Each function of the Go package and its resource provider has the effect of the C function it wraps, on exactly the bytes of its Go arguments, and reports its results and errors by Go's conventions: io.EOF from positional reads exactly at the end of a value, fs.ErrNotExist for an absent key. A handle is dropped exactly once, after it was closed and the last call or writer using it has returned; calls on a closed handle fail with ErrHandleClosed.",
  ["inputs", "schedules"], "all keys, buffers and offsets, and all interleavings of calls with Close",
  "handle_test.go opens and closes one handle; nothing closes a handle while calls are running or reads at the end of a value.",
  ["go/handle.go", "go/rc.go", "go/writer.go", "go/go-possum.go", "go/cpossum/c-possum.go", "go/resource/resource.go"],
  [("Rc counts the users of a handle", "go/rc.go"), ("mapRustEofReadAt", "go/go-possum.go")],
  [], ["possum.Handle", "possumResource.Provider"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
