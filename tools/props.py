#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One P(...) call per property.
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
rows = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    rows.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": text},
                 "why_tests_cant": why, "anchors": a})
NOTEST = "The 47 runnable unit tests never touch this code; "

# ---------------------------------------------------------------- write-ahead log
P("C01", "Acknowledged log writes survive any crash",
  "With the write-ahead log set to sync every write, each write that was acknowledged before a crash is returned by recovery, byte for byte and in commit order, whatever the instant of the crash and whatever part of the unsynced data was lost or torn. "
  "Recovery never returns a record that was not written, a damaged record, or a record that follows a lost one. "
  "After recovery the log accepts new writes, and those are as durable as the earlier ones, across any number of crashes.",
  ["crash_points", "histories", "configurations"],
  "every crash point (each system call boundary), every loss/tear pattern of unsynced data, every bounded history of writes, rotations and restarts, with checksums on or off",
  NOTEST + "and no test crashes the process between or inside the system calls of a log write.",
  ["amelie/db/wal/wal.c", "amelie/db/wal/wal_file.h", "amelie/db/wal/wal_cursor.c", "amelie/db/wal/wal_mgr.c"],
  [("append record, sync before acknowledging", "wal.c:wal_write"), ("length/checksum framing and end-of-log detection", "wal_cursor.c:wal_cursor_next"), ("rotation: new file is created and synced", "wal.c:wal_create"), ("open at restart", "wal.c:wal_open")],
  [("current file offset", "where the next record is appended", "wal_file.h")],
  ["records returned by a cursor over the reopened directory"])
P("C02", "A log reader delivers every record exactly once, in order, intact",
  "A reader opened on the log at any position delivers exactly the records at or after that position, each once, in log order and byte-identical to what was written. "
  "This holds for every sequence of writes, file rotations and batch sizes, and whether the reader starts before or follows the log while it grows. "
  "At the end of the log the reader reports the end and resumes when more is written. With checksums enabled a damaged record is never delivered: it is reported as an error or ends the log.",
  ["histories", "inputs"],
  "all bounded sequences of write / rotate / read / reopen and all reader start positions",
  NOTEST + "a test would sample a few histories, not all interleavings of rotation, partial batches and reads.",
  ["amelie/db/wal/wal_cursor.c", "amelie/db/wal/wal.c", "amelie/db/wal/wal_file.h", "amelie/db/transaction/write.h", "amelie/db/transaction/write_list.h", "amelie/db/transaction/record.h"],
  [("seek to the file and record of a position", "wal_cursor.c:wal_cursor_open"), ("move to the next file at end of file", "wal_cursor.c:wal_cursor_next"), ("vectored record encoding", "transaction/write.h, wal.c:wal_write")],
  None, ["record sequence returned by the cursor"])
P("C03", "Log cleanup never removes a record someone still needs",
  "Whatever the sequence of writes, rotations, checkpoints and reader slots being added, advanced and dropped, log cleanup removes only files whose records all lie before the oldest position still needed by the checkpoint and by every slot. "
  "The file being written is never removed, and files wholly below that position are removed. "
  "The reported minimum, maximum, file count and slot minimum match the actual log.",
  ["histories"],
  "all bounded sequences of write / rotate / checkpoint / slot add, move, drop / cleanup",
  NOTEST + "the loss only shows after a later recovery or reader restart, for particular relative slot and file positions.",
  ["amelie/db/wal/wal.c", "amelie/db/wal/wal_slot.h", "amelie/runtime/lib/id_mgr.h"],
  [("oldest needed position over slots", "wal.c:wal_slots"), ("removal of old files", "wal.c:wal_gc")],
  None, ["files in the log directory, log status"])
P("C04", "Concurrent log use loses, reorders or strands nothing",
  "Under every interleaving of writers, log rotation, the background log worker, followers and cleanup, each record is written once, positions are unique and increase in file order, and a follower sees all records in order. "
  "With sync on write, an acknowledged write is on disk in the file it went to; with sync on close, a file is completely on disk before records go to the next one. "
  "Every requested background operation is eventually performed, and a follower or a shutdown request is never left waiting forever.",
  ["schedules"],
  "all thread interleavings of small multi-threaded drivers up to a preemption bound, at every synchronisation operation and shared access",
  NOTEST + "and the failing schedules are a few instructions wide.",
  ["amelie/db/wal/wal.c", "amelie/db/wal/wal_worker.c", "amelie/db/wal/wal_cursor.c", "amelie/db/wal/wal_mgr.c", "amelie/db/wal/wal_periodic.c"],
  [("log mutex", "wal.c"), ("worker flags under mutex and condition variable", "wal_worker.c"), ("follower wakeup", "wal_slot.h, wal.c:wal_attach")],
  [("current file", "file receiving appends", "wal.h"), ("worker request flags", "pending create/sync/shutdown", "wal_worker.h")])
# ---------------------------------------------------------------- persistence
P("C05", "Partition files are crash-atomic and always recoverable",
  "Writing a partition's contents to disk is atomic: whatever the instant of a crash, reopening the table finds for every partition one complete file holding exactly the rows of the last completed save, or the partition as it was before the save began. "
  "Unfinished files left behind by the crash are discarded, never loaded, and never prevent later saves. "
  "A save that has been reported complete is durable.",
  ["crash_points", "histories", "configurations"],
  "every system call boundary and loss pattern of unsynced data in partition creation and saving, followed by reopening and another save",
  NOTEST + "no test crashes between creating, writing, syncing and renaming a partition file.",
  ["amelie/db/heap/heap_file.c", "amelie/db/part/part_mgr.c", "amelie/db/part/part_mgr_recover.c", "amelie/db/storage/id.h", "amelie/db/storage/volume_mgr.h"],
  [("write to an incomplete name, sync, rename", "heap_file.c, part_mgr.c"), ("discard of incomplete files, id tracking", "part_mgr_recover.c")])
P("C06", "Saved partitions read back exactly; corruption is detected",
  "For every set of rows, saving a partition and loading it returns exactly those rows, with the space accounting needed to continue allocating and freeing correctly. "
  "With checksums enabled any single corrupted byte or truncation of the file is reported as an error on load; it is never silently served as different rows.",
  ["inputs", "fault_sequences", "configurations"],
  "all bounded insert/delete histories before the save, and every byte position and truncation length of the saved file",
  NOTEST + "the quantifier is every byte of every file.",
  ["amelie/db/heap/heap_file.c", "amelie/db/heap/heap.c", "amelie/db/storage/encoder.h", "amelie/runtime/lib/crc.c"],
  [("page and header checksums", "heap_file.c"), ("compression codec", "storage/encoder.h, lib/codec_compression.c")])
P("C07", "The catalog file is replaced atomically and reads back exactly",
  "Whatever the instant of a crash during a catalog save, the next start reads a complete catalog: the one of the last completed save or the one being saved, never a mix, a fragment or nothing. "
  "A catalog that was saved and is read back describes the same databases, storages, tables, columns, keys, indexes, partitions and functions. "
  "A save reported as complete is durable.",
  ["crash_points", "histories"],
  "every system call boundary and loss pattern of unsynced data during catalog saves, over bounded schema histories",
  NOTEST + "no test stops the process inside a catalog save.",
  ["amelie/db/catalog/catalog_file.c", "amelie/db/catalog/catalog_snapshot.c"],
  [("write to an incomplete name, sync, rename", "catalog_file.c:catalog_write"), ("choice of file at start", "catalog_file.c:catalog_read")])
P("C08", "Server state and settings survive a crash during their save",
  "Whatever the instant of a crash while the server saves its state or its configuration, the next start finds a complete file holding either the previously saved or the newly saved values. "
  "Values that were saved and reported complete are read back exactly.",
  ["crash_points", "histories"],
  "every system call boundary and loss pattern of unsynced data during saves",
  NOTEST + "no test stops the process inside a save.",
  ["amelie/runtime/runtime/state.c", "amelie/runtime/runtime/config.c", "amelie/runtime/runtime/opts.c"],
  [("state save", "state.c:state_save"), ("config save", "config.c:config_save")])
# ---------------------------------------------------------------- in-memory engine
P("C09", "The row store never overlaps, loses or changes rows",
  "For every sequence of allocations and releases of any supported size, each live row keeps the bytes written to it, no two live rows overlap, and iteration returns exactly the live rows, once each. "
  "Space that was released is reused, and the reported used counters equal the live rows. "
  "While a snapshot is being taken, rows of the snapshot stay readable and unchanged until it ends, no matter what is added or removed meanwhile.",
  ["histories", "inputs"],
  "all bounded sequences of add / remove / snapshot begin / end / iterate over size classes chosen at the class and page boundaries",
  "test_heap allocates and frees two rows and checks the order of a handful of LRU rows; it does not cover sequences that reuse, fill pages or overlap a snapshot.",
  ["amelie/db/heap/heap.c", "amelie/db/heap/heap.h", "amelie/db/heap/page_mgr.h", "amelie/db/heap/heap_iterator.h"],
  [("size-class buckets and free lists", "heap.c"), ("shadow heap during snapshot", "heap.c, heap.h")])
P("C10", "The hash index behaves as a map of keys to rows",
  "For every sequence of inserts, replacements, deletes, lookups and scans, the hash index agrees with a simple map from key to row: a lookup finds a key exactly when it is present, a key is held at most once, and a scan returns each present row exactly once. "
  "This holds for colliding keys, at every stage of growth, and when operations interleave with an ongoing incremental resize.",
  ["histories"],
  "all bounded operation sequences over few keys forced to collide, from every stage of resize",
  NOTEST + "failures need particular collision chains, deletions and resize positions.",
  ["amelie/db/index/hash.h", "amelie/db/index/hash_store.h", "amelie/db/index/hash_iterator.h", "amelie/db/index/index_hash.c", "amelie/db/index/index_hash_iterator.h"],
  [("open addressing with deleted markers", "hash_store.h"), ("incremental rehash", "hash.h")])
P("C11", "The tree index behaves as an ordered map of keys to rows",
  "For every sequence of inserts, replacements and deletes, the tree index agrees with a sorted map from key to row: lookups find a key exactly when it is present, and a scan opened at any key, present or not, returns every present row from that key on in key order, once each. "
  "Deleting or replacing at an iterator position affects only that row.",
  ["histories"],
  "all bounded operation sequences over small key sets and page sizes that force page splits and removals, and every scan start key",
  NOTEST + "failures need a particular page layout and search key.",
  ["amelie/db/index/tree.c", "amelie/db/index/tree.h", "amelie/db/index/tree_iterator.h", "amelie/db/index/index_tree.c", "amelie/db/index/index_tree_iterator.h"],
  [("page search, split and removal", "tree.c"), ("positioning", "tree_iterator.h")])
P("C12", "Merged scans over partitions return every row once, in order",
  "A merged scan over any number of partitions, each with any rows including none, returns each row of each partition exactly once; for ordered indexes the result is in key order. "
  "A merged scan opened at a key returns exactly the rows at or after that key.",
  ["inputs", "configurations"],
  "all assignments of a small key set to a small number of partitions and all start keys",
  NOTEST + "the failing cases depend on which partition is empty or exhausted first.",
  ["amelie/db/index/index_tree_merge.h", "amelie/db/index/index_hash_merge.h", "amelie/db/object/merge_iterator.h"],
  [("merge by smallest current key", "index_tree_merge.h"), ("sequential merge", "index_hash_merge.h")])
P("C13", "Row changes are all-or-nothing across the primary and all indexes",
  "For every sequence of insert, replace, update and delete operations in a transaction, after commit the primary and every secondary index contain exactly the resulting rows. "
  "After abort, or after an operation fails midway (for example on a duplicate in a secondary index), rows, every index and the row store are exactly as before the transaction. "
  "A duplicate key in any unique index is always rejected and an existing key is never reported missing.",
  ["histories", "fault_sequences"],
  "all bounded multi-statement transactions over few keys with one or more secondary indexes, ended by commit or abort",
  NOTEST + "the SQL suite that would exercise it cannot run at this commit.",
  ["amelie/db/part/part_op.c", "amelie/db/part/part.c", "amelie/db/transaction/log.h", "amelie/db/transaction/commit.c", "amelie/db/transaction/tr.h"],
  [("undo log with per-index operations", "part_op.c, transaction/log.h"), ("commit / abort replay", "transaction/commit.c")])
P("C14", "Schema changes roll back completely and keep the schema consistent",
  "Each schema operation runs in its own transaction: in every schema reachable by a sequence of them, abort restores the exact earlier schema and commit makes exactly the requested change visible. "
  "An operation that is rejected changes nothing. "
  "Names stay unique within their scope and a dropped or renamed object leaves no stale reference: objects are found under their current name only, and anything that depends on a dropped object is dropped with it or blocks the drop.",
  ["histories"],
  "all bounded sequences of create / drop / rename / alter on databases, tables, columns, indexes, functions and storages, each ended by commit or abort",
  NOTEST + "the SQL suite that would exercise DDL cannot run at this commit.",
  ["amelie/db/catalog/catalog.c", "amelie/db/catalog/database_mgr.c", "amelie/db/catalog/table_mgr.c", "amelie/db/catalog/table_mgr_alter.c", "amelie/db/catalog/table_index.c", "amelie/db/catalog/udf_mgr.c", "amelie/db/catalog/cascade.c", "amelie/db/transaction/relation_mgr.c", "amelie/db/storage/storage_mgr.c"],
  [("undo log with previous values", "*_mgr.c if_abort callbacks"), ("dependency checks", "cascade.c")])
P("C15", "Every key is routed to exactly one partition, always the same",
  "For any number of partitions, every key maps to exactly one partition; the mapping is the same for reads, writes and recovery, before and after a restart, and covers the whole hash range with no gap or overlap.",
  ["inputs", "configurations"],
  "every hash slot for every supported partition count, and bounded key sets across save and reload",
  NOTEST + "the quantifier is all hash slots and partition counts.",
  ["amelie/db/part/part_mapping.h", "amelie/db/part/part_mgr.c", "amelie/db/part/part_mgr_recover.c", "amelie/db/row/keys.h", "amelie/runtime/lib/hash.h"],
  [("hash slot table", "part_mapping.h"), ("slot ranges assigned at creation", "part_mgr.c")])
P("C16", "Storage objects read back exactly and detect corruption",
  "Rows written to a storage object, in any number and size, over any number of regions and branches, with or without compression, are read back exactly, in key order, with newer branches overriding older ones. "
  "Reopening the object after a restart gives the same rows, and a corrupted or truncated region or index block is reported as an error, never served.",
  ["inputs", "configurations", "fault_sequences"],
  "all bounded row sets, region sizes, branch counts and every byte corruption of small objects",
  NOTEST + "the quantifier is every row distribution and every byte.",
  ["amelie/db/object/writer.c", "amelie/db/object/object.c", "amelie/db/object/region_writer.h", "amelie/db/object/region_iterator.h", "amelie/db/object/meta_writer.h", "amelie/db/object/meta_iterator.h", "amelie/db/object/branch_iterator.h", "amelie/db/object/reader.h"],
  [("region/branch encoding", "region_writer.h, meta_writer.h"), ("search and iteration", "branch_iterator.h, region_iterator.h"), ("checksums", "reader.h, meta_writer.h")])
# ---------------------------------------------------------------- runtime
P("C17", "Relation locks exclude conflicting holders and always get granted",
  "At no time do two holders have incompatible locks on the same relation. "
  "Requests are served in order of arrival: each is granted as soon as no incompatible holder and no earlier waiting request remains, under every interleaving of lock, unlock, waiting and cancellation across threads. "
  "A cancelled waiter leaves no trace.",
  ["schedules", "histories"],
  "all thread interleavings of small drivers up to a preemption bound and all bounded lock/unlock/cancel sequences over all lock modes",
  "Unit tests take and release locks from one thread or in one schedule.",
  ["amelie/runtime/runtime/lock_mgr.h", "amelie/runtime/runtime/lock.h", "amelie/runtime/runtime/lock_id.h", "amelie/runtime/runtime/relation.h", "amelie/runtime/runtime/lockable_mgr.h"],
  [("per-relation lock counters and wait queue under spinlock", "lock_mgr.h"), ("waiter wakeup by event", "lock_mgr.h")])
P("C18", "Messages and wakeups between tasks are never lost, duplicated or reordered",
  "Each message sent to a task is received exactly once, in the order sent by each sender, and each signal sent to a waiting or about-to-wait coroutine wakes it, under every interleaving of senders, receivers and sleeping tasks. "
  "No task sleeps while something is pending for it.",
  ["schedules"],
  "all thread interleavings of small drivers up to a preemption bound at every atomic operation and system call",
  "The ipc/event/rpc unit tests run a single uncontrolled schedule.",
  ["amelie/runtime/base/bus.h", "amelie/runtime/base/ring.h", "amelie/runtime/base/mailbox.h", "amelie/runtime/base/event.h", "amelie/runtime/base/notify.c", "amelie/runtime/base/cond.h", "amelie/runtime/base/ipc.h", "amelie/runtime/base/rpc.h", "amelie/runtime/base/task.c", "amelie/runtime/base/poller.c"],
  [("lock-free ring with sleep flag", "ring.h, bus.h"), ("eventfd wakeup", "notify.c"), ("event attach and signal", "event.h, bus.h")])
P("C19", "Timers fire in order, never early, exactly once",
  "For every sequence of starting, stopping and restarting timers and of time advancing, each running timer fires once its time (in milliseconds, as seen by the event loop iteration that started it) is reached and not before, timers due together fire in order of their deadlines, and a stopped timer never fires. "
  "A wait with a timeout reports the signal when one arrived before the deadline and the timeout otherwise.",
  ["histories"],
  "all bounded sequences of timer start / stop / advance over few timers and durations, and all waits with signal and timeout in every order",
  "Unit tests use real sleeps and one timer each.",
  ["amelie/runtime/base/timer_mgr.c", "amelie/runtime/base/timer_mgr.h", "amelie/runtime/base/wait.h", "amelie/runtime/base/cond_var.h"],
  [("ordered timer list", "timer_mgr.c"), ("timeout handling", "wait.h")])
P("C20", "Background jobs run exactly once and their results are delivered",
  "Every job submitted to the background workers runs exactly once and its submitter is resumed after it finished, with the job's error if it failed, under every interleaving of submitters and workers. "
  "Stopping the workers completes and leaves no job stranded.",
  ["schedules"],
  "all thread interleavings of small drivers up to a preemption bound",
  NOTEST + "jobs run under a single uncontrolled schedule if at all.",
  ["amelie/runtime/lib/job_mgr.c", "amelie/runtime/lib/job_worker.c", "amelie/runtime/lib/job.h"],
  [("job queue under mutex and condition variable", "job_mgr.c")])
P("C21", "Concurrent resource pools never hand out the same thing twice",
  "Under every interleaving of concurrent users, buffers and codecs are never handed to two users at once and never lost, and identifiers, log positions and sequence values handed out are unique and only move forward, including when they are advanced by following a value seen elsewhere (a negative value is never followed).",
  ["schedules"],
  "all thread interleavings of small drivers up to a preemption bound",
  "Unit tests use pools from one thread.",
  ["amelie/runtime/base/buf_cache.h", "amelie/runtime/base/buf_mgr.h", "amelie/runtime/lib/codec_cache.h", "amelie/runtime/lib/id_mgr.h", "amelie/runtime/runtime/opt.h", "amelie/runtime/runtime/state.h", "amelie/db/row/sequence.h"],
  [("spinlock protected free lists", "buf_cache.h, codec_cache.h"), ("atomic counters", "opt.h, sequence.h")])
# ---------------------------------------------------------------- data formats
P("C22", "JSON values survive parsing and printing unchanged",
  "Every JSON text that is accepted is stored and printed so that reading the printed text gives an equal value (numbers by value), in compact and pretty form; malformed text is rejected with an error. "
  "Equality and ordering of stored values agree with their content, and lookups by key, path and position find exactly the addressed element. "
  "No input makes the parser read outside of it.",
  ["inputs"],
  "all texts up to a bounded length over an alphabet covering every token class, and all values up to a bounded size",
  NOTEST + "the quantifier is all texts.",
  ["amelie/runtime/json/json_parser.c", "amelie/runtime/json/json_export.c", "amelie/runtime/json/json.h", "amelie/runtime/json/encode.h", "amelie/runtime/json/decode.h", "amelie/runtime/json/escape.h", "amelie/runtime/json/json_compare.h", "amelie/runtime/json/json_op.h"],
  [("recursive parser", "json_parser.c"), ("binary encoding", "encode.h, decode.h"), ("escaping", "escape.h")])
P("C23", "Rows keep their values and keys compare in a total order",
  "For every set of columns and values, including nulls, a row built from values returns exactly those values column by column and its recorded size is exact. "
  "Key comparison is a total order that agrees with the natural order of each key type and with key equality and hashing, for single and composite keys.",
  ["inputs", "configurations"],
  "all bounded column layouts, value boundary sets, row sizes across the size-field and offset-width thresholds, and all pairs and triples of keys",
  NOTEST + "the quantifier is all pairs/triples of keys and all layouts.",
  ["amelie/db/row/row.h", "amelie/db/row/compare.h", "amelie/db/row/keys.h", "amelie/db/row/column.h", "amelie/db/row/columns.h", "amelie/db/row/key.h"],
  [("offset table sized by row size", "row.h"), ("typed comparison", "compare.h")])
P("C24", "Dates, times, intervals, UUIDs and base64 round-trip exactly",
  "Every valid date, timestamp, interval, UUID and binary value that is formatted and read back gives the same value, calendar arithmetic and truncation agree with the proleptic Gregorian calendar, and text that is not a valid value is rejected. "
  "No input is read past its end.",
  ["inputs"],
  "every day of the supported range, boundary sets of times, intervals and zones, all short texts over a covering alphabet, all short byte strings",
  NOTEST + "the quantifier is every value and every malformed text.",
  ["amelie/runtime/lib/date.c", "amelie/runtime/lib/timestamp.c", "amelie/runtime/lib/interval.c", "amelie/runtime/lib/uuid.c", "amelie/runtime/lib/base64.c", "amelie/runtime/lib/base64url.c", "amelie/runtime/lib/timezone.c"],
  [("julian day conversion", "date.c"), ("timestamp parser and formatter", "timestamp.c"), ("interval parser and formatter", "interval.c")])
# ---------------------------------------------------------------- server
P("C25", "HTTP messages are framed the same however the bytes arrive",
  "The result of reading a sequence of HTTP requests or responses - methods, targets, headers, bodies, and where the next message starts - does not depend on how the bytes are split into reads, and equals what the text says. "
  "Malformed or oversized messages are rejected with an error; a message cut short is never treated as complete.",
  ["inputs", "fault_sequences"],
  "all splits of a set of request streams into reads, all single-byte edits of them, and all truncations",
  NOTEST + "the quantifier is all splits into reads.",
  ["amelie/server/http/http.c", "amelie/server/http/http.h", "amelie/runtime/os/readahead.h", "amelie/server/http/endpoint.c"],
  [("header parser over a read-ahead buffer", "http.c, os/readahead.h"), ("content length framing", "http.c:http_read_content")])
P("C26", "Connection URIs parse to what they say and print back equal",
  "Every accepted connection address or request target yields exactly the protocol, user, password, host, port, database, relation and options it spells out, with percent-encoded characters decoded; printing an address and parsing it again gives the same fields, and so does copying or saving it. "
  "Malformed addresses (unknown protocol or option, empty host, bad port or percent value) are rejected, and no input is read past its end.",
  ["inputs"],
  "all combinations of address components from covering sets, and all single-character edits and truncations",
  NOTEST + "the quantifier is all component combinations.",
  ["amelie/server/http/uri.c", "amelie/server/http/endpoint.c", "amelie/server/http/endpoint.h"],
  [("uri parser", "uri.c"), ("uri export", "uri.c:uri_export")])
P("C27", "A token is accepted only if genuine, unexpired and for a known user",
  "A request is authenticated as a user exactly when its token is well formed, carries a valid signature under that user's current (non-empty) secret, and has not expired; a token whose header, payload or signature value is changed in any byte, an expired token, a token of a removed user and one signed with an old secret are rejected. "
  "Earlier successful or failed authentications never change the outcome of a later one.",
  ["inputs", "histories"],
  "every single-byte change of a token, all bounded histories of authentications, user changes and cache use, and all positions of the clock relative to the validity period",
  NOTEST + "the quantifier is every token byte and every history of cache states.",
  ["amelie/server/auth/auth.c", "amelie/server/auth/auth_cache.c", "amelie/server/auth/jwt.c", "amelie/server/auth/jwt_decode.c", "amelie/server/auth/jwt_encode.c", "amelie/server/user/user_mgr.c", "amelie/server/user/user_cache.h", "amelie/runtime/lib/hash_table.h"],
  [("signature check", "jwt.c"), ("cache of verified tokens", "auth_cache.c, auth.c"), ("user lookup", "user_cache.h")])
P("C28", "Splitting a script into statements does not depend on chunking",
  "A stream of SQL text is split into the same statements however it is cut into pieces, and the statements concatenated in order are the input. "
  "A separator inside a string, a comment or a begin/end block never ends a statement.",
  ["inputs"],
  "all scripts up to a bounded number of tokens over an alphabet covering strings, comments, blocks and separators, and all ways to cut them",
  NOTEST + "the quantifier is all cuts of all scripts.",
  ["amelie/runtime/lib/separator.h"],
  [("incremental scanner", "separator.h")])
P("C29", "File and network I/O is complete despite short transfers",
  "Reading or writing a file or a connection transfers exactly the requested bytes at the requested place or reports an error, whatever the sequence of short transfers and interruptions by the operating system. "
  "A failure leaves the recorded file size equal to what is known to be written.",
  ["fault_sequences"],
  "all bounded sequences of short, interrupted and failing system calls for each read and write primitive, including vectored writes split at every byte",
  NOTEST + "the kernel hardly ever returns short counts in tests.",
  ["amelie/runtime/os/vfs.c", "amelie/runtime/os/file.h", "amelie/runtime/os/iov.h", "amelie/runtime/os/tcp.c", "amelie/runtime/os/socket.c"],
  [("retry loops", "vfs.c"), ("position tracking", "file.h")])
P("C30", "A multi-partition transaction commits everywhere or nowhere, in order",
  "When several transactions each touch several partitions, every partition commits a transaction's changes exactly if the transaction was decided as committed and undoes them exactly if it was aborted, and on each partition decisions take effect in transaction order, for every order in which decisions reach the partitions. "
  "After all decisions are applied, each partition holds exactly the changes of the committed transactions.",
  ["histories", "schedules"],
  "all bounded sequences of begin / execute / decide / apply over few transactions and partitions, with decisions arriving in every batch order",
  NOTEST + "outcomes depend on decision batching and abort position.",
  ["amelie/db/transaction/commit.c", "amelie/db/transaction/consensus.h", "amelie/db/transaction/track.h", "amelie/db/transaction/tr.h", "amelie/db/transaction/tr_list.h", "amelie/db/transaction/tr_cache.h", "amelie/db/transaction/log.h"],
  [("per-partition transaction list with commit and abort marks", "transaction/track.h, tr_list.h"), ("undo", "transaction/commit.c")])
P("C31", "An encrypted connection delivers the same bytes, never in clear text",
  "A connection configured for encryption completes a handshake before any data and delivers the same bytes in both directions until the end of the stream, whatever the sizes of the pieces the network takes and gives. "
  "Waiting for the rest of an encrypted record leaves the thread to others, and a connection that fails does not disturb other connections. "
  "A client of an encrypted endpoint never sends data in clear text, on its first or any later connection, and accepts a server certificate only for the names it was made for and, when it has certificates to verify with, only one they vouch for.",
  ["fault_sequences", "histories", "inputs"],
  "all bounded sequences of short, interrupted and refused transfers below the encryption, at every point of the handshake and the stream, next to another connection that breaks in every way, and all short certificate names",
  NOTEST + "the failures depend on how the network cuts encrypted records and on what other connections of the same thread do.",
  ["amelie/runtime/os/tls.c", "amelie/runtime/os/tls_context.c", "amelie/runtime/os/tls_lib.c", "amelie/runtime/os/tcp.c", "amelie/server/client/client.c"],
  [("retry and end-of-stream handling", "tls.c"), ("when to wait for the network", "tcp.c"), ("connecting and reconnecting", "client.c")])
# ---------------------------------------------------------------- not compiled at the pinned commit
P("C32", "A restart finds exactly the tables and rows of the committed transactions",
  "After any history of row changes, schema changes, checkpoints, partition saves and restarts, with or without a crash at any point of it (also of the next start), the database opens again and has exactly the tables, columns, indexes and rows of the transactions that were committed, the one in progress at the crash entirely or not at all; "
  "every row is in the partition its key is routed to and in every index once, and identity values which were used are not given out again. The database works on and the next start finds that too.",
  ["histories", "crash_points"],
  "all bounded histories over one or two tables of two partitions, crashed before every system call, in the log modes with and without sync on every write, and with a second crash during recovery",
  NOTEST + "recovery combines the catalog file, partition files and log positions, and fails only for certain histories and crash points.",
  ["amelie/db/db/recover.c", "amelie/db/catalog/catalog.c", "amelie/db/catalog/catalog_file.c", "amelie/db/catalog/table_mgr.c", "amelie/db/catalog/table_mgr_alter.c", "amelie/db/catalog/table_index.c", "amelie/db/part/part_mgr.c", "amelie/db/part/part_mgr_recover.c", "amelie/db/part/part_op.c", "amelie/db/part/part.c", "amelie/db/heap/heap_file.c", "amelie/db/wal/wal.c", "amelie/db/wal/wal_cursor.c", "amelie/db/wal/wal_mgr.c", "amelie/db/transaction/log.h", "amelie/db/transaction/write_log.h"],
  [("log replay over the saved catalog and partitions", "db/db/recover.c"), ("partition files", "db/part/part_mgr_recover.c")])
P("C33", "A backup restores the state of the moment it began",
  "A backup can begin at any time, also while others run, and while it runs the database goes on with row changes, schema changes and checkpoints. Its list of files can be copied until it ends, and what was copied, put into an empty directory, opens as a database with exactly the tables and rows of the transactions which were committed when the backup began. "
  "When backups end, are refused because of a system error, or are cut off by a crash, none of their files stay after they all ended (or the next start) and the log is not kept for them.",
  ["histories", "crash_points", "fault_sequences"],
  "all bounded histories with up to three backups, two at once; every crash point and failed link of the backup operations",
  "The backup suite cannot run at this commit, and unit tests have no backups at all.",
  ["amelie/db/db/snapshot_mgr.c", "amelie/db/catalog/catalog_snapshot.c", "amelie/db/storage/id.h", "amelie/db/storage/basefile.h", "amelie/db/wal/wal.c", "amelie/db/catalog/catalog_file.c", "amelie/db/part/part_mgr_recover.c", "amelie/db/db/recover.c"],
  [("snapshot of catalog, partitions and log", "db/db/snapshot_mgr.c"), ("links of partition files", "db/catalog/catalog_snapshot.c")])
P("C40", "SQL statements return the result defined by SQL semantics",
  "A query returns the rows which the relational semantics of its text define: conditions and expressions with nulls, joins, grouping, aggregates, HAVING, DISTINCT, ORDER BY, LIMIT and OFFSET, subqueries and common table expressions, for keys of every type. The result does not depend on the number of partitions, on the type of the primary key (tree or hash), on secondary indexes, on which of them the planner chooses or what it sends to the partitions, or on a restart. "
  "INSERT (with conflict clauses, RETURNING, or from a query), UPDATE, DELETE and TRUNCATE change exactly the rows they name, in all indexes, whatever statements came before; a statement or block that fails changes nothing, reports an error, and the next statements work. Blocks and functions (variables, IF, WHILE, FOR, BREAK, CONTINUE, RETURN, calls) end, and have the effect of their statements one after another. Defaults, stored and resolved columns give the values they define; changes of a table's columns keep the values of the other columns, also after a restart.",
  ["programs", "configurations", "histories"],
  "all statements of bounded grammars in all table layouts of a bounded set, all sequences of changes up to a depth",
  "The SQL suite samples statements and cannot run at this commit; no unit test executes a statement.",
  ["amelie/compiler/plan/path.c", "amelie/compiler/plan/plan.c", "amelie/compiler/parser/parse_select.c", "amelie/compiler/compiler/scan.c", "amelie/compiler/compiler/emit_expr.c", "amelie/compiler/compiler/emit_select.c", "amelie/compiler/compiler/emit_insert.c", "amelie/vm/vm/vm.c", "amelie/vm/vm/command.c", "amelie/vm/value/compare.h", "amelie/vm/executor/dispatch.h", "amelie/system/session/session.c", "amelie/system/backend/replay.c", "amelie/db/part/part.c"],
  [("plans and generated code", "compiler/plan, compiler/emit"), ("execution", "vm/vm, vm/executor, vm/set, vm/value"), ("sessions and backends", "system/session, system/backend")])
P("C41", "A replica converges to the primary",
  "A replica which streams the log of a primary has, after every message, exactly the tables and rows of the primary at the position of its own log, and in the end those of the last transaction, also after lost and cut messages, lost replies, checkpoints, restarts and crashes of either side. "
  "No transaction is applied twice or skipped, the primary keeps the log which the replica did not confirm, its streamer is woken up by every new transaction, and rows and schema changes are replayed under the lock of the catalog. Restarted, or made a primary, the replica continues from its state.",
  ["histories", "crash_points", "fault_sequences"],
  "all bounded histories of changes, messages, losses of the connection, checkpoints and restarts of both nodes; every crash point of the streaming, checkpoints and restarts of the replica",
  "The replication suite cannot run at this commit, and unit tests have no replication at all.",
  ["amelie/sync/repl/streamer.c", "amelie/sync/repl/primary.c", "amelie/sync/repl/replica_mgr.c", "amelie/system/session/session_replay.c", "amelie/system/backend/replay.c", "amelie/system/backend/pod.c", "amelie/db/db/recover.c", "amelie/db/wal/wal_cursor.c", "amelie/db/wal/wal.c"],
  [("streaming and positions", "sync/repl/streamer.c, primary.c"), ("replay of rows and schema changes", "system/session/session_replay.c, system/backend/replay.c, db/db/recover.c"), ("log kept for a replica", "db/wal/wal.c, sync/repl/replica_mgr.c")])
P("C42", "Background refresh, flush and index builds lose no concurrent change",
  "A partition refreshed, flushed to storage or indexed in the background while it is being changed ends with exactly the changes made, and a crash in any step is repaired at restart.",
  ["schedules", "crash_points"], "all interleavings of foreground changes with each background step, and all crash points",
  "The service suite cannot run at this commit.",
  ["amelie/db/service"], [("service operations", "amelie/db/service")])
with open(OUT, "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows), "properties")
