#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mechanism)))

S = 'src/s3ql/'
prop('C01', 'A crash never loses acknowledged data while the local cache survives',
     "If the mount process dies at any instant and its cache directory survives, then after fsck.s3ql the file system can be mounted again and every file operation that had completed before the crash is reflected: each byte written by a completed write reads back (or the value of a later write in flight at the crash), directory entries, symlinks and extended attributes created or removed are as they were, and sizes and attributes that were fsynced are kept. Nothing outside what was in flight changes, and no intact file ends up in lost+found.",
     ['crash_points', 'schedules', 'histories'],
     'every instant of a mounted file system (also inside uploads, dedup, eviction, metadata backup, unmount), every history of file operations before it, every interleaving with background uploads',
     'tests kill nothing: t3_fsck damages a database by hand and t5_failsafe mounts FUSE; no test stops the process at an arbitrary instant of an upload and runs the real fsck against what is left',
     [S+'block_cache.py', S+'fsck.py', S+'mount.py', S+'fs.py', S+'inode_cache.py', S+'database.py'],
     'dirty cache files are kept on disk until the object is stored; fsck commits cache files whose content differs from the recorded object and repairs counts')
prop('C02', 'Reads return the data last written, whatever runs in the background',
     "While a file system is mounted, a read returns for every byte the value of the last write or truncate that completed before it, or of one concurrent with it, and zeros for bytes never written; no upload, deduplication, eviction, download, cache drop, cache resize or metadata backup running at the same time changes what a reader sees. File sizes obey the same rule.",
     ['schedules', 'histories', 'inputs'],
     'all interleavings of concurrent readers, writers, truncates and deletes with background commit, eviction under cache pressure, object upload/download and metadata backup',
     'unit tests drive one operation at a time, or two tasks in a fixed order; the upload/evict/dedup races need particular interleavings',
     [S+'block_cache.py', S+'fs.py', S+'multi_lock.py', S+'mount.py'],
     'per-block lock held across upload hand-off, dirty flag, wait for in-flight upload before download, removal from cache under the lock')
prop('C03', 'After a clean unmount metadata and stored objects agree exactly',
     "After a clean unmount, every data block referenced by a file exists in the storage backend and contains the bytes recorded for it, no data object is stored that no file references, identical blocks are stored once, all reference counts are exact and fsck.s3ql finds nothing to correct. Storage object ids are never reused for different content.",
     ['schedules', 'histories', 'fault_sequences'],
     'all histories of file operations, interleavings with background work, and transient backend errors that end before the unmount',
     'tests run fsck after short scripted histories without concurrency; orphaned or dangling objects appear only in particular upload/delete interleavings',
     [S+'block_cache.py', S+'fs.py', S+'database.py', S+'fsck.py', S+'mount.py'],
     'reference counting of objects, names and inodes, queued removal of unreferenced objects, hash index for deduplication')
prop('C04', 'Uploaded metadata restores exactly the recorded state on any machine',
     "The metadata stored in the backend after a clean unmount, used on a machine without a local cache, gives exactly the tree, contents and attributes that were visible at unmount. A metadata backup completed while mounted describes one consistent instant, so that after the machine is lost fsck.s3ql on another one recovers everything that was flushed before that backup and not changed since, and old metadata versions stay restorable until the retention rule expires them.",
     ['schedules', 'histories', 'crash_points'],
     'all histories with metadata backups at arbitrary moments relative to writes and uploads, loss of the machine at any later instant, any number of stored versions',
     'tests upload and download metadata with no concurrent writers and few versions; torn snapshots need writes and checkpoints racing a running backup',
     [S+'database.py', S+'mount.py', S+'sqlite3ext.pyx', S+'_sqlite3ext.cpp', S+'fsck.py', S+'adm.py'],
     'dirty-block tracking, incremental upload with writes inhibited, per-sequence metadata objects, params with checksum, expiration of old objects')
prop('C05', 'Every command can be interrupted at any point and recovered from',
     "If mount.s3ql, fsck.s3ql, or an s3qladm operation is killed at any point, a later fsck.s3ql brings the file system back to a state that mounts and in which all previously existing files are intact. A second fsck.s3ql after a completed one finds nothing to correct, and mkfs.s3ql killed at any point leaves something that a repeated mkfs.s3ql (with --force where it asks for it) can replace.",
     ['crash_points', 'fault_sequences'],
     'all kill points of every command that writes to the backend or the cache, including a kill during the recovery itself',
     'no test interrupts a command; the order of params and metadata writes matters only between two of them',
     [S+'mount.py', S+'fsck.py', S+'adm.py', S+'mkfs.py', S+'database.py'],
     'ordering of local params, metadata objects and remote params; mounted/needs-fsck marks; sequence numbers')
prop('C06', 'Stale local metadata is never used and double mounts are refused',
     "A machine never works from a local metadata copy or block cache that is older than what the backend holds: it downloads the current metadata, or refuses to mount. While the backend records that the file system is mounted or was not unmounted cleanly, mounting from any machine is refused until fsck.s3ql has run, and a machine whose unmount was interrupted cannot later overwrite newer metadata written by another machine.",
     ['histories', 'crash_points', 'configurations'],
     'all histories of mount, write, unmount, crash and fsck by several machines sharing one backend, each with its own surviving cache directory',
     'tests use one cache directory at a time; the failures need two machines taking turns with crashes in between',
     [S+'mount.py', S+'fsck.py', S+'database.py', S+'adm.py'],
     'sequence numbers and is_mounted in local and remote params; local copy accepted only when it matches the remote one')
prop('C07', 'Damaged or lost objects give an I/O error, never wrong data',
     "If the storage backend loses, damages, truncates, swaps or replays stored objects, then reading the affected part of an encrypted file system fails with an I/O error (and the mount switches to a read-only safe mode that rejects every modification), while all other data stays readable; altered or foreign bytes are never returned. On an unencrypted file system the same holds for lost objects and for damage that the stored compression format can detect, and no kind of damage crashes the mount.",
     ['fault_sequences', 'inputs'],
     'all single and combined faults of stored objects (loss, bit flips, truncation, swapped names, old versions) at any moment of a history',
     'tests corrupt a handful of fixed positions of one object through the backend API, not through a mounted file system under load',
     [S+'backends/comprenc.py', S+'backends/common.py', S+'fs.py', S+'block_cache.py', S+'common.py'],
     'authenticated encryption bound to the object name, metadata signature, EIO and failsafe handling in read/write')
prop('C08', 'Storage operations over a faulty network are retried and exact',
     "Over a network that delays, cuts, truncates or corrupts connections and a server that fails temporarily, every storage operation either completes with exactly the effect and result it would have had without faults, or raises an error that says why; a read never returns anything but one complete stored version of the object, a stored object is never left truncated or mixed (while an upload that was damaged in transit is being repeated, the old version may already be gone), and listings neither omit nor invent keys. Once the faults stop, operations succeed. Data behind the end of what a read reports as received is not part of its result, and a server name that does not resolve while others do is not a temporary fault.",
     ['fault_sequences', 'schedules'],
     'all fault sequences at every byte of request and response, all interleavings of concurrent operations over pooled connections, for the S3, S3-compatible, Swift, Google Storage and B2-compatible backends',
     'the mock-server tests inject one fixed fault per test into a single request; partial bodies followed by retries and concurrency are not sampled',
     [S+'http.py', S+'backends/s3c.py', S+'backends/s3c4.py', S+'backends/s3.py', S+'backends/swift.py', S+'backends/gs.py', S+'backends/b2ng.py', S+'backends/common.py'],
     'retry wrapper, rewinding of file objects, ETag/MD5 comparison, temporary-failure classification, pagination')
prop('C09', 'A locked directory tree cannot be changed',
     "After a directory tree has been made immutable, no operation of any kind through the file system (write, truncate, create, delete, rename, link, attribute or extended attribute change) changes the names, contents or attributes inside it, whatever was in flight when it was locked (such an operation either completes or is refused), across remounts, across crashes once the lock's metadata has been stored, or through copies; it can only be removed as a whole by the tree removal command. Copies of a locked tree are ordinary and independent.",
     ['histories', 'schedules', 'crash_points'],
     'all histories that lock trees and then try every modifying operation in any order, with operations and background work in flight at the moment of locking',
     'tests lock one small tree and try a fixed list of operations one after another',
     [S+'fs.py', S+'inode_cache.py'],
     'locked flag on inodes checked by each modifying handler, recursive locking')
prop('C10', 'Replicating a tree gives an exact, independent snapshot',
     "Replicating a directory tree yields a copy with the same names, contents, symlinks, hard-link structure inside the tree and extended attributes, each file and directory as it was in the source at some moment during the command, including data not yet uploaded. Later changes to either side, or deleting one of them, never show in the other.",
     ['histories', 'schedules'],
     'all trees and histories before, during and after the replication, with dirty, uploading, evicted and deduplicated blocks',
     'tests copy a tree at rest with everything flushed; unflushed blocks and concurrent background work are not sampled',
     [S+'fs.py', S+'cp.py', S+'block_cache.py', S+'inode_cache.py'],
     'copying inode and block rows with incremented reference counts after flushing cached blocks')
prop('C11', 'Namespace operations behave like a POSIX file system',
     "For every sequence of lookup, create, link, unlink, rename, mkdir, rmdir, symlink, attribute and extended attribute operations by concurrent users, results, error codes, link counts, sizes, modes, owners, times, directory listings and attribute values equal those of a POSIX reference file system, including open files that have been deleted, replaced rename targets, and directories read while they change. Deleted files give up their storage once no user holds them open.",
     ['histories', 'schedules', 'inputs'],
     'all operation sequences over arbitrary byte names, more inodes than the attribute cache holds, concurrent users and remounts',
     'the operation tests run a few calls per test with one user and small trees; inode cache eviction and interleavings with readers are not reached',
     [S+'fs.py', S+'inode_cache.py', S+'database.py'],
     'names and contents tables with reference counts, write-back inode cache, open counts per inode')
prop('C12', 'The block cache respects its limits and accounts exactly',
     "While the file system is in use, the cached data and number of cached blocks stay within the configured limits, apart from the blocks being worked on, as long as uploads can make progress; the reported cache, dirty and removal figures equal what is actually on disk and queued. A block with unsaved changes is never dropped from the cache before its content is stored.",
     ['schedules', 'histories', 'fault_sequences'],
     'all histories and interleavings of writers, truncation, deletion, resizing and dropping of the cache and uploads that are slow or fail',
     'tests check the limit after single sequential operations; accounting drifts appear with concurrent truncation, eviction and failed uploads',
     [S+'block_cache.py', S+'fs.py', S+'_linked_dict.py'],
     'size accounting around each block access, LRU eviction that uploads first, statistics query')
prop('C13', 'fsck repairs any damage and keeps everything that is intact',
     "For any inconsistent combination of metadata rows that the database schema allows (no directory in two places), cache files and stored objects, fsck.s3ql terminates, leaves a file system that a second run finds clean and that mounts, keeps every file whose own records and data are intact byte for byte under its name (or in lost+found when its directory entry is what was lost), and deletes only objects that no intact file needs. It reports that it found errors exactly when it had something to correct; what merely deviates from Unix conventions it only reports, every time.",
     ['inputs', 'fault_sequences', 'crash_points'],
     'all combinations of deleted, duplicated or altered rows, missing or extra objects and stale cache files on arbitrary file systems',
     't3_fsck injects one hand-made damage per test into a nearly empty file system',
     [S+'fsck.py', S+'database.py', S+'common.py'],
     'sequence of repair passes over the metadata tables, backend listing compared with the object table')
prop('C14', 'Verification reports exactly the missing and corrupted objects',
     "s3ql_verify lists as missing exactly the objects that the metadata references and the backend does not hold, and (when it reads the data) as corrupted exactly those whose stored content cannot be recovered or does not match, regardless of transient backend errors, the order in which parallel workers finish, or where it starts; its exit status says whether it found anything. remove_objects.py removes exactly the objects it is given, also if it is interrupted and repeated; fsck.s3ql then restores a consistent file system in which s3ql_verify finds nothing missing.",
     ['fault_sequences', 'schedules', 'inputs'],
     'all sets of lost and damaged objects, all interleavings of the parallel checkers, transient backend errors',
     'tests verify one missing and one corrupted object sequentially',
     [S+'verify.py', S+'backends/comprenc.py', S+'common.py', 'contrib/remove_objects.py'],
     'parallel retrieval of every object in the metadata, separate lists for missing and corrupted')
prop('C15', 'A failed upload never loses data or poisons deduplication',
     "When storing an object fails for good, the data stays available from the cache and is stored by a later attempt or recovered by fsck.s3ql; no other file with the same content is ever treated as stored on the strength of an upload that has not succeeded, and no reference is left to an object that was never stored without fsck.s3ql being required.",
     ['fault_sequences', 'schedules', 'crash_points'],
     'all placements of permanent upload failures relative to deduplicating writes, deletes, eviction and crashes',
     'one test fails a single upload; the window in which another block deduplicates against an upload in flight is not sampled',
     [S+'block_cache.py', S+'fsck.py', S+'mount.py'],
     'in-flight table, hash reset on failure, dirty flag kept, fsck of unfinished objects')
prop('C16', 'No operation hangs: flush, eviction and unmount always finish',
     "Whatever the interleaving, and after any burst of temporary backend failures has ended, every file operation, cache flush, cache drop, metadata backup and unmount completes within a bounded time that depends only on the backend's latency and the amount of work; background tasks stop at unmount and the mount process exits.",
     ['schedules', 'fault_sequences'],
     'all interleavings of clients, uploaders, removers, commit and backup tasks, with slow and temporarily failing backends',
     'a deadlock or lost wake-up needs a particular interleaving; tests would only time out by luck',
     [S+'block_cache.py', S+'multi_lock.py', S+'mount.py', S+'database.py', S+'common.py'],
     'condition variables with timeouts, bounded channels, two-pass block removal, lock hand-over between tasks')
prop('C17', 'Connections are bounded, reused safely and never mix up answers',
     "The HTTP client never has more connections in use than configured, never delivers to one request any part of the response to another, never reuses a connection whose previous exchange was aborted, cancelled, timed out or left unread (only a final answer that the server sends unasked on an idle connection, like 408, may be taken for the answer to the request crossing it), and releases every connection and waiter when requests fail or are cancelled, so that the full number stays usable.",
     ['schedules', 'fault_sequences'],
     'all interleavings of concurrent requests, cancellations, timeouts, early responses, closes and malformed responses',
     'pool tests run a few scripted requests against a local server; cancellation and faults at arbitrary points of an exchange are not sampled',
     [S+'http.py'],
     'connection pool with a limiter, per-connection exchange state, drop on incomplete exchange')
prop('C18', 'Bulk deletion reports exactly what was not deleted',
     "After deleting several objects at once, normally or with an error, every requested object is either gone from the storage service or still named in the remaining list, objects that still exist are never reported as deleted, objects confirmed one by one as deleted are not reported as remaining, and no other object is touched; deleting absent objects succeeds.",
     ['fault_sequences', 'schedules', 'inputs'],
     'all key sets (larger than one batch, unusual characters), partial per-key failures, temporary errors, lost answers and concurrent workers, for every backend',
     'tests check one partial failure per backend with a handful of keys',
     [S+'backends/common.py', S+'backends/s3c4.py', S+'backends/s3.py', S+'backends/s3c.py', S+'backends/swift.py', S+'backends/local.py', S+'backends/b2ng.py', S+'backends/gs.py', S+'backends/comprenc.py'],
     'batching, parsing of per-key results, in-place update of the key list, parallel fallback')
prop('C19', 'Changing or recovering the passphrase never locks the user out',
     "At every point at which changing the passphrase or restoring the master key can be interrupted or fail, the file system can be opened with the old or the new passphrase or the master key printed at creation, with all data intact; afterwards exactly the new passphrase works.",
     ['crash_points', 'fault_sequences'],
     'all kill points and backend faults during the operations, with temporary failures and lost answers',
     'tests run the operations to completion',
     [S+'adm.py', S+'mkfs.py', S+'backends/__init__.py', S+'backends/comprenc.py'],
     'single object holding the wrapped master key, replaced by one atomic store')
prop('C20', 'Temporary failures are retried with bounded backoff; permanent ones at once',
     "A storage operation that meets temporary failures is repeated with growing pauses that honour the server's requested delay and never exceed the documented maximum, continues for up to the documented total time before giving up with an error, and stops at the first success; a failure that is not temporary is reported at once without another attempt. This holds when the system clock jumps.",
     ['fault_sequences', 'schedules'],
     'all sequences of temporary and permanent failures and requested delays, over simulated days, with wall-clock jumps',
     'the real waiting times are minutes to a day; tests replace the sleep or fail once',
     [S+'backends/common.py', S+'backends/s3c.py', S+'http.py'],
     'retry wrapper around every backend method, retry-after parsing')
prop('C21', 'Walking the cache order while it changes is safe and complete',
     "An iteration over the cached entries that is interleaved with insertions, removals and reorderings by others returns every entry that stays in place throughout, never fails, never returns an entry that has been removed, and ends once changes stop; the order is always least recently used first.",
     ['schedules', 'histories'],
     'all interleavings of several concurrent iterations with insert, delete, move and clear operations',
     'tests mutate around one iterator in a few scripted ways',
     [S+'_linked_dict.py', S+'block_cache.py', S+'mount.py'],
     'cursor nodes in the linked list')
prop('C22', 'Key locks exclude each other and never lose a wake-up',
     "At most one task holds the lock of a key at any time, locks of different keys do not block each other, a waiting task gets the lock once it is released for good, and a task cancelled while waiting or holding leaves no lock behind and steals no wake-up.",
     ['schedules', 'fault_sequences'],
     'all interleavings of acquire, try, timed acquire, release by another task and cancellation over several keys',
     'tests use two tasks in a fixed order',
     [S+'multi_lock.py'],
     'set of locked keys with one condition variable')
prop('C23', 'The local storage backend stores objects atomically',
     "With the local directory backend, an object is at any moment either absent, the complete old version or the complete new version, also when the process is killed (not the power cut) or the disk fills up while storing it, when several tasks store, read, list and delete concurrently, and whatever characters the key contains; leftovers of interrupted writes are never listed or returned. An object file that was truncated or overwritten at rest within its header or metadata is reported as corrupted, never as absent and never with an unrelated error.",
     ['crash_points', 'schedules', 'fault_sequences'],
     'all kill points within a store, disk errors and full disks at any write, all interleavings of concurrent operations on the same and different keys',
     'tests store and read sequentially without faults',
     [S+'backends/local.py', S+'backends/common.py'],
     'temporary file renamed into place')
prop('C24', 'Recursive removal frees the whole tree and nothing else',
     "Removing a directory tree with the tree removal command deletes every entry below it, locked or not, releases the storage of files that nothing else references once they are closed, leaves entries outside (including other hard links and replicated copies) untouched, and while other users work in the tree at the same time it either completes or reports that the tree is not empty (entries added to the tree meanwhile may go or stay), without losing their acknowledged changes elsewhere.",
     ['histories', 'schedules'],
     'all trees and concurrent operations inside and outside the removed tree',
     'tests remove small trees at rest',
     [S+'fs.py', S+'remove.py', S+'block_cache.py'],
     'breadth-first removal in chunks with purge of unreferenced inodes')
prop('C25', 'Storage URLs and compression options are parsed as documented',
     "Every documented form of storage URL and compression option is accepted and canonicalised to one form so that equal locations share one cache directory, and malformed ones are rejected with an error message.",
     ['inputs'],
     'all option strings',
     'tests sample a few strings',
     [S+'parse_args.py', S+'authinfo.py'],
     'regular expressions')
prop('C26', 'Object metadata survives serialisation unchanged',
     "Every metadata mapping of elementary values that is stored with an object is read back equal, and input that is not such a serialisation is rejected.",
     ['inputs'],
     'all mappings of elementary values',
     'tests sample a few mappings',
     [S+'common.py', S+'backends/common.py'],
     'literal serialisation')

prop('C27', 'umount.s3ql returns when everything is stored and the mount process is gone',
     "umount.s3ql ends with status 0 only after the mount process has flushed all data and metadata to the storage backend and has ended, so that the file system can be mounted on another machine at once and holds everything; it ends within seconds after that, also if the process id is in use again. While files are in use, or if unmounting fails, it ends with a non-zero status and the file system stays mounted and usable. With --lazy it returns at once; open files can be used on, and everything is stored when the mount process has ended.",
     ['schedules', 'fault_sequences', 'histories'],
     'all interleavings of the program with clients that open and close files, slow uploads with temporary failures of any length, and reuse of the process id at any moment after the end',
     'tests unmount small file systems on fast local storage; they need a real FUSE mount and never have a slow upload or a reused process id',
     [S+'umount.py', S+'mount.py', S+'fs.py'],
     'flush request through the control file, then polling for the process by id and command line')

prop('C28', 'expire_backups.py keeps a backup for every age range, even if it is killed',
     "After a run of expire_backups.py that ends with status 0, every requested age range has a backup now and after any number of further cycles wherever the backups that existed before could provide one, all remaining backups are complete, and no more backups are kept than needed. A run that reports an error or a dry run removes nothing. If it is killed at any moment, no complete backup that is still needed is lost, the next run works without being told to reconstruct its state, no partially removed backup is taken for a backup, and ages are counted as if it had not been killed. All this holds with and without --use-s3qlrm.",
     ['histories', 'crash_points'],
     'all histories of backup cycles (irregular, missing and deleted backups, changed age ranges, limits to the proportion) and all instants at which the program is killed',
     'there are no tests of it; one would run a few cycles to completion',
     ['contrib/expire_backups.py', S+'remove.py', S+'common.py'],
     'simulates future cycles to decide what to keep; ages in cycles are kept in a state file')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
print(len(P))
