"""What decides each property: the harnesses (harness/src/h_*.rs), their bounds and their guards."""

L2 = '128..10000 bytes'

PROPS = {
    'C01': dict(harnesses=[
        dict(name='h_read_single', bounds='two values of 0..40000 bytes in one file, one read of each kind at any offset with any buffer length up to 70000',
             labels=['read_at', 'view', 'read', 'reader']),
        dict(name='h_read_modes', bounds='file cloning and flock modes; values of %s and 0..40000 bytes, read after no, an older or a newer clone of their file' % L2,
             labels=['read_at', 'view', 'read', 'reader'], weight=2),
        dict(name='h_read_tx', bounds='three read modes; three values (0..10000 bytes) in two files read in one transaction in any cyclic order, a key twice or once; views, positional reads, interleaved readers',
             labels=['views', 'reads']),
        dict(name='h_write_ways', bounds='three read modes; a value of up to 18000 bytes written in pieces, copied from a source in pieces, taken from a file, or beside another value of its batch',
             labels=['pieces', 'copied', 'from a file', 'two values']),
    ]),
    'C02': dict(harnesses=[
        dict(name='h_batch', bounds='a batch of 2 writes over 3 keys (repeats included), of 0 or %s, a value begun and dropped in it or not; committed or dropped; watched through two handles' % L2,
             bounds_deep='the same with 3 writes', labels=['committed', 'dropped']),
        dict(name='h_commit_fails', bounds='a batch of 1 or 2 writes over 3 keys of which any one system call of the commit fails (I/O error, no space, short write); watched through two handles and after reopening',
             bounds_deep='the same with up to 3 writes', labels=['succeeded', 'failed'], weight=3),
    ]),
    'C03': dict(harnesses=[
        dict(name='h_history', bounds='every history of 3 operations (write, delete, prefix delete, read; 3 keys, 3 prefixes) after a first write; lengths 0 or %s' % L2,
             bounds_deep='the same with 4 operations', labels=['put', 'delete', 'delete absent', 'delete prefix', 'read']),
    ]),
    'C04': dict(harnesses=[
        dict(name='h_punch', bounds='three values of %s in a file, any non-empty subset deleted forwards or backwards, waiting for reclamation between or not' % L2,
             labels=['contents', 'a dead block before a live value']),
        dict(name='h_punch_closed', bounds='the same in a file nobody writes to any more, deleted or replaced', labels=['removed', 'cut']),
    ]),
    'C05': dict(harnesses=[
        dict(name='h_punch', bounds='three values of %s in a file, any non-empty subset deleted forwards or backwards, waiting for reclamation between or not; any block before the last live value' % L2,
             labels=['contents', 'a dead block before a live value']),
        dict(name='h_punch_closed', bounds='the same in a file nobody writes to any more, deleted or replaced', labels=['removed', 'cut', 'a dead block before a live value']),
        dict(name='h_punch_disabled', bounds='two values of %s, any non-empty subset deleted or replaced with reclamation disabled' % L2, labels=['disabled']),
        dict(name='h_punch_drop', bounds='three values of %s, any non-empty subset deleted and the handle dropped at once, one of them read through another handle meanwhile or not, until the background thread is done; with and without file cloning' % L2, labels=['done', 'contents', 'a dead block before a live value']),
    ]),
    'C06': dict(harnesses=[
        dict(name='h_snapshot', bounds='three read modes; a snapshot of one or two of three values of %s, then any 2 of 8 kinds of disturbance (replace, delete, delete all, rename, evict, deletion and write by another handle, cleanup, more writes), the handle dropped or not' % L2,
             bounds_deep='the same with 3 disturbances', weight=4,
             labels=['held', 'replaced', 'deleted', 'all deleted', 'renamed', 'evicted', 'deleted by another handle', 'cleaned up', 'more written and read']),
        dict(name='h_snapshot_consistent', bounds='three read modes; two values replaced in one batch by another handle during a transaction of the first', labels=['consistent']),
        dict(name='h_snapshots', bounds='three read modes; a value written and then any 4 of: another written (128..9000 bytes), any of the values read in one snapshot, the last of those read deleted; each through either of two handles',
             bounds_deep='the same with 5 steps', labels=['write', 'read', 'delete', 'checked'], weight=2),
    ]),
    'C07': dict(harnesses=[
        dict(name='h_limit', bounds='any limit 0..30000 set before the first or second of 3 operations (write, batch of two, delete, rename), lengths %s' % L2,
             bounds_deep='the same with 4 operations', labels=['first', 'put', 'batch', 'delete', 'rename'], weight=3),
        dict(name='h_no_limit', bounds='three writes of %s with no limit, or one lifted before' % L2, labels=['end']),
    ], assumptions=['reclamation of space is disabled in h_limit (C04 and C05 decide it)']),
    'C08': dict(harnesses=[
        dict(name='h_evict', bounds='three values of %s written at increasing or equal times, one of them read, replaced, listed or not; then a write of %s under any limit 0..45000' % (L2, L2),
             labels=['evicted', 'nothing evicted', 'read', 'replaced', 'listed'], weight=3),
        dict(name='h_last_used', bounds='times 0, 7, 14 ms after the writes; read, write or listing', labels=['end']),
    ], assumptions=['the clock is the modelled one: it moves only where the harness moves it']),
    'C09': dict(harnesses=[
        dict(name='h_list', bounds='two different keys and a prefix of 0..2 arbitrary bytes each; list, delete, or move the prefix',
             bounds_deep='the same with 0..3 bytes', labels=['list', 'delete', 'move']),
    ]),
    'C10': dict(harnesses=[
        dict(name='h_rename_item', bounds='1..3 values (0 or %s), any source of 3 and target of 4 keys, equal ones included' % L2, labels=['no such key', 'renamed', 'taken']),
        dict(name='h_rename_value', bounds='1..3 values (0 or %s); one renamed in a batch to any of 4 keys, alone, after a write, or twice; deleted or replaced meanwhile or not' % L2,
             labels=['renamed', 'source gone', 'source replaced']),
        dict(name='h_move_prefix', bounds='1..3 values (0 or %s), any of 4 prefixes moved to any of 4' % L2, labels=['moved', 'failed']),
    ]),
    'C11': dict(harnesses=[
        dict(name='h_batches', bounds='two batches (begin, write, stage or drop, commit or drop) in every order of their steps, on one handle or two, open-file-description locks or flock, lengths %s' % L2,
             labels=['two handles', 'one handle'], weight=4),
        dict(name='h_batch_pool', bounds='two rounds of a batch with two values begun at once and a third after, staged in either order, the first committed or dropped', labels=['end']),
    ]),
    'C12': dict(harnesses=[
        dict(name='h_write_reclaim', bounds='two values of %s; a third is begun, written, staged and committed; at one of 4 points neighbours are deleted in one of 4 ways through this or another handle and reclaimed' % L2,
             labels=['end']),
        dict(name='h_reclaim_later', bounds='a value of 5000..12000 bytes between two others deleted while read; any of its blocks after the read has ended', labels=['reclaimed']),
    ]),
    'C13': dict(harnesses=[
        dict(name='h_cleanup', bounds='file cloning; up to two live snapshots (this or another handle), snapshots left by processes that died, any foreign files; a cleanup through either handle',
             labels=['none live', 'live', 'abandoned', 'foreign', 'one of two']),
        dict(name='h_race_cleanup', bounds='cleanup through one handle during a read through another, which has clones already or not: every schedule with one preemption at a system call', bounds_deep='the same with two preemptions', labels=['single', 'both', 'list', 'other'], weight=3),
        dict(name='h_cleanup_drop', bounds='file cloning; cleanup or walk through one handle while another, with one or two clones and a snapshot kept or not, is dropped: every schedule with one preemption at a system call', bounds_deep='the same with two preemptions', labels=['kept', 'dropped']),
    ]),
    'C14': dict(harnesses=[
        dict(name='h_race', bounds='three read modes; one of 4 kinds of reads through one handle at once with one of 6 kinds of changes (replace, delete, delete all, cleanup, write and delete, move) through another, which is then dropped: every schedule with one preemption at a system call',
             bounds_deep='the same with two preemptions', labels=['single', 'both', 'list', 'other'], weight=3),
        dict(name='h_race_reclaim', bounds='three read modes; deletion and reclamation of a value through one handle at once with a write, a read or a drop of another handle on the same file: every schedule with one preemption at a system call',
             bounds_deep='the same with two preemptions', labels=['written', 'dropped', 'read', 'read before'], weight=2),
        dict(name='h_c_race', bounds='three read modes; a reader of the C interface (listing first or not, some time after the writes or not) at once with a write, a delete and reclamation, or another write through another handle: every schedule with one preemption at a system call',
             bounds_deep='the same with two preemptions', labels=['listed', 'read', 'gone'], weight=2),
    ]),
    'C15': dict(harnesses=[
        dict(name='h_reopen', bounds='three read modes; up to two values of 0 or %s, reopened once or twice, after dropping, beside another handle, or in another process' % L2,
             labels=['again', 'both', 'process', 'held']),
        dict(name='h_version', bounds='every 32-bit format version of the manifest', labels=['reset', 'current', 'newer', 'refused']),
    ]),
    'C16': dict(harnesses=[
        dict(name='h_crash', bounds='death of the process before any system call that changes files, in the course of one of 9 operations on a store of two values', labels=['before', 'after'], weight=2),
        dict(name='h_crash_race', bounds='a delete, a replacement or an eviction (all with values of 400..8300 bytes), the process dying before any call that changes a file, and the background thread taking over before any one system call', bounds_deep='also a prefix deletion', labels=['before', 'after'], weight=2),
        dict(name='h_crash_open', bounds='the same while opening a new, an existing or an older store', bounds_deep='the same, twice in a row', labels=['old', 'written', 'not written']),
    ], assumptions=['death of the process, not of the machine: what was written stays written']),
    'C17': dict(harnesses=[
        dict(name='h_read_fails', bounds='a read (positional, from the start, through a reader, a view) of any place and length up to 11000 in a value of %s, any one system call of which, or of taking the snapshot, fails' % L2, labels=['read', 'failed', 'viewed', 'no view', 'no snapshot']),
        dict(name='h_copy_fails', bounds='a source that fails after any number of bytes up to 18000, in a batch continued or not, dropped or not, read meanwhile or not', labels=['single', 'dropped', 'continued', 'as it was', 'read in the middle']),
        dict(name='h_fault', bounds='any one system call (open, read, write, truncate, punch, unlink, mkdir, clone, map) failing with EIO, ENOSPC or a short write, in the course of one of 9 operations on a store of two values', labels=['done', 'failed'], weight=2),
    ], assumptions=['lock operations, lseek and stat do not fail']),
    'C18': dict(harnesses=[
        dict(name='h_regions', bounds='a file of any size up to 5 blocks, sparse and written in any of them, or full and punched twice with any offset and length; the region of any position',
             bounds_deep='7 blocks, 3 punches', labels=['written', 'punched', 'empty', 'hole', 'data']),
    ]),
    'C19': dict(harnesses=[
        dict(name='h_c_single', bounds='three values (0 or %s), one operation (stat, list, delete, prefix delete, prefix move, cleanup, write) with any of 5 keys or 6 prefixes' % L2,
             labels=['stat', 'list', 'delete', 'delete prefix', 'move prefix', 'cleanup', 'replace']),
        dict(name='h_c_read', bounds='three read modes; values of 0..20000 bytes, reads at any offset up to 25000 into a buffer of any size up to 22000, single or through a reader, replaced meanwhile or not', labels=['single', 'reader', 'given up']),
        dict(name='h_c_batch', bounds='a batch of up to two values written through their file descriptors in two pieces of any length up to 9000, and a rename', labels=['staged', 'renamed']),
        dict(name='h_c_limits', bounds='three values of %s, any 64-bit limit, lifted or not' % L2, labels=['all fit', 'evicted', 'lifted']),
        dict(name='h_c_new', bounds='directories that exist, do not, and cannot', labels=['refused', 'made', 'again']),
    ]),
    'C20': dict(harnesses=[
        dict(name='h_file_id', bounds='every 32-bit id', labels=['id']),
        dict(name='h_walk', bounds='a store or an empty directory with one more file or directory of 16 names, as they are or with one byte changed to one of 4, snapshot directories with any of 4 entries', labels=['walked', 'cleaned up', 'snapshot']),
    ]),
    'C21': dict(harnesses=[
        dict(name='h_missing', bounds='up to 3 values and 3 holes at any offsets and of any lengths up to 2^40, any position', bounds_deep='4 holes', labels=['missing', 'none missing']),
        dict(name='h_punch_missing', bounds='three values of %s in a file, any subset deleted with reclamation off or turned on after the first; a snapshot or an open batch beside it or not; any block' % L2, bounds_deep='four values',
             labels=['reported', 'punched', 'live', 'snapshot', 'batch']),
    ], note='The source of the tool (src/main.rs) is included into the harness; its main() runs with arguments given by the harness.'),
}

LEVEL_NOTE = 'Within the bounds listed in the evidence, every input on every explored path is decided by the solver over the executed code. Trusted: the LLVM front end, the executor, its model of Linux files, locks, threads and clock (compared with native runs on sampled paths), Z3.'

NOT_APPLICABLE = {
    'C22': 'the Go package cannot be compiled here (anacrolix/generics, chansync and missinggo are in no module cache, and there is no network), and no Go compiler to an IR the executor reads is installed; what it calls, the C interface, is claimed as C19',
}
