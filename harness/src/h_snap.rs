//! C06: a snapshot never changes. C13: cleaning up snapshots.
use crate::st::*;
use crate::sym::*;
use possum::*;

const KEYS: [&[u8]; 4] = [b"a", b"b", b"c", b"d"];

/// something that happens to the store while a snapshot is held
fn disturb(h: &mut Handle, h2: &mut Handle, i: u64) {
    let tag = 20 + i;
    match choice("op", 8) {
        0 => {
            put(h, b"b", tag, 700);
            reach("replaced");
        }
        1 => {
            let _ = h.single_delete(b"b").unwrap();
            reach("deleted");
        }
        2 => {
            h.delete_prefix(b"").unwrap();
            reach("all deleted");
        }
        3 => {
            let _ = h.rename_item(b"b", b"e");
            reach("renamed");
        }
        4 => {
            limits(h, Some(0), false);
            put(h, b"c", tag, 300);
            limits(h, None, false);
            reach("evicted");
        }
        5 => {
            // another handle deletes all but the snapshot's neighbour, and writes
            let _ = h2.single_delete(b"a").unwrap();
            let _ = h2.single_delete(b"b").unwrap();
            put(h2, b"c", tag, 900);
            reach("deleted by another handle");
        }
        6 => {
            h.cleanup_snapshots().unwrap();
            h2.cleanup_snapshots().unwrap();
            reach("cleaned up");
        }
        _ => {
            put(h, b"c", tag, 5000);
            let _ = h.read_single(b"c").unwrap();
            reach("more written and read");
        }
    }
    if (i > 0 && !deep()) || flag("drain") {
        drain();
    }
}

/// A snapshot of two values of a file, with neighbours, against what happens later.
#[no_mangle]
pub extern "C" fn h_snapshot() {
    let mode = read_mode();
    let mut h = open();
    let mut h2 = open();
    let n0 = len2("n0");
    let n1 = len2("n1");
    let n2 = len2("n2");
    put(&h, KEYS[0], 1, n0);
    put(&h, KEYS[1], 2, n1);
    put(&h, KEYS[3], 3, n2);
    if flag("reopened") {
        // nobody writes to the file
        drop(h);
        drain();
        h = open();
    }
    let mut r = h.read().unwrap();
    let vb = r.add(KEYS[1]).unwrap().unwrap();
    let two = flag("two");
    let vd = if two { r.add(KEYS[3]).unwrap() } else { None };
    let s = r.begin().unwrap();
    let x = s.value(vb);
    let y = vd.map(|v| s.value(v));
    drop(s);
    if if deep() { flag("early") } else { two } {
        check_snap(&x, 2, n1, "a snapshot just taken");
    }
    let steps = if deep() { 3 } else { 2 };
    for i in 0..steps {
        disturb(&mut h, &mut h2, i);
    }
    if (deep() || !two) && flag("handle gone") {
        drop(h);
        h = open();
    }
    drain();
    check_snap_read_at(&x, 2, n1, "a snapshot later");
    check_snap(&x, 2, n1, "a snapshot later");
    if let Some(y) = &y {
        check_snap(y, 3, n2, "a snapshot later");
        check_snap_read_at(y, 3, n2, "a snapshot later");
    }
    observe("mode", mode);
    reach("held");
    drop(h);
}

/// All values of a snapshot are of one state: another handle replaces both in one batch, in between.
#[no_mangle]
pub extern "C" fn h_snapshot_consistent() {
    let _ = read_mode();
    let h = open();
    let h2 = open();
    let n = len2("n");
    put(&h, b"a", 1, n);
    put(&h, b"b", 1, n);
    let mut r = h.read().unwrap();
    let va = r.add(b"a").unwrap().unwrap();
    // (a write through another handle waits for the reader: the reader must see its own state)
    let items = h2.list_items(b"").unwrap();
    check(items.len() == 2, "another handle lists during a read transaction");
    let vb = r.add(b"b").unwrap().unwrap();
    let s = r.begin().unwrap();
    let mut w = h2.new_writer().unwrap();
    stage(&mut w, b"a", 2, 300);
    stage(&mut w, b"b", 2, 400);
    w.commit().unwrap();
    drain();
    check_snap(&s.value(va), 1, n, "a value of one state");
    check_snap(&s.value(vb), 1, n, "a value of one state");
    let mut r = h.read().unwrap();
    let vb = r.add(b"b").unwrap().unwrap();
    let va = r.add(b"a").unwrap().unwrap();
    let s = r.begin().unwrap();
    check_snap(&s.value(va), 2, 300, "a value of one later state");
    check_snap(&s.value(vb), 2, 400, "a value of one later state");
    reach("consistent");
}

extern "C" fn dies_reading() {
    // a process that ends without giving up its snapshots
    let h = open();
    let x = h.read_single(b"a").unwrap();
    std::mem::forget(x);
    std::mem::forget(h);
}
extern "C" fn dies_reading_both() {
    let h = open();
    let mut r = h.read().unwrap();
    let _ = r.add(b"a").unwrap();
    let _ = r.add(b"c").unwrap();
    std::mem::forget(r.begin().unwrap());
    std::mem::forget(h);
}

/// the snapshot directories and the files in them
fn snapshots(h: &Handle) -> (u64, u64) {
    let (mut dirs, mut files) = (0, 0);
    for e in h.walk_dir().unwrap() {
        match e.entry_type {
            walk::EntryType::SnapshotDir => dirs += 1,
            walk::EntryType::SnapshotValue => files += 1,
            _ => {}
        }
    }
    (dirs, files)
}

/// C13: cleaning up with live, abandoned and foreign things around.
#[no_mangle]
pub extern "C" fn h_cleanup() {
    let clones = flag("clones");
    if clones {
        cfg("ficlone", 1);
    }
    let h = open();
    let h2 = open();
    let (n0, n1) = (len2("n0"), len2("n1"));
    let mut m = Map::new();
    put(&h, b"a", 1, n0);
    put(&h2, b"c", 2, n1);
    m.put(b"a", 1, n0);
    m.put(b"c", 2, n1);
    // files of someone else
    std::fs::write("d/other", b"o").unwrap();
    std::fs::write("d/snapshot-file", b"o").unwrap();
    std::fs::create_dir("d/values-dir").unwrap();
    let foreign = flag("foreign");
    if foreign {
        std::fs::create_dir("d/snapshot-foreign").unwrap();
        std::fs::write("d/snapshot-foreign/other", b"o").unwrap();
    }
    // live and abandoned snapshots, in any order
    let mut live = vec![];
    let (mut dirs, mut files) = (0, 0);
    let first = choice("order", 2);
    for i in 0..2 {
        if i == first {
            match choice("live", 6) {
                0 => {}
                1 => {
                    live.push((1, n0, h.read_single(b"a").unwrap().unwrap()));
                    dirs += 1;
                    files += 1;
                }
                2 => {
                    live.push((1, n0, h2.read_single(b"a").unwrap().unwrap()));
                    live.push((2, n1, h2.read_single(b"c").unwrap().unwrap()));
                    dirs += 2;
                    files += 2;
                }
                3 => {
                    // both in one
                    let mut r = h.read().unwrap();
                    let (a, c) = (r.add(b"a").unwrap().unwrap(), r.add(b"c").unwrap().unwrap());
                    let s = r.begin().unwrap();
                    live.push((1, n0, s.value(a)));
                    live.push((2, n1, s.value(c)));
                    dirs += 1;
                    files += 2;
                }
                4 => {
                    // both in one, of which one is let go, and the handle has newer clones of both
                    let mut r = h.read().unwrap();
                    let (a, c) = (r.add(b"a").unwrap().unwrap(), r.add(b"c").unwrap().unwrap());
                    let s = r.begin().unwrap();
                    live.push((1, n0, s.value(a)));
                    drop(s);
                    put(&h, b"a", 5, n0);
                    put(&h2, b"c", 6, n1);
                    m.put(b"a", 5, n0);
                    m.put(b"c", 6, n1);
                    let mut r = h.read().unwrap();
                    let (a, c) = (r.add(b"a").unwrap().unwrap(), r.add(b"c").unwrap().unwrap());
                    let s = r.begin().unwrap();
                    check_snap(&s.value(a), 5, n0, "a newer clone");
                    check_snap(&s.value(c), 6, n1, "a newer clone");
                    dirs += 2;
                    files += 3;
                    reach("one of two");
                }
                _ => {
                    // by a handle that is gone, and another
                    let h3 = open();
                    live.push((2, n1, h3.read_single(b"c").unwrap().unwrap()));
                    drop(h3);
                    live.push((1, n0, h.read_single(b"a").unwrap().unwrap()));
                    dirs += 2;
                    files += 2;
                }
            }
        } else {
            let k = choice("abandoned", 5);
            match k {
                0 => {}
                1 => {
                    check(!child(dies_reading), "the process ends");
                }
                2 => {
                    check(!child(dies_reading), "the process ends");
                    check(!child(dies_reading_both), "the process ends");
                }
                3 => {
                    // a snapshot whose directory is never removed
                    let h3 = open();
                    h3.read_single(b"a").unwrap().unwrap().leak_snapshot_dir();
                    drop(h3);
                }
                _ => {
                    // died before there was a file in it
                    std::fs::create_dir("d/snapshot-empty").unwrap();
                }
            }
            if clones && k > 0 {
                reach("abandoned");
            }
        }
    }
    if !clones {
        dirs = 0;
        files = 0;
    }
    match choice("by", 3) {
        0 => h.cleanup_snapshots().unwrap(),
        1 => h2.cleanup_snapshots().unwrap(),
        _ => open().cleanup_snapshots().unwrap(),
    }
    let (d, f) = snapshots(&h);
    check(f == files, "exactly the files of live snapshots are kept");
    check(d == dirs + foreign as u64, "exactly the directories of live snapshots are kept");
    for (t, n, x) in &live {
        check_snap_read_at(x, *t, *n, "a live snapshot after a cleanup");
        check_snap(x, *t, *n, "a live snapshot after a cleanup");
    }
    for p in ["d/other", "d/snapshot-file"] {
        check(std::fs::metadata(p).is_ok_and(|m| m.len() == 1), "an unknown file is left alone");
    }
    check(std::fs::metadata("d/values-dir").is_ok(), "an unknown directory is left alone");
    if foreign {
        check(std::fs::metadata("d/snapshot-foreign/other").is_ok(), "an unknown file in a snapshot directory is left alone");
        reach("foreign");
    }
    check_map(&h, &m, &[b"a", b"b", b"c"], "after a cleanup");
    let k = live.len();
    drop(live);
    drop(h);
    drop(h2);
    let h = open();
    h.cleanup_snapshots().unwrap();
    check(snapshots(&h) == (foreign as u64, 0), "snapshots no longer live are cleaned up");
    check_map(&h, &m, &[b"a", b"b", b"c"], "after a later cleanup");
    reach(if k > 0 { "live" } else { "none live" });
}

/// C06, C01: snapshots of several values through two handles, with writes and deletions between them by either.
#[no_mangle]
pub extern "C" fn h_snapshots() {
    const SIX: [&[u8]; 6] = [b"a", b"b", b"c", b"d", b"e", b"f"];
    let mode = read_mode();
    observe("mode", mode);
    let h = open();
    let h2 = open();
    // (writes, reads, and a deletion of what was read last)
    let mut n = vec![val("n", 128, 9000)];
    put(&h, SIX[0], 1, n[0]);
    let mut gone = [false; 6];
    let mut last = 0;
    let mut held: Vec<(u64, u64, SnapshotValue<Value>)> = vec![];
    let steps = if deep() { 5 } else { 4 };
    for i in 0..steps {
        let k = n.len();
        let of = if flag("other") { &h2 } else { &h };
        let there = (0..k).filter(|j| !gone[*j]).fold(0, |m, j| m | 1u64 << j);
        match choice("op", if last != 0 { 3 } else if i + 1 < steps { 2 } else { 1 }) {
            1 if i + 1 < steps => {
                n.push(val("n", 128, 9000));
                put(of, SIX[k], 1 + k as u64, n[k]);
                reach("write");
            }
            2 => {
                // (the last of them, when the others stay)
                let j = (0..k).filter(|j| last & there & 1 << j != 0).last();
                assume(j.is_some());
                let j = j.unwrap();
                check(of.single_delete(SIX[j]).unwrap().is_some(), "a key is there");
                gone[j] = true;
                reach("delete");
            }
            _ => {
                // any of what there is, in one snapshot
                let mask = 1 + choice("mask", (1 << k) - 1);
                assume(mask & there == mask);
                let mut r = of.read().unwrap();
                let v: Vec<_> = (0..k).filter(|j| mask >> j & 1 == 1).map(|j| (j, r.add(SIX[j]).unwrap().unwrap())).collect();
                let s = r.begin().unwrap();
                for (j, v) in v {
                    held.push((1 + j as u64, n[j], s.value(v)));
                }
                last = mask;
                reach("read");
            }
        }
    }
    drain();
    for (t, n, x) in &held {
        check_snap(x, *t, *n, "a snapshot among others");
        if deep() {
            check_snap_read_at(x, *t, *n, "a snapshot among others");
        }
    }
    reach("checked");
}
