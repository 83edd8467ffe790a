//! C14: readers and writers on different handles, at once. C11, C13: the same for batches and cleanups.
use crate::st::*;
use crate::sym::*;
use possum::*;

const A: &[u8] = b"a";
const B: &[u8] = b"b";
const C: &[u8] = b"c";
const KEYS: [&[u8]; 4] = [A, B, C, b"d"];

/// Reads of keys a and b, which someone else replaces or deletes meanwhile.
fn reads(h: &Handle, how: u64, n: [u64; 4]) {
    let check_a = |x: &SnapshotValue<Value>| {
        // the old value or the new one
        if x.length() == n[0] {
            check_snap(x, 1, n[0], "a read during a write returns a whole value");
            check_snap_read_at(x, 1, n[0], "a read during a write returns a whole value");
        } else {
            check_snap(x, 10, n[2], "a read during a write returns a whole value");
            check_snap_read_at(x, 10, n[2], "a read during a write returns a whole value");
        }
    };
    match how {
        0 => {
            let r = h.read_single(A);
            check(r.is_ok(), "a read during a write fails");
            if let Ok(Some(x)) = &r {
                check_a(x);
            }
            reach("single");
        }
        1 => {
            // both, of one state
            let Ok(mut r) = h.read() else { return check(false, "a read during a write fails") };
            let (Ok(a), Ok(b)) = (r.add(A), r.add(B)) else { return check(false, "a read during a write fails") };
            let Ok(s) = r.begin() else { return check(false, "a read during a write fails") };
            if let Some(b) = b {
                check_snap(&s.value(b), 2, n[1], "a read during a write returns a whole value");
            }
            if let Some(a) = a {
                check_a(&s.value(a));
            }
            reach("both");
        }
        2 => {
            let r = h.list_items(b"");
            check(r.is_ok(), "a listing during a write fails");
            reach("list");
        }
        _ => {
            let r = h.read_single(B);
            check(r.is_ok(), "a read during a write fails");
            if let Ok(Some(x)) = &r {
                check_snap(x, 2, n[1], "a read during a write returns a whole value");
            }
            reach("other");
        }
    }
}

/// What the writer does; the map afterwards.
fn writes(h: Handle, what: u64, n: [u64; 4]) {
    match what {
        0 => {
            check(try_put(&h, A, 10, n[2]).is_ok(), "a write during a read fails");
        }
        1 => {
            check(h.single_delete(A).is_ok(), "a delete during a read fails");
        }
        2 => {
            check(h.delete_prefix(b"").is_ok(), "a delete during a read fails");
        }
        3 => {
            check(h.cleanup_snapshots().is_ok(), "a cleanup during a read fails");
        }
        4 => {
            check(try_put(&h, C, 12, n[2]).is_ok(), "a write during a read fails");
            check(h.single_delete(B).is_ok(), "a delete during a read fails");
        }
        _ => {
            check(h.move_prefix(A, C).is_ok(), "a move during a read fails");
        }
    }
    if what != 1 {
        drop(h);
    } else {
        std::mem::forget(h);
    }
}
fn effect(m: &mut Map, what: u64, n: [u64; 4]) {
    match what {
        0 => m.put(A, 10, n[2]),
        1 => {
            m.del(A);
        }
        2 => m.0.clear(),
        3 => {}
        4 => {
            m.put(C, 12, n[2]);
            m.del(B);
        }
        _ => {
            if let Some(x) = m.del(A) {
                m.put(C, x.tag, x.len);
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_race() {
    let mode = read_mode();
    race(mode, 6);
}
/// C13: a cleanup during a read.
#[no_mangle]
pub extern "C" fn h_race_cleanup() {
    cfg("ficlone", 1);
    race(1, 0);
}
fn race(mode: u64, kinds: u64) {
    let n = [val("n", 128, 4200), val("n", 128, 4200), val("n", 4300, 8200), 0];
    let mut m = Map::new();
    let h = open();
    put(&h, A, 1, n[0]);
    put(&h, B, 2, n[1]);
    m.put(A, 1, n[0]);
    m.put(B, 2, n[1]);
    let h2 = open();
    let how = choice("how", 4);
    let what = if kinds == 0 { 3 } else { choice("what", kinds) };
    if kinds == 0 && flag("read before") {
        // a directory to clone into, and an abandoned snapshot
        put(&h, B, 2, n[1]);
        let old = h2.read_single(B).unwrap();
        drop(old);
        put(&h, B, 2, n[1]);
        put(&h, A, 1, n[0]);
    }
    let swap = flag("swap");
    cfg("preempt", if deep() { 2 } else { 1 });
    std::thread::scope(|s| {
        if swap {
            s.spawn(|| writes(h, what, n));
            reads(&h2, how, n);
        } else {
            s.spawn(|| reads(&h2, how, n));
            writes(h, what, n);
        }
    });
    cfg("preempt", 0);
    effect(&mut m, what, n);
    check_map(&h2, &m, &KEYS, "after a read and a write at once");
    drain();
    check_map(&h2, &m, &KEYS, "after a read and a write at once, and reclamation");
    let h = open();
    check_map(&h, &m, &KEYS, "after a read and a write at once, opened again");
    observe("mode", mode);
}

/// C14: reclamation of what one handle deletes, with another handle at work.
#[no_mangle]
pub extern "C" fn h_race_reclaim() {
    let mode = read_mode();
    let n = [val("n", 128, 4200), val("n", 4200, 8200), val("n", 128, 4300)];
    let mut m = Map::new();
    let h = open();
    let last = flag("last");
    if last {
        // the deleted value is the last of its file
        put(&h, B, 2, n[0]);
        m.put(B, 2, n[0]);
    }
    put(&h, A, 1, n[1]);
    if !last {
        put(&h, B, 2, n[0]);
        m.put(B, 2, n[0]);
    }
    let h2 = open();
    let what = choice("what", 4);
    let swap = flag("swap");
    cfg("preempt", if deep() { 2 } else { 1 });
    let del = |h2: &Handle| {
        check(h2.single_delete(A).is_ok(), "a delete during other use fails");
        // until the value is reclaimed, or can't be
        drain();
    };
    let act = |h: Handle| match what {
        0 => {
            check(try_put(&h, C, 12, n[2]).is_ok(), "a write during reclamation fails");
            drop(h);
            reach("written");
        }
        1 => {
            drop(h);
            reach("dropped");
        }
        2 => {
            let r = h.read_single(B);
            check(r.is_ok(), "a read during reclamation fails");
            if let Ok(r) = &r {
                check(r.is_some(), "a read during reclamation misses a value");
                if let Some(x) = r {
                    check_snap(x, 2, n[0], "a read during reclamation returns another value");
                }
            }
            drop(h);
            reach("read");
        }
        _ => {
            let r = h.read_single(A);
            check(r.is_ok(), "a read during reclamation fails");
            drop(h);
            if let Ok(Some(x)) = &r {
                check_snap(x, 1, n[1], "a read during reclamation returns another value");
                check_snap_read_at(x, 1, n[1], "a read during reclamation returns another value");
                reach("read before");
            }
        }
    };
    std::thread::scope(|s| {
        if swap {
            s.spawn(|| act(h));
            del(&h2);
        } else {
            s.spawn(|| del(&h2));
            act(h);
        }
    });
    cfg("preempt", 0);
    if what == 0 {
        m.put(C, 12, n[2]);
    }
    drain();
    check_map(&h2, &m, &KEYS, "after reclamation with another handle at work");
    drop(h2);
    let h = open();
    check_map(&h, &m, &KEYS, "after reclamation with another handle at work, opened again");
    observe("mode", mode);
}

/// C13: a cleanup while another handle, with snapshots, is dropped.
#[no_mangle]
pub extern "C" fn h_cleanup_drop() {
    cfg("ficlone", 1);
    let n = [val("n", 128, 4200), val("n", 128, 4200)];
    let mut m = Map::new();
    let h = open();
    put(&h, A, 1, n[0]);
    m.put(A, 1, n[0]);
    let h2 = open();
    let held = h2.read_single(A).unwrap();
    if flag("two") {
        put(&h, B, 2, n[1]);
        m.put(B, 2, n[1]);
        let _ = h2.read_single(B).unwrap();
    }
    let keep = flag("keep");
    let swap = flag("swap");
    let opening = flag("opening");
    cfg("preempt", if deep() { 2 } else { 1 });
    let held = std::thread::scope(|s| {
        let cleanup = || {
            if opening {
                // (a directory is walked as well)
                check(h.walk_dir().is_ok(), "a walk while another handle is dropped");
            } else {
                check(h.cleanup_snapshots().is_ok(), "a cleanup while another handle is dropped");
            }
        };
        let drops = move || {
            drop(h2);
            if keep {
                held
            } else {
                drop(held);
                None
            }
        };
        if swap {
            let t = s.spawn(cleanup);
            let r = drops();
            t.join().unwrap();
            r
        } else {
            let t = s.spawn(drops);
            cleanup();
            t.join().unwrap()
        }
    });
    cfg("preempt", 0);
    if let Some(x) = held {
        check_snap(&x, 1, n[0], "a snapshot after a cleanup");
        reach("kept");
    } else {
        check(h.cleanup_snapshots().is_ok(), "a cleanup");
        let left = h.walk_dir().unwrap().iter().filter(|e| matches!(e.entry_type, walk::EntryType::SnapshotDir | walk::EntryType::SnapshotValue)).count();
        check(left == 0, "a cleanup removes the snapshots nobody uses");
        reach("dropped");
    }
    check_map(&h, &m, &KEYS, "after a cleanup while another handle is dropped");
}
