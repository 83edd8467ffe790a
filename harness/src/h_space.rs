//! C04, C05: reclamation of space.
use crate::st::*;
use crate::sym::*;
use possum::*;

const KEYS: [&[u8]; 4] = [b"a", b"b", b"c", b"d"];
const BS: u64 = 4096;

/// where the values of a store were put: path of the file, offset
fn place(h: &Handle, key: &[u8]) -> (String, u64) {
    let items = h.list_items(key).unwrap();
    let v = items[0].value.location.into_non_zero().unwrap();
    (format!("d/{}", v.file_id), v.file_offset)
}

struct Laid {
    path: String,
    n: usize,
    off: [u64; 4],
    len: [u64; 4],
    live: [bool; 4],
}

/// k values of any length in one file
fn lay(h: &Handle, m: &mut Map, k: usize) -> Laid {
    let mut l = Laid { path: String::new(), n: k, off: [0; 4], len: [0; 4], live: [false; 4] };
    let mut o = 0;
    for i in 0..k {
        let n = len2("n");
        put(h, KEYS[i], 1 + i as u64, n);
        m.put(KEYS[i], 1 + i as u64, n);
        let (p, off) = place(h, KEYS[i]);
        if i > 0 {
            check(p == l.path, "successive values of a handle share a file");
        }
        check(off == o, "values follow each other");
        l.path = p;
        l.off[i] = o;
        l.len[i] = n;
        l.live[i] = true;
        o += n;
    }
    l
}

/// Deletes some of the values, in either order, with or without waiting between them.
fn delete_some(h: &Handle, m: &mut Map, l: &mut Laid, replace: bool) {
    let mask = 1 + choice("mask", (1 << l.n) - 1);
    let rev = flag("backwards");
    let wait = flag("wait");
    for j in 0..l.n {
        let i = if rev { l.n - 1 - j } else { j };
        if mask >> i & 1 == 0 {
            continue;
        }
        if replace && flag("replace") {
            // (an empty value takes no room in the file)
            put(h, KEYS[i], 9, 0);
            m.put(KEYS[i], 9, 0);
        } else {
            let s = h.single_delete(KEYS[i]).unwrap().unwrap();
            check(s.size == l.len[i], "a delete reports the size");
            m.del(KEYS[i]);
        }
        l.live[i] = false;
        if wait {
            drain();
        }
    }
    drain();
}

/// every block between two live values that holds no live byte is a hole
fn check_blocks(l: &Laid) {
    let mut end = 0;
    for i in 0..l.n {
        if l.live[i] {
            end = l.off[i];
        }
    }
    // (end: where the last live value starts)
    let b = val("block", 0, 12);
    assume(b * BS + BS <= end);
    let mut dead = true;
    for i in 0..l.n {
        if l.live[i] {
            dead = dead & ((b * BS + BS <= l.off[i]) | (l.off[i] + l.len[i] <= b * BS));
        }
    }
    assume(dead);
    reach("a dead block before a live value");
    check(!block(&l.path, b), "a block of deleted data is still allocated");
}

/// C04, C05: the handle that wrote the values deletes some of them.
#[no_mangle]
pub extern "C" fn h_punch() {
    let h = open();
    let mut m = Map::new();
    let mut l = lay(&h, &mut m, 3);
    delete_some(&h, &mut m, &mut l, false);
    if flag("blocks") {
        check_blocks(&l);
    } else {
        // what is written afterwards is not disturbed either
        put(&h, KEYS[3], 7, 500);
        m.put(KEYS[3], 7, 500);
        drain();
        check_map(&h, &m, &KEYS, "after reclamation");
        reach("contents");
    }
}

/// C04, C05: a file nobody writes to: its end is cut off, or it is removed.
#[no_mangle]
pub extern "C" fn h_punch_closed() {
    let mut m = Map::new();
    let mut l;
    {
        let h = open();
        l = lay(&h, &mut m, 3);
        drop(h);
        drain();
    }
    let h = open();
    delete_some(&h, &mut m, &mut l, true);
    let mut last = 0;
    let mut any = false;
    for i in 0..l.n {
        if l.live[i] {
            last = l.off[i] + l.len[i];
            any = true;
        }
    }
    match std::fs::metadata(&l.path) {
        Err(_) => {
            check(!any, "a file with live values is removed");
            reach("removed");
        }
        Ok(md) => {
            check(any, "a file without live values stays");
            check(md.len() >= last, "the file is cut before its last live value");
            // (only a deletion at the end can cut it)
            if !l.live[l.n - 1] {
                check(md.len() == (last + BS - 1) / BS * BS, "the file is not cut after its last live value");
                reach("cut");
            }
            if flag("blocks") {
                check_blocks(&l);
            }
        }
    }
    check_map(&h, &m, &KEYS, "after reclamation");
}

/// C05: with reclamation disabled nothing is deallocated.
#[no_mangle]
pub extern "C" fn h_punch_disabled() {
    let mut h = open();
    limits(&mut h, None, true);
    let mut m = Map::new();
    let mut l = lay(&h, &mut m, 2);
    delete_some(&h, &mut m, &mut l, true);
    let b = val("block", 0, 12);
    assume(b * BS < l.off[1] + l.len[1]);
    check(block(&l.path, b), "a block is deallocated though reclamation is disabled");
    check(std::fs::metadata(&l.path).unwrap().len() == l.off[1] + l.len[1], "the file is cut though reclamation is disabled");
    check_map(&h, &m, &KEYS, "after deletions");
    reach("disabled");
}

/// C05: a handle that is dropped finishes its reclamation, after whatever holds it up, and then lets go.
#[no_mangle]
pub extern "C" fn h_punch_drop() {
    // (with flock, successive values are in files of their own)
    if flag("clone") {
        cfg("ficlone", 1);
    }
    let mut m = Map::new();
    let h = open();
    let done = h.get_value_puncher_done();
    let mut l = lay(&h, &mut m, 3);
    // another handle may be reading one of the values
    let h2 = open();
    let held = choice("held", 4) as usize;
    let snap = if held < 3 { h2.read_single(KEYS[held]).unwrap() } else { None };
    let mask = 1 + choice("mask", 7);
    for i in 0..3 {
        if mask >> i & 1 == 1 {
            let s = h.single_delete(KEYS[i]).unwrap().unwrap();
            check(s.size == l.len[i], "a delete reports the size");
            m.del(KEYS[i]);
            l.live[i] = false;
        }
    }
    drop(h);
    if flag("meanwhile") {
        advance_ms(1500);
        drain();
    }
    if let Some(s) = snap {
        check_snap(&s, 1 + held as u64, l.len[held], "a value read while it is deleted");
        drop(s);
    }
    done.wait();
    reach("done");
    if flag("blocks") {
        check_blocks(&l);
    } else {
        check_map(&h2, &m, &KEYS, "after the handle is gone");
        // nothing is left of its locks
        let mut w = h2.new_writer().unwrap();
        stage(&mut w, KEYS[3], 7, 300);
        w.commit().unwrap();
        m.put(KEYS[3], 7, 300);
        check_map(&h2, &m, &KEYS, "after the handle is gone");
        reach("contents");
    }
}
