//! C02, C03: batches and histories.
use crate::st::*;
use crate::sym::*;
use possum::*;

const A: &[u8] = b"a";
const AB: &[u8] = b"ab";
const B: &[u8] = b"b";
const KEYS: [&[u8]; 3] = [A, AB, B];

/// C02: a batch of two writes over any keys, committed or dropped, watched from another handle.
#[no_mangle]
pub extern "C" fn h_batch() {
    let h = open();
    let mut m = Map::new();
    // a value of any length, and an optional second one
    let n0 = len2("n0");
    put(&h, A, 1, n0);
    m.put(A, 1, n0);
    if flag("two") {
        let n1 = len2("n1");
        put(&h, B, 2, n1);
        m.put(B, 2, n1);
    }
    let h2 = open();
    let before = m.clone();
    let mut w = h.new_writer().unwrap();
    let k = if deep() { 3 } else { 2 };
    for i in 0..k {
        let key = KEYS[choice("key", 3) as usize];
        let n = if flag("empty") { 0 } else { len2("len") };
        stage(&mut w, key, 10 + i, n);
        m.put(key, 10 + i, n);
        if i == 0 {
            // a value begun and written, not staged
            if flag("unstaged") {
                let mut v = w.new_value().begin().unwrap();
                write_all(&mut v, &content(20), 5000);
                drop(v);
            }
        }
    }
    check_map(&h2, &before, &KEYS, "an open batch shows to another handle");
    check_map(&h, &before, &KEYS, "an open batch shows to its own handle");
    if flag("commit") {
        let r = w.commit().unwrap();
        check(r.count() == k as usize, "the commit counts its writes");
        check_map(&h, &m, &KEYS, "a committed batch is there as a whole");
        check_map(&h2, &m, &KEYS, "a committed batch shows to another handle as a whole");
        reach("committed");
    } else {
        drop(w);
        check_map(&h, &before, &KEYS, "a dropped batch changes nothing");
        drain();
        check_map(&h2, &before, &KEYS, "a dropped batch changes nothing");
        // and nothing of it comes with the next one
        put(&h, AB, 30, 300);
        let mut m = before;
        m.put(AB, 30, 300);
        check_map(&h, &m, &KEYS, "a batch after a dropped one");
        reach("dropped");
    }
    check_disjoint(&h);
}

/// C03: any history of operations against a map.
#[no_mangle]
pub extern "C" fn h_history() {
    let h = open();
    let mut m = Map::new();
    let n0 = len2("n0");
    put(&h, A, 1, n0);
    m.put(A, 1, n0);
    let steps = if deep() { 4 } else { 3 };
    for i in 0..steps {
        let tag = 10 + i;
        match choice("op", 4) {
            0 => {
                let key = KEYS[choice("key", 3) as usize];
                let n = if i == 1 { 0 } else { len2("len") };
                let r = h.single_write_from(key.to_vec(), &content(tag)[..n as usize]).unwrap();
                check(r.0 == n, "single_write_from reports the length");
                check(r.1.count() == 1, "single_write_from commits one write");
                m.put(key, tag, n);
                reach("put");
            }
            1 => {
                let key = KEYS[choice("key", 3) as usize];
                let r = h.single_delete(key).unwrap();
                match (r, m.del(key)) {
                    (None, None) => reach("delete absent"),
                    (Some(s), Some(e)) => {
                        check(s.size == e.len, "a delete reports the size");
                        reach("delete");
                    }
                    _ => check(false, "a delete tells presence from absence"),
                }
            }
            2 => {
                let p: &[u8] = [b"" as &[u8], A, AB][choice("prefix", 3) as usize];
                h.delete_prefix(p).unwrap();
                m.0.retain(|e| !e.key.starts_with(p));
                reach("delete prefix");
            }
            _ => {
                let key = KEYS[choice("key", 3) as usize];
                check_key(&h, &m, key, "a read in the middle of a history");
                reach("read");
            }
        }
    }
    check_map(&h, &m, &KEYS, "after a history the store equals the map");
    drain();
    check_map(&h, &m, &KEYS, "after reclamation the store equals the map");
    check_disjoint(&h);
}
