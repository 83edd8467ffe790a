//! C17: a system call fails. C02: a commit fails.
use crate::h_crash::{act, looks_like, OPS};
use crate::st::*;
use crate::sym::*;
use possum::*;
use positioned_io::ReadAt;
use std::io::{Read, Write};

const KEYS: [&[u8]; 5] = [b"a", b"b", b"c", b"d", b"e"];
const ALL: [&[u8]; 6] = [b"a", b"b", b"c", b"d", b"e", b"ea"];
const SHORT: u64 = 1000;

fn arm(kind: u64) {
    // any call fails; a write is cut short; no space
    cfg("faultmut", [2, 1, 1][kind as usize]);
    cfg("faulterr", [5, SHORT, 28][kind as usize]);
    cfg("fault", 1);
}
fn disarm() {
    cfg("fault", 0);
    cfg("faulterr", 0);
}

/// One system call of one operation fails, or is cut short.
#[no_mangle]
pub extern "C" fn h_fault() {
    let mode = read_mode();
    let mut len = [0; 3];
    for i in 0..3 {
        len[i] = val("n", 400 + 4000 * i as u64, 4300 + 4000 * i as u64);
    }
    let mut h = open();
    let mut m = Map::new();
    for i in 0..2 {
        put(&h, KEYS[i], 1 + i as u64, len[i]);
        m.put(KEYS[i], 1 + i as u64, len[i]);
    }
    if flag("reopened") {
        drop(h);
        drain();
        h = open();
    }
    let op = choice("op", OPS);
    let before = m.clone();
    act(None, &mut m, op, 0, len[2]).unwrap();
    let after = m;
    let kind = choice("kind", if mode == 0 { 3 } else { 2 });
    arm(kind);
    let r = act(Some(&mut h), &mut Map::new(), op, 0, len[2]);
    if flag("drain") {
        drain();
    }
    disarm();
    let now = if r.is_err() && looks_like(&h, &before) {
        reach("failed");
        before
    } else {
        check(looks_like(&h, &after), "after an operation the store is in the state before or after it");
        reach("done");
        after
    };
    try_limits(&mut h, None, false).unwrap();
    check_map(&h, &now, &ALL, "after a failure");
    let mut now = now;
    let n = len2("more");
    put(&h, KEYS[4], 30, n);
    now.put(KEYS[4], 30, n);
    if now.get(KEYS[1]).is_some() {
        h.single_delete(KEYS[1]).unwrap();
        now.del(KEYS[1]);
    }
    check_map(&h, &now, &ALL, "written after a failure");
    drain();
    check_map(&h, &now, &ALL, "written after a failure, after reclamation");
    check_disjoint(&h);
    let h = open();
    check_map(&h, &now, &ALL, "opened after a failure");
    observe("mode", mode);
}

/// A source that fails, and during which someone reads.
struct Watched<'a>(Pieces, Option<(&'a Handle, &'a Map)>);
impl std::io::Read for Watched<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let r = self.0.read(b);
        if let (Err(_), Some((h, m))) = (&r, self.1) {
            check_key(h, m, b"a", "a value read while another is written");
            reach("read in the middle");
        }
        r
    }
}

/// A source fails after any number of bytes; the value or the batch goes on being used.
#[no_mangle]
pub extern "C" fn h_copy_fails() {
    let mode = read_mode();
    let h = open();
    let mut m = Map::new();
    let n0 = len2("n0");
    put(&h, b"a", 1, n0);
    m.put(b"a", 1, n0);
    let (k0, k1) = (val("before", 0, 5000), val("failing", 1, 8000));
    let h2 = open();
    let reader = choice("read meanwhile", 3);
    let m0 = m.clone();
    let src = |fail| Watched(Pieces { data: content(3), cuts: vec![0, k1], at: 0, fail }, [None, Some((&h, &m0)), Some((&h2, &m0))][reader as usize]);
    let how = choice("how", 4);
    if how == 0 {
        check(h.single_write_from(b"b".to_vec(), src(true)).is_err(), "a failing source is reported");
        reach("single");
    } else {
        let mut w = h.new_writer().unwrap();
        let mut v = w.new_value().begin().unwrap();
        let c = content(2);
        check(v.write(&c[..k0 as usize]).unwrap() as u64 == k0, "a write is short");
        check(v.copy_from(src(true)).is_err(), "a failing source is reported");
        match how {
            1 => {
                // the value is given up
                drop(v);
                reach("dropped");
            }
            2 => {
                // the value goes on
                let k2 = val("further", 0, 9000);
                check(v.write(&c[k0 as usize..(k0 + k2) as usize]).unwrap() as u64 == k2, "a write is short");
                check(v.value_length().unwrap() == k0 + k2, "the length of a value after a failed copy");
                w.stage_write(b"b".to_vec(), v).unwrap();
                m.put(b"b", 2, k0 + k2);
                reach("continued");
            }
            _ => {
                w.stage_write(b"b".to_vec(), v).unwrap();
                m.put(b"b", 2, k0);
                reach("as it was");
            }
        }
        let n = len2("n");
        stage(&mut w, b"c", 4, n);
        m.put(b"c", 4, n);
        w.commit().unwrap();
    }
    check_map(&h, &m, &KEYS, "after a failed copy");
    check_map(&h2, &m, &KEYS, "after a failed copy, by another handle");
    let n = len2("more");
    put(&h, b"d", 5, n);
    m.put(b"d", 5, n);
    drain();
    check_map(&h, &m, &KEYS, "written after a failed copy");
    check_disjoint(&h);
    observe("mode", mode);
}

/// A read during which one system call fails: an error, or the bytes that are there. And so is the next.
#[no_mangle]
pub extern "C" fn h_read_fails() {
    let mode = read_mode();
    let h = open();
    let mut m = Map::new();
    let (n0, n) = (len2("n0"), len2("n"));
    put(&h, b"a", 1, n0);
    put(&h, b"b", 2, n);
    m.put(b"a", 1, n0);
    m.put(b"b", 2, n);
    let (pos, want) = (val("pos", 0, 11000), val("want", 1, 11000));
    let left = if pos < n { n - pos } else { 0 };
    let at_pos = if want < left { want } else { left };
    let at_start = if want < n { want } else { n };
    let how = choice("how", 4);
    let early = flag("early");
    cfg("faultmut", 2);
    cfg("faulterr", 5);
    if early {
        cfg("fault", 1);
    }
    if let Ok(x) = h.read_single(b"b") {
        check(x.is_some(), "a key is absent where a call fails");
        let x = x.unwrap();
        cfg("fault", 1);
        let mut b = buffer(11000);
        for _ in 0..2 {
            let buf = &mut b[..want as usize];
            let (r, exp, from) = match how {
                0 => (ok(x.read_at(pos, buf)), at_pos, pos),
                1 => (ok(x.read(buf)), at_start, 0),
                2 => (ok(x.new_reader().read(buf)), at_start, 0),
                _ => {
                    let r = x.view(|s| {
                        check(s.len() as u64 == n, "a view where a call fails");
                        check_pat(s, 2, 0, "a view where a call fails");
                    });
                    match r {
                        Ok(()) => reach("viewed"),
                        Err(_) => reach("no view"),
                    }
                    (Err(()), 0, 0)
                }
            };
            if let Ok(k) = r {
                check(k as u64 == exp, "a read where a call fails is an error or complete");
                check_pat(&b[..k], 2, from, "a read where a call fails");
                reach("read");
            } else if how < 3 {
                reach("failed");
            }
            cfg("fault", 0);
        }
    } else {
        reach("no snapshot");
    }
    disarm();
    check_map(&h, &m, &ALL, "read after a failed read");
    // what the failed read locked does not stay so
    h.single_delete(b"b").unwrap();
    m.del(b"b");
    drain();
    check_map(&h, &m, &ALL, "reclaimed after a failed read");
    observe("mode", mode);
}

/// C02: the commit of a batch fails: nothing of it is visible. It succeeds: all of it is.
#[no_mangle]
pub extern "C" fn h_commit_fails() {
    let h = open();
    let h2 = open();
    let mut m = Map::new();
    let n0 = len2("n0");
    put(&h, b"a", 1, n0);
    m.put(b"a", 1, n0);
    put(&h, b"b", 2, 0);
    m.put(b"b", 2, 0);
    let before = m.clone();
    let mut w = h.new_writer().unwrap();
    let k = choice("writes", if deep() { 3 } else { 2 }) + 1;
    for i in 0..k {
        let key = KEYS[choice("key", 3) as usize];
        let n = if i == 2 { 0 } else { len2("len") };
        stage(&mut w, key, 10 + i, n);
        m.put(key, 10 + i, n);
    }
    if flag("renames") {
        let v = h.read_single(b"a").unwrap().unwrap();
        w.rename_value(*v, b"d".to_vec());
        if let Some(e) = m.get(b"a") {
            if e.tag == 1 {
                m.del(b"a");
                m.put(b"d", e.tag, e.len);
            }
        }
    }
    let kind = choice("kind", 3);
    arm(kind);
    let r = w.commit();
    disarm();
    let now = if r.is_err() {
        reach("failed");
        before
    } else {
        reach("succeeded");
        m
    };
    check_map(&h2, &now, &KEYS, "a failed commit changes nothing, a successful one is complete, to another handle");
    check_map(&h, &now, &KEYS, "a failed commit changes nothing, a successful one is complete");
    drain();
    let mut now = now;
    let n = len2("more");
    put(&h, b"e", 30, n);
    now.put(b"e", 30, n);
    check_map(&h2, &now, &KEYS, "after a failed commit");
    check_disjoint(&h);
}
