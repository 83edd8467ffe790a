//! C01: what was written is what is read.
use crate::st::*;
use crate::sym::*;
use possum::*;
use positioned_io::ReadAt;
use std::io::{Read, Seek, Write};

fn verify(x: &SnapshotValue<Value>, tag: u64, n: u64, mode: u64) {
    check(x.length() == n, "reported length");
    observe("length", x.length());
    match mode {
        // positional read at any place, of any length
        0 => {
            let pos = val("pos", 0, 70000);
            let m = val("m", 0, 70000);
            let mut b = buffer(70000);
            let k = x.read_at(pos, &mut b[..m as usize]).unwrap() as u64;
            let left = if pos < n { n - pos } else { 0 };
            let want = if m < left { m } else { left };
            observe("read_at", k);
            check(k == want, "read_at returns the bytes available");
            check_pat(&b[..k as usize], tag, pos, "read_at content");
            reach("read_at");
        }
        1 => {
            let ok = x
                .view(|s| {
                    observe("view", s.len() as u64);
                    check(s.len() as u64 == n, "view length");
                    check_pat(s, tag, 0, "view content");
                })
                .is_ok();
            check(ok, "view works");
            reach("view");
        }
        2 => {
            let m = val("m", 0, 70000);
            let mut b = buffer(70000);
            let k = x.read(&mut b[..m as usize]).unwrap() as u64;
            observe("read", k);
            check(k == if m < n { m } else { n }, "read returns the bytes available");
            check_pat(&b[..k as usize], tag, 0, "read content");
            reach("read");
        }
        _ => {
            let mut r = x.new_reader();
            let m = val("m", 1, 70000);
            let mut b = buffer(70000);
            let k = r.read(&mut b[..m as usize]).unwrap() as u64;
            let want = if m < n { m } else { n };
            check(k == want, "the reader returns the bytes available");
            check_pat(&b[..k as usize], tag, 0, "reader content");
            let k2 = r.read(&mut b[..m as usize]).unwrap() as u64;
            let left = n - k;
            observe("reader", k2);
            check(k2 == if m < left { m } else { left }, "the reader continues");
            check_pat(&b[..k2 as usize], tag, k, "reader content after the first read");
            reach("reader");
        }
    }
}

#[no_mangle]
pub extern "C" fn h_read_single() {
    let h = open();
    let n1 = val("n1", 0, 40000);
    let n2 = val("n2", 0, 40000);
    put(&h, b"a", 1, n1);
    put(&h, b"b", 2, n2);
    let mode = choice("how", 4);
    let x = h.read_single(b"b").unwrap().unwrap();
    verify(&x, 2, n2, mode);
}

/// The same where files are cloned or locked with flock.
#[no_mangle]
pub extern "C" fn h_read_modes() {
    match choice("mode", 2) {
        0 => cfg("ficlone", 1),
        _ => cfg("freebsd", 1),
    }
    let h = open();
    let n1 = len2("n1");
    let n2 = val("n2", 0, 40000);
    put(&h, b"a", 1, n1);
    put(&h, b"b", 2, n2);
    let how = choice("how", 4);
    // a clone taken before is reused, or refreshed when more was written
    if flag("before") {
        check_snap(&h.read_single(b"a").unwrap().unwrap(), 1, n1, "an earlier read");
        if flag("more") {
            let n3 = len2("n3");
            put(&h, b"c", 3, n3);
            check_snap(&h.read_single(b"c").unwrap().unwrap(), 3, n3, "a read of what came after a clone");
        }
    }
    let x = h.read_single(b"b").unwrap().unwrap();
    verify(&x, 2, n2, how);
}

/// Several keys in one read transaction, from one file and from two.
#[no_mangle]
pub extern "C" fn h_read_tx() {
    let mode = read_mode();
    let h = open();
    let h2 = open();
    let n1 = len2("n1");
    let n2 = val("n2", 0, 10000);
    let n3 = len2("n3");
    put(&h, b"a", 1, n1);
    put(&h, b"b", 2, n2);
    put(&h2, b"c", 3, n3);
    let mut r = h.read().unwrap();
    let (mut va, mut vb, mut vc) = (None, None, None);
    check(r.add(b"d").unwrap().is_none(), "an absent key reads as absent");
    let order = choice("order", 3);
    for i in 0..3 {
        match (i + order) % 3 {
            0 => va = r.add(b"a").unwrap(),
            1 => vb = r.add(b"b").unwrap(),
            _ => vc = r.add(b"c").unwrap(),
        }
    }
    if flag("again") {
        let x = r.add(b"a").unwrap().unwrap();
        check(x.length() == n1, "a key read twice in a transaction");
    }
    let listed = r.list_items(b"").unwrap();
    check(listed.len() == 3, "a read transaction lists the items");
    let s = r.begin().unwrap();
    let (xa, xb, xc) = (s.value(va.unwrap()), s.value(vb.unwrap()), s.value(vc.unwrap()));
    match choice("how", 3) {
        0 => {
            check_snap(&xa, 1, n1, "a value of a transaction");
            check_snap(&xb, 2, n2, "a value of a transaction");
            check_snap(&xc, 3, n3, "a value of a transaction");
            reach("views");
        }
        1 => {
            check_snap_read_at(&xc, 3, n3, "a value of a transaction");
            check_snap_read_at(&xb, 2, n2, "a value of a transaction");
            check_snap_read_at(&xa, 1, n1, "a value of a transaction");
            reach("reads");
        }
        _ => {
            // interleaved sequential readers over one file
            drop(s);
            let (mut ra, mut rb) = (xa.new_reader(), xb.new_reader());
            let m = val("m", 1, 10000);
            let mut b = buffer(10000);
            let k = ra.read(&mut b[..m as usize]).unwrap() as u64;
            check(k == if m < n1 { m } else { n1 }, "the first of two readers");
            check_pat(&b[..k as usize], 1, 0, "the first of two readers");
            let j = rb.read(&mut b[..m as usize]).unwrap() as u64;
            check(j == if m < n2 { m } else { n2 }, "the second of two readers");
            check_pat(&b[..j as usize], 2, 0, "the second of two readers");
            let k2 = ra.read(&mut b).unwrap() as u64;
            check(k + k2 == n1, "the first reader goes on");
            check_pat(&b[..k2 as usize], 1, k, "the first reader goes on");
            reach("readers");
        }
    }
    observe("mode", mode);
}

/// Values written in pieces, copied from a reader, or from a file.
#[no_mangle]
pub extern "C" fn h_write_ways() {
    let mode = read_mode();
    let mut h = open();
    let n0 = len2("n0");
    put(&h, b"a", 1, n0);
    let n;
    match choice("way", 4) {
        0 => {
            // two writes, and a length asked in between
            let (n1, n2) = (val("n1", 0, 9000), val("n2", 0, 9000));
            let mut w = h.new_writer().unwrap();
            let mut v = w.new_value().begin().unwrap();
            let c = content(2);
            check(v.value_length().unwrap() == 0, "a value starts empty");
            check(v.write(&c[..n1 as usize]).unwrap() as u64 == n1, "a write is short");
            check(v.value_length().unwrap() == n1, "the length of a value being written");
            check(v.write(&c[n1 as usize..(n1 + n2) as usize]).unwrap() as u64 == n2, "a write is short");
            n = n1 + n2;
            w.stage_write(b"b".to_vec(), v).unwrap();
            check(w.commit().unwrap().count() == 1, "one write");
            reach("pieces");
        }
        1 => {
            let (n1, n2) = (val("n1", 1, 8000), val("n2", 1, 8000));
            n = n1 + n2;
            let (k, r) = h.single_write_from(b"b".to_vec(), Pieces { data: content(2), cuts: vec![0, n1, n1 + n2], at: 0, fail: false }).unwrap();
            check(k == n, "single_write_from reports the length");
            check(r.count() == 1, "one write");
            reach("copied");
        }
        2 => {
            // a source file of its own, its position anywhere
            n = len2("n");
            std::fs::write("src", &content(2)[..n as usize]).unwrap();
            let mut f = std::fs::File::open("src").unwrap();
            let p = val("p", 0, 10000);
            f.seek(std::io::SeekFrom::Start(p)).unwrap();
            let k = h.clone_from_file(b"b".to_vec(), &mut f).unwrap();
            check(k == n, "clone_from_file reports the length");
            reach("from a file");
        }
        _ => {
            // two values at once in one batch, staged in either order
            let (n1, n2) = (len2("n1"), len2("n2"));
            let mut w = h.new_writer().unwrap();
            let mut v = w.new_value().begin().unwrap();
            let mut u = w.new_value().begin().unwrap();
            write_all(&mut v, &content(2), n1);
            write_all(&mut u, &content(3), n2);
            if flag("order") {
                w.stage_write(b"b".to_vec(), v).unwrap();
                w.stage_write(b"c".to_vec(), u).unwrap();
            } else {
                w.stage_write(b"c".to_vec(), u).unwrap();
                w.stage_write(b"b".to_vec(), v).unwrap();
            }
            check(w.commit().unwrap().count() == 2, "two writes");
            check_snap(&h.read_single(b"c").unwrap().unwrap(), 3, n2, "the other value of a batch");
            n = n1;
            reach("two values");
        }
    }
    check_snap_read_at(&h.read_single(b"b").unwrap().unwrap(), 2, n, "what was written");
    check_snap(&h.read_single(b"a").unwrap().unwrap(), 1, n0, "the value before");
    // the next value is right too
    let n4 = len2("n4");
    put(&h, b"d", 4, n4);
    check_snap(&h.read_single(b"d").unwrap().unwrap(), 4, n4, "the value after");
    check_snap(&h.read_single(b"b").unwrap().unwrap(), 2, n, "what was written");
    observe("mode", mode);
    check_disjoint(&h);
}
