//! C19: the C interface.
use crate::st::*;
use crate::sym::*;
use possum::*;
use std::ffi::{c_char, c_void};
use std::ptr::{null, null_mut};

#[repr(C)]
#[derive(Clone, Copy)]
struct Buf {
    ptr: *const c_char,
    size: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Time {
    secs: i64,
    nanos: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Stat {
    last_used: Time,
    size: u64,
}
#[repr(C)]
struct Item {
    key: Buf,
    stat: Stat,
}
#[repr(C)]
struct Limits {
    max: u64,
    disable: bool,
}
const NO_ERROR: u32 = 0;
const NO_SUCH_KEY: u32 = 1;
type P = *mut c_void;
extern "C" {
    fn possum_new(path: *const c_char) -> P;
    fn possum_drop(h: P);
    fn possum_set_instance_limits(h: P, l: *const Limits) -> u32;
    fn possum_cleanup_snapshots(h: P) -> u32;
    fn possum_single_write_buf(h: P, key: Buf, value: Buf) -> usize;
    fn possum_new_writer(h: P) -> P;
    fn possum_single_stat(h: P, key: Buf, s: *mut Stat) -> bool;
    fn possum_list_items(h: P, prefix: Buf, l: *mut *mut Item, n: *mut usize) -> u32;
    fn possum_single_read_at(h: P, key: Buf, b: *mut Buf, off: u64) -> u32;
    fn possum_single_delete(h: P, key: Buf, s: *mut Stat) -> u32;
    fn possum_reader_new(h: P, r: *mut P) -> u32;
    fn possum_handle_move_prefix(h: P, from: Buf, to: Buf) -> u32;
    fn possum_handle_delete_prefix(h: P, p: Buf) -> u32;
    fn possum_start_new_value(w: P, v: *mut P) -> u32;
    fn possum_value_writer_fd(v: P) -> isize;
    fn possum_writer_rename(w: P, v: P, key: Buf) -> u32;
    fn possum_reader_add(r: P, key: Buf, v: *mut P) -> u32;
    fn possum_reader_begin(r: P) -> u32;
    fn possum_reader_end(r: P);
    fn possum_value_read_at(v: P, b: *mut Buf, off: u64) -> u32;
    fn possum_value_stat(v: P, s: *mut Stat);
    fn possum_reader_list_items(r: P, p: Buf, l: *mut *mut Item, n: *mut usize) -> u32;
    fn possum_writer_commit(w: P) -> u32;
    fn possum_writer_stage(w: P, key: Buf, v: P) -> u32;
}
fn buf(b: &[u8]) -> Buf {
    Buf { ptr: b.as_ptr() as _, size: b.len() }
}
fn c_open() -> P {
    let h = unsafe { possum_new(b"d\0".as_ptr() as _) };
    check(!h.is_null(), "a directory opens");
    h
}
fn c_put(h: P, key: &[u8], tag: u64, n: u64) {
    let c = content(tag);
    let r = unsafe { possum_single_write_buf(h, buf(key), buf(&c[..n as usize])) };
    check(r as u64 == n, "a write returns the length of the value");
}
const KEYS: [&[u8]; 5] = [b"a", b"ab", b"ac", b"b", b"\xff"];
const PREFIXES: [&[u8]; 6] = [b"", b"a", b"ab", b"abc", b"\xff", b"b"];

fn no_stat() -> Stat {
    Stat { last_used: Time { secs: -7, nanos: 77 }, size: 777 }
}
/// (secs, nanos) of a key as the store lists it
fn used(h: &Handle, k: &[u8]) -> (i64, u32) {
    let items = h.list_items(k).unwrap();
    let t = items.iter().find(|i| i.key == k).unwrap().value.last_used().and_utc();
    (t.timestamp(), t.timestamp_subsec_nanos())
}
fn is(s: &Stat, h: &Handle, e: &Ent, msg: &str) {
    check(s.size == e.len, msg);
    check((s.last_used.secs, s.last_used.nanos) == used(h, e.key), msg);
}
/// What a listing returned, against the map; frees it.
fn check_items(l: *mut Item, n: usize, h: &Handle, m: &Map, prefix: &[u8]) {
    let want: Vec<_> = m.0.iter().filter(|e| e.key.starts_with(prefix)).collect();
    check(n == want.len(), "a listing has the keys of the prefix");
    for e in want {
        let mut seen = 0;
        for i in 0..n {
            let it = unsafe { &*l.add(i) };
            let k = unsafe { std::slice::from_raw_parts(it.key.ptr as *const u8, it.key.size) };
            if k == &e.key[prefix.len()..] {
                seen += 1;
                is(&it.stat, h, e, "a listing says what the store says");
            }
        }
        check(seen == 1, "a listing has each key once, without the prefix");
    }
    for i in 0..n {
        unsafe { libc::free((*l.add(i)).key.ptr as *mut c_void) };
    }
    unsafe { libc::free(l as *mut c_void) };
}
fn c_list(h: P, r: &Handle, m: &Map, prefix: &[u8]) {
    let (mut l, mut n) = (null_mut(), 99);
    check(unsafe { possum_list_items(h, buf(prefix), &mut l, &mut n) } == NO_ERROR, "a listing works");
    check_items(l, n, r, m, prefix);
}

/// Single operations.
#[no_mangle]
pub extern "C" fn h_c_single() {
    let h = c_open();
    let r = open();
    let mut m = Map::new();
    for i in 0..if deep() { 4 } else { 3 } {
        let n = if i == 1 && flag("empty") { 0 } else { len2("n") };
        c_put(h, KEYS[i], 1 + i as u64, n);
        m.put(KEYS[i], 1 + i as u64, n);
        advance_ms(1234);
    }
    check_map(&r, &m, &KEYS, "written through the C interface");
    let k = choice("key", 5) as usize;
    let p = PREFIXES[choice("prefix", 6) as usize];
    match choice("op", 7) {
        0 => {
            let mut s = no_stat();
            let there = unsafe { possum_single_stat(h, buf(KEYS[k]), &mut s) };
            match m.get(KEYS[k]) {
                None => check(!there && s.size == 777 && s.last_used.secs == -7, "a stat of an absent key"),
                Some(e) => {
                    check(there, "a stat of a key");
                    is(&s, &r, &e, "a stat says what the store says");
                }
            }
            reach("stat");
        }
        1 => {
            c_list(h, &r, &m, p);
            reach("list");
        }
        2 => {
            let mut s = no_stat();
            let was = m.get(KEYS[k]).map(|e| used(&r, e.key));
            let want_stat = flag("stat");
            let e = unsafe { possum_single_delete(h, buf(KEYS[k]), if want_stat { &mut s } else { null_mut() }) };
            match m.del(KEYS[k]) {
                None => check(e == NO_SUCH_KEY && s.size == 777, "a delete of an absent key"),
                Some(x) => {
                    check(e == NO_ERROR, "a delete of a key");
                    if want_stat {
                        check(s.size == x.len, "a delete says the length");
                        check(Some((s.last_used.secs, s.last_used.nanos)) == was, "a delete says the last use");
                    }
                }
            }
            reach("delete");
        }
        3 => {
            check(unsafe { possum_handle_delete_prefix(h, buf(p)) } == NO_ERROR, "a prefix delete works");
            m.0.retain(|e| !e.key.starts_with(p));
            reach("delete prefix");
        }
        4 => {
            // to where nothing is
            check(unsafe { possum_handle_move_prefix(h, buf(p), buf(b"zz")) } == NO_ERROR, "a prefix move works");
            let moved: Vec<_> = m.0.iter().filter(|e| e.key.starts_with(p)).copied().collect();
            m.0.retain(|e| !e.key.starts_with(p));
            for e in moved {
                let mut k = b"zz".to_vec();
                k.extend(&e.key[p.len()..]);
                m.put(Box::leak(k.into_boxed_slice()), e.tag, e.len);
            }
            reach("move prefix");
        }
        5 => {
            check(unsafe { possum_cleanup_snapshots(h) } == NO_ERROR, "a cleanup works");
            reach("cleanup");
        }
        _ => {
            // a replacement
            let n = len2("n");
            c_put(h, KEYS[k], 9, n);
            m.put(KEYS[k], 9, n);
            reach("replace");
        }
    }
    let more: Vec<&[u8]> = m.0.iter().map(|e| e.key).chain(KEYS).collect();
    check_map(&r, &m, &more, "after an operation of the C interface");
    c_list(h, &r, &m, b"");
    unsafe { possum_drop(h) };
    check_map(&r, &m, &more, "after the handle of the C interface is dropped");
}

/// A caller's buffer, of which nothing else may be written.
struct Guarded(Vec<u8>, Buf, usize);
fn guarded(n: u64) -> Guarded {
    const MAXB: usize = 24000;
    let mut v = buffer(MAXB);
    let b = Buf { ptr: unsafe { v.as_mut_ptr().add(100) } as _, size: n as usize };
    Guarded(v, b, n as usize)
}
/// The buffer holds bytes off.. of the value, as many as there are and fit.
fn check_read(g: &Guarded, off: u64, e: &Ent) {
    let rest = if off < e.len { e.len - off } else { 0 };
    let n = g.1.size;
    check(n as u64 == if rest < g.2 as u64 { rest } else { g.2 as u64 }, "a read returns as many bytes as there are and fit");
    check(g.1.ptr == unsafe { g.0.as_ptr().add(100) } as _, "a read leaves the place of the buffer");
    check_pat(&g.0[100..100 + n], e.tag, off, "a read returns the bytes of the value");
    check_pat(&g.0[..100], 999, 0, "a read writes nothing before the buffer");
    check_pat(&g.0[100 + g.2..], 999, 100 + g.2 as u64, "a read writes nothing after the buffer");
}

/// Reads, of any length at any offset.
#[no_mangle]
pub extern "C" fn h_c_read() {
    let mode = read_mode();
    let h = c_open();
    let r = open();
    let mut m = Map::new();
    let e0 = flag("empty");
    let n = [if e0 { 0 } else { len2("n") }, val("n", 128, 20000)];
    for i in 0..2 {
        c_put(h, KEYS[i], 1 + i as u64, n[i]);
        m.put(KEYS[i], 1 + i as u64, n[i]);
        advance_ms(1500);
    }
    let k = choice("key", 3) as usize;
    let off = val("off", 0, 25000);
    let size = val("size", 1, 22000);
    match choice("how", 3) {
        0 => {
            let mut g = guarded(size);
            let e = unsafe { possum_single_read_at(h, buf(KEYS[k]), &mut g.1, off) };
            match m.get(KEYS[k]) {
                None => check(e == NO_SUCH_KEY && g.1.size == g.2, "a read of an absent key"),
                Some(x) => {
                    check(e == NO_ERROR, "a read works");
                    check_read(&g, off, &x);
                }
            }
            reach("single");
            unsafe { possum_drop(h) };
        }
        1 => {
            // a transaction: all keys, each once or twice
            let mut rd = null_mut();
            check(unsafe { possum_reader_new(h, &mut rd) } == NO_ERROR, "a reader begins");
            let mut vs = vec![];
            for i in 0..3 {
                let mut v = null_mut();
                let e = unsafe { possum_reader_add(rd, buf(KEYS[i]), &mut v) };
                match m.get(KEYS[i]) {
                    None => check(e == NO_SUCH_KEY, "a reader has no absent key"),
                    Some(x) => {
                        check(e == NO_ERROR, "a reader has a key");
                        vs.push((v, x));
                    }
                }
            }
            if flag("list") {
                let (mut l, mut n) = (null_mut(), 99);
                check(unsafe { possum_reader_list_items(rd, buf(b"a"), &mut l, &mut n) } == NO_ERROR, "a reader lists");
                check(n == 2, "a reader lists the keys of the prefix");
                for i in 0..n {
                    let it = unsafe { &*l.add(i) };
                    let key = unsafe { std::slice::from_raw_parts(it.key.ptr as *const u8, it.key.size) };
                    check(if key.is_empty() { it.stat.size == n_of(&m, b"a") } else { key == b"b" && it.stat.size == n_of(&m, b"ab") }, "a reader lists what the store holds");
                    unsafe { libc::free(it.key.ptr as *mut c_void) };
                }
                unsafe { libc::free(l as *mut c_void) };
            }
            check(unsafe { possum_reader_begin(rd) } == NO_ERROR, "a snapshot is taken");
            if flag("replaced") {
                put(&r, KEYS[0], 7, 500);
                r.single_delete(KEYS[1]).unwrap();
                drain();
            }
            let (v, x) = vs[if k < 2 { k } else { 0 }];
            let mut s = no_stat();
            unsafe { possum_value_stat(v, &mut s) };
            check(s.size == x.len, "the length of a value");
            let mut g = guarded(size);
            check(unsafe { possum_value_read_at(v, &mut g.1, off) } == NO_ERROR, "a read works");
            check_read(&g, off, &x);
            if flag("dropped first") {
                unsafe { possum_drop(h) };
                unsafe { possum_reader_end(rd) };
            } else {
                unsafe { possum_reader_end(rd) };
                unsafe { possum_drop(h) };
            }
            reach("reader");
        }
        _ => {
            // a reader given up
            let mut rd = null_mut();
            check(unsafe { possum_reader_new(h, &mut rd) } == NO_ERROR, "a reader begins");
            let mut v = null_mut();
            unsafe { possum_reader_add(rd, buf(KEYS[k]), &mut v) };
            unsafe { possum_reader_end(rd) };
            c_put(h, KEYS[2], 3, 444);
            m.put(KEYS[2], 3, 444);
            check_map(&r, &m, &KEYS, "after a reader was given up");
            unsafe { possum_drop(h) };
            reach("given up");
        }
    }
    observe("mode", mode);
}
fn n_of(m: &Map, k: &[u8]) -> u64 {
    m.get(k).unwrap().len
}

/// Batches.
#[no_mangle]
pub extern "C" fn h_c_batch() {
    let h = c_open();
    let r = open();
    let mut m = Map::new();
    let n0 = len2("n");
    c_put(h, KEYS[0], 1, n0);
    m.put(KEYS[0], 1, n0);
    let w = unsafe { possum_new_writer(h) };
    let values = choice("values", 3);
    let mut after = m.clone();
    for i in 0..values {
        let mut v = null_mut();
        check(unsafe { possum_start_new_value(w, &mut v) } == NO_ERROR, "a value begins");
        // (written through its file descriptor, in two pieces)
        let cut = val("cut", 1, 9000);
        let n = cut + val("rest", 127, 9000);
        let fd = unsafe { possum_value_writer_fd(v) } as i32;
        let c = content(10 + i);
        for (a, b) in [(0, cut), (cut, n)] {
            let k = unsafe { libc::write(fd, c.as_ptr().add(a as usize) as _, (b - a) as usize) };
            check(k as u64 == b - a, "a write is short");
        }
        let key = KEYS[choice("key", 2) as usize];
        check(unsafe { possum_writer_stage(w, buf(key), v) } == NO_ERROR, "a value is staged");
        after.put(key, 10 + i, n);
        reach("staged");
    }
    if flag("rename") {
        let mut rd = null_mut();
        let mut v = null_mut();
        check(unsafe { possum_reader_new(h, &mut rd) } == NO_ERROR, "a reader begins");
        check(unsafe { possum_reader_add(rd, buf(KEYS[0]), &mut v) } == NO_ERROR, "a reader has a key");
        check(unsafe { possum_reader_begin(rd) } == NO_ERROR, "a snapshot is taken");
        check(unsafe { possum_writer_rename(w, v, buf(KEYS[3])) } == NO_ERROR, "a rename is staged");
        unsafe { possum_reader_end(rd) };
        // (renames follow writes)
        if after.get(KEYS[0]).map(|e| e.tag) == Some(1) {
            after.del(KEYS[0]);
            after.put(KEYS[3], 1, n0);
        }
        reach("renamed");
    }
    check_map(&r, &m, &KEYS, "before a batch of the C interface is committed");
    check(unsafe { possum_writer_commit(w) } == NO_ERROR, "a batch commits");
    check_map(&r, &after, &KEYS, "after a batch of the C interface");
    c_list(h, &r, &after, b"");
    unsafe { possum_drop(h) };
}

/// Limits.
#[no_mangle]
pub extern "C" fn h_c_limits() {
    let h = c_open();
    let r = open();
    let mut m = Map::new();
    let n = [len2("n"), len2("n"), len2("n")];
    c_put(h, KEYS[0], 1, n[0]);
    advance_ms(2000);
    c_put(h, KEYS[1], 2, n[1]);
    advance_ms(2000);
    let max = if flag("all ones") { u64::MAX } else { val("max", 0, u64::MAX - 1) };
    let disable = flag("disable");
    let mut e = unsafe { possum_set_instance_limits(h, &Limits { max, disable }) };
    check(e == NO_ERROR, "limits are set");
    if flag("lifted") {
        e = unsafe { possum_set_instance_limits(h, &Limits { max: u64::MAX, disable: false }) };
        check(e == NO_ERROR, "limits are set");
        m.put(KEYS[0], 1, n[0]);
        m.put(KEYS[1], 2, n[1]);
        c_put(h, KEYS[2], 3, n[2]);
        m.put(KEYS[2], 3, n[2]);
        reach("lifted");
    } else {
        c_put(h, KEYS[2], 3, n[2]);
        // the oldest go until the rest fits
        let mut sum = n[0] + n[1] + n[2];
        let mut i = 0;
        while i < 3 && sum > max {
            sum -= n[i];
            i += 1;
        }
        for j in i..3 {
            m.put(KEYS[j], 1 + j as u64, n[j]);
        }
        if i > 0 {
            reach("evicted");
        } else {
            reach("all fit");
        }
    }
    drain();
    check_map(&r, &m, &KEYS, "under a limit");
    unsafe { possum_drop(h) };
}

/// A directory that can't be opened.
#[no_mangle]
pub extern "C" fn h_c_new() {
    match choice("what", 4) {
        0 => {
            std::fs::write("d", b"x").unwrap();
            check(unsafe { possum_new(b"d\0".as_ptr() as _) }.is_null(), "a file is no directory");
            reach("refused");
        }
        1 => {
            std::fs::write("d", b"x").unwrap();
            check(unsafe { possum_new(b"d/e\0".as_ptr() as _) }.is_null(), "nothing is in a file");
            reach("refused");
        }
        2 => {
            let h = unsafe { possum_new(b"d/e/f\0".as_ptr() as _) };
            check(!h.is_null(), "directories are made");
            c_put(h, b"a", 1, 300);
            unsafe { possum_drop(h) };
            let r = Handle::new("d/e/f".into()).unwrap();
            let mut m = Map::new();
            m.put(b"a", 1, 300);
            check_map(&r, &m, &[b"a"], "in a new directory");
            reach("made");
        }
        _ => {
            let h = c_open();
            c_put(h, b"a", 1, 0);
            unsafe { possum_drop(h) };
            let h = c_open();
            let mut s = no_stat();
            check(unsafe { possum_single_stat(h, buf(b"a"), &mut s) } && s.size == 0, "a stat of an empty value");
            unsafe { possum_drop(h) };
            reach("again");
        }
    }
    let _: *const u8 = null();
}

/// C14: a reader of the C interface while another handle writes.
#[no_mangle]
pub extern "C" fn h_c_race() {
    let mode = read_mode();
    let n = [val("n", 4300, 8200), val("n", 128, 4200)];
    let h = c_open();
    let r = open();
    let mut m = Map::new();
    c_put(h, KEYS[0], 1, n[0]);
    c_put(h, KEYS[1], 2, n[1]);
    m.put(KEYS[0], 1, n[0]);
    m.put(KEYS[1], 2, n[1]);
    if flag("later") {
        advance_ms(50);
    }
    let list = flag("list");
    let what = choice("what", 3);
    let hp = h as usize;
    let reads = move || {
        let h = hp as P;
        let mut rd = null_mut();
        check(unsafe { possum_reader_new(h, &mut rd) } == NO_ERROR, "a reader begins");
        if list {
            let (mut l, mut k) = (null_mut(), 99);
            check(unsafe { possum_reader_list_items(rd, buf(b""), &mut l, &mut k) } == NO_ERROR, "a reader lists");
            reach("listed");
        }
        let mut v = null_mut();
        let e = unsafe { possum_reader_add(rd, buf(KEYS[0]), &mut v) };
        check(e == NO_ERROR || (what == 1 && e == NO_SUCH_KEY), "a reader adds a key while another handle writes");
        if e == NO_ERROR {
            check(unsafe { possum_reader_begin(rd) } == NO_ERROR, "a snapshot is taken while another handle writes");
            let mut s = no_stat();
            unsafe { possum_value_stat(v, &mut s) };
            let mut g = guarded(10000);
            check(unsafe { possum_value_read_at(v, &mut g.1, 0) } == NO_ERROR, "a read works");
            // the old value or the new one
            let e = if s.size == n[0] { Ent { key: KEYS[0], tag: 1, len: n[0] } } else { Ent { key: KEYS[0], tag: 9, len: 300 } };
            check_read(&g, 0, &e);
            reach("read");
        } else {
            reach("gone");
        }
        unsafe { possum_reader_end(rd) };
    };
    let writes = || match what {
        0 => check(try_put(&r, KEYS[0], 9, 300).is_ok(), "a write during a read fails"),
        1 => {
            check(r.single_delete(KEYS[0]).is_ok(), "a delete during a read fails");
            drain();
        }
        _ => check(try_put(&r, KEYS[3], 8, 300).is_ok(), "a write during a read fails"),
    };
    let swap = flag("swap");
    cfg("preempt", if deep() { 2 } else { 1 });
    std::thread::scope(|s| {
        if swap {
            s.spawn(reads);
            writes();
        } else {
            s.spawn(writes);
            reads();
        }
    });
    cfg("preempt", 0);
    match what {
        0 => m.put(KEYS[0], 9, 300),
        1 => {
            m.del(KEYS[0]);
        }
        _ => m.put(KEYS[3], 8, 300),
    }
    drain();
    check_map(&r, &m, &KEYS, "after a reader of the C interface and a write at once");
    unsafe { possum_drop(h) };
    observe("mode", mode);
}
