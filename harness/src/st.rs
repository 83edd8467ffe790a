//! Helpers shared by the harnesses.
use crate::sym::*;
use possum::*;
use positioned_io::ReadAt;
use std::io::Write;
use std::path::PathBuf;

pub fn dir() -> PathBuf {
    PathBuf::from("d")
}
pub fn open() -> Handle {
    Handle::new(dir()).unwrap()
}

/// the largest value a harness writes
pub const MAX: usize = 1 << 17;

/// A buffer holding the value with this tag.
pub fn content(tag: u64) -> Vec<u8> {
    content_max(tag, MAX)
}
pub fn content_max(tag: u64, max: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(max);
    unsafe { v.set_len(max) };
    fill(&mut v, tag);
    v
}
pub fn buffer(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    unsafe { v.set_len(n) };
    fill(&mut v, 999);
    v
}

/// A length that SQLite stores in two bytes: the histories that use it do not split on it there.
pub fn len2(name: &str) -> u64 {
    val(name, 128, 10000)
}

/// Writes n bytes of the value with this tag under the key, as a batch of its own.
pub fn put(h: &Handle, key: &[u8], tag: u64, n: u64) -> usize {
    let mut w = h.new_writer().unwrap();
    stage(&mut w, key, tag, n);
    w.commit().unwrap().count()
}
pub fn stage(w: &mut BatchWriter<&Handle>, key: &[u8], tag: u64, n: u64) {
    let mut v = w.new_value().begin().unwrap();
    write_all(&mut v, &content(tag), n);
    w.stage_write(key.to_vec(), v).unwrap();
}
pub type Res = Result<(), ()>;
pub fn ok<T, E>(r: Result<T, E>) -> Result<T, ()> {
    r.map_err(|_| ())
}
/// The same where something may fail.
pub fn try_put(h: &Handle, key: &[u8], tag: u64, n: u64) -> Res {
    let mut w = ok(h.new_writer())?;
    try_stage(&mut w, key, tag, n)?;
    ok(w.commit())?;
    Ok(())
}
pub fn try_stage(w: &mut BatchWriter<&Handle>, key: &[u8], tag: u64, n: u64) -> Res {
    let mut v = ok(w.new_value().begin())?;
    ok(v.write_all(&content(tag)[..n as usize]))?;
    ok(w.stage_write(key.to_vec(), v))
}
/// (one write call: the length stays symbolic)
pub fn write_all(v: &mut ValueWriter, c: &[u8], n: u64) {
    let k = v.write(&c[..n as usize]).unwrap();
    check(k as u64 == n, "a write to a value is short");
}

/// The value holds exactly the first n bytes of the content with this tag.
pub fn check_snap(x: &SnapshotValue<Value>, tag: u64, n: u64, msg: &str) {
    check(x.length() == n, msg);
    let ok = x
        .view(|s| {
            check(s.len() as u64 == n, msg);
            check_pat(s, tag, 0, msg);
        })
        .is_ok();
    check(ok, msg);
}
/// The same through a positional read.
pub fn check_snap_read_at(x: &SnapshotValue<Value>, tag: u64, n: u64, msg: &str) {
    check(x.length() == n, msg);
    let mut b = buffer(MAX);
    let k = x.read_at(0, &mut b).unwrap() as u64;
    check(k == n, msg);
    check_pat(&b[..k as usize], tag, 0, msg);
}

#[derive(Clone, Copy, PartialEq)]
pub struct Ent {
    pub key: &'static [u8],
    pub tag: u64,
    pub len: u64,
}
/// What the store should hold.
#[derive(Clone)]
pub struct Map(pub Vec<Ent>);
impl Map {
    pub fn new() -> Map {
        Map(vec![])
    }
    pub fn get(&self, key: &[u8]) -> Option<Ent> {
        self.0.iter().find(|e| e.key == key).copied()
    }
    pub fn del(&mut self, key: &[u8]) -> Option<Ent> {
        let i = self.0.iter().position(|e| e.key == key)?;
        Some(self.0.remove(i))
    }
    pub fn put(&mut self, key: &'static [u8], tag: u64, len: u64) {
        self.del(key);
        self.0.push(Ent { key, tag, len });
    }
    pub fn sum(&self) -> u64 {
        let mut s = 0;
        for e in &self.0 {
            s += e.len;
        }
        s
    }
}

/// The store shows exactly the map: listing, accounting, and each of the keys.
pub fn check_map(h: &Handle, m: &Map, keys: &[&'static [u8]], msg: &str) {
    check_list(h, m, msg);
    for k in keys {
        check_key(h, m, k, msg);
    }
}
pub fn check_list(h: &Handle, m: &Map, msg: &str) {
    let items = h.list_items(b"").unwrap();
    check(items.len() == m.0.len(), msg);
    for e in &m.0 {
        let mut n = 0;
        for it in &items {
            if it.key == e.key {
                n += 1;
                check(it.value.length() == e.len, msg);
            }
        }
        check(n == 1, msg);
    }
    let sum = h.start_deferred_transaction_for_read().unwrap().sum_value_length().unwrap();
    check(sum == m.sum(), "the accounted total differs from the sum of the lengths");
}
pub fn check_key(h: &Handle, m: &Map, k: &[u8], msg: &str) {
    match (h.read_single(k).unwrap(), m.get(k)) {
        (None, None) => {}
        (Some(x), Some(e)) => check_snap(&x, e.tag, e.len, msg),
        _ => check(false, msg),
    }
}

/// No two committed values share bytes of a file.
pub fn check_disjoint(h: &Handle) {
    let items = h.list_items(b"").unwrap();
    for i in 0..items.len() {
        for j in 0..i {
            if let (Some(a), Some(b)) = (items[i].value.location.into_non_zero(), items[j].value.location.into_non_zero()) {
                if a.file_id == b.file_id {
                    check(a.file_offset + a.length <= b.file_offset || b.file_offset + b.length <= a.file_offset, "two committed values overlap");
                }
            }
        }
    }
}

/// Sets the limits of a handle (their type cannot be named outside the crate).
pub fn limits(h: &mut Handle, max: Option<u64>, disable: bool) {
    try_limits(h, max, disable).unwrap()
}
pub fn try_limits(h: &mut Handle, max: Option<u64>, disable: bool) -> Res {
    fn go<L: Default, E: std::fmt::Debug>(h: &mut Handle, set: fn(&mut Handle, L) -> Result<(), E>, f: impl FnOnce(&mut L)) -> Res {
        let mut l = L::default();
        f(&mut l);
        ok(set(h, l))
    }
    go(h, Handle::set_instance_limits, |l| {
        l.max_value_length_sum = max;
        l.disable_hole_punching = disable;
    })
}

/// 0: segment locks (no cloning), 1: files are cloned, 2: flock (as on FreeBSD)
pub fn read_mode() -> u64 {
    let m = choice("mode", 3);
    match m {
        1 => cfg("ficlone", 1),
        2 => cfg("freebsd", 1),
        _ => {}
    }
    m
}
/// file, offset, length of the value with this key
pub fn place(h: &Handle, key: &[u8]) -> Option<(String, u64, u64)> {
    let items = h.list_items(key).unwrap();
    let it = items.iter().find(|i| i.key == key)?;
    let v = it.value.location.into_non_zero()?;
    Some((format!("d/{}", v.file_id), v.file_offset, v.length))
}

/// A source of bytes in pieces, which may fail at the end.
pub struct Pieces {
    pub data: Vec<u8>,
    pub cuts: Vec<u64>,
    pub at: usize,
    pub fail: bool,
}
impl std::io::Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.at + 1 >= self.cuts.len() {
            if self.fail {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "the source fails"));
            }
            return Ok(0);
        }
        let s = self.cuts[self.at] as usize;
        let e = self.cuts[self.at + 1] as usize;
        let n = e - s;
        check(n <= b.len(), "pieces fit the copying buffer");
        b[..n].copy_from_slice(&self.data[s..e]);
        self.at += 1;
        Ok(n)
    }
}
