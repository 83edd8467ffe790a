//! C21: the command-line tool (only built when its source can be included).
use crate::st::*;
use crate::sym::*;
use possum::*;

const KEYS: [&[u8]; 4] = [b"a", b"b", b"c", b"d"];
const BS: u64 = 4096;

#[allow(dead_code, unused_imports)]
mod tool {
    /// clap, but the arguments are given by the harness
    pub mod clap {
        pub use ::clap::*;
        pub trait Parser: Sized + ::clap::FromArgMatches + ::clap::CommandFactory {
            fn parse() -> Self {
                let m = <Self as ::clap::CommandFactory>::command().get_matches_from(super::args());
                <Self as ::clap::FromArgMatches>::from_arg_matches(&m).unwrap()
            }
        }
    }
    static mut ARGS: Vec<String> = Vec::new();
    #[allow(static_mut_refs)]
    pub fn args() -> Vec<String> {
        unsafe { ARGS.clone() }
    }
    #[allow(static_mut_refs)]
    pub fn run(a: &[&str]) -> anyhow::Result<()> {
        unsafe { ARGS = std::iter::once(&"possum").chain(a).map(|x| x.to_string()).collect() };
        main()
    }
    include!("/repo/src/main.rs");

    pub fn pure(holes: &[(u64, u64)], values: &[NonzeroValueLocation]) -> Vec<(u64, u64)> {
        let h = holes.iter().map(|h| Ok::<_, std::io::Error>(FileRegion { start: h.0, length: h.1 - h.0 }));
        let v = values.iter().map(|v| Ok::<_, std::io::Error>(*v));
        missing_holes_pure(h, v).unwrap().iter().map(|r| (r.start, r.start + r.length)).collect()
    }
    pub fn of(h: &Handle, path: &str) -> Vec<(u64, u64)> {
        let tx = h.start_deferred_transaction_for_read().unwrap();
        let e = h.walk_dir().unwrap();
        let e = e.iter().find(|e| e.path == Path::new(path)).unwrap();
        missing_holes(&tx, e).unwrap().iter().map(|r| (r.start, r.start + r.length)).collect()
    }
}

/// Any values and any holes.
#[no_mangle]
pub extern "C" fn h_missing() {
    let (nv, nh) = if deep() { (3, 4) } else { (3, 3) };
    let nv = choice("values", nv + 1) as usize;
    let nh = choice("holes", nh + 1) as usize;
    let max = 1 << 40;
    let id = |s: &str| s.parse().ok().unwrap();
    let mut values = vec![];
    let mut at = 0;
    for _ in 0..nv {
        let off = val("offset", 0, max);
        let len = val("length", 1, max);
        assume(off >= at);
        at = off + len;
        values.push(NonzeroValueLocation { file_id: id("1"), file_offset: off, length: len });
    }
    let mut holes = vec![];
    let mut at = 0;
    for i in 0..nh {
        let a = val("start", 0, max);
        let b = val("end", 1, max);
        assume(a >= at && b > a && (i == 0 || a > at));
        at = b;
        holes.push((a, b));
    }
    let r = tool::pure(&holes, &values);
    let end = values.last().map_or(0, |v| v.file_offset);
    let p = val("position", 0, max);
    let mut dead = p < end;
    for v in &values {
        dead = dead & ((p < v.file_offset) | (p >= v.file_offset + v.length));
    }
    let mut hole = false;
    for h in &holes {
        hole = hole | ((p >= h.0) & (p < h.1));
    }
    let mut said = false;
    let mut last = 0;
    for (i, x) in r.iter().enumerate() {
        check(x.0 < x.1, "a missing hole is not empty");
        check(i == 0 || x.0 >= last, "missing holes are in order and disjoint");
        last = x.1;
        said = said | ((p >= x.0) & (p < x.1));
    }
    check(!said | (dead & !hole), "a missing hole is neither in a value nor a hole");
    check(said | !(dead & !hole), "what is neither in a value nor a hole is a missing hole");
    if r.is_empty() {
        reach("none missing");
    } else {
        reach("missing");
    }
}

/// The tool on a store some of whose deleted values were not reclaimed.
#[no_mangle]
pub extern "C" fn h_punch_missing() {
    let mut h = open();
    let mut m = Map::new();
    let mut at = vec![];
    let n = if deep() { 4 } else { 3 };
    let n0 = choice("reclaiming", 2) == 1;
    for i in 0..n {
        let n = val("n", 128, 10000);
        put(&h, KEYS[i], 1 + i as u64, n);
        m.put(KEYS[i], 1 + i as u64, n);
        at.push(place(&h, KEYS[i]).unwrap());
    }
    let keep = choice("keep", 3);
    let h2 = if keep > 0 { Some(open()) } else { None };
    let held = match &h2 {
        Some(h2) if keep == 1 => h2.read_single(KEYS[0]).unwrap(),
        _ => None,
    };
    // one after the other, without and perhaps with reclamation
    try_limits(&mut h, None, true).unwrap();
    let mask = choice("mask", 1 << n);
    let mut left = true;
    for i in 0..n {
        if mask >> i & 1 == 1 {
            h.single_delete(KEYS[i]).unwrap();
            m.del(KEYS[i]);
            if left && n0 {
                try_limits(&mut h, None, false).unwrap();
                left = false;
            }
        }
    }
    drain();
    // another batch is being written, perhaps
    let mut w = h2.as_ref().map(|h2| h2.new_writer().unwrap());
    let mut staged = None;
    if keep == 2 {
        drop(h);
        let w = w.as_mut().unwrap();
        let k = val("k", 1, 9000);
        let mut v = w.new_value().begin().unwrap();
        check(std::io::Write::write(&mut v, &content(9)[..k as usize]).unwrap() as u64 == k, "a write is short");
        staged = Some((v, k));
    } else {
        drop(h);
    }
    let path = at[0].0.clone();
    for x in &at {
        check(x.0 == path, "successive values of a handle share a file");
    }
    let live: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 0).collect();
    let end = live.last().map_or(0, |&i| at[i].1);
    let dead = |a: u64, b: u64| {
        let mut d = true;
        for &i in &live {
            d = d & ((b <= at[i].1) | (at[i].1 + at[i].2 <= a));
        }
        d
    };
    if std::fs::metadata(&path).is_ok() {
        // what it reports
        let h = open();
        for (a, b) in tool::of(&h, &path) {
            check(a < b && dead(a, b), "a missing hole is in no value");
            reach("reported");
        }
        drop(h);
    }
    match choice("command", 3) {
        0 => {
            let r = tool::run(&["database", "d", "punch-missing-holes"]);
            check(r.is_ok() || keep > 0, "punching missing holes works");
            if std::fs::metadata(&path).is_ok() {
                let b = val("block", 0, 12);
                if b * BS + BS <= end && dead(b * BS, b * BS + BS) {
                    // (unless they are in use)
                    if keep == 0 {
                        check(!block(&path, b), "dead blocks before the last value are holes afterwards");
                        reach("punched");
                    }
                }
            }
        }
        1 => check(tool::run(&["database", "d", "print-missing-holes"]).is_ok(), "printing missing holes works"),
        _ => check(tool::run(&["database", "d", "print-missing-holes", "--fragments"]).is_ok(), "printing missing holes works"),
    }
    if let Some(x) = held {
        check_snap(&x, 1, at[0].2, "a snapshot after the tool");
        check_snap_read_at(&x, 1, at[0].2, "a snapshot after the tool");
        reach("snapshot");
    }
    if let Some((v, k)) = staged {
        let mut w = w.take().unwrap();
        w.stage_write(KEYS[0].to_vec(), v).unwrap();
        w.commit().unwrap();
        m.put(KEYS[0], 9, k);
        reach("batch");
    }
    let h = open();
    check_map(&h, &m, &KEYS, "after the tool");
    if !live.is_empty() {
        reach("live");
    }
}
