//! C16: the process dies.
use crate::st::*;
use crate::sym::*;
use possum::*;

const KEYS: [&[u8]; 5] = [b"a", b"b", b"c", b"d", b"e"];

/// what the child is to do (it is a copy of this process)
struct Plan {
    ops: [u64; 2],
    k: usize,
    len: [u64; 5],
    drain: bool,
    preempt: bool,
}
static mut PLAN: Plan = Plan { ops: [0; 2], k: 0, len: [0; 5], drain: false, preempt: false };
#[allow(static_mut_refs)]
fn plan() -> &'static mut Plan {
    unsafe { &mut PLAN }
}

pub const OPS: u64 = 9;
/// One operation; its effect on the map. (Without a handle: only the effect.)
pub fn act(h: Option<&mut Handle>, m: &mut Map, op: u64, i: usize, n: u64) -> Res {
    let tag = 10 + i as u64;
    match op {
        0 => {
            // a batch: one replaced, one new
            if let Some(h) = h {
                let mut w = ok(h.new_writer())?;
                try_stage(&mut w, KEYS[1], tag, n)?;
                try_stage(&mut w, KEYS[2], 5 + tag, 300)?;
                ok(w.commit())?;
            }
            m.put(KEYS[1], tag, n);
            m.put(KEYS[2], 5 + tag, 300);
        }
        1 => {
            if let Some(h) = h {
                ok(h.single_delete(KEYS[0]))?;
            }
            m.del(KEYS[0]);
        }
        2 => {
            if let Some(h) = h {
                ok(h.delete_prefix(b""))?;
            }
            m.0.clear();
        }
        3 => {
            if let Some(h) = h {
                match h.rename_item(KEYS[0], KEYS[3]) {
                    Err(Error::NoSuchKey) => {}
                    r => {
                        ok(r)?;
                    }
                }
            }
            if m.get(KEYS[3]).is_none() {
                if let Some(e) = m.del(KEYS[0]) {
                    m.put(KEYS[3], e.tag, e.len);
                }
            }
        }
        4 => {
            // everything else is evicted
            if let Some(h) = h {
                try_limits(h, Some(n), false)?;
                try_put(h, KEYS[2], tag, n)?;
                try_limits(h, None, false)?;
            }
            m.0.clear();
            m.put(KEYS[2], tag, n);
        }
        5 => {
            // a value renamed over another, with a write before
            if let Some(h) = h {
                let mut r = ok(h.read())?;
                let v = ok(r.add(KEYS[1]))?;
                let s = ok(r.begin())?;
                drop(s);
                let mut w = ok(h.new_writer())?;
                try_stage(&mut w, KEYS[2], tag, n)?;
                if let Some(v) = v {
                    w.rename_value(v, KEYS[0].to_vec());
                }
                ok(w.commit())?;
            }
            m.put(KEYS[2], tag, n);
            if let Some(e) = m.del(KEYS[1]) {
                m.put(KEYS[0], e.tag, e.len);
            }
        }
        6 => {
            if let Some(h) = h {
                ok(h.single_write_from(KEYS[1].to_vec(), &content(tag)[..n as usize]))?;
            }
            m.put(KEYS[1], tag, n);
        }
        7 => {
            if let Some(h) = h {
                let _ = ok(h.read_single(KEYS[1]))?;
                ok(h.cleanup_snapshots())?;
            }
        }
        _ => {
            if let Some(h) = h {
                ok(h.move_prefix(b"a", b"ea"))?;
            }
            if let Some(e) = m.del(KEYS[0]) {
                m.put(b"ea", e.tag, e.len);
            }
        }
    }
    Ok(())
}

extern "C" fn dies() {
    cfg("crash", 1);
    let mut h = open();
    let mut m = Map::new();
    if plan().preempt {
        cfg("preempt", 1);
    }
    for i in 0..plan().k {
        act(Some(&mut h), &mut m, plan().ops[i], i, plan().len[2 + i]).unwrap();
        if plan().drain {
            drain();
        }
        std::fs::create_dir(["done0", "done1"][i]).unwrap();
    }
}

/// keys and lengths are those of the map
pub fn looks_like(h: &Handle, m: &Map) -> bool {
    let items = h.list_items(b"").unwrap();
    if items.len() != m.0.len() {
        return false;
    }
    let mut ok = true;
    for it in &items {
        match m.get(&it.key) {
            None => return false,
            Some(e) => ok = ok & (e.len == it.value.length()),
        }
    }
    ok
}

fn crash(k: usize, mode: u64, race: bool) {
    const ALL: [&[u8]; 6] = [b"a", b"b", b"c", b"d", b"e", b"ea"];
    let p = plan();
    p.k = k;
    for i in 0..2 + k {
        // (a length tells which write a value is of)
        p.len[i] = val("n", 400 + 4000 * i as u64, 4300 + 4000 * i as u64);
    }
    for i in 0..k {
        p.ops[i] = if race { [1, 6, 4, 2][choice("op", if deep() { 4 } else { 2 }) as usize] } else { choice("op", OPS) };
    }
    p.preempt = race;
    p.drain = !race && flag("drain");
    let mut m = Map::new();
    let h = open();
    for i in 0..2 {
        put(&h, KEYS[i], 1 + i as u64, p.len[i]);
        m.put(KEYS[i], 1 + i as u64, p.len[i]);
    }
    let mut other = None;
    if !race && flag("another handle") {
        other = Some(h);
    } else {
        drop(h);
        drain();
    }
    let mut states = vec![m.clone()];
    for i in 0..k {
        act(None, &mut m, p.ops[i], i, p.len[2 + i]).unwrap();
        states.push(m.clone());
    }
    let died = child(dies);
    let mut done = 0;
    for d in ["done0", "done1"] {
        if std::fs::metadata(d).is_ok() {
            done += 1;
        }
    }
    if !died {
        check(done == k, "all is done");
    }
    let h = if other.is_some() && flag("seen by the other") { other.take().unwrap() } else { open() };
    let now = if looks_like(&h, &states[done]) {
        reach("before");
        &states[done]
    } else {
        check(done < k && looks_like(&h, &states[done + 1]), "after a crash the store is in the state before or after the operation");
        reach("after");
        &states[done + 1]
    };
    check_map(&h, now, &ALL, "after a crash");
    // it works
    let mut now = now.clone();
    let n = len2("more");
    put(&h, KEYS[4], 30, n);
    now.put(KEYS[4], 30, n);
    if now.get(KEYS[1]).is_some() {
        h.single_delete(KEYS[1]).unwrap();
        now.del(KEYS[1]);
    }
    check_map(&h, &now, &ALL, "written after a crash");
    drain();
    h.cleanup_snapshots().unwrap();
    check_map(&h, &now, &ALL, "written after a crash, after reclamation");
    check_disjoint(&h);
    observe("mode", mode);
}

/// One operation, or a sequence of two, interrupted anywhere.
#[no_mangle]
pub extern "C" fn h_crash() {
    let mode = read_mode();
    let k = if deep() { 2 } else { 1 };
    crash(k, mode, false);
}

/// One operation that gives space back, interrupted anywhere, with the background thread running at any time.
#[no_mangle]
pub extern "C" fn h_crash_race() {
    crash(1, 0, true);
}

extern "C" fn dies_opening() {
    cfg("crash", 1);
    let h = open();
    put(&h, b"a", 1, plan().len[0]);
    let _ = std::fs::create_dir("done0");
}

/// Opening interrupted: a new directory, or one of an older version.
#[no_mangle]
pub extern "C" fn h_crash_open() {
    let p = plan();
    p.len[0] = len2("n");
    if flag("old") {
        {
            let h = open();
            put(&h, b"b", 2, 500);
        }
        drain();
        let c = rusqlite::Connection::open("d/manifest.db").unwrap();
        if flag("not wal") {
            c.query_row("pragma journal_mode=delete", [], |_| Ok(())).unwrap();
        }
        c.pragma_update(None, "user_version", 2).unwrap();
        drop(c);
        reach("old");
    }
    let mut died = child(dies_opening);
    if deep() && died && flag("twice") {
        died = child(dies_opening);
        reach("twice");
    }
    let h = open();
    let mut m = Map::new();
    let done = std::fs::metadata("done0").is_ok();
    check(died || done, "all is done");
    let there = h.read_single(b"a").unwrap().is_some();
    check(there || !done, "what was committed is there after a crash");
    if there {
        m.put(b"a", 1, p.len[0]);
        reach("written");
    } else {
        reach("not written");
    }
    check_map(&h, &m, &KEYS, "opened after a crash");
    let n = len2("more");
    put(&h, b"c", 3, n);
    m.put(b"c", 3, n);
    let h2 = open();
    check_map(&h2, &m, &KEYS, "opened and written after a crash");
    drain();
    check_map(&h, &m, &KEYS, "opened and written after a crash");
}
