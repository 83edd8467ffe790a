//! C09, C10: prefixes and renames.
use crate::st::*;
use crate::sym::*;
use possum::*;

/// a key of n arbitrary bytes
fn any_key(n: u64) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(byte("k"));
    }
    v
}
fn starts(k: &[u8], p: &[u8]) -> bool {
    if k.len() < p.len() {
        return false;
    }
    let mut r = true;
    for i in 0..p.len() {
        r = r & (k[i] == p[i]);
    }
    r
}
fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && starts(a, b)
}
fn count(items: &[(Vec<u8>, u64)], k: &[u8], n: u64) -> u64 {
    let mut c = 0;
    for (a, l) in items {
        if a.len() == k.len() {
            c += (starts(a, k) & (*l == n)) as u64;
        }
    }
    c
}
fn list(h: &Handle, p: &[u8]) -> Vec<(Vec<u8>, u64)> {
    h.list_items(p).unwrap().into_iter().map(|i| (i.key.clone(), i.value.length())).collect()
}

/// C09: two keys and a prefix of arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_list() {
    let h = open();
    let top = if deep() { 4 } else { 3 };
    let keys = [any_key(choice("len", top)), any_key(choice("len", top))];
    assume(!same(&keys[0], &keys[1]));
    // (empty values: nothing to reclaim)
    let mut w = h.new_writer().unwrap();
    for i in 0..2 {
        let mut v = w.new_value().begin().unwrap();
        if i == 1 {
            write_all(&mut v, &content_max(1, 4096), 200);
        }
        w.stage_write(keys[i].clone(), v).unwrap();
    }
    w.commit().unwrap();
    let n = [0, 200];
    let p = any_key(choice("prefix", top));
    match choice("op", 3) {
        0 => {
            let got = list(&h, &p);
            let mut want = 0;
            for i in 0..2 {
                let yes = starts(&keys[i], &p) as u64;
                want += yes;
                check(count(&got, &keys[i], n[i]) == yes, "a listing shows exactly the keys with the prefix");
            }
            check(got.len() as u64 == want, "a listing shows nothing else");
            let r = h.read().unwrap();
            check(r.list_items(&p).unwrap().len() as u64 == want, "a read transaction lists the same");
            reach("list");
        }
        1 => {
            h.delete_prefix(&p).unwrap();
            let got = list(&h, b"");
            let mut want = 0;
            for i in 0..2 {
                let stays = !starts(&keys[i], &p) as u64;
                want += stays;
                check(count(&got, &keys[i], n[i]) == stays, "a prefix deletion deletes exactly the keys with the prefix");
            }
            check(got.len() as u64 == want, "a prefix deletion leaves nothing else");
            reach("delete");
        }
        _ => {
            // moved somewhere no other key is
            let to: &[u8] = b"zzzzz";
            let moved = h.move_prefix(&p, to).is_ok();
            let got = list(&h, b"");
            check(moved, "a prefix moves");
            check(got.len() == 2, "a prefix move keeps the number of keys");
            for i in 0..2 {
                let mut k = to.to_vec();
                if keys[i].len() >= p.len() {
                    k.extend_from_slice(&keys[i][p.len()..]);
                }
                let yes = starts(&keys[i], &p);
                check(count(&got, &k, n[i]) == yes as u64, "a prefix move renames the keys with the prefix");
                check(count(&got, &keys[i], n[i]) == !yes as u64, "a prefix move renames no other key");
            }
            reach("move");
        }
    }
}

const A: &[u8] = b"a";
const AB: &[u8] = b"ab";
const B: &[u8] = b"b";
const C: &[u8] = b"c";
const KEYS: [&[u8]; 4] = [A, AB, B, C];

fn some_store(h: &Handle, m: &mut Map) {
    let n = len2("n");
    put(h, A, 1, n);
    m.put(A, 1, n);
    if flag("ab") {
        let n = if flag("empty") { 0 } else { len2("n") };
        put(h, AB, 2, n);
        m.put(AB, 2, n);
    }
    if flag("b") {
        let n = if flag("empty") { 0 } else { len2("n") };
        put(h, B, 3, n);
        m.put(B, 3, n);
    }
}
fn used(h: &Handle, k: &[u8]) -> i64 {
    let items = h.list_items(k).unwrap();
    items.iter().find(|i| i.key == k).map(|i| i.value.last_used().and_utc().timestamp_millis()).unwrap_or(-1)
}

/// C10: rename an item, any source and target.
#[no_mangle]
pub extern "C" fn h_rename_item() {
    let mut h = open();
    let mut m = Map::new();
    some_store(&h, &mut m);
    advance_ms(50);
    let (i, j) = (choice("from", 3) as usize, choice("to", 4) as usize);
    let (from, to) = (KEYS[i], KEYS[j]);
    let t0 = used(&h, from);
    let r = h.rename_item(from, to);
    match (m.get(from), r) {
        (None, Err(possum::Error::NoSuchKey)) => reach("no such key"),
        (None, _) => check(false, "renaming an absent key fails with the no-such-key error"),
        (Some(e), Ok(t)) => {
            check(from == to || m.get(to).is_none(), "a rename onto another value succeeds");
            check(t.and_utc().timestamp_millis() == t0, "a rename reports the last use");
            m.del(from);
            m.put(to, e.tag, e.len);
            check(used(&h, to) == t0, "a rename keeps the last use");
            reach("renamed");
        }
        (Some(_), Err(_)) => {
            check(from != to && m.get(to).is_some(), "a rename onto a free key fails");
            reach("taken");
        }
    }
    check_map(&h, &m, &KEYS, "after a rename");
    drain();
    check_map(&h, &m, &KEYS, "after a rename and reclamation");
}

/// C10: rename values in a batch, with another write or rename in it.
#[no_mangle]
pub extern "C" fn h_rename_value() {
    let h = open();
    let mut m = Map::new();
    some_store(&h, &mut m);
    let from = KEYS[choice("from", 2) as usize];
    let to = KEYS[choice("to", 4) as usize];
    let Some(e) = m.get(from) else { return };
    let mut r = h.read().unwrap();
    let v = r.add(from).unwrap().unwrap();
    let snap = r.begin().unwrap();
    let x = snap.value(v);
    let mut gone = false;
    match choice("meanwhile", 4) {
        0 => {}
        1 => {
            // the value goes away
            h.single_delete(from).unwrap();
            m.del(from);
            gone = true;
            reach("source gone");
        }
        2 => {
            // it is replaced: what was there before is gone
            put(&h, from, 5, 333);
            m.put(from, 5, 333);
            gone = true;
            reach("source replaced");
        }
        _ => {
            drain();
        }
    }
    let mut w = h.new_writer().unwrap();
    let other = choice("other", 3);
    if other == 1 {
        // (a write to a key of its own; writes come first)
        stage(&mut w, b"d", 6, 444);
    }
    w.rename_value(v, to.to_vec());
    if other == 2 {
        // and further
        w.rename_value(v, b"e".to_vec());
    }
    w.commit().unwrap();
    if other == 1 {
        m.put(b"d", 6, 444);
    }
    if e.len != 0 && !gone {
        m.del(from);
        m.put(to, e.tag, e.len);
        if other == 2 {
            m.del(to);
            m.put(b"e", e.tag, e.len);
        }
        reach("renamed");
    }
    const ALL: [&[u8]; 6] = [A, AB, B, C, b"d", b"e"];
    check_map(&h, &m, &ALL, "after a rename of a value");
    drop(x);
    drop(snap);
    drain();
    check_map(&h, &m, &ALL, "after a rename of a value and reclamation");
}

/// C10: move a prefix onto another one, with collisions.
#[no_mangle]
pub extern "C" fn h_move_prefix() {
    let h = open();
    let mut m = Map::new();
    some_store(&h, &mut m);
    const PS: [&[u8]; 4] = [b"", A, AB, B];
    let from = PS[choice("from", 4) as usize];
    let to = PS[choice("to", 4) as usize];
    let r = h.move_prefix(from, to);
    if r.is_ok() {
        let mut n = Map::new();
        const ALL: [&[u8]; 16] = [b"", b"a", b"ab", b"b", b"aa", b"aab", b"ba", b"bab", b"abb", b"bb", b"aba", b"abab", b"aabb", b"abbb", b"bbb", b"ac"];
        let mut clash = false;
        for e in &m.0 {
            if e.key.starts_with(from) {
                let mut k = to.to_vec();
                k.extend_from_slice(&e.key[from.len()..]);
                let k = ALL.iter().find(|x| ***x == k[..]).unwrap();
                clash |= n.get(k).is_some();
                n.put(k, e.tag, e.len);
            } else {
                clash |= n.get(e.key).is_some();
                n.put(e.key, e.tag, e.len);
            }
        }
        check(!clash, "a prefix move that would lose a value succeeds");
        check_map(&h, &n, &ALL[..12], "after a prefix move");
        reach("moved");
    } else {
        check_map(&h, &m, &KEYS, "a prefix move that fails changes nothing");
        reach("failed");
    }
}
