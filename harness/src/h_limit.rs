//! C07, C08: limits and eviction.
use crate::st::*;
use crate::sym::*;
use possum::*;

const KEYS: [&[u8]; 4] = [b"a", b"b", b"c", b"d"];

fn total(h: &Handle) -> u64 {
    let mut s = 0;
    for i in h.list_items(b"").unwrap() {
        s += i.value.length();
    }
    let acc = h.start_deferred_transaction_for_read().unwrap().sum_value_length().unwrap();
    check(acc == s, "the accounted total differs from the sum of the lengths");
    s
}

/// C07: any limit, any history of writes, replacements, deletes and renames.
#[no_mangle]
pub extern "C" fn h_limit() {
    let mut h = open();
    let max = val("max", 0, 30000);
    let limited_from = choice("limited from", 2);
    if limited_from == 0 {
        limits(&mut h, Some(max), true);
    }
    let mut limited = limited_from == 0;
    let steps = if deep() { 4 } else { 3 };
    for i in 0..steps {
        if i == 1 && !limited {
            limits(&mut h, Some(max), true);
            limited = true;
        }
        let before = total(&h);
        match choice("op", 4) {
            0 | 1 if i == 0 => {
                put(&h, KEYS[0], 10, len2("len"));
                reach("first");
            }
            0 => {
                let key = KEYS[choice("key", 3) as usize];
                let n = len2("len");
                put(&h, key, 10 + i, n);
                reach("put");
            }
            1 => {
                // a batch of two
                let mut w = h.new_writer().unwrap();
                let (n, m) = (len2("len"), len2("len"));
                stage(&mut w, KEYS[choice("key", 2) as usize], 10 + i, n);
                stage(&mut w, KEYS[2], 20 + i, m);
                w.commit().unwrap();
                reach("batch");
            }
            2 => {
                let key = KEYS[choice("key", 2) as usize];
                let deleted = h.single_delete(key).unwrap();
                check(total(&h) <= before, "a delete lowers the total");
                if deleted.is_none() {
                    // (nothing is committed)
                    continue;
                }
                reach("delete");
            }
            _ => {
                match h.rename_item(KEYS[0], KEYS[2 + choice("to", 2) as usize]) {
                    Ok(_) => reach("rename"),
                    Err(_) => {}
                }
                continue;
            }
        }
        let t = total(&h);
        if limited {
            check(t <= max, "the total exceeds the limit after a commit");
        }
    }
    // what is left is intact
    for it in h.list_items(b"").unwrap() {
        if it.key == KEYS[2] {
            let x = h.read_single(KEYS[2]).unwrap().unwrap();
            check(x.length() == it.value.length(), "a value that stays");
        }
    }
    observe("total", total(&h));
}

/// C07: without a limit nothing goes away.
#[no_mangle]
pub extern "C" fn h_no_limit() {
    let mut h = open();
    if flag("lifted") {
        limits(&mut h, Some(50), false);
        limits(&mut h, None, false);
    }
    let mut m = Map::new();
    for i in 0..3u64 {
        let n = len2("len");
        put(&h, KEYS[i as usize], 1 + i, n);
        m.put(KEYS[i as usize], 1 + i, n);
    }
    drain();
    check_map(&h, &m, &KEYS, "without a limit");
    reach("end");
}

/// C08: the least recently used values go, and only enough.
#[no_mangle]
pub extern "C" fn h_evict() {
    let mut h = open();
    let mut len = [0u64; 4];
    let mut used = [0u64; 4];
    let mut now = 1u64;
    // (values used at the same instant)
    let tied = choice("tied", 3) as usize;
    for i in 0..3 {
        len[i] = len2("len");
        put(&h, KEYS[i], 1 + i as u64, len[i]);
        used[i] = now;
        if if deep() { flag("tick") } else { tied != i + 1 } {
            advance_ms(1 + i as u64 * 1000);
            now += 1 + i as u64 * 1000;
        }
    }
    // one is used again: read, listed (which is no use), replaced or renamed
    let k = choice("again", 3) as usize;
    let mut tag = 1 + k as u64;
    match choice("use", 4) {
        0 => {
            let _ = h.read_single(KEYS[k]).unwrap().unwrap();
            used[k] = now;
            reach("read");
        }
        1 => {
            tag = 10;
            len[k] = if deep() { len2("len") } else { 900 };
            put(&h, KEYS[k], tag, len[k]);
            used[k] = now;
            reach("replaced");
        }
        2 => {
            let _ = h.list_items(KEYS[k]).unwrap();
            reach("listed");
        }
        _ => {}
    }
    advance_ms(5);
    now += 5;
    let max = val("max", 0, 45000);
    limits(&mut h, Some(max), true);
    len[3] = len2("len");
    put(&h, KEYS[3], 20, len[3]);
    used[3] = now;
    let items = h.list_items(b"").unwrap();
    let mut kept = [false; 4];
    for it in &items {
        for i in 0..4 {
            if it.key == KEYS[i] {
                kept[i] = true;
                check(it.value.length() == len[i], "what is kept is intact");
            }
        }
    }
    let mut sum = 0;
    let mut newest = 0;
    let mut any = false;
    for i in 0..4 {
        if kept[i] {
            sum += len[i];
        } else {
            any = true;
            if used[i] > newest {
                newest = used[i];
            }
        }
    }
    check(sum <= max, "the limit");
    for i in 0..4 {
        for j in 0..4 {
            if !kept[i] && kept[j] {
                check(used[i] <= used[j], "a value is evicted while one used earlier is kept");
            }
        }
    }
    if any {
        // one of those evicted last was needed
        let mut ok = false;
        for i in 0..4 {
            if !kept[i] && used[i] == newest {
                ok = ok | (sum + len[i] > max);
            }
        }
        check(ok, "more is evicted than needed");
        reach("evicted");
    } else {
        reach("nothing evicted");
    }
    drain();
    if kept[k] {
        let x = h.read_single(KEYS[k]).unwrap().unwrap();
        check_snap(&x, tag, len[k], "what is kept reads back");
    }
    observe("sum", sum);
}

/// C08: the last-use time shown is that of the last use.
#[no_mangle]
pub extern "C" fn h_last_used() {
    let h = open();
    let n = len2("n");
    put(&h, b"a", 1, n);
    put(&h, b"b", 2, 500);
    let t = |k: &[u8]| h.list_items(k).unwrap()[0].value.last_used().and_utc().timestamp_millis();
    let (a0, b0) = (t(b"a"), t(b"b"));
    let d = choice("ms", 3) * 7;
    advance_ms(d);
    let use_ = choice("use", 3);
    match use_ {
        0 => {
            let x = h.read_single(b"a").unwrap().unwrap();
            check(x.last_used().and_utc().timestamp_millis() >= a0 + d as i64, "a read tells when");
            check(t(b"a") == x.last_used().and_utc().timestamp_millis(), "a read is a use");
        }
        1 => {
            put(&h, b"a", 3, 600);
            check(t(b"a") >= a0 + d as i64, "a write is a use");
        }
        _ => {
            let _ = h.list_items(b"").unwrap();
            check(t(b"a") == a0, "a listing is no use");
        }
    }
    check(t(b"b") == b0, "another value is not used");
    reach("end");
}
