//! C15: opening a directory again.
use crate::st::*;
use crate::sym::*;
use possum::*;

const KEYS: [&[u8]; 4] = [b"a", b"b", b"c", b"d"];

extern "C" fn writes_and_ends() {
    let h = open();
    put(&h, b"d", 9, 777);
    std::mem::forget(h);
}

/// Contents are there again, however the directory was left and however it is opened.
#[no_mangle]
pub extern "C" fn h_reopen() {
    let mode = read_mode();
    let mut m = Map::new();
    let mut h = open();
    check_map(&h, &m, &KEYS, "a new directory is empty");
    for i in 0..2usize {
        let n = len2("n");
        put(&h, KEYS[i], 1 + i as u64, n);
        m.put(KEYS[i], 1 + i as u64, n);
    }
    let rounds = if deep() { 3 } else { 2 };
    for round in 0..rounds {
        match choice("then", 6) {
            0 => {
                let n = len2("n");
                put(&h, KEYS[2], 10 + round, n);
                m.put(KEYS[2], 10 + round, n);
            }
            1 => {
                h.single_delete(KEYS[0]).unwrap();
                m.del(KEYS[0]);
            }
            2 => {
                // a batch that never commits
                let mut w = h.new_writer().unwrap();
                stage(&mut w, KEYS[1], 20, 900);
            }
            3 => {
                let _ = h.rename_item(KEYS[1], KEYS[3]);
                if let Some(e) = m.get(KEYS[1]) {
                    if m.get(KEYS[3]).is_none() {
                        m.del(KEYS[1]);
                        m.put(KEYS[3], e.tag, e.len);
                    }
                }
            }
            4 => {
                put(&h, KEYS[1], 30 + round, 0);
                m.put(KEYS[1], 30 + round, 0);
            }
            _ => {}
        }
        match choice("reopen", 4) {
            0 => {
                drop(h);
                if flag("drain") {
                    drain();
                }
                h = open();
                reach("again");
            }
            1 => {
                // while the other is open
                let h2 = open();
                check_map(&h2, &m, &KEYS, "opened while it is open");
                check_map(&h, &m, &KEYS, "open while it is opened");
                h = h2;
                reach("both");
            }
            2 => {
                // by another process, which writes and ends
                check(!child(writes_and_ends), "the process ends");
                m.put(KEYS[3], 9, 777);
                reach("process");
            }
            _ => {
                let held = h.read_single(KEYS[1]).unwrap();
                drop(h);
                h = open();
                drop(held);
                reach("held");
            }
        }
        check_map(&h, &m, &KEYS, "opened again");
        observe("sum", m.sum());
    }
    drain();
    check_map(&h, &m, &KEYS, "opened again, after reclamation");
    check_disjoint(&h);
    observe("mode", mode);
}

/// A manifest of any version.
#[no_mangle]
pub extern "C" fn h_version() {
    let n = len2("n");
    let mut m = Map::new();
    {
        let h = open();
        put(&h, b"a", 1, n);
        m.put(b"a", 1, n);
        put(&h, b"b", 2, 0);
        m.put(b"b", 2, 0);
        if flag("unreclaimed") {
            put(&h, b"c", 3, 700);
            h.single_delete(b"c").unwrap();
        }
    }
    drain();
    std::fs::write("d/other", b"o").unwrap();
    // everything into the database file, then its version: the 4 bytes at 60
    let c = rusqlite::Connection::open("d/manifest.db").unwrap();
    c.query_row("pragma journal_mode=delete", [], |_| Ok(())).unwrap();
    c.pragma_update(None, "user_version", 2).unwrap();
    drop(c);
    let v = val("version", 0, u32::MAX as u64) as u32;
    {
        use std::os::unix::fs::FileExt;
        let f = std::fs::OpenOptions::new().write(true).open("d/manifest.db").unwrap();
        f.write_at(&v.to_be_bytes(), 60).unwrap();
    }
    let current = v == 3;
    let old = v < 3;
    let files = |h: &Handle| h.walk_dir().unwrap().iter().filter(|e| e.entry_type == walk::EntryType::ValuesFile).count();
    match Handle::new(dir()) {
        Ok(h) => {
            if old {
                m = Map::new();
                check(files(&h) == 0, "the values files of an old format are gone");
                reach("reset");
            } else {
                check(files(&h) == 1, "the values files stay");
                reach(if current { "current" } else { "newer" });
            }
            const KEYS: [&[u8]; 3] = [b"a", b"b", b"c"];
            check_map(&h, &m, &KEYS, if old { "an old format is reset to empty" } else { "a format that is not old is not reset" });
            check(std::fs::metadata("d/other").is_ok(), "an unknown file stays");
            let k = len2("k");
            put(&h, b"c", 5, k);
            m.put(b"c", 5, k);
            check_map(&h, &m, &KEYS, "a directory opened with any version works");
            drop(h);
            drain();
            let h = open();
            check_map(&h, &m, &KEYS, "a directory opened with any version is not reset again");
        }
        Err(_) => {
            check(!old & !current, "opening fails");
            check(std::fs::read_dir("d").unwrap().filter(|e| e.as_ref().unwrap().file_name().to_str().unwrap().starts_with("values-")).count() == 1, "a failed opening deletes values");
            reach("refused");
        }
    }
    observe("old", old as u64);
}
