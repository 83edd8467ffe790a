//! C18: enumeration of holes. C20: names of files.
use crate::st::*;
use crate::sym::*;
use possum::sys::seekhole::{file_regions, RegionType};
use possum::sys::punchfile;
use possum::*;
use rusqlite::types::{FromSql, ToSql, ToSqlOutput, Value as V, ValueRef};
use std::os::unix::fs::FileExt;

const BS: u64 = 4096;

#[no_mangle]
pub extern "C" fn h_regions() {
    let n = if deep() { 7 } else { 5 };
    std::fs::create_dir("d").unwrap();
    let path = "d/values-00000001";
    let mut f = std::fs::OpenOptions::new().create(true).read(true).write(true).open(path).unwrap();
    let size = val("size", 0, n * BS);
    let how = choice("how", 2);
    let c = content(1);
    if how == 0 {
        // written here and there in a sparse file
        f.set_len(size).unwrap();
        for i in 0..n {
            if (i * BS < size) && flag("written") {
                let at = i * BS + val("at", 0, BS - 1);
                assume(at < size);
                f.write_at(&c[..1], at).unwrap();
            }
        }
        reach("written");
    } else {
        // punched here and there
        f.write_at(&c[..size as usize], 0).unwrap();
        for _ in 0..if deep() { 3 } else { 2 } {
            let a = val("from", 0, n * BS);
            let k = val("for", 1, n * BS);
            // (whether a last block that is not full goes away then is up to the file system)
            assume((a + k) % BS == 0 || a + k < size);
            punchfile(&f, a, k).unwrap();
        }
        reach("punched");
    }
    let rs = file_regions(&mut f).unwrap();
    let mut at = 0;
    let p = val("position", 0, n * BS);
    let mut said = None;
    for r in &rs {
        check(r.start == at, "regions abut, from 0");
        check(r.end > r.start, "regions are not empty");
        check(r.length() == r.end - r.start, "the length of a region");
        at = r.end;
        if p >= r.start && p < r.end {
            said = Some(r.region_type);
        }
    }
    check(at == size, "regions end at the size of the file");
    for w in rs.windows(2) {
        check(w[0].region_type != w[1].region_type, "regions alternate");
    }
    check(said.is_some() == (p < size), "every position is in a region");
    if let Some(t) = said {
        check((t == RegionType::Data) == block(path, p / BS), "a region is what the file system says");
        reach(if t == RegionType::Data { "data" } else { "hole" });
    }
    if rs.is_empty() {
        reach("empty");
    }
    let again = file_regions(&mut f).unwrap();
    check(again.len() == rs.len(), "regions are the same again");
    observe("regions", rs.len() as u64);
}

/// (the type of an id has no public name)
fn from_sql<T: FromSql>(_: impl Fn(T) -> NonzeroValueLocation, v: i64) -> Option<T> {
    T::column_result(ValueRef::Integer(v)).ok()
}
macro_rules! id {
    ($v:expr) => {
        from_sql(|file_id| NonzeroValueLocation { file_id, file_offset: 0, length: 1 }, $v)
    };
}

#[no_mangle]
pub extern "C" fn h_file_id() {
    let v = val("id", 0, u32::MAX as u64);
    let Some(id) = id!(v as i64) else { return check(false, "every 32-bit number is an id") };
    let name = id.values_file_path();
    // the name parses back (so that distinct ids have distinct names)
    let e = walk::Entry { path: std::path::Path::new("some/dir").join(&name), entry_type: walk::EntryType::ValuesFile };
    let back = e.file_id();
    check(back.is_some(), "the name of a values file parses");
    let back = back.unwrap();
    check(back == id, "the name of a values file is of its id");
    // and is stored as it is
    let sql = |x: &dyn ToSql| match x.to_sql() {
        Ok(ToSqlOutput::Owned(V::Integer(i))) => i as u64,
        _ => u64::MAX,
    };
    check(sql(&back) == v, "an id is stored as its number");
    let e = walk::Entry { path: std::path::Path::new("some/dir").join(&name), entry_type: walk::EntryType::SnapshotValue };
    check(e.file_id() == Some(id), "the name of a snapshot's file is of its id");
    for t in [walk::EntryType::ManifestFile, walk::EntryType::SnapshotDir, walk::EntryType::Unknown] {
        let e = walk::Entry { path: std::path::Path::new("some/dir").join(&name), entry_type: t };
        check(e.file_id().is_none(), "other files have no id");
    }
    let hex = format!("{:08x}", v as u32);
    let parsed = hex.parse();
    check(parsed.ok() == Some(id), "the hexadecimal number of an id parses");
    reach("id");
}


/// A directory with anything in it.
#[no_mangle]
pub extern "C" fn h_walk() {
    use walk::EntryType::*;
    // (a store, or not)
    let store = flag("store");
    let mut m = Map::new();
    if store {
        let h = open();
        put(&h, b"a", 1, 5000);
        m.put(b"a", 1, 5000);
    } else {
        std::fs::create_dir("d").unwrap();
    }
    const NAMES: [&[u8]; 16] = [
        b"manifest.db", b"manifest.db-wal", b"manifest", b"manifest-db", b"values-", b"values-0000abcd", b"values", b"value-00000001", b"snapshot-", b"snapshot-x", b"snapshot", b"other", b"values-\xff\xfe", b"\xff\xfe",
        b"snapshot-\xff", b"Values-00000001",
    ];
    let i = choice("name", NAMES.len() as u64) as usize;
    let mut name = NAMES[i].to_vec();
    // and one byte anywhere that isn't what it was
    if flag("changed") {
        let p = choice("place", name.len() as u64) as usize;
        name[p] = 1 + choice("byte", 4) as u8 * 63;
        assume(name[p] != b'/');
    }
    use std::os::unix::ffi::OsStrExt;
    let path = std::path::Path::new("d").join(std::ffi::OsStr::from_bytes(&name));
    let is_dir = flag("directory");
    let what = std::path::Path::new(&path);
    // (SQLite's own files are not for others to make)
    if std::fs::metadata(what).is_ok() || (store && name.starts_with(b"manifest.db")) {
        return;
    }
    let inner: [(&[u8], bool, walk::EntryType); 4] = [(b"values-00000001", false, SnapshotValue), (b"values-00000002", true, Unknown), (b"x", false, Unknown), (b"\xff", false, Unknown)];
    let mut n = 0;
    if is_dir {
        std::fs::create_dir(what).unwrap();
        let mask = choice("inner", 16);
        for (i, x) in inner.iter().enumerate() {
            if mask >> i & 1 == 1 {
                let p = path.join(std::ffi::OsStr::from_bytes(x.0));
                if x.1 {
                    std::fs::create_dir(&p).unwrap();
                } else {
                    std::fs::write(&p, b"x").unwrap();
                }
                n |= 1 << i;
            }
        }
    } else {
        std::fs::write(what, b"x").unwrap();
    }
    let starts = |p: &[u8]| name.starts_with(p);
    let want = match is_dir {
        false if starts(b"manifest.db") => ManifestFile,
        false if starts(b"values-") => ValuesFile,
        true if starts(b"snapshot-") => SnapshotDir,
        _ => Unknown,
    };
    let r = walk::walk_dir("d");
    check(r.is_ok(), "walking a directory works whatever is in it");
    let r = r.unwrap();
    let mine: Vec<_> = r.iter().filter(|e| e.path == path).collect();
    check(mine.len() == 1, "each entry is met once");
    check(mine[0].entry_type == want, "an entry is what its name and type say");
    for (i, x) in inner.iter().enumerate() {
        let p = path.join(std::ffi::OsStr::from_bytes(x.0));
        let e: Vec<_> = r.iter().filter(|e| e.path == p).collect();
        if want == SnapshotDir && n >> i & 1 == 1 {
            check(e.len() == 1, "each file of a snapshot is met once");
            check(e[0].entry_type == x.2, "a file of a snapshot is what its name and type say");
            reach("snapshot");
        } else {
            check(e.is_empty(), "nothing else is met");
        }
    }
    if store {
        let h = open();
        check(h.cleanup_snapshots().is_ok(), "a cleanup works whatever is in the directory");
        check_map(&h, &m, &[b"a"], "a store with other files in its directory");
        // a cleanup removes nothing but snapshots
        if want != SnapshotDir {
            check(std::fs::metadata(what).is_ok(), "other files stay");
        } else {
            for (i, x) in inner.iter().enumerate().skip(1) {
                let p = path.join(std::ffi::OsStr::from_bytes(x.0));
                check(n >> i & 1 == 0 || std::fs::metadata(&p).is_ok(), "other files in a snapshot's directory stay");
            }
            check(std::fs::metadata(path.join("values-00000001")).is_err(), "a snapshot nobody uses is removed");
            check(n >> 1 != 0 || std::fs::metadata(what).is_err(), "a snapshot nobody uses is removed with its directory");
        }
        reach("cleaned up");
    }
    reach("walked");
}
