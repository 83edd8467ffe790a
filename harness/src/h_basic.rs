use crate::sym::*;
use possum::*;
use std::path::PathBuf;

pub fn dir() -> PathBuf {
    PathBuf::from("d")
}

#[no_mangle]
pub extern "C" fn h_smoke() {
    let handle = Handle::new(dir()).unwrap();
    let v = [7u8; 100];
    handle.single_write_from(b"a".to_vec(), &v[..]).unwrap();
    let x = handle.read_single(b"a").unwrap().unwrap();
    check(x.length() == 100, "length");
    let mut buf = [0u8; 100];
    let n = positioned_io::ReadAt::read_at(&x, 0, &mut buf).unwrap();
    observe("n", n as u64);
    check(buf == v, "content");
    reach("end");
}
