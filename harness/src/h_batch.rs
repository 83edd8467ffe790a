//! C11, C12: several batches, and reclamation around what is being written.
use crate::st::*;
use crate::sym::*;
use possum::*;

const KEYS: [&[u8]; 3] = [b"a", b"b", b"c"];

struct Job<'h> {
    w: Option<BatchWriter<&'h Handle>>,
    v: Option<ValueWriter>,
    step: u64,
    tag: u64,
    n: u64,
    k: usize,
    drops: u64,
}
impl<'h> Job<'h> {
    fn new(h: &'h Handle, k: usize) -> Self {
        Job { w: Some(h.new_writer().unwrap()), v: None, step: 0, tag: 10 + k as u64, n: 0, k, drops: choice("end", 4) }
    }
    fn done(&self) -> bool {
        self.step == 4
    }
    fn go(&mut self, m: &mut Map) {
        match self.step {
            0 => self.v = Some(self.w.as_mut().unwrap().new_value().begin().unwrap()),
            1 => {
                let n = len2("len");
                write_all(self.v.as_mut().unwrap(), &content(self.tag), n);
                self.n = n;
            }
            2 => {
                if self.drops == 1 {
                    // the value is given up
                    self.v = None;
                } else {
                    self.w.as_mut().unwrap().stage_write(KEYS[self.k].to_vec(), self.v.take().unwrap()).unwrap();
                }
            }
            _ => {
                if self.drops == 2 {
                    // the batch is dropped
                    self.w = None;
                } else {
                    let r = self.w.take().unwrap().commit().unwrap();
                    check(r.count() == (self.drops != 1) as usize, "the commit counts its writes");
                    if self.drops != 1 {
                        m.put(KEYS[self.k], self.tag, self.n);
                    }
                }
            }
        }
        self.step += 1;
    }
}

/// C11: two batches at once, in every order of their steps, on one handle or two.
#[no_mangle]
pub extern "C" fn h_batches() {
    if flag("flock") {
        cfg("freebsd", 1);
    }
    let h = open();
    let two = flag("two handles");
    let h2 = if two { Some(open()) } else { None };
    let mut m = Map::new();
    if flag("before") {
        let n = len2("n");
        put(&h, b"c", 1, n);
        m.put(b"c", 1, n);
    }
    {
        let mut j = Job::new(&h, 0);
        let mut k = Job::new(h2.as_ref().unwrap_or(&h), 1);
        while !j.done() || !k.done() {
            if k.done() || (!j.done() && flag("first")) {
                j.go(&mut m);
            } else {
                k.go(&mut m);
            }
        }
    }
    // a batch after them uses what they left
    let n = len2("n");
    put(&h, b"c", 3, n);
    m.put(b"c", 3, n);
    check_disjoint(&h);
    check_map(&h, &m, &KEYS, "batches at once each commit their bytes");
    drain();
    check_map(&h, &m, &KEYS, "batches at once each commit their bytes, after reclamation");
    reach(if two { "two handles" } else { "one handle" });
}

/// C11: one batch with several values begun at once and staged in another order, twice over.
#[no_mangle]
pub extern "C" fn h_batch_pool() {
    let h = open();
    let mut m = Map::new();
    for round in 0..2u64 {
        let mut w = h.new_writer().unwrap();
        let mut vs = vec![];
        for i in 0..2usize {
            let mut v = w.new_value().begin().unwrap();
            let n = len2("n");
            write_all(&mut v, &content(10 * (round + 1) + i as u64), n);
            vs.push((i, n, v));
        }
        let dropped = round == 0 && flag("dropped");
        if flag("swap") {
            vs.swap(0, 1);
        }
        for (i, n, v) in vs {
            w.stage_write(KEYS[i].to_vec(), v).unwrap();
            if !dropped {
                m.put(KEYS[i], 10 * (round + 1) + i as u64, n);
            }
        }
        // another value in a file of theirs
        let n = len2("n");
        stage(&mut w, b"c", 50 + round, n);
        if dropped {
            drop(w);
        } else {
            m.put(b"c", 50 + round, n);
            check(w.commit().unwrap().count() == 3, "the commit counts its writes");
        }
    }
    check_disjoint(&h);
    check_map(&h, &m, &KEYS, "values begun at once");
    drain();
    check_map(&h, &m, &KEYS, "values begun at once, after reclamation");
    reach("end");
}

/// C12: neighbours are deleted and reclaimed while a value is being written.
#[no_mangle]
pub extern "C" fn h_write_reclaim() {
    let h = open();
    let h2 = open();
    let mut m = Map::new();
    let (n0, n1) = (len2("n0"), len2("n1"));
    put(&h, b"a", 1, n0);
    m.put(b"a", 1, n0);
    put(&h, b"b", 2, n1);
    m.put(b"b", 2, n1);
    let at = choice("at", 4);
    let how = choice("how", 4);
    let mut hit = |k: u64, m: &mut Map| {
        if k != at {
            return;
        }
        match how {
            0 => {
                h.single_delete(b"b").unwrap();
                m.del(b"b");
            }
            1 => {
                h2.single_delete(b"b").unwrap();
                m.del(b"b");
            }
            2 => {
                h2.delete_prefix(b"").unwrap();
                m.0.clear();
            }
            _ => {
                // (all, by the handle that writes, one by one)
                h.single_delete(b"a").unwrap();
                drain();
                h.single_delete(b"b").unwrap();
                m.del(b"a");
                m.del(b"b");
            }
        }
        drain();
    };
    let mut w = h.new_writer().unwrap();
    let mut v = w.new_value().begin().unwrap();
    hit(0, &mut m);
    let n = len2("n");
    let c = content(3);
    write_all(&mut v, &c, n);
    hit(1, &mut m);
    let staged_twice = flag("second");
    w.stage_write(b"c".to_vec(), v).unwrap();
    if staged_twice {
        stage(&mut w, b"d", 4, 600);
    }
    hit(2, &mut m);
    w.commit().unwrap();
    m.put(b"c", 3, n);
    if staged_twice {
        m.put(b"d", 4, 600);
    }
    hit(3, &mut m);
    const ALL: [&[u8]; 4] = [b"a", b"b", b"c", b"d"];
    check_map(&h, &m, &ALL, "what was written while neighbours were reclaimed");
    drain();
    check_map(&h2, &m, &ALL, "what was written while neighbours were reclaimed, later");
    check_disjoint(&h);
    reach("end");
}

/// C12: reclamation that could not go on for a reader is finished afterwards.
#[no_mangle]
pub extern "C" fn h_reclaim_later() {
    let h = open();
    let mut m = Map::new();
    let (n0, n1) = (len2("n0"), val("n1", 5000, 12000));
    put(&h, b"a", 1, n0);
    m.put(b"a", 1, n0);
    put(&h, b"b", 2, n1);
    m.put(b"b", 2, n1);
    put(&h, b"c", 3, 500);
    m.put(b"c", 3, 500);
    let (path, off, len) = place(&h, b"b").unwrap();
    let x = h.read_single(b"b").unwrap().unwrap();
    h.single_delete(b"b").unwrap();
    m.del(b"b");
    drain();
    check_snap(&x, 2, n1, "what a reader uses is not reclaimed");
    let b = val("block", 0, 6);
    assume(b * 4096 >= off);
    assume(b * 4096 + 4096 <= off + len);
    drop(x);
    advance_ms(3000);
    drain();
    check(!block(&path, b), "what a reader used is reclaimed afterwards");
    reach("reclaimed");
    check_map(&h, &m, &KEYS, "after a late reclamation");
}
