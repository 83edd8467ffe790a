//! Native replay: the harness interface backed by a recorded assignment, on the real kernel.
//!
//! The symbolic executor reports a path as the values of the variables it created. Here the same
//! harness runs as an ordinary program: variables take the recorded values, threads hand over to
//! each other only at blocking calls and where the recording says so, time is virtual, and chosen
//! system calls fail or end the process as recorded. Everything else is the real thing.
use std::arch::asm;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         out("rcx") _, out("r11") _, options(nostack));
    r
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// what must survive into child processes and back
#[repr(C)]
struct Shared {
    occ: [(u64, u32); 256],
    rng: u64,
    clock: u64,
    obs: [u8; 1 << 16],
    nobs: usize,
    ints: [u64; 16],
    preempt: u64,
    msg: [u8; 4096],
}
static mut SH: *mut Shared = std::ptr::null_mut();
static mut READY: bool = false;
static mut VALS: Vec<(String, u64)> = Vec::new();
static mut CHILD: bool = false;

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Futex(usize),
    Mutex(usize),
    Join(u64),
    File(u64),
    Sleep,
    Drain(u32),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Block(W, Option<u64>),
    Done,
}
struct Th {
    st: St,
    wake: Option<u32>,
    go: *mut u32,
    real: u64,
    pre_done: bool,
}
static mut TH: Vec<Th> = Vec::new();
static mut CUR: usize = 0;
static mut MUT: Vec<(usize, usize, u32)> = Vec::new();
static mut IDLE: u64 = 0;

#[allow(static_mut_refs)]
unsafe fn th() -> &'static mut Vec<Th> {
    &mut TH
}
unsafe fn sh() -> &'static mut Shared {
    &mut *SH
}
unsafe fn out(s: &str) {
    raw(1, 1, s.as_ptr() as usize, s.len(), 0, 0, 0);
}
unsafe fn die(kind: &str, msg: &str) -> ! {
    // the driver reads the last line
    if CHILD {
        let m = format!("{} {}", kind, msg);
        let b = &mut sh().msg;
        let n = m.len().min(4000);
        b[..n].copy_from_slice(&m.as_bytes()[..n]);
        b[n] = 0;
        raw(231, 55, 0, 0, 0, 0, 0);
    }
    dump();
    out(&format!("{} {}\n", kind, msg));
    raw(231, if kind == "DONE" { 0 } else { 10 }, 0, 0, 0, 0, 0);
    unreachable!()
}
unsafe fn dump() {
    let s = sh();
    out(std::str::from_utf8(&s.obs[..s.nobs]).unwrap_or(""));
}
fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h | 1
}
#[allow(static_mut_refs)]
unsafe fn next(name: &str, lo: u64) -> u64 {
    let h = hash(name);
    for e in sh().occ.iter_mut() {
        if e.0 == h || e.0 == 0 {
            e.0 = h;
            let k = format!("{}#{}", name, e.1);
            e.1 += 1;
            return VALS.iter().find(|x| x.0 == k).map_or(lo, |x| x.1);
        }
    }
    die("ERROR", "too many variable names")
}

unsafe fn text<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}

const K: [&str; 9] = ["fault", "faulterr", "faultmut", "crash", "preempt", "prefiles", "sched", "ficlone", "freebsd"];
unsafe fn int(k: &str) -> u64 {
    if !READY {
        return 0;
    }
    sh().ints[K.iter().position(|x| *x == k).unwrap()]
}
unsafe fn set_int(k: &str, v: u64) {
    sh().ints[K.iter().position(|x| *x == k).unwrap()] = v;
}

#[no_mangle]
unsafe extern "C" fn sym_u64(p: *const u8, n: usize, lo: u64, hi: u64) -> u64 {
    let v = next(text(p, n), lo);
    if v < lo || v > hi {
        die("ERROR", &format!("value of {} out of range", text(p, n)));
    }
    v
}
#[no_mangle]
unsafe extern "C" fn sym_assume(c: bool) {
    if !c {
        die("ASSUME", "an assumption does not hold");
    }
}
#[no_mangle]
unsafe extern "C" fn sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        die("VIOLATED", text(p, n));
    }
}
fn pat_byte(tag: u64, idx: u64) -> u8 {
    super::patf::pat_byte(tag, idx)
}
#[no_mangle]
unsafe extern "C" fn sym_check_pat(p: *const u8, len: usize, tag: u64, idx: u64, m: *const u8, n: usize) {
    for i in 0..len {
        let want = if tag == 0 { 0 } else { pat_byte(tag, idx + i as u64) };
        if *p.add(i) != want {
            die("VIOLATED", text(m, n));
        }
    }
}
#[no_mangle]
unsafe extern "C" fn sym_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
unsafe extern "C" fn sym_observe(p: *const u8, n: usize, v: u64) {
    let l = format!("OBS {} {}\n", text(p, n), v);
    let s = sh();
    if s.nobs + l.len() < s.obs.len() {
        s.obs[s.nobs..s.nobs + l.len()].copy_from_slice(l.as_bytes());
        s.nobs += l.len();
    }
}
#[no_mangle]
extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn sym_fill(p: *mut u8, len: usize, tag: u64) {
    for i in 0..len {
        *p.add(i) = pat_byte(tag, i as u64);
    }
}
#[no_mangle]
extern "C" fn sym_pat(tag: u64, idx: u64) -> u8 {
    pat_byte(tag, idx)
}
#[no_mangle]
unsafe extern "C" fn sym_drain() {
    block(W::Drain(3), None);
}
#[no_mangle]
unsafe extern "C" fn sym_cfg(p: *const u8, n: usize, v: u64) {
    if text(p, n) == "freebsd" && v == 1 {
        std::env::set_var("POSSUM_EMULATE_FREEBSD", "1");
    }
    set_int(text(p, n), v);
}
#[no_mangle]
unsafe extern "C" fn sym_deep() -> u64 {
    (std::env::var("PHARNESS_DEEP").as_deref() == Ok("1")) as u64
}
#[no_mangle]
unsafe extern "C" fn sym_advance_ms(ms: u64) {
    sh().clock += ms * 1_000_000;
}
#[no_mangle]
unsafe extern "C" fn sym_block(p: *const u8, n: usize, b: u64) -> u64 {
    let mut path = text(p, n).as_bytes().to_vec();
    path.push(0);
    let fd = raw(2, path.as_ptr() as usize, 0, 0, 0, 0, 0);
    if fd < 0 {
        return 0;
    }
    let r = raw(8, fd as usize, (b * 4096) as usize, 3, 0, 0, 0);
    raw(3, fd as usize, 0, 0, 0, 0, 0);
    (r == (b * 4096) as isize) as u64
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn sym_child(f: extern "C" fn()) -> u64 {
    sh().msg[0] = 0;
    let pid = raw(57, 0, 0, 0, 0, 0, 0);
    if pid == 0 {
        CHILD = true;
        let mut go = 1u32;
        let me = Th { st: St::Run, wake: None, go: &mut go, real: 0, pre_done: false };
        std::mem::forget(std::mem::replace(&mut TH, vec![me]));
        CUR = 0;
        MUT.clear();
        f();
        raw(231, 0, 0, 0, 0, 0, 0);
    }
    let mut st = 0i32;
    raw(61, pid as usize, &mut st as *mut i32 as usize, 0, 0, 0, 0);
    set_int("crash", 0);
    // (a process of its own would have drawn other random numbers)
    for _ in 0..1 << 12 {
        rand::random::<u64>();
    }
    if st == 0 {
        0
    } else if st == 77 << 8 {
        1
    } else {
        let b = &sh().msg;
        let n = b.iter().position(|x| *x == 0).unwrap_or(0);
        if n > 0 {
            let m = String::from_utf8_lossy(&b[..n]).into_owned();
            let (k, t) = m.split_once(' ').unwrap_or(("ERROR", ""));
            die(k, t);
        }
        die("PANIC", "in a child process");
    }
}

// ---- scheduling

unsafe fn wait_go(g: *mut u32) {
    while std::ptr::read_volatile(g) == 0 {
        raw(202, g as usize, 0, 0, 0, 0, 0);
    }
}
unsafe fn run_next(next: usize, me: usize) {
    CUR = next;
    if next != me {
        let t = &th()[next];
        std::ptr::write_volatile(t.go, 1);
        raw(202, t.go as usize, 1, 1, 0, 0, 0);
    }
}
/// chooses the next thread to run, as the executor does
unsafe fn schedule(me: usize) -> usize {
    let n = th().len();
    loop {
        let run: Vec<usize> = (0..n).map(|k| (me + k) % n).filter(|&i| th()[i].st == St::Run).collect();
        if !run.is_empty() {
            if run.len() > 1 && int("sched") == 1 {
                return run[next("sched", 0) as usize % run.len()];
            }
            return run[0];
        }
        if let Some(i) = (0..n).find(|&i| matches!(th()[i].st, St::Block(W::Drain(0), _))) {
            th()[i].st = St::Run;
            th()[i].wake = Some(0);
            return i;
        }
        let timer = (0..n)
            .filter_map(|i| match th()[i].st {
                St::Block(_, Some(u)) => Some((u, i)),
                _ => None,
            })
            .min();
        let far = match timer {
            Some((u, i)) if u <= sh().clock.saturating_add(3_000_000_000_000_000) => {
                for t in th().iter_mut() {
                    if let St::Block(W::Drain(k), _) = &mut t.st {
                        *k -= 1;
                    }
                }
                sh().clock = sh().clock.max(u);
                th()[i].st = St::Run;
                th()[i].wake = Some(1);
                IDLE += 1;
                if IDLE > 400 {
                    die("BLOCKED", "no progress");
                }
                continue;
            }
            _ => true,
        };
        if far {
            let mut any = false;
            for t in th().iter_mut() {
                if let St::Block(W::Drain(k), _) = &mut t.st {
                    *k = 0;
                    any = true;
                }
            }
            if !any {
                die("BLOCKED", "blocked forever");
            }
        }
    }
}
/// the running thread waits; returns its wake code
unsafe fn block(w: W, until: Option<u64>) -> u32 {
    let me = CUR;
    th()[me].st = St::Block(w, until);
    let g = th()[me].go;
    let n = schedule(me);
    if n != me {
        std::ptr::write_volatile(g, 0);
        run_next(n, me);
        wait_go(g);
    } else {
        CUR = me;
    }
    th()[me].wake.take().unwrap_or(0)
}
unsafe fn wake_file(ino: u64) {
    for t in th().iter_mut() {
        if let St::Block(W::File(i), _) = t.st {
            if i == ino {
                t.st = St::Run;
            }
        }
    }
}
/// a system call another thread may precede
static mut TRACE: bool = false;
unsafe fn visible(at: u32) {
    if !READY || int("preempt") == 0 {
        return;
    }
    let me = CUR;
    let n = th().len();
    let run: Vec<usize> = (0..n).map(|k| (me + k) % n).filter(|&i| th()[i].st == St::Run).collect();
    if run.len() < 2 {
        return;
    }
    // (after running again, the thread may be preempted again at the same call)
    loop {
        let run: Vec<usize> = (0..n).map(|k| (me + k) % n).filter(|&i| th()[i].st == St::Run).collect();
        if int("preempt") == 0 || run.len() < 2 {
            return;
        }
        let k = next("pre", 0) as usize;
        if TRACE {
            eprintln!("[{}] pre {} of {:?} line {}", me, k, run, at);
        }
        if k == 0 {
            return;
        }
        set_int("preempt", int("preempt") - 1);
        let g = th()[me].go;
        std::ptr::write_volatile(g, 0);
        run_next(run[k], me);
        wait_go(g);
    }
}

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    a: *mut c_void,
    idx: usize,
    go: *mut u32,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        wait_go(s.go);
        let r = (s.f)(s.a);
        let me = s.idx;
        th()[me].st = St::Done;
        for t in th().iter_mut() {
            if let St::Block(W::Join(i), _) = t.st {
                if i == me as u64 {
                    t.st = St::Run;
                }
            }
        }
        let n = schedule(me);
        run_next(n, me);
        r
    }
}
type F4 = unsafe extern "C" fn(*mut u64, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
unsafe fn real(name: &CStr) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}
#[no_mangle]
unsafe extern "C" fn pthread_create(t: *mut u64, at: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, a: *mut c_void) -> c_int {
    let r: F4 = std::mem::transmute(real(c"pthread_create"));
    if !READY {
        return r(t, at, f, a);
    }
    let go: *mut u32 = Box::leak(Box::new(0));
    let idx = th().len();
    let s = Box::into_raw(Box::new(Start { f, a, idx, go }));
    th().push(Th { st: St::Run, wake: None, go, real: 0, pre_done: false });
    let x = r(t, at, trampoline, s as *mut c_void);
    if x == 0 {
        th()[idx].real = *t;
    }
    x
}
#[no_mangle]
unsafe extern "C" fn pthread_join(t: u64, v: *mut *mut c_void) -> c_int {
    if READY {
        if let Some(i) = th().iter().position(|x| x.real == t) {
            if th()[i].st != St::Done {
                block(W::Join(i as u64), None);
            }
        }
    }
    let r: unsafe extern "C" fn(u64, *mut *mut c_void) -> c_int = std::mem::transmute(real(c"pthread_join"));
    r(t, v)
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn pthread_mutex_lock(m: usize) -> c_int {
    if !READY {
        return 0;
    }
    loop {
        match MUT.iter_mut().find(|x| x.0 == m) {
            Some(x) if x.1 == CUR => {
                x.2 += 1;
                return 0;
            }
            Some(_) => {
                block(W::Mutex(m), None);
            }
            None => {
                MUT.push((m, CUR, 1));
                return 0;
            }
        }
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn pthread_mutex_trylock(m: usize) -> c_int {
    if READY && MUT.iter().any(|x| x.0 == m && x.1 != CUR) {
        return 16;
    }
    pthread_mutex_lock(m)
}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn pthread_mutex_unlock(m: usize) -> c_int {
    if READY {
        if let Some(i) = MUT.iter().position(|x| x.0 == m) {
            MUT[i].2 -= 1;
            if MUT[i].2 == 0 {
                MUT.swap_remove(i);
                for t in th().iter_mut() {
                    if t.st == St::Block(W::Mutex(m), None) {
                        t.st = St::Run;
                    }
                }
            }
        }
    }
    0
}
#[no_mangle]
unsafe extern "C" fn pthread_mutex_destroy(_: usize) -> c_int {
    0
}
unsafe fn ts(p: usize) -> u64 {
    let t = &*(p as *const [u64; 2]);
    t[0].saturating_mul(1_000_000_000).saturating_add(t[1])
}
#[no_mangle]
unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if READY {
        match n {
            202 => {
                let op = b & 0x7f;
                if op == 0 || op == 9 {
                    if std::ptr::read_volatile(a as *const u32) != c as u32 {
                        *libc::__errno_location() = 11;
                        return -1;
                    }
                    let until = if d == 0 {
                        None
                    } else if op == 9 {
                        Some(ts(d))
                    } else {
                        Some(sh().clock.saturating_add(ts(d)))
                    };
                    if block(W::Futex(a), until) == 0 {
                        return 0;
                    }
                    *libc::__errno_location() = 110;
                    return -1;
                }
                if op == 1 || op == 10 {
                    let mut k = 0;
                    for t in th().iter_mut() {
                        if k < (c as u32) as u64 {
                            if let St::Block(W::Futex(x), _) = t.st {
                                if x == a {
                                    t.st = St::Run;
                                    t.wake = Some(0);
                                    k += 1;
                                }
                            }
                        }
                    }
                    return k as isize;
                }
            }
            318 if b > 0 => return getrandom(a as *mut u8, b, 0),
            332 => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e) as isize,
            _ => {}
        }
    }
    ret(raw(n as usize, a, b, c, d, e, f))
}
#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    if !READY {
        return ret(raw(318, p as usize, n, 0, 0, 0, 0));
    }
    for i in 0..n {
        let s = sh();
        s.rng = s.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *p.add(i) = (s.rng >> 33) as u8;
    }
    n as isize
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(k: c_int, p: *mut [u64; 2]) -> c_int {
    if !READY {
        return ret(raw(228, k as usize, p as usize, 0, 0, 0, 0)) as c_int;
    }
    let t = sh().clock;
    *p = [t / 1_000_000_000, t % 1_000_000_000];
    0
}
#[no_mangle]
unsafe extern "C" fn gettimeofday(p: *mut [u64; 2], _: usize) -> c_int {
    let t = if READY { sh().clock } else { 0 };
    *p = [t / 1_000_000_000, t % 1_000_000_000 / 1000];
    0
}
#[no_mangle]
unsafe extern "C" fn time(p: *mut u64) -> u64 {
    let t = if READY { sh().clock / 1_000_000_000 } else { 0 };
    if !p.is_null() {
        *p = t;
    }
    t
}
#[no_mangle]
unsafe extern "C" fn nanosleep(a: usize, _: usize) -> c_int {
    let u = sh().clock + ts(a);
    block(W::Sleep, Some(u));
    0
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(_: c_int, fl: c_int, a: usize, _: usize) -> c_int {
    let u = if fl & 1 != 0 { ts(a) } else { sh().clock + ts(a) };
    block(W::Sleep, Some(u));
    0
}
#[no_mangle]
unsafe extern "C" fn usleep(n: u32) -> c_int {
    let u = sh().clock + n as u64 * 1000;
    block(W::Sleep, Some(u));
    0
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> c_int {
    if READY && th().iter().filter(|t| t.st == St::Run).count() > 1 {
        let u = sh().clock + 1;
        block(W::Sleep, Some(u));
    }
    0
}

// ---- files

enum Gate {
    Go,
    Fail(i32),
    /// a write is cut short
    Short,
    /// the process dies in this call
    Die,
}
unsafe fn gate2(mutates: bool, write: bool, io: bool) -> Gate {
    if !READY {
        return Gate::Go;
    }
    if int("fault") > 0 && (int("faultmut") == 0 || mutates || io && int("faultmut") == 2) && (int("faulterr") != 1000 || write) {
        if next("fault", 0) == 1 {
            set_int("fault", int("fault") - 1);
            let e = int("faulterr");
            if e == 1000 {
                return Gate::Short;
            }
            return Gate::Fail(if e == 0 { 5 } else { e as i32 });
        }
    }
    if int("crash") > 0 && mutates && CHILD && next("crash", 0) == 1 {
        return Gate::Die;
    }
    Gate::Go
}
unsafe fn crash() -> ! {
    raw(231, 77, 0, 0, 0, 0, 0);
    unreachable!()
}
macro_rules! gated {
    ($m:expr) => {
        gated!($m, false)
    };
    ($m:expr, $io:expr) => {
        match gate2($m, false, $io) {
            Gate::Go => {}
            Gate::Fail(e) => {
                *libc::__errno_location() = e;
                return -1;
            }
            Gate::Die => crash(),
            Gate::Short => {}
        }
    };
}
unsafe fn ino_of(fd: c_int) -> u64 {
    let mut b = [0u64; 18];
    raw(5, fd as usize, b.as_mut_ptr() as usize, 0, 0, 0, 0);
    b[1]
}
unsafe fn is_manifest(fd: c_int) -> bool {
    let p = format!("/proc/self/fd/{}\0", fd);
    let mut b = [0u8; 512];
    let n = raw(89, p.as_ptr() as usize, b.as_mut_ptr() as usize, 511, 0, 0, 0);
    n > 0 && String::from_utf8_lossy(&b[..n as usize]).contains("manifest.db")
}
unsafe fn open_(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int {
    visible(line!());
    gated!(f & 0o1100 != 0, true);
    ret(raw(257, d as usize, p as usize, f as usize, m as usize, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn open(p: *const c_char, f: c_int, m: u32) -> c_int {
    open_(-100, p, f, m)
}
#[no_mangle]
unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: u32) -> c_int {
    open_(-100, p, f, m)
}
#[no_mangle]
unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int {
    open_(d, p, f, m)
}
#[no_mangle]
unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    visible(line!());
    let r: unsafe extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(real(c"opendir"));
    r(p)
}
#[no_mangle]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    visible(line!());
    let i = if READY { ino_of(fd) } else { 0 };
    let r = ret(raw(3, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    if READY {
        wake_file(i);
    }
    r
}
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, p: usize, n: usize) -> isize {
    visible(line!());
    gated!(false, true);
    ret(raw(0, fd as usize, p, n, 0, 0, 0))
}
#[no_mangle]
unsafe extern "C" fn pread64(fd: c_int, p: usize, n: usize, o: usize) -> isize {
    visible(line!());
    gated!(false, true);
    ret(raw(17, fd as usize, p, n, o, 0, 0))
}
unsafe fn torn(fd: c_int, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let t = next("torn", 0) as usize;
    if is_manifest(fd) {
        t * (n / 2)
    } else {
        t.min(n)
    }
}
unsafe fn short(fd: c_int, n: usize) -> usize {
    if n <= 1 {
        n
    } else if is_manifest(fd) {
        n / 2
    } else {
        next("short", 1) as usize
    }
}
#[no_mangle]
unsafe extern "C" fn write(fd: c_int, p: usize, n: usize) -> isize {
    if fd <= 2 {
        return ret(raw(1, fd as usize, p, n, 0, 0, 0));
    }
    visible(line!());
    let mut n = n;
    match gate2(true, true, false) {
        Gate::Go => {}
        Gate::Short => n = short(fd, n),
        Gate::Fail(e) => {
            *libc::__errno_location() = e;
            return -1;
        }
        Gate::Die => {
            let k = torn(fd, n);
            raw(1, fd as usize, p, k, 0, 0, 0);
            crash();
        }
    }
    ret(raw(1, fd as usize, p, n, 0, 0, 0))
}
#[no_mangle]
unsafe extern "C" fn pwrite64(fd: c_int, p: usize, n: usize, o: usize) -> isize {
    visible(line!());
    let mut n = n;
    match gate2(true, true, false) {
        Gate::Go => {}
        Gate::Short => n = short(fd, n),
        Gate::Fail(e) => {
            *libc::__errno_location() = e;
            return -1;
        }
        Gate::Die => {
            let k = torn(fd, n);
            raw(18, fd as usize, p, k, o, 0, 0);
            crash();
        }
    }
    ret(raw(18, fd as usize, p, n, o, 0, 0))
}
#[no_mangle]
unsafe extern "C" fn ftruncate64(fd: c_int, n: usize) -> c_int {
    visible(line!());
    gated!(true);
    ret(raw(77, fd as usize, n, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, o: usize, n: usize) -> c_int {
    visible(line!());
    gated!(true);
    ret(raw(285, fd as usize, m as usize, o, n, 0, 0)) as c_int
}
unsafe fn fcntl_(fd: c_int, cmd: c_int, a: usize) -> c_int {
    visible(line!());
    if !matches!(cmd, 5 | 6 | 7 | 36 | 37 | 38) {
        return ret(raw(72, fd as usize, cmd as usize, a, 0, 0, 0)) as c_int;
    }
    gated!(false);
    if !READY {
        return ret(raw(72, fd as usize, cmd as usize, a, 0, 0, 0)) as c_int;
    }
    let nb = match cmd {
        7 => 6,
        38 => 37,
        c => c,
    };
    loop {
        let r = raw(72, fd as usize, nb as usize, a, 0, 0, 0);
        if r == 0 && matches!(nb, 6 | 37) {
            wake_file(ino_of(fd));
        }
        if r == -11 && nb != cmd {
            block(W::File(ino_of(fd)), None);
            visible(line!());
            continue;
        }
        return ret(r) as c_int;
    }
}
#[no_mangle]
unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, a: usize) -> c_int {
    fcntl_(fd, cmd, a)
}
#[no_mangle]
unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, a: usize) -> c_int {
    fcntl_(fd, cmd, a)
}
#[no_mangle]
unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    visible(line!());
    gated!(false);
    loop {
        let r = raw(73, fd as usize, (op | 4) as usize, 0, 0, 0, 0);
        if r == 0 && READY {
            wake_file(ino_of(fd));
        }
        if r == -11 && op & 4 == 0 && READY {
            block(W::File(ino_of(fd)), None);
            visible(line!());
            continue;
        }
        return ret(r) as c_int;
    }
}
#[no_mangle]
unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    visible(line!());
    gated!(true);
    ret(raw(87, p as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    visible(line!());
    gated!(true);
    ret(raw(263, d as usize, p as usize, f as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    visible(line!());
    gated!(true);
    ret(raw(84, p as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn mkdir(p: *const c_char, m: u32) -> c_int {
    visible(line!());
    gated!(true);
    ret(raw(83, p as usize, m as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn lseek64(fd: c_int, o: isize, w: c_int) -> isize {
    visible(line!());
    gated!(false);
    ret(raw(8, fd as usize, o as usize, w as usize, 0, 0, 0))
}
#[no_mangle]
unsafe extern "C" fn lseek(fd: c_int, o: isize, w: c_int) -> isize {
    lseek64(fd, o, w)
}
#[no_mangle]
unsafe extern "C" fn mmap64(a: usize, n: usize, p: c_int, f: c_int, fd: c_int, o: usize) -> isize {
    if READY && fd >= 0 {
        visible(line!());
        gated!(false, true);
    }
    ret(raw(9, a, n, p as usize, f as usize, fd as usize, o))
}
#[no_mangle]
unsafe extern "C" fn ioctl(fd: c_int, rq: u64, a: usize) -> c_int {
    if rq == 0x40049409 && READY {
        visible(line!());
        gated!(true);
        if int("ficlone") == 0 {
            *libc::__errno_location() = 95;
            return -1;
        }
        let src = a as c_int;
        let mut o = 0;
        let mut buf = vec![0u8; 1 << 16];
        raw(77, fd as usize, 0, 0, 0, 0, 0);
        loop {
            let k = raw(17, src as usize, buf.as_mut_ptr() as usize, buf.len(), o, 0, 0);
            if k <= 0 {
                return 0;
            }
            raw(18, fd as usize, buf.as_ptr() as usize, k as usize, o, 0, 0);
            o += k as usize;
        }
    }
    ret(raw(16, fd as usize, rq as usize, a, 0, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn stat64(p: *const c_char, b: usize) -> c_int {
    gated!(false);
    ret(raw(262, -100isize as usize, p as usize, b, 0, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn lstat64(p: *const c_char, b: usize) -> c_int {
    gated!(false);
    ret(raw(262, -100isize as usize, p as usize, b, 0x100, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn fstat64(fd: c_int, b: usize) -> c_int {
    gated!(false);
    ret(raw(5, fd as usize, b, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: u32, b: usize) -> c_int {
    if p.is_null() && b == 0 {
        *libc::__errno_location() = 14;
        return -1;
    }
    gated!(false);
    ret(raw(332, d as usize, p as usize, f as usize, m as usize, b, 0)) as c_int
}

/// Runs one harness with the assignment read from the file ("name#k value" lines).
#[allow(static_mut_refs)]
pub fn run(h: extern "C" fn(), file: &str) -> ! {
    unsafe {
        let p = raw(9, 0, std::mem::size_of::<Shared>(), 3, 0x21, usize::MAX, 0);
        SH = p as *mut Shared;
        sh().rng = 0x1234_5678;
        sh().clock = 1_700_000_000_000_000_000;
        for l in std::fs::read_to_string(file).unwrap_or_default().lines() {
            if let Some((n, v)) = l.rsplit_once(' ') {
                VALS.push((n.to_string(), v.parse().unwrap()));
            }
        }
        let mut go = 1u32;
        TH.push(Th { st: St::Run, wake: None, go: &mut go, real: 0, pre_done: false });
        let _ = TH[0].pre_done;
        TRACE = std::env::var("PHARNESS_TRACE").is_ok();
        READY = true;
        h();
        die("DONE", "");
    }
}
