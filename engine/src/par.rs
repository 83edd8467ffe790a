//! Sharing the exploration between processes, and collecting results.
use crate::expr::*;
use crate::ir::V;
use crate::state::*;
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn prctl(o: i32, ...) -> i32;
    fn kill(p: i32, sig: i32) -> i32;
    fn setpgid(p: i32, g: i32) -> i32;
}

pub const NFN: usize = 1 << 16;

#[repr(C)]
pub struct Shared {
    pub active: AtomicI64,
    pub started: AtomicU64,
    pub stop: AtomicU32,
    pub incomplete: AtomicU32,
    pub violations: AtomicU32,
    pub unsupported: AtomicU32,
    pub samples: AtomicU32,
    pub stats: [AtomicU64; 16],
    pub ran: [AtomicU8; NFN],
}

pub struct Par {
    sh: &'static Shared,
    out: std::fs::File,
    pub max_workers: i64,
    pub deadline: Instant,
    pub known: Vec<String>,
    last_fork: Instant,
    reached: std::collections::HashSet<String>,
    pub max_samples: u32,
    /// one in this many is kept as well, if not 0
    pub every: u32,
    worker: bool,
    sub: u64,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || c as u32 > 126 => o += &format!("\\u{:04x}", (c as u32).min(0xffff)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Par {
    pub fn new(out: &std::path::Path, max_workers: i64, deadline: Instant) -> Par {
        let n = std::mem::size_of::<Shared>();
        let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
        assert!(p as isize != -1);
        let sh: &'static Shared = unsafe { &*(p as *const Shared) };
        let f = std::fs::OpenOptions::new().create(true).append(true).open(out).expect("output file");
        Par {
            sh,
            out: f,
            max_workers,
            deadline,
            known: vec![],
            last_fork: Instant::now(),
            reached: Default::default(),
            max_samples: 24,
            every: 0,
            worker: false,
            sub: 0,
        }
    }
    pub fn stop(&self) -> bool {
        self.sh.stop.load(SeqCst) != 0
    }
    pub fn tick(&mut self) -> bool {
        if Instant::now() > self.deadline {
            self.sh.incomplete.store(1, SeqCst);
            self.sh.stop.store(1, SeqCst);
        }
        self.stop()
    }
    pub fn add(&mut self, i: usize, v: u64) {
        self.sh.stats[i].fetch_add(v, SeqCst);
    }
    pub fn max(&mut self, i: usize, v: u64) {
        self.sh.stats[i].fetch_max(v, SeqCst);
    }
    pub fn mark_ran(&mut self, r: &[bool]) {
        for (i, b) in r.iter().enumerate() {
            if *b && self.sh.ran[i].load(SeqCst) == 0 {
                self.sh.ran[i].store(1, SeqCst);
            }
        }
    }
    fn line(&mut self, s: String) {
        let _ = self.out.write_all((s + "\n").as_bytes());
    }
    pub fn reach(&mut self, m: &str) {
        if self.reached.insert(m.to_string()) {
            self.line(format!("{{\"kind\":\"reach\",\"msg\":{}}}", jstr(m)));
        }
    }
    fn vars(&self, s: &State) -> String {
        let v: Vec<String> = s.vars.iter().map(|(n, e)| format!("[{},{}]", jstr(n), eval(*e, &s.model))).collect();
        format!("[{}]", v.join(","))
    }
    fn evs(&self, s: &State) -> String {
        let v: Vec<String> = s
            .evs
            .iter()
            .filter_map(|e| match e {
                Ev::Obs(n, V::C(x)) => Some(format!("[{},{}]", jstr(n), x)),
                Ev::Obs(n, V::S(x)) => Some(format!("[{},{}]", jstr(n), eval(*x, &s.model))),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    /// Some finished paths are kept with their inputs, to be compared with native runs.
    pub fn sample(&mut self, s: &State, _n: usize) {
        let n = self.sh.samples.fetch_add(1, SeqCst);
        // the first ones, then ever more rarely
        let keep = self.every > 0 && n % self.every == 0 || n < self.max_samples / 2 || (n.is_power_of_two() || (n / 3).is_power_of_two() && n % 3 == 0);
        if keep && self.max_samples > 0 {
            let l = format!("{{\"kind\":\"sample\",\"vars\":{},\"obs\":{}}}", self.vars(s), self.evs(s));
            self.line(l);
        }
    }
    pub fn problem(&mut self, s: &State, kind: &str, msg: &str, place: &str) {
        let l = format!(
            "{{\"kind\":{},\"msg\":{},\"place\":{},\"vars\":{},\"obs\":{}}}",
            jstr(kind),
            jstr(msg),
            jstr(place),
            self.vars(s),
            self.evs(s)
        );
        match kind {
            "violation" => {
                if !self.known.iter().any(|k| msg.starts_with(k.as_str())) {
                    self.line(l);
                    if self.sh.violations.fetch_add(1, SeqCst) >= 5 {
                        self.sh.stop.store(1, SeqCst);
                    }
                } else {
                    self.line(l.replacen("\"violation\"", "\"known\"", 1));
                }
            }
            "unsupported" => {
                if self.sh.unsupported.fetch_add(1, SeqCst) < 20 {
                    self.line(l);
                } else {
                    self.sh.stop.store(1, SeqCst);
                }
            }
            _ => {
                self.sh.incomplete.store(1, SeqCst);
            }
        }
    }
    pub fn try_token(&mut self) -> bool {
        self.sub += 1;
        if self.max_workers <= 1 || self.last_fork.elapsed().as_millis() < 30 {
            return false;
        }
        if self.tick() {
            return false;
        }
        let n = self.sh.active.load(SeqCst);
        if n < self.max_workers && self.sh.active.compare_exchange(n, n + 1, SeqCst, SeqCst).is_ok() {
            self.last_fork = Instant::now();
            return true;
        }
        false
    }
    /// true in the child
    pub fn fork_child(&mut self) -> bool {
        match unsafe { fork() } {
            0 => {
                self.last_fork = Instant::now();
                self.worker = true;
                true
            }
            -1 => {
                // the pending state is lost: the run must not count
                self.sh.active.fetch_add(-1, SeqCst);
                self.sh.incomplete.store(1, SeqCst);
                false
            }
            _ => {
                // nobody waits for it here
                false
            }
        }
    }
    pub fn child_exit(&mut self) -> ! {
        self.sh.active.fetch_add(-1, SeqCst);
        unsafe { _exit(0) }
    }
    /// Runs f in a worker process and waits for everything that comes of it.
    pub fn master(&mut self, f: impl FnOnce(&mut Self) -> ()) -> Outcome {
        unsafe { prctl(36, 1usize, 0usize, 0usize, 0usize) };
        self.sh.active.store(1, SeqCst);
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { setpgid(0, 0) };
            self.worker = true;
            f(self);
            self.child_exit();
        }
        assert!(pid > 0);
        let mut died = 0;
        let mut killed = false;
        let mut first: Option<Instant> = None;
        loop {
            let mut st = 0;
            let r = unsafe { waitpid(-1, &mut st, 1) };
            if r == 0 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                if Instant::now() > self.deadline + std::time::Duration::from_secs(20) {
                    self.sh.incomplete.store(1, SeqCst);
                    if !killed {
                        eprintln!("workers that do not stop are killed");
                    }
                    killed = true;
                    unsafe { kill(-pid, 9) };
                }
                if first.is_none() && self.sh.violations.load(SeqCst) > 0 {
                    first = Some(Instant::now());
                }
                // (there is a verdict: some more of the same kind, and no more)
                let enough = first.map_or(false, |t| t.elapsed().as_secs() >= 20);
                if Instant::now() > self.deadline || enough {
                    self.sh.incomplete.store(1, SeqCst);
                    self.sh.stop.store(1, SeqCst);
                }
                continue;
            }
            if r < 0 {
                break;
            }
            if st != 0 && !(killed && st == 9) {
                died += 1;
                eprintln!("worker ended with status {:#x}", st);
                self.sh.stop.store(1, SeqCst);
            }
        }
        Outcome {
            died,
            incomplete: self.sh.incomplete.load(SeqCst) != 0,
            violations: self.sh.violations.load(SeqCst),
            unsupported: self.sh.unsupported.load(SeqCst),
            stats: self.sh.stats.iter().map(|x| x.load(SeqCst)).collect(),
            ran: (0..NFN).filter(|&i| self.sh.ran[i].load(SeqCst) != 0).collect(),
        }
    }
}

pub struct Outcome {
    pub died: u32,
    pub incomplete: bool,
    pub violations: u32,
    pub unsupported: u32,
    pub stats: Vec<u64>,
    pub ran: Vec<usize>,
}
