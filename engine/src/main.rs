mod exec;
mod expr;
mod facts;
mod ext;
mod ir;
mod kern;
mod mem;
mod par;
mod state;
mod z3;
use par::{jstr, Par};
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |n: &str, d: &str| -> String {
        let k = format!("--{}=", n);
        args.iter().find_map(|a| a.strip_prefix(&k)).unwrap_or(d).to_string()
    };
    let has = |n: &str| args.iter().any(|a| a == n);
    let file = get("ll", "/verif/target/bc/all.ll");
    let entry = get("entry", "h_smoke");
    let out = std::path::PathBuf::from(get("out", "/tmp/psym.jsonl"));
    let _ = std::fs::remove_file(&out);
    let secs: u64 = get("time", "300").parse().unwrap();
    let t0 = Instant::now();
    let text: &'static [u8] = Box::leak(std::fs::read(&file).expect("module").into_boxed_slice());
    let m = ir::Module::load(text);
    if has("--parse-all") {
        let mut m = m;
        for i in 0..m.funcs.len() {
            if m.funcs[i].body.is_some() {
                m.func(i as u32);
            }
        }
        return;
    }
    let mut solver = z3::Solver::new(&get("z3", "/usr/lib/x86_64-linux-gnu/libz3.so.4"), get("rlimit", "40000000").parse().unwrap());
    let dump = get("dump", "");
    if !dump.is_empty() {
        let _ = std::fs::create_dir_all(&dump);
        solver.dump = Some((dump.into(), get("dump-every", "50").parse().unwrap(), get("dump-max", "20").parse().unwrap()));
    }
    let mut par = Par::new(&out, get("jobs", "8").parse().unwrap(), t0 + Duration::from_secs(secs));
    let known = get("known", "");
    if !known.is_empty() {
        par.known = std::fs::read_to_string(known).unwrap_or_default().lines().map(|l| l.to_string()).filter(|l| !l.is_empty()).collect();
    }
    if !get("fix", "").is_empty() {
        let t = std::fs::read_to_string(get("fix", "")).unwrap();
        let _ = state::FIX.set(t.lines().filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.parse().unwrap())).collect());
    }
    par.every = get("every", "0").parse().unwrap();
    let n = m.funcs.len();
    assert!(n < par::NFN, "too many functions");
    let names: Vec<&'static str> = m.funcs.iter().map(|f| &*Box::leak(f.name.clone().into_boxed_str())).collect();
    let mut x = exec::Ex {
        solver,
        ext: names.iter().zip(&m.funcs).map(|(n, f)| if f.body.is_some() { None } else { ext::lookup(n) }).collect(),
        hooks: Default::default(),
        hooked: vec![false; n],
        prints: names
            .iter()
            .map(|n| match n.split_once("4core3fmt3num3imp") {
                Some((a, b)) if a.starts_with("_RNv") && b.contains("Display3fmt") && !b.contains("Exp") => match &b[..1] {
                    "y" | "x" | "j" | "i" => 64,
                    "m" | "l" => 32,
                    "t" | "s" => 16,
                    "h" | "a" => 8,
                    _ => 0,
                },
                _ => 0,
            })
            .collect(),
        work: vec![],
        pending_model: None,
        par,
        globals_sorted: vec![],
        visible: names.iter().map(|n| ext::VISIBLE.contains(n)).collect(),
        trace: has("--trace"),
        ran: vec![false; n],
        max_steps: get("steps", "400000000").parse().unwrap(),
        fork_sites: Default::default(),
        profile: has("--profile"),
        prof: Default::default(),
        ret_mask: vec![],
        simp_id: 0,
        simp_memo: Default::default(),
        next_fid: 0,
        deep: get("deep", "0") == "1",
        names,
        m,
    };
    for (i, nm) in x.names.clone().iter().enumerate() {
        if *nm == "walChecksumBytes" {
            x.hooks.insert(i as u32, ext::wal_checksum);
            x.hooked[i] = true;
        }
    }
    let Some(f) = x.m.sym_addr(&entry) else {
        eprintln!("no harness {}", entry);
        std::process::exit(3);
    };
    let mut s = x.initial();
    if x.new_thread(&mut s, f, vec![]).is_err() {
        eprintln!("cannot start {}", entry);
        std::process::exit(3);
    }
    s.cur = 0;
    if has("--inline") {
        x.explore(s);
        return;
    }
    let names = x.names.clone();
    let p: *mut Par = &mut x.par;
    // (the worker is a forked copy: the master only waits)
    let o = unsafe { &mut *p }.master(|_| x.explore(s));
    let st = &o.stats;
    let mut fns: Vec<String> = o.ran.iter().filter_map(|&i| names.get(i)).filter(|n| n.contains("possum")).map(|n| n.to_string()).collect();
    fns.sort();
    fns.dedup();
    let all = o.ran.len();
    println!(
        "{{\"entry\":{},\"paths\":{},\"cut\":{},\"forks\":{},\"steps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.2},\"violations\":{},\"unsupported\":{},\"died\":{},\"incomplete\":{},\"functions_total\":{},\"functions\":[{}]}}",
        jstr(&entry),
        st[5], st[7], st[8], st[6], st[0], st[1], st[2],
        st[3] as f64 / 1e6, st[4] as f64 / 1e6,
        t0.elapsed().as_secs_f64(),
        o.violations, o.unsupported, o.died, o.incomplete, all,
        fns.iter().map(|f| jstr(f)).collect::<Vec<_>>().join(",")
    );
    let code = if o.violations > 0 {
        1
    } else if o.died > 0 || o.incomplete || o.unsupported > 0 {
        2
    } else {
        0
    };
    std::process::exit(code);
}
