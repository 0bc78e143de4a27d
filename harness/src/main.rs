//! Executable form of the contracts, run against the real crate (bounded companion of the proofs, counterexample search
//! and replay).  `vh PID --seed S --cases N --secs T [--only I]`
mod ctx;
mod props;
use ctx::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pid = a[1].clone();
    let get = |n: &str, d: u64| a.iter().position(|x| x == n).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let seed = get("--seed", 1);
    let cases = get("--cases", 1_000_000_000);
    let secs = get("--secs", 5);
    let only = get("--only", u64::MAX);
    let trace = a.iter().any(|x| x == "--trace");
    let one = match props::get(&pid) {
        Some(f) => f,
        None => {
            eprintln!("no executable contracts for {pid}");
            std::process::exit(3);
        }
    };
    if only == u64::MAX && !trace {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let t0 = Instant::now();
    let next = AtomicU64::new(if only == u64::MAX { 0 } else { only });
    let end = if only == u64::MAX { cases } else { only + 1 };
    let stop = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let best: Mutex<Option<(u64, String, String)>> = Mutex::new(None);
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let known: Mutex<std::collections::BTreeMap<String, (u64, String)>> = Mutex::new(Default::default());
    let nt = if only == u64::MAX && !trace { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) } else { 1 };
    std::thread::scope(|s| {
        for _ in 0..nt {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
                let mut local: HashSet<u64> = HashSet::new();
                loop {
                    if stop.load(Relaxed) || t0.elapsed() > Duration::from_secs(secs) {
                        break;
                    }
                    let i = next.fetch_add(1, SeqCst);
                    if i >= end {
                        break;
                    }
                    let mut rng = Rng::new(seed, i);
                    let mut c = Case { d: String::new(), trace, trivial: false, known: vec![] };
                    let r = match catch_unwind(AssertUnwindSafe(|| one(&mut rng, i, &mut c))) {
                        Ok(r) => r,
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            Err(format!("panicked: {m}"))
                        }
                    };
                    evals.fetch_add(1, Relaxed);
                    if !c.trivial && local.len() < 400_000 {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        c.d.hash(&mut h);
                        local.insert(h.finish());
                    }
                    for k in &c.known {
                        known.lock().unwrap().entry(k.clone()).or_insert((i, c.d.clone()));
                    }
                    if i < 3 {
                        samples.lock().unwrap().push(c.d.chars().take(300).collect());
                    }
                    if let Err(m) = r {
                        let mut b = best.lock().unwrap();
                        // prefer the shortest input among those found concurrently
                        if b.as_ref().map(|x| c.d.len() < x.1.len()).unwrap_or(true) {
                            *b = Some((i, c.d.clone(), m));
                        }
                        stop.store(true, Relaxed);
                        break;
                    }
                }
                seen.lock().unwrap().extend(local);
            }).unwrap();
        }
    });
    let b = best.lock().unwrap();
    let kn: Vec<String> = known.lock().unwrap().iter().map(|(k, (i, d))| format!("{{\"key\":{},\"index\":{},\"input\":{}}}", esc(k), i, esc(d))).collect();
    println!(
        "{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"known\":[{}],\"failure\":{}}}",
        esc(&pid),
        seed,
        evals.load(Relaxed),
        seen.lock().unwrap().len(),
        samples.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        kn.join(","),
        match &*b {
            None => "null".to_string(),
            Some((i, d, m)) => format!("{{\"index\":{},\"input\":{},\"message\":{}}}", i, esc(d), esc(m)),
        }
    );
    std::process::exit(if b.is_some() { 1 } else { 0 });
}
