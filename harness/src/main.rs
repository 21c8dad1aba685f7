//! pnharness PROPERTY --seed N --seconds S --cases N [--trace FILE] | --replay FILE
mod checks;
mod dbs;
mod gen;
mod meta;
mod refimpl;
mod xml;

use checks::*;
use gen::*;
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const STUCK: u64 = 20;

fn run(prop: &str, c: &Case, dbs: &[dbs::Db]) -> Out {
    match catch_unwind(AssertUnwindSafe(|| check(prop, c, dbs))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

/// a smaller case that fails as well
fn shrink(prop: &str, c: Case, dbs: &[dbs::Db]) -> Case {
    let mut best = c;
    if best.s.len() > 2000 || !matches!(prop, "C01" | "C03" | "C05" | "C08" | "C12" | "C21" | "C19" | "C06") || (prop == "C19" && best.x[0] != "any") {
        return best;
    }
    let t = Instant::now();
    loop {
        let v: Vec<char> = best.s.chars().collect();
        let mut found = None;
        'o: for w in [8usize, 4, 2, 1] {
            for i in 0..v.len().saturating_sub(w - 1) {
                let mut x = v.clone();
                x.drain(i..i + w);
                let d = Case { s: x.into_iter().collect(), ..best.clone() };
                if run(prop, &d, dbs).is_err() {
                    found = Some(d);
                    break 'o;
                }
                if t.elapsed() > Duration::from_secs(5) {
                    return best;
                }
            }
        }
        match found {
            Some(d) => best = d,
            None => return best,
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let dbs = dbs::all();
    if std::env::var_os("PNH_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if let Some(f) = get("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let prop = v["property"].as_str().unwrap();
        let c = Case::from_json(&v["case"]);
        match run(prop, &c, &dbs) {
            Ok(_) => println!("holds: {c:?}"),
            Err(e) => {
                println!("fails: {c:?}: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let prop = args[1].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let seconds: u64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(10);
    let cases: u64 = get("--cases").and_then(|s| s.parse().ok()).unwrap_or(400_000);
    let threads: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let trace = get("--trace");
    let evals = AtomicU64::new(0);
    let nontrivial = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let failure: Mutex<Option<(Case, String)>> = Mutex::new(None);
    let samples: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let current: Vec<Mutex<Option<(Case, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let start = Instant::now();
    let fixed = fixed(&prop, &dbs);
    let nfixed = fixed.len();
    let seed = seed ^ prop.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));

    let report = |f: &Option<(Case, String)>| {
        json!({
            "property": prop, "evaluations": evals.load(Ordering::SeqCst), "nontrivial": nontrivial.load(Ordering::SeqCst),
            "distinct": distinct.lock().unwrap().len(), "fixed": nfixed, "samples": *samples.lock().unwrap(), "wall_s": start.elapsed().as_secs_f64(),
            "failure": f.as_ref().map(|(c, e)| json!({"property": prop, "case": c.json(&dbs), "what": e})),
        })
    };
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (evals, nontrivial, stop, failure, samples, distinct, fixed, dbs, prop, current, trace) =
                (&evals, &nontrivial, &stop, &failure, &samples, &distinct, &fixed, &dbs, &prop, &current, &trace);
            let w = std::thread::Builder::new().stack_size(8 << 20);
            w.spawn_scoped(sc, move || {
                let mut g = Gen { rng: Rng(seed.wrapping_mul(31).wrapping_add(t * 0x1234_5678_9abc)) };
                let mut hs = vec![];
                let mut one = |c: Case| -> bool {
                    *current[t as usize].lock().unwrap() = Some((c.clone(), Instant::now()));
                    if let Some(f) = trace {
                        std::fs::write(format!("{f}.{t}"), json!({"property": prop, "case": c.json(dbs)}).to_string()).unwrap();
                    }
                    evals.fetch_add(1, Ordering::Relaxed);
                    match run(prop, &c, dbs) {
                        Ok(nt) => {
                            if nt {
                                nontrivial.fetch_add(1, Ordering::Relaxed);
                                let mut h = DefaultHasher::new();
                                (&c.db, &c.region, &c.s, &c.x).hash(&mut h);
                                hs.push(h.finish());
                                if hs.len() % 1000 == 7 && c.s.len() < 500 {
                                    let mut s = samples.lock().unwrap();
                                    if s.len() < 12 {
                                        s.push(c.json(dbs));
                                    }
                                }
                            }
                            true
                        }
                        Err(e) => {
                            let mut f = failure.lock().unwrap();
                            if f.is_none() {
                                *f = Some((c, e));
                            }
                            stop.store(true, Ordering::SeqCst);
                            false
                        }
                    }
                };
                for (i, c) in fixed.iter().enumerate() {
                    if i as u64 % threads == t && (stop.load(Ordering::Relaxed) || !one(c.clone())) {
                        break;
                    }
                }
                for i in 0..cases / threads {
                    if stop.load(Ordering::Relaxed) || (i % 16 == 0 && start.elapsed().as_secs() >= seconds) {
                        break;
                    }
                    let c = generate(prop, &mut g, dbs);
                    if !one(c) {
                        break;
                    }
                }
                *current[t as usize].lock().unwrap() = None;
                distinct.lock().unwrap().extend(hs);
            })
            .unwrap();
        }
        let (current, done, report) = (&current, &done, &report);
        sc.spawn(move || {
            // nothing takes longer than this
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let mut any = false;
                for c in current {
                    let c = c.lock().unwrap();
                    if let Some((c, t)) = &*c {
                        any = true;
                        if t.elapsed().as_secs() >= STUCK {
                            let f = Some((c.clone(), format!("does not return within {STUCK} s")));
                            println!("{}", report(&f));
                            std::process::exit(1);
                        }
                    }
                }
                if !any && start.elapsed().as_millis() > 300 {
                    break;
                }
            }
        });
    });
    done.store(true, Ordering::SeqCst);
    let f = failure.lock().unwrap().take();
    let f = f.map(|(c, e)| {
        let d = shrink(&prop, c.clone(), &dbs);
        match run(&prop, &d, &dbs) {
            Err(e) => (d, e),
            Ok(_) => (c, e),
        }
    });
    println!("{}", report(&f));
    std::process::exit(f.is_some() as i32);
}
