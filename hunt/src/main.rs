//! Executable twins of the contracts: run the real code on generated inputs and check each contract's
//! pre/postconditions.  Used to turn a failed proof obligation into a concrete failing input, and as the
//! labelled bounded stand-in where a function is outside the verifier's reach.
//!
//! hunt <property> --seed S --secs T [--max N] [--case K] [--skip-known file]
mod gen;
mod props;
use gen::Gen;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|x| x.parse().ok()).unwrap_or(5.0);
    let max: u64 = get("--max").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let one: Option<u64> = get("--case").and_then(|x| x.parse().ok());
    let threads: u64 = get("--threads").and_then(|x| x.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let f = match props::table().into_iter().find(|(n, _)| *n == prop) {
        Some((_, f)) => f,
        None => {
            println!("{{\"property\":\"{}\",\"cases\":0,\"nontrivial\":0,\"fail\":null,\"none\":true}}", prop);
            return;
        }
    };
    let t0 = Instant::now();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let result = std::sync::Mutex::new(None::<(u64, String, Vec<(String, String)>)>);
    let cases = std::sync::atomic::AtomicU64::new(0);
    let nontriv = std::sync::atomic::AtomicU64::new(0);
    let sample = std::sync::Mutex::new(Vec::<Vec<(String, String)>>::new());
    let run = |case: u64| {
        let mut g = Gen::new(seed, case);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut g)));
        let msg = match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Some(format!("the call panicked: {}", m))
            }
        };
        (msg, g)
    };
    if let Some(k) = one {
        let (m, g) = run(k);
        for (n, v) in &g.notes {
            println!("{} = {}", n, v);
        }
        match m {
            Some(m) => { println!("FAILS: {}", m); std::process::exit(1) }
            None => println!("holds"),
        }
        return;
    }
    std::thread::scope(|s| {
        for t in 0..threads {
            let (stop, result, cases, nontriv, sample, run) = (&stop, &result, &cases, &nontriv, &sample, &run);
            s.spawn(move || {
                let mut k = t;
                while k < max && !stop.load(std::sync::atomic::Ordering::Relaxed) && t0.elapsed() < Duration::from_secs_f64(secs) {
                    let (m, g) = run(k);
                    cases.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if g.nontrivial {
                        nontriv.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    if k < 64 && k % 13 == 5 {
                        let mut sm = sample.lock().unwrap();
                        if sm.len() < 3 { sm.push(g.notes.clone()); }
                    }
                    if let Some(m) = m {
                        let mut r = result.lock().unwrap();
                        if r.is_none() || r.as_ref().unwrap().0 > k {
                            *r = Some((k, m, g.notes));
                        }
                        stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                    k += threads;
                }
            });
        }
    });
    let notes_json = |n: &Vec<(String, String)>| n.iter().map(|(k, v)| format!("\"{}\":\"{}\"", esc(k), esc(&v.chars().take(4000).collect::<String>()))).collect::<Vec<_>>().join(",");
    let r = result.into_inner().unwrap();
    let sm = sample.into_inner().unwrap();
    let fail = match &r {
        None => "null".to_string(),
        Some((k, m, n)) => format!("{{\"case\":{},\"seed\":{},\"what\":\"{}\",\"input\":{{{}}}}}", k, seed, esc(m), notes_json(n)),
    };
    let samples = sm.iter().map(|n| { format!("{{{}}}", n.iter().map(|(k, v)| format!("\"{}\":\"{}\"", esc(k), esc(&v.chars().take(200).collect::<String>()))).collect::<Vec<_>>().join(",")) }).collect::<Vec<_>>().join(",");
    println!("{{\"property\":\"{}\",\"cases\":{},\"nontrivial\":{},\"fail\":{},\"samples\":[{}]}}", prop, cases.load(std::sync::atomic::Ordering::Relaxed), nontriv.load(std::sync::atomic::Ordering::Relaxed), fail, samples);
}
