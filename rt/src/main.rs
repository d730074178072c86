//! Executable contracts of sebosp/s2protocol-rs: bounded stand-in and counterexample search.
//! `rt check <property> --seed N --tier quick|thorough --out FILE --fail FILE`
//! `rt replay FILE`
mod dec;
mod dispatch;
mod grammar;
mod merge;
mod mpq;
mod neutral;
mod rng;
mod export;
mod files;
mod lobby;
mod info;
mod route;
mod rows;
mod balance;
mod stats;
mod sm;
mod small;
use rng::Rng;
use serde_json::{Value as J, json};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::time::Instant;
static QUIET: AtomicBool = AtomicBool::new(false);

/// Result of running one decoder: Debug text and bits consumed.
pub type Out = Result<(String, usize), String>;
pub fn run_ba<T: std::fmt::Debug>(
    d: &[u8],
    _o: usize,
    f: for<'a> fn(&'a [u8]) -> s2protocol::S2ProtoResult<&'a [u8], T>,
) -> Out {
    match f(d) {
        Ok((tail, v)) => {
            if !d.ends_with(tail) {
                return Err("tail is not a suffix of the input".into());
            }
            Ok((format!("{v:?}"), (d.len() - tail.len()) * 8))
        }
        Err(e) => Err(format!("{e:?}").chars().take(200).collect()),
    }
}
pub fn run_bp<T: std::fmt::Debug>(
    d: &[u8],
    o: usize,
    f: for<'a> fn((&'a [u8], usize)) -> s2protocol::S2ProtoResult<(&'a [u8], usize), T>,
) -> Out {
    match f((d, o)) {
        Ok((tail, v)) => {
            if !d.ends_with(tail.0) {
                return Err("tail is not a suffix of the input".into());
            }
            Ok((format!("{v:?}"), (d.len() - tail.0.len()) * 8 + tail.1))
        }
        Err(e) => Err(format!("{e:?}").chars().take(200).collect()),
    }
}
/// Ok(nontrivial) or Err(what is wrong)
pub type Verdict = Result<bool, String>;
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// cases per quick / thorough run
    pub n: (usize, usize),
    pub generate: fn(&mut Rng, usize) -> J,
    pub run: fn(&J) -> Verdict,
}
fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(dec::props());
    v.extend(small::props());
    v.extend(sm::props());
    v.extend(neutral::props());
    v.extend(merge::props());
    v.extend(route::props());
    v.extend(info::props());
    v.extend(lobby::props());
    v.extend(rows::props());
    v.extend(files::props());
    v.extend(export::props());
    v.extend(stats::props());
    v.extend(balance::props());
    v
}
fn guarded(p: &Prop, c: &J) -> Verdict {
    QUIET.store(true, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(c)));
    QUIET.store(false, Relaxed);
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panicked: {}", m.unwrap_or_default()))
        }
    }
}
/// removes elements of the "ops" array while the case keeps failing
fn shrink(p: &Prop, c: J) -> J {
    let mut best = c;
    let t0 = Instant::now();
    let mut step = best["ops"].as_array().map(|a| a.len() / 2).unwrap_or(0);
    while step >= 1 && t0.elapsed().as_secs() < 10 {
        let mut i = 0;
        let mut changed = false;
        while i < best["ops"].as_array().unwrap().len() {
            let mut c2 = best.clone();
            let a = c2["ops"].as_array_mut().unwrap();
            let end = (i + step).min(a.len());
            a.drain(i..end);
            if guarded(p, &c2).is_err() {
                best = c2;
                changed = true;
            } else {
                i += step;
            }
        }
        if !changed || step > 1 {
            if step == 1 {
                break;
            }
            step = (step / 2).max(1);
        }
    }
    best
}
fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if !QUIET.load(Relaxed) {
            eprintln!("harness panic: {i}")
        }
    }));
    let ps = props();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &ps {
                println!("{}", p.id);
            }
        }
        Some("replay") => {
            let j: J = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let p = ps.iter().find(|p| p.id == j["property"].as_str().unwrap()).unwrap();
            match guarded(p, &j["case"]) {
                Ok(_) => println!("holds"),
                Err(e) => {
                    println!("FAILS: {e}");
                    std::process::exit(1)
                }
            }
        }
        Some("check") => {
            let p = ps.iter().find(|p| p.id == a[2]).expect("unknown property");
            let seed: u64 = arg(&a, "--seed", "1").parse().unwrap();
            let thorough = arg(&a, "--tier", "quick") == "thorough";
            let limit: u64 = arg(&a, "--limit", if thorough { "600" } else { "25" }).parse().unwrap();
            let n = if thorough { p.n.1 } else { p.n.0 };
            let t0 = Instant::now();
            let idh = p.id.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
            let mut rng = Rng::new(seed.wrapping_mul(0x5851_F42D_4C95_7F2D) ^ idh);
            let (mut evals, mut samples) = (0usize, vec![]);
            let mut seen: HashSet<u64> = HashSet::new();
            let mut fail = J::Null;
            for i in 0..n {
                if t0.elapsed().as_secs() >= limit {
                    break;
                }
                let mut r = Rng(rng.u64());
                let c = (p.generate)(&mut r, i);
                evals += 1;
                match guarded(p, &c) {
                    Ok(nt) => {
                        if nt {
                            let mut h = std::hash::DefaultHasher::new();
                            c.to_string().hash(&mut h);
                            seen.insert(h.finish());
                            let s = c.to_string();
                            if samples.len() < 3 && s.len() < 1500 {
                                samples.push(c);
                            }
                        }
                    }
                    Err(e) => {
                        let c = if c["ops"].is_array() { shrink(p, c) } else { c };
                        let e = guarded(p, &c).err().unwrap_or(e);
                        fail = json!({"property": p.id, "case": c, "message": e});
                        break;
                    }
                }
            }
            let out = json!({"property": p.id, "seed": seed, "evaluations": evals,
                "distinct_nontrivial": seen.len(), "rule": p.rule, "samples": samples,
                "wall_s": t0.elapsed().as_secs_f64(), "fail": fail});
            let s = serde_json::to_string(&out).unwrap();
            let f = arg(&a, "--out", "");
            if f.is_empty() { println!("{s}") } else { std::fs::write(f, s).unwrap() }
            std::process::exit(if fail.is_null() { 0 } else { 1 })
        }
        Some("finding") => println!("{}", route::finding(arg(&a, "--seed", "1").parse().unwrap())),
        _ => panic!("usage: rt list | check ID | replay FILE"),
    }
}
