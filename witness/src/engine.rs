//! Case engine: a case is a deterministic function of (property, case number, seed).
use crate::gen::R;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub struct Case {
    pub input: String,
    /// Hashes of the distinct non-trivial inputs of this case.
    pub keys: Vec<u64>,
    pub evals: u64,
    pub result: Result<(), String>,
}
pub fn hash(x: &(impl Hash + ?Sized)) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
impl Case {
    pub fn one(input: String, nontrivial: bool, result: Result<(), String>) -> Case {
        let keys = if nontrivial { vec![hash(&input)] } else { vec![] };
        Case { input, keys, evals: 1, result }
    }
}
pub type CaseFn = fn(u64, &mut R) -> Case;

/// Runs `f`, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_owned()
        } else {
            "panic".to_owned()
        }
    })
}
pub fn eq<T: PartialEq + std::fmt::Debug + ?Sized>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}\n      got: {got:?}\n expected: {want:?}"))
    }
}

pub struct Outcome {
    pub evals: u64,
    pub cases: u64,
    pub distinct: u64,
    pub samples: Vec<String>,
    pub failure: Option<(u64, String, String)>,
}

pub fn rng_for(prop: &str, idx: u64, seed: u64) -> R {
    R::new(hash(&(prop, idx, seed)))
}
pub fn run_case(f: CaseFn, prop: &str, idx: u64, seed: u64) -> Case {
    let mut r = rng_for(prop, idx, seed);
    match guard(|| f(idx, &mut r)) {
        Ok(c) => c,
        Err(p) => Case { input: format!("case {idx}"), keys: vec![], evals: 1, result: Err(format!("unexpected panic: {p}")) },
    }
}
/// The case being run and when it was started (milliseconds since the start), for the watchdog.
pub static CURRENT: (AtomicU64, AtomicU64) = (AtomicU64::new(0), AtomicU64::new(0));
/// A single case takes milliseconds; one that takes this long does not return.
pub const CASE_LIMIT_MS: u64 = 60_000;

pub fn run(f: CaseFn, prop: &str, seed: u64, enumerated: u64, secs: f64, max: u64, trace: Option<std::fs::File>) -> Outcome {
    let start = Instant::now();
    let budget = Duration::from_secs_f64(secs);
    let mut distinct = HashSet::new();
    let mut o = Outcome { evals: 0, cases: 0, distinct: 0, samples: vec![], failure: None };
    let mut idx = 0;
    while (idx < enumerated || start.elapsed() < budget) && idx < enumerated + max {
        CURRENT.0.store(idx, Relaxed);
        CURRENT.1.store(start.elapsed().as_millis() as u64, Relaxed);
        if let Some(t) = &trace {
            let _ = t.write_all_at(&idx.to_le_bytes(), 0);
        }
        let c = run_case(f, prop, idx, seed);
        o.evals += c.evals;
        o.cases += 1;
        if !c.keys.is_empty() && (o.samples.len() < 2 || (o.samples.len() < 6 && idx % 97 == 96)) {
            let mut s = c.input.clone();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            o.samples.push(s);
        }
        distinct.extend(c.keys);
        if let Err(e) = c.result {
            o.failure = Some((idx, c.input, e));
            break;
        }
        idx += 1;
    }
    o.distinct = distinct.len() as u64;
    o
}
