mod auth;
mod engine;
mod gen;
mod oracle;
mod rec;
mod props_sign;
mod props_misc;
mod props_cred;
use engine::*;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;

fn props() -> Vec<(&'static str, u64, CaseFn)> {
    let mut v = props_sign::table();
    v.extend(props_misc::table());
    v.extend(props_cred::table());
    v
}
fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            c if (c as u32) < 0x20 => write!(r, "\\u{:04x}", c as u32).unwrap(),
            c => r.push(c),
        }
    }
    r + "\""
}
/// Set when this binary was built with debug assertions.
pub const DEBUG: bool = cfg!(debug_assertions);

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let prop = args[2].clone();
    let (_, enumerated, f) = *props().iter().find(|p| p.0 == prop).expect("unknown property");
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    match &*args[1] {
        "run" => {
            let secs: f64 = get("--secs").map_or(5.0, |s| s.parse().unwrap());
            let max: u64 = get("--max").map_or(u64::MAX / 2, |s| s.parse().unwrap());
            // a case that does not return is a failure of the code under test
            let p = prop.clone();
            let begun = std::time::Instant::now();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let (idx, at) = (CURRENT.0.load(Relaxed), CURRENT.1.load(Relaxed));
                if (begun.elapsed().as_millis() as u64).saturating_sub(at) > CASE_LIMIT_MS && CURRENT.0.load(Relaxed) == idx {
                    println!(
                        "{{\"evaluations\":{idx},\"cases\":{idx},\"distinct\":0,\"enumerated\":{enumerated},\"debug_assertions\":{DEBUG},\"samples\":[],\"failure\":{{\"property\":{},\"case\":{idx},\"seed\":{seed},\"debug_assertions\":{DEBUG},\"input\":\"case {idx}\",\"what\":\"did not return within {CASE_LIMIT_MS} ms\"}}}}",
                        js(&p)
                    );
                    std::process::exit(0);
                }
            });
            let trace = get("--trace").map(|f| std::fs::File::create(f).unwrap());
            let o = run(f, &prop, seed, enumerated, secs, max, trace);
            let fail = match &o.failure {
                None => "null".to_owned(),
                Some((idx, input, what)) => format!(
                    "{{\"property\":{},\"case\":{idx},\"seed\":{seed},\"debug_assertions\":{DEBUG},\"input\":{},\"what\":{}}}",
                    js(&prop), js(input), js(what)
                ),
            };
            let samples: Vec<String> = o.samples.iter().map(|s| js(s)).collect();
            println!(
                "{{\"evaluations\":{},\"cases\":{},\"distinct\":{},\"enumerated\":{},\"debug_assertions\":{DEBUG},\"samples\":[{}],\"failure\":{fail}}}",
                o.evals, o.cases, o.distinct, enumerated, samples.join(",")
            );
        }
        "replay" => {
            let idx: u64 = get("--case").unwrap().parse().unwrap();
            let c = run_case(f, &prop, idx, seed);
            println!("{}", c.input);
            match c.result {
                Ok(()) => println!("holds"),
                Err(e) => {
                    println!("FAILS: {e}");
                    std::process::exit(1);
                }
            }
        }
        _ => panic!("usage: witness run|replay PROP ..."),
    }
}
