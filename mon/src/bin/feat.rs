//! The feature sets of the crate, each built into its own probe program, on
//! one workload. (The builds themselves are the other half: see check.sh.)
use mon::ensure;
use mon::rt::*;
use std::process::{Command, Stdio};

pub const SETS: [&str; 6] = ["std-pregenerated", "none", "pregenerated", "std", "std-pregenerated-tracing", "pregenerated-tracing"];

struct Probe {
    exact: Vec<String>,
    loose: Vec<(String, f64, Vec<f64>)>,
    spans: Option<(u64, u64)>,
    premade: (u64, u64),
}
fn run(set: &str, seed: u64, rounds: u64) -> Result<Probe, Fail> {
    let exe = std::env::var("VERIF_ROOT").unwrap_or("/verif".into()) + "/probe/target/" + set + "/debug/probe";
    let o = Command::new(&exe)
        .args([seed.to_string(), rounds.to_string()])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| Fail::Harness(format!("{exe}: {e}")))?;
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    if !o.status.success() {
        return Err(Fail::Violation(format!(
            "built with {set}, the workload of seed {seed} ends with {:?}: {}",
            o.status,
            String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()
        )));
    }
    let mut p = Probe { exact: vec![], loose: vec![], spans: None, premade: (0, 0) };
    for l in out.lines() {
        if let Some(x) = l.strip_prefix("x ") {
            p.exact.push(x.into());
        } else if let Some(x) = l.strip_prefix("t ") {
            let w: Vec<&str> = x.split(' ').collect();
            let k = w.iter().position(|v| v.parse::<f64>().is_ok()).unwrap_or(w.len());
            let v: Vec<f64> = w[k..].iter().map(|v| v.parse().unwrap_or(f64::NAN)).collect();
            p.loose.push((w[..k].join(" "), v[0], v[1..].to_vec()));
        } else if let Some(x) = l.strip_prefix("r ") {
            let w: Vec<u64> = x.split(' ').map(|v| v.parse().unwrap_or(u64::MAX)).collect();
            p.spans = Some((w[0], w[1]));
        } else if let Some(x) = l.strip_prefix("p ") {
            p.premade.0 += 1;
            p.premade.1 += (x == "true") as u64;
        }
    }
    Ok(p)
}
fn short(s: &str) -> String {
    s.chars().take(400).collect()
}
fn c34(c: &mut Case) -> Out {
    let seed = c.rng.u64() >> 1;
    let rounds = 6;
    c.note(|| format!("workload seed {seed}, {rounds} rounds"));
    let base = run(SETS[0], seed, rounds)?;
    ensure!(!base.exact.is_empty(), "no output");
    for set in SETS {
        let p = run(set, seed, rounds)?;
        ensure!(p.exact.len() == base.exact.len() && p.loose.len() == base.loose.len(), "built with {set}: {} results, the default features give {}", p.exact.len(), base.exact.len());
        for (a, b) in p.exact.iter().zip(&base.exact) {
            ensure!(a == b, "built with {set}: {}\ndefault features: {}", short(a), short(b));
        }
        for ((n, tol, a), (m, _, b)) in p.loose.iter().zip(&base.loose) {
            let same = n == m && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= *tol);
            ensure!(same, "built with {set}: {n} {a:?}\ndefault features: {m} {b:?} (tolerance {tol:e})");
        }
        ensure!(p.premade.0 == p.premade.1, "built with {set}: a premade function differs from the generic one");
        ensure!((p.premade.0 > 0) == set.contains("pregenerated"), "built with {set}: {} premade comparisons", p.premade.0);
        if let Some((n, open)) = p.spans {
            ensure!(open == 0, "built with {set}: {open} spans still entered at the end");
            c.ev("spans recorded", n);
        }
        ensure!(p.spans.map_or(false, |s| s.0 > 0) == set.contains("tracing"), "built with {set}: spans {:?}", p.spans);
        c.ev("programs run", 1);
        c.ev("exact results compared", p.exact.len() as u64);
        c.ev("rounded results compared", p.loose.len() as u64);
    }
    c.sample(|| format!("workload seed {seed}: {}", short(&base.exact[0])));
    c.nontrivial(hash_bytes(base.exact.iter().flat_map(|s| s.bytes().map(|b| b as u64))));
    Ok(())
}

fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C34",
        rule: "six feature sets (with and without std, premade functions, tracing under a subscriber that records every span) each compiled into its own program and run on one seeded workload over all public functions: identical results, transcendental ones within rounding; spans balanced. Non-trivial: a distinct workload.",
        quick: 60,
        thorough: 3_000,
        run: c34,
        min_nontrivial: 10,
        assumptions: &["without std the crate is still linked into a std program"],
        ..Prop::BASE
    }]
}

fn main() {
    mon::cli::main(props());
}
