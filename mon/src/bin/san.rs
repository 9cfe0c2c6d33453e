//! The library under the sanitizers: every monitor's workload in an
//! AddressSanitizer build, the threaded workload in a ThreadSanitizer build,
//! a small one under Miri. check.sh builds them.
use mon::rt::*;
use mon::{bad, ensure};
use std::path::PathBuf;
use std::process::{Command, Stdio};

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()))
}
fn programs() -> Vec<(PathBuf, String)> {
    let mut v = vec![];
    for b in ["clouds", "geo", "hull", "icp", "kd", "lines", "meta", "polygon", "wild"] {
        let p = root().join("mon/target/asan/x86_64-unknown-linux-gnu/release").join(b);
        if let Ok(o) = Command::new(&p).arg("list").output() {
            for id in String::from_utf8_lossy(&o.stdout).lines() {
                v.push((p.clone(), id.to_string()));
            }
        }
    }
    v
}
const MIRI: u64 = 8;
const TSAN: u64 = 6;
const ROUND: u64 = 52;

fn text(o: &std::process::Output) -> String {
    format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))
}
fn around(t: &str, pat: &str) -> String {
    let at = t.find(pat).unwrap_or(0);
    t[at..].chars().take(3000).collect()
}
fn c35(c: &mut Case) -> Out {
    let (round, k) = (c.idx / ROUND, c.idx % ROUND);
    let seed = c.rng.u64() >> 16;
    let herr = |e: std::io::Error| Fail::Harness(e.to_string());
    if k < MIRI {
        let args: Vec<String> = if k % 4 == 3 { vec![seed, 0, 12, 1] } else { vec![seed, 1, 10 + 4 * k] }.iter().map(|x: &u64| x.to_string()).collect();
        c.note(|| format!("Miri, probe {args:?}"));
        let o = Command::new("cargo")
            .args(["+nightly", "miri", "run", "--offline", "--no-default-features", "--features", "std,pregenerated", "--manifest-path"])
            .arg(root().join("probe/Cargo.toml"))
            .arg("--target-dir")
            .arg(root().join("probe/target/miri"))
            .arg("--")
            .args(&args)
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-backtrace=full -Zmiri-seed={}", seed % 65536))
            .env_remove("RUSTUP_TOOLCHAIN")
            .stdin(Stdio::null())
            .output()
            .map_err(herr)?;
        let t = text(&o);
        if t.contains("Undefined Behavior") {
            if !t.contains("mapping_algorithms") && !t.contains("mapping-algorithms/src") {
                return Err(Fail::Harness(format!("undefined behaviour outside the crate: {}", around(&t, "Undefined Behavior"))));
            }
            bad!("Miri, probe {args:?}: {}", around(&t, "Undefined Behavior"));
        }
        let lines = t.lines().filter(|l| l.starts_with("x ") || l.starts_with("t ")).count();
        if !o.status.success() && !t.contains("panicked at") {
            return Err(Fail::Harness(format!("Miri ended with {:?}: {}", o.status, around(&t, "error"))));
        }
        c.ev("workloads interpreted by Miri", 1);
        c.ev("results printed under Miri", lines as u64);
        ensure!(lines > 0 || !o.status.success(), "nothing ran");
        c.sample(|| format!("Miri, probe {args:?}: {lines} results"));
        c.nontrivial(seed);
        return Ok(());
    }
    let dir = std::env::temp_dir().join(format!("mon-san-{}-{}", std::process::id(), c.idx));
    std::fs::create_dir_all(&dir).map_err(herr)?;
    let (exe, id, cases, what) = if k < MIRI + TSAN {
        (root().join("mon/target/tsan/x86_64-unknown-linux-gnu/debug/meta"), "C36".to_string(), 12, "ThreadSanitizer")
    } else {
        let ps = programs();
        if ps.len() < 20 || ps.len() as u64 > ROUND - MIRI - TSAN {
            return Err(Fail::Harness("the AddressSanitizer programs are missing, or more than a round runs".into()));
        }
        let j = (k - MIRI - TSAN) as usize;
        if j >= ps.len() {
            return Ok(());
        }
        let (p, id) = ps[j].clone();
        let cases = match id.as_str() {
            "C37" => 8,
            "C36" => 20,
            "X35" => 12_000,
            _ => 1200,
        } * if c.tier == Tier::Thorough { 5 } else { 1 };
        (p, id, cases, "AddressSanitizer")
    };
    c.note(|| format!("{what}: {} child {id} {} quick DIR {cases}", exe.display(), seed + round));
    let o = Command::new(&exe)
        .args(["child", &id, &(seed + round).to_string(), "quick"])
        .arg(&dir)
        .arg(cases.to_string())
        .env("MON_NO_FORK", "1")
        .env("ASAN_OPTIONS", "detect_leaks=0:exitcode=97:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1")
        .env("TSAN_OPTIONS", "halt_on_error=1:exitcode=97")
        .stdin(Stdio::null())
        .output();
    let stats = std::fs::read_to_string(dir.join("counts")).unwrap_or_default();
    let failure = std::fs::read_to_string(dir.join("failure")).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    let o = o.map_err(herr)?;
    let t = text(&o);
    let report = format!("{what}: ");
    if let Some(at) = t.find(&report) {
        // running out of stack or heap is C37's matter
        if !t[at..].starts_with("AddressSanitizer: stack-overflow") {
            if !t.contains("mapping_algorithms") && !t.contains("mapping-algorithms/src") {
                return Err(Fail::Harness(format!("a report without the crate in it: {}", around(&t, &report))));
            }
            bad!("{id} under {what}: {}", around(&t, &report));
        }
    } else if o.status.code().is_none() || o.status.code() == Some(2) {
        return Err(Fail::Harness(format!("{id} under {what} ended with {:?}: {}", o.status, t.chars().take(2000).collect::<String>())));
    }
    // the other monitors' verdicts are their own matter
    ensure!(id != "X35" || o.status.code() != Some(1), "slices of larger buffers, case {}", failure.replacen('\n', ": ", 1));
    let ran: u64 = stats.split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(0);
    c.ev(if what.starts_with('T') { "cases under ThreadSanitizer" } else { "cases under AddressSanitizer" }, ran);
    c.ev(if what.starts_with('T') { "threaded runs" } else { "monitors run under AddressSanitizer" }, 1);
    c.sample(|| format!("{what} {id} {cases} cases"));
    if ran > 0 {
        c.nontrivial(seed);
    }
    Ok(())
}

fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C35",
        rule: "one program run each: 8 small workloads (a quarter of them three threads on shared data) interpreted by Miri with Tree Borrows, 6 threaded ones in a ThreadSanitizer build (std included), and the workload of every other monitor in an AddressSanitizer build. Non-trivial: a run that executed cases.",
        quick: ROUND,
        thorough: 10 * ROUND,
        run: c35,
        min_nontrivial: 30,
        assumptions: &["nalgebra breaks Stacked Borrows, so Miri judges aliasing by Tree Borrows", "red zones do not see every overflow; Miri sees only the small workloads"],
        ..Prop::BASE
    }]
}

fn main() {
    mon::cli::main(props());
}
