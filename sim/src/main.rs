#![allow(dead_code, unused_imports, suspicious_runtime_symbol_definitions)]
mod conn;
mod h;
mod kit;
mod hostile;
mod iso;
mod life;
mod misc;
mod oracle;
mod refpeer;
mod session;
mod wire;
mod wirep;
mod wiremon;
mod logs;
mod multi;
mod prompt;
mod wrap;
mod interpose;
mod props;
mod runner;

use runner::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::process::exit;

fn arg(a: &[String], n: &str) -> Option<String> {
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}

fn verif_dir() -> String {
    std::env::var("RKSIM_DIR").unwrap_or_else(|_| "/verif".into())
}

fn main() {
    // one address-space layout for every process
    unsafe {
        let cur = interpose::sys::personality(0xffff_ffff);
        if cur >= 0 && cur & 0x0040000 == 0 && std::env::var_os("RKSIM_REEXEC").is_none() {
            if interpose::sys::personality(cur as u64 | 0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe")
                    .args(std::env::args_os().skip(1))
                    .env("RKSIM_REEXEC", "1")
                    .exec();
                eprintln!("re-exec failed: {}", e);
            }
        }
    }
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a),
        Some("run") => run_cmd(&a),
        Some("determinism") => determinism(&a),
        Some("list") => {
            for p in props::PROPS {
                println!("{} {}", p.id, p.scens.iter().map(|s| s.1).collect::<Vec<_>>().join(","));
            }
            0
        }
        _ => {
            eprintln!("usage: rksim check --property P | replay FILE | run --property P --seed S | determinism");
            2
        }
    };
    exit(code)
}

fn ncpu() -> u64 {
    std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)
}

fn known() -> Vec<Value> {
    let p = format!("{}/known_findings.json", verif_dir());
    match std::fs::read_to_string(p) {
        Ok(s) => serde_json::from_str::<Value>(&s)
            .ok()
            .and_then(|v| v["findings"].as_array().cloned())
            .unwrap_or_default(),
        Err(_) => vec![],
    }
}

fn check(a: &[String]) -> i32 {
    let prop = arg(a, "--property").expect("--property");
    let tier = arg(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed: u64 = arg(a, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let p = match props::PROPS.iter().find(|p| p.id == prop) {
        Some(p) => p,
        None => {
            eprintln!("no such property {}", prop);
            return 2;
        }
    };
    let thorough = tier == "thorough";
    let runs: u64 = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let wall: f64 =
        arg(a, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500.0 } else { 240.0 });
    let workers: u64 = arg(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(ncpu());
    let only = arg(a, "--scenario");
    println!("rksim: property {} tier {} VERIF_SEED {} runs {} workers {}", prop, tier, seed, runs, workers);
    let agg = batch(&prop, seed, 0, runs, workers, wall, only.as_deref());
    let dir = verif_dir();
    let mut exit_code = 0;
    let mut viol = 0u64;
    let kn = known();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut reported: BTreeMap<String, ()> = BTreeMap::new();
    if !agg.harness_errors.is_empty() {
        for e in agg.harness_errors.iter().take(5) {
            eprintln!("HARNESS ERROR {}", e);
        }
        // a handful of runs the harness could not finish leave the rest standing
        if agg.harness_errors.len() as u64 * 200 > agg.runs {
            exit_code = 2;
        }
    }
    for (i, rs, scen, v) in &agg.found {
        for (class, msg) in mine(v, &prop) {
            if let Some(k) = kn.iter().find(|k| {
                k["status"] == "known" && k["property"] == prop.as_str() && k["class"] == class.as_str()
            }) {
                *known_hit.entry(k["what"].as_str().unwrap_or("").into()).or_insert(0) += 1;
                continue;
            }
            viol += 1;
            if reported.contains_key(&class) || reported.len() >= 3 {
                continue;
            }
            reported.insert(class.clone(), ());
            println!("run {} seed {:016x} scenario {}: [{}] {}", i, rs, scen, class, msg);
            let path = report(&prop, scen, *rs, &class, v, seed, &dir, if thorough { 120.0 } else { 40.0 });
            println!("VIOLATION property={} replay={}", prop, path);
            exit_code = 1;
        }
    }
    for k in kn.iter().filter(|k| k["status"] == "known" && k["property"] == prop.as_str()) {
        println!("KNOWN-FINDING: property={} {}", prop, k["what"].as_str().unwrap_or(""));
    }
    let per_h = |x: f64| if agg.wall_s > 0.0 { (x * 3600.0 / agg.wall_s) as u64 } else { 0 };
    let mut probes = agg.probes.clone();
    for k in p.probes {
        probes.entry(k.to_string()).or_insert(0);
    }
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.distinct,
            "rule": format!("One evaluation is one simulated run: a fresh process, one seed deciding schedule, clock, network, I/O faults, randomness and workload. {} A run counts as non-trivial when it did what the property is about (workload completed the phase under test) and at least one fault fired or one scheduling preemption happened; distinct means a distinct digest over every poll, datagram byte and delivery of the run.", p.rule),
            "samples": agg.samples,
            "runs_by_scenario": agg.scen,
            "nontrivial_runs": agg.nontrivial,
            "inconclusive_runs": agg.inconclusive,
            "harness_errors": agg.harness_errors.len(),
            "runs_per_hour": per_h(agg.runs as f64),
            "seeds_per_hour": per_h(agg.runs as f64),
            "simulated_seconds": agg.sim_ms / 1000,
            "simulated_seconds_per_hour": per_h(agg.sim_ms as f64 / 1000.0),
            "task_polls": agg.polls,
            "datagrams_emitted": agg.sent,
            "faults_fired": agg.faults,
            "runs_in_which_fault_fired": agg.faulted_runs,
            "probes": probes,
            "run_ends": agg.ends,
            "abnormal_ends": agg.abnormal,
            "library_panics": agg.panics,
            "peak_heap_bytes": agg.heap_max,
            "known_findings_hit": known_hit,
            "real_components": "all of rust-raknet (compiled unmodified from /repo), tokio sync primitives and select!/join! macros (tokio 1.54.1 sources with preemption hooks), bytes, rand",
            "stub_components": "executor/runtime, timers and clocks, UDP sockets and network, OS randomness (all simulated); peers in interop scenarios are the harness's own RakNet implementation",
        },
        "assumptions": [
            "interleavings are explored at task-poll granularity plus preemption points inside tokio synchronisation primitives; data races inside unsafe code are out of reach",
            "sampling, not enumeration: no alarm means none of these runs failed"
        ],
        "wall_s": agg.wall_s,
        "violations": viol,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", dir, prop), format!("{:#}\n", ev)) {
        eprintln!("cannot write evidence: {}", e);
        if exit_code == 0 {
            exit_code = 2;
        }
    }
    println!(
        "rksim: {} runs ({} non-trivial, {} distinct, {} inconclusive) in {:.1}s, {} simulated s, {} violating runs, abnormal {:?}",
        agg.runs, agg.nontrivial, agg.distinct, agg.inconclusive, agg.wall_s, agg.sim_ms / 1000, agg.found.len(), agg.abnormal
    );
    exit_code
}

fn report(prop: &str, scen: &str, rs: u64, class: &str, v: &Value, base: u64, dir: &str, budget: f64) -> String {
    let shm = Shm::new();
    let mut spec = Spec {
        prop: prop.into(),
        scen: scen.into(),
        seed: rs,
        replay: None,
        no_preempt: v["no_preempt"].as_bool().unwrap_or(false),
        trace: false,
        want_choices: true,
    };
    let full = run_once(&spec, &shm);
    let mut rep = None;
    let mut tries = 0;
    let mut from = 0;
    if !full["choices"].is_null() && mine(&full, prop).iter().any(|x| x.0 == class) {
        let c = choices_from(&full["choices"]);
        from = c.iter().map(|s| s.iter().filter(|x| **x != 0).count()).sum::<usize>();
        let (m, t) = minimise(&spec, class, c, budget, &shm);
        tries = t;
        rep = Some(m);
    }
    spec.replay = rep.clone();
    spec.trace = true;
    spec.want_choices = false;
    let fin = run_once(&spec, &shm);
    let to = rep.as_ref().map(|c| c.iter().map(|s| s.iter().filter(|x| **x != 0).count()).sum::<usize>()).unwrap_or(0);
    let mut tr: Vec<Value> = fin["trace"].as_array().cloned().unwrap_or_default();
    let total = tr.len();
    if tr.len() > 1500 {
        let cut = tr.len() - 1200;
        let mut head: Vec<Value> = tr[..300].to_vec();
        head.push(json!(format!("... {} lines left out ...", cut - 300)));
        head.extend_from_slice(&tr[cut..]);
        tr = head;
    }
    let msg = mine(&fin, prop).into_iter().find(|x| x.0 == class).map(|x| x.1);
    let file = json!({
        "property": prop, "scenario": scen, "class": class,
        "violation": msg.or_else(|| mine(v, prop).into_iter().find(|x| x.0 == class).map(|x| x.1)),
        "verif_seed": base, "run_seed": rs.to_string(), "no_preempt": spec.no_preempt,
        "choices": rep.as_ref().map(|c| choices_json(c)),
        "digest": fin["digest"], "abnormal": fin["abnormal"],
        "minimisation": {"runs": tries, "nonzero_choices_before": from, "nonzero_choices_after": to},
        "plan": fin["summary"], "faults": fin["faults"],
        "trace_lines": total, "trace": tr,
        "how_to_replay": "bash /verif/run.sh replay <this file>",
    });
    let _ = std::fs::create_dir_all(format!("{}/out", dir));
    let path = format!("{}/out/{}-{:016x}-{}.json", dir, prop, rs, class.replace(|c: char| !c.is_ascii_alphanumeric(), "_"));
    let _ = std::fs::write(&path, format!("{:#}\n", file));
    path
}

fn replay(a: &[String]) -> i32 {
    let f = a.get(2).expect("file");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("read")).expect("json");
    let spec = Spec {
        prop: v["property"].as_str().unwrap().into(),
        scen: v["scenario"].as_str().unwrap().into(),
        seed: v["run_seed"].as_str().unwrap().parse().unwrap(),
        replay: if v["choices"].is_null() { None } else { Some(choices_from(&v["choices"])) },
        no_preempt: v["no_preempt"].as_bool().unwrap_or(false),
        trace: true,
        want_choices: false,
    };
    let shm = Shm::new();
    let r = run_once(&spec, &shm);
    if a.iter().any(|x| x == "--trace") {
        for l in r["trace"].as_array().cloned().unwrap_or_default() {
            println!("{}", l.as_str().unwrap_or(""));
        }
    }
    let class = v["class"].as_str().unwrap();
    let hit = mine(&r, &spec.prop).into_iter().find(|x| x.0 == class);
    println!("digest {} (recorded {})", r["digest"], v["digest"]);
    match hit {
        Some((c, m)) => {
            println!("reproduced: [{}] {}", c, m);
            println!("VIOLATION property={} replay={}", spec.prop, f);
            1
        }
        None => {
            println!("not reproduced; violations now: {:?} abnormal {}", mine(&r, &spec.prop), r["abnormal"]);
            0
        }
    }
}

fn run_cmd(a: &[String]) -> i32 {
    let prop = arg(a, "--property").expect("--property");
    let base: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let i: u64 = arg(a, "--run").and_then(|s| s.parse().ok()).unwrap_or(0);
    let scen = arg(a, "--scenario").unwrap_or_else(|| props::pick_scenario(&prop, i));
    let seed = match arg(a, "--rs") {
        Some(s) => u64::from_str_radix(&s, 16).unwrap(),
        None => run_seed(base, &prop, i),
    };
    let spec = Spec {
        prop,
        scen,
        seed,
        replay: None,
        no_preempt: a.iter().any(|x| x == "--no-preempt"),
        trace: a.iter().any(|x| x == "--trace"),
        want_choices: false,
    };
    let shm = Shm::new();
    let mut r = run_once(&spec, &shm);
    if let Some(t) = r["trace"].as_array().cloned() {
        for l in t {
            println!("{}", l.as_str().unwrap_or(""));
        }
        r["trace"] = Value::Null;
    }
    println!("{:#}", r);
    0
}

/// Every scenario of every property: many seeds, each run several times in
/// different processes and at different worker counts, digests compared.
fn determinism(a: &[String]) -> i32 {
    let n: u64 = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(60);
    let base: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(7);
    let only = arg(a, "--property");
    let mut bad = 0;
    let mut total = 0;
    for p in props::PROPS {
        if only.as_deref().map(|o| o != p.id).unwrap_or(false) {
            continue;
        }
        let one = |workers: u64| -> BTreeMap<u64, String> {
            let mut m = BTreeMap::new();
            let agg = batch_rows(p.id, base, n, workers);
            for (i, d) in agg {
                m.insert(i, d);
            }
            m
        };
        let x = one(8);
        let y = one(3);
        let z = one(5);
        for (i, d) in &x {
            total += 1;
            if y.get(i) != Some(d) || z.get(i) != Some(d) {
                bad += 1;
                println!("{} run {} ({}): {} {:?} {:?}", p.id, i, props::pick_scenario(p.id, *i), d, y.get(i), z.get(i));
            }
        }
        println!("{}: {} runs compared x3", p.id, x.len());
    }
    println!("determinism: {} runs, each executed in 3 processes at 8, 3 and 5 workers; {} diverged", total, bad);
    if bad == 0 {
        0
    } else {
        1
    }
}

fn batch_rows(prop: &str, base: u64, n: u64, workers: u64) -> Vec<(u64, String)> {
    // digest + full result text, so that a divergence outside the digest shows too
    let agg = batch_full(prop, base, n, workers);
    agg.into_iter().map(|(i, v)| (i, v.to_string())).collect()
}
