//! One process per simulated run; batches over workers; minimisation; replay.
use crate::interpose::{self, sys, ACTIVE};
use crate::{h, props};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering::Relaxed;
use tokio::sim;

const SHM: usize = 96 << 20;

pub struct Shm(*mut u8);
impl Shm {
    pub fn new() -> Shm {
        let p = unsafe { sys::mmap(std::ptr::null_mut(), SHM, 3, 0x1 | 0x20 | 0x4000, -1, 0) };
        assert!(p as isize != -1);
        Shm(p)
    }
    fn clear(&self) {
        unsafe { (self.0 as *mut u64).write_volatile(0) }
    }
    fn put(&self, b: &[u8]) {
        unsafe {
            let n = b.len().min(SHM - 8);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(8), n);
            (self.0 as *mut u64).write_volatile(n as u64);
        }
    }
    fn get(&self) -> Option<&[u8]> {
        unsafe {
            let n = (self.0 as *mut u64).read_volatile() as usize;
            if n == 0 {
                None
            } else {
                Some(std::slice::from_raw_parts(self.0.add(8), n))
            }
        }
    }
}

#[derive(Clone)]
pub struct Spec {
    pub prop: String,
    pub scen: String,
    pub seed: u64,
    pub replay: Option<Vec<Vec<u64>>>,
    pub no_preempt: bool,
    pub trace: bool,
    pub want_choices: bool,
}

const CPU_LIMIT_S: u64 = 20;
const MEM_LIMIT: usize = 3 << 30;

fn child(spec: &Spec, shm: &Shm) -> ! {
    unsafe {
        sys::prctl(1, 9, 0, 0, 0); // die with the parent
        let cpu = if spec.scen == "wrap_real" { 900 } else { CPU_LIMIT_S };
        sys::setrlimit(0, &[cpu, cpu + 2]);
        sys::setrlimit(4, &[0, 0]);
        if std::env::var_os("RKSIM_STDOUT").is_none() {
            let n = sys::open(c"/dev/null".as_ptr(), 1);
            sys::dup2(n, 1);
            sys::dup2(n, 2);
        }
    }
    h::reset(&spec.prop);
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let (f, l) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        if std::env::var_os("RKSIM_STDOUT").is_some() {
            eprintln!("panic: {} at {}:{}", msg, f, l);
        }
        sim::record_panic(msg, f, l);
    }));
    sim::init(
        sim::Cfg { seed: spec.seed, trace: spec.trace, live: spec.trace && std::env::var_os("RKSIM_LIVE").is_some(), ..sim::Cfg::default() },
        spec.replay.clone(),
    );
    interpose::LIMIT.store(interpose::CUR.load(Relaxed) + MEM_LIMIT, Relaxed);
    interpose::PEAK.store(interpose::CUR.load(Relaxed), Relaxed);
    let heap0 = interpose::CUR.load(Relaxed);
    ACTIVE.store(true, Relaxed);
    let no_preempt = spec.no_preempt;
    let f = props::scenario(&spec.prop, &spec.scen);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(no_preempt)));
    ACTIVE.store(false, Relaxed);
    // Library code never panics, on whatever task: no scenario passes arguments
    // it may refuse that way.
    crate::kit::check_panics(&[&spec.prop]);
    let lib_panicked = !crate::kit::lib_panics().is_empty();
    let hs = h::take();
    let wd = sim::world();
    let mut o = Map::new();
    let mut harness_err = None;
    if r.is_err() {
        harness_err = Some("scenario panicked".to_string());
    }
    for p in &wd.panics {
        if is_harness_file(&p.file) {
            harness_err = Some(format!("harness panic: {} at {}:{}", p.msg, p.file, p.line));
        }
    }
    // a call of the library that panics takes the task of the scenario with it
    if let Some(e) = harness_err.filter(|_| !lib_panicked) {
        o.insert("harness_error".into(), e.into());
    }
    o.insert(
        "violations".into(),
        Value::Array(
            hs.violations
                .iter()
                .map(|v| json!({"prop": v.prop, "class": v.class, "msg": v.msg, "at_ms": v.at / sim::MS}))
                .collect(),
        ),
    );
    let lib_panics: Vec<Value> = wd
        .panics
        .iter()
        .filter(|p| !is_harness_file(&p.file))
        .map(|p| json!(format!("{} at {}:{} (task {})", p.msg, p.file, p.line, p.task)))
        .collect();
    o.insert("panics".into(), Value::Array(lib_panics));
    o.insert("digest".into(), format!("{:016x}", sim::digest()).into());
    o.insert("end".into(), hs.end.into());
    o.insert("sim_ms".into(), ((sim::now() - 1000 * sim::SEC) / sim::MS).into());
    o.insert("polls".into(), sim::polls().into());
    o.insert("sent".into(), wd.net.sent.into());
    o.insert("heap".into(), (interpose::PEAK.load(Relaxed).saturating_sub(heap0)).into());
    o.insert("nontrivial".into(), hs.nontrivial.into());
    o.insert("inconclusive".into(), hs.inconclusive.into());
    o.insert("summary".into(), hs.summary.clone().into());
    o.insert("faults".into(), map(&wd.faults));
    o.insert("probes".into(), map(&wd.probes));
    if spec.trace {
        o.insert("trace".into(), wd.trace.iter().map(|s| Value::from(s.clone())).collect());
    }
    if spec.want_choices {
        o.insert("choices".into(), choices_json(&sim::recorded()));
    }
    shm.put(Value::Object(o).to_string().as_bytes());
    interpose::exit_now(0)
}

fn map(m: &BTreeMap<String, u64>) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.clone(), Value::from(*v))).collect())
}
pub fn choices_json(c: &[Vec<u64>]) -> Value {
    let mut o = Map::new();
    for (i, s) in c.iter().enumerate() {
        o.insert(sim::choice::STREAM_NAMES[i].into(), s.iter().map(|x| Value::from(*x)).collect());
    }
    Value::Object(o)
}
pub fn choices_from(v: &Value) -> Vec<Vec<u64>> {
    sim::choice::STREAM_NAMES
        .iter()
        .map(|n| v[*n].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default())
        .collect()
}
pub fn is_harness_file(f: &str) -> bool {
    f.starts_with("src/") || f.contains("/tokio-sim/")
}

/// Fork, run, reap. Abnormal ends become a result with "abnormal" set.
pub fn run_once(spec: &Spec, shm: &Shm) -> Value {
    let v = run_raw(spec, shm);
    if v["abnormal"] == "lock" && !spec.no_preempt {
        // A task holding a std lock was preempted at one of our points: an
        // artefact of nested polling. Repeat without preemption.
        let mut s = spec.clone();
        s.no_preempt = true;
        let mut v = run_raw(&s, shm);
        v["no_preempt"] = true.into();
        return v;
    }
    v
}
fn run_raw(spec: &Spec, shm: &Shm) -> Value {
    shm.clear();
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        child(spec, shm);
    }
    let mut st = 0i32;
    unsafe {
        while sys::waitpid(pid, &mut st, 0) < 0 {}
    }
    if st == 0 {
        if let Some(b) = shm.get() {
            if let Ok(v) = serde_json::from_slice::<Value>(b) {
                return v;
            }
        }
        return json!({"harness_error": "no result from run"});
    }
    let why = if st & 0x7f != 0 {
        match st & 0x7f {
            24 | 9 => "cpu".to_string(),
            s => format!("signal {}", s),
        }
    } else {
        match (st >> 8) & 0xff {
            interpose::EXIT_FUTEX => "lock".into(),
            interpose::EXIT_MEMORY => "memory".into(),
            c => format!("exit {}", c),
        }
    };
    let mut v = json!({"abnormal": why, "violations": [], "panics": [], "digest": "0", "faults": {}, "probes": {}, "sim_ms": 0});
    if let Some(c) = props::abnormal_class(&spec.prop) {
        if why == "cpu" || why == "memory" || why == "lock" || why.starts_with("signal") {
            v["violations"] = json!([{"prop": spec.prop, "class": format!("{}-{}", c, why.replace(' ', "-")),
                "msg": format!("the run never came to an end: {}", why), "at_ms": 0}]);
        }
    }
    v
}

pub fn mine(v: &Value, prop: &str) -> Vec<(String, String)> {
    v["violations"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|x| x["prop"] == prop)
                .map(|x| (x["class"].as_str().unwrap_or("").to_string(), x["msg"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    let mut x = base.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ i.wrapping_mul(0xA24B_AED4_963E_E407);
    for b in prop.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    sim::choice::splitmix(&mut x)
}

#[derive(Default)]
pub struct Agg {
    pub runs: u64,
    pub digests: HashSet<String>,
    pub nontrivial: u64,
    pub distinct: u64,
    pub inconclusive: u64,
    pub sim_ms: u64,
    pub polls: u64,
    pub sent: u64,
    pub faults: BTreeMap<String, u64>,
    pub faulted_runs: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub scen: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub found: Vec<(u64, u64, String, Value)>, // index, seed, scenario, result
    pub harness_errors: Vec<String>,
    pub abnormal: BTreeMap<String, u64>,
    pub ends: BTreeMap<String, u64>,
    pub panics: BTreeMap<String, u64>,
    pub heap_max: u64,
    pub wall_s: f64,
}

impl Agg {
    fn add(&mut self, i: u64, seed: u64, scen: &str, v: Value, prop: &str) {
        self.runs += 1;
        *self.scen.entry(scen.into()).or_insert(0) += 1;
        if let Some(e) = v["harness_error"].as_str() {
            self.harness_errors.push(format!("run {} seed {} scenario {}: {}", i, seed, scen, e));
        }
        if let Some(e) = v["abnormal"].as_str() {
            *self.abnormal.entry(e.into()).or_insert(0) += 1;
        }
        if let Some(e) = v["end"].as_str() {
            *self.ends.entry(e.into()).or_insert(0) += 1;
        }
        let nt = v["nontrivial"].as_bool().unwrap_or(false);
        if nt {
            self.nontrivial += 1;
            if self.digests.insert(v["digest"].as_str().unwrap_or("").into()) {
                self.distinct += 1;
            }
        }
        if v["inconclusive"].as_bool().unwrap_or(false) {
            self.inconclusive += 1;
        }
        self.sim_ms += v["sim_ms"].as_u64().unwrap_or(0);
        self.polls += v["polls"].as_u64().unwrap_or(0);
        self.sent += v["sent"].as_u64().unwrap_or(0);
        self.heap_max = self.heap_max.max(v["heap"].as_u64().unwrap_or(0));
        if let Some(m) = v["faults"].as_object() {
            for (k, x) in m {
                *self.faults.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                *self.faulted_runs.entry(k.clone()).or_insert(0) += 1;
            }
        }
        if let Some(m) = v["probes"].as_object() {
            for (k, x) in m {
                *self.probes.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
        }
        if let Some(a) = v["panics"].as_array() {
            for p in a {
                *self.panics.entry(p.as_str().unwrap_or("").into()).or_insert(0) += 1;
            }
        }
        if nt && self.samples.len() < 3 {
            self.samples.push(json!({"run": i, "seed": format!("{:016x}", seed), "scenario": scen,
                "plan": v["summary"], "digest": v["digest"], "sim_ms": v["sim_ms"], "faults": v["faults"]}));
        }
        if !mine(&v, prop).is_empty() {
            self.found.push((i, seed, scen.to_string(), v));
        }
    }
}

/// Run indices [0, runs) over `workers` processes, stopping early at the wall
/// limit or once a violation turned up (after a short grace to finish).
pub fn batch(prop: &str, base: u64, first: u64, runs: u64, workers: u64, wall_s: f64, only: Option<&str>) -> Agg {
    let t0 = interpose::real_ns();
    let mut agg = Agg::default();
    let mut fds = Vec::new();
    let mut pids = Vec::new();
    for k in 0..workers {
        let mut p = [0i32; 2];
        unsafe {
            assert!(sys::pipe(p.as_mut_ptr()) == 0);
        }
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe {
                sys::prctl(1, 9, 0, 0, 0);
                sys::close(p[0]);
            }
            let shm = Shm::new();
            let mut i = first + k;
            while i < first + runs {
                if (interpose::real_ns() - t0) as f64 / 1e9 > wall_s {
                    break;
                }
                let seed = run_seed(base, prop, i);
                let scen = match only {
                    Some(s) => s.to_string(),
                    None => props::pick_scenario(prop, i),
                };
                let spec = Spec {
                    prop: prop.into(),
                    scen: scen.clone(),
                    seed,
                    replay: None,
                    no_preempt: false,
                    trace: false,
                    want_choices: false,
                };
                let v = run_once(&spec, &shm);
                let msg = format!("{}\n", json!([i, seed.to_string(), scen, v]));
                let b = msg.as_bytes();
                let mut off = 0;
                while off < b.len() {
                    let n = unsafe { sys::write(p[1], b[off..].as_ptr(), b.len() - off) };
                    if n <= 0 {
                        interpose::exit_now(0);
                    }
                    off += n as usize;
                }
                i += workers;
            }
            interpose::exit_now(0);
        }
        unsafe {
            sys::close(p[1]);
        }
        fds.push((p[0], Vec::<u8>::new(), true));
        pids.push(pid);
    }
    let mut buf = vec![0u8; 1 << 16];
    let mut rows: Vec<(u64, u64, String, Value)> = Vec::new();
    let mut found_at: Option<u64> = None;
    'outer: while fds.iter().any(|f| f.2) {
        let mut pf: Vec<sys::PollFd> =
            fds.iter().map(|f| sys::PollFd { fd: if f.2 { f.0 } else { -1 }, events: 1, revents: 0 }).collect();
        unsafe {
            sys::poll(pf.as_mut_ptr(), pf.len() as u64, 500);
        }
        for (j, f) in fds.iter_mut().enumerate() {
            if pf[j].revents == 0 || !f.2 {
                continue;
            }
            let n = unsafe { sys::read(f.0, buf.as_mut_ptr(), buf.len()) };
            if n <= 0 {
                f.2 = false;
                continue;
            }
            f.1.extend_from_slice(&buf[..n as usize]);
            while let Some(p) = f.1.iter().position(|c| *c == b'\n') {
                let line: Vec<u8> = f.1.drain(..=p).collect();
                if let Ok(v) = serde_json::from_slice::<Value>(&line) {
                    let i = v[0].as_u64().unwrap();
                    let seed: u64 = v[1].as_str().unwrap().parse().unwrap();
                    let scen = v[2].as_str().unwrap().to_string();
                    let r = v[3].clone();
                    if !mine(&r, prop).is_empty() && found_at.is_none() {
                        found_at = Some(interpose::real_ns());
                    }
                    rows.push((i, seed, scen, r));
                }
            }
        }
        if let Some(t) = found_at {
            if interpose::real_ns() - t > 1_000_000_000 {
                break 'outer;
            }
        }
    }
    for p in pids {
        unsafe {
            sys::kill(p, 9);
            let mut st = 0;
            sys::waitpid(p, &mut st, 0);
        }
    }
    for f in fds {
        unsafe {
            sys::close(f.0);
        }
    }
    // fold in run order so that samples and the first violation do not depend
    // on which worker was quickest
    rows.sort_by_key(|r| r.0);
    for (i, s, sc, v) in rows {
        agg.add(i, s, &sc, v, prop);
    }
    agg.wall_s = (interpose::real_ns() - t0) as f64 / 1e9;
    agg
}

/// Shrink the recorded choices while the same class of violation persists.
pub fn minimise(spec: &Spec, class: &str, start: Vec<Vec<u64>>, budget_s: f64, shm: &Shm) -> (Vec<Vec<u64>>, u64) {
    let t0 = interpose::real_ns();
    let mut best = start;
    let mut tries = 0u64;
    let try_it = |c: &Vec<Vec<u64>>, tries: &mut u64| -> bool {
        *tries += 1;
        let mut s = spec.clone();
        s.replay = Some(c.clone());
        s.trace = false;
        let v = run_once(&s, shm);
        mine(&v, &spec.prop).iter().any(|x| x.0 == class)
    };
    let over = || (interpose::real_ns() - t0) as f64 / 1e9 > budget_s;
    // whole streams first, then prefixes, then blocks
    let mut progress = true;
    while progress && !over() {
        progress = false;
        for s in 0..best.len() {
            if best[s].is_empty() || over() {
                continue;
            }
            let mut c = best.clone();
            c[s].clear();
            if try_it(&c, &mut tries) {
                best = c;
                progress = true;
                continue;
            }
            // shortest prefix that still fails
            let (mut lo, mut hi) = (0usize, best[s].len());
            while lo + 1 < hi && !over() {
                let mid = (lo + hi) / 2;
                let mut c = best.clone();
                c[s].truncate(mid);
                if try_it(&c, &mut tries) {
                    hi = mid;
                    best = c;
                    progress = true;
                } else {
                    lo = mid;
                }
            }
            // zero blocks
            let mut blk = best[s].len() / 2;
            while blk >= 1 && !over() {
                let mut i = 0;
                while i < best[s].len() && !over() {
                    let e = (i + blk).min(best[s].len());
                    if best[s][i..e].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        for x in &mut c[s][i..e] {
                            *x = 0;
                        }
                        while c[s].last() == Some(&0) {
                            c[s].pop();
                        }
                        if try_it(&c, &mut tries) {
                            best = c;
                            progress = true;
                        }
                    }
                    i += blk;
                }
                if blk > 64 || best[s].len() <= 400 {
                    blk /= 2;
                } else {
                    break;
                }
            }
            // shrink values
            if best[s].len() <= 60 {
                for i in 0..best[s].len() {
                    if over() {
                        break;
                    }
                    let mut v = best[s].get(i).copied().unwrap_or(0);
                    while v > 1 && !over() {
                        let mut c = best.clone();
                        c[s][i] = v / 2;
                        if try_it(&c, &mut tries) {
                            best = c;
                            progress = true;
                            v /= 2;
                        } else {
                            break;
                        }
                    }
                }
            }
        }
    }
    (best, tries)
}

/// All results of a batch, in run order.
pub fn batch_full(prop: &str, base: u64, n: u64, workers: u64) -> Vec<(u64, Value)> {
    let mut out = Vec::new();
    let mut fds = Vec::new();
    for k in 0..workers {
        let mut p = [0i32; 2];
        unsafe {
            assert!(sys::pipe(p.as_mut_ptr()) == 0);
        }
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            let shm = Shm::new();
            // perturb the heap so that addresses differ between workers
            let junk: Vec<Vec<u8>> = (0..(k * workers * 7)).map(|i| vec![0u8; 64 + (i as usize * 37) % 4000]).collect();
            let mut i = k;
            let mut s = String::new();
            while i < n {
                let spec = Spec {
                    prop: prop.into(),
                    scen: props::pick_scenario(prop, i),
                    seed: run_seed(base, prop, i),
                    replay: None,
                    no_preempt: false,
                    trace: false,
                    want_choices: true,
                };
                let mut v = run_once(&spec, &shm);
                if let Some(c) = v["choices"].as_object() {
                    let mut x = 0u64;
                    for (_, s) in c {
                        for e in s.as_array().unwrap() {
                            x = (x ^ e.as_u64().unwrap()).wrapping_mul(0x100_0000_01B3).rotate_left(9);
                        }
                    }
                    v["choices"] = format!("{:x}", x).into();
                }
                s.push_str(&format!("{}\n", json!([i, v])));
                i += workers;
            }
            drop(junk);
            let b = s.as_bytes();
            let mut off = 0;
            while off < b.len() {
                let n = unsafe { sys::write(p[1], b[off..].as_ptr(), b.len() - off) };
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            interpose::exit_now(0);
        }
        unsafe {
            sys::close(p[1]);
        }
        fds.push((p[0], pid));
    }
    for (fd, pid) in fds {
        let mut all = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let k = unsafe { sys::read(fd, buf.as_mut_ptr(), buf.len()) };
            if k <= 0 {
                break;
            }
            all.extend_from_slice(&buf[..k as usize]);
        }
        unsafe {
            sys::close(fd);
            let mut st = 0;
            sys::waitpid(pid, &mut st, 0);
        }
        for l in all.split(|c| *c == b'\n') {
            if let Ok(v) = serde_json::from_slice::<Value>(l) {
                out.push((v[0].as_u64().unwrap(), v[1].clone()));
            }
        }
    }
    out.sort_by_key(|x| x.0);
    out
}
