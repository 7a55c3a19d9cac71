//! Seeded search, minimisation, replay and evidence.
use crate::hist::*;
use crate::scn::{self, RunRes, Scn};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sim::{Decider, Rng, CLOCK, ENTROPY};

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.rotate_left(32));
    r.next();
    r.next()
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

/// One run on a thread of its own, so that no thread-local state is left over from another run.
pub fn run_isolated(scn: &Scn, dec: Decider, entropy: u64, limit: Duration, lines: bool) -> Option<RunRes> {
    let (tx, rx) = mpsc::sync_channel(1);
    let scn = scn.clone();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            ENTROPY.with(|e| e.set(entropy | 1));
            CLOCK.with(|c| c.set(0));
            let r = scn.run(dec, entropy, lines);
            let _ = tx.send(r);
        })
        .expect("thread");
    rx.recv_timeout(limit).ok()
}

/// What seed `k` of a check stands for.
pub fn case(prop: &str, base: u64, k: u64, thorough: bool) -> (Scn, Decider, u64, u64) {
    let seed = mix(hash_str(prop) ^ base, k);
    let mut r = Rng::new(seed);
    let entropy = r.next();
    let sched = r.next();
    let scn = scn::generate(prop, &mut r, k, thorough);
    (scn, Decider::Random(Rng::new(sched)), entropy, seed)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub how: String,
    pub entropy: u64,
    pub scenario: Scn,
    /// non-zero scheduling, timing and network decisions (index, value); every other decision is 0
    pub decisions: Vec<(u64, u32)>,
    /// the run as the peers saw it
    pub history: Vec<String>,
}

fn same<'a>(r: &'a RunRes, prop: &str, class: &str) -> Option<&'a Violation> {
    r.viols.iter().find(|v| v.property == prop && v.class == class)
}

fn trace_of(t: &[(u64, u32)]) -> Decider {
    Decider::Trace(t.iter().copied().collect())
}

/// Smaller scenarios, most drastic first.
fn candidates(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    fn get_mut<'a>(v: &'a mut Value, path: &[Value]) -> Option<&'a mut Value> {
        let mut x = v;
        for p in path {
            x = match p {
                Value::String(s) => x.get_mut(s.as_str())?,
                Value::Number(n) => x.get_mut(n.as_u64()? as usize)?,
                _ => return None,
            };
        }
        Some(x)
    }
    fn walk(root: &Value, v: &Value, path: &mut Vec<Value>, out: &mut Vec<(usize, Value)>) {
        match v {
            Value::Array(a) => {
                let n = a.len();
                let mut size = n;
                while size >= 1 && n > 0 {
                    let mut s = 0;
                    while s < n {
                        let mut c = root.clone();
                        if let Some(Value::Array(x)) = get_mut(&mut c, path) {
                            x.drain(s..(s + size).min(n));
                        }
                        out.push((path.len() * 1000 + (n - size), c));
                        s += size;
                    }
                    size /= 2;
                }
                for (i, x) in a.iter().enumerate() {
                    path.push(json!(i));
                    walk(root, x, path, out);
                    path.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    if k == "cfg" || k == "tag" || k == "kind" {
                        continue;
                    }
                    if k == "knobs" {
                        let mut c = root.clone();
                        if let Some(y) = get_mut(&mut c, path) {
                            y[k] = serde_json::to_value(crate::bscn::Knobs::default()).unwrap();
                        }
                        if c != *root {
                            out.push((1, c));
                        }
                        continue;
                    }
                    path.push(json!(k));
                    walk(root, x, path, out);
                    path.pop();
                }
            }
            Value::Number(x) => {
                if let Some(n) = x.as_u64() {
                    for m in [0, 1, n / 2, n - n / 4] {
                        if m < n {
                            let mut c = root.clone();
                            if let Some(y) = get_mut(&mut c, path) {
                                *y = json!(m);
                            }
                            out.push((50_000 + path.len(), c));
                        }
                    }
                }
            }
            Value::Bool(true) => {
                let mut c = root.clone();
                if let Some(y) = get_mut(&mut c, path) {
                    *y = json!(false);
                }
                out.push((60_000, c));
            }
            _ => {}
        }
    }
    walk(v, v, &mut vec![], &mut out);
    out.sort_by_key(|x| x.0);
    let mut seen = BTreeSet::new();
    out.into_iter().map(|x| x.1).filter(|c| seen.insert(c.to_string())).collect()
}

pub struct Found {
    pub scn: Scn,
    pub entropy: u64,
    pub trace: Vec<(u64, u32)>,
    pub viol: Violation,
    pub lines: Vec<String>,
}

/// Shrink scenario, then schedule.  Every accepted step is a run that shows the same kind of violation.
pub fn minimise(scn: Scn, trace: Vec<(u64, u32)>, sched: Option<Decider>, entropy: u64, prop: &str, class: &str, budget: Duration) -> Option<Found> {
    let t0 = Instant::now();
    let lim = Duration::from_secs(60);
    let mut cur = scn;
    let mut tr = trace;
    let first = run_isolated(&cur, trace_of(&tr), entropy, lim, true)?;
    let mut v = same(&first, prop, class)?.clone();
    let mut lines = first.lines;
    let attempts = |c: &Scn, tr: &Vec<(u64, u32)>| -> Option<(Vec<(u64, u32)>, Violation, Vec<String>)> {
        let mut ds = vec![Decider::Trace(BTreeMap::new()), trace_of(tr)];
        if let Some(s) = &sched {
            ds.push(s.clone());
            ds.push(Decider::Random(Rng::new(1)));
        }
        // several candidate schedules side by side
        let hs: Vec<_> = ds
            .into_iter()
            .map(|d| {
                let c = c.clone();
                std::thread::spawn(move || run_isolated(&c, d, entropy, lim, true))
            })
            .collect();
        let rs: Vec<_> = hs.into_iter().map(|h| h.join().ok().flatten()).collect();
        for r in rs.into_iter().flatten() {
            if let Some(v) = same(&r, prop, class) {
                return Some((r.trace.clone(), v.clone(), r.lines));
            }
        }
        None
    };
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        if !tr.is_empty() {
            let none = run_isolated(&cur, trace_of(&[]), entropy, lim, true);
            if let Some(r) = none {
                if let Some(x) = same(&r, prop, class) {
                    v = x.clone();
                    lines = r.lines.clone();
                    tr.clear();
                }
            }
        }
        let cs = candidates(&serde_json::to_value(&cur).unwrap());
        let mut i = 0;
        while i < cs.len() && t0.elapsed() < budget {
            // a few candidates at once; the first that works wins
            let batch: Vec<Scn> = cs[i..(i + 4).min(cs.len())].iter().filter_map(|c| serde_json::from_value(c.clone()).ok()).collect();
            i += 4;
            let rs: Vec<_> = std::thread::scope(|s| {
                let hs: Vec<_> = batch.iter().map(|c| s.spawn(|| attempts(c, &tr))).collect();
                hs.into_iter().map(|h| h.join().ok().flatten()).collect()
            });
            let mut hit = None;
            for (c, r) in batch.into_iter().zip(rs) {
                if let Some(r) = r {
                    if c != cur {
                        hit = Some((c, r));
                        break;
                    }
                }
            }
            if let Some((c, (t, x, l))) = hit {
                cur = c;
                tr = t;
                v = x;
                lines = l;
                progress = true;
                break;
            }
        }
    }
    // the schedule: ddmin over the non-zero decisions
    let end = Instant::now() + budget / 2;
    let mut n = 2usize;
    while tr.len() > 1 && n <= tr.len() * 2 && Instant::now() < end {
        let size = tr.len().div_ceil(n);
        let mut s = 0;
        let mut hit = false;
        while s < tr.len() {
            let mut t2 = tr.clone();
            t2.drain(s..(s + size).min(tr.len()));
            if let Some(r) = run_isolated(&cur, trace_of(&t2), entropy, lim, true) {
                if let Some(x) = same(&r, prop, class) {
                    v = x.clone();
                    lines = r.lines.clone();
                    tr = t2;
                    hit = true;
                    break;
                }
            }
            s += size;
            if Instant::now() >= end {
                break;
            }
        }
        if hit {
            n = (n - 1).max(2);
        } else if size == 1 {
            break;
        } else {
            n *= 2;
        }
    }
    Some(Found { scn: cur, entropy, trace: tr, viol: v, lines })
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub contains: String,
    pub text: String,
}
/// Lines `known: property=<id> class=<class> match="<text in the detail>" <what fails>`.
pub fn known_findings(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(x) = l.strip_prefix("known: ") else { continue };
        let f = |k: &str| x.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
        let contains = x.split("match=\"").nth(1).and_then(|y| y.split('"').next()).unwrap_or("").to_string();
        let text = x.rsplit('"').next().unwrap_or("").trim().to_string();
        v.push(Known { property: f("property="), class: f("class="), contains, text });
    }
    v
}

#[derive(Default)]
struct Acc {
    runs: u64,
    nontrivial: BTreeSet<u64>,
    distinct: BTreeSet<u64>,
    sim_ns: u128,
    steps: u64,
    decisions: u64,
    nonzero: u64,
    preempts: u64,
    events: u64,
    counters: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    found: BTreeMap<u64, Vec<Violation>>,
    known: BTreeMap<String, u64>,
    other: BTreeMap<String, u64>,
    harness: Vec<String>,
    hung: Option<u64>,
    samples: Vec<Value>,
}

pub fn verif_dir() -> String {
    std::env::var("VSIM_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn check(prop: &str) -> i32 {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let dir = verif_dir();
    let known = known_findings(&format!("{dir}/known_findings.txt"));
    let (runs, cap) = scn::budget(prop, thorough);
    let envn = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<u64>().ok());
    let runs = envn("VSIM_RUNS").unwrap_or(runs);
    let cap = envn("VSIM_WALL").unwrap_or(cap);
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop_at = Arc::new(AtomicU64::new(u64::MAX));
    let stop = Arc::new(AtomicBool::new(false));
    let acc = Arc::new(Mutex::new(Acc::default()));
    let nw = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let p: String = prop.into();
    let known = Arc::new(known);
    let hs: Vec<_> = (0..nw)
        .map(|_| {
            let (next, stop_at, stop, acc, p, known) = (next.clone(), stop_at.clone(), stop.clone(), acc.clone(), p.clone(), known.clone());
            std::thread::spawn(move || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= runs || k > stop_at.load(Ordering::SeqCst) || stop.load(Ordering::SeqCst) {
                    return;
                }
                let (scn, dec, entropy, seed) = case(&p, base, k, thorough);
                let r = run_isolated(&scn, dec, entropy, Duration::from_secs(150), false);
                let mut a = acc.lock().unwrap();
                let Some(r) = r else {
                    // the executor itself is stuck inside one poll
                    a.hung = Some(a.hung.unwrap_or(k).min(k));
                    stop_at.fetch_min(k, Ordering::SeqCst);
                    return;
                };
                a.runs += 1;
                a.sim_ns += r.stats.sim_ns as u128;
                a.steps += r.stats.steps;
                a.decisions += r.stats.decisions;
                a.nonzero += r.stats.nonzero;
                a.preempts += r.stats.preempts;
                a.events += r.events;
                for (k, n) in &r.stats.counters {
                    *a.counters.entry(k.to_string()).or_insert(0) += n;
                }
                for k in &r.reached {
                    *a.kinds.entry(k.to_string()).or_insert(0) += 1;
                }
                a.distinct.insert(r.stats.sched_hash);
                if r.reached.contains(p.as_str()) {
                    a.nontrivial.insert(r.stats.sched_hash);
                    if a.samples.len() < 2 {
                        let tr: Vec<_> = r.trace.iter().take(40).collect();
                        a.samples.push(json!({"run": k, "seed": seed, "scenario": serde_json::to_value(&scn).unwrap(),
                            "first_nonzero_decisions": tr, "nonzero_decisions": r.trace.len(), "events": r.events,
                            "simulated_s": r.stats.sim_ns as f64 / 1e9, "schedule_hash": format!("{:016x}", r.stats.sched_hash)}));
                    }
                }
                let mut mine = vec![];
                for v in r.viols {
                    if v.property == p {
                        if let Some(x) = known.iter().find(|x| x.property == p && x.class == v.class && v.detail.contains(&x.contains)) {
                            *a.known.entry(x.text.clone()).or_insert(0) += 1;
                        } else {
                            mine.push(v);
                        }
                    } else if v.property == "HARNESS" {
                        a.harness.push(format!("run {k}: {} {}", v.class, v.detail));
                    } else {
                        *a.other.entry(format!("{}/{}", v.property, v.class)).or_insert(0) += 1;
                    }
                }
                if !mine.is_empty() {
                    a.found.insert(k, mine);
                    stop_at.fetch_min(k, Ordering::SeqCst);
                }
            })
        })
        .collect();
    // wall clock limit: stop handing out seeds
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        if t0.elapsed() > Duration::from_secs(cap) {
            stop.store(true, Ordering::SeqCst);
        }
        std::thread::sleep(Duration::from_millis(20));
        if t0.elapsed() > Duration::from_secs(cap + 200) {
            break;
        }
    }
    let a = std::mem::take(&mut *acc.lock().unwrap());
    let wall = t0.elapsed().as_secs_f64();
    for (k, n) in &a.known {
        println!("KNOWN-FINDING: property={p} {k} (seen in {n} runs)");
    }
    for h in a.harness.iter().take(5) {
        eprintln!("note: {h}");
    }
    if !a.other.is_empty() {
        eprintln!("note: deviations belonging to other properties (not judged here): {:?}", a.other);
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((k, vs)) = a.found.iter().next() {
        code = 1;
        nviol = vs.len();
        let (scn, dec, entropy, seed) = case(&p, base, *k, thorough);
        let v0 = vs[0].clone();
        let rr = run_isolated(&scn, dec.clone(), entropy, Duration::from_secs(150), true);
        let tr = rr.as_ref().map(|r| r.trace.clone()).unwrap_or_default();
        let budget = Duration::from_secs(envn("VSIM_SHRINK").unwrap_or(60));
        let f = minimise(scn.clone(), tr.clone(), Some(dec), entropy, &p, &v0.class, budget);
        let rep = match f {
            Some(f) => Replay {
                property: p.clone(),
                class: f.viol.class.clone(),
                detail: f.viol.detail.clone(),
                seed,
                how: format!("run {k} of VERIF_SEED={base}, minimised"),
                entropy,
                scenario: f.scn,
                decisions: f.trace,
                history: f.lines,
            },
            None => Replay {
                property: p.clone(),
                class: v0.class.clone(),
                detail: v0.detail.clone(),
                seed,
                how: format!("run {k} of VERIF_SEED={base}, not minimised"),
                entropy,
                scenario: scn,
                decisions: tr,
                history: rr.map(|r| r.lines).unwrap_or_default(),
            },
        };
        let path = write_replay(&dir, &rep, base);
        println!("{}: {}", rep.class, rep.detail);
        println!("VIOLATION property={p} replay={path}");
    } else if let Some(k) = a.hung {
        code = 1;
        nviol = 1;
        let (scn, _, entropy, seed) = case(&p, base, k, thorough);
        let rep = Replay {
            property: p.clone(),
            class: "hang".into(),
            detail: "one poll of a task did not return within 150 s: the task blocks or loops without yielding".into(),
            seed,
            how: format!("run {k} of VERIF_SEED={base}, not minimised; replaying it hangs likewise"),
            entropy,
            scenario: scn,
            decisions: vec![],
            history: vec![],
        };
        let path = write_replay(&dir, &rep, base);
        println!("{}: {}", rep.class, rep.detail);
        println!("VIOLATION property={p} replay={path}");
    }
    let faults: BTreeMap<_, _> = a.counters.iter().filter(|(k, _)| k.starts_with("fault_")).collect();
    let rare: BTreeMap<_, _> = a.counters.iter().filter(|(k, _)| !k.starts_with("fault_")).collect();
    let ev = json!({
        "property": p,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": format!("one evaluation is one simulated run, a function of (VERIF_SEED, property, run number): a generated scenario and a seeded choice of every schedule, delay, split and fault. Runs are distinct by the hash of the sequence of scheduling, select and network decisions taken. Non-trivial: {}", scn::nontrivial_rule(&p)),
            "samples": a.samples,
            "distinct_schedules": a.distinct.len(),
            "runs_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": (a.sim_ns / 1_000_000) as f64 / 1e3,
            "task_polls": a.steps,
            "decisions": a.decisions,
            "nonzero_decisions": a.nonzero,
            "preemptions": a.preempts,
            "peer_events": a.events,
            "faults_injected": faults,
            "conditions_reached": rare,
            "runs_exercising_property": a.kinds,
            "components_real": scn::real(&p),
            "components_simulated": scn::stub(&p),
            "known_findings_seen": a.known,
            "runs_cut_short": a.harness.len(),
        },
        "assumptions": [
            "the simulated TCP stream is reliable, ordered and byte-oriented as the real one; connections can be slow, stalled, split at any byte, reset, half-closed, half-open or cut with data lost",
            "tasks interleave at await points and where tokio's cooperative budget runs out; the broker and client share no memory without locks, so finer interleavings are not observable",
        ],
        "wall_s": wall,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let path = format!("{dir}/evidence/{p}.json");
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write {path}: {e}");
        return 2;
    }
    eprintln!(
        "{p}: {} runs ({} non-trivial, {} distinct schedules), {:.0} simulated s, {:.1} s, {} cut short",
        a.runs,
        a.nontrivial.len(),
        a.distinct.len(),
        a.sim_ns as f64 / 1e9,
        wall,
        a.harness.len()
    );
    if code == 0 && (a.runs == 0 || a.nontrivial.is_empty() || a.harness.len() as u64 * 2 > a.runs) {
        eprintln!("{p}: nothing was explored");
        return 3;
    }
    code
}

fn write_replay(dir: &str, rep: &Replay, base: u64) -> String {
    let d = format!("{dir}/evidence/replay");
    let _ = std::fs::create_dir_all(&d);
    let path = format!("{d}/{}-{}-{:016x}.json", rep.property, base, rep.seed);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(rep).unwrap());
    path
}

/// Run a replay file: exit code 1 and the violation if it shows again, 0 if not.
pub fn replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let rep: Replay = match serde_json::from_str(&s) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let Some(r) = run_isolated(&rep.scenario, trace_of(&rep.decisions), rep.entropy, Duration::from_secs(150), true) else {
        println!("hang: a poll did not return within 150 s");
        println!("VIOLATION property={} replay={path}", rep.property);
        return 1;
    };
    for l in &r.lines {
        println!("{l}");
    }
    println!("end {:?} schedule {:016x}", r.end, r.stats.sched_hash);
    let exact = r.lines == rep.history;
    let mut code = 0;
    for v in &r.viols {
        if v.property == rep.property {
            println!("{}: {}", v.class, v.detail);
            code = 1;
        }
    }
    println!("history identical to the recorded one: {exact}");
    if code == 1 {
        println!("VIOLATION property={} replay={path}", rep.property);
    } else {
        println!("the violation did not show");
    }
    code
}

/// The same seeds twice must give the same runs.
pub fn selftest(props: &[String], n: u64) -> i32 {
    let mut bad = 0;
    for p in props {
        for k in 0..n {
            let one = || {
                let (scn, dec, entropy, _) = case(p, 7, k, false);
                run_isolated(&scn, dec, entropy, Duration::from_secs(150), true)
            };
            let (a, b) = (one(), one());
            let (Some(a), Some(b)) = (a, b) else {
                println!("{p} run {k}: hung");
                bad += 1;
                continue;
            };
            let (scn, _, entropy, _) = case(p, 7, k, false);
            let c = run_isolated(&scn, trace_of(&a.trace), entropy, Duration::from_secs(150), true);
            let c_ok = c.map(|c| c.lines == a.lines && c.stats.steps == a.stats.steps && c.viols == a.viols).unwrap_or(false);
            if a.lines != b.lines || a.stats.sched_hash != b.stats.sched_hash || a.trace != b.trace || !c_ok {
                println!("{p} run {k}: not repeatable (trace replay ok: {c_ok})");
                for (x, y) in a.lines.iter().zip(&b.lines) {
                    if x != y {
                        println!("  first difference:\n   {x}\n   {y}");
                        break;
                    }
                }
                bad += 1;
            }
        }
    }
    println!("{} runs compared, {bad} differ", props.len() as u64 * n);
    (bad > 0) as i32
}

/// Development aid: what kinds of violations show up over n runs of each property's generator.
pub fn sweep(props: &[String], n: u64, only: Option<&str>) {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    for p in props {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let m: Mutex<BTreeMap<String, (u64, u64, String)>> = Default::default();
        let reach: Mutex<BTreeMap<String, u64>> = Default::default();
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= n {
                        return;
                    }
                    let (scn, dec, entropy, _) = case(p, base, k, false);
                    let Some(r) = run_isolated(&scn, dec, entropy, Duration::from_secs(150), false) else {
                        m.lock().unwrap().entry("HANG".into()).or_insert((0, k, String::new())).0 += 1;
                        continue;
                    };
                    for x in &r.reached {
                        *reach.lock().unwrap().entry(x.to_string()).or_insert(0) += 1;
                    }
                    let mut seen = BTreeSet::new();
                    for v in r.viols {
                        let key = format!("{}/{}", v.property, v.class);
                        if seen.insert(key.clone()) {
                            let mut m = m.lock().unwrap();
                            let e = m.entry(key).or_insert((0, k, v.detail.clone()));
                            e.0 += 1;
                            if k < e.1 {
                                e.1 = k;
                                e.2 = v.detail;
                            }
                        }
                    }
                });
            }
        });
        println!("{p}: {n} runs in {:.1} s reached {:?}", t0.elapsed().as_secs_f64(), reach.lock().unwrap());
        for (k, (c, first, d)) in m.lock().unwrap().iter() {
            if only.map(|o| k.starts_with(o)).unwrap_or(true) {
                println!("   {k:32} {c:6}  first run {first}: {}", d.chars().take(260).collect::<String>());
            }
        }
    }
}

pub fn show_case(p: &str, k: u64, min: Option<&str>) {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let (scn, dec, entropy, seed) = case(p, base, k, false);
    let Some(r) = run_isolated(&scn, dec.clone(), entropy, Duration::from_secs(150), true) else {
        println!("{}", serde_json::to_string(&scn).unwrap());
        println!("hung");
        return;
    };
    if let Some(m) = min {
        let (pp, class) = m.split_once('/').unwrap();
        if let Some(f) = minimise(scn, r.trace.clone(), Some(dec), entropy, pp, class, Duration::from_secs(40)) {
            println!("{}", serde_json::to_string(&f.scn).unwrap());
            println!("decisions {:?}", f.trace);
            for l in f.lines {
                println!("{l}");
            }
            println!("{} {}: {}", f.viol.property, f.viol.class, f.viol.detail);
        } else {
            println!("not reproduced");
        }
        return;
    }
    println!("{}", serde_json::to_string(&scn).unwrap());
    for l in &r.lines {
        println!("{l}");
    }
    println!("seed {seed:x} end {:?} steps {} sim {:.3}s panics {:?} counters {:?} spins {:?}", r.end, r.stats.steps, r.stats.sim_ns as f64 / 1e9, r.stats.panics, r.stats.counters, r.stats.spin_tasks);
    for v in &r.viols {
        println!("{} {}: {}", v.property, v.class, v.detail);
    }
}
