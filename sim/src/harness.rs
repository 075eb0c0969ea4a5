//! Search driver: worker processes run plans, the parent collects, shrinks and
//! reports violations and writes the evidence.

use crate::core::interpose;
use crate::core::sched::{blocking_hook, in_sim, sim, Role};
use crate::exec::{run_plan, Outcome};
use crate::gens::{generate, PROPS};
use crate::plan::Plan;
use crate::shrink;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// CPU seconds one run may take before it counts as a hang
const HANG_CPU_S: u64 = 20;

static RUN_SERIAL: AtomicU64 = AtomicU64::new(0);
static RUN_ACTIVE: AtomicU64 = AtomicU64::new(0);

fn cpu_s() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64
}

/// once per process
pub fn init() {
    blocking::set_schedule_hook(blocking_hook);
    interpose::install();
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 6 << 30,
            rlim_max: 6 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => (*s).to_owned(),
            None => info.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        if in_sim() {
            let s = sim();
            if s.dead {
                return;
            }
            if let Some(c) = s.current {
                if matches!(s.threads[c].role, Role::Conn | Role::Pool) {
                    s.panics.push(format!("{msg} at {loc}"));
                    s.note(|| format!("PANIC {msg} at {loc}"));
                    return;
                }
            }
        }
        eprintln!("harness panic: {msg} at {loc}");
    }));
    std::thread::spawn(|| {
        let mut seen = 0;
        let mut since = cpu_s();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = RUN_SERIAL.load(Ordering::SeqCst);
            if n != seen || RUN_ACTIVE.load(Ordering::SeqCst) == 0 {
                seen = n;
                since = cpu_s();
                continue;
            }
            if cpu_s() - since > HANG_CPU_S {
                println!("{}", "{\"hang\":true}");
                unsafe { libc::_exit(98) };
            }
        }
    });
    // fill lazily initialised globals outside any measured run
    let w = generate(1, "C01", 0);
    let _ = run_isolated(&w, false);
    let w = generate(1, "C13", 1);
    let _ = run_isolated(&w, false);
}

/// every run gets a fresh OS thread, so that no thread-local survives
fn run_isolated(p: &Plan, trace: bool) -> Result<Outcome, String> {
    RUN_SERIAL.fetch_add(1, Ordering::SeqCst);
    RUN_ACTIVE.store(1, Ordering::SeqCst);
    let p = p.clone();
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || run_plan(&p, trace)).map_err(|e| e.to_string())?;
    let r = h.join().map_err(|_| "harness panic".to_owned());
    RUN_ACTIVE.store(0, Ordering::SeqCst);
    r
}

#[derive(Serialize, Deserialize)]
struct Line {
    i: u64,
    o: Outcome,
    e: Option<String>,
}

pub fn worker(a: &[String]) -> i32 {
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, count, budget_ms) = (n(1), n(2), n(3), n(4), n(5));
    init();
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut i = start;
    while i < count {
        if t0.elapsed().as_millis() as u64 > budget_ms {
            println!("{}", "{\"stopped\":true}");
            return 0;
        }
        let p = generate(seed, prop, i);
        {
            let mut l = out.lock();
            let _ = writeln!(l, "{{\"start\":{i}}}");
            let _ = l.flush();
        }
        let line = match run_isolated(&p, false) {
            Ok(mut o) => {
                if o.bad.is_empty() {
                    o.devs.clear();
                }
                Line { i, o, e: None }
            }
            Err(e) => Line {
                i,
                o: Outcome::default(),
                e: Some(e),
            },
        };
        let failed = line.e.is_some();
        let mut l = out.lock();
        let _ = writeln!(l, "{}", serde_json::to_string(&line).unwrap());
        let _ = l.flush();
        if failed {
            return 3;
        }
        i += stride;
    }
    println!("{}", "{\"done\":true}");
    0
}

/// run plans read from stdin, one JSON document per line
pub fn exec_server() -> i32 {
    init();
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        let p: Plan = match serde_json::from_str(&l) {
            Ok(p) => p,
            Err(e) => {
                println!("{}", serde_json::json!({ "error": e.to_string() }));
                continue;
            }
        };
        match run_isolated(&p, std::env::var_os("S3SIM_TRACE").is_some()) {
            Ok(o) => println!("{}", serde_json::to_string(&o).unwrap()),
            Err(e) => {
                println!("{}", serde_json::json!({ "error": e }));
                return 3;
            }
        }
        let _ = std::io::stdout().flush();
    }
    0
}

/// a child process that runs plans on request
pub struct Exec {
    child: Child,
    w: ChildStdin,
    r: BufReader<ChildStdout>,
}

impl Exec {
    pub fn new() -> Exec {
        let me = std::env::current_exe().unwrap();
        let mut child = Command::new(me).arg("exec").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
        let w = child.stdin.take().unwrap();
        let r = BufReader::new(child.stdout.take().unwrap());
        Exec { child, w, r }
    }

    /// a child that dies or hangs on the plan is an outcome as well
    pub fn run(&mut self, p: &Plan) -> Outcome {
        let _ = writeln!(self.w, "{}", serde_json::to_string(p).unwrap());
        let _ = self.w.flush();
        let mut l = String::new();
        let n = self.r.read_line(&mut l).unwrap_or(0);
        if n > 0 {
            if let Ok(o) = serde_json::from_str::<Outcome>(&l) {
                return o;
            }
        }
        let class = if l.contains("\"hang\"") {
            "hang"
        } else if l.contains("\"error\"") {
            "harness"
        } else {
            "abort"
        };
        let _ = self.child.kill();
        let _ = self.child.wait();
        *self = Exec::new();
        Outcome {
            bad: vec![(class.into(), format!("the process running the server stopped responding or died ({class})"))],
            ..Outcome::default()
        }
    }
}

impl Drop for Exec {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

struct Found {
    index: u64,
    class: String,
    msg: String,
    plan: Plan,
    devs: Vec<(u64, usize)>,
}

#[derive(Default)]
struct Known {
    /// (property, class, texts)
    v: Vec<(String, String, Vec<String>, String)>,
}

fn verif_dir() -> String {
    std::env::var("S3SIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn known_findings() -> Known {
    let mut k = Known::default();
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    for l in t.lines() {
        // finding: {"property":..,"class":..,"contains":[..],"what":..}
        if let Some(j) = l.strip_prefix("finding: ") {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(j) {
                let s = |n: &str| v[n].as_str().unwrap_or("").to_owned();
                let c = v["contains"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(str::to_owned)).collect()).unwrap_or_default();
                k.v.push((s("property"), s("class"), c, s("what")));
            }
        }
    }
    k
}

impl Known {
    fn matches(&self, prop: &str, class: &str, msg: &str) -> Option<usize> {
        self.v.iter().position(|(p, c, t, _)| p == prop && c == class && !t.is_empty() && t.iter().all(|x| msg.contains(x.as_str())))
    }
}

fn budget(prop: &str, tier: &str) -> (u64, u64) {
    // (runs, wall milliseconds)
    let (q, t) = match prop {
        // large objects
        "C27" => (450, 30_000),
        _ => (12_000, 400_000),
    };
    if tier == "thorough" {
        (t, 780_000)
    } else {
        (q, 100_000)
    }
}

pub fn check(a: &[String]) -> i32 {
    let prop = match a.first() {
        Some(p) if PROPS.contains(&p.as_str()) => p.clone(),
        _ => {
            eprintln!("unknown property");
            return 2;
        }
    };
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut runs, mut wall) = budget(&prop, &tier);
    if let Some(n) = opt("--runs") {
        runs = n.parse().unwrap();
    }
    if let Some(n) = opt("--wall-ms") {
        wall = n.parse().unwrap();
    }
    let keep_going = a.iter().any(|x| x == "--all");
    // only say whether anything is found (for trying many changes of the server)
    let scout = a.iter().any(|x| x == "--scout");
    let nw = opt("--workers").and_then(|n| n.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) as u64);
    let me = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel::<(u64, Result<String, i32>)>();
    let mut children = vec![];
    for w in 0..nw {
        let mut c = Command::new(&me)
            .args(["worker", &prop, &seed.to_string(), &w.to_string(), &nw.to_string(), &runs.to_string(), &wall.to_string()])
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let r = BufReader::new(c.stdout.take().unwrap());
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send((w, Ok(l))).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send((w, Err(0)));
        });
        children.push(c);
    }
    drop(tx);
    let known = known_findings();
    let mut known_seen: BTreeMap<usize, u64> = BTreeMap::new();
    let mut cur: Vec<Option<u64>> = vec![None; nw as usize];
    let mut clean: Vec<bool> = vec![false; nw as usize];
    let mut found: Vec<Found> = vec![];
    let mut ev = Ev::default();
    let mut internal: Option<String> = None;
    let mut first_violation: Option<Instant> = None;
    let mut open = nw;
    while open > 0 {
        let (w, l) = match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(x) => x,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if first_violation.map_or(false, |t| t.elapsed() > Duration::from_secs(3)) && !keep_going {
                    break;
                }
                if t0.elapsed().as_millis() as u64 > wall + 60_000 {
                    internal = Some("workers do not finish".into());
                    break;
                }
                continue;
            }
            Err(_) => break,
        };
        let wi = w as usize;
        match l {
            Err(_) => {
                open -= 1;
                let st = children[wi].wait().ok();
                if !clean[wi] {
                    match cur[wi] {
                        Some(i) => {
                            found.push(Found {
                                index: i,
                                class: "abort".into(),
                                msg: format!("the process running the server died ({st:?})"),
                                plan: generate(seed, &prop, i),
                                devs: vec![],
                            });
                            first_violation.get_or_insert(Instant::now());
                        }
                        None => internal = Some(format!("worker {w} ended early: {st:?}")),
                    }
                }
            }
            Ok(l) => {
                if l.starts_with("{\"start\"") {
                    let v: serde_json::Value = serde_json::from_str(&l).unwrap_or_default();
                    cur[wi] = v["start"].as_u64();
                } else if l.starts_with("{\"done\"") || l.starts_with("{\"stopped\"") {
                    clean[wi] = true;
                } else if l.starts_with("{\"hang\"") {
                    clean[wi] = true;
                    if let Some(i) = cur[wi] {
                        found.push(Found {
                            index: i,
                            class: "hang".into(),
                            msg: format!("the run used more than {HANG_CPU_S} s of CPU without coming to an end"),
                            plan: generate(seed, &prop, i),
                            devs: vec![],
                        });
                        first_violation.get_or_insert(Instant::now());
                    }
                } else if let Ok(x) = serde_json::from_str::<Line>(&l) {
                    if let Some(e) = x.e {
                        internal = Some(format!("run {}: {e}", x.i));
                        clean[wi] = true;
                        continue;
                    }
                    ev.add(x.i, &x.o);
                    let mut classes = BTreeSet::new();
                    for (c, m) in &x.o.bad {
                        if let Some(k) = known.matches(&prop, c, m) {
                            *known_seen.entry(k).or_insert(0) += 1;
                            continue;
                        }
                        if classes.insert(c.clone()) {
                            found.push(Found {
                                index: x.i,
                                class: c.clone(),
                                msg: m.clone(),
                                plan: generate(seed, &prop, x.i),
                                devs: x.o.devs.clone(),
                            });
                            first_violation.get_or_insert(Instant::now());
                        }
                    }
                }
            }
        }
        if !keep_going && first_violation.map_or(false, |t| scout || t.elapsed() > Duration::from_secs(3)) {
            break;
        }
    }
    for c in children.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();
    if scout {
        for f in found.iter().take(1) {
            println!("SCOUT {prop} [{}] run {} {}", f.class, f.index, f.msg.chars().take(300).collect::<String>().replace('\n', " "));
        }
        return i32::from(!found.is_empty());
    }
    for (i, (p, _, _, what)) in known.v.iter().enumerate() {
        if *p == prop {
            println!("KNOWN-FINDING: property={prop} {what} (seen in {} of {} runs)", known_seen.get(&i).copied().unwrap_or(0), ev.runs);
        }
    }
    let mut code = 0;
    let mut reported = vec![];
    if !found.is_empty() {
        found.sort_by_key(|f| (f.plan.clients.iter().map(Vec::len).sum::<usize>(), f.index));
        let mut per: BTreeMap<String, Vec<Found>> = BTreeMap::new();
        for f in found {
            per.entry(f.class.clone()).or_default().push(f);
        }
        let classes: Vec<String> = per.keys().cloned().collect();
        let mut deadline = Instant::now() + Duration::from_secs(if tier == "thorough" { 120 } else { 45 });
        for (n, c) in classes.iter().enumerate() {
            let l = &per[c];
            let f = &l[0];
            if f.class == "harness" {
                internal = Some(f.msg.clone());
                continue;
            }
            let mut plan = f.plan.clone();
            let mut msg = f.msg.clone();
            let path = format!("{}/replays/{prop}-{c}-{seed}-{}.json", verif_dir(), f.index);
            let mut note = String::from("not minimised");
            if n < 3 {
                let s = shrink::shrink(&plan, &f.class, &f.devs, deadline, nw as usize, &|cl, m| known.matches(&prop, cl, m).is_none());
                if let Some((p2, m2, nt)) = s {
                    plan = p2;
                    msg = m2;
                    note = nt;
                } else {
                    note = "did not reproduce in a second process".into();
                }
                if Instant::now() > deadline {
                    deadline = Instant::now() + Duration::from_secs(5);
                }
            }
            write_replay(&path, &plan, &f.class, &msg, seed, f.index, &note);
            println!("violated: [{}] {}", f.class, msg);
            println!("  seed {seed} run {} ({} of {} runs in this class); {note}", f.index, l.len(), ev.runs);
            println!("VIOLATION property={prop} replay={path}");
            reported.push(serde_json::json!({"class": f.class, "message": msg, "run": f.index, "replay": path, "runs_in_class": l.len(), "note": note}));
            code = 1;
        }
    }
    ev.write(&prop, &tier, seed, runs, search_s, t0.elapsed().as_secs_f64(), &reported, nw, &known, &known_seen);
    println!(
        "{prop} {tier}: {} runs ({} planned) in {:.1}s, {} requests, {} distinct interleavings, {} distinct histories, {:.1}s simulated time, faults {:?}",
        ev.runs,
        runs,
        search_s,
        ev.requests,
        ev.traces.len(),
        ev.hists.len(),
        ev.sim_us as f64 / 1e6,
        ev.faults
    );
    if let Some(e) = internal {
        eprintln!("internal error: {e}");
        if code == 0 {
            return 2;
        }
    }
    if code == 0 && ev.runs == 0 {
        eprintln!("internal error: nothing ran");
        return 2;
    }
    code
}

#[derive(Default)]
struct Ev {
    runs: u64,
    nontrivial: u64,
    requests: u64,
    ok: u64,
    refused: u64,
    crashes: u64,
    steps: u64,
    switches: u64,
    fs_ops: u64,
    sim_us: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    hists: HashSet<u64>,
    max_ready: u64,
    peak: i64,
    scen: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    seed: u64,
}

impl Ev {
    fn add(&mut self, i: u64, o: &Outcome) {
        self.runs += 1;
        self.requests += o.requests;
        self.ok += o.ok;
        self.refused += o.refused;
        self.crashes += o.crashes;
        self.steps += o.stats.steps;
        self.switches += o.stats.switches;
        self.fs_ops += o.stats.fs_ops;
        self.sim_us += o.sim_us;
        self.max_ready = self.max_ready.max(o.stats.max_ready);
        self.peak = self.peak.max(o.peak);
        for (k, v) in &o.stats.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.stats.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        self.traces.insert(o.trace_hash);
        let new = self.hists.insert(o.hist_hash);
        if o.nontrivial && new {
            self.nontrivial += 1;
        }
        *self.scen.entry(o.scenario.clone()).or_insert(0) += 1;
        if self.samples.len() < 5 && o.nontrivial {
            self.samples.push(serde_json::json!({
                "run": i, "scenario": o.scenario, "requests": o.requests, "answered_ok": o.ok, "refused_or_unanswered": o.refused,
                "steps": o.stats.steps, "fs_ops": o.stats.fs_ops, "faults": o.stats.faults, "interleaving": format!("{:016x}", o.trace_hash), "history": format!("{:016x}", o.hist_hash)
            }));
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn write(&self, prop: &str, tier: &str, seed: u64, planned: u64, search_s: f64, wall: f64, viol: &[serde_json::Value], nw: u64, known: &Known, ks: &BTreeMap<usize, u64>) {
        let per_hour = |n: u64| if search_s > 0.0 { (n as f64 / search_s * 3600.0).round() } else { 0.0 };
        let kf: Vec<serde_json::Value> = known.v.iter().enumerate().filter(|(_, k)| k.0 == prop).map(|(i, k)| serde_json::json!({"what": k.3, "seen_in_runs": ks.get(&i).copied().unwrap_or(0)})).collect();
        let v = serde_json::json!({
            "property": prop, "tier": tier, "seed": seed, "level": crate::gens::LEVEL,
            "coverage": {
                "evaluations": self.runs,
                "distinct_nontrivial": self.nontrivial,
                "rule": "one evaluation = one simulated run of the whole server under one seed; a run counts as distinct and nontrivial when at least one request succeeded, more than three requests were sent, and its recorded history (operations, real-time order, answers) differs from that of every other run",
                "samples": self.samples,
                "runs_planned": planned,
                "runs_and_seeds_per_hour": per_hour(self.runs),
                "worker_processes": nw,
                "search_seconds": search_s,
                "simulated_seconds": self.sim_us as f64 / 1e6,
                "faults_injected": self.faults,
                "server_crashes": self.crashes,
                "requests": self.requests, "requests_ok": self.ok, "requests_refused_or_unanswered": self.refused,
                "scheduling_steps": self.steps, "context_switches": self.switches, "file_system_calls": self.fs_ops,
                "max_runnable_threads": self.max_ready,
                "max_server_memory_bytes": self.peak,
                "distinct_interleavings": self.traces.len(), "interleaving_measure": "64-bit hash over the sequence of scheduled threads and of the kinds of system calls at each step",
                "distinct_histories": self.hists.len(),
                "scenarios": self.scen,
                "probes": self.probes,
                "known_findings": kf,
                "violation_reports": viol,
                "real_components": ["s3-server (whole crate, unmodified build from /repo)", "hyper HTTP/1 connection and parser", "tokio-util / async-fs / blocking (job queue replaced by the simulator's)", "std::fs, std::sync, std::time (their system calls are answered by the simulator)"],
                "stub_components": ["kernel file system: simulated in memory below libc", "TCP: in-memory byte pipes with segmentation, delay, windows, resets", "thread pool of `blocking`: scheduled by the simulator", "clock, getrandom, futex: simulated", "clients: simulated with an independent signer and XML reader"]
            },
            "assumptions": ["a crash loses the process, not the operating system: completed system calls survive", "system calls are atomic with respect to each other; read/write may be cut short", "std::sync locks and atomics are sequentially consistent between scheduling points (every system call, futex wait and task poll)"],
            "wall_s": wall,
            "violations": viol.len(),
        });
        let d = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&d);
        let _ = std::fs::write(format!("{d}/{prop}.json"), serde_json::to_string_pretty(&v).unwrap() + "\n");
        let _ = self.seed;
    }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    message: String,
    seed: u64,
    run: u64,
    note: String,
    trace_hash: String,
    plan: Plan,
}

fn write_replay(path: &str, plan: &Plan, class: &str, msg: &str, seed: u64, run: u64, note: &str) {
    if let Some(i) = path.rfind('/') {
        let _ = std::fs::create_dir_all(&path[..i]);
    }
    let o = Exec::new().run(plan);
    let r = Replay {
        property: plan.prop.clone(),
        class: class.into(),
        message: msg.into(),
        seed,
        run,
        note: note.into(),
        trace_hash: format!("{:016x}", o.trace_hash),
        plan: plan.clone(),
    };
    let _ = std::fs::write(path, serde_json::to_string_pretty(&r).unwrap() + "\n");
}

pub fn replay(a: &[String]) -> i32 {
    let t = match std::fs::read_to_string(&a[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let r: Replay = match serde_json::from_str(&t) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    init();
    let o = match run_isolated(&r.plan, true) {
        Ok(o) => o,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    if !a.iter().any(|x| x == "--quiet") {
        for l in &o.log {
            println!("{l}");
        }
    }
    for (c, m) in &o.bad {
        println!("violated: [{c}] {m}");
    }
    println!("interleaving {:016x} (recorded {})", o.trace_hash, r.trace_hash);
    if o.bad.iter().any(|(c, _)| *c == r.class) {
        println!("VIOLATION property={} replay={}", r.property, a[0]);
        return 1;
    }
    println!("the violation [{}] does not occur", r.class);
    0
}

/// write the plan of one run as a replay file on stdout
pub fn gen(a: &[String]) -> i32 {
    let i: u64 = a[1].parse().unwrap();
    let seed = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = generate(seed, &a[0], i);
    let r = Replay {
        property: a[0].clone(),
        class: "-".into(),
        message: String::new(),
        seed,
        run: i,
        note: String::new(),
        trace_hash: String::new(),
        plan: p,
    };
    println!("{}", serde_json::to_string_pretty(&r).unwrap());
    0
}

/// same seed, same execution: every run of a sample is executed in two
/// processes, at different positions, and the complete hashes are compared
pub fn selftest(a: &[String]) -> i32 {
    let per: u64 = a.first().and_then(|s| s.parse().ok()).unwrap_or(40);
    let mut bad = 0u64;
    let mut n = 0u64;
    let hs: Vec<_> = PROPS
        .iter()
        .map(|p| {
            let p = p.to_string();
            std::thread::spawn(move || {
                let mut a = Exec::new();
                let mut b = Exec::new();
                let mut first = vec![];
                for i in 0..per {
                    let o = a.run(&generate(7, &p, i));
                    first.push((o.trace_hash, o.hist_hash, o.sim_us, o.stats.steps, o.bad));
                }
                let (mut n, mut bad) = (0, 0);
                for i in (0..per).rev() {
                    let o = b.run(&generate(7, &p, i));
                    n += 1;
                    let now = (o.trace_hash, o.hist_hash, o.sim_us, o.stats.steps, o.bad);
                    if first[i as usize] != now {
                        bad += 1;
                        println!("not deterministic: {p} run {i}: {:?} / {now:?}", first[i as usize]);
                    }
                }
                // the recorded schedule replays to the same execution
                for i in 0..per.min(10) {
                    let mut pl = generate(7, &p, i);
                    let o = a.run(&pl);
                    pl.sched.devs = Some(o.devs.clone());
                    let o2 = b.run(&pl);
                    n += 1;
                    if (o.trace_hash, o.hist_hash) != (o2.trace_hash, o2.hist_hash) {
                        bad += 1;
                        println!("schedule replay differs: {p} run {i}");
                    }
                }
                (n, bad)
            })
        })
        .collect();
    for h in hs {
        let (x, y) = h.join().unwrap();
        n += x;
        bad += y;
    }
    println!("selftest: {n} pairs of executions, {bad} differ");
    i32::from(bad > 0)
}
