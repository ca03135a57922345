//! Supervisor: spawns worker processes, attributes crashes and hangs to the
//! seed being run, minimises and writes replay files and evidence.
use crate::frame::{seed_of, Def, Outcome};
use crate::rng::Fnv;
use crate::shrink;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const STATE_CAP: usize = 150_000;

/// Worker: run seeds i = first, first+step, ... < n; report on stdout.
pub fn worker(def: &Def, base: u64, first: u64, step: u64, n: u64, thorough: bool) {
    crate::frame::install_signals();
    let mut states: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut agg = Outcome::new();
    let (mut runs, mut nontriv) = (0u64, 0u64);
    let mut acc = Fnv::new();
    let mut mism = 0u64;
    let mut i = first;
    let out = |s: &str| {
        let b = s.as_bytes();
        let mut o = 0;
        while o < b.len() {
            let k = unsafe { libc::syscall(libc::SYS_write, 1, b[o..].as_ptr(), b.len() - o) };
            if k <= 0 {
                std::process::exit(3);
            }
            o += k as usize;
        }
    };
    let t0 = Instant::now();
    let cap: u64 = std::env::var("RTSIM_WORKER_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let mut capped = false;
    while i < n {
        if t0.elapsed().as_secs() >= cap {
            capped = true;
            break;
        }
        out(&format!("S {}\n", i));
        crate::frame::arm_hang_timer();
        let seed = seed_of(base, i);
        let plan = (def.gen)(seed, thorough);
        let o = (def.run)(&plan);
        if let Some(e) = &o.harness_error {
            out(&format!("X {} {}\n", i, e.replace('\n', " ")));
            std::process::exit(4);
        }
        // Determinism: a sample of runs is repeated and must agree exactly.
        if i % 64 == first % 64 && o.violation.is_none() {
            crate::frame::arm_hang_timer();
            let o2 = (def.run)(&plan);
            if o2.trace != o.trace || o2.sched != o.sched || o2.states != o.states {
                mism += 1;
            }
        }
        runs += 1;
        acc.u64(o.trace);
        if o.nontrivial {
            nontriv += 1;
            if scheds.len() < STATE_CAP {
                scheds.insert(o.sched);
            }
        }
        for s in &o.states {
            if states.len() < STATE_CAP {
                states.insert(*s);
            }
        }
        agg.sim_ns += o.sim_ns;
        for (k, v) in &o.counters {
            *agg.counters.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.faults {
            *agg.faults.entry(k.clone()).or_insert(0) += v;
        }
        for k in &o.known {
            out(&format!("K {}\n", k.replace('\n', " ")));
        }
        if o.violation.is_some() {
            out(&format!("V {} {}\n", i, serde_json::to_string(&o.violation).unwrap()));
            break;
        }
        i += step;
    }
    let e = json!({"runs": runs, "nontriv": nontriv, "sim_ns": agg.sim_ns, "counters": agg.counters,
        "faults": agg.faults, "acc": acc.0, "mism": mism, "capped": capped});
    out(&format!("E {}\n", e));
    let mut line = String::from("H s");
    for s in &scheds {
        line.push_str(&format!(" {:x}", s));
    }
    line.push_str("\nH t");
    for s in &states {
        line.push_str(&format!(" {:x}", s));
    }
    line.push('\n');
    out(&line);
}

/// Executes plans given one per line; used by the minimiser and by replay.
pub fn exec_server(def: &Def) {
    crate::frame::install_signals();
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        crate::frame::arm_hang_timer();
        let v: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let o = (def.run)(&v);
        let s = serde_json::to_string(&o).unwrap() + "\n";
        let b = s.as_bytes();
        let mut k = 0;
        while k < b.len() {
            let r = unsafe { libc::syscall(libc::SYS_write, 1, b[k..].as_ptr(), b.len() - k) };
            if r <= 0 {
                return;
            }
            k += r as usize;
        }
    }
}

pub struct Exec {
    id: String,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
}

impl Exec {
    pub fn new(id: &str) -> Exec {
        Exec { id: id.to_string(), child: None }
    }
    fn spawn(&mut self) {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["exec", &self.id])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn exec");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.child = Some((c, i, o));
    }
    pub fn run(&mut self, plan: &Value) -> Outcome {
        if self.child.is_none() {
            self.spawn();
        }
        let (_, i, o) = self.child.as_mut().unwrap();
        let s = serde_json::to_string(plan).unwrap() + "\n";
        let ok = i.write_all(s.as_bytes()).and_then(|_| i.flush()).is_ok();
        let mut line = String::new();
        if ok && o.read_line(&mut line).unwrap_or(0) > 0 {
            if let Ok(o) = serde_json::from_str(&line) {
                return o;
            }
        }
        let (mut c, i, _) = self.child.take().unwrap();
        drop(i);
        let mut err = String::new();
        if let Some(mut e) = c.stderr.take() {
            let _ = e.read_to_string(&mut err);
        }
        let st = c.wait().ok();
        let mut out = Outcome::new();
        let (class, d) = death(st.and_then(|s| s.code()), &err);
        out.fail(class, d);
        out
    }
}

fn death(code: Option<i32>, err: &str) -> (&'static str, String) {
    let tail: String = err.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
    match code {
        Some(99) => ("hang", format!("run did not end within {} s of CPU time", crate::frame::HANG_CPU_S)),
        Some(98) => ("crash", format!("host program died: invalid memory access (or stack exhausted) {}", tail)),
        Some(97) => ("crash", format!("host program aborted: {}", tail)),
        c => ("crash", format!("host program died: status {:?} {}", c, tail)),
    }
}

pub struct Found {
    pub i: u64,
    pub class: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Total {
    pub runs: u64,
    pub nontriv: u64,
    pub sim_ns: u64,
    pub counters: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub scheds: HashSet<u64>,
    pub known: BTreeMap<String, u64>,
    pub found: Vec<Found>,
    pub acc: Vec<u64>,
    pub mism: u64,
    pub harness: Option<String>,
    pub capped: bool,
}

enum Msg {
    Line(usize, String),
    Dead(usize, Option<i32>, String),
}

pub fn explore(def: &Def, base: u64, n: u64, thorough: bool, jobs: usize, cap: Duration) -> Total {
    let t0 = Instant::now();
    let mut tot = Total::default();
    let (tx, rx) = mpsc::channel::<Msg>();
    let spawn = |j: usize, first: u64, tx: mpsc::Sender<Msg>| -> u32 {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["worker", def.id, &base.to_string(), &first.to_string(), &jobs.to_string(), &n.to_string(), if thorough { "1" } else { "0" }])
            .env("RTSIM_WORKER_CAP", cap.as_secs().to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let pid = c.id();
        let o = BufReader::with_capacity(1 << 16, c.stdout.take().unwrap());
        let mut e = c.stderr.take().unwrap();
        std::thread::spawn(move || {
            let eh = std::thread::spawn(move || {
                let mut s = String::new();
                let _ = e.read_to_string(&mut s);
                s
            });
            for l in o.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(j, l)).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
            let st = c.wait().ok().and_then(|s| s.code());
            let _ = tx.send(Msg::Dead(j, st, eh.join().unwrap_or_default()));
        });
        pid
    };
    let mut cur: Vec<Option<u64>> = vec![None; jobs];
    let mut pids = vec![0u32; jobs];
    let mut alive = 0;
    for j in 0..jobs {
        if (j as u64) < n {
            pids[j] = spawn(j, j as u64, tx.clone());
            alive += 1;
        }
    }
    let mut ended = vec![false; jobs];
    while alive > 0 {
        let left = (cap + Duration::from_secs(45)).checked_sub(t0.elapsed());
        let msg = match left {
            Some(d) => rx.recv_timeout(d),
            None => Err(mpsc::RecvTimeoutError::Timeout),
        };
        match msg {
            Ok(Msg::Line(j, l)) => {
                let (tag, rest) = l.split_at(1);
                let rest = rest.trim_start();
                match tag {
                    "S" => {
                        cur[j] = rest.parse().ok();
                        tot.runs += 1;
                    }
                    "V" => {
                        let (i, js) = rest.split_once(' ').unwrap();
                        let v: Option<(String, String)> = serde_json::from_str(js).unwrap();
                        let (class, detail) = v.unwrap();
                        tot.found.push(Found { i: i.parse().unwrap(), class, detail });
                    }
                    "K" => *tot.known.entry(rest.to_string()).or_insert(0) += 1,
                    "X" => tot.harness = Some(rest.to_string()),
                    "E" => {
                        let v: Value = serde_json::from_str(rest).unwrap();
                        tot.nontriv += v["nontriv"].as_u64().unwrap();
                        tot.sim_ns += v["sim_ns"].as_u64().unwrap();
                        tot.mism += v["mism"].as_u64().unwrap();
                        tot.capped |= v["capped"].as_bool().unwrap();
                        tot.acc.push(v["acc"].as_u64().unwrap());
                        for (k, x) in v["counters"].as_object().unwrap() {
                            *tot.counters.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
                        }
                        for (k, x) in v["faults"].as_object().unwrap() {
                            *tot.faults.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
                        }
                        ended[j] = true;
                    }
                    "H" => {
                        let mut it = rest.split(' ');
                        let set = if it.next() == Some("s") { &mut tot.scheds } else { &mut tot.states };
                        for h in it {
                            if let Ok(x) = u64::from_str_radix(h, 16) {
                                set.insert(x);
                            }
                        }
                    }
                    _ => {}
                }
            }
            Ok(Msg::Dead(j, code, err)) => {
                alive -= 1;
                if !ended[j] && tot.harness.is_none() && code != Some(4) {
                    // Died in the middle of a run.
                    match cur[j] {
                        Some(i) => {
                            let (class, detail) = death(code, &err);
                            tot.found.push(Found { i, class: class.into(), detail });
                        }
                        None => tot.harness = Some(format!("worker {} died before its first run: {:?} {}", j, code, err)),
                    }
                }
            }
            Err(_) => {
                tot.capped = true;
                for j in 0..jobs {
                    if !ended[j] && pids[j] != 0 {
                        unsafe { libc::kill(pids[j] as i32, libc::SIGKILL) };
                    }
                }
                break;
            }
        }
    }
    tot
}

fn known_findings(id: &str) -> Vec<String> {
    let p = root().join("known-findings.txt");
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == id)
        .map(|(_, s)| s.to_string())
        .collect()
}

pub fn root() -> std::path::PathBuf {
    std::env::var("RTSIM_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn check(def: &Def, thorough: bool, base: u64, runs: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let jobs = std::env::var("RTSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let n = runs.unwrap_or(if thorough { def.thorough } else { def.quick });
    let cap = Duration::from_secs(std::env::var("RTSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 420 }));
    let mut tot = explore(def, base, n, thorough, jobs, cap);
    if let Some(h) = &tot.harness {
        println!("HARNESS-ERROR property={} {}", def.id, h);
        return 2;
    }
    let listed = known_findings(def.id);
    for k in tot.known.keys() {
        println!("KNOWN-FINDING: property={} {}", def.id, k);
    }
    let _ = listed;
    let wall_explore = t0.elapsed().as_secs_f64();
    let mut code = 0;
    tot.found.sort_by_key(|f| f.i);
    if let Some(f) = tot.found.first() {
        code = 1;
        let seed = seed_of(base, f.i);
        let plan = (def.gen)(seed, thorough);
        let path = report(def, base, f, seed, plan);
        println!("violation: {}: {}", f.class, f.detail);
        println!("VIOLATION property={} replay={}", def.id, path);
    }
    let wall = t0.elapsed().as_secs_f64();
    // Samples: the first two plans of this run.
    let mut samples = Vec::new();
    for i in 0..2u64.min(n) {
        let seed = seed_of(base, i);
        samples.push(json!({"seed": format!("{:#x}", seed), "plan": (def.gen)(seed, thorough)}));
    }
    let done = tot.runs.max(1);
    let ev = json!({
        "property": def.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": tot.scheds.len(),
            "rule": def.rule,
            "samples": samples,
            "runs_planned": n,
            "stopped_by_time_cap": tot.capped,
            "nontrivial_runs": tot.nontriv,
            "distinct_states": tot.states.len(),
            "state_measure": def.state_measure,
            "runs_per_hour": (done as f64 / wall_explore * 3600.0) as u64,
            "seeds_per_run": 1,
            "simulated_time_s": tot.sim_ns as f64 / 1e9,
            "faults_injected": tot.faults,
            "counters": tot.counters,
            "repeated_runs_disagreeing": tot.mism,
            "components_real": def.real,
            "components_stubbed": def.stub,
            "worker_processes": jobs,
            "known_findings_met": tot.known,
            "violations_found": tot.found.len(),
        },
        "assumptions": [
            "code under test is single-threaded; all its nondeterminism is system calls, the clock, terminal events and the order of turns, which the simulator decides",
            "built with debug assertions and overflow checks, as the repository's own tests are",
        ],
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", def.id)), serde_json::to_string_pretty(&ev).unwrap());
    println!(
        "{}: {} runs, {} distinct schedules, {} states, {:.1} s{}",
        def.id, tot.runs, tot.scheds.len(), tot.states.len(), wall, if tot.capped { " (time cap)" } else { "" }
    );
    if tot.mism > 0 {
        println!("note: {} repeated runs disagreed", tot.mism);
    }
    code
}

fn report(def: &Def, base: u64, f: &Found, seed: u64, plan: Value) -> String {
    let mut ex = Exec::new(def.id);
    let first = ex.run(&plan);
    let (class, mut detail) = first.violation.clone().unwrap_or((f.class.clone(), f.detail.clone()));
    let mut min = plan.clone();
    let mut tries = 0;
    if first.violation.is_some() {
        let t = Instant::now();
        let limit = if class == "hang" { 60 } else { 45 };
        let mut best = plan.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            shrink::minimise(plan.clone(), |c| {
                if t.elapsed().as_secs() > limit || tries > 6000 {
                    return None;
                }
                tries += 1;
                let o = ex.run(c);
                let same = !o.invalid && o.harness_error.is_none() && o.violation.as_ref().map(|v| v.0 == class).unwrap_or(false);
                if same {
                    best = c.clone();
                }
                Some(same)
            })
        }));
        // Whatever happens to the minimiser, the violation is reported.
        min = r.unwrap_or(best);
        let mut ex = Exec::new(def.id);
        if let Some(v) = ex.run(&min).violation {
            detail = v.1;
        }
    }
    let dir = root().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{:016x}.json", def.id, seed));
    let js = json!({"property": def.id, "base_seed": base, "index": f.i, "seed": seed, "class": class, "detail": detail,
        "reproduced_on_rerun": first.violation.is_some(),
        "minimiser_runs": tries, "plan": min, "original_plan_bytes": plan.to_string().len(), "plan_bytes": min.to_string().len()});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&js).unwrap());
    println!("minimised ({} candidate runs): {}: {}", tries, class, detail);
    p.display().to_string()
}

pub fn replay(file: &str, defs: &[Def]) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let def = defs.iter().find(|d| d.id == id).expect("property");
    let mut ex = Exec::new(def.id);
    let o = ex.run(&v["plan"]);
    match o.violation {
        Some((c, d)) => {
            println!("reproduced: {}: {}", c, d);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        None => {
            println!("no violation on replay of {}", file);
            0
        }
    }
}
