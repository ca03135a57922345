//! Task isolation: every task must do exactly what it does on its own,
//! whatever the interleaving; so must the interpreting operator.
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::prog::*;
use crate::rng::Rng;
use rtforth::memory::Memory;
use crate::sim::sim;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Tok {
    Lit(i64),
    Op(u32),
    Sp,
    Call(u32),
    Tick(u32),
    Mem(u32),
    Char,
    Def(u32, Vec<Stmt>),
    Use(u32),
    Probe,
    Val(i64),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    host: u8,
    helpers: Vec<Vec<Stmt>>,
    tasks: Vec<Vec<Stmt>>,
    script: Vec<Vec<Tok>>,
    sched: Vec<u8>,
}

pub struct C01;

fn text(p: &Plan) -> String {
    let mut t = String::from(": im sp ; immediate\n: turn pause ;\n: kid 5 activate nod ;\n");
    t.push_str(&vars_text("9", true));
    let h = p.helpers.len() as u32;
    for (i, b) in p.helpers.iter().enumerate() {
        let mut r = Render::new("9", i as u32);
        // Helpers are shared by tasks, so they use no variables.
        r.stmts(b, 0);
        t.push_str(&format!(": h{} 0labels {};\n", i, r.out));
    }
    for (i, b) in p.tasks.iter().enumerate() {
        let id = i + 2;
        let v = id.to_string();
        t.push_str(&vars_text(&v, true));
        let mut r = Render::new(&v, h);
        r.stmts(b, 0);
        t.push_str(&format!(": go{0} 0labels {0} activate {1} {2} 0 probe {3}999 probe done nod ;\n", id, base_text(), fbase_text(), r.out));
    }
    t
}

fn script_text(p: &Plan) -> Vec<String> {
    let h = p.helpers.len() as u32;
    let iops = interpretable();
    let mut defs: Vec<u32> = Vec::new();
    let mut out = vec![format!("{} {}", base_text(), fbase_text())];
    let r0 = Render::new("9", h);
    for l in &p.script {
        let mut s = String::new();
        for t in l {
            let w = match t {
                Tok::Lit(n) => format!("{} +", n),
                Tok::Op(i) => OPS[iops[*i as usize % iops.len()] as usize].to_string(),
                Tok::Sp => "sp".into(),
                Tok::Call(k) if h > 0 => format!("h{}", k % h),
                Tok::Tick(k) if h > 0 => format!("' h{} execute", k % h),
                Tok::Mem(k) => r0.mem_text(*k),
                Tok::Char => "char A +".into(),
                Tok::Val(n) => format!("{} constant q{} q{} xor", n, n.unsigned_abs() % 7, n.unsigned_abs() % 7),
                Tok::Def(d, b) => {
                    let mut r = Render::new("9", h);
                    r.stmts(b, 0);
                    defs.push(*d);
                    format!(": d{} 0labels {};", d, r.out)
                }
                Tok::Use(d) if !defs.is_empty() => format!("d{}", defs[*d as usize % defs.len()]),
                Tok::Probe => "500 probe".into(),
                _ => continue,
            };
            s.push_str(&w);
            s.push(' ');
        }
        for part in s.split('\n') {
            out.push(part.to_string());
        }
    }
    out
}

const TURNS: u32 = 30_000;

fn drain<H: Host>(vm: &mut H, ids: &[usize]) {
    let mut n = 0;
    while !ids.iter().all(|&i| ctx().done[i]) {
        if let Some(e) = line(vm, "turn") {
            stop("error", format!("PAUSE in the operator ended with error {}", e));
        }
        n += 1;
        if n > TURNS {
            stop("stuck", format!("tasks {:?} not finished after {} turns", ids, n));
        }
    }
}

/// Operator state after a line.
#[derive(PartialEq, Debug, Clone)]
struct After {
    err: Option<i64>,
    compiling: bool,
    here: usize,
    ev: Ev,
}

fn run_script<H: Host>(vm: &mut H, lines: &[String]) -> Vec<After> {
    let mut v = Vec::new();
    for l in lines {
        let err = line(vm, l);
        if vm.current_task() != 0 {
            stop("operator-lost", format!("after line {:?} task {} is current instead of the operator", l, vm.current_task() + 1));
        }
        let ev = snap(vm, 0);
        v.push(After { err, compiling: vm.state().is_compiling, here: vm.data_space().here(), ev: Ev { clock: 0, turn: 0, ..ev } });
        if err.is_some() {
            recover(vm);
        }
    }
    v
}

fn go<H: Host>(p: &Plan, out: &mut Outcome) {
    let text = text(p);
    let lines = script_text(p);
    let ids: Vec<usize> = (0..p.tasks.len()).map(|i| i + 2).collect();
    // Everybody together.
    let c = new_ctx(&p.sched);
    let mut vm = H::make();
    add_words(&mut *vm);
    load(&mut *vm, &text);
    for i in &ids {
        load(&mut *vm, &format!("go{}", i));
    }
    let op = run_script(&mut *vm, &lines);
    drain(&mut *vm, &ids);
    crate::sim::sut(|| drop(vm));
    let events = std::mem::take(&mut c.events);
    out.sched = c.sched_h();
    out.states = std::mem::take(&mut c.states);
    out.count("switches", c.switches);
    out.count("schedule_points", c.sps);
    out.count("probes", events.len() as u64);
    out.count(&format!("host {}", H::NAME), 1);
    out.sim_ns = sim().clock_ns - 1_000_000_000;
    out.nontrivial = c.switches >= 4 && ids.len() > 0;
    // Each task on its own.
    for i in &ids {
        let c = new_ctx(&[]);
        c.solo = true;
        let mut vm = H::make();
        add_words(&mut *vm);
        load(&mut *vm, &text);
        load(&mut *vm, &format!("go{}", i));
        drain(&mut *vm, &[*i]);
        crate::sim::sut(|| drop(vm));
        let want: Vec<&Ev> = c.events.iter().filter(|e| e.task as usize == *i).collect();
        let got: Vec<&Ev> = events.iter().filter(|e| e.task as usize == *i).collect();
        for n in 0..want.len().max(got.len()) {
            match (want.get(n), got.get(n)) {
                (Some(w), Some(g)) if w.same(g) => {}
                (w, g) => {
                    out.fail(
                        "task-differs",
                        format!("task {} probe #{}: alone {}; together {}", i, n, w.map(|e| e.show()).unwrap_or("nothing".into()), g.map(|e| e.show()).unwrap_or("nothing".into())),
                    );
                    return;
                }
            }
        }
    }
    // The operator on its own.
    let c = new_ctx(&[]);
    c.solo = true;
    let mut vm = H::make();
    add_words(&mut *vm);
    load(&mut *vm, &text);
    let want = run_script(&mut *vm, &lines);
    crate::sim::sut(|| drop(vm));
    for n in 0..want.len().max(op.len()) {
        if want.get(n) != op.get(n) {
            out.fail("operator-differs", format!("line {:?}: alone {:?}; together {:?}", lines[n], want.get(n), op.get(n)));
            return;
        }
    }
    let w: Vec<&Ev> = c.events.iter().filter(|e| e.task == 1).collect();
    let g: Vec<&Ev> = events.iter().filter(|e| e.task == 1).collect();
    if w.len() != g.len() || w.iter().zip(g.iter()).any(|(a, b)| !a.same(b)) {
        out.fail("operator-differs", format!("probes of the operator: alone {:?}; together {:?}", w, g));
    }
}

impl Check for C01 {
    type Plan = Plan;
    const ID: &'static str = "C01";
    const QUICK: u64 = 120_000;
    const THOROUGH: u64 = 4_000_000;
    const RULE: &'static str = "one execution of up to four background task programs together with an operator script under one schedule; counted as distinct by the sequence of task switches taken together with the progress each task had made, at least four real switches required";
    const REAL: &'static [&'static str] = &["src/core.rs", "src/float.rs", "src/memory.rs", "core.fth", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)"];
    const STUB: &'static [&'static str] = &["turn order at schedule points (seeded)", "terminal device", "clock"];
    const STATE_MEASURE: &'static str = "hash of the probes passed by every task at a switch, plus the task switched to";
    fn gen(r: &mut Rng, thorough: bool) -> Plan {
        let mut g = Gen { sp_pct: *r.pick(&[10, 30, 60]), floats: r.pct(60), mem: false, ..Gen::default() };
        let mut helpers = Vec::new();
        for i in 0..r.us(4) {
            g.helpers = i as u32;
            g.depth = 2;
            helpers.push(g.body(r, 4));
        }
        g.helpers = helpers.len() as u32;
        g.mem = true;
        g.depth = 3;
        let nt = 1 + r.us(4);
        let size = if thorough { 4 + r.us(16) as u32 } else { 3 + r.us(8) as u32 };
        // Words that use what tasks have in common.
        const SHARED: &[&str] = &["kid", "kid", "kid", "compiling? +", "source-id xor", "65 emit", "s\" xy\" type", "7 3 .r", "parse-word token-empty? +", "me drop", "error +", "utime drop", "5 suspend"];
        if nt < 4 && r.pct(60) {
            g.raw = SHARED;
        }
        let tasks = (0..nt).map(|_| g.body(r, size)).collect();
        g.goto = *r.pick(&[1, 1, 6]);
        g.raw = &["im", "[ sp ]", "\n", "im im", "[ h0 ] "];
        if helpers.is_empty() {
            g.raw = &["im", "[ sp ]", "\n", "im im"];
        }
        g.depth = 2;
        let mut script = Vec::new();
        for _ in 0..1 + r.us(5) {
            let mut l = Vec::new();
            for _ in 0..1 + r.us(6) {
                l.push(match r.us(13) {
                    0 | 1 => Tok::Sp,
                    2 => Tok::Lit(r.int()),
                    3 | 4 => Tok::Op(r.us(60) as u32),
                    5 => Tok::Call(r.us(4) as u32),
                    6 => Tok::Tick(r.us(4) as u32),
                    7 => Tok::Mem(r.us(MOPS.len()) as u32),
                    8 => Tok::Char,
                    9 => Tok::Def(r.us(5) as u32, g.body(r, 5)),
                    10 => Tok::Use(r.us(5) as u32),
                    11 => Tok::Probe,
                    _ => Tok::Val(r.range(-50, 50)),
                });
            }
            script.push(l);
        }
        let n = r.us(200);
        let bias = *r.pick(&[20, 50, 80]);
        let sched = (0..n).map(|_| if r.pct(bias) { 1 } else if r.pct(20) { 2 + r.us(5) as u8 } else { 0 }).collect();
        Plan { host: r.weighted(&[6, 2, 2]) as u8, helpers, tasks, script, sched }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        crate::with_host!(p.host, go(p, out))
    }
}
