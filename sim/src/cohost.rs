//! Several virtual machines in one process, run step by step in slices of
//! any size, moved and dropped in the middle of their work, each compared
//! with an uninterrupted run of its own (C13).
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::prog::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut};
use rtforth::memory::Memory;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum Job {
    /// A compiled word of the guest's.
    Call(u32),
    /// A line, interpreted by the word EVALUATE-INPUT.
    Line(Vec<String>),
    /// A line, interpreted by the host.
    Host(Vec<String>),
    /// A word which fails where no error handler is installed.
    Bare(u32),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Guest {
    pub host: u8,
    pub helpers: Vec<Vec<Stmt>>,
    pub tasks: Vec<Vec<Stmt>>,
    pub words: Vec<Vec<Stmt>>,
    #[serde(default)]
    pub bare: Vec<Vec<String>>,
    pub file: Vec<Vec<String>>,
    pub jobs: Vec<Job>,
    pub sched: Vec<u8>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum Act {
    Slice(u8, u32),
    /// The virtual machine is moved in memory.
    Move(u8),
    Drop(u8),
    /// Another virtual machine is made, does something and is dropped.
    Extra(u8, u32),
    /// The host looks at the virtual machine.
    Look(u8),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub guests: Vec<Guest>,
    pub acts: Vec<Act>,
}

/// What a guest did.
#[derive(Default)]
struct Rec {
    sched: Vec<u8>,
    pos: usize,
    sps: u64,
    events: Vec<Ev>,
    clock: u64,
    out: Vec<u8>,
    ends: Vec<End>,
    steps: u64,
    /// So many steps are too many.
    limit: u64,
}

#[derive(PartialEq, Debug, Clone)]
struct End {
    job: usize,
    err: Option<i64>,
    s: Vec<i64>,
    f: Vec<u64>,
    r: Vec<i64>,
    compiling: bool,
    here: usize,
    current: usize,
    pending: String,
    out: usize,
    sum: u64,
}

static mut RECS: Vec<Rec> = Vec::new();
static mut CUR: usize = 0;
fn rec() -> &'static mut Rec {
    unsafe { &mut (&mut *(&raw mut RECS))[CUR] }
}

fn g_sp<H: Host>(vm: &mut H) {
    let r = rec();
    r.sps += 1;
    if r.sps > 100_000 {
        stop("stuck", "no end after 100000 schedule points".into());
    }
    let d = r.sched.get(r.pos).cloned().unwrap_or(1);
    r.pos += 1;
    if d >= 2 {
        vm.pass((d as u64 - 1) * 1_000_000);
    }
    if d >= 1 {
        vm.pause();
    }
}
fn g_probe<H: Host>(vm: &mut H) {
    let k = vm.s_stack().pop() as i64;
    tracked(|| {
        let mut e = snap(vm, k);
        let s = sim();
        e.clock = s.clock_ns;
        s.evn(e.task as i64 * 1000 + k);
        let r = rec();
        r.events.push(e);
        if r.events.len() > 50_000 {
            stop("stuck", "more than 50000 probe events".into());
        }
    })
}

fn text(g: &Guest, id: usize) -> String {
    let mut t = String::from("variable fac : im ; immediate\n: onerr 77 probe error . 0error me 1 = if bye else reset nod then ;\n' onerr handler!\n");
    for i in 0..id * 3 {
        t.push_str(&format!(": pad{} ;\n", i));
    }
    t.push_str(&vars_text("9", true));
    let h = g.helpers.len() as u32;
    for (i, b) in g.helpers.iter().enumerate() {
        let mut r = Render::new("9", i as u32);
        r.stmts(b, 0);
        t.push_str(&format!(": h{} 0labels {};\n", i, r.out));
    }
    for (i, b) in g.words.iter().enumerate() {
        let mut r = Render::new("9", h);
        r.stmts(b, 0);
        t.push_str(&format!(": j{} 0labels {} {} {} 99 probe 2drop 2drop fdrop fdrop ;\n", i, base_text(), fbase_text(), r.out));
    }
    if !g.bare.is_empty() {
        t.push_str(": bi 14 probe -1 @ 15 probe ;\n");
    }
    for (i, b) in g.bare.iter().enumerate() {
        t.push_str(&format!(": bw{} {} ;\n", i, b.join(" ")));
    }
    for (i, b) in g.tasks.iter().enumerate() {
        let n = i + 2;
        let v = n.to_string();
        t.push_str(&vars_text(&v, true));
        let mut r = Render::new(&v, h);
        r.stmts(b, 0);
        t.push_str(&format!(": go{0} 0labels {0} activate {1} {2} 0 probe {3} 999 probe nod ;\ngo{0}\n", n, base_text(), fbase_text(), r.out));
    }
    t.replace("{ID}", &id.to_string())
}

trait Vm {
    fn start(&mut self, g: &Guest, j: usize) -> bool;
    /// One step; true if there may be more.
    fn step(&mut self) -> bool;
    fn run(&mut self);
    fn end(&mut self, j: usize);
    fn relocate(self: Box<Self>) -> Box<dyn Vm>;
    fn look(&mut self);
}

/// The machine, its number and the error handler put aside.
struct G<H: Host>(Box<H>, usize, Option<usize>);
impl<H: Host + 'static> Vm for G<H> {
    fn start(&mut self, g: &Guest, j: usize) -> bool {
        let vm = &mut *self.0;
        match &g.jobs[j] {
            Job::Call(k) => {
                if g.words.is_empty() {
                    return false;
                }
                let name = format!("j{}", *k as usize % g.words.len());
                match vm.find(&name) {
                    Some(xt) => sut(|| vm.execute_word(xt)),
                    None => stop("lost-word", format!("{} is not found", name)),
                }
                true
            }
            Job::Bare(k) => {
                if g.bare.is_empty() || vm.current_task() != 0 {
                    return false;
                }
                let name = format!("bw{}", *k as usize % g.bare.len());
                match vm.find(&name) {
                    Some(xt) => {
                        self.2 = Some(vm.handler());
                        sut(|| {
                            vm.set_handler(0);
                            vm.execute_word(xt)
                        })
                    }
                    None => stop("lost-word", format!("{} is not found", name)),
                }
                true
            }
            Job::Line(l) => {
                let t = l.join(" ").replace("{ID}", &self.1.to_string());
                let xt = match vm.find("evaluate-input") {
                    Some(x) => x,
                    None => stop("lost-word", "evaluate-input is not found".into()),
                };
                sut(|| {
                    vm.set_source(&t);
                    vm.execute_word(xt)
                });
                true
            }
            Job::Host(l) => {
                let t = l.join(" ").replace("{ID}", &self.1.to_string());
                line(vm, &t);
                false
            }
        }
    }
    fn step(&mut self) -> bool {
        let vm = &mut *self.0;
        rec().steps += 1;
        if rec().steps > rec().limit {
            stop("stuck", format!("no end after {} steps", rec().limit));
        }
        sut(|| vm.forth())
    }
    fn run(&mut self) {
        let vm = &mut *self.0;
        sut(|| vm.run())
    }
    fn end(&mut self, j: usize) {
        sync();
        let vm = &mut *self.0;
        if let Some(h) = self.2.take() {
            vm.set_handler(h);
        }
        let err = vm.last_error().map(|e| {
            let n: isize = e.into();
            n as i64
        });
        let (a, z) = (vm.data_space().start(), vm.data_space().here());
        let mut h = Fnv::new();
        h.bytes(unsafe { std::slice::from_raw_parts(a as *const u8, z.saturating_sub(a)) });
        let e = End {
            job: j,
            err,
            s: data(vm),
            f: floats(vm).iter().map(|x| x.to_bits()).collect(),
            r: slice(vm.r_stack()).into_iter().map(|x| x as i64).collect(),
            compiling: vm.state().is_compiling,
            here: z - a,
            current: vm.current_task(),
            pending: vm.output_buffer().clone().unwrap_or_default(),
            out: rec().out.len(),
            sum: h.0,
        };
        // After an error: the handler ended the run of this task.
        let failed = err.is_some() || rec().events.last().map(|e| e.k == 77).unwrap_or(false);
        rec().ends.push(e);
        if failed && vm.current_task() == 0 {
            recover(vm);
        }
    }
    fn relocate(self: Box<Self>) -> Box<dyn Vm> {
        let g = *self;
        let moved: H = *g.0;
        Box::new(G(Box::new(moved), g.1, g.2))
    }
    fn look(&mut self) {
        let vm = &mut *self.0;
        sut(|| {
            for w in ["dup", "dd", "h0", "ee", "nn", "mk", "j0", "v9"] {
                let _ = vm.find(w);
            }
            let _ = vm.find("no such word");
            let _ = vm.last_error();
            let _ = vm.s_stack().len();
            let _ = vm.output_buffer().as_ref().map(|b| b.len());
            let _ = vm.data_space().here();
            let _ = format!("{:?}", vm.s_stack());
        });
    }
}

fn make<H: Host + 'static>(g: &Guest, id: usize) -> Box<dyn Vm> {
    crate::alloc::from_slot(id);
    let mut vm = H::make();
    vm.add_primitive("sp", g_sp::<H>);
    vm.add_primitive("probe", g_probe::<H>);
    load(&mut *vm, &text(g, id));
    Box::new(G(vm, id, None))
}
fn extra<H: Host + 'static>(n: u32) {
    crate::alloc::from_slot(8);
    let mut vm = H::make();
    vm.add_primitive("sp", |_| {});
    line(&mut *vm, ": onerr bye ; ' onerr handler!");
    for i in 0..n % 4 {
        let t = ["1 2 3 : dup 5 ; variable v9 99 v9 !", "1 0 /", ": x if ;", "2 suspend 99 suspend", ": w 2 activate 5 nod ; w : p pause ; p", "abort", ".( text) 65 emit", "include g0"][(n as usize + i as usize) % 8];
        line(&mut *vm, t);
    }
    if n % 3 == 0 {
        // Left in the middle of a run.
        let xt = vm.find("words").unwrap_or(0);
        sut(|| {
            vm.execute_word(xt);
            vm.forth();
        });
    }
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear();
    }
    sut(|| drop(vm));
}
fn make_for(g: &Guest, id: usize) -> Box<dyn Vm> {
    crate::with_host!(g.host, make(g, id))
}

/// Enter the guest's own world: clock and output.
fn within<R>(id: usize, f: impl FnOnce() -> R) -> R {
    unsafe { CUR = id };
    let s = sim();
    s.clock_ns = rec().clock;
    unsafe { SEEN = s.stdout.len() };
    let r = f();
    sync();
    rec().clock = sim().clock_ns;
    r
}
/// What the console says when it is dropped (a carriage return) may be held
/// back by the standard library.
fn settle() {
    use std::io::Write;
    sut(|| {
        let _ = std::io::stdout().flush();
    });
}
static mut SEEN: usize = 0;
/// Standard output so far belongs to this guest.
fn sync() {
    settle();
    let s = sim();
    unsafe {
        rec().out.extend_from_slice(&s.stdout[SEEN..]);
        SEEN = s.stdout.len();
    }
}

fn fresh(p: &Plan) {
    new_ctx(&[]);
    unsafe {
        RECS = p.guests.iter().map(|g| Rec { sched: g.sched.clone(), clock: 1_000_000_000, ..Default::default() }).collect();
    }
    sim().clock_step = 1000;
    for (i, g) in p.guests.iter().enumerate() {
        let t: String = g.file.iter().map(|l| l.join(" ").replace("{ID}", &i.to_string()) + "\n").collect();
        sim().fs.put(&format!("g{}", i), t.as_bytes());
    }
}

fn compare(id: usize, want: &Rec, got: &Rec, whole: bool, out: &mut Outcome) {
    let who = |t: &str| format!("machine {}: {}", id, t);
    for n in 0..want.events.len().max(got.events.len()) {
        match (want.events.get(n), got.events.get(n)) {
            (Some(a), Some(b)) if a.same(b) && a.clock == b.clock => {}
            (Some(_), None) if !whole => break,
            (a, b) => {
                let sh = |e: Option<&Ev>| e.map(|e| format!("{} clock {}", e.show(), e.clock)).unwrap_or("nothing".into());
                return out.fail("events", who(&format!("probe #{}: on its own {}; in slices {}", n, sh(a), sh(b))));
            }
        }
    }
    for n in 0..want.ends.len().max(got.ends.len()) {
        match (want.ends.get(n), got.ends.get(n)) {
            (Some(a), Some(b)) if a == b => {}
            (Some(_), None) if !whole => break,
            (a, b) => return out.fail("result", who(&format!("after job {}: on its own {:?}; in slices {:?}", n, a, b))),
        }
    }
    if if whole { want.out != got.out } else { !want.out.starts_with(&got.out) } {
        out.fail("output", who(&format!("output on its own {:?}; in slices {:?}", String::from_utf8_lossy(&want.out), String::from_utf8_lossy(&got.out))));
    }
}

fn go(p: &Plan, out: &mut Outcome) {
    if p.guests.is_empty() || p.guests.len() > 4 {
        out.invalid = true;
        return;
    }
    let ng = p.guests.len();
    // Each on its own, uninterrupted.
    fresh(p);
    for (i, g) in p.guests.iter().enumerate() {
        let vm = within(i, || {
            let mut vm = make_for(g, i);
            for j in 0..g.jobs.len() {
                if vm.start(g, j) {
                    vm.run();
                }
                vm.end(j);
            }
            vm
        });
        sut(|| drop(vm));
        settle();
    }
    let want = std::mem::take(unsafe { &mut *(&raw mut RECS) });
    // All of them, in slices. Delays are loops which read the clock, which
    // goes on by 1000 ns each time.
    fresh(p);
    for (r, w) in unsafe { &mut *(&raw mut RECS) }.iter_mut().zip(&want) {
        r.limit = 3_000_000 + w.clock / 20;
    }
    struct Run {
        vm: Option<Box<dyn Vm>>,
        job: usize,
        active: bool,
        made: bool,
        dropped: bool,
    }
    let mut runs: Vec<Run> = (0..ng).map(|_| Run { vm: None, job: 0, active: false, made: false, dropped: false }).collect();
    let mut h = Fnv::new();
    let (mut slices, mut switches, mut moves, mut drops, mut extras) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut last = 99;
    let mut acts = p.acts.iter().cloned();
    let mut rr = 0;
    loop {
        let a = match acts.next() {
            Some(a) => a,
            None => {
                // Whatever is left.
                let live = (0..ng).map(|k| (rr + k) % ng).find(|&i| !runs[i].dropped && (!runs[i].made || runs[i].job < p.guests[i].jobs.len()));
                match live {
                    Some(i) => {
                        rr = i + 1;
                        Act::Slice(i as u8, 200)
                    }
                    None => break,
                }
            }
        };
        match a {
            Act::Slice(i, n) => {
                let i = i as usize % ng;
                let g = &p.guests[i];
                let r = &mut runs[i];
                if r.dropped {
                    continue;
                }
                slices += 1;
                if last != i {
                    switches += 1;
                    last = i;
                }
                within(i, || {
                    if !r.made {
                        r.vm = Some(make_for(g, i));
                        r.made = true;
                    }
                    let vm = r.vm.as_mut().unwrap();
                    let mut n = n.max(1);
                    while n > 0 && r.job < g.jobs.len() {
                        if !r.active {
                            r.active = vm.start(g, r.job);
                        }
                        while r.active && n > 0 {
                            r.active = vm.step();
                            n -= 1;
                        }
                        if !r.active {
                            vm.end(r.job);
                            r.job += 1;
                            n = n.saturating_sub(1);
                        }
                    }
                });
                let e = unsafe { &(&(*(&raw const RECS)))[i] };
                let mut sh = Fnv::new();
                sh.u64(i as u64);
                sh.u64(r.job as u64);
                sh.u64(e.steps.min(5000) / 4);
                sh.u64(r.active as u64);
                h.u64(sh.0);
                out.states.push(sh.0);
            }
            Act::Move(i) => {
                let r = &mut runs[i as usize % ng];
                if let Some(vm) = r.vm.take() {
                    moves += 1;
                    r.vm = Some(vm.relocate());
                }
            }
            Act::Drop(i) => {
                let i = i as usize % ng;
                // The last one stays.
                if runs.iter().filter(|r| !r.dropped).count() > 1 && !runs[i].dropped {
                    drops += 1;
                    let vm = runs[i].vm.take();
                    sut(|| drop(vm));
                    settle();
                    runs[i].dropped = true;
                }
            }
            Act::Extra(k, n) => {
                extras += 1;
                let s = sim();
                let (c, o) = (s.clock_ns, s.stdout.len());
                crate::with_host!(k % 3, extra(n));
                settle();
                let s = sim();
                s.clock_ns = c;
                s.stdout.truncate(o);
            }
            Act::Look(i) => {
                if let Some(vm) = runs[i as usize % ng].vm.as_mut() {
                    vm.look();
                }
            }
        }
    }
    for r in runs.iter_mut() {
        let vm = r.vm.take();
        sut(|| drop(vm));
    }
    settle();
    let got = std::mem::take(unsafe { &mut *(&raw mut RECS) });
    for i in 0..ng {
        compare(i, &want[i], &got[i], !runs[i].dropped, out);
        out.count("steps", got[i].steps);
        out.count("probes", got[i].events.len() as u64);
        out.count("jobs", got[i].ends.len() as u64);
        out.count("failures in machines", got[i].events.iter().filter(|e| e.k == 77).count() as u64);
    }
    out.count("slices", slices);
    out.count("changes of machine", switches);
    out.count("moves", moves);
    out.count("drops in the middle", drops);
    out.count("other machines made and dropped", extras);
    out.sched = h.0;
    out.nontrivial = slices >= 3 && got.iter().map(|r| r.steps).sum::<u64>() > 50;
}


const BARE: &[&str] = &[
    "10 probe", "11 probe", "1 0 /", "7 0 mod", "-1 @", "abort", "99 suspend", "5 v9 !", "3 0 do 12 probe loop", "3 0 do i 1 = if 1 0 / then 13 probe loop", "bi", "5 .", "2.5e", "1 2 3", "-1 c@", "0 16 probe",
];
const TOKS: &[&str] = &[
    "1 2 +", "dup drop", "h0", "sp", "500 probe", ": dd 3{ID} sp 4 + ; dd", "dd", "dd . dd", ": ee 7{ID} ; ee .", "' dd execute", "' h0 execute", "include g{ID}", ".( text)", "5 .", "flush-output", "1 0 /", "xyzzy", "-1 @", "abort", "depth .", "v9 @ .", "7 v9 !", "j0", "utime drop", "char A emit", "' dup drop", ": nn [ 1 2 + ] literal ;", ": un", "; ", "hex ff . decimal",
    "here drop", "marker mk", "mk", "variable q{ID}", "1 2 3 .s", "clear", "2drop", "1.5e f.", "s\" abc\"", "words", "99 suspend", "me drop", "fac get fac release", "\\ rest", "( c )",
];

pub struct C13;
impl Check for C13 {
    type Plan = Plan;
    const ID: &'static str = "C13";
    const QUICK: u64 = 80_000;
    const THOROUGH: u64 = 2_000_000;
    const RULE: &'static str = "one to three virtual machines of any of the three hosts run their jobs (compiled words, lines interpreted by EVALUATE-INPUT or by the host, with background tasks) one step at a time in generated slices, are moved in memory, looked at and dropped in the middle, with other machines made, failing and dropped in between; each is compared with its own uninterrupted run; non-trivial with at least three slices and 50 steps; distinct by the sequence of (machine, job, progress)";
    const REAL: &'static [&'static str] = &["src/core.rs (run, forth)", "src/*.rs", "core.fth", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)"];
    const STUB: &'static [&'static str] = &["the clock (one for each machine)", "disk", "terminal device", "turn order at schedule points (seeded)"];
    const STATE_MEASURE: &'static str = "hash of (machine, job, steps made / 4, in the middle of a job) at the end of each slice";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let ng = 1 + r.us(3);
        let guests: Vec<Guest> = (0..ng)
            .map(|_| {
                let mut g = Gen { sp_pct: *r.pick(&[10, 30, 60]), floats: r.pct(60), mem: false, ..Gen::default() };
                let mut helpers = vec![];
                for i in 0..1 + r.us(2) {
                    g.helpers = i as u32;
                    g.depth = 2;
                    helpers.push(g.body(r, 4));
                }
                g.helpers = helpers.len() as u32;
                g.mem = true;
                g.depth = 3;
                let host = r.weighted(&[5, 3, 2]) as u8;
                // The clock of the first host does not go on its own.
                g.ms = host != 0 && r.pct(30);
                g.raw = &["dup .", ".\" x\" ", "flush-output", "fac get sp fac release", "utime drop", "mtime 0< +", "im", "sp"];
                let size = if th { 3 + r.us(10) as u32 } else { 3 + r.us(5) as u32 };
                let tasks = (0..r.us(3)).map(|_| g.body(r, size)).collect();
                let words = (0..1 + r.us(2))
                    .map(|_| {
                        let mut b = g.body(r, size);
                        if r.pct(20) {
                            let at = r.us(b.len() + 1);
                            b.insert(at, Stmt::Raw(r.pick(&["1 0 /", "-1 @", "abort", "99 suspend"]).to_string()));
                        }
                        b
                    })
                    .collect();
                let toks = |r: &mut Rng, file: bool| -> Vec<String> {
                    let n = 1 + r.us(6);
                    (0..n).map(|_| *r.pick(TOKS)).filter(|t| !file || !t.starts_with("include")).map(|s| s.to_string()).collect()
                };
                let file = (0..r.us(4)).map(|_| toks(r, true)).collect();
                let jobs = (0..1 + r.us(4))
                    .map(|_| match r.us(4) {
                        _ if r.pct(8) => Job::Bare(r.us(2) as u32),
                        0 => Job::Host(toks(r, false)),
                        1 => Job::Call(r.us(2) as u32),
                        _ => Job::Line(toks(r, false)),
                    })
                    .collect();
                let sched = (0..r.us(60)).map(|_| r.weighted(&[3, 4, 1]) as u8).collect();
                let bare = (0..1 + r.us(2)).map(|_| (0..2 + r.us(6)).map(|_| r.pick(BARE).to_string()).collect()).collect();
                Guest { host, helpers, tasks, words, bare, file, jobs, sched }
            })
            .collect();
        let scale = *r.pick(&[1u64, 1, 5, 30, 200, 1000]);
        let acts = (0..r.us(if th { 400 } else { 120 }))
            .map(|_| match r.us(40) {
                0 => Act::Move(r.us(ng) as u8),
                1 if r.pct(30) => Act::Drop(r.us(ng) as u8),
                2 if r.pct(60) => Act::Extra(r.us(3) as u8, r.us(24) as u32),
                3 | 4 | 5 => Act::Look(r.us(ng) as u8),
                _ => Act::Slice(r.us(ng) as u8, 1 + r.below(scale) as u32),
            })
            .collect();
        Plan { guests, acts }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        go(p, out)
    }
}
