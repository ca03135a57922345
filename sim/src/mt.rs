//! Multitasking programs with an executable reference model that predicts the
//! exact history of turns, notes, facilities, delays and errors. Used by the
//! checks of turn order, ACTIVATE, facilities and delays.
use crate::frame::Outcome;
use crate::hosts::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum A {
    Note,
    Me,
    I,
    Pause,
    /// Schedule point: what happens is decided by the plan's schedule.
    Sp,
    Susp(i64),
    Res(i64),
    Stop,
    Halt(i64),
    /// Activate task n with program p.
    Act(u32, i64),
    Get(u32),
    Rel(u32),
    Ms(i64),
    Mtime,
    Utime,
    /// Let the clock advance (or step back) by microseconds.
    Tick(i64),
    Loop(u32, Vec<A>),
    Call(Vec<A>),
    R(Vec<A>),
    Fail(u32),
    Rbr,
    Src,
    Push(i64),
    Xt(u32),
    DotX,
    ZeroX,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub host: u8,
    /// Bodies of the words measured by XTIME.
    pub xs: Vec<Vec<A>>,
    pub progs: Vec<(u8, Vec<A>)>,
    /// (compiled, actions) of the operator.
    pub lines: Vec<(bool, Vec<A>)>,
    pub sched: Vec<u8>,
    pub limit: u32,
    /// How long the machine has been up when the programs start (us; not of
    /// the mock, whose clock only ticks).
    #[serde(default)]
    pub up: i64,
}

pub const FAILS: &[&str] = &["abort", "-1 @", "1 0 !", "99 suspend", "7 -1 !", "99999 execute"];
pub const NF: u32 = 3;
const BAD: &[i64] = &[0, -1, 6, 7, 100, i64::MIN, i64::MAX, 1 << 32, -(1 << 32) + 2, i64::MIN + 2];

#[derive(Clone, Copy, Debug)]
enum V {
    Zero,
    Me,
    Loop,
    Mtime,
    Utime,
    Const(i64),
}

#[derive(Clone, Debug)]
enum I {
    Note(i64, V),
    Start(i64, i64),
    Pause,
    Sp,
    Susp(i64),
    Res(i64),
    Stop,
    Halt(i64),
    Act(usize, i64),
    Get(usize),
    Rel(usize),
    Ms(i64),
    Tick(i64),
    LoopB(i64),
    LoopE(usize),
    Fail,
    Push(i64),
    XtB,
    XtE(usize),
    DotX(i64),
    ZeroX,
    Jump(usize),
}

#[derive(Clone, PartialEq, Debug)]
pub struct E {
    pub task: u8,
    pub k: i64,
    pub v: i64,
    pub s: Vec<i64>,
    pub x: String,
}

struct Build<'a> {
    plan: &'a Plan,
    defs: String,
    k: i64,
    nc: u32,
    code: Vec<I>,
    xdepth: u32,
}

impl<'a> Build<'a> {
    fn key(&mut self) -> i64 {
        self.k += 1;
        self.k
    }
    /// Text of the actions; the model code is appended. `interp`: the text
    /// will be interpreted.
    fn list(&mut self, v: &[A], interp: bool, in_loop: bool, op: bool) -> String {
        let mut t = String::new();
        for a in v {
            let s = self.act(a, interp, in_loop, op);
            t.push_str(&s);
            t.push(' ');
        }
        t
    }
    fn word(&mut self, v: &[A], wrap: &A, op: bool) -> String {
        let n = self.nc;
        self.nc += 1;
        let b = match wrap {
            A::Call(_) => self.list(v, false, false, op),
            w => self.act(w, false, false, op),
        };
        self.defs.push_str(&format!(": c{} {} ;\n", n, b));
        format!("c{}", n)
    }
    fn act(&mut self, a: &A, interp: bool, in_loop: bool, op: bool) -> String {
        match a {
            A::Note => {
                let k = self.key();
                self.code.push(I::Note(k, V::Zero));
                format!("0 {} note", k)
            }
            A::Me => {
                let k = self.key();
                self.code.push(I::Note(k, V::Me));
                format!("me {} note", k)
            }
            A::I if in_loop => {
                let k = self.key();
                self.code.push(I::Note(k, V::Loop));
                format!("i {} note", k)
            }
            A::I => self.act(&A::Note, interp, in_loop, op),
            A::Pause => {
                self.code.push(I::Pause);
                if interp { "turn" } else { "pause" }.to_string()
            }
            A::Sp => {
                self.code.push(I::Sp);
                "sp".into()
            }
            A::Susp(n) => {
                self.code.push(I::Susp(*n));
                format!("{} suspend", n)
            }
            A::Res(n) => {
                self.code.push(I::Res(*n));
                format!("{} resume", n)
            }
            A::Stop => {
                self.code.push(I::Stop);
                "stop".into()
            }
            A::Halt(n) => {
                self.code.push(I::Halt(*n));
                format!("{} halt", n)
            }
            A::Act(p, n) => {
                if self.plan.progs.is_empty() {
                    return String::new();
                }
                let p = *p as usize % self.plan.progs.len();
                self.code.push(I::Act(p, *n));
                format!("{} a{}", n, p)
            }
            A::Get(f) => {
                self.code.push(I::Get((f % NF) as usize));
                format!("f{} get", f % NF)
            }
            A::Rel(f) => {
                self.code.push(I::Rel((f % NF) as usize));
                format!("f{} release", f % NF)
            }
            A::Ms(n) => {
                self.code.push(I::Ms(*n));
                format!("{} ms", n)
            }
            A::Mtime => {
                let k = self.key();
                self.code.push(I::Note(k, V::Mtime));
                format!("mtime {} note", k)
            }
            A::Utime => {
                let k = self.key();
                self.code.push(I::Note(k, V::Utime));
                format!("utime {} note", k)
            }
            A::Tick(n) => {
                self.code.push(I::Tick(*n));
                format!("{} tick", n)
            }
            A::Loop(n, b) if !interp => {
                let n = (*n).max(1) as i64;
                self.code.push(I::LoopB(n));
                let p = self.code.len();
                let t = self.list(b, false, true, op);
                self.code.push(I::LoopE(p));
                format!("{} 0 do {} loop", n, t)
            }
            A::R(b) if !interp => {
                let k = self.key();
                let t = self.list(b, false, false, op);
                self.code.push(I::Note(k, V::Const(k)));
                format!("{} >r {} r> {} note", k, t, k)
            }
            A::Loop(_, b) | A::R(b) => self.word(b, a, op),
            A::Call(b) => self.word(b, a, op),
            A::Fail(j) => {
                self.code.push(I::Fail);
                FAILS[*j as usize % FAILS.len()].to_string()
            }
            A::Rbr | A::Src if op || interp => String::new(),
            A::Rbr => "]".into(),
            A::Src => "s\" m.txt\" 2dup r/o open-file drop open-source source-id! source-id load-line 2drop".into(),
            A::Push(n) => {
                self.code.push(I::Push(*n));
                format!("drop {}", n)
            }
            A::Xt(w) => {
                if self.plan.xs.is_empty() || self.xdepth > 0 {
                    return String::new();
                }
                let w = *w as usize % self.plan.xs.len();
                self.code.push(I::XtB);
                self.xdepth += 1;
                // The words themselves are rendered once; the model code is inlined
                // with the same keys.
                let (k, nc) = (self.k, self.nc);
                self.k = 100_000 + w as i64 * 1000;
                let d = self.defs.len();
                self.nc = 100_000 + w as u32 * 1000;
                let body = self.plan.xs[w].clone();
                let _ = self.list(&body, false, false, true);
                self.defs.truncate(d);
                self.k = k;
                self.nc = nc;
                self.xdepth -= 1;
                self.code.push(I::XtE(w));
                if interp { format!("utime ' x{} xtime", w) } else { format!("utime ['] x{} xtime", w) }
            }
            A::DotX => {
                let k = self.key();
                self.code.push(I::DotX(k));
                format!("outclr .xtime {} outtake", k)
            }
            A::ZeroX => {
                self.code.push(I::ZeroX);
                "0xtime".into()
            }
        }
    }
}

struct Built {
    text: String,
    lines: Vec<String>,
    progs: Vec<Vec<I>>,
    op: Vec<I>,
}

fn build(p: &Plan) -> Built {
    let mut b = Build { plan: p, defs: String::new(), k: 0, nc: 0, code: Vec::new(), xdepth: 0 };
    let mut text = String::from(": turn pause ;\nvariable f0 variable f1 variable f2\n: onerr error 0<> 9001 note 0error ;\n' onerr handler!\n");
    // Measured words: no calls of measured words inside.
    let mut xt = String::new();
    for (w, body) in p.xs.iter().enumerate() {
        let mut b = Build { plan: p, defs: String::new(), k: 100_000 + w as i64 * 1000, nc: 100_000 + w as u32 * 1000, code: Vec::new(), xdepth: 1 };
        let t = b.list(body, false, false, true);
        xt.push_str(&b.defs);
        xt.push_str(&format!(": x{} {} ;\n", w, t));
    }
    // Programs may activate one another: define them deferred.
    for i in 0..p.progs.len() {
        text.push_str(&format!("defer a{}\n", i));
    }
    text.push_str(&xt);
    let mut progs = Vec::new();
    let mut ptext = String::new();
    for (i, (end, body)) in p.progs.iter().enumerate() {
        b.code.clear();
        let base = 1000 + i as i64 * 10;
        let k = b.key();
        b.code.push(I::Start(k, base));
        let t = b.list(body, false, false, false);
        let here = b.code.len();
        let e = match end % 4 {
            0 => {
                let k = b.key();
                b.code.extend([I::Note(k, V::Zero), I::Pause, I::Jump(here)]);
                format!("begin 0 {} note pause again", k)
            }
            1 => {
                b.code.extend([I::Pause, I::Jump(here)]);
                "nod".to_string()
            }
            2 => {
                b.code.extend([I::Stop, I::Pause, I::Jump(here + 1)]);
                "stop nod".to_string()
            }
            _ => {
                b.code.extend([I::Stop, I::Jump(here)]);
                "begin stop again".to_string()
            }
        };
        progs.push(b.code.clone());
        let d = std::mem::take(&mut b.defs);
        ptext.push_str(&d);
        ptext.push_str(&format!(": b{} activate {} start {} {} {} {} ;\n' b{} ' a{} defer!\n", i, k, base, base + 1, t, e, i, i));
    }
    text.push_str(&ptext);
    b.code.clear();
    let mut lines = vec!["0stacks 1 2".to_string()];
    b.code.push(I::Push(2));
    for (compiled, v) in &p.lines {
        let t = if *compiled {
            b.word(v, &A::Call(Vec::new()), true)
        } else {
            b.list(v, true, false, true)
        };
        let d = std::mem::take(&mut b.defs);
        text.push_str(&d);
        lines.push(t);
    }
    let here = b.code.len();
    b.code.extend([I::Note(999, V::Zero), I::Tick(700), I::Pause, I::Jump(here)]);
    text.push_str(": idle begin 0 999 note 700 tick pause again ;\n");
    lines.push("idle".into());
    Built { text, lines, progs, op: b.code }
}

// ---------------------------------------------------------------- model

#[derive(Clone, Default)]
struct T {
    awake: bool,
    prog: usize,
    pc: usize,
    started: bool,
    s: Vec<i64>,
    loops: Vec<(i64, i64)>,
    t0: Option<i64>,
    xt: Vec<i64>,
    active_once: bool,
}

#[derive(Default)]
pub struct Stats {
    pub turns: u64,
    pub switches: u64,
    pub suspended: u64,
    pub resumed: u64,
    pub activations: u64,
    pub reactivations: u64,
    pub gets: u64,
    pub waits: u64,
    pub foreign_releases: u64,
    pub delays: u64,
    pub delay_turns: u64,
    pub errors: u64,
    pub invalid: u64,
    pub ticks: u64,
    pub steps_back: u64,
    pub measured: u64,
    pub states: Vec<u64>,
    pub sched: u64,
    pub quiet: bool,
    pub sim_ns: u64,
}

const OP: usize = usize::MAX;
const NOD: usize = usize::MAX - 1;

struct Clock {
    mock: bool,
    ns: i64,
}
impl Clock {
    fn pass(&mut self, us: i64) {
        if self.mock {
            if us > 0 {
                self.ns += us / 1000 * 1_000_000;
            }
        } else {
            self.ns = (self.ns + us * 1000).max(-900_000_000);
        }
    }
    fn now(&self) -> i64 {
        self.ns.max(0)
    }
}

/// In nanoseconds; not always whole microseconds.
fn up(p: &Plan) -> i64 {
    let us = p.up.max(0).min(1 << 52);
    us * 1000 + us % 1000
}

fn model(p: &Plan, b: &Built, st: &mut Stats) -> Vec<E> {
    let mut ev = Vec::new();
    let mut t: Vec<T> = (0..5).map(|_| T::default()).collect();
    t[0].awake = true;
    t[0].started = true;
    t[0].prog = OP;
    t[0].s = vec![1, 0];
    let mut fac = [0usize; NF as usize];
    let mut clock = Clock { mock: p.host == 0, ns: if p.host == 0 { 0 } else { up(p) } };
    let mut cur = 0usize;
    let mut pos = 0;
    let mut xstat: Vec<Option<(i64, i64)>> = vec![None; p.xs.len()];
    let nod = vec![I::Pause, I::Jump(0)];
    let mut h = Fnv::new();
    let (mut quiet, mut steps) = (0, 0u64);
    let start = |t: &mut Vec<T>, n: usize, prog: usize, st: &mut Stats| {
        st.activations += 1;
        if t[n].active_once {
            st.reactivations += 1;
        }
        t[n].awake = true;
        t[n].started = true;
        t[n].active_once = true;
        t[n].prog = prog;
        t[n].pc = 0;
        t[n].loops.clear();
        t[n].t0 = None;
        t[n].xt.clear();
    };
    let valid = |n: i64| (1..=5).contains(&n);
    'main: while ev.len() < p.limit as usize {
        steps += 1;
        if steps > 50_000 {
            st.quiet = true;
            break;
        }
        let code = match t[cur].prog {
            OP => &b.op,
            NOD => &nod,
            i => &b.progs[i],
        };
        let ins = code[t[cur].pc].clone();
        let mut pause = false;
        let mut next = true;
        macro_rules! fail {
            () => {{
                st.errors += 1;
                t[cur].s.clear();
                ev.push(E { task: cur as u8 + 1, k: 9001, v: -1, s: vec![], x: String::new() });
            }};
        }
        match ins {
            I::Note(k, v) => {
                let v = match v {
                    V::Zero => 0,
                    V::Me => cur as i64 + 1,
                    V::Loop => t[cur].loops.last().map(|l| l.0).unwrap_or(0),
                    V::Mtime => clock.now() / 1_000_000,
                    V::Utime => clock.now() / 1000,
                    V::Const(c) => c,
                };
                ev.push(E { task: cur as u8 + 1, k, v, s: t[cur].s.clone(), x: String::new() });
                quiet = 0;
            }
            I::Start(k, base) => {
                t[cur].s = vec![base, base + 1];
                ev.push(E { task: cur as u8 + 1, k, v: 0, s: vec![], x: String::new() });
                quiet = 0;
            }
            I::Pause => pause = true,
            I::Sp => {
                let d = if pos < p.sched.len() { p.sched[pos] } else { 1 };
                pos += 1;
                if d >= 2 {
                    clock.pass((d as i64 - 1) * 1000);
                    st.ticks += 1;
                }
                pause = d >= 1;
            }
            I::Susp(n) => {
                if valid(n) {
                    if t[n as usize - 1].awake {
                        st.suspended += 1;
                    }
                    t[n as usize - 1].awake = false;
                } else {
                    st.invalid += 1;
                    fail!();
                }
            }
            I::Res(n) => {
                if valid(n) {
                    if !t[n as usize - 1].awake {
                        st.resumed += 1;
                    }
                    t[n as usize - 1].awake = true;
                } else {
                    st.invalid += 1;
                    fail!();
                }
            }
            I::Stop => {
                t[cur].awake = false;
                st.suspended += 1;
                pause = true;
            }
            I::Halt(n) | I::Act(_, n) => {
                let prog = if let I::Act(q, _) = ins { q } else { NOD };
                if valid(n) {
                    let n = n as usize - 1;
                    start(&mut t, n, prog, st);
                    if n == cur {
                        next = false;
                    }
                } else {
                    st.invalid += 1;
                    fail!();
                }
            }
            I::Get(f) => {
                if fac[f] == 0 {
                    fac[f] = cur + 1;
                    st.gets += 1;
                } else {
                    st.waits += 1;
                    next = false;
                    pause = true;
                }
            }
            I::Rel(f) => {
                if fac[f] == cur + 1 {
                    fac[f] = 0;
                } else {
                    st.foreign_releases += 1;
                }
            }
            I::Ms(n) => {
                let now = clock.now() / 1_000_000;
                let t0 = *t[cur].t0.get_or_insert(now);
                if now.wrapping_sub(t0) < n {
                    st.delay_turns += 1;
                    next = false;
                    pause = true;
                } else {
                    st.delays += 1;
                    t[cur].t0 = None;
                }
            }
            I::Tick(us) => {
                st.ticks += 1;
                if us < 0 {
                    st.steps_back += 1;
                }
                clock.pass(us);
            }
            I::LoopB(n) => t[cur].loops.push((0, n)),
            I::LoopE(start) => {
                let l = t[cur].loops.last_mut().unwrap();
                l.0 += 1;
                if l.0 < l.1 {
                    t[cur].pc = start;
                    next = false;
                } else {
                    t[cur].loops.pop();
                }
            }
            I::Fail => fail!(),
            I::Push(n) => {
                // DROP of an empty stack would be an underflow.
                if t[cur].s.is_empty() {
                    st.quiet = true;
                    break 'main;
                }
                t[cur].s.pop();
                t[cur].s.push(n);
            }
            I::XtB => {
                let now = clock.now() / 1000;
                t[cur].xt.push(now);
            }
            I::XtE(w) => {
                let t0 = t[cur].xt.pop().unwrap();
                let d = (clock.now() / 1000 - t0).max(0);
                st.measured += 1;
                xstat[w] = Some(match xstat[w] {
                    None => (d, d),
                    Some((a, b)) => (a.min(d), b.max(d)),
                });
            }
            I::DotX(k) => {
                let mut x = String::new();
                for (w, m) in xstat.iter().enumerate() {
                    if let Some((a, b)) = m {
                        x.push_str(&format!("x{} {} {};", w, a, b));
                    }
                }
                ev.push(E { task: cur as u8 + 1, k, v: 0, s: t[cur].s.clone(), x });
            }
            I::ZeroX => xstat.iter_mut().for_each(|x| *x = None),
            I::Jump(n) => {
                t[cur].pc = n;
                next = false;
            }
        }
        if next {
            t[cur].pc += 1;
        }
        if pause {
            st.turns += 1;
            quiet += 1;
            if quiet > 600 {
                st.quiet = true;
                break;
            }
            let mut i = cur;
            let mut n = 0;
            loop {
                i = (i + 1) % 5;
                n += 1;
                if t[i].awake {
                    break;
                }
                if n > 5 {
                    st.quiet = true;
                    break 'main;
                }
            }
            if i != cur {
                st.switches += 1;
            }
            h.u64((cur * 8 + i) as u64 | (t[cur].pc as u64) << 8);
            let mut sh = Fnv::new();
            for x in &t {
                sh.u64(x.awake as u64 | (x.prog as u64) << 1);
                sh.u64(x.pc as u64);
            }
            for f in fac {
                sh.u64(f as u64);
            }
            sh.u64(i as u64);
            if st.states.len() < 4096 {
                st.states.push(sh.0);
            }
            cur = i;
            if !t[cur].started {
                // The program resumed a task that has nothing to do.
                st.quiet = true;
                break;
            }
        }
    }
    st.sched = h.0;
    st.sim_ns = (clock.now() - if p.host == 0 { 0 } else { up(p) }).max(0) as u64;
    ev
}

// ---------------------------------------------------------------- real side

struct Ctl {
    events: Vec<E>,
    limit: usize,
    sched: Vec<u8>,
    pos: usize,
    sps: u64,
}
static mut CTL: Option<Ctl> = None;
fn ctl() -> &'static mut Ctl {
    unsafe { (*(&raw mut CTL)).as_mut().unwrap() }
}

fn log<H: Host>(e: E) {
    let c = ctl();
    let s = sim();
    s.evn(e.task as i64);
    s.evn(e.k);
    s.evn(e.v);
    c.events.push(e);
    if c.events.len() >= c.limit {
        stop("limit", String::new());
    }
}

fn guarded<R>(f: impl FnOnce() -> R) -> R {
    let u = std::mem::replace(&mut sim().in_sut, false);
    let r = f();
    sim().in_sut = u;
    r
}

fn w_note<H: Host>(vm: &mut H) {
    let k = vm.s_stack().pop() as i64;
    let v = vm.s_stack().pop() as i64;
    guarded(|| {
        let task = vm.current_task() as u8 + 1;
        let s = slice(vm.s_stack()).into_iter().map(|x| x as i64).collect();
        log::<H>(E { task, k, v, s, x: String::new() });
    })
}
fn w_start<H: Host>(vm: &mut H) {
    let k = vm.s_stack().pop() as i64;
    sut(|| vm.clear_stacks());
    guarded(|| {
        let v = vm.r_stack().len as i64 | (vm.state().is_compiling as i64) << 8 | ((vm.source_id() != 0) as i64) << 9;
        let task = vm.current_task() as u8 + 1;
        let e = E { task, k, v, s: vec![], x: String::new() };
        // Programs start with two marks on the data stack, by the program's number.
        log::<H>(e);
    })
}
fn pass<H: Host>(vm: &mut H, us: i64) {
    if H::NAME == Mock::NAME {
        if us > 0 {
            vm.pass((us / 1000 * 1_000_000) as u64);
        }
    } else {
        let s = sim();
        s.clock_ns = (s.clock_ns as i64 + us * 1000).max(100_000_000) as u64;
    }
}
fn w_tick<H: Host>(vm: &mut H) {
    let us = vm.s_stack().pop() as i64;
    pass(vm, us);
}
fn w_sp<H: Host>(vm: &mut H) {
    let c = ctl();
    c.sps += 1;
    if c.sps > 200_000 {
        stop("stuck", "no end after 200000 schedule points".into());
    }
    let d = if c.pos < c.sched.len() { c.sched[c.pos] } else { 1 };
    c.pos += 1;
    if d >= 2 {
        pass(vm, (d as i64 - 1) * 1000);
    }
    if d >= 1 {
        vm.pause();
    }
}
fn w_outclr<H: Host>(vm: &mut H) {
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear();
    }
}
fn w_outtake<H: Host>(vm: &mut H) {
    let k = vm.s_stack().pop() as i64;
    guarded(|| {
        let t = vm.output_buffer().clone().unwrap_or_default();
        if let Some(b) = vm.output_buffer().as_mut() {
            b.clear();
        }
        let parts: Vec<&str> = t.split('|').collect();
        let mut l: Vec<String> = Vec::new();
        if !t.is_empty() {
            for c in parts.chunks(2) {
                match c {
                    [n, m] => l.push(format!("{} {};", n.to_lowercase(), m.replace(',', " "))),
                    _ => l.push(format!("?{:?}", c)),
                }
            }
        }
        l.sort();
        let task = vm.current_task() as u8 + 1;
        let s = slice(vm.s_stack()).into_iter().map(|x| x as i64).collect();
        log::<H>(E { task, k, v: 0, s, x: l.concat() });
    })
}

fn real<H: Host>(p: &Plan, b: &Built, limit: usize) -> Vec<E> {
    sim().fs.put("m.txt", b"1 2 3\nabc\n");
    unsafe {
        CTL = Some(Ctl { events: Vec::new(), limit, sched: p.sched.clone(), pos: 0, sps: 0 });
    }
    new_ctx(&[]);
    sim().clock_ns = 1_000_000_000;
    // The time is that of the plan.
    sim().past &= !(7 << 35);
    let mut vm = H::make();
    vm.add_primitive("note", w_note::<H>);
    vm.add_primitive("start", w_start::<H>);
    vm.add_primitive("tick", w_tick::<H>);
    vm.add_primitive("sp", w_sp::<H>);
    vm.add_primitive("outclr", w_outclr::<H>);
    vm.add_primitive("outtake", w_outtake::<H>);
    load(&mut *vm, &b.text);
    if H::NAME != Mock::NAME {
        sim().clock_ns += up(p) as u64;
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        for l in &b.lines {
            if let Some(e) = line(&mut *vm, l) {
                stop("error", format!("line {:?} of the operator ended with error {} at {:?}", l, e, vm.last_token()));
            }
            if vm.current_task() != 0 {
                stop("stopped", format!("the interpreter came back in task {}", vm.current_task() + 1));
            }
        }
        stop("stopped", "the operator's endless loop ended".into());
    }));
    sim().in_sut = false;
    if let Err(x) = r {
        if x.downcast_ref::<Stop>().map(|s| s.0 == "limit") != Some(true) {
            resume_unwind(x);
        }
    }
    sut(|| drop(vm));
    std::mem::take(&mut ctl().events)
}

fn go<H: Host>(p: &Plan, out: &mut Outcome) -> Stats {
    let b = build(p);
    let mut st = Stats::default();
    let want = model(p, &b, &mut st);
    out.sched = st.sched;
    out.states = std::mem::take(&mut st.states);
    out.sim_ns = st.sim_ns;
    if want.is_empty() {
        return st;
    }
    let got = real::<H>(p, &b, want.len());
    for i in 0..want.len() {
        match got.get(i) {
            Some(g) if *g == want[i] => {}
            g => {
                let prev = if i > 0 { format!("{:?}", want[i - 1]) } else { "the start".into() };
                out.fail("history", format!("event #{}: expected {:?}, got {:?} (after {})", i, want[i], g, prev));
                return st;
            }
        }
    }
    out.count("events", want.len() as u64);
    st
}

pub fn run(p: &Plan, out: &mut Outcome) -> Stats {
    let st = crate::with_host!(p.host, go(p, out));
    for (k, v) in [
        ("turns", st.turns),
        ("switches", st.switches),
        ("suspensions", st.suspended),
        ("resumptions", st.resumed),
        ("activations", st.activations),
        ("reactivations", st.reactivations),
        ("gets", st.gets),
        ("get waits", st.waits),
        ("releases by others", st.foreign_releases),
        ("delays ended", st.delays),
        ("delay turns", st.delay_turns),
        ("errors", st.errors),
        ("invalid task numbers", st.invalid),
        ("clock movements", st.ticks),
        ("clock steps back", st.steps_back),
        ("measurements", st.measured),
        ("ended quiet", st.quiet as u64),
    ] {
        out.count(k, v);
    }
    st
}

// ---------------------------------------------------------------- generator

/// Weights of the kinds of actions.
#[derive(Clone, Default)]
pub struct W {
    pub pause: u32,
    pub sp: u32,
    pub susp: u32,
    pub act: u32,
    pub fac: u32,
    pub ms: u32,
    pub time: u32,
    pub tick: u32,
    pub fail: u32,
    pub state: u32,
    pub xt: u32,
    pub nest: u32,
    pub stop: u32,
    pub bad: u64,
    pub back: u64,
    pub op_act: u64,
}

pub struct G {
    pub w: W,
    pub np: u32,
    pub nx: u32,
    pub nt: i64,
}

impl G {
    fn task(&self, r: &mut Rng) -> i64 {
        if r.pct(self.w.bad) {
            *r.pick(BAD)
        } else if r.pct(self.w.op_act) {
            1
        } else {
            2 + r.us(self.nt as usize) as i64
        }
    }
    pub fn list(&self, r: &mut Rng, n: usize, d: u32) -> Vec<A> {
        let mut v = Vec::new();
        for _ in 0..1 + r.us(n) {
            self.act(r, d, &mut v);
        }
        v
    }
    fn act(&self, r: &mut Rng, d: u32, v: &mut Vec<A>) {
        let w = &self.w;
        let ws = [
            8, // note
            w.pause,
            w.sp,
            w.susp,
            w.susp,
            w.stop,
            w.act,
            w.fac,
            w.ms,
            w.time,
            w.tick,
            w.fail,
            w.state,
            if self.nx > 0 { w.xt } else { 0 },
            if d > 0 { w.nest } else { 0 },
            if d > 0 { w.nest } else { 0 },
            if d > 0 { w.nest } else { 0 },
        ];
        let a = match r.weighted(&ws) {
            0 => match r.us(5) {
                0 => A::Me,
                1 | 2 => A::I,
                _ => A::Note,
            },
            1 => A::Pause,
            2 => A::Sp,
            3 => A::Susp(self.task(r)),
            4 => A::Res(self.task(r)),
            5 => A::Stop,
            6 => {
                if r.pct(15) {
                    A::Halt(self.task(r))
                } else {
                    A::Act(r.below(self.np.max(1) as u64) as u32, self.task(r))
                }
            }
            7 => {
                let f = r.us(3) as u32;
                match r.us(10) {
                    0..=5 => {
                        v.push(A::Get(f));
                        let b = self.list(r, 3, d.min(1));
                        v.extend(b);
                        A::Rel(f)
                    }
                    6 | 7 => A::Rel(f),
                    _ => A::Get(f),
                }
            }
            8 => A::Ms(match r.us(10) {
                0 => 0,
                1 => -(r.us(5) as i64),
                2 => *r.pick(&[i64::MIN, i64::MAX, -1000, 40, 100]),
                _ => 1 + r.us(12) as i64,
            }),
            9 => {
                if r.pct(50) {
                    A::Mtime
                } else {
                    A::Utime
                }
            }
            10 => A::Tick(match r.us(8) {
                0 => 1 + r.us(999) as i64,
                1 | 2 => 1000,
                3 => 999,
                4 => 1000 * r.us(20) as i64,
                5 => r.us(30_000) as i64,
                6 => {
                    if r.pct(w.back) {
                        -(r.us(30_000) as i64)
                    } else {
                        1500
                    }
                }
                _ => {
                    if r.pct(w.back) {
                        -1000 * r.us(2_000) as i64
                    } else {
                        500
                    }
                }
            }),
            11 => A::Fail(r.us(FAILS.len()) as u32),
            12 => {
                if r.pct(50) {
                    A::Rbr
                } else {
                    A::Src
                }
            }
            13 => match r.us(6) {
                0 => A::ZeroX,
                1 | 2 => A::DotX,
                _ => A::Xt(r.below(self.nx as u64) as u32),
            },
            14 => A::Loop(1 + r.us(4) as u32, self.list(r, 4, d - 1)),
            15 => A::Call(self.list(r, 4, d - 1)),
            _ => A::R(self.list(r, 4, d - 1)),
        };
        v.push(a);
    }
}

pub fn gen(r: &mut Rng, w: W, thorough: bool) -> Plan {
    let size = if thorough { 4 + r.us(14) } else { 3 + r.us(8) };
    let np = 1 + r.us(5);
    let nx = if w.xt > 0 { 1 + r.us(3) } else { 0 };
    // Swarm: some kinds of actions are left out of some runs.
    let mut w = w;
    for f in [&mut w.pause, &mut w.sp, &mut w.susp, &mut w.act, &mut w.fail, &mut w.state, &mut w.nest, &mut w.stop, &mut w.tick] {
        if r.pct(12) {
            *f = 0;
        } else if r.pct(20) {
            *f *= 3;
        }
    }
    if w.pause + w.sp == 0 {
        w.pause = 6;
    }
    let g = G { w, np: np as u32, nx: nx as u32, nt: 1 + r.us(4) as i64 };
    let mut gx = G { w: g.w.clone(), np: g.np, nx: 0, nt: g.nt };
    gx.w.susp = 0;
    gx.w.act = 0;
    gx.w.stop = 0;
    gx.w.fac = 0;
    gx.w.fail = 0;
    gx.w.tick = gx.w.tick.max(6);
    let xs = (0..nx).map(|_| gx.list(r, 3, 1)).collect();
    let progs: Vec<(u8, Vec<A>)> = (0..np).map(|_| (*r.pick(&[0u8, 0, 1, 2, 3]), g.list(r, size, 3))).collect();
    let mut lines: Vec<(bool, Vec<A>)> = Vec::new();
    if r.pct(70) {
        lines.push((false, (2..=5).map(A::Halt).collect()));
    } else {
        // Every task gets something to do before it may be resumed.
        lines.push((r.pct(50), (2..=5).map(|i| A::Act(r.below(np as u64) as u32, i)).collect()));
    }
    for i in 0..g.nt {
        lines.push((r.pct(50), vec![A::Act(r.below(np as u64) as u32, 2 + i)]));
    }
    for _ in 0..r.us(5) {
        lines.push((r.pct(50), g.list(r, size.min(6), 2)));
    }
    let bias = *r.pick(&[20, 50, 80]);
    let n = r.us(120);
    let sched = (0..n).map(|_| if r.pct(bias) { 1 } else if r.pct(25) { 2 + r.us(6) as u8 } else { 0 }).collect();
    // Near the places where narrow counters of us, ms or ns would wrap.
    const UPS: &[i64] = &[1 << 31, 1 << 32, (1 << 31) * 1000, (1 << 32) * 1000, 1 << 51, (1 << 31) / 1000, (1 << 32) / 1000, (1 << 53) / 1000, 86_400_000_000, 31_557_600_000_000];
    let up = if r.pct(50) { 0 } else { *r.pick(UPS) - r.us(4) as i64 * r.us(3000) as i64 };
    Plan { up, host: r.weighted(&[6, 3, 3]) as u8, xs, progs, lines, sched, limit: 40 + r.us(if thorough { 400 } else { 120 }) as u32 }
}
