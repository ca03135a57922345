//! Hosts (the three virtual machines of the repository) and the harness
//! words they are given: schedule points, probes and clock control.
use crate::rng::Fnv;
use crate::sim::{sim, sut};
use rtforth::core::Core;
use rtforth::file_access::FileAccess;
use rtforth::loader::HasLoader;
use rtforth::output::Output;
use rtforth::tools::Tools;

pub type Mock = rtforth::mock_vm::VM;
pub type ExVm = rtfhost::exvm::VM;
pub type Rtf = rtfhost::VM;

pub trait Host: Core + HasLoader + Output + FileAccess + Tools + Sized {
    const NAME: &'static str;
    /// Create the virtual machine (code under test).
    fn make() -> Box<Self>;
    /// Let time pass on the clock this host reads.
    fn pass(&mut self, ns: u64);
}

impl Host for Mock {
    const NAME: &'static str = "src/mock_vm.rs";
    fn make() -> Box<Mock> {
        used(sut(|| Box::new(Mock::new())))
    }
    fn pass(&mut self, ns: u64) {
        sim().clock_ns = sim().clock_ns.wrapping_add(ns);
        for _ in 0..ns / 1_000_000 {
            self.advance();
        }
    }
}
impl Host for ExVm {
    const NAME: &'static str = "examples/vm.rs";
    fn make() -> Box<ExVm> {
        used(sut(|| Box::new(ExVm::new(16))))
    }
    fn pass(&mut self, ns: u64) {
        sim().clock_ns = sim().clock_ns.wrapping_add(ns);
    }
}
impl Host for Rtf {
    const NAME: &'static str = "rtf/src/main.rs";
    fn make() -> Box<Rtf> {
        crate::term::ensure();
        used(sut(|| Box::new(Rtf::new(1024))))
    }
    fn pass(&mut self, ns: u64) {
        sim().clock_ns = sim().clock_ns.wrapping_add(ns);
    }
}

/// A machine that has been used before: its buffers, dictionary, labels,
/// files, sources and stacks have a history, which must not matter.
fn used<H: Host>(mut vm: Box<H>) -> Box<H> {
    let a = sim().past;
    if a == 0 {
        return vm;
    }
    let s = sim();
    let kept = s.set_aside();
    let mut t = String::new();
    if a & 1 != 0 {
        t.push_str("-12345678 . 2.5e 9 3 f.r\n");
    }
    if a & 2 != 0 {
        t.push_str("1 2 3 4 5 6 7 8 2drop 2drop 2drop 2drop 1e 2e 3e 4e fdrop fdrop fdrop fdrop\n");
    }
    if a & 4 != 0 {
        t.push_str(": zqp 3 0 do i >r 1 if begin 1 until then r> drop loop ; zqp\n");
    }
    if a & 8 != 0 {
        t.push_str(": zql 0labels [ 1 ] goto 5 drop [ 1 ] label [ 900 ] label ; zql\n");
    }
    if a & 16 != 0 {
        t.push_str("99 suspend\n");
    }
    if a & 32 != 0 {
        t.push_str(": zqf if do 5 xyzzy\n: zqg dup\n then\n");
    }
    if a & 64 != 0 {
        t.push_str("marker zqm : zqn 5 ; zqn drop 100 allot zqm\n");
    }
    if a & 128 != 0 {
        s.fs.put("/sim/zq", b"7 drop\nabc");
        t.push_str(": zqo s\" /sim/zq\" 0 open-file drop ; : zqs s\" zq\" rot open-source ;\nzqo zqo zqo close-file drop zqo zqs zqo zqs\n");
        t.push_str("dup load-line 2drop dup load-line 2drop dup load-line 2drop close-source close-source close-file drop close-file drop\n");
    }
    for i in 0..(a >> 8 & 7) {
        t.push_str(&format!(": zq{} {} drop ;\n", i, i));
    }
    let cells = a >> 11 & 7;
    if cells > 0 {
        t.push_str(&format!("{} cells allot\n", cells));
    }
    if a >> 14 & 1 != 0 {
        t.push_str("1 c, 2 c,\n");
    }
    for l in t.lines() {
        let e = line(&mut *vm, l);
        if std::env::var_os("RTSIM_VERBOSE").is_some() {
            eprintln!("{:?}: {:?} {:?} {:?}", l, e, data(&mut *vm), floats(&mut *vm));
        }
        if e.is_some() {
            recover(&mut *vm);
        }
    }
    recover(&mut *vm);
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear();
    }
    if !sim().fs.open.is_empty() {
        stop("open-files", "files opened and closed again are still open".into());
    }
    sim().put_back(kept);
    // Some time ago.
    let k = a >> 35 & 7;
    vm.pass(k * k * 1_357_913 + k);
    vm
}

/// Thrown (as a panic payload) to end a run from inside code under test.
pub struct Stop(pub &'static str, pub String);

pub fn stop(class: &'static str, msg: String) -> ! {
    std::panic::panic_any(Stop(class, msg))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    /// Task number as the program sees it, 1..5.
    pub task: u8,
    pub k: i64,
    pub s: Vec<i64>,
    pub r: Vec<i64>,
    pub f: Vec<u64>,
    pub c: u8,
    pub clock: u64,
    pub turn: u64,
}

impl Ev {
    /// Everything but time.
    pub fn same(&self, o: &Ev) -> bool {
        self.task == o.task && self.k == o.k && self.s == o.s && self.r == o.r && self.f == o.f && self.c == o.c
    }
    pub fn show(&self) -> String {
        format!(
            "task {} probe {} S:{:?} R:{:?} F:{:?} C:{}",
            self.task,
            self.k,
            self.s,
            self.r,
            self.f.iter().map(|&x| f64::from_bits(x)).collect::<Vec<_>>(),
            self.c
        )
    }
}

#[derive(Default)]
pub struct Ctx {
    /// Decisions taken at schedule points: 0 go on, 1 pause, n pause and let
    /// n-1 ms pass. When used up: pause.
    pub sched: Vec<u8>,
    pub pos: usize,
    /// Schedule points do nothing (the task runs on its own).
    pub solo: bool,
    pub events: Vec<Ev>,
    pub sps: u64,
    pub budget: u64,
    pub switches: u64,
    pub sched_hash: Option<Fnv>,
    pub states: Vec<u64>,
    /// Last probe seen per task, for the state measure.
    pub at: [i64; 6],
    pub done: [bool; 6],
    pub turn: u64,
    pub record: bool,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}
pub fn new_ctx(sched: &[u8]) -> &'static mut Ctx {
    unsafe {
        if !CTX.is_null() {
            drop(Box::from_raw(CTX));
        }
        let mut c = Ctx::default();
        c.sched = sched.to_vec();
        c.budget = 200_000;
        c.sched_hash = Some(Fnv::new());
        c.record = true;
        CTX = Box::into_raw(Box::new(c));
        &mut *CTX
    }
}

impl Ctx {
    pub fn sched_h(&self) -> u64 {
        self.sched_hash.map(|f| f.0).unwrap_or(0)
    }
}

pub fn slice<T: Copy + Default>(st: &rtforth::core::Stack<T>) -> Vec<T> {
    (0..st.len as usize).map(|i| st.inner[i]).collect()
}

pub fn snap<E: Core>(vm: &mut E, k: i64) -> Ev {
    let task = vm.current_task() as u8 + 1;
    let s = slice(vm.s_stack()).into_iter().map(|x| x as i64).collect();
    let r = slice(vm.r_stack()).into_iter().map(|x| x as i64).collect();
    let f = slice(vm.f_stack()).into_iter().map(|x| x.to_bits()).collect();
    let c = vm.c_stack().len;
    let clock = vm.system_time_ns();
    Ev { task, k, s, r, f, c, clock, turn: ctx().turn }
}

pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    // Harness work inside code under test is not the code's doing.
    let s = sim();
    let (a, u) = (s.armed, s.in_sut);
    s.in_sut = false;
    if a {
        crate::sim::arm(false);
    }
    let r = f();
    let s = sim();
    s.in_sut = u;
    if a {
        crate::sim::arm(true);
    }
    r
}

/// ( -- ) schedule point
pub fn p_sp<E: Host>(vm: &mut E) {
    let c = ctx();
    if c.solo {
        return;
    }
    c.sps += 1;
    if c.sps > c.budget {
        stop("stuck", format!("no end after {} schedule points", c.sps));
    }
    let d = if c.pos < c.sched.len() { c.sched[c.pos] } else { 1 };
    c.pos += 1;
    if d >= 2 {
        vm.pass((d as u64 - 1) * 1_000_000);
    }
    if d >= 1 {
        let from = vm.current_task();
        vm.pause();
        let to = vm.current_task();
        c.turn += 1;
        tracked(|| {
            if from != to {
                c.switches += 1;
            }
            if let Some(h) = c.sched_hash.as_mut() {
                h.u64((from * 8 + to) as u64 | (c.at[from + 1] as u64) << 8);
            }
            if c.states.len() < 4096 {
                let mut h = Fnv::new();
                for x in c.at.iter() {
                    h.i64(*x);
                }
                h.u64(to as u64);
                c.states.push(h.0);
            }
            sim().evn((from * 8 + to) as i64);
        });
    }
}

/// ( k -- ) record the stacks of the running task
pub fn p_probe<E: Host>(vm: &mut E) {
    let k = vm.s_stack().pop() as i64;
    if !ctx().record {
        return;
    }
    tracked(|| {
        let e = snap(vm, k);
        let c = ctx();
        c.at[e.task as usize] = c.at[e.task as usize].wrapping_mul(31).wrapping_add(k);
        let s = sim();
        s.evn(e.task as i64);
        s.evn(k);
        for x in e.s.iter().chain(e.r.iter()) {
            s.evn(*x);
        }
        for x in e.f.iter() {
            s.evn(*x as i64);
        }
        c.events.push(e);
        if c.events.len() > 100_000 {
            stop("stuck", "more than 100000 probe events".into());
        }
    })
}

/// ( -- ) the running task has done its work
pub fn p_done<E: Host>(vm: &mut E) {
    let t = vm.current_task() + 1;
    ctx().done[t] = true;
}

pub fn add_words<E: Host>(vm: &mut E) {
    vm.add_primitive("sp", p_sp::<E>);
    vm.add_primitive("probe", p_probe::<E>);
    vm.add_primitive("done", p_done::<E>);
}

/// Interpret one line of source as the host does; the error left behind.
pub fn line<E: Host>(vm: &mut E, s: &str) -> Option<i64> {
    sut(|| {
        vm.set_source(s);
        vm.evaluate_input();
    });
    vm.last_error().map(|e| {
        let n: isize = e.into();
        n as i64
    })
}

/// What a host does after an error.
pub fn recover<E: Host>(vm: &mut E) {
    sut(|| {
        vm.clear_stacks();
        vm.reset();
    });
}

/// Load program text that must be accepted.
pub fn load<E: Host>(vm: &mut E, text: &str) {
    // On stacks that are not empty, if the plan wants it so.
    let (n, nf) = ((sim().past >> 15 & 7) as usize * 2, (sim().past >> 18 & 3) as usize);
    let (s0, f0) = (vm.s_stack().len as usize, vm.f_stack().len as usize);
    for i in 0..n {
        vm.s_stack().push(7000 + i as isize);
    }
    for i in 0..nf {
        vm.f_stack().push(70.5 + i as f64);
    }
    load_lines(vm, text);
    let (s, f) = (slice(vm.s_stack()), slice(vm.f_stack()));
    if n > 0 && s.len() >= s0 + n && (0..n).all(|i| s[s0 + i] == 7000 + i as isize) {
        for _ in s0..s.len() {
            vm.s_stack().pop();
        }
        for x in &s[s0 + n..] {
            vm.s_stack().push(*x);
        }
    }
    if nf > 0 && f.len() >= f0 + nf && (0..nf).all(|i| f[f0 + i] == 70.5 + i as f64) {
        for _ in f0..f.len() {
            vm.f_stack().pop();
        }
        for x in &f[f0 + nf..] {
            vm.f_stack().push(*x);
        }
    }
}
/// Numbers below those a word works on, if the plan wants it so. The stack
/// holds a mark, which stays on top of them. `k` varies their number.
pub fn pad_stack<E: Host>(vm: &mut E, k: usize) {
    let a = sim().past;
    if a >> 20 & 1 == 0 || vm.s_stack().len != 1 {
        return;
    }
    let n = ((a >> 21 & 63) as usize * 7 + k * 5) % 41;
    let m = vm.s_stack().pop();
    for i in 0..n {
        vm.s_stack().push(PAD + i as isize);
    }
    vm.s_stack().push(m);
}
const PAD: isize = 910_000;
/// The data stack without them.
pub fn unpadded<E: Host>(vm: &mut E) -> Vec<i64> {
    let v = data(vm);
    let n = v.iter().enumerate().take_while(|(i, x)| **x == PAD as i64 + *i as i64).count();
    v[n..].to_vec()
}
/// Output that waits already.
pub fn pad_output<E: Host>(vm: &mut E, k: usize) {
    let a = sim().past;
    if let Some(o) = vm.output_buffer().as_mut() {
        o.clear();
        if a >> 27 & 1 != 0 {
            o.extend((0..((a >> 28 & 15) as usize * 17 + k * 11) % 90).map(|i| (b'A' + (i % 26) as u8) as char));
            o.push('|');
        }
    }
}
/// The output without it.
pub fn out_unpadded<E: Host>(vm: &mut E, k: usize) -> String {
    let a = sim().past;
    let o = vm.output_buffer().clone().unwrap_or_default();
    if a >> 27 & 1 == 0 {
        return o;
    }
    let n = ((a >> 28 & 15) as usize * 17 + k * 11) % 90;
    let ok = o.len() > n && o.bytes().take(n).enumerate().all(|(i, c)| c == b'A' + (i % 26) as u8) && o.as_bytes()[n] == b'|';
    if ok {
        o[n + 1..].to_string()
    } else {
        format!("(output that was waiting is lost: {:?})", o)
    }
}
/// Words that fill and empty the return stack of a task.
pub fn pad_return() -> (String, String) {
    let n = (sim().past >> 32 & 7) as usize * 3;
    (format!("{} ", (0..n).map(|i| format!("{} >r ", 50 + i)).collect::<String>()), "r> drop ".repeat(n))
}
/// Floats that are there already, if the plan wants it so.
pub fn pad_floats<E: Host>(vm: &mut E) {
    let n = (sim().past >> 18 & 3) as usize;
    while (vm.f_stack().len as usize) < n {
        vm.f_stack().push(70.5);
    }
}
fn load_lines<E: Host>(vm: &mut E, text: &str) {
    for l in text.lines() {
        if let Some(e) = line(vm, l) {
            let tok = vm.last_token().clone().unwrap_or_default();
            stop("load", format!("line {:?} was rejected with error {} at {:?}", l, e, tok));
        }
    }
}

pub fn data<E: Host>(vm: &mut E) -> Vec<i64> {
    slice(vm.s_stack()).into_iter().map(|x| x as i64).collect()
}
pub fn floats<E: Host>(vm: &mut E) -> Vec<f64> {
    slice(vm.f_stack())
}
