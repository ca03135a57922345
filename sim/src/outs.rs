//! Output of the operator, background tasks and the host, with flushes,
//! errors and includes in between and writes that come short or are
//! interrupted, against the exact text (C12).
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut, Fault, Kind, Op as Sys};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum O {
    Emit(i64),
    Type(u32),
    Quote(u32),
    Dot(i64),
    DotR(i64, i64),
    Hex(i64),
    F(i64),
    FR(i64, i64, i64),
    Cr,
    Space,
    Spaces(u32),
    Flush,
    FlushErr,
    Word,
    /// Text the model does not predict; only what is around it is judged.
    Free(u32),
    /// One of FAILS.
    Fail(u32),
    /// Output from the host program.
    Turn(u32),
    // Operator only.
    Paren(u32),
    /// In the middle of a definition.
    ParenIn(u32),
    Redef(u32),
    Inc(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum L {
    Line(Vec<O>),
    /// The host puts text in the buffer.
    Push(u32),
    Flush,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub host: u8,
    /// (task, repetitions, program)
    pub bg: Vec<(u8, u32, Vec<O>)>,
    pub files: Vec<Vec<Vec<O>>>,
    pub lines: Vec<L>,
    pub sched: Vec<u8>,
    pub faults: Vec<Fault>,
    pub chunks_out: Vec<u32>,
    /// The error handler flushes: not, to standard output, to standard error.
    pub hflush: u8,
    /// Afterwards, a run of the console program that ends with output pending.
    #[serde(default)]
    pub end: Option<End>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum End {
    /// The operator alone.
    Solo(Vec<O>),
    /// What the operator and tasks 2.. emit, each from its own characters
    /// (200 or more: flush; odd: pause afterwards), and who says BYE.
    Team(Vec<Vec<u8>>, u8),
}

pub const TEXTS: &[&str] = &["a", "hello", "two words", "é", "漢字 and more", "x😀y", "tab\tin", "ends with space ", "q'u`o", "%d {} \\n", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"];
const FAILS: &[(&str, &str)] = &[
    ("1 0 /", "Division by zero"),
    ("-1 @", "Invalid memory address"),
    ("-1 5 type", "Invalid memory address"),
    ("3 base ! 2 0 .r", "Unsupported operation"),
    ("99 suspend", "Invalid numeric argument"),
    ("abort", "Aborted"),
    ("drop ?stacks", "Stack underflow"),
    ("type", "Stack underflow"),
];
const FREE: &[&str] = &["words", ".memory", "1 2 .s 2drop", "nm 16 dump", ".input", ".backtrace", ".xtime 0xtime"];

enum Op {
    Do(O),
    /// The end of a line of a file.
    Flush,
    Handler,
}

struct World {
    ops: Vec<Op>,
    pending: String,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    /// What the last operation may have added.
    free: bool,
    last: String,
    fail: [Option<&'static str>; 6],
    viol: Option<(String, String)>,
    h: Fnv,
    states: Vec<u64>,
    n: u64,
    hflush: u8,
    flushed: u64,
    switches: u64,
    task: usize,
    fails: u64,
}
static mut WORLD: Option<World> = None;
fn w() -> &'static mut World {
    unsafe { (*(&raw mut WORLD)).as_mut().unwrap() }
}

fn diff(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let part = |b: &[u8]| String::from_utf8_lossy(&b[at.saturating_sub(20)..(at + 40).min(b.len())]).into_owned();
    format!("{} bytes instead of {}; from byte {}: {:?} instead of {:?}", got.len(), want.len(), at.saturating_sub(20), part(got), part(want))
}

/// Is everything as expected now?
fn verify<H: Host>(vm: &mut H) {
    let x = w();
    if x.viol.is_some() {
        return;
    }
    let buf = vm.output_buffer().clone();
    let buf = match buf {
        Some(b) => b,
        None => {
            x.viol = Some(("lost".into(), format!("after {} there is no output buffer", x.last)));
            return;
        }
    };
    if x.free && buf.as_bytes().starts_with(x.pending.as_bytes()) {
        x.pending = buf.clone();
    }
    x.free = false;
    let s = sim();
    if buf != x.pending {
        x.viol = Some(("pending".into(), format!("after {} the pending output is {}", x.last, diff(buf.as_bytes(), x.pending.as_bytes()))));
    } else if s.stdout != x.stdout {
        x.viol = Some(("stdout".into(), format!("after {} standard output is {}", x.last, diff(&s.stdout, &x.stdout))));
    } else if s.stderr != x.stderr {
        x.viol = Some(("stderr".into(), format!("after {} standard error is {}", x.last, diff(&s.stderr, &x.stderr))));
    }
}

fn flush() {
    let x = w();
    if !x.pending.is_empty() {
        x.stdout.extend_from_slice(x.pending.as_bytes());
        x.stdout.push(b'\n');
        x.pending.clear();
        x.flushed += 1;
    }
}

fn to_err() {
    let x = w();
    let p = std::mem::take(&mut x.pending);
    x.stderr.extend_from_slice(p.as_bytes());
    x.stderr.push(b'\n');
}

fn pad(s: String, n: i64) -> String {
    let mut t = String::new();
    for _ in 0..n.saturating_sub(s.len() as i64).max(0) {
        t.push(' ');
    }
    t + &s
}

/// What an operation adds or writes.
fn model(o: &O, x: &mut World) {
    let t = x.task;
    let add = |s: &str| w().pending.push_str(s);
    match o {
        O::Emit(c) => add(&(*c as u8 as char).to_string()),
        O::Type(i) | O::Quote(i) => add(TEXTS[*i as usize % TEXTS.len()]),
        O::Paren(i) | O::ParenIn(i) => add(&format!(" {}", TEXTS[*i as usize % TEXTS.len()])),
        O::Dot(n) => add(&format!("{} ", n)),
        O::DotR(n, w) => add(&pad(n.to_string(), *w)),
        O::Hex(n) => add(&format!("{:X} ", n)),
        O::F(n) => add(&format!("{:.7} ", *n as f64 / 8.0)),
        O::FR(n, w, d) => add(&pad(format!("{:.*}", (*d).clamp(0, 17) as usize, *n as f64 / 8.0), *w)),
        O::Cr => add("\n"),
        O::Space => add(" "),
        O::Spaces(n) => add(&" ".repeat(*n as usize)),
        O::Flush => flush(),
        O::FlushErr => to_err(),
        O::Word => add("dup "),
        O::Free(_) => x.free = true,
        O::Fail(i) => x.fail[t] = Some(FAILS[*i as usize % FAILS.len()].1),
        O::Redef(i) => add(&format!("Redefining d{}", i % 4)),
        O::Turn(_) | O::Inc(_) => {}
    }
}

fn w_out<H: Host>(vm: &mut H) {
    let k = vm.s_stack().pop();
    tracked(|| {
        verify(vm);
        let t = vm.current_task() + 1;
        let x = w();
        if x.viol.is_some() {
            return;
        }
        x.n += 1;
        if x.n > 20_000 {
            stop("stuck", "more than 20000 output operations".into());
        }
        if t != x.task {
            x.switches += 1;
            x.task = t;
        }
        x.h.u64(t as u64 * 1000 + k as u64);
        sim().evn(t as i64 * 100_000 + k as i64);
        let mut sh = Fnv::new();
        sh.u64(t as u64);
        sh.u64(k as u64);
        sh.u64(x.pending.len().min(100) as u64);
        sh.u64(x.fails.min(5));
        x.states.push(sh.0);
        let f = x.fail[t].take();
        let add = |s: &str| w().pending.push_str(s);
        let name;
        let op = match x.ops.get(k as usize) {
            Some(o) => o,
            None => stop("bad-word", format!("operation {}", k)),
        };
        match op {
            Op::Flush => {
                name = "the end of a line of a file".to_string();
                flush();
            }
            Op::Handler => {
                name = "the error handler's output".to_string();
                x.fails += 1;
                match f {
                    Some(d) => {
                        add(&format!("{}. ", d));
                        match x.hflush {
                            1 => flush(),
                            2 => to_err(),
                            _ => {}
                        }
                    }
                    None => stop("error", format!("task {} failed with {:?} after {}", t, vm.last_error(), x.last)),
                }
            }
            Op::Do(o) => {
                name = format!("{:?} of task {}", o, t);
                model(o, w());
            }
        }
        x.last = name;
    })
}

/// Code of an operation inside a definition.
fn code(o: &O) -> String {
    match o {
        O::Emit(c) => format!("{} emit", c),
        O::Type(i) => format!("s\" {}\" type", TEXTS[*i as usize % TEXTS.len()]),
        O::Quote(i) => format!(".\" {}\"", TEXTS[*i as usize % TEXTS.len()]),
        O::Dot(n) => format!("{} .", n),
        O::DotR(n, w) => format!("{} {} .r", n, w),
        O::Hex(n) => format!("{} hex . decimal", n),
        O::F(n) => format!("{}.0e 8.0e f/ f.", n),
        O::FR(n, w, d) => format!("{}.0e 8.0e f/ {} {} f.r", n, w, d),
        O::Cr => "cr".into(),
        O::Space => "space".into(),
        O::Spaces(n) => format!("{} spaces", n),
        O::Flush => "flush-output".into(),
        O::FlushErr => "flush-to-err".into(),
        O::Word => "xdup @ .word".into(),
        O::Free(i) => FREE[*i as usize % FREE.len()].to_string(),
        O::Fail(i) => FAILS[*i as usize % FAILS.len()].0.into(),
        O::Turn(_) | O::Paren(_) | O::ParenIn(_) | O::Redef(_) | O::Inc(_) => String::new(),
    }
}

fn compile_only(o: &O) -> bool {
    match o {
        O::Type(_) | O::Quote(_) => true,
        O::Free(i) => FREE[*i as usize % FREE.len()].starts_with(".input"),
        _ => false,
    }
}

struct Text {
    ops: Vec<Op>,
    /// Definitions needed by the operator's lines.
    pre: String,
    nfiles: usize,
}

impl Text {
    fn add(&mut self, o: Op) -> usize {
        self.ops.push(o);
        self.ops.len() - 1
    }
    fn bg(&mut self, o: &O) -> String {
        match o {
            O::Turn(n) => "sp ".repeat(*n as usize % 4 + 1),
            _ if code(o).is_empty() => String::new(),
            _ => {
                let k = self.add(Op::Do(o.clone()));
                format!("{} out {} sp ", k, code(o))
            }
        }
    }
    fn op(&mut self, o: &O, file: Option<usize>) -> String {
        let text = |i: &u32| TEXTS[*i as usize % TEXTS.len()];
        match o {
            O::Turn(n) => format!("{} turns ", n % 4 + 1),
            O::Inc(f) => {
                let lo = file.map(|f| f + 1).unwrap_or(0);
                if lo < self.nfiles {
                    format!("include f{} ", lo + *f as usize % (self.nfiles - lo))
                } else {
                    String::new()
                }
            }
            _ => {
                let k = self.add(Op::Do(o.clone()));
                match o {
                    O::Paren(i) => format!("{} out .( {}) ", k, text(i)),
                    O::ParenIn(i) => format!(": nn0 [ {} out ] .( {}) ; ", k, text(i)),
                    O::Redef(i) => format!("{} out : d{} ; ", k, i % 4),
                    _ if compile_only(o) => {
                        self.pre.push_str(&format!(": o{} {} ;\n", k, code(o)));
                        format!("{} out o{} ", k, k)
                    }
                    _ => format!("{} out {} ", k, code(o)),
                }
            }
        }
    }
}

fn go<H: Host>(p: &Plan, out: &mut Outcome) {
    new_ctx(&p.sched);
    let mut t = Text { ops: vec![], pre: String::new(), nfiles: p.files.len() };
    let handler = t.add(Op::Handler);
    let mut bgs = String::new();
    let mut seen = [false; 6];
    for (id, n, prog) in &p.bg {
        if !(2..=5).contains(id) || seen[*id as usize] {
            out.invalid = true;
            return;
        }
        seen[*id as usize] = true;
        let body: String = prog.iter().map(|o| t.bg(o)).collect();
        bgs.push_str(&format!(": w{0} {0} activate {1} 0 do {2} loop nod ;\n", id, (*n).max(1), body));
    }
    for (i, f) in p.files.iter().enumerate() {
        let mut s = String::new();
        for l in f {
            for o in l {
                if let O::ParenIn(_) = o {
                    continue;
                }
                s.push_str(&t.op(o, Some(i)));
            }
            let k = t.add(Op::Flush);
            s.push_str(&format!("{} out\n", k));
        }
        sim().fs.put(&format!("f{}", i), s.as_bytes());
    }
    let lines: Vec<Option<String>> = p
        .lines
        .iter()
        .map(|l| match l {
            L::Line(v) => Some(v.iter().map(|o| t.op(o, None)).collect()),
            _ => None,
        })
        .collect();
    unsafe {
        WORLD = Some(World {
            ops: t.ops,
            pending: String::new(),
            stdout: vec![],
            stderr: vec![],
            free: false,
            last: "the start".into(),
            fail: Default::default(),
            viol: None,
            h: Fnv::new(),
            states: vec![],
            n: 0,
            hflush: p.hflush,
            flushed: 0,
            switches: 0,
            task: 1,
            fails: 0,
        });
    }
    let mut vm = H::make();
    add_words(&mut *vm);
    vm.add_primitive("out", w_out::<H>);
    let base = format!(
        "create nm 16 allot nm 16 65 fill variable xdup ' dup xdup !\n: turns 0 ?do pause loop ;\n: onerr {} out .error .\" . \" {} decimal me 1 = if bye else 0error reset nod then ;\n' onerr handler!\n: d0 ; : d1 ; : d2 ; : d3 ;\n",
        handler,
        ["", "flush-output", "flush-to-err"][p.hflush as usize % 3]
    );
    load(&mut *vm, &(base + &t.pre + &bgs));
    w().pending = vm.output_buffer().clone().unwrap_or_default();
    w().stdout = sim().stdout.clone();
    sim().faults = p.faults.clone();
    sim().chunks_out = p.chunks_out.clone();
    for (id, _, _) in &p.bg {
        if let Some(e) = line(&mut *vm, &format!("w{}", id)) {
            stop("error", format!("w{} failed with {}", id, e));
        }
    }
    let mut nn = false;
    for (l, txt) in p.lines.iter().zip(&lines) {
        verify(&mut *vm);
        if w().viol.is_some() {
            break;
        }
        match l {
            L::Line(_) => {
                let txt = txt.as_ref().unwrap();
                // NN0 is new the first time only.
                if txt.contains(": nn0") && nn {
                    out.invalid = true;
                    return;
                }
                nn |= txt.contains(": nn0");
                let had = w().fails;
                pad_floats(&mut *vm);
                if let Some(_) = line(&mut *vm, txt) {
                    if w().fails == had && w().viol.is_none() {
                        stop("error", format!("line {:?} failed with {:?} at {:?}", txt, vm.last_error(), vm.last_token()));
                    }
                    recover(&mut *vm);
                }
                w().fail[1] = None;
            }
            L::Push(i) => {
                let s = TEXTS[*i as usize % TEXTS.len()];
                sut(|| vm.push_output(s));
                let x = w();
                x.pending.push_str(s);
                x.last = "the host's output".into();
            }
            L::Flush => {
                sut(|| vm.flush_output());
                flush();
                w().last = "the host's flush".into();
            }
        }
    }
    verify(&mut *vm);
    sut(|| drop(vm));
    let x = w();
    out.violation = x.viol.take();
    out.states = std::mem::take(&mut x.states);
    out.sched = x.h.0;
    out.count("output operations", x.n);
    out.count("flushes", x.flushed);
    out.count("switches between outputs", x.switches);
    out.count("failing words", x.fails);
    out.count(&format!("host {}", H::NAME), 1);
    out.nontrivial = x.switches >= 3 && x.flushed >= 1;
}

const PER: usize = 18;
/// Run the console program with a command line that ends with BYE; everything
/// printed must have been written.
fn end(e: &End, p: &Plan, out: &mut Outcome) {
    let mut text = String::from("variable zdn ");
    let mut exact = String::new();
    let mut parts: Vec<String> = vec![];
    match e {
        End::Solo(ops) => {
            unsafe {
                WORLD = Some(World { ops: vec![], pending: String::new(), stdout: vec![], stderr: vec![], free: false, last: String::new(), fail: Default::default(), viol: None, h: Fnv::new(), states: vec![], n: 0, hflush: 0, flushed: 0, switches: 0, task: 1, fails: 0 });
            }
            let mut t = Text { ops: vec![], pre: String::new(), nfiles: 0 };
            let mut say = String::new();
            for o in ops {
                match o {
                    O::Free(_) | O::Fail(_) | O::Turn(_) | O::ParenIn(_) | O::Redef(_) | O::Inc(_) | O::FlushErr | O::Word => continue,
                    O::Paren(_) => {
                        let c = t.op(o, None);
                        say.push_str(c.split_once("out ").unwrap().1);
                    }
                    _ => say.push_str(&if compile_only(o) {
                        t.pre.push_str(&format!(": z{} {} ; ", t.ops.len(), code(o)));
                        format!("z{} ", t.ops.len())
                    } else {
                        format!("{} ", code(o))
                    }),
                }
                if compile_only(o) {
                    t.add(Op::Flush);
                }
                let x = w();
                model(o, w());
            }
            text.push_str(&t.pre);
            text.push_str(&say);
            text.push_str("bye");
            flush();
            exact = String::from_utf8(std::mem::take(&mut w().stdout)).unwrap();
        }
        End::Team(progs, by) => {
            if progs.len() < 2 || progs.len() > 5 || progs.iter().any(|p| p.len() > 60) {
                out.invalid = true;
                return;
            }
            let k = progs.len();
            for (i, pr) in progs.iter().enumerate().rev() {
                let mut said = String::new();
                text.push_str(&format!(": zw{} {} ", i, if i > 0 { format!("{} activate", i + 1) } else { String::new() }));
                for c in pr {
                    if *c >= 200 {
                        text.push_str("flush-output ");
                    } else {
                        let ch = 33 + i * PER + *c as usize % PER;
                        said.push(ch as u8 as char);
                        text.push_str(&format!("{} emit ", ch));
                    }
                    if c % 2 == 1 {
                        text.push_str("pause ");
                    }
                }
                text.push_str("1 zdn +! ");
                if *by as usize % k == i {
                    text.push_str(&format!("begin zdn @ {} < while pause repeat bye ", k));
                } else if i == 0 {
                    text.push_str("begin pause again ");
                }
                text.push_str(if i > 0 { "nod ; " } else { "; " });
                parts.push(said);
            }
            parts.reverse();
            for i in (0..k).rev() {
                text.push_str(&format!("zw{} ", i));
            }
        }
    }
    crate::term::reset();
    // What dropping the virtual machine left in the standard library's buffer.
    sut(|| {
        use std::io::Write;
        let _ = std::io::stdout().flush();
    });
    let s = sim();
    s.faults = p.faults.clone();
    s.chunks_out = p.chunks_out.clone();
    s.stdout.clear();
    let args = vec!["rtf".to_string(), text];
    crate::session::with_args(&args, || sut(rtfhost::sim_main));
    sut(|| {
        use std::io::Write;
        let _ = std::io::stdout().flush();
    });
    let got = std::mem::take(&mut sim().stdout);
    sim().ev(&format!("end {}", got.len()));
    if crate::term::state().reads > 0 {
        out.fail("end", format!("the console program reads the terminal after BYE in {:?}", args[1]));
        return;
    }
    let got = got.strip_suffix(b"\r").unwrap_or(&got);
    if let End::Solo(_) = e {
        if got != exact.as_bytes() {
            out.fail("end", format!("{:?} prints {}", args[1], diff(got, exact.as_bytes())));
        }
    } else {
        for (i, want) in parts.iter().enumerate() {
            let lo = 33 + i * PER;
            let t: Vec<u8> = got.iter().copied().filter(|c| (*c as usize) >= lo && (*c as usize) < lo + PER).collect();
            if t != want.as_bytes() {
                out.fail("end", format!("of what task {} prints in {:?}, {} (whole output {:?})", i + 1, args[1], diff(&t, want.as_bytes()), String::from_utf8_lossy(got)));
                return;
            }
        }
        let all: usize = parts.iter().map(|p| p.len()).sum();
        if got.iter().filter(|c| !b"\r\n".contains(c)).count() != all {
            out.fail("end", format!("{:?} prints {:?}", args[1], String::from_utf8_lossy(got)));
        }
    }
    out.count("ends of the console program with output pending", 1);
}

fn wide(r: &mut Rng) -> i64 {
    match r.us(30) {
        0 => -r.int().saturating_abs(),
        1 => i64::MIN,
        2 => r.range(30, 3000),
        _ => r.range(-5, 30),
    }
}
fn gen_o(r: &mut Rng, op: bool) -> O {
    let t = |r: &mut Rng| r.us(TEXTS.len()) as u32;
    match r.weighted(&[6, 6, 6, 6, 4, 3, 3, 2, 4, 3, 2, 8, 2, 2, 3, 3, 8, if op { 4 } else { 0 }, if op { 3 } else { 0 }, if op { 6 } else { 0 }]) {
        0 => O::Emit(match r.us(6) {
            0 => r.range(128, 256),
            1 => r.range(0, 32),
            2 => r.range(256, 1000),
            _ => r.range(33, 127),
        }),
        1 => O::Type(t(r)),
        2 => O::Quote(t(r)),
        3 => O::Dot(r.int()),
        4 => O::DotR(r.int(), wide(r)),
        5 => O::Hex(r.int()),
        6 => O::F(r.range(-5000, 5000)),
        7 => O::FR(r.range(-5000, 5000), wide(r), r.range(0, 20)),
        8 => O::Cr,
        9 => O::Space,
        10 => O::Spaces(if r.pct(15) { r.us(3000) as u32 } else { r.us(9) as u32 }),
        11 => O::Flush,
        12 => O::FlushErr,
        13 => O::Word,
        14 => O::Free(r.us(FREE.len()) as u32),
        15 => O::Fail(r.us(FAILS.len()) as u32),
        16 => O::Turn(r.us(4) as u32),
        17 => O::Paren(t(r)),
        18 => O::Redef(r.us(4) as u32),
        _ => O::Inc(r.us(4) as u32),
    }
}

pub struct C12;
impl Check for C12 {
    type Plan = Plan;
    const ID: &'static str = "C12";
    const QUICK: u64 = 300_000;
    const THOROUGH: u64 = 6_000_000;
    const RULE: &'static str = "up to four background tasks, the operator (typed lines and include files) and the host output numbers, characters, strings and flushes, fail and are interleaved by a generated schedule, while writes come short or are interrupted; pending text, standard output and standard error are compared with the exact text before every output operation; non-trivial with at least three changes of task between outputs and one flush; distinct by the sequence of (task, operation)";
    const REAL: &'static [&'static str] = &["src/output.rs", "src/tools.rs", "src/core.rs", "core.fth", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)", "std::io stdout and stderr"];
    const STUB: &'static [&'static str] = &["descriptors 1 and 2", "disk", "clock"];
    const STATE_MEASURE: &'static str = "hash of (task, operation, bytes pending, failures so far) at each output operation";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let mut ids = vec![2u8, 3, 4, 5];
        r.shuffle(&mut ids);
        ids.truncate(r.us(5));
        let bg = ids.iter().map(|&i| (i, 1 + r.us(3) as u32, (0..1 + r.us(8)).map(|_| gen_o(r, false)).collect())).collect();
        let nf = r.us(4);
        let files = (0..nf).map(|_| (0..r.us(5)).map(|_| (0..r.us(5)).map(|_| gen_o(r, true)).collect()).collect()).collect();
        let mut nn = false;
        let lines = (0..if th { 2 + r.us(30) } else { 2 + r.us(10) })
            .map(|_| match r.us(10) {
                0 => L::Push(r.us(TEXTS.len()) as u32),
                1 => L::Flush,
                _ => L::Line({
                    let mut v: Vec<O> = (0..1 + r.us(6)).map(|_| gen_o(r, true)).collect();
                    if !nn && r.pct(5) {
                        nn = true;
                        v.push(O::ParenIn(r.us(TEXTS.len()) as u32));
                    }
                    v
                }),
            })
            .collect();
        let sched = (0..r.us(80)).map(|_| r.weighted(&[3, 4, 1]) as u8).collect();
        let faults = (0..r.us(5)).map(|_| Fault { op: Sys::Out, nth: r.us(12) as u32, kind: *r.pick(&[Kind::Eintr, Kind::Eintr, Kind::Short(1), Kind::Short(7)]) }).collect();
        let chunks_out = if r.pct(60) { vec![] } else { (0..1 + r.us(4)).map(|_| *r.pick(&[0u32, 1, 2, 3, 5, 17, 100, 1000])).collect() };
        let end = match r.us(10) {
            0 => Some(End::Solo((0..r.us(9)).map(|_| gen_o(r, true)).collect())),
            1 => {
                let k = 2 + r.us(3);
                Some(End::Team((0..k).map(|_| (0..r.us(9)).map(|_| if r.pct(12) { 200 + r.us(2) as u8 } else { r.us(36) as u8 }).collect()).collect(), r.us(k) as u8))
            }
            _ => None,
        };
        Plan { host: r.weighted(&[5, 3, 2]) as u8, bg, files, lines, sched, faults, chunks_out, hflush: r.us(3) as u8, end }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        crate::with_host!(p.host, go(p, out));
        if let (Some(e), false, None) = (&p.end, out.invalid, &out.violation) {
            end(e, p, out);
        }
    }
}
