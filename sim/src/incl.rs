//! Nested includes against a model of what the files say, with failures and
//! read faults, and later includes after them.
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut, Fault, Kind, Op as Sys};
use rtforth::memory::Memory;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum T {
    Note,
    Push(i64),
    Drop,
    /// include f
    Inc(u32),
    Inc2(u32, u32),
    /// From a word that includes by name, in a word that parses the name, in a loop.
    IncDef(u32),
    IncParse(u32),
    IncLoop(u32),
    /// While compiling.
    IncComp(u32),
    Def,
    MultiDef,
    /// Include between the lines of two definitions of the same name.
    Redef(u32),
    Comment,
    SkipRest,
    Empty,
    Long(u32),
    Turn,
    Missing,
    Err(u32),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Round {
    pub text: Vec<T>,
    pub faults: Vec<Fault>,
    pub chunks: Vec<u32>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub host: u8,
    pub bg: bool,
    pub files: Vec<(Vec<T>, u8)>,
    pub rounds: Vec<Round>,
}

const ERRS: &[&str] = &["xyzzy", "abort", "drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop drop", "-1 @", ": e{} xyzzy ;", ": e{} if ;", "99 suspend", "1 if", "' xyzzy", "r> drop r> drop", "postpone"];
const LIMIT: usize = 16;

/// (text, model instruction)
#[derive(Clone, Debug)]
enum M {
    Note(i64),
    Push(i64),
    Drop,
    /// File, and return-stack cells the includer uses on its own.
    Inc(usize, usize),
    Fail,
    /// The rest of the file is skipped.
    Skip,
}

struct B {
    k: i64,
    nf: usize,
}
impl B {
    fn key(&mut self) -> i64 {
        self.k += 1;
        self.k
    }
    fn line(&mut self, t: &T, top: bool) -> (String, Vec<M>) {
        let nf = self.nf;
        let f = |i: &u32| *i as usize % nf;
        let k = self.key();
        match t {
            T::Note => (format!("{} note", k), vec![M::Note(k)]),
            T::Push(n) => (format!("{}", n), vec![M::Push(*n)]),
            T::Drop => ("?drop".into(), vec![M::Drop]),
            T::Inc(i) => (format!("{} note include f{} {} note", k, f(i), k + 100_000), vec![M::Note(k), M::Inc(f(i), 0), M::Note(k + 100_000)]),
            T::Inc2(a, b) => (format!("include f{} include  f{} {} note", f(a), f(b), k), vec![M::Inc(f(a), 0), M::Inc(f(b), 0), M::Note(k)]),
            T::IncDef(i) => (format!(": i{0} s\" f{1}\" included {0} note ; i{0} {2} note", k, f(i), k + 100_000), vec![M::Inc(f(i), 1), M::Note(k), M::Note(k + 100_000)]),
            T::IncParse(i) => (format!(": p{0} {0} note include {2} note ; p{0} f{1} {0} note", k, f(i), k + 100_000), vec![M::Note(k), M::Inc(f(i), 1), M::Note(k + 100_000), M::Note(k)]),
            T::IncComp(i) => (
                format!(": c{0} ] s\" f{1}\" included {0} note ; c{0} {2} note", k, f(i), k + 100_000),
                vec![M::Inc(f(i), 1), M::Note(k), M::Note(k + 100_000)],
            ),
            T::IncLoop(i) => (
                format!(": l{0} 2 0 do s\" f{1}\" included i {0} + note loop ; l{0}", k, f(i)),
                vec![M::Inc(f(i), 4), M::Note(k), M::Inc(f(i), 4), M::Note(k + 1)],
            ),
            T::Def => (format!(": d{0} {0} note ; d{0}", k), vec![M::Note(k)]),
            T::MultiDef if top => (format!(": d{0} {0} note ; d{0}", k), vec![M::Note(k)]),
            T::MultiDef => (format!(": d{0}\n  {0} note\n;\nd{0}", k), vec![M::Note(k)]),
            T::Redef(i) => (
                format!(": q{0} {0} note ; include f{1} : q{0} q{0} {2} note ; q{0}", k, f(i), k + 100_000),
                vec![M::Inc(f(i), 0), M::Note(k), M::Note(k + 100_000)],
            ),
            T::Comment => (format!("( abc ) {} note \\ {} note", k, k), vec![M::Note(k)]),
            T::SkipRest if top => (format!("{} note", k), vec![M::Note(k)]),
            T::SkipRest => (format!("{} note \\\\", k), vec![M::Note(k), M::Skip]),
            T::Empty => (String::new(), vec![]),
            T::Long(n) => (format!("{}{} note{}", " ".repeat(*n as usize % 200_000), k, " ".repeat(*n as usize % 70)), vec![M::Note(k)]),
            T::Turn => (format!("turn {} note turn", k), vec![M::Note(k)]),
            T::Missing => (format!("{} note include nofile {} note", k, k + 100_000), vec![M::Note(k), M::Fail]),
            T::Err(i) => (format!("{} note {} {} note", k, ERRS[*i as usize % ERRS.len()].replace("{}", &k.to_string()), k + 100_000), vec![M::Note(k), M::Fail]),
        }
    }
}

struct Model<'a> {
    files: &'a [Vec<M>],
    stack: Vec<i64>,
    ev: Vec<(i64, Vec<i64>)>,
    includes: u64,
    max_depth: usize,
    /// Return-stack cells needed at most, reckoned generously.
    max_cells: usize,
    too_long: bool,
}
impl<'a> Model<'a> {
    /// False: an error ended it.
    fn run(&mut self, code: &[M], depth: usize, cells: usize) -> bool {
        for m in code {
            match m {
                M::Note(k) => {
                    self.ev.push((*k, self.stack.clone()));
                    if self.ev.len() > 1500 {
                        self.too_long = true;
                        return false;
                    }
                }
                M::Push(n) => {
                    if self.stack.len() > 20 {
                        self.too_long = true;
                        return false;
                    }
                    self.stack.push(*n)
                }
                M::Drop => {
                    self.stack.pop();
                }
                M::Inc(f, x) => {
                    self.includes += 1;
                    if depth >= LIMIT {
                        return false;
                    }
                    self.max_depth = self.max_depth.max(depth + 1);
                    self.max_cells = self.max_cells.max(cells + 6 + x);
                    if !self.run(&self.files[*f], depth + 1, cells + 6 + x) {
                        return false;
                    }
                }
                M::Fail => return false,
                M::Skip => return true,
            }
        }
        true
    }
}

static mut EV: Vec<(i64, Vec<i64>)> = Vec::new();
fn ev() -> &'static mut Vec<(i64, Vec<i64>)> {
    unsafe { &mut *(&raw mut EV) }
}
fn w_note<H: Host>(vm: &mut H) {
    let u = std::mem::replace(&mut sim().in_sut, false);
    let k = vm.s_stack().pop() as i64;
    let s = data(vm);
    sim().evn(k);
    ev().push((k, s));
    if ev().len() > 5_000 {
        stop("stuck", "more than 5000 notes".into());
    }
    sim().in_sut = u;
}
fn w_qdrop<H: Host>(vm: &mut H) {
    if vm.s_stack().len > 0 {
        vm.s_stack().pop();
    }
}

fn go<H: Host>(p: &Plan, out: &mut Outcome) {
    if p.files.is_empty() {
        out.invalid = true;
        return;
    }
    new_ctx(&[]);
    ev().clear();
    let mut b = B { k: 0, nf: p.files.len() };
    let mut codes: Vec<Vec<M>> = Vec::new();
    for (i, (f, style)) in p.files.iter().enumerate() {
        let mut text = String::new();
        let mut code = Vec::new();
        for t in f {
            let (s, m) = b.line(t, false);
            text.push_str(&s);
            text.push('\n');
            code.extend(m);
        }
        if style & 1 != 0 {
            text.pop();
        }
        if style & 2 != 0 {
            text = text.replace('\n', "\r\n");
        }
        sim().fs.put(&format!("f{}", i), text.as_bytes());
        codes.push(code);
    }
    let mut vm = H::make();
    vm.add_primitive("note", w_note::<H>);
    vm.add_primitive("?drop", w_qdrop::<H>);
    load(&mut *vm, ": turn pause ;\nvariable cnt 0 cnt !\n: onerr bye ;\n' onerr handler!");
    let mut base_open = 0;
    if p.bg {
        sim().fs.put("g", b"1\n2\n3\n4\n5\n6\n7\n8\n9\n");
        load(&mut *vm, "variable gs\n: b2 2 activate begin 1 cnt +! pause again ; b2\n: b3 3 activate s\" g\" r/o open-file drop >r s\" g\" r> open-source gs ! gs @ load-line 2drop begin pause again ; b3\nturn turn turn");
        base_open = 1;
    }
    let mut h = Fnv::new();
    let mut failed_before = 0;
    let mut nested = 0;
    let mut total = 0;
    for (rn, r) in p.rounds.iter().enumerate() {
        let mut text = String::from("555 ");
        let mut code = vec![M::Push(555)];
        for t in &r.text {
            // A comment would hide the rest of the line.
            if *t == T::Comment {
                continue;
            }
            let (s, m) = b.line(t, true);
            text.push_str(&s);
            text.push(' ');
            code.extend(m);
        }
        let mut m = Model { files: &codes, stack: vec![], ev: vec![], includes: 0, max_depth: 0, max_cells: 0, too_long: false };
        let ok = m.run(&code, 0, 0);
        if m.too_long {
            continue;
        }
        total += m.includes;
        nested = nested.max(m.max_depth);
        ev().clear();
        let s = sim();
        s.op_count = Default::default();
        s.faults = r.faults.clone();
        s.chunks_read = r.chunks.clone();
        let hard0 = s.hard;
        pad_floats(&mut *vm);
        let err = line(&mut *vm, &text);
        let s = sim();
        s.faults.clear();
        s.chunks_read.clear();
        let hard = s.hard > hard0;
        let got = std::mem::take(ev());
        let fb = failed_before;
        let desc = |d: String| format!("round {} after {} failed ones: {:?}: {}", rn, fb, text.split_whitespace().collect::<Vec<_>>().join(" "), d);
        // A program may need more return stack than there is.
        // So may the definitions of many files need more data space.
        let room = vm.data_space().limit().saturating_sub(vm.data_space().here());
        let full = err == Some(-5) && m.max_cells > 58 || err == Some(-8) && room < 2048;
        if hard || full {
            if err.is_none() && !ok {
                return out.fail("error-hidden", desc("no error although a file contains one".into()));
            }
            if err.is_none() {
                return out.fail("fault-hidden", desc("a failure of the operating system was not reported".into()));
            }
            if got.len() > m.ev.len() || got[..] != m.ev[..got.len()] {
                return out.fail("order", desc(format!("notes {:?}, expected a part of {:?}", show(&got), show(&m.ev))));
            }
        } else {
            if got != m.ev {
                let n = got.iter().zip(m.ev.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(m.ev.len()));
                return out.fail("order", desc(format!("note {} is {:?} instead of {:?} (error {:?})", n, got.get(n), m.ev.get(n), err)));
            }
            if ok != err.is_none() {
                return out.fail(if ok { "false-error" } else { "error-hidden" }, desc(format!("error {:?}", err)));
            }
        }
        if err.is_none() {
            let st = data(&mut *vm);
            let open = sim().fs.open.len();
            if st != m.stack {
                return out.fail("stack", desc(format!("stack {:?} instead of {:?}", st, m.stack)));
            }
            if vm.source_id() != 0 || vm.r_stack().len != 0 {
                return out.fail("source", desc(format!("source-id {}, return stack depth {}", vm.source_id(), vm.r_stack().len)));
            }
            if m.includes > 0 && open != base_open {
                return out.fail("open-files", desc(format!("{} files are open instead of {}", open, base_open)));
            }
            sut(|| vm.clear_stacks());
        } else {
            failed_before += 1;
            recover(&mut *vm);
            let open = sim().fs.open.len();
            if open > base_open + LIMIT + 2 {
                return out.fail("open-files", desc(format!("{} files are open", open)));
            }
        }
        if vm.current_task() != 0 {
            return out.fail("operator-lost", desc(format!("task {} is current", vm.current_task() + 1)));
        }
        h.u64(got.len() as u64);
        h.u64(err.is_some() as u64 | (hard as u64) << 1 | (m.max_depth as u64) << 2);
        let mut sh = Fnv::new();
        sh.u64(err.unwrap_or(0) as u64);
        sh.u64(m.max_depth as u64 | (got.len() as u64) << 8 | (failed_before as u64) << 32);
        out.states.push(sh.0);
        sim().evn(err.unwrap_or(0));
    }
    sut(|| drop(vm));
    if !sim().fs.open.is_empty() {
        return out.fail("open-files", "files are still open after the VM was dropped".into());
    }
    out.sched = h.0;
    out.count("includes", total);
    out.count("failed_rounds", failed_before as u64);
    out.count("rounds", p.rounds.len() as u64);
    out.count(&format!("host {}", H::NAME), 1);
    if nested >= 8 {
        out.count("nested_8_or_deeper", 1);
    }
    out.nontrivial = total >= 2 && (nested >= 2 || failed_before > 0);
}
fn show(v: &[(i64, Vec<i64>)]) -> String {
    v.iter().map(|(k, s)| format!("{}{:?}", k, s)).collect::<Vec<_>>().join(" ")
}

pub struct C11;
impl Check for C11 {
    type Plan = Plan;
    const ID: &'static str = "C11";
    const QUICK: u64 = 300_000;
    const THOROUGH: u64 = 8_000_000;
    const RULE: &'static str = "several rounds of text at the terminal that include a generated tree of files (nested up to and beyond the limit, in loops, from words, with definitions over several lines, errors, missing files, fragmented, failing reads and opens), with background tasks running in between; the notes made, the stack, the source and the open files after each round are predicted from the files; non-trivial with two includes and nesting or an earlier failure; distinct by results, depths and faults per round";
    const REAL: &'static [&'static str] = &["core.fth (include, source stack)", "src/loader.rs", "src/file_access.rs", "src/core.rs", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)"];
    const STUB: &'static [&'static str] = &["disk and descriptors", "clock", "terminal device"];
    const STATE_MEASURE: &'static str = "hash of the result of a round, its depth, its number of notes and the number of failures before it";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let chain = r.pct(25);
        let nf = if chain { 10 + r.us(9) } else { 1 + r.us(6) };
        let err_pct = *r.pick(&[0, 3, 8]);
        let any_cycle = r.pct(10);
        let mut files = Vec::new();
        for i in 0..nf {
            let mut v = Vec::new();
            let n = if chain { r.us(3) } else { r.us(if th { 9 } else { 6 }) };
            for _ in 0..n {
                v.push(item(r, err_pct, if any_cycle { None } else if chain { Some((nf, nf)) } else { Some((i + 1, nf)) }));
            }
            if chain && i + 1 < nf {
                let at = r.us(v.len() + 1);
                let t = (i + 1) as u32;
                v.insert(at, match r.us(4) {
                    0 => T::IncDef(t),
                    1 => T::IncParse(t),
                    _ => T::Inc(t),
                });
            }
            files.push((v, r.us(4) as u8));
        }
        let mut rounds = Vec::new();
        for _ in 0..1 + r.us(if th { 8 } else { 4 }) {
            let mut text = Vec::new();
            let mut reps = 1;
            if r.pct(5) {
                // Many failures in a row.
                reps = 17 + r.us(4);
                text.push(if r.pct(50) { T::Missing } else { T::Err(r.us(ERRS.len()) as u32) });
            } else {
                for _ in 0..1 + r.us(3) {
                    text.push(if r.pct(70) {
                        T::Inc(if chain { r.us(4) as u32 } else { r.us(nf) as u32 })
                    } else {
                        item(r, 10, Some((0, nf)))
                    });
                }
            }
            let mut faults = Vec::new();
            if r.pct(35) {
                for _ in 0..1 + r.us(2) {
                    faults.push(match r.us(5) {
                        0 => Fault { op: Sys::Open, nth: r.us(10) as u32, kind: *r.pick(&[Kind::Eio, Kind::Emfile, Kind::Eintr, Kind::Eacces]) },
                        1 => Fault { op: Sys::Read, nth: r.us(20) as u32, kind: *r.pick(&[Kind::Eintr, Kind::Short(1)]) },
                        _ => Fault { op: Sys::Read, nth: r.us(24) as u32, kind: Kind::Eio },
                    });
                }
            }
            let chunks = if r.pct(50) { vec![] } else { (0..1 + r.us(3)).map(|_| *r.pick(&[0u32, 2, 3, 7, 20, 100])).collect() };
            for _ in 0..reps {
                rounds.push(Round { text: text.clone(), faults: faults.clone(), chunks: chunks.clone() });
            }
        }
        Plan { host: r.weighted(&[6, 3, 1]) as u8, bg: r.pct(40), files, rounds }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        crate::with_host!(p.host, go(p, out))
    }
}

/// `inc`: files that may be included are lo..hi (none if empty); any if None.
fn item(r: &mut Rng, err_pct: u64, inc: Option<(usize, usize)>) -> T {
    if r.pct(err_pct) {
        return if r.pct(30) { T::Missing } else { T::Err(r.us(ERRS.len()) as u32) };
    }
    let (lo, hi) = inc.unwrap_or((0, 6));
    if lo < hi && r.pct(40) {
        let f = |r: &mut Rng| (lo + r.us(hi - lo)) as u32;
        let a = f(r);
        return match r.us(10) {
            9 => T::IncComp(a),
            0 => T::IncDef(a),
            1 => T::IncParse(a),
            2 => T::IncLoop(a),
            3 => T::Inc2(a, f(r)),
            4 => T::Redef(a),
            _ => T::Inc(a),
        };
    }
    match r.us(14) {
        0 => T::Push(r.range(-99, 99)),
        1 => T::Drop,
        2 => T::Def,
        3 => T::MultiDef,
        4 => T::Comment,
        5 if r.pct(50) => T::SkipRest,
        6 => T::Empty,
        7 => T::Long(if r.pct(2) { r.us(180_000) } else { r.us(9000) } as u32),
        8 | 9 => T::Turn,
        _ => T::Note,
    }
}
