//! Whole console sessions: rtf/src/main.rs with rtf/rtf.fth, typed over the
//! simulated terminal, against a model of the answers (C18).
use crate::console::{event, initial, Key};
use crate::frame::{Check, Outcome};
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut, Fault, Kind, Op as Sys};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Bg {
    /// A number at every turn.
    Print(i64),
    /// A number at n turns.
    Count(u32, i64),
    /// n turns, then a failing word.
    Fail(u32, u32),
    /// n turns, then a number and FLUSH-OUTPUT.
    Flush(u32, i64),
    /// n turns, then STOP; a number when it is resumed.
    Stop(u32, i64),
    /// n turns, then BYE.
    Bye(u32),
    /// Defines nothing, waits.
    Nod,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum It {
    Num(i64),
    Add,
    Drop,
    Dup,
    Dot,
    Str(u32),
    /// Define a word printing these numbers.
    Def(u32, Vec<i64>),
    /// Begin a definition.
    Open(u32),
    /// `n .`, interpreted or compiled.
    Body(i64),
    Close,
    Call(u32),
    Set(i64),
    Get,
    /// One of ERRS, interpreting.
    Err(u32),
    /// One of CERRS, compiling.
    CErr(u32),
    /// `error . depth . operator .`
    State,
    Turns(u32),
    Bg(u32, Bg),
    Suspend(u32),
    Resume(u32),
    Halt(u32),
    Inc(u32),
    Missing,
    Flush,
    Bye,
    Comment(u32),
    /// An immediate word that does nothing, executed while compiling too.
    Imm,
    /// A number base, valid or not.
    Base(i64),
    Decimal,
}

/// (text, token shown, description; empty: nothing is shown)
pub const ERRS: &[(&str, &str, &str)] = &[
    ("xyzzy", "xyzzy", "Undefined word"),
    ("1 0 /", "/", "Division by zero"),
    ("-1 @", "@", "Invalid memory address"),
    ("0stacks drop", "drop", "Stack underflow"),
    ("then", "then", "Interpreting a compile only word"),
    ("abort", "", ""),
    ("99 suspend", "suspend", "Invalid numeric argument"),
    ("' xyzzy", "xyzzy", "Undefined word"),
    (";", ";", "Interpreting a compile only word"),
    ("0stacks fdrop", "fdrop", "Floating point stack underflow"),
    ("12q", "12q", "Undefined word"),
    ("-1 execute", "execute", "Unsupported operation"),
    (": zz xyzzy", "xyzzy", "Undefined word"),
    (": zz if ;", ";", "Control structure mismatch"),
    (": zz 1 0 / ; zz", "zz", "Division by zero"),
    (": zz abort ; zz", "", ""),
    ("ovf", "ovf", "Stack overflow"),
    (": zz 5 0 do i 0 / loop ; zz", "zz", "Division by zero"),
    ("] xyzzy", "xyzzy", "Undefined word"),
    ("7 0 mod", "mod", "Division by zero"),
    ("漢字", "漢字", "Undefined word"),
    (": zz [ 0stacks ] literal ;", "literal", "Stack underflow"),
    (": zz [ 0stacks ] fliteral ;", "fliteral", "Floating point stack underflow"),
    ("$fffffffffff allot", "allot", "Dictionary overflow"),
];
pub const CERRS: &[(&str, &str, &str)] =
    &[("xyzzy", "xyzzy", "Undefined word"), ("then", "then", "Control structure mismatch"), ("[ 1 0 / ]", "/", "Division by zero"), ("if ;", ";", "Control structure mismatch"), ("[ abort ]", "", ""), ("do repeat", "repeat", "Control structure mismatch"), ("[ 0stacks ] literal", "literal", "Stack underflow"), ("[ 0stacks ] fliteral", "fliteral", "Floating point stack underflow"), ("[ 0stacks ] 2literal", "2literal", "Stack underflow"), ("[ $fffffffffff allot ]", "allot", "Dictionary overflow")];
const BGERRS: &[(&str, &str)] = &[("1 0 /", "Division by zero"), ("-1 @", "Invalid memory address"), ("drop ?stacks", "Stack underflow"), ("99 suspend", "Invalid numeric argument"), ("abort", ""), ("7 0 mod", "Division by zero")];

#[derive(Clone, Debug, PartialEq)]
enum Part {
    Lit(String),
    /// Text of one line that is not judged.
    Any,
}

#[derive(Clone, Default)]
struct Task {
    prog: Option<Bg>,
    step: u32,
    suspended: bool,
}

pub struct Invalid;

/// What the console does.
#[derive(Clone, Default)]
struct Model {
    stack: Vec<i64>,
    v: i64,
    words: BTreeMap<u32, Vec<String>>,
    open: Option<(u32, Vec<String>)>,
    bgdef: [bool; 6],
    zz: bool,
    tasks: [Task; 6],
    pending: Vec<Part>,
    out: Vec<Part>,
    ended: bool,
    files: Vec<Vec<Vec<It>>>,
    depth: u32,
    /// File and line being interpreted, in every include.
    at: Vec<(usize, usize)>,
    errors: u32,
    bgerrors: u32,
    cost: u32,
    /// 0: decimal.
    base: i64,
}

enum Flow {
    On,
    /// An error ended the line (and all includes).
    Failed,
    Ended,
    /// The rest of the line is a comment.
    Skip,
}

impl Model {
    fn text(&mut self, s: &str) {
        if let Some(Part::Lit(l)) = self.pending.last_mut() {
            l.push_str(s)
        } else {
            self.pending.push(Part::Lit(s.into()))
        }
    }
    fn flush(&mut self) {
        if !self.pending.is_empty() {
            self.text("\n");
            self.out.append(&mut self.pending);
        }
    }
    fn error(&mut self, token: Option<&str>, descr: &str) {
        self.error_in(token, descr, false)
    }
    fn error_in(&mut self, token: Option<&str>, descr: &str, background: bool) {
        self.stack.clear();
        self.open = None;
        self.errors += 1;
        if !descr.is_empty() {
            match token {
                Some(t) => self.text(t),
                None => self.pending.push(Part::Any),
            }
            self.text(&format!(" {}", descr));
            self.pending.push(Part::Any);
            // Where the line came from.
            if let (Some((f, l)), false) = (self.at.last().cloned(), background) {
                let t = self.files[f][l].iter().map(it_text).collect::<Vec<_>>().join(" ");
                self.text(&format!(" (f{}:{}: {})", f, l + 1, t));
                self.pending.push(Part::Any);
            }
            self.text("\r");
        }
        self.flush();
    }
    fn round(&mut self) -> Flow {
        for t in 2..=5 {
            if self.tasks[t].suspended {
                continue;
            }
            let step = self.tasks[t].step;
            self.tasks[t].step += 1;
            match self.tasks[t].prog.clone() {
                None | Some(Bg::Nod) => {}
                Some(Bg::Print(v)) => self.text(&format!("{} ", v)),
                Some(Bg::Count(n, v)) => {
                    if step < n {
                        self.text(&format!("{} ", v))
                    }
                }
                Some(Bg::Fail(n, k)) => {
                    if step == n {
                        let d = BGERRS[k as usize % BGERRS.len()].1;
                        let (s, o, e) = (self.stack.clone(), self.open.clone(), self.errors);
                        self.error_in(None, d, true);
                        self.stack = s;
                        self.open = o;
                        self.errors = e;
                        self.bgerrors += 1;
                    }
                }
                Some(Bg::Flush(n, v)) => {
                    if step == n {
                        self.text(&format!("{} ", v));
                        self.flush();
                    }
                }
                Some(Bg::Stop(n, v)) => {
                    if step == n {
                        self.tasks[t].suspended = true;
                    } else if step == n + 1 {
                        self.text(&format!("{} ", v));
                    }
                }
                Some(Bg::Bye(n)) => {
                    if step == n {
                        self.ended = true;
                        return Flow::Ended;
                    }
                }
            }
        }
        Flow::On
    }
    fn apply(&mut self, it: &It) -> Result<Flow, Invalid> {
        self.cost += 1;
        if self.cost > 3000 {
            return Err(Invalid);
        }
        let bg = |t: &u32| 2 + (*t as usize) % 4;
        if self.open.is_some() {
            // Compiling.
            match it {
                It::Body(n) => self.open.as_mut().unwrap().1.push(format!("{} ", n)),
                It::Str(k) => self.text(&format!(" s{} ", k)),
                It::Imm => self.text("!"),
                It::Close => {
                    let (k, w) = self.open.take().unwrap();
                    self.words.insert(k, w);
                }
                It::Call(k) => match self.words.get(k).cloned() {
                    Some(w) => {
                        self.open.as_mut().unwrap().1.extend(w);
                        if self.open.as_ref().unwrap().1.len() > 200 {
                            return Err(Invalid);
                        }
                    }
                    None => {
                        self.error(Some(&format!("w{}", k)), "Undefined word");
                        return Ok(Flow::Failed);
                    }
                },
                It::CErr(k) => {
                    let e = CERRS[*k as usize % CERRS.len()];
                    self.error(Some(e.1), e.2);
                    return Ok(Flow::Failed);
                }
                It::Comment(_) => return Ok(Flow::Skip),
                _ => return Err(Invalid),
            }
            return Ok(Flow::On);
        }
        // Numbers are not what they seem.
        if self.base != 0 {
            match it {
                It::Err(k) if !ERRS[*k as usize % ERRS.len()].0.contains(|c: char| c.is_ascii_digit()) => {}
                It::Decimal | It::Inc(_) | It::Missing | It::Flush | It::Comment(_) | It::Str(_) | It::Imm | It::Drop | It::Dup | It::Add | It::Bye => {}
                _ => return Err(Invalid),
            }
        }
        match it {
            It::Base(n) => self.base = *n + (*n == 0) as i64 * 77,
            It::Decimal => self.base = 0,
            It::Num(n) => {
                if self.stack.len() >= 30 {
                    return Err(Invalid);
                }
                self.stack.push(*n)
            }
            It::Add => {
                if self.stack.len() < 2 {
                    return Err(Invalid);
                }
                let b = self.stack.pop().unwrap();
                let a = self.stack.pop().unwrap();
                self.stack.push(a.wrapping_add(b));
            }
            It::Drop => {
                if self.stack.pop().is_none() {
                    self.error(Some("drop"), "Stack underflow");
                    return Ok(Flow::Failed);
                }
            }
            It::Dup => {
                let t = *self.stack.last().ok_or(Invalid)?;
                if self.stack.len() >= 30 {
                    return Err(Invalid);
                }
                self.stack.push(t);
            }
            It::Dot => {
                let t = self.stack.pop().ok_or(Invalid)?;
                self.text(&format!("{} ", t));
            }
            It::Str(k) => self.text(&format!(" s{} ", k)),
            It::Imm => self.text("!"),
            It::Def(k, v) => {
                if self.words.contains_key(k) {
                    self.text(&format!("Redefining w{}", k));
                }
                self.words.insert(*k, v.iter().map(|n| format!("{} ", n)).collect());
            }
            It::Open(k) => {
                if self.words.contains_key(k) {
                    self.text(&format!("Redefining w{}", k));
                }
                self.open = Some((*k, vec![]));
            }
            It::Body(n) => self.text(&format!("{} ", n)),
            It::Close => {
                self.error(Some(";"), "Interpreting a compile only word");
                return Ok(Flow::Failed);
            }
            It::Call(k) => match self.words.get(k).cloned() {
                Some(w) => {
                    for s in w {
                        self.text(&s)
                    }
                }
                None => {
                    self.error(Some(&format!("w{}", k)), "Undefined word");
                    return Ok(Flow::Failed);
                }
            },
            It::Set(n) => self.v = *n,
            It::CErr(_) => return Err(Invalid),
            It::State => {
                let d = self.stack.len();
                self.text(&format!("0 {} 1 ", d));
            }
            It::Get => {
                let v = self.v;
                self.text(&format!("{} ", v))
            }
            It::Err(k) => {
                let e = ERRS[*k as usize % ERRS.len()];
                // A word that was completed before it failed.
                if e.0.starts_with(": zz") {
                    if self.zz {
                        self.text("Redefining zz");
                    }
                    if e.0.ends_with("zz") {
                        self.zz = true;
                    }
                }
                self.error(Some(e.1), e.2);
                return Ok(Flow::Failed);
            }
            It::Turns(n) => {
                for _ in 0..*n {
                    self.cost += 3;
                    if let Flow::Ended = self.round() {
                        return Ok(Flow::Ended);
                    }
                }
            }
            It::Bg(t, b) => {
                let t = bg(t);
                if self.bgdef[t] {
                    self.text(&format!("Redefining bg{}", t));
                }
                self.bgdef[t] = true;
                self.tasks[t] = Task { prog: Some(b.clone()), step: 0, suspended: false };
            }
            It::Suspend(t) => self.tasks[bg(t)].suspended = true,
            It::Resume(t) => self.tasks[bg(t)].suspended = false,
            It::Halt(t) => self.tasks[bg(t)] = Task::default(),
            It::Inc(f) => {
                if self.files.is_empty() || self.depth > 4 {
                    return Err(Invalid);
                }
                let f = *f as usize % self.files.len();
                self.depth += 1;
                let lines = self.files[f].clone();
                for (i, l) in lines.iter().enumerate() {
                    self.at.truncate(self.depth as usize - 1);
                    self.at.push((f, i));
                    for it in l {
                        // A file includes later files only.
                        if let It::Inc(g) = it {
                            if *g as usize % self.files.len() <= f {
                                return Err(Invalid);
                            }
                        }
                        match self.apply(it)? {
                            Flow::On => {}
                            Flow::Skip => break,
                            Flow::Failed => {
                                self.depth -= 1;
                                return Ok(Flow::Failed);
                            }
                            Flow::Ended => return Ok(Flow::Ended),
                        }
                    }
                    self.flush();
                }
                self.depth -= 1;
                self.at.truncate(self.depth as usize);
                if self.open.is_some() {
                    return Err(Invalid);
                }
            }
            It::Missing => {
                self.error(None, "");
                return Ok(Flow::Failed);
            }
            It::Flush => self.flush(),
            It::Bye => {
                self.ended = true;
                return Ok(Flow::Ended);
            }
            It::Comment(_) => return Ok(Flow::Skip),
        }
        Ok(Flow::On)
    }
    /// One entered line.
    fn line(&mut self, l: &[It]) -> Result<Vec<Part>, Invalid> {
        self.text(" ");
        for it in l {
            match self.apply(it)? {
                Flow::On => {}
                Flow::Skip => break,
                Flow::Failed => {
                    self.depth = 0;
                    self.at.clear();
                    return Ok(std::mem::take(&mut self.out));
                }
                Flow::Ended => {
                    self.flush();
                    return Ok(std::mem::take(&mut self.out));
                }
            }
        }
        if self.open.is_none() {
            self.text(" ok");
        }
        self.text("\r");
        self.flush();
        Ok(std::mem::take(&mut self.out))
    }
}

fn it_text(it: &It) -> String {
    let bg = |t: &u32| 2 + (*t as usize) % 4;
    match it {
        It::Num(n) => n.to_string(),
        It::Add => "+".into(),
        It::Drop => "drop".into(),
        It::Dup => "dup".into(),
        It::Dot => ".".into(),
        It::Str(k) => format!(".( s{} )", k),
        It::Def(k, v) => format!(": w{} {} ;", k, v.iter().map(|n| format!("{} . ", n)).collect::<String>()),
        It::Open(k) => format!(": w{}", k),
        It::Body(n) => format!("{} .", n),
        It::Close => ";".into(),
        It::Call(k) => format!("w{}", k),
        It::Set(n) => format!("{} v !", n),
        It::Get => "v @ .".into(),
        It::Err(k) => ERRS[*k as usize % ERRS.len()].0.into(),
        It::CErr(k) => CERRS[*k as usize % CERRS.len()].0.into(),
        It::State => "error . depth . operator .".into(),
        It::Turns(n) => format!("{} turns", n),
        It::Bg(t, b) => {
            let p = match b {
                Bg::Print(v) => format!("begin {} . pause again", v),
                Bg::Count(n, v) => format!("{} 0 ?do {} . pause loop nod", n, v),
                Bg::Fail(n, k) => format!("{} 0 ?do pause loop {} 77 . nod", n, BGERRS[*k as usize % BGERRS.len()].0),
                Bg::Flush(n, v) => format!("{} 0 ?do pause loop {} . flush-output nod", n, v),
                Bg::Stop(n, v) => format!("{} 0 ?do pause loop stop {} . nod", n, v),
                Bg::Bye(n) => format!("{} 0 ?do pause loop bye", n),
                Bg::Nod => "nod".into(),
            };
            format!(": bg{0} {0} activate {1} ; bg{0}", bg(t), p)
        }
        It::Suspend(t) => format!("{} suspend", bg(t)),
        It::Resume(t) => format!("{} resume", bg(t)),
        It::Halt(t) => format!("{} halt", bg(t)),
        It::Inc(f) => format!("include f{}", f),
        It::Missing => "include nofile".into(),
        It::Flush => "flush-output".into(),
        It::Bye => "bye".into(),
        It::Comment(k) => format!("\\ {} xyzzy", k),
        It::Imm => "imm".into(),
        It::Base(n) => format!("{} base !", n),
        It::Decimal => "decimal".into(),
    }
}

fn show(p: &[Part]) -> String {
    p.iter()
        .map(|p| match p {
            Part::Lit(s) => format!("{:?}", s),
            Part::Any => "<any>".into(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Does the text match? Any stands for text without a line end.
fn matches(p: &[Part], s: &str) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(Part::Lit(l)) => s.strip_prefix(l.as_str()).map(|r| matches(&p[1..], r)).unwrap_or(false),
        Some(Part::Any) => {
            let lim = s.find('\n').unwrap_or(s.len());
            (0..=lim).filter(|&i| s.is_char_boundary(i)).any(|i| matches(&p[1..], &s[i..]))
        }
    }
}

/// Output after what the line editor drew.
fn undrawn(s: &str) -> &str {
    let b = s.as_bytes();
    let mut end = 0;
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == 0x1b && b[i + 1] == b'[' {
            let mut j = i + 2;
            while j < b.len() && !b[j].is_ascii_alphabetic() {
                j += 1;
            }
            end = (j + 1).min(b.len());
            i = j;
        }
        i += 1;
    }
    &s[end..]
}

static mut MARKS: Vec<usize> = Vec::new();
fn on_read() {
    unsafe { (*(&raw mut MARKS)).push(sim().stdout.len()) }
}

// The command line of this process as the standard library sees it.
static mut ARGV: *mut *const libc::c_char = std::ptr::null_mut();
static mut ARGC: i32 = 0;
extern "C" fn grab(argc: i32, argv: *mut *const libc::c_char) {
    unsafe {
        ARGV = argv;
        ARGC = argc;
    }
}
#[used]
#[link_section = ".init_array"]
static GRAB: extern "C" fn(i32, *mut *const libc::c_char) = grab;

/// Run f with this command line (at most as long as the real one).
pub fn with_args<R>(args: &[String], f: impl FnOnce() -> R) -> R {
    unsafe {
        let n = ARGC as usize;
        let keep: Vec<*const libc::c_char> = (0..n).map(|i| *ARGV.add(i)).collect();
        let own: Vec<std::ffi::CString> = args.iter().map(|a| std::ffi::CString::new(a.as_bytes()).unwrap()).collect();
        for i in 0..n {
            *ARGV.add(i) = own.get(i).map(|c| c.as_ptr()).unwrap_or(std::ptr::null());
        }
        struct Back(Vec<*const libc::c_char>);
        impl Drop for Back {
            fn drop(&mut self) {
                for (i, p) in self.0.iter().enumerate() {
                    unsafe { *ARGV.add(i) = *p };
                }
            }
        }
        let _b = Back(keep);
        f()
    }
}
pub fn args_room() -> usize {
    unsafe { ARGC as usize }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    /// Words on the command line.
    pub args: Vec<It>,
    pub files: Vec<Vec<Vec<It>>>,
    pub lines: Vec<Vec<It>>,
    pub faults: Vec<Fault>,
    pub chunks_out: Vec<u32>,
    pub chunks_read: Vec<u32>,
    pub history: bool,
    /// Spaces typed and removed again while a line is entered.
    pub slips: u32,
}

const BASE: &[&str] = &[": turns 0 ?do pause loop ;", "variable v", ": ovf 70 0 do i loop ;", ": imm 33 emit ; immediate"];

fn gen_it(r: &mut Rng, m: &Model, file: Option<usize>, nf: usize) -> It {
    let k = r.us(5) as u32;
    if m.open.is_some() {
        return match r.us(12) {
            0..=3 => It::Body(r.range(-50, 50)),
            4 => It::Str(k),
            5 | 6 => It::Call(k),
            7 => It::CErr(r.us(CERRS.len()) as u32),
            8 => It::Imm,
            9 if r.pct(20) => It::Comment(k),
            _ => It::Close,
        };
    }
    if m.base != 0 {
        return match r.us(9) {
            0..=2 => It::Err(r.us(ERRS.len()) as u32),
            3 if nf > 0 => It::Inc(r.us(nf) as u32),
            4 => r.pick(&[It::Missing, It::Flush, It::Imm, It::Drop, It::Add, It::Str(1)]).clone(),
            5 | 6 => It::Err(0),
            _ => It::Decimal,
        };
    }
    match r.weighted(&[10, 3, 2, 3, 8, 3, 6, 3, 3, 1, 8, 3, 3, 8, 10, 8, 2, 2, 1, 5, 1, 2, 1, 1, 1, 3, 2]) {
        0 => It::Num(r.range(-1000, 1000)),
        1 => It::Add,
        2 => It::Drop,
        3 => It::Dup,
        4 => It::Dot,
        5 => It::Str(k),
        6 => It::Def(k, (0..r.us(4)).map(|_| r.range(-99, 99)).collect()),
        7 => It::Open(k),
        8 => It::Body(r.range(-50, 50)),
        9 => It::Close,
        10 => It::Call(k),
        11 => It::Set(r.range(-500, 500)),
        12 => It::Get,
        13 => It::Err(r.us(ERRS.len()) as u32),
        14 => It::Turns(1 + r.us(4) as u32),
        15 => It::Bg(
            r.us(4) as u32,
            match r.us(13) {
                0 | 1 => Bg::Print(r.range(1000, 9999)),
                2..=4 => Bg::Count(r.us(5) as u32, r.range(1000, 9999)),
                5..=8 => Bg::Fail(r.us(5) as u32, r.us(BGERRS.len()) as u32),
                9 => Bg::Flush(r.us(4) as u32, r.range(1000, 9999)),
                10 => Bg::Stop(r.us(3) as u32, r.range(1000, 9999)),
                11 => Bg::Nod,
                _ => {
                    if r.pct(30) {
                        Bg::Bye(r.us(6) as u32)
                    } else {
                        Bg::Nod
                    }
                }
            },
        ),
        16 => It::Suspend(r.us(4) as u32),
        17 => It::Resume(r.us(4) as u32),
        18 => It::Halt(r.us(4) as u32),
        19 => {
            let lo = file.map(|f| f + 1).unwrap_or(0);
            if lo < nf {
                It::Inc((lo + r.us(nf - lo)) as u32)
            } else {
                It::Num(5)
            }
        }
        20 => It::Missing,
        21 => It::Flush,
        22 => {
            if file.is_none() && r.pct(15) {
                It::Bye
            } else {
                It::Get
            }
        }
        23 => It::Comment(k),
        24 => It::Imm,
        26 => It::Base(*r.pick(&[5i64, 0, 1, -1, 2, 3, 8, 16, 12, 10000])),
        _ => It::State,
    }
}

fn k_of(r: &mut Rng) -> u32 {
    r.us(5) as u32
}

pub struct C18;
impl Check for C18 {
    type Plan = Plan;
    const ID: &'static str = "C18";
    const QUICK: u64 = 300_000;
    const THOROUGH: u64 = 1_500_000;
    const RULE: &'static str = "at least one error in the console or a background task that is followed by answered lines";
    const REAL: &'static [&'static str] = &["rtf/src/main.rs (main, repl, receive)", "rtf/rtf.fth", "rtf/src/term.rs", "core.fth", "src/*.rs", "std::io::stdout"];
    const STUB: &'static [&'static str] = &["crossterm event source, cursor query and raw mode", "file system below the system calls", "command line of the process"];
    const STATE_MEASURE: &'static str = "(definition open, stack depth, programs of the background tasks, errors so far) after each line";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let nf = r.us(4);
        let mut m = Model::default();
        let mut files: Vec<Vec<Vec<It>>> = vec![vec![]; nf];
        // Later files first, so that what a file includes is known.
        for f in (0..nf).rev() {
            let mut fm = Model { files: files.clone(), ..Default::default() };
            fm.stack = vec![1; 3];
            for _ in 0..r.us(5) {
                let mut l = vec![];
                for _ in 0..r.us(5) {
                    let it = gen_it(r, &fm, Some(f), nf);
                    let mut t = fm.clone();
                    if t.apply(&it).is_ok() {
                        fm = t;
                        l.push(it);
                    }
                }
                files[f].push(l);
            }
            // Lines before these.
            if r.pct(15) {
                let n = if th { r.us(300) } else { r.us(60) };
                for _ in 0..n {
                    files[f].insert(0, if r.pct(30) { vec![It::Comment(k_of(r))] } else { vec![] });
                }
            }
        }
        m.files = files.clone();
        let mut lines = vec![];
        let args = if r.pct(20) { (0..1 + r.us(2)).map(|_| if r.pct(70) { It::Body(r.range(0, 99)) } else { It::Err(r.us(2) as u32) }).collect() } else { vec![] };
        for _ in 0..if th { 3 + r.us(40) } else { 3 + r.us(14) } {
            if m.ended {
                break;
            }
            let mut l = vec![];
            let mut ok = m.clone();
            for _ in 0..r.us(6) {
                let it = gen_it(r, &ok, None, nf);
                let mut c = ok.clone();
                match c.apply(&it) {
                    Ok(f) => {
                        ok = c;
                        l.push(it);
                        if !matches!(f, Flow::On) && r.pct(80) {
                            break;
                        }
                    }
                    Err(_) => {}
                }
            }
            let mut t = m.clone();
            t.cost = 0;
            if t.line(&l).is_ok() {
                m = t;
                lines.push(l);
            }
        }
        let mut faults = vec![];
        if r.pct(15) {
            faults.push(Fault { op: Sys::Key, nth: 100 + r.us(400) as u32, kind: *r.pick(&[Kind::Eio, Kind::Eintr]) });
        }
        if r.pct(15) {
            faults.push(Fault { op: Sys::Out, nth: r.us(300) as u32, kind: *r.pick(&[Kind::Eintr, Kind::Short(1)]) });
        }
        if r.pct(10) {
            faults.push(Fault { op: Sys::Pos, nth: r.us(300) as u32, kind: Kind::Eio });
        }
        let frag = |r: &mut Rng, p: u64| if r.pct(p) { (0..1 + r.us(3)).map(|_| 1 + r.us(9) as u32).collect() } else { vec![] };
        Plan { args, files, lines, faults, chunks_out: frag(r, 10), chunks_read: frag(r, 30), history: r.pct(20), slips: r.us(3) as u32 }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        // The answers.
        let mut m = Model { files: p.files.clone(), ..Default::default() };
        let mut answers: Vec<(String, Option<Vec<Part>>)> = vec![];
        let mut args: Vec<String> = vec!["rtf".into()];
        if p.args.iter().any(|a| !matches!(a, It::Body(_) | It::Err(_))) {
            out.invalid = true;
            return;
        }
        for it in &p.args {
            let t = it_text(it);
            // A negative number would be an option.
            if args.len() + t.split(' ').count() > args_room() || t.starts_with('-') {
                break;
            }
            args.extend(t.split(' ').map(|s| s.to_string()));
            if m.tasks[0].step == 0 {
                if let Ok(Flow::Failed) = m.apply(it) {
                    m.tasks[0].step = 1;
                }
            }
        }
        m.tasks[0].step = 0;
        let mut before = std::mem::take(&mut m.out);
        if args.len() == 1 {
            before = vec![Part::Any, Part::Lit("\r\n".into()), Part::Any, Part::Lit("\r\n".into())];
        }
        for b in BASE {
            m.text(" ");
            m.text(" ok\r");
            m.flush();
            answers.push((b.to_string(), Some(std::mem::take(&mut m.out))));
        }
        let mut h = Fnv::new();
        let mut after_error = 0;
        for l in &p.lines {
            if m.ended {
                break;
            }
            let text: Vec<String> = l.iter().map(it_text).collect();
            m.cost = 0;
            if m.errors + m.bgerrors > 0 {
                after_error += 1;
            }
            match m.line(l) {
                Ok(parts) => answers.push((text.join(" "), Some(parts))),
                Err(_) => {
                    out.invalid = true;
                    return;
                }
            }
            let mut f = Fnv::new();
            f.u64(m.open.is_some() as u64);
            f.u64(m.stack.len() as u64);
            f.u64(m.errors.min(9) as u64 * 10 + m.bgerrors.min(9) as u64);
            for t in &m.tasks {
                f.bytes(format!("{:?}{}{}", t.prog.as_ref().map(|p| std::mem::discriminant(p)), t.suspended, t.step.min(6)).as_bytes());
            }
            out.states.push(f.0);
            h.u64(f.0);
        }
        // The keys: read j gives key j, or fails.
        let s = sim();
        s.faults = p.faults.clone();
        s.chunks_out = p.chunks_out.clone();
        s.chunks_read = p.chunks_read.clone();
        if p.history {
            initial(&["1 .".into(), "bye".into()]);
        }
        for (i, f) in p.files.iter().enumerate() {
            let mut t = String::new();
            for l in f {
                t.push_str(&l.iter().map(it_text).collect::<Vec<_>>().join(" "));
                t.push('\n');
            }
            s.fs.put(&format!("f{}", i), t.as_bytes());
        }
        // (read at which the line is entered, answer)
        let mut entered: Vec<(usize, usize)> = vec![];
        let mut reads = 0usize;
        let mut broken: Vec<usize> = vec![];
        let failing = |n: usize| p.faults.iter().any(|f| f.op == Sys::Key && f.nth as usize == n && !matches!(f.kind, Kind::Short(_)));
        for (i, (t, _)) in answers.iter().enumerate() {
            let mut keys: Vec<Key> = vec![];
            for (n, c) in t.chars().enumerate() {
                if p.slips > 0 && n % 7 == p.slips as usize {
                    keys.extend([Key::Ch('é'), Key::Left, Key::Right, Key::Back, Key::Other(n as u32)]);
                }
                keys.push(Key::Ch(c));
            }
            keys.push(Key::Enter);
            let mut j = 0;
            while j < keys.len() {
                if failing(reads) {
                    // What was typed is lost; it is typed again.
                    broken.push(reads);
                    reads += 1;
                    j = 0;
                    continue;
                }
                crate::term::state().events.push_back(event(keys[j]));
                reads += 1;
                j += 1;
            }
            entered.push((reads - 1, i));
        }
        unsafe { MARKS = Vec::new() };
        crate::term::state().hook = Some(on_read);
        with_args(&args, || sut(rtfhost::sim_main));
        crate::term::state().hook = None;
        let mut marks = unsafe { std::mem::take(&mut *(&raw mut MARKS)) };
        let nreads = marks.len();
        sut(|| {
            let _ = std::io::stdout().flush();
        });
        let s = sim();
        marks.push(s.stdout.len());
        let seg = |a: usize, z: usize| String::from_utf8_lossy(&s.stdout[a..z]).into_owned();
        // Before the first line.
        let first = seg(0, marks[0]);
        if !matches(&before, &first) {
            out.fail("start", format!("the console starts with {:?} instead of {} (arguments {:?})", first, show(&before), &args[1..]));
            return;
        }
        for (n, (j, a)) in entered.iter().enumerate() {
            let (text, parts) = &answers[*a];
            if *j >= nreads {
                out.fail("ended", format!("the session ended before line {} {:?} was read; last answer {:?}", n + 1, text, seg(marks[nreads - 1], marks[nreads])));
                return;
            }
            let got = seg(marks[*j], marks[*j + 1]);
            let got = undrawn(&got);
            let want = parts.as_ref().unwrap();
            // The end of the program moves the cursor to the first column.
            let last = *j + 1 == nreads;
            let got = if last { got.strip_suffix('\r').unwrap_or(got) } else { got };
            s_note(got);
            if !matches(want, got) {
                out.fail("answer", format!("line {} {:?} was answered {:?} instead of {}", n + 1, text, got, show(want)));
                return;
            }
        }
        // The end.
        let left = crate::term::state().events.len();
        if left > 0 {
            out.fail("ended", format!("the session ended with {} key events unread", left));
            return;
        }
        let at_end = crate::term::state().reads_after_end;
        if m.ended && at_end > 0 {
            out.fail("ended", "the session goes on after BYE".into());
        } else if !m.ended && at_end != 1 {
            out.fail("ended", format!("the end of input was read {} times", at_end));
        } else if crate::term::state().raw != 0 {
            out.fail("raw-mode", "the terminal is left in raw mode".into());
        } else if !s.fs.open.is_empty() {
            out.fail("leak", "files are open after the end".into());
        }
        out.count("lines answered", entered.len() as u64);
        out.count("errors in the console", m.errors as u64);
        out.count("errors in background tasks", m.bgerrors as u64);
        out.count("failing terminal reads", broken.len() as u64);
        out.count("sessions ended by bye", m.ended as u64);
        out.nontrivial = after_error > 0;
        out.sched = h.0;
    }
}
fn s_note(t: &str) {
    sim().ev(t);
}
