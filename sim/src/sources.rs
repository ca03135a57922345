//! Sources read line by line in several tasks under read faults, against the
//! lines of the files.
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut, Fault, Kind, Op as Sys};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum L {
    Text(u32),
    Long(u32),
    /// Longer than any buffer.
    Huge(u32),
    Wide(u32),
    /// Bytes that are not text.
    Bad(u32),
    Empty,
    Cr(u32),
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum End {
    Lf,
    CrLf,
    CrCrLf,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum S {
    /// Open file f and make it a source, skipping n bytes.
    Open(u32, u32),
    Load(u32),
    Close(u32),
    /// The line last loaded is still there.
    Line(u32),
    /// Make one of the sources, or the terminal, the current one.
    From(u32),
    Pause,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub host: u8,
    pub files: Vec<(Vec<(L, End)>, bool)>,
    pub ops: Vec<(u8, S)>,
    pub faults: Vec<Fault>,
    pub chunks: Vec<u32>,
}

fn content(f: &(Vec<(L, End)>, bool)) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let n = f.0.len();
    for (i, (l, e)) in f.0.iter().enumerate() {
        match l {
            L::Text(k) => v.extend(format!("line {} {} +", i, k).bytes()),
            L::Long(k) => {
                let k = 100 + *k as usize % 20_000;
                v.extend((0..k).map(|j| b'a' + (j % 26) as u8));
            }
            L::Huge(k) => {
                let k = *k as usize;
                let n = 20_000 + k % 130_000;
                if k % 2 == 0 {
                    v.extend((0..n).map(|j| b'a' + (j % 26) as u8));
                } else {
                    v.extend("ab é漢😀ß".chars().cycle().take(n / 3).collect::<String>().bytes());
                }
            }
            // Characters at the ends of lines that are not ends of lines.
            L::Wide(k) if k % 5 == 3 => {
                let ends = ["\u{feff}", "\u{1a}", "\0", "\u{85}", "\u{2028}", "\u{c}", " ", "\t", "\u{b}", "\u{7f}"];
                v.extend(format!("{}{}{}", ends[*k as usize / 5 % 10], ["x", "", "line 7"][*k as usize / 10 % 3], if k % 4 == 0 { "" } else { ends[*k as usize / 3 % 10] }).bytes());
            }
            L::Wide(k) => v.extend("é漢😀ß".chars().cycle().take(1 + *k as usize % 40).collect::<String>().bytes()),
            L::Bad(k) => v.extend([b'x', [0xff, 0xc3, 0xed, 0x80][*k as usize % 4], b' ', b'y']),
            L::Empty => {}
            // A CR that ends the file, or stands before another line end.
            L::Cr(k) if k % 3 == 0 => v.extend(["\r", "ab\r", "\r\r", " \r", "a\rb\r"][*k as usize / 3 % 5].bytes()),
            L::Cr(k) => v.extend(format!("a\rb{}", k).bytes()),
        }
        if i + 1 < n || f.1 {
            v.extend(match e {
                End::Lf => &b"\n"[..],
                End::CrLf => b"\r\n",
                End::CrCrLf => b"\r\r\n",
            });
        }
    }
    v
}

/// Lines from position `at`: text without its end, None if it is not text.
fn lines_of(c: &[u8], at: usize) -> Vec<Option<String>> {
    let c = &c[at.min(c.len())..];
    let mut v = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let e = c[i..].iter().position(|&b| b == b'\n').map(|k| i + k + 1).unwrap_or(c.len());
        let mut l = &c[i..e];
        if l.ends_with(b"\n") {
            l = &l[..l.len() - 1];
            if l.ends_with(b"\r") {
                l = &l[..l.len() - 1];
            }
        }
        v.push(String::from_utf8(l.to_vec()).ok());
        i = e;
    }
    v
}

struct Src {
    sid: i64,
    file: usize,
    lines: Vec<Option<String>>,
    next: usize,
    cur: String,
}

struct World {
    ops: Vec<(u8, S)>,
    at: usize,
    phase: u8,
    idle: u64,
    conts: Vec<Vec<u8>>,
    src: [Vec<Src>; 6],
    /// Current source of each task.
    cur: [i64; 6],
    hard: u64,
    err: Option<i64>,
    out: Outcome,
    h: Fnv,
    expect: Option<String>,
    lines_ok: u64,
    retried: u64,
    nbuf: usize,
    failed_before: bool,
    id: i64,
}
static mut WORLD: Option<World> = None;
fn w() -> &'static mut World {
    unsafe { (*(&raw mut WORLD)).as_mut().unwrap() }
}

impl World {
    fn from(&self, t: usize, i: u32) -> i64 {
        let i = i as usize % (self.src[t].len() + 1);
        self.src[t].get(i).map(|s| s.sid).unwrap_or(0)
    }
    fn fail(&mut self, class: &str, d: String) {
        let (t, o) = self.ops[self.at].clone();
        self.out.fail(class, format!("operation {} of task {}: {:?}: {}", self.at, t, o, d));
    }
}

fn wm_more<H: Host>(vm: &mut H) {
    let x = w();
    let go = x.at < x.ops.len() && !x.out.failed();
    vm.s_stack().push(if go { -1 } else { 0 });
}
fn wm_mine<H: Host>(vm: &mut H) {
    let x = w();
    let t = vm.current_task() + 1;
    x.idle += 1;
    if x.idle > 5_000 {
        stop("stuck", format!("task of operation {} gets no turn", x.at));
    }
    let mut yes = x.at < x.ops.len() && !x.out.failed() && x.ops[x.at].0 as usize == t;
    if yes && x.phase == 0 {
        // Operations without a source have nothing to do.
        let none = x.src[t].is_empty();
        match x.ops[x.at].1 {
            S::Load(_) | S::Close(_) | S::Line(_) | S::From(_) if none => {
                x.at += 1;
                yes = false;
            }
            S::Pause => {
                x.at += 1;
                yes = false;
            }
            _ => {}
        }
    }
    vm.s_stack().push(if yes { -1 } else { 0 });
}

fn wm_next<H: Host>(vm: &mut H) {
    let u = std::mem::replace(&mut sim().in_sut, false);
    let x = w();
    x.idle = 0;
    x.err = None;
    let (t, o) = x.ops[x.at].clone();
    let t = t as usize;
    x.hard = sim().hard;
    pad_output(vm, x.at);
    let k = |x: &World, i: u32| i as usize % x.src[t].len();
    let (word, args): (&str, Vec<i64>) = match (&o, x.phase) {
        (S::Open(f, _), p) => {
            let n = format!("f{}", *f as usize % x.conts.len());
            unsafe { std::ptr::copy_nonoverlapping(n.as_ptr(), x.nbuf as *mut u8, n.len()) };
            match p {
                0 => ("open-file", vec![x.nbuf as i64, n.len() as i64, 0]),
                1 => {
                    let skip = if let S::Open(f, n) = o { n as usize % (x.conts[f as usize % x.conts.len()].len() + 1) } else { 0 };
                    ("reposition-file", vec![skip as i64, 0, x.id])
                }
                _ => ("open-source", vec![x.nbuf as i64, n.len() as i64, x.id]),
            }
        }
        (S::Load(i), 0) => ("load-line", vec![x.src[t][k(x, *i)].sid]),
        (S::Load(i), _) => (".source-line", vec![x.src[t][k(x, *i)].sid]),
        (S::Line(i), _) => (".source-line", vec![x.src[t][k(x, *i)].sid]),
        (S::Close(i), _) => ("close-source", vec![x.src[t][k(x, *i)].sid]),
        (S::From(i), _) => ("source-id!", vec![x.from(t, *i)]),
        (S::Pause, _) => unreachable!(),
    };
    pad_stack(vm, x.at);
    for a in args {
        vm.s_stack().push(a as isize);
    }
    let xt = match vm.find(word) {
        Some(x) => x,
        None => stop("load", format!("{} is not a word", word)),
    };
    vm.s_stack().push(xt as isize);
    sim().in_sut = u;
}
fn w_ferr<H: Host>(vm: &mut H) {
    let e = vm.s_stack().pop() as i64;
    w().err = Some(e);
}
fn wm_done<H: Host>(vm: &mut H) {
    let u = std::mem::replace(&mut sim().in_sut, false);
    judge(vm);
    let t = vm.current_task() as isize + 1;
    sut(|| vm.clear_stacks());
    vm.s_stack().push(1000 + t);
    sim().in_sut = u;
}

fn judge<H: Host>(vm: &mut H) {
    let x = w();
    let (t, o) = x.ops[x.at].clone();
    let t = t as usize;
    let st = unpadded(vm);
    let hard = sim().hard > x.hard;
    let mark = 1000 + t as i64;
    let mut end = true;
    match (&o, x.phase) {
        (S::Open(f, skip), p) => {
            let need = if p == 0 { 3 } else { 2 };
            if x.err.is_some() || st.len() != need || st[0] != mark {
                return x.fail("open", format!("error {:?} stack {:?}", x.err, st));
            }
            match p {
                0 => {
                    if st[2] == 0 {
                        x.id = st[1];
                        x.phase = 1;
                        end = false;
                    } else if !hard {
                        return x.fail("open", format!("ior {} without a fault", st[2]));
                    }
                }
                1 => {
                    x.phase = 2;
                    end = false;
                }
                _ => {
                    let f = *f as usize % x.conts.len();
                    let skip = *skip as usize % (x.conts[f].len() + 1);
                    let lines = lines_of(&x.conts[f], skip);
                    x.src[t].push(Src { sid: st[1], file: f, lines, next: 0, cur: String::new() });
                }
            }
        }
        (S::Load(i), 0) => {
            let i = *i as usize % x.src[t].len();
            let s = &mut x.src[t][i];
            let (file, next) = (s.file, s.next);
            s.cur.clear();
            let want = s.lines.get(s.next).cloned();
            let shown = format!("line {} of f{}", next, file);
            if hard {
                if x.err.is_none() {
                    return x.fail("error-hidden", format!("a read error while loading {} gave {:?}", shown, &st[1..]));
                }
                x.failed_before = true;
            } else {
                match want {
                    None => {
                        if x.err.is_some() || st != [mark, 0, 0] {
                            return x.fail("end-of-file", format!("after the last line of f{}: error {:?} stack {:?}", file, x.err, st));
                        }
                        x.expect = Some(String::new());
                    }
                    Some(Some(l)) => {
                        if x.err.is_some() || st != [mark, l.len() as i64, -1] {
                            return x.fail("line", format!("{} of {} bytes: error {:?} stack {:?}", shown, l.len(), x.err, st));
                        }
                        s.next += 1;
                        s.cur = l.clone();
                        x.expect = Some(l);
                        x.lines_ok += 1;
                        if x.failed_before {
                            x.retried += 1;
                        }
                    }
                    Some(None) => {
                        if x.err.is_none() {
                            return x.fail("not-text", format!("{} is not text but gave {:?}", shown, st));
                        }
                        s.next += 1;
                    }
                }
                if x.expect.is_some() {
                    x.phase = 1;
                    end = false;
                }
            }
        }
        (S::Load(i), _) => {
            let i = *i as usize % x.src[t].len();
            let want = x.expect.take().unwrap_or_default();
            let got = out_unpadded(vm, x.at);
            if x.err.is_some() || got != want {
                let n = x.src[t][i].next;
                let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                let f = x.src[t][i].file;
                return x.fail("line", format!("line {} of f{}: error {:?}, {} bytes instead of {}, first difference at {}", n, f, x.err, got.len(), want.len(), at));
            }
        }
        (S::Line(i), _) => {
            let i = *i as usize % x.src[t].len();
            let got = out_unpadded(vm, x.at);
            let (n, f, want) = (x.src[t][i].next, x.src[t][i].file, x.src[t][i].cur.clone());
            if x.err.is_some() || st != [mark] || got != want {
                let cut = |s: &str| s.chars().take(60).collect::<String>();
                return x.fail("mixed", format!("the line last loaded, line {} of f{}, is {:?} (error {:?}) instead of {:?}", n, f, cut(&got), x.err, cut(&want)));
            }
        }
        (S::Close(i), _) => {
            let i = *i as usize % x.src[t].len();
            if x.src[t][i].sid == x.cur[t] {
                if x.err.is_none() {
                    return x.fail("close-current", format!("the current source was closed; stack {:?}", st));
                }
            } else if x.err.is_some() || st != [mark] {
                return x.fail("close", format!("error {:?} stack {:?}", x.err, st));
            }
            if x.src[t][i].sid != x.cur[t] {
                x.src[t].remove(i);
            }
        }
        (S::From(i), _) => {
            let sid = x.from(t, *i);
            if x.err.is_some() || st != [mark] {
                return x.fail("current", format!("source {}: error {:?} stack {:?}", sid, x.err, st));
            }
            x.cur[t] = sid;
        }
        (S::Pause, _) => unreachable!(),
    }
    if vm.source_id() as i64 != x.cur[t] {
        return x.fail("current", format!("the current source is {} instead of {}", vm.source_id(), x.cur[t]));
    }
    let tag = format!("{:?}{}{}{}{}", std::mem::discriminant(&o), x.phase, t, hard, x.err.is_some());
    x.h.bytes(tag.as_bytes());
    let s = sim();
    s.ev(&tag);
    for v in &st {
        if *v < 1 << 32 {
            s.evn(*v);
        }
    }
    if end {
        x.phase = 0;
        x.at += 1;
        let mut sh = Fnv::new();
        for t in 1..6 {
            for s in &x.src[t] {
                sh.u64((t as u64) << 32 | (s.sid as u64) << 16 | (s.next as u64) << 1 | (s.next == s.lines.len()) as u64);
            }
        }
        sh.u64(hard as u64);
        x.out.states.push(sh.0);
    }
}

fn go<H: Host>(p: &Plan, out: &mut Outcome) {
    new_ctx(&[]);
    let conts: Vec<Vec<u8>> = p.files.iter().map(content).collect();
    if conts.is_empty() {
        out.invalid = true;
        return;
    }
    for (i, c) in conts.iter().enumerate() {
        sim().fs.put(&format!("f{}", i), c);
    }
    let ops: Vec<(u8, S)> = p.ops.iter().filter(|o| (1..=5).contains(&o.0)).cloned().collect();
    let tasks: BTreeSet<u8> = ops.iter().map(|o| o.0).collect();
    unsafe {
        WORLD = Some(World {
            ops,
            at: 0,
            phase: 0,
            idle: 0,
            conts,
            src: Default::default(),
            cur: [0; 6],
            hard: 0,
            err: None,
            out: Outcome::new(),
            h: Fnv::new(),
            expect: None,
            lines_ok: 0,
            retried: 0,
            nbuf: 0,
            failed_before: false,
            id: 0,
        });
    }
    let mut vm = H::make();
    vm.add_primitive("more", wm_more::<H>);
    vm.add_primitive("mine", wm_mine::<H>);
    vm.add_primitive("nextop", wm_next::<H>);
    vm.add_primitive("opdone", wm_done::<H>);
    vm.add_primitive("ferr", w_ferr::<H>);
    let mut t = String::from("create nbuf 64 allot\n: onerr error ferr 0error ;\n' onerr handler!\n");
    for i in &tasks {
        if *i != 1 {
            t.push_str(&format!(": w{0} {0} activate 100{0} {1}begin mine if nextop execute opdone then pause again ;\nw{0}\n", i, pad_return().0));
        }
    }
    t.push_str(&format!(": w1 1001 {}begin more while mine if nextop execute opdone then pause repeat 0 source-id! {}drop ;\nnbuf\n", pad_return().0, pad_return().1));
    load(&mut *vm, &t);
    w().nbuf = vm.s_stack().pop() as usize;
    sim().faults = p.faults.clone();
    sim().chunks_read = p.chunks.clone();
    while w().at < w().ops.len() && !w().out.failed() {
        let (at, ph) = (w().at, w().phase);
        pad_floats(&mut *vm);
        if let Some(e) = line(&mut *vm, "w1") {
            stop("error", format!("operator failed with {}", e));
        }
        if (w().at, w().phase) == (at, ph) && !w().out.failed() {
            stop("stuck", format!("operation {} was not made", at));
        }
    }
    sim().faults.clear();
    sut(|| drop(vm));
    let x = w();
    out.violation = x.out.violation.take();
    out.states = std::mem::take(&mut x.out.states);
    out.sched = x.h.0;
    out.count("operations", x.at as u64);
    out.count("lines_loaded", x.lines_ok);
    out.count("lines_after_an_error", x.retried);
    out.count(&format!("host {}", H::NAME), 1);
    out.nontrivial = x.lines_ok >= 3 && !sim().fired.is_empty();
}

pub struct C10;
impl Check for C10 {
    type Plan = Plan;
    const ID: &'static str = "C10";
    const QUICK: u64 = 300_000;
    const THOROUGH: u64 = 10_000_000;
    const RULE: &'static str = "up to four tasks open files as sources, from any position, load lines, retry after read errors, close and open others, while reads are fragmented, interrupted or fail; each load is compared with the lines of the file; non-trivial with at least three lines loaded and one fault met; distinct by the sequence of operations and outcomes";
    const REAL: &'static [&'static str] = &["src/loader.rs", "src/file_access.rs", "src/core.rs", "core.fth", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)", "Rust standard library std::fs, BufReader"];
    const STUB: &'static [&'static str] = &["disk and descriptors", "clock", "terminal device"];
    const STATE_MEASURE: &'static str = "hash of every open source with the number of lines loaded from it and whether a fault was met";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let nf = 1 + r.us(4);
        let huge = r.pct(4);
        let files = (0..nf)
            .map(|_| {
                let crlf = r.us(3);
                let n = if th { r.us(30) } else { r.us(9) };
                let ls = (0..n)
                    .map(|_| {
                        let l = match r.us(14) {
                            0 => L::Empty,
                            1 => L::Wide(r.us(600) as u32),
                            2 => L::Cr(r.us(30) as u32),
                            3 => L::Long(r.us(20_000) as u32),
                            4 => L::Long(if r.pct(50) { 8192 - 100 - r.us(6) as u32 } else { r.us(300) as u32 }),
                            6 if huge => L::Huge(r.us(130_000) as u32),
                            5 if r.pct(50) => L::Bad(r.us(4) as u32),
                            _ => L::Text(r.us(1000) as u32),
                        };
                        let e = match crlf {
                            0 => End::Lf,
                            1 => End::CrLf,
                            _ => *r.pick(&[End::Lf, End::CrLf, End::CrCrLf]),
                        };
                        (l, e)
                    })
                    .collect();
                (ls, r.pct(60))
            })
            .collect();
        let mut tasks: Vec<u8> = vec![1, 2, 3, 4, 5];
        r.shuffle(&mut tasks);
        tasks.truncate(1 + r.us(4));
        let mut ops: Vec<(u8, S)> = Vec::new();
        for t in &tasks {
            ops.push((*t, S::Open(r.us(4) as u32, 0)));
        }
        for _ in 0..if th { 5 + r.us(80) } else { 5 + r.us(30) } {
            let t = *r.pick(&tasks);
            ops.push((
                t,
                match r.us(20) {
                    0 | 1 => S::Open(r.us(4) as u32, if r.pct(60) { 0 } else { r.us(9000) as u32 }),
                    2 => S::Close(r.us(3) as u32),
                    3 if r.pct(50) => S::Pause,
                    3 => S::From(r.us(4) as u32),
                    4 | 5 | 6 => S::Line(r.us(3) as u32),
                    _ => S::Load(r.us(3) as u32),
                },
            ));
        }
        let mut faults = Vec::new();
        for _ in 0..r.us(6) {
            faults.push(Fault { op: Sys::Read, nth: r.us(40) as u32, kind: *r.pick(&[Kind::Eio, Kind::Eio, Kind::Eintr, Kind::Short(1), Kind::Short(9)]) });
        }
        if r.pct(15) {
            faults.push(Fault { op: Sys::Open, nth: r.us(5) as u32, kind: Kind::Emfile });
        }
        let chunks = if r.pct(30) { vec![] } else { (0..1 + r.us(4)).map(|_| *r.pick(&[0u32, 2, 3, 5, 17, 100, 1000, 4096])).collect() };
        Plan { host: r.weighted(&[5, 3, 2]) as u8, files, ops, faults, chunks }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        crate::with_host!(p.host, go(p, out))
    }
}
