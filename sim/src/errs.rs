//! Errors: a program with failing lines (A) against the same program in which
//! each failing word is replaced by a cut that ends the line or the task just
//! where the failing word stands, or is left out altogether (B). What follows
//! the error must be the same in both.
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::prog::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut};
use serde::{Deserialize, Serialize};

/// Words that fail wherever they are executed, with the code they report.
const FAILS: &[(&str, i64)] = &[
    ("abort", -1),
    ("0stacks drop ?stacks", -4),
    ("0stacks fdrop ?stacks", -45),
    ("ovf ?stacks", -3),
    ("fovf ?stacks", -44),
    ("1 0 /", -10),
    ("7 0 mod", -10),
    ("-3 0 /mod", -10),
    ("-1 @", -9),
    ("5 -1 !", -9),
    ("-1 c@", -9),
    ("6 0 c!", -9),
    ("-1 f@", -9),
    ("1e -1 f!", -9),
    ("0 0 1 move", -9),
    ("99 suspend", -24),
    ("0 resume", -24),
    ("act99", -24),
    ("-1 execute", -21),
    ("-5 load-line", -24),
    ("99 source-id!", -24),
    ("-1 5 type", -9),
    ("0 0 -1 (xtime)", -24),
    ("-1 >body", -24),
    ("rdeep", -5),
    ("-5 >name", -24),
    ("77 close-source", -24),
    ("77 .source-path", -24),
    ("-1 .source-line", -24),
    ("-1 5 1 open-source", -9),
    ("here 5 0 open-source", -24),
    ("here 5 999 open-source", -24),
    ("5 0 f@", -9),
    ("-1 here 9 move", -9),
    ("here -1 9 move", -9),
    // Too deep or too far, and back.
    ("0stacks fdrop 1e ?stacks", -45),
    ("0stacks drop 5 ?stacks", -4),
    ("0stacks 2drop 5 6 7 ?stacks", -4),
    ("0stacks fdrop fdrop 2e 1e 3e ?stacks", -45),
    ("0stacks ovf undo ?stacks", -3),
    ("0stacks fovf fundo ?stacks", -44),
    ("80 rdown drop ?stacks", -5),
    // For the interpreting task only.
    ("s\" nofile\" included", -1),
];
const BG_FAILS: usize = 42;
/// Interpreted.
const IFAILS: &[(&str, i64)] = &[
    ("xyzzy", -13),
    ("12q", -13),
    ("1.5ee", -13),
    ("0stacks drop", -4),
    ("0stacks fdrop", -45),
    ("ovf", -3),
    ("fovf", -44),
    ("' xyzzy", -13),
    ("0stacks fdrop2", -45),
    ("0stacks drop2", -4),
    ("0stacks ovf2", -3),
    ("0stacks fovf2", -44),
    ("80 rdown", -5),
    ("then", -14),
    (";", -14),
    ("exit", -14),
    ("if", -14),
    ("activate", -14),
    ("postpone dup", -14),
    ("] xyzzy", -13),
    ("] if else 99 xyzzy", -13),
    ("] then", -22),
    ("] do loop loop", -22),
    ("] begin do case of [ abort", -1),
    ("] [ 1 0 / ]", -10),
    ("include nofile", -1),
    ("w9 w9", -13),
    ("0labels abort", -1),
    ("create", -39),
    (":", -39),
    ("5 constant", -39),
    ("marker", -39),
    ("'", -39),
    ("char", -39),
    ("variable", -39),
];
/// Failing at the end of the line only.
const AT_END: usize = 28;
/// In a definition.
const DFAILS: &[(&str, i64)] = &[
    ("xyzzy", -13),
    ("12q", -13),
    ("then", -22),
    ("else", -22),
    ("if ;", -22),
    ("if else ;", -22),
    ("begin ;", -22),
    ("begin while ;", -22),
    ("do ;", -22),
    ("?do ;", -22),
    ("do then", -22),
    ("repeat", -22),
    ("until", -22),
    ("again", -22),
    ("loop", -22),
    ("+loop", -22),
    ("if loop", -22),
    ("begin loop", -22),
    ("if until", -22),
    ("if repeat", -22),
    ("of", -22),
    ("endof", -22),
    ("endcase", -22),
    ("case 1 of ;", -22),
    ("case ;", -22),
    ("case then", -22),
    ("leave", -22),
    ("0labels [ 5 ] goto ;", -22),
    ("0labels [ 5 ] goto [ 6 ] goto ;", -22),
    ("0labels [ 5 ] label [ 5 ] label", -24),
    ("[ 0 ] label", -24),
    ("[ -1 ] goto", -24),
    ("[ abort ]", -1),
    ("[ 1 0 / ]", -10),
    ("[ -1 @ ]", -9),
    ("[ xyzzy ]", -13),
    ("[ ovf ]", -3),
    ("postpone xyzzy", -13),
    ("['] xyzzy", -13),
    ("0 0 do 1 if [ 99 suspend ]", -24),
    ("if do begin case [ 0stacks drop ] ", -4),
    ("ifail", -1),
    ("if ifail", -1),
    ("do 5 0labels [ 3 ] goto ifail", -1),
    ("[char]", -39),
    ("postpone", -39),
    ("[']", -39),
];
const D_AT_END: usize = 44;
/// What is open, and what may close or continue it; everything else of ENDS
/// must be refused.
const OPENS: &[(&str, &[&str])] = &[
    ("", &[";"]), ("if", &["else", "then"]), ("if else", &["then"]), ("begin", &["until", "again"]), ("begin while", &["repeat"]), ("do", &["loop", "+loop", "leave"]), ("?do", &["loop", "+loop", "leave"]), ("case", &["of", "endcase"]), ("case of", &["endof"]), ("case of endof", &["of", "endcase"]),
    ("do if", &["else", "then", "leave"]), ("case of if", &["else", "then"]), ("begin do", &["loop", "+loop", "leave"]), ("begin if", &["else", "then"]), ("do leave", &["loop", "+loop", "leave"]), ("case of endof of", &["endof"]), ("if begin", &["until", "again"]), ("do begin while", &["repeat", "leave"]),
];
const ENDS: &[&str] = &["else", "then", "until", "again", "repeat", "loop", "+loop", "leave", "of", "endof", "endcase", ";"];

/// The n-th of DFAILS and of the pairs that do not go together: text, code,
/// whether it fails at the end of the line only.
fn dfail(n: usize) -> (String, i64, bool) {
    static PAIRS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let pairs = PAIRS.get_or_init(|| OPENS.iter().flat_map(|(o, ok)| ENDS.iter().filter(move |e| !ok.contains(*e)).map(move |e| format!("{} {}", o, e))).collect());
    if n % 2 == 0 {
        let f = n / 2 % DFAILS.len();
        (DFAILS[f].0.into(), DFAILS[f].1, f >= D_AT_END)
    } else {
        (pairs[n / 2 % pairs.len()].clone(), -22, false)
    }
}
const DN: usize = 2 * 2000;
/// Fill the dictionary, and use it when it is full.
const FULL: &[&str] = &["filld", ": qq 1 2 3 4 5 ;", "5 ,", "create qq 9 ,", ": qq", "5 constant qq", "marker qq", "variable qq", "create qq"];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Item {
    Push(i64),
    Fpush(i64),
    Probe,
    Mem(u32),
    Def(u32, Vec<Stmt>),
    /// Defined over several lines.
    Multi(u32, Vec<Stmt>, Vec<Stmt>),
    Call(u32),
    Tick(u32),
    Mark(u32),
    Unmark(u32),
    Const(u32, i64),
    Child(u32, i64),
    UseConst(u32),
    UseChild(u32),
    /// Define an immediate word and use it in a definition.
    Imm(u32),
    Defer(u32),
    Inc(u32),
    Out(i64),
    Sp,
    Turns(u32),
    Struct(u32),
    Names,
    SetDefer(u32),
    UseDefer,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Round {
    Good(Vec<Item>),
    /// Interpreted words before, the failing one, words after.
    Interp(Vec<Item>, u32, Vec<Item>),
    /// Before, name, body, failing word, words after, line break before the failing word.
    Def(Vec<Item>, u32, Vec<Stmt>, u32, Vec<Item>, bool),
    /// A word with failing words in it, and how it is run.
    Run(Vec<Item>, u32, Vec<Stmt>, u32),
    /// Files, each including the next; the last one fails.
    Inc(Vec<Vec<Item>>, Vec<Item>, u32),
    /// A background task gets a new program (which may contain failing words).
    Bg(u32, u32),
    /// A definition that is begun and left by a failing line.
    Begun(u32, Vec<Stmt>, u32),
    /// The dictionary is filled until words fail, and emptied by a marker.
    Full(u32),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub host: u8,
    pub progs: Vec<Vec<Stmt>>,
    pub rounds: Vec<Round>,
    pub sched: Vec<u8>,
}

/// What was seen in one virtual machine.
#[derive(Default)]
struct Seen {
    /// (task, code, depth of data, float, control stack in the handler)
    herr: Vec<(usize, i64, i64, i64, i64)>,
    cuts: Vec<(usize, i64)>,
}
static mut SEEN: *mut Seen = std::ptr::null_mut();
fn seen() -> &'static mut Seen {
    unsafe {
        if SEEN.is_null() {
            SEEN = Box::into_raw(Box::default());
        }
        &mut *SEEN
    }
}
fn w_herr<H: Host>(vm: &mut H) {
    let code = vm.s_stack().pop() as i64;
    let t = vm.current_task() + 1;
    let e = (t, code, vm.s_stack().len as i64, vm.f_stack().len as i64, vm.c_stack().len as i64);
    sim().evn(code);
    ctx().done[t] = true;
    seen().herr.push(e);
    if seen().herr.len() > 2000 {
        stop("stuck", "the error handler runs again and again".into());
    }
}
fn w_cut<H: Host>(vm: &mut H) {
    let k = vm.s_stack().pop() as i64;
    let t = vm.current_task() + 1;
    ctx().done[t] = true;
    sim().evn(k);
    seen().cuts.push((t, k));
    if t == 1 {
        // Ends the line.
        vm.set_error(Some(rtforth::exception::ABORT));
    }
}
fn w_start<H: Host>(vm: &mut H) {
    let k = vm.s_stack().pop() as usize;
    ctx().done[k] = false;
}

const BASE: &str = ": turn pause ;
: onerr error herr me 1 = if bye then 0error nod ;
' onerr handler!
: cut cutrec 0stacks me 1 = if bye then nod ;
: ovf 70 0 do 1 loop ;
: fovf 70 0 do 1e loop ;
: undo 70 0 do drop loop ;
: fundo 70 0 do fdrop loop ;
: rdown dup if 1- recurse 1+ then ;
: fdrop2 fdrop 1e ;
: drop2 drop 5 ;
: ovf2 ovf undo ;
: fovf2 fovf fundo ;
: rdeep ?stacks recurse ;
: act99 99 activate nod ;
: mk create , does> @ ;
: ifail abort ; immediate
: lit3 postpone dup postpone + ; immediate
variable va variable vb fvariable fa 0e fa f!
defer df
: plain ;
: filld begin 0 , again ;
";

struct R {
    k: i64,
    b: bool,
}
impl R {
    fn key(&mut self) -> i64 {
        self.k += 1;
        self.k
    }
    fn body(&mut self, v: &[Stmt]) -> String {
        let mut r = Render::new("9", 3);
        r.probe = self.k + 1;
        r.stmts(v, 0);
        self.k = r.probe;
        self.fails(&r.out)
    }
    /// Replace the places of failing words.
    fn fails(&self, t: &str) -> String {
        let mut o = String::new();
        for w in t.split(' ') {
            if let Some(n) = w.strip_prefix("@F") {
                let n: usize = n.parse().unwrap_or(0) % FAILS.len();
                if self.b {
                    o.push_str(&format!("{} cut ", n));
                } else {
                    o.push_str(FAILS[n].0);
                    o.push(' ');
                }
            } else {
                o.push_str(w);
                o.push(' ');
            }
        }
        o
    }
    fn items(&mut self, v: &[Item]) -> Vec<String> {
        let mut out = vec![];
        let mut l = String::new();
        for i in v {
            let t = self.item(i);
            let mut parts = t.split('\n');
            l.push_str(parts.next().unwrap_or(""));
            l.push(' ');
            for p in parts {
                out.push(std::mem::replace(&mut l, p.to_string() + " "));
            }
        }
        out.push(l);
        out
    }
    fn item(&mut self, i: &Item) -> String {
        let k = self.key();
        let run = |s: String| format!("{} {} {} {} probe 0stacks", base_text(), fbase_text(), s, k);
        match i {
            Item::Push(n) => n.to_string(),
            Item::Fpush(n) => format!("{}.5e", n),
            Item::Probe => format!("{} probe", k),
            Item::Mem(n) => {
                const T: &[&str] = &["7 va !", "va @ vb +!", "vb @", "2e fa f!", "fa f@", "va on", "vb off"];
                T[*n as usize % T.len()].into()
            }
            Item::Def(n, b) => format!(": w{} 0labels {} ;", n, self.body(b)),
            Item::Multi(n, a, b) => {
                let (a, b) = (self.body(a), self.body(b));
                format!(": w{}\n 0labels {}\n{}\n;", n, a, b)
            }
            Item::Call(n) => run(format!("w{}", n)),
            Item::Tick(n) => run(format!("' w{} execute", n)),
            Item::Mark(n) => format!("marker m{}", n),
            Item::Unmark(n) => format!("' plain ' df defer! m{}", n),
            Item::Const(n, v) => format!("{} constant c{}", v, n),
            Item::Child(n, v) => format!("{} mk x{}", v, n),
            Item::UseConst(n) => format!("c{} {} probe", n, k),
            Item::UseChild(n) => format!("x{} {} probe", n, k),
            Item::Imm(n) => format!(": i{} 5 postpone lit , ; immediate : u{} i{} [ 6 7 + ] literal lit3 ; u{} {} probe", n, n, n, n, k),
            Item::Defer(n) => format!("defer d{} ' plain ' d{} defer! d{} {} probe", n, n, n, k),
            Item::Inc(n) => format!("include g{} {} probe", n % 3, k),
            Item::Out(n) => format!("{} . ", n),
            Item::Sp => "sp".into(),
            Item::Turns(n) => "turn ".repeat(*n as usize % 6),
            Item::Struct(n) => {
                const T: &[&str] = &[
                    ": zz 3 0 do i 1 = if leave then i loop 7 ; zz",
                    ": zz 0labels 1 if [ 3 ] goto then 9 [ 3 ] label 8 ; zz",
                    ": zz 2 case 1 of 10 endof 2 of 20 endof 30 swap endcase ; zz",
                    ": zz 0 begin 1+ dup 4 < while dup 2 = until 77 then ; zz",
                    ": zz 0 begin 1+ dup 4 < while repeat ; zz",
                    ": zz 0 5 0 do i + 2 +loop ; zz",
                    ": zz 3 0 do 2 0 do i j + loop loop ; zz",
                    ": zz dup 1 > if 1- recurse then ; 5 zz",
                    ": zz create , does> @ 1+ ; 5 zz yy yy",
                    ": zz s\" abc\" nip ; zz",
                    ": zz 0labels [ 4 ] goto [ 5 ] label 3 exit [ 4 ] label 2 [ 5 ] goto ; zz",
                    ": zz 0 0 ?do 5 loop 6 ; zz",
                    ": zz 0labels [ 6 ] call [ 6 ] call exit [ 6 ] label 3 ; zz",
                    ": zz 0labels 0 if [ 3 ] goto then 1 if [ 3 ] goto then 9 [ 3 ] label 8 ; zz",
                    ": zz >r r@ r> + ; 4 zz",
                    ": zz true if 1 else 2 then false if 3 else 4 then ; zz",
                    ": zz [ 3 ] literal 4 + ; zz",
                    "( 1 2 3 ) 4 ( 5 )",
                    ": zz 1e 2e f+ f>s ; zz",
                ];
                format!("{} {} probe", T[*n as usize % T.len()], k)
            }
            Item::Names => format!("' dup ' DUP = ' plain ' Plain = {} probe", k),
            Item::SetDefer(n) => format!("' w{} ' df defer!", n),
            Item::UseDefer => run("df".into()),
        }
    }
}

/// Everything compared after a step.
#[derive(PartialEq, Debug, Clone)]
struct After {
    err: Option<i64>,
    compiling: bool,
    ev: Ev,
    out: String,
    herr: usize,
    cut: bool,
}

fn take_out<H: Host>(vm: &mut H) -> String {
    sut(|| {
        use std::io::Write;
        let _ = std::io::stdout().flush();
    });
    let mut o = String::from_utf8_lossy(&std::mem::take(&mut sim().stdout)).into_owned();
    if let Some(b) = vm.output_buffer().as_mut() {
        o.push_str(b);
        b.clear();
    }
    o
}

fn do_line<H: Host>(vm: &mut H, l: &str) -> After {
    let own = || seen().herr.iter().filter(|h| h.0 == 1).count();
    let n = own();
    let cuts = || seen().cuts.iter().filter(|h| h.0 == 1).map(|h| h.1).collect::<Vec<_>>();
    let c0 = cuts().len();
    let mut err = line(vm, l);
    if vm.current_task() != 0 {
        stop("operator-lost", format!("after line {:?} task {} is current instead of the operator", l, vm.current_task() + 1));
    }
    let c = cuts();
    let cut = c.len() > c0;
    if cut {
        // The cut stands for this failure.
        err = Some(FAILS[c[c0] as usize % FAILS.len()].1);
    }
    let ev = snap(vm, 0);
    let out = take_out(vm);
    After { err, compiling: vm.state().is_compiling, ev: Ev { clock: 0, turn: 0, ..ev }, out, herr: own() - n, cut }
}

/// One VM through the whole plan.
struct Log {
    /// Per round: the lines, and what was seen after the good ones.
    rounds: Vec<Vec<(String, After)>>,
    events: Vec<Ev>,
    herr: Vec<(usize, i64, i64, i64, i64)>,
    cuts: Vec<(usize, i64)>,
    open: usize,
    /// Round and expected code of each failure of the operator predicted.
    fails: Vec<(usize, String, i64, Option<i64>, usize)>,
    bad: Option<(&'static str, String)>,
    switches: u64,
    sched: u64,
    states: Vec<u64>,
}

const TURNS: u32 = 4_000;
fn drain<H: Host>(vm: &mut H, ids: &[usize]) {
    let mut n = 0;
    while !ids.iter().all(|&i| ctx().done[i]) {
        if let Some(e) = line(vm, "turn") {
            stop("error", format!("PAUSE in the operator ended with error {}", e));
        }
        n += 1;
        if n > TURNS {
            stop("stuck", format!("tasks {:?} have not all finished or failed after {} turns", ids.iter().filter(|&&i| !ctx().done[i]).collect::<Vec<_>>(), n));
        }
    }
}

fn whole<H: Host>(p: &Plan, b: bool) -> Log {
    let c = new_ctx(&p.sched);
    *seen() = Seen::default();
    sim().fs = crate::simfs::SimFs::new();
    sim().fs.put("g0", b"1 va +!\n: g0w 5 va +! ;\ng0w\n");
    sim().fs.put("g1", b"include g0 2 va +!\ninclude g0\n");
    sim().fs.put("g2", b"\r\n( x ) include g1\r\n: g2w\r\n  9 vb ! ;\r\ng2w include g0");
    let mut vm = H::make();
    add_words(&mut *vm);
    vm.add_primitive("herr", w_herr::<H>);
    vm.add_primitive("cutrec", w_cut::<H>);
    vm.add_primitive("start", w_start::<H>);
    let mut r = R { k: 0, b };
    let mut text = String::from(BASE);
    text.push_str(&vars_text("9", true));
    text.push_str(": h0 1+ ;\n: h1 swap h0 ;\n: h2 sp h1 sp ;\n");
    // First, so that addresses do not depend on the programs.
    for t in 2..=4 {
        text.push_str(&vars_text(&t.to_string(), true));
    }
    for (i, s) in p.progs.iter().enumerate() {
        for t in 2..=4 {
            let mut rr = Render::new(if t == 2 { "2" } else if t == 3 { "3" } else { "4" }, 3);
            rr.probe = 1000 * (i as i64 + 1) + 1_000_000;
            rr.stmts(s, 0);
            let body = r.fails(&rr.out);
            text.push_str(&format!(": go{0}t{1} 0labels {1} activate {2} {3} 0 probe {4} 999 probe {1} fin nod ;\n", i, t, base_text(), fbase_text(), body));
        }
    }
    vm.add_primitive("fin", |vm: &mut H| {
        let k = vm.s_stack().pop() as usize;
        ctx().done[k] = true;
    });
    load(&mut *vm, &text);
    take_out(&mut *vm);
    let mut ids: Vec<usize> = vec![];
    for i in 2..=4 {
        ctx().done[i] = true;
        ids.push(i);
    }
    let mut log = Log { rounds: vec![], events: vec![], herr: vec![], cuts: vec![], open: 0, fails: vec![], bad: None, switches: 0, sched: 0, states: vec![] };
    let ending = Round::Good(vec![
        Item::Probe, Item::Mem(1), Item::Mem(2), Item::Mem(4), Item::Struct(0), Item::Struct(1), Item::Struct(2), Item::Struct(6), Item::Struct(8), Item::Inc(2), Item::Names, Item::Imm(0), Item::Mark(7), Item::Unmark(7), Item::Probe,
    ]);
    for (n, rd) in p.rounds.iter().chain(std::iter::once(&ending)).enumerate() {
        let mut res: Vec<(String, After)> = Vec::new();
        let k0 = r.k;
        let herr0 = seen().herr.len();
        match rd {
            Round::Good(v) => {
                for l in r.items(v) {
                    let a = do_line(&mut *vm, &l);
                    let e = a.err;
                    res.push((l, a));
                    if e.is_some() {
                        after_error(&mut *vm, n, &mut log);
                        break;
                    }
                }
            }
            Round::Bg(t, i) => {
                if p.progs.is_empty() {
                    continue;
                }
                drain(&mut *vm, &ids);
                let l = format!("{} start go{}t{}", t % 3 + 2, *i as usize % p.progs.len(), t % 3 + 2);
                let a = do_line(&mut *vm, &l);
                res.push((l, a));
            }
            Round::Interp(pre, f, post) => {
                let f = *f as usize % IFAILS.len();
                let mut ls = r.items(pre);
                let post = r.items(post).join(" ");
                if !b {
                    let l = ls.last_mut().unwrap();
                    l.push_str(IFAILS[f].0);
                    if f < AT_END {
                        l.push_str(&format!(" 31415 probe {}", post));
                    }
                }
                fail_lines(&mut *vm, &ls, n, &mut log, b, Some(IFAILS[f].1), herr0);
            }
            Round::Def(pre, name, body, f, post, split) => {
                let (ft, code, end) = dfail(*f as usize);
                let mut ls = r.items(pre);
                let bt = r.body(&body.iter().filter(|s| !matches!(s, Stmt::Raw(t) if t.starts_with("@F"))).cloned().collect::<Vec<_>>());
                let post = r.items(post).join(" ");
                if !b {
                    let l = ls.last_mut().unwrap();
                    l.push_str(&format!(": w{} 0labels {}", name, bt));
                    let mut rest = ft.clone();
                    if !end {
                        rest.push_str(&format!(" 31415 probe {}", post));
                    }
                    if *split {
                        ls.push(rest);
                    } else {
                        l.push_str(&rest);
                    }
                }
                // The body may use a word that is not defined.
                fail_lines(&mut *vm, &ls, n, &mut log, b, Some(code), herr0);
            }
            Round::Begun(name, body, f) => {
                let f = *f as usize % IFAILS.len();
                let bt = r.body(&body.iter().filter(|s| !matches!(s, Stmt::Raw(t) if t.starts_with("@F"))).cloned().collect::<Vec<_>>());
                let ls = if b { vec![] } else { vec![format!(": w{} 0labels {} if do", name, bt), "begin".into(), format!(" [ {}", IFAILS[f].0)] };
                fail_lines(&mut *vm, &ls, n, &mut log, b, Some(IFAILS[f].1), herr0);
            }
            Round::Full(i) => {
                let (a, z) = (do_line(&mut *vm, "marker mfull").err, "' plain ' df defer! mfull");
                if let Some(e) = a {
                    stop("error", format!("MARKER failed with {}", e));
                }
                if !b {
                    for (j, f) in FULL.iter().enumerate() {
                        if j == 0 || i >> j & 1 == 1 {
                            fail_lines(&mut *vm, &[format!("{} 31415 probe", f)], n, &mut log, b, Some(-8), seen().herr.len());
                        }
                    }
                } else {
                    for j in 0..FULL.len() {
                        if j == 0 || i >> j & 1 == 1 {
                            fail_lines(&mut *vm, &[], n, &mut log, b, Some(-8), seen().herr.len());
                        }
                    }
                }
                let a = do_line(&mut *vm, z);
                res.push((z.into(), a));
            }
            Round::Run(pre, name, body, via) => {
                let mut ls = r.items(pre);
                let bt = r.body(body);
                let l = ls.last_mut().unwrap();
                l.push_str(&format!(": w{} 0labels {} ; ", name, bt));
                let bb = format!("{} {}", base_text(), fbase_text());
                let w = format!("w{}", name);
                let t = match via % 8 {
                    0 => format!("{} {}", bb, w),
                    1 => format!(": ww {} {} ['] {} execute 4 probe r> drop ; ww", bb, "9 >r", w),
                    2 => format!(": ww 3 0 do {} {} loop ; ww", bb, w),
                    3 if b => format!("{} {}", bb, w),
                    3 => format!(": ww {} {} ; immediate : nn if ww then ;", bb, w),
                    4 => format!(": mm create , does> drop {} {} ; 5 mm yy yy", bb, w),
                    5 => format!("' {} ' df defer! {} df", w, bb),
                    6 if b => format!("{} {}", bb, w),
                    6 => format!(": ww 3 0 do case [ {} {} ] endcase loop ;", bb, w),
                    _ => format!(": ww 5 >r 6 0 do {} {} loop r> ; : wx ww 7 probe ; wx", bb, w),
                };
                l.push_str(&t);
                l.push_str(" ; 31415 probe");
                // `;` ends the line with an error (-14) if nothing failed before.
                fail_lines(&mut *vm, &ls, n, &mut log, b, None, herr0);
            }
            Round::Inc(files, last, f) => {
                let f = *f as usize;
                let (ft, code, end) = if f < IFAILS.len() { (IFAILS[f].0.to_string(), IFAILS[f].1, f >= AT_END) } else { let (t, c, e) = dfail(f - IFAILS.len()); (format!(": w0 {}", t), c, e) };
                let mut all: Vec<String> = Vec::new();
                let depth = files.len();
                for (d, v) in files.iter().enumerate() {
                    let mut ls = r.items(v);
                    all.extend(ls.iter().cloned());
                    ls.last_mut().unwrap().push_str(&format!("include e{} 31415 probe", d + 1));
                    ls.push("31416 probe".into());
                    sim().fs.put(&format!("e{}", d), ls.join("\n").as_bytes());
                }
                let mut ls = r.items(last);
                all.extend(ls.iter().cloned());
                ls.last_mut().unwrap().push_str(&ft);
                if !end {
                    ls.last_mut().unwrap().push_str(" 31415 probe");
                }
                ls.push("31416 probe".into());
                sim().fs.put(&format!("e{}", depth), ls.join("\n").as_bytes());
                let ls = if b { all } else { vec!["include e0 31415 probe".to_string()] };
                fail_lines(&mut *vm, &ls, n, &mut log, b, Some(code), herr0);
            }
        }
        r.k = k0 + 100;
        log.rounds.push(res);
    }
    drain(&mut *vm, &ids);
    log.open = sim().fs.open.len();
    sut(|| drop(vm));
    log.events = std::mem::take(&mut c.events);
    for e in log.events.iter_mut() {
        // Return addresses depend on where code lies, and includes nest words.
        if e.task == 1 {
            e.r.clear();
            e.c = 0;
        }
        for x in e.r.iter_mut() {
            if *x >> 40 == 16 {
                *x = 0;
            }
        }
    }
    log.switches = c.switches;
    log.sched = c.sched_h();
    log.states = std::mem::take(&mut c.states);
    let s = std::mem::take(seen());
    log.herr = s.herr;
    log.cuts = s.cuts;
    log
}

/// Interpret lines of which one fails in A, none in B.
fn fail_lines<H: Host>(vm: &mut H, ls: &[String], n: usize, log: &mut Log, b: bool, code: Option<i64>, herr0: usize) {
    let mut err = None;
    let mut at = String::new();
    for l in ls {
        let a = do_line(vm, l);
        at = l.clone();
        if a.err.is_some() {
            err = a.err;
            break;
        }
    }
    let herr = seen().herr[herr0..].iter().filter(|h| h.0 == 1).count();
    log.fails.push((n, at, err.unwrap_or(0), code, herr));
    if err.is_some() || b {
        after_error(vm, n, log);
    }
}

/// What a host does after an error; nothing may be left over.
fn after_error<H: Host>(vm: &mut H, n: usize, log: &mut Log) {
    recover(vm);
    let e = snap(vm, 0);
    let mut bad = String::new();
    if vm.state().is_compiling {
        bad.push_str("still compiling; ");
    }
    if e.c != 0 || !e.s.is_empty() || !e.f.is_empty() || !e.r.is_empty() {
        bad.push_str(&format!("stacks are not empty: {}; ", e.show()));
    }
    if vm.source_id() != 0 {
        bad.push_str(&format!("source-id is {}; ", vm.source_id()));
    }
    if vm.last_error().is_some() {
        bad.push_str("an error is still reported; ");
    }
    if !bad.is_empty() && log.bad.is_none() {
        log.bad = Some(("left-over", format!("after the error of round {} and the reset: {}", n, bad)));
    }
    take_out(vm);
}

fn go<H: Host>(p: &Plan, out: &mut Outcome) {
    let a = whole::<H>(p, false);
    let b = whole::<H>(p, true);
    out.sched = a.sched;
    out.states = a.states.clone();
    out.sim_ns = sim().clock_ns - 1_000_000_000;
    if let Some((c, d)) = a.bad {
        return out.fail(c, d);
    }
    // Codes reported by the interpreting task.
    let mut nfail = 0;
    let mut h = Fnv::new();
    h.u64(a.sched);
    for (f, g) in a.fails.iter().zip(b.fails.iter()) {
        let (n, line, err, code, herr) = f;
        let want: Option<i64> = match code {
            // Something before failed already.
            _ if g.2 != 0 => Some(g.2),
            Some(c) => Some(*c),
            None => Some(-14),
        };
        if let Some(w) = want {
            if *err != w {
                return out.fail("code", format!("round {}: line {:?} reports error {} instead of {}", n, line, err, w));
            }
        }
        // An overflown return stack is found again when the handler returns.
        let times = if matches!(err, -5 | -6) { 1..=2 } else { 1..=1 };
        if *err != 0 && !times.contains(herr) {
            return out.fail("handler", format!("round {}: the error handler ran {} times after error {} of line {:?}", n, herr, err, line));
        }
        if *err != 0 {
            nfail += 1;
        }
        h.i64(*err);
    }
    for e in &a.herr {
        if e.2 != 0 || e.3 != 0 || e.4 != 0 {
            return out.fail("stacks-in-handler", format!("error {} in task {}: data, float and control stacks hold {} {} {} items in the handler", e.1, e.0, e.2, e.3, e.4));
        }
    }
    // Failures of the other tasks.
    let mut bg = 0;
    for t in 2..=4 {
        let got: Vec<i64> = a.herr.iter().filter(|e| e.0 == t).map(|e| e.1).collect();
        let want: Vec<i64> = b.cuts.iter().filter(|e| e.0 == t).map(|e| FAILS[e.1 as usize % FAILS.len()].1).collect();
        if got != want {
            return out.fail("code", format!("task {} reported errors {:?} instead of {:?}", t, got, want));
        }
        bg += got.len();
        let bx: Vec<&(usize, i64, i64, i64, i64)> = b.herr.iter().filter(|e| e.0 == t).collect();
        if !bx.is_empty() {
            return out.fail("stray-error", format!("task {} failed with {:?} where nothing fails", t, bx));
        }
    }
    // Good lines.
    for (n, (x, y)) in a.rounds.iter().zip(b.rounds.iter()).enumerate() {
        for (i, (la, lb)) in x.iter().zip(y.iter()).enumerate() {
            if lb.1.cut {
                if la.1.err != lb.1.err {
                    return out.fail("code", format!("round {}: line {:?} reports error {:?} instead of {:?}", n, la.0, la.1.err, lb.1.err));
                }
                continue;
            }
            if la.1 != lb.1 {
                return out.fail("continuation-differs", format!("round {} line {} {:?}: after the failures {:?}; without them {:?}", n, i, la.0, la.1, lb.1));
            }
        }
        if x.len() != y.len() {
            return out.fail("continuation-differs", format!("round {}: {} lines after the failures, {} without them", n, x.len(), y.len()));
        }
    }
    for t in 1..=4u8 {
        let x: Vec<&Ev> = a.events.iter().filter(|e| e.task == t).collect();
        let y: Vec<&Ev> = b.events.iter().filter(|e| e.task == t).collect();
        for i in 0..x.len().max(y.len()) {
            match (x.get(i), y.get(i)) {
                (Some(g), Some(w)) if w.same(g) => {}
                (g, w) => {
                    return out.fail("task-differs", format!("task {} probe #{}: with the failures {}; without them {}", t, i, g.map(|e| e.show()).unwrap_or("nothing".into()), w.map(|e| e.show()).unwrap_or("nothing".into())));
                }
            }
        }
    }
    if a.open != b.open {
        return out.fail("open-files", format!("{} files are open at the end", a.open));
    }
    out.sched = h.0;
    out.count("failing_lines", nfail);
    out.count("failing_tasks", bg as u64);
    out.count("switches", a.switches);
    out.count("probes", a.events.len() as u64);
    out.count(&format!("host {}", H::NAME), 1);
    out.nontrivial = nfail + bg as u64 >= 1 && a.rounds.len() >= 2;
}

pub struct C06;
impl Check for C06 {
    type Plan = Plan;
    const ID: &'static str = "C06";
    const QUICK: u64 = 180_000;
    const THOROUGH: u64 = 5_000_000;
    const RULE: &'static str = "a program of good lines, failing lines (interpreted, in definitions, in compiled words however they are reached, in included files) and background tasks some of which fail, under one schedule, compared with the same program in which every failing word is left out or replaced by a cut; non-trivial with at least one failure and a continuation; distinct by the task switches and the sequence of errors";
    const REAL: &'static [&'static str] = &["src/core.rs", "src/float.rs", "src/memory.rs", "src/loader.rs", "core.fth", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)"];
    const STUB: &'static [&'static str] = &["turn order at schedule points (seeded)", "disk", "clock", "terminal device", "error handler (records, then ends the line or the task)"];
    const STATE_MEASURE: &'static str = "hash of the probes passed by every task at a switch, plus the task switched to";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let g = Gen { sp_pct: *r.pick(&[10, 30]), floats: r.pct(50), mem: true, depth: 2, goto: 1, helpers: 3, ..Gen::default() };
        let with_f = |r: &mut Rng, mut v: Vec<Stmt>, n: usize| -> Vec<Stmt> {
            let f = Stmt::Raw(format!("@F{}", r.us(n)));
            place(r, &mut v, f);
            v
        };
        let np = 1 + r.us(4);
        let progs = (0..np)
            .map(|_| {
                let sz = 2 + r.us(5) as u32;
                let v = g.body(r, sz);
                if r.pct(65) {
                    with_f(r, v, BG_FAILS)
                } else {
                    v
                }
            })
            .collect();
        let mut rounds = Vec::new();
        for _ in 0..2 + r.us(if th { 12 } else { 7 }) {
            rounds.push(match r.weighted(&[120, 56, 64, 64, 40, 56, 20, 1]) {
                0 => Round::Good(items(r, &g, 5)),
                1 => Round::Interp(items(r, &g, 3), r.us(IFAILS.len()) as u32, items(r, &g, 2)),
                2 => {
                    let b = g.body(r, 3);
                    Round::Def(items(r, &g, 2), r.us(6) as u32, b, r.us(DN) as u32, items(r, &g, 2), r.pct(40))
                }
                3 => {
                    let b = g.body(r, 4);
                    let n = FAILS.len();
                    let b = with_f(r, b, n);
                    Round::Run(items(r, &g, 2), r.us(6) as u32, b, r.us(8) as u32)
                }
                4 => {
                    let n = r.us(4);
                    let f = (0..n).map(|_| items(r, &g, 2)).collect();
                    Round::Inc(f, items(r, &g, 3), if r.pct(50) { r.us(IFAILS.len()) } else { IFAILS.len() + r.us(DN) } as u32)
                }
                5 => Round::Bg(r.us(3) as u32, r.us(np) as u32),
                7 => Round::Full(r.us(512) as u32),
                _ => {
                    let b = g.body(r, 3);
                    Round::Begun(r.us(6) as u32, b, r.us(IFAILS.len()) as u32)
                }
            });
        }
        let n = r.us(160);
        let bias = *r.pick(&[20, 50, 80]);
        let sched = (0..n).map(|_| if r.pct(bias) { 1 } else { 0 }).collect();
        Plan { host: r.weighted(&[6, 2, 2]) as u8, progs, rounds, sched }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        crate::with_host!(p.host, go(p, out))
    }
}

/// Put a statement somewhere in the tree.
fn place(r: &mut Rng, v: &mut Vec<Stmt>, f: Stmt) {
    if !v.is_empty() && r.pct(60) {
        let i = r.us(v.len());
        match &mut v[i] {
            Stmt::R(b) | Stmt::Rr(b) | Stmt::Do(_, b) | Stmt::Ploop(_, _, b) | Stmt::Qdo(_, b) | Stmt::Leave(_, _, b) | Stmt::Until(_, b) | Stmt::While(_, b) | Stmt::If(_, b, _) | Stmt::Goto(b) | Stmt::Sub(_, b) => return place(r, b, f),
            Stmt::Case(a, b, c) => {
                return match r.us(3) {
                    0 => place(r, a, f),
                    1 => place(r, b, f),
                    _ => place(r, c, f),
                }
            }
            _ => {}
        }
    }
    let i = r.us(v.len() + 1);
    v.insert(i, f);
}

fn items(r: &mut Rng, g: &Gen, max: usize) -> Vec<Item> {
    let g = Gen { raw: &["w0", "w1", "w2", "w3"], ..g.clone() };
    let n = r.us(max + 1);
    (0..n)
        .map(|_| match r.us(28) {
            0 => Item::Push(r.int()),
            1 => Item::Fpush(r.range(0, 9)),
            2 => Item::Probe,
            3 | 4 => Item::Mem(r.us(7) as u32),
            5 | 6 | 7 => {
                let b = calls_outside(g.body(r, 3));
                Item::Def(r.us(6) as u32, b)
            }
            8 => {
                let (a, b) = (calls_outside(g.body(r, 2)), calls_outside(g.body(r, 2)));
                Item::Multi(r.us(6) as u32, a, b)
            }
            9 | 10 | 11 => Item::Call(r.us(6) as u32),
            12 => Item::Tick(r.us(6) as u32),
            13 => Item::Mark(r.us(3) as u32),
            14 => Item::Unmark(r.us(3) as u32),
            15 => Item::Const(r.us(3) as u32, r.range(-99, 99)),
            16 => Item::Child(r.us(3) as u32, r.range(-99, 99)),
            17 => Item::UseConst(r.us(3) as u32),
            18 => Item::UseChild(r.us(3) as u32),
            19 => Item::Imm(r.us(3) as u32),
            20 => Item::Defer(r.us(2) as u32),
            21 => Item::Inc(r.us(3) as u32),
            22 => Item::Out(r.range(-99, 99)),
            23 => Item::Sp,
            24 => Item::Turns(r.us(6) as u32),
            25 => if r.pct(50) { Item::SetDefer(r.us(6) as u32) } else { Item::UseDefer },
            26 => Item::Names,
            _ => Item::Struct(r.us(17) as u32),
        })
        .collect()
}

/// Keep at most one call of an earlier word, outside loops, so that runs stay short.
fn calls_outside(v: Vec<Stmt>) -> Vec<Stmt> {
    fn strip(v: Vec<Stmt>) -> Vec<Stmt> {
        v.into_iter()
            .filter(|s| !matches!(s, Stmt::Raw(_)))
            .map(|s| match s {
                Stmt::R(b) => Stmt::R(strip(b)),
                Stmt::Rr(b) => Stmt::Rr(strip(b)),
                Stmt::Do(n, b) => Stmt::Do(n, strip(b)),
                Stmt::Ploop(n, m, b) => Stmt::Ploop(n, m, strip(b)),
                Stmt::Qdo(n, b) => Stmt::Qdo(n, strip(b)),
                Stmt::Leave(n, m, b) => Stmt::Leave(n, m, strip(b)),
                Stmt::Until(n, b) => Stmt::Until(n, strip(b)),
                Stmt::While(n, b) => Stmt::While(n, strip(b)),
                Stmt::If(n, a, b) => Stmt::If(n, strip(a), strip(b)),
                Stmt::Case(a, b, c) => Stmt::Case(strip(a), strip(b), strip(c)),
                Stmt::Goto(b) => Stmt::Goto(strip(b)),
                Stmt::Sub(n, b) => Stmt::Sub(n, strip(b)),
                s => s,
            })
            .collect()
    }
    let mut seen = false;
    v.into_iter()
        .flat_map(|s| {
            if let Stmt::Raw(_) = s {
                if std::mem::replace(&mut seen, true) {
                    return vec![];
                }
                return vec![s];
            }
            strip(vec![s])
        })
        .collect()
}
