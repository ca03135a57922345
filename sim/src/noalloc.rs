//! Compiled code that does no input or output must not use the allocator or
//! the operating system (C14).
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::prog::*;
use crate::rng::Rng;
use crate::sim::{arm, sim, sut};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
pub struct Plan {
    host: u8,
    helpers: Vec<Vec<Stmt>>,
    tasks: Vec<Vec<Stmt>>,
    words: Vec<Vec<Stmt>>,
    /// What the operator runs: words[k]; between them lines are interpreted.
    calls: Vec<(u32, bool)>,
    sched: Vec<u8>,
    /// Clock advance per reading, in microseconds.
    step: u32,
    /// Which words start all tasks.
    start: u8,
    /// Tasks share facilities; then none is stopped or restarted while it may
    /// own one.
    #[serde(default)]
    fac: bool,
}

/// Words that are neither arithmetic nor control flow, neutral on ( a b c d )
/// and ( F: x y ).
pub const RAW: &[&str] = &[
    "1000 0 do loop", "5 , -1 cells allot", "5 c, -1 chars allot", "3 4 2, -2 cells allot", "1e f, -1 floats allot", "here drop", "align", "falign", "dup aligned faligned drop", "s\" abc def\" + +", "s\" abc\" 1 /string + +",
    "s\" ab\" pad 3 fill", "pad drop 65 >char +", "s\" x\" bounds + +", "base @ +", "hex base @ decimal +", "me +", "operator +", "max-n +", "max-u xor", "mtime drop", "utime drop", "error drop", "source-id drop source-idx drop", "token-empty? drop", "compiling? drop",
    "['] dup >name + +", "['] cc >body @ +", "dfr", "['] noop ['] dfr defer!", "['] h0 ['] dfr defer!", "['] dfr defer@ +", "['] onerr handler!", "2c + +", "2v 2@ + +", "1 2 2v 2!", "fc fdrop", "2v fld +", "fv f@ fdrop 1e fv f!",
    "fac get sp fac release", "fac release", "fac2 get pause fac2 release", "3 suspend", "3 resume", "4 halt", "2 resume", "utime ['] noop xtime", "0xtime", "utime ['] noop (xtime)", "r/o w/o + r/w + + bin", "true false on2", "0 recu", "1 recu", "7 recu",
    "2dup xor drop ?stacks", "reset-none", "go2", "go3", "go4", "['] go3 execute", "dup c@x", "3 3 >r r> drop drop", "dup >= not", "1 2 3 rot drop 2drop", "0> 0<> -1 and", "['] lit drop", "1 2 / +", "3 7 */x",
    "b9 16 0 do dup i + c@ drop loop drop", "b9 8 + b9 8 move", "b9 @ b9 ! b9 2@ b9 2!", "false if then", "begin false while repeat", "3 ms", "1 ms", "0 ms", "fsincos", "fdup fasin fnip", "fdup facos fnip", "fdup fatan fnip", "fover fover fatan2 fnip", "1 fpick fdrop",
    "fover fover f** fnip", "fover fover 0.1e f~ drop", "fdup fcos fnip", "fdup ftan fnip", "fdup fceil fnip", "fdup f0= drop", "fover fover f> drop", "pi fdrop", "fdup mm um deg fdrop", "1e rad fdrop 1e meter fdrop 1e hr minute fdrop", "1e sec msec usec fdrop 1e mm/min mm/sec um/msec fdrop 1e rpm hz 1/sec fdrop",
    "1 floats float+ cell+ cells drop", "mk-none", "pad count + +", "b9 b9 32 + 4 move", "s\" \" + +", "s\" a\" pad append", "fac on fac off", "0 0 ?do loop", "h.none", "[ 9 ] literal +", "[ 1 2 ] 2literal + +", "[ 2e ] fliteral fdrop", "noop", "5 case 1 of 2 drop endof 5 of endof endcase",
    "compile-none", "src-stack cell+ @ drop", "source + drop", ">in @ drop #tib @ drop",
];
/// Failing words.
const FAILS: &[&str] = &[
    "1 0 /", "1 0 mod", "1 0 /mod", "-1 @", "1 -1 !", "-1 c@", "1 -1 c!", "-1 f@", "0e -1 f!", "99 suspend", "0 resume", "99999999 execute", "0stacks drop ?stacks", "70 0 do i loop ?stacks", "70 0 do 1e loop ?stacks", "0stacks fdrop ?stacks", "abort", "b9 -1 8 move", "-1 b9 8 move", "-5 resume", "s\" abc\" drop -1 move", "100 0 do 100 0 do i loop ?stacks loop", "100 recu ?stacks", "-1 99999999 type-none",
    "-1 2@", "-1 >body drop",
];

fn body(r: &mut Render, b: &[Stmt], fac: bool) -> String {
    r.stmts(b, 0);
    let mut t = std::mem::take(&mut r.out);
    let drop: &[&str] = if fac { &["3 suspend", "3 resume", "4 halt", "2 resume", "go2", "['] go3 execute", "go3", "go4", "fac on fac off"] } else { &["fac get sp fac release", "fac2 get pause fac2 release"] };
    for w in drop {
        t = t.replace(w, "noop");
    }
    // Placeholders of the table.
    t.replace("reset-none", "0error").replace("mk-none", "cell+").replace("h.none", "char+").replace("compile-none", "1+").replace("c@x", "drop b9 c@").replace("*/x", "* 3 / +").replace("false on2", "xor drop").replace("type-none", "2drop -1 @")
}

fn text(p: &Plan) -> String {
    let mut t = String::from("variable fac variable fac2 variable errs create cc 5 , 1 2 2constant 2c 2variable 2v fvariable fv 2.5e fconstant fc 0 1 cells +field fld drop defer dfr\n");
    t.push_str(": again1 1 activate 40 0 do sp loop bye ;\n: onerr 1 errs +! decimal 0error me 1 = if 1 errs @ and if bye then reset 40 0 do sp loop bye else reset nod then ;\n' onerr handler!\n: recu dup 0> if 1- recurse else drop then ;\n");
    t.push_str(&vars_text("9", true));
    let h = p.helpers.len() as u32;
    let f = "101 202 303 404";
    // Some end by activating the operator anew.
    let last = |i: usize| if p.start & 8 << i != 0 { "again1" } else { "" };
    for (i, b) in p.helpers.iter().enumerate() {
        let mut r = Render::new("9", i as u32);
        t.push_str(&format!(": h{} 0labels {};\n", i, body(&mut r, b, p.fac)));
    }
    for i in 2..=5 {
        t.push_str(&format!(": go{0} {0} halt ;\n", i));
    }
    // A task that was never started must not be resumed.
    t.push_str("go2 go3 go4 go5\n");
    for (i, b) in p.tasks.iter().enumerate() {
        let id = i + 2;
        let v = id.to_string();
        t.push_str(&vars_text(&v, true));
        let mut r = Render::new(&v, h);
        t.push_str(&format!(": go{0} 0labels {0} activate {1} {2} {3} done nod ;\n", id, f, fbase_text(), body(&mut r, b, p.fac)));
    }
    for (i, b) in p.words.iter().enumerate() {
        let mut r = Render::new("9", h);
        t.push_str(&format!(": j{} 0labels {} {} {} {} 0stacks 40 0 do sp loop {} ;\n", i, if p.start & 1 << i != 0 { "fac off fac2 off go2 go3 go4 go5" } else { "" }, f, fbase_text(), body(&mut r, b, p.fac), last(i)));
    }
    t
}

fn go<H: Host>(p: &Plan, out: &mut Outcome) {
    if p.words.is_empty() || p.helpers.is_empty() {
        out.invalid = true;
        return;
    }
    let c = new_ctx(&p.sched);
    let mut vm = H::make();
    add_words(&mut *vm);
    load(&mut *vm, &text(p));
    let errs = {
        load(&mut *vm, "errs");
        vm.s_stack().pop() as usize
    };
    sim().clock_step = p.step as u64 * 1000;
    let mut bad: Option<(u32, String)> = None;
    let mut calls = 0;
    for (k, lines) in &p.calls {
        let k = *k as usize % p.words.len();
        let xt = match vm.find(&format!("j{}", k)) {
            Some(x) => x,
            None => stop("lost-word", format!("j{} is not found", k)),
        };
        sut(|| {
            arm(true);
            vm.execute_word(xt);
            vm.run();
            arm(false);
        });
        calls += 1;
        let s = sim();
        if s.rt_allocs > 0 || s.rt_syscalls > 0 || s.rt_raw > 0 {
            let mut w = vec![];
            if s.rt_allocs > 0 {
                w.push(format!("{} calls of the allocator (last size {})", s.rt_allocs, s.rt_alloc_size));
            }
            if s.rt_syscalls > 0 {
                w.push(format!("{} calls of {}", s.rt_syscalls, s.rt_syscall_name));
            }
            if s.rt_raw > 0 {
                w.push(format!("{} system calls (last number {})", s.rt_raw, s.rt_raw_nr));
            }
            bad = Some((k as u32, w.join(", ")));
            break;
        }
        if vm.last_error().is_some() {
            stop("error", format!("error {:?} is left after j{}", vm.last_error(), k));
        }
        if vm.current_task() != 0 {
            stop("operator-lost", format!("task {} is current after j{}", vm.current_task() + 1, k));
        }
        recover(&mut *vm);
        if *lines {
            load(&mut *vm, "decimal variable x1 5 x1 ! : x2 x1 @ ; x2 drop");
        }
    }
    let n = unsafe { *(errs as *const isize) } as u64;
    sut(|| drop(vm));
    if let Some((k, w)) = bad {
        out.fail("not-free", format!("while j{} ran: {}", k, w));
    }
    out.sched = c.sched_h();
    out.states = std::mem::take(&mut c.states);
    out.count("switches", c.switches);
    out.count("schedule_points", c.sps);
    out.count("compiled runs", calls);
    out.count("failing words", n);
    out.count("tasks finished", c.done.iter().filter(|&&d| d).count() as u64);
    out.count(&format!("host {}", H::NAME), 1);
    out.sim_ns = sim().clock_ns - 1_000_000_000;
    out.nontrivial = c.switches >= 4;
}

pub struct C14;
impl Check for C14 {
    type Plan = Plan;
    const ID: &'static str = "C14";
    const QUICK: u64 = 250_000;
    const THOROUGH: u64 = 4_000_000;
    const RULE: &'static str = "compiled programs of up to four background tasks and the operator over all words that do no input or output, with failing words, run with the allocator and the system calls watched; non-trivial with at least four task switches; distinct by the sequence of task switches";
    const REAL: &'static [&'static str] = &["src/core.rs", "src/float.rs", "src/units.rs", "src/facility.rs", "src/memory.rs", "src/tools.rs (xtime)", "core.fth", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)"];
    const STUB: &'static [&'static str] = &["allocator (counting)", "system calls (counting, by symbol and by system-call dispatch)", "clock"];
    const STATE_MEASURE: &'static str = "hash of the tasks' progress at a switch, plus the task switched to";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let host = r.weighted(&[5, 3, 2]) as u8;
        let mut g = Gen { sp_pct: *r.pick(&[10, 30, 60]), floats: r.pct(80), mem: true, raw: RAW, ..Gen::default() };
        let mut helpers = vec![];
        g.mem = false;
        g.depth = 1;
        let ops = g.clone();
        for i in 0..1 + r.us(2) {
            let mut g = Gen { helpers: i as u32, ..ops.clone() };
            g.raw = &["2dup xor drop ?stacks", "me +", "s\" abc def\" + +", "dup aligned faligned drop"];
            helpers.push(g.body(r, 3));
        }
        g.mem = true;
        g.depth = 3;
        g.helpers = helpers.len() as u32;
        let size = if th { 4 + r.us(20) as u32 } else { 3 + r.us(10) as u32 };
        let mut one = |r: &mut Rng, g: &Gen, p: u64| {
            let mut b = g.body(r, size);
            // Time does not pass on its own on the first host.
            fn clean(b: &mut Vec<Stmt>) {
                b.retain(|s| !matches!(s, Stmt::Raw(t) if t == "3 ms" || t == "1 ms"));
                for s in b.iter_mut() {
                    match s {
                        Stmt::R(b) | Stmt::Rr(b) | Stmt::Do(_, b) | Stmt::Ploop(_, _, b) | Stmt::Qdo(_, b) | Stmt::Leave(_, _, b) | Stmt::Until(_, b) | Stmt::While(_, b) | Stmt::Goto(b) | Stmt::Sub(_, b) => clean(b),
                        Stmt::If(_, a, b) => {
                            clean(a);
                            clean(b)
                        }
                        Stmt::Case(a, b, c) => {
                            clean(a);
                            clean(b);
                            clean(c)
                        }
                        _ => {}
                    }
                }
            }
            if host == 0 {
                clean(&mut b);
            }
            if r.pct(p) {
                let at = r.us(b.len() + 1);
                b.insert(at, Stmt::Raw(r.pick(FAILS).to_string()));
            }
            b
        };
        let tasks = (0..1 + r.us(4)).map(|_| one(r, &g, 30)).collect();
        let words = (0..1 + r.us(3)).map(|_| one(r, &g, 40)).collect();
        let calls = (0..1 + r.us(4)).map(|_| (r.us(3) as u32, r.pct(30))).collect();
        let sched = (0..r.us(200)).map(|_| r.weighted(&[3, 5, 1]) as u8).collect();
        Plan { host, helpers, tasks, words, calls, sched, step: *r.pick(&[1u32, 50, 700]), start: r.us(64) as u8, fac: r.pct(40) }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        crate::with_host!(p.host, go(p, out))
    }
}
