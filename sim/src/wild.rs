//! A virtual machine whose program has gone wild: it gives words any numbers
//! and addresses, stores what it likes wherever it may, and bits of its data
//! space flip while it runs. The host and the virtual machines beside it must
//! not notice (C19).
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut};
use rtforth::memory::Memory;
use serde::{Deserialize, Serialize};

/// A place: what it is counted from, which one, and how far off.
pub type P = (u8, u32, i64);

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum T {
    /// Any word.
    W(u32),
    /// A number.
    N(P),
    /// Text.
    L(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Flip {
    /// Steps after the one before.
    pub after: u32,
    pub at: P,
    /// A bit is flipped, or the cell becomes this.
    pub bit: u8,
    pub put: Option<P>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Line {
    pub t: Vec<T>,
    pub flips: Vec<Flip>,
    /// What the host does afterwards: 0 as usual, 1 nothing, 2 only resets.
    pub after: u8,
    /// It goes on where it was for a while, without a new line.
    pub more: bool,
}

/// A fetch, store or move: which one, where, to where, and a value or length.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Access {
    pub op: u8,
    pub at: P,
    pub to: P,
    pub n: i64,
}

/// A number that may name nothing: what for, and the number counted from the
/// first one that names nothing.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Naming {
    pub op: u8,
    pub n: i64,
    pub from_zero: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    #[serde(default)]
    pub namings: Vec<Naming>,
    #[serde(default)]
    pub accesses: Vec<Access>,
    pub host: u8,
    pub beside: u8,
    pub handler: u8,
    pub tight: u32,
    pub lines: Vec<Line>,
    pub slice: u32,
}

const STEPS: u32 = 4000;
const SLOT: usize = 8;
/// Inaccessible.
const NOWHERE: usize = 0x0fff_0000_0000;

const BESIDE: &str = "variable n variable k create cells5 1 , 2 , 3 , 4 , 5 ,
: tick n @ 7 * 3 + 1000003 mod n ! 1 k +! k @ 5 mod cells * cells5 + dup @ 1+ swap ! ;
: other 2 activate begin tick pause again ;
: job 0 begin 1+ dup 3 mod 0= if tick then pause again ;
marker forget-me : inner 5 0 do i drop loop ;
other";

trait Vm {
    fn give(&mut self, t: &str) -> bool;
    fn steps(&mut self, n: u32) -> bool;
    fn place(&mut self, p: &P, other: (usize, usize, usize)) -> usize;
    fn word(&mut self, n: u32) -> String;
    fn range(&mut self) -> (usize, usize, usize);
    fn after(&mut self, n: u8);
    fn look(&mut self) -> (Option<i64>, u64);
    fn prelude(&mut self, handler: u8, tight: u32);
    fn trim(&mut self);
    fn start_beside(&mut self);
    fn print(&mut self) -> u64;
    fn access(&mut self, a: &Access, other: (usize, usize, usize)) -> Result<bool, String>;
    fn naming(&mut self, a: &Naming, k: usize) -> Result<bool, String>;
}
struct G<H: Host>(Box<H>);
impl<H: Host> Vm for G<H> {
    fn give(&mut self, t: &str) -> bool {
        let vm = &mut *self.0;
        match vm.find("evaluate-input") {
            Some(xt) => {
                sut(|| {
                    // The operator task reads it.
                    vm.set_current_task(0);
                    vm.set_source(t);
                    vm.execute_word(xt)
                });
                true
            }
            None => false,
        }
    }
    fn steps(&mut self, n: u32) -> bool {
        let vm = &mut *self.0;
        sut(|| {
            for _ in 0..n {
                if !vm.forth() {
                    return false;
                }
                // The host takes the output from time to time.
                if let Some(b) = vm.output_buffer().as_mut() {
                    if b.len() > 1 << 20 {
                        b.clear();
                    }
                }
            }
            true
        })
    }
    fn place(&mut self, p: &P, other: (usize, usize, usize)) -> usize {
        let vm = &mut *self.0;
        let (start, here, limit) = (vm.data_space().start(), vm.data_space().here(), vm.data_space().limit());
        let n = vm.wordlist().len();
        let from = match p.0 % 14 {
            0 => here,
            1 => start,
            2 => limit,
            3 => vm.wordlist()[p.1 as usize % n].dfa(),
            4 => vm.wordlist()[p.1 as usize % n].nfa(),
            5 => 0,
            6 => [0, usize::MAX, isize::MAX as usize, isize::MIN as usize][p.1 as usize % 4],
            7 => other.0,
            8 => other.1,
            9 => (p.1 as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) as usize,
            10 => p.1 as usize % n,
            11 => n,
            12 => [NOWHERE, other.2, start - 4096, limit + 4096][p.1 as usize % 4],
            _ => start + p.1 as usize % (limit - start),
        };
        from.wrapping_add(p.2 as usize)
    }
    fn word(&mut self, n: u32) -> String {
        let vm = &mut *self.0;
        let k = 1 + n as usize % (vm.wordlist().len() - 1);
        let nfa = vm.wordlist()[k].nfa();
        String::from_utf8_lossy(unsafe { vm.data_space().get_str(nfa) }.as_bytes()).into_owned()
    }
    fn range(&mut self) -> (usize, usize, usize) {
        let d = self.0.data_space();
        (d.start(), d.here(), d.limit())
    }
    fn after(&mut self, n: u8) {
        let vm = &mut *self.0;
        match n % 3 {
            0 => {
                sut(|| vm.state().instruction_pointer = 0);
                recover(vm)
            }
            1 => {}
            _ => sut(|| vm.reset()),
        }
    }
    /// The host looks at the virtual machine.
    fn look(&mut self) -> (Option<i64>, u64) {
        let vm = &mut *self.0;
        let e = vm.last_error().map(|e| {
            let n: isize = e.into();
            n as i64
        });
        sut(|| {
            for w in ["dup", "evaluate-input", "w1", "m2", "no such word", ""] {
                let _ = vm.find(w);
            }
            let _ = format!("{:?}", vm.s_stack());
            let _ = format!("{:?}", vm.f_stack());
            let _ = vm.last_token().as_ref().map(|t| t.len());
        });
        let mut h = Fnv::new();
        h.u64(e.unwrap_or(0) as u64);
        h.u64(vm.s_stack().len as u64 | (vm.r_stack().len as u64) << 8 | (vm.current_task() as u64) << 16 | (vm.state().is_compiling as u64) << 24);
        h.u64(vm.wordlist().len() as u64);
        (e, h.0)
    }
    fn prelude(&mut self, handler: u8, tight: u32) {
        let vm = &mut *self.0;
        let h = match handler % 3 {
            0 => "bye",
            1 => ".token flush-output bye",
            _ => "decimal error . .token .backtrace flush-output bye",
        };
        load(vm, &format!("variable ticks 0 ticks !\n: onerr me 1 = if {} else reset nod then ;\n' onerr handler!\n: ticker 2 activate begin 1 ticks +! pause again ; ticker\nmarker m0 : w0 5 ; variable v0 create b0 200 allot : mk create , does> @ ; 7 mk d0", h));
        if tight > 0 {
            let room = vm.data_space().limit() - vm.data_space().here();
            if room > tight as usize {
                vm.data_space().allot((room - tight as usize) as isize & !15);
            }
        }
    }
    fn trim(&mut self) {
        if let Some(b) = self.0.output_buffer().as_mut() {
            b.clear();
        }
    }
    fn start_beside(&mut self) {
        load(&mut *self.0, BESIDE);
        self.give("job");
    }
    fn print(&mut self) -> u64 {
        let vm = &mut *self.0;
        let (a, z, _) = (vm.data_space().start(), vm.data_space().here(), 0);
        let mut h = Fnv::new();
        h.bytes(unsafe { std::slice::from_raw_parts(a as *const u8, z - a) });
        h.u64(z as u64);
        for x in data(vm) {
            h.i64(x);
        }
        for x in slice(vm.r_stack()) {
            h.i64(x as i64);
        }
        h.u64(vm.current_task() as u64);
        h.u64(vm.wordlist().len() as u64);
        h.u64(vm.last_error().is_some() as u64);
        h.u64(vm.output_buffer().as_ref().map(|b| b.len()).unwrap_or(0) as u64);
        h.u64(vm.find("inner").unwrap_or(0) as u64);
        h.u64(vm.state().instruction_pointer as u64);
        h.0
    }
    fn access(&mut self, a: &Access, other: (usize, usize, usize)) -> Result<bool, String> {
        let (at, to) = (self.place(&a.at, other), self.place(&a.to, other));
        let vm = &mut *self.0;
        let (start, limit) = (vm.data_space().start(), vm.data_space().limit());
        let inside = |x: usize, n: usize| x >= start && x <= limit && n <= limit - x;
        let mem = |start: usize| unsafe { std::slice::from_raw_parts(start as *const u8, limit - start) };
        let mut want = mem(start).to_vec();
        // The first cell is nobody's.
        if at >= start && at < start + 8 || to >= start && to < start + 8 {
            return Ok(false);
        }
        // Floats are aligned first.
        let at = if a.op % 7 == 4 || a.op % 7 == 5 { at & !7 } else { at };
        let n = a.n;
        let cell = |w: &[u8], x: usize| i64::from_le_bytes(w[x - start..x - start + 8].try_into().unwrap());
        let (text, ok, push): (String, bool, Option<i64>) = match a.op % 7 {
            0 => (format!("{} @", number(at)), inside(at, 8), if inside(at, 8) { Some(cell(&want, at)) } else { None }),
            1 => {
                let ok = inside(at, 8) && at >= start + 16;
                if ok {
                    want[at - start..at - start + 8].copy_from_slice(&n.to_le_bytes());
                }
                if inside(at, 8) && !ok {
                    return Ok(false);
                }
                (format!("{} {} !", number(n as usize), number(at)), ok, None)
            }
            2 => (format!("{} c@", number(at)), inside(at, 1), if inside(at, 1) { Some(want[at - start] as i64) } else { None }),
            3 => {
                let ok = inside(at, 1) && at >= start + 16;
                if ok {
                    want[at - start] = n as u8;
                }
                if inside(at, 1) && !ok {
                    return Ok(false);
                }
                (format!("{} {} c!", number(n as usize), number(at)), ok, None)
            }
            4 => (format!("{} f@ fdrop", number(at)), inside(at, 8), None),
            5 => {
                let ok = inside(at, 8) && at >= start + 16;
                if ok {
                    want[at - start..at - start + 8].copy_from_slice(&2.5f64.to_le_bytes());
                }
                if inside(at, 8) && !ok {
                    return Ok(false);
                }
                (format!("2.5e {} f!", number(at)), ok, None)
            }
            _ => {
                // No length, or a negative one: nothing is moved.
                let ok = n <= 0 || inside(at, n as usize) && inside(to, n as usize);
                if ok && n > 0 {
                    if to < start + 16 {
                        return Ok(false);
                    }
                    want.copy_within(at - start..at - start + n as usize, to - start);
                }
                (format!("{} {} {} move", number(at), number(to), number(n as usize)), ok, None)
            }
        };
        // Code it needs to go on with is not overwritten here.
        let here = vm.data_space().here();
        let dst = if a.op % 7 == 6 { to } else { at };
        if ok && [1, 3, 5, 6].contains(&(a.op % 7)) && dst < here && !(a.op % 7 == 6 && n <= 0) {
            return Ok(false);
        }
        let err = line(vm, &text);
        let left = data(vm);
        let got = mem(start);
        if let Some(i) = (16..want.len()).find(|&i| want[i] != got[i]) {
            return Err(format!("{}: byte {} of the data space is {} instead of {}", text, i, got[i], want[i]));
        }
        match (ok, err) {
            (true, Some(e)) => return Err(format!("{}: error {}", text, e)),
            (false, None) => return Err(format!("{}: no error outside the data space {:x}..{:x}", text, start, limit)),
            (false, Some(e)) if e != -9 => return Err(format!("{}: error {}", text, e)),
            _ => {}
        }
        if ok && left != push.into_iter().collect::<Vec<_>>() {
            return Err(format!("{}: stack {:?} instead of {:?}", text, left, push));
        }
        recover(vm);
        Ok(!ok)
    }
    /// A number that names no word, task, label or source is refused; a label
    /// that is there is not.
    fn naming(&mut self, a: &Naming, k: usize) -> Result<bool, String> {
        let vm = &mut *self.0;
        let (lo, n) = match a.op % 14 {
            0..=2 => (0, vm.wordlist().len()),
            3..=5 => (1, rtforth::NUM_TASKS + 1),
            6..=8 => (1, 1000),
            _ => (1, 1 + vm.sources().len()),
        };
        let x = (if a.from_zero { lo } else { n as i64 }).wrapping_add(a.n);
        let there = x >= lo && x < n as i64;
        let s = number(x as usize);
        let text = match a.op % 14 {
            0 => format!("{} execute", s),
            1 => format!("{} >body drop", s),
            2 => format!("{} >name drop", s),
            3 => format!("{} suspend", s),
            4 => format!("{} resume", s),
            5 => format!(": nm{} {} activate nod ; nm{}", k, s, k),
            6 => format!("0labels : nm{} [ {} ] goto [ {} ] label ; nm{}", k, s, s, k),
            7 => format!("0labels : nm{} [ {} ] label ; nm{}", k, s, k),
            8 => format!("0labels : nm{} [ {} ] call exit [ {} ] label ; nm{}", k, s, s, k),
            9 => format!("{} load-line 2drop", s),
            10 => format!("{} .source-path", s),
            11 => format!("{} .source-line", s),
            12 => format!("{} close-source", s),
            _ => format!("{} source-id!", s),
        };
        // What the others do is found out elsewhere.
        if there && !(6..=8).contains(&(a.op % 14)) || a.op % 14 == 13 && x == 0 {
            return Ok(false);
        }
        let err = line(vm, &text);
        let d = match err {
            Some(e) if there => Some(format!("error {}", e)),
            None if !there => Some("no error".to_string()),
            _ => None,
        };
        if let Some(d) = d {
            return Err(format!("{}: {} where {} to {} are there", text, d, lo, n as i64 - 1));
        }
        recover(vm);
        let err = line(vm, "1 2 +");
        let left = data(vm);
        if err.is_some() || left != [3] {
            return Err(format!("after {}: 1 2 + gives {:?}, error {:?}", text, left, err));
        }
        recover(vm);
        Ok(!there)
    }
}
fn boxed<H: Host + 'static>() -> Box<dyn Vm> {
    Box::new(G(H::make()))
}
fn make(host: u8, slot: usize) -> Box<dyn Vm> {
    crate::alloc::from_slot(slot);
    crate::with_host!(host, boxed())
}

fn number(x: usize) -> String {
    let x = x as isize;
    if x >= 0 {
        format!("${:x}", x)
    } else if x == isize::MIN {
        "$-7fffffffffffffff 1-".into()
    } else {
        format!("$-{:x}", -x)
    }
}

fn files() {
    sim().fs.put("good", b"42 drop\n");
    sim().fs.put("f", b"abc\ndef\n");
}

fn go(p: &Plan, out: &mut Outcome) {
    if p.lines.len() > 40 || p.slice < 10 || p.slice > 2000 || p.tight > 0 && p.tight < 2000 {
        out.invalid = true;
        return;
    }
    new_ctx(&[]);
    files();
    let verbose = std::env::var_os("RTSIM_VERBOSE").is_some();
    let mut vm = make(p.host, 0);
    vm.prelude(p.handler, p.tight);
    let mut beside = make(p.beside, SLOT);
    beside.start_beside();
    let other = beside.range();
    let mut refused = 0;
    for a in &p.accesses {
        match vm.access(a, other) {
            Ok(r) => refused += r as u64,
            Err(d) => return out.fail("access", d),
        }
    }
    out.count("accesses refused", refused);
    let mut refused = 0;
    for (k, a) in p.namings.iter().enumerate() {
        match vm.naming(a, k) {
            Ok(r) => refused += r as u64,
            Err(d) => return out.fail("naming", d),
        }
    }
    out.count("names of nothing refused", refused);
    vm.trim();
    let mut turns: u64 = 0;
    let mut h = Fnv::new();
    let (mut steps, mut flips, mut errs, mut endless) = (0u64, 0u64, 0u64, 0u64);
    for (ln, l) in p.lines.iter().enumerate() {
        let mut t = String::new();
        for x in &l.t {
            let s = match x {
                T::W(n) => vm.word(*n),
                T::N(at) => number(vm.place(at, other)),
                T::L(s) => s.clone(),
            };
            if t.len() + s.len() < 20_000 {
                t.push_str(&s);
                t.push(' ');
            }
        }
        if verbose {
            let s = format!("line {}: {:?}\n", ln, t);
            eprint!("{}", s);
        }
        let given = if l.more { true } else { vm.give(&t) };
        let mut left = STEPS;
        let mut more = given;
        let mut fl = l.flips.iter();
        let mut next = fl.next();
        let mut due = next.map(|f| f.after).unwrap_or(0);
        while more && left > 0 {
            let mut n = p.slice.min(left);
            if next.is_some() {
                n = n.min(due.max(1));
            }
            more = vm.steps(n);
            left -= n;
            steps += n as u64;
            if let Some(f) = next {
                due = due.saturating_sub(n);
                if due == 0 {
                    let at = vm.place(&f.at, other);
                    let (a, _, z) = vm.range();
                    match &f.put {
                        Some(v) if at >= a && at <= z - 8 => {
                            let x = vm.place(v, other);
                            unsafe { std::ptr::write_unaligned(at as *mut usize, x) };
                            sim().fire("cell of the data space overwritten".into());
                            flips += 1;
                            if verbose {
                                eprintln!("  cell at +{:x} := {:x}", at - a, x);
                            }
                        }
                        None if at >= a && at < z => {
                            unsafe { *(at as *mut u8) ^= 1 << (f.bit & 7) };
                            sim().fire("bit of the data space flipped".into());
                            flips += 1;
                            if verbose {
                                eprintln!("  bit {} at +{:x}", f.bit & 7, at - a);
                            }
                        }
                        _ => {}
                    }
                    next = fl.next();
                    due = next.map(|f| f.after).unwrap_or(0);
                }
            }
            // The one beside has its slice.
            if turns < 3000 {
                turns += 1;
                beside.steps(40);
            }
            if sim().fs.total() > 64 << 20 || sim().stdout.len() > 16 << 20 {
                sim().stdout.clear();
                files();
                more = false;
            }
        }
        let (e, st) = vm.look();
        out.states.push(st);
        h.u64(st);
        if e.is_some() {
            errs += 1;
        }
        if more {
            endless += 1;
        }
        if verbose {
            eprintln!("  error {:?}, {} steps left, more {}", e, left, more);
        }
        sim().evn(e.unwrap_or(0));
        if l.after % 3 == 0 || !more {
            vm.after(l.after);
        }
        vm.trim();
    }
    let got = beside.print();
    sut(|| drop(vm));
    // It goes on without the other one.
    beside.steps(400);
    let got2 = beside.print();
    sut(|| drop(beside));
    // The same one with nothing beside it.
    files();
    let mut alone = make(p.beside, SLOT);
    alone.start_beside();
    for _ in 0..turns {
        alone.steps(40);
    }
    let want = alone.print();
    alone.steps(400);
    let want2 = alone.print();
    sut(|| drop(alone));
    if want != got || want2 != got2 {
        return out.fail("neighbour-disturbed", format!("the virtual machine beside it is not what it is on its own after {} slices", turns));
    }
    // A new one in the place of the old one.
    crate::alloc::from_slot(0);
    let mut vm = Mock::make();
    load(&mut *vm, ": s 0 swap 0 do i + loop ; 5 s variable x 7 x ! x @ marker m : t 3 ; t m");
    if data(&mut *vm) != [10, 7, 3] {
        return out.fail("host-damaged", format!("a new virtual machine computes {:?}", data(&mut *vm)));
    }
    sut(|| drop(vm));
    out.sched = h.0;
    out.count("steps", steps);
    out.count("lines with an error", errs);
    out.count("lines that did not end", endless);
    out.count(&format!("host {}", ["src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs"][p.host.min(2) as usize]), 1);
    out.nontrivial = errs > 0 || endless > 0 || flips > 0;
}

/// Ways to go wrong: {a} a place, {n} a number, {x} a token, {w} any word,
/// {k} a new name.
const WAYS: &[&str] = &[
    "{n} {a} !", "{n} {a} c!", "{a} @", "{a} c@", "{x} execute", "{x} {a} !", ": w{k} {x} {a} ! {w} ; w{k}", ": w{k} {a} >r ; w{k}", ": w{k} {a} >r {a} >r ; w{k}", ": w{k} r> drop ; w{k}", ": w{k} {w} {w} {w} ;", "w{j}", "w{j} w{j}", "marker m{k} {n} ' m{k} >body {c} cells + ! m{k}", "marker m{k} {x} ' m{k} >body {c} cells + ! m{k} : w{k} 1 ; w{k}", "marker m{k} ' m{k} >body 0 cells + {n} swap ! m{k} immediate", "m{j}", "m0",
    "' lit {a} ! : w{k} {a} >r ; w{k}", "' lit limit! : w{k} lastcell >r ; w{k}", "' flit limit! : w{k} lastcell >r ; w{k}", "' branch limit! : w{k} lastcell >r ; w{k}", "' 0branch limit! : w{k} 0 lastcell >r ; w{k}", "' _do limit! : w{k} lastcell >r ; w{k}", "' _qdo limit! : w{k} 1 1 lastcell >r ; w{k}", "' _loop limit! : w{k} lastcell >r ; w{k}", "' _+loop limit! : w{k} 1 lastcell >r ; w{k}", "' _s\" limit! : w{k} lastcell >r ; w{k}", "' _postpone limit! : w{k} lastcell >r ; w{k}", "{x} limit! : w{k} lastcell >r ; w{k}", ": w{k} lastcell >r ; {n} lastcell ! w{k}",
    ": w{k} 0labels [ 1 ] goto [ {n} here 8 - ! ] [ 1 ] label ; w{k}", ": w{k} 0labels [ 1 ] goto [ {a} here 8 - ! ] [ 1 ] goto [ 1 ] label ;", ": w{k} 0labels [ 1 ] goto [ 1 ] goto [ here 8 - dup ! ] [ 1 ] label ;", ": w{k} 0labels [ 2 ] label [ {n} allot ] [ 2 ] goto [ 3 ] goto [ {n} allot ] [ 3 ] label ; w{k}", ": w{k} if [ {n} allot ] then ; 1 w{k}", ": w{k} 5 0 do [ {n} here 8 - ! ] i loop ; w{k}", ": w{k} do [ {n} allot ] loop ;", ": w{k} case 1 of [ {n} allot ] 2 endof endcase ; 1 w{k}", ": w{k} begin [ {n} allot ] dup while [ {n} allot ] repeat ; 0 w{k}",
    "{n} allot", "{n} allot create c{k} 5 ,", "{a} here - allot", "{a} here - allot : w{k} 1 2 + ; w{k}", "{a} {n} type", "{a} {n} dump", "{a} {a} {n} move", "{a} {n} {n} fill", "{a} count type", "{a} {n} included", "{a} {n} 0 open-file", "{a} {n} 1 create-file", "{a} {n} {n} write-file", "{a} {n} {n} read-file", "{a} {n} delete-file", "{a} {n} {n} open-source", "{n} load-line", "{n} .source-path", "{n} .source-line", "{n} close-file", "s\" f\" 0 open-file", "s\" f\" 2 open-file", "{n} file-position", "{n} {n} resize-file", "{n} {n} {n} reposition-file",
    "{n} base !", "{n} base ! {n} .", "{n} .", "{n} {n} .r", "{n} h.r", "{n} {n} 1e f.r", "{n} {n} {n} f.r", "{n} emit", "{n} spaces", "{n} pick", "{n} {n} lshift", "{n} {n} rshift", "{n} {n} /", "{n} {n} mod", "{n} {n} /mod", "{n} suspend", "{n} resume", ": w{k} {n} activate {w} nod ; w{k}", "{n} source-id!", "{n} source-idx!", "{n} parse", "{n} word", "{n} _skip", "{x} handler!", "{x} handler! abort", "{n} handler! xyzzy", "0labels {n} {n} goto", "{n} >body @", "{n} >name", "{x} >body {n} swap !", "{x} >body {x} swap !", "{x} >name {n} swap !", "{x} >name count type", "{x} .word", "words", ".s", "{a} f@ f.", "1e {a} f!", "{a} 2@", "1 2 {a} 2!", "{n} ms", "{n} include-id !", "{n} load-line# !", "{n} include-task !", "{a} {n} append", "{a} {n} /string type", "{n} literal", "{n} compile,", "{n} {a} (xtime)", "{n} xtime", ".xtime", ".backtrace", ".error", ".memory", ".input", "{n} +field x{k} 5 x{k}", "src-stack 100 dump", "{n} src-stack {c} cells + !", "{n} src-lines {c} cells + ! include good", "restore-source", "save-source", "restore-input", "save-input", "abandon-includes", "load-source-file", "compile-token", ": w{k} compile-token ; w{k}", ": w{k} interpret-token ; w{k}", "!token", "{a} {n} !token", "{a} {n} !token .token", "' w0 >body {n} swap ! w0", "' w0 >body {x} swap ! w0", "' w0 >body {x} over ! cell+ {n} swap ! w0", "' w0 >body {x} over ! cell+ {a} swap ! w0",
    "' evaluate-input >body {c} cells + {x} swap !", "' evaluate-input >body {c} cells + {n} swap !", "' onerr >body {c} cells + {x} swap ! abort", "immediate", "create c{k} does> {w}", "mk", "{x} mk c{k} c{k}", "d0 execute", "defer f{k} {x} ' f{k} defer! f{k}", "defer f{k} {n} ' f{k} defer! f{k}", "[ ] ] ]", "] {w} [", "postpone {w}", "recurse", ": w{k} recurse ; w{k}", ": w{k} begin {w} again ; w{k}", ": w{k} 100 0 do {n} loop ; w{k}", ": w{k} 100 0 do 1e loop ; w{k}", ": w{k} 300 0 do {w} loop ; w{k}", "0stacks", "reset", "abort", "bye", "xyzzy", "char", "include good", "include f", "pause", "unloop", "leave", "exit", ": w{k} unloop ; w{k}", ": w{k} leave ; w{k}", ": w{k} {n} {n} do leave loop ; w{k}", ": w{k} {n} {n} {n} >r >r >r _loop ; w{k}", ": w{k} {a} {n} {n} >r >r >r leave ; w{k}", ": w{k} {a} >r {n} >r {n} >r i j {w} ; w{k}",
];

fn place(r: &mut Rng) -> P {
    match r.weighted(&[6, 2, 3, 4, 2, 3, 2, 2, 2, 2, 2, 1, 2, 3]) {
        k @ 0..=2 | k @ 7 | k @ 8 => (k as u8, 0, *r.pick(&[0i64, 0, -8, -8, -16, -4, -1, 1, 8, 16, 24, -24, -64, -600, 100])),
        k @ 3 | k @ 4 => (k as u8, r.next() as u32, *r.pick(&[0i64, 0, 8, 16, 24, -8, 1, 40, 520])),
        5 => (5, 0, *r.pick(&[0i64, 1, -1, 2, 3, 5, 6, 7, 8, 9, 10, 16, 31, 32, 33, 63, 64, 65, 100, 255, 256, 1000, 1001, 4096, 65535, -5, -8, -100, -10000, 100000, 1 << 31, 1 << 32, 1 << 40])),
        k => (k as u8, r.next() as u32, *r.pick(&[0i64, 0, 0, 1, -1, 8, -8])),
    }
}
fn tok(r: &mut Rng) -> P {
    (10, r.next() as u32, 0)
}

pub struct C19;
impl Check for C19 {
    type Plan = Plan;
    const ID: &'static str = "C19";
    const QUICK: u64 = 180_000;
    const THOROUGH: u64 = 3_000_000;
    const RULE: &'static str = "lines of any words with any numbers, addresses, tokens and return addresses, stores into compiled code, names, markers and buffers, and bits and cells of the data space that flip while it runs, on one virtual machine beside another one that works; the host, the other one and a new one afterwards must not notice; non-trivial with an error, a flip or a program that does not end; distinct by error, depths and task after each line";
    const REAL: &'static [&'static str] = &["core.fth", "src/*.rs", "examples/vm.rs", "rtf/src/main.rs (VM)"];
    const STUB: &'static [&'static str] = &["disk and descriptors", "clock", "terminal device"];
    const STATE_MEASURE: &'static str = "hash of the error, the stack depths, the task, the compilation state and the number of words after a line";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let mut k = 0;
        let flippy = *r.pick(&[0u64, 0, 10, 50]);
        let mut lines = Vec::new();
        for _ in 0..2 + r.us(if th { 24 } else { 14 }) {
            let mut t: Vec<T> = Vec::new();
            for _ in 0..1 + r.weighted(&[6, 3, 1]) {
                match r.weighted(&[12, 3, 3]) {
                    0 => {
                        k += 1;
                        for w in r.pick(WAYS).split(' ') {
                            let x = match w {
                                "{a}" => T::N(loop {
                                    let p = place(r);
                                    if p.0 != 5 && p.0 != 6 || r.pct(20) {
                                        break p;
                                    }
                                }),
                                "{n}" => T::N(place(r)),
                                "{x}" => T::N(tok(r)),
                                "{w}" => T::W(r.next() as u32),
                                "{c}" => T::L(r.us(66).to_string()),
                                "limit!" => {
                                    t.push(T::N((2, 0, -8)));
                                    T::L("!".into())
                                }
                                "lastcell" => T::N((2, 0, *r.pick(&[-8i64, -8, -8, -9, -7, -16]))),
                                w => T::L(w.replace("{k}", &k.to_string()).replace("{j}", &r.us(k + 1).to_string())),
                            };
                            t.push(x);
                        }
                    }
                    1 => {
                        for _ in 0..r.us(4) {
                            t.push(T::N(place(r)));
                        }
                        t.push(T::W(r.next() as u32));
                    }
                    _ => {
                        k += 1;
                        t.push(T::L(format!(": w{}", k)));
                        for _ in 0..1 + r.us(6) {
                            t.push(if r.pct(40) { T::N(place(r)) } else { T::W(r.next() as u32) });
                        }
                        t.push(T::L(format!("; w{}", k)));
                    }
                }
            }
            let mut flips = Vec::new();
            if r.pct(flippy) {
                for _ in 0..1 + r.us(4) {
                    let at = match r.us(8) {
                        0 => (13, r.next() as u32, 0),
                        1 | 2 => (3, r.next() as u32, 8 * r.us(6) as i64),
                        3 => (0, 0, -(r.us(200) as i64)),
                        4 => (4, r.next() as u32, r.us(16) as i64),
                        5 => (1, 0, r.us(16) as i64),
                        _ => place(r),
                    };
                    let put = if r.pct(50) { None } else { Some(place(r)) };
                    flips.push(Flip { after: if r.pct(50) { r.us(40) } else { r.us(1500) } as u32, at, bit: r.us(8) as u8, put });
                }
            }
            lines.push(Line { t, flips, after: r.weighted(&[10, 1, 1]) as u8, more: r.pct(4) });
        }
        let accesses = if !r.pct(30) {
            vec![]
        } else {
            (0..1 + r.us(4)).map(|_| Access { op: r.us(7) as u8, at: place(r), to: place(r), n: match r.us(4) { 0 => r.us(40) as i64, 1 => r.int(), 2 => *r.pick(&[8i64, 16, 600, 1 << 20, -1, -8, i64::MIN, i64::MAX]), _ => r.us(5000) as i64 } }).collect()
        };
        let namings = if !r.pct(25) {
            vec![]
        } else {
            (0..1 + r.us(4)).map(|_| Naming { op: r.us(14) as u8, n: if r.pct(10) { r.int() } else { *r.pick(&[0i64, 0, 1, -1, -1, 2, 10, -2, 1 << 32, (1 << 32) + 1, -(1 << 32), i64::MAX, i64::MIN]) }, from_zero: r.pct(35) }).collect()
        };
        Plan { namings, accesses, host: r.weighted(&[6, 3, 1]) as u8, beside: r.weighted(&[3, 2, 0]) as u8, handler: r.us(3) as u8, tight: if r.pct(15) { 2000 + r.us(3000) as u32 } else { 0 }, lines, slice: *r.pick(&[50u32, 200, 1000]) }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        go(p, out)
    }
}
