//! Names: histories of definitions, failed definitions, redefinitions and
//! markers against a model of the dictionary.
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut};
use rtforth::memory::Memory;
use serde::{Deserialize, Serialize};

const LONG: &str = "a-name-of-more-than-sixty-characters-that-goes-on-and-on-and-on-to-the-ena_";
/// As LONG up to the last two characters, and of its hash value.
const LONG2: &str = "a-name-of-more-than-sixty-characters-that-goes-on-and-on-and-on-to-the-enb>";
/// Names used, with what they mean before anything is defined: text and result.
const NAMES: &[(&str, Option<(&str, &[i64])>)] = &[
    ("w0", Some(("{}", &[7]))),
    ("alpha", None),
    ("Beta", None),
    ("x'y", None),
    ("q", None),
    ("q2", None),
    ("Ab", None),
    ("bA", None),
    ("aB!", None),
    (LONG, None),
    ("12", Some(("{}", &[12]))),
    ("$fF", Some(("{}", &[255]))),
    ("nip", Some(("1 2 {}", &[2]))),
    ("tuck", Some(("1 2 {}", &[2, 1, 2]))),
    ("over", Some(("1 2 {}", &[1, 2, 1]))),
    ("rot", Some(("1 2 3 {}", &[2, 3, 1]))),
    ("2*", Some(("5 {}", &[10]))),
    ("max", Some(("3 4 {}", &[4]))),
    ("negate", Some(("5 {}", &[-5]))),
    ("bl", Some(("{}", &[32]))),
    ("ff", None),
    ("1e5x", None),
    ("-", Some(("7 3 {}", &[4]))),
    ("swap", Some(("7 3 {}", &[3, 7]))),
    (LONG2, None),
    // Of one hash value.
    ("ha_", None),
    ("hb>", None),
    // Case is that of ASCII.
    ("é", None),
    ("É", None),
    ("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef-", None),
];
fn is_number(n: usize) -> bool {
    matches!(NAMES[n].0, "12" | "$fF")
}
fn cased(n: usize, bits: u32) -> String {
    let mut b = bits;
    NAMES[n]
        .0
        .chars()
        .map(|c| {
            b = b.rotate_left(1);
            if !c.is_ascii_alphabetic() {
                c
            } else if b & 1 != 0 {
                c.to_ascii_uppercase()
            } else {
                c.to_ascii_lowercase()
            }
        })
        .collect()
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    /// Name, value, names called.
    Colon(u32, i64, Vec<u32>),
    Var(u32, i64),
    Con(u32, i64),
    Child(u32, i64),
    Defer(u32, u32),
    SetDefer(u32, u32),
    Store(u32, i64),
    Imm(u32, i64),
    Fail(u32, u32),
    Begun(u32, u32),
    Marker(u32),
    /// Name, way of using it.
    Use(u32, u32),
    Allot(u32),
    /// Leave n bytes.
    Fill(u32),
    Turns(u32),
    BgFail,
    /// Let a background task start again.
    Bg,
    /// List the names.
    Words,
    /// Name, value, length of the definition in cells.
    Long(u32, i64, u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub op: Op,
    /// Letter case of the names.
    pub case: u32,
    /// 0 at the terminal, 1 over several lines, 2 included, 3 included over several lines.
    pub how: u8,
    /// Turns of other tasks in the middle.
    pub sp: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub host: u8,
    pub bg: bool,
    pub steps: Vec<Step>,
    pub sched: Vec<u8>,
}

#[derive(Clone, Debug)]
enum Kind {
    Seq(Vec<Part>),
    Var(usize),
    Val(i64),
    Defer(usize),
    /// The data-space pointer.
    Marker(usize),
    /// Helper word of a query.
    Temp(&'static str),
}
#[derive(Clone, Debug)]
enum Part {
    Lit(Vec<i64>),
    Ref(usize),
}
struct Word {
    name: usize,
    kind: Kind,
}
#[derive(Default)]
struct Model {
    words: Vec<Word>,
    cells: Vec<i64>,
}
const TEMP: usize = usize::MAX;

enum Found {
    Word(usize),
    Base,
    None,
}
impl Model {
    fn find(&self, n: usize) -> Found {
        for i in (0..self.words.len()).rev() {
            if self.words[i].name == n {
                return Found::Word(i);
            }
        }
        if NAMES[n].1.is_some() {
            Found::Base
        } else {
            Found::None
        }
    }
    fn value(&self, i: usize) -> Vec<i64> {
        match &self.words[i].kind {
            Kind::Seq(p) => {
                let mut v = vec![];
                for x in p {
                    match x {
                        Part::Lit(l) => v.extend(l),
                        Part::Ref(j) => v.extend(self.value(*j)),
                    }
                }
                v
            }
            Kind::Var(c) => vec![self.cells[*c]],
            Kind::Val(n) => vec![*n],
            Kind::Defer(j) => {
                if *j == TEMP {
                    vec![]
                } else {
                    self.value(*j)
                }
            }
            Kind::Marker(_) | Kind::Temp(_) => vec![],
        }
    }
}

static mut NOTES: Vec<(i64, Vec<i64>)> = Vec::new();
static mut BG: (i64, i64, u64) = (0, 0, 0);
fn notes() -> &'static mut Vec<(i64, Vec<i64>)> {
    unsafe { &mut *(&raw mut NOTES) }
}
fn w_note<H: Host>(vm: &mut H) {
    let k = vm.s_stack().pop() as i64;
    let s = data(vm);
    vm.s_stack().reset();
    sim().evn(k);
    for x in &s {
        sim().evn(*x);
    }
    notes().push((k, s));
}
fn w_bgnote<H: Host>(vm: &mut H) {
    let n = vm.s_stack().pop() as i64;
    let v = vm.s_stack().pop() as i64;
    let b = unsafe { &mut *(&raw mut BG) };
    b.2 += 1;
    b.1 += 1;
    if v != 7 || n != b.1 {
        stop("earlier-word", format!("the background task's words gave {} {} instead of 7 {}", v, n, b.1));
    }
}
fn w_bgstart<H: Host>(_vm: &mut H) {
    unsafe { (*(&raw mut BG)).1 = 0 };
}

const BASE: &str = ": turn pause ;
: onerr me 1 = if bye then 0error nod ;
' onerr handler!
: w0 7 ;
: mk create , does> @ ;
variable cnt
: tick1 w0 cnt @ 1+ dup cnt ! bgnote ;
: bg2 2 activate 0 cnt ! bgstart begin tick1 pause again ;
: bg3 3 activate begin pause 1 0 / again ;
: bg4 4 activate begin w0 drop pause again ;
: afail abort ; immediate
";

const DF: &[(&str, i64)] = &[
    ("xyzzy", -13),
    ("if ;", -22),
    ("then ;", -22),
    ("do ;", -22),
    ("begin [ 1 0 / ]", -10),
    ("[ abort ]", -1),
    ("afail", -1),
    ("case 1 of ;", -22),
    ("0labels [ 2 ] goto ;", -22),
    ("postpone xyzzy", -13),
    ("[ drop ]", -4),
    ("[ -1 @ ]", -9),
    ("endcase", -22),
];

/// What WORDS shows.
fn listed<H: Host>(vm: &mut H) -> String {
    if let Some(o) = vm.output_buffer().as_mut() {
        o.clear();
    }
    line(vm, "words");
    let t = vm.output_buffer().clone().unwrap_or_default();
    if let Some(o) = vm.output_buffer().as_mut() {
        o.clear();
    }
    t
}

fn go<H: Host>(p: &Plan, out: &mut Outcome) {
    let c = new_ctx(&p.sched);
    notes().clear();
    unsafe { BG = (0, 0, 0) };
    let mut vm = H::make();
    add_words(&mut *vm);
    vm.add_primitive("note", w_note::<H>);
    vm.add_primitive("bgnote", w_bgnote::<H>);
    vm.add_primitive("bgstart", w_bgstart::<H>);
    load(&mut *vm, BASE);
    if p.bg {
        load(&mut *vm, "bg2 bg4 turn turn");
    }
    let base = listed(&mut *vm);
    let mut lists = 0;
    let mut m = Model::default();
    let mut h = Fnv::new();
    let mut k = 5000;
    let (mut defs, mut redefs, mut marks, mut fails, mut uses, mut fulls) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for (sn, st) in p.steps.iter().enumerate() {
        k += 1;
        let nm = |n: &u32| *n as usize % NAMES.len();
        let name = |n: &u32| cased(*n as usize % NAMES.len(), st.case.rotate_left(*n));
        let sp = if st.sp { " sp " } else { " " };
        let csp = if st.sp { " [ sp ] " } else { " " };
        let nl = if st.how & 1 != 0 { "\n" } else { " " };
        let mut text = String::new();
        let mut want_err: Option<i64> = None;
        let mut want_notes: Vec<(i64, Vec<i64>)> = vec![];
        let mut add: Vec<Word> = vec![];
        let mut cut: Option<(usize, usize)> = None;
        let mut store: Option<(usize, i64)> = None;
        let mut retarget: Option<(usize, usize)> = None;
        match &st.op {
            Op::Colon(n, v, calls) => {
                text = format!("{}: {}{}{}{}{} ", sp, name(n), nl, csp, v, nl);
                let mut parts = vec![Part::Lit(vec![*v])];
                let mut len = 1;
                for c in calls {
                    let t = match m.find(nm(c)) {
                        Found::Word(i) => match &m.words[i].kind {
                            Kind::Marker(_) | Kind::Temp(_) => continue,
                            kd => {
                                let l = m.value(i).len();
                                // Deferred words may come to yield more.
                                if len + l > 12 || matches!(kd, Kind::Defer(_)) {
                                    continue;
                                }
                                len += l;
                                parts.push(Part::Ref(i));
                                if matches!(kd, Kind::Var(_)) {
                                    format!("{} @", name(c))
                                } else {
                                    name(c)
                                }
                            }
                        },
                        Found::Base => {
                            let (t, v) = NAMES[nm(c)].1.unwrap();
                            if len + v.len() > 12 {
                                continue;
                            }
                            len += v.len();
                            parts.push(Part::Lit(v.to_vec()));
                            t.replace("{}", &name(c))
                        }
                        Found::None => {
                            want_err = Some(-13);
                            name(c)
                        }
                    };
                    text.push_str(&t);
                    text.push_str(csp);
                    if want_err.is_some() {
                        break;
                    }
                }
                text.push_str(nl);
                text.push_str(";");
                if want_err.is_none() {
                    add.push(Word { name: nm(n), kind: Kind::Seq(parts) });
                }
            }
            Op::Long(n, v, k) => {
                text = format!("{}: {} {}{}{}{};", sp, name(n), v, nl, " noop ".repeat(*k as usize % 200), csp);
                add.push(Word { name: nm(n), kind: Kind::Val(*v) });
            }
            Op::Var(n, v) => {
                text = format!("{}variable {}{}{} {} !", sp, name(n), nl, v, name(n));
                m.cells.push(*v);
                add.push(Word { name: nm(n), kind: Kind::Var(m.cells.len() - 1) });
            }
            Op::Con(n, v) => {
                text = format!("{}{}constant {}", v, sp, name(n));
                add.push(Word { name: nm(n), kind: Kind::Val(*v) });
            }
            Op::Child(n, v) => {
                text = format!("{}{}mk {}", v, sp, name(n));
                add.push(Word { name: nm(n), kind: Kind::Val(*v) });
            }
            Op::Imm(n, v) => {
                text = format!(": {}{}compiling? if {} postpone lit ,{}else {} then ; immediate", name(n), csp, v, nl, v);
                add.push(Word { name: nm(n), kind: Kind::Val(*v) });
            }
            Op::Defer(n, t) => {
                let i = match m.find(nm(t)) {
                    Found::Word(i) if matches!(m.words[i].kind, Kind::Seq(_) | Kind::Val(_)) => i,
                    _ => continue,
                };
                if m.value(i).len() > 12 || nm(n) == nm(t) {
                    continue;
                }
                text = format!("defer {}{}' {}{}' {} defer!", name(n), sp, name(t), nl, name(n));
                add.push(Word { name: nm(n), kind: Kind::Defer(i) });
            }
            Op::SetDefer(n, t) => {
                let d = match m.find(nm(n)) {
                    Found::Word(i) if matches!(m.words[i].kind, Kind::Defer(_)) => i,
                    _ => continue,
                };
                let i = match m.find(nm(t)) {
                    Found::Word(i) if matches!(m.words[i].kind, Kind::Seq(_) | Kind::Val(_)) => i,
                    _ => continue,
                };
                // It must not be forgotten before the deferred word.
                if (d..i).any(|j| matches!(m.words[j].kind, Kind::Marker(_))) {
                    continue;
                }
                text = format!("' {}{}' {} defer!", name(t), sp, name(n));
                retarget = Some((d, i));
            }
            Op::Store(n, v) => {
                let i = match m.find(nm(n)) {
                    Found::Word(i) => i,
                    _ => continue,
                };
                if let Kind::Var(c) = m.words[i].kind {
                    text = format!("{}{}{} !", v, sp, name(n));
                    store = Some((c, *v));
                } else {
                    continue;
                }
            }
            Op::Fail(n, f) => {
                let (t, e) = DF[*f as usize % DF.len()];
                text = format!(": {}{}99{}{} 1 2 drop", name(n), csp, nl, t);
                want_err = Some(e);
            }
            Op::Begun(n, f) => {
                let (t, e) = DF[*f as usize % DF.len()];
                text = format!(": {}{} 99\nbegin\n if {} 5", name(n), csp, t);
                // Inside IF only some of them fail in the same way.
                want_err = Some(match *f as usize % DF.len() {
                    2 => -22,
                    _ => e,
                });
            }
            Op::Marker(n) => {
                text = format!("{}marker {}", sp, name(n));
                let here = vm.data_space().here();
                add.push(Word { name: nm(n), kind: Kind::Marker(here) });
            }
            Op::Use(n, way) => {
                let way = way % 6;
                let x = name(n);
                // Text that uses the word as {} and what it gives.
                let (t, v) = match m.find(nm(n)) {
                    Found::Word(i) => match &m.words[i].kind {
                        Kind::Marker(here) => {
                            // Only directly.
                            if way > 1 {
                                continue;
                            }
                            cut = Some((i, *here));
                            ("{}".to_string(), vec![])
                        }
                        Kind::Var(_) => ("{} @".to_string(), m.value(i)),
                        _ => ("{}".to_string(), m.value(i)),
                    },
                    Found::Base => {
                        let (t, v) = NAMES[nm(n)].1.unwrap();
                        if is_number(nm(n)) && way != 0 && way != 2 {
                            want_err = Some(-13);
                        }
                        (t.to_string(), v.to_vec())
                    }
                    Found::None => {
                        want_err = Some(-13);
                        ("{}".to_string(), vec![])
                    }
                };
                let use_ = |s: &str| t.replace("{}", s);
                text = match way {
                    0 => format!("{}{}{} note", sp, use_(&x), format!(" {}", k)),
                    1 => format!("{} {} note", use_(&format!("{}' {} execute", sp, x)), k),
                    2 => format!(": tmpq{}{} {}{}note ; tmpq", csp, use_(&x), k, nl),
                    3 => format!(": tmpq {}{}{} note ; tmpq", use_(&format!("['] {} execute", x)), nl, k),
                    4 => format!(": tmpi{}postpone {} ; immediate{}: tmpq {} {} note ; tmpq", csp, x, nl, use_("tmpi"), k),
                    _ => format!(": tmpq {} {} note ;{}tmpq", use_(&format!("[{}' {} ] literal execute", sp, x)), k, nl),
                };
                if want_err.is_none() {
                    want_notes.push((k, v));
                    match way {
                        2 | 3 | 5 => add.push(Word { name: TEMP, kind: Kind::Temp("tmpq") }),
                        4 => {
                            add.push(Word { name: TEMP, kind: Kind::Temp("tmpi") });
                            add.push(Word { name: TEMP, kind: Kind::Temp("tmpq") });
                        }
                        _ => {}
                    }
                }
            }
            Op::Allot(n) if *n >= 40 => {
                // More than there is.
                let (start, here, limit) = (vm.data_space().start() as i64, vm.data_space().here() as i64, vm.data_space().limit() as i64);
                let room = limit - here;
                let v = match n % 7 {
                    0 => room + 1,
                    1 => room + 8,
                    2 => start - here - 1,
                    3 => i64::MAX - (*n as i64) % 3,
                    4 => i64::MIN + (*n as i64) % 3,
                    5 => -here + (*n as i64) % 3,
                    _ => room + *n as i64 * 1000,
                };
                text = format!("{} allot", v);
                want_err = Some(-8);
            }
            Op::Allot(n) => text = format!("{} allot", if n % 40 == 12 { 13 } else { n % 40 }),
            Op::Fill(n) => {
                let here = vm.data_space().here();
                let room = vm.data_space().limit() - here;
                let left = *n as usize % 2500;
                // 12 may be the name of a word.
                if room <= left || room - left == 12 {
                    continue;
                }
                text = format!("{} allot", room - left);
            }
            Op::Turns(n) => text = "turn ".repeat(*n as usize % 5),
            Op::BgFail => text = "bg3 turn turn".into(),
            Op::Bg => text = "bg2 turn bg4".into(),
            Op::Words => {
                if fulls == 0 {
                    let got = listed(&mut *vm);
                    let mut want = String::new();
                    for w in m.words.iter().rev() {
                        match w.kind {
                            Kind::Temp(t) => want.push_str(t),
                            _ => want.push_str(&NAMES[w.name].0.to_ascii_lowercase()),
                        }
                        want.push(' ');
                    }
                    want.push_str(&base);
                    if got != want {
                        let f = |s: &str| s.chars().take(300).collect::<String>();
                        return out.fail("listed", format!("step {}: WORDS lists {:?}... instead of {:?}...", sn, f(&got), f(&want)));
                    }
                    lists += 1;
                }
                continue;
            }
        }
        let here0 = vm.data_space().here();
        let tight = vm.data_space().limit() - here0 < 4096;
        notes().clear();
        let mut err = None;
        let mut shown = text.clone();
        if st.how & 2 != 0 {
            sim().fs.put("f", text.as_bytes());
            pad_floats(&mut *vm);
            err = line(&mut *vm, "include f");
            shown = format!("(included) {}", text);
        } else {
            for l in text.split('\n') {
                pad_floats(&mut *vm);
                err = line(&mut *vm, l);
                if err.is_some() {
                    break;
                }
            }
        }
        let desc = |d: String| format!("step {} {:?}: {}", sn, shown, d);
        if vm.current_task() != 0 {
            return out.fail("operator-lost", desc("a background task is current".into()));
        }
        let got = std::mem::take(notes());
        let full = tight && matches!(err, Some(-8)) || tight && st.how & 2 != 0 && err == Some(-9);
        if full {
            // There was no room; it is as if it had failed.
            fulls += 1;
            if !got.is_empty() && got != want_notes {
                return out.fail("meaning", desc(format!("gave {:?} instead of {:?}", got, want_notes)));
            }
            recover(&mut *vm);
            if cut.is_some() && err == Some(-8) {
                return out.fail("marker", desc("executing a marker needs no room".into()));
            }
            h.u64(8);
            continue;
        }
        if matches!(st.op, Op::Allot(n) if n >= 40) && vm.data_space().here() != here0 {
            return out.fail("here", desc(format!("the data-space pointer moved by {}", vm.data_space().here() as i64 - here0 as i64)));
        }
        if err != want_err {
            return out.fail(
                if want_err.is_some() { "found" } else { "not-found" },
                desc(format!("error {:?} instead of {:?}", err, want_err)),
            );
        }
        if got != want_notes {
            return out.fail("meaning", desc(format!("gave {:?} instead of {:?}", got, want_notes)));
        }
        if err.is_some() {
            fails += 1;
            recover(&mut *vm);
        } else {
            if vm.state().is_compiling || vm.c_stack().len != 0 {
                return out.fail("compiling", desc("still compiling".into()));
            }
            let s = data(&mut *vm);
            if !s.is_empty() {
                return out.fail("stack", desc(format!("left {:?} on the stack", s)));
            }
        }
        if let Some((c, v)) = store {
            m.cells[c] = v;
        }
        if let Some((d, i)) = retarget {
            m.words[d].kind = Kind::Defer(i);
        }
        if let Some((i, here)) = cut {
            marks += 1;
            m.words.truncate(i);
            let now = vm.data_space().here();
            if now != here {
                return out.fail("here", desc(format!("the data-space pointer is {} bytes off", now as i64 - here as i64)));
            }
        }
        for w in add {
            if w.name != TEMP {
                defs += 1;
                if matches!(m.find(w.name), Found::Word(_)) {
                    redefs += 1;
                }
            }
            m.words.push(w);
        }
        if matches!(st.op, Op::Use(..)) {
            uses += 1;
        }
        h.u64(std::mem::discriminant(&st.op).hash64() ^ err.unwrap_or(0) as u64);
        let mut sh = Fnv::new();
        sh.u64(m.words.len() as u64);
        for w in m.words.iter().filter(|w| w.name != TEMP) {
            sh.u64(w.name as u64 ^ (std::mem::discriminant(&w.kind).hash64() << 8));
        }
        out.states.push(sh.0);
        sim().evn(err.unwrap_or(0));
    }
    // Everything must still have its meaning.
    for n in 0..NAMES.len() {
        let (t, want): (String, Option<Vec<i64>>) = match m.find(n) {
            Found::Word(i) => match &m.words[i].kind {
                Kind::Marker(_) => continue,
                Kind::Var(_) => ("{} @".into(), Some(m.value(i))),
                _ => ("{}".into(), Some(m.value(i))),
            },
            Found::Base => (NAMES[n].1.unwrap().0.into(), Some(NAMES[n].1.unwrap().1.to_vec())),
            Found::None => ("{}".into(), None),
        };
        let t = t.replace("{}", &cased(n, 0x5555_1234)) + " 1 note";
        notes().clear();
        let err = line(&mut *vm, &t);
        let got = std::mem::take(notes());
        let ok = match &want {
            Some(v) => err.is_none() && got.len() == 1 && &got[0].1 == v,
            None => err == Some(-13),
        };
        if !ok {
            return out.fail("final", format!("at the end {:?} gives {:?} and error {:?} instead of {:?}", t, got, err, want));
        }
        if err.is_some() {
            recover(&mut *vm);
        }
    }
    let bgn = unsafe { BG.2 };
    sut(|| drop(vm));
    h.u64(c.sched_h());
    out.sched = h.0;
    out.sim_ns = sim().clock_ns - 1_000_000_000;
    out.count("definitions", defs);
    out.count("redefinitions", redefs);
    out.count("markers_executed", marks);
    out.count("failures", fails);
    out.count("uses", uses);
    out.count("no_room", fulls);
    out.count("names_listed", lists);
    out.count("turns_of_others", bgn);
    out.count(&format!("host {}", H::NAME), 1);
    out.nontrivial = defs >= 3 && (redefs > 0 || marks > 0) && (fails > 0 || marks > 0);
}

trait Hash64 {
    fn hash64(&self) -> u64;
}
impl<T> Hash64 for std::mem::Discriminant<T> {
    fn hash64(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        struct F(u64);
        impl Hasher for F {
            fn finish(&self) -> u64 {
                self.0
            }
            fn write(&mut self, b: &[u8]) {
                for &x in b {
                    self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
                }
            }
        }
        let mut f = F(0xcbf29ce484222325);
        self.hash(&mut f);
        f.0
    }
}

pub struct C07;
impl Check for C07 {
    type Plan = Plan;
    const ID: &'static str = "C07";
    const QUICK: u64 = 300_000;
    const THOROUGH: u64 = 6_000_000;
    const RULE: &'static str = "a history of definitions of every kind, redefinitions (of core words and numbers too), failing and abandoned definitions, markers made and executed and a data space filled up, at the terminal or in included files, with other tasks running or failing in the middle of it; every use of a name, in any letter case and way, is predicted by a model of the dictionary; non-trivial with three definitions, a redefinition or executed marker and a failure; distinct by the sequence of operations, results and task switches";
    const REAL: &'static [&'static str] = &["src/core.rs (word list, defining words, markers)", "src/memory.rs", "src/loader.rs", "core.fth", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)"];
    const STUB: &'static [&'static str] = &["turn order at schedule points (seeded)", "disk", "clock", "terminal device"];
    const STATE_MEASURE: &'static str = "hash of the dictionary of the model (names and kinds in order)";
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let n = 4 + r.us(if th { 60 } else { 26 });
        // Few names, so that they are redefined often.
        let mut pool: Vec<u32> = (0..NAMES.len() as u32).collect();
        r.shuffle(&mut pool);
        pool.truncate(2 + r.us(6));
        if r.pct(25) {
            // Names that are nearly the same.
            let k = |t: &str| NAMES.iter().position(|n| n.0 == t).unwrap() as u32;
            let (a, b) = *r.pick(&[(LONG, LONG2), ("ha_", "hb>"), ("é", "É"), ("Ab", "aB!"), ("q", "q2")]);
            pool.extend([k(a), k(b)]);
        }
        let fill = r.pct(12);
        let mut steps: Vec<Step> = (0..n)
            .map(|_| {
                let a = *r.pick(&pool);
                let b = *r.pick(&pool);
                let v = r.range(100, 999) * if r.pct(50) { 1 } else { -1 };
                let op = match r.weighted(&[16, 5, 4, 5, 4, 3, 4, 4, 8, 3, 9, 34, 3, if fill { 3 } else { 0 }, 3, 2, 2, 5]) {
                    0 => {
                        let n = r.us(4);
                        Op::Colon(a, v, (0..n).map(|_| *r.pick(&pool)).collect())
                    }
                    1 => Op::Var(a, v),
                    2 => Op::Con(a, v),
                    3 => Op::Child(a, v),
                    4 => Op::Defer(a, b),
                    5 => Op::SetDefer(a, b),
                    6 => Op::Store(a, v),
                    7 => Op::Imm(a, v),
                    8 => Op::Fail(a, r.us(DF.len()) as u32),
                    9 => Op::Begun(a, r.us(DF.len()) as u32),
                    10 => Op::Marker(a),
                    11 => Op::Use(a, r.us(6) as u32),
                    12 => Op::Allot(if r.pct(70) { r.us(40) } else { 40 + r.us(4000) } as u32),
                    13 => Op::Fill(r.us(2500) as u32),
                    14 => Op::Turns(r.us(5) as u32),
                    15 => Op::BgFail,
                    17 => Op::Words,
                    _ => Op::Bg,
                };
                Step { op, case: r.next() as u32, how: r.weighted(&[60, 15, 15, 10]) as u8, sp: r.pct(30) }
            })
            .collect();
        if fill {
            // A definition that just fits, or just does not.
            let at = r.us(steps.len() + 1);
            let (a, v) = (*r.pick(&pool), r.range(100, 999));
            let room = 540 + r.us(260);
            let name = NAMES[a as usize].0.len();
            let k = (room as i64 - 8 - (name as i64 + 7) / 8 * 8) / 8 - 3 + r.range(-4, 4);
            let def = match r.us(4) {
                0 => Op::Imm(a, v),
                _ => Op::Long(a, v, k.max(0) as u32),
            };
            for op in [Op::Fill(room as u32), def, Op::Use(a, 0), Op::Use(a, 0)].into_iter().rev() {
                steps.insert(at, Step { op, case: r.next() as u32, how: 0, sp: r.pct(10) });
            }
        }
        let n = r.us(60);
        Plan { host: r.weighted(&[6, 2, 2]) as u8, bg: r.pct(70), steps, sched: (0..n).map(|_| r.us(2) as u8).collect() }
    }
    fn run(p: &Plan, out: &mut Outcome) {
        crate::with_host!(p.host, go(p, out))
    }
}
