//! Generated programs. A program is a tree of statements each of which leaves
//! the depth of every stack as it was, so any sub-tree can be removed and the
//! result is still a sensible program.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Stmt {
    /// Schedule point.
    Sp,
    Pause,
    /// Add a literal to the top item.
    Lit(i64),
    /// One of OPS.
    Op(u32),
    /// One of FOPS.
    Fop(u32),
    /// One of MOPS, on the unit's own variables.
    Mem(u32),
    Flit(i64),
    Probe,
    R(Vec<Stmt>),
    Rr(Vec<Stmt>),
    Do(u32, Vec<Stmt>),
    Ploop(u32, u32, Vec<Stmt>),
    Qdo(u32, Vec<Stmt>),
    Leave(u32, u32, Vec<Stmt>),
    Until(u32, Vec<Stmt>),
    While(u32, Vec<Stmt>),
    If(u32, Vec<Stmt>, Vec<Stmt>),
    Case(Vec<Stmt>, Vec<Stmt>, Vec<Stmt>),
    Call(u32),
    Exec(u32),
    /// Forward goto over the body, decided by the top item.
    Goto(Vec<Stmt>),
    /// A subroutine at a label, called n times.
    Sub(u32, Vec<Stmt>),
    /// n MS
    Ms(u32),
    /// Free text (used by single checks), must be stack-neutral.
    Raw(String),
}

/// Neutral on ( a b c d ).
pub const OPS: &[&str] = &[
    "swap", "rot", "-rot", "over +", "dup +", "1+", "1-", "negate", "invert", "2swap", "2dup + nip", "over xor", "over and",
    "over or", "2 lshift", "1 rshift", "abs", "tuck drop", "over swap -", "dup * ", "2dup < +", "2dup = xor", "2dup max nip",
    "2dup min nip", "3 pick +", "dup 0< +", "dup 0= +", "2over + xor", "over over nip xor", "dup 7 and 1+ /", "dup 5 and 3 + mod",
    "dup 3 and 1+ /mod drop", "depth +", "2*", "2/", "dup 100 0 within +", "dup >r 1+ r> xor", "2dup 2>r + 2r@ + xor 2r> 2drop 5 swap",
    "dup ?dup if 1+ nip then", "2dup <= +", "2dup <> xor", "bl +", "true xor", "false or", "char+ ", "[char] q +", "['] dup +",
    "nip dup", "over swap drop", "0 3 0 do i + loop +", "dup 0> if 1- else 1+ then", "dup 3 cells + ",
];
/// Neutral on ( F: x y ).
pub const FOPS: &[&str] = &[
    "fswap", "fover f+", "fdup f+", "fnegate", "fabs", "2e f/", "fover f-", "1.5e f*", "fdup f* 1e f+ 0.5e f*", "fover fover f< drop",
    "dup drop fover fover fmax fnip", "fover fover fmin fnip", "fdup floor fnip", "fdup fround fnip", "fdup fabs fsqrt fnip",
    "frot frot frot", "fdup f>s drop", "dup s>f fdrop", "fdup f0< drop", "fdup fsin fnip", "0.25e f+", "fdup fdup f- f+",
];
/// Neutral on data and floats, on the unit's own variables V, buffer B and F.
pub const MOPS: &[&str] = &[
    "dup {V} !", "{V} @ xor", "1 {V} +!", "dup {B} 8 + !", "{B} 8 + @ +", "{B} c@ +", "dup {B} 3 + c!", "{B} 16 65 fill",
    "{B} {B} 16 + 8 move", "2dup {B} 2!", "{B} 2@ + xor", "fdup {F} f!", "{F} f@ f+", "{V} on", "{V} off", "{B} count + +",
    "s\" abc\" {B} 24 + swap move {B} 25 + c@ +", "{B} 16 bounds - +", "7 {B} cell+ !", "{B} @ {V} @ + {V} !", "{K} +", "{X} +",
];

#[derive(Clone)]
pub struct Gen {
    /// Names of helper words that may be called are h0..h(n-1).
    pub helpers: u32,
    pub sp_pct: u64,
    pub floats: bool,
    pub mem: bool,
    pub ms: bool,
    pub depth: u32,
    /// Weight of forward gotos.
    pub goto: u32,
    /// Extra statements given as text.
    pub raw: &'static [&'static str],
}

impl Default for Gen {
    fn default() -> Gen {
        Gen { helpers: 0, sp_pct: 30, floats: true, mem: true, ms: false, depth: 3, goto: 1, raw: &[] }
    }
}

/// Indices of OPS that may be interpreted.
pub fn interpretable() -> Vec<u32> {
    let no = ["if", "do", "loop", ">r", "r>", "2>r", "2r>", "2r@", "[char]", "[']", "i", "j"];
    (0..OPS.len() as u32).filter(|&i| !OPS[i as usize].split(' ').any(|w| no.contains(&w))).collect()
}

impl Gen {
    pub fn body(&self, r: &mut Rng, size: u32) -> Vec<Stmt> {
        let mut v = Vec::new();
        let n = 1 + r.below(size.max(1) as u64) as u32;
        for _ in 0..n {
            if r.pct(self.sp_pct) {
                v.push(Stmt::Sp);
            }
            v.push(self.stmt(r, self.depth));
        }
        v
    }
    fn sub(&self, r: &mut Rng, d: u32) -> Vec<Stmt> {
        let mut v = Vec::new();
        for _ in 0..1 + r.us(3) {
            if r.pct(self.sp_pct) {
                v.push(Stmt::Sp);
            }
            v.push(self.stmt(r, d - 1));
        }
        v
    }
    fn stmt(&self, r: &mut Rng, d: u32) -> Stmt {
        let w: [u32; 23] = [
            20,                                 // Op
            6,                                  // Lit
            if self.floats { 6 } else { 0 },    // Fop
            if self.mem { 8 } else { 0 },       // Mem
            if self.floats { 2 } else { 0 },    // Flit
            6,                                  // Probe
            if d > 0 { 4 } else { 0 },          // R
            if d > 0 { 3 } else { 0 },          // Rr
            if d > 0 { 5 } else { 0 },          // Do
            if d > 0 { 3 } else { 0 },          // Ploop
            if d > 0 { 2 } else { 0 },          // Qdo
            if d > 0 { 2 } else { 0 },          // Leave
            if d > 0 { 3 } else { 0 },          // Until
            if d > 0 { 3 } else { 0 },          // While
            if d > 0 { 5 } else { 0 },          // If
            if d > 0 { 2 } else { 0 },          // Case
            if self.helpers > 0 { 6 } else { 0 }, // Call
            if self.helpers > 0 { 2 } else { 0 }, // Exec
            if d > 0 { self.goto } else { 0 }, // Goto
            if self.sp_pct > 0 { 5 } else { 0 }, // Pause
            if self.ms { 4 } else { 0 },
            if self.raw.is_empty() { 0 } else { 8 },
            if d > 0 { self.goto } else { 0 }, // Sub
        ];
        match r.weighted(&w) {
            0 => Stmt::Op(r.us(OPS.len()) as u32),
            1 => Stmt::Lit(r.int()),
            2 => Stmt::Fop(r.us(FOPS.len()) as u32),
            3 => Stmt::Mem(r.us(MOPS.len()) as u32),
            4 => Stmt::Flit(r.range(-40, 40)),
            5 => Stmt::Probe,
            6 => Stmt::R(self.sub(r, d)),
            7 => Stmt::Rr(self.sub(r, d)),
            8 => Stmt::Do(1 + r.us(3) as u32, self.sub(r, d)),
            9 => Stmt::Ploop(1 + r.us(5) as u32, 1 + r.us(3) as u32, self.sub(r, d)),
            10 => Stmt::Qdo(r.us(3) as u32, self.sub(r, d)),
            11 => Stmt::Leave(2 + r.us(3) as u32, r.us(3) as u32, self.sub(r, d)),
            12 => Stmt::Until(1 + r.us(3) as u32, self.sub(r, d)),
            13 => Stmt::While(r.us(3) as u32, self.sub(r, d)),
            14 => Stmt::If(1 << r.us(3), self.sub(r, d), if r.pct(50) { self.sub(r, d) } else { vec![] }),
            15 => Stmt::Case(self.sub(r, d), self.sub(r, d), if r.pct(50) { self.sub(r, d) } else { vec![] }),
            16 => Stmt::Call(r.below(self.helpers as u64) as u32),
            17 => Stmt::Exec(r.below(self.helpers as u64) as u32),
            18 => Stmt::Goto(self.sub(r, d)),
            19 => Stmt::Pause,
            20 => Stmt::Ms(r.us(6) as u32),
            21 => Stmt::Raw(r.pick(self.raw).to_string()),
            _ => Stmt::Sub(1 + r.us(3) as u32, self.sub(r, d)),
        }
    }
}

/// Turns statements into source text.
pub struct Render<'a> {
    /// Suffix of the unit's variables.
    pub vars: &'a str,
    pub helpers: u32,
    pub probe: i64,
    pub label: u32,
    /// Text of a schedule point and of a pause.
    pub sp: &'a str,
    pub out: String,
}

impl<'a> Render<'a> {
    pub fn new(vars: &'a str, helpers: u32) -> Render<'a> {
        Render { vars, helpers, probe: 1, label: 1, sp: "sp", out: String::new() }
    }
    fn w(&mut self, s: &str) {
        self.out.push_str(s);
        self.out.push(' ');
    }
    pub fn stmts(&mut self, v: &[Stmt], loops: u32) {
        for s in v {
            self.stmt(s, loops);
        }
    }
    pub fn mem_text(&self, i: u32) -> String {
        MOPS[i as usize % MOPS.len()]
            .replace("{V}", &format!("v{}", self.vars))
            .replace("{B}", &format!("b{}", self.vars))
            .replace("{F}", &format!("f{}", self.vars))
            .replace("{K}", &format!("k{}", self.vars))
            .replace("{X}", &format!("x{}", self.vars))
    }
    fn stmt(&mut self, s: &Stmt, loops: u32) {
        match s {
            Stmt::Sp => {
                let t = self.sp.to_string();
                self.w(&t)
            }
            Stmt::Pause => self.w("pause"),
            Stmt::Lit(n) => self.w(&format!("{} +", n)),
            Stmt::Op(i) => self.w(OPS[*i as usize % OPS.len()]),
            Stmt::Fop(i) => self.w(FOPS[*i as usize % FOPS.len()]),
            Stmt::Mem(i) => {
                let t = self.mem_text(*i);
                self.w(&t)
            }
            Stmt::Flit(n) => self.w(&format!("{}.5e f+", n)),
            Stmt::Probe => {
                let k = self.probe;
                self.probe += 1;
                self.w(&format!("{} probe", k))
            }
            Stmt::R(b) => {
                self.w("dup >r");
                self.stmts(b, 0);
                self.w("r> +");
            }
            Stmt::Rr(b) => {
                self.w("2dup 2>r");
                self.stmts(b, 0);
                self.w("2r> + xor");
            }
            Stmt::Do(n, b) => {
                self.w(&format!("{} 0 do i +", (*n).max(1)));
                if loops > 0 {
                    self.w("j xor");
                }
                self.stmts(b, loops + 1);
                self.w("loop");
            }
            Stmt::Ploop(n, st, b) => {
                self.w(&format!("{} 0 do", (*n).max(1)));
                self.stmts(b, loops + 1);
                self.w(&format!("i xor {} +loop", (*st).max(1)));
            }
            Stmt::Qdo(n, b) => {
                self.w(&format!("{} 0 ?do", n));
                self.stmts(b, loops + 1);
                self.w("i + loop");
            }
            Stmt::Leave(n, k, b) => {
                self.w(&format!("{} 0 do", (*n).max(1)));
                self.stmts(b, loops + 1);
                self.w(&format!("i {} = if leave then 3 + loop", k));
            }
            Stmt::Until(n, b) => {
                self.w(&format!("{} begin >r", (*n).max(1)));
                self.stmts(b, 0);
                self.w("r> 1- dup 0= until drop");
            }
            Stmt::While(n, b) => {
                self.w(&format!("{} begin dup 0> while >r", n));
                self.stmts(b, 0);
                self.w("r> 1- repeat drop");
            }
            Stmt::If(m, a, b) => {
                self.w(&format!("dup {} and if", m));
                self.stmts(a, loops);
                if !b.is_empty() {
                    self.w("else");
                    self.stmts(b, loops);
                }
                self.w("then");
            }
            Stmt::Case(a, b, c) => {
                self.w("dup 3 and case 0 of");
                self.stmts(a, loops);
                self.w("endof 1 of");
                self.stmts(b, loops);
                self.w("endof");
                if !c.is_empty() {
                    self.w(">r");
                    self.stmts(c, 0);
                    self.w("r>");
                }
                self.w("endcase");
            }
            Stmt::Call(k) => {
                if self.helpers > 0 {
                    self.w(&format!("h{}", k % self.helpers))
                }
            }
            Stmt::Exec(k) => {
                if self.helpers > 0 {
                    self.w(&format!("['] h{} execute", k % self.helpers))
                }
            }
            Stmt::Goto(b) => {
                let l = self.label;
                self.label += 1;
                self.w(&format!("dup 1 and if [ {} ] goto then", l));
                self.stmts(b, loops);
                for m in 0..l % 3 {
                    self.w(&format!("dup {} and if [ {} ] goto then invert", 2 << m, l));
                }
                self.w(&format!("[ {} ] label", l));
            }
            Stmt::Sub(n, b) => {
                let l = self.label;
                self.label += 2;
                // Before the subroutine, behind it, or both.
                let n = (*n).max(1);
                let k = (l + n) % (n + 1);
                self.w(&format!("[ {} ] call ", l).repeat(k as usize));
                self.w(&format!("[ {} ] goto [ {} ] label", l + 1, l));
                self.stmts(b, 0);
                self.w(&format!("exit [ {} ] label", l + 1));
                self.w(&format!("[ {} ] call ", l).repeat((n - k) as usize));
            }
            Stmt::Ms(n) => self.w(&format!("{} ms", n)),
            Stmt::Raw(t) => self.w(t),
        }
    }
}

/// Text defining the variables of one unit.
pub fn vars_text(s: &str, with_float: bool) -> String {
    let mut t = format!("variable v{0} create b{0} 64 allot b{0} 64 0 fill 5{0} constant k{0} : mk{0} create , does> @ ; 7{0} mk{0} x{0}\n", s);
    if with_float {
        t.push_str(&format!("fvariable f{} 0e f{} f!\n", s, s));
    }
    t
}

pub fn base_text() -> &'static str {
    "101 202 303 404"
}
pub fn fbase_text() -> &'static str {
    "1.25e 2.5e"
}

/// Count statements (for size measures).
pub fn size(v: &[Stmt]) -> usize {
    v.iter()
        .map(|s| {
            1 + match s {
                Stmt::R(b) | Stmt::Rr(b) | Stmt::Do(_, b) | Stmt::Ploop(_, _, b) | Stmt::Qdo(_, b) | Stmt::Leave(_, _, b) | Stmt::Until(_, b) | Stmt::While(_, b) | Stmt::Goto(b) | Stmt::Sub(_, b) => size(b),
                Stmt::If(_, a, b) => size(a) + size(b),
                Stmt::Case(a, b, c) => size(a) + size(b) + size(c),
                _ => 0,
            }
        })
        .sum()
}
