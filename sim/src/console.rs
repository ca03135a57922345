//! The console's line reader (rtf/src/term.rs) over a simulated terminal:
//! line editing (C16) and the history over many sessions (C17).
use crate::frame::{Check, Outcome};
use crate::hosts::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut, Fault, Kind, Op as Sys};
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers, MouseEvent, MouseEventKind};
use rtfhost::SimTerm;
use serde::{Deserialize, Serialize};
use std::io::Write;
use unicode_width::UnicodeWidthChar;

pub const HISTORY: &str = "/simhome/.cache/rtforth/history.txt";
pub const CACHE: &str = "/simhome/.cache/rtforth";

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Key {
    Ch(char),
    Shift(char),
    Back,
    Enter,
    Up,
    Down,
    Left,
    Right,
    /// An event that means nothing to the editor.
    Other(u32),
    /// Control-D.
    D,
}

pub fn event(k: Key) -> Event {
    let key = |c, m| Event::Key(KeyEvent::new(c, m));
    let n = KeyModifiers::NONE;
    match k {
        Key::Ch(c) => key(KeyCode::Char(c), n),
        Key::Shift(c) => key(KeyCode::Char(c), KeyModifiers::SHIFT),
        Key::Back => key(KeyCode::Backspace, n),
        Key::Enter => key(KeyCode::Enter, n),
        Key::Up => key(KeyCode::Up, n),
        Key::Down => key(KeyCode::Down, n),
        Key::Left => key(KeyCode::Left, n),
        Key::Right => key(KeyCode::Right, n),
        Key::D => key(KeyCode::Char('d'), KeyModifiers::CONTROL),
        Key::Other(i) => match i % 24 {
            0 => key(KeyCode::Home, n),
            1 => key(KeyCode::End, n),
            2 => key(KeyCode::Tab, n),
            3 => key(KeyCode::Esc, n),
            4 => key(KeyCode::F((i / 24 % 12) as u8 + 1), n),
            5 => key(KeyCode::PageUp, n),
            6 => key(KeyCode::PageDown, n),
            7 => key(KeyCode::Insert, n),
            8 => key(KeyCode::Null, n),
            9 => key(KeyCode::BackTab, KeyModifiers::SHIFT),
            10 => key(KeyCode::Char('d'), KeyModifiers::ALT),
            11 => key(KeyCode::Char('a'), KeyModifiers::CONTROL),
            12 => key(KeyCode::Char('x'), KeyModifiers::CONTROL | KeyModifiers::ALT),
            13 => key(KeyCode::Left, KeyModifiers::CONTROL),
            14 => key(KeyCode::Enter, KeyModifiers::ALT),
            15 => key(KeyCode::Backspace, KeyModifiers::CONTROL),
            16 => Event::Resize(20 + (i / 24 % 100) as u16, 3 + (i / 24 % 30) as u16),
            17 => Event::Mouse(MouseEvent { kind: MouseEventKind::Moved, column: (i / 24 % 80) as u16, row: 1, modifiers: n }),
            18 => Event::FocusGained,
            19 => Event::FocusLost,
            20 => Event::Paste("1 2 +".into()),
            21 => key(KeyCode::Up, KeyModifiers::CONTROL),
            22 => key(KeyCode::Char('é'), KeyModifiers::ALT),
            _ => key(KeyCode::Right, KeyModifiers::ALT),
        },
    }
}

/// What a key does to a line being edited.
#[derive(Clone, Default)]
pub struct Editor {
    /// Lines entered, oldest first.
    pub hist: Vec<String>,
    /// The same during editing, with the line being edited at the end.
    work: Vec<Vec<char>>,
    h: usize,
    pub buf: Vec<char>,
    pub x: usize,
}

impl Editor {
    pub fn start(&mut self) {
        self.work = self.hist.iter().map(|s| s.chars().collect()).collect();
        self.work.push(vec![]);
        self.h = self.hist.len();
        self.buf.clear();
        self.x = 0;
    }
    fn go(&mut self, h: usize) {
        self.work[self.h] = self.buf.clone();
        self.h = h;
        self.buf = self.work[h].clone();
        self.x = self.buf.len();
    }
    /// The line is given up or accepted: changes of older lines stay.
    fn end(&mut self) {
        let n = self.hist.len();
        for i in 0..n {
            self.hist[i] = self.work[i].iter().collect();
        }
    }
    pub fn key(&mut self, k: Key) -> Option<Result<String, bool>> {
        match k {
            Key::Ch(c) | Key::Shift(c) => {
                self.buf.insert(self.x, c);
                self.x += 1;
            }
            Key::Back => {
                if self.x > 0 {
                    self.x -= 1;
                    self.buf.remove(self.x);
                }
            }
            Key::Left => self.x = self.x.saturating_sub(1),
            Key::Right => self.x = (self.x + 1).min(self.buf.len()),
            Key::Up => {
                let h = self.h.saturating_sub(1);
                self.go(h)
            }
            Key::Down => {
                let h = (self.h + 1).min(self.hist.len());
                self.go(h)
            }
            Key::Other(_) => {}
            Key::Enter => {
                self.end();
                self.x = self.buf.len();
                let s: String = self.buf.iter().collect();
                if !s.is_empty() {
                    self.hist.push(s.clone());
                }
                return Some(Ok(s));
            }
            Key::D => {
                self.end();
                return Some(Err(true));
            }
        }
        None
    }
    pub fn read_error(&mut self) {
        self.end();
    }
    fn width(v: &[char]) -> usize {
        v.iter().map(|c| c.width().unwrap_or(0)).sum()
    }
    /// (characters with their columns, column of the cursor)
    pub fn screen(&self) -> (Vec<(usize, char)>, usize) {
        let mut col = 0;
        let mut v = vec![];
        for &c in &self.buf {
            v.push((col, c));
            col += c.width().unwrap_or(0);
        }
        (v, Self::width(&self.buf[..self.x]))
    }
}

/// One row of a terminal.
#[derive(Default)]
pub struct Row {
    cells: Vec<(usize, char)>,
    col: usize,
}
impl Row {
    pub fn feed(&mut self, b: &[u8]) {
        let t = String::from_utf8_lossy(b).into_owned();
        let mut it = t.chars().peekable();
        while let Some(c) = it.next() {
            if c == '\x1b' {
                if it.peek() != Some(&'[') {
                    continue;
                }
                it.next();
                let mut args = String::new();
                let mut fin = ' ';
                for c in it.by_ref() {
                    if c.is_ascii_alphabetic() || c == '@' || c == '~' {
                        fin = c;
                        break;
                    }
                    args.push(c);
                }
                let n: Vec<usize> = args.split(';').map(|a| a.parse().unwrap_or(0)).collect();
                let first = n[0].max(1);
                match fin {
                    'K' => match n[0] {
                        0 => {
                            let col = self.col;
                            self.cells.retain(|c| c.0 < col)
                        }
                        1 => {
                            let col = self.col;
                            self.cells.retain(|c| c.0 > col)
                        }
                        _ => self.cells.clear(),
                    },
                    'J' => self.cells.clear(),
                    'H' | 'f' => self.col = n.get(1).copied().unwrap_or(1).max(1) - 1,
                    'G' => self.col = first - 1,
                    'C' => self.col += first,
                    'D' => self.col = self.col.saturating_sub(first),
                    _ => {}
                }
            } else if c == '\r' {
                self.col = 0;
            } else if c == '\n' {
                self.cells.clear();
            } else if c == '\x08' {
                self.col = self.col.saturating_sub(1);
            } else {
                let w = c.width().unwrap_or(0);
                if w > 0 {
                    let (a, z) = (self.col, self.col + w);
                    if self.cells.iter().any(|x| x.0 >= a && x.0 < z && x.1.width().unwrap_or(0) > 0) {
                        self.cells.retain(|x| x.0 < a || x.0 >= z);
                    }
                }
                self.cells.push((self.col, c));
                self.col += w;
            }
        }
    }
    pub fn look(&self) -> (Vec<(usize, char)>, usize) {
        let mut v = self.cells.clone();
        v.sort_by_key(|c| c.0);
        (v, self.col)
    }
}

pub fn initial(lines: &[String]) {
    let f = &mut sim().fs;
    f.mkdirs(CACHE);
    let mut t = String::new();
    for l in lines {
        t.push_str(l);
        t.push('\n');
    }
    f.put(HISTORY, t.as_bytes());
}
/// The lines a session starts with.
pub fn kept(lines: &[String]) -> Vec<String> {
    let v: Vec<String> = lines.iter().filter(|l| !l.is_empty()).cloned().collect();
    v[v.len().saturating_sub(32)..].to_vec()
}

pub const CHARS: &[char] = &[
    'a', 'b', '1', '2', '.', '+', ' ', ':', ';', '"', 'é', 'ß', '漢', '字', '😀', '\u{301}', 'Ω', '\u{a0}', '日', 'z', '-', '\\', '(', '\u{10ffff}',
];

/// Text without Forth words that wait or end the session.
fn gen_text(r: &mut Rng, n: usize) -> String {
    (0..r.us(n + 1)).map(|_| if r.pct(60) { *r.pick(&['a', 'b', 'e', 'q', 'z']) } else { *r.pick(&CHARS[..17]) }).map(|c| if c == ':' { ',' } else { c }).collect()
}

// ---------------------------------------------------------------- C16

#[derive(Serialize, Deserialize, Clone)]
pub struct EditPlan {
    pub history: Vec<String>,
    pub keys: Vec<Key>,
    pub faults: Vec<Fault>,
    pub chunks_out: Vec<u32>,
}

struct Shown {
    row: Row,
    seen: usize,
    /// Screen expected at each read.
    expect: Vec<Option<(Vec<(usize, char)>, usize)>>,
    at: usize,
    pos_failed: u32,
    stale: bool,
    checked: u64,
}
static mut SHOWN: Option<Shown> = None;
fn shown() -> &'static mut Shown {
    unsafe { (*(&raw mut SHOWN)).as_mut().unwrap() }
}
fn on_read() {
    let w = shown();
    let s = sim();
    let new = s.stdout[w.seen..].to_vec();
    w.seen = s.stdout.len();
    w.row.feed(&new);
    let fails = s.fired.iter().filter(|(k, _)| k.starts_with("pos-")).map(|(_, v)| *v as u32).sum();
    if fails > w.pos_failed {
        w.pos_failed = fails;
        w.stale = true;
    } else if !new.is_empty() {
        w.stale = false;
    }
    if let Some(Some(e)) = w.expect.get(w.at) {
        if !w.stale && e.0.last().map(|c| c.0 < 76).unwrap_or(true) {
            let got = w.row.look();
            w.checked += 1;
            if got != *e {
                let f = |x: &(Vec<(usize, char)>, usize)| format!("{:?} with the cursor in column {}", x.0.iter().map(|c| c.1).collect::<String>(), x.1);
                stop("display", format!("before event {} the terminal shows {} instead of {}", w.at, f(&got), f(e)));
            }
        }
    }
    w.at += 1;
}

pub struct C16;
impl Check for C16 {
    type Plan = EditPlan;
    const ID: &'static str = "C16";
    const QUICK: u64 = 600_000;
    const THOROUGH: u64 = 8_000_000;
    const RULE: &'static str = "at least three lines delivered, with history, cursor movement and multi-byte characters";
    const REAL: &'static [&'static str] = &["rtf/src/term.rs", "std::io::stdout", "crossterm command rendering"];
    const STUB: &'static [&'static str] = &["crossterm event source, cursor query and raw mode", "file system"];
    const STATE_MEASURE: &'static str = "(length of the line, cursor, place in the history, class of the character before the cursor)";
    fn gen(r: &mut Rng, th: bool) -> EditPlan {
        let nh = match r.us(6) {
            0 => 0,
            1 => 30 + r.us(8),
            _ => r.us(6),
        };
        let history = (0..nh).map(|_| gen_text(r, 8)).collect();
        let n = if th { 10 + r.us(250) } else { 5 + r.us(90) };
        let (pc, ph) = (20 + r.us(60) as u32, 1 + r.us(30) as u32);
        let multi = r.pct(70);
        let mut keys = vec![];
        for _ in 0..n {
            let k = match r.weighted(&[pc, 8, 10, 10, 8, ph, ph, 4, 1, 3]) {
                0 => Key::Ch(if multi { *r.pick(CHARS) } else { (b'a' + r.us(26) as u8) as char }),
                1 => Key::Shift(*r.pick(&['A', 'Q', 'É', '漢', '!'])),
                2 => Key::Back,
                3 => Key::Left,
                4 => Key::Right,
                5 => Key::Up,
                6 => Key::Down,
                7 => Key::Other(r.us(24 * 60) as u32),
                8 => Key::D,
                _ => Key::Enter,
            };
            let rep = if r.pct(10) { 1 + r.us(6) } else { 1 };
            for _ in 0..rep {
                keys.push(k);
            }
        }
        keys.push(Key::Enter);
        let mut faults = vec![];
        if r.pct(40) {
            for _ in 0..1 + r.us(4) {
                faults.push(Fault { op: if r.pct(60) { Sys::Key } else { Sys::Pos }, nth: r.us(n) as u32, kind: *r.pick(&[Kind::Eio, Kind::Eintr]) });
            }
        }
        if r.pct(20) {
            faults.push(Fault { op: Sys::Out, nth: r.us(n) as u32, kind: *r.pick(&[Kind::Eintr, Kind::Short(1), Kind::Short(3)]) });
        }
        let chunks_out = if r.pct(80) { vec![] } else { (0..1 + r.us(3)).map(|_| 1 + r.us(9) as u32).collect() };
        EditPlan { history, keys, faults, chunks_out }
    }
    fn run(p: &EditPlan, out: &mut Outcome) {
        // Neither a line end nor a control character can be typed as a character.
        if p.keys.iter().any(|k| matches!(k, Key::Ch(c) | Key::Shift(c) if c.is_control())) || p.history.iter().any(|l| l.contains(['\n', '\r'])) {
            out.invalid = true;
            return;
        }
        let s = sim();
        initial(&p.history);
        s.faults = p.faults.clone();
        s.chunks_out = p.chunks_out.clone();
        // What is to happen, read by read.
        let mut ed = Editor { hist: kept(&p.history), ..Default::default() };
        let (mut results, mut screens) = (vec![], vec![]);
        let mut h = Fnv::new();
        let (mut lines, mut moves, mut ups, mut wide) = (0, 0, 0, 0);
        ed.start();
        let (mut read, mut i) = (0u32, 0);
        let mut fresh = true;
        while i < p.keys.len() {
            // Nothing has been drawn yet for a new line.
            screens.push(if fresh { None } else { Some(ed.screen()) });
            fresh = false;
            let failing = p.faults.iter().find(|f| f.op == Sys::Key && f.nth == read && !matches!(f.kind, Kind::Short(_)));
            read += 1;
            if failing.is_some() {
                ed.read_error();
                results.push(Err(false));
                ed.start();
                fresh = true;
                continue;
            }
            let k = p.keys[i];
            i += 1;
            match k {
                Key::Up => ups += 1,
                Key::Left => moves += 1,
                Key::Ch(c) if c as u32 > 127 => wide += 1,
                _ => {}
            }
            if let Some(res) = ed.key(k) {
                lines += res.is_ok() as u64;
                results.push(res);
                ed.start();
                fresh = true;
            }
            if out.states.len() < 64 {
                let mut f = Fnv::new();
                f.u64(ed.buf.len().min(40) as u64);
                f.u64(ed.x.min(40) as u64);
                f.u64((ed.hist.len() - ed.h).min(40) as u64);
                f.u64(if ed.x > 0 { ed.buf[ed.x - 1].len_utf8() as u64 * 3 + ed.buf[ed.x - 1].width().unwrap_or(0) as u64 } else { 0 });
                out.states.push(f.0);
                h.u64(f.0);
            }
        }
        for k in &p.keys {
            crate::term::state().events.push_back(event(*k));
        }
        unsafe { SHOWN = Some(Shown { row: Row::default(), seen: 0, expect: screens, at: 0, pos_failed: 0, stale: false, checked: 0 }) };
        crate::term::state().hook = Some(on_read);
        let mut t = sut(SimTerm::new);
        for (n, want) in results.iter().enumerate() {
            let got = sut(|| t.read_line());
            if got != *want {
                out.fail("line", format!("line {} was delivered as {:?} instead of {:?} (Err(true): end of input, Err(false): failing terminal)", n + 1, got, want));
                break;
            }
            sim().evn(n as i64);
            sim().ev(&format!("{:?}", got));
        }
        crate::term::state().hook = None;
        sut(|| drop(t));
        if !out.failed() && crate::term::state().raw != 0 {
            out.fail("raw-mode", "the terminal is left in raw mode".into());
        }
        out.count("lines", lines);
        out.count("keys", p.keys.len() as u64);
        out.count("screens compared", shown().checked);
        out.nontrivial = lines >= 3 && moves > 0 && ups > 0 && wide > 0;
        out.sched = h.0;
    }
}

// ---------------------------------------------------------------- C17

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum Entry {
    /// Typed as it is.
    Text(String),
    /// n times up, then this is typed.
    Recall(u32, String),
    /// n times up and as many down, then this is typed.
    Visit(u32, String),
    /// n times up, k times backspace, some text, m times down, then this is typed.
    Change(u32, u32, String, u32, String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum EndBy {
    /// The program drops the terminal (as after BYE).
    Bye,
    /// Control-D, with something typed before it.
    D(String),
    /// The process is killed: nothing is saved.
    Killed,
    /// The process is killed while it saves, at the nth change of the disk.
    KilledSaving(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Session {
    pub lines: Vec<Entry>,
    /// Failing terminal read before this line.
    pub read_error: Option<u32>,
    pub end: EndBy,
    pub faults: Vec<Fault>,
    /// Room left on the disk when the session begins.
    pub room: Option<u32>,
    /// 1: cache directory cannot be made, 2: history cannot be opened,
    /// 3: history can only be read, 4: history is a directory, 5: the file is lost.
    pub trouble: u32,
    /// Run the whole console instead of its line reader.
    pub console: bool,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct HistPlan {
    /// Content of the file before the first session.
    pub initial: Option<Vec<u8>>,
    pub sessions: Vec<Session>,
    pub chunks_read: Vec<u32>,
    pub chunks_write: Vec<u32>,
}

/// Lines of a history file; those that are not text are left out.
fn parse(c: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for l in c.split(|&b| b == b'\n') {
        let l = l.strip_suffix(b"\r").unwrap_or(l);
        if let Ok(s) = String::from_utf8(l.to_vec()) {
            v.push(s);
        }
    }
    kept(&v)
}

/// Ends the session, and the process while it does, if so planned.
fn dying(e: &EndBy, f: impl FnOnce()) {
    if let EndBy::KilledSaving(n) = e {
        sim().die_at = Some(*n as u64);
    }
    sut(f);
    sim().die_at = None;
}

pub struct C17;
impl Check for C17 {
    type Plan = HistPlan;
    const ID: &'static str = "C17";
    const QUICK: u64 = 150_000;
    const THOROUGH: u64 = 2_000_000;
    const RULE: &'static str = "at least two sessions and 33 lines, or a fault in loading or saving that a later session follows";
    const REAL: &'static [&'static str] = &["rtf/src/term.rs", "rtf/src/main.rs", "rtf/rtf.fth", "std::fs", "directories"];
    const STUB: &'static [&'static str] = &["crossterm event source, cursor query and raw mode", "file system below the system calls"];
    const STATE_MEASURE: &'static str = "(lines kept, kind of end, trouble, faults met) per session";
    fn gen(r: &mut Rng, th: bool) -> HistPlan {
        let initial = match r.us(6) {
            0 => None,
            1 => {
                let mut v: Vec<u8> = (0..r.us(300)).map(|_| *r.pick(&[b'a', b'\n', b'\n', 0xff, 0xc3, 0xa9, b' ', 0, b'z'])).collect();
                if r.pct(5) {
                    v.extend(vec![b'q'; 20_000]);
                }
                Some(v)
            }
            _ => {
                let mut t = String::new();
                for _ in 0..*r.pick(&[0, 1, 5, 31, 32, 33, 40, 70]) {
                    t.push_str(&gen_text(r, 9));
                    t.push_str(if r.pct(95) { "\n" } else { "\r\n" });
                }
                if r.pct(20) {
                    t.push_str("last");
                }
                Some(t.into_bytes())
            }
        };
        let ns = 1 + r.us(if th { 8 } else { 5 });
        let mut id = 0;
        let faulty = r.pct(50);
        let sessions = (0..ns)
            .map(|_| {
                let n = *r.pick(&[0, 1, 2, 3, 5, 8, 20, 31, 32, 33, 34, 45]);
                let lines = (0..n)
                    .map(|_| {
                        id += 1;
                        let t = match r.us(8) {
                            0 => String::new(),
                            1 => format!("{}é漢{}", id, gen_text(r, 3)),
                            2 => "7".into(),
                            _ => format!("{}", id),
                        };
                        match r.us(12) {
                            10 => {
                                let n = 1 + r.us(36) as u32;
                                Entry::Change(n, r.us(20) as u32, if r.pct(60) { String::new() } else { gen_text(r, 3) }, if r.pct(80) { n } else { r.us(n as usize) as u32 }, t)
                            }
                            0 => Entry::Recall(1 + r.us(36) as u32, if r.pct(60) { String::new() } else { t }),
                            1 => Entry::Visit(1 + r.us(36) as u32, t),
                            _ => Entry::Text(t),
                        }
                    })
                    .collect();
                let mut faults = vec![];
                if faulty && r.pct(70) {
                    for _ in 0..1 + r.us(3) {
                        faults.push(match r.us(8) {
                            0 => Fault { op: Sys::Open, nth: r.us(2) as u32, kind: *r.pick(&[Kind::Eacces, Kind::Emfile, Kind::Eio]) },
                            1 => Fault { op: Sys::Read, nth: r.us(3) as u32, kind: *r.pick(&[Kind::Eio, Kind::Eintr, Kind::Short(1)]) },
                            2 => Fault { op: Sys::Mkdir, nth: r.us(3) as u32, kind: *r.pick(&[Kind::Eacces, Kind::Enospc]) },
                            3 => Fault { op: Sys::Stat, nth: r.us(3) as u32, kind: Kind::Eio },
                            4 => Fault { op: Sys::Rename, nth: 0, kind: *r.pick(&[Kind::Eio, Kind::Enospc, Kind::Eacces]) },
                            5 => Fault { op: Sys::Open, nth: 1 + r.us(3) as u32, kind: *r.pick(&[Kind::Eacces, Kind::Emfile, Kind::Enospc]) },
                            _ => Fault { op: Sys::Write, nth: r.us(40) as u32, kind: *r.pick(&[Kind::Eio, Kind::Enospc, Kind::Eintr, Kind::Eintr, Kind::Short(1), Kind::Short(2)]) },
                        });
                    }
                }
                Session {
                    lines,
                    read_error: if r.pct(12) { Some(r.us(4) as u32) } else { None },
                    end: match r.us(10) {
                        8..=9 => EndBy::KilledSaving(*r.pick(&[0, 1, 2, 3, 4, 5, 7, 10, 20, 31, 32, 33, 34, 35, 36, 50])),
                        0..=2 => EndBy::D(String::new()),
                        3 => EndBy::D("half".into()),
                        4 => EndBy::Killed,
                        _ => EndBy::Bye,
                    },
                    faults,
                    room: if faulty && r.pct(15) { Some(r.us(200) as u32) } else { None },
                    trouble: if faulty && r.pct(35) { 1 + r.us(5) as u32 } else { 0 },
                    console: r.pct(15),
                }
            })
            .collect();
        let frag = |r: &mut Rng| if r.pct(60) { vec![] } else { (0..1 + r.us(3)).map(|_| 1 + r.us(12) as u32).collect() };
        HistPlan { initial, sessions, chunks_read: frag(r), chunks_write: frag(r) }
    }
    fn run(p: &HistPlan, out: &mut Outcome) {
        let s = sim();
        s.chunks_read = p.chunks_read.clone();
        s.chunks_write = p.chunks_write.clone();
        if let Some(c) = &p.initial {
            s.fs.mkdirs(CACHE);
            s.fs.put(HISTORY, c);
        }
        let mut h = Fnv::new();
        let (mut total, mut faulted) = (0, 0);
        for (n, se) in p.sessions.iter().enumerate() {
            let s = sim();
            s.fs.denied.clear();
            s.fs.readonly.clear();
            s.fs.dirs.remove(HISTORY);
            match se.trouble {
                1 => {
                    if !s.fs.dirs.contains(CACHE) {
                        s.fs.denied.insert(CACHE.into());
                        s.fire("cache-directory-denied".into());
                    }
                }
                2 => {
                    s.fs.denied.insert(HISTORY.into());
                }
                3 => {
                    s.fs.readonly.insert(HISTORY.into());
                }
                4 => {
                    s.fs.mkdirs(CACHE);
                    s.fs.names.remove(HISTORY);
                    s.fs.dirs.insert(HISTORY.into());
                    s.fire("history-is-a-directory".into());
                }
                5 => {
                    s.fs.names.remove(HISTORY);
                }
                _ => {}
            }
            s.fs.cap = se.room.map(|x| s.fs.total() + x as u64);
            s.faults = se.faults.clone();
            s.op_count = Default::default();
            let before: u64 = s.fired.values().sum();
            let hard0 = s.hard;
            let there: Option<Vec<u8>> = s.fs.get(HISTORY).cloned();
            let file: Option<Vec<u8>> = if s.fs.denied.contains(HISTORY) { None } else { s.fs.get(HISTORY).cloned() };
            let start = file.as_deref().map(parse).unwrap_or_default();
            crate::term::reset();
            // The keys, and the lines they are to give when `start` is the history.
            let mut ed = Editor { hist: start, ..Default::default() };
            let mut keys: Vec<Vec<Key>> = vec![];
            let mut known = vec![];
            for e in &se.lines {
                let (k, t) = match e {
                    Entry::Text(t) => (vec![], t),
                    Entry::Recall(n, t) => (vec![Key::Up; *n as usize], t),
                    Entry::Visit(n, t) => {
                        let mut v = vec![Key::Up; *n as usize];
                        v.extend(vec![Key::Down; *n as usize]);
                        (v, t)
                    }
                    Entry::Change(n, k, c, m, t) => {
                        let mut v = vec![Key::Up; *n as usize];
                        v.extend(vec![Key::Back; *k as usize]);
                        v.extend(c.chars().map(Key::Ch));
                        v.extend(vec![Key::Down; *m as usize]);
                        (v, t)
                    }
                };
                let mut k = k;
                k.extend(t.chars().map(Key::Ch));
                k.push(Key::Enter);
                keys.push(k);
            }
            if let EndBy::D(t) = &se.end {
                let mut k: Vec<Key> = t.chars().map(Key::Ch).collect();
                k.push(Key::D);
                keys.push(k);
            }
            let mut ended = false;
            for k in &keys {
                ed.start();
                for k in k {
                    if let Some(Ok(l)) = ed.key(*k) {
                        if se.console && l.split_whitespace().next() == Some("bye") {
                            // A recalled line ends the session.
                            ended = true;
                        }
                        known.push(l);
                    }
                }
                if ended {
                    break;
                }
            }
            // Loading happened undisturbed?
            let loaded_ok;
            let mut delivered: Vec<String> = vec![];
            if se.console {
                // In the whole console the lines are also interpreted.
                for k in keys.iter().flatten() {
                    crate::term::state().events.push_back(event(*k));
                }
                if !matches!(se.end, EndBy::D(_)) && !ended {
                    // Ends by the command.
                    ed.start();
                    for c in "bye".chars() {
                        crate::term::state().events.push_back(event(Key::Ch(c)));
                        ed.key(Key::Ch(c));
                    }
                    crate::term::state().events.push_back(event(Key::Enter));
                    ed.key(Key::Enter);
                }
                let hard = sim().hard;
                let mut vm = Rtf::make();
                loaded_ok = sim().hard == hard;
                sut(|| rtfhost::sim_repl(&mut vm));
                if matches!(se.end, EndBy::Killed) {
                    std::mem::forget(vm);
                } else {
                    dying(&se.end, || drop(vm));
                }
            } else {
                let hard = sim().hard;
                let mut t = sut(SimTerm::new);
                loaded_ok = sim().hard == hard;
                for (i, k) in keys.iter().enumerate() {
                    if se.read_error == Some(i as u32) {
                        // Something is typed, then the terminal fails.
                        for k in [Key::Ch('x'), Key::Up, Key::Down] {
                            crate::term::state().events.push_back(event(k));
                        }
                        crate::term::state().at_end = crate::term::AtEnd::Error;
                        let got = sut(|| t.read_line());
                        if got != Err(false) {
                            out.fail("line", format!("session {}: a failing terminal gave {:?}", n + 1, got));
                            return;
                        }
                        sim().fire("key-eio".into());
                        crate::term::state().at_end = crate::term::AtEnd::CtrlD;
                    }
                    for k in k {
                        crate::term::state().events.push_back(event(*k));
                    }
                    let got = sut(|| t.read_line());
                    sim().ev(&format!("{:?}", got));
                    match got {
                        Ok(l) => {
                            if loaded_ok && known.get(i) != Some(&l) {
                                out.fail("recall", format!("session {} line {} was {:?} instead of {:?}", n + 1, i + 1, l, known.get(i)));
                                return;
                            }
                            delivered.push(l)
                        }
                        Err(eof) => {
                            if !eof || i < se.lines.len() {
                                out.fail("line", format!("session {} line {} gave error (end of input: {})", n + 1, i + 1, eof));
                                return;
                            }
                        }
                    }
                }
                if matches!(se.end, EndBy::Killed) {
                    std::mem::forget(t);
                } else {
                    dying(&se.end, || drop(t));
                    if crate::term::state().raw != 0 {
                        out.fail("raw-mode", format!("session {} leaves the terminal in raw mode", n + 1));
                        return;
                    }
                }
            }
            sut(|| {
                let _ = std::io::stdout().flush();
            });
            total += se.lines.len();
            let s = sim();
            let after: u64 = s.fired.values().sum();
            let saved_ok = s.hard == hard0 && se.trouble == 0 && se.room.is_none();
            if after != before || se.trouble != 0 {
                faulted += (n + 1 < p.sessions.len()) as u64;
            }
            let died = s.dead.take();
            let in_place = |s: &crate::sim::Sim| !s.fs.denied.contains(HISTORY) && se.trouble != 4;
            if let Some(d) = died {
                s.fs = d;
                out.count("sessions killed while saving", 1);
                let got = s.fs.get(HISTORY).map(|c| parse(c)).unwrap_or_default();
                let old = file.as_deref().map(parse).unwrap_or_default();
                if in_place(s) && s.fs.get(HISTORY) != file.as_ref() && got != old && !(loaded_ok && got == kept(&ed.hist)) {
                    out.fail("saved", format!("session {} was killed while saving and left the history {:?}, neither {:?} as before nor {:?} as after", n + 1, got, old, kept(&ed.hist)));
                    return;
                }
            } else if matches!(se.end, EndBy::Killed) {
                // Descriptors of the dead process are gone.
                s.fs.open.clear();
                out.count("sessions killed", 1);
                if in_place(s) && s.fs.get(HISTORY) != file.as_ref() {
                    out.fail("saved", format!("session {} was killed and yet changed the history file", n + 1));
                    return;
                }
            } else {
                out.count("sessions ended", 1);
                if !s.fs.open.is_empty() {
                    out.fail("leak", format!("session {} leaves files open", n + 1));
                    return;
                }
                let got = s.fs.get(HISTORY).map(|c| parse(c)).unwrap_or_default();
                if (se.trouble == 2 || se.trouble == 3) && s.fs.names.get(HISTORY).map(|&i| &s.fs.inodes[i]) != there.as_ref() {
                    out.fail("saved", format!("session {} replaced a history file that may not be written", n + 1));
                    return;
                }
                if loaded_ok && se.trouble < 4 && !saved_ok {
                    // Saved or not, nothing else is lost.
                    let old = file.as_deref().map(parse).unwrap_or_default();
                    if in_place(s) && got != old && got != kept(&ed.hist) {
                        out.fail("saved", format!("session {} could not be saved and left the history {:?}, neither {:?} as before nor {:?} as after", n + 1, got, old, kept(&ed.hist)));
                        return;
                    }
                    out.count("histories kept", 1);
                }
                if loaded_ok && saved_ok {
                    let want = kept(&ed.hist);
                    if got != want {
                        out.fail("saved", format!("after session {} the history is {:?} instead of {:?}", n + 1, got, want));
                        return;
                    }
                    out.count("histories compared", 1);
                } else if saved_ok || (s.hard == hard0 && se.trouble == 5) {
                    // At least the lines of this session are there.
                    let tail = kept(&delivered);
                    let changed = se.lines.iter().any(|e| matches!(e, Entry::Change(..)));
                    if !se.console && !changed && !got.ends_with(&tail) {
                        out.fail("saved", format!("after session {} the history is {:?} and lacks the lines entered: {:?}", n + 1, got, tail));
                        return;
                    }
                }
            }
            let mut f = Fnv::new();
            f.u64(kept(&ed.hist).len() as u64);
            f.u64(match se.end {
                EndBy::Bye => 0,
                EndBy::D(_) => 1,
                EndBy::Killed => 2,
                EndBy::KilledSaving(_) => 3,
            });
            f.u64(se.trouble as u64);
            f.u64(after - before);
            f.u64(loaded_ok as u64 * 2 + saved_ok as u64);
            out.states.push(f.0);
            h.u64(f.0);
            h.u64(se.lines.len() as u64);
        }
        out.count("lines", total as u64);
        out.nontrivial = (p.sessions.len() >= 2 && total >= 33) || faulted > 0;
        out.sched = h.0;
    }
}
