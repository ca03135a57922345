//! File words driven by a globally ordered plan of operations of several
//! tasks, under I/O faults, against a shadow file system and id tables.
use crate::frame::Outcome;
use crate::hosts::*;
use crate::rng::{Fnv, Rng};
use crate::sim::{sim, sut, Fault, Kind, Op as Sys};
use crate::simfs::SimFs;
use rtforth::memory::Memory;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Id {
    /// The k-th open id (file or source) of this task.
    Open(u32),
    /// An id that is open in some other task.
    Foreign(u32),
    /// The id closed last in this task.
    Closed,
    Raw(i64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Addr {
    /// In the scratch buffer.
    Buf(u32, u32),
    /// The last n bytes of the data space.
    End(u32),
    /// From k bytes before the end of the data space, n > k bytes.
    Straddle(u32, u32),
    /// From k bytes before the start of the data space.
    Below(u32, u32),
    /// An address and length as they are.
    Wild(i64, i64),
    /// Scratch buffer with a length as it is.
    Long(i64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Name {
    N(u32),
    /// Name at an unusable place.
    At(Addr),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum F {
    Open(Name, i64),
    Create(Name, i64),
    Close(Id),
    Read(Id, Addr),
    Write(Id, Addr, u8),
    Size(Id),
    Pos(Id),
    Repos(Id, i64, i64),
    Resize(Id, i64, i64),
    Delete(Name),
    OpenSource(Name, Id),
    CloseSource(Id),
    SourcePath(Id),
    LoadLine(Id),
    Die,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub host: u8,
    pub files: Vec<(u32, u32)>,
    pub ops: Vec<(u8, F)>,
    pub faults: Vec<Fault>,
    pub chunks_read: Vec<u32>,
    pub chunks_write: Vec<u32>,
    pub cap: Option<u64>,
    pub max_open: Option<usize>,
}

const NAMES: &[&str] = &["a", "b", "c.txt", "d/e", "d/f", "/sim/b", "./c.txt", "no/x", "", "d", "nu\0l", "ro", "deny", "d/../a", "LONG", "a/b", "a ", " a", "A", "c.TXT", "\u{e9}", "b.", "a\t", "d/e ", "B", "b\r", "~"];
fn name(i: u32) -> Vec<u8> {
    match NAMES[i as usize % NAMES.len()] {
        "LONG" => vec![b'q'; 256],
        n => n.as_bytes().to_vec(),
    }
}

const BUF: usize = 2048;
/// The buffer of plans with transfers longer than BUF.
const BIG: usize = 36_000;

#[derive(Clone, Debug)]
struct Handle {
    fd: i32,
}

struct World {
    shadow: SimFs,
    ids: [BTreeMap<i64, Handle>; 6],
    srcs: [BTreeMap<i64, (Handle, Vec<u8>)>; 6],
    closed: [i64; 6],
    closed_src: [i64; 6],
    ops: Vec<(u8, F)>,
    at: usize,
    idle: u64,
    out: Outcome,
    h: Fnv,
    err: Option<i64>,
    // Prepared by nextop for opdone.
    args: Vec<i64>,
    before: Vec<u8>,
    before2: Vec<u8>,
    win: (usize, usize),
    hard: u64,
    open_before: BTreeSet<i32>,
    rd: Option<(usize, usize)>,
    wdata: Vec<u8>,
    named: Vec<u8>,
    range_ok: bool,
    fbuf: usize,
    fsize: usize,
    nbuf: usize,
    stats: Stats,
    stopped: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub transfers: u64,
    pub bad_ids: u64,
    pub opens: u64,
    pub closes: u64,
    pub tasks: BTreeSet<u8>,
    pub deaths: u64,
}

static mut WORLD: Option<World> = None;
fn w() -> &'static mut World {
    unsafe { (*(&raw mut WORLD)).as_mut().unwrap() }
}

/// Address and length of an Addr.
fn place(a: &Addr, fbuf: usize, size: usize, start: usize, limit: usize) -> (i64, i64) {
    match a {
        Addr::Buf(o, n) => {
            let o = *o as usize % size;
            ((fbuf + o) as i64, (*n as usize).min(size - o) as i64)
        }
        Addr::End(n) => {
            let n = (*n).min(4096) as usize;
            ((limit - n) as i64, n as i64)
        }
        Addr::Straddle(k, n) => ((limit - (*k as usize).min(4096)) as i64, ((*k).min(4096) + n.max(&1)) as i64),
        Addr::Below(k, n) => ((start - (*k).max(1) as usize) as i64, (*n).max(1) as i64),
        Addr::Wild(a, n) => (*a, if *n == 0 { 1 } else { *n }),
        Addr::Long(n) => (fbuf as i64, if (1..=size as i64).contains(n) || *n == 0 { i64::MAX } else { *n }),
    }
}
fn in_range(a: i64, n: i64, start: usize, limit: usize) -> bool {
    let (a, n) = (a as u64 as u128, n as u64 as u128);
    a >= start as u128 && a + n <= limit as u128
}

fn show(f: &F) -> String {
    format!("{:?}", f)
}

impl World {
    fn fail(&mut self, class: &str, d: String) {
        let (t, f) = self.ops[self.at].clone();
        self.out.fail(class, format!("operation {} of task {}: {}: {}", self.at, t, show(&f), d));
    }
    fn resolve(&self, t: usize, id: &Id, src: bool) -> i64 {
        let keys: Vec<i64> = if src { self.srcs[t].keys().cloned().collect() } else { self.ids[t].keys().cloned().collect() };
        match id {
            Id::Open(k) => {
                if keys.is_empty() {
                    1
                } else {
                    keys[*k as usize % keys.len()]
                }
            }
            Id::Foreign(k) => {
                let mut all: Vec<i64> = Vec::new();
                for o in 1..6 {
                    if o != t {
                        if src {
                            all.extend(self.srcs[o].keys())
                        } else {
                            all.extend(self.ids[o].keys())
                        }
                    }
                }
                if all.is_empty() {
                    2
                } else {
                    all[*k as usize % all.len()]
                }
            }
            Id::Closed => {
                if src {
                    self.closed_src[t]
                } else {
                    self.closed[t]
                }
            }
            Id::Raw(n) => *n,
        }
    }
}

fn wm_more<H: Host>(vm: &mut H) {
    let x = w();
    let go = x.at < x.ops.len() && !x.out.failed() && !x.stopped;
    vm.s_stack().push(if go { -1 } else { 0 });
}

/// ( -- f ) is the next operation that of the running task?
fn wm_mine<H: Host>(vm: &mut H) {
    let x = w();
    let t = vm.current_task() + 1;
    x.idle += 1;
    if x.idle > 5_000 {
        stop("stuck", format!("task of operation {} gets no turn", x.at));
    }
    let yes = x.at < x.ops.len() && !x.out.failed() && !x.stopped && x.ops[x.at].0 as usize == t && x.ops[x.at].1 != F::Die;
    if x.at < x.ops.len() && x.ops[x.at].1 == F::Die {
        x.stopped = true;
    }
    vm.s_stack().push(if yes { -1 } else { 0 });
}

fn snapshot<H: Host>(vm: &mut H, x: &mut World) {
    let (start, limit, here) = (vm.data_space().start(), vm.data_space().limit(), vm.data_space().here());
    let hi = (here + 1024).min(limit);
    let lo2 = limit.saturating_sub(4096 + 64).max(hi);
    x.win = (hi, lo2);
    unsafe {
        x.before.clear();
        x.before.extend_from_slice(std::slice::from_raw_parts(start as *const u8, hi - start));
        x.before2.clear();
        x.before2.extend_from_slice(std::slice::from_raw_parts(lo2 as *const u8, limit - lo2));
    }
}

/// ( -- args xt )
fn wm_next<H: Host>(vm: &mut H) {
    let u = std::mem::replace(&mut sim().in_sut, false);
    let x = w();
    x.idle = 0;
    x.err = None;
    let (t, f) = x.ops[x.at].clone();
    let t = t as usize;
    let (start, limit) = (vm.data_space().start(), vm.data_space().limit());
    x.named.clear();
    x.range_ok = true;
    x.rd = None;
    let put_name = |x: &mut World, n: &Name| -> (i64, i64) {
        match n {
            Name::N(i) => {
                let b = name(*i);
                unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), x.nbuf as *mut u8, b.len()) };
                x.named = b;
                (x.nbuf as i64, x.named.len() as i64)
            }
            Name::At(a) => {
                let (a, n) = place(a, x.fbuf, x.fsize, start, limit);
                if in_range(a, n, start, limit) {
                    // Text there could be any name: use one that cannot exist.
                    let b = b"no/such";
                    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), x.nbuf as *mut u8, b.len()) };
                    x.named = b.to_vec();
                    return (x.nbuf as i64, b.len() as i64);
                }
                x.range_ok = false;
                (a, n)
            }
        }
    };
    let (word, args): (&str, Vec<i64>) = match &f {
        F::Open(n, m) => {
            let (a, l) = put_name(x, n);
            // A directory can be opened read-only; not asked for here.
            let m = if x.named == b"d" && *m == 0 { 1 } else { *m };
            ("open-file", vec![a, l, m])
        }
        F::Create(n, m) => {
            let (a, l) = put_name(x, n);
            ("create-file", vec![a, l, *m])
        }
        F::Close(id) => ("close-file", vec![x.resolve(t, id, false)]),
        F::Read(id, a) => {
            let (p, n) = place(a, x.fbuf, x.fsize, start, limit);
            x.range_ok = in_range(p, n, start, limit);
            if x.range_ok {
                x.rd = Some((p as usize, n as usize));
                // Something that differs from any file's content.
                unsafe { std::ptr::write_bytes(p as *mut u8, 0xEE, n as usize) };
            }
            ("read-file", vec![p, n, x.resolve(t, id, false)])
        }
        F::Write(id, a, b) => {
            let (p, n) = place(a, x.fbuf, x.fsize, start, limit);
            x.range_ok = in_range(p, n, start, limit);
            if x.range_ok {
                x.wdata = (0..n as usize).map(|i| (x.at as u8).wrapping_mul(37).wrapping_add((i % 251) as u8).wrapping_add((i / 251) as u8).wrapping_add(*b)).collect();
                unsafe { std::ptr::copy_nonoverlapping(x.wdata.as_ptr(), p as *mut u8, n as usize) };
            }
            ("write-file", vec![p, n, x.resolve(t, id, false)])
        }
        F::Size(id) => ("file-size", vec![x.resolve(t, id, false)]),
        F::Pos(id) => ("file-position", vec![x.resolve(t, id, false)]),
        F::Repos(id, lo, hi) => ("reposition-file", vec![*lo, *hi, x.resolve(t, id, false)]),
        F::Resize(id, lo, hi) => ("resize-file", vec![*lo, *hi, x.resolve(t, id, false)]),
        F::Delete(n) => {
            let (a, l) = put_name(x, n);
            ("delete-file", vec![a, l])
        }
        F::OpenSource(n, id) => {
            let (a, l) = put_name(x, n);
            ("open-source", vec![a, l, x.resolve(t, id, false)])
        }
        F::CloseSource(id) => ("close-source", vec![x.resolve(t, id, true)]),
        F::SourcePath(id) => (".source-path", vec![x.resolve(t, id, true)]),
        F::LoadLine(id) => ("load-line", vec![x.resolve(t, id, true)]),
        F::Die => unreachable!(),
    };
    x.args = args.clone();
    pad_output(vm, x.at);
    snapshot(vm, x);
    x.hard = sim().hard;
    x.open_before = sim().fs.open.keys().cloned().collect();
    pad_stack(vm, x.at);
    for a in args {
        vm.s_stack().push(a as isize);
    }
    let xt = match vm.find(word) {
        Some(x) => x,
        None => stop("load", format!("{} is not a word", word)),
    };
    vm.s_stack().push(xt as isize);
    sim().in_sut = u;
}

fn w_ferr<H: Host>(vm: &mut H) {
    let e = vm.s_stack().pop() as i64;
    w().err = Some(e);
}

/// The operation is done: judge it.
fn wm_done<H: Host>(vm: &mut H) {
    let u = std::mem::replace(&mut sim().in_sut, false);
    judge(vm);
    let t = vm.current_task() as isize + 1;
    sut(|| vm.clear_stacks());
    vm.s_stack().push(1000 + t);
    w().at += 1;
    sim().in_sut = u;
}

fn judge<H: Host>(vm: &mut H) {
    let x = w();
    let (t8, f) = x.ops[x.at].clone();
    let t = t8 as usize;
    let st = unpadded(vm);
    let hard = sim().hard > x.hard;
    let args = x.args.clone();
    x.stats.tasks.insert(t8);
    if vm.current_task() + 1 != t {
        return x.fail("task", format!("task {} is running after it", vm.current_task() + 1));
    }
    let now: BTreeSet<i32> = sim().fs.open.keys().cloned().collect();
    let new: Vec<i32> = now.difference(&x.open_before).cloned().collect();
    let gone: Vec<i32> = x.open_before.difference(&now).cloned().collect();
    // Source words report by error, file words by ior.
    let source_word = matches!(f, F::OpenSource(..) | F::CloseSource(_) | F::SourcePath(_) | F::LoadLine(_));
    let outs = match f {
        F::Open(..) | F::Create(..) | F::Read(..) => 2,
        F::Size(_) | F::Pos(_) => 3,
        _ => 1,
    };
    if !source_word {
        if let Some(e) = x.err {
            return x.fail("raised", format!("raised error {} instead of returning an ior", e));
        }
        if st.len() != 1 + outs || st[0] != 1000 + t as i64 {
            return x.fail("stack", format!("stack is {:?}", st));
        }
        let o = out_unpadded(vm, x.at);
        if !o.is_empty() {
            return x.fail("output", format!("pending output is {:?}", o));
        }
    }
    let ior = *st.last().unwrap_or(&0);
    let ok = ior == 0;
    let id_arg = *args.last().unwrap();
    let mut expect_new = 0;
    let mut expect_gone: Vec<i32> = Vec::new();
    // None: either result is right.
    let mut want: Option<bool>;
    let id_known = |x: &World, id: i64| x.ids[t].get(&id).map(|h| h.fd);
    match &f {
        F::Open(..) | F::Create(..) => {
            let create = matches!(f, F::Create(..));
            let mode = args[2];
            let acc = match mode {
                0 => libc::O_RDONLY,
                1 => libc::O_WRONLY,
                _ => libc::O_RDWR,
            };
            let good = x.range_ok && (0..3).contains(&mode) && !(create && mode == 0) && !x.named.contains(&0);
            let mut r = Err(0);
            if good && !hard {
                let nm = x.named.clone();
                // The shadow has its own limit of open files.
                r = x.shadow.open(&nm, acc | if create { libc::O_CREAT | libc::O_TRUNC } else { 0 });
            }
            want = Some(r.is_ok());
            if ok {
                expect_new = 1;
                if let Ok(sfd) = r {
                    let id = st[1];
                    x.stats.opens += 1;
                    if id <= 0 || x.ids[t].contains_key(&id) {
                        return x.fail("id-reused", format!("gave id {} while {:?} are open", id, x.ids[t].keys().collect::<Vec<_>>()));
                    }
                    if new.len() == 1 {
                        // Same number for both worlds from here on.
                        let h = x.shadow.open.remove(&sfd).unwrap();
                        x.shadow.open.insert(new[0], h);
                        x.ids[t].insert(id, Handle { fd: new[0] });
                    }
                }
            } else if let Ok(sfd) = r {
                x.shadow.open.remove(&sfd);
            }
        }
        F::Close(_) => {
            let fd = id_known(x, id_arg);
            want = Some(fd.is_some());
            match fd {
                Some(fd) => {
                    expect_gone.push(fd);
                    x.ids[t].remove(&id_arg);
                    x.shadow.open.remove(&fd);
                    x.closed[t] = id_arg;
                    x.stats.closes += 1;
                }
                None => x.stats.bad_ids += 1,
            }
        }
        F::Read(..) => {
            let fd = id_known(x, id_arg);
            let n = args[1] as usize;
            want = Some(fd.is_some() && x.range_ok && !hard);
            if fd.is_none() {
                x.stats.bad_ids += 1;
            }
            if let (Some(fd), true) = (fd, x.range_ok) {
                let u2 = st[1];
                let old = x.shadow.open[&fd].pos;
                let readable = x.shadow.open[&fd].read;
                if !readable {
                    want = if n == 0 { None } else { Some(false) };
                    if u2 != 0 {
                        return x.fail("read-count", format!("{} characters read from a write-only file", u2));
                    }
                } else {
                    let len = x.shadow.inodes[x.shadow.open[&fd].inode].len() as u64;
                    let full = (n as u64).min(len.saturating_sub(old));
                    if u2 < 0 || u2 as u64 > full || (ok && u2 as u64 != full) {
                        return x.fail("read-count", format!("{} characters read, ior {}; {} asked for at position {} of a file of {}", u2, ior, n, old, len));
                    }
                    let s = old.min(len) as usize;
                    let a = args[0] as usize;
                    let got = unsafe { std::slice::from_raw_parts(a as *const u8, u2 as usize) }.to_vec();
                    if got != x.shadow.inodes[x.shadow.open[&fd].inode][s..s + u2 as usize] {
                        return x.fail("read-data", format!("{} characters read at position {} are not those of the file", u2, old));
                    }
                    x.shadow.open.get_mut(&fd).unwrap().pos = old + u2 as u64;
                    x.stats.transfers += 1;
                }
            }
        }
        F::Write(..) => {
            let fd = id_known(x, id_arg);
            let n = args[1] as usize;
            want = Some(fd.is_some() && x.range_ok && !hard);
            if fd.is_none() {
                x.stats.bad_ids += 1;
            }
            if let (Some(fd), true) = (fd, x.range_ok) {
                if !x.shadow.open[&fd].write {
                    want = if n == 0 { None } else { Some(false) };
                } else {
                    x.stats.transfers += 1;
                    let mut k = n;
                    if !ok {
                        // A part may have been written.
                        let p = sim().fs.open.get(&fd).map(|o| o.pos).unwrap_or(0);
                        let old = x.shadow.open[&fd].pos;
                        if p < old || p - old > n as u64 {
                            return x.fail("write-position", format!("position went from {} to {} in a failed transfer of {}", old, p, n));
                        }
                        k = (p - old) as usize;
                    }
                    let d = x.wdata[..k].to_vec();
                    let cap = x.shadow.cap.take();
                    let r = x.shadow.write(fd, &d, None);
                    x.shadow.cap = cap;
                    if ok && r.is_err() && n > 0 {
                        want = Some(false);
                    }
                }
            }
        }
        F::Size(_) => {
            let fd = id_known(x, id_arg);
            want = Some(fd.is_some() && !hard);
            match fd {
                Some(fd) => {
                    let len = x.shadow.inodes[x.shadow.open[&fd].inode].len() as i64;
                    if ok && (st[1] != len || st[2] != 0) {
                        return x.fail("size", format!("gave {} {}, the file has {}", st[1], st[2], len));
                    }
                }
                None => x.stats.bad_ids += 1,
            }
        }
        F::Pos(_) => {
            let fd = id_known(x, id_arg);
            want = Some(fd.is_some() && !hard);
            match fd {
                Some(fd) => {
                    let p = x.shadow.open[&fd].pos as i64;
                    if ok && (st[1] != p || st[2] != 0) {
                        return x.fail("position", format!("gave {} {}, the position is {}", st[1], st[2], p));
                    }
                }
                None => x.stats.bad_ids += 1,
            }
        }
        F::Repos(..) => {
            let fd = id_known(x, id_arg);
            let good = args[0] >= 0 && args[1] == 0;
            want = Some(fd.is_some() && good && !hard);
            match fd {
                Some(fd) if ok => x.shadow.open.get_mut(&fd).unwrap().pos = args[0] as u64,
                Some(_) => {}
                None => x.stats.bad_ids += 1,
            }
        }
        F::Resize(..) => {
            let fd = id_known(x, id_arg);
            let good = args[0] >= 0 && args[1] == 0;
            want = Some(false);
            match fd {
                Some(fd) => {
                    if good && !hard {
                        let cap = x.shadow.cap.take();
                        want = Some(x.shadow.truncate(fd, args[0]).is_ok());
                        x.shadow.cap = cap;
                    }
                    // Where the position is afterwards is not specified.
                    if let Some(o) = sim().fs.open.get(&fd) {
                        x.shadow.open.get_mut(&fd).unwrap().pos = o.pos;
                    }
                }
                None => x.stats.bad_ids += 1,
            }
        }
        F::Delete(_) => {
            let good = x.range_ok && !x.named.contains(&0);
            want = Some(false);
            if good && !hard {
                let nm = x.named.clone();
                want = Some(x.shadow.unlink(&nm).is_ok());
            }
        }
        F::OpenSource(..) => {
            let fd = id_known(x, id_arg);
            let good = fd.is_some() && x.range_ok;
            want = Some(good);
            if fd.is_none() {
                x.stats.bad_ids += 1;
            }
            if good && x.err.is_none() {
                let sid = *st.last().unwrap();
                if st.len() != 2 || st[0] != 1000 + t as i64 {
                    return x.fail("stack", format!("stack is {:?}", st));
                }
                if sid <= 0 || x.srcs[t].contains_key(&sid) {
                    return x.fail("id-reused", format!("gave source id {} while {:?} are open", sid, x.srcs[t].keys().collect::<Vec<_>>()));
                }
                x.closed[t] = id_arg;
                let h = x.ids[t].remove(&id_arg).unwrap();
                let nm = x.named.clone();
                x.srcs[t].insert(sid, (h, nm));
            }
        }
        F::CloseSource(_) => {
            let fd = x.srcs[t].get(&id_arg).map(|h| h.0.fd);
            want = Some(fd.is_some());
            match fd {
                Some(fd) => {
                    expect_gone.push(fd);
                    x.srcs[t].remove(&id_arg);
                    x.shadow.open.remove(&fd);
                    x.closed_src[t] = id_arg;
                    x.stats.closes += 1;
                }
                None => x.stats.bad_ids += 1,
            }
        }
        F::SourcePath(_) => {
            let p = x.srcs[t].get(&id_arg).map(|h| h.1.clone());
            want = Some(p.is_some());
            if let (Some(p), None) = (p, x.err) {
                let o = out_unpadded(vm, x.at);
                if o.as_bytes() != &p[..] {
                    return x.fail("source-path", format!("gave {:?} for {:?}", o, String::from_utf8_lossy(&p)));
                }
            }
        }
        F::LoadLine(_) => {
            let s = x.srcs[t].get(&id_arg).map(|h| h.0.fd);
            want = Some(s.is_some() && !hard);
            if let Some(fd) = s {
                if !x.shadow.open[&fd].read {
                    want = Some(false);
                } else if x.err.is_some() && !hard {
                    // Not text.
                    want = None;
                }
            } else {
                x.stats.bad_ids += 1;
            }
        }
        F::Die => unreachable!(),
    }
    let got_ok = if source_word { x.err.is_none() } else { ok };
    if let Some(wk) = want {
        if wk != got_ok {
            let r = if source_word { format!("error {:?}", x.err) } else { format!("ior {}", ior) };
            return x.fail(
                if wk { "false-failure" } else { "false-success" },
                format!("gave {}, arguments {:?}, failure of the operating system: {}, range in data space: {}", r, args, hard, x.range_ok),
            );
        }
    }
    if source_word && x.err.is_none() {
        let n = match f {
            F::OpenSource(..) => 2,
            F::LoadLine(_) => 3,
            _ => 1,
        };
        if st.len() != n || st[0] != 1000 + t as i64 {
            return x.fail("stack", format!("stack is {:?}", st));
        }
    }
    if new.len() != expect_new || gone != expect_gone {
        return x.fail("open-files", format!("opened {:?}, closed {:?} instead of opening {} and closing {:?}", new, gone, expect_new, expect_gone));
    }
    compare(x);
    // Memory.
    if !x.out.failed() {
        let (start, limit) = (vm.data_space().start(), vm.data_space().limit());
        let (a, b): (&[u8], &[u8]) = unsafe {
            (
                std::slice::from_raw_parts(start as *const u8, x.win.0 - start),
                std::slice::from_raw_parts(x.win.1 as *const u8, limit - x.win.1),
            )
        };
        let rd = x.rd.unwrap_or((0, 0));
        let inside = |p: usize| p >= rd.0 && p - rd.0 < rd.1;
        let mut bad = None;
        for (base, was, is) in [(start, &x.before, a), (x.win.1, &x.before2, b)] {
            if was[..] == *is {
                continue;
            }
            for i in 0..was.len() {
                if was[i] != is[i] && !inside(base + i) {
                    bad = Some(base + i - start);
                    break;
                }
            }
        }
        if let Some(o) = bad {
            x.fail("memory", format!("byte {} of the data space changed, outside the buffer", o));
        }
    }
    let d = std::mem::discriminant(&f);
    let tag = format!("{:?}{}{}{}{}", d, t, got_ok, hard, x.err.is_some());
    x.h.bytes(tag.as_bytes());
    let s = sim();
    s.ev(&tag);
    for v in &st {
        s.evn(if *v > 1 << 32 { 0 } else { *v });
    }
    let mut sh = Fnv::new();
    for i in 1..6 {
        sh.u64(x.ids[i].len() as u64);
        sh.u64(x.srcs[i].len() as u64);
    }
    for n in x.shadow.names.values() {
        sh.u64(x.shadow.inodes[*n].len() as u64 / 16);
    }
    sh.bytes(tag.as_bytes());
    x.out.states.push(sh.0);
}

/// The real files and open files against the shadow.
fn compare(x: &mut World) {
    let fs = &sim().fs;
    let real: Vec<(&String, &Vec<u8>)> = fs.names.iter().map(|(n, i)| (n, &fs.inodes[*i])).collect();
    let model: Vec<(&String, &Vec<u8>)> = x.shadow.names.iter().map(|(n, i)| (n, &x.shadow.inodes[*i])).collect();
    if real != model {
        let mut d = String::new();
        for (n, c) in &real {
            match model.iter().find(|m| m.0 == *n) {
                None => d = format!("file {} should not exist", n),
                Some(m) if m.1 != *c => {
                    let i = m.1.iter().zip(c.iter()).position(|(a, b)| a != b).unwrap_or(m.1.len().min(c.len()));
                    d = format!("file {} has {} bytes instead of {}, first difference at {}", n, c.len(), m.1.len(), i)
                }
                _ => {}
            }
        }
        for (n, _) in &model {
            if !real.iter().any(|r| r.0 == *n) {
                d = format!("file {} does not exist any more", n);
            }
        }
        return x.fail("content", d);
    }
    let mut owned: BTreeMap<i32, bool> = BTreeMap::new();
    for t in 1..6 {
        for h in x.ids[t].values() {
            owned.insert(h.fd, false);
        }
        for h in x.srcs[t].values() {
            owned.insert(h.0.fd, true);
        }
    }
    let open: Vec<i32> = fs.open.keys().cloned().collect();
    let own: Vec<i32> = owned.keys().cloned().collect();
    if open != own {
        return x.fail("open-files", format!("operating-system files open: {:?}; ids and sources: {:?}", open, own));
    }
    for (fd, src) in owned {
        let (a, b) = (&fs.open[&fd], &x.shadow.open[&fd]);
        if (!src && a.pos != b.pos) || a.read != b.read || a.write != b.write || fs.inodes[a.inode] != x.shadow.inodes[b.inode] || a.path != b.path {
            let d = format!("file {} at position {} instead of {}, read {} write {}", a.path, a.pos, b.pos, a.read, a.write);
            return x.fail("handle", d);
        }
    }
}

fn boot<H: Host>(tasks: &BTreeSet<u8>) -> Box<H> {
    let mut vm = H::make();
    vm.add_primitive("more", wm_more::<H>);
    vm.add_primitive("mine", wm_mine::<H>);
    vm.add_primitive("nextop", wm_next::<H>);
    vm.add_primitive("opdone", wm_done::<H>);
    vm.add_primitive("ferr", w_ferr::<H>);
    let mut t = format!("create nbuf 1024 allot create fbuf {} allot\n: onerr error ferr 0error ;\n' onerr handler!\n", w().fsize + 64);
    for i in tasks {
        if *i == 1 {
            continue;
        }
        t.push_str(&format!(": w{0} {0} activate 100{0} {1}begin mine if nextop execute opdone then pause again ;\nw{0}\n", i, pad_return().0));
    }
    t.push_str(&format!(": w1 1001 {}begin more while mine if nextop execute opdone then pause repeat {}drop ;\nnbuf fbuf\n", pad_return().0, pad_return().1));
    load(&mut *vm, &t);
    let x = w();
    x.fbuf = vm.s_stack().pop() as usize;
    x.nbuf = vm.s_stack().pop() as usize;
    vm
}

fn go<H: Host>(p: &Plan, out: &mut Outcome) -> Stats {
    new_ctx(&[]);
    let s = sim();
    s.fs.mkdirs("/sim/d");
    for (n, l) in &p.files {
        let nm = name(*n);
        if let Ok(n) = String::from_utf8(nm) {
            if n.is_empty() || n == "d" || n.starts_with("no/") || n.contains('\0') || n.len() > 100 || n == "a/b" {
                continue;
            }
            let d: Vec<u8> = (0..*l).map(|i| if i % 23 == 22 { 10 } else { 32 + (i % 91) as u8 }).collect();
            s.fs.put(&n, &d);
        }
    }
    s.fs.readonly.insert("/sim/ro".into());
    s.fs.denied.insert("/sim/deny".into());
    let tasks: BTreeSet<u8> = p.ops.iter().map(|o| o.0).filter(|t| (1..=5).contains(t)).collect();
    let ops: Vec<(u8, F)> = p.ops.iter().filter(|o| (1..=5).contains(&o.0)).cloned().collect();
    let fsize = if ops.iter().any(|o| matches!(&o.1, F::Read(_, Addr::Buf(_, n)) | F::Write(_, Addr::Buf(_, n), _) if *n as usize > BUF)) { BIG } else { BUF };
    unsafe {
        WORLD = Some(World {
            shadow: SimFs::new(),
            ids: Default::default(),
            srcs: Default::default(),
            closed: [1; 6],
            closed_src: [1; 6],
            ops,
            at: 0,
            idle: 0,
            out: Outcome::new(),
            h: Fnv::new(),
            err: None,
            args: vec![],
            before: vec![],
            before2: vec![],
            win: (0, 0),
            hard: 0,
            open_before: BTreeSet::new(),
            rd: None,
            wdata: vec![],
            named: vec![],
            range_ok: true,
            fbuf: 0,
            fsize,
            nbuf: 0,
            stats: Stats::default(),
            stopped: false,
        });
    }
    let mut vm = boot::<H>(&tasks);
    let arm = |first: bool| {
        let s = sim();
        if first {
            s.fs.cap = p.cap.map(|c| c + s.fs.total());
            s.fs.max_open = p.max_open;
            let x = w();
            x.shadow = s.fs.clone();
            x.shadow.cap = None;
        }
        s.faults = p.faults.clone();
        s.chunks_read = p.chunks_read.clone();
        s.chunks_write = p.chunks_write.clone();
    };
    arm(true);
    while w().at < w().ops.len() && !w().out.failed() {
        w().stopped = false;
        let at = w().at;
        if w().ops[at].1 == F::Die {
            // Sudden death: what the dying VM would still do is undone.
            let fs = sim().fs.clone();
            sut(|| drop(vm));
            let s = sim();
            s.fs = fs;
            s.fs.open.clear();
            let x = w();
            x.shadow.open.clear();
            for i in 0..6 {
                x.ids[i].clear();
                x.srcs[i].clear();
                x.closed[i] = 1;
                x.closed_src[i] = 1;
            }
            x.stats.deaths += 1;
            compare(x);
            s.faults.clear();
            s.fire("vm-death".into());
            vm = boot::<H>(&tasks);
            arm(false);
            w().at += 1;
            continue;
        }
        pad_floats(&mut *vm);
        if let Some(e) = line(&mut *vm, "w1") {
            stop("error", format!("operator failed with {}", e));
        }
        if w().at == at && !w().out.failed() {
            stop("stuck", format!("operation {} was not made", at));
        }
    }
    sim().faults.clear();
    sut(|| drop(vm));
    let x = w();
    if !x.out.failed() {
        x.at = x.ops.len().saturating_sub(1);
        if !sim().fs.open.is_empty() && !x.ops.is_empty() {
            x.fail("open-files", "files are still open after the VM was dropped".into());
        } else if sim().fs.bad_fd_uses > 0 && !x.ops.is_empty() {
            x.fail("bad-descriptor", "a closed descriptor was used".into());
        }
    }
    out.violation = x.out.violation.take();
    out.states = std::mem::take(&mut x.out.states);
    out.sched = x.h.0;
    out.count("operations", x.at as u64);
    out.count("transfers", x.stats.transfers);
    out.count("bad_ids", x.stats.bad_ids);
    out.count("opens", x.stats.opens);
    out.count("closes", x.stats.closes);
    out.count("vm_deaths", x.stats.deaths);
    out.count(&format!("host {}", H::NAME), 1);
    x.stats.clone()
}

pub fn run(p: &Plan, out: &mut Outcome) -> Stats {
    crate::with_host!(p.host, go(p, out))
}

pub struct Wt {
    pub open: u32,
    pub xfer: u32,
    pub pos: u32,
    pub src: u32,
    pub bad: u64,
    pub faults: usize,
    pub die: u32,
}

pub fn gen(r: &mut Rng, wt: Wt, th: bool) -> Plan {
    let nt = 1 + r.us(4);
    // Transfers longer than any buffer of a library.
    let big = r.pct(3);
    let mut tasks: Vec<u8> = vec![1, 2, 3, 4, 5];
    r.shuffle(&mut tasks);
    tasks.truncate(nt);
    let n = if th { 4 + r.us(60) } else { 4 + r.us(28) };
    let id = |r: &mut Rng| -> Id {
        if r.pct(wt.bad) {
            match r.us(8) {
                0 => Id::Raw(0),
                1 => Id::Raw(-1),
                2 => Id::Raw(*r.pick(&[i64::MIN, i64::MAX, 1 << 32, (1 << 32) + 1, 99, -(1 << 32) + 1, i64::MIN + 1])),
                3 | 4 => Id::Closed,
                5 => Id::Foreign(r.us(4) as u32),
                _ => Id::Raw(r.range(1, 5)),
            }
        } else {
            Id::Open(r.us(4) as u32)
        }
    };
    let len = |r: &mut Rng| -> u32 {
        match r.us(6) {
            0 => 0,
            1 => 1,
            2 | 3 => r.us(40) as u32,
            4 => r.us(300) as u32,
            _ if big => r.us(BIG) as u32,
            _ => r.us(2000) as u32,
        }
    };
    let addr = |r: &mut Rng| -> Addr {
        if r.pct(12) {
            match r.us(6) {
                0 => Addr::End(1 + r.us(64) as u32),
                1 => Addr::Straddle(r.us(64) as u32, 1 + r.us(64) as u32),
                2 => Addr::Below(1 + r.us(32) as u32, 1 + r.us(64) as u32),
                3 => Addr::Wild(*r.pick(&[0, -1, -8, 1, 4096, i64::MAX, i64::MIN, i64::MIN + 7]), *r.pick(&[1, 8, -1, i64::MAX, i64::MIN])),
                4 => Addr::Long(*r.pick(&[-1, i64::MAX, i64::MIN, -100, 1 << 40])),
                _ => Addr::End(0),
            }
        } else {
            Addr::Buf(r.us(64) as u32, len(r))
        }
    };
    let name = |r: &mut Rng| -> Name {
        if r.pct(4) {
            Name::At(match r.us(4) {
                0 => Addr::Straddle(r.us(8) as u32, 1 + r.us(8) as u32),
                1 => Addr::Below(1 + r.us(8) as u32, 1 + r.us(16) as u32),
                2 => Addr::Wild(*r.pick(&[0, -1, 8, i64::MAX, i64::MIN]), *r.pick(&[1, 3, 200, -1])),
                _ => Addr::Long(*r.pick(&[-1, i64::MAX, i64::MIN])),
            })
        } else if r.pct(80) {
            Name::N(r.us(7) as u32)
        } else {
            Name::N(r.us(NAMES.len()) as u32)
        }
    };
    let ud = |r: &mut Rng| -> (i64, i64) {
        match r.us(12) {
            0 => (*r.pick(&[-1, i64::MIN, -5]), 0),
            1 => (r.range(0, 9), *r.pick(&[1, -1, i64::MIN])),
            2 => (*r.pick(&[i64::MAX, 1 << 40, 1 << 27]), 0),
            3 | 4 if big => (r.range(0, 70_000), 0),
            _ => (r.range(0, 400), 0),
        }
    };
    let mode = |r: &mut Rng| -> i64 {
        if r.pct(5) {
            *r.pick(&[-1, 3, 7, i64::MIN, i64::MAX, 1 << 32])
        } else {
            r.range(0, 2)
        }
    };
    let mut ops = Vec::new();
    // Roughly how many ids each task has.
    let mut have = [0i32; 6];
    for _ in 0..n {
        let t = *r.pick(&tasks);
        if have[t as usize] <= 0 && r.pct(85) {
            have[t as usize] = 1;
            ops.push((t, if r.pct(50) { F::Create(Name::N(r.us(5) as u32), 1 + r.range(0, 1)) } else { F::Open(Name::N(r.us(5) as u32), *r.pick(&[0, 2, 2, 1])) }));
            continue;
        }
        let o = match r.weighted(&[wt.open, wt.open, wt.open / 2, wt.xfer, wt.xfer, wt.pos, wt.pos, wt.pos, wt.pos, 1, wt.src, wt.src, wt.src, wt.src, wt.die]) {
            0 => F::Open(name(r), mode(r)),
            1 => F::Create(name(r), mode(r)),
            2 => F::Close(id(r)),
            3 => F::Read(id(r), addr(r)),
            4 => F::Write(id(r), addr(r), r.us(250) as u8),
            5 => F::Size(id(r)),
            6 => F::Pos(id(r)),
            7 => {
                let (a, b) = ud(r);
                F::Repos(id(r), a, b)
            }
            8 => {
                let (a, b) = ud(r);
                F::Resize(id(r), a, b)
            }
            9 => F::Delete(name(r)),
            10 => F::OpenSource(name(r), id(r)),
            11 => F::CloseSource(id(r)),
            12 => F::SourcePath(id(r)),
            13 => F::LoadLine(id(r)),
            _ => {
                have = [0; 6];
                F::Die
            }
        };
        match o {
            F::Open(..) | F::Create(..) => have[t as usize] += 1,
            F::Close(_) | F::OpenSource(..) => have[t as usize] -= 1,
            _ => {}
        }
        ops.push((t, o));
    }
    let mut faults = Vec::new();
    for _ in 0..r.us(wt.faults + 1) {
        let op = *r.pick(&[Sys::Open, Sys::Read, Sys::Read, Sys::Write, Sys::Write, Sys::Seek, Sys::Trunc, Sys::Stat, Sys::Unlink]);
        let kind = match op {
            Sys::Read => *r.pick(&[Kind::Eio, Kind::Eintr, Kind::Short(1), Kind::Short(5)]),
            Sys::Write => *r.pick(&[Kind::Eio, Kind::Enospc, Kind::Eintr, Kind::Short(1), Kind::Short(7)]),
            Sys::Open => *r.pick(&[Kind::Eio, Kind::Eintr, Kind::Emfile, Kind::Eacces, Kind::Enospc]),
            Sys::Trunc => *r.pick(&[Kind::Eio, Kind::Enospc, Kind::Eintr]),
            _ => Kind::Eio,
        };
        faults.push(Fault { op, nth: r.us(if op == Sys::Read || op == Sys::Write { 14 } else { 8 }) as u32, kind });
    }
    let chunks = |r: &mut Rng| -> Vec<u32> {
        if r.pct(50) {
            vec![]
        } else {
            (0..1 + r.us(4)).map(|_| if big { *r.pick(&[0u32, 100, 1000, 4096, 8192]) } else { *r.pick(&[0u32, 1, 2, 3, 7, 16, 100]) }).collect()
        }
    };
    let files = (0..2 + r.us(6)).map(|_| {
            let m = if r.pct(70) { 5 } else { NAMES.len() };
            (r.us(m) as u32, len(r))
        }).collect();
    Plan {
        host: r.weighted(&[5, 3, 2]) as u8,
        files,
        ops,
        faults,
        chunks_read: chunks(r),
        chunks_write: chunks(r),
        cap: if r.pct(20) { Some(r.below(if big { 40_000 } else { 1500 })) } else { None },
        max_open: if r.pct(15) { Some(1 + r.us(4)) } else { None },
    }
}
