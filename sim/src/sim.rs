//! The simulated world of one run: disk, clock, console, fault plan, events.
use crate::rng::Fnv;
use crate::simfs::SimFs;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Op {
    Open,
    Read,
    Write,
    Seek,
    Trunc,
    Stat,
    Unlink,
    Mkdir,
    Out,
    Key,
    Pos,
    Rename,
}
pub const NOPS: usize = 12;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Kind {
    Eintr,
    Eio,
    Enospc,
    Eacces,
    Emfile,
    /// At most n bytes are transferred.
    Short(u32),
}

impl Kind {
    pub fn name(&self) -> &'static str {
        match self {
            Kind::Eintr => "eintr",
            Kind::Eio => "eio",
            Kind::Enospc => "enospc",
            Kind::Eacces => "eacces",
            Kind::Emfile => "emfile",
            Kind::Short(_) => "short",
        }
    }
    pub fn errno(&self) -> i32 {
        match self {
            Kind::Eintr => libc::EINTR,
            Kind::Eio => libc::EIO,
            Kind::Enospc => libc::ENOSPC,
            Kind::Eacces => libc::EACCES,
            Kind::Emfile => libc::EMFILE,
            Kind::Short(_) => 0,
        }
    }
}

/// The nth (from 0) system call of this class meets this fault.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub op: Op,
    pub nth: u32,
    pub kind: Kind,
}

#[derive(Default)]
pub struct Sim {
    pub in_sut: bool,
    pub fs: SimFs,
    /// What the machines have been through before the run (bits).
    pub past: u64,
    /// The process dies at the nth (from 0) change of the disk from now on;
    /// `dead` is the disk at that moment.
    pub die_at: Option<u64>,
    pub dead: Option<SimFs>,
    pub faults: Vec<Fault>,
    pub op_count: [u32; NOPS],
    pub chunks_read: Vec<u32>,
    pub chunks_write: Vec<u32>,
    pub chunks_out: Vec<u32>,
    ci: [usize; 3],
    pub fired: BTreeMap<String, u64>,
    /// Faults that surfaced an error the caller cannot mask.
    pub hard: u64,
    pub clock_ns: u64,
    /// Added to the clock at every reading of it.
    pub clock_step: u64,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// System calls made by code under test (clock reads apart).
    pub syscalls: u64,
    pub clock_reads: u64,
    pub unknown_syscalls: u64,
    /// Armed: allocator and system calls are violations.
    pub armed: bool,
    pub rt_allocs: u64,
    pub rt_alloc_size: usize,
    pub rt_syscalls: u64,
    pub rt_syscall_name: &'static str,
    /// System calls the kernel saw (where it can tell us).
    pub rt_raw: u64,
    pub rt_raw_nr: i32,
    /// Event trace hash (determinism, distinctness).
    pub trace: Option<Fnv>,
    pub events: u64,
}

/// Disk and faults of a run, set aside.
pub struct Aside {
    fs: SimFs,
    faults: Vec<Fault>,
    op_count: [u32; NOPS],
    chunks: [Vec<u32>; 3],
    ci: [usize; 3],
}
impl Sim {
    pub fn set_aside(&mut self) -> Aside {
        use std::mem::take;
        Aside { fs: std::mem::replace(&mut self.fs, SimFs::new()), faults: take(&mut self.faults), op_count: take(&mut self.op_count), chunks: [take(&mut self.chunks_read), take(&mut self.chunks_write), take(&mut self.chunks_out)], ci: take(&mut self.ci) }
    }
    pub fn put_back(&mut self, a: Aside) {
        self.fs = a.fs;
        self.faults = a.faults;
        self.op_count = a.op_count;
        let [r, w, o] = a.chunks;
        self.chunks_read = r;
        self.chunks_write = w;
        self.chunks_out = o;
        self.ci = a.ci;
    }
}

static mut SIM: *mut Sim = std::ptr::null_mut();

#[inline]
pub fn active() -> bool {
    unsafe { !SIM.is_null() && (*SIM).in_sut }
}
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
/// The simulated world if there is one.
#[inline]
pub fn try_sim() -> Option<&'static mut Sim> {
    unsafe { SIM.as_mut() }
}

pub fn reset_sim() -> &'static mut Sim {
    unsafe {
        let old = SIM;
        let mut s = Sim::default();
        s.fs = SimFs::new();
        s.trace = Some(Fnv::new());
        s.clock_ns = 1_000_000_000;
        SIM = Box::into_raw(Box::new(s));
        if !old.is_null() {
            drop(Box::from_raw(old));
        }
        &mut *SIM
    }
}

impl Sim {
    pub fn ev(&mut self, s: &str) {
        self.events += 1;
        if let Some(t) = self.trace.as_mut() {
            t.bytes(s.as_bytes());
            t.bytes(&[0]);
        }
    }
    pub fn evn(&mut self, v: i64) {
        if let Some(t) = self.trace.as_mut() {
            t.i64(v);
        }
    }
    pub fn trace_hash(&self) -> u64 {
        self.trace.map(|t| t.0).unwrap_or(0)
    }
    pub fn fire(&mut self, what: String) {
        *self.fired.entry(what).or_insert(0) += 1;
    }
    /// The disk is about to change. If the process dies here, `f` tells what
    /// becomes of the change.
    pub fn crash_point(&mut self, f: impl FnOnce(&mut SimFs)) {
        match self.die_at {
            Some(0) => {
                self.die_at = None;
                let mut d = self.fs.clone();
                f(&mut d);
                d.open.clear();
                self.dead = Some(d);
                self.fire("death-while-changing-the-disk".into());
            }
            Some(n) => self.die_at = Some(n - 1),
            None => {}
        }
    }
    /// Consult the fault plan for the next call of class `op`.
    pub fn fault(&mut self, op: Op) -> Option<Kind> {
        let n = self.op_count[op as usize];
        self.op_count[op as usize] += 1;
        let mut hit = None;
        for f in &self.faults {
            if f.op == op && f.nth == n {
                hit = Some(f.kind);
                break;
            }
        }
        if let Some(k) = hit {
            self.fire(format!("{:?}-{}", op, k.name()).to_lowercase());
            match k {
                Kind::Eintr | Kind::Short(_) => {}
                _ => self.hard += 1,
            }
        }
        hit
    }
    /// Largest transfer allowed now, by the fragmentation pattern.
    pub fn chunk(&mut self, which: usize, want: usize) -> usize {
        let v = match which {
            0 => &self.chunks_read,
            1 => &self.chunks_write,
            _ => &self.chunks_out,
        };
        if v.is_empty() || want == 0 {
            return want;
        }
        let c = v[self.ci[which] % v.len()] as usize;
        self.ci[which] += 1;
        if c > 0 && c < want {
            let name = ["read-fragment", "write-fragment", "out-fragment"][which];
            *self.fired.entry(name.into()).or_insert(0) += 1;
            c
        } else {
            want
        }
    }
}

/// Run `f` as code under test: all system calls go to the simulation.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            if let Some(s) = try_sim() {
                s.in_sut = self.0;
                arm(false);
            }
        }
    }
    let g = G(sim().in_sut);
    sim().in_sut = true;
    let r = f();
    drop(g);
    r
}

/// Watch the allocator and all system calls from now on, or no longer.
pub fn arm(on: bool) {
    if let Some(s) = try_sim() {
        s.armed = on;
    }
    if on {
        dispatch();
    }
    unsafe { std::ptr::write_volatile(&raw mut SELECTOR, on as u8) };
}

static mut SELECTOR: u8 = 0;
static mut DISPATCH: i8 = -1;

/// Have the kernel report every system call made while armed (system-call
/// user dispatch). Without it only calls by name are seen.
fn dispatch() {
    unsafe {
        if DISPATCH >= 0 {
            return;
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sys as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
        let r = libc::prctl(59, 1usize, 0usize, 0usize, &raw mut SELECTOR);
        DISPATCH = (r == 0) as i8;
    }
}
pub fn dispatch_works() -> bool {
    dispatch();
    unsafe { DISPATCH == 1 }
}

unsafe extern "C" fn on_sys(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    std::ptr::write_volatile(&raw mut SELECTOR, 0);
    let u = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut u.uc_mcontext.gregs;
    let nr = g[libc::REG_RAX as usize];
    if let Some(s) = try_sim() {
        s.rt_raw += 1;
        s.rt_raw_nr = nr as i32;
    }
    // Carry it out; what follows is not watched any more.
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") nr => ret,
        in("rdi") g[libc::REG_RDI as usize],
        in("rsi") g[libc::REG_RSI as usize],
        in("rdx") g[libc::REG_RDX as usize],
        in("r10") g[libc::REG_R10 as usize],
        in("r8") g[libc::REG_R8 as usize],
        in("r9") g[libc::REG_R9 as usize],
        lateout("rcx") _, lateout("r11") _,
    );
    g[libc::REG_RAX as usize] = ret;
}
