//! Runs, plans, outcomes: what every check provides and how one run is made.
use crate::rng::{splitmix, Rng};
use crate::sim;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Outcome {
    /// (class, detail)
    pub violation: Option<(String, String)>,
    /// Listed findings met in this run.
    pub known: Vec<String>,
    pub nontrivial: bool,
    /// Hash of the interleaving / fault schedule actually executed.
    pub sched: u64,
    /// Hashes of abstract states reached.
    pub states: Vec<u64>,
    pub sim_ns: u64,
    pub counters: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub trace: u64,
    /// The plan could not be read or does not make sense (minimiser only).
    pub invalid: bool,
    /// The harness itself failed.
    pub harness_error: Option<String>,
}

impl Outcome {
    pub fn new() -> Outcome {
        Outcome::default()
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.violation.is_none() {
            let mut d = detail;
            if d.len() > 1500 {
                let mut n = 1500;
                while !d.is_char_boundary(n) {
                    n -= 1;
                }
                d.truncate(n);
            }
            self.violation = Some((class.to_string(), d));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }
}

pub trait Check {
    type Plan: Serialize + DeserializeOwned;
    const ID: &'static str;
    const QUICK: u64;
    const THOROUGH: u64;
    const RULE: &'static str;
    const REAL: &'static [&'static str];
    const STUB: &'static [&'static str];
    const STATE_MEASURE: &'static str;
    fn gen(rng: &mut Rng, thorough: bool) -> Self::Plan;
    fn run(plan: &Self::Plan, out: &mut Outcome);
}

pub struct Def {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub state_measure: &'static str,
    pub gen: fn(u64, bool) -> Value,
    pub run: fn(&Value) -> Outcome,
}

pub fn def<C: Check>() -> Def {
    fn gen<C: Check>(seed: u64, th: bool) -> Value {
        let mut r = Rng::new(seed);
        let mut v = serde_json::to_value(C::gen(&mut r, th)).expect("plan to json");
        // What has been done with the machines before.
        let mut r = Rng::new(seed ^ 0x7061_7374);
        if r.pct(50) {
            v["past"] = (r.next() & r.next() & 0x3f_ffff_ffff).into();
        }
        v
    }
    fn run<C: Check>(v: &Value) -> Outcome {
        let plan: C::Plan = match serde_json::from_value(v.clone()) {
            Ok(p) => p,
            Err(_) => {
                let mut o = Outcome::new();
                o.invalid = true;
                return o;
            }
        };
        crate::alloc::reset();
        sim::reset_sim();
        crate::term::reset();
        sim::sim().past = v["past"].as_u64().unwrap_or(0);
        let mut out = Outcome::new();
        set_panic(None);
        let r = catch_unwind(AssertUnwindSafe(|| C::run(&plan, &mut out)));
        let s = sim::sim();
        s.in_sut = false;
        sim::arm(false);
        if let Err(p) = r {
            if let Some(st) = p.downcast_ref::<crate::hosts::Stop>() {
                out.violation = None;
                out.fail(st.0, st.1.clone());
            } else {
            let (msg, file) = get_panic().unwrap_or(("unknown".into(), "".into()));
            if file.starts_with("src/") {
                out.harness_error = Some(format!("{} at {}", msg, file));
            } else {
                out.violation = None;
                out.fail("panic", format!("host program panicked: {} at {}", msg, file));
            }
            }
        }
        // Output the standard library still holds must not leak into the next run.
        sim::sut(|| {
            use std::io::Write;
            sim::sim().faults.clear();
            sim::sim().chunks_out.clear();
            let _ = std::io::stdout().flush();
        });
        out.trace = s.trace_hash();
        for (k, v) in &s.fired {
            *out.faults.entry(k.clone()).or_insert(0) += v;
        }
        out
    }
    Def {
        id: C::ID,
        quick: C::QUICK,
        thorough: C::THOROUGH,
        rule: C::RULE,
        real: C::REAL,
        stub: C::STUB,
        state_measure: C::STATE_MEASURE,
        gen: gen::<C>,
        run: run::<C>,
    }
}

pub fn seed_of(base: u64, i: u64) -> u64 {
    let mut x = base.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ i.wrapping_mul(0xA24B_AED4_963E_E407);
    splitmix(&mut x)
}

static mut PANIC: Option<(String, String)> = None;
fn set_panic(p: Option<(String, String)>) {
    unsafe { *(&raw mut PANIC) = p }
}
fn get_panic() -> Option<(String, String)> {
    unsafe { (*(&raw mut PANIC)).clone() }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        sim::arm(false);
        let was = sim::try_sim().map(|s| std::mem::replace(&mut s.in_sut, false)).unwrap_or(false);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("RTSIM_VERBOSE").is_some() {
            let t = format!("PANIC {} at {}\n", msg, loc);
            unsafe { libc::syscall(libc::SYS_write, 2, t.as_ptr(), t.len()) };
        }
        // Kept for a following abort as well.
        unsafe {
            let t = format!("{} at {}", msg, loc);
            let n = t.len().min(400);
            (&mut *(&raw mut LAST))[..n].copy_from_slice(&t.as_bytes()[..n]);
            LASTN = n;
        }
        set_panic(Some((msg, loc)));
        if let Some(s) = sim::try_sim() {
            s.in_sut = was;
        }
    }));
}
static mut LAST: [u8; 400] = [0; 400];
static mut LASTN: usize = 0;

extern "C" fn on_signal(sig: i32) {
    unsafe {
        let m: &[u8] = match sig {
            libc::SIGVTALRM => b"HANG\n",
            libc::SIGSEGV | libc::SIGBUS => b"SEGV\n",
            _ => b"ABRT ",
        };
        libc::syscall(libc::SYS_write, 2, m.as_ptr(), m.len());
        if sig == libc::SIGABRT {
            let l = &*(&raw const LAST);
            libc::syscall(libc::SYS_write, 2, l.as_ptr(), LASTN);
            libc::syscall(libc::SYS_write, 2, b"\n".as_ptr(), 1usize);
        }
        libc::syscall(libc::SYS_exit_group, match sig {
            libc::SIGVTALRM => 99,
            libc::SIGSEGV | libc::SIGBUS => 98,
            _ => 97,
        });
    }
}

/// Signals of a worker: crashes and CPU-time limit become exit codes.
pub fn install_signals() {
    unsafe {
        // Alternate stack, so that stack exhaustion is reported too.
        let sz = 64 * 1024;
        let st = libc::stack_t {
            ss_sp: libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0),
            ss_flags: 0,
            ss_size: sz,
        };
        libc::sigaltstack(&st, std::ptr::null_mut());
        for s in [libc::SIGVTALRM, libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        let no_core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &no_core);
        // A runaway allocation must not take the machine with it.
        let mem = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &mem);
    }
}

/// CPU seconds (user time of this process) after which a run counts as hung.
pub const HANG_CPU_S: i64 = 8;

pub fn arm_hang_timer() {
    unsafe {
        let t = [libc::timeval { tv_sec: 0, tv_usec: 0 }, libc::timeval { tv_sec: HANG_CPU_S, tv_usec: 0 }];
        libc::syscall(libc::SYS_setitimer, libc::ITIMER_VIRTUAL, t.as_ptr(), 0usize);
    }
}
