//! Checks decided with the multitasking reference model (mt.rs).
use crate::frame::{Check, Outcome};
use crate::mt::{self, Plan, W};
use crate::rng::Rng;

const REAL: &[&str] = &["src/core.rs", "src/facility.rs", "src/tools.rs", "src/loader.rs", "core.fth", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)"];
const STUB: &[&str] = &["clock", "file system", "terminal device", "decisions at schedule points"];
const MEASURE: &str = "hash of every task's wakefulness and position, facility owners and the task whose turn begins";

fn base() -> W {
    W { pause: 8, sp: 8, susp: 0, act: 2, fac: 0, ms: 0, time: 0, tick: 0, fail: 1, state: 0, xt: 0, nest: 4, stop: 1, bad: 0, back: 0, op_act: 5 }
}

pub struct C02;
impl Check for C02 {
    type Plan = Plan;
    const ID: &'static str = "C02";
    const QUICK: u64 = 250_000;
    const THOROUGH: u64 = 10_000_000;
    const RULE: &'static str = "a multitasking program (up to five task programs, an operator script, loops, calls, pauses, suspend, resume, stop, invalid numbers, failures) under one schedule; its exact history of notes is predicted by the turn model; non-trivial with at least four switches and one suspension, resumption or invalid number; distinct by the sequence of turns with the positions reached";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    const STATE_MEASURE: &'static str = MEASURE;
    fn gen(r: &mut Rng, th: bool) -> Plan {
        mt::gen(r, W { susp: 6, stop: 3, bad: 12, ms: 1, fac: 1, tick: 1, ..base() }, th)
    }
    fn run(p: &Plan, out: &mut Outcome) {
        let st = mt::run(p, out);
        out.nontrivial = st.switches >= 4 && st.suspended + st.resumed + st.invalid > 0;
    }
}

pub struct C03;
impl Check for C03 {
    type Plan = Plan;
    const ID: &'static str = "C03";
    const QUICK: u64 = 250_000;
    const THOROUGH: u64 = 10_000_000;
    const RULE: &'static str = "a multitasking program in which tasks activate one another (and themselves and the operator) in every state: in loops, calls, delays, facilities, compiling, reading a source, failed, suspended; at the start of each activated program the return stack, compile state and source are examined and the whole history is predicted by the model; non-trivial with at least two switches and one activation of a task activated before";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    const STATE_MEASURE: &'static str = MEASURE;
    fn gen(r: &mut Rng, th: bool) -> Plan {
        mt::gen(r, W { susp: 2, stop: 2, act: 8, bad: 8, state: 4, ms: 2, fac: 2, tick: 2, fail: 3, nest: 6, op_act: 10, ..base() }, th)
    }
    fn run(p: &Plan, out: &mut Outcome) {
        let st = mt::run(p, out);
        out.nontrivial = st.switches >= 2 && st.reactivations > 0;
    }
}

pub struct C04;
impl Check for C04 {
    type Plan = Plan;
    const ID: &'static str = "C04";
    const QUICK: u64 = 250_000;
    const THOROUGH: u64 = 10_000_000;
    const RULE: &'static str = "a multitasking program whose tasks get and release three facilities while they pause, are suspended, activated anew or fail; ownership and turns are predicted by the model; non-trivial with at least one GET that had to wait";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    const STATE_MEASURE: &'static str = MEASURE;
    fn gen(r: &mut Rng, th: bool) -> Plan {
        mt::gen(r, W { susp: 2, stop: 1, act: 1, fac: 14, ms: 1, tick: 2, ..base() }, th)
    }
    fn run(p: &Plan, out: &mut Outcome) {
        let st = mt::run(p, out);
        out.nontrivial = st.waits > 0;
    }
}

pub struct C05;
impl Check for C05 {
    type Plan = Plan;
    const ID: &'static str = "C05";
    const QUICK: u64 = 250_000;
    const THOROUGH: u64 = 10_000_000;
    const RULE: &'static str = "a multitasking program with delays, clock readings and measured words while the clock ticks, jumps, stalls and (hosts with a real clock) steps back; the model predicts at which turn every delay ends, every reading and every recorded minimum and maximum; non-trivial with at least one delay that waited or one measurement";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    const STATE_MEASURE: &'static str = MEASURE;
    fn gen(r: &mut Rng, th: bool) -> Plan {
        let mut p = mt::gen(r, W { susp: 1, act: 1, fac: 1, ms: 8, time: 5, tick: 7, xt: 4, back: 30, ..base() }, th);
        p.host = r.weighted(&[4, 3, 3]) as u8;
        p
    }
    fn run(p: &Plan, out: &mut Outcome) {
        let st = mt::run(p, out);
        out.nontrivial = st.delay_turns + st.measured > 0;
    }
}
