//! Files and file ids.
use crate::files::{self, Plan, Wt};
use crate::frame::{Check, Outcome};
use crate::rng::Rng;

const REAL: &[&str] = &["src/file_access.rs", "src/loader.rs (open-source, close-source, load-line, .source-path)", "src/core.rs", "src/memory.rs", "src/mock_vm.rs", "examples/vm.rs", "rtf/src/main.rs (VM)", "Rust standard library std::fs"];
const STUB: &[&str] = &["disk and descriptors (system calls open, read, write, lseek, ftruncate, stat, unlink, close)", "clock", "terminal device"];
const MEASURE: &str = "hash of the operation made, its outcome, the number of ids and sources open per task and the sizes of the files";

pub struct C08;
impl Check for C08 {
    type Plan = Plan;
    const ID: &'static str = "C08";
    const QUICK: u64 = 300_000;
    const THOROUGH: u64 = 8_000_000;
    const RULE: &'static str = "a sequence of file words made by up to four tasks on a simulated disk under one plan of faults (errors, interruptions, short and fragmented transfers, full disk, descriptor limit, sudden death); after every word results, files, descriptors and memory are compared with a shadow file system; non-trivial with at least two transfers and one fault met; distinct by the sequence of operations and outcomes";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    const STATE_MEASURE: &'static str = MEASURE;
    fn gen(r: &mut Rng, th: bool) -> Plan {
        files::gen(r, Wt { open: 6, xfer: 10, pos: 3, src: 0, bad: 5, faults: 6, die: 1 }, th)
    }
    fn run(p: &Plan, out: &mut Outcome) {
        let st = files::run(p, out);
        out.nontrivial = st.transfers >= 2 && !crate::sim::sim().fired.is_empty();
    }
}

pub struct C09;
impl Check for C09 {
    type Plan = Plan;
    const ID: &'static str = "C09";
    const QUICK: u64 = 300_000;
    const THOROUGH: u64 = 8_000_000;
    const RULE: &'static str = "a sequence of opens, creates, closes and hand-overs to sources by up to four tasks mixed with uses of open, closed, foreign and impossible ids under failing opens and descriptor limits; after every word the ids of every task and the descriptors open in the operating system are compared with a table of ids; non-trivial with at least two opens, one close and one bad id; distinct by the sequence of operations and outcomes";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    const STATE_MEASURE: &'static str = MEASURE;
    fn gen(r: &mut Rng, th: bool) -> Plan {
        files::gen(r, Wt { open: 12, xfer: 3, pos: 2, src: 5, bad: 25, faults: 3, die: 1 }, th)
    }
    fn run(p: &Plan, out: &mut Outcome) {
        let st = files::run(p, out);
        out.nontrivial = st.opens >= 2 && st.closes >= 1 && st.bad_ids >= 1;
    }
}
