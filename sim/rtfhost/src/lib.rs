// The real console program, /repo/rtf/src/main.rs and term.rs, compiled as a
// library so that the simulator can run it in-process. Nothing is copied:
// the text is included from /repo's working tree at build time.
include!("/repo/rtf/src/main.rs");

/// The VM of /repo/examples/vm.rs.
#[path = "/repo/examples/vm.rs"]
pub mod exvm;

/// Run the real read-eval-print loop of the console program.
pub fn sim_repl(vm: &mut VM) {
    repl(vm)
}

/// A terminal line reader of the console program, on its own.
pub struct SimTerm(Term);

impl SimTerm {
    pub fn new() -> SimTerm {
        SimTerm(Term::new())
    }
    /// Ok(line), Err(true) for end of input, Err(false) for other errors.
    pub fn read_line(&mut self) -> Result<String, bool> {
        match self.0.read_line() {
            Ok(s) => Ok(s),
            Err(term::Error::Eof) => Err(true),
            Err(_) => Err(false),
        }
    }
}

/// Run the console program's real `main`.
pub fn sim_main() {
    main()
}
