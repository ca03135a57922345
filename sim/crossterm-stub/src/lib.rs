//! Stand-in for the `crossterm` crate: everything is the real crate except
//! the calls that talk to a terminal device, which go to the simulator.
pub use real::*;

/// What the simulator provides.
pub trait TermSim {
    fn read(&mut self) -> std::io::Result<real::event::Event>;
    fn poll(&mut self) -> std::io::Result<bool>;
    fn position(&mut self) -> std::io::Result<(u16, u16)>;
    fn size(&mut self) -> std::io::Result<(u16, u16)>;
    fn raw_mode(&mut self, on: bool) -> std::io::Result<()>;
}

static mut SIM: Option<Box<dyn TermSim>> = None;

pub fn set_term_sim(t: Option<Box<dyn TermSim>>) {
    unsafe { *(&raw mut SIM) = t }
}

fn sim() -> &'static mut Box<dyn TermSim> {
    unsafe { (*(&raw mut SIM)).as_mut().expect("no simulated terminal") }
}

pub mod cursor {
    pub use real::cursor::*;
    pub fn position() -> real::Result<(u16, u16)> {
        crate::sim().position()
    }
}

pub mod event {
    pub use real::event::*;
    pub fn read() -> real::Result<Event> {
        crate::sim().read()
    }
    pub fn poll(_t: std::time::Duration) -> real::Result<bool> {
        crate::sim().poll()
    }
}

pub mod terminal {
    pub use real::terminal::*;
    pub fn enable_raw_mode() -> real::Result<()> {
        crate::sim().raw_mode(true)
    }
    pub fn disable_raw_mode() -> real::Result<()> {
        crate::sim().raw_mode(false)
    }
    pub fn size() -> real::Result<(u16, u16)> {
        crate::sim().size()
    }
}
