//! Simulated terminal: a script of key events for the console program.
use crate::sim::{sim, Kind, Op};
use crossterm::event::Event;
use std::collections::VecDeque;

#[derive(Default)]
pub struct TermState {
    pub events: VecDeque<Event>,
    pub raw: i32,
    /// Calls of read() so far.
    pub reads: u64,
    /// What read() gives when the script is used up.
    pub at_end: AtEnd,
    pub reads_after_end: u64,
    /// Called before each read.
    pub hook: Option<fn()>,
}
#[derive(Default, Clone, Copy, PartialEq)]
pub enum AtEnd {
    #[default]
    CtrlD,
    Error,
}

static mut STATE: *mut TermState = std::ptr::null_mut();

pub fn state() -> &'static mut TermState {
    unsafe {
        if STATE.is_null() {
            STATE = Box::into_raw(Box::default());
        }
        &mut *STATE
    }
}

struct T;
fn err() -> std::io::Error {
    std::io::Error::from_raw_os_error(libc::EIO)
}
impl crossterm::TermSim for T {
    fn read(&mut self) -> std::io::Result<Event> {
        let s = sim();
        let t = state();
        t.reads += 1;
        if let Some(f) = t.hook {
            crate::hosts::tracked(f);
        }
        match s.fault(Op::Key) {
            None | Some(Kind::Short(_)) => {}
            Some(k) => return Err(std::io::Error::from_raw_os_error(k.errno())),
        }
        match t.events.pop_front() {
            Some(e) => Ok(e),
            None => {
                t.reads_after_end += 1;
                if t.reads_after_end > 10_000 {
                    crate::hosts::stop("stuck", "console keeps reading after the end of input".into());
                }
                match t.at_end {
                    AtEnd::CtrlD => Ok(Event::Key(crossterm::event::KeyEvent::new(crossterm::event::KeyCode::Char('d'), crossterm::event::KeyModifiers::CONTROL))),
                    AtEnd::Error => Err(err()),
                }
            }
        }
    }
    fn poll(&mut self) -> std::io::Result<bool> {
        Ok(!state().events.is_empty())
    }
    fn position(&mut self) -> std::io::Result<(u16, u16)> {
        match sim().fault(Op::Pos) {
            None | Some(Kind::Short(_)) => Ok((0, 3)),
            Some(k) => Err(std::io::Error::from_raw_os_error(k.errno())),
        }
    }
    fn size(&mut self) -> std::io::Result<(u16, u16)> {
        Ok((80, 24))
    }
    fn raw_mode(&mut self, on: bool) -> std::io::Result<()> {
        state().raw += if on { 1 } else { -1 };
        Ok(())
    }
}

/// Install the simulated terminal if there is none.
pub fn ensure() {
    state();
    crossterm::set_term_sim(Some(Box::new(T)));
}
/// A fresh terminal for this run.
pub fn reset() {
    unsafe {
        if !STATE.is_null() {
            drop(Box::from_raw(STATE));
            STATE = std::ptr::null_mut();
        }
    }
    ensure();
}
