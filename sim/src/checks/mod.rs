use crate::frame::{def, Def};
mod c01;
mod c02;
mod c08;

pub fn all() -> Vec<Def> {
    vec![def::<c01::C01>(), def::<c02::C02>(), def::<c02::C03>(), def::<c02::C04>(), def::<c02::C05>(), def::<crate::errs::C06>(), def::<crate::names::C07>(), def::<c08::C08>(), def::<c08::C09>(), def::<crate::sources::C10>(), def::<crate::incl::C11>(), def::<crate::outs::C12>(), def::<crate::cohost::C13>(), def::<crate::noalloc::C14>(),
        def::<crate::torn::C15>(), def::<crate::console::C16>(), def::<crate::console::C17>(), def::<crate::session::C18>(), def::<crate::wild::C19>()]
}

/// Call a generic function for the host chosen by the plan.
#[macro_export]
macro_rules! with_host {
    ($h:expr, $f:ident ( $($a:expr),* )) => {
        match $h {
            0 => $f::<$crate::hosts::Mock>($($a),*),
            1 => $f::<$crate::hosts::ExVm>($($a),*),
            _ => $f::<$crate::hosts::Rtf>($($a),*),
        }
    };
}
