//! Machinery of the checks that does not depend on the code under test:
//! virtual clock, counting allocator, reference ADNL implementation, runner.
pub mod adnl;
pub mod alloc;
pub mod clock;
pub mod crypto;
pub mod net;
pub mod runner;
pub mod tl;

pub use runner::{CaseResult, Ctx, Fail};

#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { return Err($crate::Fail::Viol(format!($($t)*))) };
}
/// Oracle assertion: a failure is a violation of the property.
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Fail::Viol(format!($($t)*))); } };
}
/// Harness assertion: a failure means the check itself could not do its work.
#[macro_export]
macro_rules! need {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Fail::Harness(format!($($t)*))); } };
}
