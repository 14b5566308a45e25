//! Ending the process ends the simulated process.
pub use ::std::process::*;

pub fn exit(code: i32) -> ! {
    crate::sim::exit(code)
}
pub fn abort() -> ! {
    crate::sim::exit(134)
}
