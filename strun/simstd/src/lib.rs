//! A drop-in `std` for code that runs under the simulator: threads, locks, atomics, channels, the
//! clock, file reads, process exit and console output go through one seeded scheduler; everything
//! else is the real standard library. Outside a simulated run every item behaves like `std`'s.
#![allow(clippy::all)]

pub use ::std::*;

pub mod fs;
pub mod io;
pub mod process;
pub mod sim;
pub mod sync;
pub mod thread;
pub mod time;

#[macro_export]
macro_rules! println {
    () => { $crate::sim::out(::std::string::String::new(), false) };
    ($($a:tt)*) => { $crate::sim::out(::std::format!($($a)*), false) };
}
#[macro_export]
macro_rules! print {
    ($($a:tt)*) => { $crate::sim::out(::std::format!($($a)*), false) };
}
#[macro_export]
macro_rules! eprintln {
    () => { $crate::sim::out(::std::string::String::new(), true) };
    ($($a:tt)*) => { $crate::sim::out(::std::format!($($a)*), true) };
}
#[macro_export]
macro_rules! eprint {
    ($($a:tt)*) => { $crate::sim::out(::std::format!($($a)*), true) };
}
