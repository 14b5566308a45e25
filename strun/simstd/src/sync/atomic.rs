//! Atomics under the scheduler. A static keeps its initial value and starts every run from it.
pub use ::std::sync::atomic::{compiler_fence, AtomicPtr, Ordering};
use ::std::sync::atomic::{self as real, AtomicU64 as Gen, Ordering::SeqCst};

use crate::sim;

pub fn fence(_: Ordering) {
    sim::point("fence");
}

macro_rules! common {
    ($name:ident, $real:ident, $t:ty) => {
        pub struct $name {
            init: $t,
            run: Gen,
            v: real::$real,
        }
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self { init: v, run: Gen::new(0), v: real::$real::new(v) }
            }
            fn at(&self, label: &'static str) -> &real::$real {
                sim::point(label);
                if let Some((ctx, _)) = sim::current() {
                    let old = self.run.swap(ctx.run, SeqCst);
                    if old != 0 && old != ctx.run {
                        self.v.store(self.init, SeqCst);
                    }
                }
                &self.v
            }
            pub fn load(&self, _: Ordering) -> $t {
                self.at("load").load(SeqCst)
            }
            pub fn store(&self, v: $t, _: Ordering) {
                self.at("store").store(v, SeqCst)
            }
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                self.at("rmw").swap(v, SeqCst)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                self.at("rmw").compare_exchange(a, b, SeqCst, SeqCst)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                self.at("rmw").compare_exchange(a, b, SeqCst, SeqCst)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$t, $t> {
                self.at("rmw").fetch_update(SeqCst, SeqCst, f)
            }
            pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                self.at("rmw").fetch_and(v, SeqCst)
            }
            pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                self.at("rmw").fetch_or(v, SeqCst)
            }
            pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
                self.at("rmw").fetch_xor(v, SeqCst)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.v.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.v.into_inner()
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::new(Default::default())
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl ::std::fmt::Debug for $name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                self.v.fmt(f)
            }
        }
    };
}
macro_rules! int {
    ($name:ident, $t:ty) => {
        common!($name, $name, $t);
        impl $name {
            pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                self.at("rmw").fetch_add(v, SeqCst)
            }
            pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                self.at("rmw").fetch_sub(v, SeqCst)
            }
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                self.at("rmw").fetch_max(v, SeqCst)
            }
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
                self.at("rmw").fetch_min(v, SeqCst)
            }
        }
    };
}
common!(AtomicBool, AtomicBool, bool);
int!(AtomicUsize, usize);
int!(AtomicIsize, isize);
int!(AtomicU64, u64);
int!(AtomicI64, i64);
int!(AtomicU32, u32);
int!(AtomicI32, i32);
int!(AtomicU16, u16);
int!(AtomicU8, u8);
