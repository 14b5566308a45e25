mod asm;
mod chain;
mod driver;
mod exec;
mod gen;
mod ids;
mod metered;
mod model;
mod props;
mod rng;
mod scenario;
mod shrink;
mod stats;
mod world;

pub use driver::guarded;

fn main() {
    driver::main();
}
