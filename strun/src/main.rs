//! Second simulator: the parallel state-test runner as a whole process (threads, queue, locks,
//! clock, file reads, exit status) under a seeded scheduler.
#[path = "../../sim/src/driver.rs"]
mod driver;
mod gen;
mod oracle;
mod props;
mod refer;
#[path = "../../sim/src/rng.rs"]
mod rng;
mod scenario;
#[path = "../../sim/src/shrink.rs"]
mod shrink;
#[path = "../../sim/src/stats.rs"]
mod stats;
mod world;

fn main() {
    driver::main();
}
