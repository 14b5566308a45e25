//! Console streams swallow (stderr traces would otherwise flood the search).
pub use ::std::io::*;

#[derive(Debug, Clone, Copy, Default)]
pub struct Console;
pub type Stderr = Console;
pub type Stdout = Console;

impl Write for Console {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Console {
    pub fn lock(&self) -> Console {
        Console
    }
}
pub fn stderr() -> Console {
    Console
}
pub fn stdout() -> Console {
    Console
}
