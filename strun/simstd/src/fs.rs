//! Reads go through the scheduler (and its read faults); everything else is the real thing.
pub use ::std::fs::*;
use ::std::{
    io::{self, Read, Seek, SeekFrom, Write},
    path::Path,
    string::String,
    vec::Vec,
};

use crate::sim;

fn gate(path: &Path) -> io::Result<()> {
    sim::point("read");
    match sim::read_fault(path) {
        Some(code) => Err(io::Error::from_raw_os_error(code)),
        None => Ok(()),
    }
}

pub fn read_to_string<P: AsRef<Path>>(path: P) -> io::Result<String> {
    gate(path.as_ref())?;
    ::std::fs::read_to_string(path)
}

pub fn read<P: AsRef<Path>>(path: P) -> io::Result<Vec<u8>> {
    gate(path.as_ref())?;
    ::std::fs::read(path)
}

#[derive(Debug)]
pub struct File(::std::fs::File);

impl File {
    pub fn open<P: AsRef<Path>>(path: P) -> io::Result<File> {
        gate(path.as_ref())?;
        ::std::fs::File::open(path).map(File)
    }
    pub fn create<P: AsRef<Path>>(path: P) -> io::Result<File> {
        ::std::fs::File::create(path).map(File)
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        self.0.metadata()
    }
}

impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.read(buf)
    }
}
impl Read for &File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        (&self.0).read(buf)
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl Seek for File {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.0.seek(pos)
    }
}
