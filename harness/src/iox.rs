//! Readers and writers that divide data over calls and fail.
use crate::sx;
use std::io::{Error, ErrorKind, Read, Result, Write};

/// How data is divided: calls `from..from + span` take any of five sizes or are interrupted, the others take `size`.
#[derive(Clone, Copy)]
pub struct Division {
    pub size: usize,
    pub from: usize,
    pub span: usize,
    pub interrupt: bool,
}
impl Division {
    pub fn whole() -> Division {
        Division { size: usize::MAX, from: 0, span: 0, interrupt: false }
    }
    /// The size of this call, nothing when interrupted.
    fn next(&self, call: usize) -> Option<usize> {
        if call < self.from || call - self.from >= self.span {
            return Some(self.size);
        }
        match sx::choose(if self.interrupt { 5 } else { 4 }) {
            0 => Some(1),
            1 => Some(2),
            2 => Some(7),
            3 => Some(usize::MAX),
            _ => None,
        }
    }
}
pub const KINDS: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidData];

pub struct Source<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub call: usize,
    pub div: Division,
    /// fails instead of delivering anything from this position on
    pub fail: Option<(usize, ErrorKind)>,
    /// fails only once
    pub once: bool,
    pub failed: bool,
}
impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], div: Division) -> Source<'a> {
        Source { data, pos: 0, call: 0, div, fail: None, once: false, failed: false }
    }
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let size = self.div.next(self.call);
        self.call += 1;
        let mut n = match size {
            Some(s) => s.min(buf.len()).min(self.data.len() - self.pos),
            None => return Err(Error::from(ErrorKind::Interrupted)),
        };
        if let (Some((at, kind)), false) = (self.fail, self.once && self.failed) {
            if self.pos >= at {
                self.failed = true;
                return Err(Error::from(kind));
            }
            let mut m = 0;
            while m < n && self.pos + m < at {
                m += 1;
            }
            n = m;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Fault {
    Error(ErrorKind),
    /// accepts nothing more
    Full,
    /// only flushing fails
    Flush(ErrorKind),
}
pub struct Sink {
    pub data: Vec<u8>,
    pub call: usize,
    pub div: Division,
    pub fail: Option<(usize, Fault)>,
    /// fails only once
    pub once: bool,
    pub failed: bool,
}
impl Sink {
    pub fn new(div: Division) -> Sink {
        Sink { data: Vec::new(), call: 0, div, fail: None, once: false, failed: false }
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let size = self.div.next(self.call);
        self.call += 1;
        let mut n = match size {
            Some(s) => s.min(buf.len()),
            None => return Err(Error::from(ErrorKind::Interrupted)),
        };
        if let (Some((at, fault)), false) = (self.fail, self.once && self.failed) {
            let done = self.data.len() >= at;
            match fault {
                Fault::Error(kind) if done => {
                    self.failed = true;
                    return Err(Error::from(kind));
                }
                Fault::Full if done => {
                    self.failed = true;
                    return Ok(0);
                }
                Fault::Flush(_) => {}
                _ => {
                    let mut m = 0;
                    while m < n && self.data.len() + m < at {
                        m += 1;
                    }
                    n = m;
                }
            }
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        if let (Some((_, Fault::Flush(kind))), false) = (self.fail, self.once && self.failed) {
            self.failed = true;
            return Err(Error::from(kind));
        }
        Ok(())
    }
}
