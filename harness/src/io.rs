//! Stream wrappers
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// Writer over a vector that refuses to exceed a size or a number of calls, so that a
/// runaway operation ends by itself.
pub struct Cap {
    pub c: Cursor<Vec<u8>>,
    pub max: usize,
    pub ops: u64,
    pub max_ops: u64,
    pub hit: bool,
    pub writes: u64,
}
impl Cap {
    pub fn new(initial: Vec<u8>, max: usize) -> Self {
        Self { c: Cursor::new(initial), max, ops: 0, max_ops: 64 * max as u64 + 1_000_000, hit: false, writes: 0 }
    }
    fn tick(&mut self) -> Result<()> {
        self.ops += 1;
        if self.ops > self.max_ops {
            self.hit = true;
            return Err(Error::new(ErrorKind::Other, "harness: too many stream calls"));
        }
        Ok(())
    }
}
impl Write for Cap {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.tick()?;
        self.writes += 1;
        if self.c.position() as usize + b.len() > self.max {
            self.hit = true;
            return Err(Error::new(ErrorKind::Other, "harness: output limit"));
        }
        self.c.write(b)
    }
    fn flush(&mut self) -> Result<()> {
        self.tick()
    }
}
impl Seek for Cap {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.tick()?;
        self.c.seek(p)
    }
}

/// Reader that fails after far too many calls, so that an endless loop around the end of
/// data ends by itself.
pub struct CapR<'a> {
    pub c: Cursor<&'a [u8]>,
    pub left: u64,
}
impl<'a> CapR<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Self { c: Cursor::new(b), left: 64 * b.len() as u64 + 5_000_000 }
    }
    pub fn hit(&self) -> bool {
        self.left == 0
    }
    fn tick(&mut self) -> Result<()> {
        if self.left == 0 {
            return Err(Error::new(ErrorKind::Other, "harness: too many stream calls"));
        }
        self.left -= 1;
        Ok(())
    }
}
impl Read for CapR<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.tick()?;
        self.c.read(b)
    }
}
impl Seek for CapR<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.tick()?;
        self.c.seek(p)
    }
}

/// Transfers according to a schedule: each entry is the most bytes to move in a call, 0 means
/// an interrupted call first.
#[derive(Clone)]
pub struct Sched {
    pub s: Vec<u16>,
    pub i: usize,
    pub interrupted: u64,
    pub short: u64,
}
impl Sched {
    pub fn new(s: &[u16]) -> Self {
        Self { s: s.to_vec(), i: 0, interrupted: 0, short: 0 }
    }
    fn step(&mut self, want: usize) -> Result<usize> {
        if self.s.is_empty() || want == 0 {
            return Ok(want);
        }
        let k = self.s[self.i % self.s.len()];
        self.i += 1;
        if k == 0 {
            self.interrupted += 1;
            // never twice in a row, also if the schedule is all zero
            if self.s[self.i % self.s.len()] == 0 {
                self.i += 1;
                if self.i % 3 != 0 {
                    return Err(Error::new(ErrorKind::Interrupted, "harness: interrupted"));
                }
                return Ok(want.min(1));
            }
            return Err(Error::new(ErrorKind::Interrupted, "harness: interrupted"));
        }
        if (k as usize) < want {
            self.short += 1;
        }
        Ok(want.min(k as usize))
    }
}
pub struct Chunky<T> {
    pub t: T,
    pub sched: Sched,
}
impl<T: Read> Read for Chunky<T> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = self.sched.step(b.len())?;
        self.t.read(&mut b[..n])
    }
}
impl<T: Write> Write for Chunky<T> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = self.sched.step(b.len())?;
        self.t.write(&b[..n])
    }
    fn flush(&mut self) -> Result<()> {
        self.t.flush()
    }
}
impl<T: Seek> Seek for Chunky<T> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.t.seek(p)
    }
}

/// Fails at the given call (counting from 0), counting all calls of the selected classes.
/// If `sticky` every later call fails too.
pub struct Fault<T> {
    pub t: T,
    pub at: u64,
    pub n: u64,
    pub sticky: bool,
    pub kind: ErrorKind,
    pub delivered: std::rc::Rc<std::cell::Cell<Option<&'static str>>>,
    /// write zero bytes instead of an error
    pub zero: bool,
}
impl<T> Fault<T> {
    fn step(&mut self, what: &'static str) -> Result<()> {
        let n = self.n;
        self.n += 1;
        if n == self.at || self.sticky && n > self.at {
            if self.delivered.get().is_none() {
                self.delivered.set(Some(what));
            }
            return Err(Error::new(self.kind, "harness: injected fault"));
        }
        Ok(())
    }
}
impl<T: Read> Read for Fault<T> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.step("read")?;
        self.t.read(b)
    }
}
impl<T: Write> Write for Fault<T> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        match self.step("write") {
            Err(_) if self.zero => Ok(0),
            Err(e) => Err(e),
            Ok(()) => self.t.write(b),
        }
    }
    fn flush(&mut self) -> Result<()> {
        self.step("flush")?;
        self.t.flush()
    }
}
impl<T: Seek> Seek for Fault<T> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.step("seek")?;
        self.t.seek(p)
    }
}

/// Reader of a virtual file of a given length: a real start, then content that cannot be read.
pub struct Virtual {
    pub head: Vec<u8>,
    pub len: u64,
    pub pos: u64,
}
impl Read for Virtual {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if self.pos < self.head.len() as u64 {
            let from = &self.head[self.pos as usize..];
            let n = from.len().min(b.len());
            b[..n].copy_from_slice(&from[..n]);
            self.pos += n as u64;
            return Ok(n);
        }
        if self.pos >= self.len {
            return Ok(0);
        }
        Err(Error::new(ErrorKind::Other, "harness: virtual content"))
    }
}
impl Seek for Virtual {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if n < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek"));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// A stream whose content begins at a far position. What is before reads as zeros and must not be
/// written to.
pub struct Far<T> {
    pub t: T,
    pub base: u64,
    pub pos: u64,
    pub wrote_before: bool,
}
impl<T: Seek> Far<T> {
    pub fn new(t: T, base: u64, pos: u64) -> Self {
        Self { t, base, pos, wrote_before: false }
    }
}
impl<T: Read + Seek> Read for Far<T> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n;
        if self.pos < self.base {
            n = b.len().min((self.base - self.pos).min(1 << 30) as usize);
            b[..n].fill(0);
        } else {
            self.t.seek(SeekFrom::Start(self.pos - self.base))?;
            n = self.t.read(b)?;
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl<T: Write + Seek> Write for Far<T> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if self.pos < self.base {
            self.wrote_before |= !b.is_empty();
            return Err(Error::new(ErrorKind::Other, "harness: write before the output offset"));
        }
        self.t.seek(SeekFrom::Start(self.pos - self.base))?;
        let n = self.t.write(b)?;
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.t.flush()
    }
}
impl<T: Seek> Seek for Far<T> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => self.t.seek(SeekFrom::End(0))? as i128 + self.base as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if n < 0 || n > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek"));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
