//! Bit streams in either order
#[derive(Clone)]
pub struct BitW {
    pub bytes: Vec<u8>,
    pub nbits: usize,
    msb: bool,
}
impl BitW {
    pub fn new(msb: bool) -> Self {
        Self { bytes: Vec::new(), nbits: 0, msb }
    }
    pub fn bit(&mut self, b: bool) {
        if self.nbits % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            let sh = if self.msb { 7 - self.nbits % 8 } else { self.nbits % 8 };
            *self.bytes.last_mut().unwrap() |= 1 << sh;
        }
        self.nbits += 1;
    }
    /// n-bit number: most significant bit first in Msb0, least significant first in Lsb0
    pub fn num(&mut self, v: u64, n: usize) {
        for i in 0..n {
            let k = if self.msb { n - 1 - i } else { i };
            self.bit(v >> k & 1 == 1);
        }
    }
}
pub struct BitR<'a> {
    pub bytes: &'a [u8],
    pub pos: usize,
    msb: bool,
}
impl<'a> BitR<'a> {
    pub fn new(bytes: &'a [u8], msb: bool) -> Self {
        Self { bytes, pos: 0, msb }
    }
    pub fn bit(&mut self) -> Option<bool> {
        let by = *self.bytes.get(self.pos / 8)?;
        let sh = if self.msb { 7 - self.pos % 8 } else { self.pos % 8 };
        self.pos += 1;
        Some(by >> sh & 1 == 1)
    }
    pub fn num(&mut self, n: usize) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..n {
            let b = self.bit()? as u64;
            let k = if self.msb { n - 1 - i } else { i };
            v |= b << k;
        }
        Some(v)
    }
    pub fn left(&self) -> usize {
        self.bytes.len() * 8 - self.pos.min(self.bytes.len() * 8)
    }
}
