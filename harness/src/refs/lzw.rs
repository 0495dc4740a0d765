//! Reference model of fixed-width LZW
use super::bits::{BitR, BitW};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct L {
    pub header_bits: usize,
    pub header_divisor: usize,
    pub chunk_size: usize,
    pub max_symbol: usize,
    pub clear: Option<usize>,
    pub stop: Option<usize>,
    pub width: usize,
    pub msb: bool,
}
impl L {
    pub fn reserved(&self, c: usize) -> bool {
        Some(c) == self.clear || Some(c) == self.stop
    }
    /// the codes given to new strings, in order
    pub fn first_new(&self) -> usize {
        self.skip(self.max_symbol + 1)
    }
    pub fn skip(&self, mut c: usize) -> usize {
        while self.reserved(c) {
            c += 1;
        }
        c
    }
    pub fn limit(&self) -> usize {
        1 << self.width
    }
}

/// Greedy parse into chunks of codes, including clear and stop codes.
pub fn greedy(data: &[u8], o: &L) -> Vec<Vec<usize>> {
    greedy_events(data, o, &mut Vec::new())
}
/// also notes how many bytes were taken when a chunk was closed or the table became full
pub fn greedy_events(data: &[u8], o: &L, events: &mut Vec<usize>) -> Vec<Vec<usize>> {
    let mut chunks = Vec::new();
    let mut i = 0;
    loop {
        let mut table: HashMap<(usize, u8), usize> = HashMap::new();
        let mut next = o.first_new();
        let mut codes = Vec::new();
        let mut closed = false;
        while i < data.len() {
            let mut code = data[i] as usize;
            i += 1;
            while i < data.len() {
                match table.get(&(code, data[i])) {
                    Some(c) => {
                        code = *c;
                        i += 1;
                    }
                    None => break,
                }
            }
            codes.push(code);
            if i < data.len() {
                if next < o.limit() {
                    table.insert((code, data[i]), next);
                    next = o.skip(next + 1);
                    if next >= o.limit() {
                        events.push(i);
                    }
                }
                if codes.len() >= o.chunk_size {
                    events.push(i);
                    closed = true;
                    break;
                }
            }
        }
        if closed {
            if let Some(c) = o.clear {
                codes.push(c);
            }
            chunks.push(codes);
        } else {
            if let Some(s) = o.stop {
                codes.push(s);
            }
            chunks.push(codes);
            return chunks;
        }
    }
}

pub fn pack(chunks: &[Vec<usize>], o: &L) -> Vec<u8> {
    let mut w = BitW::new(o.msb);
    for ch in chunks {
        if o.header_bits > 0 {
            w.num((ch.len() * o.width / o.header_divisor) as u64, o.header_bits);
        }
        for c in ch {
            w.num(*c as u64, o.width);
        }
    }
    w.bytes
}

/// String table as a decoder sees it.
#[derive(Clone)]
pub struct Table {
    o: L,
    strs: HashMap<usize, Vec<u8>>,
    pub next: usize,
    pub prev: Option<Vec<u8>>,
}
impl Table {
    pub fn new(o: &L) -> Self {
        let strs = (0..=o.max_symbol).map(|s| (s, vec![s as u8])).collect();
        Self { next: o.first_new(), o: o.clone(), strs, prev: None }
    }
    /// the code that gets defined by the next code in the stream
    pub fn pending(&self) -> Option<usize> {
        match self.prev {
            Some(_) if self.next < self.o.limit() => Some(self.next),
            _ => None,
        }
    }
    pub fn assigned(&self) -> usize {
        self.strs.len()
    }
    pub fn has(&self, c: usize) -> bool {
        self.strs.contains_key(&c)
    }
    pub fn full(&self) -> bool {
        self.next >= self.o.limit()
    }
    /// meaning of a (not reserved) code, None if it has no meaning
    pub fn apply(&mut self, code: usize) -> Option<Vec<u8>> {
        let s = match (self.strs.get(&code), &self.prev) {
            (Some(s), _) => s.clone(),
            (None, Some(p)) if self.pending() == Some(code) => {
                let mut s = p.clone();
                s.push(p[0]);
                s
            }
            _ => return None,
        };
        if let Some(pend) = self.pending() {
            let mut e = self.prev.clone().unwrap();
            e.push(s[0]);
            self.strs.insert(pend, e);
            self.next = self.o.skip(pend + 1);
        }
        self.prev = Some(s.clone());
        Some(s)
    }
}

/// Strict decoder: Ok(data) or the number of codes before the bad one.
pub fn decode(bytes: &[u8], o: &L) -> Result<Vec<u8>, usize> {
    let mut r = BitR::new(bytes, o.msb);
    let mut out = Vec::new();
    let mut n = 0;
    'chunks: loop {
        let mut t = Table::new(o);
        let bits = if o.header_bits > 0 {
            match r.num(o.header_bits) {
                Some(v) => o.header_divisor * v as usize,
                None => break,
            }
        } else {
            usize::MAX
        };
        let mut used = 0;
        while used < bits {
            let Some(c) = r.num(o.width) else { break 'chunks };
            let c = c as usize;
            if Some(c) == o.stop {
                break 'chunks;
            }
            if Some(c) == o.clear {
                continue 'chunks;
            }
            used += o.width;
            match t.apply(c) {
                Some(s) => out.extend(s),
                None => return Err(n),
            }
            n += 1;
        }
    }
    Ok(out)
}
