//! Reference model of the LZSS token stream
use super::bits::{BitR, BitW};
use super::huff::{get_pos, put_pos, Huff};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tok {
    Lit(u8),
    /// distance is at least 1
    Match { len: usize, dist: usize },
}
#[derive(Clone, Copy, Debug)]
pub struct P {
    pub window: usize,
    pub lookahead: usize,
    pub threshold: usize,
    pub precursor: u8,
}
impl P {
    pub fn symbols(&self) -> usize {
        256 + self.lookahead - self.threshold
    }
    /// the largest distance the format's encoders may use
    pub fn max_dist(&self) -> usize {
        self.window - self.lookahead
    }
    /// how many positions ahead of the data are indexed by the compressors
    pub fn indexed_before(&self) -> usize {
        self.lookahead.min(self.window - self.lookahead)
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub rebuilds: usize,
    pub max_code: usize,
    pub symbols: usize,
}

pub fn encode(toks: &[Tok], p: &P, header: Option<u32>) -> (Vec<u8>, Stats) {
    let mut w = BitW::new(true);
    if let Some(h) = header {
        for b in h.to_le_bytes() {
            w.num(b as u64, 8);
        }
    }
    let mut h = Huff::new(p.symbols());
    for t in toks {
        match *t {
            Tok::Lit(b) => h.encode(b as usize, &mut w),
            Tok::Match { len, dist } => {
                h.encode(256 + len - p.threshold - 1, &mut w);
                put_pos(dist - 1, &mut w);
            }
        }
    }
    let st = Stats { rebuilds: h.rebuilds, max_code: h.max_code, symbols: toks.len() };
    (w.bytes, st)
}

/// Meaning of a token sequence, the data is preceded by window-lookahead precursor bytes.
pub fn expand_tokens(toks: &[Tok], p: &P) -> Vec<u8> {
    let mut out = Vec::new();
    for t in toks {
        match *t {
            Tok::Lit(b) => out.push(b),
            Tok::Match { len, dist } => {
                for _ in 0..len {
                    let b = if dist <= out.len() { out[out.len() - dist] } else { p.precursor };
                    out.push(b);
                }
            }
        }
    }
    out
}

pub struct Decoded {
    pub toks: Vec<Tok>,
    pub len: usize,
    /// bits left over after the last complete token
    pub left: usize,
    pub left_zero: bool,
    pub stats: Stats,
}

/// Parse the tokens of a stream body, until `stop_at` bytes are produced, or the bits run out.
pub fn decode(body: &[u8], p: &P, stop_at: Option<usize>) -> Decoded {
    let mut r = BitR::new(body, true);
    let mut h = Huff::new(p.symbols());
    let mut toks = Vec::new();
    let mut len = 0usize;
    let mut mark = 0;
    while stop_at.map_or(true, |s| len < s) {
        let Some(s) = h.decode(&mut r) else { break };
        if s < 256 {
            toks.push(Tok::Lit(s as u8));
            len += 1;
        } else {
            let l = s - 256 + p.threshold + 1;
            let Some(pos) = get_pos(&mut r) else { break };
            toks.push(Tok::Match { len: l, dist: pos + 1 });
            len += l;
        }
        mark = r.pos;
    }
    let mut z = BitR::new(body, true);
    z.pos = mark;
    let left = z.left();
    let mut left_zero = true;
    while let Some(b) = z.bit() {
        left_zero &= !b;
    }
    Decoded { stats: Stats { rebuilds: h.rebuilds, max_code: h.max_code, symbols: toks.len() }, toks, len, left, left_zero }
}

/// Longest match at `at`, searching every start in the window that the LZHUF index knows.
pub fn longest(data: &[u8], at: usize, p: &P) -> usize {
    let rem = data.len() - at;
    let cap = p.lookahead.min(rem);
    let max_d = p.max_dist().min(at + p.indexed_before());
    let mut best = 0;
    let get = |i: i64| if i < 0 { p.precursor } else { data[i as usize] };
    // All starts ahead of the data whose whole lookahead is precursor are one entry of the index,
    // and it is the farthest of them that stands for all; it leaves the window first.
    let run = data.iter().take_while(|b| **b == p.precursor).count() as i64;
    let run = if run == data.len() as i64 && p.precursor == 0 { i64::MAX / 2 } else { run };
    let gone = at + p.indexed_before() > p.max_dist();
    for d in 1..=max_d {
        let s = at as i64 - d as i64;
        if gone && s < 0 && run - s >= p.lookahead as i64 {
            break;
        }
        // quick reject
        if best > 0 && get(s + best as i64 - 1) != data[at + best - 1] {
            continue;
        }
        let mut l = 0;
        while l < cap && get(s + l as i64) == data[at + l] {
            l += 1;
        }
        if l > best {
            best = l;
            if best == cap {
                break;
            }
        }
    }
    best
}

/// Check that the tokens are a greedy longest-match parse of the data.
pub fn check_greedy(toks: &[Tok], data: &[u8], p: &P) -> Result<(), String> {
    let mut at = 0;
    for (i, t) in toks.iter().enumerate() {
        if at >= data.len() {
            return Err(format!("token {i} lies after the end of the data"));
        }
        let best = longest(data, at, p);
        let want = if best > p.threshold { best } else { 0 };
        match *t {
            Tok::Lit(b) => {
                if b != data[at] {
                    return Err(format!("token {i} at {at} is literal {b}, data has {}", data[at]));
                }
                if want != 0 {
                    return Err(format!("token {i} at {at} is a literal, but a match of length {want} exists"));
                }
                at += 1;
            }
            Tok::Match { len, dist } => {
                if dist < 1 || dist > p.max_dist() {
                    return Err(format!("token {i} at {at} has distance {dist} outside 1..={}", p.max_dist()));
                }
                if len != want {
                    return Err(format!("token {i} at {at} has match length {len}, longest is {want}"));
                }
                for k in 0..len {
                    let s = at as i64 + k as i64 - dist as i64;
                    let b = if s < 0 { p.precursor } else { data[s as usize] };
                    if b != data[at + k] {
                        return Err(format!("token {i} at {at} (len {len}, dist {dist}) does not reproduce the data"));
                    }
                }
                at += len;
            }
        }
    }
    if at != data.len() {
        return Err(format!("tokens cover {at} of {} bytes", data.len()));
    }
    Ok(())
}
