//! Consistent option sets and a uniform view of the methods
use crate::data::{self, Data, Mix};
use crate::dict;
use crate::refs::{lzss, lzw as rlzw};
use proptest::prelude::*;
use retrocompressor::{direct_ports::lzhuf, lzss_huff, lzw, td0, BitOrder};
use serde::{Deserialize, Serialize};
use std::io::{Read, Seek, Write};

pub type Res = Result<(u64, u64), Box<dyn std::error::Error>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LzssO {
    pub header: bool,
    pub window: usize,
    pub lookahead: usize,
    pub threshold: usize,
    pub precursor: u8,
}
impl LzssO {
    pub fn std() -> Self {
        Self { header: true, window: 4096, lookahead: 60, threshold: 2, precursor: b' ' }
    }
    pub fn opt(&self) -> lzss_huff::Options {
        lzss_huff::Options {
            header: self.header,
            in_offset: 0,
            out_offset: 0,
            window_size: self.window,
            threshold: self.threshold,
            lookahead: self.lookahead,
            precursor: self.precursor,
            max_file_size: lzss_huff::STD_OPTIONS.max_file_size,
        }
    }
    pub fn p(&self) -> lzss::P {
        lzss::P { window: self.window, lookahead: self.lookahead, threshold: self.threshold, precursor: self.precursor }
    }
    pub fn is_std(&self) -> bool {
        self.window == 4096 && self.lookahead == 60 && self.threshold == 2 && self.precursor == b' '
    }
    pub fn label(&self) -> &'static str {
        if self.is_std() {
            "std params"
        } else if self.window < 2 * self.lookahead {
            "window < 2*lookahead"
        } else if !self.window.is_power_of_two() {
            "window not a power of 2"
        } else {
            "other params"
        }
    }
}
pub fn lzss_opts() -> BoxedStrategy<LzssO> {
    let look = prop_oneof![
        4 => Just(60usize),
        2 => 1usize..8,
        3 => 1usize..100,
        2 => 100usize..400,
        1 => prop::sample::select(vec![16usize,17,18,64,128,255,256,257,273,1000]),
        1 => dict::len(1000).prop_map(|x| x.max(1)),
    ];
    let other = (look, any::<u16>(), any::<u16>(), 0u8..7, 0u8..7, data::any_byte(), any::<bool>()).prop_map(
        |(lookahead, w, t, wk, tk, precursor, header)| {
            let span = 4096 - lookahead;
            let window = match wk {
                0 => 4096,
                1 => lookahead + (w as usize) % (span + 1),
                2 => lookahead + (w as usize) % (span.min(64) + 1),
                3 => (2 * lookahead + (w as usize) % 200).min(4096),
                4 => 4096 - (w as usize) % (span.min(100) + 1),
                6 => dict::pick(&mut Mix(w as u64), 4096).max(lookahead),
                _ => {
                    let p = [16usize, 64, 128, 256, 512, 1024, 2048, 4096][w as usize % 8];
                    p.max(lookahead)
                }
            };
            let cap = lookahead.min(255);
            let threshold = match tk {
                0 | 1 => 2.min(cap),
                2 => (t as usize) % (cap + 1),
                3 => (t as usize) % (cap.min(6) + 1),
                4 => cap - (t as usize) % (cap.min(4) + 1),
                6 => dict::pick(&mut Mix(t as u64), cap),
                _ => 1.min(cap),
            };
            // without matches the index of a run is a list: keep the time it takes within bounds
            let window = if threshold >= lookahead { window.min(lookahead.max(100_000 / lookahead)) } else { window };
            LzssO { header, window, lookahead, threshold, precursor: if w % 3 == 0 { b' ' } else { precursor } }
        },
    );
    prop_oneof![
        3 => any::<bool>().prop_map(|header| LzssO{header,..LzssO::std()}),
        5 => other,
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LzwO {
    pub header_bits: usize,
    pub header_divisor: usize,
    pub chunk_size: usize,
    pub max_symbol: usize,
    pub clear: Option<usize>,
    pub stop: Option<usize>,
    pub width: usize,
    pub msb: bool,
}
impl LzwO {
    pub fn std() -> Self {
        Self { header_bits: 0, header_divisor: 1, chunk_size: 4096, max_symbol: 255, clear: Some(256), stop: Some(257), width: 12, msb: false }
    }
    pub fn td() -> Self {
        Self { header_bits: 16, header_divisor: 4, chunk_size: 4096, max_symbol: 255, clear: None, stop: None, width: 12, msb: false }
    }
    pub fn opt(&self) -> lzw::Options {
        lzw::Options {
            header_bits: self.header_bits,
            header_divisor: self.header_divisor,
            in_offset: 0,
            out_offset: 0,
            chunk_size: self.chunk_size,
            min_symbol: 0,
            max_symbol: self.max_symbol,
            clear_code: self.clear,
            stop_code: self.stop,
            min_code_width: self.width,
            max_code_width: self.width,
            ord: if self.msb { BitOrder::Msb0 } else { BitOrder::Lsb0 },
            max_file_size: lzw::STD_OPTIONS.max_file_size,
        }
    }
    /// data cut to end near the end of a chunk or the filling of the table
    pub fn cut(&self, mut x: Vec<u8>, at: Option<u16>) -> Vec<u8> {
        let Some(at) = at else { return x };
        let at = at as usize;
        let mut ev = Vec::new();
        rlzw::greedy_events(&x, &self.l(), &mut ev);
        if !ev.is_empty() {
            let n = ev[at / 8 % ev.len()] + at % 8;
            x.truncate(n.saturating_sub(2));
        }
        x
    }
    pub fn l(&self) -> rlzw::L {
        rlzw::L {
            header_bits: self.header_bits,
            header_divisor: self.header_divisor,
            chunk_size: self.chunk_size,
            max_symbol: self.max_symbol,
            clear: self.clear,
            stop: self.stop,
            width: self.width,
            msb: self.msb,
        }
    }
    pub fn label(&self) -> &'static str {
        if *self == Self::std() {
            "std"
        } else if *self == Self::td() {
            "td v1"
        } else if self.header_bits > 0 && (self.header_bits % 8 != 0 || self.chunk_size * self.width % 8 != 0) {
            "header, unaligned"
        } else if self.header_bits > 0 {
            "header, aligned"
        } else if self.clear.is_some() && self.stop.is_some() {
            "clear+stop"
        } else if self.clear.is_some() {
            "clear only"
        } else if self.stop.is_some() {
            "stop only"
        } else {
            "no marks"
        }
    }
}
/// Consistent LZW options:
/// * the code width holds every symbol and reserved code
/// * chunks are delimited by clear code or header, otherwise there is a single chunk
/// * the header holds the bit count of the largest chunk, the divisor is not more than the width
/// * without a stop code, padding bits cannot be mistaken for a code or header
pub fn lzw_opts() -> BoxedStrategy<LzwO> {
    let other = (any::<u64>(), 0u8..8, 0u8..8, 0u8..6, any::<bool>()).prop_map(|(seed, sk, wk, rk, msb)| {
        let mut m = Mix(seed);
        let max_symbol = match sk {
            0..=4 => 255,
            5 => 127,
            6 => [0, 1, 3, 15, 31, 63, 99, 254, 200, dict::pick(&mut m.clone(), 255)][m.below(10)],
            _ => m.below(256),
        };
        let need = usize::BITS as usize - (max_symbol + 3).leading_zeros() as usize;
        let width = match wk {
            0..=2 => 12.max(need),
            3 => need,
            4 => need + 1,
            5 => 16.max(need),
            6 => need + m.below(64 - need),
            _ => need + m.below(17 - need),
        };
        // reserved codes
        let lim = 1usize << width;
        let pick = |m: &mut Mix| match m.below(6) {
            0..=2 => max_symbol + 1 + m.below(2),
            3 => lim - 1 - m.below(2.min(lim - max_symbol - 1)),
            4 => dict::pick(m, lim - 1).max(max_symbol + 1),
            _ => max_symbol + 1 + m.below(lim - max_symbol - 1),
        };
        let mut clear = if m.below(3) > 0 { Some(pick(&mut m)) } else { None };
        let mut stop = if m.below(3) > 0 || width < 8 { Some(pick(&mut m)) } else { None };
        let mut header_bits = match rk {
            0..=2 => 0,
            3 => 16,
            _ => [8usize, 9, 12, 13, 16, 20, 24, 31, 32, 33, 40, 57, 64, dict::pick(&mut m.clone(), 64).max(8)][m.below(14)],
        };
        if clear.is_some() && clear == stop {
            match m.below(2) {
                0 if width >= 8 => stop = None,
                _ => clear = None,
            }
        }
        if width < 8 && stop.is_none() {
            stop = clear.take();
        }
        let header_divisor = match m.below(4) {
            0 => 1,
            1 => 4.min(width),
            2 => width,
            _ => 1 + m.below(width),
        };
        let mut chunk_size = match m.below(9) {
            0 => 1,
            1 => 1 + m.below(5),
            2 | 3 => 1 + m.below(60),
            4 => 4096,
            5 => 1 + m.below(5000),
            8 => dict::pick(&mut m, 70000).max(1),
            6 => (1usize << width.min(13)) - 260.min((1 << width.min(13)) - 1) + m.below(8),
            _ => 1 << 40,
        };
        if header_bits > 0 {
            // (chunk_size+1)*width/divisor must be representable
            let top = |bits: usize| ((1u128 << bits) - 1) * header_divisor as u128 / width as u128;
            if top(header_bits) < 3 {
                header_bits = 16;
            }
            chunk_size = chunk_size.min((top(header_bits) - 2).min(1 << 40) as usize);
        } else if clear.is_none() {
            chunk_size = 1 << 40;
        }
        LzwO { header_bits, header_divisor, chunk_size, max_symbol, clear, stop, width, msb }
    });
    prop_oneof![
        1 => Just(LzwO::std()),
        1 => Just(LzwO{msb:true,..LzwO::std()}),
        1 => Just(LzwO::td()),
        7 => other,
    ]
    .boxed()
}

/// A way to call the library
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Method {
    Lzss(LzssO),
    Port,
    Lzw(LzwO),
    /// header content without signature and checksum, version is at index 2
    Td0([u8; 8]),
}
impl Method {
    pub fn name(&self) -> &'static str {
        match self {
            Method::Lzss(o) if o.header => "lzss+header",
            Method::Lzss(_) => "lzss",
            Method::Port => "port",
            Method::Lzw(_) => "lzw",
            Method::Td0(h) if h[2] < 20 => "td0 v1",
            Method::Td0(_) => "td0 v2",
        }
    }
    /// the uncompressed form of the data for this method
    pub fn plain(&self, d: &Data) -> Vec<u8> {
        match self {
            Method::Lzw(o) => d.mapped(o.max_symbol),
            Method::Td0(h) => td_image(h, b"TD", &d.bytes()),
            _ => d.bytes(),
        }
    }
    /// how many bytes at most may follow the data after expansion
    pub fn slack(&self) -> usize {
        match self {
            Method::Lzss(o) if !o.header => 7,
            Method::Td0(h) if h[2] >= 20 => 7,
            _ => 0,
        }
    }
    pub fn compress<R: Read + Seek, W: Write + Seek>(&self, r: &mut R, w: &mut W) -> Res {
        match self {
            Method::Lzss(o) => lzss_huff::compress(r, w, &o.opt()),
            Method::Port => lzhuf::encode(r, w),
            Method::Lzw(o) => lzw::compress(r, w, &o.opt()),
            Method::Td0(_) => td0::compress(r, w),
        }
    }
    pub fn expand<R: Read + Seek, W: Write + Seek>(&self, r: &mut R, w: &mut W) -> Res {
        match self {
            Method::Lzss(o) => lzss_huff::expand(r, w, &o.opt()),
            Method::Port => lzhuf::decode(r, w),
            Method::Lzw(o) => lzw::expand(r, w, &o.opt()),
            Method::Td0(_) => td0::expand(r, w),
        }
    }
    pub fn compress_slice(&self, x: &[u8]) -> Result<Vec<u8>, Box<dyn std::error::Error>> {
        match self {
            Method::Lzss(o) => lzss_huff::compress_slice(x, &o.opt()),
            Method::Port => lzhuf::encode_slice(x),
            Method::Lzw(o) => lzw::compress_slice(x, &o.opt()),
            Method::Td0(_) => td0::compress_slice(x),
        }
    }
    pub fn expand_slice(&self, x: &[u8]) -> Result<Vec<u8>, Box<dyn std::error::Error>> {
        match self {
            Method::Lzss(o) => lzss_huff::expand_slice(x, &o.opt()),
            Method::Port => lzhuf::decode_slice(x),
            Method::Lzw(o) => lzw::expand_slice(x, &o.opt()),
            Method::Td0(_) => td0::expand_slice(x),
        }
    }
}
pub fn td_image(h: &[u8; 8], sig: &[u8; 2], body: &[u8]) -> Vec<u8> {
    let mut v = sig.to_vec();
    v.extend_from_slice(h);
    let crc = crate::refs::ref_crc16(0, &v);
    v.extend_from_slice(&crc.to_le_bytes());
    v.extend_from_slice(body);
    v
}
pub fn td_header() -> BoxedStrategy<[u8; 8]> {
    (any::<[u8; 8]>(), prop_oneof![
        3 => prop::sample::select(vec![10u8,15,19,20,21,18,0,255,16]),
        1 => any::<u8>(),
        1 => 0u8..20,
        1 => dict::num(255).prop_map(|x| x as u8),
    ])
        .prop_map(|(mut h, v)| {
            h[2] = v;
            h
        })
        .boxed()
}
pub fn method() -> BoxedStrategy<Method> {
    prop_oneof![
        3 => lzss_opts().prop_map(Method::Lzss),
        2 => Just(Method::Port),
        3 => lzw_opts().prop_map(Method::Lzw),
        2 => td_header().prop_map(Method::Td0),
    ]
    .boxed()
}
