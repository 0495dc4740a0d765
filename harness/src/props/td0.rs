//! C11, C12, C13, C24: TD0 images
use super::lzw::cut;
use super::*;
use crate::data::{self, Data, Seg};
use crate::dict;
use crate::driver::{Chk, Obs, Prop};
use crate::opts::{td_header, td_image, LzssO, LzwO};
use crate::refs::{lzss as rs, lzw as rl, ref_crc16};
use crate::toks::{codes, csegs, tokens, tsegs, CSeg, TSeg};
use proptest::prelude::*;
use retrocompressor::td0;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TdCase {
    pub h: [u8; 8],
    pub d: Data,
    /// cut the body near the end of an LZW chunk or the filling of the table
    pub cut: Option<u16>,
}
fn headers() -> Vec<[u8; 8]> {
    let mut v = Vec::new();
    for ver in 0..=255u8 {
        v.push([0, 0, ver, 0x82, 0, 0x80, 0, 2]);
    }
    v
}
/// fills the table and at least one chunk
fn full() -> BoxedStrategy<Data> {
    (9000usize..30000, any::<u64>(), prop::sample::select(vec![2u16, 3, 16, 64, 256])).prop_map(|(n, seed, alpha)| Data(vec![Seg::Rand { n, seed, alpha, base: 0 }])).boxed()
}
/// bodies that end near the end of a chunk or the filling of the table
fn ends() -> Vec<(Data, Option<u16>)> {
    let mut v = Vec::new();
    for alpha in [3u16, 16, 256] {
        for k in 0..24 {
            v.push((Data(vec![Seg::Rand { n: 24000, seed: 1, alpha, base: 0 }]), Some(k)));
        }
    }
    v
}
fn ver_label(v: u8) -> &'static str {
    match v {
        19 | 20 => "version at the boundary",
        0..=18 => "version 1.x",
        _ => "version 2.x",
    }
}
pub struct C11;
impl Prop for C11 {
    type Case = TdCase;
    const ID: &'static str = "C11";
    const RULE: &'static str = "case = any 8 header bytes (every version byte in the fixed part) x body recipe, a third of the bodies cut near the end of an LZW chunk or the filling of the table; non-trivial = body of at least 3 bytes";
    const QUICK: u32 = 16000;
    fn strategy(&self) -> BoxedStrategy<TdCase> {
        (td_header(), prop_oneof![9 => data::data(), 1 => full()], cut()).prop_map(|(h, d, cut)| TdCase { h, d, cut }).boxed()
    }
    fn fixed(&self) -> Vec<TdCase> {
        let mut v: Vec<TdCase> = headers().into_iter().map(|h| TdCase { h, d: Data::lit(b"I am Sam. Sam I am."), cut: None }).collect();
        for ver in [10u8, 15, 19, 20, 21, 255] {
            for d in data::classics() {
                v.push(TdCase { h: [1, 2, ver, 3, 4, 5, 6, 7], d, cut: None });
            }
            for (d, cut) in ends() {
                v.push(TdCase { h: [1, 2, ver, 3, 4, 5, 6, 7], d, cut });
            }
            for d in data::enumerate(b"ab", 5) {
                v.push(TdCase { h: [0, 0, ver, 0, 0, 0, 0, 0], d, cut: None });
            }
        }
        v
    }
    fn check(&self, c: &TdCase, obs: &mut Obs) -> Chk {
        let m = Method::Td0(c.h);
        let body = LzwO::td().cut(c.d.bytes(), c.cut);
        let x = td_image(&c.h, b"TD", &body);
        obs.nontrivial = body.len() >= 3;
        obs.label(ver_label(c.h[2]));
        let z = comp(&m, &x)?;
        let head = &td_image(&c.h, b"td", b"")[..];
        if z.bytes.len() < 12 || z.bytes[..12] != *head {
            return Err(format!("header after compression is {:02x?}, expected {head:02x?}", &z.bytes[..z.bytes.len().min(12)]));
        }
        let y = expand_ok(&m, &z.bytes, x.len())?;
        obs.runs += 2;
        same("image after compression and expansion", &y.bytes, &x, m.slack())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Corrupt {
    None,
    /// other signature, checksum made correct for it or not
    Sig { s: [u8; 2], fix: bool },
    /// xor into the stored checksum
    Crc(u16),
    /// a checksum that is wrong in a particular way
    CrcIs(u8),
    /// xor into one of the bytes 2..10
    Byte { i: u8, x: u8 },
    /// cut to this many bytes
    Len(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GateCase {
    pub h: [u8; 8],
    pub d: Data,
    pub c: Corrupt,
    pub expand: bool,
}
pub struct C12;
impl Prop for C12 {
    type Case = GateCase;
    const ID: &'static str = "C12";
    const RULE: &'static str = "case = header, body, direction and a corruption: other signature (with or without matching checksum), any change of the checksum (fixed: every one, for four headers) or another checksum altogether, any change of a covered byte, any length below 12, or none; non-trivial = there is a corruption";
    const QUICK: u32 = 60000;
    fn strategy(&self) -> BoxedStrategy<GateCase> {
        let sig = prop_oneof![
            3 => prop::sample::select(vec![*b"TD", *b"td", *b"Td", *b"tD", *b"DT", *b"dt", [0, 0], *b"TE", *b"te"]),
            1 => any::<[u8; 2]>(),
        ];
        let c = prop_oneof![
            1 => Just(Corrupt::None),
            3 => (sig, any::<bool>()).prop_map(|(s, fix)| Corrupt::Sig{s, fix}),
            3 => prop_oneof![1 => 1u16.., 1 => (0u8..16).prop_map(|k| 1 << k), 1 => (1u16..256), 1 => (1u16..256).prop_map(|k| k << 8)].prop_map(Corrupt::Crc),
            2 => (0u8..14).prop_map(Corrupt::CrcIs),
            3 => (2u8..10, prop_oneof![1u8.., (0u8..8).prop_map(|k| 1 << k)]).prop_map(|(i, x)| Corrupt::Byte{i, x}),
            1 => (0u8..12).prop_map(Corrupt::Len),
        ];
        (td_header(), data::tiny(), c, any::<bool>()).prop_map(|(h, d, c, expand)| GateCase { h, d, c, expand }).boxed()
    }
    fn fixed(&self) -> Vec<GateCase> {
        let mut v = Vec::new();
        for expand in [false, true] {
            for ver in [15u8, 21] {
                let h = [9, 8, ver, 7, 6, 5, 4, 3];
                let d = Data::lit(b"abc abc abc");
                let mut add = |c| v.push(GateCase { h, d: d.clone(), c, expand });
                add(Corrupt::None);
                for l in 0..12 {
                    add(Corrupt::Len(l));
                }
                for k in 0..16 {
                    add(Corrupt::Crc(1 << k));
                }
                for i in 2..10 {
                    for k in 0..8 {
                        add(Corrupt::Byte { i, x: 1 << k });
                    }
                }
                for a in 0..=255u8 {
                    for fix in [true, false] {
                        add(Corrupt::Sig { s: [a, b'D'], fix });
                        add(Corrupt::Sig { s: [a, b'd'], fix });
                        add(Corrupt::Sig { s: [b'T', a], fix });
                        add(Corrupt::Sig { s: [b't', a], fix });
                    }
                }
                // every wrong checksum
                for x in 1..=0xffffu16 {
                    add(Corrupt::Crc(x));
                }
                for k in 0..14 {
                    add(Corrupt::CrcIs(k));
                }
            }
        }
        v
    }
    fn check(&self, c: &GateCase, obs: &mut Obs) -> Chk {
        let m = Method::Td0(c.h);
        let sig = if c.expand { b"td" } else { b"TD" };
        let mut x = td_image(&c.h, b"TD", &c.d.bytes());
        if c.expand {
            // a conforming advanced image from the reference encoders
            let body = c.d.bytes();
            let comp = if c.h[2] < 20 {
                let l = LzwO::td().l();
                rl::pack(&rl::greedy(&body, &l), &l)
            } else {
                let t: Vec<_> = body.iter().map(|b| rs::Tok::Lit(*b)).collect();
                rs::encode(&t, &LzssO::std().p(), None).0
            };
            x = td_image(&c.h, b"td", &comp);
        }
        let mut expect = "ok";
        match &c.c {
            Corrupt::None => {}
            Corrupt::Sig { s, fix } => {
                x[..2].copy_from_slice(s);
                if *fix {
                    let k = ref_crc16(0, &x[..10]).to_le_bytes();
                    x[10..12].copy_from_slice(&k);
                }
                if s != sig {
                    expect = "FileFormatMismatch";
                }
                // a right signature left with the right checksum
            }
            Corrupt::Crc(k) => {
                let v = (x[10] as u16 | (x[11] as u16) << 8) ^ k;
                x[10..12].copy_from_slice(&v.to_le_bytes());
                expect = "BadChecksum";
            }
            Corrupt::CrcIs(k) => {
                let right = u16::from_le_bytes([x[10], x[11]]);
                let crc = |seed: u16, poly: u16, b: &[u8]| {
                    b.iter().fold(seed, |c, b| (0..8).fold(c ^ (*b as u16) << 8, |c, _| if c & 0x8000 != 0 { c << 1 ^ poly } else { c << 1 }))
                };
                let mut other = x[..10].to_vec();
                other[..2].copy_from_slice(if c.expand { b"TD" } else { b"td" });
                let v = match k {
                    0 => 0,
                    1 => 0xffff,
                    2 => right.swap_bytes(),
                    3 => !right,
                    4 => ref_crc16(0, &other),
                    5 => ref_crc16(0, &x[..12]),
                    6 => ref_crc16(0, &x[..8]),
                    7 => ref_crc16(0, &x[2..10]),
                    8 => ref_crc16(0xffff, &x[..10]),
                    9 => crc(0, 0x1021, &x[..10]),
                    10 => crc(0, 0x8005, &x[..10]),
                    11 => x[..10].iter().map(|b| *b as u16).sum(),
                    12 => right.wrapping_neg(),
                    _ => 0x0a0d,
                };
                x[10..12].copy_from_slice(&v.to_le_bytes());
                if v != right {
                    expect = "BadChecksum";
                }
            }
            Corrupt::Byte { i, x: v } => {
                x[*i as usize] ^= v;
                expect = "BadChecksum";
            }
            Corrupt::Len(n) => {
                x.truncate(*n as usize);
                expect = "short";
            }
        }
        obs.nontrivial = expect != "ok";
        obs.label(format!("{} {expect}", if c.expand { "expand" } else { "compress" }));
        obs.runs += 1;
        let mut w = Cap::new(vec![], 300_000);
        let r = guard("td0 panicked", || if c.expand { m.expand(&mut Cursor::new(&x), &mut w) } else { m.compress(&mut Cursor::new(&x), &mut w) })?;
        match (expect, r) {
            ("ok", Ok(_)) => Ok(()),
            ("ok", Err(e)) => Err(format!("valid image was rejected: {e}")),
            (e, Ok(_)) => Err(format!("invalid image ({e}) was accepted")),
            (e, Err(r)) => {
                if !w.c.get_ref().is_empty() {
                    return Err(format!("rejected image ({e}) gave {} output bytes", w.c.get_ref().len()));
                }
                if e != "short" && kind(&r) != e {
                    return Err(format!("error is {} ({r}), expected {e}", kind(&r)));
                }
                Ok(())
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BodyCase {
    /// compress the data and compare with the format
    Compress { h: [u8; 8], d: Data, cut: Option<u16> },
    /// expand a version 1 image with these codes
    V1 { h: [u8; 8], c: Vec<CSeg> },
    /// expand a version 2 image with these tokens
    V2 { h: [u8; 8], t: Vec<TSeg> },
}
/// the body as the LZW or LZSS functions convert it with the published options
fn by_options(h: &[u8; 8], expand: bool, image: &[u8], max: usize) -> Result<Vec<u8>, String> {
    use retrocompressor::{lzss_huff, lzw};
    let mut w = Cap::new(vec![0; 12], max + 100_000);
    let mut r = Cursor::new(image);
    let res = guard("the published options panicked", || match (h[2] < 20, expand) {
        (true, false) => lzw::compress(&mut r, &mut w, &td0::TD_V1_OPTIONS),
        (true, true) => lzw::expand(&mut r, &mut w, &td0::TD_V1_OPTIONS),
        (false, false) => lzss_huff::compress(&mut r, &mut w, &td0::TD_V2_OPTIONS),
        (false, true) => lzss_huff::expand(&mut r, &mut w, &td0::TD_V2_OPTIONS),
    })?;
    res.map_err(|e| format!("with the published options: {e}"))?;
    Ok(w.c.into_inner()[12..].to_vec())
}
pub struct C13;
impl Prop for C13 {
    type Case = BodyCase;
    const ID: &'static str = "C13";
    const RULE: &'static str = "case = header x (data to compress, a third of it cut near the end of an LZW chunk or the filling of the table, judged by the reference codecs | chunks of arbitrary valid 12-bit codes | arbitrary valid tokens to expand); non-trivial = body not empty";
    const QUICK: u32 = 12000;
    fn strategy(&self) -> BoxedStrategy<BodyCase> {
        let v1 = (td_header(), 0u8..20).prop_map(|(mut h, v)| {
            h[2] = v;
            h
        });
        let v2 = (td_header(), 20u8..).prop_map(|(mut h, v)| {
            h[2] = v;
            h
        });
        prop_oneof![
            2 => (td_header(), prop_oneof![30 => data::tiny(), 45 => data::small(), 15 => data::medium(), 10 => full()], cut()).prop_map(|(h,d,cut)| BodyCase::Compress{h,d,cut}),
            1 => (v1, csegs(4096)).prop_map(|(h,c)| BodyCase::V1{h,c}),
            1 => (v2, tsegs()).prop_map(|(h,t)| BodyCase::V2{h,t}),
        ]
        .boxed()
    }
    fn fixed(&self) -> Vec<BodyCase> {
        let mut v = Vec::new();
        for h in headers() {
            v.push(BodyCase::Compress { h, d: Data::lit(b"I do not like this Sam I am, ham ham ham ham ham"), cut: None });
            if h[2] < 20 {
                v.push(BodyCase::V1 { h, c: vec![CSeg { n: 200, seed: 1, w: [1, 1, 1, 1], alpha: 256 }, CSeg { n: 21, seed: 2, w: [1, 1, 1, 1], alpha: 256 }] });
            } else {
                v.push(BodyCase::V2 { h, t: vec![TSeg::Mixed { n: 300, seed: 1, pm: 128, alpha: 256, lenk: 0, distk: 0 }] });
            }
        }
        for ver in [10u8, 15, 19, 20, 21] {
            for d in data::classics() {
                v.push(BodyCase::Compress { h: [1, 2, ver, 3, 4, 5, 6, 7], d, cut: None });
            }
            for (d, cut) in ends() {
                v.push(BodyCase::Compress { h: [1, 2, ver, 3, 4, 5, 6, 7], d, cut });
            }
        }
        for n in [0usize, 1, 2, 3, 4095, 4096] {
            for w in [[1u8, 0, 0, 0], [1, 1, 1, 1], [1, 0, 0, 4]] {
                let c = CSeg { n, seed: 9, w, alpha: 256 };
                v.push(BodyCase::V1 { h: [0, 0, 15, 0, 0, 0, 0, 0], c: vec![c.clone(), CSeg { n: 5, ..c.clone() }, c] });
            }
        }
        v
    }
    fn check(&self, c: &BodyCase, obs: &mut Obs) -> Chk {
        match c {
            BodyCase::Compress { h, d, cut } => {
                let body = LzwO::td().cut(d.bytes(), *cut);
                let m = Method::Td0(*h);
                obs.nontrivial = !body.is_empty();
                let z = comp(&m, &td_image(h, b"TD", &body))?.bytes;
                obs.runs += 1;
                if z.len() < 12 {
                    return Err("no complete header".into());
                }
                let other = by_options(h, false, &td_image(h, b"TD", &body), z.len())?;
                same("body by the published options against that of the image", &other, &z[12..], 0)?;
                if h[2] < 20 {
                    obs.label("compress version 1.x");
                    let l = LzwO::td().l();
                    let want = rl::pack(&rl::greedy(&body, &l), &l);
                    same("version 1 body against the reference encoder", &z[12..], &want, 0)
                } else {
                    obs.label("compress version 2.x");
                    let p = LzssO::std().p();
                    let dec = rs::decode(&z[12..], &p, Some(body.len()));
                    rs::check_greedy(&dec.toks, &body, &p)?;
                    if dec.left >= 8 || !dec.left_zero {
                        return Err(format!("{} bits after the last token", dec.left));
                    }
                    Ok(())
                }
            }
            BodyCase::V1 { h, c } => {
                let o = LzwO::td();
                let l = o.l();
                let mut total = 0;
                let mut out = Vec::new();
                let mut chunks = Vec::new();
                for s in c {
                    let s = CSeg { n: s.n.min(4096), ..s.clone() };
                    let (v, x, _) = codes(&s, &l, &mut total, 200_000);
                    out.extend(x);
                    chunks.push(v);
                }
                obs.nontrivial = !out.is_empty();
                obs.label("expand version 1.x");
                let z = td_image(h, b"td", &rl::pack(&chunks, &l));
                let want = td_image(h, b"TD", &out);
                let y = expand_ok(&Method::Td0(*h), &z, want.len())?;
                obs.runs += 2;
                let other = by_options(h, true, &z, want.len())?;
                same("body by the published options against that of the image", &other, &y.bytes[12..], 0)?;
                same("expansion of a version 1 image", &y.bytes, &want, 0)
            }
            BodyCase::V2 { h, t } => {
                let p = LzssO::std().p();
                let toks = tokens(t, &p);
                let out = rs::expand_tokens(&toks, &p);
                obs.nontrivial = !out.is_empty();
                obs.label("expand version 2.x");
                let z = td_image(h, b"td", &rs::encode(&toks, &p, None).0);
                let want = td_image(h, b"TD", &out);
                let y = expand_ok(&Method::Td0(*h), &z, want.len())?;
                obs.runs += 2;
                let other = by_options(h, true, &z, want.len())?;
                same("body by the published options against that of the image", &other, &y.bytes[12..], 0)?;
                same("expansion of a version 2 image", &y.bytes, &want, 7)
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CrcCase {
    Buf {
        seed: u16,
        d: Data,
        split: u16,
        burst_at: u32,
        burst: u16,
        /// position, byte, number: equal bytes put there, preceded by the checksum of what is before
        #[serde(default)]
        fill: Option<(u16, u8, u16)>,
    },
    /// all two byte buffers starting with this byte, some seeds
    All { first: u8, seed: u16 },
    /// all seeds, with this byte
    Seeds { byte: u8 },
}
pub struct C24;
impl Prop for C24 {
    type Case = CrcCase;
    const ID: &'static str = "C24";
    const RULE: &'static str = "case = seed x buffer x split x burst error of at most 16 bits, compared with polynomial division (fixed: all two-byte buffers, all seeds with all bytes, all lengths up to 1099); non-trivial = buffer of at least 2 bytes";
    const QUICK: u32 = 60000;
    fn strategy(&self) -> BoxedStrategy<CrcCase> {
        let fill = prop_oneof![3 => Just(None), 1 => (any::<u16>(), prop_oneof![3 => Just(0u8), 1 => data::any_byte()], prop_oneof![3 => 0u16..70, 1 => 0u16..2000]).prop_map(Some)];
        (prop_oneof![2 => Just(0u16), 1 => Just(0xffff), 7 => any::<u16>(), 1 => dict::num(65535).prop_map(|x| x as u16)], data::data_small(), any::<u16>(), any::<u32>(), 1u16.., fill)
            .prop_map(|(seed, d, split, burst_at, burst, fill)| CrcCase::Buf { seed, d, split, burst_at, burst, fill })
            .boxed()
    }
    fn fixed(&self) -> Vec<CrcCase> {
        let mut v = Vec::new();
        for first in 0..=255u8 {
            v.push(CrcCase::All { first, seed: 0 });
            v.push(CrcCase::All { first, seed: 0xffff - first as u16 * 77 });
        }
        for byte in 0..=255 {
            v.push(CrcCase::Seeds { byte });
        }
        // every length up to some sectors, and around powers of two
        for n in (0..1100usize).chain((11..21).flat_map(|k| (1 << k) - 2..=(1 << k) + 2)) {
            v.push(CrcCase::Buf { seed: (n * 40503) as u16, d: Data(vec![data::Seg::Rand { n, seed: n as u64, alpha: 256, base: 0 }]), split: n as u16 / 3, burst_at: n as u32, burst: 0x8001, fill: None });
        }
        for at in [7u32, 30_000_000, 135_999_999] {
            v.push(CrcCase::Buf { seed: at as u16, d: data::huge(), split: at as u16, burst_at: at, burst: 0x8001, fill: None });
        }
        for d in data::classics() {
            v.push(CrcCase::Buf { seed: 0, d, split: 3, burst_at: 7, burst: 0x8001, fill: None });
        }
        v
    }
    fn check(&self, c: &CrcCase, obs: &mut Obs) -> Chk {
        let f = |seed, b: &[u8]| guard("crc16 panicked", || td0::crc16(seed, b));
        match c {
            CrcCase::All { first, seed } => {
                obs.nontrivial = true;
                for second in 0..=255u8 {
                    let b = [*first, second];
                    let (got, want) = (f(*seed, &b)?, ref_crc16(*seed, &b));
                    obs.runs += 1;
                    if got != want {
                        return Err(format!("crc16({seed:#06x}, {b:02x?}) = {got:#06x}, expected {want:#06x}"));
                    }
                }
                Ok(())
            }
            CrcCase::Seeds { byte } => {
                obs.nontrivial = true;
                for seed in 0..=0xffffu16 {
                    let b = [*byte];
                    let (got, want) = (f(seed, &b)?, ref_crc16(seed, &b));
                    obs.runs += 1;
                    if got != want {
                        return Err(format!("crc16({seed:#06x}, {b:02x?}) = {got:#06x}, expected {want:#06x}"));
                    }
                }
                Ok(())
            }
            CrcCase::Buf { seed, d, split, burst_at, burst, fill } => {
                let mut b = d.bytes();
                if let Some((at, byte, n)) = fill {
                    // with its checksum a piece has checksum zero; from there, or from the start, many equal bytes
                    let at = if at % 4 == 0 { 0 } else { *at as usize % (b.len() + 1) };
                    let mut ins = if at == 0 { vec![] } else { ref_crc16(*seed, &b[..at]).to_be_bytes().to_vec() };
                    ins.resize(ins.len() + *n as usize, *byte);
                    b.splice(at..at, ins);
                }
                let b = b;
                obs.nontrivial = b.len() >= 2;
                let got = f(*seed, &b)?;
                obs.runs += 3;
                let want = ref_crc16(*seed, &b);
                if got != want {
                    return Err(format!("crc16({seed:#06x}, {} bytes) = {got:#06x}, expected {want:#06x}", b.len()));
                }
                let k = *split as usize % (b.len() + 1);
                let two = f(f(*seed, &b[..k])?, &b[k..])?;
                if two != got {
                    return Err(format!("computed in pieces of {k} and {}: {two:#06x}, at once {got:#06x}", b.len() - k));
                }
                if !b.is_empty() {
                    let mut e = b.clone();
                    let bits = b.len() * 8;
                    let start = *burst_at as usize % bits;
                    let mut changed = false;
                    for j in 0..16 {
                        let at = start + j;
                        if burst >> j & 1 == 1 && at < bits {
                            e[at / 8] ^= 0x80 >> (at % 8);
                            changed = true;
                        }
                    }
                    if changed && f(*seed, &e)? == got {
                        return Err(format!("burst {burst:#06x} at bit {start} is not detected"));
                    }
                }
                Ok(())
            }
        }
    }
}
