//! C14, C15, C16, C18: malformed, truncated and extended streams, failing streams
use super::*;
use crate::data::{self, Data, Mix};
use crate::driver::{Chk, Obs, Prop};
use crate::driver::guard;
use crate::io::{Cap, CapR, Fault};
use crate::opts::{method, LzssO, LzwO};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::io::ErrorKind;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Flip(u16),
    Set(u16, u8),
    Del(u16, u8),
    Ins(u16, Vec<u8>),
    Dup(u16, u16, u16),
    Cut(u16),
    Fill(u16, u8, u8),
}
pub fn mutate(b: &mut Vec<u8>, m: &Mut, lo: usize) {
    let n = b.len() - lo.min(b.len());
    let at = |p: &u16| lo + if n == 0 { 0 } else { (*p as usize) % n };
    if n == 0 && !matches!(m, Mut::Ins(..)) {
        return;
    }
    match m {
        Mut::Flip(p) => {
            let bit = *p as usize % (n * 8);
            b[lo + bit / 8] ^= 1 << (bit % 8);
        }
        Mut::Set(p, v) => {
            let i = at(p);
            b[i] = *v
        }
        Mut::Del(p, k) => {
            let i = at(p);
            let e = (i + *k as usize).min(b.len());
            b.drain(i..e);
        }
        Mut::Ins(p, v) => {
            let i = at(p).min(b.len());
            b.splice(i..i, v.iter().copied());
        }
        Mut::Dup(p, q, k) => {
            let i = at(p);
            let e = (i + *k as usize % 200).min(b.len());
            let piece = b[i..e].to_vec();
            let j = at(q);
            b.splice(j..j, piece);
        }
        Mut::Cut(p) => {
            let i = at(p);
            b.truncate(i)
        }
        Mut::Fill(p, k, v) => {
            let i = at(p);
            let e = (i + *k as usize).min(b.len());
            b[i..e].fill(*v);
        }
    }
}
pub fn muts() -> BoxedStrategy<Vec<Mut>> {
    vec(
        prop_oneof![
            4 => any::<u16>().prop_map(Mut::Flip),
            3 => (any::<u16>(), data::any_byte()).prop_map(|(p,v)| Mut::Set(p,v)),
            1 => (any::<u16>(), 1u8..8).prop_map(|(p,k)| Mut::Del(p,k)),
            1 => (any::<u16>(), vec(any::<u8>(), 1..8)).prop_map(|(p,v)| Mut::Ins(p,v)),
            1 => (any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(p,q,k)| Mut::Dup(p,q,k)),
            1 => any::<u16>().prop_map(Mut::Cut),
            1 => (any::<u16>(), any::<u8>(), data::any_byte()).prop_map(|(p,k,v)| Mut::Fill(p,k,v)),
        ],
        0..6,
    )
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JunkCase {
    pub m: Method,
    /// start from the compressed form of the data, or from the data itself
    pub valid: bool,
    pub d: Data,
    pub muts: Vec<Mut>,
    /// declared length for streams with a header, if given
    pub decl: Option<u32>,
}
/// most output the stream can express
pub fn bound(m: &Method, z: &[u8]) -> usize {
    let huff = |o: &LzssO, n: usize| {
        // a literal has at least one bit, a match at least 1+9
        let per10 = (10).max(o.lookahead);
        n * 8 * per10 / 10 + o.lookahead + 8
    };
    let lzw = |o: &LzwO, n: usize| {
        // the strings get longer by one with every code
        let codes = n * 8 / o.width + 1;
        codes * (codes + 1) / 2
    };
    let head = |z: &[u8]| if z.len() >= 4 { u32::from_le_bytes([z[0], z[1], z[2], z[3]]) as usize } else { 0 };
    match m {
        Method::Lzss(o) if o.header => huff(o, z.len().saturating_sub(4)).min(head(z) + o.lookahead.max(1) - 1),
        Method::Lzss(o) => huff(o, z.len()),
        Method::Port => head(z) + 59,
        Method::Lzw(o) => lzw(o, z.len()),
        Method::Td0(_) => {
            if z.len() < 12 {
                0
            } else if z[4] < 20 {
                12 + lzw(&LzwO::td(), z.len() - 12)
            } else {
                12 + huff(&LzssO::std(), z.len() - 12)
            }
        }
    }
}
/// working memory that does not depend on the data
const MEM_BASE: usize = 64 << 20;
pub struct C14;
impl Prop for C14 {
    type Case = JunkCase;
    const ID: &'static str = "C14";
    const RULE: &'static str = "case = method and options x (valid stream | arbitrary bytes) x up to 5 mutations x declared length; TD0 headers are made valid again after mutation in most cases; non-trivial = stream of at least 4 bytes that is not a plain valid stream";
    const QUICK: u32 = 60000;
    const ASSUMPTIONS: &'static [&'static str] = &["the length declared to the LZHUF port is at most 100000, because it fills up missing data with zero bits like LZHUF.C"];
    fn strategy(&self) -> BoxedStrategy<JunkCase> {
        let d = prop_oneof![30 => data::tiny(), 50 => data::small(), 3 => vec(data::seg(3000), 1..3).prop_map(Data)];
        let decl = prop_oneof![3 => Just(None), 1 => (0u32..300).prop_map(Some), 1 => (0u32..100_000).prop_map(Some), 1 => prop_oneof![Just(u32::MAX), Just(u32::MAX - 1), Just(0x8000_0000), any::<u32>()].prop_map(Some)];
        (method(), any::<bool>(), d, muts(), decl).prop_map(|(m, valid, d, muts, decl)| JunkCase { m, valid, d, muts, decl }).boxed()
    }
    fn fixed(&self) -> Vec<JunkCase> {
        let mut v = Vec::new();
        let ms = [
            Method::Lzss(LzssO::std()),
            Method::Lzss(LzssO { header: false, ..LzssO::std() }),
            Method::Port,
            Method::Lzw(LzwO::std()),
            Method::Lzw(LzwO::td()),
            Method::Td0([0, 0, 15, 0, 0, 0, 0, 0]),
            Method::Td0([0, 0, 21, 0, 0, 0, 0, 0]),
        ];
        for m in ms {
            for d in [Data::lit(b""), Data::lit(b"I am Sam. Sam I am. I do not like this Sam I am.\n")] {
                for p in 0..500u16 {
                    v.push(JunkCase { m: m.clone(), valid: true, d: d.clone(), muts: vec![Mut::Flip(p)], decl: None });
                }
            }
            for n in 0..40usize {
                for b in [0u8, 0xff, 0x55, 0x01] {
                    v.push(JunkCase { m: m.clone(), valid: false, d: Data(vec![data::Seg::Run { b, n }]), muts: vec![], decl: None });
                }
            }
        }
        v
    }
    fn check(&self, c: &JunkCase, obs: &mut Obs) -> Chk {
        let mut z = if c.valid {
            comp(&c.m, &c.m.plain(&c.d))?.bytes
        } else {
            match &c.m {
                Method::Td0(h) => crate::opts::td_image(h, b"td", &c.d.bytes()),
                _ => c.d.bytes(),
            }
        };
        let whole = z.clone();
        for m in &c.muts {
            mutate(&mut z, m, 0);
        }
        if z.len() > 12_000 {
            z.truncate(12_000);
        }
        match &c.m {
            Method::Port => {
                if z.len() >= 4 {
                    let have = u32::from_le_bytes([z[0], z[1], z[2], z[3]]);
                    let d = c.decl.unwrap_or(have) % 100_001;
                    z[..4].copy_from_slice(&d.to_le_bytes());
                }
            }
            Method::Lzss(o) if o.header => {
                if let (Some(d), true) = (c.decl, z.len() >= 4) {
                    z[..4].copy_from_slice(&d.to_le_bytes());
                }
            }
            Method::Td0(_) if z.len() >= 12 && c.muts.len() != 3 => {
                z[..2].copy_from_slice(b"td");
                let k = crate::refs::ref_crc16(0, &z[..10]).to_le_bytes();
                z[10..12].copy_from_slice(&k);
            }
            _ => {}
        }
        let max = bound(&c.m, &z);
        obs.nontrivial = z.len() >= 4 && z != whole;
        obs.runs += 1;
        let mut w = Cap::new(vec![], max + 1000);
        let mut rd = CapR::new(&z);
        let (r, mem) = crate::alloc::measure(2 << 30, || guard(&format!("{} expand panicked", c.m.name()), || c.m.expand(&mut rd, &mut w)));
        let r = r?;
        let n = w.c.get_ref().len();
        // the sink, which is counted, reserves up to twice its content
        if mem > MEM_BASE + 64 * (z.len() + n) {
            return Err(format!("{} bytes of {} stream that expand to {n} take {mem} bytes of memory", z.len(), c.m.name()));
        }
        if mem > 4 << 20 {
            obs.label("more than 4 MB of memory");
        }
        match r {
            Ok(_) => {
                obs.label(format!("{} ok", c.m.name()));
                if n > max {
                    return Err(format!("{} bytes of {} stream expand to {n}, more than {max}", z.len(), c.m.name()));
                }
                Ok(())
            }
            Err(_) if w.hit || rd.hit() => Err(format!("{} bytes of {} stream expand without end, more than {max}", z.len(), c.m.name())),
            Err(e) => {
                obs.label(format!("{} error {}", c.m.name(), kind(&e)));
                Ok(())
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CutCase {
    pub m: Method,
    pub d: Data,
    pub seed: u64,
}
pub struct C15;
impl Prop for C15 {
    type Case = CutCase;
    const ID: &'static str = "C15";
    const RULE: &'static str = "case = method and options (not the port) x data; the stream is cut at every position up to 80 bytes and near both ends, and at 60 other positions; non-trivial = some cut expanded to a non-empty proper prefix or an error";
    const QUICK: u32 = 6000;
    fn strategy(&self) -> BoxedStrategy<CutCase> {
        let m = method().prop_map(|m| if m == Method::Port { Method::Lzss(LzssO::std()) } else { m });
        (m, data::data_small(), any::<u64>()).prop_map(|(m, d, seed)| CutCase { m, d, seed }).boxed()
    }
    fn fixed(&self) -> Vec<CutCase> {
        let mut v = Vec::new();
        for m in [
            Method::Lzss(LzssO::std()),
            Method::Lzss(LzssO { header: false, ..LzssO::std() }),
            Method::Lzw(LzwO::std()),
            Method::Lzw(LzwO { msb: true, ..LzwO::std() }),
            Method::Lzw(LzwO::td()),
            Method::Lzw(LzwO { chunk_size: 7, ..LzwO::td() }),
            Method::Lzw(LzwO { chunk_size: 7, ..LzwO::std() }),
            Method::Td0([0, 0, 15, 0, 0, 0, 0, 0]),
            Method::Td0([0, 0, 21, 0, 0, 0, 0, 0]),
        ] {
            for d in data::classics().into_iter().take(60) {
                v.push(CutCase { m: m.clone(), d, seed: 1 });
            }
        }
        v
    }
    fn check(&self, c: &CutCase, obs: &mut Obs) -> Chk {
        let x = c.m.plain(&c.d);
        let z = comp(&c.m, &x)?.bytes;
        let y = expand_ok(&c.m, &z, x.len())?.bytes;
        let n = z.len();
        let mut cuts: Vec<usize> = (0..n.min(80)).chain(n.saturating_sub(20)..n).collect();
        let mut m = Mix(c.seed);
        // the expander is quick on a short stream, fewer cuts of a long one
        let extra = if n < 3000 { 60 } else { 10 };
        cuts.extend((0..extra).map(|_| m.below(n)));
        cuts.sort();
        cuts.dedup();
        if n > 3000 {
            cuts = cuts.into_iter().enumerate().filter(|(i, k)| i % 5 == 0 || k + 4 > n).map(|x| x.1).collect();
        }
        obs.label(c.m.name());
        for k in cuts.into_iter().filter(|k| *k < n) {
            obs.runs += 1;
            match expand_any(&c.m, &z[..k], y.len() + 10_000)? {
                Ok(p) => {
                    if !y.starts_with(&p.bytes) {
                        let i = (0..p.bytes.len().min(y.len())).find(|i| p.bytes[*i] != y[*i]).unwrap_or(y.len());
                        return Err(format!("{}: stream of {n} bytes cut to {k} expands to {} bytes that differ from the whole expansion ({} bytes) at {i}", c.m.name(), p.bytes.len(), y.len()));
                    }
                    obs.nontrivial |= !p.bytes.is_empty() && p.bytes.len() < y.len();
                }
                Err((e, hit)) => {
                    if hit {
                        return Err(format!("{}: stream of {n} bytes cut to {k} expands beyond the whole expansion: {e}", c.m.name()));
                    }
                    obs.nontrivial = true;
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TrailCase {
    pub m: Method,
    pub d: Data,
    pub t: Data,
    /// the same stream follows once more, before the other bytes
    #[serde(default)]
    pub again: bool,
}
fn marked(m: Method) -> Method {
    match m {
        Method::Lzss(o) => Method::Lzss(LzssO { header: true, ..o }),
        Method::Lzw(mut o) => {
            if o.stop.is_none() {
                if o.width == 8 && o.max_symbol == 255 || o.max_symbol + 2 >= 1 << o.width {
                    o = LzwO::std();
                } else {
                    let s = o.max_symbol + 1;
                    o.stop = Some(if o.clear == Some(s) { s + 1 } else { s });
                }
            }
            Method::Lzw(o)
        }
        Method::Td0(_) => Method::Port,
        m => m,
    }
}
pub struct C16;
impl Prop for C16 {
    type Case = TrailCase;
    const ID: &'static str = "C16";
    const RULE: &'static str = "case = self-delimiting method (header, port, stop code) x data x trailing bytes (any, or the same stream again); non-trivial = data and trailing bytes are not empty";
    const QUICK: u32 = 24000;
    fn strategy(&self) -> BoxedStrategy<TrailCase> {
        (method().prop_map(marked), prop_oneof![40 => data::tiny(), 50 => data::small(), 10 => data::medium()], prop_oneof![20 => data::data_small(), 1 => (8000usize..30000, any::<u64>()).prop_map(|(n, seed)| Data(vec![data::Seg::Rand { n, seed, alpha: 256, base: 0 }]))], prop::bool::weighted(0.2))
            .prop_map(|(m, d, t, again)| TrailCase { m, d, t, again })
            .boxed()
    }
    fn fixed(&self) -> Vec<TrailCase> {
        let mut v = Vec::new();
        for m in [Method::Lzss(LzssO::std()), Method::Port, Method::Lzw(LzwO::std()), Method::Lzw(LzwO { clear: None, chunk_size: 1 << 40, ..LzwO::std() }), Method::Lzw(LzwO { stop: Some(256), chunk_size: 9, ..LzwO::td() })] {
            for d in data::classics().into_iter().take(60) {
                for t in [Data::lit(&[0]), Data::lit(&[0xff; 20]), Data::lit(b"tail")] {
                    v.push(TrailCase { m: m.clone(), d: d.clone(), t, again: false });
                }
                v.push(TrailCase { m: m.clone(), d: d.clone(), t: Data::lit(b""), again: true });
            }
        }
        v
    }
    fn check(&self, c: &TrailCase, obs: &mut Obs) -> Chk {
        let x = c.m.plain(&c.d);
        let mut z = comp(&c.m, &x)?.bytes;
        let mut t = if c.again { z.clone() } else { vec![] };
        t.extend(c.t.bytes());
        z.extend_from_slice(&t);
        obs.nontrivial = !x.is_empty() && !t.is_empty();
        obs.label(c.m.name());
        obs.runs += 2;
        let y = expand_ok(&c.m, &z, x.len())?;
        same(&format!("{} expansion with {} trailing bytes", c.m.name(), t.len()), &y.bytes, &x, 0)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    pub m: Method,
    pub d: Data,
    pub expand: bool,
    /// which stream fails
    pub reader: bool,
    pub sticky: bool,
    pub zero: bool,
    pub kind: u8,
    pub seed: u64,
    /// length of each transfer, so that there are many calls
    pub chunk: u16,
}
const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::ConnectionReset,
    ErrorKind::StorageFull,
];
/// moves at most so many bytes per call
struct Slow<T>(T, usize);
impl<T: std::io::Read> std::io::Read for Slow<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}
impl<T: std::io::Write> std::io::Write for Slow<T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
impl<T: std::io::Seek> std::io::Seek for Slow<T> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}
pub struct C18;
impl C18 {
    /// run with a fault at call `at` of the chosen stream; (number of calls, where the fault hit, result)
    fn once(c: &FaultCase, input: &[u8], at: u64, max: usize) -> Result<(u64, Option<&'static str>, Result<(u64, u64), DynErr>), String> {
        let hit = Rc::new(Cell::new(None));
        let kind = KINDS[c.kind as usize % KINDS.len()];
        let quiet = Rc::new(Cell::new(None));
        let chunk = (c.chunk as usize).max(1);
        let mut r = Fault {
            t: Slow(Cursor::new(input), chunk),
            at: if c.reader { at } else { u64::MAX },
            n: 0,
            sticky: c.sticky,
            kind,
            delivered: if c.reader { hit.clone() } else { quiet.clone() },
            zero: false,
        };
        let mut w = Fault {
            t: Slow(Cap::new(vec![], max), chunk),
            at: if c.reader { u64::MAX } else { at },
            n: 0,
            sticky: c.sticky,
            kind,
            delivered: if c.reader { quiet } else { hit.clone() },
            zero: c.zero,
        };
        let res = guard(&format!("{} panicked on a fault at call {at} of the {}", c.m.name(), if c.reader { "reader" } else { "writer" }), || {
            if c.expand {
                c.m.expand(&mut r, &mut w)
            } else {
                c.m.compress(&mut r, &mut w)
            }
        })?;
        Ok((if c.reader { r.n } else { w.n }, hit.get(), res))
    }
}
impl Prop for C18 {
    type Case = FaultCase;
    const ID: &'static str = "C18";
    const RULE: &'static str = "case = method, direction, data, failing stream (reader or writer), error kind, single or lasting fault, transfer size; the number of stream calls is measured and a fault is injected at the first 40, the last 20 and 60 other calls (all of them if there are fewer); non-trivial = at least one fault was delivered";
    const QUICK: u32 = 4000;
    const ASSUMPTIONS: &'static [&'static str] = &["faults are neither Interrupted (to be retried) nor UnexpectedEof (end of data)"];
    fn strategy(&self) -> BoxedStrategy<FaultCase> {
        let d = prop_oneof![20 => data::tiny(), 30 => data::small(), 3 => vec(data::seg(9000), 1..3).prop_map(Data)];
        (
            (method(), d, any::<bool>(), any::<bool>(), any::<bool>()),
            (prop::bool::weighted(0.2), any::<u8>(), any::<u64>(), prop_oneof![3 => Just(u16::MAX), 2 => 1u16..64, 1 => any::<u16>()]),
        )
            .prop_map(|((m, d, expand, reader, sticky), (zero, kind, seed, chunk))| FaultCase { m, d, expand, reader, sticky, zero, kind, seed, chunk })
            .boxed()
    }
    fn fixed(&self) -> Vec<FaultCase> {
        let mut v = Vec::new();
        let ms = [
            Method::Lzss(LzssO::std()),
            Method::Lzss(LzssO { header: false, ..LzssO::std() }),
            Method::Port,
            Method::Lzw(LzwO::std()),
            Method::Lzw(LzwO { chunk_size: 5, ..LzwO::td() }),
            Method::Td0([0, 0, 15, 0, 0, 0, 0, 0]),
            Method::Td0([0, 0, 21, 0, 0, 0, 0, 0]),
        ];
        for m in ms {
            for d in [Data::lit(b""), Data::lit(b"x"), Data::lit(b"I am Sam. Sam I am. I do not like this Sam I am.\n"), Data(vec![data::Seg::Words { n: 3000, seed: 1, vocab: 50 }])] {
                for expand in [false, true] {
                    for reader in [false, true] {
                        for (sticky, zero) in [(false, false), (true, false), (true, true)] {
                            for chunk in [u16::MAX, 100] {
                                v.push(FaultCase { m: m.clone(), d: d.clone(), expand, reader, sticky, zero, kind: v.len() as u8, seed: 3, chunk });
                            }
                        }
                    }
                }
            }
        }
        v
    }
    fn check(&self, c: &FaultCase, obs: &mut Obs) -> Chk {
        let x = c.m.plain(&c.d);
        let input = if c.expand { comp(&c.m, &x)?.bytes } else { x };
        let max = 100 * input.len() + 1_000_000;
        let (n, _, r) = Self::once(c, &input, u64::MAX, max)?;
        if let Err(e) = r {
            return Err(format!("{} failed without a fault: {e}", c.m.name()));
        }
        let mut m = Mix(c.seed);
        let big = input.len() > 2000;
        let (a, b, k) = if big { (10, 8, 10) } else { (40, 20, 60) };
        let mut ats: Vec<u64> = (0..n.min(a)).chain(n.saturating_sub(b)..n).collect();
        if n > 0 {
            ats.extend((0..k).map(|_| m.next() % n));
        }
        ats.sort();
        ats.dedup();
        obs.label(format!("{} {}", c.m.name(), if c.expand { "expand" } else { "compress" }));
        for at in ats {
            let (_, hit, r) = Self::once(c, &input, at, max)?;
            obs.runs += 1;
            if let Some(what) = hit {
                obs.nontrivial = true;
                if r.is_ok() {
                    return Err(format!(
                        "{} {}: fault at call {at} of {n} ({what} of the {}) was reported as success",
                        c.m.name(),
                        if c.expand { "expand" } else { "compress" },
                        if c.reader { "reader" } else { "writer" }
                    ));
                }
            }
        }
        Ok(())
    }
}
