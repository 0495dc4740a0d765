//! C17, C19, C20, C21, C25: limits, delivery, offsets, sizes, independence of calls
use super::*;
use super::robust::Mut;
use crate::data::{self, Data, Mix};
use crate::dict;
use crate::driver::{Chk, Obs, Prop};
use crate::toks::CSeg;
use crate::io::{Chunky, Far, Sched, Virtual};
use crate::opts::{method, td_image, LzssO, LzwO, Res};
use proptest::collection::vec;
use proptest::prelude::*;
use retrocompressor::{lzss_huff, lzw, td0};
use serde::{Deserialize, Serialize};
use std::io::{Read, Seek, SeekFrom, Write};

/// the calls with offsets and limit
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Off {
    Lzss(LzssO),
    Lzw(LzwO),
    /// these two have no offsets
    Td0([u8; 8]),
    Port,
}
impl Off {
    fn call<R: Read + Seek, W: Write + Seek>(&self, expand: bool, r: &mut R, w: &mut W, in_off: u64, out_off: u64, limit: Option<u64>) -> Res {
        match self {
            Off::Lzss(o) => {
                let mut p = o.opt();
                p.in_offset = in_off;
                p.out_offset = out_off;
                if let Some(l) = limit {
                    p.max_file_size = l;
                }
                if expand {
                    lzss_huff::expand(r, w, &p)
                } else {
                    lzss_huff::compress(r, w, &p)
                }
            }
            Off::Lzw(o) => {
                let mut p = o.opt();
                p.in_offset = in_off;
                p.out_offset = out_off;
                if let Some(l) = limit {
                    p.max_file_size = l;
                }
                if expand {
                    lzw::expand(r, w, &p)
                } else {
                    lzw::compress(r, w, &p)
                }
            }
            Off::Td0(_) | Off::Port if expand => self.method().expand(r, w),
            Off::Td0(_) | Off::Port => self.method().compress(r, w),
        }
    }
    fn method(&self) -> Method {
        match self {
            Off::Lzss(o) => Method::Lzss(o.clone()),
            Off::Lzw(o) => Method::Lzw(o.clone()),
            Off::Td0(h) => Method::Td0(*h),
            Off::Port => Method::Port,
        }
    }
}
fn off() -> BoxedStrategy<Off> {
    prop_oneof![
        1 => crate::opts::lzss_opts().prop_map(Off::Lzss),
        1 => crate::opts::lzw_opts().prop_map(Off::Lzw),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LimitCase {
    /// real data, limit is the length plus delta (saturating)
    Real {
        m: Off,
        d: Data,
        expand: bool,
        in_off: u16,
        delta: i32,
        /// this limit instead
        #[serde(default)]
        limit: Option<u64>,
    },
    /// virtual file, any length and limit
    Virt { m: Off, expand: bool, in_off: u64, limit: u64, over: u64, below: u64 },
    /// default limit of lzss_huff and lzw, length is the limit plus delta
    Default { lzw: bool, expand: bool, delta: i64 },
    /// TD0, length of the body is 3000000 plus delta
    Td { ver: u8, expand: bool, delta: i64 },
    /// TD0 with a real body of 3000000 plus delta
    TdReal { ver: u8, delta: i32 },
    /// compression with a 32-bit length, which is 2^32-1 plus delta, within any limit
    Header { lzss: Option<LzssO>, delta: i64 },
}
pub struct C17;
impl Prop for C17 {
    type Case = LimitCase;
    const ID: &'static str = "C17";
    const RULE: &'static str = "case = method, direction, input offset, limit and a real or virtual input whose length is at, just above, just below or far from the limit; default limits and TD0 included; non-trivial = length within 2 of the limit";
    const QUICK: u32 = 30000;
    const THOROUGH: u32 = 10;
    fn strategy(&self) -> BoxedStrategy<LimitCase> {
        let delta = prop_oneof![6 => -2i32..=2, 1 => -5000i32..5000];
        let far = prop_oneof![Just(1u64), Just(2), 1u64..1000, any::<u32>().prop_map(|x| x as u64 + 1), Just(1 << 40)];
        let top = prop_oneof![
            2 => Just(u64::MAX),
            1 => (0u64..1000).prop_map(|x| u64::MAX - x),
            2 => (prop::sample::select(vec![15u32, 16, 31, 32, 33, 48, 62, 63]), 0u64..200, any::<bool>()).prop_map(|(k, d, up)| if up { (1 << k) + d } else { (1 << k) - d }),
        ];
        let dl = prop_oneof![3 => -2i64..=2, 1 => -1_000_000_000i64..(1 << 40)];
        let dt = prop_oneof![3 => -2i64..=2, 1 => -2_999_000i64..(1 << 40)];
        prop_oneof![
            10 => (off(), data::data_small(), any::<bool>(), prop_oneof![3 => Just(0u16), 3 => 0u16..300, 1 => dict::num(300).prop_map(|x| x as u16)], delta, prop_oneof![5 => Just(None), 1 => top.clone().prop_map(Some)]).prop_map(|(m,d,expand,in_off,delta,limit)| LimitCase::Real{m,d,expand,in_off,delta,limit}),
            6 => (off(), any::<bool>(), prop_oneof![Just(0u64), 0u64..10000, Just(1<<33)], prop_oneof![3 => 0u64..10, 3 => any::<u32>().prop_map(|x| x as u64), 3 => Just(1<<35), 1 => dict::num(1 << 40), 1 => top], far.clone(), prop_oneof![Just(0u64), Just(1), far])
                .prop_map(|(m,expand,in_off,limit,over,below)| LimitCase::Virt{m,expand,in_off,limit,over,below}),
            2 => (any::<bool>(), any::<bool>(), dl).prop_map(|(lzw,expand,delta)| LimitCase::Default{lzw,expand,delta}),
            3 => (any::<u8>(), any::<bool>(), dt).prop_map(|(ver,expand,delta)| LimitCase::Td{ver,expand,delta}),
        ]
        .boxed()
    }
    fn fixed(&self) -> Vec<LimitCase> {
        let mut v = vec![];
        for expand in [false, true] {
            for delta in -3..=3 {
                for lzw in [false, true] {
                    v.push(LimitCase::Default { lzw, expand, delta });
                }
                for ver in [0u8, 15, 19, 20, 21, 255] {
                    v.push(LimitCase::Td { ver, expand, delta });
                }
            }
        }
        for delta in [-2_000_000_000, -2, -1, 0, 1, 2, 1 << 32, 1 << 40] {
            v.push(LimitCase::Header { lzss: None, delta });
            v.push(LimitCase::Header { lzss: Some(LzssO::std()), delta });
            v.push(LimitCase::Header { lzss: Some(LzssO { window: 256, lookahead: 18, ..LzssO::std() }), delta });
        }
        for (ver, delta) in [(15, 0), (21, 0), (15, 1), (21, 1), (15, -1), (21, -1)] {
            v.push(LimitCase::TdReal { ver, delta });
        }
        v
    }
    fn check(&self, c: &LimitCase, obs: &mut Obs) -> Chk {
        // judge a result by the rule
        fn judge(what: &str, over: bool, strict_ok: bool, r: Res, touched: Option<bool>) -> Chk {
            match (over, r) {
                (true, Ok(_)) => Err(format!("{what}: larger than the limit, but accepted")),
                (true, Err(e)) if kind(&e) != "FileTooLarge" => Err(format!("{what}: larger than the limit, but the error is {} ({e})", kind(&e))),
                (true, Err(_)) if touched == Some(true) => Err(format!("{what}: rejected for its size, but something was written")),
                (false, Err(e)) if kind(&e) == "FileTooLarge" => Err(format!("{what}: not larger than the limit, but rejected as too large")),
                (false, Err(e)) if strict_ok => Err(format!("{what}: within the limit, but failed: {e}")),
                _ => Ok(()),
            }
        }
        match c {
            LimitCase::Real { m, d, expand, in_off, delta, limit } => {
                let x = m.method().plain(d);
                let max = 64 * x.len() + 4_000_000;
                let input = if *expand { comp(&m.method(), &x)?.bytes } else { x };
                let limit = limit.unwrap_or((input.len() as i64 + *delta as i64).max(0) as u64);
                let file = [vec![0xA5u8; *in_off as usize], input.clone()].concat();
                let mut w = Cap::new(vec![7; 5], max);
                obs.nontrivial = limit.abs_diff(input.len() as u64) <= 2;
                obs.label(if input.len() as u64 > limit { "real, over" } else { "real, within" });
                obs.runs += 1;
                let r = guard("panicked", || m.call(*expand, &mut Cursor::new(&file), &mut w, *in_off as u64, 0, Some(limit)))?;
                let touched = w.writes > 0 || *w.c.get_ref() != [7; 5];
                judge(&format!("{} bytes after offset {in_off}, limit {limit}", input.len()), input.len() as u64 > limit, true, r, Some(touched))
            }
            LimitCase::Header { lzss, delta } => {
                let len = (u32::MAX as i64 + delta) as u64;
                // the port may refuse the greatest length
                if lzss.is_none() && *delta == 0 {
                    return Ok(());
                }
                let mut r = Virtual { head: vec![], len, pos: 0 };
                let mut w = Cap::new(vec![], 1_000_000);
                obs.nontrivial = delta.abs() <= 2;
                obs.label("32-bit length");
                obs.runs += 1;
                let res = guard("panicked", || match lzss {
                    Some(o) => lzss_huff::compress(&mut r, &mut w, &lzss_huff::Options { max_file_size: u64::MAX, ..o.opt() }),
                    None => retrocompressor::direct_ports::lzhuf::encode(&mut r, &mut w),
                })?;
                judge(&format!("virtual file of {len} bytes, no limit but the 32-bit length"), *delta > 0, false, res, Some(w.writes > 0))
            }
            LimitCase::Virt { m, expand, in_off, limit, over, below } => {
                // the length header has a limit of its own
                let limit = &match m {
                    Off::Lzss(o) if o.header && !*expand => (*limit).min(u32::MAX as u64),
                    _ => *limit,
                };
                for (len, is_over) in [(limit.saturating_add(*over), true), (limit.saturating_sub(*below), false), (5000.min(*limit), false)] {
                    // no file is that long
                    if len > i64::MAX as u64 - in_off {
                        continue;
                    }
                    let mut r = Virtual { head: vec![], len: len + in_off, pos: 0 };
                    let mut w = Cap::new(vec![7; 5], 1_000_000);
                    obs.nontrivial |= len.abs_diff(*limit) <= 2;
                    obs.runs += 1;
                    let res = guard("panicked", || m.call(*expand, &mut r, &mut w, *in_off, 0, Some(*limit)))?;
                    let touched = w.writes > 0 || *w.c.get_ref() != [7; 5];
                    judge(&format!("virtual file of {len} bytes after offset {in_off}, limit {limit}"), is_over, false, res, Some(touched))?;
                }
                obs.label("virtual");
                Ok(())
            }
            LimitCase::Default { lzw: is_lzw, expand, delta } => {
                let limit = u32::MAX as u64 / 4;
                let len = (limit as i64 + delta).max(0) as u64;
                let mut r = Virtual { head: vec![], len, pos: 0 };
                let mut w = Cap::new(vec![], 1_000_000);
                obs.nontrivial = delta.abs() <= 2;
                obs.label("default limit");
                obs.runs += 1;
                let res = guard("panicked", || match (*is_lzw, *expand) {
                    (false, false) => lzss_huff::compress(&mut r, &mut w, &lzss_huff::STD_OPTIONS),
                    (false, true) => lzss_huff::expand(&mut r, &mut w, &lzss_huff::STD_OPTIONS),
                    (true, false) => lzw::compress(&mut r, &mut w, &lzw::STD_OPTIONS),
                    (true, true) => lzw::expand(&mut r, &mut w, &lzw::STD_OPTIONS),
                })?;
                let touched = w.writes > 0;
                judge(&format!("virtual file of {len} bytes, default limit"), len > limit, false, res, Some(touched))
            }
            LimitCase::Td { ver, expand, delta } => {
                let limit = 3_000_000u64;
                let len = (limit as i64 + delta).max(0) as u64;
                let h = [1, 2, *ver, 3, 4, 5, 6, 7];
                let mut r = Virtual { head: td_image(&h, if *expand { b"td" } else { b"TD" }, b""), len: len + 12, pos: 0 };
                let mut w = Cap::new(vec![], 1_000_000);
                obs.nontrivial = delta.abs() <= 2;
                obs.label("td0 limit");
                obs.runs += 1;
                let res = guard("panicked", || if *expand { td0::expand(&mut r, &mut w) } else { td0::compress(&mut r, &mut w) })?;
                judge(&format!("virtual TD0 image with {len} bytes after the header, version {ver}"), len > limit, false, res, None)
            }
            LimitCase::TdReal { ver, delta } => {
                let n = (3_000_000i64 + *delta as i64) as usize;
                let h = [1, 2, *ver, 3, 4, 5, 6, 7];
                let img = td_image(&h, b"TD", &vec![0xE5u8; n]);
                let mut w = Cap::new(vec![], 20_000_000);
                obs.nontrivial = true;
                obs.label("td0 limit, real");
                obs.runs += 1;
                let res = guard("panicked", || td0::compress(&mut Cursor::new(&img), &mut w))?;
                judge(&format!("TD0 image with {n} bytes after the header, version {ver}"), n > 3_000_000, true, res, None)
            }
        }
    }
}

/// damage a stream, but not the header of an image or the declared length of the port
fn damage(m: &Method, z: &mut Vec<u8>, muts: &[Mut]) {
    let lo = match m {
        Method::Port => 4,
        Method::Td0(_) => 12,
        _ => 0,
    };
    for x in muts {
        super::robust::mutate(z, x, lo);
    }
}
/// what a call without anything special about the streams does, for a damaged stream also the error
fn reference(m: &Method, expand: bool, input: &[u8], len: usize, damaged: bool) -> Result<Option<Result<Out, &'static str>>, String> {
    if !damaged {
        return Ok(Some(Ok(if expand { expand_ok(m, input, len)? } else { comp(m, input)? })));
    }
    Ok(match expand_any(m, input, super::robust::bound(m, input) + 1000)? {
        Ok(o) => Some(Ok(o)),
        // how much can come out is another matter
        Err((_, true)) => None,
        Err((e, false)) => Some(Err(kind(&e))),
    })
}
/// the same outcome as `plain`, true if that is a success
fn alike(what: &str, res: Res, plain: &Result<Out, &'static str>) -> Result<bool, String> {
    match (res, plain) {
        (Ok(s), Ok(p)) if s != p.sizes => Err(format!("{what}: sizes {s:?}, {:?} otherwise", p.sizes)),
        (Ok(_), Ok(_)) => Ok(true),
        (Err(e), Ok(_)) => Err(format!("{what} failed: {e}")),
        (Ok(_), Err(k)) => Err(format!("{what} succeeded, otherwise there is an error ({k})")),
        (Err(e), Err(k)) if kind(&e) != *k => Err(format!("{what} failed: {e}, otherwise there is another error ({k})")),
        (Err(_), Err(_)) => Ok(false),
    }
}
fn few_muts() -> BoxedStrategy<Vec<Mut>> {
    prop_oneof![3 => Just(vec![]), 1 => super::robust::muts()].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedCase {
    pub m: Method,
    pub d: Data,
    pub expand: bool,
    pub rs: Vec<u16>,
    pub ws: Vec<u16>,
    pub files: bool,
    /// expand these LZW codes instead
    #[serde(default)]
    pub codes: Option<Vec<CSeg>>,
    /// damage to the stream to expand
    #[serde(default)]
    pub muts: Vec<Mut>,
}
fn scratch() -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("RCVERIF_SCRATCH").expect("RCVERIF_SCRATCH is the scratch directory");
    let p = std::path::Path::new(&base).join(format!("s{}", N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).expect("scratch directory");
    p
}
/// a directory of its own that goes away
pub struct Dir(pub std::path::PathBuf);
impl Dir {
    pub fn new() -> Self {
        Dir(scratch())
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}
pub struct C19;
impl Prop for C19 {
    type Case = SchedCase;
    const ID: &'static str = "C19";
    const RULE: &'static str = "case = method, direction, data, cyclic schedules of transfer sizes for reader and writer (0 = interrupted call), compared with plain memory streams, the slice function and sometimes real files; a quarter of the streams to expand damaged, then the error has to be the same; fixed: also LZW strings longer than 8192 bytes; non-trivial = a short or interrupted transfer happened";
    const QUICK: u32 = 16000;
    fn strategy(&self) -> BoxedStrategy<SchedCase> {
        let s = || {
            prop_oneof![
                1 => Just(vec![]),
                2 => Just(vec![1u16]),
                2 => Just(vec![0u16, 1]),
                5 => vec(prop_oneof![2 => Just(0u16), 3 => Just(1u16), 3 => 1u16..8, 2 => 1u16..700, 1 => 8000u16..8300], 1..10),
            ]
        };
        (method(), prop_oneof![30 => data::tiny(), 50 => data::small(), 20 => data::medium()], any::<bool>(), s(), s(), prop::bool::weighted(0.15), few_muts())
            .prop_map(|(m, d, expand, rs, ws, files, muts)| SchedCase { m, d, expand, rs, ws, files, codes: None, muts })
            .boxed()
    }
    fn fixed(&self) -> Vec<SchedCase> {
        let mut v = Vec::new();
        let ms = [
            Method::Lzss(LzssO::std()),
            Method::Lzss(LzssO { header: false, ..LzssO::std() }),
            Method::Port,
            Method::Lzw(LzwO::std()),
            Method::Lzw(LzwO { chunk_size: 100, ..LzwO::td() }),
            Method::Td0([0, 0, 15, 0, 0, 0, 0, 0]),
            Method::Td0([0, 0, 21, 0, 0, 0, 0, 0]),
        ];
        for m in ms {
            for expand in [false, true] {
                for d in [Data::lit(b""), Data::lit(b"I am Sam. Sam I am. I do not like this Sam I am.\n"), Data(vec![data::Seg::Words { n: 2500, seed: 1, vocab: 300 }]), Data(vec![data::Seg::Rand { n: 20000, seed: 1, alpha: 256, base: 0 }])] {
                    for (rs, ws) in [(vec![1], vec![1]), (vec![0, 1], vec![0, 1]), (vec![0, 3, 0, 5], vec![]), (vec![], vec![0, 2, 7, 0, 0]), (vec![8191], vec![8191]), (vec![0], vec![0])] {
                        v.push(SchedCase { m: m.clone(), d: d.clone(), expand, rs, ws, files: true, codes: None, muts: vec![] });
                    }
                }
            }
        }
        // strings of the LZW table that are longer than the usual buffers
        for (ws, n) in [(vec![5000u16], 8196), (vec![0, 8192, 1, 20000], 8210)] {
            let m = Method::Lzw(LzwO { width: 15, chunk_size: 1 << 20, ..LzwO::std() });
            let codes = Some(vec![CSeg { n, seed: 4, w: [0, 0, 1, 0], alpha: 256 }]);
            v.push(SchedCase { m, d: Data::lit(b""), expand: true, rs: vec![], ws, files: false, codes, muts: vec![] });
        }
        v
    }
    fn check(&self, c: &SchedCase, obs: &mut Obs) -> Chk {
        let x = c.m.plain(&c.d);
        let (mut input, len) = match (&c.codes, &c.m) {
            (Some(s), Method::Lzw(o)) => {
                let b = super::lzw::build(&super::lzw::CodeCase { o: o.clone(), c: s.clone() }, 40_000_000);
                (crate::refs::lzw::pack(&b.chunks, &o.l()), b.out.len())
            }
            _ if c.expand => (comp(&c.m, &x)?.bytes, x.len()),
            _ => (x.clone(), x.len()),
        };
        let damaged = c.expand && !c.muts.is_empty();
        if damaged {
            damage(&c.m, &mut input, &c.muts);
        }
        let Some(plain) = reference(&c.m, c.expand, &input, len, damaged)? else { return Ok(()) };
        let cap = 100_000 + match &plain {
            Ok(p) => p.bytes.len(),
            Err(_) => super::robust::bound(&c.m, &input),
        };
        let mut r = Chunky { t: Cursor::new(&input), sched: Sched::new(&c.rs) };
        let mut w = Chunky { t: Cap::new(vec![], cap), sched: Sched::new(&c.ws) };
        let dir = if c.expand { "expand" } else { "compress" };
        let res = guard(&format!("{} {dir} panicked", c.m.name()), || if c.expand { c.m.expand(&mut r, &mut w) } else { c.m.compress(&mut r, &mut w) })?;
        obs.runs += 3;
        for (n, l) in [(r.sched.short, "short reads"), (r.sched.interrupted, "interrupted reads"), (w.sched.short, "short writes"), (w.sched.interrupted, "interrupted writes")] {
            if n > 0 {
                obs.label(l);
                obs.nontrivial = true;
            }
        }
        obs.label(format!("{} {dir}", c.m.name()));
        if damaged {
            obs.label(if plain.is_ok() { "damaged stream, success" } else { "damaged stream, error" });
        }
        let bytes = plain.as_ref().map_or(&[][..], |p| &p.bytes[..]);
        let what = format!("{} {dir} with short and interrupted transfers", c.m.name());
        if alike(&what, res, &plain)? {
            same(&what, w.t.c.get_ref(), bytes, 0)?;
        }
        let s = guard(&format!("{} {dir} slice function panicked", c.m.name()), || if c.expand { c.m.expand_slice(&input) } else { c.m.compress_slice(&input) })?;
        let what = format!("{} {dir} slice function", c.m.name());
        let (res, s) = match s {
            Ok(s) => (Ok(plain.as_ref().map_or((0, 0), |p| p.sizes)), s),
            Err(e) => (Err(e), vec![]),
        };
        if alike(&what, res, &plain)? {
            same(&what, &s, bytes, 0)?;
        }
        if c.files {
            obs.label("files");
            let d = Dir::new();
            let (pi, po) = (d.0.join("in"), d.0.join("out"));
            std::fs::write(&pi, &input).expect("scratch");
            let mut fi = std::fs::File::open(&pi).expect("scratch");
            let mut fo = std::fs::File::create(&po).expect("scratch");
            let res = guard(&format!("{} {dir} with files panicked", c.m.name()), || if c.expand { c.m.expand(&mut fi, &mut fo) } else { c.m.compress(&mut fi, &mut fo) })?;
            drop(fo);
            let got = std::fs::read(&po).expect("scratch");
            obs.runs += 1;
            let what = format!("{} {dir} with files", c.m.name());
            if alike(&what, res, &plain)? {
                same(&what, &got, bytes, 0)?;
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OffCase {
    pub m: Off,
    pub d: Data,
    pub expand: bool,
    pub before: Data,
    pub pre: Data,
    pub out_off: u16,
    /// where the streams stand when they are handed over
    #[serde(default)]
    pub at: (u16, u16),
    /// both streams begin with so many bytes more, that are not really there
    #[serde(default)]
    pub far: u64,
    /// damage to the stream to expand
    #[serde(default)]
    pub muts: Vec<Mut>,
}
/// around the limits of 16, 31, 32 and more bits
fn far() -> BoxedStrategy<u64> {
    prop_oneof![
        6 => Just(0u64),
        1 => dict::num(1 << 40),
        1 => (prop::sample::select(vec![16u32, 31, 32, 33, 40, 48, 62]), 0u64..300, any::<bool>()).prop_map(|(k, d, up)| if up { (1 << k) + d } else { (1 << k) - d }),
    ]
    .boxed()
}
pub struct C20;
impl Prop for C20 {
    type Case = OffCase;
    const ID: &'static str = "C20";
    const RULE: &'static str = "case = method with offsets, direction, data, bytes before the input offset, existing output content, output offset within or behind it; a quarter of the streams to expand damaged; initial positions of both streams, TD0 and the port by positions only, sometimes all of it beyond 2^16 to 2^62 virtual bytes; compared with zero offsets; non-trivial = an offset is not zero and data is not empty";
    const QUICK: u32 = 24000;
    fn strategy(&self) -> BoxedStrategy<OffCase> {
        let m = prop_oneof![8 => off(), 1 => crate::opts::td_header().prop_map(Off::Td0), 1 => Just(Off::Port)];
        (m, prop_oneof![30 => data::tiny(), 50 => data::small(), 10 => data::medium()], any::<bool>(), data::data_small(), data::tiny(), prop_oneof![3 => 0u16..80, 1 => Just(12), 1 => Just(0), 1 => 0u16..10000, 1 => dict::num(10000).prop_map(|x| x as u16)], prop_oneof![3 => Just((0u16, 0u16)), 2 => (0u16..30, 0u16..30), 1 => (0u16..3000, 0u16..3000)], (far(), few_muts()))
            .prop_map(|(m, d, expand, before, pre, out_off, at, (far, muts))| OffCase { m, d, expand, before, pre, out_off, at, far, muts })
            .boxed()
    }
    fn fixed(&self) -> Vec<OffCase> {
        let mut v = Vec::new();
        for m in [Off::Lzss(LzssO::std()), Off::Lzss(LzssO { header: false, ..LzssO::std() }), Off::Lzw(LzwO::std()), Off::Lzw(LzwO { chunk_size: 10, ..LzwO::td() }), Off::Td0([0, 0, 15, 0, 0, 0, 0, 0]), Off::Td0([0, 0, 21, 0, 0, 0, 0, 0]), Off::Port] {
            for d in data::classics().into_iter().take(60) {
                for expand in [false, true] {
                    v.push(OffCase { m: m.clone(), d: d.clone(), expand, before: Data::lit(b"0123456789ab"), pre: Data::lit(b"TD0123456789"), out_off: 12, at: (0, 0), far: 0, muts: vec![] });
                    v.push(OffCase { m: m.clone(), d: d.clone(), expand, before: Data::lit(b"x"), pre: Data::lit(&[9; 70]), out_off: 69, at: (0, 0), far: 0, muts: vec![] });
                    for at in [(5, 7), (0, 12), (12, 0), (200, 200)] {
                        v.push(OffCase { m: m.clone(), d: d.clone(), expand, before: Data::lit(b""), pre: Data::lit(&[9; 70]), out_off: 0, at, far: 0, muts: vec![] });
                        v.push(OffCase { m: m.clone(), d: d.clone(), expand, before: Data::lit(b"0123456789ab"), pre: Data::lit(&[9; 20]), out_off: 12, at, far: 0, muts: vec![] });
                    }
                    for far in [(1u64 << 31) - 13, (1 << 32) - 12, 1 << 32, (1 << 33) + 5] {
                        v.push(OffCase { m: m.clone(), d: d.clone(), expand, before: Data::lit(b"0123456789ab"), pre: Data::lit(&[9; 20]), out_off: 12, at: (0, 0), far, muts: vec![] });
                    }
                }
            }
        }
        v
    }
    fn check(&self, c: &OffCase, obs: &mut Obs) -> Chk {
        let mut c = c.clone();
        let mut at = (c.at.0 as u64, c.at.1 as u64);
        match c.m {
            // from the start to the start
            Off::Td0(_) => {
                c.before = Data(vec![]);
                c.out_off = 0;
                c.far = 0;
            }
            // encodes all of the input, decodes from where it stands, writes where the output stands
            Off::Port => {
                at.1 = c.out_off as u64;
                if c.expand {
                    at.0 = c.before.bytes().len() as u64;
                } else {
                    c.before = Data(vec![]);
                    c.far = 0;
                }
            }
            _ => {}
        }
        let m = c.m.method();
        let x = m.plain(&c.d);
        let mut input = if c.expand { comp(&m, &x)?.bytes } else { x.clone() };
        let damaged = c.expand && !c.muts.is_empty();
        if damaged {
            damage(&m, &mut input, &c.muts);
        }
        let Some(alone) = reference(&m, c.expand, &input, x.len(), damaged)? else { return Ok(()) };
        let max = match &alone {
            Ok(o) => o.bytes.len(),
            Err(_) => super::robust::bound(&m, &input),
        };
        let before = c.before.bytes();
        let file = [before.clone(), input.clone()].concat();
        let pre = c.pre.bytes();
        let off = c.out_off as usize;
        let w = Cap::new(pre.clone(), off + pre.len() + max + 100_000);
        let dir = if c.expand { "expand" } else { "compress" };
        let what = format!("{} {dir}, offsets {} + {} and {} + {off}, streams initially at {} and {}", m.name(), c.far, before.len(), c.far, at.0, at.1);
        let mut rd = Far::new(Cursor::new(&file), c.far, c.far + at.0);
        let mut w = Far::new(w, c.far, c.far + at.1);
        if at != (0, 0) {
            obs.label("streams not at their start");
        }
        if c.far > 0 {
            obs.label("far offsets");
        }
        let r = guard(&format!("{what} panicked"), || c.m.call(c.expand, &mut rd, &mut w, c.far + before.len() as u64, c.far + off as u64, None))?;
        let w = w.t;
        obs.runs += 2;
        obs.nontrivial = !x.is_empty() && (off > 0 || !before.is_empty());
        obs.label(format!("{} {dir}", m.name()));
        obs.label(if off <= pre.len() { "output offset within content" } else { "output offset behind content" });
        if damaged {
            obs.label(if alone.is_ok() { "damaged stream, success" } else { "damaged stream, error" });
        }
        let success = alike(&what, r, &alone)?;
        let got = w.c.into_inner();
        let keep = off.min(pre.len());
        if got.len() < keep || got[..keep] != pre[..keep] {
            return Err(format!("{what}: bytes before the output offset changed"));
        }
        let Ok(alone) = alone else { return Ok(()) };
        if !success {
            return Ok(());
        }
        let end = off + alone.bytes.len();
        if got.len() < end && !alone.bytes.is_empty() {
            return Err(format!("{what}: {} bytes after the output offset, {} without offsets", got.len().saturating_sub(off), alone.bytes.len()));
        }
        if !alone.bytes.is_empty() {
            same(&what, &got[off..end], &alone.bytes, 0)?;
        }
        // nothing but old content behind
        let behind = if end < pre.len() { &pre[end..] } else { &[][..] };
        let rest = if end < got.len() { &got[end..] } else { &[][..] };
        if rest != behind && !(alone.bytes.is_empty() && rest.is_empty()) {
            return Err(format!("{what}: {} bytes behind the output are not what was there", rest.len()));
        }
        // beyond the end of the input (the options of LZSS do not allow it)
        if let (Method::Lzw(_), 0) = (&m, c.far) {
            for beyond in [1u64, 2, 5000, 1 << 32, i64::MAX as u64 - file.len() as u64, u64::MAX - file.len() as u64] {
                let mut w = Cap::new(pre.clone(), off + pre.len() + 100_000);
                let what = format!("{} {dir}, input of {} bytes, input offset {} beyond its end", m.name(), file.len(), beyond);
                let r = guard(&format!("{what} panicked"), || c.m.call(c.expand, &mut Cursor::new(&file), &mut w, file.len() as u64 + beyond, off as u64, None))?;
                match r {
                    Ok(s) => return Err(format!("{what}: success, sizes {s:?}")),
                    Err(e) if kind(&e) != "FileFormatMismatch" => return Err(format!("{what}: error {e} is not a format mismatch")),
                    Err(_) => {}
                }
                if w.c.get_ref() != &pre {
                    return Err(format!("{what}: the output was changed"));
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SizeCase {
    pub m: Method,
    pub d: Data,
    pub expand: bool,
    pub pre: Data,
    pub file: bool,
    /// damage to the stream to expand
    #[serde(default)]
    pub muts: Vec<Mut>,
}
pub struct C21;
impl Prop for C21 {
    type Case = SizeCase;
    const ID: &'static str = "C21";
    const RULE: &'static str = "case = method, direction, data, existing output content (memory or file), a quarter of the streams to expand damaged; compared with a run on an empty output; non-trivial = existing content is longer than the new output";
    const QUICK: u32 = 24000;
    fn strategy(&self) -> BoxedStrategy<SizeCase> {
        (method(), prop_oneof![30 => data::tiny(), 50 => data::small(), 10 => data::medium()], any::<bool>(), prop_oneof![1 => Just(Data(vec![])), 4 => data::data_small(), 2 => (any::<u64>(), 100usize..20000).prop_map(|(seed,n)| Data(vec![data::Seg::Rand{n,seed,alpha:256,base:0}]))], prop::bool::weighted(0.15), few_muts())
            .prop_map(|(m, d, expand, pre, file, muts)| SizeCase { m, d, expand, pre, file, muts })
            .boxed()
    }
    fn fixed(&self) -> Vec<SizeCase> {
        let mut v = Vec::new();
        let ms = [
            Method::Lzss(LzssO::std()),
            Method::Lzss(LzssO { header: false, ..LzssO::std() }),
            Method::Port,
            Method::Lzw(LzwO::std()),
            Method::Lzw(LzwO { chunk_size: 10, ..LzwO::td() }),
            Method::Td0([0, 0, 15, 0, 0, 0, 0, 0]),
            Method::Td0([0, 0, 21, 0, 0, 0, 0, 0]),
        ];
        for m in &ms[..4] {
            for expand in [false, true] {
                v.push(SizeCase { m: m.clone(), d: data::huge(), expand, pre: Data(vec![data::Seg::Run { b: 7, n: 17_000_000 }]), file: expand, muts: vec![] });
            }
        }
        for m in ms {
            for d in data::classics().into_iter().take(60) {
                for expand in [false, true] {
                    for n in [0usize, 1, 30, 3000] {
                        v.push(SizeCase { m: m.clone(), d: d.clone(), expand, pre: Data(vec![data::Seg::Rand { n, seed: 4, alpha: 256, base: 0 }]), file: n == 30, muts: vec![] });
                    }
                }
            }
        }
        v
    }
    fn check(&self, c: &SizeCase, obs: &mut Obs) -> Chk {
        let x = c.m.plain(&c.d);
        let mut input = if c.expand { comp(&c.m, &x)?.bytes } else { x.clone() };
        let damaged = c.expand && !c.muts.is_empty();
        if damaged {
            damage(&c.m, &mut input, &c.muts);
        }
        let Some(Ok(fresh)) = reference(&c.m, c.expand, &input, x.len(), damaged)? else { return Ok(()) };
        let dir = if c.expand { "expand" } else { "compress" };
        let what = format!("{} {dir}", c.m.name());
        // the port decoder counts what it reads, it does not see what is behind
        let all = if damaged && matches!(c.m, Method::Port) { fresh.sizes.0.min(input.len() as u64) } else { input.len() as u64 };
        let want = (all, fresh.bytes.len() as u64);
        if fresh.sizes != want {
            return Err(format!("{what} returned sizes {:?}, but {} bytes went in and {} came out", fresh.sizes, want.0, want.1));
        }
        let pre = c.pre.bytes();
        obs.runs += 2;
        obs.nontrivial = pre.len() > fresh.bytes.len();
        obs.label(what.clone());
        if obs.nontrivial {
            obs.label("over longer content");
        }
        let (sizes, got) = if c.file {
            obs.label("file");
            let d = Dir::new();
            let po = d.0.join("out");
            std::fs::write(&po, &pre).expect("scratch");
            let mut fo = std::fs::OpenOptions::new().write(true).open(&po).expect("scratch");
            let r = guard(&format!("{what} panicked"), || if c.expand { c.m.expand(&mut Cursor::new(&input), &mut fo) } else { c.m.compress(&mut Cursor::new(&input), &mut fo) })?;
            let s = r.map_err(|e| format!("{what} over a file failed: {e}"))?;
            drop(fo);
            (s, std::fs::read(&po).expect("scratch"))
        } else {
            let mut w = Cap::new(pre.clone(), fresh.bytes.len() + pre.len() + 100_000);
            let r = guard(&format!("{what} panicked"), || if c.expand { c.m.expand(&mut Cursor::new(&input), &mut w) } else { c.m.compress(&mut Cursor::new(&input), &mut w) })?;
            (r.map_err(|e| format!("{what} over existing content failed: {e}"))?, w.c.into_inner())
        };
        if sizes != want {
            return Err(format!("{what} over {} existing bytes returned sizes {sizes:?}, expected {want:?}", pre.len()));
        }
        let mut exp = fresh.bytes.clone();
        if pre.len() > exp.len() {
            exp.extend_from_slice(&pre[fresh.bytes.len()..]);
        }
        same(&format!("{what} over {} existing bytes", pre.len()), &got, &exp, 0)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub m: Method,
    pub d: Data,
    pub expand: bool,
    /// damage the input
    pub muts: Vec<super::robust::Mut>,
    /// fail while writing after so many bytes
    pub full_at: Option<u16>,
    /// use the convenience function for slices
    #[serde(default)]
    pub slice: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqCase {
    pub ops: Vec<Op>,
    pub order: Vec<u16>,
    pub threads: bool,
    /// then one of the calls so many times more
    #[serde(default)]
    pub many: u32,
}
#[derive(Serialize, Deserialize)]
struct Call {
    m: Method,
    expand: bool,
    input: Vec<u8>,
    full_at: Option<u16>,
    slice: bool,
}
#[derive(Serialize, Deserialize)]
struct Seq {
    calls: Vec<Call>,
    order: Vec<usize>,
    /// then one of them so many times
    many: (usize, u32),
    /// then also in so many threads at once, each in an order of its own
    threads: u64,
    /// seconds of processor time allowed
    budget: u64,
}
/// outcome in comparable form
fn run_call(c: &Call) -> String {
    if c.slice {
        return match guard("panicked", || if c.expand { c.m.expand_slice(&c.input) } else { c.m.compress_slice(&c.input) }) {
            Err(p) => format!("panic {p}"),
            Ok(Ok(v)) => format!("success, output of {} bytes with hash {:016x}", v.len(), crate::driver::hash_bytes(&v)),
            Ok(Err(e)) => format!("error {} {e}", kind(&e)),
        };
    }
    let cap = c.full_at.map(|x| x as usize).unwrap_or(64 * c.input.len() + 2_000_000);
    let mut w = Cap::new(vec![], cap);
    let r = guard("panicked", || if c.expand { c.m.expand(&mut Cursor::new(&c.input), &mut w) } else { c.m.compress(&mut Cursor::new(&c.input), &mut w) });
    match r {
        Err(p) => format!("panic {p}"),
        Ok(Ok(s)) => {
            let v = w.c.into_inner();
            format!("success, sizes {s:?}, output of {} bytes with hash {:016x}", v.len(), crate::driver::hash_bytes(&v))
        }
        Ok(Err(e)) => format!("error {} {e}", kind(&e)),
    }
}
/// the process that makes the calls: one list of outcomes for the sequence, then one per thread
pub fn seq_main() -> i32 {
    let s: Seq = serde_json::from_reader(std::io::stdin().lock()).expect("sequence");
    let budget = s.budget;
    std::thread::spawn(move || {
        while crate::driver::cpu_seconds("/proc/self/stat").unwrap_or(0) < budget {
            std::thread::sleep(std::time::Duration::from_millis(500));
        }
        std::process::exit(7);
    });
    let mut all = vec![s.order.iter().map(|i| (*i, run_call(&s.calls[*i]))).collect::<Vec<_>>()];
    for _ in 0..s.many.1 {
        let r = run_call(&s.calls[s.many.0]);
        // only changes are of interest
        if all[0].iter().rev().find(|x| x.0 == s.many.0).map_or(true, |x| x.1 != r) {
            all[0].push((s.many.0, r));
        }
    }
    let k = s.calls.len();
    let s = &s;
    let more: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..s.threads)
            .map(|t| {
                sc.spawn(move || {
                    let mut m = Mix(t);
                    (0..2 * k).map(|_| m.below(k)).map(|i| (i, run_call(&s.calls[i]))).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    all.extend(more);
    println!("{}", serde_json::to_string(&all).unwrap());
    0
}
fn in_process(s: &Seq) -> Result<Vec<Vec<(usize, String)>>, String> {
    use std::io::Write as _;
    use std::process::{Command, Stdio};
    static EXE: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    let exe = EXE.get_or_init(|| std::env::current_exe().expect("own path"));
    let mut p = Command::new(exe).arg("seq").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("start process");
    let _ = p.stdin.take().unwrap().write_all(&serde_json::to_vec(s).unwrap());
    let o = p.wait_with_output().expect("wait for process");
    match o.status.code() {
        Some(0) => Ok(serde_json::from_slice(&o.stdout).expect("outcomes")),
        Some(7) => Err(format!("no end within {} s of processor time", s.budget)),
        c => Err(format!("process ended with {c:?} ({})", o.status)),
    }
}
pub struct C25;
impl Prop for C25 {
    type Case = SeqCase;
    const ID: &'static str = "C25";
    const RULE: &'static str = "case = 2 to 8 calls over all methods (valid, damaged or running out of output space), some of them the same call with other options, each run once in a process of its own for its reference result, then all in one process in a generated order with repetitions, and in half the cases in 4 threads at once, in some also one of them hundreds of times (fixed: 70000 times); non-trivial = at least two different operations ran after each other";
    const QUICK: u32 = 4000;
    fn strategy(&self) -> BoxedStrategy<SeqCase> {
        let op = (method(), prop_oneof![40 => data::tiny(), 50 => data::small(), 3 => vec(data::seg(8000), 1..3).prop_map(Data)], any::<bool>(), prop_oneof![3 => Just(vec![]), 1 => super::robust::muts()], prop_oneof![4 => Just(None), 1 => (0u16..500).prop_map(Some)], any::<bool>())
            .prop_map(|(m, d, expand, muts, full_at, slice)| Op { m, d, expand, slice: slice && muts.is_empty() && full_at.is_none(), muts, full_at });
        // calls that differ from another in the options, the direction or little of the data only
        let kin = (any::<u16>(), method(), any::<u8>(), any::<u32>());
        (vec(op, 1..5), vec(kin, 1..4), vec(any::<u16>(), 2..20), any::<bool>(), prop_oneof![18 => Just(0), 2 => 0u32..1500, 1 => dict::num(1500).prop_map(|x| x as u32)])
            .prop_map(|(mut ops, kin, mut order, threads, many)| {
                for (i, m, k, w) in kin {
                    let base = i as usize % ops.len();
                    // one right after the other
                    order.extend([base as u16, ops.len() as u16, base as u16]);
                    let mut x: Op = ops[base].clone();
                    match k % 8 {
                        0 | 1 => x.expand = !x.expand,
                        2 if k & 8 != 0 => {
                            x.full_at = Some(k as u16);
                            x.slice = false;
                        }
                        2 => {
                            x.slice = !x.slice && x.muts.is_empty();
                            x.full_at = None;
                        }
                        // or in little of the data
                        3 => x.d.0.push(data::Seg::Swap { i: w, j: w >> 8 }),
                        4 => x.d.0.push(data::Seg::Edit { i: w, x: k | 1 }),
                        // or in one option only
                        5 => match &mut x.m {
                            Method::Lzss(o) if w & 1 == 0 => o.precursor = w.to_le_bytes()[1],
                            Method::Lzss(o) => o.header = !o.header,
                            Method::Lzw(o) => o.msb = !o.msb,
                            _ => x.m = m,
                        },
                        _ => x.m = m,
                    }
                    ops.push(x);
                }
                SeqCase { ops, order, threads, many }
            })
            .boxed()
    }
    fn fixed(&self) -> Vec<SeqCase> {
        // more calls than 16 bits count
        let mut d = data::classics().into_iter().find(|d| d.bytes().len() > 20).unwrap();
        d.0.insert(0, data::Seg::Run { b: b' ', n: 70 });
        d.0.push(data::Seg::Rand { n: 40, seed: 3, alpha: 256, base: 0 });
        d.0.push(data::Seg::Run { b: 0, n: 100 });
        let ms = [
            Method::Lzss(LzssO::std()),
            Method::Lzss(LzssO { header: false, ..LzssO::std() }),
            Method::Port,
            Method::Lzw(LzwO::std()),
            Method::Lzw(LzwO { chunk_size: 30, ..LzwO::td() }),
            Method::Td0([0, 0, 15, 0, 0, 0, 0, 0]),
            Method::Td0([0, 0, 21, 0, 0, 0, 0, 0]),
        ];
        let mut v = Vec::new();
        for m in ms {
            for expand in [false, true] {
                v.push(SeqCase { ops: vec![Op { m: m.clone(), d: d.clone(), expand, muts: vec![], full_at: None, slice: false }], order: vec![], threads: false, many: 70_000 });
            }
        }
        v
    }
    fn check(&self, c: &SeqCase, obs: &mut Obs) -> Chk {
        let mut inputs = Vec::new();
        for op in &c.ops {
            let x = op.m.plain(&op.d);
            let mut z = if op.expand { comp(&op.m, &x)?.bytes } else { x };
            if op.expand {
                for mu in &op.muts {
                    // keep declared lengths of the port and headers of TD0
                    let lo = match op.m {
                        Method::Port => 4,
                        Method::Td0(_) => 12,
                        _ => 0,
                    };
                    super::robust::mutate(&mut z, mu, lo);
                }
            }
            inputs.push(z);
        }
        // each on its own in a new process
        let calls: Vec<Call> = c.ops.iter().zip(inputs).map(|(o, input)| Call { m: o.m.clone(), expand: o.expand, input, full_at: o.full_at, slice: o.slice }).collect();
        // thousands of times what these calls need
        const ALONE: u64 = 60;
        // no long waits while a failure is made smaller
        let short = crate::driver::failed();
        let mut seq = Seq { calls, order: vec![], many: (0, 0), threads: 0, budget: ALONE };
        let mut longest = 0;
        let mut smallest = (0, usize::MAX, std::time::Duration::MAX);
        let name = |x: &Call| format!("{} {}", x.m.name(), if x.expand { "expand" } else { "compress" });
        let mut want = Vec::new();
        let k = seq.calls.len();
        for _ in 0..k {
            let x = seq.calls.remove(0);
            let s1 = Seq { calls: vec![x], order: vec![0], many: (0, 0), threads: 0, budget: ALONE };
            let t = std::time::Instant::now();
            let r = in_process(&s1).map_err(|e| format!("{} on its own: {e}", name(&s1.calls[0])))?.remove(0).remove(0).1;
            obs.label(r.split([' ', ',']).next().unwrap().to_string());
            longest = longest.max(t.elapsed().as_secs() + 1);
            if s1.calls[0].input.len() < smallest.1 {
                smallest = (want.len(), s1.calls[0].input.len(), t.elapsed());
            }
            want.push(r);
            seq.calls.extend(s1.calls);
        }
        obs.nontrivial = true;
        seq.order = c.order.iter().map(|o| *o as usize % k).chain(0..k).collect();
        if c.threads {
            obs.label("in parallel");
            seq.threads = 4;
        }
        // the same small call very often
        if c.many > 0 && smallest.1 < 3000 && smallest.2.as_millis() < 40 {
            obs.label("many calls");
            seq.many = (smallest.0, c.many);
            obs.runs += c.many as u64;
            seq.budget += c.many as u64 / 10;
        }
        seq.budget += longest * (seq.order.len() as u64 + seq.threads * 2 * k as u64);
        if short && seq.many.1 == 0 {
            seq.budget = seq.budget.min(15);
        }
        let got = in_process(&seq).map_err(|e| format!("sequence of calls: {e}"))?;
        for (t, list) in got.iter().enumerate() {
            obs.runs += list.len() as u64;
            for (n, (i, r)) in list.iter().enumerate() {
                if *r != want[*i] {
                    let whr = if t == 0 { "a sequence".to_string() } else { format!("thread {t} of 4 in parallel") };
                    return Err(format!("call {} of {whr} ({}) gives {r}, on its own it gives {}", n + 1, name(&seq.calls[*i]), want[*i]));
                }
            }
        }
        Ok(())
    }
}
#[allow(unused)]
fn _unused(_: SeekFrom) {}
