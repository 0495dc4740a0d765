//! C01..C05: round trips of the LZSS+Huffman codecs
use super::*;
use crate::data::{self, Data, Mix, Seg};
use crate::driver::{Chk, Obs, Prop};
use crate::opts::{lzss_opts, LzssO};
use crate::refs::lzss as r;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RtCase {
    pub o: LzssO,
    pub d: Data,
}
fn size_label(n: usize) -> &'static str {
    match n {
        0 => "size 0",
        1..=59 => "size <lookahead",
        60..=4095 => "size <window",
        4096..=32767 => "size <32K",
        _ => "size >=32K",
    }
}
/// parse with the reference decoder, label what the stream contains
fn look(o: &LzssO, stream: &[u8], len: usize, obs: &mut Obs) -> r::Decoded {
    let body = if o.header { &stream[4.min(stream.len())..] } else { stream };
    let d = r::decode(body, &o.p(), Some(len));
    let m = d.toks.iter().filter(|t| matches!(t, r::Tok::Match { .. })).count();
    if m > 0 && m < d.toks.len() {
        obs.nontrivial = true;
        obs.label("matches and literals");
    }
    if d.stats.rebuilds > 0 {
        obs.label("with code rebuild");
    }
    if d.stats.max_code > 16 {
        obs.label(format!("code longer than {} bits", d.stats.max_code - 1));
    }
    obs.label(size_label(len));
    obs.label(o.label());
    d
}
fn fixed_params() -> Vec<LzssO> {
    let mut v = vec![LzssO::std()];
    for (window, lookahead, threshold, precursor) in [
        (4096, 18, 2, b' '),
        (2048, 60, 2, 0),
        (256, 16, 1, b' '),
        (64, 60, 2, b' '),
        (60, 60, 2, b' '),
        (100, 60, 3, b'a'),
        (17, 4, 2, 0xff),
        (8, 8, 0, b'a'),
        (2, 1, 0, b'a'),
        (1, 1, 1, b'a'),
        (1, 1, 0, b'a'),
        (4096, 4096, 2, b' '),
        (4096, 1000, 255, b' '),
        (4095, 61, 60, b' '),
        (1000, 60, 60, b' '),
    ] {
        v.push(LzssO { header: true, window, lookahead, threshold, precursor });
    }
    v
}
fn fixed_cases(header: bool) -> Vec<RtCase> {
    let mut v = vec![RtCase { o: LzssO { header, ..LzssO::std() }, d: data::huge() }];
    for d in data::enumerate(b"ab ", 7) {
        v.push(RtCase { o: LzssO { header, ..LzssO::std() }, d });
    }
    for (i, o) in fixed_params().into_iter().enumerate() {
        let o = LzssO { header, ..o };
        let c = data::classics();
        let last = c.len() - 5;
        for (j, d) in c.into_iter().enumerate() {
            // the big files only with standard parameters
            if i == 0 || (j < last && j % 3 == i % 3) {
                v.push(RtCase { o: o.clone(), d });
            }
        }
        for d in data::enumerate(b"ab", 6) {
            v.push(RtCase { o: o.clone(), d });
        }
    }
    v
}

pub struct C01;
impl Prop for C01 {
    type Case = RtCase;
    const ID: &'static str = "C01";
    const RULE: &'static str = "case = option set with header x data recipe (fixed: every string over {a,b,space} up to 7, classic lengths and distances, repository files; generated: recipes of literals, random, runs, copies, patchwork, words, disk sectors); non-trivial = the stream has both matches and literals according to the reference decoder";
    const QUICK: u32 = 24000;
    fn strategy(&self) -> BoxedStrategy<RtCase> {
        (lzss_opts(), data::data()).prop_map(|(o, d)| RtCase { o: LzssO { header: true, ..o }, d }).boxed()
    }
    fn fixed(&self) -> Vec<RtCase> {
        fixed_cases(true)
    }
    fn check(&self, c: &RtCase, obs: &mut Obs) -> Chk {
        let x = c.d.bytes();
        let m = Method::Lzss(c.o.clone());
        let z = comp(&m, &x)?;
        let y = expand_ok(&m, &z.bytes, x.len())?;
        obs.runs += 2;
        look(&c.o, &z.bytes, x.len(), obs);
        same("round trip", &y.bytes, &x, 0)
    }
}

pub struct C02;
impl Prop for C02 {
    type Case = RtCase;
    const ID: &'static str = "C02";
    const RULE: &'static str = "as C01 with the header off; non-trivial = the stream has both matches and literals according to the reference decoder";
    const QUICK: u32 = 20000;
    fn strategy(&self) -> BoxedStrategy<RtCase> {
        (lzss_opts(), data::data()).prop_map(|(o, d)| RtCase { o: LzssO { header: false, ..o }, d }).boxed()
    }
    fn fixed(&self) -> Vec<RtCase> {
        fixed_cases(false)
    }
    fn check(&self, c: &RtCase, obs: &mut Obs) -> Chk {
        let x = c.d.bytes();
        let m = Method::Lzss(c.o.clone());
        let z = comp(&m, &x)?;
        let y = expand_ok(&m, &z.bytes, x.len())?;
        obs.runs += 2;
        look(&c.o, &z.bytes, x.len(), obs);
        if x.is_empty() && !(z.bytes.is_empty() && y.bytes.is_empty()) {
            return Err(format!("empty input gives {} compressed and {} expanded bytes", z.bytes.len(), y.bytes.len()));
        }
        if y.bytes.len() > x.len() {
            obs.label(format!("{} spurious bytes", y.bytes.len() - x.len()));
        }
        // the header is the only difference to a stream that has one
        if x.len() < 3000 {
            let h = comp(&Method::Lzss(LzssO { header: true, ..c.o.clone() }), &x)?;
            obs.runs += 1;
            same("stream without header against the rest of one with a header", &z.bytes, h.bytes.get(4..).unwrap_or(&[]), 0)?;
        }
        same("headerless round trip", &y.bytes, &x, 7)
    }
}

pub struct C03;
impl Prop for C03 {
    type Case = Data;
    const ID: &'static str = "C03";
    const RULE: &'static str = "case = data recipe (fixed as C01); non-trivial = the stream has both matches and literals according to the reference decoder";
    const QUICK: u32 = 24000;
    fn strategy(&self) -> BoxedStrategy<Data> {
        data::data()
    }
    fn fixed(&self) -> Vec<Data> {
        let mut v = vec![data::huge()];
        v.extend(data::enumerate(b"ab ", 7));
        v.extend(data::classics());
        v
    }
    fn check(&self, c: &Data, obs: &mut Obs) -> Chk {
        let x = c.bytes();
        let z = comp(&Method::Port, &x)?;
        let y = expand_ok(&Method::Port, &z.bytes, x.len())?;
        obs.runs += 2;
        if z.bytes.len() < 4 || z.bytes[..4] != (x.len() as u32).to_le_bytes() {
            return Err(format!("stream of {} bytes does not start with the length {}", z.bytes.len(), x.len()));
        }
        look(&LzssO::std(), &z.bytes, x.len(), obs);
        same("port round trip", &y.bytes, &x, 0)
    }
}

pub struct C04;
impl Prop for C04 {
    type Case = Data;
    const ID: &'static str = "C04";
    const RULE: &'static str = "case = data recipe (fixed as C01), both encoders and both decoders run on it; non-trivial = the stream has both matches and literals according to the reference decoder";
    const QUICK: u32 = 16000;
    fn strategy(&self) -> BoxedStrategy<Data> {
        data::data()
    }
    fn fixed(&self) -> Vec<Data> {
        let mut v = vec![data::huge()];
        v.extend(data::enumerate(b"ab ", 7));
        v.extend(data::classics());
        v.extend(data::short_runs());
        v.push(Data(vec![Seg::File { name: "hamlet_full.txt".into() }]));
        v.push(Data(vec![Seg::File { name: "shkspr.dsk".into() }]));
        v
    }
    fn check(&self, c: &Data, obs: &mut Obs) -> Chk {
        let x = c.bytes();
        let std = Method::Lzss(LzssO::std());
        let a = comp(&std, &x)?;
        let b = comp(&Method::Port, &x)?;
        look(&LzssO::std(), &b.bytes, x.len(), obs);
        same("lzss_huff output against lzhuf port output", &a.bytes, &b.bytes, 0)?;
        let p = expand_ok(&std, &b.bytes, x.len())?;
        let q = expand_ok(&Method::Port, &a.bytes, x.len())?;
        obs.runs += 4;
        same("lzss_huff expansion of the port's stream", &p.bytes, &x, 0)?;
        same("port expansion of lzss_huff's stream", &q.bytes, &x, 0)
    }
}

/// Inputs that make the adaptive code extreme
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Extreme {
    /// only literals (threshold = lookahead), symbol statistics free to choose:
    /// phases of n symbols over k Fibonacci-weighted bytes, each ending with some rare bytes
    Lits { o: LzssO, phases: Vec<Phase> },
    /// standard parameters, symbols are match lengths steered by the construction
    Lens { phases: Vec<Phase>, seed: u64 },
    /// long data of the usual kinds
    Long { o: LzssO, d: Data, rep: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Phase {
    pub n: usize,
    pub k: u8,
    pub seed: u64,
    pub tail: u8,
    /// 0: mixed order, 1: heaviest first, 2: heaviest last
    pub order: u8,
}
fn phase_syms(p: &Phase) -> Vec<usize> {
    let mut m = Mix(p.seed);
    let mut v: Vec<usize> = (0..p.n).map(|_| crate::toks::fib_pick(&mut m, p.k as usize)).collect();
    match p.order {
        1 => v.sort(),
        2 => v.sort_by(|a, b| b.cmp(a)),
        _ => {}
    }
    v
}
pub fn lits_data(phases: &[Phase]) -> Vec<u8> {
    let mut out = Vec::new();
    for p in phases {
        let mut m = Mix(p.seed ^ 0x55);
        // an injective map from symbol to byte
        let mul = (m.next() as u8) | 1;
        let add = m.next() as u8;
        let map = |s: usize| (s as u8).wrapping_mul(mul).wrapping_add(add);
        out.extend(phase_syms(p).into_iter().map(map));
        out.extend((0..p.tail as usize).map(|i| map(p.k as usize + i)));
    }
    out
}
/// Data whose greedy parse has (mostly) the wanted match lengths: each piece is copied from
/// the window such that it cannot be continued.
pub fn lens_data(phases: &[Phase], seed: u64) -> Vec<u8> {
    const REACH: usize = 4036;
    let mut m = Mix(seed);
    let mut o: Vec<u8> = Vec::new();
    // base of bytes below 0x80 with hardly any matches
    for _ in 0..1200 {
        o.push(m.below(128) as u8);
    }
    let has = |o: &[u8], from: usize, pat: &[u8]| o[from..].windows(pat.len()).any(|w| w == pat);
    for p in phases {
        let mut forbid: Option<u8> = None;
        for s in phase_syms(p) {
            let len = 3 + s;
            let lo = o.len().saturating_sub(REACH - 70);
            let mut best = None;
            for _try in 0..6 {
                let at = lo + m.below(o.len() - lo - len - 1);
                // the first byte must not continue the piece before
                if Some(o[at]) == forbid {
                    continue;
                }
                best = Some(at);
                // the junction must be new
                let n = o.len();
                let mut pat = o[n - 3..].to_vec();
                pat.push(o[at]);
                if !has(&o, lo, &pat) {
                    break;
                }
            }
            let at = best.unwrap_or(lo);
            let piece = o[at..at + len].to_vec();
            forbid = Some(o[at + len]);
            o.extend(piece);
        }
        for i in 0..p.tail {
            o.push(0x80u8.wrapping_add(i.wrapping_mul(37) & 0x7f));
        }
    }
    o
}

pub struct C05;
impl Prop for C05 {
    type Case = Extreme;
    const ID: &'static str = "C05";
    const RULE: &'static str = "case = phases of Fibonacci-weighted symbols ended by rare symbols (as literals with threshold = lookahead, or as match lengths under standard parameters), or long data; non-trivial = the reference decoder saw a rebuild of the code or a code longer than 16 bits";
    const QUICK: u32 = 700;
    const THOROUGH: u32 = 15;
    fn strategy(&self) -> BoxedStrategy<Extreme> {
        let phase = |max: usize| {
            (
                prop_oneof![3 => 30000usize..34000, 2 => 500usize..max, 3 => prop::sample::select(vec![32300usize, 32400, 32420, 32440, 32454, 32500, 32512, 16200, 16384, 32768])],
                6u8..20,
                any::<u64>(),
                prop_oneof![1 => Just(0u8), 5 => 1u8..120],
                0u8..3,
            )
                .prop_map(|(n, k, seed, tail, order)| Phase { n, k, seed, tail, order })
        };
        let lo = (1usize..300, any::<u8>(), any::<bool>(), 0u8..4).prop_map(|(l, precursor, header, k)| {
            let lookahead = match k {
                0 => 1,
                1 => 60,
                _ => l,
            };
            let threshold = lookahead.min(255);
            LzssO { header, window: if k == 3 { lookahead.max(64) } else { 4096.min(lookahead + 1 + l) }, lookahead, threshold, precursor }
        });
        let long = prop::collection::vec(data::seg(60000), 1..5).prop_map(Data);
        prop_oneof![
            5 => (lo, prop::collection::vec(phase(70000), 1..3)).prop_map(|(o, phases)| Extreme::Lits{o, phases}),
            3 => (prop::collection::vec(phase(36000), 1..2), any::<u64>()).prop_map(|(phases, seed)| Extreme::Lens{phases, seed}),
            2 => (lzss_opts(), long, 1u8..4).prop_map(|(o, d, rep)| Extreme::Long{o, d, rep}),
        ]
        .boxed()
    }
    fn fixed(&self) -> Vec<Extreme> {
        let mut v = Vec::new();
        for f in ["hamlet_full.txt", "shkspr.dsk", "hamlet_act_1.txt"] {
            for rep in [1, 3] {
                v.push(Extreme::Long { o: LzssO::std(), d: Data(vec![Seg::File { name: f.into() }]), rep });
            }
        }
        // many rebuilds, positions beyond 2^20, 2^22 and 2^24
        let mut lens = vec![1_150_000usize, 4_300_000];
        if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") {
            lens.push(17_000_000);
        }
        for n in lens {
            v.push(Extreme::Long { o: LzssO::std(), d: Data(vec![data::Seg::Rand { n, seed: 1, alpha: 200, base: 0 }]), rep: 1 });
            v.push(Extreme::Long { o: LzssO::std(), d: Data(vec![data::Seg::Words { n: n / 7, seed: 1, vocab: 1000 }]), rep: 1 });
        }
        for k in [9u8, 10, 11, 12, 13, 16] {
            for n in [32000usize, 32400, 32440, 70000] {
                let ph = |seed| Phase { n, k, seed, tail: 100, order: (k % 3) as u8 };
                v.push(Extreme::Lits { o: LzssO { header: true, window: 64, lookahead: 1, threshold: 1, precursor: 0 }, phases: vec![ph(1)] });
                if n < 40000 {
                    v.push(Extreme::Lens { phases: vec![ph(2)], seed: 7 });
                }
            }
        }
        v
    }
    fn check(&self, c: &Extreme, obs: &mut Obs) -> Chk {
        let (o, x) = match c {
            Extreme::Lits { o, phases } => (o.clone(), lits_data(phases)),
            Extreme::Lens { phases, seed } => (LzssO::std(), lens_data(phases, *seed)),
            Extreme::Long { o, d, rep } => {
                let b = d.bytes();
                (o.clone(), b.repeat(*rep as usize))
            }
        };
        let m = Method::Lzss(o.clone());
        let mut streams = vec![(m.clone(), comp(&m, &x)?)];
        if o.is_std() && o.header {
            streams.push((Method::Port, comp(&Method::Port, &x)?));
        }
        for (m, z) in &streams {
            let slack = m.slack();
            let y = expand_ok(m, &z.bytes, x.len())?;
            obs.runs += 2;
            same(&format!("{} round trip", m.name()), &y.bytes, &x, slack)?;
        }
        let mut o2 = Obs::default();
        let d = look(&o, &streams[0].1.bytes, x.len(), &mut o2);
        obs.labels = o2.labels;
        obs.nontrivial = d.stats.rebuilds > 0 || d.stats.max_code > 16;
        obs.label(match c {
            Extreme::Lits { .. } => "skewed literals",
            Extreme::Lens { .. } => "skewed match lengths",
            Extreme::Long { .. } => "long data",
        });
        for (m, z) in &streams {
            let body = if o.header { &z.bytes[4..] } else { &z.bytes[..] };
            let d = r::decode(body, &o.p(), Some(x.len()));
            same(&format!("reference decoding of {} stream", m.name()), &r::expand_tokens(&d.toks, &o.p()), &x, 0)?;
        }
        Ok(())
    }
}
