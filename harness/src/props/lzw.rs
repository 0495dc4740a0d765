//! C08, C09, C10, C26: LZW
use super::*;
use crate::data::{self, Data, Mix, Seg};
use crate::driver::{Chk, Obs, Prop};
use crate::opts::{lzw_opts, LzwO};
use crate::refs::lzw as r;
use crate::toks::{codes, csegs, CSeg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LzwCase {
    pub o: LzwO,
    pub d: Data,
    /// cut the data near the end of a chunk or the filling of the table
    pub cut: Option<u16>,
}
pub fn cut() -> BoxedStrategy<Option<u16>> {
    prop_oneof![2 => Just(None), 1 => (0u16..4000).prop_map(Some)].boxed()
}
fn fixed_opts() -> Vec<LzwO> {
    let s = LzwO::std();
    let t = LzwO::td();
    vec![
        s.clone(),
        LzwO { msb: true, ..s.clone() },
        LzwO { width: 9, chunk_size: 256, ..s.clone() },
        LzwO { width: 16, chunk_size: 70000, msb: true, ..s.clone() },
        LzwO { chunk_size: 14, msb: true, ..s.clone() },
        LzwO { chunk_size: 1, ..s.clone() },
        LzwO { clear: Some(257), stop: Some(256), ..s.clone() },
        LzwO { clear: None, stop: None, chunk_size: 1 << 40, ..s.clone() },
        LzwO { clear: Some(4095), stop: Some(300), ..s.clone() },
        t.clone(),
        LzwO { chunk_size: 3, ..t.clone() },
        LzwO { chunk_size: 3, header_divisor: 1, header_bits: 13, width: 11, msb: true, ..t.clone() },
        LzwO { chunk_size: 5, header_divisor: 8, header_bits: 16, width: 9, clear: Some(256), stop: Some(257), ..t.clone() },
        LzwO { max_symbol: 1, width: 2, clear: None, stop: Some(3), chunk_size: 1 << 40, ..s.clone() },
        LzwO { max_symbol: 1, width: 3, clear: Some(2), stop: Some(3), chunk_size: 5, ..s.clone() },
        LzwO { max_symbol: 0, width: 2, clear: Some(1), stop: Some(2), chunk_size: 2, ..s },
    ]
}
fn fixed_cases() -> Vec<LzwCase> {
    let mut v = Vec::new();
    let s = LzwO::std();
    for o in [s.clone(), LzwO { clear: None, stop: None, chunk_size: 1 << 40, msb: true, ..s.clone() }, LzwO { chunk_size: 4095, ..LzwO::td() }] {
        v.push(LzwCase { o, d: data::huge(), cut: None });
    }
    // the filling of the widest table
    for k in 0..8 {
        let o = LzwO { width: 16, chunk_size: if k < 4 { 65278 } else { 1 << 20 }, msb: k % 2 == 0, ..s.clone() };
        v.push(LzwCase { o, d: Data(vec![Seg::Rand { n: 200_000, seed: k as u64, alpha: 256, base: 0 }]), cut: Some(k) });
    }
    // tables of more than 16 bits, the first two filled
    for (width, n) in [(17, 300_000), (18, 700_000), (20, 900_000), (24, 2_000_000), (33, 400_000), (63, 400_000)] {
        for (msb, clear) in [(false, Some(256)), (true, None)] {
            let o = LzwO { width, chunk_size: 1 << 40, msb, clear, stop: Some(257), ..s.clone() };
            v.push(LzwCase { o, d: Data(vec![Seg::Rand { n, seed: width as u64, alpha: 256, base: 0 }, Seg::Run { b: 7, n: 1000 }]), cut: None });
        }
    }
    // chunks whose bit count needs many bits
    for (header_bits, header_divisor, n) in [(16, 4, 300_000), (17, 1, 40_000), (18, 2, 150_000), (20, 1, 300_000), (20, 12, 2_000_000), (24, 4, 3_000_000), (24, 1, 3_000_000), (31, 3, 1_000_000), (32, 1, 3_000_000)] {
        let chunk_size = (((1u64 << header_bits) - 1) as usize * header_divisor / 12 - 2).min(1 << 40);
        for msb in [false, true] {
            v.push(LzwCase { o: LzwO { header_bits, header_divisor, chunk_size, msb, ..LzwO::td() }, d: Data(vec![Seg::Rand { n, seed: 9, alpha: 200, base: 0 }]), cut: None });
        }
    }
    for (i, o) in fixed_opts().into_iter().enumerate() {
        for d in data::enumerate(b"ab", 7) {
            v.push(LzwCase { o: o.clone(), d, cut: None });
        }
        for (j, d) in data::classics().into_iter().enumerate() {
            if i == 0 || i == 9 || j % 4 == i % 4 {
                v.push(LzwCase { o: o.clone(), d, cut: None });
            }
        }
        // around the filling of the table and the end of the chunk
        for seed in 0..3u64 {
            for k in 0..16 {
                let d = Data(vec![Seg::Rand { n: 9000, seed, alpha: [256, 16, 3][seed as usize], base: 0 }]);
                v.push(LzwCase { o: o.clone(), d, cut: Some(k) });
            }
        }
        if o.chunk_size > 3000 {
            for n in 4090..4103 {
                v.push(LzwCase { o: o.clone(), d: Data(vec![Seg::Rand { n, seed: 5, alpha: 256, base: 0 }]), cut: None });
            }
            for n in 3836..3846 {
                v.push(LzwCase { o: o.clone(), d: Data(vec![Seg::Rand { n, seed: 6, alpha: 256, base: 0 }]), cut: None });
            }
        }
    }
    v
}
fn lzw_data() -> BoxedStrategy<Data> {
    prop_oneof![
        25 => data::tiny(),
        35 => data::small(),
        30 => data::medium(),
        // fills tables
        5 => (3500usize..9000, any::<u64>(), prop::sample::select(vec![16u16, 64, 256])).prop_map(|(n,seed,alpha)| Data(vec![Seg::Rand{n,seed,alpha,base:0}])),
        3 => data::large(),
    ]
    .boxed()
}
fn look(o: &LzwO, x: &[u8], obs: &mut Obs) -> Vec<Vec<usize>> {
    let l = o.l();
    let g = r::greedy(x, &l);
    obs.label(o.label());
    if g.len() > 1 {
        obs.label("several chunks");
    }
    let made = g.iter().any(|c| c.iter().any(|k| *k > o.max_symbol && !l.reserved(*k)));
    if made {
        obs.nontrivial = true;
        obs.label("uses new codes");
    }
    if g.iter().any(|c| c.len() + o.max_symbol > l.limit()) {
        obs.label("table full");
    }
    g
}

pub struct C08;
impl Prop for C08 {
    type Case = LzwCase;
    const ID: &'static str = "C08";
    const RULE: &'static str = "case = consistent option set x data recipe mapped into the symbol range (a third of them cut near the end of a chunk or the filling of the table; fixed: every string over {a,b} up to 7 under 16 option sets, classics, sizes around table and chunk ends); non-trivial = the reference encoder uses a code above the symbols";
    const QUICK: u32 = 12000;
    const ASSUMPTIONS: &'static [&'static str] = &["consistent options: min_symbol 0, max_symbol at most 255, equal min and max width, width holds symbols and reserved codes, header holds the bit count with a divisor not above the width, chunks are delimited by clear code or header or there is one chunk, width at least 8 unless a stop code exists, header at least 8 bits"];
    fn strategy(&self) -> BoxedStrategy<LzwCase> {
        (lzw_opts(), lzw_data(), cut()).prop_map(|(o, d, cut)| LzwCase { o, d, cut }).boxed()
    }
    fn fixed(&self) -> Vec<LzwCase> {
        fixed_cases()
    }
    fn check(&self, c: &LzwCase, obs: &mut Obs) -> Chk {
        let m = Method::Lzw(c.o.clone());
        let x = c.o.cut(m.plain(&c.d), c.cut);
        let z = comp(&m, &x)?;
        let y = expand_ok(&m, &z.bytes, x.len())?;
        obs.runs += 2;
        look(&c.o, &x, obs);
        same("round trip", &y.bytes, &x, 0)
    }
}

pub struct C09;
impl Prop for C09 {
    type Case = LzwCase;
    const ID: &'static str = "C09";
    const RULE: &'static str = "as C08, output compared byte for byte with the reference encoder; non-trivial = the reference encoder uses a code above the symbols";
    const QUICK: u32 = 16000;
    fn strategy(&self) -> BoxedStrategy<LzwCase> {
        (lzw_opts(), lzw_data(), cut()).prop_map(|(o, d, cut)| LzwCase { o, d, cut }).boxed()
    }
    fn fixed(&self) -> Vec<LzwCase> {
        fixed_cases()
    }
    fn check(&self, c: &LzwCase, obs: &mut Obs) -> Chk {
        let m = Method::Lzw(c.o.clone());
        let x = c.o.cut(m.plain(&c.d), c.cut);
        let z = comp(&m, &x)?;
        obs.runs += 1;
        let g = look(&c.o, &x, obs);
        let want = r::pack(&g, &c.o.l());
        same("compressed stream against the reference encoder", &z.bytes, &want, 0)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CodeCase {
    pub o: LzwO,
    pub c: Vec<CSeg>,
}
/// most codes a chunk header can express, leaving room for a clear and a stop code
fn header_room(o: &LzwO) -> usize {
    match o.header_bits {
        0 => usize::MAX,
        b => (((1u128 << b) - 1) * o.header_divisor as u128 / o.width as u128).saturating_sub(2).min(1 << 40) as usize,
    }
}
pub struct Built {
    pub chunks: Vec<Vec<usize>>,
    pub out: Vec<u8>,
    pub pending_used: bool,
    pub full: bool,
}
pub fn build(c: &CodeCase, limit: usize) -> Built {
    let l = c.o.l();
    let single = c.o.header_bits == 0 && c.o.clear.is_none();
    let segs: &[CSeg] = if single { &c.c[..1.min(c.c.len())] } else { &c.c };
    let mut b = Built { chunks: vec![], out: vec![], pending_used: false, full: false };
    let mut total = 0;
    for (i, s) in segs.iter().enumerate() {
        let s = CSeg { n: s.n.min(header_room(&c.o)), ..s.clone() };
        let (mut v, o, t) = codes(&s, &l, &mut total, limit);
        // the code being defined was used if a code equals the next new one
        let mut next = l.first_new();
        for (k, code) in v.iter().enumerate() {
            if k > 0 && next < l.limit() {
                b.pending_used |= *code == next;
                next = l.skip(next + 1);
            }
        }
        b.full |= t.full();
        b.out.extend(o);
        let last = i + 1 == segs.len();
        if last {
            v.extend(c.o.stop);
        } else {
            v.extend(c.o.clear);
        }
        b.chunks.push(v);
    }
    b
}
pub struct C10;
impl Prop for C10 {
    type Case = CodeCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "case = consistent option set x chunks of arbitrary valid codes (weights for symbols, latest code, code being defined, any assigned code), chunk ends anywhere, packed by the reference; non-trivial = uses the code being defined, or a full table, or several chunks";
    const QUICK: u32 = 16000;
    fn strategy(&self) -> BoxedStrategy<CodeCase> {
        (lzw_opts(), csegs(4200)).prop_map(|(o, c)| CodeCase { o, c }).boxed()
    }
    fn fixed(&self) -> Vec<CodeCase> {
        let mut v = Vec::new();
        for o in fixed_opts() {
            for (i, w) in [[1u8, 0, 0, 0], [1, 1, 1, 1], [0, 0, 1, 0], [1, 0, 0, 8], [1, 0, 3, 0]].into_iter().enumerate() {
                for n in [0usize, 1, 2, 3, 8, 100, 1000, 4096] {
                    let c = CSeg { n, seed: (i * 100 + n) as u64, w, alpha: 256 };
                    v.push(CodeCase { o: o.clone(), c: vec![c.clone()] });
                    v.push(CodeCase { o: o.clone(), c: vec![c.clone(), CSeg { seed: 3, ..c.clone() }, CSeg { n: n / 2, ..c }] });
                }
            }
        }
        v
    }
    fn check(&self, c: &CodeCase, obs: &mut Obs) -> Chk {
        let b = build(c, 200_000);
        let z = r::pack(&b.chunks, &c.o.l());
        let m = Method::Lzw(c.o.clone());
        obs.nontrivial = b.pending_used || b.full || b.chunks.len() > 1;
        obs.label(c.o.label());
        for (f, l) in [(b.pending_used, "code being defined"), (b.full, "table full"), (b.chunks.len() > 1, "several chunks")] {
            if f {
                obs.label(l);
            }
        }
        let y = expand_ok(&m, &z, b.out.len())?;
        obs.runs += 1;
        same("expansion of a conforming code stream", &y.bytes, &b.out, 0)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase {
    pub o: LzwO,
    pub c: Vec<CSeg>,
    pub chunk: u16,
    pub at: u16,
    pub code: u32,
    /// a code just above the one being defined
    pub near: bool,
}
pub struct C26;
impl Prop for C26 {
    type Case = BadCase;
    const ID: &'static str = "C26";
    const RULE: &'static str = "case = conforming code stream as C10, with one code replaced or inserted at a chosen chunk and position by a code that has no meaning there according to the reference table; non-trivial = such a code exists";
    const QUICK: u32 = 16000;
    fn strategy(&self) -> BoxedStrategy<BadCase> {
        (lzw_opts(), csegs(4200), any::<u16>(), prop_oneof![3 => 0u16..6, 2 => any::<u16>()], any::<u32>(), any::<bool>())
            .prop_map(|(o, c, chunk, at, code, near)| BadCase { o, c, chunk, at, code, near })
            .boxed()
    }
    fn fixed(&self) -> Vec<BadCase> {
        let mut v = Vec::new();
        for o in fixed_opts() {
            for n in [0usize, 1, 2, 5, 300] {
                for at in 0..4u16 {
                    for near in [false, true] {
                        let c = CSeg { n, seed: n as u64, w: [1, 1, 1, 1], alpha: 256 };
                        v.push(BadCase { o: o.clone(), c: vec![c.clone(), c.clone()], chunk: at % 2, at, code: 12345 * at as u32, near });
                    }
                }
            }
        }
        v
    }
    fn check(&self, c: &BadCase, obs: &mut Obs) -> Chk {
        let l = c.o.l();
        let cc = CodeCase { o: c.o.clone(), c: c.c.clone() };
        let mut b = build(&cc, 100_000);
        if b.chunks.is_empty() {
            b.chunks.push(vec![]);
        }
        let k = c.chunk as usize % b.chunks.len();
        let ch = &mut b.chunks[k];
        let meaningful = ch.iter().filter(|x| !l.reserved(**x)).count();
        let at = c.at as usize % (meaningful + 1);
        let mut t = r::Table::new(&l);
        for x in &ch[..at] {
            t.apply(*x).expect("harness: code is valid");
        }
        // everything without meaning here
        let low = 1 << 17;
        let is_bad = |x: &usize| !t.has(*x) && !l.reserved(*x) && t.pending() != Some(*x);
        let mut bad: Vec<usize> = (0..l.limit().min(low)).filter(is_bad).collect();
        if l.limit() > low && !c.near {
            // also codes that agree with a good one in the lower bits
            let good = ch.first().copied().unwrap_or(0);
            let far = [l.limit() - 1, l.limit() / 2, Mix(c.code as u64).below(l.limit()), good + (1 << 16), good + (1 << 32), good + (1 << (l.width - 1))];
            bad = far.into_iter().filter(|x| *x < l.limit()).filter(is_bad).collect();
        }
        if bad.is_empty() {
            obs.label("no such code");
            return Ok(());
        }
        let code = if c.near { bad[0] } else { bad[Mix(c.code as u64).below(bad.len())] };
        // a full chunk with header has no room for one more
        let insert = ch.len() < header_room(&c.o).saturating_add(1);
        if at < meaningful && (!insert || c.code % 2 == 0) {
            ch[at] = code;
        } else if insert {
            ch.insert(at, code);
        } else {
            obs.label("no room");
            return Ok(());
        }
        obs.nontrivial = true;
        obs.label(c.o.label());
        obs.label(match at {
            0 => "first code",
            1 => "second code",
            _ => "later code",
        });
        if t.full() {
            obs.label("table full");
        }
        let z = r::pack(&b.chunks, &l);
        let m = Method::Lzw(c.o.clone());
        obs.runs += 1;
        match expand_any(&m, &z, b.out.len() + 100_000)? {
            Ok(y) => Err(format!("code {code} at position {at} of chunk {k} has no meaning, but expansion returned {} bytes", y.bytes.len())),
            Err((e, _)) => match kind(&e) {
                "FileFormatMismatch" => Ok(()),
                o => Err(format!("code {code} at position {at} of chunk {k} has no meaning, error is {o}: {e}")),
            },
        }
    }
}
