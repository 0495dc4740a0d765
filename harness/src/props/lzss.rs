//! C06, C07: the LZSS+Huffman stream format
use super::*;
use crate::data::{self, Data};
use crate::driver::{Chk, Obs, Prop};
use crate::opts::{lzss_opts, LzssO};
use crate::refs::lzss as r;
use crate::toks::{tokens, tsegs, TSeg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TokCase {
    pub o: LzssO,
    pub t: Vec<TSeg>,
    /// instead: a few literals repeated by longest matches up to so many bytes
    #[serde(default)]
    pub far: u64,
}
/// checks a periodic output without keeping it
struct Periodic<'a> {
    unit: &'a [u8],
    pos: u64,
    bad: Option<u64>,
    max: u64,
}
impl std::io::Write for Periodic<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.pos + b.len() as u64 > self.max {
            return Err(std::io::Error::other("harness: output limit"));
        }
        let k = self.unit.len();
        let mut at = (self.pos % k as u64) as usize;
        for (i, x) in b.iter().enumerate() {
            if *x != self.unit[at] && self.bad.is_none() {
                self.bad = Some(self.pos + i as u64);
            }
            at = if at + 1 == k { 0 } else { at + 1 };
        }
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for Periodic<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        match p {
            std::io::SeekFrom::Current(0) => Ok(self.pos),
            std::io::SeekFrom::Start(n) if n == self.pos => Ok(n),
            _ => Err(std::io::Error::other("harness: seek not supported here")),
        }
    }
}
fn far(c: &TokCase, obs: &mut Obs) -> Chk {
    let p = c.o.p();
    let unit: Vec<u8> = (0..7).map(|i| b"abcdefg"[i]).collect();
    let len = p.lookahead;
    let n = (c.far / len as u64) as usize + 1;
    let mut toks: Vec<r::Tok> = unit.iter().map(|b| r::Tok::Lit(*b)).collect();
    toks.extend(std::iter::repeat_n(r::Tok::Match { len, dist: unit.len() }, n));
    let total = unit.len() as u64 + n as u64 * len as u64;
    let (z, _) = r::encode(&toks, &p, if c.o.header { Some(total as u32) } else { None });
    obs.nontrivial = true;
    obs.label(if total > 1 << 32 { "more than 2^32 bytes" } else { "more than 2^24 bytes" });
    let mut ms = vec![Method::Lzss(c.o.clone())];
    if c.o.is_std() && c.o.header {
        ms.push(Method::Port);
    }
    for m in ms {
        let mut w = Periodic { unit: &unit, pos: 0, bad: None, max: total + 100_000 };
        obs.runs += 1;
        let r = guard(&format!("{} expand panicked", m.name()), || m.expand(&mut std::io::Cursor::new(&z), &mut w))?;
        let what = format!("{} expansion to {total} bytes", m.name());
        let sizes = r.map_err(|e| format!("{what} failed: {e}"))?;
        if let Some(at) = w.bad.filter(|at| *at < total) {
            return Err(format!("{what}: wrong byte at {at}"));
        }
        if w.pos < total || w.pos > total + m.slack() as u64 {
            return Err(format!("{what} gives {} bytes", w.pos));
        }
        if sizes != (z.len() as u64, w.pos) {
            return Err(format!("{what} returns sizes {sizes:?}, but {} bytes went in and {} came out", z.len(), w.pos));
        }
    }
    Ok(())
}
pub struct C06;
impl Prop for C06 {
    type Case = TokCase;
    const ID: &'static str = "C06";
    const RULE: &'static str = "case = option set x token recipe (literals, matches of any allowed length at any distance that reaches produced data or the precursor region, skewed statistics, up to 70000 tokens; fixed: every length and distance, outputs beyond 2^24 and 2^32 bytes), encoded by the reference encoder; non-trivial = at least one match";
    const QUICK: u32 = 16000;
    const CASE_CPU: u64 = 300;
    fn strategy(&self) -> BoxedStrategy<TokCase> {
        (lzss_opts(), tsegs()).prop_map(|(o, t)| TokCase { o, t, far: 0 }).boxed()
    }
    fn fixed(&self) -> Vec<TokCase> {
        let mut v = vec![
            TokCase { o: LzssO { lookahead: 4000, header: false, ..LzssO::std() }, t: vec![], far: (1 << 32) + 10_000 },
            TokCase { o: LzssO::std(), t: vec![], far: 1 << 24 },
            TokCase { o: LzssO { header: false, ..LzssO::std() }, t: vec![], far: 1 << 24 },
        ];
        // every length, and every distance, in the standard format
        for header in [true, false] {
            let o = LzssO { header, ..LzssO::std() };
            let mixed = |seed, lenk, distk| TSeg::Mixed { n: 4500, seed, pm: 200, alpha: 256, lenk, distk };
            for lenk in 0..4 {
                for distk in 0..6 {
                    v.push(TokCase { o: o.clone(), t: vec![mixed(lenk as u64, lenk, distk)], far: 0 });
                }
            }
            for len in 0..58u16 {
                v.push(TokCase {
                    o: o.clone(),
                    t: vec![TSeg::Match { len: len * 4, dist: 6 * len }, TSeg::Lits(vec![1, 2, 3, 4, 5]), TSeg::Match { len: len * 4, dist: len }],
                    far: 0,
                });
            }
            for d in 0..680u16 {
                v.push(TokCase {
                    o: o.clone(),
                    t: vec![TSeg::Lits(b"0123456789".to_vec()), TSeg::Match { len: 20, dist: 6 * d }, TSeg::Match { len: 12, dist: 36 * d }],
                    far: 0,
                });
            }
            v.push(TokCase { o: o.clone(), t: vec![], far: 0 });
        }
        v
    }
    fn check(&self, c: &TokCase, obs: &mut Obs) -> Chk {
        if c.far > 0 {
            return far(c, obs);
        }
        let p = c.o.p();
        let toks = tokens(&c.t, &p);
        let want = r::expand_tokens(&toks, &p);
        let (z, st) = r::encode(&toks, &p, if c.o.header { Some(want.len() as u32) } else { None });
        let nm = toks.iter().filter(|t| matches!(t, r::Tok::Match { .. })).count();
        obs.nontrivial = nm > 0;
        obs.label(c.o.label());
        if nm > 0 {
            obs.label("has matches");
        }
        let mut at = 0;
        let (mut before, mut overlap, mut far) = (false, false, false);
        for t in &toks {
            match *t {
                r::Tok::Lit(_) => at += 1,
                r::Tok::Match { len, dist } => {
                    before |= dist > at;
                    overlap |= dist < len;
                    far |= dist > p.max_dist();
                    at += len;
                }
            }
        }
        for (f, l) in [(before, "reaches the precursor region"), (overlap, "overlapping match"), (far, "distance beyond window-lookahead"), (st.rebuilds > 0, "with code rebuild"), (st.max_code > 16, "code longer than 16 bits")] {
            if f {
                obs.label(l);
            }
        }
        let m = Method::Lzss(c.o.clone());
        let y = expand_ok(&m, &z, want.len())?;
        obs.runs += 1;
        same("lzss_huff expansion", &y.bytes, &want, m.slack())?;
        if c.o.is_std() {
            let z = if c.o.header { z } else { [&(want.len() as u32).to_le_bytes()[..], &z].concat() };
            let y = expand_ok(&Method::Port, &z, want.len())?;
            obs.runs += 1;
            same("lzhuf port expansion", &y.bytes, &want, 0)?;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GreedyCase {
    pub o: LzssO,
    pub d: Data,
}
pub struct C07;
impl Prop for C07 {
    type Case = GreedyCase;
    const ID: &'static str = "C07";
    const RULE: &'static str = "case = option set x data recipe (fixed as C01), the stream is parsed by the reference decoder and every token compared with a brute-force search of the window; non-trivial = both matches and literals were emitted";
    const QUICK: u32 = 10000;
    fn strategy(&self) -> BoxedStrategy<GreedyCase> {
        (lzss_opts(), prop_oneof![30 => data::tiny(), 50 => data::small(), 20 => data::medium()]).prop_map(|(o, d)| GreedyCase { o, d }).boxed()
    }
    fn fixed(&self) -> Vec<GreedyCase> {
        let mut v: Vec<_> = super::codec::C01.fixed().into_iter().map(|c| GreedyCase { o: c.o, d: c.d }).collect();
        v.push(GreedyCase { o: LzssO::std(), d: Data(vec![data::Seg::File { name: "hamlet_full.txt".into() }]) });
        // a run of the precursor at the start, and another when part of the initial window is out of reach
        for (first, upto, len) in [(54usize, 3978usize, 60usize), (54, 3990, 60), (20, 3980, 70), (0, 3977, 60), (70, 3980, 60), (59, 4030, 60)] {
            let d = Data(vec![data::Seg::Run { b: b' ', n: first }, data::Seg::Rand { n: upto - first, seed: 1, alpha: 90, base: 33 }, data::Seg::Run { b: b' ', n: len }, data::Seg::Lit(b"end".to_vec())]);
            v.push(GreedyCase { o: LzssO::std(), d });
        }
        v
    }
    fn check(&self, c: &GreedyCase, obs: &mut Obs) -> Chk {
        let x = c.d.bytes();
        let p = c.o.p();
        let mut ms = vec![Method::Lzss(c.o.clone())];
        if c.o.is_std() {
            ms.push(Method::Port);
        }
        obs.label(c.o.label());
        for m in ms {
            let z = comp(&m, &x)?.bytes;
            obs.runs += 1;
            let body = match &m {
                Method::Lzss(o) if !o.header => &z[..],
                _ => {
                    if z.len() < 4 || z[..4] != (x.len() as u32).to_le_bytes() {
                        return Err(format!("{}: header is {:?}, expected length {}", m.name(), &z[..z.len().min(4)], x.len()));
                    }
                    &z[4..]
                }
            };
            let d = r::decode(body, &p, Some(x.len()));
            let nm = d.toks.iter().filter(|t| matches!(t, r::Tok::Match { .. })).count();
            if nm > 0 && nm < d.toks.len() {
                obs.nontrivial = true;
            }
            r::check_greedy(&d.toks, &x, &p).map_err(|e| format!("{}: {e}", m.name()))?;
            if d.left >= 8 || !d.left_zero {
                return Err(format!("{}: {} bits after the last token (zero: {})", m.name(), d.left, d.left_zero));
            }
        }
        Ok(())
    }
}
