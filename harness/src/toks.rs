//! Recipes for LZSS token sequences and LZW code sequences that a greedy encoder would not choose
use crate::data::Mix;
use crate::dict;
use crate::refs::lzss::{Tok, P};
use crate::refs::lzw::{Table, L};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TSeg {
    Lits(Vec<u8>),
    /// selectors of length and distance, resolved against what is valid at this point
    Match { len: u16, dist: u16 },
    /// length and distance, if they are possible
    Exact { len: usize, dist: usize },
    /// n tokens, `pm`/256 of them matches
    Mixed { n: usize, seed: u64, pm: u16, alpha: u16, lenk: u8, distk: u8 },
    /// n symbols with Fibonacci weights over `k` symbols, then `tail` rare ones
    Skew { n: usize, seed: u64, k: u8, tail: u8, lits: bool },
}

fn pick_len(sel: usize, kind: u8, p: &P) -> Option<usize> {
    if p.lookahead <= p.threshold {
        return None;
    }
    let lo = p.threshold + 1;
    let span = p.lookahead - p.threshold;
    Some(match kind % 4 {
        0 => lo + sel % span,
        1 => lo + sel % span.min(4),
        2 => p.lookahead - sel % span.min(3),
        _ => [lo, p.lookahead, lo + span / 2][sel % 3],
    })
}
fn pick_dist(sel: usize, kind: u8, out: usize, p: &P) -> Option<usize> {
    let top = p.window.min(out + p.max_dist());
    if top == 0 {
        return None;
    }
    Some(match kind % 6 {
        0 => 1 + sel % top,
        1 => 1 + sel % top.min(5),
        2 => top - sel % top.min(5),
        // just behind the start of the data
        3 => (out.max(1) + sel % 4).min(top),
        4 => 1 + sel % out.clamp(1, top),
        _ => [1, 63, 64, 65, 128, 2048, 4032, 4033, 4034, 4035, 4036, p.max_dist().max(1), p.window][sel % 13].min(top),
    })
}

pub fn fib_pick(m: &mut Mix, k: usize) -> usize {
    // symbol i of k with Fibonacci weight, symbol 0 is the heaviest
    let mut w = vec![1u64, 1];
    while w.len() < k.max(2) {
        let n = w.len();
        w.push(w[n - 1] + w[n - 2]);
    }
    let tot: u64 = w.iter().sum();
    let mut r = m.next() % tot;
    for i in (0..w.len()).rev() {
        if r < w[i] {
            return w.len() - 1 - i;
        }
        r -= w[i];
    }
    0
}

pub fn tokens(segs: &[TSeg], p: &P) -> Vec<Tok> {
    let mut t = Vec::new();
    let mut out = 0usize;
    let add = |t: &mut Vec<Tok>, out: &mut usize, x: Tok| {
        match x {
            Tok::Lit(_) => *out += 1,
            Tok::Match { len, .. } => *out += len,
        }
        t.push(x);
    };
    let mat = |lsel: usize, lk: u8, dsel: usize, dk: u8, out: usize| -> Option<Tok> {
        Some(Tok::Match { len: pick_len(lsel, lk, p)?, dist: pick_dist(dsel, dk, out, p)? })
    };
    for s in segs {
        match s {
            TSeg::Lits(v) => v.iter().for_each(|b| add(&mut t, &mut out, Tok::Lit(*b))),
            TSeg::Match { len, dist } => {
                let x = mat(*len as usize / 4, *len as u8 % 4, *dist as usize / 6, *dist as u8 % 6, out).unwrap_or(Tok::Lit(*len as u8));
                add(&mut t, &mut out, x)
            }
            TSeg::Exact { len, dist } => {
                let top = p.window.min(out + p.max_dist());
                let ok = p.lookahead > p.threshold && top > 0;
                let x = if ok { Tok::Match { len: (*len).clamp(p.threshold + 1, p.lookahead), dist: (*dist).clamp(1, top) } } else { Tok::Lit(*len as u8) };
                add(&mut t, &mut out, x)
            }
            TSeg::Mixed { n, seed, pm, alpha, lenk, distk } => {
                let mut m = Mix(*seed);
                for _ in 0..*n {
                    let mut x = None;
                    if m.below(256) < *pm as usize {
                        x = mat(m.next() as usize >> 8, *lenk, m.next() as usize >> 8, *distk, out);
                    }
                    let x = x.unwrap_or_else(|| Tok::Lit(m.below((*alpha).clamp(1, 256) as usize) as u8));
                    add(&mut t, &mut out, x);
                }
            }
            TSeg::Skew { n, seed, k, tail, lits } => {
                let mut m = Mix(*seed);
                let base = m.next() as u8;
                for _ in 0..*n {
                    let i = fib_pick(&mut m, *k as usize);
                    let span = p.lookahead.saturating_sub(p.threshold);
                    let x = if *lits || i >= span {
                        Tok::Lit(base.wrapping_add(i as u8))
                    } else {
                        match pick_dist(m.next() as usize >> 8, 0, out, p) {
                            Some(dist) => Tok::Match { len: p.threshold + 1 + i, dist },
                            None => Tok::Lit(base.wrapping_add(i as u8)),
                        }
                    };
                    add(&mut t, &mut out, x);
                }
                for i in 0..*tail {
                    add(&mut t, &mut out, Tok::Lit(base.wrapping_add(100).wrapping_add(i)));
                }
            }
        }
    }
    t
}

pub fn tsegs() -> BoxedStrategy<Vec<TSeg>> {
    let small = || {
        prop_oneof![
            4 => vec(any::<u8>(), 0..12).prop_map(TSeg::Lits),
            6 => (any::<u16>(), any::<u16>()).prop_map(|(len,dist)| TSeg::Match{len,dist}),
            6 => (0usize..300, any::<u64>(), prop::sample::select(vec![20u16,100,128,230,256]), prop::sample::select(vec![1u16,2,16,256]), 0u8..4, 0u8..6)
                .prop_map(|(n,seed,pm,alpha,lenk,distk)| TSeg::Mixed{n,seed,pm,alpha,lenk,distk}),
            1 => (dict::len(1000), dict::len(4096)).prop_map(|(len,dist)| TSeg::Exact{len,dist}),
            1 => (0usize..3000, any::<u64>(), 2u8..16, 0u8..40, any::<bool>())
                .prop_map(|(n,seed,k,tail,lits)| TSeg::Skew{n,seed,k,tail,lits}),
        ]
    };
    prop_oneof![
        40 => vec(small(), 1..12),
        1 => (vec(small(), 0..4), 32000usize..34000, any::<u64>(), 8u8..16, 1u8..60, any::<bool>(), vec(small(), 0..4))
            .prop_map(|(mut a,n,seed,k,tail,lits,b)| { a.push(TSeg::Skew{n,seed,k,tail,lits}); a.extend(b); a }),
        1 => (30000usize..70000, any::<u64>(), 0u16..=256, 0u8..4, 0u8..6)
            .prop_map(|(n,seed,pm,lenk,distk)| vec![TSeg::Mixed{n,seed,pm,alpha:256,lenk,distk}]),
    ]
    .boxed()
}

/// one chunk of LZW codes
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CSeg {
    pub n: usize,
    pub seed: u64,
    /// weights of: symbol, code just defined, code being defined, any assigned code
    pub w: [u8; 4],
    pub alpha: u16,
}
pub fn csegs(max: usize) -> BoxedStrategy<Vec<CSeg>> {
    let one = (
        prop_oneof![2 => 0usize..4, 4 => 0usize..60, 2 => 0..=max, 1 => Just(max), 1 => dict::len(max)],
        any::<u64>(),
        prop_oneof![
            Just([1u8, 0, 0, 0]), Just([1, 1, 1, 1]), Just([1, 0, 3, 0]), Just([0, 0, 1, 0]), Just([1, 0, 0, 8]), Just([1, 4, 0, 2]),
            any::<[u8; 4]>()
        ],
        prop::sample::select(vec![1u16, 2, 5, 256]),
    )
        .prop_map(|(n, seed, w, alpha)| CSeg { n, seed, w, alpha });
    vec(one, 1..6).boxed()
}
/// valid codes (without clear and stop codes) and their meaning
pub fn codes(c: &CSeg, o: &L, total: &mut usize, limit: usize) -> (Vec<usize>, Vec<u8>, Table) {
    let mut t = Table::new(o);
    let mut m = Mix(c.seed);
    let mut v = Vec::new();
    let mut out = Vec::new();
    let mut known: Vec<usize> = Vec::new();
    for _ in 0..c.n {
        if *total >= limit {
            break;
        }
        let sum: usize = c.w.iter().map(|x| *x as usize).sum();
        let mut r = m.below(sum.max(1));
        let mut k = 0;
        while k < 3 && r >= c.w[k] as usize {
            r -= c.w[k] as usize;
            k += 1;
        }
        let pend = t.pending();
        let sym = m.below((o.max_symbol + 1).min(c.alpha as usize));
        let pick = m.next() as usize >> 8;
        let code = match k {
            1 => *known.last().unwrap_or(&sym),
            2 => pend.unwrap_or(sym),
            3 if !known.is_empty() => known[pick % known.len()],
            _ => sym,
        };
        let s = t.apply(code).expect("harness: code is valid");
        if let Some(p) = pend {
            known.push(p);
        }
        *total += s.len();
        out.extend(s);
        v.push(code);
    }
    (v, out, t)
}
