//! Input data as a recipe: small to shrink and to print, deterministic to expand.
use crate::dict;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Expansion of a generated seed value (not a source of randomness of its own).
#[derive(Clone)]
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Seg {
    /// bytes as they are
    Lit(Vec<u8>),
    /// n pseudo-random bytes from an alphabet of `alpha` values starting at `base`
    Rand { n: usize, seed: u64, alpha: u16, base: u8 },
    /// one byte n times
    Run { b: u8, n: usize },
    /// copy from earlier output (or precursor-like spaces before it)
    Copy { dist: usize, len: usize },
    /// n copies from random earlier places with lengths in 1..=max_len, with a random byte after some
    Patch { n: usize, seed: u64, max_len: usize, gap: u8 },
    /// arithmetic byte ramp
    Ramp { start: u8, step: u8, n: usize },
    /// pseudo text
    Words { n: usize, seed: u64, vocab: u16 },
    /// sectors of constant fill with occasional content, like a disk image
    Disk { sectors: usize, seed: u64 },
    /// a file of the repository's test data
    File { name: String },
    /// make everything so far exactly n bytes long
    Len { n: usize, seed: u64 },
    /// exchange two bytes somewhere in what there is so far
    Swap { i: u32, j: u32 },
    /// change one byte
    Edit { i: u32, x: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Data(pub Vec<Seg>);

impl Data {
    pub fn lit(b: &[u8]) -> Data {
        Data(vec![Seg::Lit(b.to_vec())])
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o: Vec<u8> = Vec::new();
        for s in &self.0 {
            match s {
                Seg::Lit(v) => o.extend_from_slice(v),
                Seg::Rand { n, seed, alpha, base } => {
                    let mut m = Mix(*seed);
                    let a = (*alpha).clamp(1, 256) as usize;
                    for _ in 0..*n {
                        o.push(base.wrapping_add(m.below(a) as u8));
                    }
                }
                Seg::Run { b, n } => o.extend(std::iter::repeat(*b).take(*n)),
                Seg::Copy { dist, len } => copy(&mut o, (*dist).max(1), *len),
                Seg::Patch { n, seed, max_len, gap } => {
                    let mut m = Mix(*seed);
                    for _ in 0..*n {
                        let d = 1 + m.below(o.len().clamp(1, 4200));
                        let l = 1 + m.below(*max_len);
                        copy(&mut o, d, l);
                        if m.below(256) < *gap as usize {
                            o.push(m.next() as u8);
                        }
                    }
                }
                Seg::Ramp { start, step, n } => {
                    let mut b = *start;
                    for _ in 0..*n {
                        o.push(b);
                        b = b.wrapping_add(*step);
                    }
                }
                Seg::Words { n, seed, vocab } => {
                    let v = (*vocab).max(1) as usize;
                    let mut m = Mix(*seed);
                    let base = m.next();
                    for _ in 0..*n {
                        // skewed choice of word
                        let k = m.below(v).min(m.below(v));
                        let mut wm = Mix(base ^ (k as u64).wrapping_mul(0x1234567));
                        let l = 1 + wm.below(9);
                        for _ in 0..l {
                            o.push(b'a' + wm.below(26) as u8);
                        }
                        match m.below(12) {
                            0 => o.extend_from_slice(b",\r\n"),
                            1 => o.extend_from_slice(b". "),
                            _ => o.push(b' '),
                        }
                    }
                }
                Seg::Disk { sectors, seed } => {
                    let mut m = Mix(*seed);
                    for _ in 0..*sectors {
                        let fill = [0u8, 0xE5, 0xFF, 0x4E, b' '][m.below(5)];
                        let used = if m.below(2) == 0 { 0 } else { m.below(257) };
                        for _ in 0..used {
                            let r = m.next();
                            o.push(if r & 3 == 0 { (r >> 8) as u8 } else { (r >> 8) as u8 & 0x3f });
                        }
                        o.extend(std::iter::repeat(fill).take(256 - used.min(256)));
                    }
                }
                Seg::Len { n, seed } => {
                    let mut m = Mix(*seed);
                    o.truncate(*n);
                    while o.len() < *n {
                        o.push(m.next() as u8);
                    }
                }
                Seg::Swap { i, j } if !o.is_empty() => {
                    let n = o.len();
                    o.swap(*i as usize % n, *j as usize % n);
                }
                Seg::Edit { i, x } if !o.is_empty() => {
                    let n = o.len();
                    o[*i as usize % n] ^= x;
                }
                Seg::Swap { .. } | Seg::Edit { .. } => {}
                Seg::File { name } => {
                    if let Ok(v) = std::fs::read(format!("/repo/tests/{name}")) {
                        o.extend(v);
                    }
                }
            }
        }
        o
    }
    pub fn mapped(&self, max_symbol: usize) -> Vec<u8> {
        let mut v = self.bytes();
        if max_symbol < 255 {
            for b in v.iter_mut() {
                *b = (*b as usize % (max_symbol + 1)) as u8;
            }
        }
        v
    }
    pub fn class(&self) -> &'static str {
        let mut names: Vec<&str> = self
            .0
            .iter()
            .map(|s| match s {
                Seg::Lit(_) => "lit",
                Seg::Rand { .. } => "rand",
                Seg::Run { .. } => "run",
                Seg::Copy { .. } => "copy",
                Seg::Patch { .. } => "patch",
                Seg::Ramp { .. } => "ramp",
                Seg::Words { .. } => "words",
                Seg::Disk { .. } => "disk",
                Seg::File { .. } => "file",
                Seg::Len { .. } => "len",
                Seg::Swap { .. } | Seg::Edit { .. } => "edited",
            })
            .collect();
        names.sort();
        names.dedup();
        match names.len() {
            0 => "none",
            1 => names[0],
            _ => "mixed",
        }
    }
}

fn copy(o: &mut Vec<u8>, dist: usize, len: usize) {
    for _ in 0..len {
        let b = if dist <= o.len() { o[o.len() - dist] } else { b' ' };
        o.push(b);
    }
}

/// lengths that matter to the LZSS window, lookahead and buffering
fn edge_len() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 0usize..12,
        3 => prop::sample::select(vec![1usize,2,3,4,57,58,59,60,61,62,63,64,119,120,121,122,255,256,257]),
        2 => 0usize..300,
        1 => prop::sample::select(vec![3976usize,4034,4035,4036,4037,4038,4095,4096,4097,4098,4156]),
    ]
    .boxed()
}
fn edge_dist() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 1usize..10,
        3 => 1usize..300,
        2 => 1usize..5000,
        3 => prop::sample::select(vec![59usize,60,61,62,63,64,65,127,128,255,256,511,512,1023,1024,2047,2048,
            3967,3968,4032,4033,4034,4035,4036,4037,4038,4039,4094,4095,4096,4097]),
    ]
    .boxed()
}
pub fn any_byte() -> BoxedStrategy<u8> {
    prop_oneof![3 => any::<u8>(), 1 => prop::sample::select(vec![0u8, 0x20, 0xff, 0xe5, b'a', b'b', 1, 0x80, 0x7f])].boxed()
}
/// segments with a length, distance or content that occurs in the source of the crate
fn from_dict(m: usize) -> BoxedStrategy<Seg> {
    let n = || dict::len((20 * m).min(200_000));
    prop_oneof![
        2 => (n(), any::<u64>(), prop::sample::select(vec![2u16, 16, 256])).prop_map(|(n, seed, alpha)| Seg::Rand { n, seed, alpha, base: 0 }),
        2 => (any_byte(), n()).prop_map(|(b, n)| Seg::Run { b, n }),
        2 => (dict::len(5000), prop_oneof![edge_len().prop_map(move |l| l.min(2 * m)), n()]).prop_map(|(dist, len)| Seg::Copy { dist, len }),
        3 => vec(dict::bytes(), 1..5).prop_map(|v| Seg::Lit(v.concat())),
        3 => (n(), any::<u64>()).prop_map(|(n, seed)| Seg::Len { n, seed }),
    ]
    .boxed()
}
pub fn seg(max: usize) -> BoxedStrategy<Seg> {
    let m = max.max(1);
    prop_oneof![
        4 => vec(any_byte(), 0..24).prop_map(Seg::Lit),
        2 => vec(prop::sample::select(vec![b'a',b'b']), 0..24).prop_map(Seg::Lit),
        3 => (0..=m, any::<u64>(), prop::sample::select(vec![1u16,2,3,4,8,16,64,128,255,256]), any_byte())
            .prop_map(|(n,seed,alpha,base)| Seg::Rand{n,seed,alpha,base}),
        3 => (any_byte(), edge_len()).prop_map(move |(b,n)| Seg::Run{b,n:n.min(2*m)}),
        4 => (edge_dist(), edge_len()).prop_map(move |(dist,len)| Seg::Copy{dist,len:len.min(2*m)}),
        3 => (0..=m/8+1, any::<u64>(), prop::sample::select(vec![3usize,4,8,20,62,70,130]), prop::sample::select(vec![0u8,20,128,255]))
            .prop_map(|(n,seed,max_len,gap)| Seg::Patch{n,seed,max_len,gap}),
        1 => (any::<u8>(), prop::sample::select(vec![0u8,1,2,3,17,85,127,128,255]), 0..=m).prop_map(|(start,step,n)| Seg::Ramp{start,step,n}),
        3 => (0..=m/6+1, any::<u64>(), prop::sample::select(vec![2u16,5,20,100,1000])).prop_map(|(n,seed,vocab)| Seg::Words{n,seed,vocab}),
        1 => (0..=m/256+1, any::<u64>()).prop_map(|(sectors,seed)| Seg::Disk{sectors,seed}),
        2 => from_dict(m),
    ]
    .boxed()
}
/// up to about 100 bytes
pub fn tiny() -> BoxedStrategy<Data> {
    prop_oneof![
        1 => Just(Data(vec![])),
        4 => vec(any_byte(), 0..80).prop_map(|v| Data(vec![Seg::Lit(v)])),
        4 => vec(prop::sample::select(vec![b'a',b'b',b' ']), 0..120).prop_map(|v| Data(vec![Seg::Lit(v)])),
        4 => vec(seg(30), 1..4).prop_map(Data),
    ]
    .boxed()
}
pub fn small() -> BoxedStrategy<Data> {
    vec(seg(200), 1..8).prop_map(Data).boxed()
}
pub fn medium() -> BoxedStrategy<Data> {
    vec(seg(6000), 1..10).prop_map(Data).boxed()
}
pub fn large() -> BoxedStrategy<Data> {
    vec(seg(60000), 1..6).prop_map(Data).boxed()
}
/// the usual mixture; weights in favour of many small cases
pub fn data() -> BoxedStrategy<Data> {
    prop_oneof![30 => tiny(), 45 => small(), 22 => medium(), 3 => large()].boxed()
}
/// mixture without the large ones, for checks that do a lot per case
pub fn data_small() -> BoxedStrategy<Data> {
    prop_oneof![40 => tiny(), 50 => small(), 10 => medium()].boxed()
}

/// all strings over an alphabet up to a length
pub fn enumerate(alpha: &[u8], max_len: usize) -> Vec<Data> {
    let mut out = vec![Data::lit(b"")];
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max_len {
        let mut next = Vec::new();
        for s in &level {
            for a in alpha {
                let mut t = s.clone();
                t.push(*a);
                out.push(Data::lit(&t));
                next.push(t);
            }
        }
        level = next;
    }
    out
}
/// two or three runs of different bytes with lengths around the lookahead
pub fn short_runs() -> Vec<Data> {
    let mut v = Vec::new();
    for a in [0u8, 1, b' ', b'a'] {
        for b in [0u8, 1, b' ', b'a'] {
            for n in [1usize, 2, 3, 4, 5, 30, 55, 57, 58, 59, 60, 61, 62] {
                for m in [0usize, 1, 2, 3, 4, 5, 30, 55, 57, 58, 59, 60, 61, 62] {
                    v.push(Data(vec![Seg::Run { b: a, n }, Seg::Run { b, n: m }]));
                }
                v.push(Data(vec![Seg::Run { b: a, n }, Seg::Run { b, n: 3 }, Seg::Run { b: a, n }]));
            }
        }
    }
    for n in 8..80 {
        for seed in 0..4 {
            v.push(Data(vec![Seg::Rand { n, seed, alpha: 2, base: 0 }]));
            v.push(Data(vec![Seg::Rand { n, seed, alpha: 3, base: 31 }]));
        }
    }
    v
}
/// more than 2^24 bytes, quick to compress
pub fn huge() -> Data {
    Data(vec![Seg::Rand { n: 97, seed: 1, alpha: 256, base: 0 }, Seg::Copy { dist: 97, len: 8_000_000 }, Seg::Run { b: 0xe5, n: 9_000_000 }, Seg::Lit(vec![1, 2, 3])])
}
/// recognisable inputs that always run
pub fn classics() -> Vec<Data> {
    let mut v = vec![
        Data::lit(b""),
        Data::lit(b"\0"),
        Data::lit(b" "),
        Data::lit(b"a"),
        Data::lit(&[0xff]),
        Data::lit(b"TOBEORNOTTOBEORTOBEORNOT#\n"),
        Data::lit(b"I am Sam. Sam I am. I do not like this Sam I am.\n"),
    ];
    for n in [2usize, 3, 4, 58, 59, 60, 61, 62, 119, 120, 121, 4035, 4036, 4037, 4095, 4096, 4097, 8192, 20000] {
        for b in [b' ', b'a', 0u8] {
            v.push(Data(vec![Seg::Run { b, n }]));
        }
    }
    for d in [1usize, 2, 3, 59, 60, 61, 4034, 4035, 4036, 4037, 4095, 4096, 4097] {
        for l in [2usize, 3, 4, 59, 60, 61, 200] {
            v.push(Data(vec![Seg::Rand { n: d, seed: d as u64, alpha: 256, base: 0 }, Seg::Copy { dist: d, len: l }, Seg::Lit(vec![1, 2, 3])]));
        }
    }
    // whatever lengths a change to the source mentions
    let mut room = 3_000_000u64;
    for n in &dict::dict().fresh {
        for n in [n - 1, *n, n + 1] {
            if n <= 400_000 && 2 * n <= room {
                room -= 2 * n;
                let n = n as usize;
                v.push(Data(vec![Seg::Rand { n, seed: 1, alpha: 256, base: 0 }]));
                v.push(Data(vec![Seg::Words { n: n / 6 + 1, seed: 1, vocab: 100 }, Seg::Len { n, seed: 1 }]));
            }
        }
    }
    for f in ["tempest_act_5.txt", "hamlet_act_1.txt", "td105.norm.td0", "td215.norm.td0", "td105.adv.td0"] {
        v.push(Data(vec![Seg::File { name: f.to_string() }]));
    }
    v
}
