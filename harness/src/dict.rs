//! Numbers and texts that occur in the source of the crate as it is, for use in generated cases
//! (a dictionary, as fuzzers have). Only the choice of cases depends on it, never a verdict.
//! What did not occur in the tree this harness was written for is preferred, because a change
//! that does something at a particular length, value or count usually names it.
use crate::data::Mix;
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::sync::OnceLock;

/// numbers above 8 in the tree as known
const KNOWN: &str = include_str!("dict_known.txt");

pub struct Dict {
    /// every number above 8
    pub nums: Vec<u64>,
    /// those not known
    pub fresh: Vec<u64>,
    pub texts: Vec<Vec<u8>>,
}
enum T {
    Num(u64),
    Op(char),
    Other,
}
/// numbers and texts in code, comments and test functions left out
fn scan(src: &str, nums: &mut BTreeSet<u64>, texts: &mut BTreeSet<Vec<u8>>) {
    let mut code = String::new();
    let mut in_test = false;
    for l in src.lines() {
        if l.trim_start().starts_with("#[test]") || l.trim_start().starts_with("#[cfg(test)]") {
            in_test = true;
        }
        if in_test {
            in_test = l != "}";
            continue;
        }
        if !l.trim_start().starts_with("//") {
            code.push_str(l);
            code.push('\n');
        }
    }
    let c: Vec<char> = code.chars().collect();
    let mut toks: Vec<T> = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x.is_whitespace() {
            i += 1;
        } else if x.is_alphabetic() || x == '_' {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let w: String = c[s..i].iter().collect();
            // "as usize" between a number and an operator does not matter
            if !["as", "usize", "u64", "u32", "u16", "u8", "i64", "i32"].contains(&w.as_str()) {
                toks.push(T::Other);
            }
        } else if x.is_ascii_digit() {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let w: String = c[s..i].iter().filter(|x| **x != '_').collect();
            let w = ["usize", "u64", "u32", "u16", "u8", "isize", "i64", "i32", "i16", "i8"].iter().fold(w, |w, t| w.strip_suffix(t).map(|s| s.to_string()).unwrap_or(w));
            let v = if let Some(h) = w.strip_prefix("0x") {
                u64::from_str_radix(h, 16)
            } else if let Some(h) = w.strip_prefix("0b") {
                u64::from_str_radix(h, 2)
            } else if let Some(h) = w.strip_prefix("0o") {
                u64::from_str_radix(h, 8)
            } else {
                w.parse()
            };
            toks.push(v.map(T::Num).unwrap_or(T::Other));
        } else if x == '"' {
            let mut s = Vec::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                }
                let mut b = [0; 4];
                s.extend_from_slice(c.get(i).copied().unwrap_or(' ').encode_utf8(&mut b).as_bytes());
                i += 1;
            }
            i += 1;
            if (1..=12).contains(&s.len()) && !s.contains(&b'{') {
                texts.insert(s);
            }
            toks.push(T::Other);
        } else if x == '\'' && c.get(i + 2) == Some(&'\'') {
            nums.insert(c[i + 1] as u64);
            toks.push(T::Num(c[i + 1] as u64));
            i += 3;
        } else {
            if x == '<' && c.get(i + 1) == Some(&'<') {
                toks.push(T::Op('<'));
                i += 1;
            } else if "*+-".contains(x) {
                toks.push(T::Op(x));
            } else {
                toks.push(T::Other);
            }
            i += 1;
        }
    }
    for (j, t) in toks.iter().enumerate() {
        let T::Num(a) = t else { continue };
        nums.insert(*a);
        if let (Some(T::Op(o)), Some(T::Num(b))) = (toks.get(j + 1), toks.get(j + 2)) {
            let v = match o {
                '*' => a.checked_mul(*b),
                '+' => a.checked_add(*b),
                '-' => a.checked_sub(*b),
                _ if *b < 60 && *a < 16 => Some(a << b),
                _ => None,
            };
            nums.extend(v);
        }
    }
}
fn walk(dir: &std::path::Path, nums: &mut BTreeSet<u64>, texts: &mut BTreeSet<Vec<u8>>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut names: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    names.sort();
    for p in names {
        if p.is_dir() {
            walk(&p, nums, texts);
        } else if p.extension().map_or(false, |e| e == "rs") {
            scan(&std::fs::read_to_string(&p).unwrap_or_default(), nums, texts);
        }
    }
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut nums = BTreeSet::new();
        let mut texts = BTreeSet::new();
        walk(std::path::Path::new("/repo/src"), &mut nums, &mut texts);
        let known: BTreeSet<u64> = KNOWN.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let mut nums: Vec<u64> = nums.into_iter().filter(|x| *x > 8).collect();
        if nums.is_empty() {
            nums = known.iter().copied().collect();
        }
        let fresh = nums.iter().copied().filter(|x| !known.contains(x)).collect();
        texts.insert(b"TD".to_vec());
        Dict { nums, fresh, texts: texts.into_iter().collect() }
    })
}
fn around(v: &[u64], max: u64) -> Vec<u64> {
    let mut s: BTreeSet<u64> = v.iter().flat_map(|x| [x.saturating_sub(1), *x, x.saturating_add(1)]).filter(|x| *x <= max).collect();
    if s.is_empty() {
        s.insert(max);
    }
    s.into_iter().collect()
}
/// a number of the source, one less or one more, at most `max`
pub fn num(max: u64) -> BoxedStrategy<u64> {
    let all = prop::sample::select(around(&dict().nums, max));
    let fresh: Vec<u64> = around(&dict().fresh, max);
    if dict().fresh.iter().any(|x| *x <= max) {
        prop_oneof![1 => all, 3 => prop::sample::select(fresh)].boxed()
    } else {
        all.boxed()
    }
}
pub fn len(max: usize) -> BoxedStrategy<usize> {
    num(max as u64).prop_map(|x| x as usize).boxed()
}
/// the same from a source that is no strategy
pub fn pick(m: &mut Mix, max: usize) -> usize {
    let d = dict();
    let v = if d.fresh.iter().any(|x| *x <= max as u64) && m.below(4) > 0 { &d.fresh } else { &d.nums };
    let v: Vec<u64> = v.iter().copied().filter(|x| *x <= max as u64).collect();
    if v.is_empty() {
        return max;
    }
    (v[m.below(v.len())] as usize).wrapping_add([0, 0, 1, usize::MAX][m.below(4)]).min(max)
}
/// a text of the source, or a number as bytes in either order
pub fn bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => prop::sample::select(dict().texts.clone()),
        3 => (num(u64::MAX), any::<bool>()).prop_map(|(x, big)| {
            let mut v = x.to_le_bytes().to_vec();
            while v.len() > 1 && v.last() == Some(&0) {
                v.pop();
            }
            if big {
                v.reverse();
            }
            v
        }),
    ]
    .boxed()
}
