//! The reference models against material that did not come from this crate
use crate::refs::*;
pub fn run() -> i32 {
    let rd = |n: &str| std::fs::read(format!("/repo/tests/{n}")).expect("test data");
    let std = crate::opts::LzssO::std().p();
    for n in ["hamlet_act_1", "tempest_act_5"] {
        // LZHUF.C output, made from text with CR LF
        let z = rd(&format!("{n}.lzh"));
        let t = rd(&format!("{n}.txt"));
        let len = u32::from_le_bytes([z[0], z[1], z[2], z[3]]) as usize;
        let d = lzss::decode(&z[4..], &std, Some(len));
        let x = lzss::expand_tokens(&d.toks, &std);
        let strip = |v: &[u8]| v.iter().copied().filter(|b| *b != 13).collect::<Vec<u8>>();
        assert_eq!(strip(&x), strip(&t), "{n}");
        assert_eq!(lzss::check_greedy(&d.toks, &x, &std), Ok(()), "{n} is greedy");
        let (back, _) = lzss::encode(&d.toks, &std, Some(len as u32));
        assert_eq!(&back[..], &z[..], "{n} reference encoder");
    }
    // Teledisk output
    let z = rd("td105.adv.td0");
    let x = rd("td105.norm.td0");
    let td = crate::opts::LzwO::td().l();
    assert_eq!(lzw::decode(&z[12..], &td), Ok(x[12..].to_vec()), "td105");
    assert_eq!(lzw::pack(&lzw::greedy(&x[12..], &td), &td), z[12..].to_vec(), "td105 reference encoder");
    assert_eq!(ref_crc16(0, &x[..10]).to_le_bytes(), x[10..12]);
    assert_eq!(ref_crc16(0, &z[..10]).to_le_bytes(), z[10..12]);
    let z = rd("td215.adv.td0");
    let x = rd("td215.norm.td0");
    let y = lzss::expand_tokens(&lzss::decode(&z[12..], &std, None).toks, &std);
    assert_eq!(y[..y.len().min(x.len() - 12)], x[12..][..y.len().min(x.len() - 12)], "td215");
    assert!(y.len() + 12 + 10 > x.len() && y.len() + 12 < x.len() + 10);
    println!("selftest: reference models agree with LZHUF.C and Teledisk files");
    0
}
