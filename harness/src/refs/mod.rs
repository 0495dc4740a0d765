//! Independent reference implementations of the formats, written from the format
//! descriptions.  They share no code with the crate under test.
pub mod bits;
pub mod huff;
pub mod lzss;
pub mod lzw;

/// CRC-16 by explicit polynomial division of (seed-adjusted) message * x^16.
pub fn ref_crc16(seed: u16, buf: &[u8]) -> u16 {
    // message bits followed by 16 zero bits, the seed is added to the first 16 bits
    let mut bits: Vec<bool> = Vec::with_capacity(buf.len() * 8 + 16);
    for b in buf {
        for i in (0..8).rev() {
            bits.push(b >> i & 1 == 1);
        }
    }
    bits.extend(std::iter::repeat(false).take(16));
    for i in 0..16 {
        bits[i] ^= seed >> (15 - i) & 1 == 1;
    }
    // x^16 + 0xA097
    let n = bits.len();
    for i in 0..n - 16 {
        if bits[i] {
            bits[i] = false;
            for j in 0..16 {
                bits[i + 1 + j] ^= 0xA097u32 >> (15 - j) & 1 == 1;
            }
        }
    }
    bits[n - 16..].iter().fold(0u16, |a, b| a << 1 | *b as u16)
}
