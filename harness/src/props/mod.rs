//! The properties as executable checks
pub mod codec;
pub mod cli;
pub mod lzss;
pub mod lzw;
pub mod robust;
pub mod streams;
pub mod td0;

use crate::driver::guard;
use crate::io::{Cap, CapR};
use crate::opts::Method;
use std::io::Cursor;

pub type DynErr = Box<dyn std::error::Error>;

/// name of the crate's error kind, or "other"
pub fn kind(e: &DynErr) -> &'static str {
    match e.downcast_ref::<retrocompressor::Error>() {
        Some(retrocompressor::Error::FileFormatMismatch) => "FileFormatMismatch",
        Some(retrocompressor::Error::FileTooLarge) => "FileTooLarge",
        Some(retrocompressor::Error::BadChecksum) => "BadChecksum",
        #[allow(unreachable_patterns)]
        Some(_) => "unknown variant",
        None => "other",
    }
}

pub struct Out {
    pub bytes: Vec<u8>,
    pub sizes: (u64, u64),
}

/// compress valid data into a fresh stream, any failure is a violation
pub fn comp(m: &Method, plain: &[u8]) -> Result<Out, String> {
    let mut w = Cap::new(vec![], 64 * plain.len() + 100_000);
    let r = guard(&format!("{} compress panicked", m.name()), || m.compress(&mut CapR::new(plain), &mut w))?;
    match r {
        Ok(sizes) => Ok(Out { bytes: w.c.into_inner(), sizes }),
        Err(e) => Err(format!("{} compress failed on valid data of {} bytes: {e}", m.name(), plain.len())),
    }
}
/// expand anything into a fresh stream limited to `max` bytes, a panic is a violation
pub fn expand_any(m: &Method, comp: &[u8], max: usize) -> Result<Result<Out, (DynErr, bool)>, String> {
    let mut w = Cap::new(vec![], max);
    let mut rd = CapR::new(comp);
    let r = guard(&format!("{} expand panicked", m.name()), || m.expand(&mut rd, &mut w))?;
    Ok(match r {
        Ok(sizes) => Ok(Out { bytes: w.c.into_inner(), sizes }),
        Err(e) => Err((e, w.hit || rd.hit())),
    })
}
/// expand a valid stream, any failure is a violation
pub fn expand_ok(m: &Method, comp: &[u8], expect: usize) -> Result<Out, String> {
    match expand_any(m, comp, expect + 100_000)? {
        Ok(o) => Ok(o),
        Err((e, _)) => Err(format!("{} expand failed on a valid stream of {} bytes: {e}", m.name(), comp.len())),
    }
}
/// expansion must be the data, then at most `slack` bytes
pub fn same(what: &str, got: &[u8], want: &[u8], slack: usize) -> Result<(), String> {
    let n = got.len().min(want.len());
    if let Some(i) = (0..n).find(|i| got[*i] != want[*i]) {
        return Err(format!("{what}: byte {i} is {:#04x}, expected {:#04x} (lengths {} and {})", got[i], want[i], got.len(), want.len()));
    }
    if got.len() < want.len() {
        return Err(format!("{what}: {} bytes, expected {}", got.len(), want.len()));
    }
    if got.len() > want.len() + slack {
        return Err(format!("{what}: {} bytes, expected {} and at most {slack} more", got.len(), want.len()));
    }
    Ok(())
}
