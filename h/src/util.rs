//! Shared harness helpers.
use crate::sym::*;
pub use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
pub use lofty::file::{AudioFile, FileType, TaggedFile, TaggedFileExt};
pub use lofty::tag::{Accessor, TagExt};
pub use std::io::{Cursor, Read, Seek, SeekFrom, Write};

/// A string of `n` arbitrary characters other than NUL and the byte order marks U+FEFF and U+FFFE, with its code points.
/// One path per combination of encoded widths up to `wmax` bytes.
pub fn text(n: usize, wmax: usize) -> (String, Vec<u32>) {
    let mut s = vec![];
    let mut cps = vec![];
    for _ in 0..n {
        let c = u32();
        let w = 1 + choose(wmax);
        match w {
            1 => { assume((c > 0) & (c < 0x80)); s.push(c as u8); }
            2 => { assume((c >= 0x80) & (c < 0x800)); s.extend_from_slice(&[0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]); }
            3 => {
                assume((c >= 0x800) & (c < 0x10000) & ((c < 0xd800) | (c > 0xdfff)) & (c != 0xfeff) & (c != 0xfffe));
                s.extend_from_slice(&[0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]);
            }
            _ => {
                assume((c >= 0x10000) & (c < 0x110000));
                s.extend_from_slice(&[0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]);
            }
        }
        cps.push((w as u32) << 24 | c);
    }
    (unsafe { String::from_utf8_unchecked(s) }, cps)
}
/// UTF-16 code units of the code points from `text`
pub fn utf16(cps: &[u32], be: bool) -> Vec<u8> {
    let mut o = vec![];
    let mut put = |u: u16| { let b = if be { u.to_be_bytes() } else { u.to_le_bytes() }; o.extend_from_slice(&b); };
    for c in cps {
        let v = c & 0xff_ffff;
        if c >> 24 == 4 { let v = v - 0x10000; put(0xd800 | (v >> 10) as u16); put(0xdc00 | (v & 0x3ff) as u16); } else { put(v as u16); }
    }
    o
}
/// A file of `len` bytes that begins with `head` and holds zeros from there on; read like a `File`.
pub struct Sparse { pub head: Vec<u8>, pub pos: u64, pub len: u64 }
impl Sparse { pub fn new(head: Vec<u8>, len: u64) -> Sparse { Sparse { head, pos: 0, len } } }
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.pos >= self.len { return Ok(0); }
        if (self.pos as usize) < self.head.len() {
            let p = self.pos as usize;
            let n = b.len().min(self.head.len() - p);
            b[..n].copy_from_slice(&self.head[p..p + n]);
            self.pos += n as u64;
            return Ok(n);
        }
        let n = (self.len - self.pos).min(b.len() as u64) as usize;
        b[..n].fill(0);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p { SeekFrom::Start(n) => n as i64, SeekFrom::Current(d) => self.pos as i64 + d, SeekFrom::End(d) => self.len as i64 + d };
        if n < 0 { return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput)); }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
/// `(a + b / 2) / b`, the rounding the property readers use
pub fn div_round(a: u64, b: u64) -> u64 { (a + b / 2) / b }
pub fn props() -> ParseOptions { ParseOptions::new().read_tags(false).read_cover_art(false) }
pub fn ms(d: std::time::Duration) -> u64 { d.as_secs() * 1000 + d.subsec_millis() as u64 }
/// An Ogg page with a checksum of 0
pub fn page(flags: u8, granule: u64, serial: u32, seq: u32, segs: &[u8], body: &[u8]) -> Vec<u8> {
    let mut v = b"OggS\0".to_vec();
    v.push(flags);
    v.extend_from_slice(&granule.to_le_bytes());
    v.extend_from_slice(&serial.to_le_bytes());
    v.extend_from_slice(&seq.to_le_bytes());
    v.extend_from_slice(&[0; 4]);
    v.push(segs.len() as u8);
    v.extend_from_slice(segs);
    v.extend_from_slice(body);
    v
}
/// The lacing values of a packet
pub fn lace(n: usize) -> Vec<u8> { let mut v = vec![255; n / 255]; v.push((n % 255) as u8); v }
