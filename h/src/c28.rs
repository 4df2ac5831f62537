//! bound: integers: every u8, u16 and u32 value
//! bound: unsynchronised streams of up to 4 (thorough 5) arbitrary payload bytes, delivered and requested in arbitrary pieces; streams crossing the decoder's 8192-byte buffer with 4 arbitrary bytes around the boundary
//! bound: ID3v2.2, 2.3 and 2.4 tags with one binary frame of 4 (thorough 6) arbitrary bytes, unsynchronised per tag or per frame
use crate::sym::*;
use crate::util::*;
use lofty::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};

/// Insert a zero after every 0xFF that is followed by a byte with three top bits set, by zero, or by the end
pub fn unsync(data: &[u8], every: bool) -> Vec<u8> {
    let mut o = vec![];
    for (i, b) in data.iter().enumerate() {
        o.push(*b);
        if decide(*b == 0xff) {
            let need = match data.get(i + 1) { None => true, Some(n) => every | (*n >= 0xe0) | (*n == 0) };
            if decide(need) { o.push(0); }
        }
    }
    o
}

/// Hands out at most the next planned number of bytes per call
pub struct Pieces<'a> { pub data: &'a [u8], pub at: usize, pub plan: Vec<usize>, pub k: usize }
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let lim = if self.k < self.plan.len() { self.plan[self.k] } else { usize::MAX };
        self.k += 1;
        let n = lim.min(b.len()).min(self.data.len() - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn tag_with(version: u8, flags: u8, frame: &[u8]) -> Vec<u8> {
    let mut v = b"ID3".to_vec();
    v.extend_from_slice(&[version, 0, flags, 0, 0, 0, frame.len() as u8]);
    v.extend_from_slice(frame);
    v
}
fn mpeg() -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..2 { v.extend_from_slice(&[0xff, 0xfb, 0x90, 0x64]); v.resize(v.len() + 413, 0); }
    v
}
/// The data of the only frame with this identifier
fn frame_data(f: &lofty::mpeg::MpegFile, id: &str) -> Option<Vec<u8>> {
    let t = f.id3v2()?;
    for fr in t.clone() { if fr.id_str() == id { if let lofty::id3::v2::Frame::Binary(b) = fr { return Some(b.data.into_owned()); } } }
    None
}

harnesses! {
    fn h_u8() {
        let n = u8();
        match n.synch() {
            Ok(s) => { check(n <= 0x7f, "u8: a value that does not fit was encoded"); check(s & 0x80 == 0, "u8: top bit set"); check(s.unsynch() == n, "u8: round trip"); reach(1) }
            Err(_) => { check(n > 0x7f, "u8: a representable value was rejected"); reach(2) }
        }
        let w = n.widening_synch();
        check(w & 0x8080 == 0, "u8 widening: top bit set");
        check(w.unsynch() == n as u16, "u8 widening: round trip");
        check(n.unsynch() == n & 0x7f, "u8 unsynch");
    }
    fn h_u16() {
        let n = u16();
        match n.synch() {
            Ok(s) => { check(n <= 0x3fff, "u16: a value that does not fit was encoded"); check(s & 0x8080 == 0, "u16: top bit set"); check(s.unsynch() == n, "u16: round trip"); reach(3) }
            Err(_) => { check(n > 0x3fff, "u16: a representable value was rejected"); reach(4) }
        }
        let w = n.widening_synch();
        check(w & 0x8080_8080 == 0, "u16 widening: top bit set");
        check(w.unsynch() == n as u32, "u16 widening: round trip");
        check(n.unsynch() == (n & 0x7f) | ((n >> 8 & 0x7f) << 7), "u16 unsynch");
    }
    fn h_u32() {
        let n = u32();
        match n.synch() {
            Ok(s) => {
                check(n <= 0x0fff_ffff, "u32: a value that does not fit was encoded");
                check(s & 0x8080_8080 == 0, "u32: top bit set");
                check(s.unsynch() == n, "u32: round trip");
                check(s.to_be_bytes() == [(n >> 21) as u8 & 0x7f, (n >> 14) as u8 & 0x7f, (n >> 7) as u8 & 0x7f, n as u8 & 0x7f], "u32: seven bits per byte, most significant first");
                reach(5)
            }
            Err(_) => { check(n > 0x0fff_ffff, "u32: a representable value was rejected"); reach(6) }
        }
        let w = n.widening_synch();
        check(w & 0x8080_8080_8080_8080 == 0, "u32 widening: top bit set");
        let mut back = 0u64;
        for i in 0..8 { back |= (w >> (8 * i) & 0x7f) << (7 * i); }
        check(back == n as u64, "u32 widening: value");
        check(n.unsynch() == (n & 0x7f) | ((n >> 8 & 0x7f) << 7) | ((n >> 16 & 0x7f) << 14) | ((n >> 24 & 0x7f) << 21), "u32 unsynch");
    }
    fn h_stream() {
        let n = choose(t(5, 6));
        let data = vec(n);
        let every = choose(2) == 1;
        let enc = unsync(&data, every);
        if enc.len() > n { reach(7) }
        // the producer's pieces, then the consumer's
        let mut plan = vec![];
        let mut left = enc.len();
        while left > 0 && plan.len() < 4 { let k = 1 + choose(left.min(3)); plan.push(k); left -= k; }
        let mut s = UnsynchronizedStream::new(Pieces { data: &enc, at: 0, plan, k: 0 });
        let mut out = vec![];
        let step = 1 + choose(3);
        let mut buf = [0u8; 3];
        for _ in 0..n + 2 {
            let k = s.read(&mut buf[..step]).unwrap();
            check(k <= step, "more bytes than asked for");
            if k == 0 { break; }
            out.extend_from_slice(&buf[..k]);
        }
        check(same(&out, &data), "removing unsynchronisation restores the bytes");
        reach(8);
    }
    fn h_stream_all() {
        let n = choose(t(5, 6));
        let data = vec(n);
        let enc = unsync(&data, false);
        let mut s = UnsynchronizedStream::new(&enc[..]);
        let mut out = vec![];
        s.read_to_end(&mut out).unwrap();
        check(same(&out, &data), "read_to_end restores the bytes");
        check(s.into_inner().is_empty(), "the whole stream is consumed");
        reach(9);
    }
    fn h_stream_boundary() {
        // the 8192-byte refill boundary falls inside the arbitrary bytes
        let pre = 8189 + choose(3);
        let d = vec(4);
        let mut data = vec![0x11u8; pre];
        data.extend_from_slice(&d);
        let mut enc = vec![0x11u8; pre];
        enc.extend_from_slice(&unsync(&d, false));
        let mut s = UnsynchronizedStream::new(&enc[..]);
        let mut out = vec![0u8; data.len() + 4];
        let mut at = 0;
        loop { let k = s.read(&mut out[at..]).unwrap(); if k == 0 { break; } at += k; }
        check(at == data.len(), "length across the refill boundary");
        check(same(&out[pre..at], &d), "bytes across the refill boundary");
        reach(10);
    }
    fn h_tag_v3() {
        let n = t(4, 6);
        let data = vec(n);
        let mut fr = b"ABCD".to_vec();
        fr.extend_from_slice(&[0, 0, 0, n as u8, 0, 0]);
        fr.extend_from_slice(&data);
        let mut v = tag_with(3, 0x80, &unsync(&fr, false));
        v.extend(mpeg());
        let f = lofty::mpeg::MpegFile::read_from(&mut Cursor::new(&v[..]), ParseOptions::new().read_properties(false));
        check(f.is_ok(), "v2.3 tag accepted");
        if let Ok(f) = f {
            let got = frame_data(&f, "ABCD");
            check(got.is_some(), "v2.3 frame present");
            if let Some(g) = got { check(same(&g, &data), "v2.3 unsynchronised tag content"); reach(11); }
        }
    }
    fn h_tag_v2() {
        let n = t(4, 6);
        let data = vec(n);
        let mut fr = b"ABC".to_vec();
        fr.extend_from_slice(&[0, 0, n as u8]);
        fr.extend_from_slice(&data);
        let mut v = tag_with(2, 0x80, &unsync(&fr, false));
        v.extend(mpeg());
        let f = lofty::mpeg::MpegFile::read_from(&mut Cursor::new(&v[..]), ParseOptions::new().read_properties(false));
        check(f.is_ok(), "v2.2 tag accepted");
        if let Ok(f) = f {
            let got = frame_data(&f, "ABC");
            check(got.is_some(), "v2.2 frame present");
            if let Some(g) = got { check(same(&g, &data), "v2.2 unsynchronised tag content"); reach(12); }
        }
    }
    fn h_tag_v4() {
        // frame flag, tag flag, or both; with and without a data length indicator
        let n = t(4, 6);
        let data = vec(n);
        let enc = unsync(&data, false);
        let how = choose(3);
        let dli = choose(2) == 1;
        let mut fr = b"ABCD".to_vec();
        let len = enc.len() + if dli { 4 } else { 0 };
        fr.extend_from_slice(&[0, 0, 0, len as u8, 0, (if how != 0 { 2 } else { 0 }) | (if dli { 1 } else { 0 })]);
        if dli { fr.extend_from_slice(&[0, 0, 0, n as u8]); }
        fr.extend_from_slice(&enc);
        fr.extend_from_slice(b"EFGH\0\0\0\x02\0\0\x01\x02");
        let mut v = tag_with(4, if how != 1 { 0x80 } else { 0 }, &fr);
        v.extend(mpeg());
        let f = lofty::mpeg::MpegFile::read_from(&mut Cursor::new(&v[..]), ParseOptions::new().read_properties(false));
        check(f.is_ok(), "v2.4 tag accepted");
        if let Ok(f) = f {
            let got = frame_data(&f, "ABCD");
            check(got.is_some(), "v2.4 frame present");
            if let Some(g) = got { check(same(&g, &data), "v2.4 unsynchronised frame content"); reach(13); }
            let next = frame_data(&f, "EFGH");
            check(next.as_deref() == Some(&[1u8, 2][..]), "the following v2.4 frame is intact");
        }
    }
}
