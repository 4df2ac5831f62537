//! bound: WAV: PCM, float and extensible headers and other formats with a fact chunk, fmt chunks of 16, 18 and 40 bytes, every other field value; durations for 12 sample rates from 1 Hz to 2^32-1 Hz with data sizes and sample counts in 4 ranges of 256 (thorough: 4096) and a few sizes for every rate
//! bound: AIFF and AIFF-C: every channel count, frame count and sample size, every integral sample rate below 2^32 (durations for 10 of them), every compression type; chunk orders fmt/fact/data, COMM/SSND and SSND/COMM, unknown chunks in between
//! assume: block alignment and byte rate of a WAV header agree with its channels and sample size where the format derives one from the other; up to 255 channels and bits (the widths of the API)
use crate::sym::*;
use crate::util::*;
use lofty::iff::aiff::{AiffCompressionType, AiffFile};
use lofty::iff::wav::{WavFile, WavFormat};

const RATES: [u32; 12] = [44100, 48000, 8000, 192000, 1, 999, 1000, 1001, 22050, 65536, 0x7fff_ffff, u32::MAX];
/// a number in one of a few ranges of 256 (thorough: 4096)
fn some() -> u32 { [0u32, 0x1000, 0x02fa_f000, 0xffff_e000][choose(4)] + if T { u16() as u32 & 0xfff } else { u8() as u32 } }
struct W { tag: u16, ch: u8, rate: u32, bps: u32, bits: u16, fmt_len: u32, valid: u16, mask: u32, sub: u16, fact: Option<u32>, data: u32, junk: bool }
fn wav(w: &W) -> (Vec<u8>, u64) {
    let mut v = b"RIFF\0\0\0\0WAVE".to_vec();
    if w.junk { v.extend_from_slice(b"junk\x03\0\0\0abc\0"); }
    v.extend_from_slice(b"fmt ");
    v.extend_from_slice(&w.fmt_len.to_le_bytes());
    v.extend_from_slice(&w.tag.to_le_bytes());
    v.extend_from_slice(&(w.ch as u16).to_le_bytes());
    v.extend_from_slice(&w.rate.to_le_bytes());
    v.extend_from_slice(&w.bps.to_le_bytes());
    v.extend_from_slice(&((w.ch as u16).wrapping_mul(w.bits / 8)).to_le_bytes());
    v.extend_from_slice(&w.bits.to_le_bytes());
    if w.fmt_len >= 18 { v.extend_from_slice(&[w.fmt_len as u8 - 18, 0]); }
    if w.fmt_len == 40 {
        v.extend_from_slice(&w.valid.to_le_bytes());
        v.extend_from_slice(&w.mask.to_le_bytes());
        v.extend_from_slice(&w.sub.to_le_bytes());
        v.extend_from_slice(b"\0\0\0\0\x10\0\x80\0\0\xaa\0\x38\x9b\x71");
    }
    if let Some(f) = w.fact { v.extend_from_slice(b"fact\x04\0\0\0"); v.extend_from_slice(&f.to_le_bytes()); }
    v.extend_from_slice(b"data");
    v.extend_from_slice(&w.data.to_le_bytes());
    let len = v.len() as u64 + w.data as u64 + (w.data & 1) as u64;
    let riff = (len - 8) as u32;
    v[4..8].copy_from_slice(&riff.to_le_bytes());
    (v, len)
}
fn read_wav(w: &W) -> Option<(WavFile, u64)> {
    let (v, len) = wav(w);
    let f = WavFile::read_from(&mut Sparse::new(v, len), props());
    check(f.is_ok(), "a well-formed WAV file is read");
    Some((f.ok()?, len))
}
fn base() -> W { W { tag: 1, ch: 2, rate: 44100, bps: 176400, bits: 16, fmt_len: 16, valid: 0, mask: 0, sub: 0, fact: None, data: 4410, junk: false } }
/// durations and bit rates: `samples` at `rate` in a stream of `data` bytes
fn wav_times(f: &WavFile, w: &W, samples: u64, len: u64) {
    let p = f.properties();
    let length = div_round(samples * 1000, w.rate as u64);
    check(ms(p.duration()) == length, "WAV duration");
    if length > 0 {
        check(p.overall_bitrate() == div_round(len * 8, length) as u32, "WAV overall bit rate");
        if w.bps == 0 { check(p.bitrate() == div_round(w.data as u64 * 8, length) as u32, "WAV audio bit rate without a byte rate"); }
    }
    if w.bps > 0 { check(p.bitrate() == div_round(w.bps as u64 * 8, 1000) as u32, "WAV audio bit rate"); }
}
fn f80(rate: u32) -> [u8; 10] {
    // one path per position of the highest bit
    let n = conc(rate.leading_zeros() as u64) as u32;
    if n == 32 { return [0; 10]; }
    let mut o = [0u8; 10];
    o[..2].copy_from_slice(&(16383u16 + 31 - n as u16).to_be_bytes());
    o[2..6].copy_from_slice(&(rate << n).to_be_bytes());
    o
}
struct A { ch: u16, frames: u32, size: u16, rate: [u8; 10], comp: Option<([u8; 4], Vec<u8>)>, ssnd: u32, first: bool }
fn aiff(a: &A) -> (Vec<u8>, u64) {
    let mut v = b"FORM\0\0\0\0AIF".to_vec();
    v.push(if a.comp.is_some() { b'C' } else { b'F' });
    let mut c = vec![];
    c.extend_from_slice(&a.ch.to_be_bytes());
    c.extend_from_slice(&a.frames.to_be_bytes());
    c.extend_from_slice(&a.size.to_be_bytes());
    c.extend_from_slice(&a.rate);
    if let Some((t, n)) = &a.comp { c.extend_from_slice(t); c.push(n.len() as u8); c.extend_from_slice(n); }
    let mut comm = b"COMM".to_vec();
    comm.extend_from_slice(&(c.len() as u32).to_be_bytes());
    comm.extend_from_slice(&c);
    if c.len() % 2 == 1 { comm.push(0); }
    let mut ss = b"SSND".to_vec();
    ss.extend_from_slice(&a.ssnd.to_be_bytes());
    if a.first { v.extend_from_slice(&comm); v.extend_from_slice(b"FVER\0\0\0\x04\xa2\x80\x51\x40"); v.extend_from_slice(&ss); }
    else { v.extend_from_slice(&ss); v.resize(v.len() + a.ssnd as usize + (a.ssnd & 1) as usize, 0); v.extend_from_slice(&comm); }
    let len = if a.first { v.len() as u64 + a.ssnd as u64 + (a.ssnd & 1) as u64 } else { v.len() as u64 };
    let form = (len - 8) as u32;
    v[4..8].copy_from_slice(&form.to_be_bytes());
    (v, len)
}
fn read_aiff(a: &A) -> Option<(AiffFile, u64)> {
    let (v, len) = aiff(a);
    let f = AiffFile::read_from(&mut Sparse::new(v, len), props());
    check(f.is_ok(), "a well-formed AIFF file is read");
    Some((f.ok()?, len))
}
fn abase() -> A { A { ch: 2, frames: 44100, size: 16, rate: f80(44100), comp: None, ssnd: 1008, first: true } }

harnesses! {
    fn h_wav_fields() {
        let mut w = base();
        w.fmt_len = [16, 18, 40][choose(3)];
        w.junk = choose(2) == 1;
        let tag = u16();
        w.bps = u32();
        assume((w.bps == 0) | (w.bps > 62)); // (less than half a kbit/s counts as no byte rate)
        w.ch = u8();
        assume(w.ch > 0);
        let ty = choose(3);
        if ty == 0 { assume((tag == 1) | (tag == 3)); } else { assume((tag != 1) & (tag != 3) & (tag != 0xfffe)); w.fact = Some(if ty == 1 { 1 } else { 44100 }); }
        if w.fmt_len == 40 { w.tag = 0xfffe; w.sub = tag; w.mask = u32(); w.valid = u8() as u16; } else { w.tag = tag; }
        w.bits = 8 * (1 + choose(4) as u16);
        w.data = 2040;
        w.rate = [44100, 1, u32::MAX][choose(3)];
        let Some((f, _)) = read_wav(&w) else { return };
        let p = f.properties();
        check(p.sample_rate() == w.rate, "WAV sample rate");
        check(p.channels() == w.ch, "WAV channels");
        check(p.bit_depth() as u16 == if w.valid > 0 { w.valid } else { w.bits }, "WAV bit depth");
        check(*p.format() == match tag { 1 => WavFormat::PCM, 3 => WavFormat::IEEE_FLOAT, x => WavFormat::Other(x) }, "WAV format");
        check(p.channel_mask().map(|m| m.bits()) == if w.fmt_len == 40 { Some(w.mask) } else { None }, "WAV channel mask");
        if w.bps > 0 { check(p.bitrate() == div_round(w.bps as u64 * 8, 1000) as u32, "WAV audio bit rate"); }
        reach(1);
    }
    fn h_wav_rate() {
        let mut w = base();
        w.rate = u32();
        assume(w.rate > 0);
        let Some((f, _)) = read_wav(&w) else { return };
        check(f.properties().sample_rate() == w.rate, "WAV sample rate");
        reach(2);
    }
    fn h_wav_pcm_time() {
        let mut w = base();
        w.rate = RATES[choose(RATES.len())];
        w.ch = [1, 2, 6][choose(3)];
        w.bits = [8, 16, 24, 32][choose(4)];
        w.bps = if choose(2) == 0 { 0 } else { 1000 };
        let a = w.ch as u32 * (w.bits / 8) as u32;
        w.data = some();
        // a fact chunk does not change what PCM data says
        if choose(2) == 1 { w.fact = Some(7); }
        let k = w.data / a;
        assume(k > 0);
        let Some((f, len)) = read_wav(&w) else { return };
        wav_times(&f, &w, k as u64, len);
        reach(3);
    }
    fn h_wav_fact_time() {
        let mut w = base();
        w.tag = 0x55;
        w.rate = RATES[choose(RATES.len())];
        let n = some();
        assume(n > 0);
        w.fact = Some(n);
        w.bits = [0, 16][choose(2)];
        w.bps = [0, 63, 1000, u32::MAX][choose(4)];
        let Some((f, len)) = read_wav(&w) else { return };
        wav_times(&f, &w, n as u64, len);
        reach(4);
    }
    fn h_wav_byte_rate_time() {
        // no sample rate: the length comes from the byte rate
        let mut w = base();
        w.rate = 0;
        w.bps = RATES[choose(RATES.len())];
        w.data = some();
        assume(w.data > 3);
        let Some((f, len)) = read_wav(&w) else { return };
        let p = f.properties();
        let length = div_round(w.data as u64 * 1000, w.bps as u64);
        check(ms(p.duration()) == length, "WAV duration from the byte rate");
        if length > 0 { check(p.overall_bitrate() == div_round(len * 8, length) as u32, "WAV overall bit rate"); }
        reach(5);
    }
    fn h_wav_reject() {
        let mut w = base();
        match choose(4) {
            0 => { w.ch = 0; }
            1 => { w.data = 0; }
            2 => { let b = u8() as u16; assume(b % 8 != 0); w.bits = b; }
            _ => { let t = u16(); assume((t != 1) & (t != 3) & (t != 0xfffe)); w.tag = t; }
        }
        let (v, len) = wav(&w);
        check(WavFile::read_from(&mut Sparse::new(v, len), props()).is_err(), "an unusable WAV header is rejected");
        reach(6);
    }
    fn h_aiff_fields() {
        let mut a = abase();
        a.ch = u16();
        assume(a.ch > 0);
        a.size = u16();
        a.first = choose(2) == 1;
        if !a.first { a.ssnd = 9; }
        a.frames = [0, 1, 44100][choose(3)];
        let Some((f, _)) = read_aiff(&a) else { return };
        let p = f.properties();
        check(p.channels() == a.ch && p.sample_size() == a.size && p.sample_rate() == 44100, "AIFF fields");
        check(p.compression_type().is_none(), "AIFF is not compressed");
        if a.frames == 0 { check(p.duration().is_zero() && p.audio_bitrate() == 0, "no frames"); }
        reach(7);
    }
    fn h_aiff_rate() {
        let mut a = abase();
        let r = u32();
        a.frames = 0;
        a.rate = f80(r);
        let Some((f, _)) = read_aiff(&a) else { return };
        check(f.properties().sample_rate() == r, "AIFF sample rate");
        reach(8);
    }
    fn h_aiff_rate_range() {
        // sample rates that are not in the range of the API are clamped to it, never turned into another rate
        let mut a = abase();
        a.frames = 0;
        let e = u16();
        assume(e < 0x7fff);
        assume((e < 16381) | (e >= 16383 + 32));
        a.rate[..2].copy_from_slice(&e.to_be_bytes());
        a.rate[2] = 0x80 | u8();
        let (v, len) = aiff(&a);
        let f = AiffFile::read_from(&mut Sparse::new(v, len), props());
        let Ok(f) = f else { check(e > 16383, "a tiny sample rate is read"); return };
        check(f.properties().sample_rate() == if e < 16383 { 0 } else { u32::MAX }, "a sample rate out of range");
        reach(9);
    }
    fn h_aiff_time() {
        let mut a = abase();
        let r = RATES[choose(if T { 12 } else { 10 })];
        a.rate = f80(r);
        // the computation is in floating point: a range of frame counts with arbitrary low bits
        let lo = u8();
        let hi = [0u32, 0x1200, 0xac_4400, 0xffff_ff00][choose(4)];
        a.frames = hi | lo as u32;
        assume(a.frames > 0);
        a.ssnd = [9, 1000, 0x7fff_fff0][choose(3)];
        let Some((f, len)) = read_aiff(&a) else { return };
        let p = f.properties();
        check(ms(p.duration()) == a.frames as u64 * 1000 / r as u64, "AIFF duration");
        let length = a.frames as f64 * 1000.0 / r as f64;
        check(p.overall_bitrate() == ((len as f64) * 8.0 / length + 0.5) as u32, "AIFF overall bit rate");
        check(p.audio_bitrate() == (a.ssnd as f64 * 8.0 / length + 0.5) as u32, "AIFF audio bit rate");
        reach(10);
    }
    fn h_aifc() {
        let mut a = abase();
        const K: [&[u8; 4]; 13] = [b"NONE", b"ACE2", b"ACE8", b"MAC3", b"MAC6", b"sowt", b"fl32", b"fl64", b"alaw", b"ulaw", b"ULAW", b"ALAW", b"FL32"];
        let k = choose(14);
        let t: [u8; 4] = if k < 13 { *K[k] } else { bytes() };
        let n = ascii_str(choose(4)).into_bytes();
        a.comp = Some((t, n.clone()));
        let Some((f, _)) = read_aiff(&a) else { return };
        let p = f.properties();
        let c = p.compression_type();
        use AiffCompressionType as C;
        let want = [C::None, C::ACE2, C::ACE8, C::MAC3, C::MAC6, C::sowt, C::fl32, C::fl64, C::alaw, C::ulaw, C::ULAW, C::ALAW, C::FL32];
        if k < 13 { check(c == Some(&want[k]), "AIFF-C compression type"); reach(11); }
        else if let Some(C::Other { compression_type, compression_name }) = c {
            check(same(compression_type, &t) & same(compression_name.as_bytes(), &n), "AIFF-C unknown compression type");
            reach(12);
        } else { check(c.is_some() && K.iter().any(|x| same(&t[..], &x[..])), "AIFF-C compression type"); }
    }
    fn h_aiff_reject() {
        let mut a = abase();
        let k = choose(3);
        match k { 0 => a.ch = 0, 1 => a.ssnd = 0, _ => { a.rate[0] |= 0x80; } }
        let (v, len) = aiff(&a);
        check(AiffFile::read_from(&mut Sparse::new(v, len), props()).is_err(), "an unusable AIFF header is rejected");
        reach(13);
    }
}
