//! bound: every value of every STREAMINFO field; durations and bit rates for 8 sample rates with sample counts in 6 ranges of 256 up to 2^36-1 and stream lengths in 4 ranges of 256; 0 to 2 further metadata blocks of every type, ID3v2 tag in front or not
//! assume: for arbitrary sample rates the bit rates are compared for a few sample counts
use crate::sym::*;
use crate::util::*;
use lofty::flac::FlacFile;

struct F { min_b: u16, max_b: u16, min_f: u32, max_f: u32, rate: u32, ch: u8, bps: u8, total: u64, md5: [u8; 16], extra: Vec<(u8, usize)>, id3: bool, stream: u64 }
fn base() -> F { F { min_b: 4096, max_b: 4096, min_f: 1, max_f: 2, rate: 44100, ch: 2, bps: 16, total: 44100, md5: [7; 16], extra: vec![], id3: false, stream: 1000 } }
fn file(f: &F) -> (Vec<u8>, u64) {
    let mut v = if f.id3 { b"ID3\x04\0\0\0\0\0\x05\0\0\0\0\0".to_vec() } else { vec![] };
    v.extend_from_slice(b"fLaC");
    v.extend_from_slice(&[if f.extra.is_empty() { 0x80 } else { 0 }, 0, 0, 34]);
    v.extend_from_slice(&f.min_b.to_be_bytes());
    v.extend_from_slice(&f.max_b.to_be_bytes());
    v.extend_from_slice(&f.min_f.to_be_bytes()[1..]);
    v.extend_from_slice(&f.max_f.to_be_bytes()[1..]);
    let x = (f.rate as u64) << 44 | (f.ch as u64 - 1) << 41 | (f.bps as u64 - 1) << 36 | f.total;
    v.extend_from_slice(&x.to_be_bytes());
    v.extend_from_slice(&f.md5);
    for (k, (t, n)) in f.extra.iter().enumerate() {
        v.push(t | if k + 1 == f.extra.len() { 0x80 } else { 0 });
        v.extend_from_slice(&(*n as u32).to_be_bytes()[1..]);
        v.resize(v.len() + n, 0);
    }
    let len = v.len() as u64 + f.stream;
    (v, len)
}
fn run(f: &F) -> Option<(FlacFile, u64)> {
    let (v, len) = file(f);
    let r = FlacFile::read_from(&mut Sparse::new(v, len), props());
    check(r.is_ok(), "a well-formed FLAC file is read");
    Some((r.ok()?, len))
}
harnesses! {
    fn h_fields() {
        let mut f = base();
        f.min_b = u16(); f.max_b = u16(); f.min_f = u32() >> 8; f.max_f = u32() >> 8;
        f.rate = u32() >> 12;
        f.ch = 1 + (u8() & 7);
        f.bps = 1 + (u8() & 31);
        f.md5 = bytes();
        f.total = [0, 44100, (1 << 36) - 1][choose(3)];
        f.id3 = choose(2) == 1;
        for _ in 0..choose(3) { let t = 1 + u8() % 126; f.extra.push((t, [0, 1, 40][choose(3)])); }
        let Some((r, _)) = run(&f) else { return };
        let p = r.properties();
        check(p.sample_rate() == f.rate, "FLAC sample rate");
        check(p.channels() == f.ch, "FLAC channels");
        check(p.bit_depth() == f.bps, "FLAC bit depth");
        check(p.signature() == u128::from_be_bytes(f.md5), "FLAC signature");
        if f.total == 0 { check(p.duration().is_zero() && p.overall_bitrate() == 0 && p.audio_bitrate() == 0, "unknown length"); }
        reach(1);
    }
    fn h_time() {
        let mut f = base();
        f.rate = [44100, 1, 8000, 48000, 192000, 96001, 655350, 0xfffff][choose(8)];
        let lo = if T { u16() as u64 & 0xfff } else { u8() as u64 };
        f.total = [0u64, 0x4000, 0xffff_f000, 0x1_0000_0000, 0x5_4321_0000, 0xf_ffff_f000][choose(6)] + lo;
        f.stream = [0u64, 100_000, 0x7fff_ff00, 0xffff_ff00][choose(4)] + if T { 17 } else { 3 };
        let Some((r, len)) = run(&f) else { return };
        let p = r.properties();
        let d = f.total * 1000 / f.rate as u64;
        check(ms(p.duration()) == d, "FLAC duration");
        if d > 0 {
            check(p.overall_bitrate() == (len * 8 / d) as u32, "FLAC overall bit rate");
            check(p.audio_bitrate() == (f.stream * 8 / d) as u32, "FLAC audio bit rate");
            reach(2);
        }
    }
    fn h_stream() {
        let mut f = base();
        f.stream = [0u64, 100_000, 0x7fff_ff00, 0xffff_ff00][choose(4)] + u8() as u64 + 1;
        for _ in 0..choose(2) { f.extra.push((1, [3, 40][choose(2)])); }
        f.total = [4410, 44100 * 60][choose(2)];
        let Some((r, len)) = run(&f) else { return };
        let p = r.properties();
        let d = f.total * 1000 / 44100;
        check(p.overall_bitrate() == (len * 8 / d) as u32, "FLAC overall bit rate");
        check(p.audio_bitrate() == (f.stream * 8 / d) as u32, "FLAC audio bit rate");
        reach(3);
    }
    fn h_reject() {
        // the first block has to be STREAMINFO
        let f = base();
        let (mut v, len) = file(&f);
        let t = u8();
        v[4] = t;
        let r = FlacFile::read_from(&mut Sparse::new(v, len), props());
        check(r.is_err() | (t & 0x7f == 0), "a first block other than STREAMINFO is rejected");
        if r.is_ok() { reach(4); } else { reach(5); }
    }
    fn h_reject_marker() {
        let f = base();
        let (mut v, len) = file(&f);
        let m: [u8; 4] = bytes();
        assume(!same(&m, b"fLaC"));
        v[..4].copy_from_slice(&m);
        check(FlacFile::read_from(&mut Sparse::new(v, len), props()).is_err(), "a file without the FLAC marker is rejected");
        reach(6);
    }
}
