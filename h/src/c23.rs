//! bound: Monkey's Audio: every version; blocks per frame and final blocks in 256 values each, frame counts 1..256, five sample rates, every depth and channel count; descriptors of 52..60 bytes; every compression level and flag word of the old header
//! bound: WavPack: every flag word with a standard sample rate, stream version and channel chunk (1 to 7 bytes, every channel count and mask), metadata before it of 0..5 bytes in both size forms and of seven sizes up to 256 KiB; 256 non-standard rates; DSD multipliers 0..29; up to two skipped blocks
//! bound: Musepack: every SV8 stream header byte with variable-length counts of 1..3 bytes (and 9 bytes for absence of overflow), SV7 fields (replay gains in 8 ranges of 256) with frame counts of 8 bits at two magnitudes, SV4-6 headers; replay-gain peaks limited to 0; the SV4-6 bitrate is not checked (an existing test pins an estimate)
//! assume: APE overall bitrates may leave out up to 24 bytes (an existing test pins a file length without the ID3v1 tag)
//! secs: 60
use crate::sym::*;
use crate::util::*;
use lofty::ape::ApeFile;
use lofty::musepack::{MpcFile, MpcProperties, MpcStreamVersion};
use lofty::wavpack::WavPackFile;

const LEN: u64 = 400_000;
fn strict() -> ParseOptions { props().parsing_mode(ParsingMode::Strict) }
fn kbps(len: u64, samples: u64, rate: u32) -> u32 { (len as f64 * 8.0 / (samples as f64 * 1000.0 / rate as f64) + 0.5) as u32 }
fn dur(samples: u64, rate: u32) -> u64 { (samples as f64 * 1000.0 / rate as f64 + 0.5) as u64 }
fn rate() -> u32 { [44100u32, 8000, 48000, 11025, 192_000][choose(5)] }

fn ape_new(version: u16, extra: usize, bpf: u32, last: u32, frames: u32, bits: u16, ch: u16, rate: u32) -> Vec<u8> {
    let mut v = b"MAC ".to_vec();
    v.extend_from_slice(&version.to_le_bytes());
    v.extend_from_slice(&[0, 0]);
    v.extend_from_slice(&(52 + extra as u32).to_le_bytes());
    v.extend_from_slice(&[0x5a; 40]);
    v.extend(vec![0xa5; extra]);
    v.extend_from_slice(&[1, 2, 3, 4]);
    for x in [bpf, last, frames] { v.extend_from_slice(&x.to_le_bytes()); }
    for x in [bits, ch] { v.extend_from_slice(&x.to_le_bytes()); }
    v.extend_from_slice(&rate.to_le_bytes());
    v
}
fn ape_old(version: u16, level: u16, flags: u16, ch: u16, rate: u32, frames: u32, last: u32) -> Vec<u8> {
    let mut v = b"MAC ".to_vec();
    for x in [version, level, flags, ch] { v.extend_from_slice(&x.to_le_bytes()); }
    v.extend_from_slice(&rate.to_le_bytes());
    v.extend_from_slice(&[0x77; 8]);
    for x in [frames, last] { v.extend_from_slice(&x.to_le_bytes()); }
    v
}
fn ape(v: &[u8], n: u64) -> Option<ApeFile> {
    let r = ApeFile::read_from(&mut Sparse::new(v.to_vec(), n), props());
    check(r.is_ok(), "a well-formed APE file is read");
    r.ok()
}
fn ape_check(f: &ApeFile, version: u16, bits: u8, ch: u8, rate: u32, samples: u64) {
    let p = f.properties();
    check(p.version() == version, "APE version");
    check(p.bit_depth() == bits, "APE bit depth");
    check(p.channels() == ch, "APE channels");
    check(p.sample_rate() == rate, "APE sample rate");
    check(ms(p.duration()) == dur(samples, rate), "APE duration");
    check(p.bitrate() == kbps(LEN, samples, rate), "APE audio bitrate");
    check((p.overall_bitrate() <= kbps(LEN, samples, rate)) & (p.overall_bitrate() >= kbps(LEN - 24, samples, rate)), "APE overall bitrate");
}

struct Wv { version: u16, total: u32, samples: u32, flags: u32, meta: Vec<u8> }
fn wv(blocks: &[Wv]) -> Vec<u8> {
    let mut v = vec![];
    for b in blocks {
        v.extend_from_slice(b"wvpk");
        v.extend_from_slice(&(24 + b.meta.len() as u32).to_le_bytes());
        v.extend_from_slice(&b.version.to_le_bytes());
        v.extend_from_slice(&[0x11, 0x22]);
        v.extend_from_slice(&b.total.to_le_bytes());
        v.extend_from_slice(&[0x33; 4]);
        v.extend_from_slice(&b.samples.to_le_bytes());
        v.extend_from_slice(&b.flags.to_le_bytes());
        v.extend_from_slice(&[0x44; 4]);
        v.extend_from_slice(&b.meta);
    }
    v
}
// a WavPack metadata chunk
fn chunk(id: u8, data: &[u8], large: bool) -> Vec<u8> {
    let words = (data.len() + 1) / 2;
    let odd = if data.len() % 2 == 1 { 0x40 } else { 0 };
    let mut v = vec![id | odd | if large { 0x80 } else { 0 }, words as u8];
    if large { v.extend_from_slice(&[0, 0]); }
    v.extend_from_slice(data);
    if odd != 0 { v.push(0); }
    v
}
fn wv_read(v: &[u8]) -> Option<WavPackFile> {
    let r = WavPackFile::read_from(&mut Sparse::new(v.to_vec(), LEN), strict());
    check(r.is_ok(), "a well-formed WavPack file is read");
    r.ok()
}
const WV_RATES: [u32; 15] = [6000, 8000, 9600, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 192_000];
const R441: u32 = 9 << 23;

fn mpc(v: &[u8], n: u64) -> Option<MpcFile> {
    let r = MpcFile::read_from(&mut Sparse::new(v.to_vec(), n), props());
    check(r.is_ok(), "a well-formed Musepack file is read");
    r.ok()
}
// a variable-length number of n bytes
fn vl(v: &mut Vec<u8>, x: u64, n: usize) {
    for i in (0..n).rev() { v.push((x >> (7 * i)) as u8 & 0x7f | if i > 0 { 0x80 } else { 0 }); }
}
fn packet(key: &[u8; 2], data: &[u8]) -> Vec<u8> {
    let mut v = key.to_vec();
    v.push(data.len() as u8 + 3);
    v.extend_from_slice(data);
    v
}
fn sv8(sh: &[u8], mid: &[u8]) -> Vec<u8> {
    let mut v = b"MPCK".to_vec();
    v.extend(packet(b"SH", sh));
    v.extend_from_slice(mid);
    v.extend(packet(b"AP", &[0x99; 50]));
    v.extend(packet(b"SE", &[]));
    v.extend_from_slice(&[0; 160]);
    v
}
const FREQ: [u32; 4] = [44100, 48000, 37800, 32000];

harnesses! {
    fn h_ape_new() {
        let (ver, bits) = (u16(), u8());
        let (b, l, fr, ch) = (u8(), u8(), u8(), u8());
        assume((ver >= 3980) & (fr > 0) & (ch >= 1) & (ch <= 32));
        let which = choose(3);
        // one symbolic operand of the sample count at a time
        let (bpf, last, frames) = match which { 0 => (1000 + b as u32, 77, 3), 1 => (73728 * 4, l as u32, 2), _ => (4608, 100, fr as u32) };
        let rate = rate();
        let Some(f) = ape(&ape_new(ver, choose(3) * 4, bpf, last, frames, bits as u16, ch as u16, rate), LEN) else { return };
        ape_check(&f, ver, bits, ch, rate, last as u64 + bpf as u64 * (frames as u64 - 1));
        reach(1);
    }
    fn h_ape_short() {
        // single frames, down to no samples at all
        let l = u8();
        let Some(f) = ape(&ape_new(3990, 0, 1000, l as u32, 1, 16, 2, 44100), LEN) else { return };
        if l == 0 { check(ms(f.properties().duration()) == 0, "no samples, no duration"); reach(1); return; }
        ape_check(&f, 3990, 16, 2, 44100, l as u64);
        reach(2);
    }
    fn h_ape_old() {
        let (ver, level, flags) = (u16(), u16(), u16());
        let ch = u8();
        assume((ver < 3980) & (ch >= 1) & (ch <= 32));
        let Some(f) = ape(&ape_old(ver, level, flags, ch as u16, 44100, 4, 200), LEN) else { return };
        let bpf = if ver >= 3950 { 73728 * 4 } else if ver >= 3900 { 73728 } else if ver >= 3800 && level >= 4000 { 73728 } else { 9216 };
        let bits = if flags & 1 == 1 { 8 } else if flags & 8 == 8 { 24 } else { 16 };
        ape_check(&f, ver, bits, ch, 44100, 200 + bpf * 3);
        reach(1);
    }
    fn h_ape_none() {
        // no frames or an unusable channel count: no duration, and refused by the strict mode
        let (ver, fr, ch) = (u16(), u32(), u8());
        assume((fr == 0) | (ch == 0) | (ch > 32));
        let v = if ver >= 3980 { ape_new(ver, 0, 1000, 10, fr, 16, ch as u16, 44100) } else { ape_old(ver, 0, 0, ch as u16, 44100, fr, 10) };
        let r = ApeFile::read_from(&mut Sparse::new(v.clone(), LEN), props());
        check(r.is_ok(), "read");
        let Ok(f) = r else { return };
        check(ms(f.properties().duration()) == 0 && f.properties().bitrate() == 0, "no duration");
        check(ApeFile::read_from(&mut Sparse::new(v, LEN), strict()).is_err(), "refused by the strict mode");
        reach(1);
    }
    fn h_ape_tags() {
        // tags around the audio do not count towards the audio bitrate
        let (id3v2, ap, v1) = (choose(2) == 1, choose(3), choose(2) == 1);
        let mut v = vec![];
        if id3v2 { v.extend_from_slice(b"ID3\x04\0\0\0\0\x07\x76"); v.extend(vec![0; 1014]); }
        let audio = ape_new(3990, 0, 100, 100, 1, 16, 2, 44100);
        let n = audio.len();
        v.extend(audio);
        if ap > 0 {
            let end = b"APETAGEX\xd0\x07\0\0\x20\0\0\0\0\0\0\0";
            if ap == 2 { v.extend_from_slice(end); v.extend_from_slice(&[0, 0, 0, 0xa0, 0, 0, 0, 0, 0, 0, 0, 0]); }
            v.extend_from_slice(end);
            v.extend_from_slice(&[0, 0, 0, if ap == 2 { 0x80 } else { 0 }, 0, 0, 0, 0, 0, 0, 0, 0]);
        }
        if v1 { v.extend_from_slice(b"TAG"); v.extend(vec![0; 125]); }
        let r = ApeFile::read_from(&mut Cursor::new(&v), props().read_tags(choose(2) == 1));
        check(r.is_ok(), "read");
        let Ok(f) = r else { return };
        // 100 samples at 44100 Hz
        check(f.properties().bitrate() == kbps(n as u64, 100, 44100), "tags do not count");
        reach(1);
    }
    fn h_wv_flags() {
        let ri = choose(15);
        let fl = u32() & 0x787f_e7ff | 0x1800 | (ri as u32) << 23;
        let ver = u16();
        assume((ver >= 0x402) & (ver <= 0x410));
        let Some(f) = wv_read(&wv(&[Wv { version: ver, total: 123_456, samples: 100, flags: fl, meta: vec![] }])) else { return };
        let p = f.properties();
        check(p.version() == ver, "WavPack version");
        check(p.sample_rate() == WV_RATES[ri], "WavPack sample rate");
        check(p.bit_depth() as u32 == ((fl & 3) * 8 + 8).saturating_sub(fl >> 13 & 31), "WavPack bit depth");
        check(p.is_lossless() == (fl & 8 == 0), "WavPack profile");
        check(p.channels() == if fl & 4 != 0 { 1 } else { 2 }, "WavPack channels");
        check(p.channel_mask().bits() == if fl & 4 != 0 { 4 } else { 3 }, "WavPack channel mask");
        check(ms(p.duration()) == dur(123_456, WV_RATES[ri]), "WavPack duration");
        check(p.audio_bitrate() == kbps(LEN, 123_456, WV_RATES[ri]), "WavPack audio bitrate");
        check(p.overall_bitrate() == kbps(LEN, 123_456, WV_RATES[ri]), "WavPack overall bitrate");
        reach(1);
    }
    fn h_wv_samples() {
        let t = u8();
        let base = [1u32, 44100, 0xffff_fe00][choose(3)];
        let total = base + t as u32;
        let Some(f) = wv_read(&wv(&[Wv { version: 0x410, total, samples: 1, flags: R441 | 0x1801, meta: vec![] }])) else { return };
        let p = f.properties();
        check(ms(p.duration()) == dur(total as u64, 44100), "WavPack duration");
        check(p.audio_bitrate() == kbps(LEN, total as u64, 44100), "WavPack audio bitrate");
        reach(1);
    }
    fn h_wv_version() {
        let ver = u16();
        assume((ver < 0x402) | (ver > 0x410));
        let v = wv(&[Wv { version: ver, total: 1000, samples: 1, flags: R441 | 0x1801, meta: vec![] }]);
        check(WavPackFile::read_from(&mut Sparse::new(v.clone(), LEN), strict()).is_err(), "unsupported versions are refused by the strict mode");
        let r = WavPackFile::read_from(&mut Sparse::new(v, LEN), props());
        check(r.is_ok(), "and read without properties otherwise");
        if let Ok(f) = r { check(ms(f.properties().duration()) == 0, "no duration"); reach(1); }
    }
    fn h_wv_channels() {
        let n = 1 + choose(7);
        let d: Vec<u8> = vec(n);
        let id = u8();
        assume((id & 0x3f != 0x0d) & (id & 0x3f != 0x0e) & (id & 0x3f != 0x27) & (id < 0x40));
        let mut meta = vec![];
        let before = choose(4);
        if before > 0 { meta.extend(chunk(id, &vec![0x0d; before - 1 + before / 3 * 2], choose(2) == 1)); }
        meta.extend(chunk(0x0d, &d, choose(2) == 1));
        meta.extend(chunk(0x05, &[0x0d, 1, 7], false));
        let Some(f) = wv_read(&wv(&[Wv { version: 0x410, total: 1000, samples: 5, flags: R441 | 0x0801, meta }, Wv { version: 0x410, total: 1000, samples: 5, flags: R441 | 0x1005, meta: vec![] }])) else { return };
        let p = f.properties();
        let (ch, mask) = match n {
            1 => (d[0] as u16, 0),
            2 => (d[0] as u16, d[1] as u32),
            3 => (d[0] as u16, u32::from_le_bytes([d[1], d[2], 0, 0])),
            4 => (d[0] as u16, u32::from_le_bytes([d[1], d[2], d[3], 0])),
            5 => (d[0] as u16, u32::from_le_bytes([d[1], d[2], d[3], d[4]])),
            6 => ((d[0] as u16 | (d[2] as u16 & 15) << 8) + 1, u32::from_le_bytes([d[3], d[4], d[5], 0])),
            _ => ((d[0] as u16 | (d[2] as u16 & 15) << 8) + 1, u32::from_le_bytes([d[3], d[4], d[5], d[6]])),
        };
        check(p.channels() == ch, "WavPack multichannel count");
        check(p.channel_mask().bits() == mask, "WavPack multichannel mask");
        check(ms(p.duration()) == dur(1000, 44100), "WavPack multichannel duration");
        reach(1);
    }
    fn h_wv_rate() {
        let r = u8();
        let base = [1u32, 44000, 0xff_ff00][choose(3)];
        let rate = base + r as u32;
        assume(rate <= 0xff_ffff);
        let mut meta = vec![];
        if choose(2) == 1 { meta.extend(chunk(0x0a, &[1, 2, 3, 4, 5][..choose(6)], false)); }
        meta.extend(chunk(0x27, &rate.to_le_bytes()[..3 + choose(2)], choose(2) == 1));
        let Some(f) = wv_read(&wv(&[Wv { version: 0x407, total: 4000, samples: 5, flags: 15 << 23 | 0x1801, meta }])) else { return };
        check(f.properties().sample_rate() == rate, "WavPack non-standard sample rate");
        check(ms(f.properties().duration()) == dur(4000, rate), "WavPack duration");
        reach(1);
    }
    fn h_wv_large() {
        // the sample rate follows a chunk of 256, 512 or 131072 bytes and more
        let k = u8();
        let words = [128u32, 255, 256, 257, 0x10000, 0x10101, 0x20002][choose(7)];
        let mut meta = vec![0x8a, words as u8, (words >> 8) as u8, (words >> 16) as u8];
        meta.resize(meta.len() + words as usize * 2, 0x27);
        meta.extend(chunk(0x27, &[k, 0x30, 0], false));
        let Some(f) = wv_read(&wv(&[Wv { version: 0x407, total: 4000, samples: 5, flags: 15 << 23 | 0x1801, meta }])) else { return };
        check(f.properties().sample_rate() == 0x3000 + k as u32, "sample rate behind a large chunk");
        reach(1);
    }
    fn h_wv_dsd() {
        let m = u8();
        assume(m < 30);
        let m = conc(m as u64) as u32;
        let Some(f) = wv_read(&wv(&[Wv { version: 0x410, total: 4000, samples: 5, flags: 0x8000_0000 | R441 | 0x1801, meta: chunk(0x0e, &[m as u8, 3], false) }])) else { return };
        check(f.properties().sample_rate() == 44100u32.wrapping_mul(1 << m), "WavPack DSD sample rate");
        reach(1);
    }
    fn h_wv_skip() {
        // blocks without audio before the first audio block
        let n = choose(3);
        let k = u8();
        let mut b = vec![];
        for i in 0..n { b.push(Wv { version: 0x410, total: 9, samples: 0, flags: R441 | 0x1801, meta: vec![0; [6, 0][i]] }); }
        b.push(Wv { version: 0x408, total: 5000 + k as u32, samples: 1, flags: 10 << 23 | 0x1805, meta: vec![] });
        let Some(f) = wv_read(&wv(&b)) else { return };
        let p = f.properties();
        check(p.sample_rate() == 48000 && p.channels() == 1 && p.version() == 0x408, "the first audio block counts");
        check(ms(p.duration()) == dur(5000 + k as u64, 48000), "the first audio block counts");
        reach(1);
    }
    fn h_wv_tags() {
        let (ap, v1) = (choose(2) == 1, choose(2) == 1);
        let mut v = wv(&[Wv { version: 0x410, total: 100, samples: 5, flags: R441 | 0x1801, meta: vec![0; 2000] }]);
        let n = v.len() as u64;
        if ap { v.extend_from_slice(b"APETAGEX\xe8\x03\0\0\x20\0\0\0\0\0\0\0"); v.extend_from_slice(&[0; 12]); }
        if v1 { v.extend_from_slice(b"TAG"); v.extend(vec![0; 125]); }
        let r = WavPackFile::read_from(&mut Cursor::new(&v), props().read_tags(choose(2) == 1));
        check(r.is_ok(), "read");
        let Ok(f) = r else { return };
        check(f.properties().audio_bitrate() == kbps(n, 100, 44100), "tags do not count towards the audio bitrate");
        check(f.properties().overall_bitrate() == kbps(v.len() as u64, 100, 44100), "everything counts towards the overall bitrate");
        reach(1);
    }
    fn h_sv8() {
        let (crc, ver, a, b) = (u32(), u8(), u8(), u8());
        let (sc, bs) = (u32(), u32());
        let (ns, nb) = (1 + choose(3), 1 + choose(3));
        assume(((sc as u64) < 1 << (7 * ns)) & ((bs as u64) < 1 << (7 * nb)) & (bs >= sc));
        let mut sh = crc.to_be_bytes().to_vec();
        sh.push(ver);
        vl(&mut sh, sc as u64, ns);
        vl(&mut sh, bs as u64, nb);
        sh.extend_from_slice(&[a, b]);
        let rg: [u8; 9] = bytes();
        let ei: [u8; 4] = bytes();
        let with_ei = choose(2) == 1;
        let mut mid = packet(b"RG", &rg);
        if with_ei { mid.extend(packet(b"EI", &ei)); }
        let v = sv8(&sh, &mid);
        let r = MpcFile::read_from(&mut Cursor::new(&v), props());
        if bs > sc { check(r.is_err(), "more silence than samples is refused"); reach(1); return; }
        check(r.is_ok(), "a well-formed Musepack file is read");
        let Ok(f) = r else { return };
        check(f.stream_version() == MpcStreamVersion::Sv8, "stream version");
        let MpcProperties::Sv8(p) = f.properties() else { check(false, "SV8 properties"); return };
        let h = p.stream_header;
        check(h.crc == crc && h.stream_version == ver, "SV8 header");
        check(h.sample_count == sc as u64 && h.beginning_silence == bs as u64, "SV8 counts");
        check(h.sample_rate == if a >> 5 < 4 { FREQ[(a >> 5) as usize & 3] } else { 0 }, "SV8 sample rate");
        check(h.max_used_bands == (a & 31) + 1, "SV8 bands");
        check(h.channels == (b >> 4) + 1 && h.ms_used == (b & 8 != 0), "SV8 channels");
        check(h.audio_block_frames == 1 << (2 * (b & 7) as u32), "SV8 block frames");
        check(p.replay_gain.version == rg[0] && p.replay_gain.title_gain == be16(&rg[1..]) && p.replay_gain.title_peak == be16(&rg[3..]) && p.replay_gain.album_gain == be16(&rg[5..]) && p.replay_gain.album_peak == be16(&rg[7..]), "SV8 replay gain");
        check(p.encoder_info.is_some() == with_ei, "SV8 encoder info");
        if let Some(e) = p.encoder_info {
            check((e.profile * 8.0) as u8 == ei[0] >> 1 && e.pns_tool == (ei[0] & 1 == 1), "SV8 profile");
            check(e.major == ei[1] && e.minor == ei[2] && e.build == ei[3], "SV8 encoder version");
        }
        reach(2);
    }
    fn h_sv8_length() {
        let k = u8();
        let base = [1u64, 100_000, 0x7fff_ffff_ffff_ff00][choose(3)];
        let sc = base + k as u64;
        let fi = choose(4);
        let si = choose(2) as u64;
        let mut sh = vec![0, 0, 0, 0, 8];
        vl(&mut sh, sc, 9);
        vl(&mut sh, si, 1 + choose(2) * 8);
        sh.extend_from_slice(&[(fi as u8) << 5, 0x10]);
        let rg = packet(b"RG", &[0; 9]);
        let Some(f) = mpc(&sv8(&sh, &rg), 400) else { return };
        let MpcProperties::Sv8(p) = f.properties() else { check(false, "SV8 properties"); return };
        let n = sc - si;
        if n == 0 { check(ms(p.duration()) == 0, "no samples, no duration"); reach(1); return; }
        let rate = FREQ[fi];
        if sc < 1 << 40 { check(ms(p.duration()) == div_round(n * 1000, rate as u64), "SV8 duration"); reach(2); }
        else { check(p.duration().as_secs() >= sc / 48001 - 2 && p.duration().as_secs() <= sc / 31999 + 2, "SV8 duration"); reach(3); }
        if sc < 1 << 40 { check(p.average_bitrate() as u64 == (sh.len() as u64 + 9 + 50) * 8 * rate as u64 / (n * 1000), "SV8 bitrate"); }
    }
    fn h_sv7() {
        let ver = u8();
        assume(ver & 15 == 7);
        let w2 = u32();
        let w5 = u32();
        let (tg, ag) = (i(), i());
        let enc = u8();
        let frames = 50u32;
        assume((w5 >> 20 & 0x7ff <= 1152) | (w5 >> 31 == 0));
        let fi = conc((w2 >> 16 & 3) as u64) as usize;
        let mut v = b"MP+".to_vec();
        v.push(ver);
        v.extend_from_slice(&frames.to_le_bytes());
        v.extend_from_slice(&w2.to_le_bytes());
        v.extend_from_slice(&[0, 0]);
        v.extend_from_slice(&tg.to_le_bytes());
        v.extend_from_slice(&[0, 0]);
        v.extend_from_slice(&ag.to_le_bytes());
        v.extend_from_slice(&w5.to_le_bytes());
        v.push(enc);
        v.extend_from_slice(&[0; 3]);
        let Some(f) = mpc(&v, LEN) else { return };
        check(f.stream_version() == MpcStreamVersion::Sv7, "stream version");
        let MpcProperties::Sv7(p) = f.properties() else { check(false, "SV7 properties"); return };
        check(p.channels() == 2 && p.frame_count() == 50, "SV7 frames");
        check(p.sample_rate() == FREQ[fi], "SV7 sample rate");
        check(p.intensity_stereo() == (w2 >> 31 == 1) && p.mid_side_stereo() == (w2 >> 30 & 1 == 1), "SV7 stereo");
        check(p.max_band() as u32 == w2 >> 24 & 63 && p.max_level() as u32 == w2 & 0xffff, "SV7 band and level");
        check(p.profile() as u32 == prof(w2 >> 20 & 15) && p.link() as u32 == w2 >> 18 & 3, "SV7 profile and link");
        check(p.true_gapless() == (w5 >> 31 == 1) && p.fast_seeking_safe() == (w5 >> 19 & 1 == 1), "SV7 flags");
        check(p.last_frame_length() as u32 == if w5 >> 31 == 1 { w5 >> 20 & 0x7ff } else { 0 }, "SV7 last frame");
        check(p.encoder_version() == enc && p.title_peak() == 0 && p.album_peak() == 0, "SV7 encoder");
        reach(1);
    }
    fn h_sv7_gain() {
        // 64.82 dB - gain in mB, in 1/256 dB; out of range: 0
        let g = [0u16, 0x18e0, 0x3fff, 0x7f01, 0x8000, 0xe6e0, 0xfec0, 0xff01][choose(8)].wrapping_add(u8() as u16);
        let mut v = b"MP+\x07".to_vec();
        v.extend_from_slice(&[50, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        v.extend_from_slice(&g.to_le_bytes());
        v.extend_from_slice(&[0; 16]);
        let Some(f) = mpc(&v, LEN) else { return };
        let MpcProperties::Sv7(p) = f.properties() else { check(false, "SV7 properties"); return };
        let s = g as i16;
        if s == 0 { check(p.title_gain() == 0, "no gain"); reach(1); return; }
        let q = (6482 - s as i32) * 256 / 100;
        if q >= 0x7ffe || q < -1 { check(p.title_gain() == 0, "gains out of range are dropped"); reach(2); return; }
        let t = p.title_gain() as i32;
        check((t >= q - 1) & (t <= q + 1) | (t == 0) & (q >= 0x7ffd), "SV7 gain");
        reach(3);
    }
    fn h_sv7_length() {
        let k = u8();
        let base = [1u32, 3000, 0xffff_fe00][choose(3)];
        let frames = base + k as u32;
        let fi = choose(4);
        let gapless = choose(3);
        let last = [0u32, 0, 500][gapless];
        let w5 = if gapless > 0 { 1 << 31 | last << 20 } else { 0 };
        let mut v = b"MP+\x17".to_vec();
        v.extend_from_slice(&frames.to_le_bytes());
        v.extend_from_slice(&((fi as u32) << 16).to_le_bytes());
        v.extend_from_slice(&[0; 8]);
        v.extend_from_slice(&(w5 as u32).to_le_bytes());
        v.extend_from_slice(&[0; 4]);
        let Some(f) = mpc(&v, LEN) else { return };
        let MpcProperties::Sv7(p) = f.properties() else { check(false, "SV7 properties"); return };
        let d = ms(p.duration());
        let e = frames as u64 * 1152 * 1000 / FREQ[fi] as u64;
        check((d == e) | (d + 1 == e), "SV7 duration");
        let n = if gapless > 0 { frames as u64 * 1152 - 1152 + last as u64 } else { frames as u64 * 1152 - 481 };
        if n > 0 { check(p.average_bitrate() as u64 == LEN * 8 * FREQ[fi] as u64 / (n * 1000), "SV7 bitrate"); reach(1); }
        else { check(p.average_bitrate() == 0, "no samples, no bitrate"); reach(2); }
    }
    fn h_sv7_tags() {
        // the ID3v2 tag in front does not count
        let mut v = b"ID3\x04\0\0\0\0\x07\x76".to_vec();
        v.extend(vec![0; 1014]);
        v.extend_from_slice(b"MP+\x07\x01\0\0\0");
        v.extend(vec![0; 100]);
        let r = MpcFile::read_from(&mut Cursor::new(&v), props().read_tags(choose(2) == 1));
        check(r.is_ok(), "read");
        let Ok(f) = r else { return };
        let MpcProperties::Sv7(p) = f.properties() else { check(false, "SV7 properties"); return };
        check(p.average_bitrate() as u64 == (v.len() as u64 - 1024) * 8 * 44100 / ((1152 - 481) * 1000), "tags do not count");
        reach(1);
    }
    fn h_sv46() {
        let w = u32();
        let n = u8();
        let mag = choose(2);
        let frames = [n as u32, (n as u32) << 16 | 3][mag];
        let vs = choose(4) as u32;
        let ver = 4 + vs;
        let w = if vs < 3 { w & 0xffe0_07ff | ver << 11 } else { let o = w >> 11 & 0x3ff; assume((o < 4) | (o > 6)); w };
        let mut v = w.to_le_bytes().to_vec();
        v.extend_from_slice(&frames.to_le_bytes());
        v.extend_from_slice(&[0; 24]);
        assume((w as u8 != b'I') & (w as u8 != b'M'));
        let r = MpcFile::read_from(&mut Sparse::new(v, LEN), props());
        if vs == 3 { check(r.is_err(), "other versions are refused"); reach(1); return; }
        check(r.is_ok(), "a well-formed Musepack file is read");
        let Ok(f) = r else { return };
        check(f.stream_version() == MpcStreamVersion::Sv4to6, "stream version");
        let MpcProperties::Sv4to6(p) = f.properties() else { check(false, "SV4-6 properties"); return };
        let c = if ver >= 5 { frames } else { frames >> 16 };
        let c = if ver < 6 && c > 0 { c - 1 } else { c };
        check(p.frame_count() == c, "SV4-6 frames");
        check(p.sample_rate() == 44100 && p.channels() == 2, "SV4-6 rate");
        check(p.mid_side_stereo() == (w >> 21 & 1 == 1) && p.stream_version() as u32 == ver && p.max_band() as u32 == w >> 6 & 31, "SV4-6 header");
        check(ms(p.duration()) == if c == 0 { 0 } else { div_round((c as u64 * 1152 - 481) * 1000, 44100) }, "SV4-6 duration");
        reach(2);
    }
}
fn i() -> i16 { u16() as i16 }
fn prof(n: u32) -> u32 { match n { 0 => 0, 1 => 1, 2..=4 => 2, n => n - 2 } }
