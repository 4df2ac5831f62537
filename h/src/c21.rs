//! bound: MPEG audio: every frame header (all 2^21 combinations of version, layer, bit rate, sampling rate, padding, private, channel mode, mode extension, copyright, original, emphasis and CRC bits), two to four frames, 0 to 3 junk bytes and optional ID3v2 tag in front, ID3v1 tag behind; Xing, Info and VBRI frames for every frame header with frame and byte counts in 4 ranges of 256
//! bound: ADTS: every header with two frames of every length from 7 to 300 bytes and 8191 bytes, one or two further frames; reserved values
//! assume: frame bodies contain no frame synchronisation; VBRI only in MPEG-1 stereo streams, where its fixed place coincides with the place of Xing; free-format bit rates are rejected like reserved ones
//! secs: 60
use crate::sym::*;
use crate::util::*;
use lofty::aac::AacFile;
use lofty::mp4::AudioObjectType;
use lofty::mpeg::{ChannelMode, Emphasis, Layer, MpegFile, MpegVersion};

// bit rates in kbit/s (ISO 11172-3 and 13818-3)
const V1L1: [u32; 14] = [32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448];
const V1L2: [u32; 14] = [32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384];
const V1L3: [u32; 14] = [32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320];
const V2L1: [u32; 14] = [32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256];
const V2LX: [u32; 14] = [8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160];
struct H { ver: u8, layer: u8, br: u8, sr: u8, pad: u8, mode: u8, misc: [u8; 3] }
impl H {
    fn bytes(&self) -> [u8; 4] { [0xff, 0xe0 | self.ver << 3 | self.layer << 1 | self.misc[0] & 1, self.br << 4 | self.sr << 2 | self.pad << 1 | self.misc[1] & 1, self.mode << 6 | self.misc[2] & 63] }
    fn bitrate(&self) -> u32 {
        let t = match (self.ver, self.layer) { (3, 3) => V1L1, (3, 2) => V1L2, (3, _) => V1L3, (_, 3) => V2L1, _ => V2LX };
        t[self.br as usize - 1]
    }
    fn rate(&self) -> u32 { [44100, 48000, 32000][self.sr as usize] >> match self.ver { 3 => 0, 2 => 1, _ => 2 } }
    fn samples(&self) -> u32 { match (self.ver, self.layer) { (_, 3) => 384, (_, 2) => 1152, (3, _) => 1152, _ => 576 } }
    fn len(&self) -> usize {
        let b = self.bitrate() * 1000;
        (match self.layer { 3 => (12 * b / self.rate() + self.pad as u32) * 4, _ => self.samples() / 8 * b / self.rate() + self.pad as u32 }) as usize
    }
    fn side(&self) -> usize { match (self.ver, self.mode) { (3, 3) => 17, (3, _) => 32, (_, 3) => 9, _ => 17 } }
}
fn header() -> H {
    H { ver: [3, 2, 0][choose(3)], layer: 1 + choose(3) as u8, br: 1 + choose(14) as u8, sr: choose(3) as u8, pad: choose(2) as u8, mode: choose(4) as u8, misc: [0, 0, 0] }
}
fn typical() -> H { H { ver: 3, layer: 1, br: 9, sr: 0, pad: 0, mode: 1, misc: [1, 0, 0] } }
fn fields(f: &MpegFile, h: &H) {
    let p = f.properties();
    check(*p.version() == match h.ver { 3 => MpegVersion::V1, 2 => MpegVersion::V2, _ => MpegVersion::V2_5 }, "MPEG version");
    check(*p.layer() == match h.layer { 3 => Layer::Layer1, 2 => Layer::Layer2, _ => Layer::Layer3 }, "MPEG layer");
    check(p.sample_rate() == h.rate(), "MPEG sample rate");
    check(p.channels() == if h.mode == 3 { 1 } else { 2 }, "MPEG channels");
    check(*p.channel_mode() == [ChannelMode::Stereo, ChannelMode::JointStereo, ChannelMode::DualChannel, ChannelMode::SingleChannel][h.mode as usize], "MPEG channel mode");
    let m = h.misc[2];
    check(p.mode_extension() == if h.mode == 1 { Some(m >> 4 & 3) } else { None }, "MPEG mode extension");
    check(p.is_copyright() == (m & 8 != 0) && p.is_original() == (m & 4 != 0), "MPEG copyright and original");
    check(p.emphasis() == match m & 3 { 0 => None, 1 => Some(Emphasis::MS5015), 2 => Some(Emphasis::Reserved), _ => Some(Emphasis::CCIT_J17) }, "MPEG emphasis");
}
fn frames(v: &mut Vec<u8>, h: &H, n: usize) { for _ in 0..n { let s = v.len(); v.extend_from_slice(&h.bytes()); v.resize(s + h.len(), 0); } }
fn read(v: &[u8]) -> Option<MpegFile> {
    let r = MpegFile::read_from(&mut Cursor::new(v), props());
    check(r.is_ok(), "a well-formed MPEG file is read");
    r.ok()
}
fn cbr(f: &MpegFile, h: &H, stream: usize, file: usize) {
    let p = f.properties();
    check(p.audio_bitrate() == h.bitrate(), "MPEG bit rate");
    let d = div_round(stream as u64 * 8, h.bitrate() as u64);
    check(ms(p.duration()) == d, "MPEG duration");
    if d > 0 { check(p.overall_bitrate() == (file as u64 * 8 / d) as u32, "MPEG overall bit rate"); }
}
fn some() -> u32 { [0u32, 0x4000, 0x0100_0000, 0xffff_ff00][choose(4)] | u8() as u32 }
const ADTS: [u32; 13] = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350];
struct D { mpeg2: bool, crc: bool, obj: u8, sr: u8, ch: u8, orig: bool, copy: bool, private: u8, len: usize, rest: [u8; 2] }
fn adts(v: &mut Vec<u8>, d: &D) {
    let s = v.len();
    let l = d.len;
    v.extend_from_slice(&[0xff, 0xf0 | (d.mpeg2 as u8) << 3 | !d.crc as u8, d.obj << 6 | d.sr << 2 | d.private << 1 | d.ch >> 2,
        d.ch << 6 | (d.orig as u8) << 5 | (d.copy as u8) << 4 | (l >> 11) as u8, (l >> 3) as u8, (l << 5) as u8 | d.rest[0] & 0x1f, d.rest[1] & 0xfc]);
    if d.crc { v.extend_from_slice(&[0x12, 0x34]); }
    v.resize(s + l, 0);
}
fn dtypical() -> D { D { mpeg2: false, crc: false, obj: 1, sr: 4, ch: 2, orig: false, copy: false, private: 0, len: 100, rest: [0, 0] } }

harnesses! {
    fn h_mpeg_header() {
        let h = header();
        let mut v = vec![];
        frames(&mut v, &h, 3); // (less than 68 bytes are never read)
        let Some(f) = read(&v) else { return };
        fields(&f, &h);
        cbr(&f, &h, v.len(), v.len());
        reach(1);
    }
    fn h_mpeg_bits() {
        let mut h = typical();
        h.mode = choose(4) as u8;
        h.ver = [3, 2, 0][choose(3)];
        h.misc = bytes();
        let mut v = vec![];
        frames(&mut v, &h, 2);
        let Some(f) = read(&v) else { return };
        fields(&f, &h);
        reach(2);
    }
    fn h_mpeg_place() {
        // junk and tags around the frames
        let h = typical();
        let mut v = match choose(4) { 0 => vec![], 1 => b"ID3\x04\0\0\0\0\0\x0c\0\0\0\0\0\0\0\0\0\0\0\0".to_vec(), 2 => vec![0; 3], _ => b"abc".to_vec() };
        let n = 2 + choose(3);
        frames(&mut v, &h, n);
        match choose(3) { 0 => {}, 1 => { let s = v.len(); v.extend_from_slice(b"TAG"); v.resize(s + 128, 0); }, _ => { v.extend_from_slice(b"APETAGEX\xd0\x07\0\0\x20\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"); } }
        let Some(f) = read(&v) else { return };
        fields(&f, &h);
        cbr(&f, &h, n * h.len(), v.len());
        reach(3);
    }
    fn h_mpeg_reserved() {
        // reserved values are no frames
        let mut h = typical();
        let k = choose(4);
        match k { 0 => h.ver = 1, 1 => h.layer = 0, 2 => h.br = [0, 15][choose(2)], _ => h.sr = 3 }
        h.misc = bytes();
        let mut v = vec![];
        for _ in 0..2 { let s = v.len(); v.extend_from_slice(&h.bytes()); v.resize(s + 417, 0); }
        check(MpegFile::read_from(&mut Cursor::new(&v[..]), props()).is_err(), "reserved header values are rejected");
        reach(4);
    }
    fn h_mpeg_vbr() {
        let mut h = typical();
        h.ver = [3, 2, 0][choose(3)];
        h.layer = 1 + choose(3) as u8;
        h.mode = [0, 3][choose(2)];
        h.sr = choose(3) as u8;
        h.br = 14;
        let mut v = vec![];
        frames(&mut v, &h, 2);
        let xing = if h.side() == 32 { choose(3) } else { choose(2) };
        let (n, bytes) = (some(), [12345u32, 0x7fff_ffff][choose(2)] | u8() as u32);
        assume(n > 0);
        let at = 4 + h.side();
        let mut x = vec![];
        if xing < 2 { x.extend_from_slice(if xing == 0 { b"Xing" } else { b"Info" }); x.extend_from_slice(&[0, 0, 0, 3 | u8()]); x.extend_from_slice(&n.to_be_bytes()); x.extend_from_slice(&bytes.to_be_bytes()); }
        else { x.extend_from_slice(b"VBRI\0\x01\x02\x41\0\x4b"); x.extend_from_slice(&bytes.to_be_bytes()); x.extend_from_slice(&n.to_be_bytes()); }
        v[at..at + x.len()].copy_from_slice(&x);
        let Some(f) = read(&v) else { return };
        fields(&f, &h);
        let p = f.properties();
        let d = div_round(h.samples() as u64 * 1000 * n as u64, h.rate() as u64);
        check(ms(p.duration()) == d, "VBR duration");
        check(p.overall_bitrate() == (v.len() as u64 * 8 / d) as u32, "VBR overall bit rate");
        check(p.audio_bitrate() == (bytes as u64 * 8 / d) as u32, "VBR bit rate");
        reach(5);
    }
    fn h_mpeg_vbr_unusable() {
        // without both counts the frames decide
        let h = typical();
        let mut v = vec![];
        frames(&mut v, &h, 3);
        let at = 4 + h.side();
        let fl = u8();
        let (n, b) = match choose(3) { 0 => { assume(fl & 3 != 3); (7u32, 7u32) }, 1 => (0, 7), _ => (7, 0) };
        v[at..at + 4].copy_from_slice(if choose(2) == 0 { b"Xing" } else { b"Info" });
        v[at + 7] = fl;
        v[at + 8..at + 12].copy_from_slice(&n.to_be_bytes());
        v[at + 12..at + 16].copy_from_slice(&b.to_be_bytes());
        let Some(f) = read(&v) else { return };
        cbr(&f, &h, v.len(), v.len());
        reach(6);
    }
    fn h_adts_fields() {
        let mut d = dtypical();
        d.mpeg2 = choose(2) == 1;
        d.crc = choose(2) == 1;
        d.obj = u8() & 3;
        d.sr = choose(13) as u8;
        d.ch = choose(8) as u8;
        d.orig = bool();
        d.copy = bool();
        d.private = u8() & 1;
        let mut v = vec![];
        adts(&mut v, &d);
        adts(&mut v, &d);
        let r = AacFile::read_from(&mut Cursor::new(&v[..]), props());
        check(r.is_ok(), "a well-formed ADTS file is read");
        let Ok(f) = r else { return };
        let p = f.properties();
        check(p.version() == if d.mpeg2 { MpegVersion::V2 } else { MpegVersion::V4 }, "ADTS version");
        let o = [AudioObjectType::AacMain, AudioObjectType::AacLowComplexity, AudioObjectType::AacScalableSampleRate, AudioObjectType::AacLongTermPrediction];
        let mut is = false;
        for k in 0..4 { is |= (d.obj as usize == k) & (p.audio_object_type() == o[k]); }
        check(is, "ADTS profile");
        check(p.sample_rate() == ADTS[d.sr as usize], "ADTS sample rate");
        check(p.channels() == [0, 1, 2, 3, 4, 5, 6, 8][d.ch as usize], "ADTS channels");
        check(p.original() == d.orig && p.copyright() == d.copy, "ADTS original and copyright");
        check(p.channel_mask().is_some() == (d.ch > 0), "ADTS channel mask");
        if let Some(m) = p.channel_mask() { check(m.bits().count_ones() == p.channels() as u32, "ADTS channel mask"); }
        reach(7);
    }
    fn h_adts_len() {
        // every frame length, found through the next frame
        let mut d = dtypical();
        d.crc = choose(2) == 1;
        let hl = if d.crc { 9 } else { 7 };
        d.len = match choose(3) { 0 => hl + choose(if T { 250 } else { 60 }), 1 => 240 + choose(60), _ => 8191 };
        d.rest = bytes();
        d.rest[0] &= 0x0f; // (no false frame synchronisation with the byte that follows)
        let n = 2 + choose(3);
        let mut v = vec![];
        for _ in 0..n { adts(&mut v, &d); }
        let r = AacFile::read_from(&mut Cursor::new(&v[..]), props());
        let b = (d.len as u32 * 44100 / 1024) * 8 / 1024;
        if b == 0 { check(r.is_err(), "a bit rate of 0 is refused"); return; }
        check(r.is_ok(), "a well-formed ADTS file is read");
        let Ok(f) = r else { return };
        let p = f.properties();
        check(p.audio_bitrate() == b, "ADTS bit rate");
        check(ms(p.duration()) == v.len() as u64 * 8 / b as u64, "ADTS duration");
        reach(8);
    }
    fn h_adts_reserved() {
        let mut d = dtypical();
        d.sr = 15;
        let mut v = vec![];
        adts(&mut v, &d);
        adts(&mut v, &d);
        check(AacFile::read_from(&mut Cursor::new(&v[..]), props()).is_err(), "a reserved sampling frequency is rejected");
        reach(9);
    }
}
