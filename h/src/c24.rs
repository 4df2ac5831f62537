//! bound: files made of ftyp, moov (mvhd, trak with tkhd and mdia) and mdat, in both orders, with 32-bit, 64-bit and open-ended lengths; mdia children in every order; mdhd versions 0 and 1 with the time scale in 4 and the duration in 5 ranges of 256
//! bound: mp4a: every AudioSpecificConfig of 7 arbitrary bytes (all object types, frequency indices, explicit rates, channel configurations); ALS; every codec byte; descriptor lengths in 1 to 4 bytes; ALAC with and without a channel layout; FLAC with every STREAMINFO rate, depth and channel count
//! bound: sample descriptions of version 0 and 1, preceded by up to two unsupported or protected entries
//! secs: 60
use crate::sym::*;
use crate::util::*;
use lofty::mp4::{AudioObjectType, Mp4Codec, Mp4File};

fn atom(id: &[u8; 4], parts: &[&[u8]]) -> Vec<u8> {
    let n: usize = parts.iter().map(|p| p.len()).sum();
    let mut v = (n as u32 + 8).to_be_bytes().to_vec();
    v.extend_from_slice(id);
    for p in parts { v.extend_from_slice(p); }
    v
}
fn atom64(id: &[u8; 4], parts: &[&[u8]]) -> Vec<u8> {
    let n: usize = parts.iter().map(|p| p.len()).sum();
    let mut v = 1u32.to_be_bytes().to_vec();
    v.extend_from_slice(id);
    v.extend_from_slice(&(n as u64 + 16).to_be_bytes());
    for p in parts { v.extend_from_slice(p); }
    v
}
fn mdhd(v1: bool, scale: u32, dur: u64) -> Vec<u8> {
    let mut c = vec![v1 as u8, 0, 0, 0];
    if v1 { c.extend_from_slice(&[0; 16]); c.extend_from_slice(&scale.to_be_bytes()); c.extend_from_slice(&dur.to_be_bytes()); }
    else { c.extend_from_slice(&[0; 8]); c.extend_from_slice(&scale.to_be_bytes()); c.extend_from_slice(&(dur as u32).to_be_bytes()); }
    c.extend_from_slice(&[0; 4]);
    atom(b"mdhd", &[&c])
}
fn hdlr(kind: &[u8; 4]) -> Vec<u8> { atom(b"hdlr", &[&[0; 8], kind, &[0; 13]]) }
fn entry(id: &[u8; 4], version: u16, channels: u16, rate: u16, rest: &[u8]) -> Vec<u8> {
    let mut c = vec![0, 0, 0, 0, 0, 0, 0, 1];
    c.extend_from_slice(&version.to_be_bytes());
    c.extend_from_slice(&[0; 6]);
    c.extend_from_slice(&channels.to_be_bytes());
    c.extend_from_slice(&[0, 16, 0, 0, 0, 0]);
    c.extend_from_slice(&rate.to_be_bytes());
    c.extend_from_slice(&[0, 0]);
    if version == 1 { c.extend_from_slice(&[0; 16]); }
    c.extend_from_slice(rest);
    atom(id, &[&c])
}
fn stsd(entries: &[Vec<u8>]) -> Vec<u8> {
    let mut c = vec![0, 0, 0, 0];
    c.extend_from_slice(&(entries.len() as u32).to_be_bytes());
    for e in entries { c.extend_from_slice(e); }
    atom(b"stsd", &[&c])
}
fn stts(n: u32, d: u32) -> Vec<u8> { atom(b"stts", &[&[0, 0, 0, 0, 0, 0, 0, 1], &n.to_be_bytes(), &d.to_be_bytes()]) }
fn minf(stsd: &[u8], stts: &[u8]) -> Vec<u8> { atom(b"minf", &[&atom(b"smhd", &[&[0; 8]]), &atom(b"stbl", &[stts, stsd])]) }
fn ftyp() -> Vec<u8> { atom(b"ftyp", &[b"M4A \0\0\0\0mp42"]) }
fn trak(mdia: &[&[u8]]) -> Vec<u8> { atom(b"trak", &[&atom(b"tkhd", &[&[0; 84]]), &atom(b"mdia", mdia)]) }
const MVHD: [u8; 100] = [0; 100];
fn file(traks: &[&[u8]], mdat: usize) -> Vec<u8> {
    let mut v = ftyp();
    let mut m: Vec<&[u8]> = vec![];
    let mvhd = atom(b"mvhd", &[&MVHD]);
    m.push(&mvhd);
    m.extend_from_slice(traks);
    v.extend(atom(b"moov", &m));
    v.extend(atom(b"mdat", &[&vec![0; mdat]]));
    v
}
fn read(v: &[u8]) -> Option<Mp4File> {
    let r = Mp4File::read_from(&mut Cursor::new(v), props());
    check(r.is_ok(), "a well-formed MP4 file is read");
    r.ok()
}
fn esds(codec: u8, avg: u32, asc: &[u8], form: usize) -> Vec<u8> {
    let len = |n: usize| -> Vec<u8> { match form { 0 => vec![n as u8], 1 => vec![0x80, n as u8], 2 => vec![0x80, 0x80, n as u8], _ => vec![0x80, 0x80, 0x80, n as u8] } };
    let mut d = vec![5];
    d.extend(len(asc.len()));
    d.extend_from_slice(asc);
    let mut c = vec![codec, 0x15, 0, 0, 0];
    c.extend_from_slice(&[0; 4]);
    c.extend_from_slice(&avg.to_be_bytes());
    c.extend(d);
    let mut e = vec![0, 0, 0, 4];
    e.extend(len(c.len()));
    e.extend(c);
    let mut x = vec![0, 0, 0, 0, 3];
    x.extend(len(e.len()));
    x.extend(e);
    x.extend_from_slice(&[6, 1, 2]);
    atom(b"esds", &[&x])
}
// one audio track with the given sample descriptions
fn one(entries: &[Vec<u8>]) -> Vec<u8> {
    let s = stsd(entries);
    file(&[&trak(&[&mdhd(false, 1000, 1000), &hdlr(b"soun"), &minf(&s, &stts(1, 1024))])], 10)
}
fn object(n: u8) -> Option<AudioObjectType> {
    use AudioObjectType::*;
    Some(match n {
        1 => AacMain, 2 => AacLowComplexity, 3 => AacScalableSampleRate, 4 => AacLongTermPrediction, 5 => SpectralBandReplication, 6 => AACScalable, 7 => TwinVQ, 8 => CodeExcitedLinearPrediction, 9 => HarmonicVectorExcitationCoding,
        12 => TextToSpeechtInterface, 13 => MainSynthetic, 14 => WavetableSynthesis, 15 => GeneralMIDI, 16 => AlgorithmicSynthesis, 17 => ErrorResilientAacLowComplexity, 19 => ErrorResilientAacLongTermPrediction, 20 => ErrorResilientAacScalable,
        21 => ErrorResilientAacTwinVQ, 22 => ErrorResilientAacBitSlicedArithmeticCoding, 23 => ErrorResilientAacLowDelay, 24 => ErrorResilientCodeExcitedLinearPrediction, 25 => ErrorResilientHarmonicVectorExcitationCoding,
        26 => ErrorResilientHarmonicIndividualLinesNoise, 27 => ErrorResilientParametric, 28 => SinuSoidalCoding, 29 => ParametricStereo, 30 => MpegSurround, 32 => MpegLayer1, 33 => MpegLayer2, 34 => MpegLayer3, 35 => DirectStreamTransfer,
        36 => AudioLosslessCoding, 37 => ScalableLosslessCoding, 38 => ScalableLosslessCodingNoneCore, 39 => ErrorResilientAacEnhancedLowDelay, 40 => SymbolicMusicRepresentationSimple, 41 => SymbolicMusicRepresentationMain,
        42 => UnifiedSpeechAudioCoding, 43 => SpatialAudioObjectCoding, 44 => LowDelayMpegSurround, 45 => SpatialAudioObjectCodingDialogueEnhancement, 46 => AudioSync,
        _ => return None,
    })
}
const RATES: [u32; 13] = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350];
struct Bits(u64);
impl Bits { fn take(&mut self, n: u32) -> u32 { let r = (self.0 >> (64 - n)) as u32; self.0 <<= n; r } }

harnesses! {
    fn h_asc() {
        let b: [u8; 7] = bytes();
        let v = one(&[entry(b"mp4a", 0, 2, 44100, &esds(0x40, 128_000, &b, 0))]);
        let mut w = [0; 8];
        w[..7].copy_from_slice(&b);
        let mut s = Bits(u64::from_be_bytes(w));
        let mut ty = conc(s.take(5) as u64) as u8;
        if ty == 31 { ty = 32 + conc(s.take(6) as u64) as u8; }
        assume(ty != 36);
        let fi = conc(s.take(4) as u64) as usize;
        let rate = if fi == 15 { s.take(24) } else if fi < 13 { RATES[fi] } else { assume(false); 0 };
        let ch = s.take(4) as u8;
        let r = Mp4File::read_from(&mut Cursor::new(&v[..]), props());
        let Some(o) = object(ty) else { check(r.is_err(), "reserved object types are refused"); reach(1); return };
        check(r.is_ok(), "a well-formed MP4 file is read");
        let Ok(f) = r else { return };
        let p = f.properties();
        check(p.codec() == Some(Mp4Codec::AAC), "codec");
        check(p.audio_object_type() == Some(o), "object type");
        check(p.sample_rate() == Some(if rate == 0 { 44100 } else { rate }), "sample rate of the AudioSpecificConfig");
        if ch == 0 { check(p.channels() == Some(2), "channels of the sample description"); }
        else if ch < 7 { check(p.channels() == Some(ch), "channel configuration"); }
        else if ch == 7 { check(p.channels() == Some(8), "channel configuration 7"); }
        reach(2);
    }
    fn h_als() {
        let (r, c) = (u32(), u8());
        let long = choose(2) == 1;
        let mut a = if long { vec![0xf8, 0x9e, 0, 0, 0, 0] } else { vec![0xf8, 0x80, 0x00] };
        a.extend_from_slice(b"ALS\0");
        a.extend_from_slice(&r.to_be_bytes());
        a.extend_from_slice(&[0, 0, 0, 9, 0, c]);
        let v = one(&[entry(b"mp4a", 0, 2, 44100, &esds(0x40, 128_000, &a, 3))]);
        let Some(f) = read(&v) else { return };
        let p = f.properties();
        check(p.audio_object_type() == Some(AudioObjectType::AudioLosslessCoding), "object type");
        check(p.sample_rate() == Some(r), "ALS sample rate");
        if c < 255 { check(p.channels() == Some(c + 1), "ALS channels"); }
        reach(3);
    }
    fn h_mp4a() {
        let codec = u8();
        let avg = [0u32, 0x0001_f400, 0xffff_ff00][choose(3)] | u8() as u32;
        let form = choose(4);
        let dur = choose(2) == 0;
        let ver = choose(2) as u16;
        let ch = u8() as u16;
        let rate = u16();
        let st = if choose(2) == 0 { stts(1, 1) } else { vec![] };
        let s = stsd(&[entry(b"mp4a", ver, ch, rate, &esds(codec, avg, &[0x16, 0x80 | 0x00], form))]);
        let v = file(&[&trak(&[&mdhd(false, 1000, if dur { 2000 } else { 0 }), &hdlr(b"soun"), &minf(&s, &st)])], 4000);
        let Some(f) = read(&v) else { return };
        let p = f.properties();
        let c = p.codec();
        match codec {
            0x40 | 0x41 | 0x66 | 0x67 | 0x68 => check(c == Some(Mp4Codec::AAC), "AAC"),
            0x69 | 0x6b => check(c == Some(Mp4Codec::MP3), "MP3"),
            _ => check(c != Some(Mp4Codec::AAC) && c != Some(Mp4Codec::MP3), "other codecs"),
        }
        check(p.channels() == Some(ch as u8), "channels of the sample description");
        if avg >= 1000 || !dur { check(p.audio_bitrate() == Some(avg / 1000), "average bit rate of the decoder configuration"); }
        else { check(p.audio_bitrate() == Some(16), "bit rate estimated from mdat"); }
        check(p.overall_bitrate() == if dur { Some((v.len() as u64 * 8 / 2000) as u32) } else { None }, "overall bit rate");
        reach(4);
    }
    fn h_time() {
        let v1 = choose(2) == 1;
        let b = u8();
        let which = choose(2);
        let scale = [0u32, 1000, 44_032, 0xffff_ff00][choose(4)] | if which == 0 { b as u32 } else { 68 };
        let dur = [0u64, 0x1000, 0x00ff_ff00, 0xffff_ff00, 0x0123_4567_89ab_cd00][choose(if v1 { 5 } else { 4 })] | if which == 1 { b as u64 } else { [0, 0x99][choose(2)] };
        let n = [3usize, 100_000][choose(2)];
        let st = match choose(3) { 0 => vec![], 1 => stts(9, 1), _ => stts(9, 1024) };
        let spec = st.last() == Some(&0);
        let s = stsd(&[entry(b"mp4a", 0, 2, 44100, &[])]);
        let v = file(&[&trak(&[&mdhd(v1, scale, dur), &hdlr(b"soun"), &minf(&s, &st)])], n);
        let Some(f) = read(&v) else { return };
        let p = f.properties();
        let d = if scale > 0 { u64::try_from((dur as u128 * 1000 + (scale >> 1) as u128) / scale as u128).unwrap_or(u64::MAX) } else { 0 };
        check(p.duration().as_millis() as u64 == d, "duration");
        check(p.sample_rate() == Some(44100) && p.channels() == Some(2), "sample description");
        if d > 0 && dur > 0 {
            check(p.overall_bitrate() == Some((v.len() as u64 as u128 * 8 / d as u128) as u32), "overall bit rate");
            let a = if spec { (n as u128 * 8 * scale as u128 / dur as u128) as u32 / 1000 } else { 0 };
            check(p.audio_bitrate() == Some(if a > 0 { a } else { (n as u128 * 8 / d as u128) as u32 }), "audio bit rate");
        }
        reach(5);
    }
    fn h_layout() {
        // the order, form and place of atoms do not matter
        let s = stsd(&[entry(b"mp4a", 0, 2, 44100, &[])]);
        let (h, m, i) = (hdlr(b"soun"), mdhd(false, 1000, 1000), minf(&s, &stts(1, 1024)));
        let form = |k: usize, id: &[u8; 4], c: &[&[u8]]| if k == 1 { atom64(id, c) } else { atom(id, c) };
        let p: [&[u8]; 3] = [[&h, &m, &i], [&h, &i, &m], [&m, &h, &i], [&m, &i, &h], [&i, &h, &m], [&i, &m, &h]][choose(6)].map(|x: &Vec<u8>| &x[..]);
        let k = choose(64);
        let junk = atom(b"free", &[&[0; 7]]);
        let mdia = form(k & 1, b"mdia", &[p[0], &junk, p[1], p[2]]);
        let video = atom(b"trak", &[&atom(b"mdia", &[&mdhd(false, 90000, 5), &hdlr(b"vide"), &minf(&stsd(&[]), &[])])]);
        let t = atom(b"trak", &[&atom(b"tkhd", &[&[0; 84]]), &mdia, &junk]);
        let none: &[u8] = &[];
        let free64 = atom64(b"free", &[&[0; 5]]);
        let mut moov = form(k >> 1 & 1, b"moov", &[if k & 4 != 0 { &free64 } else { none }, &atom(b"mvhd", &[&MVHD]), if k & 8 != 0 { &video } else { none }, &t, if k & 4 != 0 { &junk } else { none }]);
        let mut mdat = form(k >> 4 & 1, b"mdat", &[&[0; 1000]]);
        let mut v = ftyp();
        // the last atom may be open-ended
        let open = choose(2) == 1;
        if k & 32 == 0 {
            if open && k & 16 == 0 { mdat[..4].copy_from_slice(&[0; 4]); }
            v.extend(moov);
            v.extend(&junk);
            v.extend(mdat);
        } else {
            if open && k & 2 == 0 { moov[..4].copy_from_slice(&[0; 4]); }
            v.extend(mdat);
            v.extend(&junk);
            v.extend(moov);
        }
        let Some(f) = read(&v) else { return };
        let p = f.properties();
        check(ms(p.duration()) == 1000, "duration");
        check(p.codec() == Some(Mp4Codec::AAC) && p.sample_rate() == Some(44100) && p.channels() == Some(2), "sample description");
        check(p.audio_bitrate() == Some(8), "audio bit rate");
        check(p.overall_bitrate() == Some((v.len() * 8 / 1000) as u32), "overall bit rate");
        check(p.ftyp() == "M4A ", "brand");
        reach(6);
    }
    fn h_entries() {
        // the first supported entry counts, protected ones are flagged
        let mut e = vec![];
        let n = choose(3);
        let mut drm = false;
        for _ in 0..n { let d = choose(2) == 1; drm |= d; let len = [0usize, 5, 40][choose(3)]; e.push(entry(if d { b"drms" } else { b"xxxx" }, choose(2) as u16, 1, 8000, &vec![0; len])); }
        let ver = choose(2) as u16;
        let last = choose(3);
        let (rate, depth, ch, avg) = (u32(), u8(), u8(), [0u32, 0xffff_ff00][choose(2)] | u8() as u32);
        let mut fr = [0u8; 34];
        let (frate, fch, fdepth) = (match choose(4) { 0 => 44100u32, 1 => 1, 2 => 655_350, _ => 0x12300 | u8() as u32 }, u8() & 7, u8() & 31);
        match last {
            0 => {
                let mut c = vec![0, 0, 0, 0, 0, 0, 0x10, 0, 0, depth, 40, 10, 14, ch, 0, 255, 0, 0, 0, 0];
                c.extend_from_slice(&avg.to_be_bytes());
                c.extend_from_slice(&rate.to_be_bytes());
                if choose(2) == 1 { c.extend_from_slice(&[0; 24]); }
                e.push(entry(b"alac", ver, 2, 44100, &atom(b"alac", &[&c])));
            }
            1 => {
                fr[0] = 0x10; fr[2] = 0x10;
                fr[10..18].copy_from_slice(&((frate as u64) << 44 | (fch as u64) << 41 | (fdepth as u64) << 36 | 1000).to_be_bytes());
                e.push(entry(b"fLaC", ver, 2, 44100, &atom(b"dfLa", &[&[0; 4], &[0x80, 0, 0, 34], &fr])));
            }
            _ => e.push(entry(b"mp4a", ver, 5, 32000, &[])),
        }
        let v = one(&e);
        let Some(f) = read(&v) else { return };
        let p = f.properties();
        check(p.is_drm_protected() == drm, "DRM protection");
        match last {
            0 => {
                check(p.codec() == Some(Mp4Codec::ALAC), "codec");
                check(p.bit_depth() == Some(depth) && p.channels() == Some(ch) && p.sample_rate() == Some(rate), "ALAC magic cookie");
            }
            1 => {
                check(p.codec() == Some(Mp4Codec::FLAC), "codec");
                check(p.bit_depth() == Some(fdepth + 1) && p.channels() == Some(fch + 1), "STREAMINFO in dfLa");
                check(p.sample_rate() == Some(frate), "STREAMINFO in dfLa");
            }
            _ => check(p.codec() == Some(Mp4Codec::AAC) && p.channels() == Some(5) && p.sample_rate() == Some(32000), "sample description"),
        }
        reach(7);
    }
    fn h_no_audio() {
        let s = stsd(&[]);
        let t = trak(&[&mdhd(false, 1000, 1000), &hdlr(b"vide"), &minf(&s, &[])]);
        let v = if choose(2) == 0 { file(&[&t], 10) } else { file(&[], 10) };
        check(Mp4File::read_from(&mut Cursor::new(&v[..]), props()).is_err(), "a file without audio is refused");
        reach(8);
    }
}
