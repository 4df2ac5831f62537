//! bound: Ogg Vorbis, Opus and Speex files of three to five pages with single-stream serial numbers; every identification header field arbitrary; last granule position in 256 values at four magnitudes, first granule 0 or 960; every Opus pre-skip at 256 values in three ranges; five Vorbis/Speex sample rates for durations
//! bound: files of 0.4 to 70 KB; the last page found behind up to 20 KB of its own content and behind false "OggS" patterns with a bad version or no segments
//! secs: 60
use crate::sym::*;
use crate::util::*;
use lofty::ogg::{OpusFile, SpeexFile, VorbisFile};

fn one(flags: u8, granule: u64, seq: u32, body: &[u8]) -> Vec<u8> { page(flags, granule, 0x1234, seq, &lace(body.len()), body) }
const COMMENT: [u8; 8] = [0; 8];
// identification page, comment (and setup) page, one page of audio, last page
fn file(ident: &[u8], comment: &[u8], setup: Option<&[u8]>, first: u64, last: u64, tail: usize) -> Vec<u8> {
    let mut v = one(2, first, 0, ident);
    v.extend(one(0, 0, 1, comment));
    if let Some(s) = setup { v.extend(one(0, 0, 2, s)); }
    v.extend(one(0, 480, 3, &[0x55; 300]));
    v.extend(one(4, last, 4, &vec![0x66; tail]));
    v
}
fn vorbis(version: u32, ch: u8, rate: u32, br: [u32; 3], first: u64, last: u64, tail: usize) -> Vec<u8> {
    let mut i = b"\x01vorbis".to_vec();
    i.extend_from_slice(&version.to_le_bytes());
    i.push(ch);
    i.extend_from_slice(&rate.to_le_bytes());
    for b in br { i.extend_from_slice(&b.to_le_bytes()); }
    i.extend_from_slice(&[0xb8, 1]);
    let mut c = b"\x03vorbis".to_vec();
    c.extend_from_slice(&COMMENT);
    c.push(1);
    file(&i, &c, Some(&[5; 100]), first, last, tail)
}
fn opus(version: u8, ch: u8, skip: u16, rate: u32, gain: u16, family: u8, first: u64, last: u64, tail: usize) -> (Vec<u8>, u64) {
    let mut i = b"OpusHead".to_vec();
    i.extend_from_slice(&[version, ch]);
    i.extend_from_slice(&skip.to_le_bytes());
    i.extend_from_slice(&rate.to_le_bytes());
    i.extend_from_slice(&gain.to_le_bytes());
    i.push(family);
    if family != 0 { i.extend_from_slice(&[2, 1, 0, 1, 2, 3, 4, 5, 6, 7]); }
    let mut c = b"OpusTags".to_vec();
    c.extend_from_slice(&COMMENT);
    let h = i.len() + c.len();
    (file(&i, &c, None, first, last, tail), h as u64)
}
fn speex(version: u32, rate: u32, mode: u32, ch: u32, br: u32, vbr: u32, first: u64, last: u64, tail: usize) -> (Vec<u8>, u64) {
    let mut i = b"Speex   1.2rc1              ".to_vec();
    for x in [version, 80, rate, mode, 4, ch, br, 160, vbr, 1, 0, 0, 0] { i.extend_from_slice(&x.to_le_bytes()); }
    let h = i.len() + COMMENT.len();
    (file(&i, &COMMENT, None, first, last, tail), h as u64)
}
fn no_tags() -> ParseOptions { props() }
const RATES: [u32; 5] = [44100, 48000, 8000, 1, 192_000];
fn granule() -> u64 { [0u64, 44100, 0x1_0000_0000, 0x7fff_ffff_ffff_0000][choose(4)] + u8() as u64 }

harnesses! {
    fn h_vorbis_fields() {
        let (ver, ch, rate) = (u32(), u8(), u32());
        let br = [u32(), u32(), u32()];
        let v = vorbis(ver, ch, rate, br, 0, 0, 40);
        let r = VorbisFile::read_from(&mut Cursor::new(&v), no_tags());
        check(r.is_ok(), "a well-formed Vorbis file is read");
        let Ok(f) = r else { return };
        let p = f.properties();
        check(p.version() == ver && p.channels() == ch && p.sample_rate() == rate, "Vorbis identification header");
        check(p.bitrate_max() == br[0] as i32 && p.bitrate_nominal() == br[1] as i32 && p.bitrate_min() == br[2] as i32, "Vorbis bitrates");
        check(p.audio_bitrate() == if (br[1] as i32) > 0 { br[1] / 1000 } else { 0 }, "Vorbis audio bitrate");
        check(ms(p.duration()) == 0, "no samples, no duration");
        reach(1);
    }
    fn h_vorbis_length() {
        let rate = RATES[choose(5)];
        let first = [0, 960][choose(2)];
        let last = granule();
        let tail = [40usize, 20000][choose(2)];
        let v = vorbis(0, 2, rate, [0; 3], first, last, tail);
        let r = VorbisFile::read_from(&mut Cursor::new(&v), no_tags());
        check(r.is_ok(), "a well-formed Vorbis file is read");
        let Ok(f) = r else { return };
        let p = f.properties();
        if last <= first { check(ms(p.duration()) == 0, "no samples, no duration"); reach(1); return; }
        let n = (last - first) as u128 * 1000;
        let d = ((n + (rate as u128 >> 1)) / rate as u128) as u64;
        check(p.duration() == std::time::Duration::from_millis(d), "Vorbis duration");
        if d > 0 { check(p.overall_bitrate() == (v.len() as u64 * 8 / d) as u32, "Vorbis overall bitrate"); reach(2); }
    }
    fn h_opus_fields() {
        let (ver, ch, skip, rate, gain) = (u8(), u8(), u16(), u32(), u16());
        let family = [0u8, 1, 2, 255][choose(4)];
        let (v, _) = opus(ver, ch, skip, rate, gain, family, 0, 0, 40);
        let r = OpusFile::read_from(&mut Cursor::new(&v), no_tags());
        if family == 0 && ch > 2 || family == 1 && ch > 8 { check(r.is_err(), "channel counts the mapping family does not have are refused"); reach(1); return; }
        if ch == 0 { reach(2); return; }
        check(r.is_ok(), "a well-formed Opus file is read");
        let Ok(f) = r else { return };
        let p = f.properties();
        check(p.version() == ver && p.channels() == ch && p.input_sample_rate() == rate, "Opus identification header");
        check(p.output_gain_db() * 256.0 == gain as i16 as f32, "Opus output gain");
        if family < 2 {
            // RFC 7845, 5.1.1.2, in the bits of a WAVE speaker mask
            let m = match ch { 1 => 4, 2 => 3, 3 => 7, 4 => 0x33, 5 => 0x37, 6 => 0x3f, 7 => 0x70f, _ => 0x63f };
            check(p.channel_mask().bits() == m, "Opus channel mask");
            reach(3);
        }
    }
    fn h_opus_length() {
        let first = [0, 960][choose(2)];
        let last = granule();
        let skip = [0u16, 312, 0xff00][choose(3)];
        let tail = [40usize, 20000][choose(2)];
        let (v, h) = opus(1, 2, skip, 48000, 0, 0, first, last, tail);
        let r = OpusFile::read_from(&mut Cursor::new(&v), no_tags());
        check(r.is_ok(), "a well-formed Opus file is read");
        let Ok(f) = r else { return };
        let p = f.properties();
        if last <= first + skip as u64 { check(ms(p.duration()) == 0, "no samples, no duration"); reach(1); return; }
        let n = (last - first - skip as u64) as u128 * 1000;
        let d = ((n + 24000) / 48000) as u64;
        check(p.duration() == std::time::Duration::from_millis(d), "Opus duration");
        if d > 0 {
            check(p.overall_bitrate() == (v.len() as u64 * 8 / d) as u32, "Opus overall bitrate");
            check(p.audio_bitrate() == ((v.len() as u64 - h) * 8 / d) as u32, "Opus audio bitrate");
            reach(2);
        } else { reach(3); }
    }
    fn h_opus_skip() {
        let skip = [0u16, 0x0100, 0xff00][choose(3)] + u8() as u16;
        let last = [400u64, 100_000, 0xffff_ffff_ffff_fffe][choose(3)];
        let (v, _) = opus(1, 1, skip, 48000, 0, 0, 0, last, 40);
        let r = OpusFile::read_from(&mut Cursor::new(&v), no_tags());
        check(r.is_ok(), "a well-formed Opus file is read");
        let Ok(f) = r else { return };
        if last <= skip as u64 { check(ms(f.properties().duration()) == 0, "pre-skip swallows everything"); reach(1); return; }
        let d = (((last - skip as u64) as u128 * 1000 + 24000) / 48000) as u64;
        check(f.properties().duration() == std::time::Duration::from_millis(d), "the pre-skip is not part of the duration");
        reach(2);
    }
    fn h_speex_fields() {
        let (ver, rate, mode, ch, br, vbr) = (u32(), u32(), u32(), u32(), u32(), u32());
        let (v, h) = speex(ver, rate, mode, ch, br, vbr, 0, 0, 40);
        let r = SpeexFile::read_from(&mut Cursor::new(&v), no_tags());
        if ver > 1 || ch < 1 || ch > 2 { check(r.is_err(), "unknown versions and channel counts are refused"); reach(1); return; }
        check(r.is_ok(), "a well-formed Speex file is read");
        let Ok(f) = r else { return };
        let p = f.properties();
        check(p.version() == ver && p.sample_rate() == rate && p.mode() == mode && p.channels() as u32 == ch, "Speex header");
        check(p.nominal_bitrate() == br as i32 && p.vbr() == (vbr == 1), "Speex rate control");
        check(ms(p.duration()) == 0, "no samples, no duration");
        if (br as i32) > 0 { check(p.audio_bitrate() == br / 1000, "Speex nominal bitrate"); reach(2); }
        let _ = h;
    }
    fn h_speex_length() {
        let rate = RATES[choose(5)];
        let first = [0, 960][choose(2)];
        let last = granule();
        let tail = [40usize, 20000][choose(2)];
        let (v, h) = speex(1, rate, 0, 1, 0, 0, first, last, tail);
        let r = SpeexFile::read_from(&mut Cursor::new(&v), no_tags());
        check(r.is_ok(), "a well-formed Speex file is read");
        let Ok(f) = r else { return };
        let p = f.properties();
        if last <= first { check(ms(p.duration()) == 0, "no samples, no duration"); reach(1); return; }
        let n = (last - first) as u128 * 1000;
        let d = ((n + (rate as u128 >> 1)) / rate as u128) as u64;
        check(p.duration() == std::time::Duration::from_millis(d), "Speex duration");
        if d > 0 {
            check(p.overall_bitrate() == div_round(v.len() as u64 * 8, d) as u32, "Speex overall bitrate");
            check(p.audio_bitrate() == div_round((v.len() as u64 - h) * 8, d) as u32, "Speex audio bitrate");
            reach(2);
        }
    }
    fn h_last_page() {
        // false page starts behind the last page start, and data behind the last page
        let g = u8();
        let mut i = b"OpusHead\x01\x02\0\0\x80\xbb\0\0\0\0\0".to_vec();
        let c = b"OpusTags\0\0\0\0\0\0\0\0";
        let mut body = vec![0x66u8; [30usize, 600, 17000][choose(3)]];
        let kind = choose(5);
        let at = if choose(2) == 0 { 3 } else { body.len() - 27 };
        match kind {
            0 => {}
            // a page starts with "OggS" and version 0 and holds segments
            1 => { let x = u8(); assume(x != 0); body[at..at + 5].copy_from_slice(b"OggS "); body[at + 4] = x; }
            2 => { body[at..at + 5].copy_from_slice(b"OggS\0"); body[at + 26] = 0; }
            3 => { body[at..at + 8].copy_from_slice(b"OggSOggS"); }
            _ => { let n = body.len(); body[n - 3..].copy_from_slice(b"Ogg"); }
        }
        let mut v = one(2, 0, 0, &std::mem::take(&mut i));
        v.extend(one(0, 0, 1, c));
        v.extend(one(0, 48000, 2, &[0x55; 30]));
        v.extend(one(4, 48000 + 48 * g as u64, 3, &body));
        if kind == 0 { v.extend(vec![0; [0usize, 7, 5000][choose(3)]]); }
        let r = OpusFile::read_from(&mut Cursor::new(&v), no_tags());
        check(r.is_ok(), "a well-formed Opus file is read");
        let Ok(f) = r else { return };
        check(ms(f.properties().duration()) == 1000 + g as u64, "the last page carries the end of the stream");
        reach(1);
    }
}
