//! bound: any 4 consecutive bytes (2-byte steps) arbitrary, or the end cut off anywhere, in four ID3v2 tags (2.2, 2.3 unsynchronised with extended header, 2.4, 2.4 with extended header and footer; 40 frames of 24 kinds) and two APE tags, under every combination of parse options
//! bound: every ID3v2 frame kind on every body of up to 5 (thorough 7) bytes in every version and parsing mode; any frame flags and header flags over a frame of 9 arbitrary bytes; ID3v1 with 12 (thorough 20) arbitrary bytes per field group; APE items with 9 arbitrary header bytes; RIFF INFO and AIFF text chunks, picture blocks, PNG and JPEG headers of up to 30 arbitrary bytes
//! assume: the allocation limit is lowered to 512 bytes; zlib-compressed frames excluded where flags are arbitrary
//! split: 1
//! secs: 170
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::*;
use lofty::picture::{MimeType, Picture, PictureInformation};
use std::borrow::Cow;

/// An ID3v2 tag in front of nothing else
fn id3(mut v: Vec<u8>) {
    small_limit();
    let n = v.len();
    v.resize(n + 160, 0);
    let _ = read_own(AAC, &mut Cursor::new(&v), any_options());
    reach(1);
}
fn tag(mut v: Vec<u8>, w: usize, stride: usize) { corrupt(&mut v, w, stride); id3(v) }
fn body(n: usize) -> Vec<u8> { let mut v = vec(n); v.truncate(choose(n + 1)); v }
fn version() -> Id3v2Version { [Id3v2Version::V2, Id3v2Version::V3, Id3v2Version::V4][choose(3)] }
fn fid(s: &'static str) -> FrameId<'static> { FrameId::Valid(Cow::Borrowed(s)) }
const FL: fn() -> FrameFlags = FrameFlags::default;
/// A frame of an arbitrary body inside a tag
fn framed(id: &[u8; 4], n: usize) {
    let b = body(n);
    let v = if choose(2) == 0 { id3v2(4, 0, &frame4(id, [0; 2], &b)) } else { id3v2(3, 0, &frame3(id, [0; 2], &b)) };
    id3(v)
}

harnesses! {
    fn h_tag_a() { tag(id3_a(), 4, 2) }
    fn h_tag_b() { tag(id3_b(), 4, 2) }
    fn h_tag_c() { tag(id3_c(), 4, 2) }
    fn h_tag_d() { tag(id3_d(), 4, 2) }
    // frame bodies
    fn h_picture() { let b = body(t(7, 9)); let _ = AttachedPictureFrame::parse(&mut &b[..], FL(), version()); reach(2) }
    fn h_txxx() { let b = body(t(5, 7)); let _ = ExtendedTextFrame::parse(&mut &b[..], FL(), version()); reach(2) }
    fn h_wxxx() { let b = body(t(5, 7)); let _ = ExtendedUrlFrame::parse(&mut &b[..], FL(), version()); reach(2) }
    fn h_comm() { let b = body(t(8, 9)); let _ = CommentFrame::parse(&mut &b[..], FL(), version()); reach(2) }
    fn h_uslt() { let b = body(t(8, 9)); let _ = UnsynchronizedTextFrame::parse(&mut &b[..], FL(), version()); reach(2) }
    fn h_tipl() { let b = body(t(5, 7)); let _ = KeyValueFrame::parse(&mut &b[..], fid("TIPL"), FL(), version()); reach(2) }
    fn h_text() { let b = body(t(6, 8)); let _ = TextInformationFrame::parse(&mut &b[..], fid("TIT2"), FL(), version()); reach(2) }
    fn h_time() { let b = body(t(7, 10)); let _ = TimestampFrame::parse(&mut &b[..], fid("TDRC"), FL(), lazy_mode()); reach(2) }
    fn h_url() { let b = body(t(6, 8)); let _ = UrlLinkFrame::parse(&mut &b[..], fid("WOAR"), FL()); reach(2) }
    fn h_ufid() { let b = body(t(6, 8)); let _ = UniqueFileIdentifierFrame::parse(&mut &b[..], FL(), lazy_mode()); reach(2) }
    fn h_rva2() { let b = body(t(8, 12)); let _ = RelativeVolumeAdjustmentFrame::parse(&mut &b[..], FL(), lazy_mode()); reach(2) }
    fn h_owne() { let b = body(t(12, 14)); let _ = OwnershipFrame::parse(&mut &b[..], FL()); reach(2) }
    fn h_etco() { let b = body(t(12, 17)); let _ = EventTimingCodesFrame::parse(&mut &b[..], FL()); reach(2) }
    fn h_priv() { let b = body(t(6, 8)); let _ = PrivateFrame::parse(&mut &b[..], FL()); reach(2) }
    fn h_popm() { let b = body(t(8, 12)); let _ = PopularimeterFrame::parse(&mut &b[..], FL()); reach(2) }
    fn h_geob() { let b = body(t(6, 8)); let _ = GeneralEncapsulatedObject::parse(&b, FL()); reach(2) }
    fn h_sylt() { let b = body(t(11, 14)); let _ = SynchronizedTextFrame::parse(&b, FL()); reach(2) }
    fn h_atxt() { let b = body(t(8, 10)); let _ = AudioTextFrame::parse(&b, FL()); reach(2) }
    fn h_chap() { framed(b"CHAP", t(10, 20)) }
    fn h_ctoc() { framed(b"CTOC", t(7, 9)) }
    fn h_sub() {
        let b = cat(&[b"c\0", &[0; 16], &bytes::<12>()]);
        id3(if choose(2) == 0 { id3v2(4, 0, &frame4(b"CHAP", [0; 2], &b)) } else { id3v2(3, 0, &frame3(b"CHAP", [0; 2], &b)) })
    }
    // flags
    fn h_flags4() {
        let f = bytes::<2>();
        assume(f[1] & 8 == 0);
        let b = bytes::<7>();
        let id = [b"TIT2", b"ABCD"][choose(2)];
        id3(id3v2(4, 0x80 * choose(2) as u8, &frame4(id, f, &b)))
    }
    fn h_flags3() {
        let f = bytes::<2>();
        assume(f[1] & 0x80 == 0);
        let b = bytes::<7>();
        let id = [b"TIT2", b"ABCD"][choose(2)];
        id3(id3v2(3, 0x80 * choose(2) as u8, &frame3(id, f, &b)))
    }
    fn h_header() {
        let mut v = id3v2(4, 0, &cat(&[&bytes::<6>(), &frame4(b"TIT2", [0; 2], b"\x03T")]));
        v[3] = u8();
        v[5] = u8();
        id3(v)
    }
    fn h_frame_header() { let b = cat(&[&bytes::<10>(), b"\x03Tl"]); id3(id3v2([2, 3, 4][choose(3)], 0, &b)) }
    fn h_id3v1() {
        let mut b = [0u8; 128];
        b[..3].copy_from_slice(b"TAG");
        let p = [3, 31, 58, 86, 93, 97, 120][choose(7)];
        let n = if p == 120 { 8 } else { t(12, 20) };
        wild(&mut b, p, p + n);
        let _ = Id3v1Tag::parse(b, lazy_mode());
        reach(2)
    }
    // APE items
    fn h_ape() {
        small_limit();
        let mut v = cat(&[&[0; 160], &ape_tag(choose(2) == 1)]);
        let n = v.len();
        let m = 160;
        let mut w = v.split_off(m);
        corrupt(&mut w, 4, 2);
        v.extend(w);
        if v.len() < n { v = cat(&[&[0; 8], &v]); }
        let _ = read_own(MPC, &mut Cursor::new(&v), any_options());
        reach(1)
    }
    fn h_ape_item() {
        small_limit();
        let it = cat(&[&bytes::<4>(), &[0, 0, 0, 0], &bytes::<4>(), b"\0tv", &bytes::<2>()]);
        let foot = cat(&[b"APETAGEX", &2000u32.to_le_bytes(), &(it.len() as u32 + 32).to_le_bytes(), &2u32.to_le_bytes(), &[0; 12]]);
        let v = cat(&[&[0; 160], &it, &foot]);
        let _ = read_own(MPC, &mut Cursor::new(&v), any_options().read_properties(false));
        reach(1)
    }
    fn h_info() {
        small_limit();
        let v = cat(&[b"RIFF\x34\0\0\0WAVELIST\x28\0\0\0INFOINAM", &bytes::<4>(), &bytes::<2>(), b"\0\0", &bytes::<1>(), b"AR", &bytes::<1>(), &bytes::<4>(), &bytes::<4>(), &[0; 16]]);
        let _ = read_own(WAV, &mut Cursor::new(&v), any_options().read_properties(false));
        reach(1)
    }
    fn h_aiff_text() {
        small_limit();
        let v = cat(&[b"FORM\0\0\0\x34AIFF", [b"NAME", b"ANNO", b"AUTH"][choose(3)], &bytes::<4>(), &bytes::<4>(), &bytes::<4>(), &bytes::<4>(), &bytes::<4>()]);
        let _ = read_own(AIFF, &mut Cursor::new(&v), any_options().read_properties(false));
        reach(1)
    }
    fn h_flac_picture() {
        let p = pic_block();
        let k = choose(6);
        let mut v = p;
        if k < 4 {
            // one length or the type, cut off anywhere
            let (at, n) = [(8, 1), (4, 4), (17, 5), (33, 5)][k];
            wild(&mut v, at, at + n);
            let n = place(v.len() + 1);
            v.truncate(n);
        } else {
            // two lengths at a time
            let at = if k == 4 { [4, 17] } else { [17, 38] };
            for a in at { wild(&mut v, a, a + 4); }
        }
        let _ = Picture::from_flac_bytes(&v, false, lazy_mode());
        reach(2)
    }
    fn h_base64() { let b = vec(t(4, 8)); let _ = Picture::from_flac_bytes(&b, true, lazy_mode()); reach(2) }
    fn h_png() {
        let k = choose(2);
        let mut v = cat(&[b"\x89PNG\x0d\x0a\x1a\x0a", &bytes::<8>(), &bytes::<13>(), &[0; 4], &bytes::<12>(), &[0; 4]]);
        if k == 1 { v[8..16].copy_from_slice(b"\0\0\0\x0dIHDR"); v[16..24].fill(1); v[25] = 3; }
        let n = place(v.len() + 1);
        v.truncate(n);
        let p = Picture::unchecked(v).mime_type(MimeType::Png).build();
        let _ = PictureInformation::from_picture(&p);
        reach(2)
    }
    fn h_jpeg() {
        let mut v = cat(&[b"\xff\xd8\xff\xe0", &bytes::<2>(), &bytes::<8>(), &bytes::<8>()]);
        let n = place(v.len() + 1);
        v.truncate(n);
        let p = Picture::unchecked(v).mime_type(MimeType::Jpeg).build();
        let _ = PictureInformation::from_picture(&p);
        reach(2)
    }
    fn h_sniff() { let b = body(t(10, 12)); let _ = Picture::from_reader(&mut &b[..]); reach(2) }
    fn h_ape_picture() { let b = body(t(6, 8)); let _ = Picture::from_ape_bytes("Cover Art (Front)", &b); reach(2) }
}
