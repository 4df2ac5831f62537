//! bound: any 2 consecutive bytes (every position; thorough 4) arbitrary, or the end cut off anywhere, in 34 small files of the twelve formats (60 to 700 bytes); a one-item tag of each writable type is saved with or without padding, or the tag of that type removed
//! bound: arbitrary counts, flags and entries of stco, co64 and tfhd atoms, Vorbis comment counts and sizes, APE header and footer fields (12 bytes at a time) and ID3v2 header fields (7 bytes)
//! assume: the allocation limit is lowered to 512 bytes
//! split: 1
//! secs: 240
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;
use lofty::tag::{Tag, TagType};
use TagType::*;

fn run(f: usize, types: &[TagType]) {
    small_limit();
    let k = choose(count(f));
    let ty = types[choose(types.len())];
    let mut v = template(f, k);
    corrupt(&mut v, t(2, 4), 1);
    save(v, ty)
}
fn save(v: Vec<u8>, ty: TagType) {
    let mut x = Tag::new(ty);
    x.set_title("a new title".into());
    let mut c = Cursor::new(v);
    let ok = match choose(3) {
        0 => x.save_to(&mut c, WriteOptions::default()).is_ok(),
        1 => x.save_to(&mut c, WriteOptions::default().preferred_padding(0)).is_ok(),
        _ => ty.remove_from(&mut c, WriteOptions::default()).is_ok(),
    };
    if ok { reach(1) } else { reach(2) }
}
harnesses! {
    fn h_mpeg() { run(MPEG, &[Id3v2, Ape, Id3v1]) }
    fn h_aac() { run(AAC, &[Id3v2, Id3v1]) }
    fn h_ape() { run(APE, &[Ape, Id3v1]) }
    fn h_wv() { run(WV, &[Ape, Id3v1]) }
    fn h_mpc() { run(MPC, &[Ape]) }
    fn h_wav() { run(WAV, &[Id3v2, RiffInfo]) }
    fn h_aiff() { run(AIFF, &[Id3v2, AiffText]) }
    fn h_flac() { run(FLAC, &[VorbisComments]) }
    fn h_vorbis() { run(VORBIS, &[VorbisComments]) }
    fn h_opus() { run(OPUS, &[VorbisComments]) }
    fn h_speex() { run(SPEEX, &[VorbisComments]) }
    fn h_mp4() { run(MP4, &[Mp4Ilst]) }
    // chunk offset tables with arbitrary counts, flags and offsets, while the tag grows or shrinks
    fn h_mp4_tables() {
        small_limit();
        let stco = atom(b"stco", &[&[0; 4], &bytes::<8>()]);
        let co64 = atom(b"co64", &[&[0; 4], &bytes::<12>()]);
        let tfhd = atom(b"tfhd", &[&bytes::<4>(), &[0, 0, 0, 1], &bytes::<8>()]);
        let stbl = atom(b"stbl", &[if choose(2) == 0 { &stco } else { &co64 }]);
        let trak = atom(b"trak", &[&atom(b"mdia", &[&atom(b"minf", &[&stbl])])]);
        let ilst = atom(b"ilst", &[&atom(b"\xa9nam", &[&atom(b"data", &[&[0, 0, 0, 1, 0, 0, 0, 0], b"an old, rather long title"])])]);
        let udta = if choose(2) == 0 { atom(b"udta", &[&atom(b"meta", &[&[0; 4], &ilst])]) } else { vec![] };
        let moov = if choose(2) == 0 { atom(b"moov", &[&trak, &udta]) } else { atom(b"moov", &[&udta, &trak]) };
        let v = cat(&[&atom(b"ftyp", &[b"M4A \0\0\0\0"]), &moov, &atom(b"moof", &[&atom(b"traf", &[&tfhd])]), &atom(b"mdat", &[&[7; 20]])]);
        save(v, Mp4Ilst)
    }
    // Vorbis comments of any counts and sizes, in FLAC and Ogg
    fn h_comments() {
        small_limit();
        let mut c = [5, 0, 0, 0, b'l', b'o', b'f', b't', b'y', 1, 0, 0, 0, 9, 0, 0, 0, b'T', b'I', b'T', b'L', b'E', b'=', b'o', b'l', b'd', 0, 1];
        wild(&mut c, 0, 4);
        wild(&mut c, 9, 17);
        if choose(2) == 0 {
            let mut si = vec![0x10, 0, 0x10, 0, 0, 0, 0x0e, 0, 0, 0x10, 0x0a, 0xc4, 0x42, 0xf0, 0, 0, 0, 5];
            si.extend_from_slice(&[0x11; 16]);
            save(cat(&[b"fLaC\0\0\0\x22", &si, b"\x84\0\0\x1c", &c, &[0xff, 0xf8, 1, 2]]), VorbisComments)
        } else {
            let mut v = cat(&[&page(2, 0, 7, 0, &[19], b"OpusHead\x01\x02\0\0\x80\xbb\0\0\0\0\0"), &page(0, 0, 7, 1, &[36], &cat(&[b"OpusTags", &c]))]);
            v.extend_from_slice(&page(4, 960, 7, 2, &[3], &[1, 2, 3]));
            save(v, VorbisComments)
        }
    }
    // footers and headers of APE tags with any size, count and flags
    fn h_ape_headers() {
        small_limit();
        let mut a = ape_tag(choose(2) == 1);
        let n = a.len();
        match choose(t(3, 4)) {
            0 => { wild(&mut a, n - 20, n - 16); wild(&mut a, n - 9, n - 8) }
            1 => wild(&mut a, n - 16, n - 12),
            2 => wild(&mut a, 12, 24),
            _ => { wild(&mut a, n - 20, n - 8); wild(&mut a, 12, 24) }
        }
        let v = if choose(2) == 0 { cat(&[&stream(WV, 0), &a]) } else { cat(&[&a, &stream(WV, 0), &a]) };
        save(v, if choose(2) == 0 { Ape } else { Id3v1 })
    }
    // sizes and flags of the tag in front
    fn h_id3_header() {
        small_limit();
        let mut a = id3_small();
        wild(&mut a, 3, 10);
        let v = cat(&[&a, &stream(MPEG, 0)]);
        save(v, match choose(t(1, 3)) { 0 => Id3v2, 1 => Ape, _ => Id3v1 })
    }
}
