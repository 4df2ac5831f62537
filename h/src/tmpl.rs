//! Small well-formed files of every format, and the corruptions that the totality checks apply to them.
use crate::sym::*;
use crate::util::*;
use lofty::aac::AacFile;
use lofty::ape::ApeFile;
use lofty::config::GlobalOptions;
pub type Result<T> = std::result::Result<T, lofty::error::FileParseError>;
use lofty::flac::FlacFile;
use lofty::iff::aiff::AiffFile;
use lofty::iff::wav::WavFile;
use lofty::mp4::Mp4File;
use lofty::mpeg::MpegFile;
use lofty::musepack::MpcFile;
use lofty::ogg::{OpusFile, SpeexFile, VorbisFile};
use lofty::wavpack::WavPackFile;
use lofty::tag::{ItemValue, Tag};

pub const MPEG: usize = 0;
pub const AAC: usize = 1;
pub const APE: usize = 2;
pub const WV: usize = 3;
pub const MPC: usize = 4;
pub const WAV: usize = 5;
pub const AIFF: usize = 6;
pub const FLAC: usize = 7;
pub const VORBIS: usize = 8;
pub const OPUS: usize = 9;
pub const SPEEX: usize = 10;
pub const MP4: usize = 11;

pub fn small_limit() { limit(512); }
pub fn limit(n: usize) { lofty::config::apply_global_options(GlobalOptions::new().allocation_limit(n)); }

/// Any of the formats as its own file type; `then` says whether the result is also turned into a `TaggedFile`.
pub fn read_any<R: Read + Seek>(fmt: usize, r: &mut R, o: ParseOptions) -> Result<TaggedFile> {
    Ok(match fmt {
        MPEG => MpegFile::read_from(r, o)?.into(),
        AAC => AacFile::read_from(r, o)?.into(),
        APE => ApeFile::read_from(r, o)?.into(),
        WV => WavPackFile::read_from(r, o)?.into(),
        MPC => MpcFile::read_from(r, o)?.into(),
        WAV => WavFile::read_from(r, o)?.into(),
        AIFF => AiffFile::read_from(r, o)?.into(),
        FLAC => FlacFile::read_from(r, o)?.into(),
        VORBIS => VorbisFile::read_from(r, o)?.into(),
        OPUS => OpusFile::read_from(r, o)?.into(),
        SPEEX => SpeexFile::read_from(r, o)?.into(),
        _ => Mp4File::read_from(r, o)?.into(),
    })
}
/// Only the format's own reader
pub fn read_own<R: Read + Seek>(fmt: usize, r: &mut R, o: ParseOptions) -> bool {
    match fmt {
        MPEG => MpegFile::read_from(r, o).is_ok(),
        AAC => AacFile::read_from(r, o).is_ok(),
        APE => ApeFile::read_from(r, o).is_ok(),
        WV => WavPackFile::read_from(r, o).is_ok(),
        MPC => MpcFile::read_from(r, o).is_ok(),
        WAV => WavFile::read_from(r, o).is_ok(),
        AIFF => AiffFile::read_from(r, o).is_ok(),
        FLAC => FlacFile::read_from(r, o).is_ok(),
        VORBIS => VorbisFile::read_from(r, o).is_ok(),
        OPUS => OpusFile::read_from(r, o).is_ok(),
        SPEEX => SpeexFile::read_from(r, o).is_ok(),
        _ => Mp4File::read_from(r, o).is_ok(),
    }
}
pub fn mode(k: usize) -> ParsingMode { [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed][k] }

// ---- tags
pub fn cat(p: &[&[u8]]) -> Vec<u8> { p.concat() }
pub fn frame4(id: &[u8; 4], flags: [u8; 2], c: &[u8]) -> Vec<u8> { cat(&[id, &[0, 0, (c.len() >> 7) as u8, (c.len() & 127) as u8], &flags, c]) }
pub fn frame3(id: &[u8; 4], flags: [u8; 2], c: &[u8]) -> Vec<u8> { cat(&[id, &(c.len() as u32).to_be_bytes(), &flags, c]) }
pub fn frame2(id: &[u8; 3], c: &[u8]) -> Vec<u8> { cat(&[id, &(c.len() as u32).to_be_bytes()[1..], c]) }
pub fn id3v2(ver: u8, flags: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let h = [ver, 0, flags, 0, 0, (n >> 7) as u8, (n & 127) as u8];
    let mut v = cat(&[b"ID3", &h, body]);
    if flags & 0x10 != 0 { v.extend_from_slice(&cat(&[b"3DI", &h])); }
    v
}
/// ID3v2.4: text in several encodings, dates, comments, pictures
pub fn id3_a() -> Vec<u8> {
    id3v2(4, 0, &cat(&[
        &frame4(b"TIT2", [0; 2], b"\x03Tl"),
        &frame4(b"TPE1", [0, 3], b"\0\0\0\x07\x01\xff\xfea\0\0\0"),
        &frame4(b"TDRC", [0; 2], b"\x002012-03"),
        &frame4(b"COMM", [0, 0x40], b"\x07\0engd\0t"),
        &frame4(b"TXXX", [0; 2], b"\x02\0k\0\0\0v"),
        &frame4(b"APIC", [0; 2], b"\0image/png\0\x03d\0\x89P"),
        &[0; 4],
    ]))
}
/// ID3v2.4: the structured frames, extended header and footer
pub fn id3_b() -> Vec<u8> {
    id3v2(4, 0x50, &cat(&[
        b"\0\0\0\x0e\x01\x30\x05\0\0\0\0\0\x01\0",
        &frame4(b"POPM", [0; 2], b"a\0\xc4\0\0\0\x05"),
        &frame4(b"UFID", [0; 2], b"o\0id"),
        &frame4(b"RVA2", [0; 2], b"n\0\x01\0\x20\x10\x01\x02"),
        &frame4(b"ETCO", [0; 2], b"\x02\x03\0\0\0\x05"),
        &frame4(b"OWNE", [0; 2], b"\0U1\020200101s"),
        &frame4(b"PRIV", [0; 2], b"o\0xy"),
        &frame4(b"WXXX", [0; 2], b"\0d\0u"),
        &frame4(b"WOAR", [0; 2], b"u"),
        &frame4(b"TIPL", [0; 2], b"\x03r\0n\0"),
        &frame4(b"TRCK", [0; 2], b"\x031/2"),
    ]))
}
/// ID3v2.3: unsynchronised, extended header, chapters
pub fn id3_c() -> Vec<u8> {
    let sub = frame3(b"TIT2", [0; 2], b"\0s");
    let b = cat(&[
        b"\0\0\0\x06\0\0\0\0\0\0",
        &frame3(b"TYER", [0; 2], b"\x001999"),
        &frame3(b"TDAT", [0; 2], b"\x000102"),
        &frame3(b"TIME", [0; 2], b"\x001122"),
        &frame3(b"TCON", [0; 2], b"\0(17)R"),
        &frame3(b"USLT", [0; 2], b"\x01deu\xff\xfed\0\0\0\xff\xfet\0"),
        &frame3(b"CHAP", [0; 2], &cat(&[b"c\0", &[0, 0, 0, 1, 0, 0, 0, 2, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 3], &sub])),
        &frame3(b"CTOC", [0; 2], &cat(&[b"t\0\x03\x01c\0", &sub])),
        &frame3(b"GRID", [0, 0x20], b"\x01z"),
    ]);
    // unsynchronisation
    let mut v = vec![];
    for (i, x) in b.iter().enumerate() {
        v.push(*x);
        if *x == 0xff && b.get(i + 1).is_some_and(|n| *n == 0 || *n >= 0xe0) { v.push(0); }
    }
    id3v2(3, 0xc0, &v)
}
/// ID3v2.2
pub fn id3_d() -> Vec<u8> {
    id3v2(2, 0, &cat(&[
        &frame2(b"TT2", b"\0T"),
        &frame2(b"TYE", b"\x002001"),
        &frame2(b"PIC", b"\0PNG\x03d\0\x89P"),
        &frame2(b"COM", b"\0eng\0t"),
        &frame2(b"POP", b"a\0\x01"),
        &frame2(b"ULT", b"\x01eng\xff\xfe\0\0\xfe\xff\0t"),
        &frame2(b"XYZ", b"\0"),
        &[0; 3],
    ]))
}
pub fn ape_item(k: &[u8], flags: u32, v: &[u8]) -> Vec<u8> { cat(&[&(v.len() as u32).to_le_bytes(), &flags.to_le_bytes(), k, b"\0", v]) }
pub fn ape_tag(header: bool) -> Vec<u8> {
    let items = cat(&[&ape_item(b"Title", 0, b"T"), &ape_item(b"Track", 1, b"1/2"), &ape_item(b"Cover Art (Front)", 2, b"a.png\0\x89P"), &ape_item(b"Link", 4, b"u")]);
    let end = |f: u32| cat(&[b"APETAGEX", &2000u32.to_le_bytes(), &(items.len() as u32 + 32).to_le_bytes(), &4u32.to_le_bytes(), &f.to_le_bytes(), &[0; 8]]);
    let h = if header { 0x8000_0000 } else { 0u32 };
    cat(&[&if header { end(h | 0x2000_0000) } else { vec![] }, &items, &end(h)])
}
pub fn id3v1_tag() -> Vec<u8> {
    let mut v = b"TAGtitle".to_vec();
    v.resize(128, 0);
    v[93..97].copy_from_slice(b"1999");
    v[126] = 5;
    v[127] = 17;
    v
}
pub fn lyrics() -> Vec<u8> { b"LYRICSBEGININD0000210000026LYRICS200".to_vec() }
pub fn comments(items: &[&[u8]]) -> Vec<u8> {
    let mut c = cat(&[&1u32.to_le_bytes(), b"v", &(items.len() as u32).to_le_bytes()]);
    for i in items { c.extend_from_slice(&(i.len() as u32).to_le_bytes()); c.extend_from_slice(i); }
    c
}
pub fn some_comments() -> Vec<u8> { comments(&[b"TITLE=T", b"TRACKNUMBER=1/2", b"COVERART=iVA=", b"METADATA_BLOCK_PICTURE=AAAAAwAAAAAAAAAAAAAAAQAAAAEAAAAYAAAAAAAAAAI0NQ=="]) }
pub fn pic_block() -> Vec<u8> {
    let n = |x: u32| x.to_be_bytes();
    cat(&[&n(3), &n(9), b"image/png", &n(1), b"d", &n(1), &n(1), &n(24), &n(0), &n(2), b"\x89P"])
}

// ---- containers
fn mp3(first: &[u8], n: usize) -> Vec<u8> {
    let mut v = vec![];
    for k in 0..n {
        let s = v.len();
        // VBRI headers are looked up in stereo files only
        v.extend_from_slice(&[0xff, 0xfb, 0x14, if first.len() > 32 { 0 } else { 0xc0 }]);
        if k == 0 { v.extend_from_slice(first); }
        v.resize(s + 96, 0);
    }
    v
}
fn xing() -> Vec<u8> { cat(&[&[0; 17], b"Xing\0\0\0\x03\0\0\0\x09\0\0\x03\x84"]) }
fn vbri() -> Vec<u8> { cat(&[&[0; 32], b"VBRI\0\x01\0\0\0\x4b\0\0\x03\x84\0\0\0\x09\0\0\0\x01\0\x01\0\x01\0\x01"]) }
pub fn adts(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n { let s = v.len(); v.extend_from_slice(&[0xff, 0xf1, 0x50, 0x80, 0x03, 0x1f, 0xfc]); v.resize(s + 24, 0); }
    v
}
pub fn ape_new() -> Vec<u8> {
    let mut v = cat(&[b"MAC \x96\x0f\0\0\x34\0\0\0\x18\0\0\0", &[0; 36]]);
    v.truncate(52);
    for x in [73728u32, 1000, 2] { v.extend_from_slice(&x.to_le_bytes()); }
    v.extend_from_slice(&[0, 0, 0, 0]);
    v.extend_from_slice(&[16, 0, 2, 0]);
    v.extend_from_slice(&44100u32.to_le_bytes());
    // descriptor length is 52: flags, blocks per frame, final blocks, total frames, bits, channels, rate
    let mut w = v[..52].to_vec();
    w.extend_from_slice(&[0xd0, 7, 0, 0]);
    for x in [73728u32, 1000, 2] { w.extend_from_slice(&x.to_le_bytes()); }
    w.extend_from_slice(&[16, 0, 2, 0]);
    w.extend_from_slice(&44100u32.to_le_bytes());
    w.extend_from_slice(&[0; 8]);
    w
}
pub fn ape_old() -> Vec<u8> {
    let mut v = b"MAC ".to_vec();
    for x in [3950u16, 2000, 0, 2] { v.extend_from_slice(&x.to_le_bytes()); }
    v.extend_from_slice(&44100u32.to_le_bytes());
    v.extend_from_slice(&[0; 8]);
    for x in [2u32, 1000] { v.extend_from_slice(&x.to_le_bytes()); }
    v.resize(80, 0);
    v
}
fn wvb(total: u32, flags: u32, meta: &[u8]) -> Vec<u8> {
    let mut v = b"wvpk".to_vec();
    v.extend_from_slice(&(24 + meta.len() as u32).to_le_bytes());
    v.extend_from_slice(&0x410u16.to_le_bytes());
    v.extend_from_slice(&[0, 0]);
    for x in [total, 0, 1000, flags, 0] { v.extend_from_slice(&x.to_le_bytes()); }
    v.extend_from_slice(meta);
    v
}
pub fn sv8() -> Vec<u8> {
    let p = |k: &[u8; 2], d: &[u8]| cat(&[k, &[d.len() as u8 + 3], d]);
    cat(&[b"MPCK", &p(b"SH", &[0, 0, 0, 0, 8, 0x87, 0x68, 0x00, 0x1b, 0x08]), &p(b"RG", &[1, 0, 1, 0, 2, 0, 3, 0, 4]), &p(b"EI", &[0x50, 1, 2, 3]), &p(b"SO", &[5]), &p(b"AP", &[0; 6]), &p(b"SE", &[])])
}
fn chunk(be: bool, k: &[u8; 4], c: &[u8]) -> Vec<u8> {
    let n = c.len() as u32;
    cat(&[k, &if be { n.to_be_bytes() } else { n.to_le_bytes() }, c, if n & 1 == 1 { &[0] } else { &[] }])
}
pub fn wav() -> Vec<u8> {
    let fmt = cat(&[b"\xfe\xff\x02\0\x44\xac\0\0\x10\xb1\x02\0\x04\0\x10\0\x16\0\x10\0\x03\0\0\0", b"\x01\0\0\0\0\0\x10\0\x80\0\0\xaa\0\x38\x9b\x71"]);
    let list = cat(&[b"INFO", &chunk(false, b"INAM", b"T\0"), &chunk(false, b"IPRT", b"7\0"), &chunk(false, b"ICRD", b"1999\0")]);
    let id3 = id3v2(4, 0, &frame4(b"TIT2", [0; 2], b"\x03T"));
    let body = cat(&[b"WAVE", &chunk(false, b"fmt ", &fmt), &chunk(false, b"fact", &[5, 0, 0, 0]), &chunk(false, b"LIST", &list), &chunk(false, b"data", &[7; 20]), &chunk(false, b"id3 ", &id3)]);
    chunk(false, b"RIFF", &body)
}
pub fn aiff() -> Vec<u8> {
    let comm = b"\0\x02\0\0\0\x05\0\x10\x40\x0e\xac\x44\0\0\0\0\0\0sowt\0\0";
    let comt = b"\0\x01\0\0\0\x01\0\0\0\x02cc";
    let id3 = id3v2(4, 0, &frame4(b"TIT2", [0; 2], b"\x03T"));
    let body = cat(&[b"AIFC", &chunk(true, b"COMM", comm), &chunk(true, b"NAME", b"n"), &chunk(true, b"AUTH", b"au"), &chunk(true, b"(c) ", b"c"), &chunk(true, b"ANNO", b"an"), &chunk(true, b"COMT", comt), &chunk(true, b"SSND", &[0; 28]), &chunk(true, b"ID3 ", &id3)]);
    chunk(true, b"FORM", &body)
}
pub fn flac(id3: bool) -> Vec<u8> {
    let bl = |t: u8, c: &[u8]| cat(&[&[t], &(c.len() as u32).to_be_bytes()[1..], c]);
    let si = cat(&[b"\x10\0\x10\0\0\0\x0e\0\0\x10\x0a\xc4\x42\xf0\0\0\0\x05", &[0x11; 16]]);
    let lead = if id3 { id3v2(4, 0, &frame4(b"TIT2", [0; 2], b"\x03T")) } else { vec![] };
    cat(&[&lead, b"fLaC", &bl(0, &si), &bl(3, &[0; 18]), &bl(4, &comments(&[b"TITLE=T", b"DATE=1999"])), &bl(6, &pic_block()), &bl(0x81, &[0; 6]), &[0xff, 0xf8, 1, 2, 3]])
}
fn ogg(ident: &[u8], comment: &[u8], setup: Option<&[u8]>) -> Vec<u8> {
    let one = |flags: u8, gr: u64, seq: u32, body: &[u8]| page(flags, gr, 0x1234, seq, &lace(body.len()), body);
    let mut v = one(2, 0, 0, ident);
    v.extend(one(0, 0, 1, comment));
    if let Some(s) = setup { v.extend(one(0, 0, 2, s)); }
    v.extend(one(0, 480, 3, &[0x55; 20]));
    v.extend(one(4, 96000, 4, &[0x66; 20]));
    v
}
pub fn vorbis() -> Vec<u8> {
    let i = cat(&[b"\x01vorbis\0\0\0\0\x02\x44\xac\0\0\0\x71\x02\0\0\xee\x02\0\0\xf4\x01\0\xb8\x01"]);
    ogg(&i, &cat(&[b"\x03vorbis", &some_comments(), &[1]]), Some(b"\x05vorbis12345"))
}
pub fn opus(family: u8) -> Vec<u8> {
    let mut i = b"OpusHead\x01\x02\x38\x01\x80\xbb\0\0\0\0".to_vec();
    i.push(family);
    if family != 0 { i.extend_from_slice(&[1, 1, 0, 1]); }
    ogg(&i, &cat(&[b"OpusTags", &comments(&[b"TITLE=T", b"GENRE=R", b"DATE=1999-01"])]), None)
}
pub fn speex() -> Vec<u8> {
    let mut i = b"Speex   1.2rc1              ".to_vec();
    for x in [1u32, 80, 16000, 1, 4, 2, 27800, 320, 1, 1, 0, 0, 0] { i.extend_from_slice(&x.to_le_bytes()); }
    ogg(&i, &comments(&[b"TITLE=T", b"TRACKTOTAL=3"]), None)
}
pub fn atom(id: &[u8; 4], parts: &[&[u8]]) -> Vec<u8> {
    let c = parts.concat();
    cat(&[&(c.len() as u32 + 8).to_be_bytes(), id, &c])
}
pub fn atom64(id: &[u8; 4], parts: &[&[u8]]) -> Vec<u8> {
    let c = parts.concat();
    cat(&[&[0, 0, 0, 1], id, &(c.len() as u64 + 16).to_be_bytes(), &c])
}
fn data(code: u8, b: &[u8]) -> Vec<u8> { atom(b"data", &[&[0, 0, 0, code, 0, 0, 0, 0], b]) }
pub fn mp4(codec: usize) -> Vec<u8> {
    let ent = |id: &[u8; 4], rest: &[u8]| atom(id, &[&[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 16, 0, 0, 0, 0, 0xac, 0x44, 0, 0], rest]);
    let e = match codec {
        0 => ent(b"mp4a", &atom(b"esds", &[&[0; 4], b"\x03\x19\0\x01\0\x04\x11\x40\x15\0\0\0\0\0\0\0\0\0\xfa\0\x05\x02\x12\x10\x06\x01\x02"])),
        1 => ent(b"alac", &atom(b"alac", &[&[0; 4], b"\0\0\x10\0\0\x10\x28\x0a\x0e\x02\0\xff\0\0\0\0\0\0\xfa\0\0\0\xac\x44"])),
        _ => ent(b"fLaC", &atom(b"dfLa", &[b"\0\0\0\0\x80\0\0\x22", b"\x10\0\x10\0\0\0\x0e\0\0\x10\x0a\xc4\x42\xf0\0\0\0\x05", &[0x11; 16]])),
    };
    let stsd = atom(b"stsd", &[&[0, 0, 0, 0, 0, 0, 0, 1], &e]);
    let stts = atom(b"stts", &[&[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 4, 0]]);
    let stco = atom(b"stco", &[&[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 28]]);
    let mdhd = atom(b"mdhd", &[&[0; 12], &[0, 0, 0xac, 0x44, 0, 0, 0x24, 0, 0, 0, 0, 0]]);
    let hd = |k: &[u8; 4]| atom(b"hdlr", &[&[0; 8], k, &[0; 13]]);
    let mdia = atom(b"mdia", &[&mdhd, &hd(b"soun"), &atom(b"minf", &[&atom(b"stbl", &[&stts, &stsd, &stco])])]);
    let ilst = match codec {
        0 => atom(b"ilst", &[
            &atom(b"\xa9nam", &[&data(1, b"T")]),
            &atom(b"trkn", &[&data(0, &[0, 0, 0, 1, 0, 2, 0, 0])]),
            &atom(b"covr", &[&data(14, b"\x89P"), &data(13, b"\xff\xd8")]),
            &atom(b"----", &[&atom(b"mean", &[&[0; 4], b"m"]), &atom(b"name", &[&[0; 4], b"n"]), &data(1, b"v")]),
            &atom(b"free", &[&[0; 3]]),
        ]),
        1 => atom64(b"ilst", &[&atom64(b"cpil", &[&data(21, &[1])]), &atom(b"gnre", &[&data(0, &[0, 18])]), &atom(b"tmpo", &[&data(21, &[0, 120])]), &atom(b"rtng", &[&data(21, &[4])])]),
        _ => atom(b"ilst", &[&atom(b"\xa9day", &[&data(1, b"1999"), &data(2, b"\0x")]), &atom(b"disk", &[&data(0, &[0, 0, 0, 1, 0, 2])]), &atom(b"xxxx", &[&data(99, &[1])])]),
    };
    let meta = if codec == 2 { atom(b"meta", &[&hd(b"mdir"), &ilst]) } else { atom(b"meta", &[&[0; 4], &hd(b"mdir"), &ilst, &atom(b"free", &[&[0; 4]])]) };
    let moov = atom(b"moov", &[&atom(b"mvhd", &[&[0; 8]]), &atom(b"trak", &[&atom(b"tkhd", &[&[0; 8]]), &mdia]), &atom(b"udta", &[&meta])]);
    let ftyp = atom(b"ftyp", &[b"M4A \0\0\0\0"]);
    let mdat = atom(b"mdat", &[&[7; 16]]);
    match codec { 0 => cat(&[&ftyp, &mdat, &moov]), 1 => cat(&[&ftyp, &moov, &mdat]), _ => cat(&[&ftyp, &moov, &atom(b"moof", &[&atom(b"traf", &[&atom(b"tfhd", &[&[0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0]])])]), &mdat]) }
}

/// The templates of a format
pub fn count(fmt: usize) -> usize { [5, 3, 4, 2, 4, 1, 1, 2, 1, 2, 1, 3][fmt] }
pub fn template(fmt: usize, k: usize) -> Vec<u8> {
    match (fmt, k) {
        (MPEG, 0) => cat(&[&id3_a(), &mp3(&xing(), 2), &id3v1_tag()]),
        (MPEG, 1) => cat(&[&id3_b(), &mp3(&[], 2), &ape_tag(false)]),
        (MPEG, 2) => cat(&[&[0, 0], &id3_c(), &mp3(&vbri(), 2), &lyrics(), &id3v1_tag()]),
        (MPEG, 3) => cat(&[&id3_d(), &[0x11; 5], &mp3(&[], 2)]),
        (MPEG, _) => cat(&[&ape_tag(true), &mp3(&[], 2), &ape_tag(true), &lyrics(), &id3v1_tag()]),
        (AAC, 0) => cat(&[&id3_a(), &adts(3), &id3v1_tag()]),
        (AAC, 1) => cat(&[&id3_b(), &adts(3)]),
        (AAC, _) => cat(&[&[0, 0], &adts(3)]),
        (APE, 0) => cat(&[&ape_new(), &ape_tag(true), &id3v1_tag()]),
        (APE, 1) => cat(&[&id3_d(), &ape_old(), &ape_tag(false)]),
        (APE, 2) => cat(&[&ape_old(), &lyrics(), &id3v1_tag()]),
        (APE, _) => cat(&[&ape_tag(true), &ape_new(), &ape_tag(true)]),
        (WV, 0) => cat(&[&wvb(5000, 0x0480_0005, &[0x2a, 1, 2, 0]), &wvb(5000, 0x0480_1805, &[0x0d, 1, 2, 3]), &ape_tag(true), &id3v1_tag()]),
        (WV, _) => cat(&[&wvb(5000, 0x8780_1805, &[0x27, 2, 0x44, 0xac, 0, 0, 0xad, 2, 0, 0, 2, 3, 0, 0, 0x0e, 1, 2, 0]), &ape_tag(false)]),
        (MPC, 0) => cat(&[&sv8(), &ape_tag(true)]),
        (MPC, 1) => cat(&[b"MP+\x07", &[2, 0, 0, 0, 0, 0x40, 0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 0, 0x80, 0, 0, 0, 0x74], &[0; 12], &ape_tag(true), &id3v1_tag()]),
        (MPC, 2) => cat(&[&[0x01, 0x28, 0x00, 0x00, 0x10, 0, 0, 0], &[0; 32], &ape_tag(false)]),
        (MPC, _) => cat(&[&id3_d(), &sv8(), &id3v1_tag()]),
        (WAV, _) => wav(),
        (AIFF, _) => aiff(),
        (FLAC, k) => flac(k == 1),
        (VORBIS, _) => vorbis(),
        (OPUS, k) => opus([0, 1][k]),
        (SPEEX, _) => speex(),
        (_, k) => mp4(k),
    }
}

/// A position below `n`, one path per value.
pub fn place(n: usize) -> usize {
    if n <= 250 { return choose(n); }
    let hi = choose(n.div_ceil(128));
    let lo = choose(128.min(n - hi * 128));
    hi * 128 + lo
}
/// Replace any `w` consecutive bytes (positions a multiple of `stride`) with arbitrary ones.
pub fn window(v: &mut [u8], w: usize, stride: usize) -> usize {
    let p = place((v.len() - w) / stride + 1) * stride;
    fill(&mut v[p..p + w]);
    p
}
/// A flag that is decided only where the code consults it.
pub fn lazy() -> bool { let x = u8(); assume(x < 2); unsafe { std::mem::transmute::<u8, bool>(x) } }
/// A parsing mode that is decided only where the code consults it.
pub fn lazy_mode() -> ParsingMode { let x = u8(); assume(x < 3); unsafe { std::mem::transmute::<u8, ParsingMode>(x) } }
/// Every combination of parse options
pub fn any_options() -> ParseOptions {
    let mut o = ParseOptions::new();
    o.parsing_mode(lazy_mode()).read_tags(lazy()).read_properties(lazy()).read_cover_art(lazy()).implicit_conversions(lazy())
}
/// Any file with one arbitrary window, or cut short anywhere
pub fn corrupt(v: &mut Vec<u8>, w: usize, stride: usize) { if choose(2) == 0 { window(v, w, stride); } else { let n = place(v.len()); v.truncate(n); } }
/// Arbitrary bytes in `v[from..to]`
pub fn wild(v: &mut [u8], from: usize, to: usize) { fill(&mut v[from..to]); }

// ---- files of every format with little or no tag, and small files around rich tags
pub fn id3_small() -> Vec<u8> { id3v2(4, 0, &frame4(b"TIT2", [0; 2], b"\x03T")) }
pub fn ape_small() -> Vec<u8> {
    let item = ape_item(b"Title", 0, b"T");
    let end = |f: u32| cat(&[b"APETAGEX", &2000u32.to_le_bytes(), &(item.len() as u32 + 32).to_le_bytes(), &1u32.to_le_bytes(), &f.to_le_bytes(), &[0; 8]]);
    cat(&[&end(0xa000_0000), &item, &end(0x8000_0000)])
}
pub fn streams(fmt: usize) -> usize { [5, 3, 4, 2, 5][fmt] }
pub fn stream(fmt: usize, k: usize) -> Vec<u8> {
    match (fmt, k) {
        (MPEG, 0) => cat(&[&id3_small(), &mp3(&xing(), 2), &id3v1_tag()]),
        (MPEG, 1) => cat(&[&[0, 0], &mp3(&vbri(), 2), &lyrics(), &id3v1_tag()]),
        (MPEG, 2) => cat(&[&[0x11; 5], &id3_small(), &[0x11; 5], &mp3(&[], 2), &ape_small()]),
        (MPEG, 3) => cat(&[&ape_small(), &mp3(&[], 2)]),
        (MPEG, _) => mp3(&[], 3),
        (AAC, 0) => cat(&[&id3_small(), &adts(3), &id3v1_tag()]),
        (AAC, 1) => cat(&[&id3v2(4, 0x10, &[0; 10]), &adts(3)]),
        (AAC, _) => cat(&[&[0, 0], &adts(3)]),
        (APE, 0) => cat(&[&ape_new(), &ape_small(), &id3v1_tag()]),
        (APE, 1) => cat(&[&id3_small(), &ape_old(), &ape_small()]),
        (APE, 2) => cat(&[&ape_old(), &lyrics(), &id3v1_tag()]),
        (APE, _) => cat(&[&ape_small(), &ape_new()]),
        (WV, 0) => cat(&[&wvb(5000, 0x0480_0005, &[0x2a, 1, 2, 0]), &wvb(5000, 0x0480_1805, &[0x0d, 1, 2, 3]), &ape_small(), &id3v1_tag()]),
        (WV, _) => wvb(5000, 0x8780_1805, &[0x27, 2, 0x44, 0xac, 0, 0, 0xad, 2, 0, 0, 2, 3, 0, 0, 0x0e, 1, 2, 0]),
        (MPC, 0) => cat(&[&sv8(), &ape_small()]),
        (MPC, 1) => cat(&[b"MP+\x07", &[2, 0, 0, 0, 0, 0x40, 0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 0, 0x80, 0, 0, 0, 0x74], &[0; 12], &ape_small(), &id3v1_tag()]),
        (MPC, 2) => cat(&[&[0x01, 0x28, 0x00, 0x00, 0x10, 0, 0, 0], &[0; 32], &ape_small()]),
        (MPC, 3) => cat(&[&id3_small(), &sv8(), &id3v1_tag()]),
        _ => sv8(),
    }
}

// ---- what a reading reports
pub fn same_props(a: &TaggedFile, b: &TaggedFile) -> bool {
    let (p, q) = (a.properties(), b.properties());
    let x = p.duration() == q.duration();
    let x = x & (p.overall_bitrate() == q.overall_bitrate());
    let x = x & (p.audio_bitrate() == q.audio_bitrate());
    let x = x & (p.sample_rate() == q.sample_rate());
    let x = x & (p.bit_depth() == q.bit_depth());
    let x = x & (p.channels() == q.channels());
    x & (p.channel_mask() == q.channel_mask())
}
pub fn same_value(a: &ItemValue, b: &ItemValue) -> bool {
    match (a, b) {
        (ItemValue::Text(x), ItemValue::Text(y)) | (ItemValue::Locator(x), ItemValue::Locator(y)) => same_str(x, y),
        (ItemValue::Binary(x), ItemValue::Binary(y)) => same(x, y),
        _ => false,
    }
}
/// A FLAC file with picture blocks only is given Vorbis comments with an empty encoder to hold them
pub fn has_items(t: &Tag) -> bool { t.items().any(|i| !(i.key() == lofty::tag::ItemKey::EncoderSoftware && i.value().text() == Some(""))) }
/// Without pictures, tags that hold nothing else do not count.
pub fn same_tags(a: &TaggedFile, b: &TaggedFile, pictures: bool) -> bool {
    let keep = |t: &&Tag| pictures || has_items(t);
    let (mut x, mut y) = (a.tags().iter().filter(keep), b.tags().iter().filter(keep));
    loop {
        match (x.next(), y.next()) {
            (None, None) => return true,
            (Some(p), Some(q)) => if !same_tag(p, q, pictures) { return false; },
            _ => return false,
        }
    }
}
pub fn same_tag(x: &Tag, y: &Tag, pictures: bool) -> bool {
    if x.tag_type() != y.tag_type() || x.item_count() != y.item_count() { return false; }
    let mut r = x.items().zip(y.items()).all(|(p, q)| p.key() == q.key() && same_value(p.value(), q.value()) && same_str(p.description(), q.description()));
    if pictures {
        r &= x.pictures().len() == y.pictures().len();
        r = r && x.pictures().iter().zip(y.pictures()).all(|(p, q)| p.pic_type() == q.pic_type() && p.mime_type() == q.mime_type() && p.description() == q.description() && same(p.data(), q.data()));
    }
    r
}
