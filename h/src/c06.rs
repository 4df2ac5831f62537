//! bound: any 4 consecutive bytes (4-byte steps, thorough 2; MP4 also any 8) arbitrary in small files of MPEG, AAC, APE, WavPack, Musepack (quick: tags skipped), WAV, AIFF, FLAC and MP4 (60 to 700 bytes) and in four rich ID3v2 tags and two APE tags; any 4 in the identification and comment packets of a Vorbis and an Opus file in every parsing mode
//! bound: any 4 (4-byte steps, thorough 2) in the WAV, AIFF, WavPack, FLAC and MP4 files while a tag is saved or removed
//! bound: the allocation limit is 512 bytes; no single request may exceed 2048 bytes (MP4), 49152 bytes (other readers; inflating takes 43 KB), 16384 bytes (writers, and Ogg, which is searched backwards in blocks of 16256 bytes) or 65536 bytes (the FLAC writer, which moves data in blocks of that size)
//! assume: what compressed ID3v2 frames expand to is not counted as claimed; the global allocation limit is that of the process
//! split: 1
//! secs: 260
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;
use lofty::tag::{Tag, TagType};
use TagType::*;

fn read(f: usize, w: usize, stride: usize, n: u64) {
    small_limit();
    let k = choose(count(f));
    let v = template(f, k);
    scan(f, v, w, stride, n, true)
}
fn scan(f: usize, mut v: Vec<u8>, w: usize, stride: usize, n: u64, tags: bool) {
    small_limit();
    window(&mut v, w, stride);
    alloc_limit(n);
    let mut o = ParseOptions::new();
    let _ = read_own(f, &mut Cursor::new(&v), o.parsing_mode(ParsingMode::BestAttempt).read_tags(tags));
    reach(1);
}
fn write(f: usize, types: &[TagType]) {
    small_limit();
    let k = choose(count(f));
    let t = types[choose(types.len())];
    let mut v = template(f, k);
    window(&mut v, 4, crate::sym::t(4, 2));
    let mut x = Tag::new(t);
    x.set_title("a new title".into());
    let mut c = Cursor::new(v);
    alloc_limit(if f == FLAC { 65536 } else { 16384 });
    if choose(2) == 0 { let _ = x.save_to(&mut c, WriteOptions::default()); } else { let _ = t.remove_from(&mut c, WriteOptions::default()); }
    reach(1);
}
fn tag(v: Vec<u8>) { scan(AAC, cat(&[&v, &adts(3), &[0; 160]]), 4, t(4, 2), 49152, true) }
fn comments() -> Vec<u8> { cat(&[b"\x05\0\0\0lofty\x02\0\0\0\x09\0\0\0TITLE=old", b"\x08\0\0\0ARTIST=a"]) }
fn either(id: &mut [u8], c: &mut [u8], from: usize) {
    small_limit();
    if choose(2) == 0 { window(&mut id[from..], 4, 1); } else { window(&mut c[from..], 4, 1); }
}
fn ogg(f: usize, parts: &[&[u8]]) {
    alloc_limit(16384);
    let mut o = ParseOptions::new();
    let _ = read_own(f, &mut Cursor::new(cat(parts)), o.parsing_mode(lazy_mode()));
    reach(1);
}
harnesses! {
    fn h_mpeg() { let k = choose(streams(MPEG)); scan(MPEG, stream(MPEG, k), 4, t(4, 2), 49152, T) }
    fn h_aac() { let k = choose(streams(AAC)); scan(AAC, stream(AAC, k), 4, t(4, 2), 49152, T) }
    fn h_ape() { let k = choose(streams(APE)); scan(APE, stream(APE, k), 4, t(4, 2), 49152, T) }
    fn h_wv() { let k = choose(streams(WV)); scan(WV, stream(WV, k), 4, t(4, 2), 49152, T) }
    fn h_mpc() { let k = choose(streams(MPC)); scan(MPC, stream(MPC, k), 4, t(4, 2), 49152, T) }
    fn h_wav() { read(WAV, 4, t(4, 2), 49152) }
    fn h_aiff() { read(AIFF, 4, t(4, 2), 49152) }
    fn h_flac() { read(FLAC, 4, t(4, 2), 49152) }
    // identification and comment packets of Ogg files
    fn h_ogg_vorbis() {
        let mut id = cat(&[b"\x01vorbis\0\0\0\0\x02", &44100u32.to_le_bytes(), &[0; 12], b"\xb8\x01"]);
        let mut c = cat(&[b"\x03vorbis", &comments(), b"\x01"]);
        either(&mut id, &mut c, 7);
        let mut body = c.clone();
        body.extend_from_slice(b"\x05vorbis123");
        ogg(VORBIS, &[&page(2, 0, 7, 0, &[id.len() as u8], &id), &page(0, 0, 7, 1, &[c.len() as u8, 10], &body), &page(4, 44100, 7, 2, &[4], &[1; 4])])
    }
    fn h_ogg_opus() {
        let mut id = b"OpusHead\x01\x02\0\0\x80\xbb\0\0\0\0\0".to_vec();
        let mut c = cat(&[b"OpusTags", &comments()]);
        either(&mut id, &mut c, 8);
        ogg(OPUS, &[&page(2, 0, 7, 0, &[id.len() as u8], &id), &page(0, 0, 7, 1, &[c.len() as u8], &c), &page(4, 48000, 7, 2, &[4], &[1; 4])])
    }
    fn h_id3_a() { tag(id3_a()) }
    fn h_id3_b() { tag(id3_b()) }
    fn h_id3_c() { tag(id3_c()) }
    fn h_id3_d() { tag(id3_d()) }
    fn h_ape_tag() {
        let a = ape_tag(choose(2) == 1);
        scan(MPC, cat(&[&sv8(), &[0; 40], &a]), 4, t(4, 2), 49152, true)
    }
    fn h_mp4() { read(MP4, 4, t(4, 2), 2048) }
    fn h_mp4_wide() { read(MP4, 8, t(8, 4), 2048) }
    fn h_save_wav() { write(WAV, &[Id3v2, RiffInfo]) }
    fn h_save_aiff() { write(AIFF, &[Id3v2, AiffText]) }
    fn h_save_wv() { write(WV, &[Ape]) }
    fn h_save_flac() { write(FLAC, &[VorbisComments]) }
    fn h_save_mp4() { write(MP4, &[Mp4Ilst]) }
}
