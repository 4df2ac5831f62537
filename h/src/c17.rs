//! bound: Vorbis, Opus and Speex files of one identification page, existing comments of 0, 20, 250, 600 or 65100 bytes on one page, after 255 bytes split or shared with the setup header, a setup header of 30 or 600 bytes, and up to four audio pages (arbitrary bytes and granule positions, packets that end on a later page, pages of another stream, up to 3 bytes of other data at the end)
//! bound: histories of one and two operations (thorough: three): saves of short, 255-byte-boundary and multi-page comments (up to 130 KB), of pictures, through the generic tag, and removals
//! assume: well-formed files: audio starts on a page of its own, headers of one stream come first; the checksum function is that of C35
//! secs: 100
//! steps: 20000000
use crate::sym::*;
use crate::util::*;
use lofty::ogg::tag::VorbisComments;
use lofty::ogg::{OggPictureStorage, OpusFile, SpeexFile, VorbisFile};
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::{Tag, TagType};
use ogg_pager::crc32;

#[derive(Clone)]
struct Pg { flags: u8, granule: u64, serial: u32, seq: u32, segs: Vec<u8>, body: Vec<u8> }
fn enc(p: &Pg) -> Vec<u8> {
    let mut v = page(p.flags, p.granule, p.serial, p.seq, &p.segs, &p.body);
    let c = crc32(&v);
    v[22..26].copy_from_slice(&c.to_le_bytes());
    v
}
fn dec(v: &[u8], at: usize) -> Option<(Pg, usize)> {
    if v.len() < at + 27 || !same(&v[at..at + 5], b"OggS\0") { return None; }
    let n = v[at + 26] as usize;
    if n == 0 || v.len() < at + 27 + n { return None; }
    let segs = v[at + 27..at + 27 + n].to_vec();
    let l: usize = segs.iter().map(|x| *x as usize).sum();
    let b = at + 27 + n;
    if v.len() < b + l { return None; }
    Some((Pg { flags: v[at + 5], granule: u64::from_le_bytes(v[at + 6..at + 14].try_into().unwrap()), serial: u32::from_le_bytes(v[at + 14..at + 18].try_into().unwrap()), seq: u32::from_le_bytes(v[at + 18..at + 22].try_into().unwrap()), segs, body: v[b..b + l].to_vec() }, b + l))
}
fn crc_ok(v: &[u8], at: usize, end: usize) -> bool {
    let mut w = v[at..end].to_vec();
    w[22..26].fill(0);
    crc32(&w) == le32(&v[at + 22..at + 26])
}
const S: u32 = 0x0102_0304;
fn ident(fmt: usize) -> Vec<u8> {
    match fmt {
        0 => [&b"\x01vorbis\0\0\0\0\x02\x44\xac\0\0"[..], &[0; 12], b"\xb8\x01"].concat(),
        1 => b"OpusHead\x01\x02\0\0\x80\xbb\0\0\0\0\0".to_vec(),
        _ => [&b"Speex   1.2rc1"[..], &[0; 14], &[1, 0, 0, 0, 80, 0, 0, 0], &[0; 44]].concat(),
    }
}
fn packet(fmt: usize, vendor: &[u8], items: &[Vec<u8>]) -> Vec<u8> {
    let mut c = [&b"\x03vorbis"[..], b"OpusTags", b""][fmt].to_vec();
    c.extend_from_slice(&(vendor.len() as u32).to_le_bytes());
    c.extend_from_slice(vendor);
    c.extend_from_slice(&(items.len() as u32).to_le_bytes());
    for i in items { c.extend_from_slice(&(i.len() as u32).to_le_bytes()); c.extend_from_slice(i); }
    if fmt == 0 { c.push(1); }
    c
}
/// packets laid out one after the other, `first` bytes of lacing values on the first page
fn headers(packets: &[Vec<u8>], serial: u32, seq: &mut u32, cut: usize) -> Vec<u8> {
    let segs: Vec<u8> = packets.iter().flat_map(|p| lace(p.len())).collect();
    let body = packets.concat();
    let (mut s, mut b, mut cont) = (0, 0, false);
    let mut v = vec![];
    while s < segs.len() {
        let n = if s == 0 && cut != 0 { cut.min(segs.len()) } else { 255.min(segs.len() - s) };
        let l: usize = segs[s..s + n].iter().map(|x| *x as usize).sum();
        let ends = segs[s..s + n].iter().any(|x| *x < 255);
        v.extend(enc(&Pg { flags: cont as u8, granule: if ends { 0 } else { u64::MAX }, serial, seq: *seq, segs: segs[s..s + n].to_vec(), body: body[b..b + l].to_vec() }));
        *seq += 1;
        cont = segs[s + n - 1] == 255;
        s += n;
        b += l;
    }
    v
}
struct File { fmt: usize, vendor: Vec<u8>, setup: Vec<u8>, audio: Vec<Pg>, tail: Vec<u8> }
fn verify(v: &[u8], f: &File, items: &[Vec<u8>]) {
    let mut at = 0;
    let mut seq = 0;
    let mut pk: Vec<Vec<u8>> = vec![];
    let mut cur: Vec<u8> = vec![];
    let count = if f.fmt == 0 { 3 } else { 2 };
    let mut open = false;
    while pk.len() < count {
        let Some((p, end)) = dec(v, at) else { check(false, "the header pages are well-formed"); return };
        check(p.flags == if seq == 0 { 2 } else { open as u8 }, "header pages carry the flags of their position");
        check(p.serial == S && p.seq == seq, "header pages are numbered one after the other");
        check(crc_ok(v, at, end), "header pages carry their checksum");
        let mut b = 0;
        let mut done = false;
        for s in &p.segs {
            cur.extend_from_slice(&p.body[b..b + *s as usize]);
            b += *s as usize;
            if *s < 255 { pk.push(std::mem::take(&mut cur)); done = true; }
        }
        check(p.granule == if done { 0 } else { u64::MAX }, "header pages have a granule position of 0, or of -1 if no packet ends on them");
        check(seq != 0 || pk.len() == 1 && cur.is_empty(), "the first page holds the identification header only");
        open = !cur.is_empty();
        at = end;
        seq += 1;
    }
    check(pk.len() == count && cur.is_empty(), "audio starts on a page of its own");
    check(same(&pk[0], &ident(f.fmt)), "the identification header is kept");
    check(same(&pk[1], &packet(f.fmt, &f.vendor, items)), "the comment header holds the vendor of the file and the saved fields");
    if f.fmt == 0 { check(same(&pk[2], &f.setup), "the setup header is kept"); }
    for a in &f.audio {
        let Some((p, end)) = dec(v, at) else { check(false, "the audio pages are well-formed"); return };
        check(p.flags == a.flags && p.granule == a.granule && p.serial == a.serial && same(&p.segs, &a.segs) && same(&p.body, &a.body), "audio pages keep their packets, flags and granule positions");
        if a.serial == S { check(p.seq == seq, "audio pages are numbered on"); seq += 1; } else { check(p.seq == a.seq, "pages of another stream are kept"); }
        check(crc_ok(v, at, end), "audio pages carry their checksum");
        at = end;
    }
    check(same(&v[at..], &f.tail), "what follows the last page is kept");
    let o = ParseOptions::new().read_properties(false).implicit_conversions(false);
    let r = &mut Cursor::new(v);
    let t = match f.fmt { 0 => VorbisFile::read_from(r, o).ok().map(|f| f.vorbis_comments().clone()), 1 => OpusFile::read_from(r, o).ok().map(|f| f.vorbis_comments().clone()), _ => SpeexFile::read_from(r, o).ok().map(|f| f.vorbis_comments().clone()) };
    let Some(t) = t else { check(false, "the result is read"); return };
    check(same(t.vendor().as_bytes(), &f.vendor), "the vendor is read back");
    let text: Vec<&Vec<u8>> = items.iter().filter(|i| !i.starts_with(b"METADATA")).collect();
    check(t.items().len() == text.len() && t.items().zip(&text).all(|((k, v), i)| same(&[k.as_bytes(), b"=", v.as_bytes()].concat(), i)), "the saved fields are read back");
    check(t.pictures().len() == items.len() - text.len(), "the saved pictures are read back");
}
const SIZES: [usize; 9] = [1, 200, 225, 226, 227, 228, 510, 65020, 130000];
fn op(v: Vec<u8>, f: &File, k: usize) -> Option<(Vec<u8>, Vec<Vec<u8>>)> {
    let mut c = Cursor::new(v);
    let w = WriteOptions::default();
    let a = ascii();
    let mut items = vec![];
    let r = match k {
        0 => TagType::VorbisComments.remove_from(&mut c, w),
        1 => {
            let mut t = Tag::new(TagType::VorbisComments);
            t.set_title(String::from_utf8(vec![a]).unwrap());
            items.push(vec![b'T', b'I', b'T', b'L', b'E', b'=', a]);
            t.save_to(&mut c, w)
        }
        2 => {
            let mut t = VorbisComments::new();
            let p = Picture::unchecked(vec![a, 1, 2]).pic_type(PictureType::Other).mime_type(MimeType::Png).build();
            let i = PictureInformation::default();
            items.push([b"METADATA_BLOCK_PICTURE=", &p.as_flac_bytes(i, true)[..]].concat());
            let _ = t.insert_picture(p, Some(i));
            t.save_to(&mut c, w)
        }
        _ => {
            let mut t = VorbisComments::new();
            let n = SIZES[k - 3];
            let mut val = vec![b'x'; n];
            val[n - 1] = a;
            let s = String::from_utf8(val).unwrap();
            items.push(b"A=b".to_vec());
            items.push([b"L=", s.as_bytes()].concat());
            t.push("A".into(), "b".into());
            t.push("E".into(), String::new());
            t.push("L".into(), s);
            t.save_to(&mut c, w)
        }
    };
    let _ = f;
    check(r.is_ok(), "saving to a well-formed file succeeds");
    r.ok().map(|_| (c.into_inner(), items))
}
fn run(ops: usize, wide: bool) {
    let fmt = choose(3);
    let mut f = File { fmt, vendor: b"ven".to_vec(), setup: vec![5; if choose(2) == 0 { 30 } else { 600 }], audio: vec![], tail: vec![] };
    f.setup[..7].copy_from_slice(b"\x05vorbis");
    let n = if wide { [0, 20, 250, 600, 65100][choose(5)] } else { [20, 65100][choose(2)] };
    let old = if n == 0 { vec![] } else { let mut x = vec![b'o'; n]; x[1] = b'='; vec![x] };
    let mut seq = 1;
    let mut v = enc(&Pg { flags: 2, granule: 0, serial: S, seq: 0, segs: lace(ident(fmt).len()), body: ident(fmt) });
    let c = packet(fmt, &f.vendor, &old);
    let cut = if c.len() > 255 && choose(2) == 1 { 1 } else { 0 };
    if fmt != 0 { v.extend(headers(&[c], S, &mut seq, cut)); }
    else if choose(2) == 0 { v.extend(headers(&[c, f.setup.clone()], S, &mut seq, cut)); }
    else { v.extend(headers(&[c], S, &mut seq, cut)); v.extend(headers(&[f.setup.clone()], S, &mut seq, 0)); }
    let b = || { let mut b = vec![0x42; 20]; b[3] = u8(); b };
    let g = |n: u64| n + conc_small();
    match if wide { choose(4) } else { 3 } {
        0 => {}
        1 => f.audio.push(Pg { flags: 4, granule: 960, serial: S, seq, segs: vec![20], body: b() }),
        2 => {
            f.audio.push(Pg { flags: 0, granule: u64::MAX, serial: S, seq, segs: vec![255], body: vec![7; 255] });
            f.audio.push(Pg { flags: 5, granule: g(5000), serial: S, seq: seq + 1, segs: vec![3, 17], body: b() });
            f.tail = vec![b'O', b'g', u8()];
        }
        _ => {
            f.audio.push(Pg { flags: 2, granule: 0, serial: 77, seq: 9, segs: vec![20], body: b() });
            f.audio.push(Pg { flags: 0, granule: g(480), serial: S, seq, segs: vec![20, 0], body: b() });
            f.audio.push(Pg { flags: 0, granule: 9, serial: 77, seq: 10, segs: vec![1], body: vec![1] });
            f.audio.push(Pg { flags: 4, granule: 960, serial: S, seq: seq + 1, segs: vec![9, 11], body: b() });
        }
    }
    for a in &f.audio { v.extend(enc(a)); }
    v.extend_from_slice(&f.tail);
    for i in 0..ops {
        let k = if wide { choose(3 + SIZES.len()) } else if i == 0 { [1, 3, 9, 10][choose(4)] } else { [0, 2, 4, 9][choose(4)] };
        let Some((w, items)) = op(v, &f, k) else { return };
        v = w;
        verify(&v, &f, &items);
        reach(1);
    }
}
fn conc_small() -> u64 { choose(3) as u64 }
harnesses! {
    fn h_one() { run(1, true); }
    fn h_two() { run(t(2, 3), false); }
}
