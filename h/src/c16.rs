//! bound: MPEG, ADTS AAC, Monkey's Audio, WavPack and Musepack files of two frames or a header with up to 20 arbitrary bytes, with every combination of an existing ID3v2 tag (at the start or, in MPEG files, behind 4 arbitrary bytes), APE tag (at the start of MPEG files, at the end with and without header, version 1), Lyrics3v2 tag and ID3v1 tag
//! bound: histories of two operations (thorough: three), each a save or a removal of an ID3v2, ID3v1 or APE tag smaller or larger than the existing one, through the format's tag or the generic tag, with and without padding and parsing of existing tags
//! assume: well-formed files: at most one tag of each type; the audio does not itself hold a tag marker where a tag would be; the format supports the tag type (types that are only read are only removed)
//! secs: 100
use crate::sym::*;
use crate::util::*;
use lofty::aac::AacFile;
use lofty::ape::{ApeFile, ApeTag};
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::Id3v2Tag;
use lofty::mpeg::MpegFile;
use lofty::musepack::MpcFile;
use lofty::tag::{Tag, TagType};
use lofty::wavpack::WavPackFile;

#[derive(Clone)]
struct Model { id3v2: Option<(Vec<u8>, &'static str)>, junk: Vec<u8>, lead: Option<Vec<u8>>, audio: Vec<u8>, ape: Option<(Vec<u8>, &'static str)>, lyrics: Vec<u8>, id3v1: Option<(Vec<u8>, &'static str)> }
impl Model {
    fn file(&self) -> Vec<u8> {
        let mut v = vec![];
        let p = |v: &mut Vec<u8>, t: &Option<(Vec<u8>, &'static str)>| if let Some(t) = t { v.extend_from_slice(&t.0) };
        // an ID3v2 tag that is already there may lie behind junk; it is saved at the start
        p(&mut v, &self.id3v2);
        v.extend_from_slice(&self.junk);
        if let Some(l) = &self.lead { v.extend_from_slice(l); }
        v.extend_from_slice(&self.audio);
        p(&mut v, &self.ape);
        v.extend_from_slice(&self.lyrics);
        p(&mut v, &self.id3v1);
        v
    }
}
fn wo(pad: u32) -> WriteOptions { WriteOptions::default().preferred_padding(pad) }
fn id3v2(t: &str, pad: u32) -> Vec<u8> {
    let mut x = Id3v2Tag::default();
    x.set_title(t.into());
    let mut o = vec![];
    let _ = x.dump_to(&mut o, wo(pad));
    o
}
fn ape(t: &str) -> Vec<u8> {
    let mut x = ApeTag::default();
    x.set_title(t.into());
    let mut o = vec![];
    let _ = x.dump_to(&mut o, wo(0));
    o
}
fn id3v1(t: &str) -> Vec<u8> {
    let mut x = Id3v1Tag::default();
    x.set_title(t.into());
    x.year = Some(1999);
    let mut o = vec![];
    let _ = x.dump_to(&mut o, wo(0));
    o
}
const T: [&str; 3] = ["old", "a new title that is longer than the old one, by far", "n"];
const MPEG: usize = 0;
const AAC: usize = 1;
const APE: usize = 2;
const WV: usize = 3;
fn body(format: usize) -> Vec<u8> {
    let mut v = match format { MPEG => vec![0xff, 0xfb, 0x90, 0], AAC => vec![0xff, 0xf1, 0x50, 0x80, 0x34, 0x1f, 0xfc], APE => b"MAC \x96\x0f".to_vec(), WV => b"wvpk\x18\0\0\0\x10\x04".to_vec(), _ => b"MP+\x07\0\0\0\0".to_vec() };
    let n = v.len();
    v.resize(if format == AAC { 416 } else { 417 }, 0);
    // a frame that looks as if it held tags
    v[100..110].copy_from_slice(b"ID3\x03\0\0\0\0\0\x09");
    v[120..128].copy_from_slice(b"APETAGEX");
    v[130..133].copy_from_slice(b"TAG");
    for i in n + 10..n + 14 { v[i] = u8(); }
    let w = v[..].to_vec();
    v.extend(w);
    // what stands where tags would begin
    let e = v.len();
    let (a, b, c, d): ([u8; 3], [u8; 3], [u8; 2], [u8; 4]) = (bytes(), bytes(), bytes(), bytes());
    assume(!same(&a, b"TAG") & !same(&c, b"AP") & !same(&d, b"S200"));
    v[e - 128..e - 125].copy_from_slice(&a);
    v[e - 256..e - 253].copy_from_slice(&b);
    v[e - 32..e - 30].copy_from_slice(&c);
    v[e - 30..e - 24].copy_from_slice(b"ETAGEX");
    v[e - 4..].copy_from_slice(&d);
    v[e - 9..e - 4].copy_from_slice(b"LYRIC");
    v
}
fn can(format: usize, kind: usize) -> (bool, bool) {
    // may save, may remove
    match (format, kind) { (MPEG, _) => (true, true), (AAC, 0 | 1) => (true, true), (AAC, _) => (false, false), (APE, 0) => (false, true), (WV, 0) => (false, false), (APE | WV, _) => (true, true), (_, 2) => (true, true), _ => (false, true) }
}
/// one operation
fn op(v: Vec<u8>, m: &mut Model, format: usize, more: bool) -> Option<Vec<u8>> {
    let mut f = Cursor::new(v);
    let kind = choose(3);
    let (save, remove) = can(format, kind);
    if !remove { return None; }
    let t = match choose(if save { 3 } else { 1 }) { 0 => None, k => Some(T[k]) };
    let how = if more { choose(3) } else { 0 };
    let mut w = wo(if kind == 0 && how == 1 { 20 } else { 0 });
    let w = if how == 2 { w.parse_options(ParseOptions::new().read_tags(false).read_cover_art(false)) } else { w };
    let ty = [TagType::Id3v2, TagType::Id3v1, TagType::Ape][kind];
    let r = match t {
        None if how == 1 => Tag::new(ty).save_to(&mut f, w),
        None => ty.remove_from(&mut f, w),
        Some(t) if how == 2 => {
            let mut x = Tag::new(ty);
            x.set_title(t.into());
            if kind == 1 { x.insert_text(lofty::tag::ItemKey::Year, "1999".into()); }
            x.save_to(&mut f, w)
        }
        Some(t) => match kind {
            0 => { let mut x = Id3v2Tag::default(); x.set_title(t.into()); x.save_to(&mut f, w) }
            1 => { let mut x = Id3v1Tag::default(); x.set_title(t.into()); x.year = Some(1999); x.save_to(&mut f, w) }
            _ => { let mut x = ApeTag::default(); x.set_title(t.into()); x.save_to(&mut f, w) }
        },
    };
    check(r.is_ok(), "saving to a well-formed file succeeds");
    if r.is_err() { return None; }
    match kind {
        0 => m.id3v2 = t.map(|t| (id3v2(t, if how == 1 { 20 } else { 0 }), t)),
        1 => m.id3v1 = t.map(|t| (id3v1(t), &t[..t.len().min(30)])),
        _ => { m.ape = t.map(|t| (ape(t), t)); m.lead = None; }
    }
    Some(f.into_inner())
}
fn titles(v: &[u8], format: usize) -> Option<[Option<String>; 3]> {
    let o = ParseOptions::new().read_properties(false);
    let c = &mut Cursor::new(v);
    fn s<A: Accessor>(t: Option<&A>) -> Option<String> { t.and_then(|t| t.title().map(|s| s.into_owned())) }
    Some(match format {
        MPEG => { let f = MpegFile::read_from(c, o).ok()?; [s(f.id3v2()), s(f.id3v1()), s(f.ape())] }
        AAC => { let f = AacFile::read_from(c, o).ok()?; [s(f.id3v2()), s(f.id3v1()), None] }
        APE => { let f = ApeFile::read_from(c, o).ok()?; [s(f.id3v2()), s(f.id3v1()), s(f.ape())] }
        WV => { let f = WavPackFile::read_from(c, o).ok()?; [None, s(f.id3v1()), s(f.ape())] }
        _ => { let f = MpcFile::read_from(c, o).ok()?; [s(f.id3v2()), s(f.id3v1()), s(f.ape())] }
    })
}
fn verify(v: &[u8], m: &Model, format: usize) {
    check(same(v, &m.file()), "the tag of the saved type is replaced, and nothing else");
    let Some([a, b, c]) = titles(v, format) else { check(false, "the result is read"); return };
    check(a.as_deref() == m.id3v2.as_ref().map(|t| t.1), "the ID3v2 tag is found");
    check(b.as_deref() == m.id3v1.as_ref().map(|t| t.1), "the ID3v1 tag is found");
    check(c.as_deref() == m.ape.as_ref().map(|t| t.1).or(if m.lead.is_some() { Some(T[0]) } else { None }), "the APE tag is found");
}
fn run(format: usize, ops: usize) {
    let audio = body(format);
    let mut m = Model { id3v2: None, junk: vec![], lead: None, audio, ape: None, lyrics: vec![], id3v1: None };
    let mut v = vec![];
    if format != WV && choose(2) == 1 {
        m.id3v2 = Some((id3v2(T[0], [0, 7][choose(2)]), T[0]));
        if format == MPEG && choose(2) == 1 {
            m.junk = vec![0x20, u8(), u8(), 0x20];
            assume((m.junk[1] != 0x49) & (m.junk[1] != 0xff) & (m.junk[2] != 0xff));
            v.extend_from_slice(&m.junk);
            v.extend_from_slice(&m.id3v2.as_ref().unwrap().0);
        }
    }
    if format != AAC {
        match choose(5) {
            0 => {}
            1 => m.ape = Some((ape(T[0]), T[0])),
            2 => { let t = ape(T[0]); let mut t = t[32..].to_vec(); let n = t.len(); t[n - 9] = 0; m.ape = Some((t, T[0])); }
            3 => { let t = ape(T[0]); let mut t = t[32..].to_vec(); let n = t.len(); t[n - 24..n - 20].copy_from_slice(&1000u32.to_le_bytes()); t[n - 12..].fill(0); m.ape = Some((t, T[0])); }
            _ => if format == MPEG { if m.junk.is_empty() { m.lead = Some(ape(T[0])); } },
        }
    }
    if choose(2) == 1 {
        m.id3v1 = Some((id3v1(T[0]), T[0]));
        if format != AAC && choose(2) == 1 { m.lyrics = b"LYRICSBEGININD0000200000025LYRICS200".to_vec(); m.lyrics[15] = b'2'; let n = m.lyrics.len(); let s = format!("{:06}", n - 15); m.lyrics[n - 15..n - 9].copy_from_slice(s.as_bytes()); }
    }
    if v.is_empty() { v = m.file(); } else { let mut n = m.clone(); n.id3v2 = None; n.junk = vec![]; v.extend(n.file()); }
    let junk = !m.junk.is_empty();
    for i in 0..ops {
        let Some(w) = op(v, &mut m, format, i == 0) else { return };
        v = w;
        // a tag in junk that was not touched stays there
        if junk && i == 0 { if m.id3v2.as_ref().is_some_and(|t| t.1 == T[0]) { return; } }
        verify(&v, &m, format);
        reach(1);
    }
}
harnesses! {
    fn h_mpeg() { run(MPEG, 2); }
    fn h_aac() { run(AAC, t(2, 3)); }
    fn h_ape() { run(APE, 2); }
    fn h_wavpack() { run(WV, t(2, 3)); }
    fn h_musepack() { run(4, t(2, 3)); }
    fn h_t_mpeg() { run(MPEG, 3); }
    fn h_t_ape() { run(APE, 3); }
    fn h_restore() {
        // removing what was added restores the file
        let format = choose(5);
        let v = body(format);
        let m0 = Model { id3v2: None, junk: vec![], lead: None, audio: v.clone(), ape: None, lyrics: vec![], id3v1: None };
        let mut m = m0.clone();
        let mut w = v.clone();
        for _ in 0..2 { let Some(x) = op(w, &mut m, format, false) else { return }; w = x; }
        for ty in [TagType::Id3v2, TagType::Id3v1, TagType::Ape] {
            let mut f = Cursor::new(w);
            let _ = ty.remove_from(&mut f, wo(0));
            w = f.into_inner();
        }
        check(same(&w, &v), "removing what was added restores the file");
        reach(1);
    }
}
