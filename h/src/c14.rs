//! bound: WAV files of fmt, data and one or two further chunks, AIFF files of COMM, SSND and further chunks; contents of 0 to 4 arbitrary bytes, even and odd sizes; an existing INFO list, ID3v2 chunk or text chunk set absent or at every place, smaller or larger than what is saved; up to 7 bytes of other data behind a WAV stream
//! bound: histories of one and two operations (thorough: three), each a save or a removal of an ID3v2 tag or a RIFF INFO list / AIFF text chunks; with and without padding
//! assume: well-formed files: chunks are padded to even sizes, the form size is that of the chunks, at most one tag of each type; nothing follows an AIFF form
//! secs: 100
use crate::sym::*;
use crate::util::*;
use lofty::id3::v2::Id3v2Tag;
use lofty::iff::aiff::{AiffFile, AiffTextChunks, Comment};
use lofty::iff::wav::{RiffInfoList, WavFile};
use lofty::tag::TagType;

type Ch = ([u8; 4], Vec<u8>);
fn put(v: &mut Vec<u8>, be: bool, k: &[u8], c: &[u8]) {
    v.extend_from_slice(k);
    let n = c.len() as u32;
    v.extend_from_slice(&if be { n.to_be_bytes() } else { n.to_le_bytes() });
    v.extend_from_slice(c);
    if c.len() % 2 == 1 { v.push(0); }
}
fn form(be: bool, chunks: &[Ch]) -> Vec<u8> {
    let mut b = if be { b"AIFF".to_vec() } else { b"WAVE".to_vec() };
    for (k, c) in chunks { put(&mut b, be, k, c); }
    let mut v = vec![];
    put(&mut v, be, if be { b"FORM" } else { b"RIFF" }, &b);
    v
}
/// the chunks of a well-formed file and what follows it
fn split(v: &[u8], be: bool) -> Option<(Vec<Ch>, usize)> {
    let n = |b: &[u8]| (if be { be32(b) } else { le32(b) }) as usize;
    if v.len() < 12 { return None; }
    let end = n(&v[4..8]) + 8;
    if end > v.len() || end < 12 { return None; }
    let mut p = 12;
    let mut o = vec![];
    while p < end {
        if end - p < 8 { return None; }
        let l = n(&v[p + 4..p + 8]);
        if l > end - p - 8 { return None; }
        o.push(([v[p], v[p + 1], v[p + 2], v[p + 3]], v[p + 8..p + 8 + l].to_vec()));
        p += 8 + l;
        if l % 2 == 1 { if p >= end || v[p] != 0 { return None; } p += 1; }
    }
    Some((o, end))
}
fn id3(title: &str) -> Id3v2Tag { let mut t = Id3v2Tag::default(); t.set_title(title.into()); t }
fn dump<T: TagExt>(t: &T, pad: Option<u32>) -> Vec<u8> { let mut o = vec![]; let _ = t.dump_to(&mut o, wo(pad)); o }
fn wo(pad: Option<u32>) -> WriteOptions {
    let w = WriteOptions::default();
    match pad { None => w.preferred_padding(0), Some(n) => w.preferred_padding(n) }
}
fn info(s: &str) -> RiffInfoList { let mut t = RiffInfoList::new(); t.insert("INAM".into(), s.into()); t }
const TITLES: [&str; 3] = ["a", "longer title of a file", "bc"];
fn opts() -> ParseOptions { ParseOptions::new().read_properties(false).parsing_mode(ParsingMode::BestAttempt) }

/// model of the tags: titles
#[derive(Clone, Copy, PartialEq)]
struct Tags { id3: Option<&'static str>, own: Option<&'static str> }

fn op(v: Vec<u8>, be: bool, m: &mut Tags, ops: usize) -> Option<Vec<u8>> {
    let mut f = Cursor::new(v);
    let which = choose(2);
    let k = choose(ops);
    let pad = [Some(16u32), None, Some(600)][if which == 0 { choose(if k < 2 { 2 } else { 1 }) } else { 0 }];
    let w = wo(pad).uppercase_id3v2_chunk(k != 0);
    let r = if which == 0 {
        match k {
            0 => { m.id3 = Some(TITLES[0]); id3(TITLES[0]).save_to(&mut f, w) }
            1 => { m.id3 = Some(TITLES[1]); id3(TITLES[1]).save_to(&mut f, w) }
            2 => { m.id3 = None; TagType::Id3v2.remove_from(&mut f, w) }
            _ => { m.id3 = None; Id3v2Tag::default().save_to(&mut f, w) }
        }
    } else if be {
        match k {
            0 | 1 => { m.own = Some(TITLES[k]); let mut t = AiffTextChunks::new(); t.name = Some(TITLES[k].into()); t.save_to(&mut f, w) }
            2 => { m.own = None; TagType::AiffText.remove_from(&mut f, w) }
            _ => { m.own = None; AiffTextChunks::new().save_to(&mut f, w) }
        }
    } else {
        match k {
            0 | 1 => { m.own = Some(TITLES[k]); info(TITLES[k]).save_to(&mut f, w) }
            2 => { m.own = None; TagType::RiffInfo.remove_from(&mut f, w) }
            _ => { m.own = None; RiffInfoList::new().save_to(&mut f, w) }
        }
    };
    check(r.is_ok(), "saving to a well-formed file succeeds");
    if r.is_err() { return None; }
    Some(f.into_inner())
}
fn is_text(k: &[u8; 4]) -> bool { matches!(k, b"NAME" | b"AUTH" | b"(c) " | b"ANNO" | b"COMT") }
fn verify(v: &[u8], be: bool, others: &[Ch], m: Tags, tail: &[u8]) {
    let s = split(v, be);
    check(s.is_some(), "the result is a well-formed container");
    let Some((c, end)) = s else { return };
    check(same(&v[end..], tail), "data behind the stream is kept and the form size is exact");
    let mut at = 0;
    let (mut ids, mut owns) = (0, 0);
    for (k, b) in &c {
        if k == b"ID3 " || k == b"id3 " { ids += 1; continue; }
        if k == b"JUNK" { continue; }
        if if be { is_text(k) } else { k == b"LIST" && b.len() >= 4 && &b[..4] == b"INFO" } { owns += 1; continue; }
        check(at < others.len() && same(k, &others[at].0) && same(b, &others[at].1), "other chunks are kept in order");
        at += 1;
    }
    check(at == others.len(), "no other chunk is lost");
    check(ids == m.id3.is_some() as usize, "one ID3v2 chunk");
    check(owns == m.own.is_some() as usize, "one set of text chunks or INFO list");
    let (t, o): (Option<String>, Option<String>) = if be {
        let Ok(f) = AiffFile::read_from(&mut Cursor::new(v), opts()) else { check(false, "the result is read"); return };
        (f.id3v2().and_then(|t| t.title().map(|s| s.into_owned())), f.text_chunks().and_then(|t| t.name.clone()))
    } else {
        let Ok(f) = WavFile::read_from(&mut Cursor::new(v), opts()) else { check(false, "the result is read"); return };
        (f.id3v2().and_then(|t| t.title().map(|s| s.into_owned())), f.riff_info().and_then(|t| t.get("INAM").map(|s| s.to_string())))
    };
    check(t.as_deref() == m.id3, "the ID3v2 tag is found");
    check(o.as_deref() == m.own, "the text chunks or INFO list are found");
}
/// any name no reader or writer knows
fn name() -> [u8; 4] {
    let b: [u8; 4] = bytes();
    for x in &b { assume((*x > 0x20) & (*x < 0x7f)); }
    for k in [b"fmt ", b"data", b"fact", b"LIST", b"JUNK", b"ID3 ", b"id3 ", b"COMM", b"SSND", b"NAME", b"AUTH", b"(c) ", b"ANNO", b"COMT"] { assume(!same(&b, k)); }
    b
}
fn others(be: bool, kind: usize) -> Vec<Ch> {
    let d = vec([1usize, 4, 3][kind % 3]);
    let mut o: Vec<Ch> = if be {
        let mut s = vec![0; 8];
        s.extend_from_slice(&d);
        vec![(*b"COMM", b"\0\x01\0\0\0\x01\0\x10\x40\x0e\xac\x44\0\0\0\0\0\0".to_vec()), (*b"SSND", s)]
    } else {
        vec![(*b"fmt ", b"\x01\0\x01\0\x44\xac\0\0\x88\x58\x01\0\x02\0\x10\0".to_vec()), (*b"data", d)]
    };
    match kind {
        0 => {}
        1 => o.insert(0, (name(), vec(3))),
        2 => o.push(if be { (*b"APPL", vec(5)) } else { let mut l = b"adtl".to_vec(); l.extend(vec(3)); (*b"LIST", l) }),
        _ => { o.insert(1, (*b"PEAK", vec![])); o.push((*b"wxyz", vec(2))); }
    }
    o
}
fn run(be: bool) {
    let oth = others(be, choose(4));
    let mut c: Vec<Ch> = oth.clone();
    let mut m = Tags { id3: None, own: None };
    // existing tags
    match choose(4) {
        0 => {}
        1 => {
            m.own = Some(TITLES[2]);
            let at = choose(c.len() + 1);
            if be {
                match choose(3) {
                    0 => c.insert(at, (*b"NAME", TITLES[2].into())),
                    1 => { c.insert(at, (*b"ANNO", b"odd".to_vec())); c.push((*b"NAME", TITLES[2].into())); }
                    _ => { c.insert(at, (*b"NAME", TITLES[2].into())); c.insert(0, (*b"COMT", b"\0\x01\0\0\0\x01\0\0\0\x02hi".to_vec())); c.push((*b"(c) ", b"x".to_vec())); }
                }
            } else {
                let odd = choose(2) == 1;
                let mut l = b"INFOINAM\x03\0\0\0bc\0".to_vec();
                if !odd { l.push(0); }
                c.insert(at, (*b"LIST", l));
            }
        }
        k => {
            m.id3 = Some(TITLES[2]);
            let at = choose(c.len() + 1);
            let d = dump(&id3(TITLES[2]), if k == 2 { None } else { Some(91) });
            c.insert(at, (*b"ID3 ", d));
            if choose(2) == 1 {
                m.own = Some(TITLES[0]);
                if be { c.push((*b"NAME", TITLES[0].into())); } else { c.push((*b"LIST", dump(&info(TITLES[0]), None)[8..].to_vec())); }
            }
        }
    }
    let mut v = form(be, &c);
    let mut tail = vec![];
    if !be && choose(2) == 1 { tail = vec![0xee, 1, 2, 0xff, 4, 5, 6]; v.extend_from_slice(&tail); }
    verify_model(&v, be, &oth, m, &tail);
}
fn verify_model(v: &[u8], be: bool, oth: &[Ch], mut m: Tags, tail: &[u8]) {
    let multi = m.own.is_some();
    let Some(mut w) = op(v.to_vec(), be, &mut m, 4) else { return };
    // only own text chunks that were saved are single
    if !be || !multi || m.own != Some(TITLES[2]) { verify(&w, be, oth, m, tail); }
    reach(1);
    for _ in 1..t(2, 3) {
        let Some(x) = op(w, be, &mut m, t(3, 4)) else { return };
        if !be || !multi || m.own != Some(TITLES[2]) { verify(&x, be, oth, m, tail); }
        w = x;
        reach(2);
    }
}

harnesses! {
    fn h_wav() { run(false); }
    fn h_aiff() { run(true); }
    fn h_undo() {
        // saving and removing restores the file
        let be = choose(2) == 1;
        let c = others(be, choose(4));
        let v = form(be, &c);
        let mut f = Cursor::new(v.clone());
        let w = wo([None, Some(5)][choose(2)]);
        let k = choose(2);
        let s = match (k, be) { (0, _) => id3("t").save_to(&mut f, w), (_, false) => info("t").save_to(&mut f, w), _ => { let mut x = AiffTextChunks::new(); x.comments = Some(vec![Comment { timestamp: 1, marker_id: 0, text: "odd".into() }]); x.save_to(&mut f, w) } };
        check(s.is_ok() && f.get_ref().len() > v.len(), "a tag is saved");
        f.set_position(0);
        let ty = if k == 0 { TagType::Id3v2 } else if be { TagType::AiffText } else { TagType::RiffInfo };
        check(ty.remove_from(&mut f, w).is_ok(), "a tag is removed");
        check(same(f.get_ref(), &v), "removing what was saved restores the file");
        reach(1);
    }
}
