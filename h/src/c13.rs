//! bound: RIFF INFO lists of 0 to 2 (thorough: 3) items: any valid four-character key in the first, values of 0 to 2 arbitrary characters; text chunks: each field absent or 0 to 2 arbitrary characters, up to four annotations and two comments, every timestamp and marker
//! bound: reading: INFO items with 0 to 3 bytes of padding or terminators, values of any parity; comment sizes at the 16-bit limit
//! secs: 60
use crate::sym::*;
use crate::util::*;
use lofty::iff::aiff::{AiffFile, AiffTextChunks, Comment};
use lofty::iff::wav::{RiffInfoList, WavFile};

fn wav(body: &[u8]) -> Vec<u8> {
    let mut v = b"RIFF".to_vec();
    v.extend_from_slice(&(body.len() as u32 + 4).to_le_bytes());
    v.extend_from_slice(b"WAVE");
    v.extend_from_slice(body);
    v
}
fn aiff(body: &[u8]) -> Vec<u8> {
    let mut v = b"FORM".to_vec();
    v.extend_from_slice(&(body.len() as u32 + 4).to_be_bytes());
    v.extend_from_slice(b"AIFF");
    v.extend_from_slice(body);
    v
}
fn opts() -> ParseOptions {
    let m = match choose(2) { 0 => ParsingMode::Strict, _ => ParsingMode::BestAttempt };
    ParseOptions::new().read_properties(false).parsing_mode(m)
}
fn read_info(v: &[u8]) -> Option<Option<Vec<(String, String)>>> {
    let f = WavFile::read_from(&mut Cursor::new(v), opts()).ok()?;
    Some(f.riff_info().map(|t| t.into_iter().cloned().collect()))
}
fn chunk(k: &[u8], c: &[u8]) -> Vec<u8> {
    let mut v = k.to_vec();
    v.extend_from_slice(&(c.len() as u32).to_be_bytes());
    v.extend_from_slice(c);
    if c.len() % 2 == 1 { v.push(0); }
    v
}
fn fourcc(b: &[u8]) -> bool {
    let mut ok = true;
    let mut space = false;
    for x in b { ok &= (*x >= 0x20) & (*x <= 0x7e) & (!space | (*x == 0x20)); space |= *x == 0x20; }
    ok
}
fn sopt(n: usize) -> Option<String> { match choose(n + 1) { 0 => None, k => Some(text(k - 1, 3).0) } }
fn eqo(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => same_str(a, b), _ => false } }

harnesses! {
    fn h_info() {
        let n = choose(t(3, 4));
        let mut tag = RiffInfoList::new();
        let mut want = b"LIST\0\0\0\0INFO".to_vec();
        let mut items = vec![];
        for i in 0..n {
            let k = if i == 0 { let b: [u8; 4] = bytes(); assume(fourcc(&b) & (b[0] != b'I') & (b[0] != b'i')); b } else { [b'I', b'A' + i as u8, b'R', b'T'] };
            let v = text(choose(3), if i == 0 { 4 } else { 2 }).0;
            let ks = unsafe { String::from_utf8_unchecked(k.to_vec()) };
            tag.insert(ks, v.clone());
            if v.is_empty() { continue; }
            want.extend_from_slice(&k);
            let l = v.len() + 1;
            want.extend_from_slice(&(l as u32).to_le_bytes());
            want.extend_from_slice(v.as_bytes());
            want.push(0);
            if l % 2 == 1 { want.push(0); }
            items.push((k, v));
        }
        check(tag.len() == n, "items are inserted");
        let l = want.len() as u32 - 8;
        want[4..8].copy_from_slice(&l.to_le_bytes());
        let mut out = vec![];
        check(tag.dump_to(&mut out, WriteOptions::default()).is_ok(), "an INFO list is encoded");
        if n == 0 { check(out.is_empty(), "an empty list is not written"); reach(1); return; }
        check(same(&out, &want), "the layout of the INFO list");
        out.extend_from_slice(b"junk\0\0\0\0");
        let r = read_info(&wav(&out));
        check(r.is_some(), "an encoded INFO list is decoded");
        let Some(r) = r else { return };
        let r = r.unwrap_or_default();
        check(r.len() == items.len(), "number of items");
        for i in 0..items.len() { if i < r.len() { check(same(r[i].0.as_bytes(), &items[i].0) && same_str(&r[i].1, &items[i].1), "items in order"); } }
        reach(2);
    }
    fn h_info_key() {
        let n = choose(7);
        let k = vec(n);
        for b in &k { assume(*b < 128); }
        let mut tag = RiffInfoList::new();
        tag.insert(unsafe { String::from_utf8_unchecked(k.clone()) }, "x".into());
        check(tag.len() == (n == 4 && fourcc(&k)) as usize, "exactly the four-character keys are accepted");
        reach(1);
    }
    fn h_info_read() {
        // values as other programs write them: with any number of terminators, with or without padding of the last one
        let a = vec(1 + choose(2));
        let b = vec(1 + choose(2));
        for x in a.iter().chain(&b) { assume((*x > 0) & (*x < 128)); }
        let (za, zb) = (choose(4), choose(4));
        let mut l = b"INFO".to_vec();
        let le = |k: &[u8], c: &[u8], z: usize, pad: bool| { let mut v = k.to_vec(); v.extend_from_slice(&((c.len() + z) as u32).to_le_bytes()); v.extend_from_slice(c); for _ in 0..z { v.push(0); } if pad && (c.len() + z) % 2 == 1 { v.push(0); } v };
        l.extend(le(b"INAM", &a, za, true));
        let pad = choose(2) == 1;
        l.extend(le(b"IART", &b, zb, pad));
        let mut v = b"LIST".to_vec();
        v.extend_from_slice(&(l.len() as u32).to_le_bytes());
        v.extend_from_slice(&l);
        if l.len() % 2 == 1 { v.push(0); }
        v.extend_from_slice(b"LIST\x0e\0\0\0INFOIGNR\x02\0\0\0g\0");
        let r = read_info(&wav(&v));
        check(r.is_some(), "an INFO list is decoded");
        let Some(Some(r)) = r else { check(false, "the INFO list is found"); return };
        check(r.len() == 3, "number of items");
        if r.len() < 3 { return; }
        check(same_str(&r[0].0, "INAM") && same(r[0].1.as_bytes(), &a), "value without terminators");
        check(same_str(&r[1].0, "IART") && same(r[1].1.as_bytes(), &b), "value without terminators");
        check(same_str(&r[2].0, "IGNR") && same_str(&r[2].1, "g"), "a later list");
        reach(1);
    }
    fn h_text_chunks() {
        let mut tag = AiffTextChunks::new();
        let which = choose(3);
        tag.name = if which == 0 { sopt(t(3, 4)) } else { Some("n".into()) };
        tag.author = if which == 1 { sopt(t(3, 4)) } else { None };
        tag.copyright = if which == 2 { sopt(t(3, 4)) } else { Some("cc".into()) };
        tag.annotations = match choose(5) { 0 => None, 3 => Some(vec![String::from("a"), String::from("bc"), text(1, 2).0, String::from("d")]), 1 => Some(vec![text(choose(3), 2).0]), 2 => Some(vec![String::from("a"), text(choose(2), 2).0]), _ => Some(vec![]) };
        let mut want = vec![];
        if let Some(s) = &tag.name { want.extend(chunk(b"NAME", s.as_bytes())); }
        if let Some(s) = &tag.author { want.extend(chunk(b"AUTH", s.as_bytes())); }
        if let Some(s) = &tag.copyright { want.extend(chunk(b"(c) ", s.as_bytes())); }
        for s in tag.annotations.iter().flatten() { want.extend(chunk(b"ANNO", s.as_bytes())); }
        let mut out = vec![];
        check(tag.dump_to(&mut out, WriteOptions::default()).is_ok(), "text chunks are encoded");
        check(same(&out, &want), "the layout of the text chunks");
        let r = AiffFile::read_from(&mut Cursor::new(&aiff(&out)[..]), opts());
        check(r.is_ok(), "encoded text chunks are decoded");
        let Ok(f) = r else { return };
        let g = f.text_chunks().cloned().unwrap_or_default();
        check(eqo(&g.name, &tag.name), "name");
        check(eqo(&g.author, &tag.author), "author");
        check(eqo(&g.copyright, &tag.copyright), "copyright");
        let (x, y) = (g.annotations.unwrap_or_default(), tag.annotations.unwrap_or_default());
        check(x.len() == y.len(), "number of annotations");
        for i in 0..y.len() { if i < x.len() { check(same_str(&x[i], &y[i]), "annotations in order"); } }
        check(g.comments.is_none(), "no comments are invented");
        reach(1);
    }
    fn h_comments() {
        let n = choose(t(3, 4));
        let mut tag = AiffTextChunks::new();
        let mut cs = vec![];
        let mut c = (n as u16).to_be_bytes().to_vec();
        for _ in 0..n {
            let (ts, m) = (u32(), u16());
            let s = text(choose(3), 3).0;
            c.extend_from_slice(&ts.to_be_bytes());
            c.extend_from_slice(&m.to_be_bytes());
            c.extend_from_slice(&(s.len() as u16).to_be_bytes());
            c.extend_from_slice(s.as_bytes());
            if s.len() % 2 == 1 { c.push(0); }
            cs.push(Comment { timestamp: ts, marker_id: m, text: s });
        }
        tag.name = Some("x".into());
        tag.comments = Some(cs.clone());
        let mut want = if n > 0 { chunk(b"COMT", &c) } else { vec![] };
        want.extend(chunk(b"NAME", b"x"));
        let mut out = vec![];
        check(tag.dump_to(&mut out, WriteOptions::default()).is_ok(), "comments are encoded");
        check(same(&out, &want), "the layout of the comments");
        let r = AiffFile::read_from(&mut Cursor::new(&aiff(&out)[..]), opts());
        check(r.is_ok(), "encoded comments are decoded");
        let Ok(f) = r else { return };
        let g = f.text_chunks().cloned().unwrap_or_default();
        check(matches!(&g.name, Some(s) if same_str(s, "x")), "name");
        let x = g.comments.unwrap_or_default();
        check(x.len() == n, "number of comments");
        for i in 0..n { if i < x.len() { check(x[i].timestamp == cs[i].timestamp && x[i].marker_id == cs[i].marker_id && same_str(&x[i].text, &cs[i].text), "comments in order"); } }
        reach(1);
    }
    fn h_comment_sizes() {
        let n = [65534usize, 65535, 65536][choose(3)];
        let s = String::from_utf8(vec![b'y'; n]).unwrap_or_default();
        let mut tag = AiffTextChunks::new();
        tag.comments = Some(vec![Comment { timestamp: 1, marker_id: 2, text: s }, Comment { timestamp: 3, marker_id: 4, text: "z".into() }]);
        let mut out = vec![];
        let r = tag.dump_to(&mut out, WriteOptions::default());
        check(r.is_ok() == (n < 65536), "comments hold up to 65535 bytes");
        if r.is_err() { reach(1); return; }
        let Ok(f) = AiffFile::read_from(&mut Cursor::new(&aiff(&out)[..]), opts()) else { check(false, "encoded comments are decoded"); return };
        let x = f.text_chunks().cloned().unwrap_or_default().comments.unwrap_or_default();
        check(x.len() == 2 && x[0].text.len() == n && x[1].timestamp == 3 && same_str(&x[1].text, "z"), "long comments come back");
        reach(2);
    }
    fn h_lower_order() {
        // chunks in any order, the first of each kind counts
        let s: [u8; 3] = bytes();
        for b in &s { assume((*b > 0) & (*b < 128)); }
        let parts = [chunk(b"NAME", &s[..1]), chunk(b"AUTH", &s[..2]), chunk(b"(c) ", &s), chunk(b"ANNO", &s[1..])];
        let (a, b) = (choose(4), choose(4));
        let mut v = vec![];
        for i in 0..4 { v.extend_from_slice(&parts[(i * if a % 2 == 0 { 1 } else { 3 } + b) % 4]); }
        v.extend(chunk(b"NAME", b"later"));
        let Ok(f) = AiffFile::read_from(&mut Cursor::new(&aiff(&v)[..]), opts()) else { check(false, "text chunks are decoded"); return };
        let g = f.text_chunks().cloned().unwrap_or_default();
        check(matches!(&g.name, Some(x) if same(x.as_bytes(), &s[..1])), "name");
        check(matches!(&g.author, Some(x) if same(x.as_bytes(), &s[..2])), "author");
        check(matches!(&g.copyright, Some(x) if same(x.as_bytes(), &s)), "copyright");
        check(matches!(&g.annotations, Some(x) if x.len() == 1 && same(x[0].as_bytes(), &s[1..])), "annotation");
        reach(1);
    }
}
