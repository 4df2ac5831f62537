//! bound: each text field: 0, 1, 26 to 31 characters, the last two arbitrary (any Unicode scalar except NUL and byte order marks, up to 3 bytes), lossy or strict text encoding; the other fields fixed
//! bound: year, track number and genre: every value, present or absent
//! bound: decoding: 128-byte blocks whose text fields hold up to four arbitrary bytes at the start or at the end, arbitrary year bytes, arbitrary track and genre bytes, arbitrary first three bytes, Strict and BestAttempt mode
use crate::sym::*;
use crate::util::*;
use lofty::id3::v1::{Id3v1Tag, GENRES};

fn dump(t: &Id3v1Tag, lossy: bool) -> Option<Vec<u8>> {
    let mut o = vec![];
    t.dump_to(&mut o, WriteOptions::default().lossy_text_encoding(lossy)).ok()?;
    Some(o)
}
fn parse(v: &[u8]) -> Option<Id3v1Tag> {
    let mut b = [0u8; 128];
    b.copy_from_slice(&v[..128]);
    Id3v1Tag::parse(b, if choose(2) == 1 { ParsingMode::Strict } else { ParsingMode::BestAttempt }).ok()
}
fn base() -> Id3v1Tag {
    Id3v1Tag { title: Some("tt".into()), artist: Some("ar".into()), album: Some("al".into()), year: Some(1999), comment: Some("co".into()), track_number: Some(7), genre: Some(9) }
}
fn field(t: &Id3v1Tag, i: usize) -> &Option<String> { match i { 0 => &t.title, 1 => &t.artist, 2 => &t.album, _ => &t.comment } }
const OFF: [(usize, usize); 4] = [(3, 30), (33, 30), (63, 30), (97, 28)];
const FIX: [&[u8]; 4] = [b"tt", b"ar", b"al", b"co"];
const NAMES: [&str; 5] = ["Blues", "Metal", "Rock", "Folk", "Psybient"];
const NUMS: [u8; 5] = [0, 9, 17, 80, 191];

/// expected layout of `base` with text field `i` replaced by `f`
fn expect(v: &[u8], i: usize, f: &[u8]) {
    check(v.len() == 128, "an ID3v1 tag has 128 bytes");
    check(same(&v[..3], b"TAG"), "an ID3v1 tag starts with TAG");
    for k in 0..4 {
        let (o, w) = OFF[k];
        let src = if k == i { f } else { FIX[k] };
        let n = if src.len() > w { w } else { src.len() };
        check(same(&v[o..o + n], &src[..n]), "text field at its offset");
        check(same(&v[o + n..o + w], &[0; 30][..w - n]), "text field is NUL padded");
    }
    check(v[125] == 0, "NUL between comment and track number");
}

harnesses! {
    fn h_text() {
        let i = choose(4);
        let lossy = choose(2) == 1;
        let k = [0usize, 0, 0, 24, 25, 26, 27, 28, 29][choose(9)];
        let (tail, cps) = if k == 0 { text(choose(3), 3) } else { text(2, 3) };
        let mut s = String::new();
        let mut want = vec![];
        for _ in 0..k { s.push('x'); want.push(b'x'); }
        s.push_str(&tail);
        let w = OFF[i].1;
        let mut fits = true;
        for (j, c) in cps.iter().enumerate() {
            let c = c & 0xff_ffff;
            if k + j < w { fits &= c < 256; }
            want.push(if c < 256 { c as u8 } else { b'?' });
        }
        let mut t = base();
        match i { 0 => t.title = Some(s), 1 => t.artist = Some(s), 2 => t.album = Some(s), _ => t.comment = Some(s) }
        let r = dump(&t, lossy);
        if lossy { check(r.is_some(), "lossy encoding never fails"); }
        check(r.is_some() == (lossy || fits), "encoding fails exactly for characters outside Latin-1");
        let Some(v) = r else { reach(1); return };
        expect(&v, i, &want);
        check(same(&v[93..97], b"1999") & (v[126] == 7) & (v[127] == 9), "year, track number and genre at their offsets");
        let p = parse(&v);
        check(p.is_some(), "an encoded tag is decoded");
        let Some(p) = p else { return };
        let n = if want.len() > w { w } else { want.len() };
        for q in 0..4 {
            let src: &[u8] = if q == i { &want[..n] } else { FIX[q] };
            match field(&p, q) {
                None => check(src.is_empty(), "a text is decoded"),
                Some(x) => {
                    check(!src.is_empty(), "no text is invented");
                    // Latin-1 characters of the decoded text
                    let mut m = 0;
                    for c in x.chars() { check(m < src.len() && c as u32 == src[m] as u32, "text content is decoded"); m += 1; }
                    check(m == src.len(), "text length is decoded");
                    reach(2);
                }
            }
        }
        check(p.year == Some(1999) && p.track_number == Some(7) && p.genre == Some(9), "numbers are decoded");
        let again = dump(&p, false);
        check(again.is_some() && same(&again.unwrap(), &v), "re-encoding a decoded tag gives the same bytes");
        reach(3);
    }
    fn h_numbers() {
        let mut t = base();
        let (y, tr, g) = (u16(), u8(), u8());
        let which = choose(8);
        t.year = (which & 1 != 0).then_some(y);
        t.track_number = (which & 2 != 0).then_some(tr);
        t.genre = (which & 4 != 0).then_some(g);
        let v = dump(&t, false);
        check(v.is_some(), "numbers are always encodable");
        let Some(v) = v else { return };
        expect(&v, 9, &[]);
        if which & 1 != 0 {
            let d = v[93..97].iter().fold(0u32, |a, c| a * 10 + (*c).wrapping_sub(b'0') as u32);
            check(v[93..97].iter().fold(true, |a, c| a & (*c >= b'0') & (*c <= b'9')), "the year is four digits");
            check(d == if y > 9999 { 9999 } else { y as u32 }, "the year is encoded in decimal");
        } else { check(same(&v[93..97], &[0; 4]), "no year"); }
        check(v[126] == if which & 2 != 0 { tr } else { 0 }, "track number");
        check(v[127] == if which & 4 != 0 { g } else { 255 }, "genre");
        let mut b = [0u8; 128];
        b.copy_from_slice(&v);
        let p = Id3v1Tag::parse(b, ParsingMode::BestAttempt);
        check(p.is_ok(), "an encoded tag is decoded");
        let Ok(p) = p else { return };
        check(p.year == if which & 1 != 0 { Some(if y > 9999 { 9999 } else { y }) } else { None }, "the year is decoded");
        check(p.track_number == if which & 2 != 0 && tr != 0 { Some(tr) } else { None }, "the track number is decoded");
        check(p.genre == if which & 4 != 0 && (g as usize) < GENRES.len() { Some(g) } else { None }, "the genre is decoded");
        reach(4);
    }
    fn h_parse() {
        let mut v = b"TAG".to_vec();
        v.resize(128, b' ');
        let i = choose(5);
        let n = if i == 3 { 4 } else { t(2, 4) };
        let mut raw = vec![];
        if i < 4 {
            let (o, w) = OFF[i];
            let w = if i == 3 { 30 } else { w };
            raw = vec(n);
            let at = if choose(2) == 0 { o } else { o + w - n };
            if at == o { for x in &mut v[o + n..o + w] { *x = 0; } }
            v[at..at + n].copy_from_slice(&raw);
        } else { fill(&mut v[93..97]); fill(&mut v[125..]); }
        let strict = choose(2) == 1;
        let mut b = [0u8; 128];
        b.copy_from_slice(&v);
        let r = Id3v1Tag::parse(b, if strict { ParsingMode::Strict } else { ParsingMode::BestAttempt });
        let digits = v[93..97].iter().fold(true, |a, c| a & (*c >= b'0') & (*c <= b'9'));
        check(r.is_ok() == (!strict | digits), "only Strict mode rejects, and only a malformed year");
        let Ok(p) = r else { reach(5); return };
        if digits { let d = v[93..97].iter().fold(0u16, |a, c| a * 10 + (*c - b'0') as u16); check(p.year == Some(d), "the year is decoded"); }
        else { check(p.year.is_none(), "a malformed year is dropped"); }
        let v11 = (v[125] == 0) & (v[126] != 0);
        check(p.track_number.is_some() == v11, "a track number is present exactly in ID3v1.1 layout");
        if let Some(x) = p.track_number { check(x == v[126], "track number"); reach(6); }
        check(p.genre == if (v[127] as usize) < GENRES.len() { Some(v[127]) } else { None }, "genre");
        for q in 0..4 {
            let (o, mut w) = OFF[q];
            if q == 3 { w = if v11 { 28 } else { 30 }; }
            let f = &v[o..o + w];
            let mut m = 0;
            if let Some(x) = field(&p, q) { for c in x.chars() { check(m < w && c as u32 == f[m] as u32 && f[m] != 0, "text content is decoded"); m += 1; } reach(7); check(m > 0, "no empty text"); }
            check(m == w || f[m] == 0, "the text ends at its terminator");
        }
        // what was decoded is encoded back up to the comment width and junk behind terminators
        let e = dump(&p, false);
        check(e.is_some(), "a decoded tag is encodable");
        let Some(e) = e else { return };
        let mut b2 = [0u8; 128];
        b2.copy_from_slice(&e);
        let Ok(mut p2) = Id3v1Tag::parse(b2, ParsingMode::BestAttempt) else { check(false, "a re-encoded tag is decoded"); return };
        if v11 { check(p2 == p, "a decoded ID3v1.1 tag round-trips"); reach(8); }
        else { p2.comment = p.comment.clone(); check(p2 == p, "a decoded ID3v1 tag round-trips but for its comment"); reach(9); }
    }
    fn h_parse_magic() {
        let mut b = [b' '; 128];
        fill(&mut b[..3]);
        let r = Id3v1Tag::parse(b, ParsingMode::Relaxed);
        check(r.is_ok() == same(&b[..3], b"TAG"), "only blocks starting with TAG are tags");
        reach(10);
    }
    fn h_genre_names() {
        for k in 0..5 {
            check(GENRES[NUMS[k] as usize] == NAMES[k], "genre names are those of the Winamp list");
            let mut t = Id3v1Tag::default();
            t.set_genre(NAMES[k].into());
            check(t.genre == Some(NUMS[k]), "genre names map to their number");
        }
        let mut t = Id3v1Tag::default();
        let g = choose(192);
        t.set_genre(GENRES[g].into());
        let back = t.genre().map(|x| x.into_owned());
        check(back.as_deref() == Some(GENRES[g]), "each genre name is found");
        reach(11);
    }
}
