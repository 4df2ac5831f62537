//! bound: every raw value, star rating, built-in provider and tag type
//! bound: textual form: built-in e-mail addresses and every e-mail of up to 2 (thorough 3) arbitrary characters; play counters in one of 8 magnitudes, with two arbitrary low digits
//! bound: POPM frames: e-mails of up to 2 Latin-1 characters, every rating, every 64-bit counter; decoding of counters of 0 to 10 arbitrary bytes
//! bound: conversion to ID3v2, Vorbis comments and RIFF INFO and back for every provider and star rating
//! assume: no custom rating provider is installed
use crate::sym::*;
use crate::util::*;
use lofty::id3::v2::{Frame, FrameFlags, Id3v2Tag, PopularimeterFrame};
use lofty::ogg::tag::VorbisComments;
use lofty::tag::items::popularimeter::*;
use lofty::tag::{ItemKey, Tag, TagType};

const TYPES: [TagType; 7] = [TagType::Ape, TagType::Id3v1, TagType::Id3v2, TagType::Mp4Ilst, TagType::VorbisComments, TagType::RiffInfo, TagType::AiffText];
const STARS: [StarRating; 5] = [StarRating::One, StarRating::Two, StarRating::Three, StarRating::Four, StarRating::Five];
fn provider(i: usize) -> &'static dyn RatingProvider { match i { 0 => &MusicBeeProvider, 1 => &WindowsMediaPlayerProvider, 2 => &PicardProvider, _ => &DefaultRatingProvider } }
/// documented values per provider (0 MusicBee, 1 WMP, 2 Picard, 3 default)
fn doc(p: usize, id3: bool) -> [u8; 5] {
    match (p, id3) { (1, _) | (0, true) | (3, true) => [1, 64, 128, 196, 255], (0, _) | (3, _) => [20, 40, 60, 80, 100], (_, true) => [51, 102, 153, 204, 255], _ => [5, 10, 15, 20, 25] }
}
fn popm(p: usize, s: StarRating, n: u64) -> Popularimeter<'static> {
    match p { 0 => Popularimeter::musicbee(s, n), 1 => Popularimeter::windows_media_player(s, n), 2 => Popularimeter::picard(s, n), _ => Popularimeter::custom("foo@example.com", s, n) }
}
const MAIL: [&str; 4] = ["MusicBee", "Windows Media Player 9 Series", "users@musicbrainz.org", "foo@example.com"];
/// numbers of different lengths (every digit printed symbolically would be too deep for the solver)
fn counter() -> u64 {
    let base = [0u64, 100, 4_294_967_200, 4_294_967_300, 9_999_999_999, 1 << 40, u64::MAX - 99, 1 << 63][choose(8)];
    let d = u8();
    assume(d < 100);
    base + d as u64
}

harnesses! {
    fn h_tables() {
        let p = choose(4);
        let ty = TYPES[choose(7)];
        let pr = provider(p);
        let mut last = 0;
        for i in 0..5 {
            let r = pr.rate(ty, STARS[i]);
            check(i == 0 || r > last, "more stars give a larger raw value");
            last = r;
            check(r == doc(p, ty == TagType::Id3v2)[i], "raw values are the documented ones");
            check(pr.convert_raw(ty, r) == STARS[i], "a written star rating is read back");
        }
        let (a, b) = (u8(), u8());
        assume(a <= b);
        let (x, y) = (pr.convert_raw(ty, a), pr.convert_raw(ty, b));
        check(x as u8 <= y as u8, "conversion of raw values is monotonic");
        check((x as u8 >= 1) & (y as u8 <= 5), "conversion is total");
        // a raw value is rounded up to the next star rating
        let e = doc(p, ty == TagType::Id3v2);
        let want = if a <= e[0] { 1 } else if a <= e[1] { 2 } else if a <= e[2] { 3 } else if a <= e[3] { 4 } else { 5 };
        check(x as u8 == want, "a raw value counts for the stars whose range it is in");
        reach(1);
    }
    fn h_emails() {
        for p in 0..4 { for m in 0..4 { check(provider(p).supports_email(MAIL[m]) == (p == m || p == 3), "each provider supports its own e-mail"); } }
        let (e, _) = text(2, 2);
        for p in 0..3 { check(!provider(p).supports_email(&e), "a provider supports no other e-mail"); }
        check(DefaultRatingProvider.supports_email(&e), "the default provider supports every e-mail");
        reach(2);
    }
    fn h_text() {
        let p = choose(5);
        let s = STARS[choose(5)];
        let n = counter();
        let (x, mail) = if p < 4 { (popm(p, s, n), MAIL[p].to_string()) } else { let (e, _) = text(1 + choose(t(2, 3)), t(2, 4)); (Popularimeter::custom(e.clone(), s, n), e) };
        let mut tag = Tag::new(TagType::Id3v2);
        tag.insert_text(ItemKey::Popularimeter, x.to_string());
        let mut it = tag.ratings();
        let y = it.next();
        check(y.is_some(), "the textual form is parsed");
        let Some(y) = y else { return };
        check(y.email().is_some_and(|e| same_str(e, &mail)), "the e-mail survives the textual form");
        check(y.rating() == s, "the stars survive the textual form");
        check(y.play_counter == n, "the counter survives the textual form");
        check(it.next().is_none(), "one rating per item");
        reach(3);
    }
    fn h_text_any() {
        // nothing but "e-mail|stars|counter" is accepted, and nothing panics
        let v = vec(t(4, 6));
        for b in &v { assume((*b < 0x80) & (*b != 0)); }
        let s = unsafe { String::from_utf8_unchecked(v.clone()) };
        let mut tag = Tag::new(TagType::Id3v2);
        tag.insert_text(ItemKey::Popularimeter, s);
        let r = tag.ratings().next().map(|r| (r.rating() as u8, r.play_counter));
        if let Some((st, _)) = r {
            let mut bars = 0;
            for b in &v { if *b == b'|' { bars += 1; } }
            check(bars >= 2, "fields are separated by bars");
            check((st >= 1) & (st <= 5), "one to five stars");
            reach(4);
        } else { reach(5); }
    }
    fn h_frame() {
        let (e, cps) = text(choose(3), 2);
        for c in &cps { assume(c & 0xff_ffff < 256); }
        let (r, c) = (u8(), u64());
        let f = PopularimeterFrame::new(e.clone(), r, c);
        let b = f.as_bytes(WriteOptions::default());
        check(b.is_ok(), "a Latin-1 e-mail is encodable");
        let Ok(b) = b else { return };
        let n = cps.len();
        for k in 0..n { check(b[k] as u32 == cps[k] & 0xff_ffff, "the e-mail is written first"); }
        check(b[n] == 0 && b[n + 1] == r, "terminator and rating follow");
        check(b.len() - n - 2 >= 4, "the counter has at least four bytes");
        let g = PopularimeterFrame::parse(&mut &b[..], FrameFlags::default());
        check(g.is_ok(), "an encoded frame is decoded");
        let Ok(g) = g else { return };
        check(same_str(&g.email, &e), "e-mail");
        check(g.rating == r, "rating");
        check(g.counter == c, "counter");
        reach(6);
    }
    fn h_frame_parse() {
        let n = choose(11);
        let mut b = vec![b'a', 0, u8()];
        let c = vec(n);
        b.extend_from_slice(&c);
        let g = PopularimeterFrame::parse(&mut &b[..], FrameFlags::default());
        check(g.is_ok(), "counters of every length are decoded");
        let Ok(g) = g else { return };
        let mut want = 0u128;
        for x in &c { want = want << 8 | *x as u128; }
        if n <= 8 { check(g.counter as u128 == want, "the counter is a big-endian number"); reach(7); }
        else { check(g.counter == u64::MAX, "counters that are too long saturate"); reach(8); }
        check(g.rating == b[2], "rating");
    }
    fn h_id3v2() {
        let p = choose(4);
        let i = choose(5);
        let n = counter();
        let mut tag = Tag::new(TagType::Id3v2);
        tag.insert_text(ItemKey::Popularimeter, popm(p, STARS[i], n).to_string());
        let id3: Id3v2Tag = tag.into();
        let mut seen = 0;
        for f in id3.clone() {
            if let Frame::Popularimeter(f) = f {
                seen += 1;
                check(f.email == MAIL[p], "e-mail of the frame");
                check(f.rating == doc(p, true)[i], "rating of the frame");
                check(f.counter == n, "counter of the frame");
            }
        }
        check(seen == 1, "one POPM frame");
        let back: Tag = id3.into();
        let r = back.ratings().next();
        check(r.is_some(), "the rating comes back");
        let Some(r) = r else { return };
        check(r.email() == Some(MAIL[p]) && r.rating() == STARS[i] && r.play_counter == n, "the same popularimeter comes back");
        reach(9);
    }
    fn h_vorbis() {
        let p = choose(4);
        let i = choose(5);
        let n = u8() as u64;
        assume(n < 10);
        let mut tag = Tag::new(TagType::VorbisComments);
        tag.insert_text(ItemKey::Popularimeter, popm(p, STARS[i], n).to_string());
        let vc: VorbisComments = tag.into();
        let key = ["RATING:MusicBee", "RATING:Windows Media Player 9 Series", "RATING:users@musicbrainz.org", "RATING:foo@example.com"][p];
        let val = vc.get(key);
        check(val.is_some(), "the rating is stored with its e-mail");
        check(val == Some(doc(p, false)[i].to_string().as_str()), "raw value");
        let back: Tag = vc.into();
        let r = back.ratings().next();
        check(r.is_some(), "the rating comes back");
        let Some(r) = r else { return };
        check(r.email() == Some(MAIL[p]) && r.rating() == STARS[i] && r.play_counter == 0, "the same stars come back");
        reach(10);
    }
    fn h_vorbis_raw() {
        // any raw number is mapped by the provider of its e-mail
        let p = choose(4);
        let k = u8();
        let mut vc = VorbisComments::new();
        vc.push(["RATING:MusicBee", "RATING:Windows Media Player 9 Series", "RATING:users@musicbrainz.org", "RATING:foo@example.com"][p].to_string(), k.to_string());
        let back: Tag = vc.into();
        let r = back.ratings().next();
        check(r.is_some(), "the rating comes back");
        let Some(r) = r else { return };
        check(r.rating() == provider(p).convert_raw(TagType::VorbisComments, k), "stars of the raw value");
        reach(11);
    }
}
