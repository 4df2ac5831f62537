//! bound: sequences of three operations (two in generic tags, RIFF INFO and Vorbis comments; thorough: one more) on containers of two or three items, over two keys (in either letter case where keys are case-insensitive), every value an arbitrary character
//! bound: accessors: strings of one arbitrary printable character, track and disc numbers 1 to 255 and 990 to 1005 (up to 255 in ID3v1), dates of the years 1000–1255, 1899–2154 and 9744–9999 and every month and day
//! assume: values the format can represent (ID3v1 genres by name; ID3v2 genres that are not a number or abbreviation)
use crate::sym::*;
use crate::util::*;
use lofty::ape::{ApeItem, ApeTag};
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::{Frame, FrameId, Id3v2Tag, TextInformationFrame};
use lofty::iff::aiff::AiffTextChunks;
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{Atom, AtomData, AtomIdent, Ilst};
use lofty::ogg::tag::VorbisComments;
use lofty::ogg::OggPictureStorage;
use lofty::picture::{Picture, PictureInformation, PictureType};
use lofty::tag::items::Timestamp;
use lofty::tag::{ItemKey, ItemValue, Tag, TagItem, TagType};
use lofty::TextEncoding;
use std::borrow::Cow;

const K: usize = t(2, 3);
const L: usize = t(3, 4);
/// A value: one arbitrary ASCII letter or digit-like byte
fn val() -> String { ascii_str(1) }
/// Items in order, by key index
type Ref = Vec<(usize, String)>;
fn put(r: &mut Ref, k: usize, v: String) { r.retain(|i| i.0 != k); r.push((k, v)); }
fn eq(a: &[(usize, String)], b: &[(usize, String)]) -> bool { a.len() == b.len() && a.iter().zip(b).fold(true, |x, (p, q)| x & (p.0 == q.0) & same_str(&p.1, &q.1)) }
fn vals(r: &Ref, k: usize) -> Vec<String> { r.iter().filter(|i| i.0 == k).map(|i| i.1.clone()).collect() }
fn same_all(a: &[String], b: &[String]) -> bool { a.len() == b.len() && a.iter().zip(b).fold(true, |x, (p, q)| x & same_str(p, q)) }
/// The first contents: two or three items over two keys
fn start() -> Ref { (0..2 + choose(2)).map(|_| (choose(2), val())).collect() }
fn opt_eq(a: Option<&str>, b: Option<&str>) -> bool { match (a, b) { (Some(a), Some(b)) => same_str(a, b), (None, None) => true, _ => false } }

fn pic(n: u8, ty: PictureType) -> Picture { Picture::unchecked(vec![n]).pic_type(ty).build() }
fn tys(k: usize) -> PictureType { [PictureType::Other, PictureType::Icon, PictureType::OtherIcon][k] }

/// Set, read, overwrite and remove through the accessors
fn accessors<A: Accessor>(a: &mut A, which: &[usize], num: usize, tot: bool, lim: u32) {
    match which[choose(which.len())] {
        0 => { let (x, y) = (val(), val()); a.set_title(x); a.set_title(y.clone()); check(opt_eq(a.title().as_deref(), Some(&y)), "the last title set is returned"); a.remove_title(); check(a.title().is_none(), "a removed title is gone"); }
        1 => { let (x, y) = (val(), val()); a.set_artist(x); a.set_artist(y.clone()); check(opt_eq(a.artist().as_deref(), Some(&y)), "the last artist set is returned"); a.remove_artist(); check(a.artist().is_none(), "a removed artist is gone"); }
        2 => { let (x, y) = (val(), val()); a.set_album(x); a.set_album(y.clone()); check(opt_eq(a.album().as_deref(), Some(&y)), "the last album set is returned"); a.remove_album(); check(a.album().is_none(), "a removed album is gone"); }
        3 => { let (x, y) = (val(), val()); a.set_comment(x); a.set_comment(y.clone()); check(opt_eq(a.comment().as_deref(), Some(&y)), "the last comment set is returned"); a.remove_comment(); check(a.comment().is_none(), "a removed comment is gone"); }
        4 => {
            let (x, y) = (val(), val());
            let c = y.as_bytes()[0];
            assume(!c.is_ascii_digit());
            a.set_genre(x); a.set_genre(y.clone()); check(opt_eq(a.genre().as_deref(), Some(&y)), "the last genre set is returned"); a.remove_genre(); check(a.genre().is_none(), "a removed genre is gone");
        }
        5 => {
            let t = Timestamp { year: [1000, 1899, 9744][choose(3)] + u8() as u16, month: Some(u8()), day: Some(u8()), ..Default::default() };
            assume((t.year >= 1000) & (t.year <= 9999) & (t.month.unwrap() >= 1) & (t.month.unwrap() <= 12) & (t.day.unwrap() >= 1) & (t.day.unwrap() <= 31));
            a.set_date(Timestamp { year: 1999, ..Default::default() });
            a.set_date(t);
            let d = a.date();
            check(d.is_some(), "a date that was set is returned");
            if let Some(d) = d {
                check(d.year == t.year, "the last year set is returned");
                check(d.month.is_none() || d.month == t.month, "the last month set is returned");
            }
            a.remove_date();
            check(a.date().is_none(), "a removed date is gone");
        }
        _ => {
            let x = u8() as u32;
            assume(x >= 1);
            let x = if lim > 255 && choose(2) == 0 { 990 + (x & 15) } else { x };
            // one number per path is symbolic in its digits
            let (n, m) = if choose(2) == 0 { (x, 7) } else { (3, x) };
            let first = choose(2) == 0;
            if first { a.set_track(n); if tot { a.set_track_total(m); } } else { if tot { a.set_track_total(m); } a.set_track(n); }
            check(a.track() == Some(n), "the last track number set is returned");
            if tot { check(a.track_total() == Some(m), "the last track total set is returned"); }
            if num > 1 {
                if first { a.set_disk(m); a.set_disk_total(n); } else { a.set_disk_total(n); a.set_disk(m); }
                check((a.disk() == Some(m)) & (a.disk_total() == Some(n)), "the last disc numbers set are returned");
                check((a.track() == Some(n)) & (a.track_total() == Some(m)), "setting the disc leaves the track");
                if choose(2) == 0 { a.remove_disk_total(); check(a.disk_total().unwrap_or(0) == 0 && a.disk() == Some(m), "removing the disc total leaves the disc number"); }
                else { a.remove_disk(); check(a.disk().is_none(), "a removed disc number is gone"); }
            }
            if tot && choose(2) == 0 { a.remove_track_total(); check(a.track_total().unwrap_or(0) == 0 && a.track() == Some(n), "removing the track total leaves the track number"); }
            else { a.remove_track(); check(a.track().is_none(), "a removed track number is gone"); }
        }
    }
}
const EACH: [usize; 7] = [0, 1, 2, 3, 4, 5, 6];

harnesses! {
    fn h_tag() {
        let keys = [ItemKey::TrackTitle, ItemKey::TrackArtist];
        let ty = [TagType::Id3v2, TagType::Mp4Ilst, TagType::VorbisComments][choose(3)];
        let mut t = Tag::new(ty);
        let mut r = start();
        for (k, v) in &r { check(t.push(TagItem::new(keys[*k], ItemValue::Text(v.clone()))), "a supported key is accepted"); }
        for _ in 0..K {
            let k = choose(2);
            match choose(9) {
                0 => { let v = val(); check(t.insert(TagItem::new(keys[k], ItemValue::Text(v.clone()))), "a supported key is accepted"); put(&mut r, k, v); }
                1 => { let v = val(); check(t.push(TagItem::new(keys[k], ItemValue::Text(v.clone()))), "a supported key is accepted"); r.push((k, v)); }
                2 => { let got: Vec<String> = t.take_strings(keys[k]).collect(); check(same_all(&got, &vals(&r, k)), "taking a key returns its values in order"); r.retain(|i| i.0 != k); }
                3 => { t.remove_key(keys[k]); r.retain(|i| i.0 != k); }
                4 => { let v = val(); if k == 0 { t.set_title(v.clone()) } else { t.set_artist(v.clone()) } put(&mut r, k, v); }
                5 => { if k == 0 { t.remove_title() } else { t.remove_artist() } r.retain(|i| i.0 != k); }
                6 => {
                    let c = u8();
                    let f = |s: &str| decide(s.as_bytes()[0] == c);
                    let got: Vec<String> = t.take_filter(keys[k], |i| f(i.value().text().unwrap_or(" "))).filter_map(|i| i.into_value().into_string()).collect();
                    let want: Vec<String> = r.iter().filter(|i| i.0 == k && f(&i.1)).map(|i| i.1.clone()).collect();
                    r.retain(|i| !(i.0 == k && f(&i.1)));
                    check(same_all(&got, &want), "taking with a filter returns the matching values in order");
                }
                7 => { check(!t.insert(TagItem::new(ItemKey::TrackTitle, ItemValue::Text(String::new()))) || { put(&mut r, 0, String::new()); true }, "an empty value is a value"); t.remove_empty(); r.retain(|i| !i.1.is_empty()); }
                _ => { let c = u8(); t.retain(|i| decide(i.value().text().unwrap_or(" ").as_bytes()[0] != c)); r.retain(|i| decide(i.1.as_bytes()[0] != c)); }
            }
            let got: Ref = t.items().map(|i| (keys.iter().position(|k| *k == i.key()).unwrap_or(9), i.value().text().unwrap_or("?").to_string())).collect();
            check(eq(&got, &r), "the items are those of the reference, in order");
            for k in 0..2 {
                check(opt_eq(t.get_string(keys[k]), r.iter().find(|i| i.0 == k).map(|i| i.1.as_str())), "a key has its first value");
                let got: Vec<String> = t.get_strings(keys[k]).map(str::to_string).collect();
                check(same_all(&got, &vals(&r, k)), "a key has all its values in order");
            }
            check(t.item_count() as usize == r.len(), "the count is right");
        }
        reach(1);
    }
    /// Keys the tag type cannot hold are refused and change nothing
    fn h_tag_unsupported() {
        let ty = [TagType::Id3v1, TagType::RiffInfo, TagType::AiffText][choose(3)];
        let mut t = Tag::new(ty);
        t.push(TagItem::new(ItemKey::TrackTitle, ItemValue::Text("x".into())));
        let i = TagItem::new(ItemKey::Isrc, ItemValue::Text(val()));
        check(!(if choose(2) == 0 { t.insert(i) } else { t.push(i) }), "an unsupported key is refused");
        reach(1);
        check(t.item_count() == 1 && t.title().as_deref() == Some("x"), "a refused item changes nothing");
    }
    /// Setting the date of a tag leaves no other date behind
    fn h_tag_date() {
        let mut t = Tag::new([TagType::Id3v2, TagType::Ape, TagType::VorbisComments][choose(3)]);
        for _ in 0..choose(3) { t.push(TagItem::new([ItemKey::RecordingDate, ItemKey::Year][choose(2)], ItemValue::Text("1999".into()))); }
        let d = Timestamp { year: 2000 + u8() as u16, ..Default::default() };
        t.set_date(d);
        check(matches!(t.date(), Some(x) if x.year == d.year), "the date that was set is returned");
        check(t.get_string(ItemKey::Year).is_none() && t.get_items(ItemKey::RecordingDate).count() == 1, "no other date is left");
        t.remove_date();
        check(t.is_empty(), "a removed date is gone");
        reach(1);
    }
    /// A picture that is refused changes nothing
    fn h_refused_picture() {
        let mut o = VorbisComments::new();
        let (a, b) = (choose(3), choose(3));
        let n = u8();
        let _ = o.insert_picture(pic(n, tys(a)), Some(PictureInformation::default()));
        let k = choose(9);
        let p = Picture::unchecked(vec![9; k]).pic_type(tys(b)).build();
        let r = o.insert_picture(p, None);
        check(r.is_ok() == (k >= 8), "a picture is refused if nothing can be told about it");
        if r.is_err() { check(o.pictures().len() == 1 && o.pictures()[0].0.data()[0] == n, "a refused picture changes nothing"); reach(1); }
        else { check(o.pictures().len() == if a == b && a > 0 { 1 } else { 2 }, "an icon replaces the one there"); reach(2); }
    }
    fn h_pictures() {
        let mut t = Tag::new(TagType::Id3v2);
        let mut o = VorbisComments::new();
        let mut r: Vec<(usize, u8)> = vec![];
        let mut s: Vec<(usize, u8)> = vec![];
        for _ in 0..L {
            let (ty, n) = (choose(3), u8());
            match choose(4) {
                0 => {
                    t.push_picture(pic(n, tys(ty)));
                    r.push((ty, n));
                    let old = o.insert_picture(pic(n, tys(ty)), Some(PictureInformation::default()));
                    let p = if ty > 0 { s.iter().position(|x| x.0 == ty) } else { None };
                    let want = p.map(|p| s.remove(p));
                    s.push((ty, n));
                    check(matches!((&old, want), (Ok(Some(p)), Some(w)) if p.0.data()[0] == w.1) || matches!((&old, want), (Ok(None), None)), "an icon replaces the one there");
                }
                1 => { t.remove_picture_type(tys(ty)); r.retain(|x| x.0 != ty); o.remove_picture_type(tys(ty)); s.retain(|x| x.0 != ty); }
                2 => {
                    let i = choose(3);
                    t.set_picture(i, pic(n, tys(ty)));
                    if i < r.len() { r[i] = (ty, n) } else { r.push((ty, n)) }
                    if i < s.len() { o.set_picture(i, pic(n, tys(ty)), PictureInformation::default()); s[i] = (ty, n); }
                }
                _ => {
                    if !r.is_empty() { let i = choose(r.len()); let p = t.remove_picture(i); let w = r.remove(i); check(p.data()[0] == w.1, "the removed picture is returned"); }
                    if !s.is_empty() { let i = choose(s.len()); let p = o.remove_picture(i); let w = s.remove(i); check(p.0.data()[0] == w.1, "the removed picture is returned"); }
                }
            }
            let good = t.pictures().len() == r.len() && t.pictures().iter().zip(&r).fold(true, |a, (p, w)| a & (p.pic_type() == tys(w.0)) & (p.data()[0] == w.1));
            check(good, "the pictures are those of the reference, in order");
            let good = o.pictures().len() == s.len() && o.pictures().iter().zip(&s).fold(true, |a, (p, w)| a & (p.0.pic_type() == tys(w.0)) & (p.0.data()[0] == w.1));
            check(good, "the pictures of the comments are those of the reference, in order");
        }
        reach(1);
    }
    fn h_vorbis() {
        let keys = [["AB", "aB"], ["CD", "cd"]];
        let mut t = VorbisComments::new();
        let mut r = start();
        for (k, v) in &r { t.push(keys[*k][choose(2)].to_string(), v.clone()); }
        for _ in 0..K {
            let (k, c) = (choose(2), choose(2));
            let key = keys[k][c];
            match choose(4) {
                0 => { let v = val(); t.insert(key.to_string(), v.clone()); put(&mut r, k, v); }
                1 => { let v = val(); t.push(key.to_string(), v.clone()); r.push((k, v)); }
                2 => { let got: Vec<String> = t.remove(key).collect(); check(same_all(&got, &vals(&r, k)), "removing a key returns its values in order"); r.retain(|i| i.0 != k); }
                _ => { let bad = ["", "a=b", "\u{7e}", "\u{e9}"][choose(4)]; if choose(2) == 0 { t.insert(bad.to_string(), val()) } else { t.push(bad.to_string(), val()) } }
            }
            let got: Ref = t.items().map(|(k, v)| ((0..2).find(|i| keys[*i][0].eq_ignore_ascii_case(k)).unwrap_or(9), v.to_string())).collect();
            check(eq(&got, &r), "the items are those of the reference, in order");
            check(opt_eq(t.get(keys[0][c]), r.iter().find(|i| i.0 == 0).map(|i| i.1.as_str())), "a key has its first value");
            let all: Vec<String> = t.get_all(keys[1][c]).map(str::to_string).collect();
            check(same_all(&all, &vals(&r, 1)), "a key has all its values in order");
            check(t.contains(keys[0][c]) == r.iter().any(|i| i.0 == 0), "contains tells whether there is a value");
        }
        reach(1);
    }
    fn h_ape() {
        let keys = [["Title", "tiTLE"], ["abc", "ABC"]];
        let mut t = ApeTag::new();
        let item = |k: &str, v: &str| ApeItem::new(k.to_string(), ItemValue::Text(v.to_string())).unwrap();
        let mut r: Ref = vec![(0, val()), (1, val())];
        for (k, v) in &r { t.insert(item(keys[*k][0], v)); }
        for _ in 0..L {
            let (k, c) = (choose(2), choose(2));
            match choose(3) {
                0 => { let v = val(); t.insert(item(keys[k][c], &v)); put(&mut r, k, v); }
                1 => { let v = val(); t.push(item(keys[k][c], &v)); if let Some(o) = r.iter_mut().find(|i| i.0 == k) { o.1.push('\0'); o.1.push_str(&v); } else { r.push((k, v)); } }
                _ => { t.remove(keys[k][c]); r.retain(|i| i.0 != k); }
            }
            let got: Ref = (&t).into_iter().map(|i| ((0..2).find(|k| keys[*k][0].eq_ignore_ascii_case(i.key())).unwrap_or(9), i.value().text().unwrap_or("?").to_string())).collect();
            check(eq(&got, &r), "the items are those of the reference, in order");
            check(opt_eq(t.get(keys[1][c]).and_then(|i| i.value().text()), r.iter().find(|i| i.0 == 1).map(|i| i.1.as_str())), "a key has its value");
            check(t.contains(keys[0][c]) == r.iter().any(|i| i.0 == 0) && t.len() == r.len(), "contains tells whether there is a value");
        }
        reach(1);
    }
    fn h_riff() {
        let keys = [["INAM", "iNam"], ["IART", "iart"]];
        let mut t = RiffInfoList::new();
        let mut r = start();
        // several values of a key come from a file or a generic tag
        let mut g = Tag::new(TagType::RiffInfo);
        for (k, v) in &r { g.push(TagItem::new([ItemKey::TrackTitle, ItemKey::TrackArtist][*k], ItemValue::Text(v.clone()))); }
        if choose(2) == 0 { t = g.into(); } else { r.clear(); }
        for _ in 0..K {
            let (k, c) = (choose(2), choose(2));
            match choose(3) {
                0 => { let v = val(); t.insert(keys[k][c].to_string(), v.clone()); put(&mut r, k, v); }
                1 => { let got = t.remove(keys[k][c]); check(opt_eq(got.as_deref(), r.iter().find(|i| i.0 == k).map(|i| i.1.as_str())), "removing a key returns its value"); r.retain(|i| i.0 != k); }
                _ => { t.insert(["INA", "INAMX", "IN\u{e9}"][choose(3)].to_string(), val()); }
            }
            let got: Ref = (&t).into_iter().map(|(x, v)| ((0..2).find(|k| keys[*k][0].eq_ignore_ascii_case(x)).unwrap_or(9), v.clone())).collect();
            check(eq(&got, &r), "the items are those of the reference, in order");
            check(opt_eq(t.get(keys[1][c]), r.iter().find(|i| i.0 == 1).map(|i| i.1.as_str())), "a key has its first value");
            check(t.contains(keys[0][c]) == r.iter().any(|i| i.0 == 0), "contains tells whether there is a value");
        }
        reach(1);
    }
    fn h_ilst() {
        let ids = [AtomIdent::Fourcc(*b"\xa9nam"), AtomIdent::Freeform { mean: "m".into(), name: "n".into() }];
        let other = AtomIdent::Fourcc(*b"abcd");
        let mut t = Ilst::new();
        let mut r: Vec<(usize, Vec<String>)> = vec![];
        let at = |k: usize, v: &str| Atom::new(ids[k].clone(), AtomData::UTF8(v.to_string()));
        let v = val();
        t.insert(Atom::new(other.clone(), AtomData::UTF8(v.clone())));
        r.push((2, vec![v]));
        for i in 0..2 { let v = val(); t.insert(at(i, &v)); r.push((i, vec![v])); }
        for _ in 0..L {
            let k = choose(2);
            match choose(6) {
                0 => { let v = val(); t.insert(at(k, &v)); if let Some(o) = r.iter_mut().find(|i| i.0 == k) { o.1.push(v) } else { r.push((k, vec![v])) } }
                1 => { let v = val(); t.replace_atom(at(k, &v)); r.retain(|i| i.0 != k); r.push((k, vec![v])); }
                2 => { let n = t.remove(&ids[k]).count(); check(n == r.iter().filter(|i| i.0 == k).count(), "removing returns the atoms"); r.retain(|i| i.0 != k); }
                3 => { let keep = ids[k].clone(); t.retain(|a| a.ident() != &keep); r.retain(|i| i.0 != k); }
                4 => { let v = val(); t.set_title(v.clone()); r.retain(|i| i.0 != 0); r.push((0, vec![v])); }
                _ => { t.remove_title(); r.retain(|i| i.0 != 0); }
            }
            let got: Vec<(usize, Vec<String>)> = (&t).into_iter().map(|a| ((0..2).find(|k| a.ident() == &ids[*k]).unwrap_or(if a.ident() == &other { 2 } else { 9 }), a.data().map(|d| match d { AtomData::UTF8(s) => s.clone(), _ => "?".into() }).collect())).collect();
            check(got.len() == r.len() && got.iter().zip(&r).fold(true, |x, (a, b)| x & (a.0 == b.0) & same_all(&a.1, &b.1)), "the atoms are those of the reference, in order");
            check(t.contains(&ids[1]) == r.iter().any(|i| i.0 == 1) && t.len() == r.len(), "contains tells whether there is an atom");
            check(opt_eq(t.title().as_deref(), r.iter().find(|i| i.0 == 0).map(|i| i.1[0].as_str())), "an accessor returns the first value");
        }
        reach(1);
    }
    fn h_ilst_pictures() {
        let mut t = Ilst::new();
        t.set_title("x".into());
        let mut r: Vec<u8> = vec![];
        for _ in 0..L {
            let n = u8();
            match choose(5) {
                0 => { t.insert_picture(pic(n, PictureType::CoverFront)); r.push(n); }
                1 => { t.insert(Atom::new(AtomIdent::Fourcc(*b"covr"), AtomData::Picture(pic(n, PictureType::Other)))); r.push(n); }
                2 => { t.remove_pictures(); r.clear(); }
                3 => { let m = u8(); t.insert(Atom::from_collection(AtomIdent::Fourcc(*b"covr"), vec![AtomData::Picture(pic(n, PictureType::Other)), AtomData::Picture(pic(m, PictureType::Other))]).unwrap()); r.push(n); r.push(m); }
                _ => { let f = AtomIdent::Fourcc(*b"cpil"); let b = choose(2) == 0; t.set_flag(f, b); check(t.is_compilation() == b, "a flag returns the last value set"); }
            }
            let got: Vec<u8> = t.pictures().into_iter().flatten().map(|p| p.data()[0]).collect();
            check(same(&got, &r), "the pictures are those of the reference, in order");
            check(t.title().as_deref() == Some("x"), "the other atoms stay");
        }
        reach(1);
    }
    fn h_id3v2() {
        let ids: [FrameId<'static>; 2] = [FrameId::Valid(Cow::Borrowed("TIT2")), FrameId::Valid(Cow::Borrowed("TPE1"))];
        let mut t = Id3v2Tag::new();
        // 0, 1: text frames; 2, 3: user text with descriptions a and b
        let mut r: Ref = vec![];
        for k in 0..4 { if choose(2) == 0 { let v = val(); put(&mut r, k, v.clone()); if k < 2 { t.insert(Frame::Text(TextInformationFrame::new(ids[k].clone(), TextEncoding::UTF8, v))); } else { t.insert_user_text(["a", "b"][k - 2].into(), v); } } }
        for _ in 0..L - 1 {
            let k = choose(2);
            let old = |r: &Ref, k: usize| r.iter().find(|i| i.0 == k).map(|i| i.1.clone());
            let content = |f: Option<Frame<'_>>| f.map(|f| match f { Frame::Text(t) => t.value.to_string(), Frame::UserText(t) => t.content.to_string(), _ => "?".into() });
            match choose(6) {
                0 => { let v = val(); let o = content(t.insert(Frame::Text(TextInformationFrame::new(ids[k].clone(), TextEncoding::UTF8, v.clone())))); check(opt_eq(o.as_deref(), old(&r, k).as_deref()), "inserting returns the replaced frame"); put(&mut r, k, v); }
                1 => { let v = val(); let o = content(t.insert_user_text(["a", "b"][k].into(), v.clone())); check(opt_eq(o.as_deref(), old(&r, k + 2).as_deref()), "inserting returns the replaced frame"); put(&mut r, k + 2, v); }
                2 => { let got: Vec<String> = t.remove(&ids[k]).filter_map(|f| content(Some(f))).collect(); check(same_all(&got, &vals(&r, k)), "removing returns the frames in order"); r.retain(|i| i.0 != k); }
                3 => { let o = content(t.remove_user_text(["a", "b"][k])); check(opt_eq(o.as_deref(), old(&r, k + 2).as_deref()), "removing returns the frame"); r.retain(|i| i.0 != k + 2); }
                4 => { let got: Vec<String> = t.remove(&FrameId::Valid(Cow::Borrowed("TXXX"))).filter_map(|f| content(Some(f))).collect(); let want: Vec<String> = r.iter().filter(|i| i.0 >= 2).map(|i| i.1.clone()).collect(); check(same_all(&got, &want), "removing returns the frames in order"); r.retain(|i| i.0 < 2); }
                _ => { let v = val(); t.set_title(v.clone()); put(&mut r, 0, v); }
            }
            let got: Ref = (&t).into_iter().map(|f| match f {
                Frame::Text(x) => (ids.iter().position(|i| i == f.id()).unwrap_or(9), x.value.to_string()),
                Frame::UserText(x) => (if x.description == "a" { 2 } else { 3 }, x.content.to_string()),
                _ => (9, "?".into()),
            }).collect();
            check(eq(&got, &r), "the frames are those of the reference, in order");
            check(opt_eq(t.get_text(&ids[1]), r.iter().find(|i| i.0 == 1).map(|i| i.1.as_str())), "an identifier has its value");
            check(opt_eq(t.get_user_text("b"), r.iter().find(|i| i.0 == 3).map(|i| i.1.as_str())), "a description has its value");
        }
        reach(1);
    }
    fn h_acc_tag() { let mut t = Tag::new([TagType::Id3v2, TagType::VorbisComments, TagType::Mp4Ilst, TagType::Ape][choose(4)]); accessors(&mut t, &EACH, 2, true, 65535); reach(1); }
    fn h_acc_id3v2() {
        let mut t = Id3v2Tag::new();
        accessors(&mut t, &EACH, 2, true, 65535);
        reach(1);
    }
    fn h_acc_vorbis() { let mut t = VorbisComments::new(); if choose(2) == 0 { for (k, v) in [("TRACKNUM", "9"), ("TOTALTRACKS", "9"), ("YEAR", "1980"), ("TOTALDISCS", "9"), ("title", "q")] { t.push(k.into(), v.into()); } } accessors(&mut t, &EACH, 2, true, 65535); reach(1); }
    fn h_acc_ape() { let mut t = ApeTag::new(); accessors(&mut t, &EACH, 2, true, 65535); reach(1); }
    fn h_acc_ilst() { let mut t = Ilst::new(); accessors(&mut t, &EACH, 2, true, 65535); reach(1); }
    fn h_acc_riff() { let mut t = RiffInfoList::new(); accessors(&mut t, &EACH, 1, true, 65535); reach(1); }
    fn h_acc_aiff() {
        let mut t = AiffTextChunks::new();
        if choose(2) == 0 { t.comments = Some(vec![lofty::iff::aiff::Comment { timestamp: 1, marker_id: 0, text: val() }]); }
        accessors(&mut t, &[0, 1, 3], 0, false, 9);
        reach(1);
    }
    fn h_acc_id3v1() {
        let mut t = Id3v1Tag::new();
        if choose(4) == 0 {
            let g = choose(192);
            t.set_genre(lofty::id3::v1::GENRES[g].to_string());
            check(t.genre().as_deref() == Some(lofty::id3::v1::GENRES[g]), "the last genre set is returned");
            t.remove_genre();
            check(t.genre().is_none(), "a removed genre is gone");
            return;
        }
        accessors(&mut t, &[0, 1, 2, 3, 5, 6], 1, false, 255);
        reach(1);
    }
}
