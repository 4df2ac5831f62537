//! bound: every item key of every tag type with one or two values (texts of up to 2, thorough 3, characters of any width; numbers of two digits; flags; ratings; dates), converted to the format's own tag and back; every pair of keys; the same written by Tag::save_to into a small file and read again
//! bound: splitting and merging the tags read from the ID3v2, APE, Vorbis, ilst, RIFF INFO, AIFF and ID3v1 templates with any 2 (thorough 3; ID3v2 and Vorbis 1 and 2) consecutive bytes arbitrary, in all parsing modes
//! assume: keys that share one field by design are not set together; values have the form of their field (numbers without leading zeros, dates, flags, ratings in stars, no digits as ID3v2 genres)
//! secs: 200
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;
use lofty::ape::ApeTag;
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::Id3v2Tag;
use lofty::iff::aiff::AiffTextChunks;
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::Ilst;
use lofty::ogg::tag::VorbisComments;
use lofty::tag::{ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagItem, TagType};

macro_rules! keys { ($($k:ident,)*) => { const KEYS: &[ItemKey] = &[$(ItemKey::$k),*]; } }
keys! {
    AlbumTitle, SetSubtitle, ShowName, ContentGroup, TrackTitle, TrackSubtitle, OriginalAlbumTitle, OriginalArtist, OriginalLyricist, 
    AlbumTitleSortOrder, AlbumArtistSortOrder, TrackTitleSortOrder, TrackArtistSortOrder, ShowNameSortOrder, ComposerSortOrder, AlbumArtist, 
    AlbumArtists, TrackArtist, TrackArtists, Arranger, Writer, Composer, Conductor, Director, Engineer, Lyricist, MixDj, MixEngineer, Performer, 
    Producer, Publisher, Label, InternetRadioStationName, InternetRadioStationOwner, Remixer, DiscNumber, DiscTotal, TrackNumber, TrackTotal, 
    Popularimeter, ParentalAdvisory, RecordingDate, Year, ReleaseDate, OriginalReleaseDate, Isrc, Barcode, AcoustId, AcoustIdFingerprint, 
    CatalogNumber, Work, Movement, MovementNumber, MovementTotal, ReleaseCountry, MusicBrainzRecordingId, MusicBrainzTrackId, MusicBrainzReleaseId, 
    MusicBrainzReleaseGroupId, MusicBrainzArtistId, MusicBrainzReleaseArtistId, MusicBrainzWorkId, MusicBrainzReleaseType, FlagCompilation, 
    FlagPodcast, FileOwner, TaggingTime, Length, OriginalFileName, OriginalMediaType, EncodedBy, EncoderSoftware, EncoderSettings, EncodingTime, 
    ReplayGainAlbumGain, ReplayGainAlbumPeak, ReplayGainTrackGain, ReplayGainTrackPeak, R128TrackGain, R128AlbumGain, AudioFileUrl, AudioSourceUrl, 
    CommercialInformationUrl, CopyrightUrl, TrackArtistUrl, RadioStationUrl, PaymentUrl, PublisherUrl, Genre, InitialKey, Color, Mood, Bpm, IntegerBpm, 
    CopyrightMessage, License, PodcastDescription, PodcastSeriesCategory, PodcastUrl, PodcastGlobalUniqueId, PodcastKeywords, Comment, Description, 
    Language, Script, Lyrics, UnsyncLyrics, AppleXid, AppleId3v2ContentGroup, 
}

const TYPES: [TagType; 6] = [TagType::AiffText, TagType::Ape, TagType::Id3v2, TagType::Mp4Ilst, TagType::RiffInfo, TagType::VorbisComments];
const FILES: [usize; 6] = [AIFF, MPC, AAC, MP4, WAV, FLAC];
fn convert(t: Tag) -> Tag {
    match t.tag_type() {
        TagType::AiffText => AiffTextChunks::from(t).into(),
        TagType::Ape => ApeTag::from(t).into(),
        TagType::Id3v2 => Id3v2Tag::from(t).into(),
        TagType::Mp4Ilst => Ilst::from(t).into(),
        TagType::RiffInfo => RiffInfoList::from(t).into(),
        TagType::Id3v1 => Id3v1Tag::from(t).into(),
        _ => VorbisComments::from(t).into(),
    }
}
/// Write the tag with `Tag::save_to` and read it back.
fn disk(t: &Tag, k: usize) -> Option<Tag> {
    let f = FILES[k];
    let v = match f { AAC => stream(AAC, 0), MPC => stream(MPC, 4), f => template(f, 0) };
    let mut c = Cursor::new(v);
    if t.save_to(&mut c, WriteOptions::default().preferred_padding(0)).is_err() { check(false, "a generic tag can not be saved"); return None; }
    c.set_position(0);
    let Ok(mut r) = read_any(f, &mut c, ParseOptions::new().read_properties(false)) else { check(false, "a saved file can not be read"); return None };
    let x = r.remove(TYPES[k]);
    check(x.is_some(), "a saved tag is not read back");
    x
}
/// A value of the form the key's field has.
fn value(tt: TagType, k: ItemKey, n: usize, w: usize) -> String {
    use ItemKey::*;
    let two = || { let (a, b) = (u8(), u8()); assume((a >= b'1') & (a <= b'9') & (b >= b'0') & (b <= b'9')); String::from_utf8(vec![a, b]).unwrap_or_default() };
    match k {
        // the sides of a record
        TrackNumber | DiscNumber if matches!(tt, TagType::Ape | TagType::Id3v2) && w > 1 && choose(2) == 0 => format!("A{}", two()),
        TrackNumber | TrackTotal | DiscNumber | DiscTotal | MovementNumber | MovementTotal => two(),
        FlagCompilation | FlagPodcast => String::from(["0", "1"][choose(2)]),
        ParentalAdvisory => String::from(["0", "1", "2"][choose(3)]),
        RecordingDate | OriginalReleaseDate | ReleaseDate | TaggingTime | EncodingTime => {
            let s = format!("20{}", two());
            if choose(2) == 0 { s } else { format!("{s}-1{}", ["0", "1", "2"][choose(3)]) }
        }
        Year => format!("20{}", two()),
        Popularimeter => {
            // only ID3v2 has a counter
            let c = if tt == TagType::Id3v2 { choose(2) * 77 } else { 0 };
            let e = ["", "a@b", "a|b", "MusicBee", "users@musicbrainz.org", "Windows Media Player 9 Series"][choose(6)];
            format!("{e}|{}|{c}", 1 + choose(5))
        }
        MusicBrainzRecordingId => ascii_str(n),
        Length | Bpm | IntegerBpm => two(),
        // digits stand for a genre of ID3v1
        Genre if tt == TagType::Id3v2 => format!("G{}", text(n, w).0),
        _ => text(n, w).0,
    }
}
fn shared(t: TagType, a: ItemKey, b: ItemKey) -> bool {
    use ItemKey::*;
    let s: &[&[ItemKey]] = match t {
        TagType::Ape => &[&[RecordingDate, Year]],
        TagType::Id3v2 => &[&[Publisher, Label], &[Writer, Lyricist], &[EncoderSoftware, EncoderSettings]],
        TagType::Mp4Ilst => &[&[Lyrics, UnsyncLyrics]],
        _ => &[],
    };
    s.iter().any(|g| g.contains(&a) && g.contains(&b))
}
/// The key a field is read back as.
fn canon(t: TagType, k: ItemKey) -> ItemKey {
    use ItemKey::*;
    ItemKey::from_key(t, k.map_key(t).unwrap_or_default()).filter(|c| shared(t, *c, k)).unwrap_or(match (t, k) { (TagType::Ape, Year) => RecordingDate, _ => k })
}
fn texts(t: &Tag, k: ItemKey) -> Vec<&str> { t.get_items(k).filter_map(|i| match i.value() { ItemValue::Text(s) | ItemValue::Locator(s) => Some(s.as_str()), _ => None }).collect() }
/// Whether the tag has only one item, and what its format can not do without: a vendor, and the number that goes with a total.
fn alone(t: &Tag, k: ItemKey) -> bool {
    use ItemKey::*;
    let number = match (t.tag_type(), k) {
        (TagType::Ape | TagType::Id3v2, TrackTotal) => TrackNumber,
        (TagType::Ape | TagType::Id3v2, DiscTotal) => DiscNumber,
        (TagType::Id3v2, MovementTotal) => MovementNumber,
        _ => k,
    };
    t.items().filter(|i| !(i.key() == EncoderSoftware && i.value().text() == Some("")) && !(i.key() == number && number != k && i.value().text() == Some("0"))).count() == 1
}
fn holds(t: &Tag, k: ItemKey, v: &[&str], what: &'static str) {
    let r = texts(t, canon(t.tag_type(), k));
    if r.len() != v.len() { note(0, k as u64); check(false, what); return; }
    check(r.iter().zip(v).fold(true, |x, (a, b)| x & same_str(a, b)), what)
}
fn item(k: ItemKey, v: &str) -> TagItem { TagItem::new(k, ItemValue::Text(String::from(v))) }
fn pick() -> (usize, TagType, ItemKey) {
    let n = choose(6);
    let k = KEYS[choose(KEYS.len())];
    assume(k.map_key(TYPES[n]).is_some());
    (n, TYPES[n], k)
}
/// Keys whose fields hold several values, as far as the documentation of the formats says so.
fn multi(t: TagType, k: ItemKey) -> bool {
    use ItemKey::*;
    match t {
        TagType::AiffText => k == Comment,
        TagType::Id3v2 => matches!(k, TrackArtist | AlbumArtist | TrackTitle | AlbumTitle | SetSubtitle | TrackSubtitle | OriginalAlbumTitle | OriginalArtist | OriginalLyricist
            | ContentGroup | AppleId3v2ContentGroup | Genre | Mood | Composer | Conductor | Writer | InternetRadioStationName | InternetRadioStationOwner | Remixer | Work | Movement
            | FileOwner | CopyrightMessage | Language | Publisher | TrackArtists | AlbumArtists | Director | AcoustId | AcoustIdFingerprint | CatalogNumber | MusicBrainzArtistId
            | MusicBrainzReleaseArtistId | MusicBrainzWorkId | MusicBrainzReleaseType | ReleaseCountry | Barcode | Comment | UnsyncLyrics | Lyricist),
        _ => !matches!(k, TrackNumber | TrackTotal | DiscNumber | DiscTotal | MovementNumber | MovementTotal | FlagCompilation | FlagPodcast | ParentalAdvisory | Popularimeter),
    }
}

/// Every item of `x` is in `y`, and the other way around.
fn alike(x: &Tag, y: &Tag) -> bool {
    let has = |a: &Tag, b: &Tag| a.items().fold(true, |r, p| {
        r & b.items().filter(|q| q.key() == p.key()).fold(false, |r, q| r | (same_value(p.value(), q.value()) & same_str(p.description(), q.description()) & same(p.lang(), q.lang())))
    });
    (x.tag_type() == y.tag_type()) & (x.item_count() == y.item_count()) & (x.pictures().len() == y.pictures().len()) && has(x, y) & has(y, x)
}
/// Flags, ratings and (in ilst) numbers have the form of their field, and no number is blank.
fn formed(t: &Tag) -> bool {
    use ItemKey::*;
    t.items().all(|i| {
        let s = i.value().text().unwrap_or_default();
        match i.key() {
            FlagCompilation | FlagPodcast => s == "0" || s == "1",
            ParentalAdvisory => s == "0" || s == "1" || s == "2" || s == "4",
            Popularimeter => t.ratings().count() == t.get_items(Popularimeter).count(),
            TrackNumber | TrackTotal | DiscNumber | DiscTotal | MovementNumber | MovementTotal => if t.tag_type() == TagType::Mp4Ilst { s.parse::<u32>().is_ok() } else { !s.trim().is_empty() && s.trim().parse::<u32>().map_or(true, |n| n.to_string() == s) },
            _ => true,
        }
    })
}
/// Splitting a tag and merging the parts again loses nothing: what comes out splits into the same parts.
fn lossless<T, R>(x: T, rest: impl Fn(&R, &R) -> bool)
where T: SplitTag<Remainder = R>, R: MergeTag<Merged = T> + Clone {
    let (r, t) = x.split_tag();
    assume(formed(&t));
    let (a, b) = (r.clone(), t.clone());
    let (r, t) = r.merge_tag(t).split_tag();
    check(alike(&b, &t), "an item is lost or changed by splitting a tag and merging it again");
    check(rest(&a, &r), "something that generic tags can not hold is lost by splitting a tag and merging it again");
    reach(1)
}
fn strs<'a, 'b>(mut a: impl Iterator<Item = (&'a str, &'a str)>, mut b: impl Iterator<Item = (&'b str, &'b str)>) -> bool {
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) => if !(same_str(x.0, y.0) & same_str(x.1, y.1)) { return false; },
            _ => return false,
        }
    }
}
fn frames(a: &Id3v2Tag, b: &Id3v2Tag) -> bool {
    use lofty::id3::v2::Frame::*;
    a.len() == b.len() && a.into_iter().zip(b).all(|(p, q)| p.id_str() == q.id_str() && match (p, q) {
        (Text(p), Text(q)) => same_str(&p.value, &q.value),
        (UserText(p), UserText(q)) => same_str(&p.description, &q.description) & same_str(&p.content, &q.content),
        (Url(p), Url(q)) => same_str(&p.url(), &q.url()),
        (UserUrl(p), UserUrl(q)) => same_str(&p.description, &q.description) & same_str(&p.content, &q.content),
        (Binary(p), Binary(q)) => same(&p.data, &q.data),
        (Private(p), Private(q)) => same_str(&p.owner, &q.owner) & same(&p.private_data, &q.private_data),
        (UniqueFileIdentifier(p), UniqueFileIdentifier(q)) => same_str(&p.owner, &q.owner) & same(&p.identifier, &q.identifier),
        (p, q) => p == q,
    })
}

harnesses! {
    fn h_convert() {
        let (_, tt, k) = pick();
        let n = 1 + choose(t(2, 3));
        let v = value(tt, k, n, t(2, 4));
        let mut x = Tag::new(tt);
        check(x.insert(item(k, &v)), "a key the format has is not accepted");
        let r = convert(x);
        check(r.tag_type() == tt, "conversion changes the type of the tag");
        holds(&r, k, &[&v], "an item is lost or changed by converting the tag to its format and back");
        check(alone(&r, k), "converting a tag to its format and back adds items");
        reach(1)
    }
    fn h_pair() {
        // every pair of keys, together
        let (_, tt, a) = pick();
        let b = KEYS[choose(KEYS.len())];
        assume(a != b && b.map_key(tt).is_some());
        assume(!shared(tt, a, b));
        let (v, w) = (value(tt, a, 1, 1), value(tt, b, 1, 1));
        let mut x = Tag::new(tt);
        x.insert(item(a, &v));
        x.insert(item(b, &w));
        let r = convert(x);
        holds(&r, a, &[&v], "an item is lost next to another one");
        holds(&r, b, &[&w], "an item is lost next to another one");
        reach(1)
    }
    fn h_multi() {
        let (_, tt, k) = pick();
        assume(multi(tt, k));
        let (v, w) = (value(tt, k, 1, t(2, 4)), value(tt, k, 1, t(2, 4)));
        let mut x = Tag::new(tt);
        x.push(item(k, &v));
        x.push(item(k, &w));
        holds(&convert(x), k, &[&v, &w], "one of several values is lost or changed by converting the tag to its format and back");
        reach(1)
    }
    fn h_language() {
        let k = [ItemKey::Comment, ItemKey::UnsyncLyrics][choose(2)];
        let (a, b) = (text(1, 2).0, text(1, 2).0);
        let d = text(choose(2), 2).0;
        let mut lang = *b"eng";
        fill(&mut lang);
        for c in lang { assume((c >= b'a') & (c <= b'z')); }
        let mut x = Tag::new(TagType::Id3v2);
        for v in [&a, &b] {
            let mut i = item(k, v);
            i.set_lang(lang);
            i.set_description(d.clone());
            x.push(i);
        }
        let r = convert(x);
        let got: Vec<_> = r.get_items(k).collect();
        check(got.len() == 2, "one of two values with a description is lost");
        for (i, v) in got.iter().zip([&a, &b]) {
            check(same_str(i.value().text().unwrap_or_default(), v), "a value with a description is changed");
            check(same(i.lang(), &lang), "the language of an item is lost");
            check(same_str(i.description(), &d), "the description of an item is lost");
        }
        reach(1)
    }
    fn h_disk() {
        let (n, tt, k) = pick();
        let v = value(tt, k, 1 + choose(2), t(1, 3));
        let mut x = Tag::new(tt);
        x.insert(item(k, &v));
        let Some(r) = disk(&x, n) else { return };
        // ratings have no e-mail in a RIFF INFO list
        let v = if (tt, k) == (TagType::RiffInfo, ItemKey::Popularimeter) { format!("|{}|0", v.rsplit('|').nth(1).unwrap_or_default()) } else { v };
        holds(&r, k, &[&v], "an item of a generic tag is lost or changed by writing and reading it");
        reach(1)
    }
    fn h_disk_multi() {
        let (n, tt, k) = pick();
        assume(multi(tt, k));
        let (v, w) = (value(tt, k, 1, 1), value(tt, k, 1, 1));
        let mut x = Tag::new(tt);
        x.push(item(k, &v));
        x.push(item(k, &w));
        let Some(r) = disk(&x, n) else { return };
        holds(&r, k, &[&v, &w], "one of several values of a generic tag is lost or changed by writing and reading it");
        reach(1)
    }
    fn h_id3v1() {
        use ItemKey::*;
        let k = [TrackTitle, TrackArtist, AlbumTitle, Year, Comment, TrackNumber, Genre][choose(7)];
        let v = match k {
            Year => format!("20{}", value(TagType::Id3v1, TrackNumber, 0, 0)),
            Genre => String::from(lofty::id3::v1::GENRES[choose(lofty::id3::v1::GENRES.len())]),
            k => value(TagType::Id3v1, k, 2, 2),
        };
        let mut x = Tag::new(TagType::Id3v1);
        x.insert_unchecked(item(k, &v));
        let r = convert(x);
        holds(&r, k, &[&v], "an item is lost or changed by converting the tag to ID3v1 and back");
        check(alone(&r, k), "converting a tag to ID3v1 and back adds items");
        reach(1)
    }
    fn h_split_id3v2() {
        let mut v = [id3_a, id3_b, id3_c, id3_d][choose(4)]();
        window(&mut v[10..], t(1, 2), 1);
        v.extend_from_slice(&stream(AAC, 0));
        let Ok(mut f) = lofty::aac::AacFile::read_from(&mut Cursor::new(v), ParseOptions::new().read_properties(false).parsing_mode(mode(choose(3)))) else { return };
        let Some(x) = f.remove_id3v2() else { return };
        lossless(x, |a, b| frames(a, b));
    }
    fn h_split_ape() {
        let mut v = cat(&[&stream(MPC, 4), &ape_tag(choose(2) == 0)]);
        let l = ape_tag(false).len() - 32;
        let k = v.len() - 32 - l;
        let e = v.len() - 32;
        window(&mut v[k..e], t(2, 3), 1);
        let Ok(mut f) = lofty::musepack::MpcFile::read_from(&mut Cursor::new(v), ParseOptions::new().read_properties(false).parsing_mode(mode(choose(3)))) else { return };
        let Some(x) = f.remove_ape() else { return };
        lossless(x, |a, b| a.len() == b.len());
    }
    fn h_split_vorbis() {
        let l: [&[u8]; 8] = [b"TITLE=T", b"RATING=20", b"RATING:a@b=40", b"rating:c=x", b"COMPILATION=1", b"ENCODER=e", b"XY=z", b"TRACKNUMBER=1"];
        let mut c = comments(&l[..4 + choose(5)]);
        let n = c.len();
        window(&mut c[4..n], t(1, 2), 1);
        let mut v = template(FLAC, 0)[..42].to_vec();
        v[4] = 0;
        v.extend_from_slice(&[0x84, 0, 0, n as u8]);
        v.extend_from_slice(&c);
        let Ok(mut f) = lofty::flac::FlacFile::read_from(&mut Cursor::new(v), ParseOptions::new().read_properties(false).parsing_mode(mode(choose(3)))) else { return };
        let Some(x) = f.remove_vorbis_comments() else { return };
        lossless(x, |a, b| (a.vendor().is_empty() || same_str(a.vendor(), b.vendor())) & strs(a.items(), b.items()));
    }
    fn h_split_ilst() {
        let mut v = template(MP4, 0);
        let n = v.len();
        let a = v.windows(4).position(|w| w == b"ilst").unwrap_or(0);
        window(&mut v[a..n], t(2, 3), 1);
        let Ok(mut f) = lofty::mp4::Mp4File::read_from(&mut Cursor::new(v), ParseOptions::new().read_properties(false).parsing_mode(mode(choose(3)))) else { return };
        let Some(x) = f.remove_ilst() else { return };
        lossless(x, |a, b| a.len() == b.len());
    }
    fn h_split_riff() {
        let mut v = template(WAV, 0);
        let a = v.windows(4).position(|w| w == b"INFO").unwrap_or(0) + 4;
        let e = (a + 40).min(v.len());
        window(&mut v[a..e], t(2, 3), 1);
        let Ok(mut f) = lofty::iff::wav::WavFile::read_from(&mut Cursor::new(v), ParseOptions::new().read_properties(false).parsing_mode(mode(choose(3)))) else { return };
        let Some(x) = f.remove_riff_info() else { return };
        lossless(x, |a, b| strs((&**a).into_iter().map(|(k, v)| (k.as_str(), v.as_str())), (&**b).into_iter().map(|(k, v)| (k.as_str(), v.as_str()))));
    }
    fn h_split_aiff() {
        let mut v = template(AIFF, 0);
        let n = v.len();
        window(&mut v[12..n], t(2, 3), 1);
        let Ok(mut f) = lofty::iff::aiff::AiffFile::read_from(&mut Cursor::new(v), ParseOptions::new().read_properties(false).parsing_mode(mode(choose(3)))) else { return };
        let Some(x) = f.remove_text_chunks() else { return };
        lossless(x, |_, _| true);
    }
    fn h_split_id3v1() {
        let mut v = stream(AAC, 0);
        let mut g = id3v1_tag();
        window(&mut g[3..], t(2, 3), 1);
        v.extend_from_slice(&g);
        let Ok(mut f) = lofty::aac::AacFile::read_from(&mut Cursor::new(v), ParseOptions::new().read_properties(false).parsing_mode(mode(choose(3)))) else { return };
        let Some(x) = f.remove_id3v1() else { return };
        lossless(x, |_, _| true);
    }
}
