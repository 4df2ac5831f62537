//! bound: every item key and tag type; every spelling of the format keys in upper and lower case letters (all case patterns of the first eight letters, and all-upper, all-lower); arbitrary keys of up to 4 ASCII characters
//! assume: keys that share a format field by design are told apart by the formats themselves (number and total; year and date; label and publisher; writer and lyricist; encoder software and settings; lyrics)
//! secs: 60
use crate::sym::*;
use crate::util::*;
use lofty::tag::{ItemKey, ItemValue, Tag, TagItem, TagType};

macro_rules! keys { ($($k:ident,)*) => { const KEYS: &[ItemKey] = &[$(ItemKey::$k),*]; } }
keys! {
    AlbumTitle, SetSubtitle, ShowName, ContentGroup, TrackTitle, TrackSubtitle, OriginalAlbumTitle, OriginalArtist, OriginalLyricist, 
    AlbumTitleSortOrder, AlbumArtistSortOrder, TrackTitleSortOrder, TrackArtistSortOrder, ShowNameSortOrder, ComposerSortOrder, AlbumArtist, 
    AlbumArtists, TrackArtist, TrackArtists, Arranger, Writer, Composer, Conductor, Director, Engineer, Lyricist, MixDj, MixEngineer, Performer, 
    Producer, Publisher, Label, InternetRadioStationName, InternetRadioStationOwner, Remixer, DiscNumber, DiscTotal, TrackNumber, TrackTotal, 
    Popularimeter, ParentalAdvisory, RecordingDate, Year, ReleaseDate, OriginalReleaseDate, Isrc, Barcode, AcoustId, AcoustIdFingerprint, 
    CatalogNumber, Work, Movement, MovementNumber, MovementTotal, ReleaseCountry, MusicBrainzRecordingId, MusicBrainzTrackId, MusicBrainzReleaseId, 
    MusicBrainzReleaseGroupId, MusicBrainzArtistId, MusicBrainzReleaseArtistId, MusicBrainzWorkId, MusicBrainzReleaseType, FlagCompilation, 
    FlagPodcast, FileOwner, TaggingTime, Length, OriginalFileName, OriginalMediaType, EncodedBy, EncoderSoftware, EncoderSettings, EncodingTime, 
    ReplayGainAlbumGain, ReplayGainAlbumPeak, ReplayGainTrackGain, ReplayGainTrackPeak, R128TrackGain, R128AlbumGain, AudioFileUrl, AudioSourceUrl, 
    CommercialInformationUrl, CopyrightUrl, TrackArtistUrl, RadioStationUrl, PaymentUrl, PublisherUrl, Genre, InitialKey, Color, Mood, Bpm, IntegerBpm, 
    CopyrightMessage, License, PodcastDescription, PodcastSeriesCategory, PodcastUrl, PodcastGlobalUniqueId, PodcastKeywords, Comment, Description, 
    Language, Script, Lyrics, UnsyncLyrics, AppleXid, AppleId3v2ContentGroup, 
}
const TYPES: [TagType; 6] = [TagType::AiffText, TagType::Ape, TagType::Id3v2, TagType::Mp4Ilst, TagType::RiffInfo, TagType::VorbisComments];
// further names of a key: read, never written
const ALIASES: &[(TagType, &str, ItemKey)] = &[
    (TagType::AiffText, "ANNO", ItemKey::Comment),
    (TagType::Ape, "ALBUMARTIST", ItemKey::AlbumArtist),
    (TagType::Ape, "ALBUM ARTISTS", ItemKey::AlbumArtists),
    (TagType::Id3v2, "ALBUMARTIST", ItemKey::AlbumArtist),
    (TagType::Id3v2, "ALBUM ARTIST", ItemKey::AlbumArtist),
    (TagType::Id3v2, "ALBUM ARTISTS", ItemKey::AlbumArtists),
    (TagType::RiffInfo, "ITRK", ItemKey::TrackNumber),
    (TagType::VorbisComments, "ALBUM ARTIST", ItemKey::AlbumArtist),
    (TagType::VorbisComments, "ALBUM ARTISTS", ItemKey::AlbumArtists),
    (TagType::VorbisComments, "WRITER", ItemKey::Writer),
    (TagType::VorbisComments, "ORGANIZATION", ItemKey::Label),
    (TagType::VorbisComments, "MIXARTIST", ItemKey::Remixer),
    (TagType::VorbisComments, "TOTALDISCS", ItemKey::DiscTotal),
    (TagType::VorbisComments, "TOTALTRACKS", ItemKey::TrackTotal),
    (TagType::VorbisComments, "ORIGINALYEAR", ItemKey::OriginalReleaseDate),
    (TagType::VorbisComments, "ENCODED-BY", ItemKey::EncodedBy),
    (TagType::VorbisComments, "ENCODED_BY", ItemKey::EncodedBy),
    (TagType::VorbisComments, "ENCODERSETTINGS", ItemKey::EncoderSettings),
    (TagType::VorbisComments, "KEY", ItemKey::InitialKey),
];
// keys that share one field of the format
fn shared(t: TagType, a: ItemKey, b: ItemKey) -> bool {
    use ItemKey::*;
    let s: &[&[ItemKey]] = match t {
        TagType::Ape => &[&[DiscNumber, DiscTotal], &[TrackNumber, TrackTotal], &[RecordingDate, Year]],
        TagType::Id3v2 => &[&[DiscNumber, DiscTotal], &[TrackNumber, TrackTotal], &[MovementNumber, MovementTotal], &[Publisher, Label], &[Writer, Lyricist], &[EncoderSoftware, EncoderSettings]],
        TagType::Mp4Ilst => &[&[DiscNumber, DiscTotal], &[TrackNumber, TrackTotal], &[Lyrics, UnsyncLyrics]],
        _ => &[],
    };
    a == b || s.iter().any(|g| g.contains(&a) && g.contains(&b))
}
fn fold(s: &[u8]) -> Vec<u8> { s.iter().map(|b| if *b >= b'A' && *b <= b'Z' { *b + 32 } else { *b }).collect() }

harnesses! {
    fn h_there_and_back() {
        let t = TYPES[choose(6)];
        let k = KEYS[choose(KEYS.len())];
        let Some(s) = k.map_key(t) else { reach(2); return };
        let b = ItemKey::from_key(t, s);
        check(b.is_some(), "a format key is known");
        let Some(b) = b else { return };
        check(shared(t, k, b), "the format key of an item key maps back to it");
        check(b.map_key(t) == Some(s), "the item key found has the same format key");
        reach(1);
    }
    fn h_no_collision() {
        let t = TYPES[choose(6)];
        let i = choose(KEYS.len());
        let Some(s) = KEYS[i].map_key(t) else { return };
        for j in 0..KEYS.len() {
            if let Some(r) = KEYS[j].map_key(t) {
                if s.eq_ignore_ascii_case(r) { check(shared(t, KEYS[i], KEYS[j]), "different item keys have different format keys"); check(s == r, "one spelling of a format key"); }
            }
        }
        reach(1);
    }
    fn h_case() {
        let t = TYPES[choose(6)];
        let k = KEYS[choose(KEYS.len())];
        let Some(s) = k.map_key(t) else { return };
        let want = ItemKey::from_key(t, s);
        let mut v = s.as_bytes().to_vec();
        let upto = [0usize, 8, 100][choose(3)];
        for (i, b) in v.iter_mut().enumerate() {
            if !b.is_ascii_alphabetic() { continue; }
            if upto == 8 { if i < 8 { *b ^= (u8() & 1) << 5; } } else if upto == 0 { *b |= 32; } else { *b &= !32; }
        }
        let s = unsafe { String::from_utf8_unchecked(v) };
        check(ItemKey::from_key(t, &s) == want, "format keys are looked up without regard to case");
        reach(1);
    }
    fn h_alias() {
        let (t, s, k) = ALIASES[choose(ALIASES.len())];
        let Some(g) = ItemKey::from_key(t, s) else { check(false, "another name of a key is known"); return };
        check(g == k, "another name of a key maps to it");
        check(matches!(k.map_key(t), Some(x) if x != s), "the preferred name is written");
        reach(1);
    }
    fn h_any() {
        // only keys of the table are found
        let t = TYPES[choose(6)];
        let n = choose(5);
        let v = vec(n);
        for b in &v { assume(*b < 128); }
        let s = unsafe { String::from_utf8_unchecked(v.clone()) };
        let r = ItemKey::from_key(t, &s);
        let mut known = false;
        for k in KEYS { if let Some(x) = k.map_key(t) { known |= same(&fold(x.as_bytes()), &fold(&v)); } }
        for (u, x, _) in ALIASES { if *u == t { known |= same(&fold(x.as_bytes()), &fold(&v)); } }
        check(r.is_some() == known, "exactly the keys of the format are found");
        if let Some(k) = r {
            let mut ok = false;
            if let Some(x) = k.map_key(t) { ok |= same(&fold(x.as_bytes()), &fold(&v)); }
            for (u, x, a) in ALIASES { if *u == t && *a == k { ok |= same(&fold(x.as_bytes()), &fold(&v)); } }
            check(ok, "the key found is that of the name");
            reach(1);
        }
        reach(2);
    }
    fn h_supported() {
        let i = choose(8);
        let t = match i { 6 => TagType::Id3v1, 7 => TagType::Mp4Ilst, _ => TYPES[i] };
        let k = KEYS[choose(KEYS.len())];
        let ok = k.map_key(t).is_some();
        if t != TagType::Id3v1 {
            check(TagItem::new_checked(t, k, ItemValue::Text("x".into())).is_some() == ok, "items are checked against the tag type");
        } else { check(!ok, "ID3v1 has no keys"); }
        let mut g = Tag::new(t);
        let id3v1 = matches!(k, ItemKey::TrackTitle | ItemKey::TrackArtist | ItemKey::AlbumTitle | ItemKey::Comment | ItemKey::TrackNumber | ItemKey::Genre | ItemKey::Year | ItemKey::RecordingDate);
        let want = if t == TagType::Id3v1 { id3v1 } else { ok };
        check(g.insert_text(k, "x".into()) == want, "only supported items are inserted");
        check(g.item_count() == want as u32, "the item is there");
        check(matches!(g.get_string(k), Some(s) if same_str(s, "x")) == want, "the item is found");
        check(ItemKey::from_key(TagType::Id3v1, "TITLE").is_none(), "ID3v1 has no keys");
        reach(1);
    }
}
