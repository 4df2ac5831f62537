//! bound: one or two frames per tag, written as ID3v2.4 and ID3v2.3 in all four text encodings, with and without padding, read back in Strict and BestAttempt mode
//! bound: texts: every string of up to 2 arbitrary characters (no NUL, no byte order mark), binary data up to 3 arbitrary bytes, all numeric fields arbitrary
//! bound: every frame type of the Frame enum, and the standalone GEOB, SYLT and ATXT codecs
//! bound: tag flags: every combination of unsynchronisation, experimental, footer, CRC and restrictions; frame flags: every combination, arbitrary group and method bytes
//! assume: genre texts (TCON) and timestamps are covered by C31 and C30; frames that decode to nothing (no content at all) are excluded
use crate::sym::*;
use crate::util::*;
use lofty::id3::v2::*;
use lofty::picture::{MimeType, Picture, PictureType};
use lofty::tag::items::Timestamp;
use lofty::TextEncoding;
use std::borrow::Cow;
use std::collections::HashMap;

type F = Frame<'static>;
const ENC: [TextEncoding; 4] = [TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF16BE, TextEncoding::UTF8];
fn enc() -> TextEncoding { ENC[choose(4)] }
fn enc_in(e: TextEncoding, v3: bool) -> TextEncoding { if v3 && (e == TextEncoding::UTF8 || e == TextEncoding::UTF16BE) { TextEncoding::UTF16 } else { e } }
fn opts(v3: bool) -> WriteOptions { WriteOptions::default().use_id3v23(v3) }
/// text that is representable in the encoding
fn txt(e: TextEncoding, n: usize, w: usize) -> String {
    let (s, c) = text(n, w);
    if e == TextEncoding::Latin1 { for x in &c { assume(x & 0xff_ffff < 256); } }
    s
}
fn lat(n: usize) -> String { txt(TextEncoding::Latin1, n, 2) }
fn id(s: &'static str) -> FrameId<'static> { FrameId::new(s).unwrap() }
fn audio(v: &mut Vec<u8>) { for _ in 0..2 { v.extend_from_slice(&[0xff, 0xfb, 0x90, 0x64]); v.resize(v.len() + 413, 0); } }
fn synch(b: &[u8]) -> usize { b.iter().fold(0, |a, x| a << 7 | *x as usize) }
fn read(v: &[u8], strict: bool) -> Option<Id3v2Tag> {
    let mut f = v.to_vec();
    audio(&mut f);
    let m = if strict { ParsingMode::Strict } else { ParsingMode::BestAttempt };
    let f = lofty::mpeg::MpegFile::read_from(&mut Cursor::new(&f[..]), ParseOptions::new().read_properties(false).parsing_mode(m)).ok()?;
    f.id3v2().cloned()
}
/// write a tag, check its framing, read it back, write it again
fn cycle(tag: &Id3v2Tag, v3: bool) -> Option<Id3v2Tag> {
    let pad = [0u32, 1, 20][choose(3)];
    let strict = choose(2) == 1;
    let mut v = vec![];
    let r = tag.dump_to(&mut v, opts(v3).preferred_padding(pad));
    check(r.is_ok(), "the tag is written");
    if r.is_err() { return None; }
    let foot = if tag.flags().footer { 10 } else { 0 };
    check(same(&v[..3], b"ID3") && v[3] == if v3 { 3 } else { 4 } && v[4] == 0, "tag header");
    check((v[6] | v[7] | v[8] | v[9]) < 0x80 && synch(&v[6..10]) == v.len() - 10 - foot, "the header holds the size of the tag");
    if foot > 0 { let n = v.len(); check(same(&v[n - 10..n - 7], b"3DI") && same(&v[n - 7..], &v[3..10]), "the footer repeats the header"); }
    else { check(same(&v[v.len() - pad as usize..], &[0; 20][..pad as usize]), "padding is zero"); }
    let t = read(&v, strict);
    check(t.is_some(), "a written tag is read");
    let t = t?;
    check(t.original_version() == if v3 { Id3v2Version::V3 } else { Id3v2Version::V4 }, "version");
    let mut w = vec![];
    let r = t.dump_to(&mut w, opts(v3).preferred_padding(pad));
    check(r.is_ok() && same(&v, &w), "writing what was read gives the same bytes");
    Some(t)
}
fn rt1(f: F, v3: bool) -> Option<F> {
    let mut tag = Id3v2Tag::new();
    let want = f.id_str().to_string();
    let _ = tag.insert(f);
    let t = cycle(&tag, v3)?;
    check(t.len() == 1, "one frame is read");
    let g = t.into_iter().next()?;
    check(g.id_str() == want, "frame identifier");
    check(g.flags() == FrameFlags::default(), "frame flags");
    Some(g)
}

harnesses! {
    fn h_text() {
        let (e, v3) = (enc(), choose(2) == 1);
        let s = txt(e, choose(3), 4);
        let n = ["TIT2", "TXYZ", "GRP1"][choose(3)];
        let g = rt1(Frame::Text(TextInformationFrame::new(id(n), e, s.clone())), v3);
        let Some(g) = g else { return };
        let Frame::Text(g) = g else { check(false, "frame type"); return };
        check(same_str(&g.value, &s), "text");
        check(g.encoding == enc_in(e, v3), "encoding");
        reach(1);
    }
    fn h_user_text() {
        let (e, v3) = (enc(), choose(2) == 1);
        let (d, s) = (txt(e, choose(2), 3), txt(e, choose(2), 3));
        let Some(g) = rt1(Frame::UserText(ExtendedTextFrame::new(e, d.clone(), s.clone())), v3) else { return };
        let Frame::UserText(g) = g else { check(false, "frame type"); return };
        check(same_str(&g.description, &d), "description");
        check(same_str(&g.content, &s), "content");
        check(g.encoding == enc_in(e, v3), "encoding");
        reach(2);
    }
    fn h_user_url() {
        let (e, v3) = (enc(), choose(2) == 1);
        let (d, s) = (txt(e, choose(2), 3), lat(choose(3)));
        let Some(g) = rt1(Frame::UserUrl(ExtendedUrlFrame::new(e, d.clone(), s.clone())), v3) else { return };
        let Frame::UserUrl(g) = g else { check(false, "frame type"); return };
        check(same_str(&g.description, &d), "description");
        check(same_str(&g.content, &s), "content");
        check(g.encoding == enc_in(e, v3), "encoding");
        reach(3);
    }
    fn h_url() {
        let v3 = choose(2) == 1;
        let s = lat(1 + choose(2));
        let Some(g) = rt1(Frame::Url(UrlLinkFrame::new(id("WCOM"), s.clone())), v3) else { return };
        let Frame::Url(g) = g else { check(false, "frame type"); return };
        check(same_str(g.url(), &s), "url");
        reach(4);
    }
    fn h_lang() {
        let (e, v3) = (enc(), choose(2) == 1);
        let (d, s) = (txt(e, choose(2), 3), txt(e, choose(2), 3));
        let l: [u8; 3] = bytes();
        for x in &l { assume(x.is_ascii_alphabetic()); }
        let comm = choose(2) == 1;
        let f = if comm { Frame::Comment(CommentFrame::new(e, l, d.clone(), s.clone())) } else { Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(e, l, d.clone(), s.clone())) };
        let Some(g) = rt1(f, v3) else { return };
        let (ge, gl, gd, gs) = match &g {
            Frame::Comment(c) if comm => (c.encoding, c.language, &c.description, &c.content),
            Frame::UnsynchronizedText(c) if !comm => (c.encoding, c.language, &c.description, &c.content),
            _ => { check(false, "frame type"); return }
        };
        check(gl == l, "language");
        check(same_str(gd, &d), "description");
        check(same_str(gs, &s), "content");
        check(ge == enc_in(e, v3), "encoding");
        reach(5);
    }
    fn h_lang_invalid() {
        let l: [u8; 3] = bytes();
        let mut tag = Id3v2Tag::new();
        let _ = tag.insert(Frame::Comment(CommentFrame::new(TextEncoding::UTF8, l, "d", "c")));
        let mut v = vec![];
        let r = tag.dump_to(&mut v, opts(false));
        check(r.is_ok() == l.iter().fold(true, |a, x| a & x.is_ascii_alphabetic()), "only alphabetic languages are written");
        reach(6);
    }
    fn h_picture() {
        let (e, v3) = (enc(), choose(2) == 1);
        let d = txt(e, choose(2), 3);
        let ty = u8();
        let data = vec(choose(t(3, 4)));
        let m = [None, Some(MimeType::Png), Some(MimeType::Jpeg), Some(MimeType::Unknown("a/b".into()))][choose(4)].clone();
        let mut b = Picture::unchecked(data.clone()).pic_type(PictureType::from_u8(ty));
        if let Some(m) = m.clone() { b = b.mime_type(m); }
        if !d.is_empty() { b = b.description(d.clone()); }
        let Some(g) = rt1(Frame::Picture(AttachedPictureFrame::new(e, b.build())), v3) else { return };
        let Frame::Picture(g) = g else { check(false, "frame type"); return };
        check(same_str(g.picture.description().unwrap_or(""), &d), "description");
        check(same(g.picture.data(), &data), "picture data");
        check(g.picture.pic_type() == PictureType::from_u8(ty), "picture type");
        check(g.picture.mime_type() == m.as_ref(), "mime type");
        check(g.encoding == enc_in(e, v3), "encoding");
        reach(7);
    }
    fn h_key_value() {
        let (e, v3) = (enc(), choose(2) == 1);
        let n = 1 + choose(2);
        let mut kv = vec![];
        for k in 0..n { kv.push((Cow::Owned(txt(e, if k == 0 { 1 + choose(2) } else { 1 }, 2)), Cow::Owned(txt(e, if k == 0 { 1 } else { choose(2) }, 2)))); }
        let tmcl = !v3 && choose(2) == 1;
        let Some(g) = rt1(Frame::KeyValue(KeyValueFrame::new(id(if tmcl { "TMCL" } else { "TIPL" }), e, kv.clone())), v3) else { return };
        let Frame::KeyValue(g) = g else { check(false, "frame type"); return };
        check(g.key_value_pairs.len() == n, "number of pairs");
        for k in 0..n { if k < g.key_value_pairs.len() { check(same_str(&g.key_value_pairs[k].0, &kv[k].0), "key"); check(same_str(&g.key_value_pairs[k].1, &kv[k].1), "value"); } }
        check(g.encoding == enc_in(e, v3), "encoding");
        reach(8);
    }
    fn h_ufid_priv() {
        let v3 = choose(2) == 1;
        let o = lat(1 + choose(2));
        let d = vec(choose(t(3, 5)));
        let ufid = choose(2) == 1;
        let f = if ufid { Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new(o.clone(), d.clone())) } else { Frame::Private(PrivateFrame::new(o.clone(), d.clone())) };
        let Some(g) = rt1(f, v3) else { return };
        match g {
            Frame::UniqueFileIdentifier(g) if ufid => check(same_str(&g.owner, &o) & same(&g.identifier, &d), "owner and identifier"),
            Frame::Private(g) if !ufid => check(same_str(&g.owner, &o) & same(&g.private_data, &d), "owner and data"),
            _ => check(false, "frame type"),
        }
        reach(9);
    }
    fn h_popm() {
        let v3 = choose(2) == 1;
        let o = lat(choose(3));
        let (r, c) = (u8(), u64());
        let Some(g) = rt1(Frame::Popularimeter(PopularimeterFrame::new(o.clone(), r, c)), v3) else { return };
        let Frame::Popularimeter(g) = g else { check(false, "frame type"); return };
        check(same_str(&g.email, &o) & (g.rating == r) & (g.counter == c), "popularimeter");
        reach(10);
    }
    fn h_rva2() {
        let o = lat(choose(2));
        let mut m = HashMap::new();
        let n = 1 + choose(2);
        let mut all = vec![];
        for k in 0..n {
            let ct = if k == 0 { ChannelType::try_from(choose(9) as u8).unwrap() } else { ChannelType::FrontLeft };
            if k == 1 && all.iter().any(|c: &ChannelInformation| c.channel_type == ct) { return; }
            let bits = if k == 0 { [0u8, 1, 8, 9, 16][choose(5)] } else { 4 };
            let peak = if bits == 0 { None } else { Some(vec((bits as usize + 7) / 8)) };
            let i = ChannelInformation { channel_type: ct, volume_adjustment: u16() as i16, bits_representing_peak: bits, peak_volume: peak };
            all.push(i.clone());
            m.insert(ct, i);
        }
        let Some(g) = rt1(Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new(o.clone(), Cow::Owned(m))), false) else { return };
        let Frame::RelativeVolumeAdjustment(g) = g else { check(false, "frame type"); return };
        check(same_str(&g.identification, &o), "identification");
        check(g.channels.len() == n, "number of channels");
        for c in &all {
            let d = g.channels.values().find(|d| d.channel_type == c.channel_type); // (no look-up: the executor stubs the hash function)
            check(d.is_some(), "channel is present");
            let Some(d) = d else { return };
            check(d.channel_type == c.channel_type && d.volume_adjustment == c.volume_adjustment && d.bits_representing_peak == c.bits_representing_peak, "channel");
            match (&c.peak_volume, &d.peak_volume) { (None, None) => {}, (Some(a), Some(b)) => check(same(a, b), "peak"), _ => check(false, "peak presence") }
        }
        reach(11);
    }
    fn h_rva2_any() {
        // bit counts and peaks that do not fit together still give a tag that is read back
        let bits = u8();
        let n = [0, 1, 2, 40][choose(4)];
        let peak = if n == 40 { let mut p = vec![0xff; 40]; p[0] = u8(); p } else { vec(n) };
        let mut m = HashMap::new();
        m.insert(ChannelType::Other, ChannelInformation { channel_type: ChannelType::Other, volume_adjustment: 1, bits_representing_peak: bits, peak_volume: Some(peak) });
        let mut tag = Id3v2Tag::new();
        let _ = tag.insert(Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new("x", Cow::Owned(m))));
        let _ = tag.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF8, "t")));
        let mut v = vec![];
        let r = tag.dump_to(&mut v, opts(false));
        if r.is_ok() {
            let t = read(&v, false);
            check(t.is_some(), "a written tag is read");
            check(t.is_some_and(|t| t.len() == 2), "both frames are read");
            reach(12);
        }
    }
    fn h_owne() {
        let (e, v3) = (enc(), choose(2) == 1);
        let (p, s) = (lat(choose(2)), txt(e, choose(2), 3));
        let d = ascii_str(8);
        let Some(g) = rt1(Frame::Ownership(OwnershipFrame::new(e, p.clone(), d.clone(), s.clone())), v3) else { return };
        let Frame::Ownership(g) = g else { check(false, "frame type"); return };
        check(same_str(&g.price_paid, &p) & same_str(&g.date_of_purchase, &d) & same_str(&g.seller, &s), "ownership");
        check(g.encoding == enc_in(e, v3), "encoding");
        reach(13);
    }
    fn h_etco() {
        let v3 = choose(2) == 1;
        let f = [TimestampFormat::MPEG, TimestampFormat::MS][choose(2)];
        let n = 1 + choose(2);
        let mut ev = vec![];
        for k in 0..n {
            let b = [0u8, 1, 8, 0x16, 0xe0, 0xef, 0xfd, 0xfe][if k == 0 { choose(8) } else { 3 }];
            let et = EventType::from_u8(b);
            check(et as u8 == b, "event types keep their number");
            ev.push(Event { event_type: et, timestamp: u32() });
        }
        if n == 2 { assume(ev[0].timestamp <= ev[1].timestamp); }
        let Some(g) = rt1(Frame::EventTimingCodes(EventTimingCodesFrame::new(f, ev.clone())), v3) else { return };
        let Frame::EventTimingCodes(g) = g else { check(false, "frame type"); return };
        check(g.timestamp_format == f, "timestamp format");
        check(g.events.len() == n, "number of events");
        for k in 0..n { if k < g.events.len() { check(g.events[k].event_type == ev[k].event_type && g.events[k].timestamp == ev[k].timestamp, "event"); } }
        reach(14);
    }
    fn h_timestamp() {
        let (e, v3) = (enc(), choose(2) == 1);
        let n = choose(6);
        let mut o = [1u8; 5];
        for k in 0..n { o[k] = u8(); }
        assume((o[0] >= 1) & (o[0] <= 12) & (o[1] >= 1) & (o[1] <= 31) & (o[2] < 24) & (o[3] < 60) & (o[4] < 60));
        let f = |k: usize| (n > k).then_some(o[k]);
        let ts = Timestamp { year: 1999, month: f(0), day: f(1), hour: f(2), minute: f(3), second: f(4) };
        let n2 = if v3 { 0 } else { choose(4) };
        let name = ["TDRC", "TDOR", "TDTG", "TDEN"][n2];
        let mut tag = Id3v2Tag::new();
        let _ = tag.insert(Frame::Timestamp(TimestampFrame::new(id(name), e, ts)));
        let Some(t) = cycle(&tag, v3) else { return };
        check(t.len() == 1, "one frame is read");
        let Some(Frame::Timestamp(g)) = t.into_iter().next() else { check(false, "frame type"); return };
        let mut w = ts;
        if v3 { w.second = None; if n < 2 { w.month = None; } if n < 4 { w.hour = None; } }
        check(g.timestamp == w, "timestamp");
        reach(15);
    }
    fn h_chapter() {
        let v3 = choose(2) == 1;
        let o = lat(1 + choose(2));
        let (a, b, c, d) = (u32(), u32(), u32(), u32());
        let mut ch = FrameList::new();
        let s = txt(TextEncoding::UTF8, choose(2), 3);
        let has = choose(3);
        if has > 0 { let _ = ch.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF16, s.clone()))); }
        if has > 1 { let _ = ch.insert(Frame::Url(UrlLinkFrame::new(id("WCOM"), "u"))); }
        let Some(g) = rt1(Frame::Chapter(ChapterFrame::new(o.clone(), a..b, c..d, ch)), v3) else { return };
        let Frame::Chapter(g) = g else { check(false, "frame type"); return };
        check(same_str(&g.id, &o), "chapter id");
        check(g.times == (a..b) && g.offsets == (c..d), "times and offsets");
        check(g.children.len() == has, "embedded frames");
        if has > 0 { check(g.title().is_some_and(|x| same_str(x, &s)), "title"); }
        reach(16);
    }
    fn h_toc() {
        let v3 = choose(2) == 1;
        let o = lat(1);
        let fl = CtocFlags { top_level: choose(2) == 1, ordered: choose(2) == 1 };
        let n = choose(3);
        let mut en: Vec<Cow<'static, str>> = vec![];
        for _ in 0..n { en.push(Cow::Owned(lat(choose(2)))); }
        let mut ch = FrameList::new();
        let has = choose(2);
        if has > 0 { let _ = ch.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF16, "t"))); }
        let Some(g) = rt1(Frame::TableOfContents(ChapterTableOfContentsFrame::new(o.clone(), fl, en.clone(), ch)), v3) else { return };
        let Frame::TableOfContents(g) = g else { check(false, "frame type"); return };
        check(same_str(&g.id, &o), "toc id");
        check(g.toc_flags() == fl, "toc flags");
        check(g.entries.len() == n && g.children.len() == has, "entries and embedded frames");
        for k in 0..n { if k < g.entries.len() { check(same_str(&g.entries[k], &en[k]), "entry"); } }
        reach(17);
    }
    fn h_binary() {
        let v3 = choose(2) == 1;
        let d = vec(1 + choose(t(3, 5)));
        let Some(g) = rt1(Frame::Binary(BinaryFrame::new(id("XYZ9"), d.clone())), v3) else { return };
        let Frame::Binary(g) = g else { check(false, "frame type"); return };
        check(same(&g.data, &d), "data");
        reach(18);
    }
    fn h_frame_flags() {
        let v3 = choose(2) == 1;
        let b = choose(128);
        let (grp, sym) = (u8(), u8());
        assume(sym > 0x80);
        let mut fl = FrameFlags::default();
        fl.tag_alter_preservation = b & 1 != 0;
        fl.file_alter_preservation = b & 2 != 0;
        fl.read_only = b & 4 != 0;
        if b & 8 != 0 { fl.grouping_identity = Some(grp); }
        fl.unsynchronisation = b & 16 != 0;
        if b & 32 != 0 { fl.encryption = Some(sym); fl.data_length_indicator = Some(3); }
        if b & 64 != 0 { fl.data_length_indicator = Some(3); }
        // the unsynchronisation flag "has no effect when writing"
        let d = vec(1 + 2 * choose(2));
        let mut tag = Id3v2Tag::new();
        let mut f = BinaryFrame::new(id("XYZ9"), d.clone());
        f.set_flags(fl);
        let _ = tag.insert(Frame::Binary(f));
        let _ = tag.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF8, "t")));
        let mut v = vec![];
        let r = tag.dump_to(&mut v, opts(v3));
        check(r.is_ok(), "the tag is written");
        if r.is_err() { return; }
        let t = read(&v, true);
        if v3 && fl.encryption.is_some() { return; } // there is no data length indicator in ID3v2.3
        check(t.is_some(), "a written tag is read");
        let Some(t) = t else { return };
        check(t.len() == 2, "both frames are read");
        let mut n = 0;
        for g in t.into_iter() {
            if let Frame::Binary(g) = g {
                n += 1;
                check(same(&g.data, &d), "frame data");
                let h = g.flags();
                check(h.tag_alter_preservation == fl.tag_alter_preservation && h.file_alter_preservation == fl.file_alter_preservation && h.read_only == fl.read_only, "status flags");
                check(h.grouping_identity == fl.grouping_identity, "group");
                check(h.encryption == fl.encryption, "encryption method");
                reach(19);
            }
        }
        check(n == 1, "the frame is read");
    }
    fn h_tag_flags() {
        let v3 = choose(2) == 1;
        let b = choose(16);
        let mut fl = Id3v2TagFlags::default();
        fl.unsynchronisation = b & 1 != 0;
        fl.experimental = b & 2 != 0;
        fl.footer = b & 4 != 0;
        fl.crc = b & 8 != 0;
        let r = u8();
        let has = choose(2) == 1;
        if has { fl.restrictions = Some(TagRestrictions::from_byte(r)); check(fl.restrictions.unwrap().as_bytes() == r, "restrictions keep their bits"); }
        let s = txt(TextEncoding::Latin1, 2, 2);
        let mut tag = Id3v2Tag::new();
        tag.set_flags(fl);
        let _ = tag.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF16, s.clone())));
        let mut v = vec![];
        let ok = tag.dump_to(&mut v, opts(v3)).is_ok();
        check(ok, "the tag is written");
        if !ok { return; }
        let foot = if fl.footer { 10 } else { 0 };
        check((v[6] | v[7] | v[8] | v[9]) < 0x80 && synch(&v[6..10]) == v.len() - 10 - foot, "the header holds the size of the tag");
        let t = read(&v, true);
        check(t.is_some(), "a written tag is read");
        let Some(t) = t else { return };
        check(t.len() == 1, "the frame is read");
        let g = t.get_text(&id("TIT2"));
        check(g.is_some_and(|x| same_str(x, &s)), "text");
        check(t.flags().experimental == fl.experimental, "experimental flag");
        if !v3 { check(t.flags().footer == fl.footer && t.flags().crc == fl.crc && t.flags().restrictions == fl.restrictions, "footer, CRC and restrictions"); reach(20); }
        reach(21);
    }
    fn h_crc() {
        let restr = choose(2) == 1;
        let pad = 0;
        let mut tag = Id3v2Tag::new();
        let mut fl = Id3v2TagFlags::default();
        fl.crc = true;
        if restr { fl.restrictions = Some(TagRestrictions::from_byte(0x55)); }
        tag.set_flags(fl);
        let _ = tag.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF8, "some text")));
        let mut v = vec![];
        let ok = tag.dump_to(&mut v, opts(false).preferred_padding(pad)).is_ok();
        check(ok, "the tag is written");
        if !ok { return; }
        let ext = synch(&v[10..14]);
        check(ext == if restr { 14 } else { 12 }, "extended header size");
        check(v[14] == 1 && v[15] == if restr { 0x30 } else { 0x20 } && v[16] == 5, "extended flags");
        let mut c = !0u32;
        for x in &v[10 + ext..] { c ^= *x as u32; for _ in 0..8 { c = if c & 1 != 0 { c >> 1 ^ 0xedb88320 } else { c >> 1 }; } }
        c = !c;
        let got = v[17..22].iter().fold(0u64, |a, x| a << 7 | *x as u64);
        check(got == c as u64, "the CRC covers the frames");
        reach(22);
    }
    fn h_invalid() {
        // values under an ID they do not belong to are refused
        let mut tag = Id3v2Tag::new();
        let f = match choose(3) { 0 => Frame::Text(TextInformationFrame::new(id("XIT2"), TextEncoding::UTF8, "t")), 1 => Frame::Url(UrlLinkFrame::new(id("XCOM"), "u")), _ => Frame::KeyValue(KeyValueFrame::new(id("TXYZ"), TextEncoding::UTF8, vec![])) };
        let _ = tag.insert(f);
        check(tag.dump_to(&mut vec![], opts(false)).is_err(), "a value is refused under an identifier it cannot have");
        reach(23);
    }
    fn h_geob() {
        let (e, v3) = (enc(), choose(2) == 1);
        let (n, d) = (txt(e, choose(2), 3), txt(e, choose(2), 3));
        let m = ascii_str(choose(2));
        let data = vec(choose(3));
        let opt = |s: &String| if s.is_empty() { None } else { Some(s.clone()) };
        let f = GeneralEncapsulatedObject::new(e, opt(&m), opt(&n), opt(&d), data.clone());
        let b = f.as_bytes(opts(v3));
        check(b.is_ok(), "the object is written");
        let Ok(b) = b else { return };
        let g = GeneralEncapsulatedObject::parse(&b, FrameFlags::default());
        check(g.is_ok(), "a written object is read");
        let Ok(g) = g else { return };
        check(same_str(g.mime_type.as_deref().unwrap_or(""), &m) & same_str(g.file_name.as_deref().unwrap_or(""), &n) & same_str(g.descriptor.as_deref().unwrap_or(""), &d), "object texts");
        check(same(&g.data, &data), "object data");
        check(g.encoding == enc_in(e, v3), "encoding");
        reach(24);
    }
    fn h_sylt() {
        let (e, v3) = (enc(), choose(2) == 1);
        let d = txt(e, choose(2), 3);
        let n = choose(3);
        let mut c = vec![];
        for k in 0..n { c.push((u32(), txt(e, if k == 0 { choose(2) } else { 1 }, 2))); }
        let l = *b"eng";
        let tf = [TimestampFormat::MPEG, TimestampFormat::MS][choose(2)];
        let ct = SyncTextContentType::try_from(choose(9) as u8).unwrap();
        let f = SynchronizedTextFrame::new(e, l, tf, ct, if d.is_empty() { None } else { Some(d.clone()) }, c.clone());
        let b = f.as_bytes(opts(v3));
        check(b.is_ok(), "the frame is written");
        let Ok(b) = b else { return };
        let g = SynchronizedTextFrame::parse(&b, FrameFlags::default());
        check(g.is_ok(), "a written frame is read");
        let Ok(g) = g else { return };
        check(g.language == l && g.timestamp_format == tf && g.content_type == ct, "header fields");
        check(same_str(g.description.as_deref().unwrap_or(""), &d), "description");
        check(g.content.len() == n, "number of texts");
        for k in 0..n { if k < g.content.len() { check(g.content[k].0 == c[k].0, "time"); check(same_str(&g.content[k].1, &c[k].1), "text"); } }
        check(g.encoding == enc_in(e, v3), "encoding");
        reach(25);
    }
    fn h_atxt() {
        let (e, v3) = (enc(), choose(2) == 1);
        let (m, s) = (lat(choose(2)), txt(e, choose(2), 3));
        let data = vec(choose(3));
        let fl = AudioTextFrameFlags { scrambling: choose(2) == 1 };
        let f = AudioTextFrame::new(e, m.clone(), fl, s.clone(), data.clone());
        let b = f.as_bytes(opts(v3));
        check(b.is_ok(), "the frame is written");
        let Ok(b) = b else { return };
        if b.len() < 4 { return; }
        let g = AudioTextFrame::parse(&b, FrameFlags::default());
        check(g.is_ok(), "a written frame is read");
        let Ok(g) = g else { return };
        check(same_str(&g.mime_type, &m) & same_str(&g.equivalent_text, &s) & same(&g.audio_data, &data), "fields");
        check(g.flags.scrambling == fl.scrambling && g.encoding == enc_in(e, v3), "flags");
        reach(26);
    }
    fn h_scramble() {
        let a = vec(t(4, 300));
        let mut b = a.clone();
        scramble(&mut b);
        check(b[0] == a[0] ^ 0xfe, "the first byte is masked with FE");
        scramble(&mut b);
        check(same(&a, &b), "scrambling is an involution");
        reach(27);
    }
}
