//! bound: frame identifiers: every ASCII string of up to 5 bytes, and every string of 2 or 3 (thorough 4) arbitrary characters
//! bound: upgrade tables: every 3-byte ASCII key against the ID3v2.2 table, every 4-byte ASCII key against the ID3v2.3 table
//! bound: a frame with an arbitrary 4-byte (ID3v2.3, ID3v2.4) or 3-byte (ID3v2.2) identifier, in Strict and BestAttempt mode
//! bound: ID3v2.3 tags with TYER, TDAT and TIME frames of arbitrary digits, in any order and with any of TDAT and TIME missing or malformed
use crate::sym::*;
use crate::util::*;
use lofty::id3::v2::util::upgrade::{upgrade_v2, upgrade_v3};
use lofty::id3::v2::{ChapterFrame, Frame, FrameFlags, FrameId, Id3v2Version};

/// ID3v2.2 identifiers and the ID3v2.4 frames of the same meaning (ID3v2.2, ID3v2.3 and ID3v2.4 specifications and Apple's additions)
const V22: &[(&str, &str)] = &[
    ("BUF", "RBUF"), ("CNT", "PCNT"), ("COM", "COMM"), ("CRA", "AENC"), ("ETC", "ETCO"), ("GEO", "GEOB"), ("IPL", "TIPL"), ("MCI", "MCDI"), ("MLL", "MLLT"),
    ("PIC", "APIC"), ("POP", "POPM"), ("REV", "RVRB"), ("SLT", "SYLT"), ("STC", "SYTC"), ("TAL", "TALB"), ("TBP", "TBPM"), ("TCM", "TCOM"), ("TCO", "TCON"),
    ("TCP", "TCMP"), ("TCR", "TCOP"), ("TDY", "TDLY"), ("TEN", "TENC"), ("TFT", "TFLT"), ("TKE", "TKEY"), ("TLA", "TLAN"), ("TLE", "TLEN"), ("TMT", "TMED"),
    ("TOA", "TOPE"), ("TOF", "TOFN"), ("TOL", "TOLY"), ("TOR", "TDOR"), ("TOT", "TOAL"), ("TP1", "TPE1"), ("TP2", "TPE2"), ("TP3", "TPE3"), ("TP4", "TPE4"),
    ("TPA", "TPOS"), ("TPB", "TPUB"), ("TRC", "TSRC"), ("TRD", "TDRC"), ("TRK", "TRCK"), ("TS2", "TSO2"), ("TSA", "TSOA"), ("TSC", "TSOC"), ("TSP", "TSOP"),
    ("TSS", "TSSE"), ("TST", "TSOT"), ("TT1", "TIT1"), ("TT2", "TIT2"), ("TT3", "TIT3"), ("TXT", "TEXT"), ("TXX", "TXXX"), ("TYE", "TDRC"), ("UFI", "UFID"),
    ("ULT", "USLT"), ("WAF", "WOAF"), ("WAR", "WOAR"), ("WAS", "WOAS"), ("WCM", "WCOM"), ("WCP", "WCOP"), ("WPB", "WPUB"), ("WXX", "WXXX"),
    ("PCS", "PCST"), ("TCT", "TCAT"), ("TDS", "TDES"), ("TID", "TGID"), ("WFD", "WFED"), ("MVI", "MVIN"), ("MVN", "MVNM"), ("GP1", "GRP1"), ("TDR", "TDRL"),
];
fn ok(b: &[u8]) -> bool { b.iter().fold(true, |a, c| a & (((*c >= b'A') & (*c <= b'Z')) | ((*c >= b'0') & (*c <= b'9')))) }
fn ascii_any(n: usize) -> String { let v = vec(n); for x in &v { assume(*x < 0x80); } unsafe { String::from_utf8_unchecked(v) } }
fn text_frame(id: &[u8], content: &[u8]) -> Vec<u8> {
    let mut v = id.to_vec();
    v.extend_from_slice(&[0, 0, 0, content.len() as u8 + 1, 0, 0, 0]);
    v.extend_from_slice(content);
    v
}
fn mpeg_with(version: u8, frames: &[u8], implicit: bool) -> Option<lofty::id3::v2::Id3v2Tag> {
    let mut v = b"ID3".to_vec();
    v.extend_from_slice(&[version, 0, 0, 0, 0, 0, frames.len() as u8]);
    v.extend_from_slice(frames);
    for _ in 0..2 { v.extend_from_slice(&[0xff, 0xfb, 0x90, 0x64]); v.resize(v.len() + 413, 0); }
    let f = lofty::mpeg::MpegFile::read_from(&mut Cursor::new(&v[..]), ParseOptions::new().read_properties(false).implicit_conversions(implicit)).ok()?;
    f.id3v2().cloned()
}

harnesses! {
    fn h_id() {
        let n = choose(6);
        let s = ascii_any(n);
        let r = FrameId::new(s.clone());
        let valid = ok(s.as_bytes()) & ((n == 3) | (n == 4));
        check(r.is_ok() == valid, "identifiers are three or four upper-case letters and digits");
        if let Ok(id) = r {
            check(id.is_valid() == (n == 4), "four characters are current, three outdated");
            check(id.is_outdated() == (n == 3), "three characters are outdated");
            check(same_str(id.as_str(), &s), "identifier text");
            reach(1);
        }
    }
    fn h_id_unicode() {
        let (s, _) = text(2 + choose(t(2, 3)), 4);
        let r = FrameId::new(s.clone());
        if let Ok(id) = r { check(ok(id.as_str().as_bytes()), "only ASCII identifiers are accepted"); check((s.len() == 3) | (s.len() == 4), "only short identifiers are accepted"); reach(2); }
    }
    fn h_upgrade_v2_table() {
        for (a, b) in V22 { check(upgrade_v2(a) == Some(*b), "ID3v2.2 identifier upgrades to the ID3v2.4 frame of the same meaning"); }
        for (a, b) in [("TORY", "TDOR"), ("TYER", "TDRC"), ("IPLS", "TIPL")] { check(upgrade_v3(a) == Some(b), "ID3v2.3 identifier upgrades to the ID3v2.4 frame of the same meaning"); }
        reach(3);
    }
    fn h_upgrade_v2() {
        let s = ascii_any(3);
        if let Some(u) = upgrade_v2(&s) {
            check((u.len() == 4) && ok(u.as_bytes()), "upgraded identifiers are valid");
            reach(4);
            let known = V22.iter().any(|(a, b)| *a == s && *b == u);
            check(known, "only documented identifiers are upgraded");
        }
    }
    fn h_upgrade_v3() {
        let s = ascii_any(4);
        if let Some(u) = upgrade_v3(&s) {
            check((u.len() == 4) && ok(u.as_bytes()), "upgraded identifiers are valid");
            check((s == "TORY" && u == "TDOR") || (s == "TYER" && u == "TDRC") || (s == "IPLS" && u == "TIPL"), "only documented identifiers are upgraded");
            reach(5);
        }
    }
    fn h_frame_id() {
        let id: [u8; 4] = bytes();
        let v3 = choose(2) == 1;
        let strict = choose(2) == 1;
        let mut v = b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec();
        v.extend_from_slice(&id);
        v.extend_from_slice(&[0, 0, 0, 3, 0, 0, 0, b'2', b'1']);
        let o = ParseOptions::new().parsing_mode(if strict { ParsingMode::Strict } else { ParsingMode::BestAttempt });
        let r = ChapterFrame::parse(&mut &v[..], o, if v3 { Id3v2Version::V3 } else { Id3v2Version::V4 }, FrameFlags::default());
        let Ok(r) = r else { return };
        for f in r.children.iter() {
            let got = f.id_str().as_bytes();
            check(ok(got) & ((got.len() == 4) | (got.len() == 3)), "every parsed frame has a valid identifier");
            check((got.len() == 4) == f.id().is_valid(), "identifier kind follows its length");
            if got.len() == 4 {
                let up = (&id == b"TYER" && got == b"TDRC") || (&id == b"TORY" && got == b"TDOR") || (&id == b"IPLS" && got == b"TIPL");
                let up2 = v3 && id[3] == 0 && V22.iter().any(|(a, b)| a.as_bytes() == &id[..3] && b.as_bytes() == got);
                check(same(got, &id) || (v3 && up) || up2, "a frame keeps its identifier or gets the documented one");
                reach(6);
            } else { reach(7); }
        }
        if r.children.is_empty() && strict { check(id[0] == 0, "Strict mode skips no frame"); reach(8); }
    }
    fn h_frame_v2() {
        let id = ascii_any(3);
        assume(id.as_bytes()[0] != 0);
        let mut fr = id.as_bytes().to_vec();
        fr.extend_from_slice(&[0, 0, 3, 0, b'2', b'1']);
        fr.extend_from_slice(&[b'T', b'T', b'2', 0, 0, 2, 0, b'x']);
        let t = mpeg_with(2, &fr, true);
        let Some(t) = t else { return };
        for f in t.clone() {
            let got = f.id_str();
            check(ok(got.as_bytes()), "every parsed frame has a valid identifier");
            if got != "TIT2" {
                match upgrade_v2(&id) { Some(u) => check(got == u, "ID3v2.2 frames are upgraded"), None => check(got == id && f.id().is_outdated(), "ID3v2.2 frames without counterpart stay outdated") }
                reach(9);
            }
        }
    }
    fn h_date() {
        let (y, d, m, h, mi): ([u8; 4], [u8; 2], [u8; 2], [u8; 2], [u8; 2]) = (bytes(), bytes(), bytes(), bytes(), bytes());
        let mut v = [0u32; 5];
        for (k, b) in [&y[..], &d, &m, &h, &mi].iter().enumerate() { for x in b.iter() { assume((*x >= b'0') & (*x <= b'9')); v[k] = v[k] * 10 + (*x - b'0') as u32; } }
        let frames = [text_frame(b"TYER", &y), text_frame(b"TDAT", &[&d[..], &m].concat()), text_frame(b"TIME", &[&h[..], &mi].concat())];
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choose(6)];
        let have = choose(4);
        let mut b = vec![];
        for i in order { if i == 0 || have & i != 0 { b.extend_from_slice(&frames[i]); } }
        let t = mpeg_with(3, &b, true);
        check(t.is_some(), "the tag is accepted");
        let Some(t) = t else { return };
        let mut n = 0;
        let mut other = 0;
        for f in t.clone() {
            if let Frame::Timestamp(f) = f {
                n += 1;
                let ts = f.timestamp;
                check(f.id().as_str() == "TDRC", "the date is a recording time");
                check(ts.year as u32 == v[0], "year");
                let date = have & 1 != 0;
                let time = date && have & 2 != 0;
                check(ts.day == if date { Some(v[1] as u8) } else { None }, "day");
                check(ts.month == if date { Some(v[2] as u8) } else { None }, "month");
                check(ts.hour == if time { Some(v[3] as u8) } else { None }, "hour");
                check(ts.minute == if time { Some(v[4] as u8) } else { None }, "minute");
                check(ts.second.is_none(), "no seconds");
                reach(10);
            } else { other += 1; }
        }
        check(n == 1, "one recording time");
        check(other == if have == 2 { 1 } else { 0 }, "the date frames that were combined are gone, others stay");
    }
    fn h_date_bad() {
        // anything may stand in TDAT and TIME, and TYER may hold a full timestamp
        let a = vec(choose(6));
        let c = vec(4);
        for x in &a { assume(*x != 0); }
        let full = choose(2) == 1;
        let year: &[u8] = if full { b"1999-08-07" } else { b"1999" };
        let b = [text_frame(b"TYER", year), text_frame(b"TDAT", &a), text_frame(b"TIME", &c)].concat();
        let Some(t) = mpeg_with(3, &b, true) else { return };
        let mut seen = false;
        for f in t.clone() {
            if let Frame::Timestamp(f) = f {
                seen = true;
                check(f.timestamp.year == 1999, "year is kept");
                if full { check(f.timestamp.month == Some(8) && f.timestamp.day == Some(7), "a full date is kept"); reach(11); }
                check(f.timestamp.hour.is_none() || f.timestamp.day.is_some(), "no time without a date");
            }
        }
        check(seen, "the recording time survives");
        reach(12);
    }
}
