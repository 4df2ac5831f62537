//! bound: strings of up to 2 (thorough 3) arbitrary Unicode scalar values (every width; NUL and the byte order marks U+FEFF and U+FFFE excluded), in Latin-1, UTF-16 with BOM, UTF-16BE and UTF-8, exact and lossy
//! bound: arbitrary byte strings of up to 6 (thorough 8) bytes in every encoding, unterminated, and as description plus content
//! assume: observed through the text, user text and comment frames of ID3v2
use crate::sym::*;
use crate::util::*;
use lofty::TextEncoding;
use lofty::id3::v2::{CommentFrame, ExtendedTextFrame, FrameFlags, FrameId, Id3v2Version, TextInformationFrame};
use std::borrow::Cow;

const ENC: [TextEncoding; 4] = [TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF16BE, TextEncoding::UTF8];
const TIT2: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TIT2"));
fn opts(lossy: bool) -> WriteOptions { WriteOptions::new().lossy_text_encoding(lossy) }
fn lat(cps: &[u32]) -> bool { cps.iter().fold(true, |a, c| a & (c & 0xff_ffff <= 0xff)) }
fn parse_text(b: &[u8]) -> Option<String> {
    match TextInformationFrame::parse(&mut &b[..], TIT2, FrameFlags::default(), Id3v2Version::V4) { Ok(Some(f)) => Some(f.value.into_owned()), _ => None }
}
fn enc_of(k: usize, s: &str, cps: &[u32]) -> Vec<u8> {
    match k {
        0 => cps.iter().map(|c| *c as u8).collect(),
        1 => { let mut v = vec![0xff, 0xfe]; v.extend(utf16(cps, false)); v }
        2 => utf16(cps, true),
        _ => s.as_bytes().to_vec(),
    }
}
/// Text without trailing NUL characters
fn trimmed(b: &[u8]) -> &[u8] { let mut n = b.len(); while n > 0 && decide(b[n - 1] == 0) { n -= 1; } &b[..n] }

harnesses! {
    fn h_encode() {
        let k = choose(4);
        let (s, cps) = text(choose(t(3, 4)), 4);
        let r = TextInformationFrame::new(TIT2, ENC[k], s.clone()).as_bytes(opts(false));
        if k == 0 && !decide(lat(&cps)) {
            check(r.is_err(), "text that Latin-1 cannot hold is an error");
            reach(1);
            return;
        }
        check(r.is_ok(), "representable text is encoded");
        let Ok(b) = r else { return };
        check(b[0] as usize == k, "encoding byte");
        check(same(&b[1..], &enc_of(k, &s, &cps)), "encoded bytes are those of the encoding");
        let back = parse_text(&b);
        check(matches!(&back, Some(x) if same_str(x, &s)), "text round trip");
        reach(2);
    }
    fn h_encode_v23() {
        // UTF-8 and UTF-16BE become UTF-16 in ID3v2.3
        let k = choose(4);
        let (s, cps) = text(choose(3), 4);
        if k == 0 { assume(lat(&cps)); }
        let r = TextInformationFrame::new(TIT2, ENC[k], s.clone()).as_bytes(opts(false).use_id3v23(true));
        check(r.is_ok(), "representable text is encoded");
        let Ok(b) = r else { return };
        check(b[0] == if k == 0 { 0 } else { 1 }, "ID3v2.3 has only Latin-1 and UTF-16");
        check(same(&b[1..], &enc_of(if k == 0 { 0 } else { 1 }, &s, &cps)), "encoded bytes");
        check(matches!(&parse_text(&b), Some(x) if same_str(x, &s)), "text round trip");
        reach(3);
    }
    fn h_lossy() {
        let (s, cps) = text(choose(t(3, 4)), 4);
        let r = TextInformationFrame::new(TIT2, TextEncoding::Latin1, s).as_bytes(opts(true));
        check(r.is_ok(), "lossy encoding succeeds");
        let Ok(b) = r else { return };
        check(b.len() == 1 + cps.len(), "one byte per character");
        for (i, c) in cps.iter().enumerate() {
            let c = c & 0xff_ffff;
            check((b[1 + i] as u32 == c) | ((c > 0xff) & (b[1 + i] == b'?')), "unrepresentable characters become question marks, others stay");
        }
        reach(4);
    }
    fn h_bom() {
        // both byte orders decode
        let (s, cps) = text(choose(t(3, 4)), 4);
        let be = choose(2) == 1;
        let mut b = vec![1];
        b.extend_from_slice(if be { &[0xfe, 0xff] } else { &[0xff, 0xfe] });
        b.extend(utf16(&cps, be));
        check(matches!(&parse_text(&b), Some(x) if same_str(x, &s)), "UTF-16 follows its byte order mark");
        reach(5);
    }
    fn h_terminated() {
        // description and content of a user text frame are split exactly at the terminator
        let k = choose(4);
        let (d, dc) = text(choose(t(2, 3)), 4);
        let (c, cc) = text(choose(t(2, 3)), 4);
        if k == 0 { assume(lat(&dc) & lat(&cc)); }
        let r = ExtendedTextFrame::new(ENC[k], d.clone(), c.clone()).as_bytes(opts(false));
        check(r.is_ok(), "user text is encoded");
        let Ok(b) = r else { return };
        let mut want = vec![k as u8];
        want.extend(enc_of(k, &d, &dc));
        want.push(0);
        if k == 1 || k == 2 { want.push(0); }
        want.extend(enc_of(k, &c, &cc));
        check(same(&b, &want), "encoded user text");
        let f = ExtendedTextFrame::parse(&mut &b[..], FrameFlags::default(), Id3v2Version::V4);
        match f {
            Ok(Some(f)) => { check(same_str(&f.description, &d), "description round trip"); check(same_str(&f.content, &c), "content round trip"); reach(6); }
            _ => check(false, "user text decodes"),
        }
    }
    fn h_comment() {
        let k = choose(4);
        let (d, dc) = text(choose(2), 4);
        let (c, cc) = text(choose(t(2, 3)), 4);
        if k == 0 { assume(lat(&dc) & lat(&cc)); }
        let r = CommentFrame::new(ENC[k], *b"eng", d.clone(), c.clone()).as_bytes(opts(false));
        check(r.is_ok(), "comment is encoded");
        let Ok(b) = r else { return };
        match CommentFrame::parse(&mut &b[..], FrameFlags::default(), Id3v2Version::V4) {
            Ok(Some(f)) => { check(f.language == *b"eng", "language"); check(same_str(&f.description, &d), "description round trip"); check(same_str(&f.content, &c), "content round trip"); reach(7); }
            _ => check(false, "comment decodes"),
        }
        // a second byte order mark is optional, and may differ
        if k == 1 {
            let be = choose(2) == 1;
            let mut b = vec![1, b'e', b'n', b'g'];
            b.extend_from_slice(if be { &[0xfe, 0xff] } else { &[0xff, 0xfe] });
            b.extend(utf16(&dc, be));
            b.extend_from_slice(&[0, 0]);
            let be2 = match choose(3) { 0 => be, 1 => { b.extend_from_slice(&[0xfe, 0xff]); true } _ => { b.extend_from_slice(&[0xff, 0xfe]); false } };
            b.extend(utf16(&cc, be2));
            match CommentFrame::parse(&mut &b[..], FrameFlags::default(), Id3v2Version::V4) {
                Ok(Some(f)) => { check(same_str(&f.description, &d), "description with either byte order"); check(same_str(&f.content, &c), "content with own or inherited byte order"); reach(8); }
                _ => check(false, "comment with either byte order decodes"),
            }
        }
    }
    fn h_decode_any() {
        let mut b = vec(1 + choose(t(7, 9)));
        let k = b[0];
        b[0] = conc(k as u64) as u8;
        let r = parse_text(&b);
        let Some(s) = r else {
            check(b[0] != 0, "every Latin-1 byte string decodes");
            return;
        };
        check(b[0] < 4, "unknown encodings are rejected");
        let body = &b[1..];
        match b[0] {
            0 => {
                let body = trimmed(body);
                let cs: Vec<u8> = s.chars().map(|c| c as u32 as u8).collect();
                check(same(&cs, body), "Latin-1 maps bytes to the same code points");
                reach(9);
            }
            3 => { check(same(s.as_bytes(), trimmed(body)), "UTF-8 is taken as is"); reach(10); }
            2 => {
                check(s.len() <= 3 * (body.len() / 2), "no more text than code units");
                reach(11);
            }
            _ => { if body.len() >= 2 { check(((body[0] == 0xff) & (body[1] == 0xfe)) | ((body[0] == 0xfe) & (body[1] == 0xff)), "UTF-16 needs a byte order mark"); reach(12); } }
        }
    }
    fn h_decode_any_pair() {
        let mut b = vec![choose(4) as u8];
        b.extend_from_slice(&vec(choose(t(6, 8))));
        if choose(2) == 0 {
            if let Ok(Some(_)) = ExtendedTextFrame::parse(&mut &b[..], FrameFlags::default(), Id3v2Version::V3) { reach(13); }
        } else {
            b.splice(1..1, *b"eng");
            if let Ok(Some(_)) = CommentFrame::parse(&mut &b[..], FrameFlags::default(), Id3v2Version::V3) { reach(14); }
        }
    }
}
