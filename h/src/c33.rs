//! bound: pictures with every type byte, the five known MIME types, none, or an unknown one with two arbitrary letters; descriptions of 0 to 2 (thorough: 3) arbitrary characters; 0 to 6 bytes of arbitrary data behind the image signatures; every dimension, depth and colour count
//! bound: base64: the same block with three arbitrary bytes; image headers: every field arbitrary, up to two other segments or chunks of 0 to 300 bytes in front
//! bound: malformed blocks and images: up to 12 arbitrary bytes behind a valid beginning, truncation at every point
//! assume: the palette's own depth is what is reported for indexed PNG images; the first JPEG segment is not a frame header
//! secs: 60
use crate::sym::*;
use crate::util::*;
use lofty::config::{apply_global_options, GlobalOptions};
use lofty::id3::v2::{AttachedPictureFrame, FrameFlags, Id3v2Version};
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType, APE_PICTURE_TYPES};
use lofty::TextEncoding;

const MIMES: [&str; 5] = ["image/png", "image/jpeg", "image/tiff", "image/bmp", "image/gif"];
const EXTS: [&str; 5] = ["png", "jpg", "tif", "bmp", "gif"];
fn known(i: usize) -> MimeType { match i { 0 => MimeType::Png, 1 => MimeType::Jpeg, 2 => MimeType::Tiff, 3 => MimeType::Bmp, _ => MimeType::Gif } }
const SIGS: [&[u8]; 7] = [b"\x89PNG\r\n\x1a\n", b"\xff\xd8", b"II*\0", b"BM", b"GIF87a", b"GIF89a", b"MM\0*"];
const SIG_MIME: [usize; 7] = [0, 1, 2, 3, 4, 4, 2];
fn mime() -> (Option<MimeType>, String) {
    match choose(7) {
        6 => (None, String::new()),
        5 => { let s = String::from("image/x-") + &ascii_str(2); (Some(MimeType::Unknown(s.clone())), s) }
        i => (Some(known(i)), MIMES[i].into()),
    }
}
fn picture(ty: u8, m: &Option<MimeType>, d: &str, data: &[u8]) -> Picture {
    let mut b = Picture::unchecked(data.to_vec()).pic_type(PictureType::from_u8(ty));
    if let Some(m) = m { b = b.mime_type(m.clone()); }
    if !d.is_empty() { b = b.description(d.to_string()); }
    b.build()
}
fn eq(p: &Picture, ty: u8, ms: &str, d: &str, data: &[u8]) {
    check(p.pic_type().as_u8() == ty, "picture type");
    check(match p.mime_type() { None => ms.is_empty(), Some(m) => !ms.is_empty() && same_str(m.as_str(), ms) }, "MIME type");
    check(match p.description() { None => d.is_empty(), Some(x) => !d.is_empty() && same_str(x, d) }, "description");
    check(same(p.data(), data), "picture data");
}
fn block(ty: u32, ms: &str, d: &[u8], i: [u32; 4], data: &[u8]) -> Vec<u8> {
    let mut v = ty.to_be_bytes().to_vec();
    v.extend_from_slice(&(ms.len() as u32).to_be_bytes());
    v.extend_from_slice(ms.as_bytes());
    v.extend_from_slice(&(d.len() as u32).to_be_bytes());
    v.extend_from_slice(d);
    for x in i { v.extend_from_slice(&x.to_be_bytes()); }
    v.extend_from_slice(&(data.len() as u32).to_be_bytes());
    v.extend_from_slice(data);
    v
}
fn info(i: [u32; 4]) -> PictureInformation { let mut p = PictureInformation::default(); p.width = i[0]; p.height = i[1]; p.color_depth = i[2]; p.num_colors = i[3]; p }
fn mode() -> ParsingMode { match choose(3) { 0 => ParsingMode::Strict, 1 => ParsingMode::BestAttempt, _ => ParsingMode::Relaxed } }
fn b64(v: &[u8]) -> Vec<u8> {
    let c = |x: u8| -> u8 { let x = x & 63; if x < 26 { b'A' + x } else if x < 52 { b'a' + (x - 26) } else if x < 62 { b'0' + (x - 52) } else if x == 62 { b'+' } else { b'/' } };
    let mut o = vec![];
    for q in v.chunks(3) {
        let (a, b, d) = (q[0], *q.get(1).unwrap_or(&0), *q.get(2).unwrap_or(&0));
        o.push(c(a >> 2));
        o.push(c(a << 4 | b >> 4));
        o.push(if q.len() > 1 { c(b << 2 | d >> 6) } else { b'=' });
        o.push(if q.len() > 2 { c(d) } else { b'=' });
    }
    o
}

harnesses! {
    fn h_block() {
        let ty = u8();
        let (m, ms) = mime();
        let (d, _) = text(choose(t(3, 4)), 4);
        let i = [u32(), u32(), u32(), u32()];
        let data = vec(choose(3) * 3);
        let p = picture(ty, &m, &d, &data);
        let v = p.as_flac_bytes(info(i), false);
        check(same(&v, &block(ty as u32, &ms, d.as_bytes(), i, &data)), "the picture block layout");
        let r = Picture::from_flac_bytes(&v, false, mode());
        check(r.is_ok(), "an encoded picture block is decoded");
        let Ok((q, j)) = r else { return };
        eq(&q, ty, &ms, &d, &data);
        check(j.width == i[0] && j.height == i[1] && j.color_depth == i[2] && j.num_colors == i[3], "picture information");
        reach(1);
    }
    fn h_base64() {
        let ty = u8();
        let data = vec(choose(3));
        let p = picture(ty, &Some(MimeType::Png), "d", &data);
        let i = [1, 2, 3, 4];
        let raw = block(ty as u32, "image/png", b"d", i, &data);
        let v = p.as_flac_bytes(info(i), true);
        check(same(&v, &b64(&raw)), "base64 of the picture block");
        let r = Picture::from_flac_bytes(&v, true, mode());
        check(r.is_ok(), "an encoded picture is decoded");
        let Ok((q, j)) = r else { return };
        eq(&q, ty, "image/png", "d", &data);
        check(j.width == 1 && j.height == 2 && j.color_depth == 3 && j.num_colors == 4, "picture information");
        reach(1);
    }
    fn h_block_bad() {
        let m = mode();
        match choose(4) {
            0 => {
                let n = u32();
                let v = block(n, "image/png", b"dd", [1; 4], &[7; 3]);
                let r = Picture::from_flac_bytes(&v, false, m);
                check(r.is_ok() == (n <= 255 || m != ParsingMode::Strict), "picture types are bytes");
                if let Ok((p, _)) = r { check(p.pic_type().as_u8() == n as u8, "picture type"); }
                reach(1);
            }
            1 => {
                // cut off
                let mut v = block(3, "image/png", b"dd", [1; 4], &[7; 3]);
                let n = choose(v.len());
                v.truncate(n);
                check(Picture::from_flac_bytes(&v, false, m).is_err(), "a truncated picture block is refused");
                reach(2);
            }
            2 => {
                // any lengths
                let mut v = block(3, "image/png", b"dd", [1; 4], &[7; 3]);
                let at = [4usize, 17, 39][choose(3)];
                let n: [u8; 4] = bytes();
                let x = be32(&n);
                v[at..at + 4].copy_from_slice(&n);
                let r = Picture::from_flac_bytes(&v, false, m);
                if let Ok((p, _)) = r { check(p.data().len() <= v.len(), "no data is invented"); if at == 39 { check(x <= 3 && p.data().len() == x as usize, "picture length"); } }
                else if at == 39 { check(x > 3, "data that is there is decoded"); }
                reach(3);
            }
            _ => {
                let mut v = block(3, "", b"", [0; 4], &[7; 4]);
                let n = v.len();
                let at = [4usize, 8, 12, 24, n - 12][choose(5)];
                for k in 0..t(8, 12) { v[at + k] = u8(); }
                let _ = Picture::from_flac_bytes(&v, false, m);
                reach(4);
            }
        }
    }
    fn h_base64_bad() {
        let n = choose(7);
        let v = vec(n);
        for b in &v { let _ = conc((*b == b'=') as u64); }
        let _ = Picture::from_flac_bytes(&v, true, mode());
        reach(1);
    }
    fn h_ape() {
        let ty = choose(21) as u8;
        let s = choose(7);
        let mut data = SIGS[s].to_vec();
        data.extend(vec(6 + choose(2)));
        let (d, _) = text(choose(t(3, 4)), 4);
        let p = picture(ty, &Some(known(SIG_MIME[s])), &d, &data);
        let v = p.as_ape_bytes();
        let mut want = d.as_bytes().to_vec();
        want.push(0);
        want.extend_from_slice(&data);
        check(same(&v, &want), "the APE picture layout");
        let pt = PictureType::from_u8(ty);
        let k = pt.as_ape_key();
        check(k == Some(APE_PICTURE_TYPES[ty as usize]), "each picture type has its APE key");
        let r = Picture::from_ape_bytes(k.unwrap_or(""), &v);
        check(r.is_ok(), "an encoded APE picture is decoded");
        let Ok(q) = r else { return };
        eq(&q, ty, MIMES[SIG_MIME[s]], &d, &data);
        reach(1);
    }
    fn h_ape_bad() {
        let v = vec(choose(t(12, 18)));
        let r = Picture::from_ape_bytes("Cover Art (Front)", &v);
        if let Ok(p) = r { check(p.data().len() >= 8 && p.data().len() < v.len(), "no data is invented"); reach(1); }
        reach(2);
    }
    fn h_id3v2() {
        let ty = u8();
        let (m, ms) = mime();
        let (d, cps) = text(choose(3), 3);
        let data = vec(choose(2) * 5);
        let e = [TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF16BE, TextEncoding::UTF8][choose(4)];
        let v3 = choose(2) == 1;
        let latin = cps.iter().fold(true, |a, c| a & (c & 0xff_ffff < 256));
        let f = AttachedPictureFrame::new(e, picture(ty, &m, &d, &data));
        let r = f.as_bytes(WriteOptions::default().use_id3v23(v3).lossy_text_encoding(false));
        check(r.is_ok() == (e != TextEncoding::Latin1 || latin), "representable pictures are encoded");
        let Ok(v) = r else { reach(2); return };
        let ver = if v3 { Id3v2Version::V3 } else { Id3v2Version::V4 };
        let r = AttachedPictureFrame::parse(&mut &v[..], FrameFlags::default(), ver);
        check(r.is_ok(), "an encoded picture frame is decoded");
        let Ok(g) = r else { return };
        eq(&g.picture, ty, &ms, &d, &data);
        reach(1);
    }
    fn h_pic() {
        let k = choose(3);
        let ty = u8();
        let data = vec(4);
        let mut v = vec![0];
        let f: [u8; 3] = bytes();
        if k < 2 { assume(same(&f, if k == 0 { b"PNG" } else { b"JPG" })); } else { assume(!same(&f, b"PNG") & !same(&f, b"JPG")); }
        v.extend_from_slice(&f);
        v.push(ty);
        v.extend_from_slice(b"d\0");
        v.extend_from_slice(&data);
        let r = AttachedPictureFrame::parse(&mut &v[..], FrameFlags::default(), Id3v2Version::V2);
        if k == 2 { check(r.is_err(), "unknown image formats are refused"); reach(1); return; }
        check(r.is_ok(), "an ID3v2.2 picture is decoded");
        let Ok(g) = r else { return };
        eq(&g.picture, ty, MIMES[k], "d", &data);
        reach(2);
    }
    fn h_sniff() {
        let n = 6 + choose(5);
        let v = vec(n);
        let r = Picture::from_reader(&mut &v[..]);
        if n < 8 { check(r.is_err(), "images have at least 8 bytes"); reach(1); return; }
        let at = |s: &[u8]| same(&v[..s.len()], s);
        let mut want = 9;
        for s in 0..7 { if decide(at(SIGS[s])) { want = SIG_MIME[s]; } }
        check(r.is_ok() == (want < 9), "images are recognised by their signature");
        let Ok(p) = r else { reach(2); return };
        check(p.mime_type() == Some(&known(want)), "MIME type of the signature");
        check(same(p.data(), &v) && p.description().is_none() && p.pic_type() == PictureType::Other, "picture content");
        reach(3);
    }
    fn h_png() {
        let (w, h, depth, ct) = (u32(), u32(), u8(), u8());
        let mut v = SIGS[0].to_vec();
        v.extend_from_slice(&[0, 0, 0, 13]);
        v.extend_from_slice(b"IHDR");
        v.extend_from_slice(&w.to_be_bytes());
        v.extend_from_slice(&h.to_be_bytes());
        v.extend_from_slice(&[depth, ct, 0, 0, 0, 1, 2, 3, 4]);
        for _ in 0..choose(3) {
            let n = [0usize, 4, 300][choose(3)];
            v.extend_from_slice(&(n as u32).to_be_bytes());
            let name: [u8; 4] = bytes();
            assume(!same(&name, b"PLTE"));
            v.extend_from_slice(&name);
            v.extend(vec![0x51; n + 4]);
        }
        let n = u8();
        let plte = choose(2) == 1;
        if plte { v.extend_from_slice(&(n as u32 * 3).to_be_bytes()); v.extend_from_slice(b"PLTE"); v.extend_from_slice(&[1; 12]); }
        let r = if choose(2) == 1 { PictureInformation::from_png(&v) } else { PictureInformation::from_picture(&picture(0, &None, "", &v)) };
        check(r.is_ok(), "a PNG header is decoded");
        let Ok(p) = r else { return };
        check(p.width == w && p.height == h, "PNG dimensions");
        let ch = if ct == 2 { 3 } else if ct == 4 { 2 } else if ct == 6 { 4 } else { 1 };
        check(p.color_depth == depth as u32 * ch, "PNG colour depth");
        check(p.num_colors == if plte && ct == 3 { n as u32 } else { 0 }, "PNG palette size");
        reach(1);
    }
    fn h_png_bad() {
        let mut v = SIGS[0].to_vec();
        v.extend_from_slice(b"\0\0\0\x0dIHDR\0\0\0\x01\0\0\0\x01\x08\x03\0\0\0\x01\x02\x03\x04");
        match choose(3) {
            0 => { let n = choose(v.len()); v.truncate(n); let r = PictureInformation::from_png(&v); check(r.is_ok() == (n >= 26), "a truncated header is refused"); if n >= 8 { check(PictureInformation::from_picture(&picture(0, &None, "", &v)).is_ok(), "unusable headers give no information"); } }
            1 => { let k = choose(16); let x = u8(); if k < 8 || k > 11 { assume(x != v[k]); v[k] = x; check(PictureInformation::from_png(&v).is_err(), "other signatures are refused"); } }
            _ => {
                // chunks of any claimed length
                for _ in 0..2 { let a: [u8; 4] = bytes(); v.extend_from_slice(&a); v.extend_from_slice(b"PLTX"); v.extend_from_slice(&[0; 5]); }
                let _ = PictureInformation::from_png(&v);
            }
        }
        reach(1);
    }
    fn h_jpeg() {
        let mut v = vec![0xff, 0xd8, 0xff, 0xe0];
        let n = [0usize, 14, 300][choose(3)];
        v.extend_from_slice(&(n as u16 + 2).to_be_bytes());
        v.extend(vec![0x41; n]);
        for _ in 0..choose(3) {
            let n = [0usize, 65, 256][choose(3)];
            let m = u8();
            assume((m != 0xc0) & (m != 0xc2) & (m != 0xda) & (m != 0xc1) & (m != 0xff));
            v.extend_from_slice(&[0xff, m]);
            v.extend_from_slice(&(n as u16 + 2).to_be_bytes());
            v.extend(vec![0xc0; n]);
        }
        let (prec, h, w, comp) = (u8(), u16(), u16(), u8());
        v.extend_from_slice(&[0xff, [0xc0, 0xc2][choose(2)], 0, 17, prec]);
        v.extend_from_slice(&h.to_be_bytes());
        v.extend_from_slice(&w.to_be_bytes());
        v.push(comp);
        let r = if choose(2) == 1 { PictureInformation::from_jpeg(&v) } else { PictureInformation::from_picture(&picture(0, &None, "", &v)) };
        check(r.is_ok(), "a JPEG header is decoded");
        let Ok(p) = r else { return };
        check(p.width == w as u32 && p.height == h as u32, "JPEG dimensions");
        check(p.color_depth == prec as u32 * comp as u32 && p.num_colors == 0, "JPEG colour depth");
        reach(1);
    }
    fn h_jpeg_bad() {
        let mut v = vec![0xff, 0xd8, 0xff, 0xe0, 0, 4, 1, 1];
        v.extend(vec(t(9, 14)));
        if choose(2) == 1 { let n = choose(v.len()); v.truncate(n); }
        let a = PictureInformation::from_jpeg(&v);
        let b = PictureInformation::from_picture(&picture(0, &None, "", &v));
        check(b.is_ok() == (v.len() >= 8), "unusable headers give no information");
        if let (Ok(a), Ok(b)) = (a, b) { check(a.width == b.width && a.height == b.height && a.color_depth == b.color_depth, "both ways agree"); reach(1); }
        let x: [u8; 2] = bytes();
        let _ = PictureInformation::from_jpeg(&[0xff, 0xd8, 0xff, 0xe0, x[0], x[1], 0, 0]);
        reach(2);
    }
    fn h_other_images() {
        let v = vec(8);
        assume(!(same(&v[..4], &SIGS[0][..4]) | same(&v[..3], &[0xff, 0xd8, 0xff])));
        let r = PictureInformation::from_picture(&picture(0, &None, "", &v));
        check(matches!(r, Ok(p) if p.width == 0 && p.height == 0 && p.color_depth == 0 && p.num_colors == 0), "other images give no information");
        reach(1);
    }
    fn h_tables() {
        let i = choose(5);
        let m = known(i);
        check(same_str(m.as_str(), MIMES[i]) && m.ext() == Some(EXTS[i]), "names of image formats");
        check(MimeType::from_str(MIMES[i]) == m && MimeType::from_str(&MIMES[i].to_uppercase()) == m, "MIME types are recognised");
        check(MimeType::from_str("image/jpg") == MimeType::Jpeg, "image/jpg is a JPEG");
        let u = MimeType::from_str("image/Webp");
        check(same_str(u.as_str(), "image/Webp") && u.ext().is_none(), "unknown MIME types are kept");
        let b = u8();
        check(PictureType::from_u8(b).as_u8() == b, "picture types are bytes");
        let k = choose(22);
        if k < 21 {
            check(PictureType::from_ape_key(APE_PICTURE_TYPES[k]).as_u8() == k as u8, "APE picture keys");
        } else {
            check(PictureType::from_ape_key("Cover Art (Else)") == PictureType::Undefined(0), "unknown APE picture keys");
            check(PictureType::from_u8(21 + b % 200).as_ape_key().is_none(), "undefined types have no APE key");
        }
        reach(1);
    }
    fn h_limit() {
        // sizes above the configured limit are errors
        let n = u8();
        apply_global_options(GlobalOptions::new().allocation_limit(n as usize));
        let v = block(3, "image/png", b"dd", [1; 4], &[7; 5]);
        let r = Picture::from_flac_bytes(&v, false, ParsingMode::Strict);
        check(r.is_ok() == (n >= 5), "the allocation limit applies to picture data");
        reach(1);
    }
}
