//! bound: blocks of a vendor of up to 2 characters and up to 2 fields with keys of 1 or 2 allowed characters and values of 1 or 2 arbitrary characters, values of the named fields (track and disc numbers), one or two pictures with arbitrary types, descriptions and up to 4 bytes of data
//! bound: decoding of fields with arbitrary key and value bytes, in every parsing mode; as a FLAC block and in Ogg Vorbis, Opus and Speex, on one page or split over two
//! assume: texts hold no NUL and no byte order marks; fields with empty values are not written
use crate::sym::*;
use crate::util::*;
use lofty::flac::FlacFile;
use lofty::ogg::tag::VorbisComments;
use lofty::ogg::{OggPictureStorage, OpusFile, SpeexFile, VorbisFile};
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};

fn dump(t: &VorbisComments) -> Option<Vec<u8>> {
    let mut o = vec![];
    let r = t.dump_to(&mut o, WriteOptions::default());
    check(r.is_ok(), "comments are encoded");
    r.ok().map(|_| o)
}
fn block(vendor: &[u8], items: &[Vec<u8>]) -> Vec<u8> {
    let mut c = (vendor.len() as u32).to_le_bytes().to_vec();
    c.extend_from_slice(vendor);
    c.extend_from_slice(&(items.len() as u32).to_le_bytes());
    for i in items { c.extend_from_slice(&(i.len() as u32).to_le_bytes()); c.extend_from_slice(i); }
    c
}
fn opts(mode: usize) -> ParseOptions {
    ParseOptions::new().read_properties(false).implicit_conversions(false).parsing_mode([ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed][mode])
}
/// reads a comment block in one of the containers
fn read(b: &[u8], container: usize, o: ParseOptions) -> Option<VorbisComments> {
    if container == 0 {
        let mut v = b"fLaC\0\0\0\x22".to_vec();
        v.extend_from_slice(&[0; 34]);
        v.push(0x84);
        v.extend_from_slice(&(b.len() as u32).to_be_bytes()[1..]);
        v.extend_from_slice(b);
        let mut f = FlacFile::read_from(&mut Cursor::new(v), o).ok()?;
        return f.remove_vorbis_comments();
    }
    let (head, sig): (Vec<u8>, &[u8]) = match container {
        1 => ([&b"\x01vorbis\0\0\0\0\x02\x44\xac\0\0"[..], &[0; 12], b"\xb8\x01"].concat(), b"\x03vorbis"),
        2 => (b"OpusHead\x01\x02\0\0\x80\xbb\0\0\0\0\0".to_vec(), b"OpusTags"),
        _ => ([&b"Speex   1.2rc1"[..], &[0; 14], &[1, 0, 0, 0, 80, 0, 0, 0], &[0; 44]].concat(), b""),
    };
    let mut p = [sig, b].concat();
    if container == 1 { p.push(1); }
    let mut v = page(2, 0, 7, 0, &lace(head.len()), &head);
    let split = choose(2) == 1 && p.len() > 255;
    let mut seq = 2;
    if split {
        v.extend(page(0, u64::MAX, 7, 1, &[255], &p[..255]));
        v.extend(page(1, 0, 7, 2, &lace(p.len() - 255), &p[255..]));
        seq = 3;
    } else {
        v.extend(page(0, 0, 7, 1, &lace(p.len()), &p));
    }
    if container == 1 { v.extend(page(0, 0, 7, seq, &[8], b"\x05vorbis\x01")); seq += 1; }
    v.extend(page(4, 960, 7, seq, &[1], &[0]));
    let r = &mut Cursor::new(v);
    Some(match container {
        1 => VorbisFile::read_from(r, o).ok()?.vorbis_comments().clone(),
        2 => OpusFile::read_from(r, o).ok()?.vorbis_comments().clone(),
        _ => SpeexFile::read_from(r, o).ok()?.vorbis_comments().clone(),
    })
}
fn key(n: usize) -> String {
    let k = vec(n);
    for c in &k { assume((*c >= 0x20) & (*c <= 0x7d) & (*c != b'=')); }
    String::from_utf8(k).unwrap()
}
fn same_tag(a: &VorbisComments, vendor: &str, items: &[(String, String)]) {
    check(same_str(a.vendor(), vendor), "the vendor is the one encoded");
    check(a.items().len() == items.len(), "as many fields as were encoded");
    for ((k, v), (ek, ev)) in a.items().zip(items) {
        check(same_str(k, ek) && same_str(v, ev), "fields are decoded in order with their values");
    }
}
fn kv(k: &str, v: &str) -> Vec<u8> { [k.as_bytes(), b"=", v.as_bytes()].concat() }

harnesses! {
    fn h_fields() {
        let mut t = VorbisComments::new();
        let shape = choose(4);
        let vendor = text([1, 0, 0, 2][shape], [4, 1, 1, 2][shape]).0;
        t.set_vendor(vendor.clone());
        let mut items = vec![];
        match shape {
            0 => items.push((key(1), text(1, 1).0)),
            1 => { items.push((key(2), text(2, t_w()).0)); }
            2 => { items.push((key(1), text(1, 4).0)); items.push((key(1), text(1, 2).0)); }
            _ => {}
        }
        for (k, v) in &items { t.push(k.clone(), v.clone()); }
        let Some(b) = dump(&t) else { return };
        let enc: Vec<Vec<u8>> = items.iter().map(|(k, v)| kv(k, v)).collect();
        check(same(&b, &block(vendor.as_bytes(), &enc)), "lengths and counts match the contents");
        let Some(r) = read(&b, choose(4), opts(choose(3))) else { check(false, "what was encoded is decoded"); return };
        same_tag(&r, &vendor, &items);
        check(r.pictures().is_empty(), "no picture appears");
        if let Some(c) = dump(&r) { check(same(&b, &c), "encoding again gives the same bytes"); }
        reach(1);
    }
    fn h_named() {
        // fields with a meaning of their own, in any case
        let k = ["TRACKNUMBER", "DISCNUMBER", "tracknumber", "METADATA_BLOCK", "COVERAR", "coverartist", "TRACKTOTAL", "DATE"][choose(8)];
        let v = [text(2, 1).0, "1/2".into(), "05".into(), "x=y=".into()][choose(4)].clone();
        let mut t = VorbisComments::new();
        let items = vec![(k.to_string(), v), ("TRACKNUMBER".to_string(), "7".to_string()), ("A".into(), "b".into())];
        for (k, v) in &items { t.push(k.clone(), v.clone()); }
        let Some(b) = dump(&t) else { return };
        let Some(r) = read(&b, choose(4), opts(choose(3))) else { check(false, "what was encoded is decoded"); return };
        let items: Vec<_> = items.into_iter().map(|(k, v)| (if k == "tracknumber" { "TRACKNUMBER".into() } else { k }, v)).collect();
        same_tag(&r, "", &items);
        reach(1);
    }
    fn h_convert() {
        // implicit conversions split number/total
        let (a, c): ([u8; 2], [u8; 2]) = (bytes(), bytes());
        for d in a.iter().chain(&c) { assume((*d >= b'0') & (*d <= b'9')); }
        let n = 1 + choose(2);
        let s = |d: &[u8]| String::from_utf8(d.to_vec()).unwrap();
        let num = |d: &[u8]| d.iter().fold(0u32, |x, y| x * 10 + (*y - b'0') as u32);
        let disc = choose(2) == 1;
        let total = choose(2) == 1;
        let v = if total { s(&a[..n]) + "/" + &s(&c) } else { s(&a[..n]) };
        let b = block(b"", &[kv(if disc { "discnumber" } else { "TRACKNUMBER" }, &v), kv("X", "y")]);
        let Some(r) = read(&b, 0, opts(choose(3)).implicit_conversions(true)) else { check(false, "what was encoded is decoded"); return };
        let (x, y) = if disc { (r.disk(), r.disk_total()) } else { (r.track(), r.track_total()) };
        check(x == Some(num(&a[..n])), "the number is the one before the slash");
        check(y == total.then(|| num(&c)), "the total is the one after the slash");
        check(r.get("X") == Some("y") && r.items().len() == 2 + total as usize, "no other field appears or is lost");
        reach(1);
    }
    fn h_decode() {
        // arbitrary field bytes
        let n = choose(4);
        let f = vec(n);
        let mode = choose(3);
        let b = block(b"v", &[f.clone(), b"K=v".to_vec()]);
        let r = read(&b, 0, opts(mode));
        let eq = f.iter().position(|c| decide(*c == b'='));
        let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let mut strict_err = false;
        if let Some(p) = eq {
            let ok = f[..p].iter().all(|c| decide((*c >= 0x20) & (*c <= 0x7d)));
            let utf = std::str::from_utf8(&f[p + 1..]).is_ok();
            if ok && utf && p > 0 { want.push((f[..p].to_vec(), f[p + 1..].to_vec())); } else { strict_err = true; }
            if p == 0 { return; }
        }
        want.push((b"K".to_vec(), b"v".to_vec()));
        let Some(r) = r else { check(mode == 0 && strict_err, "only strict mode rejects an invalid field"); return };
        check(mode != 0 || !strict_err, "strict mode rejects an invalid field");
        check(r.items().len() == want.len(), "invalid fields are left out, all others kept");
        for ((k, v), (wk, wv)) in r.items().zip(&want) {
            let trimmed: &[u8] = { let mut e = wv.len(); while e > 0 && decide(wv[e - 1] == 0) { e -= 1; } &wv[..e] };
            check(same(k.as_bytes(), wk) && same(v.as_bytes(), trimmed), "fields are decoded in order with their values");
        }
        reach(1);
    }
    fn h_pictures() {
        let mut t = VorbisComments::new();
        t.push("A".into(), "b".into());
        let n = 1 + choose(2);
        let mut want = vec![];
        for i in 0..n {
            let ty = if i == 0 { u8() } else { 3 };
            assume(ty <= 20);
            let mut b = Picture::unchecked(vec([3, 0][i])).pic_type(PictureType::from_u8(ty)).mime_type([MimeType::Png, MimeType::Jpeg][i].clone());
            if i == 0 && choose(2) == 1 { b = b.description(String::from("de")); }
            let p = b.build();
            let info = if i == 0 { PictureInformation { width: u32(), height: 2, color_depth: 24, num_colors: u32() } } else { PictureInformation::default() };
            let _ = t.insert_picture(p.clone(), Some(info));
            want.push((p, info));
        }
        let Some(b) = dump(&t) else { return };
        let Some(r) = read(&b, choose(4), opts(0)) else { check(false, "what was encoded is decoded"); return };
        check(r.items().len() == 1 && r.get("A") == Some("b"), "pictures do not appear as fields");
        check(r.pictures().len() == n, "as many pictures as were encoded");
        for ((p, i), (w, wi)) in r.pictures().iter().zip(&want) {
            check(same(p.data(), w.data()) && p.pic_type().as_u8() == w.pic_type().as_u8() && p.mime_type() == w.mime_type() && p.description() == w.description(), "pictures are decoded unchanged");
            check((i.width == wi.width) & (i.height == wi.height) & (i.color_depth == wi.color_depth) & (i.num_colors == wi.num_colors), "picture information is decoded unchanged");
        }
        reach(1);
    }
    fn h_long() {
        // lengths beyond one byte and one lacing value
        let n = [254, 255, 256, 300, 65536][choose(5)];
        let mut v = vec![b'v'; n];
        v[0] = ascii(); v[n - 1] = ascii(); v[n / 2] = ascii();
        let v = String::from_utf8(v).unwrap();
        let mut t = VorbisComments::new();
        t.push("K".into(), v.clone());
        t.push("L".into(), "w".into());
        let Some(b) = dump(&t) else { return };
        if n > 300 { let Some(r) = read(&b, 0, opts(0)) else { check(false, "what was encoded is decoded"); return }; same_tag(&r, "", &[("K".into(), v), ("L".into(), "w".into())]); return; }
        let Some(r) = read(&b, choose(4), opts(0)) else { check(false, "what was encoded is decoded"); return };
        same_tag(&r, "", &[("K".into(), v), ("L".into(), "w".into())]);
        reach(1);
    }
}
fn t_w() -> usize { t(2, 4) }
