//! bound: tags of one to three atoms of one to three values: text of up to three arbitrary characters (UTF-8 and UTF-16), every 32-bit integer, booleans, pictures of every supported type, data of every other 24-bit type; any four-character identifier of the allowed characters, freeform identifiers of up to two characters each
//! bound: decoding: text, integers of 1 to 5 bytes, flags of 1 to 3 bytes, gnre, plID, covr, empty data, foreign children and type sets, in lists with up to 12 bytes of extra data
//! assume: values are not empty; identifiers with a meaning of their own (free, skip, covr, gnre, plID and the flags) only hold values of their kind
use crate::sym::*;
use crate::util::*;
use lofty::mp4::{Atom, AtomData, AtomIdent, DataType, Ilst, Mp4File};
use lofty::picture::{MimeType, Picture, PictureType};
use std::borrow::Cow;

fn atom(id: &[u8; 4], parts: &[&[u8]]) -> Vec<u8> {
    let n: usize = parts.iter().map(|p| p.len()).sum();
    let mut v = (n as u32 + 8).to_be_bytes().to_vec();
    v.extend_from_slice(id);
    for p in parts { v.extend_from_slice(p); }
    v
}
fn data(code: u32, b: &[u8]) -> Vec<u8> { atom(b"data", &[&code.to_be_bytes(), &[0; 4], b]) }
fn file(ilst: &[u8]) -> Vec<u8> {
    let mut v = atom(b"ftyp", &[b"M4A \0\0\0\0mp42"]);
    v.extend(atom(b"moov", &[&atom(b"udta", &[&atom(b"meta", &[&[0; 4], ilst])])]));
    v
}
fn opts() -> ParseOptions { ParseOptions::new().read_properties(false) }
fn read(f: Vec<u8>, o: ParseOptions) -> Option<Ilst> { Mp4File::read_from(&mut Cursor::new(f), o).ok().and_then(|mut x| { x.remove_ilst() }) }
fn picture(mime: Option<MimeType>, d: Vec<u8>) -> Picture {
    let p = Picture::unchecked(d).pic_type(PictureType::Other);
    match mime { Some(m) => p.mime_type(m), None => p }.build()
}
/// A value, its type code, its payload as the format defines it
fn value(kind: usize) -> (AtomData, u32, Vec<u8>) {
    match kind {
        0 => { let (s, _) = text(1 + choose(2), t(3, 4)); let b = s.as_bytes().to_vec(); (AtomData::UTF8(s), 1, b) }
        1 => { let (s, c) = text(1 + choose(t(1, 2)), 4); let b = utf16(&c, true); (AtomData::UTF16(s), 2, b) }
        2 => { let x = u32() as i32; (AtomData::SignedInteger(x), 21, x.to_be_bytes().to_vec()) }
        3 => {
            let x = u32();
            let b = x.to_be_bytes();
            let n = if decide(x < 0x100) { 1 } else if decide(x < 0x10000) { 2 } else { 4 };
            (AtomData::UnsignedInteger(x), 22, b[4 - n..].to_vec())
        }
        _ => {
            let c = u32();
            assume((c <= 0xff_ffff) & (c != 1) & (c != 2) & (c != 21) & (c != 22));
            let d = vec(1 + choose(3));
            (AtomData::Unknown { code: DataType::from(c), data: d.clone() }, c, d)
        }
    }
}
fn same_value(a: &AtomData, b: &AtomData) -> bool {
    match (a, b) {
        (AtomData::UTF8(x), AtomData::UTF8(y)) | (AtomData::UTF16(x), AtomData::UTF16(y)) => same_str(x, y),
        (AtomData::SignedInteger(x), AtomData::SignedInteger(y)) => x == y,
        (AtomData::UnsignedInteger(x), AtomData::UnsignedInteger(y)) => x == y,
        (AtomData::Bool(x), AtomData::Bool(y)) => x == y,
        (AtomData::Picture(x), AtomData::Picture(y)) => x.pic_type() == y.pic_type() && x.mime_type() == y.mime_type() && x.description() == y.description() && same(x.data(), y.data()),
        (AtomData::Unknown { code: c, data: x }, AtomData::Unknown { code: d, data: y }) => (u32::from(*c) == u32::from(*d)) & same(x, y),
        _ => false,
    }
}
fn same_ident(a: &AtomIdent<'_>, b: &AtomIdent<'_>) -> bool {
    match (a, b) {
        (AtomIdent::Fourcc(x), AtomIdent::Fourcc(y)) => same(x, y),
        (AtomIdent::Freeform { mean: m, name: n }, AtomIdent::Freeform { mean: p, name: q }) => same_str(m, p) & same_str(n, q),
        _ => false,
    }
}
const OWN: [&[u8; 4]; 11] = [b"free", b"skip", b"covr", b"gnre", b"plID", b"cpil", b"hdvd", b"pcst", b"pgap", b"shwm", b"----"];
/// An identifier and the bytes before its values
fn ident(k: usize) -> (AtomIdent<'static>, Vec<u8>) {
    match k {
        0 => {
            let mut f: [u8; 4] = bytes();
            for i in 0..4 { assume(((f[i] >= 0x20) & (f[i] <= 0x7e)) | (f[i] == 0xa9)); }
            for o in OWN { assume(!same(&f, o)); }
            if choose(2) == 0 { f = *b"\xa9nam"; }
            (AtomIdent::Fourcc(f), f.to_vec())
        }
        _ => {
            let (m, n) = (text(choose(3), 2).0, text(choose(3), t(1, 3)).0);
            let mut b = b"----".to_vec();
            b.extend(atom(b"mean", &[&[0; 4], m.as_bytes()]));
            b.extend(atom(b"name", &[&[0; 4], n.as_bytes()]));
            (AtomIdent::Freeform { mean: Cow::Owned(m), name: Cow::Owned(n) }, b)
        }
    }
}
type Want = Vec<(AtomIdent<'static>, Vec<AtomData>, Vec<u8>)>;
/// Save `want`, check the bytes of the list against the layout the format defines, and read it back
fn check_tag(want: Want) {
    let mut tag = Ilst::new();
    let mut list = vec![];
    for (id, vals, enc) in &want {
        tag.insert(Atom::from_collection(id.clone(), vals.clone()).unwrap());
        list.extend_from_slice(&(enc.len() as u32 + 4).to_be_bytes());
        list.extend_from_slice(enc);
    }
    let list = atom(b"ilst", &[&list]);
    let mut d = vec![];
    let r = tag.dump_to(&mut d, WriteOptions::new());
    check(r.is_ok(), "encoding a tag the format can hold succeeds");
    check(same(&d, &list), "the encoded list has the sizes, types and payloads the format defines");
    let mut f = atom(b"ftyp", &[b"M4A \0\0\0\0mp42"]);
    f.extend(atom(b"moov", &[]));
    let mut c = Cursor::new(f);
    let r = tag.save_to(&mut c, WriteOptions::new().preferred_padding(0));
    check(r.is_ok(), "saving a tag the format can hold succeeds");
    let f = c.into_inner();
    check(f.len() == 20 + 8 + 8 + 12 + 33 + list.len(), "the file grows by the new atoms");
    check(same(&f[f.len() - list.len()..], &list), "the list is stored as encoded");
    for m in [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed] {
        let Some(back) = read(f.clone(), opts().parsing_mode(m)) else { check(false, "the saved tag is found again"); return };
        check((&back).into_iter().count() == want.len(), "as many atoms come back");
        for (a, (id, vals, _)) in (&back).into_iter().zip(&want) {
            check(same_ident(a.ident(), id), "the identifier comes back");
            let got: Vec<&AtomData> = a.data().collect();
            check(got.len() == vals.len(), "as many values come back");
            for (x, y) in got.iter().zip(vals) { check(same_value(x, y), "the value comes back"); }
        }
    }
}
fn one(id: (AtomIdent<'static>, Vec<u8>), vals: Vec<(AtomData, u32, Vec<u8>)>) -> (AtomIdent<'static>, Vec<AtomData>, Vec<u8>) {
    let mut enc = id.1;
    for v in &vals { enc.extend(data(v.1, &v.2)); }
    (id.0, vals.into_iter().map(|v| v.0).collect(), enc)
}
fn pic() -> (AtomData, u32, Vec<u8>) {
    let (m, c) = [(None, 0), (Some(MimeType::Gif), 12), (Some(MimeType::Jpeg), 13), (Some(MimeType::Png), 14), (Some(MimeType::Bmp), 27)][choose(5)].clone();
    let d = vec(1 + choose(t(1, 3)));
    (AtomData::Picture(picture(m, d.clone())), c, d)
}

harnesses! {
    fn h_value() {
        let (k, i) = (choose(5), choose(2));
        reach(1);
        check_tag(vec![one(ident(i), vec![value(k)])]);
    }
    fn h_values() {
        let n = 2 + choose(2);
        let v = (0..n).map(|_| { let k = choose(3); match k { 0 => (AtomData::UTF8("ab".into()), 1, b"ab".to_vec()), 1 => { let x = u8(); (AtomData::Unknown { code: DataType::Reserved, data: vec![x] }, 0, vec![x]) }, _ => { let x = u32() as i32; (AtomData::SignedInteger(x), 21, x.to_be_bytes().to_vec()) } } }).collect();
        reach(1);
        check_tag(vec![one(ident(choose(2)), v)]);
    }
    fn h_atoms() {
        let x = u8();
        assume((x >= 0x20) & (x < 0x7f));
        let a = one((AtomIdent::Fourcc(*b"\xa9nam"), b"\xa9nam".to_vec()), vec![(AtomData::UTF8((x as char).to_string()), 1, vec![x])]);
        let b = one((AtomIdent::Freeform { mean: "x".into(), name: "y".into() }, [b"----".to_vec(), atom(b"mean", &[b"\0\0\0\0x"]), atom(b"name", &[b"\0\0\0\0y"])].concat()), vec![value(2 + choose(2))]);
        let flag = [b"cpil", b"hdvd", b"pcst", b"pgap", b"shwm"][choose(5)];
        let x = decide(x & 1 == 1);
        let c = one((AtomIdent::Fourcc(*flag), flag.to_vec()), vec![(AtomData::Bool(x), 21, vec![x as u8])]);
        let k = choose(4);
        let d = one((AtomIdent::Fourcc(*b"covr"), b"covr".to_vec()), if k != 3 { vec![pic()] } else { vec![pic(), pic()] });
        reach(1);
        check_tag(match k { 0 => vec![a, c, d], 1 => vec![d, b], 2 => vec![c, b, a], _ => vec![d] });
    }
    /// What cannot be stored is refused
    fn h_refused() {
        let c = u32();
        let p = choose(2) == 0;
        let v = if p { AtomData::Picture(picture(Some([MimeType::Tiff, MimeType::Unknown("image/webp".into())][choose(2)].clone()), vec![1])) }
            else { assume(c > 0xff_ffff); AtomData::Unknown { code: DataType::Other(c), data: vec![1] } };
        let mut tag = Ilst::new();
        tag.insert(Atom::new(AtomIdent::Fourcc(*b"abcd"), v));
        let mut d = vec![];
        reach(1);
        check(tag.dump_to(&mut d, WriteOptions::new()).is_err(), "a value the format cannot hold is refused");
    }
    /// Values of other writers decode as the format defines
    fn h_decode() {
        let m = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed][choose(3)];
        let k = choose(3);
        let n = 1 + choose(5);
        let b = vec(n);
        let code = [0, 21, 22][k];
        let list = atom(b"ilst", &[&atom(b"tmpo", &[&data(code, &b)]), &atom(b"\xa9alb", &[&data(1, b"x")])]);
        let r = read(file(&list), opts().parsing_mode(m));
        reach(1);
        if k > 0 && n == 5 && m == ParsingMode::Strict { check(r.is_none(), "an integer of 5 bytes is an error in strict mode"); return; }
        let Some(r) = r else { check(false, "the list is read"); return };
        let a: Vec<&Atom<'_>> = (&r).into_iter().collect();
        check(matches!(a.last().and_then(|a| a.data().next()), Some(AtomData::UTF8(s)) if s == "x"), "the next atom is read");
        if k > 0 && n == 5 { check(a.len() == 1, "an integer of 5 bytes is skipped"); return; }
        check(a.len() == 2 && a[0].ident() == &AtomIdent::Fourcc(*b"tmpo"), "the atom is read");
        let want = b.iter().fold(0u64, |x, y| x << 8 | *y as u64);
        match (k, a[0].data().next()) {
            (0, Some(AtomData::Unknown { code: DataType::Reserved, data })) => check(same(data, &b), "untyped data is kept"),
            (1, Some(AtomData::SignedInteger(x))) => check(*x == ((want << (64 - 8 * n)) as i64 >> (64 - 8 * n)) as i32, "a signed integer is sign-extended"),
            (2, Some(AtomData::UnsignedInteger(x))) => check(*x as u64 == want, "an unsigned integer has its value"),
            _ => check(false, "the value has its type"),
        };
    }
    /// Flags, genre numbers, playlist identifiers and pictures of other writers
    fn h_decode_own() {
        let k = choose(4);
        let mut o = opts();
        let extra: &[&[u8]] = &[b"", b"\0\0\0\x08free", b"\0\0\0\x0cskip1234"];
        let e = extra[choose(3)];
        reach(1);
        match k {
            0 => {
                let b = vec(1 + choose(3));
                let l = atom(b"ilst", &[e, &atom(b"cpil", &[&data([0, 21][choose(2)], &b)])]);
                let Some(r) = read(file(&l), o) else { check(false, "the list is read"); return };
                let v = b.iter().fold(0, |x, y| x | y) != 0;
                check((&r).into_iter().count() == 1 && matches!(r.get(&AtomIdent::Fourcc(*b"cpil")).and_then(|a| a.data().next()), Some(AtomData::Bool(x)) if *x == v), "a flag is set if any byte is");
            }
            1 => {
                let g = u8();
                let conv = choose(2) == 0;
                let gen = choose(2) == 0;
                o = o.implicit_conversions(conv);
                let own = if gen { atom(b"\xa9gen", &[&data(1, b"g")]) } else { vec![] };
                let l = atom(b"ilst", &[&own, e, &atom(b"gnre", &[&data(0, &[0, g])])]);
                let Some(r) = read(file(&l), o) else { check(false, "the list is read"); return };
                let text = r.get(&AtomIdent::Fourcc(*b"\xa9gen"));
                let table = lofty::id3::v1::GENRES;
                if !conv {
                    check(matches!(r.get(&AtomIdent::Fourcc(*b"gnre")).and_then(|a| a.data().next()), Some(AtomData::Unknown { data, .. }) if same(data, &[0, g])), "without conversions gnre is kept");
                    check(text.is_some() == gen, "without conversions no genre appears");
                } else {
                    check(r.get(&AtomIdent::Fourcc(*b"gnre")).is_none(), "gnre is converted");
                    if gen { check(matches!(text.and_then(|a| a.data().next()), Some(AtomData::UTF8(s)) if s == "g"), "a genre of its own comes first"); return; }
                    let g = conc(g as u64) as usize;
                    if g == 0 || g > table.len() { check(text.is_none(), "an unknown genre number is dropped"); }
                    else { check(matches!(text.and_then(|a| a.data().next()), Some(AtomData::UTF8(s)) if same_str(s, table[g - 1])), "a genre number is the name of the ID3v1 genre before it"); }
                }
            }
            2 => {
                let n = 7 + choose(3);
                let b = vec(n);
                let l = atom(b"ilst", &[e, &atom(b"plID", &[&data(21, &b)])]);
                let Some(r) = read(file(&l), o) else { check(false, "the list is read"); return };
                let a = r.get(&AtomIdent::Fourcc(*b"plID"));
                if n != 8 { check(a.is_none(), "a playlist identifier of another length is dropped"); }
                else { check(matches!(a.and_then(|a| a.data().next()), Some(AtomData::Unknown { code: DataType::BeSignedInteger, data }) if same(data, &b)), "a playlist identifier is kept"); }
            }
            _ => {
                let with = choose(2) == 0;
                o = o.read_cover_art(with);
                let n = 1 + choose(2);
                let d: Vec<Vec<u8>> = (0..n).map(|_| vec(1)).collect();
                let enc: Vec<u8> = d.iter().flat_map(|d| data(14, d)).collect();
                let l = atom(b"ilst", &[&atom(b"covr", &[&enc]), e, &atom(b"\xa9alb", &[&data(1, b"x")])]);
                let Some(r) = read(file(&l), o) else { check(false, "the list is read"); return };
                check(r.get(&AtomIdent::Fourcc(*b"\xa9alb")).is_some(), "the next atom is read");
                let p: Vec<&Picture> = r.pictures().into_iter().flatten().collect();
                check(p.len() == if with { n } else { 0 }, "every picture is read if asked for");
                for (p, d) in p.iter().zip(&d) { check(same(p.data(), d) && p.mime_type() == Some(&MimeType::Png), "the picture is read"); }
            }
        }
    }
    /// Empty values, foreign children and type sets are passed over
    fn h_decode_foreign() {
        let m = [ParsingMode::BestAttempt, ParsingMode::Relaxed][choose(2)];
        let x = u8();
        let ts = u8();
        assume(ts != 0);
        let odd: Vec<u8> = match choose(5) {
            0 => data(1, b""),
            1 => atom(b"name", &[&[x; 12]]),
            2 => atom(b"data", &[&[ts, x, x, x], &[0; 4], &[x]]),
            3 => atom(b"data", &[&[ts, x, x, x], &[0; 4]]),
            _ => atom(b"data", &[&[ts, x, x, x], &[0; 4], &[x; 9]]),
        };
        let good = data(22, &[x]);
        let (a, b) = (choose(2) == 0, choose(2) == 0);
        let mut c = vec![];
        if a { c.extend(&good); }
        c.extend(&odd);
        if b { c.extend(&good); }
        let l = atom(b"ilst", &[&atom(b"tmpo", &[&c]), &atom(b"\xa9alb", &[&data(1, b"x")])]);
        let Some(r) = read(file(&l), opts().parsing_mode(m)) else { check(false, "the list is read"); return };
        reach(1);
        check(r.get(&AtomIdent::Fourcc(*b"\xa9alb")).is_some(), "the next atom is read");
        let n = r.get(&AtomIdent::Fourcc(*b"tmpo")).map_or(0, |t| t.data().filter(|d| matches!(d, AtomData::UnsignedInteger(v) if *v == x as u32)).count());
        check(n == a as usize + b as usize, "the values beside it are read");
    }
}
