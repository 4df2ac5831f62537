//! bound: tags of up to three items with keys of 2 or 3 allowed characters (and of 255), texts and links of 0 to 2 arbitrary characters in every encoded width, binary values of 0 to 3 bytes, values of 254 to 65537 bytes, read-only flags of items and the tag
//! bound: single and multi-value texts; tags saved to and read from Monkey's Audio, MPEG, WavPack and Musepack files, behind an ID3v1 tag or not, in every parsing mode; APEv1 tags and APEv2 tags without header are decoded
//! assume: keys differ without regard to case; texts hold no NUL and no byte order marks
use crate::sym::*;
use crate::util::*;
use lofty::ape::{ApeFile, ApeItem, ApeTag};
use lofty::mpeg::MpegFile;
use lofty::musepack::MpcFile;
use lofty::tag::ItemValue;
use lofty::wavpack::WavPackFile;

fn opts(mode: usize) -> ParseOptions { ParseOptions::new().read_properties(false).parsing_mode([ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed][mode]) }
/// a file of each format without any tag
fn body(format: usize) -> Vec<u8> {
    let mut v = match format { 0 => b"MAC \x96\x0f".to_vec(), 1 => vec![0xff, 0xfb, 0x90, 0], 2 => b"wvpk\x18\0\0\0\x10\x04".to_vec(), _ => b"MP+\x07\0\0\0\0".to_vec() };
    v.resize(417, 0);
    if format == 1 { let w = v.clone(); v.extend(w); }
    v
}
fn read(v: &[u8], format: usize, o: ParseOptions) -> Option<ApeTag> {
    let c = &mut Cursor::new(v);
    match format {
        0 => ApeFile::read_from(c, o).ok()?.remove_ape(),
        1 => MpegFile::read_from(c, o).ok()?.remove_ape(),
        2 => WavPackFile::read_from(c, o).ok()?.remove_ape(),
        _ => MpcFile::read_from(c, o).ok()?.remove_ape(),
    }
}
struct It { key: Vec<u8>, ty: u32, value: Vec<u8>, ro: bool }
fn encode(items: &[It], version: u32, header: bool, ro: bool) -> Vec<u8> {
    let mut b = vec![];
    for i in items {
        b.extend_from_slice(&(i.value.len() as u32).to_le_bytes());
        b.extend_from_slice(&(i.ty << 1 | i.ro as u32).to_le_bytes());
        b.extend_from_slice(&i.key);
        b.push(0);
        b.extend_from_slice(&i.value);
    }
    let head = |top: u32| {
        let mut h = b"APETAGEX".to_vec();
        for x in [version, b.len() as u32 + 32, items.len() as u32, top | ro as u32] { h.extend_from_slice(&x.to_le_bytes()); }
        h.extend_from_slice(&[0; 8]);
        h
    };
    let mut o = if header { head(0xe000_0000) } else { vec![] };
    o.extend_from_slice(&b);
    o.extend(head(if header { 0xc000_0000 } else { 0 }));
    o
}
fn key(n: usize) -> String {
    let k = vec(n);
    for c in &k { assume((*c >= 0x20) & (*c <= 0x7e)); }
    String::from_utf8(k).unwrap()
}
fn lower(b: &[u8]) -> Vec<u8> { b.iter().map(|c| *c | (((*c >= b'A') & (*c <= b'Z')) as u8) << 5).collect() }
fn value(i: &It) -> ItemValue {
    let s = || unsafe { String::from_utf8_unchecked(i.value.clone()) };
    match i.ty { 0 => ItemValue::Text(s()), 1 => ItemValue::Binary(i.value.clone()), _ => ItemValue::Locator(s()) }
}
fn item(i: &It) -> ApeItem {
    let mut a = ApeItem::new(unsafe { String::from_utf8_unchecked(i.key.clone()) }, value(i)).unwrap();
    a.read_only = i.ro;
    a
}
fn verify(t: &ApeTag, items: &[It]) {
    check(t.len() == items.len(), "as many items as were saved");
    for (a, i) in t.into_iter().zip(items) {
        check(same(a.key().as_bytes(), &i.key), "items keep their order and keys");
        check(a.read_only == i.ro, "items keep their read-only flag");
        let (ty, b) = match a.value() { ItemValue::Text(s) => (0, s.as_bytes()), ItemValue::Binary(b) => (1, &b[..]), ItemValue::Locator(s) => (2, s.as_bytes()) };
        check(ty == i.ty, "items keep their type");
        check(same(b, &i.value), "items keep their value");
    }
}
fn id3v1() -> Vec<u8> { let mut i = b"TAG".to_vec(); i.resize(128, 0); i[93..97].copy_from_slice(b"1999"); i }
fn val(ty: u32, n: usize, w: usize) -> Vec<u8> { if ty == 1 { vec(n) } else { text(n, w).0.into_bytes() } }
fn round(items: &[It], ro: bool) {
    let mut t = ApeTag::new();
    t.read_only = ro;
    for i in items { t.push(item(i)); }
    let mut d = vec![];
    check(t.dump_to(&mut d, WriteOptions::default()).is_ok(), "a tag is encoded");
    check(same(&d, &encode(items, 2000, true, ro)), "header, items and footer have their layout, sizes and counts");
    let f = choose(4);
    let mut v = body(f);
    let id3 = choose(2) == 1;
    let mut file = v.clone();
    if id3 { file.extend_from_slice(&id3v1()); }
    let mut c = Cursor::new(file);
    let mut w = WriteOptions::default();
    check(t.save_to(&mut c, w.respect_read_only(choose(2) == 1)).is_ok(), "a tag is saved");
    v.extend_from_slice(&d);
    if id3 { v.extend_from_slice(&id3v1()); }
    check(same(c.get_ref(), &v), "the tag is appended, in front of an ID3v1 tag");
    let Some(r) = read(&v, f, opts(choose(3))) else { check(false, "what was saved is read back"); return };
    verify(&r, items);
}

harnesses! {
    fn h_items() {
        let shape = choose(6);
        let ty = choose(3) as u32;
        let mk = |k: usize, ty: u32, n: usize, w: usize, ro: bool| It { key: key(k).into_bytes(), ty, value: val(ty, n, w), ro };
        let items = match shape {
            0 => vec![mk(2, ty, 1, 4, choose(2) == 1)],
            1 => vec![mk(3, ty, 2, 2, false)],
            2 => vec![mk(2, ty, 0, 1, true), mk(2, 0, 1, 1, false)],
            4 => vec![mk(2, ty, 0, 1, false)],
            3 => vec![mk(2, 0, 1, 1, false), mk(3, ty, 1, 1, true), It { key: b"Year".to_vec(), ty: 0, value: b"1999\x002000".to_vec(), ro: false }],
            _ => vec![],
        };
        for (i, a) in items.iter().enumerate() {
            let l = lower(&a.key);
            for k in [&b"id3"[..], b"tag", b"mp+"] { if k.len() == l.len() { assume(!same(&l, k)); } }
            for b in &items[..i] { if b.key.len() == l.len() { assume(!same(&lower(&b.key), &l)); } }
        }
        if items.is_empty() {
            let mut c = Cursor::new(body(0));
            check(ApeTag::new().save_to(&mut c, WriteOptions::default()).is_ok() && *c.get_ref() == body(0), "an empty tag is not written");
            reach(2);
            return;
        }
        round(&items, shape == 1);
        reach(1);
    }
    fn h_long() {
        let n = [254, 255, 256, 65535, 65537][choose(5)];
        let ty = choose(3) as u32;
        let mut v = vec![b'v'; n];
        v[0] = ascii();
        let mut k = vec![b'k'; if choose(2) == 1 { 255 } else { 5 }];
        k[0] = ascii();
        assume((k[0] >= 0x20) & (k[0] < 0x7f));
        round(&[It { key: k, ty, value: v, ro: false }, It { key: b"A key".to_vec(), ty: 0, value: b"x".to_vec(), ro: true }], false);
        reach(1);
    }
    fn h_keys() {
        // which keys are allowed
        let n = choose(t(5, 6));
        let k = vec(n);
        for c in &k { assume(*c < 0x80); }
        let s = String::from_utf8(k.clone()).unwrap();
        let r = ApeItem::new(s, ItemValue::Text("x".into())).is_ok();
        let mut ok = n >= 2;
        for c in &k { ok &= (*c >= 0x20) & (*c <= 0x7e); }
        let l = lower(&k);
        for b in [&b"id3"[..], b"tag", b"mp+", b"oggs"] { if b.len() == n { ok &= !same(&l, b); } }
        check(r == ok, "keys are accepted exactly if their length, characters and name are allowed");
        reach(1);
    }
    fn h_len() {
        let n = [0, 1, 255, 256][choose(4)];
        check(ApeItem::new("k".repeat(n), ItemValue::Text("x".into())).is_ok() == (n == 255), "keys have 2 to 255 characters");
        reach(1);
    }
    fn h_decode() {
        // tags of other writers: version 1, no header, arbitrary flag bits
        let ty = choose(3) as u32;
        let items = [It { key: b"Artist".to_vec(), ty, value: val(ty, 2, 2), ro: choose(2) == 1 }, It { key: b"Title".to_vec(), ty: 0, value: b"x".to_vec(), ro: false }];
        let (v1, header) = [(true, false), (false, false), (false, true)][choose(3)];
        let mut d = encode(&items, if v1 { 1000 } else { 2000 }, header, false);
        let at = if header { 36 } else { 4 };
        d[at] |= u8() & 0xf8;
        d[at + 1] = u8();
        let n = d.len();
        for i in 1..=8 { d[n - i] = u8(); }
        let f = choose(4);
        let mut v = body(f);
        v.extend_from_slice(&d);
        let Some(r) = read(&v, f, opts(choose(3))) else { check(false, "a tag of another writer is read"); return };
        verify(&r, &items);
        reach(1);
    }
    fn h_multi() {
        // several values of one key
        let (a, b) = (text(1, 2).0, text(1, 2).0);
        let mut t = ApeTag::new();
        let loc = choose(2) == 1;
        let mk = |s: &str| ApeItem::new("Genre".into(), if loc { ItemValue::Locator(s.into()) } else { ItemValue::Text(s.into()) }).unwrap();
        t.push(mk(&a));
        t.push(mk(&b));
        let mut v = body(0);
        check(t.dump_to(&mut v, WriteOptions::default()).is_ok(), "a tag is encoded");
        let Some(r) = read(&v, 0, opts(0)) else { check(false, "what was saved is read back"); return };
        let got: Vec<&str> = r.get("genre").and_then(|i| i.text_values()).map(|i| i.collect()).unwrap_or_default();
        check(got.len() == 2 && same_str(got[0], &a) && same_str(got[1], &b), "all values of a key are read back in order");
        reach(1);
    }
}
