//! bound: FLAC files of an optional leading ID3v2 tag, an arbitrary 34-byte STREAMINFO, up to three further metadata blocks (any type no tag uses, PADDING, VORBIS_COMMENT, PICTURE; contents of 0 to 4 arbitrary bytes) and 0 or 5 arbitrary bytes of audio
//! bound: histories of one and two operations (comments, comments and picture, pictures only, generic tag, removal, empty tag), padding preference 0, 7 or the default; audio of 65535 to 131073 bytes moved forwards and backwards, with arbitrary bytes at each end and around the 64 KiB marks
//! assume: well-formed files: comment and picture blocks parse, one last-block flag
//! secs: 100
use crate::sym::*;
use crate::util::*;
use lofty::flac::FlacFile;
use lofty::id3::v2::Id3v2Tag;
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::{Tag, TagType};

type Bl = (u8, Vec<u8>);
fn enc(pre: &[u8], bl: &[Bl], audio: &[u8]) -> Vec<u8> {
    let mut v = pre.to_vec();
    v.extend_from_slice(b"fLaC");
    for (i, (t, c)) in bl.iter().enumerate() {
        v.push(*t | if i + 1 == bl.len() { 0x80 } else { 0 });
        v.extend_from_slice(&(c.len() as u32).to_be_bytes()[1..]);
        v.extend_from_slice(c);
    }
    v.extend_from_slice(audio);
    v
}
/// the metadata blocks after `pre` and where they end
fn dec(v: &[u8], pre: usize) -> Option<(Vec<Bl>, usize)> {
    if v.len() < pre + 4 || !same(&v[pre..pre + 4], b"fLaC") { return None; }
    let mut p = pre + 4;
    let mut o = vec![];
    loop {
        if v.len() - p < 4 { return None; }
        let n = (v[p + 1] as usize) << 16 | (v[p + 2] as usize) << 8 | v[p + 3] as usize;
        if v.len() - p - 4 < n { return None; }
        let last = decide(v[p] & 0x80 != 0);
        o.push((v[p] & 0x7f, v[p + 4..p + 4 + n].to_vec()));
        p += 4 + n;
        if last { return Some((o, p)); }
    }
}
fn comments(vendor: &[u8], items: &[&[u8]]) -> Vec<u8> {
    let mut c = (vendor.len() as u32).to_le_bytes().to_vec();
    c.extend_from_slice(vendor);
    c.extend_from_slice(&(items.len() as u32).to_le_bytes());
    for i in items { c.extend_from_slice(&(i.len() as u32).to_le_bytes()); c.extend_from_slice(i); }
    c
}
fn pic_block(desc: &[u8], data: &[u8]) -> Vec<u8> {
    let mut c = 3u32.to_be_bytes().to_vec();
    for f in [&b"image/png"[..], desc] { c.extend_from_slice(&(f.len() as u32).to_be_bytes()); c.extend_from_slice(f); }
    for n in [5u32, 6, 24, 0, data.len() as u32] { c.extend_from_slice(&n.to_be_bytes()); }
    c.extend_from_slice(data);
    c
}
fn picture(d: &[u8]) -> (Picture, PictureInformation) {
    let p = Picture::unchecked(d.to_vec()).pic_type(PictureType::CoverFront).mime_type(MimeType::Png).build();
    (p, PictureInformation { width: 5, height: 6, color_depth: 24, num_colors: 0 })
}
fn wo(pad: usize) -> WriteOptions { let w = WriteOptions::default(); match pad { 0 => w, 1 => w.preferred_padding(0), n => w.preferred_padding(n as u32) } }

/// what the file holds, apart from its unrelated blocks
#[derive(Clone)]
struct Model { vendor: Option<Vec<u8>>, items: Vec<Vec<u8>>, pics: Vec<Vec<u8>>, padding: bool }

fn op(v: Vec<u8>, m: &mut Model, k: usize, pad: usize) -> Option<Vec<u8>> {
    let mut f = Cursor::new(v);
    let a = ascii();
    let mut t = VorbisComments::new();
    t.set_vendor("new".into());
    let had = m.vendor.is_some() || !m.pics.is_empty();
    let r = match k {
        0 | 1 => {
            let val = String::from_utf8(vec![a, b'!']).unwrap();
            t.push("TITLE".into(), val.clone());
            t.push("X".into(), String::new());
            t.push("title".into(), "longer value of a field, to grow the block".into());
            m.items = vec![[b"TITLE=", val.as_bytes()].concat(), b"title=longer value of a field, to grow the block".to_vec()];
            m.pics = vec![];
            if k == 1 { let p = picture(&[a, 2, 3]); let _ = t.insert_picture(p.0, Some(p.1)); m.pics.push(pic_block(b"", &[a, 2, 3])); }
            t.save_to(&mut f, wo(pad))
        }
        2 => {
            let p = picture(&[a]);
            let _ = t.insert_picture(p.0, Some(p.1));
            m.items = vec![];
            m.pics = vec![pic_block(b"", &[a])];
            t.save_to(&mut f, wo(pad))
        }
        3 => { m.items = vec![]; m.pics = vec![]; TagType::VorbisComments.remove_from(&mut f, wo(pad)) }
        4 => { m.items = vec![]; m.pics = vec![]; t.save_to(&mut f, wo(pad)) }
        _ => {
            let mut g = Tag::new(TagType::VorbisComments);
            let val = String::from_utf8(vec![a]).unwrap();
            g.set_artist(val.clone());
            m.items = vec![[b"ARTIST=", val.as_bytes()].concat()];
            m.pics = vec![];
            g.save_to(&mut f, wo(pad))
        }
    };
    check(r.is_ok(), "saving to a well-formed file succeeds");
    if r.is_err() { return None; }
    // the vendor of the file is kept
    if m.items.is_empty() { m.vendor = None; } else if m.vendor.is_none() { m.vendor = Some(if k == 5 { vec![] } else { b"new".to_vec() }); }
    if (had || k <= 2 || k == 5) && pad != 1 { m.padding = true; }
    Some(f.into_inner())
}
fn verify(v: &[u8], pre: &[u8], oth: &[Bl], audio: &[u8], m: &Model) {
    check(v.len() >= pre.len() && same(&v[..pre.len()], pre), "a leading ID3v2 tag is kept");
    let d = dec(v, pre.len());
    check(d.is_some(), "the metadata blocks are well-formed and one is the last");
    let Some((bl, end)) = d else { return };
    check(same(&v[end..], audio), "the audio frames follow the last block unchanged");
    let (mut at, mut com, mut pics, mut pads) = (0, 0, 0, 0);
    for (i, (t, c)) in bl.iter().enumerate() {
        if at < oth.len() && decide(*t == oth[at].0) && same(c, &oth[at].1) { check(at != 0 || i == 0, "STREAMINFO stays first"); at += 1; continue; }
        if decide(*t == 4) {
            com += 1;
            let it: Vec<&[u8]> = m.items.iter().map(|x| &x[..]).collect();
            check(same(c, &comments(m.vendor.as_deref().unwrap_or(b""), &it)), "the comment block holds the vendor of the file and the saved fields");
        } else if decide(*t == 6) {
            check(pics < m.pics.len() && same(c, &m.pics[pics]), "picture blocks hold the saved pictures");
            pics += 1;
        } else {
            check(*t == 1 && c.iter().all(|b| *b == 0), "only padding is added");
            pads += 1;
        }
    }
    check(at == oth.len(), "STREAMINFO and unrelated blocks are kept in order");
    check(com == !m.items.is_empty() as usize, "one comment block, if there are fields");
    check(pics == m.pics.len(), "as many picture blocks as pictures");
    check(pads <= 1 && (pads == 0 || m.padding), "padding is added at most once");
    let o = ParseOptions::new().read_properties(false).parsing_mode(ParsingMode::Strict);
    let Ok(f) = FlacFile::read_from(&mut Cursor::new(v), o) else { check(false, "the result is read"); return };
    check(f.id3v2().is_some() == !pre.is_empty(), "a leading ID3v2 tag is found");
    let got: Vec<(&str, &str)> = f.vorbis_comments().map(|t| t.items().collect()).unwrap_or_default();
    check(got.len() == m.items.len() && got.iter().zip(&m.items).all(|((k, v), i)| same(&[k.as_bytes(), b"=", v.as_bytes()].concat(), i)), "the saved fields are read back");
    check(f.pictures().len() == m.pics.len() && f.pictures().iter().zip(&m.pics).all(|((p, i), b)| same(&p.as_flac_bytes(*i, false), b)), "the saved pictures are read back");
}
fn unrelated() -> u8 { let t = u8(); assume((t < 127) & (t != 0) & (t != 1) & (t != 4) & (t != 6)); t }
fn id3() -> Vec<u8> {
    let mut t = Id3v2Tag::default();
    t.set_title("t".into());
    let mut o = vec![];
    let _ = t.dump_to(&mut o, WriteOptions::default().preferred_padding(0));
    o
}
fn run(nblocks: usize, ops: usize) {
    let pre = if choose(2) == 1 { id3() } else { vec![] };
    let mut m = Model { vendor: None, items: vec![], pics: vec![], padding: false };
    let mut oth: Vec<Bl> = vec![(0, vec(34))];
    let mut all = oth.clone();
    for _ in 0..nblocks {
        match choose(5) {
            0 => { let b = (unrelated(), vec([0, 4][choose(2)])); all.push(b.clone()); oth.push(b); }
            1 => { let b = (1, vec([0usize, 3, 300][choose(3)])); all.push(b.clone()); oth.push(b); m.padding = false; }
            2 => {
                // one comment block
                if m.vendor.is_some() { return; }
                let n = [0, 2][choose(2)];
                let mut vd = vec(n);
                for b in &mut vd { assume((*b > 0x20) & (*b < 0x7f)); }
                m.vendor = Some(vd.clone());
                all.push((4, match choose(2) { 0 => comments(&vd, &[]), _ => { m.items = vec![b"A=b".to_vec()]; comments(&vd, &[b"A=b"]) } }));
            }
            3 => { let p = pic_block(b"d", &vec(2)); m.pics.push(p.clone()); all.push((6, p)); }
            _ => { let b = (3, vec(18)); all.push(b.clone()); oth.push(b); }
        }
    }
    let audio = vec(if choose(2) == 0 { 5 } else { 0 });
    let mut v = enc(&pre, &all, &audio);
    for i in 0..ops {
        let k = choose(6);
        let pad = [0, 1, 7][choose(if i == 0 { 3 } else { 1 })];
        let Some(w) = op(v, &mut m, k, pad) else { return };
        v = w;
        verify(&v, &pre, &oth, &audio, &m);
        reach(1);
    }
}
harnesses! {
    fn h_one() { run(choose(3), 1); }
    fn h_two() { run(1, 2); }
    fn h_t_three() { run(3, 2); }
    fn h_move() {
        // audio around the size of the buffer it is moved with
        let n = [65535, 65536, 65537, 131073][choose(4)];
        let mut audio = vec![0x5a; n];
        for i in [0, 65534, 65535, 65536, 65537, 131071, n - 1] { if i < n { audio[i] = u8(); } }
        let grow = choose(2) == 0;
        let si: Bl = (0, vec![0; 34]);
        let mut all = vec![si.clone()];
        let mut m = Model { vendor: None, items: vec![], pics: vec![], padding: false };
        if !grow { all.push((4, comments(b"v", &[&[b'=', 65][..]; 40]))); m.vendor = Some(b"v".to_vec()); }
        let v = enc(&[], &all, &audio);
        let old = v.len();
        let Some(w) = op(v, &mut m, if grow { 5 } else { 3 }, 1) else { return };
        check(if grow { w.len() > old } else { w.len() < old }, "the metadata changes its size");
        verify(&w, &[], &[si], &audio, &m);
        reach(1);
    }
    fn h_restore() {
        // removing what was added restores the file
        let mut all: Vec<Bl> = vec![(0, vec(34))];
        if choose(2) == 1 { all.push((unrelated(), vec(3))); }
        let audio = vec(3);
        let v = enc(&[], &all, &audio);
        let mut m = Model { vendor: None, items: vec![], pics: vec![], padding: false };
        let Some(w) = op(v.clone(), &mut m, choose(3), 1) else { return };
        let Some(x) = op(w, &mut m, 3 + choose(2), 1) else { return };
        check(same(&x, &v), "removing what was added restores the file");
        reach(1);
    }
    fn h_id3() {
        // removing a leading ID3v2 tag
        let mut v = id3();
        let n = v.len();
        v.extend(enc(&[], &[(0, vec(34)), (unrelated(), vec(2))], &vec(4)));
        let mut f = Cursor::new(v.clone());
        let r = if choose(2) == 0 { TagType::Id3v2.remove_from(&mut f, wo(0)) } else { Tag::new(TagType::Id3v2).save_to(&mut f, wo(0)) };
        check(r.is_ok() && same(f.get_ref(), &v[n..]), "only the ID3v2 tag is removed");
        reach(1);
    }
}
