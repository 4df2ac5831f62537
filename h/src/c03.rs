//! bound: any 3 consecutive bytes arbitrary, or the end cut off anywhere, in Vorbis, Opus (mapping families 0 and 1) and Speex files of 4-5 pages with comments and pictures, under every combination of parse options
//! bound: page headers: 27 arbitrary bytes, up to 3 (quick 2) arbitrary lacing values, read as Page, as Packets of every count and by the search functions; identification headers arbitrary behind their signature
//! assume: the allocation limit is lowered to 512 bytes
//! split: 1
//! secs: 140
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;

fn run(f: usize, w: usize, stride: usize) {
    small_limit();
    let k = choose(count(f));
    let mut v = template(f, k);
    corrupt(&mut v, w, stride);
    let _ = read_own(f, &mut Cursor::new(&v), any_options());
    reach(1);
}


fn read(f: usize, v: &[u8]) {
    let ok = read_own(f, &mut Cursor::new(v), ParseOptions::new().parsing_mode(lazy_mode()));
    if ok { reach(2) } else { reach(3) }
}
/// A page header with `n` lacing values at most 20, everything else arbitrary.
fn any_page(n: usize, fixed: bool) -> Vec<u8> {
    let mut h = bytes::<27>();
    if fixed { h[..5].copy_from_slice(b"OggS\0"); }
    h[26] = n as u8;
    let mut v = h.to_vec();
    for _ in 0..n { let l = u8(); assume(l <= 6 || l >= 254); v.push(l); }
    v
}
harnesses! {
    fn h_vorbis() { run(VORBIS, 3, 1) }
    fn h_opus() { run(OPUS, 3, 1) }
    fn h_speex() { run(SPEEX, 3, 1) }
    fn h_head_page() {
        let mut v = bytes::<30>().to_vec();
        assume(v[26] < t(3, 12) as u8);
        v.resize(30 + choose(4) * 100, 7);
        match ogg_pager::Page::read(&mut Cursor::new(&v)) {
            Ok(p) => { check(p.content().len() <= v.len() - 27, "the content of a page is part of the input"); reach(4) }
            Err(_) => reach(5),
        }
    }
    fn h_head_packets() {
        let n = choose(4);
        let mut v = any_page(choose(t(2, 3)), true);
        v.resize(v.len() + 8, 1);
        v.extend(any_page(choose(2), true));
        v.resize(v.len() + choose(2) * 260, 2);
        let c = [-1isize, 1, 2, 3][n];
        if let Ok(p) = ogg_pager::Packets::read_count(&mut Cursor::new(&v), c) {
            let total: usize = p.iter().map(|x| x.len()).sum();
            check(total <= v.len(), "packets are part of the input");
            for i in 0..p.len() { check(p.get(i).is_some(), "every packet is accessible"); }
            check(p.get(p.len()).is_none(), "no packet behind the last");
            reach(6)
        } else { reach(7) }
    }
    fn h_ident_vorbis() {
        small_limit();
        let mut v = vorbis();
        wild(&mut v, 28 + 7, 28 + 30);
        read(VORBIS, &v)
    }
    fn h_ident_opus() {
        small_limit();
        let k = choose(2);
        let mut v = opus([0, 1][k]);
        wild(&mut v, 28 + 8, 28 + 19 + 4 * k);
        read(OPUS, &v)
    }
    fn h_ident_speex() {
        small_limit();
        let mut v = speex();
        wild(&mut v, 28 + 28, 28 + 80);
        read(SPEEX, &v)
    }
    // granule positions and flags of all pages
    fn h_granules() {
        small_limit();
        let f = [VORBIS, OPUS, SPEEX][choose(3)];
        let mut v = template(f, 0);
        let mut p = 0;
        while p < v.len() {
            wild(&mut v, p + 5, p + 14);
            p += 28 + v[p + 27] as usize;
        }
        read(f, &v)
    }
    fn h_comments() {
        small_limit();
        let mut v = speex();
        // vendor length 1, count, then one comment
        let p = 28 + 80 + 28 + 5;
        wild(&mut v, p, p + 8 + t(3, 6));
        read(SPEEX, &v)
    }
}
