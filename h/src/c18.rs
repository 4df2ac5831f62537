//! bound: files of ftyp, moov, one or two mdat and free atoms in every order, 32- and 64-bit sizes of moov, udta, meta, mdat; one or two tracks with stco and co64 tables, and fragments (moof/traf/tfhd), whose entries point anywhere into any mdat; udta absent, before or after the tracks, with and without meta (full or not), ilst, unrelated children, and free atoms of 8 to 40 bytes on either side of ilst; arbitrary contents of all unrelated atoms
//! bound: histories of one and two operations (thorough: three): saves of lists from 33 to 332 bytes around every size that fits, with no, small, and default padding, and removals
//! assume: well-formed files whose offset tables point into mdat
use crate::sym::*;
use crate::util::*;
use lofty::mp4::{Atom, AtomData, AtomIdent, Ilst, Mp4File};
use lofty::tag::TagType;

fn atom(id: &[u8; 4], parts: &[&[u8]]) -> Vec<u8> {
    let n: usize = parts.iter().map(|p| p.len()).sum();
    let mut v = (n as u32 + 8).to_be_bytes().to_vec();
    v.extend_from_slice(id);
    for p in parts { v.extend_from_slice(p); }
    v
}
fn atom64(id: &[u8; 4], parts: &[&[u8]]) -> Vec<u8> {
    let n: usize = parts.iter().map(|p| p.len()).sum();
    let mut v = 1u32.to_be_bytes().to_vec();
    v.extend_from_slice(id);
    v.extend_from_slice(&(n as u64 + 16).to_be_bytes());
    for p in parts { v.extend_from_slice(p); }
    v
}
fn any(ext: bool, id: &[u8; 4], parts: &[&[u8]]) -> Vec<u8> { if ext { atom64(id, parts) } else { atom(id, parts) } }

/// (identifier, start, content start, end) of the atoms in `v[from..to]`, which they fill exactly
fn atoms(v: &[u8], from: usize, to: usize) -> Option<Vec<([u8; 4], usize, usize, usize)>> {
    let mut o = vec![];
    let mut p = from;
    while p < to {
        if to - p < 8 { return None; }
        let id = [v[p + 4], v[p + 5], v[p + 6], v[p + 7]];
        let (h, n) = match be32(&v[p..p + 4]) as usize {
            1 if to - p >= 16 => (16, u64::from_be_bytes(v[p + 8..p + 16].try_into().unwrap()) as usize),
            n => (8, n),
        };
        if n < h || n > to - p { return None; }
        o.push((id, p, p + h, p + n));
        p += n;
    }
    Some(o)
}
const DEEP: [&[u8; 4]; 8] = [b"moov", b"trak", b"mdia", b"minf", b"stbl", b"moof", b"traf", b"udta"];
/// Where the bytes of each mdat are, in order
fn mdats(v: &[u8]) -> Option<Vec<(usize, usize)>> { Some(atoms(v, 0, v.len())?.iter().filter(|a| &a.0 == b"mdat").map(|a| (a.2, a.3)).collect()) }
/// The offset after the edit that designates the same byte
fn moved(x: u64, old: &[(usize, usize)], new: &[(usize, usize)]) -> u64 {
    let mut r = x;
    for (o, n) in old.iter().zip(new) {
        let inside = (x >= o.0 as u64) & (x <= o.1 as u64);
        let y = x.wrapping_add((n.0 as u64).wrapping_sub(o.0 as u64));
        r = if inside { y } else { r };
    }
    r
}
fn full(v: &[u8], at: usize) -> bool { !same(&v[at + 4..at + 8], b"hdlr") && !same(&v[at + 4..at + 8], b"ilst") }
struct Old<'a> { v: &'a [u8], m: Vec<(usize, usize)> }
/// Compare the atoms of `n[nf..nt]` with those of `o.v[f..t]`
fn compare(o: &Old<'_>, f: usize, t: usize, n: &[u8], m: &[(usize, usize)], nf: usize, nt: usize, place: &[u8; 4]) {
    let (Some(mut a), Some(mut b)) = (atoms(o.v, f, t), atoms(n, nf, nt)) else { check(false, "the atoms fill their container exactly"); return };
    match place {
        b"moov" => {
            let strip = |x: &mut Vec<([u8; 4], usize, usize, usize)>| x.retain(|q| &q.0 != b"udta");
            let ua: Vec<_> = a.iter().filter(|q| &q.0 == b"udta").cloned().collect();
            let ub: Vec<_> = b.iter().filter(|q| &q.0 == b"udta").cloned().collect();
            check(ua.len() == ub.len() || (ua.is_empty() && ub.len() == 1), "the user data atom is kept");
            for (i, u) in ub.iter().enumerate() {
                match ua.get(i) {
                    Some(w) => compare(o, w.2, w.3, n, m, u.2, u.3, b"udta"),
                    None => compare(o, 0, 0, n, m, u.2, u.3, b"udta"),
                }
            }
            strip(&mut a);
            strip(&mut b);
        }
        b"udta" => {
            let ua: Vec<_> = a.iter().filter(|q| &q.0 == b"meta").cloned().collect();
            let ub: Vec<_> = b.iter().filter(|q| &q.0 == b"meta").cloned().collect();
            check(ua.len() == ub.len() || (ua.is_empty() && ub.len() == 1), "the meta atom is kept");
            for (i, u) in ub.iter().enumerate() {
                let k = if full(n, u.2) { 4 } else { 0 };
                match ua.get(i) {
                    Some(w) => {
                        let j = if full(o.v, w.2) { 4 } else { 0 };
                        check(j == k && same(&o.v[w.2..w.2 + j], &n[u.2..u.2 + k]), "the kind of the meta atom stays");
                        compare(o, w.2 + j, w.3, n, m, u.2 + k, u.3, b"meta");
                    }
                    None => compare(o, 0, 0, n, m, u.2 + k, u.3, b"new "),
                }
            }
            a.retain(|q| &q.0 != b"meta");
            b.retain(|q| &q.0 != b"meta");
        }
        b"meta" => { for x in [&mut a, &mut b] { x.retain(|q| &q.0 != b"ilst" && &q.0 != b"free"); } }
        b"new " => { check(b.iter().filter(|q| &q.0 == b"hdlr").count() == 1, "a new meta atom has a handler"); return; }
        _ => {}
    }
    check(a.len() == b.len(), "no other atom appears or disappears");
    if a.len() != b.len() { return; }
    for (x, y) in a.iter().zip(&b) {
        check(x.0 == y.0, "the atoms keep their order");
        if DEEP.contains(&&x.0) { compare(o, x.2, x.3, n, m, y.2, y.3, &x.0); continue; }
        let (p, q) = (&o.v[x.2..x.3], &n[y.2..y.3]);
        check(p.len() == q.len(), "other atoms keep their size");
        if p.len() != q.len() { continue; }
        match &x.0 {
            b"stco" => {
                check(same(&p[..8], &q[..8]), "the chunk count stays");
                for i in 0..be32(&p[4..8]) as usize {
                    let k = 8 + 4 * i;
                    check(be32(&q[k..k + 4]) as u64 == moved(be32(&p[k..k + 4]) as u64, &o.m, m), "a chunk offset still designates the same bytes");
                }
            }
            b"co64" => {
                check(same(&p[..8], &q[..8]), "the chunk count stays");
                for i in 0..be32(&p[4..8]) as usize {
                    let k = 8 + 8 * i;
                    let (u, w) = (u64::from_be_bytes(p[k..k + 8].try_into().unwrap()), u64::from_be_bytes(q[k..k + 8].try_into().unwrap()));
                    check(w == moved(u, &o.m, m), "a 64-bit chunk offset still designates the same bytes");
                }
            }
            b"tfhd" => {
                check(same(&p[..8], &q[..8]), "the fragment header stays");
                let mut at = 8;
                if p[3] & 1 != 0 {
                    let (u, w) = (u64::from_be_bytes(p[8..16].try_into().unwrap()), u64::from_be_bytes(q[8..16].try_into().unwrap()));
                    check(w == moved(u, &o.m, m), "a fragment's base offset still designates the same bytes");
                    at = 16;
                }
                check(same(&p[at..], &q[at..]), "the rest of the fragment header stays");
            }
            _ => check(same(p, q), "other atoms keep their bytes"),
        }
    }
}
fn tag(n: usize) -> Ilst {
    let mut t = Ilst::new();
    t.insert(Atom::new(AtomIdent::Fourcc(*b"\xa9nam"), AtomData::UTF8("x".repeat(n))));
    t
}
fn enc(n: usize) -> Vec<u8> { let s = vec![b'y'; n]; atom(b"ilst", &[&atom(b"\xa9nam", &[&atom(b"data", &[&[0, 0, 0, 1, 0, 0, 0, 0], &s])])]) }
fn hdlr() -> Vec<u8> { let x = u8(); atom(b"hdlr", &[&[0; 8], b"mdirappl", &[x; 9]]) }
fn free(n: usize) -> Vec<u8> { if n == 0 { return vec![]; } atom(b"free", &[&vec![0; n - 8]]) }
/// The padding choices of a save
fn padding(k: usize) -> WriteOptions { match k { 0 => WriteOptions::new().preferred_padding(0), 1 => WriteOptions::new(), 2 => WriteOptions::new().preferred_padding(3), _ => WriteOptions::new().preferred_padding(9) } }
const N: [usize; 14] = [1, 5, 11, 12, 13, 19, 20, 21, 27, 28, 29, 37, 60, 300];
/// One operation, checked against the file before it
fn step(f: Vec<u8>, op: usize, pad: usize) -> Vec<u8> {
    let mut c = Cursor::new(f.clone());
    let r = if op == 0 { TagType::Mp4Ilst.remove_from(&mut c, padding(pad)).is_ok() } else { tag(N[op - 1]).save_to(&mut c, padding(pad)).is_ok() };
    check(r, "tagging a well-formed file succeeds");
    let n = c.into_inner();
    if !r { return n; }
    let (Some(om), Some(m)) = (mdats(&f), mdats(&n)) else { check(false, "the atoms fill the file exactly"); return n };
    let o = Old { v: &f, m: om };
    compare(&o, 0, f.len(), &n, &m, 0, n.len(), b"file");
    let mut c = Cursor::new(n);
    let r = Mp4File::read_from(&mut c, ParseOptions::new().read_properties(false).parsing_mode(ParsingMode::Strict));
    let n = c.into_inner();
    check(r.is_ok(), "the file can be read again");
    if let Ok(mut r) = r {
        let t = r.remove_ilst();
        let got = t.as_ref().and_then(|t| t.title());
        if op == 0 { check(t.as_ref().map_or(true, |t| t.is_empty()), "the removed tag is gone"); }
        else { check(got.map_or(false, |g| g.len() == N[op - 1] && g.as_bytes()[0] == b'x'), "the saved tag is read back"); }
    }
    n
}
/// How the file is laid out
struct Lay { order: usize, udta: usize, at: usize, before: usize, after: usize, ext: usize, frag: bool }
fn build(l: &Lay) -> Vec<u8> {
    let other = vec(3);
    let mdat = any(l.ext == 1, b"mdat", &[&vec(9)]);
    let mdat2 = atom(b"mdat", &[&vec(5)]);
    let e = |k: usize| l.ext == k;
    // two choices of filler let the meta atom hold its parts
    let ilst = match l.udta { 3 => vec![], _ => enc(20) };
    let inner = [hdlr(), free(l.before), ilst, free(l.after)].concat();
    let udta = match l.udta {
        0 => vec![],
        1 => atom(b"udta", &[&atom(b"cprt", &[&other])]),
        2 | 3 => any(e(3), b"udta", &[&any(e(4), b"meta", &[&[0; 4], &inner])]),
        4 => atom(b"udta", &[&atom(b"cprt", &[&other]), &atom(b"meta", &[&inner]), &atom(b"name", &[&other])]),
        5 => atom(b"udta", &[&atom(b"meta", &[&[0; 4], &inner, &atom(b"xml ", &[&other])])]),
        _ => atom(b"udta", &[]),
    };
    // Tables of offsets, filled in below
    let trak = |id: &[u8; 4], n: u32, w: usize| atom(b"trak", &[&atom(b"tkhd", &[&other]), &atom(b"mdia", &[&atom(b"minf", &[&atom(b"smhd", &[]), &atom(b"stbl", &[&atom(b"stsz", &[&other]), &atom(id, &[&[0; 4], &n.to_be_bytes(), &vec![0xee; n as usize * w]])])])])]);
    let (t1, t2) = (trak(b"stco", 2, 4), trak(b"co64", 2, 8));
    let mvhd = atom(b"mvhd", &[&other]);
    let moov = match l.at {
        0 => any(e(2), b"moov", &[&mvhd, &t1, &t2, &udta]),
        1 => any(e(2), b"moov", &[&udta, &mvhd, &t2, &t1]),
        _ => any(e(2), b"moov", &[&mvhd, &t2, &udta, &t1]),
    };
    let ftyp = atom(b"ftyp", &[b"M4A \0\0\0\0mp42"]);
    let fl = u8();
    assume((fl & 0xfe) & 0x11 == fl & 0xfe);
    let base = l.frag && decide(fl & 1 != 0);
    let moof = |i: u8| atom(b"moof", &[&atom(b"mfhd", &[&other]), &atom(b"traf", &[&atom(b"tfhd", &[&[0, 0, 0, fl], &[0, 0, 0, i], if base { &[0xee; 8] } else { &[] }, &other]), &atom(b"trun", &[&other])])]);
    let mut v = ftyp;
    match l.order {
        0 => for p in [&moov, &mdat] { v.extend_from_slice(p) },
        1 => for p in [&mdat, &moov] { v.extend_from_slice(p) },
        2 => for p in [&mdat2, &moov, &free(12), &mdat] { v.extend_from_slice(p) },
        _ => for p in [&atom(b"free", &[&other]), &moov, &mdat, &mdat2] { v.extend_from_slice(p) },
    }
    if l.frag { for p in [&moof(1), &mdat2, &moof(2), &mdat] { v.extend_from_slice(p) } }
    let Some(m) = mdats(&v) else { return v };
    // every table entry points into some mdat
    fill_in(&mut v, 0, usize::MAX, &m, l.order == 1, &mut 0);
    v
}
fn fill_in(v: &mut Vec<u8>, from: usize, to: usize, m: &[(usize, usize)], forward: bool, k: &mut usize) {
    let to = to.min(v.len());
    let Some(a) = atoms(v, from, to) else { return };
    for (id, _, c, end) in a {
        let at = |k: usize| {
            let (s, e) = m[k % m.len()];
            let x = u8() as u64;
            assume(x <= (e - s) as u64);
            s as u64 + x
        };
        match &id {
            b"stco" => for i in 0..2 { let x = at(i); v[c + 8 + 4 * i..c + 12 + 4 * i].copy_from_slice(&(x as u32).to_be_bytes()); },
            b"co64" => for i in 0..2 { let x = at(i); v[c + 8 + 8 * i..c + 16 + 8 * i].copy_from_slice(&x.to_be_bytes()); },
            b"tfhd" => if end - c > 16 { let x = at(if forward { *k } else { m.len() - 1 - *k % m.len() }); v[c + 8..c + 16].copy_from_slice(&x.to_be_bytes()); },
            _ if id != *b"udta" && DEEP.contains(&&id) => fill_in(v, c, end, m, forward, k),
            _ => {}
        }
        if &id == b"moof" { *k += 1; }
    }
}

harnesses! {
    fn h_fit() {
        let b = [0, 8, 24][choose(3)];
        let a = [0, 8, 9, 40][choose(4)];
        let l = Lay { order: choose(2), udta: [2, 4, 5][choose(3)], at: 0, before: b, after: a, ext: 0, frag: false };
        let f = build(&l);
        reach(1);
        step(f, choose(15), choose(4));
    }
    fn h_layout() {
        let l = Lay { order: choose(4), udta: choose(7), at: choose(3), before: 0, after: [0, 30][choose(2)], ext: choose(5), frag: choose(2) == 1 };
        let f = build(&l);
        reach(1);
        step(f, [0, 1, 5, 6, 14][choose(5)], choose(2));
    }
    fn h_two() {
        let l = Lay { order: choose(2), udta: [0, 1, 2, 4][choose(4)], at: choose(2), before: 0, after: [0, 30][choose(2)], ext: 0, frag: false };
        let f = build(&l);
        reach(1);
        let f = step(f, [0, 1, 7, 14][choose(4)], choose(2));
        let f = step(f, [0, 1, 7, 12, 14][choose(5)], choose(2));
        if T { step(f, [0, 5, 14][choose(3)], choose(2)); }
    }
}
