//! bound: any 4 consecutive bytes (2-byte steps) arbitrary, or the end cut off anywhere, in three MP4 files (mp4a with rich ilst, alac with 64-bit atoms, fLaC with fragments), under every combination of parse options
//! bound: two consecutive atom headers arbitrary at each level (top, moov, udta/meta, ilst, freeform, data, stsd); esds, alac, dfLa, mdhd, stts, tfhd bodies arbitrary
//! assume: the allocation limit is lowered to 512 bytes
//! split: 1
//! secs: 150
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;

fn run(f: usize, w: usize, stride: usize) {
    small_limit();
    let k = choose(count(f));
    let mut v = template(f, k);
    corrupt(&mut v, w, stride);
    let _ = read_own(f, &mut Cursor::new(&v), any_options());
    reach(1);
}


fn read(v: &[u8]) {
    let ok = read_own(MP4, &mut Cursor::new(v), any_options());
    if ok { reach(2) } else { reach(3) }
}
fn ftyp() -> Vec<u8> { atom(b"ftyp", &[b"M4A \0\0\0\0"]) }
/// `moov` around this ilst
fn with_ilst(ilst: &[u8]) -> Vec<u8> {
    let meta = atom(b"meta", &[&[0; 4], ilst]);
    cat(&[&ftyp(), &atom(b"moov", &[&atom(b"udta", &[&meta])])])
}
fn with_entry(entry: &[u8]) -> Vec<u8> {
    let hd = atom(b"hdlr", &[&[0; 8], b"soun", &[0; 13]]);
    let mdhd = atom(b"mdhd", &[&[0; 12], &[0, 0, 0xac, 0x44, 0, 0, 0x24, 0, 0, 0, 0, 0]]);
    let stsd = atom(b"stsd", &[&[0, 0, 0, 0, 0, 0, 0, 1], entry]);
    let stts = atom(b"stts", &[&[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 4, 0]]);
    let trak = atom(b"trak", &[&atom(b"mdia", &[&mdhd, &hd, &atom(b"minf", &[&atom(b"stbl", &[&stsd, &stts])])])]);
    cat(&[&ftyp(), &atom(b"moov", &[&trak]), &atom(b"mdat", &[&[7; 16]])])
}
const FIXED: [u8; 28] = [0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 16, 0, 0, 0, 0, 0xac, 0x44, 0, 0];
harnesses! {
    fn h_mp4() { run(MP4, 4, 2) }
    // sizes: `n` atoms with arbitrary 32-bit and extended sizes at one level
    fn h_sizes_top() {
        small_limit();
        let mut v = ftyp();
        for id in [b"free", b"moov"] {
            v.extend_from_slice(&bytes::<4>());
            v.extend_from_slice(id);
            v.extend_from_slice(&bytes::<8>());
        }
        v.extend_from_slice(&[0; 4]);
        read(&v)
    }
    fn h_sizes_ilst() {
        small_limit();
        let mut l = vec![];
        for id in [b"\xa9nam", b"covr"] {
            l.extend_from_slice(&bytes::<4>());
            l.extend_from_slice(id);
            l.extend_from_slice(&bytes::<4>());
            l.extend_from_slice(b"data\0\0\0\x01\0\0\0\0T");
        }
        read(&with_ilst(&atom(b"ilst", &[&l])))
    }
    fn h_freeform() {
        small_limit();
        let part = |id: &[u8; 4], k: usize| if k == 1 { cat(&[b"\0\0\0\x01", id, &bytes::<8>(), &bytes::<4>(), b"m"]) } else { cat(&[&bytes::<4>(), id, &bytes::<4>(), b"m"]) };
        let k = choose(4);
        let l = cat(&[&part(b"mean", k & 1), &part(b"name", k >> 1), &atom(b"data", &[&[0, 0, 0, 1, 0, 0, 0, 0], b"v"])]);
        let l = if choose(2) == 0 { atom(b"----", &[&l]) } else { atom64(b"----", &[&l]) };
        read(&with_ilst(&atom(b"ilst", &[&l, &atom(b"free", &[&[0; 4]])])))
    }
    fn h_data() {
        small_limit();
        let id = [b"\xa9nam", b"trkn", b"covr", b"cpil", b"gnre", b"xxxx"][choose(6)];
        let l = if choose(2) == 0 {
            let mut d = cat(&[&bytes::<4>(), b"data", &bytes::<12>()]);
            d[5] = b'd' ^ bytes::<1>()[0];
            atom(id, &[&d])
        } else {
            atom(id, &[b"\0\0\0\x01data", &bytes::<8>(), &bytes::<9>()])
        };
        read(&with_ilst(&atom(b"ilst", &[&l])))
    }
    fn h_esds() {
        small_limit();
        let n = t(14, 24);
        let mut b = vec![3, 0x19, 0, 1, 0, 4, 0x11, 0x40, 0x15, 0, 0, 0, 0, 0, 0, 0, 0, 0xfa, 0, 5, 2, 0x12, 0x10, 6, 1, 2, 0, 0];
        let p = [0, 6, 14][choose(3)];
        let e = (p + n).min(28);
        wild(&mut b, p, e);
        read(&with_entry(&atom(b"mp4a", &[&FIXED, &atom(b"esds", &[&[0; 4], &b])])))
    }
    fn h_alac() {
        small_limit();
        let n = [24, 23, 20, 4, 0][choose(5)];
        let b = vec(n);
        read(&with_entry(&atom(b"alac", &[&FIXED, &atom(b"alac", &[&[0; 4], &b])])))
    }
    fn h_dfla() {
        small_limit();
        let mut b = cat(&[&bytes::<8>(), &bytes::<18>(), &[0; 16]]);
        b.truncate([42, 41, 20, 8, 7][choose(5)]);
        read(&with_entry(&atom(b"fLaC", &[&FIXED, &atom(b"dfLa", &[&b])])))
    }
    fn h_entry() {
        small_limit();
        let id = [b"mp4a", b"alac", b"fLaC", b"drms", b"xxxx"][choose(5)];
        let mut b = bytes::<28>().to_vec();
        let rest = bytes::<12>();
        b.extend_from_slice(&rest);
        b.truncate([40, 36, 28, 27, 16][choose(5)]);
        read(&with_entry(&atom(id, &[&b])))
    }
    fn h_times() {
        small_limit();
        let hd = atom(b"hdlr", &[&[0; 8], b"soun", &[0; 13]]);
        let ver = choose(2);
        let mut m = cat(&[&[ver as u8, 0, 0, 0], &bytes::<32>()]);
        m.truncate([24, 36][ver] - 4 * choose(2));
        let mdhd = atom(b"mdhd", &[&m]);
        let stts = atom(b"stts", &[&[0; 4], &bytes::<12>()]);
        let stsd = atom(b"stsd", &[&bytes::<8>(), &atom(b"alac", &[&FIXED, &atom(b"alac", &[&[0; 4], b"\0\0\x10\0\0\x10\x28\x0a\x0e\x02\0\xff\0\0\0\0\0\0\xfa\0\0\0\xac\x44"])])]);
        let trak = atom(b"trak", &[&atom(b"mdia", &[&mdhd, &hd, &atom(b"minf", &[&atom(b"stbl", &[&stts, &stsd])])])]);
        read(&cat(&[&ftyp(), &atom(b"moov", &[&trak]), &atom(b"mdat", &[&[7; 16]])]))
    }
    fn h_fragments() {
        small_limit();
        let t = mp4(2);
        let p = t.windows(4).position(|w| w == b"moof").unwrap() - 4;
        let mut f = bytes::<20>();
        f[0] = 0;
        let moof = atom(b"moof", &[&atom(b"traf", &[&atom(b"tfhd", &[&f]), &atom(b"trun", &[&bytes::<12>()])])]);
        read(&cat(&[&t[..p], &moof, &atom(b"mdat", &[&[7; 16]])]))
    }
}
