//! bound: any 4 consecutive bytes (2-byte steps) arbitrary, or the end cut off anywhere, in a WAVE file (extensible fmt, fact, LIST INFO, data, id3), an AIFF-C file (all text chunks, COMT, SSND, ID3) and FLAC files with and without a leading ID3v2 tag (STREAMINFO, SEEKTABLE, comments, PICTURE, CUESHEET), under every combination of parse options
//! assume: the allocation limit is lowered to 512 bytes
//! split: 1
//! secs: 120
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;

fn run(f: usize, w: usize, stride: usize) {
    small_limit();
    let k = choose(count(f));
    let mut v = template(f, k);
    corrupt(&mut v, w, stride);
    let _ = read_own(f, &mut Cursor::new(&v), any_options());
    reach(1);
}
fn read(f: usize, v: &[u8]) {
    let ok = read_own(f, &mut Cursor::new(v), any_options());
    if ok { reach(2) } else { reach(3) }
}
harnesses! {
    fn h_wav() { run(WAV, 4, 2) }
    fn h_aiff() { run(AIFF, 4, 2) }
    fn h_flac() { run(FLAC, 4, 2) }
    // a whole chunk arbitrary
    fn h_head_fmt() {
        small_limit();
        let mut v = cat(&[b"RIFF\x60\0\0\0WAVEfmt \x28\0\0\0", &bytes::<40>(), b"fact\x04\0\0\0\x05\0\0\0data\x08\0\0\0\x07\x07\x07\x07\x07\x07\x07\x07"]);
        v[16] = [40, 39, 26, 18, 16, 15, 14][choose(7)];
        read(WAV, &v)
    }
    fn h_head_data() {
        small_limit();
        let v = cat(&[b"RIFF\x60\0\0\0WAVEfmt \x10\0\0\0", &bytes::<16>(), b"fact\x04\0\0\0", &bytes::<4>(), b"data", &bytes::<4>(), b"\x07\x07\x07\x07\x07\x07\x07\x07"]);
        read(WAV, &v)
    }
    fn h_head_comm() {
        small_limit();
        let mut v = cat(&[b"FORM\0\0\0\x46AIFFCOMM\0\0\0\x1a", &bytes::<26>(), b"SSND\0\0\0\x10", &[0; 16]]);
        if choose(2) == 1 { v[11] = b'C'; }
        v[19] = [26, 25, 22, 18, 17][choose(5)];
        read(AIFF, &v)
    }
    fn h_head_comt() {
        small_limit();
        let v = cat(&[b"FORM\0\0\0\x40AIFFCOMM\0\0\0\x12\0\x02\0\0\0\x05\0\x10\x40\x0e\xac\x44\0\0\0\0\0\0COMT\0\0\0\x10", &bytes::<4>(), b"\0\0\0\0\0", &bytes::<1>(), b"cc\0\0\0\0SSND\0\0\0\x04\0\0\0\0"]);
        read(AIFF, &v)
    }
    fn h_head_streaminfo() {
        small_limit();
        let mut v = cat(&[b"fLaC\x80\0\0\x22", &bytes::<34>(), &[0xff, 0xf8, 0, 0]]);
        v[7] = [34, 18, 17, 8][choose(4)];
        read(FLAC, &v)
    }
    // three block headers in a row
    fn h_head_blocks() {
        small_limit();
        let si = &flac(false)[4..42];
        let mut v = cat(&[b"fLaC", si]);
        for _ in 0..2 {
            let h = bytes::<4>();
            assume((h[1] == 0) & (h[2] == 0) & (h[3] < 6));
            v.extend_from_slice(&h);
            v.resize(v.len() + conc(h[3] as u64) as usize, 0);
        }
        v.extend_from_slice(&[0x81, 0, 0, 0]);
        read(FLAC, &v)
    }
    fn h_head_picture() {
        small_limit();
        let p = pic_block();
        let mut v = cat(&[&flac(false)[..42], b"\x86\0\0", &[p.len() as u8], &p]);
        let n = v.len();
        let k = n - p.len() + 4 * [0, 1, 5][choose(3)];
        let m = (k + 12).min(n);
        wild(&mut v, k, m);
        read(FLAC, &v)
    }
}
