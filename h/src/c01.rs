//! bound: any 4 consecutive bytes (2-byte steps) arbitrary, or the end cut off anywhere, in 19 small files of the five formats (MPEG: Xing, VBRI, CBR, junk, leading/trailing ID3v2, ID3v1, APE, Lyrics3; ADTS; Monkey's Audio old/new; WavPack; Musepack SV4-6, 7, 8), under every combination of parse options
//! bound: all header bytes arbitrary behind the signature: Monkey's Audio 72 bytes, WavPack 28 + 8 metadata bytes, SV8 stream header packet 12 bytes and any 6-byte packet sequence, SV7 24 bytes, SV4-6 12 bytes, ADTS 9 bytes, MPEG frame header 4, Xing 8 (12), VBRI 22 bytes
//! assume: the allocation limit is lowered to 512 bytes
//! split: 1
//! secs: 150
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;

fn run(f: usize, w: usize, stride: usize) {
    small_limit();
    let k = choose(streams(f));
    let mut v = stream(f, k);
    corrupt(&mut v, w, stride);
    let _ = read_own(f, &mut Cursor::new(&v), any_options());
    reach(1);
}
fn read(f: usize, v: &[u8]) {
    small_limit();
    let ok = read_own(f, &mut Cursor::new(v), ParseOptions::new().read_tags(false).parsing_mode(lazy_mode()));
    if ok { reach(2) } else { reach(3) }
}
harnesses! {
    fn h_mpeg() { run(MPEG, 4, 2) }
    fn h_aac() { run(AAC, 4, 2) }
    fn h_ape() { run(APE, 4, 2) }
    fn h_wv() { run(WV, 4, 2) }
    fn h_mpc() { run(MPC, 4, 2) }
    // headers without fixed parts
    fn h_head_ape() {
        let mut v = ape_new();
        let n = v.len();
        wild(&mut v, 4, n);
        v.resize(n + 200, 0);
        if choose(2) == 1 { v.truncate(n + 30); }
        read(APE, &v)
    }
    fn h_head_ape_old() {
        let mut v = ape_old();
        wild(&mut v, 4, 40);
        v.resize(240, 0);
        read(APE, &v)
    }
    fn h_head_wv() {
        let mut v = stream(WV, 0)[..36].to_vec();
        wild(&mut v, 4, 32);
        if choose(2) == 0 { v[24..28].copy_from_slice(&0x0480_1805u32.to_le_bytes()); wild(&mut v, 32, 36); }
        v.resize(240, 0);
        read(WV, &v)
    }
    fn h_head_wv2() {
        let mut v = stream(WV, 1);
        let n = v.len();
        wild(&mut v, 32, if T { n } else { 40 });
        v.resize(240, 0);
        read(WV, &v)
    }
    fn h_head_sv8() {
        let mut v = b"MPCKSH".to_vec();
        v.resize(20, 0);
        wild(&mut v, 6, 20);
        v.extend_from_slice(b"AP\x03SE\x03");
        v.resize(240, 0);
        read(MPC, &v)
    }
    fn h_head_sv8_packets() {
        let mut v = sv8()[..17].to_vec();
        v.extend_from_slice(&bytes::<6>());
        v.resize(240, 0);
        read(MPC, &v)
    }
    fn h_head_sv7() {
        let mut v = stream(MPC, 1);
        wild(&mut v, 3, 28);
        v.resize(240, 0);
        v[40..].fill(0);
        read(MPC, &v)
    }
    fn h_head_sv4() {
        let mut v = vec(12);
        v.resize(240, 0);
        read(MPC, &v)
    }
    fn h_head_adts() {
        let mut v = vec![0u8; 40];
        wild(&mut v, 0, 9);
        v.resize(240, 0);
        read(AAC, &v)
    }
    fn h_head_xing() {
        let mut v = stream(MPEG, 0)[23..].to_vec();
        v.truncate(192);
        wild(&mut v, 25, 25 + t(8, 12));
        v.resize(400, 0);
        read(MPEG, &v)
    }
    fn h_head_vbri() {
        let mut v = stream(MPEG, 1)[2..].to_vec();
        v.truncate(192);
        wild(&mut v, 40, 40 + 22);
        v.resize(400, 0);
        read(MPEG, &v)
    }
    fn h_head_mpeg() {
        let mut v = stream(MPEG, 4)[..192].to_vec();
        wild(&mut v, 0, 4);
        v.resize(400, 0);
        read(MPEG, &v)
    }
}
