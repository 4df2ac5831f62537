//! bound: any 2 (thorough 4) consecutive bytes (every position) arbitrary, or the end cut off anywhere, in 33 small files of the twelve formats; every ID3v2 and APE template tag in front of or behind a minimal stream likewise; implicit conversions on or off
//! bound: Strict against BestAttempt and BestAttempt against Relaxed
//! assume: the allocation limit is lowered to 512 bytes; no ID3v2 tag buried in junk before the first MPEG frame (Strict mode does not look there)
//! split: 1
//! secs: 180
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;

fn run(f: usize, mut v: Vec<u8>) {
    small_limit();
    if choose(2) == 0 { window(&mut v, t(2, 4), 1); } else { let n = place(v.len()); v.truncate(n); }
    compare(f, &v)
}
fn compare(f: usize, v: &[u8]) {
    let k = choose(2);
    let c = lazy();
    let with = |m: usize| { let mut o = ParseOptions::new(); read_any(f, &mut Cursor::new(v), o.parsing_mode(mode(m)).implicit_conversions(c)) };
    let Ok(a) = with(k) else { reach(1); return };
    let Ok(b) = with(k + 1) else { check(false, "a laxer parsing mode rejects what a stricter one accepts"); return };
    if k == 0 {
        check(same_props(&a, &b), "BestAttempt mode reports other properties than Strict for a file Strict accepts");
        check(same_tags(&a, &b, true), "BestAttempt mode reports other tags than Strict for a file Strict accepts");
    }
    reach(2)
}

harnesses! {
    fn h_mpeg() { let k = [0, 1, 3, 4][choose(4)]; run(MPEG, stream(MPEG, k)) }
    fn h_aac() { let k = choose(streams(AAC)); run(AAC, stream(AAC, k)) }
    fn h_ape() { let k = choose(streams(APE)); run(APE, stream(APE, k)) }
    fn h_wv() { let k = choose(streams(WV)); run(WV, stream(WV, k)) }
    fn h_mpc() { let k = choose(streams(MPC)); run(MPC, stream(MPC, k)) }
    fn h_wav() { run(WAV, template(WAV, 0)) }
    fn h_aiff() { run(AIFF, template(AIFF, 0)) }
    fn h_flac() { let k = choose(count(FLAC)); run(FLAC, template(FLAC, k)) }
    fn h_vorbis() { run(VORBIS, template(VORBIS, 0)) }
    fn h_opus() { let k = choose(count(OPUS)); run(OPUS, template(OPUS, k)) }
    fn h_speex() { run(SPEEX, template(SPEEX, 0)) }
    fn h_mp4() { let k = choose(count(MP4)); run(MP4, template(MP4, k)) }
    fn h_id3_a() { tag(id3_a()) }
    fn h_id3_b() { tag(id3_b()) }
    fn h_id3_c() { tag(id3_c()) }
    fn h_id3_d() { tag(id3_d()) }
    fn h_ape_tag() {
        small_limit();
        let mut a = ape_tag(choose(2) == 1);
        window(&mut a, t(2, 4), 1);
        compare(MPC, &cat(&[&sv8(), &[0; 40], &a]))
    }
}
fn tag(mut v: Vec<u8>) {
    small_limit();
    window(&mut v, t(2, 4), 1);
    compare(AAC, &cat(&[&v, &adts(3), &[0; 160]]))
}
