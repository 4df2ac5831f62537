//! bound: any 2 (thorough 4) consecutive bytes (every position) arbitrary, or the end cut off anywhere, in 34 small files of the twelve formats; every ID3v2 and APE template tag in front of or behind a minimal stream likewise; every parsing mode, implicit conversions on or off
//! bound: each of the three reading options switched off on its own, compared with the reading that has everything on
//! assume: the allocation limit is lowered to 512 bytes
//! split: 1
//! secs: 150
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;

fn run(f: usize, mut v: Vec<u8>) {
    small_limit();
    if choose(2) == 0 { window(&mut v, t(2, 4), 1); } else { let n = place(v.len()); v.truncate(n); }
    compare(f, &v)
}
fn compare(f: usize, v: &[u8]) {
    let base = || { let mut o = ParseOptions::new(); o.parsing_mode(ParsingMode::BestAttempt) };
    let m = lazy_mode();
    let c = lazy();
    let full = read_any(f, &mut Cursor::new(v), base().parsing_mode(m).implicit_conversions(c));
    let Ok(full) = full else { reach(1); return };
    let o = choose(3);
    let part = base().parsing_mode(m).implicit_conversions(c);
    let mut part = part;
    let part = match o { 0 => part.read_tags(false), 1 => part.read_properties(false), _ => part.read_cover_art(false) };
    let Ok(part) = read_any(f, &mut Cursor::new(v), part) else { check(false, "reading less makes the file fail"); return };
    if o != 1 { check(same_props(&full, &part), "the properties depend on the tags being read"); }
    match o {
        0 => check(part.tags().iter().all(|t| !has_items(t)), "a tag is reported with tag reading off"),
        1 => check(same_tags(&full, &part, true), "the tags depend on the properties being read"),
        _ => {
            check(part.tags().iter().all(|t| t.pictures().is_empty()), "a picture is reported with cover art reading off");
            check(same_tags(&full, &part, false), "cover art reading changes more than the pictures");
        }
    }
    reach(2)
}

harnesses! {
    fn h_mpeg() { let k = choose(streams(MPEG)); run(MPEG, stream(MPEG, k)) }
    fn h_aac() { let k = choose(streams(AAC)); run(AAC, stream(AAC, k)) }
    fn h_ape() { let k = choose(streams(APE)); run(APE, stream(APE, k)) }
    fn h_wv() { let k = choose(streams(WV)); run(WV, stream(WV, k)) }
    fn h_mpc() { let k = choose(streams(MPC)); run(MPC, stream(MPC, k)) }
    fn h_wav() { run(WAV, template(WAV, 0)) }
    fn h_aiff() { run(AIFF, template(AIFF, 0)) }
    fn h_flac() { let k = choose(count(FLAC)); run(FLAC, template(FLAC, k)) }
    fn h_vorbis() { run(VORBIS, template(VORBIS, 0)) }
    fn h_opus() { let k = choose(count(OPUS)); run(OPUS, template(OPUS, k)) }
    fn h_speex() { run(SPEEX, template(SPEEX, 0)) }
    fn h_mp4() { let k = choose(count(MP4)); run(MP4, template(MP4, k)) }
    fn h_id3_a() { tag(id3_a()) }
    fn h_id3_b() { tag(id3_b()) }
    fn h_id3_c() { tag(id3_c()) }
    fn h_id3_d() { tag(id3_d()) }
    fn h_ape_tag() {
        small_limit();
        let mut a = ape_tag(choose(2) == 1);
        window(&mut a, t(2, 4), 1);
        compare(MPC, &cat(&[&sv8(), &[0; 40], &a]))
    }
}
fn tag(mut v: Vec<u8>) {
    small_limit();
    window(&mut v, t(2, 4), 1);
    compare(AAC, &cat(&[&v, &adts(3), &[0; 160]]))
}
