//! bound: 34 small files of the twelve formats with rich tags (about 60 to 700 bytes); every read call returns at most an arbitrary 1 to 8 bytes (any one size per run, or at most 3 for one arbitrary call), and one arbitrary read call is interrupted
//! bound: every reading (of a known or guessed format), saving or removing likewise with a file that transfers at most 1 to 4 (thorough 16) bytes per call
//! bound: every read, write, seek, length or truncate call that a reading, saving or removing makes fails at an arbitrary call, or from there on
//! assume: the allocation limit is lowered to 512 bytes; the files are well-formed and their contents fixed
//! split: 1
//! secs: 150
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;
use lofty::tag::{Tag, TagType};
use std::io::{Error, ErrorKind, Result as Io};

/// A reader that hands out its data in small pieces
struct Chop<'a> { c: Cursor<&'a [u8]>, most: usize, at: u16, irq: u16, n: u16 }
impl Read for Chop<'_> {
    fn read(&mut self, b: &mut [u8]) -> Io<usize> {
        self.n += 1;
        if decide(self.n == self.irq) { return Err(ErrorKind::Interrupted.into()); }
        let most = if decide(self.n == self.at) { 1 } else { self.most };
        let k = b.len().min(most);
        self.c.read(&mut b[..k])
    }
}
impl Seek for Chop<'_> { fn seek(&mut self, p: SeekFrom) -> Io<u64> { self.c.seek(p) } }

/// A file where everything fails from some operation on
struct Faulty { c: Cursor<Vec<u8>>, once: bool, at: u16, n: std::cell::Cell<u16>, failed: std::cell::Cell<bool> }
impl Faulty {
    fn new(v: Vec<u8>, at: u16) -> Faulty { Faulty { c: Cursor::new(v), at, once: choose(2) == 1, n: 0.into(), failed: false.into() } }
    fn op(&self) -> Io<()> {
        if self.failed.get() { return if self.once { Ok(()) } else { Err(ErrorKind::Other.into()) }; }
        self.n.set(self.n.get() + 1);
        if decide(self.n.get() == self.at) { self.failed.set(true); return Err(Error::from(ErrorKind::Other)); }
        Ok(())
    }
}
impl Read for Faulty { fn read(&mut self, b: &mut [u8]) -> Io<usize> { self.op()?; self.c.read(b) } }
impl Seek for Faulty { fn seek(&mut self, p: SeekFrom) -> Io<u64> { self.op()?; self.c.seek(p) } }
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> Io<usize> { self.op()?; self.c.write(b) }
    fn flush(&mut self) -> Io<()> { Ok(()) }
}
impl lofty::io::Truncate for Faulty { fn truncate(&mut self, n: u64) -> Io<()> { self.op()?; self.c.get_mut().truncate(n as usize); Ok(()) } }
impl lofty::io::Length for Faulty { fn len(&self) -> Io<u64> { self.op()?; Ok(self.c.get_ref().len() as u64) } }

fn opts() -> ParseOptions { let mut o = ParseOptions::new(); o.parsing_mode(lazy_mode()) }
fn pieces(f: usize) {
    small_limit();
    let k = choose(count(f));
    let v = template(f, k);
    let m = choose(3);
    let with = || { let mut o = ParseOptions::new(); o.parsing_mode(mode(m)) };
    let Ok(whole) = read_any(f, &mut Cursor::new(&v[..]), with()) else { reach(1); return };
    // all calls short, or one short and one interrupted
    let all = choose(2) == 0;
    let most = if all { 1 + choose(t(3, 8)) } else { usize::MAX };
    let (at, irq) = if all { (0, 0) } else { (u16() , u16()) };
    let mut r = Chop { c: Cursor::new(&v), most, at, irq, n: 0 };
    if !all { assume((at == 0) | (irq == 0)); }
    let Ok(part) = read_any(f, &mut r, with()) else { check(false, "a file fails when its data arrives in pieces"); return };
    check(same_props(&whole, &part), "the properties depend on how the data arrives");
    check(same_tags(&whole, &part, true), "the tags depend on how the data arrives");
    reach(2)
}
fn reading(f: usize) {
    small_limit();
    let k = choose(count(f));
    let mut r = Faulty::new(template(f, k), u16());
    let ok = read_own(f, &mut r, opts());
    if r.failed.get() { check(!ok, "a reading succeeds although the reader failed"); reach(2) } else { reach(1) }
}
fn tag(t: TagType) -> Tag {
    let mut x = Tag::new(t);
    x.set_title("a new title".into());
    x
}
fn writing(f: usize, types: &[TagType]) {
    let k = choose(count(f));
    let t = types[choose(types.len())];
    let mut r = Faulty::new(template(f, k), u16());
    let ok = if choose(2) == 0 { tag(t).save_to(&mut r, WriteOptions::default()).is_ok() } else { t.remove_from(&mut r, WriteOptions::default()).is_ok() };
    if r.failed.get() { check(!ok, "a saving or removing succeeds although the file failed"); reach(2) } else { reach(1) }
}
/// A file whose calls transfer little at a time
struct Slow { c: Cursor<Vec<u8>>, most: usize }
impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> Io<usize> { let k = b.len().min(self.most); self.c.read(&mut b[..k]) } }
impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> Io<u64> { self.c.seek(p) } }
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> Io<usize> { let k = b.len().min(self.most); self.c.write(&b[..k]) }
    fn flush(&mut self) -> Io<()> { Ok(()) }
}
impl lofty::io::Truncate for Slow { fn truncate(&mut self, n: u64) -> Io<()> { self.c.get_mut().truncate(n as usize); Ok(()) } }
impl lofty::io::Length for Slow { fn len(&self) -> Io<u64> { Ok(self.c.get_ref().len() as u64) } }
fn slow(f: usize, types: &[TagType]) {
    let k = choose(count(f));
    let t = types[choose(types.len())];
    let save = choose(2) == 0;
    let mut a = Cursor::new(template(f, k));
    let mut b = Slow { c: a.clone(), most: 1 + choose(crate::sym::t(4, 16)) };
    let (x, y) = if save {
        (tag(t).save_to(&mut a, WriteOptions::default()).is_ok(), tag(t).save_to(&mut b, WriteOptions::default()).is_ok())
    } else {
        (t.remove_from(&mut a, WriteOptions::default()).is_ok(), t.remove_from(&mut b, WriteOptions::default()).is_ok())
    };
    check(x == y, "whether a file is written depends on how the data is transferred");
    check(!x || same(a.get_ref(), b.c.get_ref()), "what is written depends on how the data is transferred");
    reach(1)
}
/// As `reading`, with the format found by the probe
fn probing(f: usize) {
    small_limit();
    let k = choose(count(f));
    let mut r = Faulty::new(template(f, k), u16());
    let ok = match lofty::probe::Probe::new(std::io::BufReader::with_capacity(1 << choose(7), &mut r)).options(opts()).guess_file_type() { Ok(p) => p.read().is_ok(), Err(_) => false };
    if r.failed.get() { check(!ok, "a reading succeeds although the reader failed"); reach(2) } else { reach(1) }
}
use TagType::*;
harnesses! {
    fn h_pieces_mpeg() { pieces(MPEG) }
    fn h_pieces_aac() { pieces(AAC) }
    fn h_pieces_ape() { pieces(APE) }
    fn h_pieces_wv() { pieces(WV) }
    fn h_pieces_mpc() { pieces(MPC) }
    fn h_pieces_wav() { pieces(WAV) }
    fn h_pieces_aiff() { pieces(AIFF) }
    fn h_pieces_flac() { pieces(FLAC) }
    fn h_pieces_vorbis() { pieces(VORBIS) }
    fn h_pieces_opus() { pieces(OPUS) }
    fn h_pieces_speex() { pieces(SPEEX) }
    fn h_pieces_mp4() { pieces(MP4) }
    fn h_reading_mpeg() { reading(MPEG) }
    fn h_reading_aac() { reading(AAC) }
    fn h_reading_ape() { reading(APE) }
    fn h_reading_wv() { reading(WV) }
    fn h_reading_mpc() { reading(MPC) }
    fn h_reading_wav() { reading(WAV) }
    fn h_reading_aiff() { reading(AIFF) }
    fn h_reading_flac() { reading(FLAC) }
    fn h_reading_vorbis() { reading(VORBIS) }
    fn h_reading_opus() { reading(OPUS) }
    fn h_reading_speex() { reading(SPEEX) }
    fn h_reading_mp4() { reading(MP4) }
    fn h_writing_mpeg() { writing(MPEG, &[Id3v2, Ape, Id3v1]) }
    fn h_writing_aac() { writing(AAC, &[Id3v2, Id3v1]) }
    fn h_writing_ape() { writing(APE, &[Ape, Id3v1]) }
    fn h_writing_wv() { writing(WV, &[Ape, Id3v1]) }
    fn h_writing_mpc() { writing(MPC, &[Ape]) }
    fn h_writing_wav() { writing(WAV, &[Id3v2, RiffInfo]) }
    fn h_writing_aiff() { writing(AIFF, &[Id3v2, AiffText]) }
    fn h_writing_flac() { writing(FLAC, &[VorbisComments]) }
    fn h_writing_vorbis() { writing(VORBIS, &[VorbisComments]) }
    fn h_writing_opus() { writing(OPUS, &[VorbisComments]) }
    fn h_writing_speex() { writing(SPEEX, &[VorbisComments]) }
    fn h_writing_mp4() { writing(MP4, &[Mp4Ilst]) }
    fn h_probing_mpeg() { probing(MPEG) }
    fn h_probing_aac() { probing(AAC) }
    fn h_probing_ape() { probing(APE) }
    fn h_probing_wv() { probing(WV) }
    fn h_probing_mpc() { probing(MPC) }
    fn h_probing_wav() { probing(WAV) }
    fn h_probing_aiff() { probing(AIFF) }
    fn h_probing_flac() { probing(FLAC) }
    fn h_probing_vorbis() { probing(VORBIS) }
    fn h_probing_opus() { probing(OPUS) }
    fn h_probing_speex() { probing(SPEEX) }
    fn h_probing_mp4() { probing(MP4) }
    fn h_slow_mpeg() { slow(MPEG, &[Id3v2, Ape, Id3v1]) }
    fn h_slow_aac() { slow(AAC, &[Id3v2, Id3v1]) }
    fn h_slow_ape() { slow(APE, &[Ape, Id3v1]) }
    fn h_slow_wv() { slow(WV, &[Ape, Id3v1]) }
    fn h_slow_mpc() { slow(MPC, &[Ape]) }
    fn h_slow_wav() { slow(WAV, &[Id3v2, RiffInfo]) }
    fn h_slow_aiff() { slow(AIFF, &[Id3v2, AiffText]) }
    fn h_slow_flac() { slow(FLAC, &[VorbisComments]) }
    fn h_slow_vorbis() { slow(VORBIS, &[VorbisComments]) }
    fn h_slow_opus() { slow(OPUS, &[VorbisComments]) }
    fn h_slow_speex() { slow(SPEEX, &[VorbisComments]) }
    fn h_slow_mp4() { slow(MP4, &[Mp4Ilst]) }
}
