//! bound: FileType::from_buffer over all buffers of up to 44 bytes; Probe::guess_file_type over all streams of up to 40 bytes, started at offset 0 or 3, with any junk limit; streams of up to 60 bytes that start with an ID3v2 tag of any version and flags and any size (0 to 20 byte by byte, anything larger), followed by arbitrary bytes
//! bound: extensions: all byte strings of up to 5 bytes; all 12 file types against all 7 tag types, tables compared with what saving and reading a file does
//! assume: no stream that carries two signatures (`ftyp` behind another one); ID3v2 versions 2 to 4 and sizes without top bits (others are no valid tags)
//! secs: 120
use crate::sym::*;
use crate::tmpl::*;
use crate::util::*;
use lofty::file::EXTENSIONS;
use lofty::probe::Probe;
use lofty::tag::{Tag, TagType};

fn has(b: &[u8], at: usize, magic: &[u8]) -> bool { b.len() >= at + magic.len() && same(&b[at..at + magic.len()], magic) }
/// MPEG or AAC, by the two bytes of a frame sync.
fn frame(b: u8) -> FileType { if (b & 0x16) == 0x10 { FileType::Aac } else { FileType::Mpeg } }
/// The signatures, as the formats define them.
fn magic(b: &[u8]) -> Option<FileType> {
    use FileType::*;
    if b.len() >= 2 && (b[0] == 0xff) & (b[1] >= 0xe0) { return Some(frame(b[1])); }
    if has(b, 0, b"MAC") { return Some(Ape); }
    if has(b, 0, b"fLaC") { return Some(Flac); }
    if has(b, 0, b"wvpk") { return Some(WavPack); }
    if has(b, 0, b"MPCK") || has(b, 0, b"MP+") { return Some(Mpc); }
    if has(b, 0, b"RIFF") && has(b, 8, b"WAVE") { return Some(Wav); }
    if has(b, 0, b"FORM") && (has(b, 8, b"AIFF") || has(b, 8, b"AIFC")) { return Some(Aiff); }
    if has(b, 0, b"OggS") && b.len() >= 36 {
        // page header of 27 bytes and a single lacing value
        if has(b, 28, b"\x01vorbis") || has(b, 29, b"vorbis") { return Some(Vorbis); }
        if has(b, 28, b"OpusHead") { return Some(Opus); }
        if has(b, 28, b"Speex   ") { return Some(Speex); }
    }
    if has(b, 4, b"ftyp") { return Some(Mp4); }
    None
}
/// Signatures that share their first bytes with another container's leave no room for a second guess.
fn container(b: &[u8]) -> bool {
    has(b, 0, b"MP+") || has(b, 0, b"MPCK") || (has(b, 0, b"RIFF") && b.len() >= 12) || (has(b, 0, b"FORM") && b.len() >= 12) || (has(b, 0, b"OggS") && b.len() >= 36)
}
/// The first frame sync that lies within the first `max` bytes.
fn junk(b: &[u8], max: usize) -> Option<FileType> {
    for i in 0..b.len() {
        if i + 2 > b.len() || i + 2 > max { return None; }
        if (b[i] == 0xff) & (b[i + 1] >= 0xe0) { return Some(frame(b[i + 1])); }
    }
    None
}
fn guess(v: &[u8], at: u64, max: Option<usize>) -> Option<FileType> {
    let mut c = Cursor::new(v);
    c.set_position(at);
    let mut p = Probe::new(c);
    if let Some(m) = max { p = p.options(ParseOptions::new().max_junk_bytes(m)); }
    let Ok(p) = p.guess_file_type() else { check(false, "guessing the type of a readable stream fails"); return None };
    let f = p.file_type();
    check(p.into_inner().position() == at, "guessing the type does not leave the reader where it was");
    f
}
fn limit_of(k: usize) -> (Option<usize>, usize) { match k { 0 => (None, 1024), 1 => (Some(0), 0), 2 => (Some(1), 1), 3 => (Some(2), 2), 4 => (Some(7), 7), _ => (Some(20), 20) } }

harnesses! {
    fn h_buffer() {
        let n = choose(t(45, 64));
        let v = vec(n);
        // MP4 is told by the fifth to eighth bytes, whatever comes before them
        assume(!(has(&v, 4, b"ftyp") && container(&v)));
        let r = FileType::from_buffer(&v);
        check(r == magic(&v), "detection does not return the type whose signature the buffer carries");
        if r.is_some() { reach(1) } else { reach(2) }
    }
    fn h_guess() {
        let n = choose(41);
        let at = [0, 3][choose(2)].min(n);
        let v = vec(n);
        let b = &v[at..];
        assume(!(has(b, 0, b"ID3") && b.len() >= 10));
        assume(!(has(b, 4, b"ftyp") && container(b)));
        let (m, max) = limit_of(choose(6));
        let r = guess(&v, at as u64, m);
        let want = if b.is_empty() { None } else { magic(&b[..b.len().min(36)]).or_else(|| junk(b, max)) };
        check(r == want, "the probe does not find the type of the stream");
        reach(1)
    }
    fn h_junk() {
        // nothing but a frame sync at any place, behind the limit or not
        let p = place(1100);
        let mut v = vec![0u8; 1110];
        fill(&mut v[p..p + 3]);
        assume(!(p == 0 && magic(&v[..36]).is_some()));
        check(guess(&v, 0, None) == junk(&v, 1024), "a frame sync behind junk is not found, or found where it should not be searched for");
        reach(1)
    }
    fn h_id3() {
        let size = choose(22);
        let flags = u8();
        let ver = u8();
        assume((ver >= 2) & (ver <= 4));
        let mut v = cat(&[b"ID3", &[ver, u8(), flags], &[0, 0, 0, size as u8], &vec(50 - 10 * choose(3))]);
        if size == 21 { fill(&mut v[6..10]); assume((v[6] | v[7] | v[8] | v[9]) < 0x80); assume(v[6] | v[7] | v[8] >= 1); }
        assume(!same(&v[4..8], b"ftyp"));
        let (m, max) = limit_of([0, 3, 5][choose(3)]);
        let r = guess(&v, 0, m);
        let footer = (ver != 2) & ((flags & 0x10) != 0);
        let skip = 10 + size + if footer { 10 } else { 0 };
        let b = if size == 21 || skip > v.len() { &[][..] } else { &v[skip..] };
        let want = if has(b, 0, b"MAC") { Some(FileType::Ape) }
            else if has(b, 0, b"fLaC") { Some(FileType::Flac) }
            else if has(b, 0, b"MPCK") || has(b, 0, b"MP+") { Some(FileType::Mpc) }
            else { junk(b, max) };
        check(r == want, "the probe does not find the type of a stream behind an ID3v2 tag");
        reach(1)
    }
    fn h_kept() {
        // a type that is already known is only replaced when another one is found
        let v = vec(4);
        let p = Probe::with_file_type(Cursor::new(&v[..]), FileType::Speex).guess_file_type();
        let Ok(p) = p else { check(false, "guessing the type of a readable stream fails"); return };
        check(p.file_type() == Some(magic(&v).or_else(|| junk(&v, 1024)).unwrap_or(FileType::Speex)), "a failed guess forgets the type the probe had");
        reach(1)
    }
    fn h_extension() {
        use std::os::unix::ffi::OsStrExt;
        let n = choose(6);
        let v = vec(n);
        let r = FileType::from_ext(std::ffi::OsStr::from_bytes(&v));
        let low: Vec<u8> = v.iter().map(|&b| if (b >= b'A') & (b <= b'Z') { b | 0x20 } else { b }).collect();
        use FileType::*;
        let table: [(&[u8], FileType); 26] = [
            (b"aac", Aac), (b"ape", Ape), (b"aiff", Aiff), (b"aif", Aiff), (b"afc", Aiff), (b"aifc", Aiff), (b"mp3", Mpeg), (b"mp2", Mpeg), (b"mp1", Mpeg),
            (b"wav", Wav), (b"wave", Wav), (b"wv", WavPack), (b"opus", Opus), (b"flac", Flac), (b"ogg", Vorbis), (b"mp4", Mp4), (b"m4a", Mp4), (b"m4b", Mp4),
            (b"m4p", Mp4), (b"m4r", Mp4), (b"m4v", Mp4), (b"3gp", Mp4), (b"mpc", Mpc), (b"mp+", Mpc), (b"mpp", Mpc), (b"spx", Speex)];
        let want = table.iter().find(|(k, _)| same(k, &low)).map(|x| x.1);
        check(r == want, "an extension is not mapped to its type regardless of its case");
        if want.is_some() { reach(1) } else { reach(2) }
    }
    fn h_extensions() {
        let k = choose(EXTENSIONS.len());
        let e = EXTENSIONS[k];
        check(FileType::from_ext(e).is_some(), "a listed extension is not recognised");
        check(FileType::from_path(format!("a.b/c.{e}")) == FileType::from_ext(e), "a path is not judged by its extension");
        check(EXTENSIONS.iter().filter(|x| **x == e).count() == 1, "an extension is listed twice");
        reach(1)
    }
    fn h_tables() {
        use FileType::*;
        let types = [Mpeg, Aac, Ape, WavPack, Mpc, Wav, Aiff, Flac, Vorbis, Opus, Speex, Mp4];
        let tags = [TagType::Ape, TagType::Id3v1, TagType::Id3v2, TagType::Mp4Ilst, TagType::VorbisComments, TagType::RiffInfo, TagType::AiffText];
        let k = choose(12);
        let tt = tags[choose(7)];
        let f = [MPEG, AAC, APE, WV, MPC, WAV, AIFF, FLAC, VORBIS, OPUS, SPEEX, MP4][k];
        let ty = types[k];
        let sup = ty.tag_support(tt);
        check(!sup.is_writable() || sup.is_readable(), "a tag can be written but not read");
        if tt == ty.primary_tag_type() { check(sup.is_writable(), "the primary tag type of a file type can not be written to it"); reach(1) }
        let v = template(f, 0);
        let mut c = Cursor::new(v);
        let mut tag = Tag::new(tt);
        tag.set_title(String::from("Title"));
        let saved = tag.save_to(&mut c, WriteOptions::default().preferred_padding(0)).is_ok();
        check(saved == sup.is_writable(), "a tag can be saved although it is declared unsupported, or the other way around");
        if saved {
            c.set_position(0);
            let Ok(r) = read_any(f, &mut c, ParseOptions::new()) else { check(false, "a saved file can not be read back"); return };
            check(r.file_type() == ty, "the reader reports another file type");
            check(r.tag(tt).is_some_and(|x| x.title().as_deref() == Some("Title")), "a tag that was saved is not read back");
            check(guess(c.get_ref(), 0, None) == Some(ty), "a saved file is no longer recognised");
            reach(2)
        } else { reach(3) }
    }
}
