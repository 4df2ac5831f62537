#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a table here so that the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, observe, over=("inputs",), state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = state
    P.append(d)

L = "lofty/src/"
p("C01", "Elementary-stream readers are total on arbitrary bytes",
  "For every byte string presented as an MPEG audio, AAC (ADTS), Monkey's Audio, WavPack or Musepack file, and for every combination of parse options, reading it returns a value or an error. It never panics, never overflows or divides by zero, never reads out of bounds and always terminates after work bounded by the input size.",
  "all byte strings and all parse options/parsing modes",
  "Tests read a few dozen real assets and a handful of fuzz regressions; each of them is one point in a space of 2^(8n) files, and every length, offset and table index field can be adversarial.",
  [L+"mpeg/read.rs", L+"mpeg/header.rs", L+"mpeg/properties.rs", L+"aac/read.rs", L+"aac/header.rs", L+"ape/read.rs", L+"ape/properties.rs", L+"wavpack/properties.rs", L+"musepack/read.rs", L+"musepack/sv7/properties.rs", L+"musepack/sv8/read.rs", L+"id3/mod.rs"],
  [("frame sync search and header decoding", "mpeg/header.rs, aac/header.rs"), ("length checks before subtracting/slicing", "ape/properties.rs, wavpack/properties.rs, musepack/*")],
  ["MpegFile::read_from", "AacFile::read_from", "ApeFile::read_from", "WavPackFile::read_from", "MpcFile::read_from"])
p("C02", "RIFF WAVE, AIFF and FLAC readers are total on arbitrary bytes",
  "For every byte string presented as a WAV, AIFF/AIFC or FLAC file, and for every combination of parse options, reading it returns a value or an error. It never panics, overflows, divides by zero or reads out of bounds, and it always terminates after work bounded by the input size.",
  "all byte strings and all parse options/parsing modes",
  "Chunk and block sizes are attacker-controlled 24/32-bit fields; tests exercise consistent files and few truncated ones.",
  [L+"iff/chunk.rs", L+"iff/wav/read.rs", L+"iff/wav/properties.rs", L+"iff/aiff/read.rs", L+"iff/aiff/properties.rs", L+"flac/read.rs", L+"flac/block.rs", L+"flac/properties.rs"],
  [("chunk iterator bounds", "iff/chunk.rs Chunks"), ("FLAC metadata block reader", "flac/block.rs")],
  ["WavFile::read_from", "AiffFile::read_from", "FlacFile::read_from"])
p("C03", "Ogg readers and the page parser are total on arbitrary bytes",
  "For every byte string, parsing Ogg pages and packets and reading it as an Ogg Vorbis, Opus or Speex file returns a value or an error. It never panics, overflows, divides by zero or loops without consuming input.",
  "all byte strings and all parse options/parsing modes",
  "Tests use well-formed pages; segment tables, granule positions, channel counts and mapping families are all free fields.",
  ["ogg_pager/src/lib.rs", "ogg_pager/src/header.rs", "ogg_pager/src/packets.rs", L+"ogg/read.rs", L+"ogg/opus/properties.rs", L+"ogg/vorbis/properties.rs", L+"ogg/speex/properties.rs", L+"ogg/tag/read.rs"],
  [("page header parsing", "ogg_pager/src/header.rs"), ("duration/bitrate arithmetic", "ogg/*/properties.rs")],
  ["ogg_pager::Page::read", "ogg_pager::Packets::read", "OpusFile::read_from", "VorbisFile::read_from", "SpeexFile::read_from"])
p("C04", "The MP4 reader is total on arbitrary bytes",
  "For every byte string presented as an MP4 file, and every combination of parse options, reading it returns a value or an error. It never panics, overflows, reads out of bounds, or loops without consuming input, whatever atom sizes (including 0, 1/extended and oversized), nesting and contents are claimed.",
  "all byte strings and all parse options/parsing modes",
  "Atom sizes are nested attacker-controlled 32/64-bit integers; tests only contain a few malformed files.",
  [L+"mp4/atom_info.rs", L+"mp4/read/mod.rs", L+"mp4/read/atom_reader.rs", L+"mp4/moov.rs", L+"mp4/properties.rs", L+"mp4/ilst/read.rs"],
  [("atom header validation", "mp4/atom_info.rs"), ("bounded atom reader", "mp4/read/atom_reader.rs")],
  ["Mp4File::read_from"])
p("C05", "Tag decoders are total on arbitrary bytes",
  "Decoding any byte string as an ID3v2 tag (any version, flags, frame type, compression aside), an ID3v1 tag, an APE tag, a Vorbis comment block, an ilst atom list, a RIFF INFO list, AIFF text chunks or a picture block returns a value or an error in every parsing mode. It never panics, overflows, indexes out of bounds or loops forever.",
  "all byte strings, tag versions, flags, frame identifiers and parsing modes",
  "Tag payloads are the classic untrusted input; tests only hold one instance per frame kind.",
  [L+"id3/v2/read.rs", L+"id3/v2/header.rs", L+"id3/v2/frame/read.rs", L+"id3/v2/frame/content.rs", L+"id3/v2/items/", L+"id3/v1/read.rs", L+"ape/tag/read.rs", L+"ogg/tag/read.rs", L+"picture/mod.rs"],
  [("frame iterator", "id3/v2/frame/read.rs"), ("frame body decoders", "id3/v2/items/*.rs")],
  ["MpegFile::read_from", "Id3v1Tag::parse", "ApeFile::read_from", "FlacFile::read_from", "Picture::from_flac_bytes", "individual frame parse functions"])
p("C06", "Claimed sizes never cause unbounded memory requests",
  "No field inside a file can make reading or saving it request an amount of memory that is neither within the configured allocation limit nor proportional to the bytes actually present. A claimed size above the limit yields an error instead of an allocation. (Decompressing a compressed ID3v2 frame is outside this promise.)",
  "all byte strings and allocation limits",
  "Size fields are 32/64-bit; a test would have to guess the exact field whose value reaches an allocation unchecked.",
  [L+"util/alloc.rs", L+"config/global_options.rs", L+"iff/chunk.rs", L+"mp4/ilst/read.rs", L+"ape/tag/read.rs", L+"id3/v2/header.rs", L+"flac/block.rs"],
  [("fallible limited allocation", "util/alloc.rs try_vec!/VecFallibleCapacity")],
  ["allocation sizes requested while reading"])
p("C07", "Saving to or stripping a malformed file never panics or hangs",
  "For every byte string that is accepted as a file of a writable format, saving or removing a tag returns success or an error; it never panics, overflows or loops forever.",
  "all byte strings and tag types",
  "Writers re-scan files with their own parsers; tests only save to well-formed assets.",
  [L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs", L+"id3/v2/write/mod.rs", L+"id3/v2/write/chunk_file.rs", L+"id3/v1/write.rs", L+"ape/tag/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"mp4/ilst/write.rs"],
  [("per-format writers", "*/write.rs")],
  ["TagExt::save_to", "TagExt::remove_from"])
p("C08", "ID3v2 tags survive a write/read round trip",
  "Every frame that can be written in an ID3v2.4 (or, for the frames that version has, ID3v2.3) tag decodes to the same frame afterwards, for all texts, languages, descriptions, numbers, picture types and flags, in each text encoding. The encoded tag has a consistent header size, and writing what was read again yields the same bytes.",
  "all frame contents within the value domain of the frame type, write options",
  "Tests contain one fixed content per frame kind; content-dependent escapes (BOMs, terminators, unsynchronisation, sync-safe sizes) need specific bytes.",
  [L+"id3/v2/write/mod.rs", L+"id3/v2/write/frame.rs", L+"id3/v2/read.rs", L+"id3/v2/items/", L+"id3/v2/frame/content.rs"],
  [("frame as_bytes/parse pairs", "id3/v2/items/*.rs"), ("tag header and frame size encoding", "id3/v2/write/*.rs")],
  ["Id3v2Tag::dump_to", "MpegFile::read_from", "frame as_bytes/parse"])
p("C09", "ID3v1 encoding is exactly the 128-byte layout and round-trips",
  "Any ID3v1 tag encodes to exactly 128 bytes with each field at its specified offset, truncated and NUL padded to its width. Decoding those bytes returns the representable part of every field (Latin-1, cut to the field's width; the comment has 28 bytes, as in ID3v1.1), and re-encoding a decoded tag reproduces the same field bytes.",
  "all field values and all 128-byte blocks",
  "Field truncation, the year digits, the ID3v1.1 track number and genre ranges are boundary-driven.",
  [L+"id3/v1/read.rs", L+"id3/v1/write.rs", L+"id3/v1/tag.rs"],
  [("encode/parse", "id3/v1/write.rs encode, id3/v1/read.rs parse")],
  ["Id3v1Tag::dump_to", "Id3v1Tag::parse"])
p("C10", "APE tags survive a write/read round trip",
  "Every valid APE tag that is saved to a file is read back with the same items (key, value, type, read-only flag), in order, and its header and footer carry consistent sizes and item counts.",
  "all item keys, values and flags",
  "Tests use fixed items.",
  [L+"ape/tag/write.rs", L+"ape/tag/read.rs", L+"ape/tag/item.rs", L+"ape/header.rs"],
  [("item and footer encoding", "ape/tag/write.rs")],
  ["ApeTag::dump_to", "ApeTag::save_to", "ApeFile::read_from"])
p("C11", "Vorbis comments survive a write/read round trip",
  "Every Vorbis comment block (vendor, ordered fields, pictures) that is encoded decodes to the same vendor, fields in order and pictures, and declared lengths and counts match the contents. This holds for the block in FLAC and in every Ogg codec.",
  "all vendor strings, keys, values and pictures",
  "Tests use fixed comments.",
  [L+"ogg/tag.rs", L+"ogg/tag/read.rs", L+"ogg/tag/write.rs", L+"flac/write.rs", L+"picture/mod.rs"],
  [("comment encoding", "ogg/tag/write.rs create_comments"), ("comment decoding", "ogg/tag/read.rs read_comments")],
  ["VorbisComments::dump_to", "VorbisComments::save_to", "FlacFile::read_from", "VorbisFile::read_from"])
p("C12", "MP4 ilst metadata survives a write/read round trip",
  "Every ilst tag (fourcc and freeform atoms; non-empty text, integer, boolean, picture and unknown data, one or several values) that is saved is read back with the same atoms, and each atom's declared size equals its encoded size. Integers of one to four bytes, flags, genre numbers and track pairs decode to the values the format defines for them.",
  "all atom identifiers and values",
  "Tests use fixed atoms; integer widths and freeform names are value-driven.",
  [L+"mp4/ilst/write.rs", L+"mp4/ilst/read.rs", L+"mp4/ilst/atom.rs", L+"mp4/ilst/data_type.rs"],
  [("atom encoding", "mp4/ilst/write.rs"), ("atom decoding", "mp4/ilst/read.rs")],
  ["Ilst::dump_to", "Ilst::save_to", "Mp4File::read_from"])
p("C13", "RIFF INFO and AIFF text chunks survive a write/read round trip",
  "Every RIFF INFO list and every set of AIFF text chunks (name, author, copyright, annotations, comments) that is encoded decodes to the same values, with even-aligned chunks whose declared sizes match their contents.",
  "all keys and values",
  "Padding and NUL termination depend on text length parity.",
  [L+"iff/wav/tag/mod.rs", L+"iff/wav/tag/read.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs"],
  [("list encoding", "iff/wav/tag/write.rs"), ("text chunk encoding", "iff/aiff/tag/mod.rs")],
  ["RiffInfoList::dump_to", "AiffTextChunks::dump_to", "WavFile::read_from", "AiffFile::read_from"])
p("C14", "Tagging WAV and AIFF files preserves every other chunk",
  "Saving or removing an ID3v2 tag, RIFF INFO list or AIFF text chunks in a well-formed WAV/AIFF file leaves all other chunks byte-identical and in order. The result is again a well-formed container (form size and alignment correct) in which the saved tag is found, whatever the sizes, number and order of chunks.",
  "all well-formed chunk layouts and tags; save/remove sequences",
  "Tests save to one asset each, with one chunk order.",
  [L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs", L+"id3/v2/write/chunk_file.rs", L+"iff/chunk.rs"],
  [("splice of the tag chunk and form size update", "iff/wav/tag/write.rs, id3/v2/write/chunk_file.rs, iff/aiff/tag/mod.rs")],
  ["bytes of the file after TagExt::save_to/remove_from"], over=("inputs", "histories"))
p("C15", "Tagging FLAC files preserves the stream and unrelated metadata blocks",
  "Saving or removing Vorbis comments in a well-formed FLAC file leaves STREAMINFO, every unrelated metadata block and the audio frames byte-identical. STREAMINFO stays first, exactly one block carries the last-block flag, and the saved comments and pictures are read back.",
  "all metadata block layouts (types, sizes, padding, order), tags and padding options",
  "Tests use few assets; block order, padding presence and sizes interact.",
  [L+"flac/write.rs", L+"flac/block.rs", L+"flac/read.rs"],
  [("block rewriting and padding handling", "flac/write.rs")],
  ["bytes of the file after VorbisComments::save_to/remove_from"], over=("inputs", "histories"))
p("C16", "Tagging MPEG, AAC, APE, WavPack and Musepack files preserves the audio",
  "Saving or removing an ID3v2, ID3v1 or APE tag replaces only the tag of that type: the audio bytes and any tags of other types remain byte-identical, there is exactly one tag of the saved type, and removing what was added restores the file.",
  "all arrangements of leading/trailing tags, audio contents and saved tags; save/remove sequences",
  "Arrangements of up to four tags around the audio multiply; tests cover a few.",
  [L+"id3/v2/write/mod.rs", L+"id3/v1/write.rs", L+"ape/tag/write.rs", L+"id3/mod.rs"],
  [("locating existing tags", "id3/mod.rs find_id3v1/find_id3v2/find_lyrics3v2"), ("splicing the new tag", "ape/tag/write.rs, id3/*/write")],
  ["bytes of the file after TagExt::save_to/remove_from"], over=("inputs", "histories"))
p("C17", "Tagging Ogg files preserves packets and yields valid pages",
  "Saving Vorbis comments to an Ogg Vorbis/Opus/Speex file keeps the identification packet, the setup packet and all audio packets byte-identical with their granule positions. Every page written has a correct checksum, sequence number and lacing, and the saved comments are read back.",
  "all comment sizes and page layouts",
  "Lacing and page splitting depend on packet sizes around multiples of 255 and 65025.",
  [L+"ogg/tag/write.rs", "ogg_pager/src/lib.rs", "ogg_pager/src/paginate.rs", "ogg_pager/src/packets.rs"],
  [("repagination of the header packets", "ogg/tag/write.rs"), ("paginate/CRC", "ogg_pager/src/*")],
  ["bytes of the file after VorbisComments::save_to"])
p("C18", "Tagging MP4 files preserves media data and chunk offsets",
  "Saving or removing an ilst tag leaves all media data and unrelated atoms byte-identical; every stco/co64 (and moof/tfhd base) offset still designates the same media bytes, and the sizes of all enclosing atoms equal their contents.",
  "all atom layouts (moov before/after mdat, existing ilst, free atoms) and tag sizes",
  "Offset correction depends on where moov, mdat and free space lie and how much the tag grows; tests use one or two files.",
  [L+"mp4/ilst/write.rs", L+"mp4/write.rs"],
  [("parent size and chunk offset update", "mp4/ilst/write.rs, mp4/write.rs")],
  ["bytes of the file after Ilst::save_to/remove_from"], over=("inputs", "histories"))
p("C19", "WAV and AIFF properties equal what their headers specify",
  "For every well-formed WAV (PCM, float, extensible) or AIFF/AIFC header, the reported sample rate, channel count, bit depth, duration and bitrates are those the format's specification derives from the fmt/fact/data or COMM/SSND fields.",
  "all field values of the header chunks",
  "Tests read single assets; the arithmetic (80-bit floats, rounding, fallbacks) is value-driven.",
  [L+"iff/wav/properties.rs", L+"iff/aiff/properties.rs", L+"util/math.rs"],
  [("property computation", "iff/wav/properties.rs, iff/aiff/properties.rs")],
  ["WavProperties", "AiffProperties"])
p("C20", "FLAC properties equal what STREAMINFO specifies",
  "For every STREAMINFO block, the reported sample rate, channels, bit depth, signature, duration and bitrate are those encoded by its bit fields and the stream length.",
  "all STREAMINFO contents",
  "The fields are bit-packed across bytes; tests read one asset.",
  [L+"flac/properties.rs", L+"flac/read.rs"],
  [("STREAMINFO decoding", "flac/properties.rs")],
  ["FlacProperties"])
p("C21", "MPEG audio and ADTS headers decode as the standards specify",
  "For every four-byte MPEG audio frame header and every ADTS header, the reported version, layer, bitrate, sample rate, channel mode/configuration and frame length equal the standard's tables, reserved combinations are rejected, and Xing/Info/VBRI data yields the duration it encodes.",
  "all header bit patterns",
  "2^32 headers; tests read a handful of them.",
  [L+"mpeg/header.rs", L+"mpeg/constants.rs", L+"mpeg/properties.rs", L+"aac/header.rs", L+"aac/properties.rs"],
  [("header tables", "mpeg/constants.rs"), ("header decoding", "mpeg/header.rs, aac/header.rs")],
  ["MpegProperties", "AacProperties"])
p("C22", "Ogg codec properties equal what the headers and granules specify",
  "For every Vorbis, Opus and Speex identification header, the reported version, channels, sample rate, bitrates and mapping are the encoded ones, and the duration is the granule span (minus the Opus pre-skip) divided by the sample rate.",
  "all identification headers and granule positions",
  "Header fields are free 8/16/32-bit values; tests read one asset per codec.",
  [L+"ogg/vorbis/properties.rs", L+"ogg/opus/properties.rs", L+"ogg/speex/properties.rs"],
  [("identification header decoding", "ogg/*/properties.rs")],
  ["VorbisProperties", "OpusProperties", "SpeexProperties"])
p("C23", "APE, WavPack and Musepack properties equal what their headers specify",
  "For every supported Monkey's Audio descriptor/header, WavPack block header and Musepack SV7/SV8 stream header, the reported version, sample rate, channels, bit depth, duration and ReplayGain fields are those the format defines for the encoded values.",
  "all header contents",
  "Bit-packed headers with version-dependent layouts; tests read one asset each.",
  [L+"ape/properties.rs", L+"wavpack/properties.rs", L+"musepack/sv7/properties.rs", L+"musepack/sv8/properties.rs", L+"musepack/sv4to6/properties.rs"],
  [("header decoding", "*/properties.rs")],
  ["ApeProperties", "WavPackProperties", "MpcProperties"])
p("C24", "MP4 properties equal what the track atoms specify",
  "For every audio track, the duration is the mdhd duration over its timescale, and codec, sample rate, channels, bit depth and protection are those of the sample description (mp4a/esds, alac, fLaC).",
  "all mdhd/stsd/esds contents",
  "Tests read one asset per codec.",
  [L+"mp4/properties.rs"],
  [("track and sample description decoding", "mp4/properties.rs")],
  ["Mp4Properties"])
p("C25", "Parse options only select what is reported",
  "Turning tag reading off does not change the reported properties, and turning property reading off does not change the reported tags; cover-art reading off only removes pictures (FLAC picture blocks count as cover art). With tag reading off, no tag item is reported. For an input accepted with everything on, switching a part off never makes it fail.",
  "all inputs and option combinations",
  "Tests almost always use the default options; skipping a structure and parsing it must advance equally.",
  [L+"config/parse_options.rs", L+"mpeg/read.rs", L+"id3/v2/read.rs", L+"ape/read.rs", L+"flac/read.rs", L+"ogg/read.rs", L+"mp4/moov.rs", L+"iff/aiff/read.rs", L+"iff/wav/read.rs"],
  [("conditional tag/property parsing", "per-format read.rs")],
  ["XFile::read_from under different ParseOptions"], over=("inputs", "configurations"))
p("C26", "Stricter parsing modes only reject more",
  "Whatever Strict mode accepts, BestAttempt mode accepts with the same tags and properties, and whatever BestAttempt accepts, Relaxed accepts (it may discard invalid fields that the stricter mode kept). Left aside: a broken ID3v2 tag buried in junk before the first MPEG frame, which Strict does not look for.",
  "all inputs",
  "Needs pairs of runs over malformed inputs; tests check single malformed files in one mode.",
  [L+"config/parse_options.rs", L+"id3/v2/frame/read.rs", L+"mp4/atom_info.rs", L+"ogg/tag/read.rs", L+"tag/items/timestamp.rs", L+"iff/wav/properties.rs"],
  [("parsing-mode dependent error handling", "per-format readers")],
  ["XFile::read_from under the three ParsingModes"], over=("inputs", "configurations"))
p("C27", "File type detection follows the magic bytes and never panics",
  "Content-based detection returns the type whose signature the bytes carry, including, for MPEG, AAC, Monkey's Audio, FLAC and Musepack, behind a leading ID3v2 tag, and nothing otherwise (streams that carry two signatures at once aside); it never panics and leaves the reader where it was. Extension and type tables agree with each other.",
  "all byte prefixes",
  "Signatures overlap (MPEG sync vs ADTS, FORM/RIFF subtypes); tests feed assets only.",
  [L+"file/file_type.rs", L+"probe.rs"],
  [("signature table", "file/file_type.rs"), ("ID3v2 skipping", "probe.rs")],
  ["FileType::from_buffer", "Probe::guess_file_type"])
p("C28", "Sync-safe integers and unsynchronisation are inverse codecs",
  "Every representable integer survives sync-safe encoding and decoding, values that do not fit are rejected, and encoded values never have a byte with the top bit set. Removing unsynchronisation from an unsynchronised byte stream yields the original bytes regardless of how it is chunked by reads.",
  "all integers; all byte strings and read chunkings",
  "Boundary values at 7/14/21/28 bits and FF 00 patterns across buffer boundaries.",
  [L+"id3/v2/util/synchsafe.rs"],
  [("SynchsafeInteger, UnsynchronizedStream", "id3/v2/util/synchsafe.rs")],
  ["public SynchsafeInteger trait", "ID3v2 tags with the unsynchronisation flag"])
p("C29", "Text encodings round-trip",
  "Encoding a string free of NUL and byte order marks in Latin-1, UTF-16 (with or without BOM) or UTF-8 and decoding it gives the same string when representable, an error or documented replacement otherwise; decoding arbitrary bytes never panics, and terminated text stops exactly after its terminator.",
  "all strings and byte strings, all four ID3v2 encodings",
  "Surrogates, BOM order and terminator alignment are value-driven.",
  [L+"util/text.rs"],
  [("encode/decode", "util/text.rs")],
  ["ID3v2 text, comment and user text frames"])
p("C30", "Timestamps parse and print consistently",
  "Every valid timestamp prints to a string that parses back to the same timestamp. Every accepted string yields the components its digits spell (year up to 9999, the others up to 99). What a stricter mode accepts, a laxer one accepts, and parsing arbitrary bytes in any mode never panics.",
  "all component values and byte strings",
  "Tests list individual strings.",
  [L+"tag/items/timestamp.rs"],
  [("Timestamp::parse/Display/verify", "tag/items/timestamp.rs")],
  ["Timestamp::parse", "Display", "Timestamp::verify"])
p("C31", "Converting a generic tag to a format tag and back loses nothing it can represent",
  "For each tag format, a generic tag holding well-formed items that the format supports converts to that format and back with the same keys and values, up to the normal form of numbers, dates, flags and ratings and to keys that share one field of the format. Saving a generic tag stores what converting it stores. Splitting a format tag and merging it again yields the original items.",
  "all supported keys and values",
  "Hundreds of keys times value shapes (track/total pairs, ratings, flags); tests convert one representative tag.",
  [L+"tag/split_merge_tag.rs", L+"id3/v2/tag/conversion.rs", L+"id3/v2/tag.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs", L+"mp4/ilst/mod.rs", L+"iff/wav/tag/mod.rs", L+"iff/aiff/tag/mod.rs", L+"id3/v1/tag.rs"],
  [("split_tag/merge_tag, From conversions", "per-format tag modules")],
  ["Into<Tag>", "From<Tag>", "SplitTag/MergeTag"])
p("C32", "Item key mappings are consistent in both directions",
  "For every tag type, mapping a known item key to its format key and back gives the same item key, apart from the pairs that share one field of the format by design (such as number and total). Distinct keys never collide in a way that loses one, and format keys are looked up without regard to ASCII case.",
  "all item keys, tag types and format key strings",
  "The tables have hundreds of entries per format and overlap; tests check some rows.",
  [L+"tag/item.rs"],
  [("gen_map! tables", "tag/item.rs")],
  ["ItemKey::from_key", "ItemKey::map_key"])
p("C33", "Pictures round-trip and their headers are decoded correctly",
  "Every picture survives encoding and decoding as a FLAC picture block (raw and base64) and inside ID3v2 and APE tags, and the dimensions/colour data reported for PNG and JPEG data are those in the image header.",
  "all picture types, MIME types, descriptions, data and image headers",
  "Tests use one PNG.",
  [L+"picture/mod.rs", L+"id3/v2/items/attached_picture_frame.rs", L+"ogg/picture_storage.rs"],
  [("picture block codec", "picture/mod.rs"), ("PNG/JPEG header parsing", "picture/mod.rs PictureInformation")],
  ["Picture::as_flac_bytes/from_flac_bytes", "PictureInformation::from_picture"])
p("C34", "Popularimeter ratings map consistently",
  "For each rating provider and tag type, writing a star rating and reading the raw value back gives the same star rating, conversion of raw values is monotonic and total, and the textual form parses back to the same popularimeter.",
  "all raw ratings, stars, counters and e-mails",
  "Tests check fixed e-mails and values.",
  [L+"tag/items/popularimeter.rs", L+"id3/v2/items/popularimeter.rs"],
  [("RatingProvider tables", "tag/items/popularimeter.rs"), ("POPM counter encoding", "id3/v2/items/popularimeter.rs")],
  ["Popularimeter", "RatingProvider", "PopularimeterFrame"])
p("C35", "Ogg pages and pagination are exact",
  "A page that is parsed and written again is byte-identical with a checksum over exactly its contents. Packets that are paginated come back unchanged when read, with correct continuation flags, lacing and sequence numbers, whatever their number and sizes.",
  "all packets, sizes around lacing boundaries, serials, granules and flags",
  "Sizes of exactly 255·k and 65025·k bytes, empty packets and multi-page packets need specific inputs.",
  ["ogg_pager/src/lib.rs", "ogg_pager/src/paginate.rs", "ogg_pager/src/packets.rs", "ogg_pager/src/header.rs", "ogg_pager/src/crc.rs"],
  [("segment table construction", "ogg_pager/src/paginate.rs, lib.rs"), ("CRC", "ogg_pager/src/crc.rs")],
  ["ogg_pager::Page", "ogg_pager::Packets", "ogg_pager::paginate"])
p("C36", "I/O faults and short reads surface as errors, never as wrong data or panics",
  "How a reader splits its data over read calls, including interrupted reads, does not change what is parsed, and short writes do not change what is written. A read, write or seek failure at any point is reported as an error, without a panic.",
  "all read split schedules and fault points",
  "Tests read from files or cursors that always satisfy a read completely and never fail.",
  [L+"util/io.rs", L+"iff/chunk.rs", L+"flac/block.rs", L+"mp4/read/atom_reader.rs", "ogg_pager/src/lib.rs", L+"id3/v2/util/synchsafe.rs"],
  [("read_exact/read_to_end use and error propagation", "all readers and writers")],
  ["XFile::read_from / save_to over a faulty reader"], over=("inputs", "fault_sequences", "schedules"))
p("C37", "Tag containers behave like ordered multimaps",
  "Any sequence of insert, push, take, remove and accessor set/remove operations on the generic tag and on the format-specific tags leaves exactly the items a reference ordered multimap would hold: insert replaces all items of a key, push appends, take/remove delete exactly the matching ones, and accessors return the last value set.",
  "all operation sequences and keys",
  "Tests run single operations.",
  [L+"tag/mod.rs", L+"tag/accessor.rs", L+"id3/v2/tag.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs", L+"mp4/ilst/mod.rs", L+"iff/wav/tag/mod.rs", L+"id3/v1/tag.rs"],
  [("item list manipulation", "per-format tag modules")],
  ["Tag", "Id3v2Tag", "ApeTag", "VorbisComments", "Ilst", "RiffInfoList", "Id3v1Tag"], over=("histories", "inputs"))
p("C38", "ID3v2 frame identifiers and legacy upgrades are well-formed",
  "A frame identifier is accepted exactly if it has the length and characters its version prescribes. ID3v2.2 and ID3v2.3 frames are upgraded to their documented ID3v2.4 identifiers, no upgraded identifier is invalid, and date frames combine into one timestamp with the same components.",
  "all identifiers and date components",
  "Tests check some identifiers.",
  [L+"id3/v2/frame/id.rs", L+"id3/v2/util/upgrade.rs", L+"id3/v2/frame/header/mod.rs", L+"id3/v2/read.rs"],
  [("FrameId::new, upgrade tables", "id3/v2/frame/id.rs, id3/v2/util/upgrade.rs")],
  ["FrameId::new", "upgrade_v2/upgrade_v3", "MpegFile::read_from with v2.2/v2.3 tags"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P), "properties")
