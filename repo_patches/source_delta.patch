From ad1dbdc35a4ef60d4254d54c48cddba384712d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 01/91] fix: upgrade ID3v2.2 TOA and TXT to TOPE and TEXT

---
 lofty/src/id3/v2/util/upgrade.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/util/upgrade.rs b/lofty/src/id3/v2/util/upgrade.rs
index f3b7e0b..c118759 100644
--- a/lofty/src/id3/v2/util/upgrade.rs
+++ b/lofty/src/id3/v2/util/upgrade.rs
@@ -91,7 +91,7 @@ gen_upgrades!(
 		"TLA" => "TLAN",
 		"TLE" => "TLEN",
 		"TMT" => "TMED",
-		"TOA" => "TOAL",
+		"TOA" => "TOPE",
 		"TOF" => "TOFN",
 		"TOL" => "TOLY",
 		"TOR" => "TDOR",
@@ -114,7 +114,7 @@ gen_upgrades!(
 		"TT1" => "TIT1",
 		"TT2" => "TIT2",
 		"TT3" => "TIT3",
-		"TXT" => "TOLY",
+		"TXT" => "TEXT",
 		"TXX" => "TXXX",
 		"TYE" => "TDRC",
 		"UFI" => "UFID",
-- 
2.43.0


From b22807a886d4585bbf6b9e89ddeef8ba95f656b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 02/91] fix: keep a complete ID3v2.3 timestamp instead of
 dropping it

---
 lofty/src/id3/v2/read.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index a1facba..564b3b1 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -71,6 +71,7 @@ fn construct_tdrc_from_v3(tag: &mut Id3v2Tag) {
 
 	// This is not a TYER frame
 	if year_frame.timestamp.month.is_some() {
+		tag.insert(Frame::Timestamp(year_frame));
 		return;
 	}
 
-- 
2.43.0


From 88c0ad852fa0ac556ae222853b4fc1a1154e53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 03/91] fix: skip the unused rest of an ID3v2 frame before
 reading the next

---
 lofty/src/id3/v2/frame/read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 2fcef85..1577000 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -275,7 +275,12 @@ fn parse_frame<R: Read>(
 	parse_options: ParseOptions,
 ) -> Result<ParsedFrame<'static>, FrameParseError> {
 	match parse_content(reader, id, flags, version, parse_options) {
-		Some(result) => result.map(ParsedFrame::Next),
+		Some(result) => {
+			let frame = result?;
+			// Not every frame uses all of its content, the next one still starts after it
+			skip_frame(None, reader, size)?;
+			Ok(ParsedFrame::Next(frame))
+		},
 		None => {
 			skip_frame(None, reader, size)?;
 			Ok(ParsedFrame::Skip)
-- 
2.43.0


From 44a39a2e3643a80f0207fa1947361fa0837f5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 04/91] fix: parse popularimeters whose email contains a '|'

---
 lofty/src/tag/items/popularimeter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lofty/src/tag/items/popularimeter.rs b/lofty/src/tag/items/popularimeter.rs
index 4078afa..fc81132 100644
--- a/lofty/src/tag/items/popularimeter.rs
+++ b/lofty/src/tag/items/popularimeter.rs
@@ -412,13 +412,14 @@ impl<'a> Popularimeter<'a> {
 	}
 
 	pub(crate) fn from_str(s: &str) -> Result<Self, ()> {
-		let mut parts = s.splitn(3, '|');
-		let email = parts.next().ok_or(())?;
-		let star_rating = parts.next().ok_or(())?;
+		// The email is free-form, so it may contain the separator itself
+		let mut parts = s.rsplitn(3, '|');
 		let play_counter = parts
 			.next()
 			.ok_or(())
 			.and_then(|p| p.parse::<u64>().map_err(|_| ()))?;
+		let star_rating = parts.next().ok_or(())?;
+		let email = parts.next().ok_or(())?;
 
 		let star_rating = match star_rating.parse().map_err(|_| ())? {
 			1 => StarRating::One,
-- 
2.43.0


From 94f0c392dbd8c0f00e3536f6188be1d3376ea20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 05/91] fix: read ID3v2 extended headers with their actual size

---
 lofty/src/id3/mod.rs       |   9 ++--
 lofty/src/id3/v2/header.rs | 102 ++++++++++++++++++++++++++++++-------
 2 files changed, 89 insertions(+), 22 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 9bf003d..159039f 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -202,16 +202,19 @@ where
 		reader.seek(SeekFrom::Current(-3))?;
 	}
 
+	let header_start = reader.stream_position()?;
 	if let Ok(id3v2_header) = Id3v2Header::parse(reader) {
 		log::debug!("Found an ID3v2 tag, parsing");
 
+		// The extended header has already been read
+		let content_size = id3v2_header.size - id3v2_header.extended_size;
 		if config.read {
-			let mut tag = try_vec![0; id3v2_header.size as usize]?;
+			let mut tag = try_vec![0; content_size as usize]?;
 			reader.read_exact(&mut tag)?;
 
 			id3v2 = Some(tag)
 		} else {
-			reader.seek(SeekFrom::Current(i64::from(id3v2_header.size)))?;
+			reader.seek(SeekFrom::Current(i64::from(content_size)))?;
 		}
 
 		if id3v2_header.flags.footer {
@@ -220,7 +223,7 @@ where
 
 		header = Some(id3v2_header);
 	} else {
-		reader.seek(SeekFrom::Current(-10))?;
+		reader.seek(SeekFrom::Start(header_start))?;
 	}
 
 	Ok(ID3FindResults(header, id3v2))
diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 5412c5f..1118d7b 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -97,6 +97,7 @@ pub(crate) struct Id3v2Header {
 	pub flags: Id3v2TagFlags,
 	/// The size of the tag contents (**DOES NOT INCLUDE THE HEADER/FOOTER**)
 	pub size: u32,
+	/// The number of bytes in `size` taken up by the extended header
 	pub extended_size: u32,
 }
 
@@ -150,30 +151,30 @@ impl Id3v2Header {
 			(version == Id3v2Version::V4 || version == Id3v2Version::V3) && flags & 0x40 == 0x40;
 
 		if extended_header {
-			match version {
+			extended_size = match version {
 				// In ID3v2.3, the extended header is considered separate from the frame header, and
 				// thus subject to unsynchronization
 				Id3v2Version::V3 => {
 					if flags_parsed.unsynchronisation {
-						let mut reader = UnsynchronizedStream::new(bytes);
-						extended_size = reader.read_u32::<BigEndian>()?;
-						read_extended_header(&mut reader, &mut flags_parsed, extended_size)?;
+						// Read one byte at a time, to not consume anything past the extended header
+						let mut reader = UnsynchronizedStream::new(SingleByteReader {
+							reader: &mut *bytes,
+							bytes_read: 0,
+						});
+						read_extended_header_v3(&mut reader, &mut flags_parsed, size)?;
+						reader.into_inner().bytes_read
 					} else {
-						extended_size = bytes.read_u32::<BigEndian>()?;
-						read_extended_header(bytes, &mut flags_parsed, extended_size)?;
+						read_extended_header_v3(bytes, &mut flags_parsed, size)?
 					}
 				},
 				// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
-				Id3v2Version::V4 => {
-					extended_size = bytes.read_u32::<BigEndian>()?.unsynch();
-					read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-				},
+				Id3v2Version::V4 => read_extended_header_v4(bytes, &mut flags_parsed, size)?,
 				_ => unreachable!(),
-			}
-		}
+			};
 
-		if extended_size > 0 && extended_size >= size {
-			return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+			if extended_size >= size {
+				return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+			}
 		}
 
 		Ok(Id3v2Header {
@@ -186,16 +187,55 @@ impl Id3v2Header {
 
 	/// The total size of the tag, including the header, footer, and extended header
 	pub(crate) fn full_tag_size(&self) -> u32 {
-		self.size + 10 + self.extended_size + if self.flags.footer { 10 } else { 0 }
+		// The extended header is already part of `size`
+		self.size + 10 + if self.flags.footer { 10 } else { 0 }
+	}
+}
+
+/// Hands out its content one byte at a time, keeping track of the number of bytes read
+struct SingleByteReader<R> {
+	reader: R,
+	bytes_read: u32,
+}
+
+impl<R: Read> Read for SingleByteReader<R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let len = std::cmp::min(buf.len(), 1);
+		let bytes_read = self.reader.read(&mut buf[..len])?;
+		self.bytes_read = self.bytes_read.saturating_add(bytes_read as u32);
+		Ok(bytes_read)
+	}
+}
+
+/// Returns the total size of the extended header
+fn read_extended_header_v3<R: Read>(
+	reader: &mut R,
+	flags: &mut Id3v2TagFlags,
+	tag_size: u32,
+) -> Result<u32, Id3v2ParseError> {
+	// Unlike ID3v2.4, this is **not** a synchsafe integer, and it does **not** include itself
+	let header_size = reader.read_u32::<BigEndian>()?;
+	if header_size < 6 || header_size >= tag_size.saturating_sub(4) {
+		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
 	}
+
+	let extended_flags = reader.read_u16::<BigEndian>()?;
+	flags.crc = extended_flags & 0x8000 == 0x8000;
+
+	// We don't care about the padding size (4) or the existing CRC (4)
+	skip_extended_header(reader, header_size - 2)?;
+
+	Ok(header_size + 4)
 }
 
-fn read_extended_header<R: Read>(
+/// Returns the total size of the extended header
+fn read_extended_header_v4<R: Read>(
 	reader: &mut R,
 	flags: &mut Id3v2TagFlags,
-	header_size: u32,
-) -> Result<(), Id3v2ParseError> {
-	if header_size < 6 {
+	tag_size: u32,
+) -> Result<u32, Id3v2ParseError> {
+	let header_size = reader.read_u32::<BigEndian>()?.unsynch();
+	if header_size < 6 || header_size >= tag_size {
 		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
 	}
 
@@ -203,23 +243,47 @@ fn read_extended_header<R: Read>(
 	let _num_flag_bytes = reader.read_u8()?;
 
 	let extended_flags = reader.read_u8()?;
+	let mut remaining = header_size - 6;
 
+	// The data of each set flag is stored in order, prefixed with its length
+	//
 	// The only flags we care about here are the CRC and restrictions
 
+	if extended_flags & 0x40 == 0x40 {
+		// Tag is an update, always has a length of 0
+		remaining = checked_remaining(remaining, 1)?;
+		let _data_length = reader.read_u8()?;
+	}
+
 	if extended_flags & 0x20 == 0x20 {
 		flags.crc = true;
 
 		// We don't care about the existing CRC (5) or its length byte (1)
+		remaining = checked_remaining(remaining, 6)?;
 		let mut crc = [0; 6];
 		reader.read_exact(&mut crc)?;
 	}
 
 	if extended_flags & 0x10 == 0x10 {
 		// We don't care about the length byte, it is always 1
+		remaining = checked_remaining(remaining, 2)?;
 		let _data_length = reader.read_u8()?;
 
 		flags.restrictions = Some(TagRestrictions::from_byte(reader.read_u8()?));
 	}
 
+	skip_extended_header(reader, remaining)?;
+
+	Ok(header_size)
+}
+
+fn checked_remaining(remaining: u32, size: u32) -> Result<u32, Id3v2ParseError> {
+	remaining
+		.checked_sub(size)
+		.ok_or_else(|| Id3v2HeaderError::BadExtendedHeaderSize.into())
+}
+
+fn skip_extended_header<R: Read>(reader: &mut R, size: u32) -> Result<(), Id3v2ParseError> {
+	std::io::copy(&mut reader.take(u64::from(size)), &mut std::io::sink())?;
 	Ok(())
 }
-- 
2.43.0


From afe060bbc80a4b8adbdbccb2d699dda421687116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 06/91] fix: use the experimental bit of ID3v2.3 for the
 experimental flag

---
 lofty/src/id3/v2/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 1118d7b..4e4c3db 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -80,7 +80,7 @@ impl Id3v2TagFlags {
 		let mut byte = 0;
 
 		if self.experimental {
-			byte |= 0x40;
+			byte |= 0x20;
 		}
 
 		if self.footer {
-- 
2.43.0


From 2ea7e0ad4b75fe9b3ca09d2aeb65a351ca6234af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 07/91] fix: write the URL of WXXX frames as Latin-1

---
 lofty/src/id3/v2/items/extended_url_frame.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/extended_url_frame.rs b/lofty/src/id3/v2/items/extended_url_frame.rs
index 7c30778..13465b9 100644
--- a/lofty/src/id3/v2/items/extended_url_frame.rs
+++ b/lofty/src/id3/v2/items/extended_url_frame.rs
@@ -150,7 +150,12 @@ impl<'a> ExtendedUrlFrame<'a> {
 				.encode(&self.description, true, write_options.lossy_text_encoding)?
 				.iter(),
 		);
-		bytes.extend(encoding.encode(&self.content, false, write_options.lossy_text_encoding)?);
+		// Unlike the description, the URL is always Latin-1
+		bytes.extend(TextEncoding::Latin1.encode(
+			&self.content,
+			false,
+			write_options.lossy_text_encoding,
+		)?);
 
 		Ok(bytes)
 	}
-- 
2.43.0


From e0c8a5df39861c48c247a9de537a1a537c3447f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 08/91] fix: write the encoding SYLT texts actually use in
 ID3v2.3

---
 lofty/src/id3/v2/items/sync_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/sync_text.rs b/lofty/src/id3/v2/items/sync_text.rs
index 301ee7f..2e04034 100644
--- a/lofty/src/id3/v2/items/sync_text.rs
+++ b/lofty/src/id3/v2/items/sync_text.rs
@@ -300,7 +300,7 @@ impl SynchronizedTextFrame<'_> {
 			encoding = encoding.to_id3v23();
 		}
 
-		let mut data = vec![self.encoding as u8];
+		let mut data = vec![encoding as u8];
 
 		data.write_all(&self.language)?;
 		data.write_u8(self.timestamp_format as u8)?;
-- 
2.43.0


From 7d126a633b9064af6d0eb86b2096c46a85a154f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 09/91] fix: flag the extended header and never claim
 unsynchronisation when writing ID3v2

---
 lofty/src/id3/v2/write/mod.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index ceaa876..98dddff 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -109,11 +109,22 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		log::debug!("Using ID3v2.3");
 	}
 
-	let has_footer = tag.flags.footer;
-	let needs_crc = tag.flags.crc;
-	let has_restrictions = tag.flags.restrictions.is_some();
+	let mut flags = tag.flags;
 
-	let (mut id3v2, extended_header_len) = create_tag_header(tag.flags, is_id3v23)?;
+	// Nothing gets unsynchronised when writing
+	flags.unsynchronisation = false;
+
+	if is_id3v23 {
+		// The extended header is only written for ID3v2.4
+		flags.crc = false;
+		flags.restrictions = None;
+	}
+
+	let has_footer = flags.footer;
+	let needs_crc = flags.crc;
+	let has_restrictions = flags.restrictions.is_some();
+
+	let (mut id3v2, extended_header_len) = create_tag_header(flags, is_id3v23)?;
 	let header_len = id3v2.get_ref().len();
 
 	// Write the items
@@ -146,7 +157,7 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		let mut content_start_idx = 22;
 
 		if has_restrictions {
-			content_start_idx += 3;
+			content_start_idx += 2;
 		}
 
 		// Skip 16 bytes
@@ -209,12 +220,16 @@ fn create_tag_header(
 
 	let extended_header = flags.crc || flags.restrictions.is_some();
 
-	let tag_flags = if is_id3v23 {
+	let mut tag_flags = if is_id3v23 {
 		flags.as_id3v23_byte()
 	} else {
 		flags.as_id3v24_byte()
 	};
 
+	if extended_header {
+		tag_flags |= 0x40;
+	}
+
 	header.write_u8(tag_flags)?;
 	header.write_u32::<BigEndian>(0)?;
 
-- 
2.43.0


From 913bc92e951a9ad9ab5bb036b1eb7774767c3547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 10/91] fix: allow OWNE and ETCO frames to be written

---
 lofty/src/id3/v2/write/frame.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 84bc870..3ac1235 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -277,6 +277,8 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("WFED" | "GRP1" | "MVNM" | "MVIN", Frame::Text { .. })
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
+		| ("OWNE", Frame::Ownership(_))
+		| ("ETCO", Frame::EventTimingCodes(_))
 		| ("PRIV", Frame::Private(_))
 		| ("CHAP", Frame::Chapter(_))
 		| ("CTOC", Frame::TableOfContents(_)) => Ok(()),
-- 
2.43.0


From 4e5fb9ff44fc60984434d2666622d43e89940911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 11/91] fix: lay out ID3v2 frames the way their written flags
 say

---
 lofty/src/id3/v2/write/frame.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 3ac1235..5864d02 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -297,18 +297,25 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 fn write_frame<W>(
 	writer: &mut W,
 	name: &str,
-	flags: FrameFlags,
+	mut flags: FrameFlags,
 	value: &[u8],
 	write_options: WriteOptions,
 ) -> Result<(), FrameEncodingError>
 where
 	W: Write,
 {
+	// The content is never unsynchronised when writing
+	flags.unsynchronisation = false;
+
 	if flags.encryption.is_some() {
 		write_encrypted(writer, name, value, flags, write_options)?;
 		return Ok(());
 	}
 
+	// The content is never compressed when writing, and thus has no data length indicator
+	flags.compression = false;
+	flags.data_length_indicator = None;
+
 	let len = value.len() as u32;
 	let is_grouping_identity = flags.grouping_identity.is_some();
 
@@ -353,13 +360,29 @@ where
 	if let Some(mut len) = flags.data_length_indicator
 		&& len > 0
 	{
-		write_frame_header(writer, name, (value.len() + 1) as u32, flags, write_options)?;
+		// Method symbol (1) + data length indicator (4)
+		let mut additional_data_len = 5;
+		if flags.grouping_identity.is_some() {
+			additional_data_len += 1;
+		}
+
+		write_frame_header(
+			writer,
+			name,
+			(value.len() + additional_data_len) as u32,
+			flags,
+			write_options,
+		)?;
 		if !write_options.use_id3v23 {
 			len = len.synch()?;
 		}
 
-		writer.write_u32::<BigEndian>(len)?;
 		writer.write_u8(method_symbol)?;
+		if let Some(group) = flags.grouping_identity {
+			writer.write_u8(group)?;
+		}
+
+		writer.write_u32::<BigEndian>(len)?;
 		writer.write_all(value)?;
 
 		return Ok(());
-- 
2.43.0


From 90ff0cfcac2981c13dcd4c0e83f607000e275d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 12/91] fix: keep the bit count of RVA2 peaks in line with
 their length

---
 .../src/id3/v2/items/relative_volume_adjustment_frame.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
index 38c4344..481aed4 100644
--- a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
+++ b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
@@ -252,14 +252,11 @@ impl<'a> RelativeVolumeAdjustmentFrame<'a> {
 			}
 
 			if let Some(peak) = &info.peak_volume {
-				if peak.len() > expected_peak_byte_length as usize {
+				if peak.len() != expected_peak_byte_length as usize {
 					// Recalculate bits representing peak
-					bits_representing_peak = 0;
-
+					//
 					// Max out at 255 bits
-					for b in peak.iter().copied().take(32) {
-						bits_representing_peak += b.leading_ones() as u8;
-					}
+					bits_representing_peak = std::cmp::min(peak.len() * 8, 255) as u8;
 				}
 
 				content.push(bits_representing_peak);
-- 
2.43.0


From 95666d901f2d2d1698c5361effe82bf3ada0e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 13/91] fix: keep key-value pairs whose value is empty and
 unterminated

---
 lofty/src/id3/v2/items/key_value_frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/key_value_frame.rs b/lofty/src/id3/v2/items/key_value_frame.rs
index d14b5d6..2cf3a80 100644
--- a/lofty/src/id3/v2/items/key_value_frame.rs
+++ b/lofty/src/id3/v2/items/key_value_frame.rs
@@ -119,7 +119,7 @@ impl<'a> KeyValueFrame<'a> {
 				Ok(key) => key,
 				Err(e) => return Err(FrameParseError::new(Some(id.into_owned()), Box::new(e))),
 			};
-			if key.bytes_read == 0 || value.bytes_read == 0 {
+			if key.bytes_read == 0 {
 				break;
 			}
 
-- 
2.43.0


From 2acae6d33041425db5281a4a79be93553c77b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 14/91] fix: clamp AIFF sample rates outside of the range of a
 double

---
 lofty/src/util/math.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lofty/src/util/math.rs b/lofty/src/util/math.rs
index 229c28f..97dd6d0 100644
--- a/lofty/src/util/math.rs
+++ b/lofty/src/util/math.rs
@@ -85,7 +85,16 @@ impl F80 {
 		// 0 <= e <= 32766, 0 <= i <= 1, f >= 0
 
 		let fraction = self.fraction & 0x7FFF_FFFF_FFFF_FFFF;
-		let exponent = self.exponent as i16 - 16383 + 1023;
+		// Exponents that an `f64` cannot hold
+		let exponent = i32::from(self.exponent) - 16383 + 1023;
+		if exponent <= 0 {
+			return f64::from_bits(sign << 63);
+		}
+
+		if exponent >= 2047 {
+			return f64::from_bits((sign << 63) | f64::INFINITY.to_bits());
+		}
+
 		let bits = (sign << 63) | ((exponent as u64) << 52) | (fraction >> 11);
 
 		f64::from_bits(bits)
-- 
2.43.0


From 527050b7c383724d2654c75ffa7e5de214b85bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 15/91] fix: compute the length of MPEG Layer I frames in whole
 slots

---
 lofty/src/mpeg/header.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index ef3c680..4636c30 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -314,8 +314,14 @@ impl Header {
 
 		header.data_start = SIDE_INFORMATION_SIZES[version_index][header.channel_mode as usize] + 4;
 		header.samples = SAMPLES[layer_index][version_index];
-		header.len =
-			(u32::from(header.samples) * header.bitrate * 125 / header.sample_rate) + padding;
+		header.len = match header.layer {
+			// Layer 1 frames are made of whole slots of 4 bytes
+			Layer::Layer1 => {
+				(u32::from(header.samples) * header.bitrate * 125 / header.sample_rate / 4 * 4)
+					+ padding
+			},
+			_ => (u32::from(header.samples) * header.bitrate * 125 / header.sample_rate) + padding,
+		};
 
 		Some(header)
 	}
-- 
2.43.0


From aa5d06d76ffa52b7763b4de46a85e0a248583f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 16/91] fix: report 8 channels for ADTS channel configuration 7

---
 lofty/src/aac/header.rs     |  4 ++--
 lofty/src/aac/properties.rs | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lofty/src/aac/header.rs b/lofty/src/aac/header.rs
index 3a84d13..a142533 100644
--- a/lofty/src/aac/header.rs
+++ b/lofty/src/aac/header.rs
@@ -14,7 +14,7 @@ pub(crate) struct ADTSHeader {
 	pub(crate) version: MpegVersion,
 	pub(crate) audio_object_ty: AudioObjectType,
 	pub(crate) sample_rate: u32,
-	pub(crate) channels: u8,
+	pub(crate) channel_configuration: u8,
 	pub(crate) copyright: bool,
 	pub(crate) original: bool,
 	pub(crate) len: u16,
@@ -117,7 +117,7 @@ impl ADTSHeader {
 			version,
 			audio_object_ty,
 			sample_rate,
-			channels: channel_configuration,
+			channel_configuration,
 			copyright,
 			original,
 			len,
diff --git a/lofty/src/aac/properties.rs b/lofty/src/aac/properties.rs
index 40c0b6e..5117fb2 100644
--- a/lofty/src/aac/properties.rs
+++ b/lofty/src/aac/properties.rs
@@ -106,14 +106,18 @@ pub(super) fn read_properties(
 	properties.version = first_frame.version;
 	properties.audio_object_type = first_frame.audio_object_ty;
 	properties.sample_rate = first_frame.sample_rate;
-	properties.channels = first_frame.channels;
+	properties.channels = match first_frame.channel_configuration {
+		// Channel configuration 7 is 7.1
+		7 => 8,
+		channels => channels,
+	};
 
-	match ChannelMask::from_mp4_channels(properties.channels) {
+	match ChannelMask::from_mp4_channels(first_frame.channel_configuration) {
 		Some(mask) => properties.channel_mask = Some(mask),
 		None => {
 			log::warn!(
-				"Unable to create channel mask, invalid channel count: {}",
-				properties.channels
+				"Unable to create channel mask, invalid channel configuration: {}",
+				first_frame.channel_configuration
 			);
 		},
 	}
-- 
2.43.0


From 803bd57bf7c56af06b79ada8734579acf7a9128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 17/91] fix: do not loop over ADTS frames that are smaller than
 their header

---
 lofty/src/aac/read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index cc79ee7..8544fa5 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -175,6 +175,12 @@ where
 		if let Some(first_header) = ADTSHeader::read(reader, parsing_mode)? {
 			let header_len = if first_header.has_crc { 9 } else { 7 };
 
+			// The frame length includes the header, anything smaller cannot be a frame
+			if u32::from(first_header.len) < header_len {
+				pos = reader.stream_position()?;
+				continue;
+			}
+
 			match cmp_header(
 				reader,
 				header_len,
-- 
2.43.0


From c83b1f907fe8d9923cec7db2254d8623979b452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 18/91] fix: skip exactly the ID3v2 tags in front of MPEG and
 AAC streams

---
 lofty/src/aac/read.rs  | 22 ++++++++++++++--------
 lofty/src/mpeg/read.rs | 17 ++++++++++-------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 8544fa5..b34d988 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -58,17 +58,23 @@ where
 				if parse_options.read_tags {
 					let id3v2 =
 						parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
-					if let Some(existing_tag) = &mut file.id3v2_tag {
-						log::warn!("Duplicate ID3v2 tag found, appending frames to previous tag");
-
+					match &mut file.id3v2_tag {
 						// https://github.com/Serial-ATA/lofty-rs/issues/87
 						// Duplicate tags should have their frames appended to the previous
-						for frame in id3v2.frames {
-							existing_tag.insert(frame);
-						}
-						continue;
+						Some(existing_tag) => {
+							log::warn!(
+								"Duplicate ID3v2 tag found, appending frames to previous tag"
+							);
+							for frame in id3v2.frames {
+								existing_tag.insert(frame);
+							}
+						},
+						None => file.id3v2_tag = Some(id3v2),
 					}
-					file.id3v2_tag = Some(id3v2);
+				} else {
+					// The extended header has already been read
+					let content_size = header.size - header.extended_size;
+					reader.seek(SeekFrom::Current(i64::from(content_size)))?;
 				}
 
 				// Skip over the footer
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index db5bf1c..874f0ef 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -49,17 +49,20 @@ where
 				if parse_options.read_tags {
 					let id3v2 =
 						parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
-					if let Some(existing_tag) = &mut file.id3v2_tag {
+					match &mut file.id3v2_tag {
 						// https://github.com/Serial-ATA/lofty-rs/issues/87
 						// Duplicate tags should have their frames appended to the previous
-						for frame in id3v2.frames {
-							existing_tag.insert(frame);
-						}
-						continue;
+						Some(existing_tag) => {
+							for frame in id3v2.frames {
+								existing_tag.insert(frame);
+							}
+						},
+						None => file.id3v2_tag = Some(id3v2),
 					}
-					file.id3v2_tag = Some(id3v2);
 				} else {
-					reader.seek(SeekFrom::Current(i64::from(header.size)))?;
+					// The extended header has already been read
+					let content_size = header.size - header.extended_size;
+					reader.seek(SeekFrom::Current(i64::from(content_size)))?;
 				}
 
 				// Skip over the footer
-- 
2.43.0


From 052e429b58edca66c59a9e5b78c073813c7330ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 19/91] fix: size, skip and bound MP4 atoms with 64-bit or
 open-ended lengths correctly

---
 lofty/src/mp4/atom_info.rs        | 25 ++++++++++++++++---------
 lofty/src/mp4/moov.rs             | 12 ++++++++----
 lofty/src/mp4/properties.rs       | 10 +++++-----
 lofty/src/mp4/read/atom_reader.rs |  2 +-
 lofty/src/mp4/read/mod.rs         | 29 ++++++++++++++---------------
 5 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 31099a6..6bc7ca1 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -127,6 +127,15 @@ pub(crate) struct AtomInfo {
 //
 // TagLib has decided on a character set to consider valid, so we will do the same:
 // <https://github.com/taglib/taglib/issues/1077#issuecomment-1440385838>
+/// The size of an atom's header, including the extended length if present
+pub(super) const fn atom_header_len(extended: bool) -> u64 {
+	if extended {
+		ATOM_HEADER_LEN + 8
+	} else {
+		ATOM_HEADER_LEN
+	}
+}
+
 fn is_valid_identifier_byte(b: u8) -> bool {
 	(b' '..=b'~').contains(&b) || b == b'\xA9'
 }
@@ -188,20 +197,22 @@ impl AtomInfo {
 				let pos = reader.stream_position()?;
 				let end = reader.seek(SeekFrom::End(0))?;
 
-				reader.seek(SeekFrom::Start(pos))?;
+				let rewind_by = i64::try_from(end.saturating_sub(pos)).unwrap_or(i64::MAX);
+				reader.seek(SeekFrom::Current(-rewind_by))?;
 
-				(end - pos, false)
+				(end.saturating_sub(start), false)
 			},
 			// There's an extended length
 			1 => (reader.read_u64::<BigEndian>()?, true),
 			_ => (len_raw, false),
 		};
 
-		if len < ATOM_HEADER_LEN {
+		let header_len = atom_header_len(extended);
+		if len < header_len {
 			// Seek to the end, since we can't recover from this
 			reader.seek(SeekFrom::End(0))?;
 
-			return Err(NotEnoughDataError::new(Some(8)).into());
+			return Err(NotEnoughDataError::new(Some(header_len as usize)).into());
 		}
 
 		// `len` includes itself and the identifier
@@ -247,11 +258,7 @@ impl AtomInfo {
 	}
 
 	pub(crate) fn header_size(&self) -> u64 {
-		if !self.extended {
-			return ATOM_HEADER_LEN;
-		}
-
-		ATOM_HEADER_LEN + 8
+		atom_header_len(self.extended)
 	}
 }
 
diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index c85b2d7..128e471 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -58,7 +58,11 @@ impl Moov {
 						}
 					},
 					b"udta" if parse_options.read_tags => {
-						let ilst_parsed = ilst_from_udta(reader, parse_options, atom.len - 8)
+						let ilst_parsed = ilst_from_udta(
+							reader,
+							parse_options,
+							atom.len - atom.header_size(),
+						)
 							.map_err(TagParseError::from)?;
 						if let Some(ilst_parsed) = ilst_parsed {
 							let Some(mut existing_ilst) = ilst else {
@@ -129,7 +133,7 @@ where
 	}
 
 	let mut found_ilst = false;
-	let mut ilst_atom_size = 0;
+	let mut ilst_content_size = 0;
 
 	while read < meta_atom_size {
 		let Some(atom) = reader.next()? else {
@@ -138,7 +142,7 @@ where
 
 		if atom.ident == AtomIdent::Fourcc(*b"ilst") {
 			found_ilst = true;
-			ilst_atom_size = atom.len;
+			ilst_content_size = atom.len - atom.header_size();
 			break;
 		}
 
@@ -147,7 +151,7 @@ where
 	}
 
 	if found_ilst {
-		return parse_ilst(reader, parse_options, ilst_atom_size - 8).map(Some);
+		return parse_ilst(reader, parse_options, ilst_content_size).map(Some);
 	}
 
 	Ok(None)
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f86f52d..893599b 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -307,7 +307,7 @@ where
 		mdhd = None;
 		minf = None;
 
-		reader.seek(SeekFrom::Start(mdia.start + 8))?;
+		reader.seek(SeekFrom::Start(mdia.start + mdia.header_size()))?;
 
 		let mut read = 8;
 		while read < mdia.len {
@@ -509,7 +509,7 @@ impl Minf {
 							where
 								R: Read + Seek,
 							{
-								let mut stsd = try_vec![0; (atom.len - 8) as usize]?;
+								let mut stsd = try_vec![0; (atom.len - atom.header_size()) as usize]?;
 								reader.read_exact(&mut stsd)?;
 								Ok(stsd)
 							}
@@ -682,7 +682,7 @@ where
 	// We need the mdhd and minf atoms from the audio track
 	let AudioTrak { mdhd, minf } = find_audio_trak(reader, traks)?;
 
-	reader.seek(SeekFrom::Start(mdhd.start + 8))?;
+	reader.seek(SeekFrom::Start(mdhd.start + mdhd.header_size()))?;
 	let Mdhd {
 		timescale,
 		duration,
@@ -701,7 +701,7 @@ where
 		return Ok(properties);
 	};
 
-	reader.seek(SeekFrom::Start(minf_info.start + 8))?;
+	reader.seek(SeekFrom::Start(minf_info.start + minf_info.header_size()))?;
 	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.len, parse_mode)? else {
 		return Ok(properties);
 	};
@@ -1029,7 +1029,7 @@ where
 
 	while let Ok(Some(atom)) = reader.next() {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
-			return Ok(atom.len - 8);
+			return Ok(atom.len - atom.header_size());
 		}
 
 		skip_atom(reader, atom.extended, atom.len)?;
diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 7861b5d..a696d54 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -123,7 +123,7 @@ where
 				}
 
 				let ret = self.reader.seek(SeekFrom::Start(self.start + s))?;
-				self.remaining_size = self.len.saturating_sub(ret);
+				self.remaining_size = self.len - s;
 				Ok(ret)
 			},
 			SeekFrom::End(s) => {
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 5954072..885112f 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -1,7 +1,7 @@
 mod atom_reader;
 
 use super::Mp4File;
-use super::atom_info::{AtomIdent, AtomInfo};
+use super::atom_info::{AtomIdent, AtomInfo, atom_header_len};
 use super::moov::Moov;
 use super::properties::Mp4Properties;
 use crate::config::{ParseOptions, ParsingMode};
@@ -30,14 +30,15 @@ where
 
 	// size + identifier + major brand
 	// There *should* be more, but this is all we need from it
-	if atom.len < 12 {
-		return Err(NotEnoughDataError::new(Some(12)).into());
+	let min_len = atom.header_size() + 4;
+	if atom.len < min_len {
+		return Err(NotEnoughDataError::new(Some(min_len as usize)).into());
 	}
 
 	let mut major_brand = [0u8; 4];
 	reader.read_exact(&mut major_brand)?;
 
-	reader.seek(SeekFrom::Current((atom.len - 12) as i64))?;
+	reader.seek(SeekFrom::Current((atom.len - min_len) as i64))?;
 
 	let major_brand = utf8_decode_str(&major_brand)
 		.map(ToOwned::to_owned)
@@ -61,7 +62,11 @@ where
 
 	// Find the `moov` atom and restrict the reader to its length
 	let moov_info = Moov::find(&mut reader)?;
-	reader.reset_bounds(moov_info.start + 8, moov_info.len - 8);
+	let moov_header_len = moov_info.header_size();
+	reader.reset_bounds(
+		moov_info.start + moov_header_len,
+		moov_info.len - moov_header_len,
+	);
 
 	let moov = Moov::parse(&mut reader, parse_options)?;
 
@@ -97,20 +102,14 @@ pub(super) fn skip_atom<R>(reader: &mut R, extended: bool, len: u64) -> Result<(
 where
 	R: Read + Seek,
 {
-	log::trace!("Attempting to skip {} bytes", len - 8);
+	let content_len = len.saturating_sub(atom_header_len(extended));
+	log::trace!("Attempting to skip {} bytes", content_len);
 
-	if !extended {
-		reader.seek(SeekFrom::Current(i64::from(len as u32) - 8))?;
-		return Ok(());
-	}
-
-	let pos = reader.stream_position()?;
-
-	let Some(pos) = pos.checked_add(len - 8) else {
+	let Ok(content_len) = i64::try_from(content_len) else {
 		return Err(TooMuchDataError.into());
 	};
 
-	reader.seek(SeekFrom::Start(pos))?;
+	reader.seek(SeekFrom::Current(content_len))?;
 
 	Ok(())
 }
-- 
2.43.0


From 8207b5d2d6b5cdcfaae5020706951f0afe530d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 20/91] fix: find the MP4 media header regardless of the order
 of atoms in mdia

---
 lofty/src/mp4/properties.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 893599b..4c03f25 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -340,7 +340,10 @@ where
 
 						skip_atom(reader, atom.extended, atom.len - 12)?;
 					},
-					b"minf" => minf = Some(atom),
+					b"minf" => {
+						skip_atom(reader, atom.extended, atom.len)?;
+						minf = Some(atom)
+					},
 					_ => {
 						skip_atom(reader, atom.extended, atom.len)?;
 					},
-- 
2.43.0


From 5eef71d0d804701099d65ae789a7d83a454c9bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 21/91] fix: decode the MP4 AudioSpecificConfig bit fields as
 specified

---
 lofty/src/mp4/properties.rs | 39 ++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 4c03f25..93a96ef 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -852,7 +852,7 @@ where
 				if object_type == 31 {
 					extended_object_type = true;
 
-					object_type = 32 + ((byte_a & 7) | (byte_b >> 5));
+					object_type = 32 + (((byte_a & 7) << 3) | (byte_b >> 5));
 					frequency_index = (byte_b >> 1) & 0x0F;
 				}
 
@@ -867,14 +867,18 @@ where
 						let sample_rate;
 						let explicit_sample_rate = stsd.read_u24()?;
 						if extended_object_type {
-							sample_rate = explicit_sample_rate >> 1;
-							channel_conf = ((explicit_sample_rate >> 4) & 0x0F) as u8;
-						} else {
-							sample_rate = explicit_sample_rate << 1;
+							// Starts at the last bit of `byte_b`
+							sample_rate =
+								(u32::from(byte_b & 1) << 23) | (explicit_sample_rate >> 1);
 							let byte_c = stsd.read_u8()?;
 
 							channel_conf =
-								((explicit_sample_rate & 0x80) as u8 | (byte_c >> 1)) & 0x0F;
+								(((explicit_sample_rate & 1) as u8) << 3) | (byte_c >> 5);
+						} else {
+							// Starts at the second bit of `byte_b`
+							sample_rate =
+								(u32::from(byte_b & 0x7F) << 17) | (explicit_sample_rate >> 7);
+							channel_conf = ((explicit_sample_rate >> 3) & 0x0F) as u8;
 						}
 
 						// Just use the sample rate we already read above if this is invalid
@@ -887,7 +891,7 @@ where
 
 						if extended_object_type {
 							let byte_c = stsd.read_u8()?;
-							channel_conf = (byte_b & 1) | (byte_c & 0xE0);
+							channel_conf = ((byte_b & 1) << 3) | (byte_c >> 5);
 						} else {
 							channel_conf = (byte_b >> 3) & 0x0F;
 						}
@@ -899,20 +903,33 @@ where
 				// The channel configuration isn't always set, at least when testing with
 				// the Audio Lossless Coding reference software
 				if channel_conf > 0 {
-					properties.channels = Some(channel_conf);
+					properties.channels = Some(match channel_conf {
+						// 6.1
+						11 => 7,
+						// 7.1
+						7 | 12 | 14 => 8,
+						channels => channels,
+					});
 				}
 
 				// We just check for ALS here, might extend it for more codes eventually
 				if object_type == 36 {
-					let mut ident = [0; 5];
+					let mut ident = [0; 4];
 					stsd.read_exact(&mut ident)?;
 
-					if &ident == b"\0ALS\0" {
+					// There may be an additional byte before the identifier
+					let is_als = match &ident {
+						b"ALS\0" => true,
+						b"\0ALS" => stsd.read_u8()? == 0,
+						_ => false,
+					};
+
+					if is_als {
 						properties.sample_rate = Some(stsd.read_u32()?);
 
 						// Sample count
 						stsd.seek(SeekFrom::Current(4))?;
-						properties.channels = Some(stsd.read_u16()? as u8 + 1);
+						properties.channels = Some((stsd.read_u16()? as u8).saturating_add(1));
 					}
 				}
 			}
-- 
2.43.0


From 9a76ed960c6b8c20d4260509a1d6f8d213724a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 22/91] fix: skip unsupported MP4 sample entries by their size

---
 lofty/src/mp4/properties.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 93a96ef..e4a29e2 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -611,14 +611,13 @@ where
 			// 16.16 fixed point number
 			properties.sample_rate = Some(reader.read_u32()? >> 16);
 
-			let mut offset = reader.stream_position()?;
 			if stsd_version == 1 {
 				// Skipping 16 bytes
 				// Samples per packet (4)
 				// Bytes per packet (4)
 				// Bytes per frame (4)
 				// Bytes per sample (4)
-				offset = reader.seek(SeekFrom::Current(16))?;
+				reader.seek(SeekFrom::Current(16))?;
 			} else if stsd_version == 2 {
 				let extension_struct_size = reader.read_u32()?;
 
@@ -631,7 +630,7 @@ where
 				// Bytes per audio packet (4)
 				// LPCM frames per audio packet (4)
 				// Struct size (variable)
-				offset = reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
+				reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
 			}
 
 			match descriptor_format {
@@ -648,8 +647,7 @@ where
 				// Special case to detect encrypted files
 				b"drms" => {
 					properties.drm_protected = true;
-					skip_atom(reader, false, offset - atom.start)
-						.map_err(|e| e.with_ident(atom.ident))?;
+					reader.seek(SeekFrom::Start(atom.start + atom.len))?;
 					continue;
 				},
 				_ => {
@@ -657,7 +655,7 @@ where
 						"Found unsupported sample entry: {:?}",
 						descriptor_format.escape_ascii().to_string()
 					);
-					skip_atom(reader, false, offset - atom.start)?;
+					reader.seek(SeekFrom::Start(atom.start + atom.len))?;
 					continue;
 				},
 			}
-- 
2.43.0


From 23e493feb1756a885c2aeeab7923c78da924f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 23/91] fix: read the properties of ALAC streams with a channel
 layout

---
 lofty/src/mp4/properties.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index e4a29e2..85f0cfe 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -948,8 +948,9 @@ fn alac_properties<R>(
 where
 	R: Read + Seek,
 {
-	// With ALAC, we can expect the length to be exactly 88 (80 here since we removed the size and identifier)
-	if stsd.len() != 80 {
+	// With ALAC, we can expect the length to be at least 88 (80 here since we removed the size and identifier).
+	// The magic cookie may be followed by a channel layout.
+	if stsd.len() < 80 {
 		return Ok(());
 	}
 
-- 
2.43.0


From 14a1b204b018902e0a5cfb5a325510e3a5162e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 24/91] fix: do not underflow on tiny dfLa atoms

---
 lofty/src/mp4/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 85f0cfe..6f574a7 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -1020,7 +1020,7 @@ where
 	// Flags (3)
 	stsd.seek(SeekFrom::Current(4))?;
 
-	if dfla.len - 12 < 18 {
+	if dfla.len < 12 + 18 {
 		// The atom isn't long enough to hold a STREAMINFO block, also not worth an error.
 		return Ok(());
 	}
-- 
2.43.0


From 43e2157df36bb4f176f0ac4d7ff09a5f652b2d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 25/91] fix: do not overflow when converting 64-bit MP4
 durations

---
 lofty/src/mp4/properties.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 6f574a7..84e0102 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -693,8 +693,9 @@ where
 	let mut properties = Mp4Properties::default();
 
 	if timescale > 0 {
-		let duration_millis = (duration * 1000).div_round(u64::from(timescale));
-		properties.duration = Duration::from_millis(duration_millis);
+		let duration_millis = (u128::from(duration) * 1000).div_round(u128::from(timescale));
+		properties.duration =
+			Duration::from_millis(u64::try_from(duration_millis).unwrap_or(u64::MAX));
 	}
 
 	// We need an `mdhd` atom at the bare minimum, everything else can be optional.
-- 
2.43.0


From f36d3381e44df07a21e0e8d70427138c36540bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 26/91] fix: count all frames of APE files whose final frame
 has at most one block

---
 lofty/src/ape/properties.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lofty/src/ape/properties.rs b/lofty/src/ape/properties.rs
index 4435848..12662de 100644
--- a/lofty/src/ape/properties.rs
+++ b/lofty/src/ape/properties.rs
@@ -250,13 +250,10 @@ fn get_duration_bitrate(
 	blocks_per_frame: u32,
 	stream_len: u64,
 ) {
-	let mut total_samples = u64::from(final_frame_blocks);
+	let total_samples = u64::from(final_frame_blocks)
+		+ u64::from(blocks_per_frame) * u64::from(total_frames - 1);
 
-	if total_samples > 1 {
-		total_samples += u64::from(blocks_per_frame) * u64::from(total_frames - 1)
-	}
-
-	if properties.sample_rate > 0 {
+	if properties.sample_rate > 0 && total_samples > 0 {
 		let length = (total_samples as f64 * 1000.0) / f64::from(properties.sample_rate);
 
 		properties.duration = Duration::from_millis((length + 0.5) as u64);
-- 
2.43.0


From 1a9900e47cd8d11e866be134f6cda2a6402d08af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 27/91] fix: do not underflow on WavPack files smaller than
 their APE tag

---
 lofty/src/wavpack/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lofty/src/wavpack/read.rs b/lofty/src/wavpack/read.rs
index 72aa464..035f6f8 100644
--- a/lofty/src/wavpack/read.rs
+++ b/lofty/src/wavpack/read.rs
@@ -52,7 +52,10 @@ where
 	if let (tag, Some(header)) = crate::ape::tag::read::read_ape_tag(reader, true, parse_options)
 		.map_err(TagParseError::from)?
 	{
-		stream_length -= u64::from(header.size);
+		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+		stream_length = new_stream_length;
 		ape_tag = tag;
 	}
 
-- 
2.43.0


From 4e6901d5ef57e4d5b1b2d1f682adb4092c60d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 28/91] fix: read past APE tags exactly, also at the start of
 files and when tags are not read

---
 lofty/src/ape/read.rs     | 11 +++++++++--
 lofty/src/ape/tag/read.rs |  7 +++++++
 lofty/src/mpeg/read.rs    |  3 ++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index dfb861e..be760a1 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -61,9 +61,10 @@ where
 	let mut mac_start = 0;
 
 	let mut header = [0; 4];
-	data.read_exact(&mut header)?;
 
 	while !found_mac {
+		data.read_exact(&mut header)?;
+
 		match &header {
 			b"MAC " => {
 				mac_start = data.stream_position()?;
@@ -96,6 +97,9 @@ where
 					let ape = read_ape_tag_with_header(data, ape_header, parse_options)
 						.map_err(TagParseError::from)?;
 					ape_tag = Some(ape);
+				} else {
+					// Only the header, which is included in the size, has been read
+					data.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 				}
 			},
 			_ => {
@@ -143,7 +147,10 @@ where
 	if let (tag, Some(header)) =
 		read_ape_tag(data, true, parse_options).map_err(TagParseError::from)?
 	{
-		stream_len -= u64::from(header.size);
+		let Some(new_stream_length) = stream_len.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+		stream_len = new_stream_length;
 		ape_tag = tag;
 	}
 
diff --git a/lofty/src/ape/tag/read.rs b/lofty/src/ape/tag/read.rs
index 813ebab..7f4e8ea 100644
--- a/lofty/src/ape/tag/read.rs
+++ b/lofty/src/ape/tag/read.rs
@@ -115,6 +115,8 @@ pub(crate) fn read_ape_tag<R: Read + Seek>(
 	footer: bool,
 	parse_options: ParseOptions,
 ) -> Result<(Option<ApeTag>, Option<ApeHeader>), ApeTagParseError> {
+	let start = reader.stream_position()?;
+
 	let mut ape_preamble = [0; 8];
 	reader.read_exact(&mut ape_preamble)?;
 
@@ -125,6 +127,11 @@ pub(crate) fn read_ape_tag<R: Read + Seek>(
 			ape_tag = Some(read_ape_tag_with_header(reader, ape_header, parse_options)?);
 		}
 
+		if footer {
+			// Always leave the reader at the end of the tag
+			reader.seek(SeekFrom::Start(start + 32))?;
+		}
+
 		return Ok((ape_tag, Some(ape_header)));
 	}
 
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 874f0ef..4d963bc 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -93,7 +93,8 @@ where
 							.map_err(TagParseError::from)?,
 						);
 					} else {
-						reader.seek(SeekFrom::Current(i64::from(ape_header.size)))?;
+						// Only the header, which is included in the size, has been read
+						reader.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 					}
 
 					continue;
-- 
2.43.0


From 17b87f861d8ccc0936c8f48b123f08f088a24a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 29/91] fix: consume WavPack channel information exactly

---
 lofty/src/wavpack/properties.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index f50e037..cadcdc2 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -371,9 +371,10 @@ fn get_extended_meta_info(
 				}
 
 				properties.channels = u16::from(reader.read_u8()?);
+				size -= 1;
 
-				// size - (id length + channel length)
-				let s = size - 2;
+				// The size of the channel mask, with the first byte being at index 0
+				let s = size - 1;
 				match s {
 					0 => {
 						let channel_mask = reader.read_u8()?;
@@ -396,20 +397,24 @@ fn get_extended_meta_info(
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
 					4 => {
+						// Skip the lower byte of the stream count
+						let _ = reader.read_u8()?;
 						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
 						properties.channels += 1;
 
 						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 4;
+						size -= 5;
 
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
 					5 => {
+						// Skip the lower byte of the stream count
+						let _ = reader.read_u8()?;
 						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
 						properties.channels += 1;
 
 						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 5;
+						size -= 6;
 
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
-- 
2.43.0


From a0eb03f93290272bee218cc62486989d2347b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 30/91] fix: report the channels of multichannel WavPack files

---
 lofty/src/wavpack/properties.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index cadcdc2..d19c598 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -144,9 +144,12 @@ where
 		let sample_rate_idx = ((flags >> 23) & 0xF) as usize;
 		properties.sample_rate = SAMPLE_RATES[sample_rate_idx];
 
+		// Only the first block of a multichannel sequence describes all of its channels
+		let is_multichannel = flags & (FLAG_INITIAL_BLOCK | FLAG_FINAL_BLOCK) == FLAG_INITIAL_BLOCK;
+
 		// In the case of non-standard sample rates and DSD audio, we need to actually read the
 		// block to get the sample rate
-		if sample_rate_idx == 15 || flags & FLAG_DSD == FLAG_DSD {
+		if sample_rate_idx == 15 || flags & FLAG_DSD == FLAG_DSD || is_multichannel {
 			let mut block_contents = try_vec![0; (block_header.block_size - 24) as usize]?;
 			reader.read_exact(&mut block_contents)?;
 
-- 
2.43.0


From 15058b0fb12ccf05a33fb712ab73e3e846b8eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 31/91] fix: treat the replay gain of Musepack SV7 streams as
 signed

---
 lofty/src/musepack/sv7/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/musepack/sv7/properties.rs b/lofty/src/musepack/sv7/properties.rs
index 8a9460d..1ed1bef 100644
--- a/lofty/src/musepack/sv7/properties.rs
+++ b/lofty/src/musepack/sv7/properties.rs
@@ -334,7 +334,7 @@ impl MpcSv7Properties {
 				return 0;
 			}
 
-			let gain = ((MPC_OLD_GAIN_REF - f32::from(gain) / 100.0) * 256.0 + 0.5) as i16;
+			let gain = ((MPC_OLD_GAIN_REF - f32::from(gain as i16) / 100.0) * 256.0 + 0.5) as i16;
 			if !(0..i16::MAX).contains(&gain) {
 				return 0;
 			}
-- 
2.43.0


From 49e2de487f6b58e28fc916524d457ef67b42a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 32/91] fix: accept WavPack channel information without a
 channel mask

---
 lofty/src/wavpack/properties.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index d19c598..c6e66c4 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -367,7 +367,7 @@ fn get_extended_meta_info(
 				properties.sample_rate = properties.sample_rate.wrapping_mul(rate_multiplier);
 			},
 			ID_MULTICHANNEL => {
-				if size <= 1 {
+				if size == 0 {
 					return Err(WavPackParseError::message(
 						"unable to extract channel information",
 					));
@@ -376,30 +376,29 @@ fn get_extended_meta_info(
 				properties.channels = u16::from(reader.read_u8()?);
 				size -= 1;
 
-				// The size of the channel mask, with the first byte being at index 0
-				let s = size - 1;
-				match s {
-					0 => {
+				match size {
+					0 => properties.channel_mask = ChannelMask(0),
+					1 => {
 						let channel_mask = reader.read_u8()?;
 						size -= 1;
 						properties.channel_mask = ChannelMask(u32::from(channel_mask));
 					},
-					1 => {
+					2 => {
 						let channel_mask = reader.read_u16::<LittleEndian>()?;
 						size -= 2;
 						properties.channel_mask = ChannelMask(u32::from(channel_mask));
 					},
-					2 => {
+					3 => {
 						let channel_mask = reader.read_u24::<LittleEndian>()?;
 						size -= 3;
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
-					3 => {
+					4 => {
 						let channel_mask = reader.read_u32::<LittleEndian>()?;
 						size -= 4;
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
-					4 => {
+					5 => {
 						// Skip the lower byte of the stream count
 						let _ = reader.read_u8()?;
 						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
@@ -410,7 +409,7 @@ fn get_extended_meta_info(
 
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
-					5 => {
+					6 => {
 						// Skip the lower byte of the stream count
 						let _ = reader.read_u8()?;
 						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
-- 
2.43.0


From 59093bea2b3fc551cc8502fe9106ebe8e2f92fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 33/91] fix: do not divide by zero on Musepack SV7 streams
 without samples

---
 lofty/src/musepack/sv7/properties.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/musepack/sv7/properties.rs b/lofty/src/musepack/sv7/properties.rs
index 1ed1bef..ad3abea 100644
--- a/lofty/src/musepack/sv7/properties.rs
+++ b/lofty/src/musepack/sv7/properties.rs
@@ -380,8 +380,11 @@ impl MpcSv7Properties {
 				(u64::from(properties.frame_count) * MPC_FRAME_LENGTH) - MPC_DECODER_SYNTH_DELAY;
 		}
 
-		properties.average_bitrate = ((stream_length * 8 * u64::from(properties.sample_freq))
-			/ (total_samples * 1000)) as u32;
+		// The only frame may be empty
+		if total_samples > 0 {
+			properties.average_bitrate = ((stream_length * 8 * u64::from(properties.sample_freq))
+				/ (total_samples * 1000)) as u32;
+		}
 
 		Ok(properties)
 	}
-- 
2.43.0


From a5ba2b442d5e862866cd97ff6e15e7997ce5a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 34/91] fix: do not overflow on Musepack SV8 streams with large
 sample counts

---
 lofty/src/musepack/sv8/properties.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lofty/src/musepack/sv8/properties.rs b/lofty/src/musepack/sv8/properties.rs
index 65b19d8..fd63b70 100644
--- a/lofty/src/musepack/sv8/properties.rs
+++ b/lofty/src/musepack/sv8/properties.rs
@@ -291,11 +291,13 @@ pub(super) fn read(
 		return Ok(properties);
 	}
 
-	let length = (total_samples * 1000).div_round(u64::from(sample_rate));
+	// Sample counts and packet sizes are up to 63 bits wide
+	let total_samples_ms = u128::from(total_samples) * 1000;
+	let length = total_samples_ms.div_round(u128::from(sample_rate));
 
-	properties.duration = Duration::from_millis(length);
+	properties.duration = Duration::from_millis(length as u64);
 	properties.average_bitrate =
-		((stream_length * 8 * u64::from(sample_rate)) / (total_samples * 1000)) as u32;
+		((u128::from(stream_length) * 8 * u128::from(sample_rate)) / total_samples_ms) as u32;
 
 	Ok(properties)
 }
-- 
2.43.0


From f151f865887a6d8153d77628f6b6c59d826a3025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 35/91] fix: exclude skipped ID3v2 tags from the bitrate of
 Musepack streams

---
 lofty/src/musepack/read.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lofty/src/musepack/read.rs b/lofty/src/musepack/read.rs
index 2faac94..ca8d184 100644
--- a/lofty/src/musepack/read.rs
+++ b/lofty/src/musepack/read.rs
@@ -33,8 +33,7 @@ where
 	};
 
 	// ID3v2 tags are unsupported in MPC files, but still possible
-	#[allow(unused_variables)]
-	if let ID3FindResults(Some(header), Some(content)) =
+	if let ID3FindResults(Some(header), content) =
 		find_id3v2(reader, find_id3v2_config).map_err(TagParseError::from)?
 	{
 		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.full_tag_size()))
@@ -44,10 +43,12 @@ where
 
 		stream_length = new_stream_length;
 
-		let reader = &mut &*content;
+		if let Some(content) = content {
+			let reader = &mut &*content;
 
-		let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
-		file.id3v2_tag = Some(id3v2);
+			let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
+			file.id3v2_tag = Some(id3v2);
+		}
 	}
 
 	// Save the current position, so we can go back and read the properties after the tags
-- 
2.43.0


From 76cfa094db7789330b769ec4ba6f4cb3e9375399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 36/91] fix: report the stream version of Musepack files

---
 lofty/src/musepack/read.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lofty/src/musepack/read.rs b/lofty/src/musepack/read.rs
index ca8d184..920060b 100644
--- a/lofty/src/musepack/read.rs
+++ b/lofty/src/musepack/read.rs
@@ -124,6 +124,8 @@ where
 		},
 	}
 
+	file.stream_version = version;
+
 	if parse_options.read_properties {
 		match version {
 			MpcStreamVersion::Sv8 => {
-- 
2.43.0


From 275fbc1f49322ce32463efc7443bdfd0adb772b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 37/91] fix: do not panic on Opus channel counts without a
 channel mask

---
 lofty/src/ogg/opus/properties.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index ba23d83..9c5237d 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -121,8 +121,9 @@ where
 		));
 	}
 
+	// The other mapping families do not assign speaker positions, and support up to 255 channels
 	properties.channel_mask =
-		ChannelMask::from_opus_channels(properties.channels).expect("Channel count is valid");
+		ChannelMask::from_opus_channels(properties.channels).unwrap_or(ChannelMask(0));
 
 	let last_page = find_last_page(data);
 	let file_length = data.seek(SeekFrom::End(0))?;
-- 
2.43.0


From 8b15120c846ddaa5068f3005a5028ce40aef8fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 38/91] fix: do not overflow or divide by zero on extreme Opus
 durations

---
 lofty/src/ogg/opus/properties.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index 9c5237d..e4336ea 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -141,7 +141,7 @@ where
 			.saturating_sub(u64::from(pre_skip));
 		if total_samples > 0 {
 			// Best case scenario
-			let length = (total_samples * 1000).div_round(48000);
+			let length = (u128::from(total_samples) * 1000).div_round(48000) as u64;
 
 			// Get the stream length by subtracting the length of the header packets
 
@@ -152,8 +152,12 @@ where
 			let stream_len = file_length - header_size as u64;
 
 			properties.duration = Duration::from_millis(length);
-			properties.overall_bitrate = ((file_length * 8) / length) as u32;
-			properties.audio_bitrate = ((stream_len * 8) / length) as u32;
+
+			// Less than half a millisecond of audio
+			if length > 0 {
+				properties.overall_bitrate = ((file_length * 8) / length) as u32;
+				properties.audio_bitrate = ((stream_len * 8) / length) as u32;
+			}
 		} else {
 			log::warn!("Opus: The file contains invalid PCM values, unable to calculate length");
 		}
-- 
2.43.0


From 30040b8d0e9c5eb4355175b763c4119ccc2e9f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 39/91] fix: do not overflow or divide by zero on extreme Speex
 durations

---
 lofty/src/ogg/speex/properties.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ogg/speex/properties.rs b/lofty/src/ogg/speex/properties.rs
index 2cf3fb0..e96d25b 100644
--- a/lofty/src/ogg/speex/properties.rs
+++ b/lofty/src/ogg/speex/properties.rs
@@ -165,11 +165,11 @@ where
 		let last_page_abgp = last_page.header().abgp;
 
 		if properties.sample_rate > 0 {
-			let total_samples = last_page_abgp.saturating_sub(first_page_abgp);
+			let total_samples = u128::from(last_page_abgp.saturating_sub(first_page_abgp));
 
 			// Best case scenario
 			if total_samples > 0 {
-				length = (total_samples * 1000).div_round(u64::from(properties.sample_rate));
+				length = (total_samples * 1000).div_round(u128::from(properties.sample_rate)) as u64;
 				properties.duration = Duration::from_millis(length);
 			} else {
 				log::warn!(
@@ -181,6 +181,9 @@ where
 		}
 	}
 
+	// Less than half a millisecond of audio
+	length = length.max(1);
+
 	if properties.nominal_bitrate > 0 {
 		properties.overall_bitrate = (file_length.saturating_mul(8) / length) as u32;
 		properties.audio_bitrate = (properties.nominal_bitrate as u64 / 1000) as u32;
-- 
2.43.0


From 447e040206104b14b6fc3992177c63c34cb144d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 40/91] fix: do not drop zero length packets when paginating

---
 ogg_pager/src/paginate.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index 4a6f355..177f83f 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -158,6 +158,15 @@ where
 fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 	let mut page_content = Vec::with_capacity(MAX_WRITTEN_CONTENT_SIZE);
 	let mut packet = packet;
+
+	// A zero length packet is still marked by a lacing value of zero
+	if packet.is_empty() {
+		ctx.flags.packet_finished_on_page = true;
+		ctx.flush_page(&mut page_content);
+		ctx.flags.first_page = false;
+		return Ok(());
+	}
+
 	loop {
 		if packet.is_empty() {
 			break;
-- 
2.43.0


From dc8bde351ae61325f3bd9cfb25b6bf5294d07c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 41/91] fix: only set the granule position on the pages that
 finish a packet

---
 ogg_pager/src/paginate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index 177f83f..bb43109 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -179,7 +179,8 @@ fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 
 		packet = &packet[bytes_read..];
 
-		if bytes_read <= MAX_WRITTEN_CONTENT_SIZE && packet.is_empty() {
+		// A packet that fills the page is only finished by the 'nil' page following it
+		if ctx.remaining_page_size != 0 && packet.is_empty() {
 			ctx.flags.packet_finished_on_page = true;
 		}
 
-- 
2.43.0


From c4a78ef1f812975f2157938387d10fe056c45ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 42/91] fix: preserve pages of other streams and trailing data
 when writing OGG tags

---
 lofty/src/ogg/tag/write.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index c9ef0fa..9cfc530 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -122,15 +122,25 @@ where
 	// Correct all remaining page sequence numbers
 	let mut pages_reader = Cursor::new(&remaining_file_content[..]);
 	let mut idx = 0;
+	let mut pages_end = 0;
 	while let Ok(mut page) = Page::read(&mut pages_reader) {
-		let header = page.header_mut();
-		header.sequence_number = pages_written + idx;
-		page.gen_crc();
-		file.write_all(&page.as_bytes())?;
+		pages_end = pages_reader.position() as usize;
+
+		// Pages of other logical streams are left untouched
+		if page.header().stream_serial == stream_serial {
+			let header = page.header_mut();
+			header.sequence_number = pages_written + idx;
+			page.gen_crc();
+
+			idx += 1;
+		}
 
-		idx += 1;
+		file.write_all(&page.as_bytes())?;
 	}
 
+	// Keep any data following the last page
+	file.write_all(&remaining_file_content[pages_end..])?;
+
 	Ok(())
 }
 
-- 
2.43.0


From 3452ef10287a44591d66cd40f8dcd54007876220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 43/91] fix: A greyscale PNG with alpha has two channels

---
 lofty/src/picture/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index ea9d467..905bddc 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -370,7 +370,8 @@ impl PictureInformation {
 
 		match color_type {
 			2 => color_depth *= 3,
-			4 | 6 => color_depth *= 4,
+			4 => color_depth *= 2,
+			6 => color_depth *= 4,
 			_ => {},
 		}
 
-- 
2.43.0


From 05abb4079744c8c14eead08b4672477c5824eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 44/91] fix: Do not overflow on malformed JPEG segments

---
 lofty/src/picture/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 905bddc..96abb7c 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -472,12 +472,16 @@ impl PictureInformation {
 				return Ok(Self {
 					width,
 					height,
-					color_depth: u32::from(precision * components),
+					color_depth: u32::from(precision) * u32::from(components),
 					num_colors: 0,
 				});
 			}
 
-			reader.seek(SeekFrom::Current(i64::from(section_len - 2)))?;
+			let Some(content_len) = section_len.checked_sub(2) else {
+				return Err(NotEnoughDataError::new(Some(2)).into());
+			};
+
+			reader.seek(SeekFrom::Current(i64::from(content_len)))?;
 		}
 
 		Err(UnknownImageFormatError.into())
-- 
2.43.0


From 87a3f503316218898c96afa8ffb6db71a082558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 45/91] fix: Decode APE picture descriptions as UTF-8

---
 lofty/src/picture/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 96abb7c..6fc06f9 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -926,7 +926,7 @@ impl Picture {
 		let mut pos = 0;
 
 		let mut description = None;
-		let mut desc_text = String::new();
+		let mut desc_bytes = Vec::new();
 
 		while let Ok(ch) = reader.read_u8() {
 			pos += 1;
@@ -935,10 +935,13 @@ impl Picture {
 				break;
 			}
 
-			desc_text.push(char::from(ch));
+			desc_bytes.push(ch);
 		}
 
-		if !desc_text.is_empty() {
+		if !desc_bytes.is_empty() {
+			// APE tags are UTF-8, but Latin-1 has been seen in the wild
+			let desc_text = String::from_utf8(desc_bytes)
+				.unwrap_or_else(|e| e.as_bytes().iter().copied().map(char::from).collect());
 			description = Some(Cow::from(desc_text));
 		}
 
-- 
2.43.0


From 3d6f8e1ec49c91a34436426d88b624d5849fd385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 46/91] fix: Grow the stream size when a trailing ID3v2 chunk
 grows

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 3a813d5..ec10dfd 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -102,7 +102,7 @@ where
 					updated_stream_len -= remainder;
 					file.truncate(existing_id3_tag.end - remainder)?;
 				} else {
-					updated_stream_len -= tag_chunk_size - existing_tag_len;
+					updated_stream_len += tag_chunk_size - existing_tag_len;
 				}
 			}
 
-- 
2.43.0


From d7901074cf72c8fca359428dee1980b4924f55a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 47/91] fix: Do not count the header in the size of JUNK chunks

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index ec10dfd..6a6277b 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -140,7 +140,7 @@ where
 				write_id3v2_chunk::<_, B>(tag, write_options, &mut file)?;
 
 				file.write_all(&JUNK_CHUNK_NAME)?;
-				file.write_u32::<B>(remainder as u32)?;
+				file.write_u32::<B>((remainder as u32) - IFF_CHUNK_HEADER_SIZE)?;
 				return Ok(());
 			}
 		}
-- 
2.43.0


From 7ff52368c386b94ad7229e7b3309a5778090a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 48/91] fix: Stop at the end of the stream when looking for
 ID3v2 chunks

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 6a6277b..c40e92d 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -234,7 +234,7 @@ where
 
 	let mut chunks = Chunks::<_, B>::new(
 		file,
-		context.stream_length - u64::from(IFF_CHUNK_HEADER_SIZE),
+		context.stream_length.saturating_sub(FIRST_CHUNK_LEN),
 	);
 	while let Some(chunk) = chunks
 		.next(parse_options.parsing_mode)
-- 
2.43.0


From 6ac090c7cbdea56e2668172151df4fd999e89a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 49/91] fix: Skip the padding of AIFF comments

---
 lofty/src/iff/aiff/read.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/iff/aiff/read.rs b/lofty/src/iff/aiff/read.rs
index f83013a..33280dc 100644
--- a/lofty/src/iff/aiff/read.rs
+++ b/lofty/src/iff/aiff/read.rs
@@ -129,6 +129,11 @@ where
 
 						let text = chunk.read_string(Some(u32::from(size)))?;
 
+						// Odd sized comments are padded, the last one may lack the padding
+						if !size.is_multiple_of(2) {
+							let _ = chunk.read_u8();
+						}
+
 						comments.push(Comment {
 							timestamp,
 							marker_id,
-- 
2.43.0


From 7cd4a1ff444f243fecf37110afb90fa59099cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 50/91] fix: Replace exactly the existing RIFF INFO list

---
 lofty/src/iff/wav/tag/write.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/lofty/src/iff/wav/tag/write.rs b/lofty/src/iff/wav/tag/write.rs
index 6bbdb00..df62ce2 100644
--- a/lofty/src/iff/wav/tag/write.rs
+++ b/lofty/src/iff/wav/tag/write.rs
@@ -13,6 +13,7 @@ use crate::util::io::FileLike;
 
 use std::borrow::Cow;
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::ops::Range;
 
 use byteorder::{LittleEndian, WriteBytesExt};
 
@@ -41,13 +42,14 @@ where
 	file.read_to_end(file_bytes.get_mut())?;
 
 	// File is lying about its length
-	if file_bytes.get_ref().len() < (original_stream_length + IFF_CHUNK_HEADER_SIZE) as usize {
+	let stream_end = u64::from(original_stream_length) + u64::from(IFF_CHUNK_HEADER_SIZE);
+	if (file_bytes.get_ref().len() as u64) < stream_end || stream_end < u64::from(FIRST_CHUNK_LEN) {
 		return Err(SizeMismatchError.into());
 	}
 
 	file_bytes.seek(SeekFrom::Start(u64::from(FIRST_CHUNK_LEN)))?;
 
-	let Some(original_info_list_size) = find_info_list(
+	let Some(original_info_list) = find_info_list(
 		&mut file_bytes,
 		u64::from(original_stream_length - 4),
 		write_options.parse_options.parsing_mode,
@@ -63,7 +65,7 @@ where
 
 		file_bytes.rewind()?;
 
-		let tag_position = (original_stream_length + IFF_CHUNK_HEADER_SIZE) as usize;
+		let tag_position = stream_end as usize;
 		file_bytes.seek(SeekFrom::Start(tag_position as u64))?;
 
 		file_bytes
@@ -82,12 +84,12 @@ where
 
 	// Replace the existing tag
 
-	let info_list_start = file_bytes.seek(SeekFrom::Current(-12))? as usize;
-
-	// `original_info_list_size` doesn't include the b"LIST\0\0\0\0" chunk header
-	let info_list_end =
-		info_list_start + (IFF_CHUNK_HEADER_SIZE + original_info_list_size) as usize;
-	let original_info_list = info_list_start..info_list_end;
+	// The positions are relative to the first chunk
+	let original_info_list = original_info_list.start as usize + FIRST_CHUNK_LEN as usize
+		..original_info_list.end as usize + FIRST_CHUNK_LEN as usize;
+	if original_info_list.end as u64 > stream_end {
+		return Err(SizeMismatchError.into());
+	}
 
 	let new_stream_length = riff_info_bytes.len() as u64
 		+ (u64::from(original_stream_length) - original_info_list.len() as u64);
@@ -114,7 +116,7 @@ fn find_info_list<R>(
 	data: &mut R,
 	file_size: u64,
 	parse_mode: ParsingMode,
-) -> Result<Option<u32>, WavParseError>
+) -> Result<Option<Range<u64>>, WavParseError>
 where
 	R: Read + Seek,
 {
@@ -137,7 +139,10 @@ where
 				chunk.size()
 			);
 
-			info = Some(chunk.size());
+			// Including the padding
+			let start = chunk.start();
+			chunks.skip()?;
+			info = Some(start..chunks.stream_position());
 			break;
 		}
 	}
-- 
2.43.0


From 6fff2834bbe68c9b7bd780397f8918fcb1b7616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 51/91] fix: Don't panic on image data of less than 8 bytes

---
 lofty/src/picture/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 6fc06f9..6b3fc65 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -963,8 +963,18 @@ impl Picture {
 	}
 
 	pub(crate) fn mimetype_from_bin(bytes: &[u8]) -> Result<MimeType, UnknownImageFormatError> {
-		match bytes[..8] {
-			[0x89, b'P', b'N', b'G', 0x0D, 0x0A, 0x1A, 0x0A] => Ok(MimeType::Png),
+		match bytes {
+			[
+				0x89,
+				b'P',
+				b'N',
+				b'G',
+				0x0D,
+				0x0A,
+				0x1A,
+				0x0A,
+				..,
+			] => Ok(MimeType::Png),
 			[0xFF, 0xD8, ..] => Ok(MimeType::Jpeg),
 			[b'G', b'I', b'F', 0x38, 0x37 | 0x39, b'a', ..] => Ok(MimeType::Gif),
 			[b'B', b'M', ..] => Ok(MimeType::Bmp),
-- 
2.43.0


From 5c8088e7449b56300afdba66b5d36a4adb6e9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 52/91] fix: Replace APE tags at the start of a file, and ones
 that aren't parsed

---
 lofty/src/ape/tag/write.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index dbbb317..70ba0eb 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -67,9 +67,6 @@ where
 	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists
 	find_id3v2(file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
 
-	let mut ape_preamble = [0; 8];
-	file.read_exact(&mut ape_preamble)?;
-
 	// We have to check the APE tag for any read only items first
 	let mut read_only = None;
 
@@ -81,8 +78,10 @@ where
 	match read::read_ape_tag(file, false, write_options.parse_options)
 		.map_err(TagParseError::from)?
 	{
-		(Some(mut existing_tag), Some(header)) => {
-			if write_options.respect_read_only {
+		(existing_tag, Some(header)) => {
+			if write_options.respect_read_only
+				&& let Some(mut existing_tag) = existing_tag
+			{
 				// Only keep metadata around that's marked read only
 				existing_tag.items.retain(|i| i.read_only);
 
@@ -113,10 +112,12 @@ where
 
 	// Also check this tag for any read only items
 	let start = file.stream_position()? as usize + 32;
-	if let (Some(mut existing_tag), Some(header)) =
+	if let (existing_tag, Some(header)) =
 		read::read_ape_tag(file, true, write_options.parse_options).map_err(TagParseError::from)?
 	{
-		if write_options.respect_read_only {
+		if write_options.respect_read_only
+			&& let Some(mut existing_tag) = existing_tag
+		{
 			existing_tag.items.retain(|i| i.read_only);
 
 			if !existing_tag.items.is_empty() {
@@ -139,6 +140,15 @@ where
 		footer_tag_location = Some(start..start + size as usize);
 	}
 
+	// The tag at the beginning of the file can't reach into what follows the audio
+	let audio_end = match &footer_tag_location {
+		Some(footer) => footer.start,
+		None => ape_position as usize,
+	};
+	if header_tag_location.as_ref().is_some_and(|header| header.end > audio_end) {
+		return Err(SizeMismatchError.into());
+	}
+
 	Ok(ApeTags {
 		read_only,
 		header: header_tag_location,
-- 
2.43.0


From c7da62a695d0661794149547bdd4fa8664241009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 53/91] fix: Don't assume that every APEv2 tag has a header

---
 lofty/src/ape/tag/header.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index 7ecd9cf..63a8b69 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -7,6 +7,9 @@ use std::ops::Neg;
 
 use byteorder::{LittleEndian, ReadBytesExt};
 
+/// Set in the flags of an APEv2 footer if the tag also has a header
+const FLAG_HAS_HEADER: u32 = 1 << 31;
+
 #[derive(Copy, Clone)]
 pub(crate) struct ApeHeader {
 	pub(crate) size: u32,
@@ -28,19 +31,19 @@ where
 	}
 
 	let item_count = data.read_u32::<LittleEndian>()?;
+	let flags = data.read_u32::<LittleEndian>()?;
 
 	if footer {
 		// No point in reading the rest of the footer, just seek back to the end of the header
-		data.seek(SeekFrom::Current(i64::from(size - 12).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size - 8).neg()))?;
 	} else {
-		// There are 12 bytes remaining in the header
-		// Flags (4)
+		// There are 8 bytes remaining in the header
 		// Reserved (8)
-		data.seek(SeekFrom::Current(12))?;
+		data.seek(SeekFrom::Current(8))?;
 	}
 
-	// Version 1 doesn't include a header
-	if version == 2000 {
+	// Version 1 doesn't include a header, and it is optional in version 2
+	if version == 2000 && (!footer || flags & FLAG_HAS_HEADER != 0) {
 		size = size.saturating_add(32);
 	}
 
-- 
2.43.0


From 992c5f41e6344c795e1627c155ab8137b70fa9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 54/91] fix: Recognize Lyrics3v2 tags

---
 lofty/src/id3/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 159039f..9884cec 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -88,17 +88,18 @@ where
 	let mut lyrics3v2 = [0; 15];
 	data.read_exact(&mut lyrics3v2)?;
 
-	if &lyrics3v2[7..] == b"LYRICS200" {
+	if &lyrics3v2[6..] == b"LYRICS200" {
 		log::warn!("Encountered a Lyrics3v2 tag. This is an outdated format, and will be skipped.");
 
 		header = Some(());
 
-		let lyrics_size = utf8_decode_str(&lyrics3v2[..7])?;
+		let lyrics_size = utf8_decode_str(&lyrics3v2[..6])?;
 		let lyrics_size = lyrics_size.parse::<u32>()?;
 
-		size += lyrics_size;
+		// The size field, and the footer, aren't included in the size
+		size = lyrics_size + 15;
 
-		data.seek(SeekFrom::Current(i64::from(lyrics_size + 15).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size).neg()))?;
 	}
 
 	Ok(ID3FindResults(header, size))
-- 
2.43.0


From 5f5918910ec36e29278f9b4843b52ea63a7266be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 55/91] fix: Don't append an empty ID3v1 tag when removing one
 that isn't there

---
 lofty/src/id3/v1/write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v1/write.rs b/lofty/src/id3/v1/write.rs
index 21bdd3c..92c28ec 100644
--- a/lofty/src/id3/v1/write.rs
+++ b/lofty/src/id3/v1/write.rs
@@ -28,7 +28,12 @@ where
 		find_id3v1(&mut file, false, write_options.parse_options.parsing_mode)
 			.map_err(TagParseError::from)?;
 
-	if tag.is_empty() && header.is_some() {
+	if tag.is_empty() {
+		if header.is_none() {
+			log::debug!("Nothing to do");
+			return Ok(());
+		}
+
 		// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
 		// shrink it down.
 		let new_length = file.len()?.saturating_sub(128);
-- 
2.43.0


From d7b6bf019f6b709b37b88afdd169d4f3ece9ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 56/91] fix: Keep what precedes an ID3v2 tag, and never look
 for one inside the audio

---
 lofty/src/id3/mod.rs          |  3 +--
 lofty/src/id3/v2/write/mod.rs | 47 +++++++++++++++++++++++++++++------
 lofty/src/mpeg/mod.rs         |  2 +-
 lofty/src/mpeg/read.rs        |  8 ++++++
 4 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 9884cec..59f302b 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -203,7 +203,6 @@ where
 		reader.seek(SeekFrom::Current(-3))?;
 	}
 
-	let header_start = reader.stream_position()?;
 	if let Ok(id3v2_header) = Id3v2Header::parse(reader) {
 		log::debug!("Found an ID3v2 tag, parsing");
 
@@ -224,7 +223,7 @@ where
 
 		header = Some(id3v2_header);
 	} else {
-		reader.seek(SeekFrom::Start(header_start))?;
+		reader.seek(SeekFrom::Start(start))?;
 	}
 
 	Ok(ID3FindResults(header, id3v2))
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 98dddff..4f71911 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -3,7 +3,9 @@ pub(in crate::id3::v2) mod frame;
 
 use super::{Frame, Id3v2TagFlags};
 use crate::config::WriteOptions;
-use crate::error::{FileEncodingError, TagEncodingError, TagParseError};
+use crate::error::{
+	FileEncodingError, FileParseError, SizeMismatchError, TagEncodingError, TagParseError,
+};
 use crate::file::FileType;
 use crate::id3::v2::error::Id3v2EncodingError;
 use crate::id3::v2::tag::conversion::Id3v2TagRef;
@@ -11,6 +13,7 @@ use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 use crate::id3::{FindId3v2Config, find_id3v2};
 use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
+use crate::mpeg;
 use crate::util::io::FileLike;
 
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
@@ -73,17 +76,47 @@ where
 		}
 	}
 
+	let file_type = file.format();
 	let mut file = file.into_inner();
 
+	let mut existing_tag = find_id3v2(&mut file, FindId3v2Config::NO_READ_TAG)
+		.map_err(TagParseError::from)?
+		.0;
+	if existing_tag.is_none() && file_type == FileType::Mpeg {
+		// The tag may be buried in junk, but never past the first frame
+		file.rewind()?;
+		let first_frame_offset =
+			mpeg::read::first_frame_offset(&mut file).map_err(FileParseError::from)?;
+		file.rewind()?;
+
+		if let Some(first_frame_offset) = first_frame_offset {
+			let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
+			id3v2_config.allowed_junk_window = Some(std::cmp::min(
+				first_frame_offset,
+				write_options.parse_options.max_junk_bytes as u64,
+			));
+			existing_tag = find_id3v2(&mut file, id3v2_config)
+				.map_err(TagParseError::from)?
+				.0;
+		}
+	}
+
 	// `find_id3v2` will seek us to the end of the tag
-	let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
-	id3v2_config.allowed_junk_window = Some(write_options.parse_options.max_junk_bytes as u64);
-	find_id3v2(&mut file, id3v2_config).map_err(TagParseError::from)?;
+	let existing_tag_len = existing_tag.map_or(0, |header| u64::from(header.full_tag_size()));
+	let Some(existing_tag_start) = file.stream_position()?.checked_sub(existing_tag_len) else {
+		return Err(SizeMismatchError.into());
+	};
 
-	let mut file_bytes = Vec::new();
-	file.read_to_end(&mut file_bytes)?;
+	// The new tag goes at the start, everything around the existing one is kept
+	let mut file_bytes = id3v2;
+	let mut remaining_content = Vec::new();
+	file.read_to_end(&mut remaining_content)?;
 
-	file_bytes.splice(0..0, id3v2);
+	file.rewind()?;
+	Read::by_ref(&mut file)
+		.take(existing_tag_start)
+		.read_to_end(&mut file_bytes)?;
+	file_bytes.extend(remaining_content);
 
 	file.rewind()?;
 	file.truncate(0)?;
diff --git a/lofty/src/mpeg/mod.rs b/lofty/src/mpeg/mod.rs
index 69ceaf3..76af640 100644
--- a/lofty/src/mpeg/mod.rs
+++ b/lofty/src/mpeg/mod.rs
@@ -3,7 +3,7 @@ mod constants;
 pub mod error;
 pub(crate) mod header;
 mod properties;
-mod read;
+pub(crate) mod read;
 
 pub use header::{ChannelMode, Emphasis, Layer, MpegVersion};
 pub use properties::MpegProperties;
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 4d963bc..f17c197 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -228,6 +228,14 @@ where
 	Ok(file)
 }
 
+/// The offset of the first MPEG frame past the current position, if there is one
+pub(crate) fn first_frame_offset<R>(reader: &mut R) -> Result<Option<u64>, MpegParseError>
+where
+	R: Read + Seek,
+{
+	Ok(find_next_frame(reader)?.map(|(_, offset)| offset))
+}
+
 // Searches for the next frame, comparing it to the following one
 fn find_next_frame<R>(reader: &mut R) -> Result<Option<(Header, u64)>, MpegParseError>
 where
-- 
2.43.0


From bd1330903d48c8a4385435ac43deba0200fd7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 57/91] fix: encode UTF-16 ilst values as UTF-16BE

---
 lofty/src/mp4/ilst/write.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 1be152b..b87b105 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -689,7 +689,13 @@ where
 	for value in data {
 		match value {
 			AtomData::UTF8(text) => write_data(DataType::Utf8, text.as_bytes(), writer)?,
-			AtomData::UTF16(text) => write_data(DataType::Utf16, text.as_bytes(), writer)?,
+			AtomData::UTF16(text) => {
+				let encoded = text
+					.encode_utf16()
+					.flat_map(u16::to_be_bytes)
+					.collect::<Vec<u8>>();
+				write_data(DataType::Utf16, &encoded, writer)?
+			},
 			AtomData::Picture(pic) => write_picture(pic, writer)?,
 			AtomData::SignedInteger(int) => write_signed_int(*int, writer)?,
 			AtomData::UnsignedInteger(uint) => write_unsigned_int(*uint, writer)?,
-- 
2.43.0


From a84f5c13ccd187c2f477f8d0efeaa9d3901a9160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 58/91] fix: sign-extend single byte signed integers in ilst

---
 lofty/src/mp4/ilst/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index a07f9ea..6fe3ec0 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -359,7 +359,7 @@ fn parse_uint(bytes: &[u8]) -> Result<u32, AtomParseError> {
 
 fn parse_int(bytes: &[u8]) -> Result<i32, AtomParseError> {
 	match bytes.len() {
-		1 => Ok(i32::from(bytes[0])),
+		1 => Ok(i32::from(bytes[0] as i8)),
 		2 => Ok(i32::from(i16::from_be_bytes([bytes[0], bytes[1]]))),
 		3 => {
 			let pad = if bytes[0] & 0x80 != 0 { 0xFF } else { 0x00 };
-- 
2.43.0


From f14d20728309d8695b3d7eea612cda117c6b3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 59/91] fix: Skip to the next ilst item regardless of what its
 children contain

---
 lofty/src/mp4/ilst/read.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index 6fe3ec0..47a453e 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -2,7 +2,7 @@ use super::constants::WELL_KNOWN_TYPE_SET;
 use super::data_type::DataType;
 use super::{Atom, AtomData, AtomIdent, Ilst};
 use crate::config::{ParseOptions, ParsingMode};
-use crate::error::NotEnoughDataError;
+use crate::error::{NotEnoughDataError, SizeMismatchError};
 use crate::id3::v1::constants::GENRES;
 use crate::macros::try_vec;
 use crate::mp4::atom_info::{ATOM_HEADER_LEN, AtomInfo};
@@ -253,17 +253,37 @@ where
 	let to_read = atom_end - position;
 	let mut pos = 0;
 	while pos < to_read {
+		if to_read - pos < ATOM_HEADER_LEN {
+			if parsing_mode == ParsingMode::Strict {
+				return Err(SizeMismatchError.into());
+			}
+
+			log::warn!("Found {} trailing bytes, skipping", to_read - pos);
+			break;
+		}
+
 		let Some(next_atom) = reader.next()? else {
 			break;
 		};
 
-		if next_atom.len < 16 {
+		if next_atom.len > to_read - pos {
+			if parsing_mode == ParsingMode::Strict {
+				return Err(SizeMismatchError.into());
+			}
+
+			log::warn!("Found a child that exceeds its parent atom. Stopping");
+			break;
+		}
+
+		// Type indicator (4) + Locale (4)
+		let data_min_len = next_atom.header_size() + 8;
+		if next_atom.len < data_min_len {
 			log::warn!(
-				"Expected data atom to be at least 16 bytes, got {}. Stopping",
+				"Expected data atom to be at least {data_min_len} bytes, got {}. Stopping",
 				next_atom.len
 			);
 			if parsing_mode == ParsingMode::Strict {
-				return Err(NotEnoughDataError::new(Some(16)).into());
+				return Err(NotEnoughDataError::new(Some(data_min_len as usize)).into());
 			}
 
 			break;
@@ -291,17 +311,17 @@ where
 
 		let Some(data_type) = parse_type_indicator(reader, parsing_mode)? else {
 			log::warn!("Skipping atom with unknown type set");
-			let remaining_atom_len = next_atom.len - (ATOM_HEADER_LEN + 1);
+			let remaining_atom_len = next_atom.len - (next_atom.header_size() + 1);
 
 			reader.seek(SeekFrom::Current(remaining_atom_len as i64))?;
-			pos += remaining_atom_len;
+			pos += next_atom.len;
 			continue;
 		};
 
 		// We don't care about the locale
 		reader.seek(SeekFrom::Current(4))?;
 
-		let content_len = (next_atom.len - 16) as usize;
+		let content_len = (next_atom.len - data_min_len) as usize;
 		if content_len > 0 {
 			let mut content = try_vec![0; content_len]?;
 			reader.read_exact(&mut content)?;
@@ -313,6 +333,9 @@ where
 		pos += next_atom.len;
 	}
 
+	// Always leave the reader at the next item, regardless of what was skipped
+	reader.seek(SeekFrom::Start(atom_end))?;
+
 	let ret = if ret.is_empty() { None } else { Some(ret) };
 	Ok(ret)
 }
-- 
2.43.0


From 45ed485f10f5298f786e1a7dcebc4dccfa9f74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 60/91] fix: Honor atom headers and content lengths when
 writing ilst

---
 lofty/src/mp4/ilst/write.rs | 27 ++++++++++++++++++++-------
 lofty/src/mp4/moov.rs       |  9 ++++++---
 lofty/src/mp4/properties.rs |  3 ++-
 lofty/src/mp4/read/mod.rs   |  8 ++++----
 4 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index b87b105..6d77f31 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -1,7 +1,9 @@
 use super::data_type::DataType;
 use super::r#ref::IlstRef;
 use crate::config::WriteOptions;
-use crate::error::{FileEncodingError, FileParseError, TagEncodingError, TooMuchDataError};
+use crate::error::{
+	FileEncodingError, FileParseError, SizeMismatchError, TagEncodingError, TooMuchDataError,
+};
 use crate::file::FileType;
 use crate::io::VerifiedFile;
 use crate::macros::try_vec;
@@ -79,7 +81,7 @@ where
 
 	let udta = find_child_atom(
 		&mut write_handle,
-		moov_len,
+		moov_len - moov.info.header_size(),
 		*b"udta",
 		write_options.parse_options.parsing_mode,
 	)
@@ -108,7 +110,7 @@ where
 
 		let meta = find_child_atom(
 			&mut write_handle,
-			udta.len,
+			udta.len - udta.header_size(),
 			*b"meta",
 			write_options.parse_options.parsing_mode,
 		)
@@ -128,7 +130,16 @@ where
 				);
 
 				// We may encounter a non-full `meta` atom
-				meta_is_full(&mut write_handle).map_err(handle_atom_parse_error)?;
+				let mut meta_header_len = meta.header_size();
+				if meta_is_full(&mut write_handle).map_err(handle_atom_parse_error)? {
+					// Version (1) + Flags (3)
+					meta_header_len += 4;
+				}
+
+				let Some(meta_content_len) = meta.len.checked_sub(meta_header_len) else {
+					return Err(FileParseError::from(AtomParseError::from(SizeMismatchError)).into());
+				};
+
 				drop(write_handle);
 
 				// We can use the existing `udta` and `meta` atoms
@@ -136,6 +147,7 @@ where
 					&atom_writer,
 					moov,
 					(meta, udta),
+					meta_content_len,
 					&mut new_udta_size,
 					ilst,
 					remove_tag,
@@ -171,7 +183,7 @@ where
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
 				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + ATOM_HEADER_LEN) as usize;
+				let meta_start_pos = (udta.start + udta.header_size()) as usize;
 				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
@@ -187,7 +199,7 @@ where
 		new_udta_size = bytes.len() as u64;
 
 		// We'll put the new `udta` atom right at the start of `moov`
-		let udta_pos = (moov_start + ATOM_HEADER_LEN) as usize;
+		let udta_pos = moov_data_start as usize;
 		write_handle.splice(udta_pos..udta_pos, bytes);
 
 		drop(write_handle);
@@ -218,6 +230,7 @@ fn save_to_existing(
 	writer: &AtomWriter,
 	moov: &ContextualAtom,
 	(meta, udta): (AtomInfo, AtomInfo),
+	meta_content_len: u64,
 	new_udta_size: &mut u64,
 	ilst: Vec<u8>,
 	remove_tag: bool,
@@ -230,7 +243,7 @@ fn save_to_existing(
 
 	let (ilst_idx, tree) = atom_tree(
 		&mut write_handle,
-		meta.len - ATOM_HEADER_LEN,
+		meta_content_len,
 		b"ilst",
 		write_options.parse_options.parsing_mode,
 	)
diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index 128e471..bdce67f 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -50,9 +50,12 @@ impl Moov {
 				match &fourcc {
 					b"trak" if parse_options.read_properties => {
 						// All we need from here is trak.mdia
-						if let Some(mdia) =
-							find_child_atom(reader, atom.len, *b"mdia", parse_options.parsing_mode)?
-						{
+						if let Some(mdia) = find_child_atom(
+							reader,
+							atom.len - atom.header_size(),
+							*b"mdia",
+							parse_options.parsing_mode,
+						)? {
 							skip_atom(reader, mdia.extended, mdia.len)?;
 							traks.push(mdia);
 						}
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 84e0102..196771c 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -704,7 +704,8 @@ where
 	};
 
 	reader.seek(SeekFrom::Start(minf_info.start + minf_info.header_size()))?;
-	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.len, parse_mode)? else {
+	let minf_len = minf_info.len - minf_info.header_size();
+	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_len, parse_mode)? else {
 		return Ok(properties);
 	};
 
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 885112f..00da63b 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -1,7 +1,7 @@
 mod atom_reader;
 
 use super::Mp4File;
-use super::atom_info::{AtomIdent, AtomInfo, atom_header_len};
+use super::atom_info::{ATOM_HEADER_LEN, AtomIdent, AtomInfo, atom_header_len};
 use super::moov::Moov;
 use super::properties::Mp4Properties;
 use crate::config::{ParseOptions, ParsingMode};
@@ -116,7 +116,7 @@ where
 
 /// Finds the first child atom with the given fourcc
 ///
-/// * `len` is the length of the parent atom
+/// * `len` is the length of the parent atom's content
 /// * `expected` is the fourcc of the child atom to find
 pub(super) fn find_child_atom<R>(
 	reader: &mut R,
@@ -129,7 +129,7 @@ where
 {
 	let mut ret = None;
 
-	while len > 8 {
+	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
@@ -164,7 +164,7 @@ where
 
 	let mut i = 0;
 
-	while len > 8 {
+	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
-- 
2.43.0


From b3b8990dadff0d3a743c9bd2ce67fb98a10b8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 61/91] fix: Don't overwrite the first child of an MP4 meta
 atom without an ilst

---
 lofty/src/mp4/ilst/write.rs | 22 +++++++++++-----------
 lofty/src/mp4/read/mod.rs   | 14 ++++----------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 6d77f31..1741f6b 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -249,17 +249,7 @@ fn save_to_existing(
 	)
 	.map_err(Into::<FileParseError>::into)?;
 
-	if tree.is_empty() {
-		// Nothing to do
-		if remove_tag {
-			return Ok(());
-		}
-
-		let meta_end = (meta.start + meta.len) as usize;
-
-		replacement = ilst;
-		range = meta_end..meta_end;
-	} else {
+	if let Some(ilst_idx) = ilst_idx {
 		let existing_ilst = &tree[ilst_idx];
 		let existing_ilst_size = existing_ilst.len;
 
@@ -334,6 +324,16 @@ fn save_to_existing(
 			replacement = ilst;
 			range = range_start as usize..range_end as usize;
 		}
+	} else {
+		// Nothing to do
+		if remove_tag {
+			return Ok(());
+		}
+
+		let meta_end = (meta.start + meta.len) as usize;
+
+		replacement = ilst;
+		range = meta_end..meta_end;
 	}
 
 	drop(write_handle);
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 00da63b..1b024e7 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -155,15 +155,13 @@ pub(super) fn atom_tree<R>(
 	mut len: u64,
 	up_to: &[u8],
 	parse_mode: ParsingMode,
-) -> Result<(usize, Vec<AtomInfo>), Mp4ParseError>
+) -> Result<(Option<usize>, Vec<AtomInfo>), Mp4ParseError>
 where
 	R: Read + Seek,
 {
-	let mut found_idx: usize = 0;
+	let mut found_idx = None;
 	let mut buf = Vec::new();
 
-	let mut i = 0;
-
 	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
@@ -173,18 +171,14 @@ where
 		len = len.saturating_sub(atom.len);
 
 		if let AtomIdent::Fourcc(ref fourcc) = atom.ident {
-			i += 1;
-
-			if fourcc == up_to {
-				found_idx = i;
+			if fourcc == up_to && found_idx.is_none() {
+				found_idx = Some(buf.len());
 			}
 
 			buf.push(atom);
 		}
 	}
 
-	found_idx = found_idx.saturating_sub(1);
-
 	Ok((found_idx, buf))
 }
 
-- 
2.43.0


From f5682d508366b8c095691603f7f253fab4f179f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 62/91] fix: Update the chunk offsets of MP4 files that get
 their first tag

---
 lofty/src/mp4/ilst/write.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 1741f6b..00f03ff 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -175,15 +175,18 @@ where
 					bytes = meta_writer.into_contents();
 				}
 
-				write_handle = atom_writer.start_write();
-
 				new_udta_size = udta.len + bytes.len() as u64;
 
+				// We'll put the new `meta` atom right at the start of `udta`
+				let meta_start_pos = udta.start + udta.header_size();
+				update_offsets(&atom_writer, moov, bytes.len() as i64, meta_start_pos)?;
+
+				write_handle = atom_writer.start_write();
+
 				write_handle.seek(SeekFrom::Start(udta.start))?;
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
-				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + udta.header_size()) as usize;
+				let meta_start_pos = meta_start_pos as usize;
 				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
@@ -199,6 +202,11 @@ where
 		new_udta_size = bytes.len() as u64;
 
 		// We'll put the new `udta` atom right at the start of `moov`
+		drop(write_handle);
+		update_offsets(&atom_writer, moov, bytes.len() as i64, moov_data_start)?;
+
+		write_handle = atom_writer.start_write();
+
 		let udta_pos = moov_data_start as usize;
 		write_handle.splice(udta_pos..udta_pos, bytes);
 
-- 
2.43.0


From b35520c70f1fb0206d010b5c4cbb991ffcebb971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 63/91] fix: Update the entries of co64 atoms at their actual
 position

---
 lofty/src/mp4/ilst/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 00f03ff..8d62c0b 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -499,7 +499,7 @@ fn update_offsets(
 	for co64 in moov.find_all_children(*b"co64", true) {
 		log::trace!("Found `co64` atom");
 
-		write_handle.seek(SeekFrom::Start(co64.start + ATOM_HEADER_LEN + 8 + 4))?;
+		write_handle.seek(SeekFrom::Start(co64.start + co64.header_size() + 4))?;
 
 		let count = write_handle.read_u32::<BigEndian>()?;
 		for _ in 0..count {
-- 
2.43.0


From 0c6652d3ab4c478ab04c6e1444a9f2087c2c17fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 64/91] fix: Update the base offsets of all MP4 fragments at
 their actual position

---
 lofty/src/mp4/ilst/write.rs | 14 ++++++++------
 lofty/src/mp4/write.rs      | 10 +++++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 8d62c0b..21d855d 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -518,14 +518,13 @@ fn update_offsets(
 		}
 	}
 
-	let Some(moof) = writer.find_contextual_atom(*b"moof") else {
-		return Ok(());
-	};
-
-	log::trace!("Found `moof` atom, checking for `tfhd` atoms to update");
+	log::trace!("Checking the `moof` atoms for `tfhd` atoms to update");
 
 	// 64-bit offsets
-	for tfhd in moof.find_all_children(*b"tfhd", true) {
+	let tfhds = writer
+		.find_contextual_atoms(*b"moof")
+		.flat_map(|moof| moof.find_all_children(*b"tfhd", true));
+	for tfhd in tfhds {
 		log::trace!("Found `tfhd` atom");
 
 		let tfhd_start = tfhd.start;
@@ -544,6 +543,9 @@ fn update_offsets(
 		let base_data_offset = (flags & 0b1) != 0;
 
 		if base_data_offset {
+			// Skip track ID (4)
+			write_handle.seek(SeekFrom::Current(4))?;
+
 			let read_offset = write_handle.read_u64::<BigEndian>()?;
 			if read_offset < ilst_offset {
 				continue;
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 276c5cf..c6b4ffb 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -25,6 +25,7 @@ const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 	*b"moov",
 		*b"udta",
 		*b"moof",
+			*b"traf",
 		*b"trak",
 			*b"mdia",
 				*b"minf",
@@ -152,9 +153,16 @@ impl AtomWriter {
 	}
 
 	pub(super) fn find_contextual_atom(&self, fourcc: [u8; 4]) -> Option<&ContextualAtom> {
+		self.find_contextual_atoms(fourcc).next()
+	}
+
+	pub(super) fn find_contextual_atoms(
+		&self,
+		fourcc: [u8; 4],
+	) -> impl Iterator<Item = &ContextualAtom> {
 		self.atoms
 			.iter()
-			.find(|atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc))
+			.filter(move |atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc))
 	}
 
 	pub(super) fn into_contents(self) -> Vec<u8> {
-- 
2.43.0


From ce10f8b1f39eb34a08701699aa9b347d59eff721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 65/91] fix: Refuse to write MP4 chunk offsets that overflow

---
 lofty/src/mp4/ilst/write.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 21d855d..27ef036 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -485,13 +485,16 @@ fn update_offsets(
 			if u64::from(read_offset) < ilst_offset {
 				continue;
 			}
+
+			let new_offset = moved_offset(u64::from(read_offset), difference)?;
+			let Ok(new_offset) = u32::try_from(new_offset) else {
+				return Err(TooMuchDataError.into());
+			};
+
 			write_handle.seek(SeekFrom::Current(-4))?;
-			write_handle.write_u32::<BigEndian>((i64::from(read_offset) + difference) as u32)?;
+			write_handle.write_u32::<BigEndian>(new_offset)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				(i64::from(read_offset) + difference) as u32
-			);
+			log::trace!("Updated offset from {read_offset} to {new_offset}");
 		}
 	}
 
@@ -508,13 +511,12 @@ fn update_offsets(
 				continue;
 			}
 
+			let new_offset = moved_offset(read_offset, difference)?;
+
 			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+			write_handle.write_u64::<BigEndian>(new_offset)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
-			);
+			log::trace!("Updated offset from {read_offset} to {new_offset}");
 		}
 	}
 
@@ -551,13 +553,12 @@ fn update_offsets(
 				continue;
 			}
 
+			let new_offset = moved_offset(read_offset, difference)?;
+
 			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+			write_handle.write_u64::<BigEndian>(new_offset)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
-			);
+			log::trace!("Updated offset from {read_offset} to {new_offset}");
 		}
 	}
 
@@ -566,6 +567,12 @@ fn update_offsets(
 	Ok(())
 }
 
+fn moved_offset(offset: u64, difference: i64) -> Result<u64, FileEncodingError> {
+	offset
+		.checked_add_signed(difference)
+		.ok_or_else(|| TooMuchDataError.into())
+}
+
 fn create_udta(ilst: &[u8], write_options: WriteOptions) -> Result<Vec<u8>, FileEncodingError> {
 	const UDTA_HEADER: [u8; 8] = [0, 0, 0, 0, b'u', b'd', b't', b'a'];
 
-- 
2.43.0


From 8f168353790e92abcd95679f757b16ac81a7e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 66/91] fix: Keep the 64-bit sizes of MP4 atoms

---
 lofty/src/mp4/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index c6b4ffb..7bf1c2f 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -220,7 +220,7 @@ impl AtomWriterCompanion<'_> {
 		size: u64,
 		extended: bool,
 	) -> std::io::Result<()> {
-		if u32::try_from(size).is_ok() {
+		if !extended && u32::try_from(size).is_ok() {
 			// ???? (identifier)
 			self.write_u32::<BigEndian>(size as u32)?;
 			self.seek(SeekFrom::Current(IDENTIFIER_LEN as i64))?;
-- 
2.43.0


From 9f37f52efc07fb22ee53dcaf91314a0c20aac544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 67/91] fix: Don't underflow on paddings smaller than an MP4
 atom header

---
 lofty/src/mp4/ilst/write.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 27ef036..764704a 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -430,6 +430,9 @@ where
 		return Ok((atom_size_difference, 0));
 	};
 
+	// The padding has to fit the header of the `free` atom
+	let preferred_padding = preferred_padding.get().max(ATOM_HEADER_LEN as u32);
+
 	log::trace!(
 		"Cannot avoid offset update, padding atom with {} bytes",
 		preferred_padding
@@ -437,9 +440,9 @@ where
 
 	// Otherwise, we'll have to just pad the default amount,
 	// and update the offsets.
-	write_free_atom(writer, preferred_padding.get())?;
-	atom_size_difference += i64::from(preferred_padding.get());
-	padding_size = u64::from(preferred_padding.get());
+	write_free_atom(writer, preferred_padding)?;
+	atom_size_difference += i64::from(preferred_padding);
+	padding_size = u64::from(preferred_padding);
 
 	Ok((atom_size_difference, padding_size))
 }
-- 
2.43.0


From 312ef9e9aa8085ba0124b8d71880eacf3f8efdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 68/91] fix: Keep the order of the remaining items when
 removing some

---
 lofty/src/id3/v2/frame/list.rs | 2 +-
 lofty/src/mp4/ilst/mod.rs      | 2 +-
 lofty/src/ogg/tag.rs           | 2 +-
 lofty/src/tag/mod.rs           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index cf16f10..eeb6c46 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -331,7 +331,7 @@ impl<'a> FrameList<'a> {
 
 		for read_idx in 0..self.0.len() {
 			if self.0[read_idx].id() == id {
-				self.0.to_mut().swap(split_idx, read_idx);
+				self.0.to_mut()[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
diff --git a/lofty/src/mp4/ilst/mod.rs b/lofty/src/mp4/ilst/mod.rs
index cd5b3db..f7e8117 100644
--- a/lofty/src/mp4/ilst/mod.rs
+++ b/lofty/src/mp4/ilst/mod.rs
@@ -277,7 +277,7 @@ impl Ilst {
 
 		for read_idx in 0..self.atoms.len() {
 			if &self.atoms[read_idx].ident == ident {
-				self.atoms.swap(split_idx, read_idx);
+				self.atoms[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index b20e1c7..e6ae6c3 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -308,7 +308,7 @@ impl VorbisComments {
 
 		for read_idx in 0..self.items.len() {
 			if self.items[read_idx].0.eq_ignore_ascii_case(key) {
-				self.items.swap(split_idx, read_idx);
+				self.items[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
diff --git a/lofty/src/tag/mod.rs b/lofty/src/tag/mod.rs
index 7133a95..e1096cf 100644
--- a/lofty/src/tag/mod.rs
+++ b/lofty/src/tag/mod.rs
@@ -471,7 +471,7 @@ impl Tag {
 		for read_idx in 0..self.items.len() {
 			let item = &self.items[read_idx];
 			if item.key() == key && filter(item) {
-				self.items.swap(split_idx, read_idx);
+				self.items[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
-- 
2.43.0


From 397ede25e4f783f42a7a72765732998ed0e10730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 69/91] fix: Treat RIFF INFO keys case-insensitively, and
 replace or remove all of their items

---
 lofty/src/iff/wav/tag/mod.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 219cf9b..9ca9b38 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -85,7 +85,7 @@ impl RiffInfoList {
 	pub fn get(&self, key: &str) -> Option<&str> {
 		self.items
 			.iter()
-			.find(|(k, _)| k == key)
+			.find(|(k, _)| k.eq_ignore_ascii_case(key))
 			.map(|(_, v)| v.as_str())
 	}
 
@@ -101,28 +101,25 @@ impl RiffInfoList {
 
 		if valid_fourcc(fourcc) {
 			self.items
-				.iter()
-				.position(|(k, _)| k.eq_ignore_ascii_case(key.as_str()))
-				.map(|p| self.items.remove(p));
+				.retain(|(k, _)| !k.eq_ignore_ascii_case(key.as_str()));
 			self.items.push((key, value))
 		}
 	}
 
 	/// Remove an item by key
 	///
-	/// This will case-insensitively remove an item with the key, returning it
+	/// This will case-insensitively remove all items with the key, returning the first
 	/// if it exists.
 	pub fn remove(&mut self, key: &str) -> Option<String> {
-		if let Some((_, value)) = self
+		let first = self
 			.items
 			.iter()
 			.position(|(k, _)| k.eq_ignore_ascii_case(key))
-			.map(|p| self.items.remove(p))
-		{
-			return Some(value);
-		}
+			.map(|p| self.items.remove(p).1);
 
-		None
+		self.items.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
+
+		first
 	}
 }
 
-- 
2.43.0


From 7d98bdda9bf8cbb0c7c999f9b948237941a4b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 70/91] fix: Make the date set on an Id3v2Tag available through
 its accessor

---
 lofty/src/id3/v2/tag.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 06d0d69..930227e 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -491,7 +491,8 @@ impl Accessor for Id3v2Tag {
 	}
 
 	fn set_date(&mut self, value: Timestamp) {
-		self.insert(Frame::text(Cow::Borrowed("TDRC"), value.to_string()));
+		self.remove_date();
+		self.insert(new_timestamp_frame(RECORDING_TIME_ID, value));
 	}
 
 	fn remove_date(&mut self) {
-- 
2.43.0


From 6001103004a7d373494d0510b90a27df6f001379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 71/91] fix: Remove all comments of AiffTextChunks

---
 lofty/src/iff/aiff/tag/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/iff/aiff/tag/mod.rs b/lofty/src/iff/aiff/tag/mod.rs
index 624d412..8646098 100644
--- a/lofty/src/iff/aiff/tag/mod.rs
+++ b/lofty/src/iff/aiff/tag/mod.rs
@@ -123,6 +123,7 @@ impl Accessor for AiffTextChunks {
 	}
 	fn remove_comment(&mut self) {
 		self.annotations = None;
+		self.comments = None;
 	}
 }
 
-- 
2.43.0


From 3320495d5c29018eafffd4807a88be52edafd824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 72/91] fix: mp4: account for extended sizes in freeform atoms
 and their mean/name atoms

---
 lofty/src/mp4/atom_info.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 6bc7ca1..bf52931 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -244,7 +244,7 @@ impl AtomInfo {
 				return Err(NotEnoughDataError::new(Some(ATOM_HEADER_LEN as usize)).into());
 			}
 
-			atom_ident = parse_freeform(reader, len - ATOM_HEADER_LEN, parse_mode)?;
+			atom_ident = parse_freeform(reader, len - header_len, parse_mode)?;
 		} else {
 			atom_ident = AtomIdent::Fourcc(identifier);
 		}
@@ -299,6 +299,7 @@ where
 	let Some(AtomInfo {
 		ident: AtomIdent::Fourcc(fourcc),
 		len,
+		extended,
 		..
 	}) = AtomInfo::read_inner(data, *reader_size, parse_mode, true)?
 	else {
@@ -319,8 +320,10 @@ where
 		));
 	}
 
-	if len < 12 {
-		return Err(NotEnoughDataError::new(Some(12)).into());
+	// Size (4 or 12) + identifier (4) + version/flags (4)
+	let prefix_len = atom_header_len(extended) + 4;
+	if len < prefix_len {
+		return Err(NotEnoughDataError::new(Some(prefix_len as usize)).into());
 	}
 
 	if len > *reader_size {
@@ -331,8 +334,7 @@ where
 	// Flags (3)
 	data.seek(SeekFrom::Current(4))?;
 
-	// Already read the size (4) + identifier (4) + version/flags (4)
-	let mut content = try_vec![0; (len - 12) as usize]?;
+	let mut content = try_vec![0; (len - prefix_len) as usize]?;
 	data.read_exact(&mut content)?;
 
 	*reader_size -= len;
-- 
2.43.0


From ecd37efff56d62ba9ab4c40f337675471e51971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:04 +0000
Subject: [PATCH 73/91] fix: ape: Continue after the declared end of a leading
 tag

---
 lofty/src/ape/read.rs       | 9 ++++++---
 lofty/src/ape/tag/header.rs | 5 +++--
 lofty/src/mpeg/read.rs      | 9 ++++++---
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index be760a1..73fd599 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -93,14 +93,17 @@ where
 				};
 				stream_len = new_stream_length;
 
+				// Only the header, which is included in the size, has been read
+				let tag_end = data.stream_position()? + u64::from(ape_header.size) - 32;
+
 				if parse_options.read_tags {
 					let ape = read_ape_tag_with_header(data, ape_header, parse_options)
 						.map_err(TagParseError::from)?;
 					ape_tag = Some(ape);
-				} else {
-					// Only the header, which is included in the size, has been read
-					data.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 				}
+
+				// The items do not necessarily take up the entire tag
+				data.seek(SeekFrom::Start(tag_end))?;
 			},
 			_ => {
 				return Err(ApeParseError::message(
diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index 63a8b69..af062c0 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -42,8 +42,9 @@ where
 		data.seek(SeekFrom::Current(8))?;
 	}
 
-	// Version 1 doesn't include a header, and it is optional in version 2
-	if version == 2000 && (!footer || flags & FLAG_HAS_HEADER != 0) {
+	// Version 1 doesn't include a header, and it is optional in version 2. A tag that was found by its
+	// header has one, no matter what it claims to be.
+	if !footer || (version == 2000 && flags & FLAG_HAS_HEADER != 0) {
 		size = size.saturating_add(32);
 	}
 
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index f17c197..2466b59 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -83,6 +83,9 @@ where
 				if &header_remaining == b"AGEX" {
 					let ape_header = read_ape_header(reader, false).map_err(TagParseError::from)?;
 
+					// Only the header, which is included in the size, has been read
+					let tag_end = reader.stream_position()? + u64::from(ape_header.size) - 32;
+
 					if parse_options.read_tags {
 						file.ape_tag = Some(
 							crate::ape::tag::read::read_ape_tag_with_header(
@@ -92,11 +95,11 @@ where
 							)
 							.map_err(TagParseError::from)?,
 						);
-					} else {
-						// Only the header, which is included in the size, has been read
-						reader.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 					}
 
+					// The items do not necessarily take up the entire tag
+					reader.seek(SeekFrom::Start(tag_end))?;
+
 					continue;
 				}
 
-- 
2.43.0


From 85c939d86158cea0cdb86992a248ecec4f96624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:13 +0000
Subject: [PATCH 74/91] fix: iff: Keep to the bounds of the chunk that others
 are nested in

---
 lofty/src/iff/chunk.rs    | 23 ++++++++++++-----------
 lofty/src/iff/wav/read.rs |  2 +-
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/lofty/src/iff/chunk.rs b/lofty/src/iff/chunk.rs
index 68600de..9e7ed59 100644
--- a/lofty/src/iff/chunk.rs
+++ b/lofty/src/iff/chunk.rs
@@ -37,7 +37,7 @@ pub(crate) struct Chunks<R, B> {
 	remaining_size: u64,
 	current_chunk_size: u32,
 	current_chunk_remaining_size: u32,
-	lock_state: Option<(u64, u32)>,
+	lock_state: Option<(u64, u32, u64)>,
 	reader: R,
 	_phantom: PhantomData<B>,
 }
@@ -101,6 +101,7 @@ impl<R: Read + Seek, B: ByteOrder> Chunks<R, B> {
 			"Parsed chunk header: (FourCC={}, size={size})",
 			fourcc.escape_ascii()
 		);
+		self.remaining_size -= u64::from(IFF_CHUNK_HEADER_SIZE);
 		if u64::from(size) > self.remaining_size {
 			log::warn!(
 				"Chunk exceeds reader size, stopping (size: {size}, remaining: {})",
@@ -116,7 +117,6 @@ impl<R: Read + Seek, B: ByteOrder> Chunks<R, B> {
 			return Ok(None);
 		}
 
-		self.remaining_size -= u64::from(IFF_CHUNK_HEADER_SIZE);
 		self.current_chunk_size = size;
 		self.current_chunk_remaining_size = size;
 
@@ -155,18 +155,23 @@ impl<R: Read + Seek, B: ByteOrder> Chunks<R, B> {
 	/// # Panics
 	///
 	/// Panics if the reader is already locked
-	pub fn lock(&mut self) {
+	pub fn lock(&mut self) -> Result<(), ChunkParseError> {
 		assert!(self.lock_state.is_none(), "Chunks reader is already locked");
 
 		let outer_remaining = self
 			.remaining_size
 			.saturating_sub(u64::from(self.current_chunk_remaining_size));
 
-		self.lock_state = Some((outer_remaining, self.current_chunk_size));
+		let end =
+			self.reader.stream_position()? + u64::from(self.current_chunk_remaining_size);
+
+		self.lock_state = Some((outer_remaining, self.current_chunk_size, end));
 
 		self.remaining_size = u64::from(self.current_chunk_remaining_size);
 		self.current_chunk_size = 0;
 		self.current_chunk_remaining_size = 0;
+
+		Ok(())
 	}
 
 	/// Unlocks the chunks reader from the current locked chunk.
@@ -174,16 +179,12 @@ impl<R: Read + Seek, B: ByteOrder> Chunks<R, B> {
 	/// This will skip any remaining unread content in the locked scope,
 	/// handle parent padding, and restore the reader to the outer scope.
 	pub fn unlock(&mut self) -> Result<(), ChunkParseError> {
-		let Some((outer_remaining, parent_chunk_size)) = self.lock_state.take() else {
+		let Some((outer_remaining, parent_chunk_size, end)) = self.lock_state.take() else {
 			return Ok(());
 		};
 
-		self.skip()?;
-
-		if self.remaining_size > 0 {
-			self.reader
-				.seek(SeekFrom::Current(self.remaining_size as i64))?;
-		}
+		// The scope may have been left early, in which case `remaining_size` doesn't say where it ends
+		self.reader.seek(SeekFrom::Start(end))?;
 
 		self.remaining_size = outer_remaining;
 		self.current_chunk_size = 0;
diff --git a/lofty/src/iff/wav/read.rs b/lofty/src/iff/wav/read.rs
index e287431..064cd31 100644
--- a/lofty/src/iff/wav/read.rs
+++ b/lofty/src/iff/wav/read.rs
@@ -85,7 +85,7 @@ where
 					return Err(SizeMismatchError.into());
 				}
 
-				chunks.lock();
+				chunks.lock()?;
 				super::tag::read::parse_riff_info(
 					&mut chunks,
 					&mut riff_info,
-- 
2.43.0


From 442ed484f495857a4cb2ee85fa680f6a8ba01d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:44 +0000
Subject: [PATCH 75/91] fix: id3v2: Discard UFID and RVA2 frames with invalid
 fields in Relaxed mode

---
 lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs | 1 +
 lofty/src/id3/v2/items/unique_file_identifier.rs           | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
index 481aed4..8278dc7 100644
--- a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
+++ b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
@@ -183,6 +183,7 @@ impl<'a> RelativeVolumeAdjustmentFrame<'a> {
 						channel_type = ChannelType::Other
 					},
 					// Relaxed mode will just discard the frame entirely
+					Err(_) if parse_mode == ParsingMode::Relaxed => return Ok(None),
 					Err(e) => return Err(e.into()),
 				}
 
diff --git a/lofty/src/id3/v2/items/unique_file_identifier.rs b/lofty/src/id3/v2/items/unique_file_identifier.rs
index 7c0e0eb..9e8c5f2 100644
--- a/lofty/src/id3/v2/items/unique_file_identifier.rs
+++ b/lofty/src/id3/v2/items/unique_file_identifier.rs
@@ -92,6 +92,8 @@ impl<'a> UniqueFileIdentifierFrame<'a> {
 				None if parse_mode == ParsingMode::BestAttempt => {
 					owner = String::new();
 				},
+				// Relaxed mode will just discard the frame entirely
+				None if parse_mode == ParsingMode::Relaxed => return Ok(None),
 				None => return Err(FrameParseError::message(None, "empty owner field")),
 			}
 
-- 
2.43.0


From b178b7404f9b0c27d5148c790d4e11720baf28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 76/91] fix: mp4: Don't read the rest of a track as if it
 belonged to the file

---
 lofty/src/mp4/moov.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index bdce67f..076da3e 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -7,7 +7,7 @@ use crate::error::TagParseError;
 use crate::mp4::error::Mp4ParseError;
 use crate::mp4::ilst::error::IlstParseError;
 
-use std::io::{Read, Seek};
+use std::io::{Read, Seek, SeekFrom};
 
 pub(crate) struct Moov {
 	// Represents the trak.mdia atom
@@ -56,9 +56,13 @@ impl Moov {
 							*b"mdia",
 							parse_options.parsing_mode,
 						)? {
-							skip_atom(reader, mdia.extended, mdia.len)?;
 							traks.push(mdia);
 						}
+
+						// Anything else in the `trak` (such as a `udta`) doesn't belong to the file
+						let pos = reader.stream_position()?;
+						let remaining = (atom.start + atom.len) as i64 - pos as i64;
+						reader.seek(SeekFrom::Current(remaining))?;
 					},
 					b"udta" if parse_options.read_tags => {
 						let ilst_parsed = ilst_from_udta(
-- 
2.43.0


From 29d72152b2f11cf6b483e4f181defd20dd796f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:47 +0000
Subject: [PATCH 77/91] fix: id3v2: Don't lose data in UnsynchronizedStream
 when the reader fails

---
 lofty/src/id3/v2/util/synchsafe.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/id3/v2/util/synchsafe.rs b/lofty/src/id3/v2/util/synchsafe.rs
index 27536ff..485260e 100644
--- a/lofty/src/id3/v2/util/synchsafe.rs
+++ b/lofty/src/id3/v2/util/synchsafe.rs
@@ -111,6 +111,11 @@ impl<R: Read> Read for UnsynchronizedStream<R> {
 			}
 
 			if self.pos >= self.bytes_available {
+				// Hand out what there is first, it would be lost if the reader fails
+				if dest_pos > 0 {
+					break;
+				}
+
 				self.bytes_available = self.reader.read(&mut self.buf)?;
 				self.pos = 0;
 			}
-- 
2.43.0


From 8aaa14c73685bae5974b104773a9d4ce4cafa838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 78/91] fix: Don't mistake failures of the reader for the end
 of the data

---
 lofty/src/aac/read.rs              |  7 +++---
 lofty/src/error.rs                 | 19 ++++++++++++++++
 lofty/src/id3/mod.rs               | 16 +++++++++++---
 lofty/src/id3/v2/read.rs           | 34 +++++++++++++++++++++++++++--
 lofty/src/mp4/moov.rs              |  4 ++--
 lofty/src/mp4/properties.rs        |  5 +++--
 lofty/src/mp4/read/atom_reader.rs  | 10 ++++++++-
 lofty/src/mpeg/header.rs           | 35 ++++++++++++------------------
 lofty/src/mpeg/properties.rs       |  8 +++----
 lofty/src/mpeg/read.rs             |  8 +++----
 lofty/src/musepack/sv8/read.rs     | 10 +++++++--
 lofty/src/ogg/opus/properties.rs   |  7 ++++--
 lofty/src/ogg/speex/properties.rs  |  7 ++++--
 lofty/src/ogg/vorbis/properties.rs |  7 ++++--
 lofty/src/util/io.rs               | 12 ++++++++++
 lofty/src/wavpack/properties.rs    |  6 +++--
 16 files changed, 142 insertions(+), 53 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index b34d988..d20fdd8 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -5,6 +5,7 @@ use crate::config::{ParseOptions, ParsingMode};
 use crate::id3::v2::header::Id3v2Header;
 use crate::id3::v2::read::parse_id3v2;
 use crate::id3::{ID3FindResults, find_id3v1};
+use crate::io::read_exact_or_eof;
 use crate::mpeg::header::{HeaderCmpResult, cmp_header, search_for_frame_sync};
 
 use std::io::{Read, Seek, SeekFrom};
@@ -39,7 +40,7 @@ where
 
 	let mut header = [0; 4];
 
-	while let Ok(()) = reader.read_exact(&mut header) {
+	while read_exact_or_eof(reader, &mut header)? {
 		match header {
 			// [I, D, 3, ver_major, ver_minor, flags, size (4 bytes)]
 			[b'I', b'D', b'3', ..] => {
@@ -172,7 +173,7 @@ where
 {
 	let mut pos = reader.stream_position()?;
 
-	while let Ok(Some(first_adts_frame_start_relative)) = search_for_frame_sync(reader) {
+	while let Some(first_adts_frame_start_relative) = search_for_frame_sync(reader)? {
 		let first_adts_frame_start_absolute = pos + first_adts_frame_start_relative;
 
 		// Seek back to the start of the frame and read the header
@@ -193,7 +194,7 @@ where
 				u32::from(first_header.len),
 				u32::from_be_bytes(first_header.bytes[..4].try_into().unwrap()),
 				HEADER_MASK,
-			) {
+			)? {
 				HeaderCmpResult::Equal => {
 					return Ok(Some((
 						first_header,
diff --git a/lofty/src/error.rs b/lofty/src/error.rs
index b359c3e..c1acd45 100644
--- a/lofty/src/error.rs
+++ b/lofty/src/error.rs
@@ -13,6 +13,25 @@ use lofty_attr::LoftyError;
 pub use crate::util::alloc::AllocationError;
 pub use crate::util::text::{TextDecodingError, TextEncodingError};
 
+/// Whether the error is due to the reader or writer failing, rather than to the contents of the file
+pub(crate) fn is_io_failure(error: &(dyn Error + 'static)) -> bool {
+	use std::io::ErrorKind;
+
+	let mut current = Some(error);
+	while let Some(error) = current {
+		if let Some(io_error) = error.downcast_ref::<std::io::Error>() {
+			return !matches!(
+				io_error.kind(),
+				ErrorKind::UnexpectedEof | ErrorKind::InvalidData | ErrorKind::InvalidInput
+			);
+		}
+
+		current = error.source();
+	}
+
+	false
+}
+
 /// Failed to parse a file
 pub struct FileParseError {
 	ty: Option<FileType>,
diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 59f302b..0b4bc2d 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -9,7 +9,7 @@ pub mod v1;
 pub mod v2;
 
 use crate::config::ParsingMode;
-use crate::error::TextDecodingError;
+use crate::error::{TextDecodingError, is_io_failure};
 use crate::id3::v1::error::Id3v1ParseError;
 use crate::id3::v2::error::Id3v2ParseError;
 use crate::macros::try_vec;
@@ -120,7 +120,11 @@ where
 	let mut header = None;
 
 	// Reader is too small to contain an ID3v2 tag
-	if data.seek(SeekFrom::End(-128)).is_err() {
+	if let Err(e) = data.seek(SeekFrom::End(-128)) {
+		if is_io_failure(&e) {
+			return Err(e.into());
+		}
+
 		data.seek(SeekFrom::End(0))?;
 		return Ok(ID3FindResults(header, id3v1));
 	}
@@ -203,7 +207,13 @@ where
 		reader.seek(SeekFrom::Current(-3))?;
 	}
 
-	if let Ok(id3v2_header) = Id3v2Header::parse(reader) {
+	let parsed_header = match Id3v2Header::parse(reader) {
+		Ok(id3v2_header) => Some(id3v2_header),
+		Err(e) if is_io_failure(&e) => return Err(e),
+		Err(_) => None,
+	};
+
+	if let Some(id3v2_header) = parsed_header {
 		log::debug!("Found an ID3v2 tag, parsing");
 
 		// The extended header has already been read
diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index 564b3b1..d770909 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -8,7 +8,29 @@ use crate::id3::v2::{Frame, FrameId, FrameList, Id3v2TagFlags, Id3v2Version, Tim
 use crate::tag::items::Timestamp;
 
 use std::borrow::Cow;
-use std::io::Read;
+use std::io::{ErrorKind, Read};
+
+/// Remembers whether the reader failed
+///
+/// The end of the tag often has the same meaning as a missing field, so errors are not always
+/// passed on while parsing frames.
+struct TrackedReader<R> {
+	reader: R,
+	failure: Option<ErrorKind>,
+}
+
+impl<R: Read> Read for TrackedReader<R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let ret = self.reader.read(buf);
+		if let Err(e) = &ret
+			&& e.kind() != ErrorKind::Interrupted
+		{
+			self.failure = Some(e.kind());
+		}
+
+		ret
+	}
+}
 
 pub(crate) fn parse_id3v2<R>(
 	bytes: &mut R,
@@ -24,7 +46,11 @@ where
 		header.version
 	);
 
-	let mut tag_bytes = bytes.take(u64::from(header.size - header.extended_size));
+	let mut tracked_reader = TrackedReader {
+		reader: bytes,
+		failure: None,
+	};
+	let mut tag_bytes = (&mut tracked_reader).take(u64::from(header.size - header.extended_size));
 
 	// Prior to Id3v2.4, the tag-wide `unsynchronization` flag implied that unsynchronization was applied
 	// to the *entire* content of the tag following the header, since there was no frame-level flag.
@@ -45,6 +71,10 @@ where
 	// Throw away the rest of the tag (padding, bad frames)
 	std::io::copy(&mut tag_bytes, &mut std::io::sink())?;
 
+	if let Some(failure) = tracked_reader.failure {
+		return Err(std::io::Error::from(failure).into());
+	}
+
 	// Construct TDRC frame from TYER, TDAT, and TIME frames
 	if parse_options.implicit_conversions && header.version == Id3v2Version::V3 {
 		construct_tdrc_from_v3(&mut ret);
diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index 076da3e..abdcaaf 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -23,7 +23,7 @@ impl Moov {
 	{
 		let mut moov = None;
 
-		while let Ok(Some(atom)) = reader.next() {
+		while let Some(atom) = reader.next_valid()? {
 			if atom.ident == AtomIdent::Fourcc(*b"moov") {
 				moov = Some(atom);
 				break;
@@ -45,7 +45,7 @@ impl Moov {
 		let mut traks = Vec::new();
 		let mut ilst = None;
 
-		while let Ok(Some(atom)) = reader.next() {
+		while let Some(atom) = reader.next_valid()? {
 			if let AtomIdent::Fourcc(fourcc) = atom.ident {
 				match &fourcc {
 					b"trak" if parse_options.read_properties => {
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 196771c..b19fe56 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -1,6 +1,7 @@
 use super::atom_info::{AtomIdent, AtomInfo};
 use super::read::{AtomReader, find_child_atom, skip_atom};
 use crate::config::ParsingMode;
+use crate::error::is_io_failure;
 use crate::macros::try_vec;
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::properties::FileProperties;
@@ -722,7 +723,7 @@ where
 		match mdat_length(reader) {
 			Ok(len) => mdat_len = len,
 			Err(err) => {
-				if parse_mode == ParsingMode::Strict {
+				if parse_mode == ParsingMode::Strict || is_io_failure(&err) {
 					return Err(err);
 				}
 
@@ -1048,7 +1049,7 @@ where
 {
 	reader.rewind()?;
 
-	while let Ok(Some(atom)) = reader.next() {
+	while let Some(atom) = reader.next_valid()? {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
 			return Ok(atom.len - atom.header_size());
 		}
diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index a696d54..8ca53a1 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -1,5 +1,5 @@
 use crate::config::ParsingMode;
-use crate::error::SizeMismatchError;
+use crate::error::{SizeMismatchError, is_io_failure};
 use crate::mp4::atom_info::AtomInfo;
 use crate::mp4::error::AtomParseError;
 use crate::util::io::SeekStreamLen;
@@ -103,6 +103,14 @@ where
 		AtomInfo::read(self, self.remaining_size, self.parse_mode)
 	}
 
+	/// Same as [`Self::next`], but treats anything that is not an atom as the end
+	pub(crate) fn next_valid(&mut self) -> Result<Option<AtomInfo>, AtomParseError> {
+		match self.next() {
+			Err(e) if !is_io_failure(&e) => Ok(None),
+			ret => ret,
+		}
+	}
+
 	pub(crate) fn into_inner(self) -> R {
 		self.reader
 	}
diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index 4636c30..e965309 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -1,5 +1,5 @@
 use super::constants::{BITRATES, PADDING_SIZES, SAMPLE_RATES, SAMPLES, SIDE_INFORMATION_SIZES};
-use crate::error::FileParseError;
+use crate::io::read_exact_or_eof;
 use crate::mpeg::error::MpegParseError;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -52,7 +52,7 @@ const REV_FRAME_SEARCH_BOUNDS: u64 = 1024;
 pub(super) fn rev_search_for_frame_header<R>(
 	input: &mut R,
 	pos: &mut u64,
-) -> Result<Option<Header>, FileParseError>
+) -> Result<Option<Header>, MpegParseError>
 where
 	R: Read + Seek,
 {
@@ -129,35 +129,28 @@ pub(crate) fn cmp_header<R>(
 	first_header_len: u32,
 	first_header_bytes: u32,
 	header_mask: u32,
-) -> HeaderCmpResult
+) -> std::io::Result<HeaderCmpResult>
 where
 	R: Read + Seek,
 {
 	// Read the next header and see if they are the same
-	let res = reader.seek(SeekFrom::Current(i64::from(
+	reader.seek(SeekFrom::Current(i64::from(
 		first_header_len.saturating_sub(header_size),
-	)));
-	if res.is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	)))?;
 
-	let second_header_data = reader.read_u32::<BigEndian>();
-	if second_header_data.is_err() {
-		return HeaderCmpResult::Undetermined;
+	let mut second_header_data = [0; 4];
+	if !read_exact_or_eof(reader, &mut second_header_data)? {
+		return Ok(HeaderCmpResult::Undetermined);
 	}
 
-	if reader.seek(SeekFrom::Current(-4)).is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	reader.seek(SeekFrom::Current(-4))?;
 
-	match second_header_data {
-		Ok(second_header_data)
-			if first_header_bytes & header_mask == second_header_data & header_mask =>
-		{
-			HeaderCmpResult::Equal
-		},
-		_ => HeaderCmpResult::NotEqual,
+	let second_header_data = u32::from_be_bytes(second_header_data);
+	if first_header_bytes & header_mask == second_header_data & header_mask {
+		return Ok(HeaderCmpResult::Equal);
 	}
+
+	Ok(HeaderCmpResult::NotEqual)
 }
 
 /// MPEG Audio version
diff --git a/lofty/src/mpeg/properties.rs b/lofty/src/mpeg/properties.rs
index e887149..aa6c062 100644
--- a/lofty/src/mpeg/properties.rs
+++ b/lofty/src/mpeg/properties.rs
@@ -190,9 +190,9 @@ where
 	let mut last_frame = None;
 	let mut pos = last_frame_offset;
 	while pos > 0 {
-		match rev_search_for_frame_header(reader, &mut pos) {
+		match rev_search_for_frame_header(reader, &mut pos)? {
 			// Found a frame header
-			Ok(Some(header)) => {
+			Some(header) => {
 				// Move `last_frame_offset` back to the actual position
 				last_frame_offset = pos;
 
@@ -201,10 +201,8 @@ where
 					break;
 				}
 			},
-			// Encountered some IO error, just break
-			Err(_) => break,
 			// No frame sync found, continue further back in the file
-			_ => {},
+			None => {},
 		}
 	}
 
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 2466b59..1c74147 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -6,7 +6,7 @@ use crate::error::{FakeTagError, SizeMismatchError, TagParseError};
 use crate::id3::v2::header::Id3v2Header;
 use crate::id3::v2::read::parse_id3v2;
 use crate::id3::{FindId3v2Config, ID3FindResults, find_id3v1, find_lyrics3v2};
-use crate::io::SeekStreamLen;
+use crate::io::{SeekStreamLen, read_exact_or_eof};
 use crate::mpeg::error::MpegParseError;
 use crate::mpeg::header::HEADER_MASK;
 
@@ -33,7 +33,7 @@ where
 
 	let mut header = [0; 4];
 
-	while let Ok(()) = reader.read_exact(&mut header) {
+	while read_exact_or_eof(reader, &mut header)? {
 		match header {
 			// [I, D, 3, ver_major, ver_minor, flags, size (4 bytes)]
 			//
@@ -246,7 +246,7 @@ where
 {
 	let mut pos = reader.stream_position()?;
 
-	while let Ok(Some(first_mp3_frame_start_relative)) = search_for_frame_sync(reader) {
+	while let Some(first_mp3_frame_start_relative) = search_for_frame_sync(reader)? {
 		let first_mp3_frame_start_absolute = pos + first_mp3_frame_start_relative;
 
 		// Seek back to the start of the frame and read the header
@@ -254,7 +254,7 @@ where
 		let first_header_data = reader.read_u32::<BigEndian>()?;
 
 		if let Some(first_header) = Header::read(first_header_data) {
-			match cmp_header(reader, 4, first_header.len, first_header_data, HEADER_MASK) {
+			match cmp_header(reader, 4, first_header.len, first_header_data, HEADER_MASK)? {
 				HeaderCmpResult::Equal => {
 					return Ok(Some((first_header, first_mp3_frame_start_absolute)));
 				},
diff --git a/lofty/src/musepack/sv8/read.rs b/lofty/src/musepack/sv8/read.rs
index b0706f8..fc09968 100644
--- a/lofty/src/musepack/sv8/read.rs
+++ b/lofty/src/musepack/sv8/read.rs
@@ -4,7 +4,7 @@ use crate::musepack::error::MpcParseError;
 
 use std::io::Read;
 
-use crate::error::TooMuchDataError;
+use crate::error::{TooMuchDataError, is_io_failure};
 use byteorder::ReadBytesExt;
 
 // TODO: Support chapter packets?
@@ -31,7 +31,13 @@ where
 	let mut stream_length = 0;
 	let mut found_stream_end = false;
 
-	while let Ok((packet_id, packet_length)) = packet_reader.next() {
+	loop {
+		let (packet_id, packet_length) = match packet_reader.next() {
+			Ok(packet) => packet,
+			Err(e) if is_io_failure(&e) => return Err(e),
+			Err(_) => break,
+		};
+
 		stream_length += packet_length;
 
 		match packet_id {
diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index e4336ea..8a439e1 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -1,5 +1,5 @@
 use super::find_last_page;
-use crate::error::FileParseError;
+use crate::error::{FileParseError, is_io_failure};
 use crate::file::FileType;
 use crate::properties::{ChannelMask, FileProperties};
 use crate::util::math::RoundedDivision;
@@ -125,7 +125,10 @@ where
 	properties.channel_mask =
 		ChannelMask::from_opus_channels(properties.channels).unwrap_or(ChannelMask(0));
 
-	let last_page = find_last_page(data);
+	let last_page = match find_last_page(data) {
+		Err(e) if is_io_failure(&e) => return Err(e.into()),
+		last_page => last_page,
+	};
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	if let Ok(last_page) = last_page {
diff --git a/lofty/src/ogg/speex/properties.rs b/lofty/src/ogg/speex/properties.rs
index e96d25b..922b6c0 100644
--- a/lofty/src/ogg/speex/properties.rs
+++ b/lofty/src/ogg/speex/properties.rs
@@ -1,4 +1,4 @@
-use crate::error::FileParseError;
+use crate::error::{FileParseError, is_io_failure};
 use crate::file::FileType;
 use crate::ogg::find_last_page;
 use crate::properties::FileProperties;
@@ -150,7 +150,10 @@ where
 
 	properties.vbr = identification_packet_reader.read_u32::<LittleEndian>()? == 1;
 
-	let last_page = find_last_page(data);
+	let last_page = match find_last_page(data) {
+		Err(e) if is_io_failure(&e) => return Err(e.into()),
+		last_page => last_page,
+	};
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	// The stream length is the entire file minus the two mandatory metadata packets
diff --git a/lofty/src/ogg/vorbis/properties.rs b/lofty/src/ogg/vorbis/properties.rs
index c11a92f..b9f5c87 100644
--- a/lofty/src/ogg/vorbis/properties.rs
+++ b/lofty/src/ogg/vorbis/properties.rs
@@ -1,5 +1,5 @@
 use super::find_last_page;
-use crate::error::FileParseError;
+use crate::error::{FileParseError, is_io_failure};
 use crate::properties::FileProperties;
 use crate::util::math::RoundedDivision;
 
@@ -110,7 +110,10 @@ where
 	properties.bitrate_nominal = first_page_content.read_i32::<LittleEndian>()?;
 	properties.bitrate_minimum = first_page_content.read_i32::<LittleEndian>()?;
 
-	let last_page = find_last_page(data);
+	let last_page = match find_last_page(data) {
+		Err(e) if is_io_failure(&e) => return Err(e.into()),
+		last_page => last_page,
+	};
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	// This is used for bitrate calculation, it should be the length in
diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index 0be5517..08c2aa5 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -12,6 +12,18 @@ use std::ops::{Deref, DerefMut};
 use std::path::Path;
 
 // TODO: https://github.com/rust-lang/rust/issues/59359
+/// Fill the buffer, returning `false` if the reader ends before that
+pub(crate) fn read_exact_or_eof<R>(reader: &mut R, buf: &mut [u8]) -> std::io::Result<bool>
+where
+	R: Read,
+{
+	match reader.read_exact(buf) {
+		Ok(()) => Ok(true),
+		Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(false),
+		Err(e) => Err(e),
+	}
+}
+
 pub(crate) trait SeekStreamLen: Seek {
 	fn stream_len_hack(&mut self) -> std::io::Result<u64> {
 		use std::io::SeekFrom;
diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index c6e66c4..eee66eb 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -1,5 +1,7 @@
 use crate::config::ParsingMode;
-use crate::error::{NotEnoughDataError, SizeMismatchError, TooMuchDataError, UnknownFormatError};
+use crate::error::{
+	NotEnoughDataError, SizeMismatchError, TooMuchDataError, UnknownFormatError, is_io_failure,
+};
 use crate::macros::try_vec;
 use crate::properties::{ChannelMask, FileProperties};
 use crate::wavpack::error::WavPackParseError;
@@ -136,7 +138,7 @@ where
 		let block_header;
 		match parse_wv_header(reader) {
 			Ok(header) => block_header = header,
-			Err(e) if parse_mode == ParsingMode::Strict => return Err(e),
+			Err(e) if parse_mode == ParsingMode::Strict || is_io_failure(&e) => return Err(e),
 			_ => break,
 		}
 
-- 
2.43.0


From fab15954e5fa25d1b2984fd10cd30b9787965a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:41 +0000
Subject: [PATCH 79/91] fix: mp4: Don't accept atoms that exceed their parent
 by up to 8 bytes

---
 lofty/src/mp4/atom_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index bf52931..749d888 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -215,8 +215,8 @@ impl AtomInfo {
 			return Err(NotEnoughDataError::new(Some(header_len as usize)).into());
 		}
 
-		// `len` includes itself and the identifier
-		if (len - ATOM_HEADER_LEN) > reader_size {
+		// `len` includes itself and the identifier, and so does `reader_size`
+		if len > reader_size {
 			log::warn!(
 				"Atom size exceeds remaining data (ident={} len={}, remaining={})",
 				identifier.escape_ascii(),
-- 
2.43.0


From d9cadb02e4e2515d4b4a0c7f1c5d60c34d7a1ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 80/91] fix: Apply the allocation limit to bytes rather than
 elements

---
 lofty/src/util/alloc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/util/alloc.rs b/lofty/src/util/alloc.rs
index ec1b8d3..c58e6ae 100644
--- a/lofty/src/util/alloc.rs
+++ b/lofty/src/util/alloc.rs
@@ -50,7 +50,9 @@ impl<T> VecFallibleRepeat<T> for Vec<T> {
 			return Ok(self);
 		}
 
-		if expected_size > unsafe { global_options().allocation_limit } {
+		// The limit is in bytes
+		let expected_bytes = expected_size.saturating_mul(size_of::<T>());
+		if expected_bytes > unsafe { global_options().allocation_limit } {
 			return Err(AllocationError::LimitExceeded);
 		}
 
@@ -100,7 +102,8 @@ pub(crate) trait VecFallibleCapacity<T>: Sized {
 
 impl<T> VecFallibleCapacity<T> for Vec<T> {
 	fn try_with_capacity_stable(capacity: usize) -> Result<Self, AllocationError> {
-		if capacity > unsafe { global_options().allocation_limit } {
+		// The limit is in bytes
+		if capacity.saturating_mul(size_of::<T>()) > unsafe { global_options().allocation_limit } {
 			return Err(AllocationError::LimitExceeded);
 		}
 
-- 
2.43.0


From 1205bb47fad07e6f8b8b043909da991e307d3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:34 +0000
Subject: [PATCH 81/91] fix: Skip the footer of ID3v2 tags when guessing the
 file type

---
 lofty/src/file/file_type.rs | 14 ++++++++++----
 lofty/src/probe.rs          |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 029564d..a0d91e1 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -292,9 +292,15 @@ impl FileType {
 				// This is infallible, but preferable to an unwrap
 				if let Ok(arr) = buf[6..10].try_into() {
 					// Set the ID3v2 size
-					ret = Some(FileTypeGuessResult::MaybePrecededById3(
-						u32::from_be_bytes(arr).unsynch(),
-					));
+					let mut size = u32::from_be_bytes(arr).unsynch();
+
+					// The footer isn't included in the size, see `Id3v2Header::parse()`
+					let has_footer = matches!(buf[3], 3 | 4) && buf[5] & 0x10 == 0x10;
+					if has_footer {
+						size += 10;
+					}
+
+					ret = Some(FileTypeGuessResult::MaybePrecededById3(size));
 				}
 			},
 			None => ret = Some(FileTypeGuessResult::MaybePrecededByJunk),
@@ -386,7 +392,7 @@ impl FileType {
 pub(crate) enum FileTypeGuessResult {
 	/// The `FileType` was guessed
 	Determined(FileType),
-	/// The stream starts with an ID3v2 tag
+	/// The stream starts with an ID3v2 tag of the given size, **excluding** the header
 	MaybePrecededById3(u32),
 	/// The stream starts with potential junk data
 	MaybePrecededByJunk,
diff --git a/lofty/src/probe.rs b/lofty/src/probe.rs
index 15cd1b4..603754f 100644
--- a/lofty/src/probe.rs
+++ b/lofty/src/probe.rs
@@ -355,7 +355,7 @@ impl<R: Read + Seek> Probe<R> {
 			FileTypeGuessResult::Determined(file_ty) => Ok(Some(file_ty)),
 			// The file starts with an ID3v2 tag; this means other data can follow (e.g. APE or MP3 frames)
 			FileTypeGuessResult::MaybePrecededById3(id3_len) => {
-				// `id3_len` is the size of the tag, not including the header (10 bytes)
+				// `id3_len` is the size of the tag (and its footer), not including the header (10 bytes)
 				log::debug!("Probe: ID3v2 tag detected, skipping {} bytes", 10 + id3_len);
 				let position_after_id3_block = self
 					.inner
-- 
2.43.0


From db9f3a59059c8827aa745ad6b8f410e0806a2947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:42 +0000
Subject: [PATCH 82/91] fix: id3v2: Don't drop items stored in TXXX and MVIN
 frames on conversion

---
 lofty/src/id3/v2/tag.rs            |  1 +
 lofty/src/id3/v2/tag/conversion.rs | 34 +++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 930227e..3ebd2db 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -384,6 +384,7 @@ const ALBUM_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TALB"));
 const GENRE_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TCON"));
 const TRACK_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TRCK"));
 const DISC_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TPOS"));
+const MOVEMENT_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("MVIN"));
 const RECORDING_TIME_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TDRC"));
 pub(super) const ATTACHED_PICTURE_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("APIC"));
 
diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 093c693..1138e85 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -135,7 +135,6 @@ pub(crate) fn from_tag<'a>(
 			| ItemKey::InternetRadioStationName
 			| ItemKey::InternetRadioStationOwner
 			| ItemKey::Remixer
-			| ItemKey::Work
 			| ItemKey::Movement
 			| ItemKey::FileOwner
 			| ItemKey::CopyrightMessage
@@ -154,7 +153,8 @@ pub(crate) fn from_tag<'a>(
 			},
 
 			// Multi-valued TXXX key-to-frame mappings
-			ItemKey::TrackArtists
+			ItemKey::Work
+			| ItemKey::TrackArtists
 			| ItemKey::AlbumArtists
 			| ItemKey::Director
 			| ItemKey::AcoustId
@@ -284,6 +284,14 @@ pub(crate) fn from_tag<'a>(
 				ctx.disc_total = parse_number(&item);
 				None
 			},
+			ItemKey::MovementNumber => {
+				ctx.movement_number = parse_number(&item);
+				None
+			},
+			ItemKey::MovementTotal => {
+				ctx.movement_total = parse_number(&item);
+				None
+			},
 
 			ItemKey::MusicBrainzRecordingId => {
 				let (recording_id, _) = take_item_text_and_description(item)?;
@@ -329,9 +337,13 @@ pub(crate) fn from_tag<'a>(
 
 			// Anything else
 			_ => {
-				if let Some(mapped) = item_key.map_key(TagType::Id3v2)
-					&& mapped.len() == 4
-				{
+				if let Some(mapped) = item_key.map_key(TagType::Id3v2) {
+					// Anything that isn't a frame ID is the description of a TXXX frame
+					if mapped.len() != 4 {
+						let (value, _) = take_item_text_and_description(item)?;
+						return Some(new_user_text_frame(Cow::Borrowed(mapped), value));
+					}
+
 					let id = FrameId::new(mapped).ok()?;
 
 					if id.as_str().starts_with('T') {
@@ -371,6 +383,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: Option<u32>,
 		disc_number: Option<u32>,
 		disc_total: Option<u32>,
+		movement_number: Option<u32>,
+		movement_total: Option<u32>,
 	}
 
 	#[derive(Hash, PartialEq, Eq)]
@@ -393,6 +407,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: None,
 		disc_number: None,
 		disc_total: None,
+		movement_number: None,
+		movement_total: None,
 	};
 
 	let mut frames = HashSet::with_capacity(items.len());
@@ -446,6 +462,14 @@ pub(crate) fn from_tag<'a>(
 		frames.insert(disc_frame);
 	}
 
+	if let Some(movement_frame) = new_number_pair_frame(
+		super::MOVEMENT_ID,
+		ctx.movement_number,
+		ctx.movement_total,
+	) {
+		frames.insert(movement_frame);
+	}
+
 	frames
 }
 
-- 
2.43.0


From 5ae3272ad62e11c835fbb6d825297d30222e0d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:42 +0000
Subject: [PATCH 83/91] fix: id3v2: Support the podcast flag that generic tags
 are converted to

---
 lofty/src/id3/v2/frame/content.rs | 13 +++++++++++++
 lofty/src/id3/v2/write/frame.rs   |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/content.rs b/lofty/src/id3/v2/frame/content.rs
index 9361854..338c1b6 100644
--- a/lofty/src/id3/v2/frame/content.rs
+++ b/lofty/src/id3/v2/frame/content.rs
@@ -67,6 +67,19 @@ pub(super) fn parse_content<R: Read>(
 		"GRP1" | "MVNM" | "MVIN" => TextInformationFrame::parse(reader, id, flags, version)
 			.transpose()?
 			.map(Frame::Text),
+		// PCST (Podcast flag), which iTunes writes as 4 null bytes instead of text
+		"PCST" => {
+			let frame = BinaryFrame::parse(reader, id.clone(), flags);
+			match frame {
+				Ok(frame) if *frame.data != [0; 4] => {
+					TextInformationFrame::parse(&mut &*frame.data, id, flags, version)
+						.ok()
+						.flatten()
+						.map_or(Ok(Frame::Binary(frame)), |text| Ok(Frame::Text(text)))
+				},
+				_ => frame.map(Frame::Binary),
+			}
+		},
 		i if i.starts_with('W') => UrlLinkFrame::parse(reader, id, flags)
 			.transpose()?
 			.map(Frame::Url),
diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 5864d02..04d3bda 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -274,7 +274,7 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("UFID", Frame::UniqueFileIdentifier(_))
 		| ("POPM", Frame::Popularimeter(_))
 		| ("TIPL" | "TMCL", Frame::KeyValue { .. })
-		| ("WFED" | "GRP1" | "MVNM" | "MVIN", Frame::Text { .. })
+		| ("WFED" | "GRP1" | "MVNM" | "MVIN" | "PCST", Frame::Text { .. })
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
 		| ("OWNE", Frame::Ownership(_))
-- 
2.43.0


From 500ee16c54d17a1137541c850a0c245ae5571ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:42 +0000
Subject: [PATCH 84/91] fix: id3v2: Keep the description of every value of a
 comment or lyrics frame

---
 lofty/src/id3/v2/tag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 3ebd2db..90b8023 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -822,7 +822,7 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 				item.set_lang(*language);
 
 				if *description != EMPTY_CONTENT_DESCRIPTOR {
-					item.set_description(std::mem::take(description).into_owned());
+					item.set_description(description.clone().into_owned());
 				}
 
 				tag.items.push(item);
-- 
2.43.0


From 8e1530d134d9bcde287560144b0dacf55448635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:42 +0000
Subject: [PATCH 85/91] fix: id3v2: Don't mistake the description of a TXXX
 frame for a frame ID

---
 lofty/src/id3/v2/tag.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 90b8023..dac94d7 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -746,6 +746,12 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 				return FRAME_RETAINED;
 			};
 
+			// The description may happen to be the ID of another frame. "WORK" is the only 4 character
+			// description in the mappings.
+			if description.len() == 4 && item_key != ItemKey::Work {
+				return FRAME_RETAINED;
+			}
+
 			for c in content.split(V4_MULTI_VALUE_SEPARATOR) {
 				tag.items.push(TagItem::new(
 					item_key,
-- 
2.43.0


From 712b5476cd86774d885f8ce59ebd94b03b9fb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:42 +0000
Subject: [PATCH 86/91] fix: ape: Don't turn the movement total into a movement
 number

---
 lofty/src/ape/tag/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index e4fc6f8..effccae 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -555,7 +555,8 @@ impl SplitTag for ApeTag {
 					*item = ApeItem::EMPTY;
 					false // Item consumed
 				},
-				(ItemKey::MovementNumber | ItemKey::MovementTotal, ItemValue::Text(val))
+				// Unlike the pairs above, the total has its own key
+				(ItemKey::MovementNumber, ItemValue::Text(val))
 					if split_pair(
 						val,
 						&mut tag,
-- 
2.43.0


From 3af752899c64ce8eee957dfe35bc7c6bad5bda45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:21 +0000
Subject: [PATCH 87/91] fix: ape: generic tags saved as APE keep all values,
 pictures, flags and non-numeric numbers

Items that share a key become one null separated item, pictures and flags are written
as the owned conversion does, and track and disc items that are not numbers survive.
---
 lofty/src/ape/tag/item.rs      | 16 +++++++-
 lofty/src/ape/tag/mod.rs       | 71 ++++++++++++++--------------------
 lofty/src/ape/tag/write.rs     |  6 +--
 lofty/src/id3/v2/util/pairs.rs |  9 +++++
 lofty/src/tag/item.rs          | 18 +++++++--
 5 files changed, 69 insertions(+), 51 deletions(-)

diff --git a/lofty/src/ape/tag/item.rs b/lofty/src/ape/tag/item.rs
index e61d729..43988bd 100644
--- a/lofty/src/ape/tag/item.rs
+++ b/lofty/src/ape/tag/item.rs
@@ -3,6 +3,8 @@ use crate::ape::tag::error::ApeTagItemValidationError;
 use crate::tag::ItemValue;
 use crate::tag::item::ItemValueRef;
 
+use std::borrow::Cow;
+
 /// Represents an `APE` tag item
 ///
 /// The restrictions for `APE` lie in the key rather than the value,
@@ -99,7 +101,7 @@ impl ApeItem {
 
 pub(crate) struct ApeItemRef<'a> {
 	pub read_only: bool,
-	pub key: &'a str,
+	pub key: Cow<'a, str>,
 	pub value: ItemValueRef<'a>,
 }
 
@@ -107,8 +109,18 @@ impl<'a> Into<ApeItemRef<'a>> for &'a ApeItem {
 	fn into(self) -> ApeItemRef<'a> {
 		ApeItemRef {
 			read_only: self.read_only,
-			key: self.key(),
+			key: Cow::Borrowed(self.key()),
 			value: (&self.value).into(),
 		}
 	}
 }
+
+impl From<ApeItem> for ApeItemRef<'static> {
+	fn from(item: ApeItem) -> Self {
+		Self {
+			read_only: item.read_only,
+			key: Cow::Owned(item.key),
+			value: item.value.into(),
+		}
+	}
+}
diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index effccae..9ce1a1b 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -8,8 +8,7 @@ use crate::ape::tag::error::ApeTagEncodingError;
 use crate::ape::tag::item::{ApeItem, ApeItemRef};
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
-use crate::id3::v2::util::pairs::{NUMBER_PAIR_KEYS, format_number_pair, set_number};
-use crate::tag::item::ItemValueRef;
+use crate::id3::v2::util::pairs::{NUMBER_PAIR_KEYS, format_number_pair, number_or_text};
 use crate::tag::items::Timestamp;
 use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
@@ -19,6 +18,7 @@ use crate::util::flag_item;
 use crate::util::io::{FileLike, VerifiedFile};
 
 use std::borrow::Cow;
+use std::fmt::Display;
 use std::io::Write;
 use std::ops::Deref;
 
@@ -271,11 +271,6 @@ impl ApeTag {
 
 	fn insert_item(&mut self, item: TagItem) {
 		match item.key() {
-			ItemKey::TrackNumber => set_number(&item, |number| self.set_track(number)),
-			ItemKey::TrackTotal => set_number(&item, |number| self.set_track_total(number)),
-			ItemKey::DiscNumber => set_number(&item, |number| self.set_disk(number)),
-			ItemKey::DiscTotal => set_number(&item, |number| self.set_disk_total(number)),
-
 			// Normalize flag items
 			ItemKey::FlagCompilation => {
 				let Some(text) = item.item_value.text() else {
@@ -316,11 +311,16 @@ impl ApeTag {
 		(None, None)
 	}
 
-	fn insert_number_pair(&mut self, key: &'static str, number: Option<u32>, total: Option<u32>) {
+	fn insert_number_pair<N: Display>(
+		&mut self,
+		key: &'static str,
+		number: Option<N>,
+		total: Option<N>,
+	) {
 		if let Some(value) = format_number_pair(number, total) {
 			self.insert(ApeItem::text(key, value));
 		} else {
-			log::warn!("{key} is not set. number: {number:?}, total: {total:?}");
+			log::warn!("{key} is not set, no number provided");
 		}
 	}
 }
@@ -568,6 +568,7 @@ impl SplitTag for ApeTag {
 					*item = ApeItem::EMPTY;
 					false // Item consumed
 				},
+				(k, _) if NUMBER_PAIR_KEYS.contains(&k) => true,
 				(k, _) => {
 					let item = std::mem::replace(item, ApeItem::EMPTY);
 
@@ -603,8 +604,22 @@ impl MergeTag for SplitTagRemainder {
 	fn merge_tag(self, tag: Tag) -> Self::Merged {
 		let Self(mut merged) = self;
 
+		for (key, number_key, total_key) in [
+			("Track", ItemKey::TrackNumber, ItemKey::TrackTotal),
+			("Disc", ItemKey::DiscNumber, ItemKey::DiscTotal),
+		] {
+			let number = tag.get(number_key).and_then(number_or_text);
+			let total = tag.get(total_key).and_then(number_or_text);
+			if number.is_some() || total.is_some() {
+				merged.insert_number_pair(key, number, total);
+			}
+		}
+
 		for item in tag.items {
-			merged.insert_item(item);
+			// Handled above
+			if !NUMBER_PAIR_KEYS.contains(&item.key()) {
+				merged.insert_item(item);
+			}
 		}
 
 		for pic in tag.pictures {
@@ -667,38 +682,10 @@ where
 	}
 }
 
-pub(crate) fn tagitems_into_ape(tag: &Tag) -> impl Iterator<Item = ApeItemRef<'_>> {
-	fn create_apeitemref_for_number_pair<'a>(
-		number: Option<&str>,
-		total: Option<&str>,
-		key: &'a str,
-	) -> Option<ApeItemRef<'a>> {
-		format_number_pair(number, total).map(|value| ApeItemRef {
-			read_only: false,
-			key,
-			value: ItemValueRef::Text(Cow::Owned(value)),
-		})
-	}
-
-	tag.items()
-		.filter(|item| !NUMBER_PAIR_KEYS.contains(&item.key()))
-		.filter_map(|i| {
-			i.key().map_key(TagType::Ape).map(|key| ApeItemRef {
-				read_only: false,
-				key,
-				value: (&i.item_value).into(),
-			})
-		})
-		.chain(create_apeitemref_for_number_pair(
-			tag.get_string(ItemKey::TrackNumber),
-			tag.get_string(ItemKey::TrackTotal),
-			"Track",
-		))
-		.chain(create_apeitemref_for_number_pair(
-			tag.get_string(ItemKey::DiscNumber),
-			tag.get_string(ItemKey::DiscTotal),
-			"Disc",
-		))
+// The items of a generic tag need to be joined and reformatted, so the conversion is the same as that
+// of `From<Tag> for ApeTag`
+pub(crate) fn tagitems_into_ape(tag: &Tag) -> impl Iterator<Item = ApeItemRef<'static>> {
+	ApeTag::from(tag.clone()).into_iter().map(Into::into)
 }
 
 #[cfg(test)]
diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index 70ba0eb..87e8322 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -217,17 +217,17 @@ where
 
 	for item in peek {
 		let (mut flags, value) = match item.value {
-			ItemValueRef::Binary(value) => {
+			ItemValueRef::Binary(ref value) => {
 				tag_write.write_u32::<LittleEndian>(value.len() as u32)?;
 
-				(1_u32 << 1, value)
+				(1_u32 << 1, value.as_ref())
 			},
 			ItemValueRef::Text(ref value) => {
 				tag_write.write_u32::<LittleEndian>(value.len() as u32)?;
 
 				(0_u32, value.as_bytes())
 			},
-			ItemValueRef::Locator(value) => {
+			ItemValueRef::Locator(ref value) => {
 				tag_write.write_u32::<LittleEndian>(value.len() as u32)?;
 
 				(2_u32 << 1, value.as_bytes())
diff --git a/lofty/src/id3/v2/util/pairs.rs b/lofty/src/id3/v2/util/pairs.rs
index 2fb9e0b..d71cb57 100644
--- a/lofty/src/id3/v2/util/pairs.rs
+++ b/lofty/src/id3/v2/util/pairs.rs
@@ -47,6 +47,15 @@ where
 	}
 }
 
+/// Converts a `TagItem` to one side of a number pair
+///
+/// Numbers are normalized, any other text is kept as it is.
+pub(crate) fn number_or_text(item: &TagItem) -> Option<String> {
+	let mut value = item.value().text().filter(|t| !t.trim().is_empty())?.to_string();
+	set_number(item, |number| value = number.to_string());
+	Some(value)
+}
+
 /// Attempts to convert a `TagItem` to a number, passing it to `setter`
 pub(crate) fn set_number<F: FnMut(u32)>(item: &TagItem, mut setter: F) {
 	let text = item.value().text();
diff --git a/lofty/src/tag/item.rs b/lofty/src/tag/item.rs
index 11c26ca..b1c73bb 100644
--- a/lofty/src/tag/item.rs
+++ b/lofty/src/tag/item.rs
@@ -1036,16 +1036,26 @@ impl ItemValue {
 
 pub(crate) enum ItemValueRef<'a> {
 	Text(Cow<'a, str>),
-	Locator(&'a str),
-	Binary(&'a [u8]),
+	Locator(Cow<'a, str>),
+	Binary(Cow<'a, [u8]>),
 }
 
 impl<'a> Into<ItemValueRef<'a>> for &'a ItemValue {
 	fn into(self) -> ItemValueRef<'a> {
 		match self {
 			ItemValue::Text(text) => ItemValueRef::Text(Cow::Borrowed(text)),
-			ItemValue::Locator(locator) => ItemValueRef::Locator(locator),
-			ItemValue::Binary(binary) => ItemValueRef::Binary(binary),
+			ItemValue::Locator(locator) => ItemValueRef::Locator(Cow::Borrowed(locator)),
+			ItemValue::Binary(binary) => ItemValueRef::Binary(Cow::Borrowed(binary)),
+		}
+	}
+}
+
+impl From<ItemValue> for ItemValueRef<'static> {
+	fn from(value: ItemValue) -> Self {
+		match value {
+			ItemValue::Text(text) => ItemValueRef::Text(Cow::Owned(text)),
+			ItemValue::Locator(locator) => ItemValueRef::Locator(Cow::Owned(locator)),
+			ItemValue::Binary(binary) => ItemValueRef::Binary(Cow::Owned(binary)),
 		}
 	}
 }
-- 
2.43.0


From 5b3573407076db4a5fa343be8837e1bf64e57b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:21 +0000
Subject: [PATCH 88/91] fix: id3v2: keep TRCK, TPOS and MVIN frames that are
 not number pairs when splitting

---
 lofty/src/id3/v2/tag.rs            | 48 +++++++++++++-----------------
 lofty/src/id3/v2/tag/conversion.rs | 31 ++++++++-----------
 2 files changed, 33 insertions(+), 46 deletions(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index dac94d7..495f286 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -666,34 +666,26 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 			header: FrameHeader { id, .. },
 			value: content,
 			..
-		}) if id.as_str() == "TRCK"
-			&& split_pair(content, tag, ItemKey::TrackNumber, ItemKey::TrackTotal).is_some() =>
-		{
-			return FRAME_CONSUMED
-		},
-		Frame::Text(TextInformationFrame {
-			header: FrameHeader { id, .. },
-			value: content,
-			..
-		}) if id.as_str() == "TPOS"
-			&& split_pair(content, tag, ItemKey::DiscNumber, ItemKey::DiscTotal).is_some() =>
-		{
-			return FRAME_CONSUMED
-		},
-		Frame::Text(TextInformationFrame {
-			header: FrameHeader { id, .. },
-			value: content,
-			..
-		}) if id.as_str() == "MVIN"
-			&& split_pair(
-				content,
-				tag,
-				ItemKey::MovementNumber,
-				ItemKey::MovementTotal,
-			)
-			.is_some() =>
-		{
-			return FRAME_CONSUMED
+		}) if matches!(id.as_str(), "TRCK" | "TPOS" | "MVIN") => {
+			let (number_key, total_key) = match id.as_str() {
+				"TRCK" => (ItemKey::TrackNumber, ItemKey::TrackTotal),
+				"TPOS" => (ItemKey::DiscNumber, ItemKey::DiscTotal),
+				_ => (ItemKey::MovementNumber, ItemKey::MovementTotal),
+			};
+
+			if split_pair(content, tag, number_key, total_key).is_none() {
+				if content.trim().is_empty() {
+					return FRAME_RETAINED;
+				}
+
+				// Not a number pair, the best we can do is preserve the text
+				tag.items.push(TagItem::new(
+					number_key,
+					ItemValue::Text(content.to_string()),
+				));
+			}
+
+			return FRAME_CONSUMED;
 		},
 
 		// TCON needs special treatment to translate genre IDs
diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 1138e85..c1633de 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -2,7 +2,7 @@ use crate::TextEncoding;
 use crate::config::WriteOptions;
 use crate::error::FileEncodingError;
 use crate::id3::v2::frame::MUSICBRAINZ_UFID_OWNER;
-use crate::id3::v2::util::pairs::new_number_pair_frame;
+use crate::id3::v2::util::pairs::{new_number_pair_frame, number_or_text};
 use crate::id3::v2::{
 	AttachedPictureFrame, CommentFrame, Frame, FrameId, Id3v2TagFlags, KeyValueFrame,
 	PopularimeterFrame, UniqueFileIdentifierFrame, UnsynchronizedTextFrame, write,
@@ -106,11 +106,6 @@ pub(crate) fn from_tag<'a>(
 			}
 		}
 
-		fn parse_number(item: &TagItem) -> Option<u32> {
-			let text = item.item_value.text()?;
-			text.parse().ok()
-		}
-
 		let item_key = item.key();
 		match item_key {
 			// Multi-valued text key-to-frame mappings
@@ -269,27 +264,27 @@ pub(crate) fn from_tag<'a>(
 			},
 
 			ItemKey::TrackNumber => {
-				ctx.track_number = parse_number(&item);
+				ctx.track_number = number_or_text(&item);
 				None
 			},
 			ItemKey::TrackTotal => {
-				ctx.track_total = parse_number(&item);
+				ctx.track_total = number_or_text(&item);
 				None
 			},
 			ItemKey::DiscNumber => {
-				ctx.disc_number = parse_number(&item);
+				ctx.disc_number = number_or_text(&item);
 				None
 			},
 			ItemKey::DiscTotal => {
-				ctx.disc_total = parse_number(&item);
+				ctx.disc_total = number_or_text(&item);
 				None
 			},
 			ItemKey::MovementNumber => {
-				ctx.movement_number = parse_number(&item);
+				ctx.movement_number = number_or_text(&item);
 				None
 			},
 			ItemKey::MovementTotal => {
-				ctx.movement_total = parse_number(&item);
+				ctx.movement_total = number_or_text(&item);
 				None
 			},
 
@@ -379,12 +374,12 @@ pub(crate) fn from_tag<'a>(
 		unsync_text: HashMap<LanguageAndDescription<'a>, Cow<'a, str>>,
 
 		// Number frames need to be merged
-		track_number: Option<u32>,
-		track_total: Option<u32>,
-		disc_number: Option<u32>,
-		disc_total: Option<u32>,
-		movement_number: Option<u32>,
-		movement_total: Option<u32>,
+		track_number: Option<String>,
+		track_total: Option<String>,
+		disc_number: Option<String>,
+		disc_total: Option<String>,
+		movement_number: Option<String>,
+		movement_total: Option<String>,
 	}
 
 	#[derive(Hash, PartialEq, Eq)]
-- 
2.43.0


From cff13b8f4e7d6a1ff7d2dc6049700d88b3c057eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:21 +0000
Subject: [PATCH 89/91] fix: vorbis comments: convert ratings and keep the
 vendor and encoder through split, merge and Tag::save_to

---
 lofty/src/flac/write.rs    |  12 +---
 lofty/src/ogg/tag.rs       | 121 +++++++++++++++++++------------------
 lofty/src/ogg/tag/write.rs |  12 +---
 lofty/src/tag/utils.rs     |  16 ++---
 4 files changed, 73 insertions(+), 88 deletions(-)

diff --git a/lofty/src/flac/write.rs b/lofty/src/flac/write.rs
index 92af60f..3c28b78 100644
--- a/lofty/src/flac/write.rs
+++ b/lofty/src/flac/write.rs
@@ -5,7 +5,7 @@ use crate::error::{FileEncodingError, FileParseError, SizeMismatchError, TagPars
 use crate::id3::{FindId3v2Config, find_id3v2};
 use crate::io::{Length, VerifiedFile};
 use crate::macros::try_vec;
-use crate::ogg::tag::VorbisCommentsRef;
+use crate::ogg::tag::{VorbisComments, VorbisCommentsRef};
 use crate::picture::{Picture, PictureInformation};
 use crate::tag::{Tag, TagType};
 use crate::util::io::FileLike;
@@ -27,15 +27,9 @@ where
 {
 	match tag.tag_type() {
 		TagType::VorbisComments => {
-			let (vendor, items, pictures) = crate::ogg::tag::create_vorbis_comments_ref(tag);
+			let comments: VorbisComments = tag.clone().into();
 
-			let mut comments_ref = VorbisCommentsRef {
-				vendor: Cow::from(vendor),
-				items,
-				pictures,
-			};
-
-			write_to_inner(file, &mut comments_ref, write_options)
+			write_to_inner(file, &mut comments.as_ref(), write_options)
 		},
 		// This tag can *only* be removed in this format
 		TagType::Id3v2 => {
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index e6ae6c3..9d15bbd 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -88,6 +88,20 @@ pub struct VorbisComments {
 }
 
 impl VorbisComments {
+	pub(crate) fn as_ref(
+		&self,
+	) -> VorbisCommentsRef<
+		'_,
+		impl Iterator<Item = (&str, &str)>,
+		impl Iterator<Item = (&Picture, PictureInformation)>,
+	> {
+		VorbisCommentsRef {
+			vendor: Cow::from(self.vendor.as_str()),
+			items: self.items.iter().map(|(k, v)| (k.as_str(), v.as_str())),
+			pictures: self.pictures.iter().map(|(p, i)| (p, *i)),
+		}
+	}
+
 	/// Create a new empty `VorbisComments`
 	///
 	/// # Examples
@@ -479,11 +493,7 @@ impl TagExt for VorbisComments {
 		writer: &mut W,
 		write_options: WriteOptions,
 	) -> std::result::Result<(), TagEncodingError> {
-		VorbisCommentsRef {
-			vendor: Cow::from(self.vendor.as_str()),
-			items: self.items.iter().map(|(k, v)| (k.as_str(), v.as_str())),
-			pictures: self.pictures.iter().map(|(p, i)| (p, *i)),
-		}
+		self.as_ref()
 		.dump_to(writer, write_options)
 		.map_err(Into::into)
 	}
@@ -503,11 +513,7 @@ impl TagWriteExt for VorbisComments {
 	where
 		F: FileLike,
 	{
-		VorbisCommentsRef {
-			vendor: Cow::from(self.vendor.as_str()),
-			items: self.items.iter().map(|(k, v)| (k.as_str(), v.as_str())),
-			pictures: self.pictures.iter().map(|(p, i)| (p, *i)),
-		}
+		self.as_ref()
 		.write_to(file, write_options)
 	}
 }
@@ -516,11 +522,15 @@ impl TagWriteExt for VorbisComments {
 ///
 /// See [`SplitTag`]
 #[derive(Debug, Clone, Default)]
-pub struct SplitTagRemainder(VorbisComments);
+pub struct SplitTagRemainder {
+	remainder: VorbisComments,
+	// Whether the vendor string was cloned into the generic tag
+	vendor_in_tag: bool,
+}
 
 impl From<SplitTagRemainder> for VorbisComments {
 	fn from(from: SplitTagRemainder) -> Self {
-		from.0
+		from.remainder
 	}
 }
 
@@ -528,7 +538,7 @@ impl Deref for SplitTagRemainder {
 	type Target = VorbisComments;
 
 	fn deref(&self) -> &Self::Target {
-		&self.0
+		&self.remainder
 	}
 }
 
@@ -542,16 +552,13 @@ impl SplitTag for VorbisComments {
 		let mut tag = Tag::new(TagType::VorbisComments);
 
 		self.items.retain_mut(|(k, v)| {
+			// Ratings can have associated emails (RATING:foo@example.com)
+			let (name, email) = k.split_once(':').unwrap_or((k.as_str(), ""));
+
 			let key;
 			match ItemKey::from_key(TagType::VorbisComments, k) {
-				Some(k) => key = k,
-				// Special case for ratings with associated emails (RATING:foo@example.com). Ratings
-				// without emails are handled by `ItemKey::from_key`.
-				None if k.starts_with("RATING:") => {
-					let Some((_, email)) = k.split_once(':') else {
-						return ITEM_RETAINED;
-					};
-
+				// Special case for ratings, since they're converted to generic popularimeters
+				_ if name.eq_ignore_ascii_case("RATING") => {
 					let Ok(value) = v.parse::<u8>() else {
 						log::warn!(
 							"Unable to parse popularimeter rating during tag split, retaining"
@@ -576,6 +583,7 @@ impl SplitTag for VorbisComments {
 					));
 					return ITEM_CONSUMED;
 				},
+				Some(k) => key = k,
 				None => return ITEM_RETAINED,
 			}
 
@@ -586,11 +594,11 @@ impl SplitTag for VorbisComments {
 		});
 
 		// We need to preserve the vendor string
-		if !tag
+		let vendor_in_tag = !tag
 			.items
 			.iter()
-			.any(|i| i.key() == ItemKey::EncoderSoftware)
-		{
+			.any(|i| i.key() == ItemKey::EncoderSoftware);
+		if vendor_in_tag {
 			tag.items.push(TagItem::new(
 				ItemKey::EncoderSoftware,
 				// Preserve the original vendor by cloning
@@ -602,7 +610,13 @@ impl SplitTag for VorbisComments {
 			tag.push_picture(pic)
 		}
 
-		(SplitTagRemainder(self), tag)
+		(
+			SplitTagRemainder {
+				remainder: self,
+				vendor_in_tag,
+			},
+			tag,
+		)
 	}
 }
 
@@ -610,14 +624,30 @@ impl MergeTag for SplitTagRemainder {
 	type Merged = VorbisComments;
 
 	fn merge_tag(self, mut tag: Tag) -> Self::Merged {
-		let Self(mut merged) = self;
+		let Self {
+			remainder: mut merged,
+			vendor_in_tag,
+		} = self;
+
+		let mut encoders = tag
+			.take(ItemKey::EncoderSoftware)
+			.filter_map(|item| item.item_value.into_string())
+			.collect::<Vec<_>>();
+
+		if vendor_in_tag && encoders.len() == 1 && encoders[0] == merged.vendor {
+			encoders.clear();
+		}
 
-		if let Some(TagItem {
-			item_value: ItemValue::Text(val),
-			..
-		}) = tag.take(ItemKey::EncoderSoftware).next()
+		if merged.vendor.is_empty()
+			&& let Some(encoder) = encoders.first()
 		{
-			merged.vendor = val;
+			merged.vendor.clone_from(encoder);
+		}
+
+		// The vendor of an existing file isn't replaced on write, so there needs to be an item as well
+
+		for encoder in encoders {
+			merged.items.push((String::from("ENCODER"), encoder));
 		}
 
 		for item in tag.items {
@@ -667,9 +697,8 @@ impl MergeTag for SplitTagRemainder {
 		}
 
 		for picture in tag.pictures {
-			if let Ok(information) = PictureInformation::from_picture(&picture) {
-				merged.pictures.push((picture, information))
-			}
+			let information = PictureInformation::from_picture(&picture).unwrap_or_default();
+			merged.pictures.push((picture, information))
 		}
 
 		merged
@@ -730,30 +759,6 @@ where
 	}
 }
 
-pub(crate) fn create_vorbis_comments_ref(
-	tag: &Tag,
-) -> (
-	&str,
-	impl Iterator<Item = (&str, &str)>,
-	impl Iterator<Item = (&Picture, PictureInformation)>,
-) {
-	let vendor = tag.get_string(ItemKey::EncoderSoftware).unwrap_or("");
-
-	let items = tag.items.iter().filter_map(|i| match i.value() {
-		ItemValue::Text(val) | ItemValue::Locator(val) => i
-			.key()
-			.map_key(TagType::VorbisComments)
-			.map(|key| (key, val.as_str())),
-		_ => None,
-	});
-
-	let pictures = tag
-		.pictures
-		.iter()
-		.map(|p| (p, PictureInformation::from_picture(p).unwrap_or_default()));
-	(vendor, items, pictures)
-}
-
 #[cfg(test)]
 mod tests {
 	use crate::config::{ParseOptions, ParsingMode, WriteOptions};
diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index 9cfc530..7ff2346 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -5,7 +5,7 @@ use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
 use crate::ogg::constants::{OPUSTAGS, VORBIS_COMMENT_HEAD};
 use crate::ogg::tag::error::VorbisCommentsEncodingError;
-use crate::ogg::tag::{VorbisCommentsRef, create_vorbis_comments_ref};
+use crate::ogg::tag::{VorbisComments, VorbisCommentsRef};
 use crate::ogg::verify_signature;
 use crate::picture::{Picture, PictureInformation};
 use crate::tag::Tag;
@@ -25,15 +25,9 @@ pub(crate) fn write_to<F>(
 where
 	F: FileLike,
 {
-	let (vendor, items, pictures) = create_vorbis_comments_ref(tag);
+	let comments: VorbisComments = tag.clone().into();
 
-	let mut comments_ref = VorbisCommentsRef {
-		vendor: Cow::from(vendor),
-		items,
-		pictures,
-	};
-
-	write(file, &mut comments_ref, write_options)
+	write(file, &mut comments.as_ref(), write_options)
 }
 
 pub(in crate::ogg) fn write<'a, F, II, IP>(
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index 1085919..77dae84 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -6,7 +6,7 @@ use crate::id3::v2::tag::conversion::Id3v2TagRef;
 use crate::id3::v2::{self, Id3v2TagFlags};
 use crate::io::VerifiedFile;
 use crate::mp4::Ilst;
-use crate::ogg::tag::{VorbisCommentsRef, create_vorbis_comments_ref};
+use crate::ogg::tag::VorbisComments;
 use crate::tag::{Tag, TagType};
 use crate::util::io::FileLike;
 use crate::{aac, ape, flac, iff, mpeg, musepack, wavpack};
@@ -14,7 +14,6 @@ use ape::tag::ApeTagRef;
 use iff::aiff::tag::AiffTextChunksRef;
 use iff::wav::tag::RIFFInfoListRef;
 
-use std::borrow::Cow;
 use std::io::Write;
 
 #[allow(unreachable_patterns)]
@@ -73,17 +72,10 @@ pub(crate) fn dump_tag<W: Write>(
 			.as_ref()
 			.dump_to(writer, write_options)
 			.map_err(Into::into),
-		TagType::VorbisComments => {
-			let (vendor, items, pictures) = create_vorbis_comments_ref(tag);
-
-			VorbisCommentsRef {
-				vendor: Cow::from(vendor),
-				items,
-				pictures,
-			}
+		TagType::VorbisComments => Into::<VorbisComments>::into(tag.clone())
+			.as_ref()
 			.dump_to(writer, write_options)
-			.map_err(Into::into)
-		},
+			.map_err(Into::into),
 		TagType::RiffInfo => RIFFInfoListRef {
 			items: iff::wav::tag::tagitems_into_riff(tag.items()),
 		}
-- 
2.43.0


From 92e524402830e8357317f5ac97d3c4069133ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:22 +0000
Subject: [PATCH 90/91] fix: riff info: convert ratings and keep unknown items
 through split and merge

---
 lofty/src/iff/wav/tag/mod.rs | 97 ++++++++++++++++++++++++++----------
 1 file changed, 70 insertions(+), 27 deletions(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 9ca9b38..8be45ec 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -16,6 +16,7 @@ use crate::util::io::FileLike;
 
 use std::borrow::Cow;
 use std::io::Write;
+use std::ops::Deref;
 
 use crate::iff::wav::tag::error::RiffInfoListEncodingError;
 use lofty_attr::tag;
@@ -259,13 +260,53 @@ impl TagWriteExt for RiffInfoList {
 }
 
 #[derive(Debug, Clone, Default)]
-pub struct SplitTagRemainder;
+pub struct SplitTagRemainder(RiffInfoList);
+
+impl From<SplitTagRemainder> for RiffInfoList {
+	fn from(from: SplitTagRemainder) -> Self {
+		from.0
+	}
+}
+
+impl Deref for SplitTagRemainder {
+	type Target = RiffInfoList;
+
+	fn deref(&self) -> &Self::Target {
+		&self.0
+	}
+}
 
 impl SplitTag for RiffInfoList {
 	type Remainder = SplitTagRemainder;
 
-	fn split_tag(self) -> (Self::Remainder, Tag) {
-		(SplitTagRemainder, self.into())
+	fn split_tag(mut self) -> (Self::Remainder, Tag) {
+		const ITEM_RETAINED: bool = true;
+		const ITEM_CONSUMED: bool = false;
+
+		let mut tag = Tag::new(TagType::RiffInfo);
+
+		self.items.retain(|(k, v)| {
+			let Some(item_key) = ItemKey::from_key(TagType::RiffInfo, k) else {
+				return ITEM_RETAINED;
+			};
+
+			let mut value = v.trim_matches('\0').to_string();
+
+			// Special case for ratings, since they're converted to generic popularimeters. There are no
+			// emails or play counters in RIFF INFO.
+			if item_key == ItemKey::Popularimeter
+				&& let Ok(rating) = value.parse::<u8>()
+				&& let Some(popm) = Popularimeter::mapped("", TagType::RiffInfo, rating, 0)
+			{
+				value = popm.to_string();
+			}
+
+			tag.items
+				.push(TagItem::new(item_key, ItemValue::Text(value)));
+			ITEM_CONSUMED
+		});
+
+		(SplitTagRemainder(self), tag)
 	}
 }
 
@@ -273,42 +314,41 @@ impl MergeTag for SplitTagRemainder {
 	type Merged = RiffInfoList;
 
 	fn merge_tag(self, tag: Tag) -> Self::Merged {
-		tag.into()
-	}
-}
+		let Self(mut merged) = self;
 
-impl From<RiffInfoList> for Tag {
-	fn from(input: RiffInfoList) -> Self {
-		let mut tag = Self::new(TagType::RiffInfo);
+		for item in tag.items {
+			let (ItemValue::Text(mut val) | ItemValue::Locator(mut val)) = item.item_value else {
+				continue;
+			};
 
-		for (k, v) in input.items {
-			let Some(item_key) = ItemKey::from_key(TagType::RiffInfo, &k) else {
+			let Some(key) = item.item_key.map_key(TagType::RiffInfo) else {
 				continue;
 			};
 
-			tag.items.push(TagItem::new(
-				item_key,
-				ItemValue::Text(v.trim_matches('\0').to_string()),
-			));
+			// Special case for generic popularimeters. Those with an email are kept as they are.
+			if item.item_key == ItemKey::Popularimeter
+				&& let Ok(popm) = Popularimeter::from_str(&val)
+				&& popm.email().is_none()
+			{
+				val = popm.mapped_value(TagType::RiffInfo).to_string();
+			}
+
+			merged.items.push((key.to_string(), val));
 		}
 
-		tag
+		merged
+	}
+}
+
+impl From<RiffInfoList> for Tag {
+	fn from(input: RiffInfoList) -> Self {
+		input.split_tag().1
 	}
 }
 
 impl From<Tag> for RiffInfoList {
 	fn from(input: Tag) -> Self {
-		let mut riff_info = RiffInfoList::default();
-
-		for item in input.items {
-			if let ItemValue::Text(val) | ItemValue::Locator(val) = item.item_value
-				&& let Some(key) = item.item_key.map_key(TagType::RiffInfo)
-			{
-				riff_info.items.push((key.to_string(), val))
-			}
-		}
-
-		riff_info
+		SplitTagRemainder::default().merge_tag(input)
 	}
 }
 
@@ -369,6 +409,9 @@ pub(crate) fn tagitems_into_riff<'a>(
 				return None;
 			};
 
+			// There are no emails in RIFF INFO, so it can't use the scale of a specific application
+			let popm = Popularimeter::custom("", popm.rating(), 0);
+
 			return Some((
 				key,
 				Cow::Owned(popm.mapped_value(TagType::RiffInfo).to_string()),
-- 
2.43.0


From d4624362471f35aa95dcb5ee6e3e07ec32d8c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:16 +0000
Subject: [PATCH 91/91] fix: keep the existing icon when
 OggPictureStorage::insert_picture fails

The picture of the same type was removed before the information of the new one
was inferred, which can fail.
---
 lofty/src/ogg/picture_storage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lofty/src/ogg/picture_storage.rs b/lofty/src/ogg/picture_storage.rs
index 3e60a86..a3deae0 100644
--- a/lofty/src/ogg/picture_storage.rs
+++ b/lofty/src/ogg/picture_storage.rs
@@ -24,6 +24,11 @@ pub trait OggPictureStorage: private::Sealed {
 		picture: Picture,
 		information: Option<PictureInformation>,
 	) -> Result<Option<(Picture, PictureInformation)>, PictureParseError> {
+		let info = match information {
+			Some(pic_info) => pic_info,
+			None => PictureInformation::from_picture(&picture)?,
+		};
+
 		let ret = match picture.pic_type {
 			PictureType::Icon | PictureType::OtherIcon => self
 				.pictures()
@@ -33,11 +38,6 @@ pub trait OggPictureStorage: private::Sealed {
 			_ => None,
 		};
 
-		let info = match information {
-			Some(pic_info) => pic_info,
-			None => PictureInformation::from_picture(&picture)?,
-		};
-
 		self.pictures_mut().push((picture, info));
 
 		Ok(ret)
-- 
2.43.0

