From 49bfcc0b7384818130eac016847def19816ecb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 01/15] fix: do not overflow or fail on hostile object sizes in
 the ASF reader

---
 src/readers.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index ce1318c..afa6f19 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -79,12 +79,15 @@ impl crate::FileFormat {
         // Creates a buffered reader.
         let mut reader = BufReader::new(reader);
 
+        // Retrieves the stream length.
+        let len = reader.seek(SeekFrom::End(0))?;
+
         // Reads the number of header objects.
         reader.seek(SeekFrom::Start(24))?;
         let number_of_header_objects = reader.read_u32_le()?;
 
         // Skips the reserved fields.
-        reader.seek(SeekFrom::Current(2))?;
+        let mut offset = reader.seek(SeekFrom::Current(2))?;
 
         // Flags indicating the presence of audio and video streams.
         let mut audio_stream = false;
@@ -98,6 +101,9 @@ impl crate::FileFormat {
             // Reads the object size.
             let size = reader.read_u64_le()?;
 
+            // Calculates the offset of the next object.
+            offset = offset.saturating_add(size).min(len);
+
             // Checks the object GUID.
             match guid.as_str() {
                 STREAM_PROPERTIES_OBJECT_GUID => {
@@ -112,15 +118,12 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 40))?;
+                    reader.seek(SeekFrom::Start(offset))?;
                 }
                 EXTENDED_CONTENT_DESCRIPTION_OBJECT_GUID => {
                     // Reads the content descriptors count.
                     let count = reader.read_u16_le()?;
 
-                    // Calculates the offset of the content descriptors.
-                    let offset = reader.stream_position()?;
-
                     // Iterates through the content descriptors.
                     for _ in 0..std::cmp::min(DESCRIPTOR_LIMIT, count as usize) {
                         // Reads the descriptor name length.
@@ -147,11 +150,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Start(offset + size - 26))?;
+                    reader.seek(SeekFrom::Start(offset))?;
                 }
                 _ => {
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 24))?;
+                    reader.seek(SeekFrom::Start(offset))?;
                 }
             }
         }
-- 
2.43.0


From 3b0bd8d941717dd4734c4e55b340de8b3e41589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 02/15] fix: handle 64-bit and hostile box sizes in the MP4
 reader

---
 src/readers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index afa6f19..f174b2c 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -555,6 +555,9 @@ impl crate::FileFormat {
         // Iterates through boxes.
         let mut box_count = 0;
         while box_count < BOX_LIMIT && reader.stream_position()? < len {
+            // Retrieves the offset of the box.
+            let offset = reader.stream_position()?;
+
             // Reads the box size.
             let size = reader.read_u32_be()?;
 
@@ -568,6 +571,9 @@ impl crate::FileFormat {
                 size as u64
             };
 
+            // Calculates the offset of the next box.
+            let next_offset = offset.saturating_add(size).min(len);
+
             // Checks the box type.
             match box_type.as_slice() {
                 b"moov" | b"trak" | b"mdia" => {}
@@ -585,11 +591,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 20))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 8))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
             }
 
-- 
2.43.0


From 9471f6f4e08ea389fb98986efcdec558f6686795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 03/15] fix: honour the size of the StereoMode element in the
 EBML reader

---
 src/readers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index f174b2c..0c71de5 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -275,6 +275,9 @@ impl crate::FileFormat {
         // Maximum size of a DocType that can be processed by the reader.
         const DOC_TYPE_LIMIT: usize = 8;
 
+        // Maximum size of a StereoMode that can be processed by the reader.
+        const STEREO_MODE_LIMIT: usize = 8;
+
         // DocType element ID.
         const DOC_TYPE_ELEMENT_ID: u32 = 0x4282;
 
@@ -394,12 +397,17 @@ impl crate::FileFormat {
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
-                    let stereo_mode = reader.read_u8()?;
+                    let stereo_mode =
+                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT, size as usize))?;
 
                     // Checks the StereoMode.
-                    if stereo_mode > 0 {
+                    if stereo_mode.iter().any(|&byte| byte > 0) {
                         return Ok(Self::Matroska3dVideo);
                     }
+
+                    // Skips the remaining size.
+                    let remaining_size = size.saturating_sub(STEREO_MODE_LIMIT as u64);
+                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
                 }
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
-- 
2.43.0


From 70e6a482cbafbf2186c0dda936d3557182f7bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 04/15] fix: do not seek past the end of the stream in the EBML
 reader

---
 src/readers.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 0c71de5..5d39f4a 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -354,6 +354,9 @@ impl crate::FileFormat {
                 size = (size << 8) | (byte as u64);
             }
 
+            // Calculates the offset of the next element.
+            let next_offset = reader.stream_position()?.saturating_add(size).min(len);
+
             // Checks the element ID.
             match id {
                 EBML_ELEMENT_ID
@@ -374,8 +377,7 @@ impl crate::FileFormat {
                     }
 
                     // Skips the remaining size.
-                    let remaining_size = size.saturating_sub(DOC_TYPE_LIMIT as u64);
-                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 CODEC_ID_ELEMENT_ID => {
                     // Reads the Codec ID.
@@ -392,8 +394,7 @@ impl crate::FileFormat {
                     }
 
                     // Skips the remaining size.
-                    let remaining_size = size.saturating_sub(CODEC_ID_LIMIT as u64);
-                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
@@ -406,13 +407,12 @@ impl crate::FileFormat {
                     }
 
                     // Skips the remaining size.
-                    let remaining_size = size.saturating_sub(STEREO_MODE_LIMIT as u64);
-                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
                     // Seeks to the next element.
-                    reader.seek(SeekFrom::Current(size as i64))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
             }
 
-- 
2.43.0


From 2f5f92e60c3f5af2e304b814d78c63da02f96528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 05/15] fix: do not overflow on a hostile ZIP64 end of central
 directory offset

---
 src/readers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 5d39f4a..66f438e 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -926,7 +926,7 @@ impl crate::FileFormat {
             let eocd64_offset = reader.read_u64_le()?;
 
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd64_offset + 32))?;
+            reader.seek(SeekFrom::Start(eocd64_offset.saturating_add(32)))?;
             let number_of_entries = reader.read_u64_le()?;
 
             // Reads the start of central directory offset.
-- 
2.43.0


From 865646b8093b47cae857f45a65eb1fb5ccf3b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 06/15] fix: do not seek past the end of the stream in the ZIP
 reader

---
 src/readers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 66f438e..b882d98 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -949,7 +949,7 @@ impl crate::FileFormat {
         };
 
         // Seeks to the start of central directory.
-        reader.seek(SeekFrom::Start(socd_offset))?;
+        reader.seek(SeekFrom::Start(socd_offset.min(len)))?;
 
         // Sets the default value.
         let mut fmt = Self::Zip;
-- 
2.43.0


From 5f229cd65c559ebb1b18adee72dd26684a483f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 07/15] fix: limit the size of the mimetype entry read by the
 ZIP reader

---
 src/readers.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/readers.rs b/src/readers.rs
index b882d98..b0d03e1 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -874,6 +874,9 @@ impl crate::FileFormat {
         // Maximum number of entries that can be processed by the reader.
         const ENTRY_LIMIT: usize = 1024;
 
+        // Maximum size of a mimetype that can be processed by the reader.
+        const MIMETYPE_LIMIT: u32 = 1024;
+
         // Signature of the ZIP64 end of central directory locator.
         const EOCD64_LOCATOR_SIGNATURE: &[u8] = b"PK\x06\x07";
 
@@ -997,6 +1000,11 @@ impl crate::FileFormat {
                 "document.json" => return Ok(Self::Sketch43),
                 "extension.vsixmanifest" => return Ok(Self::MicrosoftVisualStudioExtension),
                 "mimetype" if compressed_size == uncompressed_size => {
+                    // Checks that the data is not too large to be a media type.
+                    if compressed_size > MIMETYPE_LIMIT {
+                        return Ok(Self::Zip);
+                    }
+
                     // Seeks to the filename of the local file header.
                     reader.seek(SeekFrom::Start(offset as u64 + 26))?;
 
-- 
2.43.0


From 3215dfe132c84b72417608b8fbb1c2c22329f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 08/15] fix: do not skip the extended header twice in the ID3v2
 reader

---
 src/readers.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index b0d03e1..3c90f79 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -494,19 +494,13 @@ impl crate::FileFormat {
                 | ((buf[8] as u64 & 0x7F) << 7)
                 | (buf[9] as u64 & 0x7F);
 
-            // Checks for extended header flag.
+            // Checks for footer flag.
             let flags = buf[5];
-            let extended_header_present = (flags & 0x40) != 0;
             let footer_present = (flags & 0x10) != 0;
 
-            // Calculates next offset.
+            // Calculates next offset (the tag size includes the extended header, if any).
             let mut next_offset = offset + 10 + tag_size;
 
-            // Skips extended header if present.
-            if extended_header_present {
-                next_offset += reader.read_u32_be()? as u64;
-            }
-
             // Adds footer size if present.
             if footer_present {
                 next_offset += 10;
-- 
2.43.0


From edab0060a3c2ad5d2bbd0e21d5017d95c7534b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 09/15] fix: limit the number of tags processed by the ID3v2
 reader

---
 src/readers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 3c90f79..dd18b36 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -476,9 +476,12 @@ impl crate::FileFormat {
     /// Determines file format from an ID3v2 reader.
     #[cfg(feature = "reader-id3v2")]
     pub(crate) fn from_id3v2_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
+        // Maximum number of tags that can be processed by the reader.
+        const TAG_LIMIT: usize = 256;
+
         // Loops while in ID3v2 segment.
         let mut offset = 0;
-        loop {
+        for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
             let buf = reader.read_bytes(10)?;
-- 
2.43.0


From 358d5de7cef09909ac10458e1d135b17e131de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 10/15] fix: do not depend on how a reader splits its reads

---
 src/lib.rs     |  3 ++-
 src/readers.rs | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5f26ed..0cfa1f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -219,6 +219,7 @@ mod formats;
 mod readers;
 mod signatures;
 
+use readers::ReadData;
 use std::{
     fmt::{self, Display, Formatter},
     fs::File,
@@ -292,7 +293,7 @@ impl FileFormat {
     pub fn from_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
         // Creates and fills a buffer.
         let mut buf = [0; 36_870];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Determines file format.
         Ok(if nread == 0 {
diff --git a/src/readers.rs b/src/readers.rs
index dd18b36..cce1cd9 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -645,7 +645,7 @@ impl crate::FileFormat {
         let mut total_nread = 0;
         while total_nread < READ_LIMIT {
             // Reads a chunk of the stream into the buffer.
-            let nread = reader.read(&mut buf[OVERLAP_SIZE..])?;
+            let nread = reader.read_up_to(&mut buf[OVERLAP_SIZE..])?;
             if nread == 0 {
                 break;
             }
@@ -748,7 +748,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 32_768];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Checks if the buffer holds the Sketch file format marker.
         if buf[..nread].holds(SKETCH_MARKER) {
@@ -798,7 +798,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 8192];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
         let buf = &buf[..nread];
 
         // Checks if the buffer holds markers indicating the presence of various file formats.
@@ -1122,7 +1122,23 @@ impl crate::FileFormat {
 
 /// A trait for convenient data reading.
 #[allow(dead_code)]
-trait ReadData: Read {
+pub(crate) trait ReadData: Read {
+    /// Reads until the buffer is full or the end of the stream is reached, and returns the number
+    /// of bytes read.
+    #[inline]
+    fn read_up_to(&mut self, buf: &mut [u8]) -> Result<usize> {
+        let mut nread = 0;
+        while nread < buf.len() {
+            match self.read(&mut buf[nread..]) {
+                Ok(0) => break,
+                Ok(count) => nread += count,
+                Err(error) if error.kind() == ErrorKind::Interrupted => {}
+                Err(error) => return Err(error),
+            }
+        }
+        Ok(nread)
+    }
+
     /// Reads a specified number of bytes into a `Vec<u8>`.
     #[inline]
     fn read_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
-- 
2.43.0


From 6c4b4562e51d14d7c89bb763f97c7f0e2a3d4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 11/15] fix: accept text whose last character is cut off by the
 read limit

---
 src/readers.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index cce1cd9..4948103 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -771,23 +771,36 @@ impl crate::FileFormat {
         // Creates a buffered reader.
         let mut reader = BufReader::new(reader);
 
+        // Retrieves the stream length.
+        let len = reader.seek(SeekFrom::End(0))?;
+
         // Rewinds to the beginning of the stream.
         reader.rewind()?;
 
         // Determines if the reader contains only ASCII/UTF-8-encoded text by checking the first
         // lines for control characters other than whitespaces.
-        reader
-            .take(READ_LIMIT)
-            .lines()
-            .take(LINE_LIMIT)
-            .try_for_each(|line| {
-                line?
-                    .chars()
-                    .find(|char| char.is_control() && !char.is_whitespace())
-                    .map(|_| Err(Error::new(ErrorKind::InvalidData, "invalid characters")))
-                    .unwrap_or(Ok(()))
-            })
-            .map(|_| Self::PlainText)
+        let mut nread = 0;
+        for line in reader.take(READ_LIMIT).split(b'\n').take(LINE_LIMIT) {
+            let line = line?;
+            nread += line.len() as u64 + 1;
+            let text = match std::str::from_utf8(&line) {
+                Ok(text) => text,
+                // The last character of the last line may be cut off by the read limit.
+                Err(error)
+                    if error.error_len().is_none() && nread > READ_LIMIT && len > READ_LIMIT =>
+                {
+                    std::str::from_utf8(&line[..error.valid_up_to()]).unwrap_or_default()
+                }
+                Err(error) => return Err(Error::new(ErrorKind::InvalidData, error)),
+            };
+            if text
+                .chars()
+                .any(|char| char.is_control() && !char.is_whitespace())
+            {
+                return Err(Error::new(ErrorKind::InvalidData, "invalid characters"));
+            }
+        }
+        Ok(Self::PlainText)
     }
 
     /// Determines file format from a XML reader.
-- 
2.43.0


From 72b5370fe93f2bd0e640438c910bab0a6bf68333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 12/15] fix: do not require the stream length to accept text

Files such as /proc/version can be read and rewound, but not seeked to
their end; the check whether the last character is cut off by the read
limit only needs to know whether any data follows.
---
 src/readers.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 4948103..dbbf933 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -771,23 +771,25 @@ impl crate::FileFormat {
         // Creates a buffered reader.
         let mut reader = BufReader::new(reader);
 
-        // Retrieves the stream length.
-        let len = reader.seek(SeekFrom::End(0))?;
-
         // Rewinds to the beginning of the stream.
         reader.rewind()?;
 
         // Determines if the reader contains only ASCII/UTF-8-encoded text by checking the first
         // lines for control characters other than whitespaces.
-        let mut nread = 0;
-        for line in reader.take(READ_LIMIT).split(b'\n').take(LINE_LIMIT) {
-            let line = line?;
-            nread += line.len() as u64 + 1;
+        let mut reader = reader.take(READ_LIMIT);
+        let mut line = Vec::new();
+        for _ in 0..LINE_LIMIT {
+            line.clear();
+            if reader.read_until(b'\n', &mut line)? == 0 {
+                break;
+            }
             let text = match std::str::from_utf8(&line) {
                 Ok(text) => text,
                 // The last character of the last line may be cut off by the read limit.
                 Err(error)
-                    if error.error_len().is_none() && nread > READ_LIMIT && len > READ_LIMIT =>
+                    if error.error_len().is_none()
+                        && reader.limit() == 0
+                        && reader.get_mut().read_u8().is_ok() =>
                 {
                     std::str::from_utf8(&line[..error.valid_up_to()]).unwrap_or_default()
                 }
-- 
2.43.0


From c3d1c3cc91d161dfa808c21ae0935842f495eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 13/15] fix: a compressed mimetype entry of a ZIP archive does
 not identify it

---
 src/readers.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index dbbf933..fd58a06 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -904,6 +904,9 @@ impl crate::FileFormat {
         // Minimum size of the end of central directory record.
         const EOCD_MIN_SIZE: usize = 22;
 
+        // Compression method of the entries that are stored without compression.
+        const STORED_METHOD: u16 = 0;
+
         // Creates a buffered reader.
         let mut reader = BufReader::new(reader);
 
@@ -971,8 +974,12 @@ impl crate::FileFormat {
 
         // Browses central directory headers.
         for _ in 0..std::cmp::min(ENTRY_LIMIT, number_of_entries) {
+            // Reads the compression method.
+            reader.seek(SeekFrom::Current(10))?;
+            let compression_method = reader.read_u16_le()?;
+
             // Reads the compressed size.
-            reader.seek(SeekFrom::Current(20))?;
+            reader.seek(SeekFrom::Current(8))?;
             let compressed_size = reader.read_u32_le()?;
 
             // Reads the uncompressed size.
@@ -1011,7 +1018,10 @@ impl crate::FileFormat {
                 "doc.kml" => return Ok(Self::KeyholeMarkupLanguageZip),
                 "document.json" => return Ok(Self::Sketch43),
                 "extension.vsixmanifest" => return Ok(Self::MicrosoftVisualStudioExtension),
-                "mimetype" if compressed_size == uncompressed_size => {
+                "mimetype"
+                    if compression_method == STORED_METHOD
+                        && compressed_size == uncompressed_size =>
+                {
                     // Checks that the data is not too large to be a media type.
                     if compressed_size > MIMETYPE_LIMIT {
                         return Ok(Self::Zip);
-- 
2.43.0


From fe70a04b337cddcbd6bada0f6a9b7adf53dbf40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:54 +0000
Subject: [PATCH 14/15] fix: an ID3v2 tag with little or nothing behind it is
 still an ID3v2 tag

---
 src/readers.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index fd58a06..24b7825 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -479,15 +479,19 @@ impl crate::FileFormat {
         // Maximum number of tags that can be processed by the reader.
         const TAG_LIMIT: usize = 256;
 
+        // Retrieves the stream length.
+        let len = reader.seek(SeekFrom::End(0))?;
+
         // Loops while in ID3v2 segment.
         let mut offset = 0;
         for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
-            let buf = reader.read_bytes(10)?;
+            let mut buf = [0; 10];
+            let nread = reader.read_up_to(&mut buf)?;
 
             // Checks for ID3 magic bytes.
-            if &buf[..3] != b"ID3" {
+            if nread < buf.len() || &buf[..3] != b"ID3" {
                 break;
             }
 
@@ -513,12 +517,18 @@ impl crate::FileFormat {
             offset = next_offset;
         }
 
+        // Checks that the ID3v2 segment is not outside the stream's boundaries.
+        if offset > len {
+            return Err(Error::from(ErrorKind::UnexpectedEof));
+        }
+
         // Skips ID3v2 segment.
         reader.seek(SeekFrom::Start(offset))?;
 
         // Checks if the file contains the FLAC file format signature.
-        let buf = reader.read_bytes(4)?;
-        if buf.eq(b"fLaC") {
+        let mut buf = [0; 4];
+        reader.read_up_to(&mut buf)?;
+        if &buf == b"fLaC" {
             return Ok(Self::FreeLosslessAudioCodec);
         }
 
-- 
2.43.0


From e6bfa2cabbf692b4f9ce7b14531d84bd07692a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:46 +0000
Subject: [PATCH 15/15] fix: do not truncate 64-bit lengths, offsets and counts
 on 32-bit platforms

The ZIP reader converted the stream length, the offset of the end of central
directory record and the ZIP64 number of entries to usize before comparing them
with limits, and the EBML reader did so with element sizes. Where usize has 32
bits, archives of more than 4 GiB were not recognized, or not by their entries,
and declared sizes were taken for smaller ones.
---
 src/readers.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 24b7825..d41eef7 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -367,7 +367,7 @@ impl crate::FileFormat {
                 DOC_TYPE_ELEMENT_ID => {
                     // Reads the DocType.
                     let doc_type =
-                        reader.read_bytes(std::cmp::min(DOC_TYPE_LIMIT, size as usize))?;
+                        reader.read_bytes(std::cmp::min(DOC_TYPE_LIMIT as u64, size) as usize)?;
 
                     // Checks the DocType.
                     if doc_type.starts_with(b"webm") {
@@ -382,7 +382,7 @@ impl crate::FileFormat {
                 CODEC_ID_ELEMENT_ID => {
                     // Reads the Codec ID.
                     let codec_id =
-                        reader.read_bytes(std::cmp::min(CODEC_ID_LIMIT, size as usize))?;
+                        reader.read_bytes(std::cmp::min(CODEC_ID_LIMIT as u64, size) as usize)?;
 
                     // Checks the Codec ID.
                     if codec_id.starts_with(b"A_") {
@@ -399,7 +399,7 @@ impl crate::FileFormat {
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
                     let stereo_mode =
-                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT, size as usize))?;
+                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT as u64, size) as usize)?;
 
                     // Checks the StereoMode.
                     if stereo_mode.iter().any(|&byte| byte > 0) {
@@ -927,14 +927,14 @@ impl crate::FileFormat {
         let offset = len.saturating_sub(EOCD_MAX_SIZE as u64);
         reader.seek(SeekFrom::Start(offset))?;
         let buf_index = reader
-            .read_bytes((len as usize).clamp(EOCD_MIN_SIZE, EOCD_MAX_SIZE))?
+            .read_bytes(len.clamp(EOCD_MIN_SIZE as u64, EOCD_MAX_SIZE as u64) as usize)?
             .rfind(EOCD_SIGNATURE)
             .ok_or_else(|| Error::new(ErrorKind::InvalidData, "cannot find the EOCD"))?;
         let eocd_offset = offset + buf_index as u64;
 
         // Checks for ZIP64 end of central directory locator.
         let mut zip64 = false;
-        if eocd_offset as usize >= EOCD64_LOCATOR_SIZE {
+        if eocd_offset >= EOCD64_LOCATOR_SIZE as u64 {
             // Seeks to the ZIP64 end of central directory locator.
             reader.seek(SeekFrom::Start(eocd_offset - EOCD64_LOCATOR_SIZE as u64))?;
 
@@ -962,7 +962,10 @@ impl crate::FileFormat {
             let socd_offset = reader.read_u64_le()?;
 
             // Returns the result.
-            (number_of_entries as usize, socd_offset)
+            (
+                number_of_entries.min(ENTRY_LIMIT as u64) as usize,
+                socd_offset,
+            )
         } else {
             // Reads the number of entries.
             reader.seek(SeekFrom::Start(eocd_offset + 10))?;
-- 
2.43.0

