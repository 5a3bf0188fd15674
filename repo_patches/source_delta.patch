From 083b11e6d7bfb20c971e1c6c842771874acb8523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 01/16] fix: length of UTF-16 values is counted in bytes

---
 src/atom/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index c617a8e..ed084a0 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -133,7 +133,7 @@ impl Data {
         (match self {
             Self::Reserved(v) => v.len(),
             Self::Utf8(s) => s.len(),
-            Self::Utf16(s) => s.encode_utf16().count(),
+            Self::Utf16(s) => s.encode_utf16().count() * 2,
             Self::Jpeg(v) => v.len(),
             Self::Png(v) => v.len(),
             Self::BeSigned(v) => v.len(),
-- 
2.43.0


From 25c3a8b1e4ee210a9fc6d8fd766c681b622966db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 02/16] fix: reject extended atom lengths that cannot be valid

---
 src/atom/head.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index a0e2174..c5bfd02 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -118,6 +118,10 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
 
     if len == 1 {
         match reader.read_u64() {
+            Ok(l) if l < 16 || l > i64::MAX as u64 => Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Read invalid extended length of '{}': {}", ident, l),
+            )),
             Ok(l) => Ok(Head::new(true, l, ident)),
             Err(e) => Err(crate::Error::new(
                 ErrorKind::Io(e),
-- 
2.43.0


From 2c064973e7b3691c8922b0582fa0f2ed6c390144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 03/16] fix: reject data, mean and name atoms that are too
 short

---
 src/atom/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 5fb5b41..dcb416a 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -210,7 +210,7 @@ impl AtomData {
                     // Skipping 4 byte locale indicator
                     reader.seek(SeekFrom::Current(4))?;
 
-                    data.push(Data::parse(reader, datatype, head.content_len() - 8)?);
+                    data.push(Data::parse(reader, datatype, value_len(&head, 8)?)?);
                 }
                 MEAN => {
                     let (version, _) = parse_full_head(reader)?;
@@ -221,7 +221,7 @@ impl AtomData {
                         ));
                     }
 
-                    mean = Some(reader.read_utf8(head.content_len() - 4)?);
+                    mean = Some(reader.read_utf8(value_len(&head, 4)?)?);
                 }
                 NAME => {
                     let (version, _) = parse_full_head(reader)?;
@@ -232,7 +232,7 @@ impl AtomData {
                         ));
                     }
 
-                    name = Some(reader.read_utf8(head.content_len() - 4)?);
+                    name = Some(reader.read_utf8(value_len(&head, 4)?)?);
                 }
                 _ => {
                     reader.seek(SeekFrom::Current(head.content_len() as i64))?;
@@ -295,6 +295,16 @@ impl AtomData {
     }
 }
 
+/// Returns the length of the value that follows `prefix_len` bytes of an atom's content.
+fn value_len(head: &Head, prefix_len: u64) -> crate::Result<u64> {
+    head.content_len().checked_sub(prefix_len).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Content of '{}' is too short: {}", head.fourcc(), head.content_len()),
+        )
+    })
+}
+
 /// Attempts to read MPEG-4 audio metadata from the reader.
 pub(crate) fn read_tag_from(reader: &mut (impl Read + Seek)) -> crate::Result<Tag> {
     let Ftyp(ftyp) = Ftyp::parse(reader)?;
-- 
2.43.0


From 3ab7914028c600846293ccebd86ffaf7d0f3f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 04/16] fix: movie header duration with time scale 0 or large
 values

---
 src/atom/mvhd.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/atom/mvhd.rs b/src/atom/mvhd.rs
index d2a9c4b..ff05bad 100644
--- a/src/atom/mvhd.rs
+++ b/src/atom/mvhd.rs
@@ -33,7 +33,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u32()? as u64;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scaled_duration(timescale, duration)?;
             }
             1 => {
                 // # Version 1
@@ -48,7 +48,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u64()?;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scaled_duration(timescale, duration)?;
             }
             v => {
                 return Err(crate::Error::new(
@@ -63,3 +63,17 @@ impl ParseAtom for Mvhd {
         Ok(mvhd)
     }
 }
+
+/// Returns the duration consisting of a number of units of which `timescale` make up a second.
+fn scaled_duration(timescale: u64, duration: u64) -> crate::Result<Duration> {
+    if timescale == 0 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Movie header (mvhd) time scale is 0".to_owned(),
+        ));
+    }
+
+    let secs = duration / timescale;
+    let nanos = duration % timescale * 1_000_000_000 / timescale;
+    Ok(Duration::new(secs, nanos as u32))
+}
-- 
2.43.0


From 12d017b9d63252589c6e4025fb1847615c012bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 05/16] fix: seeking to the end of an atom that has been
 overrun

---
 src/atom/head.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index c5bfd02..b8abcfb 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -222,8 +222,6 @@ pub fn find_bounds(reader: &mut impl Seek, size: Size) -> crate::Result<AtomBoun
 }
 
 pub fn seek_to_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
-    let current = reader.seek(SeekFrom::Current(0))?;
-    let diff = bounds.end() - current;
-    reader.seek(SeekFrom::Current(diff as i64))?;
+    reader.seek(SeekFrom::Start(bounds.end()))?;
     Ok(())
 }
-- 
2.43.0


From a9ea96e0112d54ede61a729535cdd605773bbad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 06/16] fix: reject esds atoms and decoder specific descriptors
 that are too short

---
 src/atom/mp4a.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 530482f..54f87fa 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -127,7 +127,9 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
         ));
     }
 
-    let max_len = size.content_len() - 4 - head_len;
+    let max_len = size.content_len().checked_sub(4 + head_len).ok_or_else(|| {
+        crate::Error::new(crate::ErrorKind::Parsing, "Content of esds atom is too short".to_owned())
+    })?;
     parse_es_desc(reader, info, min(desc_len, max_len))?;
 
     Ok(())
@@ -213,6 +215,13 @@ fn parse_dc_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
 /// 3 bits ?
 /// ```
 fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
+    if len < 2 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Decoder specific descriptor is too short".to_owned(),
+        ));
+    }
+
     let num = reader.read_u16()?;
 
     let freq_index = ((num >> 7) & 0x0F) as u8;
-- 
2.43.0


From 5871505d0aa24c7d8986448a650558ba65057e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 07/16] fix: no memory is reserved for sizes that were only
 declared

---
 src/atom/co64.rs |  2 +-
 src/atom/data.rs | 13 +++++++------
 src/atom/stco.rs |  2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/atom/co64.rs b/src/atom/co64.rs
index 16fc9e5..a15f0bd 100644
--- a/src/atom/co64.rs
+++ b/src/atom/co64.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Co64 {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u64()?;
                     offsets.push(offset);
diff --git a/src/atom/data.rs b/src/atom/data.rs
index ed084a0..c193fc3 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -434,7 +434,7 @@ impl Data {
     }
 }
 
-pub trait ReadData: Read {
+pub trait ReadData: Read + Sized {
     /// Attempts to read an unsigned 8 bit integer from the reader.
     fn read_u8(&mut self) -> io::Result<u8> {
         let mut buf = [0u8];
@@ -465,8 +465,11 @@ pub trait ReadData: Read {
 
     /// Attempts to read 8 bit unsigned integers from the reader to a vector of size length.
     fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let mut buf = Vec::new();
+        self.by_ref().take(len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(buf)
     }
 
@@ -479,9 +482,7 @@ pub trait ReadData: Read {
 
     /// Attempts to read a utf-16 string from the reader.
     fn read_utf16(&mut self, len: u64) -> crate::Result<String> {
-        let mut buf = vec![0u8; len as usize];
-
-        self.read_exact(&mut buf)?;
+        let buf = self.read_u8_vec(len)?;
 
         let data: Vec<u16> =
             buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
diff --git a/src/atom/stco.rs b/src/atom/stco.rs
index e1b8ebc..b2fcd71 100644
--- a/src/atom/stco.rs
+++ b/src/atom/stco.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Stco {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u32()?;
                     offsets.push(offset);
-- 
2.43.0


From 4823352f1c42290b3e6c6e9ddcd9b6ba945f2687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 08/16] fix: write to the same movie atom that is read

---
 src/atom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index dcb416a..688dfb7 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -378,7 +378,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         let head = parse_head(reader)?;
 
         match head.fourcc() {
-            MOVIE => moov = Some(Moov::find(reader, head.size())?),
+            MOVIE if moov.is_none() => moov = Some(Moov::find(reader, head.size())?),
             MEDIA_DATA => mdat = Some(Mdat::find(reader, head.size())?),
             _ => {
                 reader.seek(SeekFrom::Current(head.content_len() as i64))?;
-- 
2.43.0


From fa33a2b816cf9b6901189d77edec834a3d9d338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 09/16] fix: reject metadata atoms reaching beyond the end of
 the file

---
 src/atom/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 688dfb7..880c7d4 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -458,7 +458,12 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
-    let moved_data_len = old_file_len - moved_data_start;
+    let moved_data_len = old_file_len.checked_sub(moved_data_start).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Metadata atoms reach beyond the end of the file".to_owned(),
+        )
+    })?;
     let mut moved_data = Vec::with_capacity(moved_data_len as usize);
     reader.seek(SeekFrom::Start(moved_data_start))?;
     reader.read_to_end(&mut moved_data)?;
-- 
2.43.0


From 5a165640e64505d914c094c0e5ea1dcc5a529b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 10/16] fix: reject values that do not fit their length field
 before modifying the file

---
 src/atom/mod.rs | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 880c7d4..4e8fa87 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -259,7 +259,7 @@ impl AtomData {
 
     /// Attempts to write the atom data to the writer.
     pub fn write(&self, writer: &mut impl Write) -> crate::Result<()> {
-        writer.write_all(&u32::to_be_bytes(self.len() as u32))?;
+        writer.write_all(&u32::to_be_bytes(len_u32(self.len())?))?;
 
         match &self.ident {
             DataIdent::Fourcc(ident) => writer.write_all(ident.deref())?,
@@ -270,13 +270,13 @@ impl AtomData {
                 };
                 writer.write_all(FREEFORM.deref())?;
 
-                let mean_len: u32 = 12 + mean.len() as u32;
+                let mean_len = len_u32(12 + mean.len() as u64)?;
                 writer.write_all(&u32::to_be_bytes(mean_len))?;
                 writer.write_all(MEAN.deref())?;
                 writer.write_all(&[0u8; 4])?;
                 writer.write_all(mean.as_bytes())?;
 
-                let name_len: u32 = 12 + name.len() as u32;
+                let name_len = len_u32(12 + name.len() as u64)?;
                 writer.write_all(&u32::to_be_bytes(name_len))?;
                 writer.write_all(NAME.deref())?;
                 writer.write_all(&[0u8; 4])?;
@@ -285,7 +285,7 @@ impl AtomData {
         }
 
         for d in self.data.iter() {
-            let data_len: u32 = 16 + d.len() as u32;
+            let data_len = len_u32(16 + d.len())?;
             writer.write_all(&u32::to_be_bytes(data_len))?;
             writer.write_all(DATA.deref())?;
             d.write_typed(writer)?;
@@ -295,6 +295,16 @@ impl AtomData {
     }
 }
 
+/// Returns the length of an atom, if it fits a standard 32 bit length field.
+fn len_u32(len: u64) -> crate::Result<u32> {
+    u32::try_from(len).map_err(|_| {
+        crate::Error::new(
+            crate::ErrorKind::UnwritableData,
+            format!("Length doesn't fit a 32 bit length field: {}", len),
+        )
+    })
+}
+
 /// Returns the length of the value that follows `prefix_len` bytes of an atom's content.
 fn value_len(head: &Head, prefix_len: u64) -> crate::Result<u64> {
     head.content_len().checked_sub(prefix_len).ok_or_else(|| {
@@ -447,14 +457,19 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     }
     update_atoms.push(&moov.bounds);
 
-    let new_atom_len = if let Some(a) = &new_udta {
-        a.len()
-    } else if let Some(a) = &new_meta {
-        a.len()
+    // missing ilst hierarchy and metadata
+    let mut new_atoms = Vec::new();
+    if let Some(a) = new_udta {
+        a.write(&mut new_atoms)?;
+    } else if let Some(a) = new_meta {
+        a.write(&mut new_atoms)?;
     } else {
-        new_hdlr.len_or_zero() + new_ilst.len()
-    };
-    len_diff += new_atom_len as i64;
+        if let Some(a) = new_hdlr {
+            a.write(&mut new_atoms)?;
+        }
+        new_ilst.write(&mut new_atoms)?;
+    }
+    len_diff += new_atoms.len() as i64;
 
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
@@ -521,16 +536,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     // write missing ilst hierarchy and metadata
     writer.seek(SeekFrom::Start(new_atoms_start))?;
 
-    if let Some(a) = new_udta {
-        a.write(&mut writer)?;
-    } else if let Some(a) = new_meta {
-        a.write(&mut writer)?;
-    } else {
-        if let Some(a) = new_hdlr {
-            a.write(&mut writer)?;
-        }
-        new_ilst.write(&mut writer)?;
-    }
+    writer.write_all(&new_atoms)?;
 
     // writing moved data
     writer.seek(SeekFrom::Start((moved_data_start as i64 + len_diff) as u64))?;
-- 
2.43.0


From aff6861b2d53bb1d896fa754bf709271f937fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 11/16] fix: check everything before the file is modified, only
 shift offsets of moved data

---
 src/atom/mod.rs | 74 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 4e8fa87..124c67a 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -305,6 +305,16 @@ fn len_u32(len: u64) -> crate::Result<u32> {
     })
 }
 
+/// Returns the length or offset changed by `diff`.
+fn shifted(value: u64, diff: i64) -> crate::Result<u64> {
+    u64::try_from(value as i128 + diff as i128).map_err(|_| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Invalid length or offset: {} changed by {}", value, diff),
+        )
+    })
+}
+
 /// Returns the length of the value that follows `prefix_len` bytes of an atom's content.
 fn value_len(head: &Head, prefix_len: u64) -> crate::Result<u64> {
     head.content_len().checked_sub(prefix_len).ok_or_else(|| {
@@ -483,9 +493,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     reader.seek(SeekFrom::Start(moved_data_start))?;
     reader.read_to_end(&mut moved_data)?;
 
-    let mut writer = BufWriter::new(file);
-
     // adjusting sample table chunk offsets
+    let mut new_stco = Vec::new();
+    let mut new_co64 = Vec::new();
     if mdat_pos > moov.pos() {
         let stbl_atoms = moov.trak.iter().filter_map(|a| {
             a.mdia.as_ref().and_then(|a| a.minf.as_ref()).and_then(|a| a.stbl.as_ref())
@@ -494,44 +504,70 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         for stbl in stbl_atoms {
             if let Some(a) = &stbl.stco {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
-                let chunk_offset = Stco::parse(reader, a.size())?;
+                let mut chunk_offset = Stco::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-                for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u32;
-                    writer.write_all(&u32::to_be_bytes(new_offset))?;
+                for co in chunk_offset.offsets.iter_mut() {
+                    if *co as u64 >= moved_data_start {
+                        *co = len_u32(shifted(*co as u64, len_diff)?)?;
+                    }
                 }
-                writer.flush()?;
+                new_stco.push(chunk_offset);
             }
             if let Some(a) = &stbl.co64 {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
-                let chunk_offset = Co64::parse(reader, a.size())?;
+                let mut chunk_offset = Co64::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-                for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u64;
-                    writer.write_all(&u64::to_be_bytes(new_offset))?;
+                for co in chunk_offset.offsets.iter_mut() {
+                    if *co >= moved_data_start {
+                        *co = shifted(*co, len_diff)?;
+                    }
                 }
-                writer.flush()?;
+                new_co64.push(chunk_offset);
             }
         }
     }
 
-    // update existing ilst hierarchy atom lengths
+    // adjusting existing ilst hierarchy atom lengths
+    let mut new_lens = Vec::new();
     for a in update_atoms.iter().rev() {
-        let new_len = a.len() as i64 + len_diff;
+        let new_len = shifted(a.len(), len_diff)?;
+        if !a.ext() {
+            len_u32(new_len)?;
+        }
+        new_lens.push((a, new_len));
+    }
+    let new_file_len = shifted(old_file_len, len_diff)?;
+
+    let mut writer = BufWriter::new(file);
+
+    // update sample table chunk offsets
+    for chunk_offset in new_stco.iter() {
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+        for co in chunk_offset.offsets.iter() {
+            writer.write_all(&u32::to_be_bytes(*co))?;
+        }
+    }
+    for chunk_offset in new_co64.iter() {
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+        for co in chunk_offset.offsets.iter() {
+            writer.write_all(&u64::to_be_bytes(*co))?;
+        }
+    }
+
+    // update existing ilst hierarchy atom lengths
+    for (a, new_len) in new_lens {
         writer.seek(SeekFrom::Start(a.pos()))?;
         if a.ext() {
             writer.write_all(&u32::to_be_bytes(1))?;
             writer.seek(SeekFrom::Current(4))?;
-            writer.write_all(&u64::to_be_bytes(new_len as u64))?;
+            writer.write_all(&u64::to_be_bytes(new_len))?;
         } else {
-            writer.write_all(&u32::to_be_bytes(new_len as u32))?;
+            writer.write_all(&u32::to_be_bytes(len_u32(new_len)?))?;
         }
     }
 
     // adjusting the file length
-    file.set_len((old_file_len as i64 + len_diff) as u64)?;
+    file.set_len(new_file_len)?;
 
     // write missing ilst hierarchy and metadata
     writer.seek(SeekFrom::Start(new_atoms_start))?;
-- 
2.43.0


From c93212272967e62feeb03c89409bf3d048a84367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 12/16] fix: setting or adding no values leaves no empty entry

---
 src/tag/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tag/mod.rs b/src/tag/mod.rs
index eed2963..3395f0c 100644
--- a/src/tag/mod.rs
+++ b/src/tag/mod.rs
@@ -1278,6 +1278,7 @@ impl Tag {
                 self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect()));
             }
         }
+        self.atoms.retain(|a| !a.data.is_empty());
     }
 
     /// If an atom corresponding to the identifier exists, the new data will be added to it,
@@ -1335,6 +1336,7 @@ impl Tag {
             Some(a) => a.data.extend(data),
             None => self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect())),
         }
+        self.atoms.retain(|a| !a.data.is_empty());
     }
 
     /// Returns true if this tag contains any metadata atoms, false otherwise.
-- 
2.43.0


From c8fa9b797cdcb95afabdc31864b52f306bcdd7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 13/16] fix: removing the last of number and total removes the
 item

---
 src/tag/tuple.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 1a85f21..7179619 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -73,7 +73,7 @@ impl Tag {
     pub fn remove_track_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -82,7 +82,7 @@ impl Tag {
     pub fn remove_total_tracks(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -169,7 +169,7 @@ impl Tag {
     pub fn remove_disc_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_disc(),
         }
     }
@@ -178,7 +178,7 @@ impl Tag {
     pub fn remove_total_discs(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_disc(),
         }
     }
-- 
2.43.0


From d54fe70dd1d7d8a45e2aecaba1d1718e2342983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 14/16] fix: genre and take_genre agree with genres and
 take_genres

---
 src/tag/genre.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index baaa91d..4b4877d 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -148,11 +148,7 @@ impl Tag {
 
     /// Returns the first genre (`gnre` or `©gen`).
     pub fn genre(&self) -> Option<&str> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g);
-        }
-
-        self.custom_genre()
+        self.genres().next()
     }
 
     /// Removes all custom genres (`©gen`) and returns all genres, first standard genres (`gnre`)
@@ -168,11 +164,7 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g.to_owned());
-        }
-
-        self.take_custom_genre()
+        self.take_genres().next()
     }
 
     /// Sets the custom genre (`©gen`). This will remove all other standard or custom genres.
-- 
2.43.0


From 241ae1900bb7b275f0adef2361df52eced547edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 15/16] fix: chunk offset tables behind the metadata are
 updated too

The data behind the metadata is read before the tables are updated and was written back over them, so tables in
tracks that follow the user data kept their old offsets.
---
 src/atom/mod.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 124c67a..e4ee6f0 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -511,6 +511,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                         *co = len_u32(shifted(*co as u64, len_diff)?)?;
                     }
                 }
+                if chunk_offset.table_pos >= moved_data_start {
+                    chunk_offset.table_pos = shifted(chunk_offset.table_pos, len_diff)?;
+                }
                 new_stco.push(chunk_offset);
             }
             if let Some(a) = &stbl.co64 {
@@ -522,6 +525,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                         *co = shifted(*co, len_diff)?;
                     }
                 }
+                if chunk_offset.table_pos >= moved_data_start {
+                    chunk_offset.table_pos = shifted(chunk_offset.table_pos, len_diff)?;
+                }
                 new_co64.push(chunk_offset);
             }
         }
@@ -540,20 +546,6 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     let mut writer = BufWriter::new(file);
 
-    // update sample table chunk offsets
-    for chunk_offset in new_stco.iter() {
-        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-        for co in chunk_offset.offsets.iter() {
-            writer.write_all(&u32::to_be_bytes(*co))?;
-        }
-    }
-    for chunk_offset in new_co64.iter() {
-        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-        for co in chunk_offset.offsets.iter() {
-            writer.write_all(&u64::to_be_bytes(*co))?;
-        }
-    }
-
     // update existing ilst hierarchy atom lengths
     for (a, new_len) in new_lens {
         writer.seek(SeekFrom::Start(a.pos()))?;
@@ -577,6 +569,21 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     // writing moved data
     writer.seek(SeekFrom::Start((moved_data_start as i64 + len_diff) as u64))?;
     writer.write_all(&moved_data)?;
+
+    // update sample table chunk offsets, which may be part of the moved data
+    for chunk_offset in new_stco.iter() {
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+        for co in chunk_offset.offsets.iter() {
+            writer.write_all(&u32::to_be_bytes(*co))?;
+        }
+    }
+    for chunk_offset in new_co64.iter() {
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+        for co in chunk_offset.offsets.iter() {
+            writer.write_all(&u64::to_be_bytes(*co))?;
+        }
+    }
+
     writer.flush()?;
 
     Ok(())
-- 
2.43.0


From dc9210f4b3c1ddf3e3b686d89ca8de7e835cbd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 16/16] fix: setting a total does not turn an incomplete number
 into one

An item with less than four bytes holds no number, but padding it to store
the total made its third byte the upper half of a number.
---
 src/tag/tuple.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 7179619..1810c7b 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -207,6 +207,10 @@ fn set_number(vec: &mut Vec<u8>, number: u16) {
 }
 
 fn set_total(vec: &mut Vec<u8>, total: u16) {
+    if vec.len() < 4 {
+        // an incomplete number is none, it must not become one by padding it
+        set_number(vec, 0);
+    }
     set_be_int!(vec, 4, total, u16);
 }
 
-- 
2.43.0

