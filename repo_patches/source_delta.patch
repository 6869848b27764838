From 992db685050b274efb4bc835be7cff1be3d272bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 01/28] fix: turn I/O errors inside of binrw structures into
 NtfsError::Io instead of panicking

---
 src/error.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5dfe797..2033f2b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -229,11 +229,12 @@ pub enum NtfsError {
 
 impl From<binrw::error::Error> for NtfsError {
     fn from(error: binrw::error::Error) -> Self {
-        if let binrw::error::Error::Io(io_error) = error {
-            Self::Io(io_error)
-        } else {
+        match error {
+            binrw::error::Error::Io(io_error) => Self::Io(io_error),
+            // binrw wraps every error that occurs while parsing the field of a structure.
+            binrw::error::Error::Backtrace(backtrace) => Self::from(*backtrace.error),
             // We don't use any binrw attributes that result in other errors.
-            unreachable!("Got a binrw error of unexpected type: {:?}", error);
+            _ => unreachable!("Got a binrw error of unexpected type: {:?}", error),
         }
     }
 }
-- 
2.43.0


From 876628add403e59360908f15c954112520b49b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 02/28] fix: refuse index entries that are shorter than their
 own header

---
 src/index_entry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 333d1a6..244f37b 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -285,6 +285,15 @@ where
             });
         }
 
+        // An entry that doesn't even cover its own header would let us iterate over the same entry forever.
+        if (self.index_entry_length() as usize) < INDEX_ENTRY_HEADER_SIZE {
+            return Err(NtfsError::InvalidIndexEntrySize {
+                position: self.position,
+                expected: INDEX_ENTRY_HEADER_SIZE as u16,
+                actual: self.index_entry_length(),
+            });
+        }
+
         if self.index_entry_length() as usize > self.slice.len() {
             return Err(NtfsError::InvalidIndexEntrySize {
                 position: self.position,
-- 
2.43.0


From 52b471d107c132221a7508085b689fc0e647a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 03/28] fix: compute the update sequence array position without
 overflowing

---
 src/record.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 08b5295..915acf6 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -39,7 +39,7 @@ impl Record {
         let update_sequence_number = self.update_sequence_number()?;
         let array_count = self.update_sequence_array_count()?;
 
-        let mut array_position = self.update_sequence_array_start() as usize;
+        let mut array_position = self.update_sequence_array_start();
         let array_end =
             self.update_sequence_offset() as usize + self.update_sequence_size() as usize;
         let sectors_end = array_count as usize * NTFS_BLOCK_SIZE;
@@ -119,9 +119,9 @@ impl Record {
             })
     }
 
-    fn update_sequence_array_start(&self) -> u16 {
+    fn update_sequence_array_start(&self) -> usize {
         // The Update Sequence Number (USN) comes first and the array begins right after that.
-        self.update_sequence_offset() + mem::size_of::<u16>() as u16
+        self.update_sequence_offset() as usize + mem::size_of::<u16>()
     }
 
     fn update_sequence_number(&self) -> Result<[u8; 2]> {
-- 
2.43.0


From 111ac89f30ef5d2520b235d0151204028fc1973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 04/28] fix: validate where the entries of an index node start
 and end

---
 src/error.rs                        |  6 ++++++
 src/index_entry.rs                  |  5 ++++-
 src/index_record.rs                 | 15 +++++++++++++--
 src/structured_values/index_root.rs |  8 ++++++++
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 2033f2b..0d43122 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -84,6 +84,12 @@ pub enum NtfsError {
         expected: u32,
         actual: u32,
     },
+    /// The NTFS Index Record at byte position {position:#x} indicates that its entries start at offset {expected}, but it only uses {actual} bytes
+    InvalidIndexEntriesOffset {
+        position: NtfsPosition,
+        expected: u32,
+        actual: u32,
+    },
     /// The NTFS Index Entry at byte position {position:#x} references a data field in the range {range:?}, but the entry only has a size of {size} bytes
     InvalidIndexEntryDataRange {
         position: NtfsPosition,
diff --git a/src/index_entry.rs b/src/index_entry.rs
index 244f37b..b400adf 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -352,7 +352,10 @@ where
         // Get the current entry.
         let start = self.range.start;
         let position = self.position;
-        let entry = iter_try!(NtfsIndexEntry::<E>::new(&self.data[start..], position));
+        let entry = iter_try!(NtfsIndexEntry::<E>::new(
+            &self.data[start..self.range.end],
+            position
+        ));
         let end = start + entry.index_entry_length() as usize;
 
         if entry.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) {
diff --git a/src/index_record.rs b/src/index_record.rs
index 0ca2216..9e91d54 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -153,7 +153,8 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size = INDEX_RECORD_HEADER_SIZE + self.index_allocated_size();
+        let total_allocated_size =
+            INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
@@ -164,7 +165,7 @@ impl NtfsIndexRecord {
 
         // Furthermore, the total used size for this Index Record must not be
         // larger than the total allocated size.
-        let total_data_size = INDEX_RECORD_HEADER_SIZE + self.index_data_size();
+        let total_data_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size());
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
@@ -173,6 +174,16 @@ impl NtfsIndexRecord {
             });
         }
 
+        // Finally, the entries must not start beyond the total used size.
+        let entries_offset = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_entries_offset());
+        if entries_offset > total_data_size {
+            return Err(NtfsError::InvalidIndexEntriesOffset {
+                position: self.record.position(),
+                expected: entries_offset,
+                actual: total_data_size,
+            });
+        }
+
         Ok(())
     }
 
diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 7a7b6f3..a8b84b9 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -153,6 +153,14 @@ impl<'f> NtfsIndexRoot<'f> {
             });
         }
 
+        if entries_range.start > entries_range.end {
+            return Err(NtfsError::InvalidIndexRootEntriesOffset {
+                position: self.position,
+                expected: entries_range.start,
+                actual: entries_range.end,
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From d00791ba812634d3093fee762f504a8e2d1851ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 05/28] fix: refuse impossible index record sizes before
 allocating memory for them

---
 src/error.rs        |  7 +++++++
 src/index_record.rs | 16 ++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 0d43122..7edc4d4 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -102,6 +102,13 @@ pub enum NtfsError {
         expected: u16,
         actual: u16,
     },
+    /// The NTFS Index Record at byte position {position:#x} should have a size of {actual} bytes, but its size needs to be between {min} and {max}
+    InvalidIndexRecordSize {
+        position: NtfsPosition,
+        min: u32,
+        max: u32,
+        actual: u32,
+    },
     /// The NTFS index root at byte position {position:#x} indicates that its entries start at offset {expected}, but the index root only has a size of {actual} bytes
     InvalidIndexRootEntriesOffset {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index 9e91d54..0fe67d3 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -37,6 +37,12 @@ pub(crate) struct IndexNodeHeader {
     pub(crate) flags: u8,
 }
 
+/// Every Index Record has to fit its own header and the index node header.
+const INDEX_RECORD_MIN_SIZE: u32 = INDEX_RECORD_HEADER_SIZE + INDEX_NODE_HEADER_SIZE as u32;
+
+/// The Update Sequence Array can only describe this many bytes of an Index Record.
+const INDEX_RECORD_MAX_SIZE: u32 = (u16::MAX as u32 - 1) * 512;
+
 /// A single NTFS Index Record.
 ///
 /// These records are denoted via an `INDX` signature on the filesystem.
@@ -66,6 +72,16 @@ impl NtfsIndexRecord {
     {
         let data_position = value.data_position();
 
+        // Refuse sizes that no Index Record can have, before allocating memory for it.
+        if !(INDEX_RECORD_MIN_SIZE..=INDEX_RECORD_MAX_SIZE).contains(&index_record_size) {
+            return Err(NtfsError::InvalidIndexRecordSize {
+                position: data_position,
+                min: INDEX_RECORD_MIN_SIZE,
+                max: INDEX_RECORD_MAX_SIZE,
+                actual: index_record_size,
+            });
+        }
+
         let mut data = vec![0; index_record_size as usize];
         value.read_exact(fs, &mut data)?;
 
-- 
2.43.0


From eab4cabbf192cd336bbf3f7b8e83e87805d564f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 06/28] fix: refuse attributes that are shorter than their
 resident or non-resident header

---
 src/attribute.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4cb34cf..1490a4b 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -415,11 +415,18 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             });
         }
 
+        // The generic header is followed by further fields, depending on whether the value is resident.
+        let header_size = if self.is_resident() {
+            mem::size_of::<NtfsResidentAttributeHeader>()
+        } else {
+            mem::size_of::<NtfsNonResidentAttributeHeader>()
+        };
+
         let attribute_length = self.attribute_length() as usize;
-        if attribute_length < ATTRIBUTE_HEADER_SIZE {
+        if attribute_length < header_size {
             return Err(NtfsError::InvalidAttributeLength {
                 position: self.position(),
-                expected: ATTRIBUTE_HEADER_SIZE,
+                expected: header_size,
                 actual: attribute_length,
             });
         }
-- 
2.43.0


From d9555d69a08f3c97a70dfe5f3cb7156e101c9487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 07/28] fix: stop iterating attributes at the used size of the
 file record

---
 src/attribute.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index 1490a4b..c22202f 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -757,6 +757,11 @@ impl<'n, 'f> Iterator for NtfsAttributesRaw<'n, 'f> {
     type Item = Result<NtfsAttribute<'n, 'f>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Anything beyond the used size of the File Record is not an attribute.
+        if self.items_range.is_empty() {
+            return None;
+        }
+
         // This may be an entire attribute or just the 4-byte end marker.
         // Check if this marks the end of the attribute list.
         let start = self.items_range.start;
-- 
2.43.0


From 55cb2b43e4c413d631da4d1b4490eeab68e1d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 08/28] fix: refuse data runs that end beyond the largest
 position and keep the iterator state on errors

---
 src/attribute_value/non_resident.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index bdc7f56..7b1db56 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -401,18 +401,27 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         ));
 
         // The VCN may either indicate "real" data or a sparse Data Run.
+        let mut previous_lcn = self.state.previous_lcn;
         let position = if vcn.value() != 0 {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
-            let new_lcn = iter_try!(self.state.previous_lcn.checked_add(vcn).ok_or(
+            let new_lcn = iter_try!(previous_lcn.checked_add(vcn).ok_or(
                 NtfsError::InvalidVcnInDataRunHeader {
                     position: NtfsDataRuns::position(self),
                     vcn,
-                    previous_lcn: self.state.previous_lcn,
+                    previous_lcn,
                 }
             ));
-            self.state.previous_lcn = new_lcn;
-            iter_try!(new_lcn.position(self.ntfs))
+            let position = iter_try!(new_lcn.position(self.ntfs));
+
+            // The end of this Data Run must be a valid position, too.
+            let start = position.value().map_or(0, |position| position.get());
+            if start.checked_add(allocated_size).is_none() {
+                return Some(Err(NtfsError::LcnTooBig { lcn: new_lcn }));
+            }
+
+            previous_lcn = new_lcn;
+            position
         } else {
             // This is a sparse Data Run.
             NtfsPosition::none()
@@ -422,6 +431,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         // In case of an error, a subsequent call shall output the same error again.
         let bytes_to_advance = cursor.stream_position().unwrap() as usize;
         self.state.offset += bytes_to_advance;
+        self.state.previous_lcn = previous_lcn;
 
         let data_run = NtfsDataRun::new(position, allocated_size);
         Some(Ok(data_run))
-- 
2.43.0


From fb37c047d3ca3f1225ce8a25b91e9499a8dea199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 09/28] fix: only treat data runs without an offset as sparse

---
 src/attribute_value/non_resident.rs | 33 ++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 7b1db56..aedf691 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -400,9 +400,10 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
             self.read_variable_length_signed_integer(&mut cursor, vcn_byte_count)
         ));
 
-        // The VCN may either indicate "real" data or a sparse Data Run.
+        // The VCN may either indicate "real" data or be absent to indicate a sparse Data Run.
+        let is_sparse = vcn_byte_count == 0;
         let mut previous_lcn = self.state.previous_lcn;
-        let position = if vcn.value() != 0 {
+        let position = if !is_sparse {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
             let new_lcn = iter_try!(previous_lcn.checked_add(vcn).ok_or(
@@ -433,7 +434,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         self.state.offset += bytes_to_advance;
         self.state.previous_lcn = previous_lcn;
 
-        let data_run = NtfsDataRun::new(position, allocated_size);
+        let data_run = NtfsDataRun::new(position, allocated_size, is_sparse);
         Some(Ok(data_run))
     }
 }
@@ -454,20 +455,23 @@ pub(crate) struct DataRunsState {
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct NtfsDataRun {
     /// Absolute position of the Data Run within the filesystem, in bytes.
-    /// This may be `NtfsPosition(None)` if this is a "sparse" Data Run.
+    /// This may be `NtfsPosition(None)` if this is a "sparse" Data Run or if it starts at the very first byte.
     position: NtfsPosition,
     /// Total allocated size of the Data Run, in bytes.
     /// The actual size used by data may be lower, but a Data Run does not know about that.
     allocated_size: u64,
+    /// Whether this is a "sparse" Data Run, which isn't backed by any clusters and reads as zeros.
+    is_sparse: bool,
     /// Current relative position within the Data Run value, in bytes.
     stream_position: u64,
 }
 
 impl NtfsDataRun {
-    pub(crate) fn new(position: NtfsPosition, allocated_size: u64) -> Self {
+    pub(crate) fn new(position: NtfsPosition, allocated_size: u64, is_sparse: bool) -> Self {
         Self {
             position,
             allocated_size,
+            is_sparse,
             stream_position: 0,
         }
     }
@@ -482,13 +486,18 @@ impl NtfsDataRun {
     ///   * The current seek position is outside the valid range, or
     ///   * The Data Run is a "sparse" Data Run
     pub fn data_position(&self) -> NtfsPosition {
-        if self.stream_position <= self.allocated_size() {
-            self.position + self.stream_position
+        if !self.is_sparse && self.stream_position <= self.allocated_size() {
+            NtfsPosition::new(self.start() + self.stream_position)
         } else {
             NtfsPosition::none()
         }
     }
 
+    /// Returns the absolute position of the first byte of this (non-sparse) Data Run.
+    fn start(&self) -> u64 {
+        self.position.value().map_or(0, |position| position.get())
+    }
+
     pub(crate) fn remaining_len(&self) -> u64 {
         self.allocated_size().saturating_sub(self.stream_position)
     }
@@ -506,14 +515,14 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
         let work_slice = &mut buf[..bytes_to_read];
 
-        let bytes_read = if let Some(position) = self.position.value() {
-            // This Data Run contains "real" data.
-            fs.seek(SeekFrom::Start(position.get() + self.stream_position))?;
-            fs.read(work_slice)?
-        } else {
+        let bytes_read = if self.is_sparse {
             // This is a sparse Data Run.
             work_slice.fill(0);
             work_slice.len()
+        } else {
+            // This Data Run contains "real" data.
+            fs.seek(SeekFrom::Start(self.start() + self.stream_position))?;
+            fs.read(work_slice)?
         };
 
         self.stream_position += bytes_read as u64;
-- 
2.43.0


From bcbb6a8b98cda34afcec76072323c5ee2fce3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 10/28] fix: report a data run beyond the end of the reader
 instead of skipping it

---
 src/attribute_value/non_resident.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index aedf691..011a477 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -522,7 +522,18 @@ impl NtfsReadSeek for NtfsDataRun {
         } else {
             // This Data Run contains "real" data.
             fs.seek(SeekFrom::Start(self.start() + self.stream_position))?;
-            fs.read(work_slice)?
+            let bytes_read = fs.read(work_slice)?;
+
+            // The clusters of a Data Run must exist.
+            // If we returned Ok(0) here, we would silently continue with the next Data Run.
+            if bytes_read == 0 && !work_slice.is_empty() {
+                return Err(NtfsError::Io(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "data run exceeds the filesystem",
+                )));
+            }
+
+            bytes_read
         };
 
         self.stream_position += bytes_read as u64;
-- 
2.43.0


From 3ebfd65caaa1a0337476c6e924dd11722c8e370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 11/28] fix: return the bytes read before an error instead of
 losing them

---
 .../attribute_list_non_resident.rs            | 61 ++++++++++++-------
 src/attribute_value/non_resident.rs           | 53 ++++++++++------
 2 files changed, 76 insertions(+), 38 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 564169b..a1ee4d5 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -176,30 +176,19 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
-    /// Rewinds this value reader to the very beginning.
-    fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
-    where
-        T: Read + Seek,
-    {
-        self.connected_entries.attribute_list_entries =
-            Some(self.initial_attribute_list_entries.clone());
-        self.stream_state = StreamState::new(self.len());
-        self.next_attribute(fs)?;
-
-        Ok(())
-    }
-}
-
-impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    /// Fills `buf` from the current position and keeps `bytes_read` up to date, even in case of an error.
+    fn read_data_runs<T>(
+        &mut self,
+        fs: &mut T,
+        buf: &mut [u8],
+        bytes_read: &mut usize,
+    ) -> Result<()>
     where
         T: Read + Seek,
     {
-        let mut bytes_read = 0usize;
-
-        while bytes_read < buf.len() {
+        while *bytes_read < buf.len() {
             // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
+            if self.stream_state.read_data_run(fs, buf, bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
                 continue;
             }
@@ -220,7 +209,37 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
             }
         }
 
-        Ok(bytes_read)
+        Ok(())
+    }
+
+    /// Rewinds this value reader to the very beginning.
+    fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
+    where
+        T: Read + Seek,
+    {
+        self.connected_entries.attribute_list_entries =
+            Some(self.initial_attribute_list_entries.clone());
+        self.stream_state = StreamState::new(self.len());
+        self.next_attribute(fs)?;
+
+        Ok(())
+    }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        match self.read_data_runs(fs, buf, &mut bytes_read) {
+            Ok(()) => Ok(bytes_read),
+            // We must not lose the bytes we have already read.
+            // The next call tries again from the position of the error.
+            Err(_) if bytes_read > 0 => Ok(bytes_read),
+            Err(e) => Err(e),
+        }
     }
 
     fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 011a477..17f016e 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -109,26 +109,19 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
-    /// Rewinds this value reader to the very beginning.
-    fn rewind(&mut self) -> Result<()> {
-        self.stream_data_runs = self.data_runs();
-        self.stream_state = StreamState::new(self.len());
-        self.next_data_run()?;
-
-        Ok(())
-    }
-}
-
-impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    /// Fills `buf` from the current position and keeps `bytes_read` up to date, even in case of an error.
+    fn read_data_runs<T>(
+        &mut self,
+        fs: &mut T,
+        buf: &mut [u8],
+        bytes_read: &mut usize,
+    ) -> Result<()>
     where
         T: Read + Seek,
     {
-        let mut bytes_read = 0usize;
-
-        while bytes_read < buf.len() {
+        while *bytes_read < buf.len() {
             // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
+            if self.stream_state.read_data_run(fs, buf, bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
                 continue;
             }
@@ -143,7 +136,33 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
             }
         }
 
-        Ok(bytes_read)
+        Ok(())
+    }
+
+    /// Rewinds this value reader to the very beginning.
+    fn rewind(&mut self) -> Result<()> {
+        self.stream_data_runs = self.data_runs();
+        self.stream_state = StreamState::new(self.len());
+        self.next_data_run()?;
+
+        Ok(())
+    }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        match self.read_data_runs(fs, buf, &mut bytes_read) {
+            Ok(()) => Ok(bytes_read),
+            // We must not lose the bytes we have already read.
+            // The next call tries again from the position of the error.
+            Err(_) if bytes_read > 0 => Ok(bytes_read),
+            Err(e) => Err(e),
+        }
     }
 
     fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
-- 
2.43.0


From 7f7b85539ef47de71f80f736c51a8745ffefa553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 12/28] fix: don't advance to data runs beyond the end of the
 value when reading

---
 src/attribute_value/attribute_list_non_resident.rs | 3 ++-
 src/attribute_value/non_resident.rs                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index a1ee4d5..6a651d8 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -186,7 +186,8 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     where
         T: Read + Seek,
     {
-        while *bytes_read < buf.len() {
+        // There may be further Data Runs beyond the (used) data size, so check for both ends.
+        while *bytes_read < buf.len() && self.stream_position() < self.len() {
             // Read from the current Data Run if there is one.
             if self.stream_state.read_data_run(fs, buf, bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 17f016e..f7986e8 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -119,7 +119,8 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
     where
         T: Read + Seek,
     {
-        while *bytes_read < buf.len() {
+        // There may be further Data Runs beyond the (used) data size, so check for both ends.
+        while *bytes_read < buf.len() && self.stream_position() < self.len() {
             // Read from the current Data Run if there is one.
             if self.stream_state.read_data_run(fs, buf, bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
-- 
2.43.0


From 4ac11ea4d8e24d6dd0ed40271ccd864fae9888c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 13/28] fix: keep the state of attribute list values on errors

---
 .../attribute_list_non_resident.rs            | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 6a651d8..262b4d7 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -94,8 +94,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         };
 
         // Get the state of the `NtfsDataRuns` iterator of that attribute.
-        let data_runs_state = match attribute_state.data_runs_state.take() {
-            Some(data_runs_state) => data_runs_state,
+        // Only clone it, so that a subsequent call outputs the same error again in case of an error.
+        let data_runs_state = match &attribute_state.data_runs_state {
+            Some(data_runs_state) => data_runs_state.clone(),
             None => return Ok(false),
         };
 
@@ -112,7 +113,10 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         // Do we have a next Data Run? Save that.
         let stream_data_run = match stream_data_runs.next() {
             Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
+            None => {
+                attribute_state.data_runs_state = None;
+                return Ok(false);
+            }
         };
         let stream_data_run = stream_data_run?;
         self.stream_state.set_stream_data_run(Some(stream_data_run));
@@ -130,7 +134,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         T: Read + Seek,
     {
         // Do we have another connected attribute?
-        let entry = match self.connected_entries.next(fs) {
+        // Only advance our own iterator after having checked for success.
+        let mut connected_entries = self.connected_entries.clone();
+        let entry = match connected_entries.next(fs) {
             Some(entry) => entry,
             None => return Ok(false),
         };
@@ -153,11 +159,13 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         let mut stream_data_runs = NtfsDataRuns::new(self.ntfs, data, position);
 
         // Get the first Data Run already here to save time and let `data_position` return something meaningful.
-        let stream_data_run = match stream_data_runs.next() {
+        let stream_data_run = stream_data_runs.next().transpose()?;
+        self.connected_entries = connected_entries;
+
+        let stream_data_run = match stream_data_run {
             Some(stream_data_run) => stream_data_run,
             None => return Ok(false),
         };
-        let stream_data_run = stream_data_run?;
         self.stream_state.set_stream_data_run(Some(stream_data_run));
 
         // Store the `NtfsFile` and serialize the `NtfsDataRuns` state for a later iteration.
-- 
2.43.0


From f1542bf7c7c283aff67131d06eb9fe229bfb5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 14/28] fix: keep the position of non-resident values when
 seeking fails

---
 .../attribute_list_non_resident.rs            | 49 ++++++++++++-------
 src/attribute_value/non_resident.rs           | 49 ++++++++++++-------
 2 files changed, 62 insertions(+), 36 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 262b4d7..46e44f9 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -233,25 +233,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
 
         Ok(())
     }
-}
 
-impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
-    where
-        T: Read + Seek,
-    {
-        let mut bytes_read = 0usize;
-
-        match self.read_data_runs(fs, buf, &mut bytes_read) {
-            Ok(()) => Ok(bytes_read),
-            // We must not lose the bytes we have already read.
-            // The next call tries again from the position of the error.
-            Err(_) if bytes_read > 0 => Ok(bytes_read),
-            Err(e) => Err(e),
-        }
-    }
-
-    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    /// Seeks to the given position, but leaves an undefined state in case of an error.
+    fn seek_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
     where
         T: Read + Seek,
     {
@@ -303,6 +287,35 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 
         Ok(self.stream_position())
     }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        match self.read_data_runs(fs, buf, &mut bytes_read) {
+            Ok(()) => Ok(bytes_read),
+            // We must not lose the bytes we have already read.
+            // The next call tries again from the position of the error.
+            Err(_) if bytes_read > 0 => Ok(bytes_read),
+            Err(e) => Err(e),
+        }
+    }
+
+    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        // Only move our own position after having checked for success.
+        let mut value = self.clone();
+        let stream_position = value.seek_data_runs(fs, pos)?;
+        *self = value;
+
+        Ok(stream_position)
+    }
 
     fn stream_position(&self) -> u64 {
         self.stream_state.stream_position()
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index f7986e8..70b0e6e 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -148,25 +148,9 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
 
         Ok(())
     }
-}
 
-impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
-    where
-        T: Read + Seek,
-    {
-        let mut bytes_read = 0usize;
-
-        match self.read_data_runs(fs, buf, &mut bytes_read) {
-            Ok(()) => Ok(bytes_read),
-            // We must not lose the bytes we have already read.
-            // The next call tries again from the position of the error.
-            Err(_) if bytes_read > 0 => Ok(bytes_read),
-            Err(e) => Err(e),
-        }
-    }
-
-    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    /// Seeks to the given position, but leaves an undefined state in case of an error.
+    fn seek_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
     where
         T: Read + Seek,
     {
@@ -212,6 +196,35 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
 
         Ok(self.stream_position())
     }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let mut bytes_read = 0usize;
+
+        match self.read_data_runs(fs, buf, &mut bytes_read) {
+            Ok(()) => Ok(bytes_read),
+            // We must not lose the bytes we have already read.
+            // The next call tries again from the position of the error.
+            Err(_) if bytes_read > 0 => Ok(bytes_read),
+            Err(e) => Err(e),
+        }
+    }
+
+    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        // Only move our own position after having checked for success.
+        let mut value = self.clone();
+        let stream_position = value.seek_data_runs(fs, pos)?;
+        *self = value;
+
+        Ok(stream_position)
+    }
 
     fn stream_position(&self) -> u64 {
         self.stream_state.stream_position()
-- 
2.43.0


From ece0b68657b0dbb9ee777809aed5e5654bca7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 15/28] fix: report the position of a resident value instead of
 its attribute

---
 src/attribute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index c22202f..2a8c21f 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -360,7 +360,10 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         let end = start + self.resident_value_length() as usize;
         let data = &self.file.record_data()[start..end];
 
-        Ok(NtfsResidentAttributeValue::new(data, self.position()))
+        Ok(NtfsResidentAttributeValue::new(
+            data,
+            self.file.position() + start,
+        ))
     }
 
     fn resident_value_length(&self) -> u32 {
-- 
2.43.0


From c175b29b1cacf3f1312e726b5aaf8ad6213c6527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 16/28] fix: read zeros beyond the initialized size of a
 non-resident value

---
 src/attribute.rs                              |  9 ++++++
 .../attribute_list_non_resident.rs            |  5 ++--
 src/attribute_value/non_resident.rs           | 30 +++++++++++++++++--
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 2a8c21f..29969a3 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -288,6 +288,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             data,
             position,
             self.non_resident_value_data_size(),
+            self.non_resident_value_initialized_size(),
         )
     }
 
@@ -312,6 +313,12 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         LittleEndian::read_u64(&self.file.record_data()[start..])
     }
 
+    fn non_resident_value_initialized_size(&self) -> u64 {
+        debug_assert!(!self.is_resident());
+        let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, initialized_size);
+        LittleEndian::read_u64(&self.file.record_data()[start..])
+    }
+
     fn non_resident_value_data_runs_offset(&self) -> u16 {
         debug_assert!(!self.is_resident());
         let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, data_runs_offset);
@@ -514,6 +521,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             // (remaining ones are set to zero).
             // Fortunately, we are the first attribute :)
             let data_size = self.non_resident_value_data_size();
+            let initialized_size = self.non_resident_value_initialized_size();
 
             let value = NtfsAttributeListNonResidentAttributeValue::new(
                 self.file.ntfs(),
@@ -522,6 +530,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.instance(),
                 self.ty()?,
                 data_size,
+                initialized_size,
             )?;
             Ok(NtfsAttributeValue::AttributeListNonResident(value))
         } else if self.is_resident() {
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 46e44f9..790c521 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -46,13 +46,14 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         instance: u16,
         ty: NtfsAttributeType,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self>
     where
         T: Read + Seek,
     {
         let connected_entries =
             AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -228,7 +229,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     {
         self.connected_entries.attribute_list_entries =
             Some(self.initial_attribute_list_entries.clone());
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state = StreamState::new(self.len(), self.stream_state.initialized_size());
         self.next_attribute(fs)?;
 
         Ok(())
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 70b0e6e..7e3ffe9 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -40,9 +40,10 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         data: &'f [u8],
         position: NtfsPosition,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self> {
         let stream_data_runs = NtfsDataRuns::new(ntfs, data, position);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -143,7 +144,7 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
     /// Rewinds this value reader to the very beginning.
     fn rewind(&mut self) -> Result<()> {
         self.stream_data_runs = self.data_runs();
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state = StreamState::new(self.len(), self.stream_state.initialized_size());
         self.next_data_run()?;
 
         Ok(())
@@ -594,14 +595,18 @@ pub(crate) struct StreamState {
     stream_position: u64,
     /// Total (used) data size, in bytes.
     data_size: u64,
+    /// Size of the initialized part of the value, in bytes.
+    /// Everything beyond that reads as zeros, no matter what is stored in the clusters.
+    initialized_size: u64,
 }
 
 impl StreamState {
-    pub(crate) const fn new(data_size: u64) -> Self {
+    pub(crate) const fn new(data_size: u64, initialized_size: u64) -> Self {
         Self {
             stream_data_run: None,
             stream_position: 0,
             data_size,
+            initialized_size,
         }
     }
 
@@ -623,6 +628,11 @@ impl StreamState {
         self.data_size
     }
 
+    /// Returns the size of the initialized part of the value, in bytes.
+    pub(crate) fn initialized_size(&self) -> u64 {
+        self.initialized_size
+    }
+
     pub(crate) fn optimize_seek(&self, pos: SeekFrom, data_size: u64) -> Result<SeekFrom> {
         let mut pos = self.simplify_seek(pos, data_size)?;
 
@@ -715,6 +725,20 @@ impl StreamState {
         let remaining_buf_len = buf.len() - start;
         let end = start + usize::min(remaining_buf_len, remaining_data_size as usize);
 
+        // The clusters only contain valid data up to the initialized size of the value.
+        let remaining_initialized_size = self.initialized_size.saturating_sub(self.stream_position);
+        if remaining_initialized_size == 0 {
+            let bytes_to_fill = u64::min((end - start) as u64, data_run.remaining_len());
+            buf[start..start + bytes_to_fill as usize].fill(0);
+            data_run.stream_position += bytes_to_fill;
+
+            *bytes_read += bytes_to_fill as usize;
+            self.stream_position += bytes_to_fill;
+            return Ok(true);
+        }
+
+        let end = start + u64::min((end - start) as u64, remaining_initialized_size) as usize;
+
         // Perform the actual read.
         let bytes_read_in_data_run = data_run.read(fs, &mut buf[start..end])?;
         if bytes_read_in_data_run == 0 {
-- 
2.43.0


From dca3ab4158cb977dbdd2a362af180e9308277e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 17/28] fix: connect the attributes of an attribute list by
 their lowest VCN

---
 src/attribute.rs                              | 82 +++++++++++++++----
 .../attribute_list_non_resident.rs            | 29 +++----
 src/structured_values/attribute_list.rs       | 13 ++-
 3 files changed, 90 insertions(+), 34 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 29969a3..5fb6d2f 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -527,8 +527,6 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.file.ntfs(),
                 fs,
                 list_entries.clone(),
-                self.instance(),
-                self.ty()?,
                 data_size,
                 initialized_size,
             )?;
@@ -566,7 +564,8 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
 pub struct NtfsAttributes<'n, 'f> {
     raw_iter: NtfsAttributesRaw<'n, 'f>,
     list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    list_skip_info: Option<(u16, NtfsAttributeType)>,
+    /// An untouched copy of `list_entries` to look up the entries for the attributes of the raw iterator.
+    initial_list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
 }
 
 impl<'n, 'f> NtfsAttributes<'n, 'f> {
@@ -574,7 +573,7 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
         Self {
             raw_iter: NtfsAttributesRaw::new(file),
             list_entries: None,
-            list_skip_info: None,
+            initial_list_entries: None,
         }
     }
 
@@ -608,9 +607,8 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                         Some(Err(e)) => return Some(Err(e)),
                         None => break,
                     };
-                    let entry_instance = entry.instance();
                     let entry_record_number = entry.base_file_reference().file_record_number();
-                    let entry_ty = iter_try!(entry.ty());
+                    iter_try!(entry.ty());
 
                     // Ignore all Attribute List entries that just repeat attributes of the raw iterator.
                     if entry_record_number == self.raw_iter.file.file_record_number() {
@@ -618,15 +616,11 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     }
 
                     // Ignore all Attribute List entries that are connected attributes of a previous one.
-                    if let Some((skip_instance, skip_ty)) = self.list_skip_info {
-                        if entry_instance == skip_instance && entry_ty == skip_ty {
-                            continue;
-                        }
+                    if entry.is_continuation() {
+                        continue;
                     }
 
                     // We found an attribute that we want to return.
-                    self.list_skip_info = None;
-
                     let ntfs = self.raw_iter.file.ntfs();
                     let entry_file = iter_try!(entry.to_file(ntfs, fs));
                     let entry_attribute = iter_try!(entry.to_attribute(&entry_file));
@@ -635,7 +629,6 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     let mut list_entries = None;
                     if !entry_attribute.is_resident() {
                         list_entries = Some(attribute_list_entries_clone);
-                        self.list_skip_info = Some((entry_instance, entry_ty));
                     }
 
                     let item = NtfsAttributeItem {
@@ -653,17 +646,78 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                 let attribute_list =
                     iter_try!(attribute.structured_value::<T, NtfsAttributeList>(fs));
                 self.list_entries = Some(attribute_list.entries());
+                self.initial_list_entries = self.list_entries.clone();
             } else {
+                let list_entries = match iter_try!(self.connection(fs, &attribute)) {
+                    AttributeConnection::None => None,
+                    AttributeConnection::First(list_entries) => Some(list_entries),
+                    AttributeConnection::Continuation => continue,
+                };
                 let item = NtfsAttributeItem {
                     attribute_file: self.raw_iter.file,
                     attribute_value_file: None,
                     attribute_offset: attribute.offset(),
-                    list_entries: None,
+                    list_entries,
                 };
                 return Some(Ok(item));
             }
         }
     }
+
+    /// Returns how an attribute of the raw iterator is connected to other attributes in the Attribute List.
+    fn connection<T>(
+        &self,
+        fs: &mut T,
+        attribute: &NtfsAttribute<'n, 'f>,
+    ) -> Result<AttributeConnection<'n, 'f>>
+    where
+        T: Read + Seek,
+    {
+        // Only non-resident attributes can be connected.
+        let mut list_entries = match &self.initial_list_entries {
+            Some(list_entries) if !attribute.is_resident() => list_entries.clone(),
+            _ => return Ok(AttributeConnection::None),
+        };
+
+        loop {
+            let list_entries_clone = list_entries.clone();
+            let entry = match list_entries.next(fs).transpose()? {
+                Some(entry) => entry,
+                None => return Ok(AttributeConnection::None),
+            };
+
+            // Is this the entry of the attribute?
+            let entry_record_number = entry.base_file_reference().file_record_number();
+            if entry_record_number != self.raw_iter.file.file_record_number()
+                || entry.instance() != attribute.instance()
+                || entry.ty().ok() != attribute.ty().ok()
+            {
+                continue;
+            }
+
+            if entry.is_continuation() {
+                return Ok(AttributeConnection::Continuation);
+            }
+
+            return match list_entries.next(fs).transpose()? {
+                Some(next_entry) if next_entry.is_continuation() => {
+                    Ok(AttributeConnection::First(list_entries_clone))
+                }
+                _ => Ok(AttributeConnection::None),
+            };
+        }
+    }
+}
+
+/// Describes how an attribute is connected to other attributes in the Attribute List.
+enum AttributeConnection<'n, 'f> {
+    /// The attribute is not connected to any other attribute.
+    None,
+    /// The attribute is the first one of a connected attribute.
+    /// The next entry of the given iterator belongs to the attribute itself.
+    First(NtfsAttributeListEntries<'n, 'f>),
+    /// The attribute continues another attribute.
+    Continuation,
 }
 
 /// Iterator over
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 790c521..86e8afc 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -9,7 +9,7 @@
 use binrw::io::{Read, Seek, SeekFrom};
 
 use super::{DataRunsState, NtfsDataRuns, StreamState};
-use crate::attribute::{NtfsAttribute, NtfsAttributeType};
+use crate::attribute::NtfsAttribute;
 use crate::error::{NtfsError, Result};
 use crate::file::NtfsFile;
 use crate::ntfs::Ntfs;
@@ -43,16 +43,13 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         ntfs: &'n Ntfs,
         fs: &mut T,
         attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
-        ty: NtfsAttributeType,
         data_size: u64,
         initialized_size: u64,
     ) -> Result<Self>
     where
         T: Read + Seek,
     {
-        let connected_entries =
-            AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
+        let connected_entries = AttributeListConnectedEntries::new(attribute_list_entries.clone());
         let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
@@ -227,8 +224,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     where
         T: Read + Seek,
     {
-        self.connected_entries.attribute_list_entries =
-            Some(self.initial_attribute_list_entries.clone());
+        self.connected_entries =
+            AttributeListConnectedEntries::new(self.initial_attribute_list_entries.clone());
+        self.attribute_state = None;
         self.stream_state = StreamState::new(self.len(), self.stream_state.initialized_size());
         self.next_attribute(fs)?;
 
@@ -326,20 +324,15 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 #[derive(Clone, Debug)]
 struct AttributeListConnectedEntries<'n, 'f> {
     attribute_list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    instance: u16,
-    ty: NtfsAttributeType,
+    /// Whether we have already returned the first entry.
+    is_started: bool,
 }
 
 impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
-    fn new(
-        attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
-        ty: NtfsAttributeType,
-    ) -> Self {
+    fn new(attribute_list_entries: NtfsAttributeListEntries<'n, 'f>) -> Self {
         Self {
             attribute_list_entries: Some(attribute_list_entries),
-            instance,
-            ty,
+            is_started: false,
         }
     }
 
@@ -349,8 +342,10 @@ impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
     {
         let attribute_list_entries = self.attribute_list_entries.as_mut()?;
 
+        // The first entry belongs to our attribute, all further ones only if they continue the attribute.
         let entry = iter_try!(attribute_list_entries.next(fs)?);
-        if entry.instance() == self.instance && iter_try!(entry.ty()) == self.ty {
+        if !self.is_started || entry.is_continuation() {
+            self.is_started = true;
             Some(Ok(entry))
         } else {
             self.attribute_list_entries = None;
diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index e9c7e05..b0df073 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -206,13 +206,20 @@ impl NtfsAttributeListEntry {
     /// Returns the instance number of this attribute list entry.
     ///
     /// An instance number is unique within a single NTFS File Record.
-    ///
-    /// Multiple entries of the same type and instance number form a connected attribute,
-    /// meaning an attribute whose value is stretched over multiple attributes.
     pub fn instance(&self) -> u16 {
         self.header.instance
     }
 
+    /// Returns whether this entry continues the attribute of the previous entry.
+    ///
+    /// Such entries form a connected attribute, meaning an attribute whose value is stretched over
+    /// multiple attributes.
+    /// Instance numbers don't tell us anything about that, because connected attributes are usually
+    /// stored in different File Records.
+    pub(crate) fn is_continuation(&self) -> bool {
+        self.lowest_vcn().value() != 0
+    }
+
     /// Returns the length of this attribute list entry, in bytes.
     pub fn list_entry_length(&self) -> u16 {
         self.header.list_entry_length
-- 
2.43.0


From 30415715797c2eff8f87f06223a6b5e0b49b889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 18/28] fix: read file records through the MFT value and only
 within its bounds

---
 src/file.rs | 10 ++++++++++
 src/ntfs.rs | 15 ++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index b0bc5fc..d454bcf 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,6 +6,7 @@ use core::fmt;
 use core::num::NonZeroU64;
 
 use alloc::vec;
+use alloc::vec::Vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use bitflags::bitflags;
 use byteorder::{ByteOrder, LittleEndian};
@@ -144,6 +145,15 @@ impl<'n> NtfsFile<'n> {
         fs.seek(SeekFrom::Start(position.get()))?;
         fs.read_exact(&mut data)?;
 
+        Self::from_data(ntfs, data, position, file_record_number)
+    }
+
+    pub(crate) fn from_data(
+        ntfs: &'n Ntfs,
+        data: Vec<u8>,
+        position: NonZeroU64,
+        file_record_number: u64,
+    ) -> Result<Self> {
         let mut record = Record::new(data, position.into());
         Self::validate_signature(&record)?;
         record.fixup()?;
diff --git a/src/ntfs.rs b/src/ntfs.rs
index e560032..5892553 100644
--- a/src/ntfs.rs
+++ b/src/ntfs.rs
@@ -1,6 +1,7 @@
 // Copyright 2021-2023 Colin Finck <colin@reactos.org>
 // SPDX-License-Identifier: MIT OR Apache-2.0
 
+use alloc::vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use binrw::BinReaderExt;
 
@@ -100,13 +101,25 @@ impl Ntfs {
             mft.find_resident_attribute(NtfsAttributeType::Data, None, None)?;
         let mut mft_data_value = mft_data_attribute.value(fs)?;
 
+        // The entire File Record must be part of the MFT.
+        let end = offset
+            .checked_add(self.file_record_size as u64)
+            .filter(|end| *end <= mft_data_value.len());
+        if end.is_none() {
+            return Err(NtfsError::InvalidFileRecordNumber { file_record_number });
+        }
+
         mft_data_value.seek(fs, SeekFrom::Start(offset))?;
         let position = mft_data_value
             .data_position()
             .value()
             .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
 
-        NtfsFile::new(self, fs, position, file_record_number)
+        // A File Record may cross from one Data Run into the next, so it must be read from the MFT value as well.
+        let mut data = vec![0; self.file_record_size as usize];
+        mft_data_value.read_exact(fs, &mut data)?;
+
+        NtfsFile::from_data(self, data, position, file_record_number)
     }
 
     /// Returns the size of a File Record of this NTFS filesystem, in bytes.
-- 
2.43.0


From db2ac3ab98b3421872d7a154a50d5ce23d282fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 19/28] fix: refuse an index that references the same subnode
 more than once

---
 src/error.rs |  2 ++
 src/index.rs | 23 ++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 7edc4d4..7392c2f 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,6 +47,8 @@ pub enum NtfsError {
         expected: u16,
         actual: u32,
     },
+    /// The index at byte position {position:#x} references the subnode at Virtual Cluster Number (VCN) {vcn} more than once
+    DuplicateIndexSubnode { position: NtfsPosition, vcn: Vcn },
     /// The NTFS Data Run header at byte position {position:#x} indicates a maximum byte count of {expected}, but {actual} is the limit
     InvalidByteCountInDataRunHeader {
         position: NtfsPosition,
diff --git a/src/index.rs b/src/index.rs
index 02e0ff3..b2e3ee2 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -4,6 +4,7 @@
 use core::cmp::Ordering;
 use core::marker::PhantomData;
 
+use alloc::collections::BTreeSet;
 use alloc::vec;
 use alloc::vec::Vec;
 use binrw::io::{Read, Seek};
@@ -15,7 +16,7 @@ use crate::index_entry::{
 };
 use crate::indexes::NtfsIndexEntryType;
 use crate::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
-use crate::types::NtfsPosition;
+use crate::types::{NtfsPosition, Vcn};
 
 /// Helper structure to iterate over all entries of an index or find a specific one.
 ///
@@ -106,6 +107,8 @@ where
     index: &'i NtfsIndex<'n, 'f, E>,
     inner_iterators: Vec<IndexNodeEntryRanges<E>>,
     following_entries: Vec<Option<IndexEntryRange<E>>>,
+    /// All subnodes we have already iterated, to not get trapped in a corrupted index with cyclic references.
+    visited_subnodes: BTreeSet<Vcn>,
 }
 
 impl<'n, 'f, 'i, E> NtfsIndexEntries<'n, 'f, 'i, E>
@@ -115,11 +118,13 @@ where
     fn new(index: &'i NtfsIndex<'n, 'f, E>) -> Self {
         let inner_iterators = vec![index.index_root_entry_ranges.clone()];
         let following_entries = Vec::new();
+        let visited_subnodes = BTreeSet::new();
 
         Self {
             index,
             inner_iterators,
             following_entries,
+            visited_subnodes,
         }
     }
 
@@ -162,6 +167,14 @@ where
                 if let Some(subnode_vcn) = entry.subnode_vcn() {
                     let subnode_vcn = iter_try!(subnode_vcn);
 
+                    // Every subnode has exactly one parent entry.
+                    if !self.visited_subnodes.insert(subnode_vcn) {
+                        return Some(Err(NtfsError::DuplicateIndexSubnode {
+                            position: self.index.index_root_position,
+                            vcn: subnode_vcn,
+                        }));
+                    }
+
                     // Read the subnode from the filesystem and get an iterator for it.
                     let index_allocation_item =
                         iter_try!(self.index.index_allocation_item.as_ref().ok_or(
@@ -263,6 +276,7 @@ where
     {
         // Always (re)start by iterating through the Index Root entry ranges.
         self.inner_iterator = self.index.index_root_entry_ranges.clone();
+        let mut visited_subnodes = BTreeSet::new();
 
         loop {
             // Get the next entry.
@@ -300,6 +314,13 @@ where
             // it comes lexicographically AFTER what we're looking for.
             // In both cases, we have to continue iterating in the subnode of this entry (if there is any).
             let subnode_vcn = iter_try!(entry.subnode_vcn()?);
+            if !visited_subnodes.insert(subnode_vcn) {
+                return Some(Err(NtfsError::DuplicateIndexSubnode {
+                    position: self.index.index_root_position,
+                    vcn: subnode_vcn,
+                }));
+            }
+
             let index_allocation_item = iter_try!(self.index.index_allocation_item.as_ref().ok_or(
                 NtfsError::MissingIndexAllocation {
                     position: self.index.index_root_position,
-- 
2.43.0


From d780e082baae4203c7a6bc731e513b134f36ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 20/28] fix: interpret VCNs of index records smaller than a
 cluster as 512-byte blocks

---
 src/record.rs                             |  2 +-
 src/structured_values/index_allocation.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 915acf6..73ae4cf 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -10,7 +10,7 @@ use memoffset::{offset_of, span_of};
 use crate::error::{NtfsError, Result};
 use crate::types::NtfsPosition;
 
-const NTFS_BLOCK_SIZE: usize = 512;
+pub(crate) const NTFS_BLOCK_SIZE: usize = 512;
 
 #[repr(C, packed)]
 pub(crate) struct RecordHeader {
diff --git a/src/structured_values/index_allocation.rs b/src/structured_values/index_allocation.rs
index a5c72d6..6eb511e 100644
--- a/src/structured_values/index_allocation.rs
+++ b/src/structured_values/index_allocation.rs
@@ -10,6 +10,7 @@ use crate::attribute_value::NtfsAttributeValue;
 use crate::error::{NtfsError, Result};
 use crate::index_record::NtfsIndexRecord;
 use crate::ntfs::Ntfs;
+use crate::record::NTFS_BLOCK_SIZE;
 use crate::structured_values::NtfsStructuredValue;
 use crate::traits::NtfsReadSeek;
 use crate::types::Vcn;
@@ -54,7 +55,14 @@ impl<'n, 'f> NtfsIndexAllocation<'n, 'f> {
     {
         // Seek to the byte offset of the given VCN.
         let mut value = self.value.clone();
-        let offset = vcn.offset(self.ntfs)?;
+        let offset = if index_record_size < self.ntfs.cluster_size() {
+            // Multiple Index Records fit into a single cluster, so VCNs refer to blocks of 512 bytes instead.
+            vcn.value()
+                .checked_mul(NTFS_BLOCK_SIZE as i64)
+                .ok_or(NtfsError::VcnTooBig { vcn })?
+        } else {
+            vcn.offset(self.ntfs)?
+        };
         value.seek(fs, SeekFrom::Current(offset))?;
 
         if value.stream_position() >= value.len() {
-- 
2.43.0


From 8b98bef333f65660a04a52e8a0e70ab04f035b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 21/28] fix: pad the parts of a displayed GUID with zeros

---
 src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guid.rs b/src/guid.rs
index db3e8f7..59c3e9e 100644
--- a/src/guid.rs
+++ b/src/guid.rs
@@ -21,7 +21,7 @@ impl fmt::Display for NtfsGuid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:8X}-{:4X}-{:4X}-{:2X}{:2X}-{:2X}{:2X}{:2X}{:2X}{:2X}{:2X}",
+            "{:08X}-{:04X}-{:04X}-{:02X}{:02X}-{:02X}{:02X}{:02X}{:02X}{:02X}{:02X}",
             self.data1,
             self.data2,
             self.data3,
-- 
2.43.0


From 5cfcd951516ab02a043dcd9cefbd8136a2ac99ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 22/28] fix: round times before the Unix epoch down to whole
 intervals

---
 src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index f86dd87..d41ab66 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -39,7 +39,7 @@ impl TryFrom<OffsetDateTime> for NtfsTime {
 
     fn try_from(dt: OffsetDateTime) -> Result<Self, Self::Error> {
         let nanos_since_unix_epoch = dt.unix_timestamp_nanos();
-        let intervals_since_unix_epoch = nanos_since_unix_epoch / 100;
+        let intervals_since_unix_epoch = nanos_since_unix_epoch.div_euclid(100);
         let intervals_since_windows_epoch =
             intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS as i128;
         let nt_timestamp =
-- 
2.43.0


From 67eb86447113719a4e06faa4cb72ee3c7035a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 23/28] fix: refuse system times that are too far in the future

---
 src/time.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index d41ab66..2ebbf91 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -69,12 +69,21 @@ impl TryFrom<SystemTime> for NtfsTime {
 
     fn try_from(st: SystemTime) -> Result<Self, Self::Error> {
         let duration_since_unix_epoch = st.duration_since(SystemTime::UNIX_EPOCH)?;
-        let intervals_since_unix_epoch = duration_since_unix_epoch.as_secs() * INTERVALS_PER_SECOND
-            + duration_since_unix_epoch.subsec_nanos() as u64 / 100;
-        let intervals_since_windows_epoch =
-            intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS;
-
-        Ok(Self(intervals_since_windows_epoch))
+        let subsec_intervals = duration_since_unix_epoch.subsec_nanos() as u64 / 100;
+        let intervals_since_windows_epoch = duration_since_unix_epoch
+            .as_secs()
+            .checked_mul(INTERVALS_PER_SECOND)
+            .and_then(|intervals| intervals.checked_add(subsec_intervals))
+            .and_then(|intervals| intervals.checked_add(EPOCH_DIFFERENCE_IN_INTERVALS));
+
+        match intervals_since_windows_epoch {
+            Some(intervals_since_windows_epoch) => Ok(Self(intervals_since_windows_epoch)),
+            // The time is too far in the future.
+            // `SystemTimeError` can only be obtained from a failed comparison of two system times.
+            None => SystemTime::UNIX_EPOCH
+                .duration_since(st)
+                .map(|_| unreachable!()),
+        }
     }
 }
 
-- 
2.43.0


From 78e4780ec9c0e10e4c3e4108356c927fe91721d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 24/28] fix: end iterations over attributes, index entries and
 list entries after an error

---
 src/attribute.rs                        |  9 ++++++++-
 src/index_entry.rs                      | 21 ++++++++++++++++-----
 src/structured_values/attribute_list.rs |  9 ++++++++-
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 5fb6d2f..0af68fc 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -840,7 +840,14 @@ impl<'n, 'f> Iterator for NtfsAttributesRaw<'n, 'f> {
         }
 
         // It's a real attribute.
-        let attribute = iter_try!(NtfsAttribute::new(self.file, self.items_range.start, None));
+        let attribute = match NtfsAttribute::new(self.file, self.items_range.start, None) {
+            Ok(attribute) => attribute,
+            Err(e) => {
+                // We don't know where the next attribute starts, so there can't be any further ones.
+                self.items_range.start = self.items_range.end;
+                return Some(Err(e));
+            }
+        };
         self.items_range.start += attribute.attribute_length() as usize;
 
         Some(Ok(attribute))
diff --git a/src/index_entry.rs b/src/index_entry.rs
index b400adf..524f1fe 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -352,10 +352,14 @@ where
         // Get the current entry.
         let start = self.range.start;
         let position = self.position;
-        let entry = iter_try!(NtfsIndexEntry::<E>::new(
-            &self.data[start..self.range.end],
-            position
-        ));
+        let entry = match NtfsIndexEntry::<E>::new(&self.data[start..self.range.end], position) {
+            Ok(entry) => entry,
+            Err(e) => {
+                // We don't know where the next entry starts, so there can't be any further ones.
+                self.range.start = self.range.end;
+                return Some(Err(e));
+            }
+        };
         let end = start + entry.index_entry_length() as usize;
 
         if entry.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) {
@@ -427,7 +431,14 @@ where
         }
 
         // Get the current entry.
-        let entry = iter_try!(NtfsIndexEntry::new(self.slice, self.position));
+        let entry = match NtfsIndexEntry::new(self.slice, self.position) {
+            Ok(entry) => entry,
+            Err(e) => {
+                // We don't know where the next entry starts, so there can't be any further ones.
+                self.slice = &[];
+                return Some(Err(e));
+            }
+        };
 
         if entry.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) {
             // This is the last entry.
diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index b0df073..8a6eb3b 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -124,10 +124,17 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
     where
         T: Read + Seek,
     {
-        match &mut self.attribute_list {
+        let entry = match &mut self.attribute_list {
             NtfsAttributeList::Resident(slice, position) => Self::next_resident(slice, position),
             NtfsAttributeList::NonResident(value) => Self::next_non_resident(fs, value),
+        };
+
+        if let Some(Err(_)) = entry {
+            // We don't know where the next entry starts, so there can't be any further ones.
+            self.attribute_list = NtfsAttributeList::Resident(&[], NtfsPosition::none());
         }
+
+        entry
     }
 
     fn next_non_resident<T>(
-- 
2.43.0


From ac77d295cec6331e28a3e072e7d96d2499bce6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 25/28] fix: end iterations over index records after an error

---
 src/structured_values/index_allocation.rs | 31 +++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/structured_values/index_allocation.rs b/src/structured_values/index_allocation.rs
index 6eb511e..c570444 100644
--- a/src/structured_values/index_allocation.rs
+++ b/src/structured_values/index_allocation.rs
@@ -126,6 +126,7 @@ impl<'n, 'f> NtfsStructuredValue<'n, 'f> for NtfsIndexAllocation<'n, 'f> {
 pub struct NtfsIndexRecords<'n, 'f> {
     index_allocation: NtfsIndexAllocation<'n, 'f>,
     index_record_size: u32,
+    is_finished: bool,
 }
 
 impl<'n, 'f> NtfsIndexRecords<'n, 'f> {
@@ -133,6 +134,7 @@ impl<'n, 'f> NtfsIndexRecords<'n, 'f> {
         Self {
             index_allocation,
             index_record_size,
+            is_finished: false,
         }
     }
 
@@ -150,24 +152,37 @@ impl<'n, 'f> NtfsIndexRecords<'n, 'f> {
     where
         T: Read + Seek,
     {
-        if self.index_allocation.value.stream_position() >= self.index_allocation.value.len() {
+        if self.is_finished
+            || self.index_allocation.value.stream_position() >= self.index_allocation.value.len()
+        {
             return None;
         }
 
+        let record = self.next_record(fs);
+
+        // Don't return the same error forever.
+        self.is_finished = record.is_err();
+
+        Some(record)
+    }
+
+    fn next_record<T>(&mut self, fs: &mut T) -> Result<NtfsIndexRecord>
+    where
+        T: Read + Seek,
+    {
         // Get the current record.
-        let record = iter_try!(NtfsIndexRecord::new(
+        let record = NtfsIndexRecord::new(
             fs,
             self.index_allocation.value.clone(),
-            self.index_record_size
-        ));
+            self.index_record_size,
+        )?;
 
         // Advance our iterator to the next record.
-        iter_try!(self
-            .index_allocation
+        self.index_allocation
             .value
-            .seek(fs, SeekFrom::Current(self.index_record_size as i64)));
+            .seek(fs, SeekFrom::Current(self.index_record_size as i64))?;
 
-        Some(Ok(record))
+        Ok(record)
     }
 }
 
-- 
2.43.0


From 63dde3d7cf4887e95a9b611821ea68e2d6736330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 26/28] fix: end iterations over data runs after an error

---
 src/attribute_value/non_resident.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 7e3ffe9..c666569 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -95,11 +95,15 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
 
     /// Returns whether we got another Data Run.
     fn next_data_run(&mut self) -> Result<bool> {
-        let stream_data_run = match self.stream_data_runs.next() {
+        // Only advance our own iterator after having checked for success.
+        // In case of an error, a subsequent call shall output the same error again.
+        let mut stream_data_runs = self.stream_data_runs.clone();
+        let stream_data_run = match stream_data_runs.next() {
             Some(stream_data_run) => stream_data_run,
             None => return Ok(false),
         };
         let stream_data_run = stream_data_run?;
+        self.stream_data_runs = stream_data_runs;
         self.stream_state.set_stream_data_run(Some(stream_data_run));
 
         Ok(true)
@@ -389,12 +393,8 @@ impl<'n, 'f> NtfsDataRuns<'n, 'f> {
         let integer = u64::from_le_bytes(buf);
         Ok(integer)
     }
-}
-
-impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
-    type Item = Result<NtfsDataRun>;
 
-    fn next(&mut self) -> Option<Result<NtfsDataRun>> {
+    fn next_data_run(&mut self) -> Option<Result<NtfsDataRun>> {
         if self.state.offset >= self.data.len() {
             return None;
         }
@@ -462,8 +462,6 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
             NtfsPosition::none()
         };
 
-        // Only advance after having checked for success.
-        // In case of an error, a subsequent call shall output the same error again.
         let bytes_to_advance = cursor.stream_position().unwrap() as usize;
         self.state.offset += bytes_to_advance;
         self.state.previous_lcn = previous_lcn;
@@ -473,6 +471,21 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
     }
 }
 
+impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
+    type Item = Result<NtfsDataRun>;
+
+    fn next(&mut self) -> Option<Result<NtfsDataRun>> {
+        let data_run = self.next_data_run();
+
+        if let Some(Err(_)) = data_run {
+            // We don't know where the next Data Run starts, so there can't be any further ones.
+            self.state.offset = self.data.len();
+        }
+
+        data_run
+    }
+}
+
 impl<'n, 'f> FusedIterator for NtfsDataRuns<'n, 'f> {}
 
 #[derive(Clone, Debug)]
-- 
2.43.0


From 1f04877df28bc98faf4a499096f169e7e5fbbbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 27/28] fix: deliver the last entry of a resident attribute
 list even if its length exceeds the list

---
 src/structured_values/attribute_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index 8a6eb3b..3d83c99 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -172,8 +172,9 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut cursor, *position));
 
         // Advance our iterator to the next entry.
+        // This ends the iteration if the current entry claims to go beyond the end of the list.
         let bytes_to_advance = entry.list_entry_length() as usize;
-        *slice = slice.get(bytes_to_advance..)?;
+        *slice = slice.get(bytes_to_advance..).unwrap_or_default();
         *position += bytes_to_advance;
         Some(Ok(entry))
     }
-- 
2.43.0


From 2cd02fe15720037e51ad1b993bdd56083737bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 28/28] fix: report the position of the next byte after reading
 a Data Run to its end

---
 .../attribute_list_non_resident.rs            | 11 ++++++++++-
 src/attribute_value/non_resident.rs           | 19 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 86e8afc..4e9b689 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -294,8 +294,17 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
         T: Read + Seek,
     {
         let mut bytes_read = 0usize;
+        let result = self.read_data_runs(fs, buf, &mut bytes_read);
+
+        // `data_position` shall return the position of the next byte to be read.
+        // A possible error is output by the next call.
+        if result.is_ok() && self.stream_state.is_data_run_exhausted() {
+            let _ = self
+                .next_data_run()
+                .and_then(|is_next| Ok(is_next || self.next_attribute(fs)?));
+        }
 
-        match self.read_data_runs(fs, buf, &mut bytes_read) {
+        match result {
             Ok(()) => Ok(bytes_read),
             // We must not lose the bytes we have already read.
             // The next call tries again from the position of the error.
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index c666569..0a69711 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -209,8 +209,15 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
         T: Read + Seek,
     {
         let mut bytes_read = 0usize;
+        let result = self.read_data_runs(fs, buf, &mut bytes_read);
 
-        match self.read_data_runs(fs, buf, &mut bytes_read) {
+        // `data_position` shall return the position of the next byte to be read.
+        // A possible error is output by the next call.
+        if result.is_ok() && self.stream_state.is_data_run_exhausted() {
+            let _ = self.next_data_run();
+        }
+
+        match result {
             Ok(()) => Ok(bytes_read),
             // We must not lose the bytes we have already read.
             // The next call tries again from the position of the error.
@@ -646,6 +653,16 @@ impl StreamState {
         self.initialized_size
     }
 
+    /// Returns whether the current Data Run has been read to its end, but the value continues.
+    pub(crate) fn is_data_run_exhausted(&self) -> bool {
+        match &self.stream_data_run {
+            Some(data_run) => {
+                data_run.remaining_len() == 0 && self.stream_position < self.data_size
+            }
+            None => false,
+        }
+    }
+
     pub(crate) fn optimize_seek(&self, pos: SeekFrom, data_size: u64) -> Result<SeekFrom> {
         let mut pos = self.simplify_seek(pos, data_size)?;
 
-- 
2.43.0

