From 41cd71ef43af36323fd6b4884e7c05e78ced90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 01/16] fix: Report an I/O error instead of panicking when a
 structure cannot be read completely

Derived BinRead implementations wrap I/O errors into a backtrace, which ended in the
unreachable!() of the conversion into NtfsError.
---
 src/error.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 5dfe797..700b7db 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -229,11 +229,17 @@ pub enum NtfsError {
 
 impl From<binrw::error::Error> for NtfsError {
     fn from(error: binrw::error::Error) -> Self {
+        // Errors of derived `BinRead` implementations are wrapped into a backtrace.
+        let error = match error {
+            binrw::error::Error::Backtrace(backtrace) => *backtrace.error,
+            error => error,
+        };
+
         if let binrw::error::Error::Io(io_error) = error {
             Self::Io(io_error)
         } else {
             // We don't use any binrw attributes that result in other errors.
-            unreachable!("Got a binrw error of unexpected type: {:?}", error);
+            Self::Io(binrw::io::ErrorKind::InvalidData.into())
         }
     }
 }
-- 
2.43.0


From 396a673b372b23373d4ef6993eba8d93cf3ce605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 02/16] fix: Return an error for a SystemTime that does not fit
 into an NtfsTime

The calculation overflowed for times more than 58000 years in the future.
---
 src/time.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index f86dd87..7028273 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -69,12 +69,20 @@ impl TryFrom<SystemTime> for NtfsTime {
 
     fn try_from(st: SystemTime) -> Result<Self, Self::Error> {
         let duration_since_unix_epoch = st.duration_since(SystemTime::UNIX_EPOCH)?;
-        let intervals_since_unix_epoch = duration_since_unix_epoch.as_secs() * INTERVALS_PER_SECOND
-            + duration_since_unix_epoch.subsec_nanos() as u64 / 100;
-        let intervals_since_windows_epoch =
-            intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS;
-
-        Ok(Self(intervals_since_windows_epoch))
+        let intervals_since_windows_epoch = duration_since_unix_epoch
+            .as_secs()
+            .checked_mul(INTERVALS_PER_SECOND)
+            .and_then(|intervals| {
+                intervals.checked_add(duration_since_unix_epoch.subsec_nanos() as u64 / 100)
+            })
+            .and_then(|intervals| intervals.checked_add(EPOCH_DIFFERENCE_IN_INTERVALS));
+
+        match intervals_since_windows_epoch {
+            Some(intervals) => Ok(Self(intervals)),
+            // The time is too far in the future.
+            // A `SystemTimeError` can only be created by the standard library.
+            None => Err(SystemTime::UNIX_EPOCH.duration_since(st).unwrap_err()),
+        }
     }
 }
 
-- 
2.43.0


From 80650db0353f6c5424c9630ab8872d4df3e5c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 03/16] fix: Reject attributes that are too short for their
 resident or non-resident header

An attribute at the end of a File Record with a length between 16 and 24 bytes (resident) or
64 bytes (non-resident) caused a panic when accessing the fields of that header.
---
 src/attribute.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4cb34cf..b8276e7 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -432,6 +432,19 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             });
         }
 
+        let specific_header_size = if self.is_resident() {
+            mem::size_of::<NtfsResidentAttributeHeader>()
+        } else {
+            mem::size_of::<NtfsNonResidentAttributeHeader>()
+        };
+        if attribute_length < specific_header_size {
+            return Err(NtfsError::InvalidAttributeLength {
+                position: self.position(),
+                expected: specific_header_size,
+                actual: attribute_length,
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From bea799aeecdce2e00d1ef9aa39cdb4be2e484a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 04/16] fix: Reject Index Entries with a length smaller than
 their header

Such entries caused panics when accessing their fields and let the iterators return
an entry of zero length forever.
---
 src/index_entry.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 333d1a6..5a46999 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -285,6 +285,14 @@ where
             });
         }
 
+        if (self.index_entry_length() as usize) < INDEX_ENTRY_HEADER_SIZE {
+            return Err(NtfsError::InvalidIndexEntrySize {
+                position: self.position,
+                expected: INDEX_ENTRY_HEADER_SIZE as u16,
+                actual: self.index_entry_length(),
+            });
+        }
+
         if self.index_entry_length() as usize > self.slice.len() {
             return Err(NtfsError::InvalidIndexEntrySize {
                 position: self.position,
-- 
2.43.0


From 1099850e55f25a06fc342158dbc054f7d3190329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 05/16] fix: Reject Index Roots whose entries start behind the
 used size

---
 src/structured_values/index_root.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 7a7b6f3..a8b84b9 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -153,6 +153,14 @@ impl<'f> NtfsIndexRoot<'f> {
             });
         }
 
+        if entries_range.start > entries_range.end {
+            return Err(NtfsError::InvalidIndexRootEntriesOffset {
+                position: self.position,
+                expected: entries_range.start,
+                actual: entries_range.end,
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From b8b22b75b7558bfe0fd0db4247a7eb3f5c565dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 06/16] fix: Do not overflow when calculating the start of the
 Update Sequence Array

---
 src/record.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 08b5295..915acf6 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -39,7 +39,7 @@ impl Record {
         let update_sequence_number = self.update_sequence_number()?;
         let array_count = self.update_sequence_array_count()?;
 
-        let mut array_position = self.update_sequence_array_start() as usize;
+        let mut array_position = self.update_sequence_array_start();
         let array_end =
             self.update_sequence_offset() as usize + self.update_sequence_size() as usize;
         let sectors_end = array_count as usize * NTFS_BLOCK_SIZE;
@@ -119,9 +119,9 @@ impl Record {
             })
     }
 
-    fn update_sequence_array_start(&self) -> u16 {
+    fn update_sequence_array_start(&self) -> usize {
         // The Update Sequence Number (USN) comes first and the array begins right after that.
-        self.update_sequence_offset() + mem::size_of::<u16>() as u16
+        self.update_sequence_offset() as usize + mem::size_of::<u16>()
     }
 
     fn update_sequence_number(&self) -> Result<[u8; 2]> {
-- 
2.43.0


From 2b81655c6d4997ffe2a6f17cf7b081247fafc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 07/16] fix: Validate the size of Index Records before
 allocating and accessing them

The size comes directly from the Index Root. A small one caused panics when accessing the
headers, and a large one caused an allocation of up to 4 GiB.
---
 src/error.rs        |  7 +++++++
 src/index_record.rs | 16 ++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 700b7db..456163e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -96,6 +96,13 @@ pub enum NtfsError {
         expected: u16,
         actual: u16,
     },
+    /// The NTFS Index Record at byte position {position:#x} has an unsupported size of {actual} bytes (supported are {min} to {max} bytes)
+    InvalidIndexRecordSize {
+        position: NtfsPosition,
+        min: u32,
+        max: u32,
+        actual: u32,
+    },
     /// The NTFS index root at byte position {position:#x} indicates that its entries start at offset {expected}, but the index root only has a size of {actual} bytes
     InvalidIndexRootEntriesOffset {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index 0ca2216..42a3430 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -37,6 +37,13 @@ pub(crate) struct IndexNodeHeader {
     pub(crate) flags: u8,
 }
 
+/// An Index Record must at least be able to store all headers.
+const MIN_INDEX_RECORD_SIZE: u32 = INDEX_RECORD_HEADER_SIZE + INDEX_NODE_HEADER_SIZE as u32;
+
+/// Every 512-byte block of a record needs an element in the Update Sequence Array, and the number
+/// of these elements is stored in 16 bits.
+const MAX_INDEX_RECORD_SIZE: u32 = u16::MAX as u32 * 512;
+
 /// A single NTFS Index Record.
 ///
 /// These records are denoted via an `INDX` signature on the filesystem.
@@ -66,6 +73,15 @@ impl NtfsIndexRecord {
     {
         let data_position = value.data_position();
 
+        if !(MIN_INDEX_RECORD_SIZE..=MAX_INDEX_RECORD_SIZE).contains(&index_record_size) {
+            return Err(NtfsError::InvalidIndexRecordSize {
+                position: data_position,
+                min: MIN_INDEX_RECORD_SIZE,
+                max: MAX_INDEX_RECORD_SIZE,
+                actual: index_record_size,
+            });
+        }
+
         let mut data = vec![0; index_record_size as usize];
         value.read_exact(fs, &mut data)?;
 
-- 
2.43.0


From c3fdbfdb9c29d68c252efe12711f69c0432d7185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 08/16] fix: Reject Index Records with overflowing sizes or
 entries behind the used size

Both caused panics when accessing the entries of such an Index Record.
---
 src/error.rs        |  6 ++++++
 src/index_record.rs | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 456163e..30e86b6 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -96,6 +96,12 @@ pub enum NtfsError {
         expected: u16,
         actual: u16,
     },
+    /// The NTFS Index Record at byte position {position:#x} indicates that its entries start at offset {expected}, but it only uses {actual} bytes
+    InvalidIndexRecordEntriesOffset {
+        position: NtfsPosition,
+        expected: u32,
+        actual: u32,
+    },
     /// The NTFS Index Record at byte position {position:#x} has an unsupported size of {actual} bytes (supported are {min} to {max} bytes)
     InvalidIndexRecordSize {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index 42a3430..77ce12e 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -169,7 +169,8 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size = INDEX_RECORD_HEADER_SIZE + self.index_allocated_size();
+        let total_allocated_size =
+            INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
@@ -180,7 +181,7 @@ impl NtfsIndexRecord {
 
         // Furthermore, the total used size for this Index Record must not be
         // larger than the total allocated size.
-        let total_data_size = INDEX_RECORD_HEADER_SIZE + self.index_data_size();
+        let total_data_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size());
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
@@ -189,6 +190,15 @@ impl NtfsIndexRecord {
             });
         }
 
+        // The entries must start within the used size.
+        if self.index_entries_offset() > self.index_data_size() {
+            return Err(NtfsError::InvalidIndexRecordEntriesOffset {
+                position: self.record.position(),
+                expected: self.index_entries_offset(),
+                actual: self.index_data_size(),
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From f1c346aec00624b15262d73ec65d21a8946e8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 09/16] fix: Do not change the state of the Data Runs iterator
 when a position is too big

A subsequent call added the VCN once more and returned a wrong Data Run.
---
 src/attribute_value/non_resident.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index bdc7f56..8d350c8 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -411,8 +411,12 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                     previous_lcn: self.state.previous_lcn,
                 }
             ));
+            let position = iter_try!(new_lcn.position(self.ntfs));
+
+            // Only remember the LCN after having checked for success.
+            // In case of an error, a subsequent call shall output the same error again.
             self.state.previous_lcn = new_lcn;
-            iter_try!(new_lcn.position(self.ntfs))
+            position
         } else {
             // This is a sparse Data Run.
             NtfsPosition::none()
-- 
2.43.0


From a5e47f5ad13a5422a550f385afbf193642d1b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 10/16] fix: Reject Data Runs that exceed the range of valid
 byte positions

Reading them caused an integer overflow.
---
 src/attribute_value/non_resident.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 8d350c8..0be49f9 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -413,6 +413,16 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
             ));
             let position = iter_try!(new_lcn.position(self.ntfs));
 
+            // Every byte of the Data Run must have a valid position.
+            if let Some(start) = position.value() {
+                iter_try!(start.get().checked_add(allocated_size).ok_or(
+                    NtfsError::InvalidClusterCountInDataRunHeader {
+                        position: NtfsDataRuns::position(self),
+                        cluster_count,
+                    }
+                ));
+            }
+
             // Only remember the LCN after having checked for success.
             // In case of an error, a subsequent call shall output the same error again.
             self.state.previous_lcn = new_lcn;
-- 
2.43.0


From 43c9d2a00572e116439a46d5acb66d8733333f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 11/16] fix: Do not truncate data sizes to 32 bits when reading
 on 32-bit platforms

Reading stopped early or returned too few bytes when the remaining size was a multiple of
or slightly more than 4 GiB.
---
 src/attribute_value/non_resident.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 0be49f9..c4df1d9 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -507,7 +507,7 @@ impl NtfsReadSeek for NtfsDataRun {
             return Ok(0);
         }
 
-        let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
+        let bytes_to_read = u64::min(buf.len() as u64, self.remaining_len()) as usize;
         let work_slice = &mut buf[..bytes_to_read];
 
         let bytes_read = if let Some(position) = self.position.value() {
@@ -664,7 +664,7 @@ impl StreamState {
         // Read up to the buffer length or up to the (used) data size, whatever comes first.
         let start = *bytes_read;
         let remaining_buf_len = buf.len() - start;
-        let end = start + usize::min(remaining_buf_len, remaining_data_size as usize);
+        let end = start + u64::min(remaining_buf_len as u64, remaining_data_size) as usize;
 
         // Perform the actual read.
         let bytes_read_in_data_run = data_run.read(fs, &mut buf[start..end])?;
-- 
2.43.0


From f28757f48d8e5100bd5d52bb4c88a9128eca494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 12/16] fix: Reject a resident attribute as a connected
 attribute of a non-resident one

---
 src/attribute.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index b8276e7..dd23b1b 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -292,7 +292,13 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
     }
 
     pub(crate) fn non_resident_value_data_and_position(&self) -> Result<(&'f [u8], NtfsPosition)> {
-        debug_assert!(!self.is_resident());
+        // An Attribute List may connect a non-resident attribute to a resident one on a corrupted filesystem.
+        if self.is_resident() {
+            return Err(NtfsError::UnexpectedResidentAttribute {
+                position: self.position(),
+            });
+        }
+
         let start = self.offset + self.non_resident_value_data_runs_offset() as usize;
         let end = self.offset + self.attribute_length() as usize;
         let position = self.file.position() + start;
-- 
2.43.0


From 0ff54a2067a5fb10b28bc98b6f3dc05a3b426cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 13/16] fix: reject times shortly before the NTFS epoch instead
 of rounding them up to it

---
 src/time.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index 7028273..f38296d 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -39,7 +39,8 @@ impl TryFrom<OffsetDateTime> for NtfsTime {
 
     fn try_from(dt: OffsetDateTime) -> Result<Self, Self::Error> {
         let nanos_since_unix_epoch = dt.unix_timestamp_nanos();
-        let intervals_since_unix_epoch = nanos_since_unix_epoch / 100;
+        // Round towards the past, so that a time before the Windows/NTFS epoch is never rounded up to it.
+        let intervals_since_unix_epoch = nanos_since_unix_epoch.div_euclid(100);
         let intervals_since_windows_epoch =
             intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS as i128;
         let nt_timestamp =
-- 
2.43.0


From 7114adf85732daa73aaf4fcbf8d9dc3c1d335f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:09 +0000
Subject: [PATCH 14/16] fix: pad GUIDs with leading zeros instead of spaces
 when displaying them

---
 src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guid.rs b/src/guid.rs
index db3e8f7..59c3e9e 100644
--- a/src/guid.rs
+++ b/src/guid.rs
@@ -21,7 +21,7 @@ impl fmt::Display for NtfsGuid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:8X}-{:4X}-{:4X}-{:2X}{:2X}-{:2X}{:2X}{:2X}{:2X}{:2X}{:2X}",
+            "{:08X}-{:04X}-{:04X}-{:02X}{:02X}-{:02X}{:02X}{:02X}{:02X}{:02X}{:02X}",
             self.data1,
             self.data2,
             self.data3,
-- 
2.43.0


From dc9ef5fd154c08d9edd9bb438040aa21a33e3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:09 +0000
Subject: [PATCH 15/16] fix: do not overflow on 32-bit platforms when
 calculating the range of index root entries

---
 src/structured_values/index_root.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index a8b84b9..df23064 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -80,8 +80,9 @@ impl<'f> NtfsIndexRoot<'f> {
     }
 
     fn entries_range_and_position(&self) -> (Range<usize>, NtfsPosition) {
-        let start = INDEX_ROOT_HEADER_SIZE + self.index_entries_offset() as usize;
-        let end = INDEX_ROOT_HEADER_SIZE + self.index_data_size() as usize;
+        // These additions may only overflow on 32-bit platforms, and an overflowing range is never in bounds.
+        let start = INDEX_ROOT_HEADER_SIZE.saturating_add(self.index_entries_offset() as usize);
+        let end = INDEX_ROOT_HEADER_SIZE.saturating_add(self.index_data_size() as usize);
         let position = self.position + start;
 
         (start..end, position)
-- 
2.43.0


From ce81062034bc2aa4eb0c99cb6cc6219792f24be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 16/16] fix: report an attribute list entry that exceeds the
 list instead of dropping it

---
 src/structured_values/attribute_list.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index e9c7e05..6af98c6 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -166,7 +166,14 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
 
         // Advance our iterator to the next entry.
         let bytes_to_advance = entry.list_entry_length() as usize;
-        *slice = slice.get(bytes_to_advance..)?;
+        *slice = iter_try!(slice.get(bytes_to_advance..).ok_or(
+            NtfsError::InvalidStructuredValueSize {
+                position: *position,
+                ty: NtfsAttributeType::AttributeList,
+                expected: bytes_to_advance as u64,
+                actual: slice.len() as u64,
+            }
+        ));
         *position += bytes_to_advance;
         Some(Ok(entry))
     }
-- 
2.43.0

