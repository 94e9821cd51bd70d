From e3c19dbee5eedff51740a26e3dd34da4ca05d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 01/32] fix: keep delta-of-delta bit classes inside their
 signed range

The upper bound was inclusive (2^(n-1) does not fit a signed n-bit field, so it
decoded as a negative delta) and was computed in i32, which overflowed for the
32 bit class.
---
 src/compaction/gorilla.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 90cbc1b..94aa93a 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -393,7 +393,8 @@ fn vec_with_len(len: usize) -> Vec<u8> {
 
 // Find if the timestamp's meaningful in the `nbit` range.
 fn in_bit_range(t: i64, nbits: u8) -> bool {
-    return -((1 << (nbits - 1)) - 1) as i64 <= t && t <= 1 << (nbits - 1) as i64;
+    let limit = 1i64 << (nbits - 1);
+    return -limit < t && t < limit;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 12816399e795ec89f6c729878f74bba740640580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 02/32] fix: gorilla values with 32+ leading zeros or 64
 significant bits

Leading zeros are stored in 5 bits and the significant bit count in 6, so a
leading count above 31 and a bit count of 64 were decoded as something else.
---
 src/compaction/gorilla.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 94aa93a..fde45ca 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -101,7 +101,8 @@ impl GorillaCompactor {
             } else {
                 // single one bit
                 self.bstream.write_one();
-                let leading: u8 = xord.leading_zeros() as u8;
+                // only 5 bits are used to store the leading zeros, more of them go into the payload
+                let leading: u8 = std::cmp::min(xord.leading_zeros(), 31) as u8;
                 let trailing: u8 = xord.trailing_zeros() as u8;
                 if self.len > 1 && leading >= self.leading && trailing >= self.tailing {
                     self.bstream.write_zero(); // write 10
@@ -208,7 +209,11 @@ impl GorillaDecompactor {
             if l != 6 {
                 return None;
             }
-            let sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            let mut sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            if sig_len == 0 {
+                // there is always at least one significant bit, 64 is stored as 0 in 6 bits
+                sig_len = value_size as u8;
+            }
 
             let tailing = value_size as u8 - sig_len - leading;
 
-- 
2.43.0


From d5deb8e7103c6358a38affbbd700a6ce634f89eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 03/32] fix: available bits after appending one bit stream to
 another

When the free bits of both streams add up to 8 an empty byte was pushed with 8
available bits (a later append then overflows its shift), and when they add up
to more than 8 the difference was used instead of the sum minus 8.
---
 src/compaction/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index b3b3fcd..7e924f3 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -265,14 +265,16 @@ impl Bstream {
                     first |= second;
                     self.data.push(first);
                 }
-                if self.remaining <= (8 - bstream.remaining) {
+                if self.remaining < (8 - bstream.remaining) {
                     // in this case, the last part in bstream is not empty, we need to add it
                     // if there is only one element in bstream.data, we already added it.
                     self.data
                         .push(bstream.data.last().unwrap().clone() << self.remaining);
                     self.remaining = bstream.remaining + self.remaining;
                 } else {
-                    self.remaining = (bstream.remaining as i8 - self.remaining as i8).abs() as u8;
+                    // all bits of the last byte are already in, what's left is the available bits
+                    // in the last byte we pushed.
+                    self.remaining = bstream.remaining + self.remaining - 8;
                 }
             }
         } else {
-- 
2.43.0


From 5d43074ee1624412db1a760b75a3da61ff21660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 04/32] fix: uncompressed compactor loses its input and cannot
 decode two points

compact_vec ignored its data argument, and decompact cut the payload into
pieces of 72 bytes instead of 16.
---
 src/compaction/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index 7e924f3..a6045b7 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -100,10 +100,11 @@ impl Compactor {
                 vec.push(CompactType::Gorilla as u8);
                 vec
             }
-            &mut Compactor::None(ref _v) => {
-                let mut vec = _v.clone();
-                vec.push(CompactType::None as u8);
-                vec
+            &mut Compactor::None(_) => {
+                for tp in data {
+                    self.compact(&tp);
+                }
+                self.get_bytes_vec()
             }
         }
     }
@@ -165,7 +166,7 @@ impl Decompactor {
             &mut Decompactor::Gorilla(ref decompactor) => Ok(Vec::from_iter(decompactor.clone())),
             &mut Decompactor::None(ref _v) => {
                 let timepoint_size =
-                    std::mem::size_of::<Timestamp>() * 8 + std::mem::size_of::<Value>();
+                    std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
                 let mut res = vec![];
                 for _b in _v.chunks(timepoint_size) {
                     let (timestamp_bytes, value_bytes) =
-- 
2.43.0


From 370efabb6c5d440e30acfafc95d7af463389f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 05/32] fix: label sets of different length are not equal

A prefix compared equal to a longer label set, and comparing with a shorter one
panicked.
---
 src/common/label.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/label.rs b/src/common/label.rs
index 47151f0..128c578 100644
--- a/src/common/label.rs
+++ b/src/common/label.rs
@@ -98,6 +98,9 @@ impl Eq for Labels {}
 
 impl PartialEq for Labels {
     fn eq(&self, other: &Self) -> bool {
+        if self.len() != other.len() {
+            return false;
+        }
         for i in 0..self.len() {
             if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
                 return false;
-- 
2.43.0


From 8e250e09f6d9b621c3a08269112e6b33c8a22582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 06/32] fix: time points with different values are not equal

One of the two differences is always below the margin, so the value was never
compared.
---
 src/common/time_point.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/time_point.rs b/src/common/time_point.rs
index 2150cd9..5a5d7f0 100644
--- a/src/common/time_point.rs
+++ b/src/common/time_point.rs
@@ -22,7 +22,8 @@ impl Eq for TimePoint {}
 impl PartialEq for TimePoint {
     fn eq(&self, other: &Self) -> bool {
         self.timestamp.eq(&other.timestamp)
-            && (self.value - other.value < F64_MARGIN || other.value - self.value < F64_MARGIN)
+            && self.value - other.value < F64_MARGIN
+            && other.value - self.value < F64_MARGIN
     }
 }
 
-- 
2.43.0


From 349e01faa78d5dbaa0ec00351c8d941b8fe96d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 07/32] fix: reading a time range that falls before or between
 time points

The right index underflowed when the first point is after the range, and an
inverted slice range panicked.
---
 src/storage/common.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/storage/common.rs b/src/storage/common.rs
index 1fbdead..5dfea53 100644
--- a/src/storage/common.rs
+++ b/src/storage/common.rs
@@ -40,10 +40,14 @@ pub trait Storage: Sized + HasTypeName {
             Err(idx) => idx,
         };
         let right = match series.binary_search(&TimePoint::new(end_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx - 1,
+            Ok(idx) => idx + 1,
+            Err(idx) => idx,
         };
-        let res = &series[left..=right];
+        if left >= right {
+            // no time point in between
+            return Ok(Vec::new());
+        }
+        let res = &series[left..right];
         Ok(Vec::from(res))
     }
 }
-- 
2.43.0


From ad0f4fd227ccd71cc2d35bb744131554e027e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 08/32] fix: report a failed write to an existing series

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 5bfa9e9..c3f3efb 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -130,7 +130,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         } else {
             //only one, skip the choose process
             self.storage
-                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value);
+                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value)?;
         }
 
         Ok(())
-- 
2.43.0


From 36de2349b04da935f3b9f16ce01617cf7b8bc4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 09/32] fix: accept time points on the boundary of a chunk

The batch write of the database and all queries treat both ends as inside.
---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index c3f3efb..501eaf0 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -171,7 +171,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
     }
 
     fn is_in_range(&self, timestamp: &Timestamp) -> bool {
-        return self.start_time < *timestamp && self.end_time > *timestamp;
+        return self.start_time <= *timestamp && self.end_time >= *timestamp;
     }
 }
 
-- 
2.43.0


From 061a827064b8a108391bba63ef92c17eb138937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 10/32] fix: a series without points in range must not fail the
 whole query

---
 src/chunk/chunk.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 501eaf0..038349d 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -152,7 +152,11 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
 
         let mut res = Vec::new();
         for (id, metadata) in candidates {
-            let data = self.storage.read_time_series(id, start_time, end_time)?;
+            let data = match self.storage.read_time_series(id, start_time, end_time) {
+                // this series has nothing in range, others may
+                Err(OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => continue,
+                res => res?,
+            };
             if data.len() == 0 {
                 continue; //skip empty series
             }
-- 
2.43.0


From 18473bacc02aab447218f6e1c4a347c03c887220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 11/32] fix: report failed sled writes

---
 src/indexer/sled_indexer.rs | 8 ++++----
 src/storage/sled_storage.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 0beeccc..afa74f8 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -117,13 +117,13 @@ impl Indexer for SledIndexer {
                 "Duplicate label => id pair found in storage".to_string(),
             ));
         }
-        tree.set(label_key, format!("{}", time_series_id).into_bytes());
+        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
 
         // from time series to label set
         tree.set(
             KvIndexerProcessor::encode_time_series_id(time_series_id),
             KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-        );
+        )?;
 
         // from label to time series ids
         let keys: Vec<String> = labels
@@ -139,8 +139,8 @@ impl Indexer for SledIndexer {
                     format!("{},{}", val_str, time_series_id)
                 }
             };
-            tree.set(&key, val.into_bytes());
-            tree.flush();
+            tree.set(&key, val.into_bytes())?;
+            tree.flush()?;
         }
 
         Ok(())
diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index d03587a..2f7fe65 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -70,7 +70,7 @@ impl Storage for SledStorage {
         if let Some(current_val) = tree.get(key_name.clone())? {
             let mut current_val_bytes = current_val.to_vec();
             current_val_bytes.append(&mut value);
-            tree.set(key_name.clone(), current_val_bytes);
+            tree.set(key_name.clone(), current_val_bytes)?;
         } else {
             tree.set(key_name.clone(), value)?;
         }
-- 
2.43.0


From f34031faf87fcebe905994320daa6494d3a94141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 12/32] fix: a label that no series has matches nothing

Labels without index entry (and, for TiKV, failed reads) were left out of the
intersection, so series without that label were returned.
---
 src/indexer/sled_indexer.rs |  6 ++++--
 src/indexer/tikv_indexer.rs | 29 +++++++++++++----------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index afa74f8..3b312c2 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -87,8 +87,10 @@ impl Indexer for SledIndexer {
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         let mut ts_vec = Vec::new();
         for label in labels.vec() {
-            if let Some(ts) = self.get_id(label)? {
-                ts_vec.push(ts as Vec<TimeSeriesId>);
+            match self.get_id(label)? {
+                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),
+                // no series has this label
+                None => return Ok(Vec::new()),
             }
         }
 
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c9b0449..ec8a212 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -69,22 +69,19 @@ impl Indexer for TiKvIndexer {
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         // Get raw value from tikv
-        let query_res = labels
-            .vec()
-            .into_iter()
-            .map(|label| {
-                self.add_indexer_id(
-                    KvIndexerProcessor::encode_label(label)
-                        .into_bytes()
-                        .as_mut(),
-                )
-            })
-            .map(|key| self.client.get(key)) //todo: error handling
-            .filter(|res| res.is_ok())
-            .map(|res| res.unwrap())
-            .filter(|res| res.is_some())
-            .map(|res| res.unwrap())
-            .collect::<Vec<Vec<u8>>>();
+        let mut query_res: Vec<Vec<u8>> = vec![];
+        for label in labels.vec() {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_label(label)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            match self.client.get(key)? {
+                Some(val) => query_res.push(val),
+                // no series has this label
+                None => return Ok(vec![]),
+            }
+        }
         // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
         for val in query_res {
-- 
2.43.0


From 661590b71b8558b6f9844a3905cfe85f3ec099c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 13/32] fix: report failed TiKV reads and writes while creating
 an index

The series was acknowledged with part of its index missing.
---
 src/indexer/tikv_indexer.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index ec8a212..705bdda 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -119,7 +119,7 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-            );
+            )?;
         }
 
         {
@@ -128,34 +128,28 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 Vec::from(&time_series_id.to_be_bytes()[..]),
-            );
+            )?;
         }
 
         {
             // Create Reverse Search
-            labels
-                .vec()
-                .iter()
-                .map(|label| {
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_label(label)
-                            .into_bytes()
-                            .as_mut(),
-                    )
-                })
-                .map(|key| (key.clone(), self.client.get(key.to_vec())))
-                .filter(|(_key, res)| res.is_ok())
-                .map(|(key, res)| match res.unwrap() {
+            for label in labels.vec() {
+                let key = self.add_indexer_id(
+                    KvIndexerProcessor::encode_label(label)
+                        .into_bytes()
+                        .as_mut(),
+                );
+                match self.client.get(key.clone())? {
                     Some(mut val) => {
                         val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
-                        self.client.set(key.clone(), val);
+                        self.client.set(key, val)?;
                     }
                     None => {
                         self.client
-                            .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..]));
+                            .set(key, Vec::from(&time_series_id.to_be_bytes()[..]))?;
                     }
-                })
-                .collect::<Vec<()>>();
+                }
+            }
         }
 
         Ok(())
-- 
2.43.0


From aa6f6a1cbe8a0b1d2fc73c3609373befe11d758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 14/32] fix: report failed TiKV reads while searching by label

A series whose metadata could not be read was left out of the result, which was
returned as complete.
---
 src/indexer/tikv_indexer.rs | 46 +++++++++++--------------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 705bdda..f104fac 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -32,39 +32,19 @@ impl Indexer for TiKvIndexer {
     ) -> Result<Vec<(TimeSeriesId, Labels)>> {
         let ids = self.get_series_id_contains_labels(labels.clone())?;
 
-        //todo: refactor this.
-        Ok(ids
-            .iter()
-            // Convert into keys
-            .map(|id| {
-                (
-                    *id,
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_time_series_id(*id)
-                            .into_bytes()
-                            .as_mut(),
-                    ),
-                )
-            })
-            // Get raw value from db store
-            .map(|(id, key)| (id, self.client.get(key)))
-            // Choose the valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap the valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            // Choose the one with value
-            .filter(|(_id, option)| option.is_some())
-            // Unwrap value
-            .map(|(id, option)| (id, option.unwrap()))
-            // Convert Vec<u8> into String
-            .map(|(id, raw)| (id, String::from_utf8_lossy(raw.as_slice()).to_string()))
-            // Convert String into labels
-            .map(|(id, raw)| (id, KvIndexerProcessor::decode_labels(raw, false)))
-            // Choose valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            .collect())
+        let mut res = Vec::new();
+        for id in ids {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_time_series_id(id)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            if let Some(raw) = self.client.get(key)? {
+                let labels = KvIndexerProcessor::decode_labels(String::from_utf8(raw)?, false)?;
+                res.push((id, labels))
+            }
+        }
+        Ok(res)
     }
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
-- 
2.43.0


From 2c682790212d567d5622761dd55fa8bc008303cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 15/32] fix: label values with a comma

The comma also separates labels, so such values came back as something else (or
not at all), and different label sets shared one key.
---
 src/indexer/sled_indexer.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 3b312c2..f58628c 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -257,7 +257,15 @@ pub(crate) struct KvIndexerProcessor {}
 
 impl KvIndexerProcessor {
     fn _encode_label(label: &Label) -> String {
-        format!("{}={}", label.key(), label.value())
+        // labels are separated by comma, so the ones in value need to be escaped.
+        let mut value = String::new();
+        for c in label.value().chars() {
+            if c == ',' || c == '\\' {
+                value.push('\\');
+            }
+            value.push(c);
+        }
+        format!("{}={}", label.key(), value)
     }
 
     /// encode single label as key
@@ -299,7 +307,23 @@ impl KvIndexerProcessor {
         if is_key {
             _labels_str.replace_range(..LABEL_PREFIX.len(), "");
         }
-        let pairs: Vec<&str> = _labels_str.split(",").collect();
+        let mut pairs: Vec<String> = Vec::new();
+        let mut current = String::new();
+        let mut escaped = false;
+        for c in _labels_str.chars() {
+            if escaped {
+                current.push(c);
+                escaped = false;
+            } else if c == '\\' {
+                escaped = true;
+            } else if c == ',' {
+                pairs.push(current);
+                current = String::new();
+            } else {
+                current.push(c);
+            }
+        }
+        pairs.push(current);
         let mut res = Vec::new();
         for pair in pairs {
             // Per Prometheus doc https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels
-- 
2.43.0


From 43b4a85d9c57d172e8115d9b5c6f4e3abc1e6315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 16/32] fix: label names starting with R share keys with the
 reverse index

The label set {Rjob="a"} and the reverse index of {job="a"} were both stored
under "LRjob=a".
---
 src/indexer/sled_indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index f58628c..cbfb678 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -293,6 +293,10 @@ impl KvIndexerProcessor {
         }
         res.pop(); //remove last ,
         if with_prefix {
+            if res.starts_with('R') {
+                // otherwise it's the same as a key with LABEL_REVERSE_PREFIX
+                res.insert(0, '\\');
+            }
             res.insert_str(0, LABEL_PREFIX);
         }
         res
-- 
2.43.0


From 903b83a73d1856a8164025b028c075438dd9ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 17/32] fix: TiKV component identifiers

The halves of the stored mapping were mixed up, so one component overwrote the
identifier of the other, the storage of every chunk used the empty identifier,
and nothing was found again after a restart.
---
 src/backend/tikv.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 3771225..43fb05f 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -20,16 +20,17 @@ pub trait TiKvRawBackend: Send + Sync {
             id
         });
         if is_indexer {
-            let mut indexer_id = Uuid::new_v4().as_bytes().to_vec();
-            indexer_id.append(value[..16].to_vec().as_mut());
-            self.set(chunk_identifier.clone(), indexer_id.clone());
+            let indexer_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = indexer_id.clone();
+            res.append(value[16..].to_vec().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(indexer_id)
         } else {
-            let mut storage_id = Uuid::new_v4().as_bytes().to_vec();
+            let storage_id = Uuid::new_v4().as_bytes().to_vec();
             let mut res = vec![];
-            res.append(value[16..].to_vec().as_mut());
-            res.append(storage_id.as_mut());
-            self.set(chunk_identifier.clone(), res);
+            res.append(value[..16].to_vec().as_mut());
+            res.append(storage_id.clone().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(storage_id)
         }
     }
-- 
2.43.0


From b46e2786b7a4f89de67985afca5e2fd76c5ba8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 18/32] fix: encoded length of a write ahead log entry

The two bytes of the length field were not counted.
---
 src/wal/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 5f3a12f..2467bc0 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -62,7 +62,7 @@ impl Entry {
     }
 
     pub fn len(&self) -> usize {
-        8 + 1 + self.content.len() + 4 // seq_id + entry_type + content + crc32
+        8 + 1 + 2 + self.content.len() + 4 // seq_id + entry_type + len + content + crc32
     }
 
     pub fn get_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 4867e9e18ad24dcdaaf073059505f4cb3b1c0fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 19/32] fix: write ahead log segments lose cached entries

Cached entries were written without their header and checksum, padded with empty
ones, dropped when time based or still cached on close, and the first entry of a
count based segment panicked. Failed and short writes were ignored.
---
 src/wal/segment.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index dd31035..c0b7831 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -21,8 +21,9 @@ pub struct Segment<W: Write> {
 
 impl<W: Write> Write for Segment<W> {
     fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
+        self.writer.write_all(bytes)?;
         self.crc.write(bytes); // update crc
-        self.writer.write(bytes)
+        Ok(bytes.len())
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
@@ -35,12 +36,11 @@ impl<W: Write> Write for Segment<W> {
             } => {
                 *idx = 0;
                 let _cache = cache.clone();
-                *cache = vec![Entry::default(); *size];
+                *cache = Vec::with_capacity(*size);
                 _cache
             }
-            &mut FlushCache::TimeBased { .. } => {
-                // fixme and above
-                vec![]
+            &mut FlushCache::TimeBased { ref mut cache, .. } => {
+                cache.lock().unwrap().drain(..).collect()
             }
             &mut FlushCache::SizeBased {
                 ref limit,
@@ -56,7 +56,7 @@ impl<W: Write> Write for Segment<W> {
 
         if remaining.len() > 0 {
             for entry in remaining {
-                self.write(entry.content.as_slice())?;
+                self.write(entry.get_bytes().as_slice())?;
             }
         }
 
@@ -70,8 +70,8 @@ impl<W> Segment<W>
 {
     pub fn new(flush_policy: FlushPolicy, mut writer: W) -> Result<Segment<W>> {
         // write magic number. Note that we don't include this when compute CRC
-        writer.write(&WAL_MAGIC_NUMBER.to_be_bytes()[..]);
-        writer.flush();
+        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;
+        writer.flush()?;
 
         Ok(Segment {
             writer,
@@ -101,8 +101,10 @@ impl<W> Segment<W>
 
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
+        self.flush()?; // entries may still be cached
         let _crc = self.crc.finish();
         self.write(&_crc.to_be_bytes())?; // append crc result
+        self.writer.flush()?;
         Ok(())
     }
 
@@ -110,17 +112,17 @@ impl<W> Segment<W>
         match &mut self.cache {
             &mut FlushCache::None => {
                 self.write(entry.get_bytes().as_slice())?;
-                self.flush();
+                self.flush()?;
             }
             &mut FlushCache::NumBased {
                 limit: ref size,
                 ref mut idx,
                 ref mut cache,
             } => {
-                cache[*idx] = entry;
+                cache.push(entry);
                 *idx += 1;
-                if idx == size {
-                    self.flush();
+                if *idx >= *size {
+                    self.flush()?;
                 }
             }
             &mut FlushCache::TimeBased { ref mut cache, .. } => {
@@ -134,7 +136,7 @@ impl<W> Segment<W>
                 let entry_len = entry.len();
                 cache.push(entry);
                 if *size + entry_len >= *limit {
-                    self.flush();
+                    self.flush()?;
                 } else {
                     *size += entry_len;
                 }
-- 
2.43.0


From 0658bc007c10cbfba27da520f05fb42bec592bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 20/32] fix: a request that is not snappy encoded stops the
 server

---
 src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 45f924a..bb9b60e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -65,9 +65,20 @@ where
     fn _process(server: MonolithServer<S, I>, mut request: Request) {
         //Convert request content to protobuf coded format
         let mut content = Vec::new();
-        request.as_reader().read_to_end(&mut content).unwrap();
+        if let Err(err) = request.as_reader().read_to_end(&mut content) {
+            error!("Cannot read request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
         let mut decoder = snap::raw::Decoder::new();
-        let _content = decoder.decompress_vec(content.as_slice()).unwrap();
+        let _content = match decoder.decompress_vec(content.as_slice()) {
+            Ok(_content) => _content,
+            Err(err) => {
+                error!("Cannot decompress request, {}", err);
+                request.respond(Response::empty(400));
+                return;
+            }
+        };
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
 
-- 
2.43.0


From 83453bf3dd59385c81bad1de03b548332dc5be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 21/32] fix: a write request that cannot be decoded is not
 acknowledged

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index bb9b60e..df698f3 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -124,7 +124,11 @@ where
             }
             (_, write_path) if write_path == server.write_path => {
                 let mut write_req = WriteRequest::new();
-                write_req.merge_from(&mut input_stream);
+                if let Err(err) = write_req.merge_from(&mut input_stream) {
+                    error!("Cannot read content from write request {}", err);
+                    request.respond(Response::empty(400));
+                    return;
+                }
                 match server.write(write_req) {
                     Ok(_) => {
                         request.respond(Response::empty(200));
-- 
2.43.0


From a6f4cc697e67ed69907aaace3e3cf64e6fc25b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 22/32] fix: a chunk with a given end time no longer computes a
 default one

The default end time was evaluated even when the options carry an end time, and
overflowed for start times near the end of the representable range.
---
 src/chunk/chunk.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 038349d..a285059 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -87,9 +87,10 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
             indexer,
             start_time,
             mutex: RwLock::new(()),
-            end_time: ops
-                .end_time
-                .unwrap_or(start_time + DEFAULT_CHUNK_SIZE.parse::<Timestamp>().unwrap()),
+            end_time: match ops.end_time {
+                Some(end_time) => end_time,
+                None => start_time + DEFAULT_CHUNK_SIZE.parse::<Timestamp>().unwrap(),
+            },
             closed: AtomicBool::new(false),
             id_generator: IdGenerator::new(1),
         }
-- 
2.43.0


From c612cab8633bfa8b4c79d96b4c84311f30b66dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 23/32] fix: a log segment no longer reserves its flush limit
 up front

A large limit (SizeBased or NumBased) overflowed the capacity or asked for more
memory than there is.
---
 src/wal/segment.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index c0b7831..255f357 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -8,8 +8,6 @@ use std::sync::{Arc, Mutex};
 
 type FileMutex = Arc<Mutex<File>>;
 
-const AVG_NUM_BYTES_IN_ENTRY: usize = 8;
-
 /// Segment is one write ahead file
 ///
 /// Segment is **NOT** concurrent-safe.
@@ -36,7 +34,7 @@ impl<W: Write> Write for Segment<W> {
             } => {
                 *idx = 0;
                 let _cache = cache.clone();
-                *cache = Vec::with_capacity(*size);
+                *cache = vec![];
                 _cache
             }
             &mut FlushCache::TimeBased { ref mut cache, .. } => {
@@ -49,7 +47,7 @@ impl<W: Write> Write for Segment<W> {
             } => {
                 *size = 0;
                 let _cache = cache.clone();
-                *cache = Vec::with_capacity(limit * AVG_NUM_BYTES_IN_ENTRY);
+                *cache = vec![];
                 _cache
             }
         };
@@ -87,12 +85,12 @@ impl<W> Segment<W>
                 FlushPolicy::NumBased(limit) => FlushCache::NumBased {
                     limit,
                     idx: 0,
-                    cache: Vec::with_capacity(limit),
+                    cache: vec![],
                 },
                 FlushPolicy::SizeBased(limit) => FlushCache::SizeBased {
                     limit,
                     size: 0,
-                    cache: Vec::with_capacity(limit * AVG_NUM_BYTES_IN_ENTRY),
+                    cache: vec![],
                 },
             },
             crc: crc::crc64::Digest::new(crc::crc64::ECMA),
-- 
2.43.0


From cc44b1733fb95dc85e93ae7e1f5a7ac8e474ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 24/32] fix: a database query reports failed chunk reads

A chunk whose index or storage failed to read was skipped without a word,
so the query answered Ok with the points of that chunk missing.
---
 src/db.rs | 54 +++++++++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 5208abb..1e58032 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -211,15 +211,18 @@ where
         {
             //check current chunk
             let _c = &self.current_chuck.read().unwrap();
-            let _res = _c.query(labels.clone(), start_time, end_time);
-            if _res.is_ok() {
-                for ref t in _res.unwrap() {
-                    res_ref.insert(
-                        t.meta_data().clone(),
-                        t.time_points().clone().into_iter().rev().collect(),
-                    );
+            match _c.query(labels.clone(), start_time, end_time) {
+                Ok(_res) => {
+                    for ref t in _res {
+                        res_ref.insert(
+                            t.meta_data().clone(),
+                            t.time_points().clone().into_iter().rev().collect(),
+                        );
+                    }
                 }
-            } else {
+                // nothing of the range in this chunk
+                Err(MonolithErr::OutOfRangeErr(_, _)) => {}
+                Err(err) => return Err(err),
             }
         };
         {
@@ -227,25 +230,22 @@ where
             let chunks = &self.secondary_chunks.read().unwrap();
             for _c in chunks.iter().rev() {
                 if _c.is_with_range(start_time, end_time) {
-                    let _res = _c.query(labels.clone(), start_time, end_time);
-                    if _res.is_ok() {
-                        for ref t in _res.unwrap() {
-                            let mut current_val = t
-                                .time_points()
-                                .clone()
-                                .into_iter()
-                                .rev()
-                                .collect::<Vec<TimePoint>>();
-                            match res_ref.get_mut(t.meta_data()) {
-                                Some(val) => {
-                                    val.append(&mut current_val);
-                                }
-                                None => {
-                                    res_ref.insert(t.meta_data().clone(), current_val);
-                                }
-                            };
-                        }
-                    } else {
+                    let _res = _c.query(labels.clone(), start_time, end_time)?;
+                    for ref t in _res {
+                        let mut current_val = t
+                            .time_points()
+                            .clone()
+                            .into_iter()
+                            .rev()
+                            .collect::<Vec<TimePoint>>();
+                        match res_ref.get_mut(t.meta_data()) {
+                            Some(val) => {
+                                val.append(&mut current_val);
+                            }
+                            None => {
+                                res_ref.insert(t.meta_data().clone(), current_val);
+                            }
+                        };
                     }
                 };
             }
-- 
2.43.0


From 94dc57f8fea506eb1ce43d83339852d2eb66a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 25/32] fix: a failed read is not answered as an empty result

The server turned every database error of a read request into an empty
list of series, which the client cannot tell from no data.
---
 src/server.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index df698f3..968ce4c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -152,7 +152,8 @@ where
                     .queries
                     .iter()
                     .map(|q| {
-                        self.db
+                        Ok(self
+                            .db
                             .query(
                                 Labels::from_vec(
                                     q.matchers
@@ -162,13 +163,13 @@ where
                                 ),
                                 q.start_timestamp_ms as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
-                            )
-                            .ok()
-                            .unwrap_or(Vec::new())
+                            )?
                             .iter()
                             .map(crate::proto::TimeSeries::from)
-                            .collect::<Vec<crate::proto::TimeSeries>>()
+                            .collect::<Vec<crate::proto::TimeSeries>>())
                     })
+                    .collect::<Result<Vec<Vec<crate::proto::TimeSeries>>>>()?
+                    .into_iter()
                     .map(|v: Vec<crate::proto::TimeSeries>| -> QueryResult {
                         QueryResult {
                             timeseries: RepeatedField::from(v),
-- 
2.43.0


From 5b0039f7f4cfe8ad2dcf956213203a07ada3f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 26/32] fix: chunks below a directory with a non-ASCII name are
 found again

The name of a chunk was cut out of its path by counting characters up to a
byte offset, so chunks were skipped when a parent directory had a non-ASCII
name, and an entry whose name is not unicode made opening panic.
---
 src/db.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 1e58032..46f9471 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::path::{Path, PathBuf};
+use std::path::Path;
 use std::sync::mpsc::channel;
 use std::sync::{Arc, RwLock};
 use std::time::Duration;
@@ -131,18 +131,15 @@ where
     ) -> Result<Vec<Arc<Chunk<S, I>>>> {
         let mut res = Vec::new();
         for entry in fs::read_dir(dir)? {
-            let path_str = entry?.path().into_os_string().into_string().unwrap();
-            let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
-            let dir_name = path_str.clone();
-            let dir_name = dir_name
-                .chars()
-                .skip(_slash)
-                .take(dir_name.len() - _slash)
-                .collect();
+            let path = entry?.path();
+            // the names of chunks are ascii, anything else is not a chunk
+            let dir_name = match path.file_name().and_then(|name| name.to_str()) {
+                Some(name) => name.to_string(),
+                None => continue,
+            };
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
-                    let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
                     let current_time = get_current_timestamp();
                     chunk_opts.start_time = Some(start_time);
-- 
2.43.0


From 1528fd160ef151b30a6e7d682217b9434ae08f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 27/32] fix: metadata files that could not be written are
 reported

The options of a chunk were written with the result dropped, and buffered
bytes of both metadata files were flushed by drop, which ignores errors:
opening answered Ok and left an empty file that cannot be opened again.
---
 src/chunk/chunk.rs | 5 +++--
 src/db.rs          | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index a285059..620cf74 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -16,7 +16,7 @@ use std::sync::RwLock;
 use serde::{Deserialize, Serialize};
 use std::fs;
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 
 /// ChunkOps contains all options for chunk
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -49,7 +49,8 @@ impl ChunkOpts {
             std::fs::create_dir_all(dir)?;
             let file = File::create(dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;
             let mut writer = BufWriter::new(file);
-            serde_json::to_writer(&mut writer, &self.clone());
+            serde_json::to_writer(&mut writer, &self.clone())?;
+            writer.flush()?;
         }
         Ok(())
     }
diff --git a/src/db.rs b/src/db.rs
index 46f9471..06331e7 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -16,7 +16,7 @@ use crate::option::DbOpts;
 use crate::storage::Storage;
 use crate::{Builder, MonolithErr, Result, Timestamp, DB_METADATA_FILENAME};
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 
 /// MonolithDb is thread-safe
 pub struct MonolithDb<S: Storage, I: Indexer>
@@ -116,8 +116,9 @@ where
             }
         } else {
             let file = File::create(base_dir.join(DB_METADATA_FILENAME))?;
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, db_metadata)?;
+            let mut writer = BufWriter::new(file);
+            serde_json::to_writer(&mut writer, db_metadata)?;
+            writer.flush()?;
         }
 
         Ok(())
-- 
2.43.0


From de7532ffd7f5b3a5f4936ad895b4241deeb9d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 28/32] fix: a database metadata file that cannot be read is
 not overwritten

Any failure to read it was taken for a fresh directory, so the recorded
back ends were replaced by those of the caller.
---
 src/db.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/db.rs b/src/db.rs
index 06331e7..1dc0979 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -106,6 +106,10 @@ where
     /// is the same type. If it doesn't, then create one base on db_metadata
     fn read_or_create_metadata(base_dir: &Path, db_metadata: &DbMetadata) -> Result<()> {
         let content = fs::read_to_string(base_dir.join(DB_METADATA_FILENAME));
+        if content.is_err() && base_dir.join(DB_METADATA_FILENAME).exists() {
+            // what is recorded cannot be read, but it must not be overwritten
+            return Err(content.unwrap_err().into());
+        }
 
         if content.is_ok() {
             let metadata: DbMetadata = serde_json::from_str(content.unwrap().as_str())?;
-- 
2.43.0


From 6a0268660b8da2f4991cb2dee2b5436ebd75c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 29/32] fix: database queries return points in time order when
 chunks overlap

---
 src/db.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 1dc0979..a2f3be5 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -259,10 +259,10 @@ where
             .filter(|o| o.is_some())
             .map(|o| o.unwrap())
             .map(|(labels, points)| {
-                (
-                    labels.clone(),
-                    points.iter().cloned().rev().collect::<Vec<TimePoint>>(),
-                )
+                let mut points = points.iter().cloned().rev().collect::<Vec<TimePoint>>();
+                // a chunk that was reopened may hold points later than the start of the next one
+                points.sort_by_key(|point| point.timestamp);
+                (labels.clone(), points)
             })
             .collect();
         Ok(res_vec)
-- 
2.43.0


From 330df40a4362ddbabffd8c8d8e28fd8122cdc1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 30/32] fix: a read request that starts before the epoch is
 answered from the epoch on

---
 src/server.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 968ce4c..7f61dc6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -152,18 +152,22 @@ where
                     .queries
                     .iter()
                     .map(|q| {
-                        Ok(self
-                            .db
-                            .query(
+                        // nothing is stored before the epoch
+                        let series = if q.end_timestamp_ms < 0 {
+                            Vec::new()
+                        } else {
+                            self.db.query(
                                 Labels::from_vec(
                                     q.matchers
                                         .iter()
                                         .map(Label::from_label_matcher)
                                         .collect::<Vec<Label>>(),
                                 ),
-                                q.start_timestamp_ms as Timestamp,
+                                q.start_timestamp_ms.max(0) as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
                             )?
+                        };
+                        Ok(series
                             .iter()
                             .map(crate::proto::TimeSeries::from)
                             .collect::<Vec<crate::proto::TimeSeries>>())
-- 
2.43.0


From 2595b4e755d951d32ebb4318ed7278085d7b9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 31/32] fix: a sample of -0.0 lost its sign when encoded (the
 generator skips values equal to zero)

---
 src/proto/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto/types.rs b/src/proto/types.rs
index 6c7e9bf..c4ce108 100644
--- a/src/proto/types.rs
+++ b/src/proto/types.rs
@@ -124,7 +124,7 @@ impl ::protobuf::Message for Sample {
     #[allow(unused_variables)]
     fn compute_size(&self) -> u32 {
         let mut my_size = 0;
-        if self.value != 0. {
+        if self.value.to_bits() != 0 {
             my_size += 9;
         }
         if self.timestamp != 0 {
@@ -143,7 +143,7 @@ impl ::protobuf::Message for Sample {
         &self,
         os: &mut ::protobuf::CodedOutputStream<'_>,
     ) -> ::protobuf::ProtobufResult<()> {
-        if self.value != 0. {
+        if self.value.to_bits() != 0 {
             os.write_double(1, self.value)?;
         }
         if self.timestamp != 0 {
-- 
2.43.0


From 2297639297c80e0c29159ac68ff1437d9e47f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 32/32] fix: a request body cut off inside its last message was
 decoded and acknowledged

---
 src/server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 7f61dc6..ef7c49b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -79,8 +79,15 @@ where
                 return;
             }
         };
+        let _content_len = _content.len() as u64;
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
+        // without a limit a field that is cut off by the end of the content passes for a complete one
+        if let Err(err) = input_stream.push_limit(_content_len) {
+            error!("Cannot read request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
 
         //triage the request
         match (request.method(), request.url()) {
-- 
2.43.0

