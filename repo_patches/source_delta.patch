From 0c13040d8811acfd81438312bc6a6368fc30bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 01/31] fix: read ValueFlow references in the order in which
 they are written

---
 src/models/block/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/block/mod.rs b/src/models/block/mod.rs
index ecf5e61..15f0cfe 100755
--- a/src/models/block/mod.rs
+++ b/src/models/block/mod.rs
@@ -685,6 +685,9 @@ impl<'a> Load<'a> for ValueFlow {
             _ => return Err(Error::InvalidTag),
         };
 
+        // NOTE: The first cell precedes the references of the following collections.
+        let slice1 = &mut ok!(slice.load_reference_as_slice());
+
         let fees_collected = ok!(CurrencyCollection::load_from(slice));
         let burned = if with_burned {
             ok!(CurrencyCollection::load_from(slice))
@@ -692,7 +695,6 @@ impl<'a> Load<'a> for ValueFlow {
             CurrencyCollection::ZERO
         };
 
-        let slice1 = &mut ok!(slice.load_reference_as_slice());
         let slice2 = &mut ok!(slice.load_reference_as_slice());
 
         Ok(Self {
-- 
2.43.0


From b13df75607314394fc76e466a5f77742839ffdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 02/31] fix: keep the ADNL address of a ValidatorDescription
 with mc_seqno_since

---
 src/models/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index 694a0e9..d67cf82 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1431,7 +1431,7 @@ impl Store for ValidatorDescription {
         ok!(builder.store_u64(self.weight));
 
         let mut adnl = self.adnl_addr.as_ref();
-        if with_mc_seqno {
+        if with_mc_seqno && adnl.is_none() {
             adnl = Some(HashBytes::wrap(&[0; 32]));
         }
 
-- 
2.43.0


From ea03bcd8243532c893aaa444f7758a06238b80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 03/31] fix: reject ConsensusConfig round candidates that do
 not fit into their field

---
 src/models/config/params.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index d67cf82..8987d58 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1016,10 +1016,13 @@ impl ConsensusConfig {
 impl Store for ConsensusConfig {
     fn store_into(&self, builder: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
         let flags = self.new_catchain_ids as u8;
+        let Ok(round_candidates) = u8::try_from(self.round_candidates.get()) else {
+            return Err(Error::IntOverflow);
+        };
 
         ok!(builder.store_u8(Self::TAG_V2));
         ok!(builder.store_u8(flags));
-        ok!(builder.store_u8(self.round_candidates.get() as u8));
+        ok!(builder.store_u8(round_candidates));
         ok!(builder.store_u32(self.next_candidate_delay_ms));
         ok!(builder.store_u32(self.consensus_timeout_ms));
         ok!(builder.store_u32(self.fast_attempts));
-- 
2.43.0


From c81c0d555e18f87461fe0a130af58ba86859269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 04/31] fix: count the tag bit in the exact size of an internal
 message info

---
 src/models/message/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/message/mod.rs b/src/models/message/mod.rs
index 81119df..0f850ce 100644
--- a/src/models/message/mod.rs
+++ b/src/models/message/mod.rs
@@ -540,7 +540,7 @@ impl RelaxedMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     const fn bit_len(&self) -> u16 {
         match self {
-            Self::Int(info) => info.bit_len(),
+            Self::Int(info) => 1 + info.bit_len(),
             Self::ExtOut(info) => info.bit_len(),
         }
     }
@@ -742,7 +742,7 @@ impl MsgInfo {
     /// Returns the number of data bits that this struct occupies.
     const fn bit_len(&self) -> u16 {
         match self {
-            Self::Int(info) => info.bit_len(),
+            Self::Int(info) => 1 + info.bit_len(),
             Self::ExtIn(info) => info.bit_len(),
             Self::ExtOut(info) => info.bit_len(),
         }
-- 
2.43.0


From 971eda717a96799201c993c68cdb6b050939f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 05/31] fix: reject oversized lengths in builder capacity
 checks

---
 src/cell/builder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index ca5e90d..bd4ed1a 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -412,7 +412,7 @@ impl CellBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits` and `refs`.
     #[inline]
     pub const fn has_capacity(&self, bits: u16, refs: u8) -> bool {
-        self.inner.bit_len + bits <= MAX_BIT_LEN
+        bits <= self.inner.spare_capacity_bits()
             && self.references.len() + refs as usize <= MAX_REF_COUNT
     }
 
@@ -852,7 +852,7 @@ impl CellDataBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits`.
     #[inline]
     pub const fn has_capacity_bits(&self, bits: u16) -> bool {
-        self.bit_len + bits <= MAX_BIT_LEN
+        bits <= self.spare_capacity_bits()
     }
 
     /// Clears all data bits and sets the size in bits to 0.
@@ -894,7 +894,7 @@ impl CellDataBuilder {
     /// Tries to store the specified number of zero bits in the cell,
     /// returning `false` if there is not enough remaining capacity.
     pub fn store_zeros(&mut self, bits: u16) -> Result<(), Error> {
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if bits <= self.spare_capacity_bits() {
             self.bit_len += bits;
             Ok(())
         } else {
@@ -1052,7 +1052,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if bits <= self.spare_capacity_bits() {
             bits = if let Some(offset) = bits.checked_sub(8) {
                 self.bit_len += offset;
                 8
@@ -1095,7 +1095,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if bits <= self.spare_capacity_bits() {
             // Store zeros if bits is greater than 64
             bits = if let Some(offset) = bits.checked_sub(64) {
                 self.bit_len += offset;
@@ -1382,7 +1382,7 @@ impl CellDataBuilder {
             store_raw(data, bit_len, value, bits)
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if bits <= self.spare_capacity_bits() {
             let mut data = [0; 128];
             let mut bit_len = 0;
             ok!(store_raw_impl(&mut data, &mut bit_len, value, bits));
@@ -1408,8 +1408,8 @@ fn store_raw(
     value: &[u8],
     mut bits: u16,
 ) -> Result<(), Error> {
-    if *bit_len + bits <= MAX_BIT_LEN {
-        let max_bit_len = value.len().saturating_mul(8) as u16;
+    if bits <= MAX_BIT_LEN - *bit_len {
+        let max_bit_len = std::cmp::min(value.len().saturating_mul(8), u16::MAX as usize) as u16;
         bits = if let Some(offset) = bits.checked_sub(max_bit_len) {
             *bit_len += offset;
             max_bit_len
-- 
2.43.0


From ca4a9349c46e0f39cb4a222db3a9334eedf94a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 06/31] fix: check slice windows without integer overflow and
 with the offset

---
 src/cell/slice.rs | 62 ++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 2749882..c6d354b 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -367,14 +367,20 @@ impl CellSliceRange {
 
     /// Returns true if the slice contains at least `bits` and `refs`.
     pub const fn has_remaining(&self, bits: u16, refs: u8) -> bool {
-        self.bits_start + bits <= self.bits_end && self.refs_start + refs <= self.refs_end
+        // NOTE: compare as wider integers to avoid overflow
+        self.bits_start as u32 + bits as u32 <= self.bits_end as u32
+            && self.refs_start as u16 + refs as u16 <= self.refs_end as u16
+    }
+
+    /// Returns whether `bits` after the `offset` are inside the data window.
+    #[inline]
+    const fn has_window(&self, offset: u16, bits: u16) -> bool {
+        self.bits_start as u32 + offset as u32 + bits as u32 <= self.bits_end as u32
     }
 
     /// Tries to advance the start of data and refs windows.
     pub fn skip_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -385,9 +391,7 @@ impl CellSliceRange {
 
     /// Leaves only the first `bits` and `refs` in the slice.
     pub fn only_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -398,9 +402,7 @@ impl CellSliceRange {
 
     /// Removes the last `bits` and `refs` from the slice.
     pub fn skip_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -411,9 +413,7 @@ impl CellSliceRange {
 
     /// Leaves only the last `bits` and `refs` in the slice.
     pub fn only_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -426,9 +426,7 @@ impl CellSliceRange {
     /// of data and refs windows.
     #[must_use = "use `skip_first` if you don't need the result"]
     pub fn split_prefix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -443,9 +441,7 @@ impl CellSliceRange {
     /// Returns the last `bits` and `refs` of the slice and shrinks the data and refs windows.
     #[must_use = "use `skip_last` if you don't need the result"]
     pub fn split_suffix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -462,9 +458,9 @@ impl CellSliceRange {
     pub fn get_prefix(&self, bits: u16, refs: u8) -> Self {
         Self {
             bits_start: self.bits_start,
-            bits_end: std::cmp::min(self.bits_start + bits, self.bits_end),
+            bits_end: std::cmp::min(self.bits_start.saturating_add(bits), self.bits_end),
             refs_start: self.refs_start,
-            refs_end: std::cmp::min(self.refs_start + refs, self.refs_end),
+            refs_end: std::cmp::min(self.refs_start.saturating_add(refs), self.refs_end),
         }
     }
 
@@ -1161,7 +1157,7 @@ impl<'a> CellSlice<'a> {
 
     /// Tries to read the bit at the specified offset (relative to the current bits window).
     pub fn get_bit(&self, offset: u16) -> Result<bool, Error> {
-        if self.range.bits_start + offset < self.range.bits_end {
+        if self.range.has_window(offset, 1) {
             let index = self.range.bits_start + offset;
             if let Some(byte) = self.cell.data().get((index / 8) as usize) {
                 return Ok((byte >> (7 - index % 8)) & 1 != 0);
@@ -1196,7 +1192,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u16` starting from the `offset`.
     pub fn get_u16(&self, offset: u16) -> Result<u16, Error> {
-        if self.range.bits_start + offset + 16 <= self.range.bits_end {
+        if self.range.has_window(offset, 16) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1246,7 +1242,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u32` starting from the `offset`.
     pub fn get_u32(&self, offset: u16) -> Result<u32, Error> {
-        if self.range.bits_start + offset + 32 <= self.range.bits_end {
+        if self.range.has_window(offset, 32) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1296,7 +1292,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u64` starting from the `offset`.
     pub fn get_u64(&self, offset: u16) -> Result<u64, Error> {
-        if self.range.bits_start + offset + 64 <= self.range.bits_end {
+        if self.range.has_window(offset, 64) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1343,7 +1339,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u128` starting from the `offset`.
     pub fn get_u128(&self, offset: u16) -> Result<u128, Error> {
-        if self.range.bits_start + offset + 128 <= self.range.bits_end {
+        if self.range.has_window(offset, 128) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1386,7 +1382,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads 32 bytes starting from the `offset`.
     pub fn get_u256(&self, offset: u16) -> Result<HashBytes, Error> {
-        if self.range.bits_start + offset + 256 <= self.range.bits_end {
+        if self.range.has_window(offset, 256) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1452,7 +1448,7 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 8 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 8 && self.range.has_window(offset, bits) {
             let index = self.range.bits_start + offset;
 
             let r = index % 8;
@@ -1506,7 +1502,7 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 64 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 64 && self.range.has_window(offset, bits) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1645,7 +1641,7 @@ impl<'a> CellSlice<'a> {
             return Ok(&mut target[..0]);
         }
 
-        if self.range.bits_start + bits <= self.range.bits_end {
+        if self.range.has_window(offset, bits) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1742,7 +1738,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns a reference to the Nth child cell (relative to this slice's refs window).
     pub fn get_reference(&self, index: u8) -> Result<&'a DynCell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             if let Some(cell) = self.cell.reference(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1752,7 +1748,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns the Nth child cell (relative to this slice's refs window).
     pub fn get_reference_cloned(&self, index: u8) -> Result<Cell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             if let Some(cell) = self.cell.reference_cloned(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1763,7 +1759,7 @@ impl<'a> CellSlice<'a> {
     /// Tries to load the specified child cell as slice.
     /// Returns an error if the loaded cell is absent or is pruned.
     pub fn get_reference_as_slice(&self, index: u8) -> Result<CellSlice<'a>, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             let Some(cell) = self.cell.reference(self.range.refs_start + index) else {
                 return Err(Error::CellUnderflow);
             };
-- 
2.43.0


From 2ffdf54d86bdee643636b64ebc7d4db64d3bdfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 07/31] fix: clamp a slice range applied to an exotic cell

---
 src/cell/slice.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index c6d354b..ee1d935 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -279,15 +279,8 @@ impl CellSliceRange {
             if unlikely(cell.is_exotic()) {
                 Err(Error::UnexpectedExoticCell)
             } else {
-                let bits_end = std::cmp::min(range.bits_end, cell.bit_len());
-                let refs_end = std::cmp::min(range.refs_end, cell.reference_count());
                 Ok(CellSlice {
-                    range: CellSliceRange {
-                        bits_start: std::cmp::min(range.bits_start, bits_end),
-                        bits_end,
-                        refs_start: std::cmp::min(range.refs_start, refs_end),
-                        refs_end,
-                    },
+                    range: range.clamp_to(cell),
                     cell,
                 })
             }
@@ -308,9 +301,22 @@ impl CellSliceRange {
     where
         T: AsRef<DynCell> + ?Sized,
     {
+        let cell = cell.as_ref();
         CellSlice {
-            range: self,
-            cell: cell.as_ref(),
+            range: self.clamp_to(cell),
+            cell,
+        }
+    }
+
+    /// Limits this range to the contents of the specified cell.
+    fn clamp_to(self, cell: &DynCell) -> Self {
+        let bits_end = std::cmp::min(self.bits_end, cell.bit_len());
+        let refs_end = std::cmp::min(self.refs_end, cell.reference_count());
+        Self {
+            bits_start: std::cmp::min(self.bits_start, bits_end),
+            bits_end,
+            refs_start: std::cmp::min(self.refs_start, refs_end),
+            refs_end,
         }
     }
 
-- 
2.43.0


From 0c7bac14d2cc6457e14c78b0ad72e59b5ee80c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 08/31] fix: ProcessedCells::get of an index outside the cells

---
 src/boc/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boc/de.rs b/src/boc/de.rs
index f0196ff..8b09dff 100644
--- a/src/boc/de.rs
+++ b/src/boc/de.rs
@@ -301,7 +301,8 @@ pub struct ProcessedCells(SmallVec<[Cell; CELLS_ON_STACK]>);
 impl ProcessedCells {
     /// Returns a processed cell by index.
     pub fn get(&self, index: u32) -> Option<Cell> {
-        self.0.get(self.0.len() - index as usize - 1).cloned()
+        let index = self.0.len().checked_sub(index as usize + 1)?;
+        self.0.get(index).cloned()
     }
 }
 
-- 
2.43.0


From 24420ef5baf4779205d0072dd7cf49fe883ccabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 09/31] fix: BOC without root list does not need room for one

---
 src/boc/de.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/boc/de.rs b/src/boc/de.rs
index 8b09dff..42e3011 100644
--- a/src/boc/de.rs
+++ b/src/boc/de.rs
@@ -172,10 +172,14 @@ impl<'a> BocHeader<'a> {
         }
 
         // NOTE: `root_count` is in range ..=u32::MAX and `ref_size` is in range 1..=4
-        if unlikely(!reader.require(root_count * ref_size)) {
+        // NOTE: there is no root list in a BOC without multiple roots support
+        if unlikely(supports_multiple_roots && !reader.require(root_count * ref_size)) {
             return Err(Error::UnexpectedEof);
         }
-        debug_assert!(data.len() >= (6 + ref_size * 3 + offset_size + root_count * ref_size));
+        debug_assert!(
+            !supports_multiple_roots
+                || data.len() >= (6 + ref_size * 3 + offset_size + root_count * ref_size)
+        );
 
         let mut roots = SmallVec::with_capacity(root_count);
         if supports_multiple_roots {
-- 
2.43.0


From 72e066ba58839170dd00af87da74f149a74a5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 10/31] fix: size of BOC encoded without hashes

---
 src/boc/ser.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index 6ed6a48..d83d05d 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -46,6 +46,7 @@ pub struct BocHeader<'a, S = ahash::RandomState> {
     rev_indices: HashMap<&'a HashBytes, u32, S>,
     rev_cells: Vec<&'a DynCell>,
     total_data_size: u64,
+    total_hashes_size: u64,
     reference_count: u64,
     cell_count: u32,
     without_hashes: bool,
@@ -60,6 +61,7 @@ impl<S: BuildHasher + Default> Default for BocHeader<'_, S> {
             rev_indices: Default::default(),
             rev_cells: Default::default(),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -88,6 +90,7 @@ where
             rev_indices: HashMap::with_capacity_and_hasher(capacity, S::default()),
             rev_cells: Vec::with_capacity(capacity),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -129,6 +132,7 @@ where
             },
             root_rev_indices: Default::default(),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -167,6 +171,7 @@ where
         self.rev_indices.clear();
         self.rev_cells.clear();
         self.total_data_size = 0;
+        self.total_hashes_size = 0;
         self.reference_count = 0;
         self.cell_count = 0;
     }
@@ -296,7 +301,15 @@ where
 
         let ref_size = number_of_bytes_to_fit(self.cell_count as u64);
 
+        // NOTE: `without_hashes` can be changed after cells were added
+        let hashes_size = if self.without_hashes {
+            0
+        } else {
+            self.total_hashes_size
+        };
+
         let total_cells_size = self.total_data_size
+            + hashes_size
             + (self.cell_count as u64 * 2) // all descriptor bytes
             + (ref_size as u64 * self.reference_count);
         let offset_size = number_of_bytes_to_fit(total_cells_size);
@@ -428,7 +441,8 @@ where
         self.rev_cells.push(cell);
 
         let descriptor = cell.descriptor();
-        self.total_data_size += descriptor.byte_len_full(self.without_hashes);
+        self.total_data_size += descriptor.byte_len() as u64;
+        self.total_hashes_size += descriptor.hashes_byte_len();
         self.reference_count += descriptor.reference_count() as u64;
         self.cell_count += 1;
     }
@@ -452,7 +466,8 @@ where
                 self.rev_cells.push(cell);
 
                 let descriptor = cell.descriptor();
-                self.total_data_size += descriptor.byte_len_full(self.without_hashes);
+                self.total_data_size += descriptor.byte_len() as u64;
+                self.total_hashes_size += descriptor.hashes_byte_len();
                 self.reference_count += descriptor.reference_count() as u64;
                 self.cell_count += 1;
 
@@ -463,12 +478,12 @@ where
 }
 
 impl CellDescriptor {
-    fn byte_len_full(self, without_hashes: bool) -> u64 {
-        let mut byte_len = self.byte_len() as u64;
-        if !without_hashes && self.store_hashes() {
-            byte_len += (self.level_mask().level() + 1) as u64 * (32 + 2);
+    fn hashes_byte_len(self) -> u64 {
+        if self.store_hashes() {
+            (self.level_mask().level() + 1) as u64 * (32 + 2)
+        } else {
+            0
         }
-        byte_len
     }
 }
 
-- 
2.43.0


From 036c87fabe0320149bde8cc4e3d42f90eaa7cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 11/31] fix: ShardIdent::is_ancestor_of compares the whole
 prefix

---
 src/models/block/block_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/block/block_id.rs b/src/models/block/block_id.rs
index e2698e6..0964a17 100644
--- a/src/models/block/block_id.rs
+++ b/src/models/block/block_id.rs
@@ -316,7 +316,7 @@ impl ShardIdent {
         let ancestor_tag = self.prefix_tag();
         let shard_tag = shard.prefix_tag();
         ancestor_tag >= shard_tag
-            && ((self.prefix ^ shard.prefix) & (self.prefix_tag_mask() << 1)) == 0
+            && ((self.prefix ^ shard.prefix) & ((!ancestor_tag + 1) << 1)) == 0
     }
 
     /// Returns `true` if the current shard is the direct parent of the specified shard.
-- 
2.43.0


From 0f10b2be7c036eeb35ffe9fc31f7eebd30d1d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:18 +0000
Subject: [PATCH 12/31] fix: addition of VarUint248 uses the high word of both
 operands

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index b798eb0..fc5f9c4 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -461,7 +461,7 @@ impl std::ops::AddAssign<&Self> for VarUint248 {
     fn add_assign(&mut self, rhs: &Self) {
         let (lo, carry) = self.low().overflowing_add(*rhs.low());
         *self.low_mut() = lo;
-        *self.high_mut() = rhs
+        *self.high_mut() = self
             .high()
             .wrapping_add(carry as _)
             .wrapping_add(*rhs.high());
-- 
2.43.0


From a9243db83798fb59b29f9e3e102d4374e9688218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:18 +0000
Subject: [PATCH 13/31] fix: VarUint248::MIN is zero

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index fc5f9c4..b951c8f 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -20,7 +20,7 @@ impl VarUint248 {
     pub const ONE: Self = Self([1, 0]);
 
     /// The smallest value that can be represented by this integer type.
-    pub const MIN: Self = Self::new(1);
+    pub const MIN: Self = Self::new(0);
 
     /// The largest value that can be represented by this integer type.
     pub const MAX: Self = Self::from_words(u128::MAX >> 8, u128::MAX);
-- 
2.43.0


From fde8ae45bbc0e666c5a27b86034d2c664bba5559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 14/31] fix: SplitDepth that does not fit its bits

---
 src/num/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num/mod.rs b/src/num/mod.rs
index d71246b..61dbf5c 100644
--- a/src/num/mod.rs
+++ b/src/num/mod.rs
@@ -935,8 +935,8 @@ impl SplitDepth {
     #[inline]
     pub const fn new(value: u8) -> Result<Self, Error> {
         match NonZeroU8::new(value) {
-            Some(value) => Ok(Self(value)),
-            None => Err(Error::IntOverflow),
+            Some(value) if value.get() < 1 << Self::BITS => Ok(Self(value)),
+            _ => Err(Error::IntOverflow),
         }
     }
 
-- 
2.43.0


From 92851c132f8a2d3d0e68699bb94b958c89adf159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 15/31] fix: order of signed dictionary values when all keys
 share a prefix

---
 src/dict/raw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dict/raw.rs b/src/dict/raw.rs
index d9c64c9..e484ef0 100644
--- a/src/dict/raw.rs
+++ b/src/dict/raw.rs
@@ -1325,6 +1325,7 @@ impl<'a> RawValues<'a> {
             segments.push(ValuesSegment {
                 data,
                 remaining_bit_len: bit_len,
+                is_prefix_empty: false,
             });
         }
         Self {
@@ -1405,13 +1406,14 @@ impl<'a> Iterator for RawValues<'a> {
                         let remaining_bit_len = segment.remaining_bit_len;
                         let next_bit = (refs_offset != 0)
                             ^ reverse
-                            ^ (signed && is_root && segment.data.is_data_empty());
+                            ^ (signed && is_root && segment.is_prefix_empty);
                         let data = ok!(segment.data.cell().get_reference_as_slice(next_bit as u8));
                         segment.data.skip_first(0, 1).ok();
 
                         segments.push(ValuesSegment {
                             data,
                             remaining_bit_len,
+                            is_prefix_empty: false,
                         });
                         // SAFETY: we have just added a new element
                         break unsafe { segments.last_mut().unwrap_unchecked() };
@@ -1437,6 +1439,7 @@ impl<'a> Iterator for RawValues<'a> {
                         if segment.data.size_refs() < 2 {
                             return Err(Error::CellUnderflow);
                         }
+                        segment.is_prefix_empty = prefix.is_data_empty();
                         segment.remaining_bit_len = remaining - 1;
                         // Handle next segment
                         continue;
@@ -1457,6 +1460,7 @@ impl<'a> Iterator for RawValues<'a> {
 struct ValuesSegment<'a> {
     data: CellSlice<'a>,
     remaining_bit_len: u16,
+    is_prefix_empty: bool,
 }
 
 #[cfg(test)]
-- 
2.43.0


From f9afa3d69b8ee1da2f83fa074d576c9e25583044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 16/31] fix: cells of owned dictionary values in reversed or
 signed order

---
 src/dict/raw.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dict/raw.rs b/src/dict/raw.rs
index e484ef0..24f1b72 100644
--- a/src/dict/raw.rs
+++ b/src/dict/raw.rs
@@ -1266,7 +1266,14 @@ impl Iterator for RawOwnedValues<'_> {
                     Some(segment) => {
                         let refs_offset = segment.data.offset_refs();
                         debug_assert!(refs_offset > 0);
-                        match segment.data.cell().reference_cloned(refs_offset - 1) {
+
+                        let next_bit = (refs_offset != 1)
+                            ^ self.inner.reversed
+                            ^ (self.inner.signed
+                                && self.inner.segments.len() == 1
+                                && segment.is_prefix_empty);
+
+                        match segment.data.cell().reference_cloned(next_bit as u8) {
                             Some(cell) => cell,
                             None => return Some(Err(self.inner.finish(Error::CellUnderflow))),
                         }
-- 
2.43.0


From 73c6715178d89e2c96d88f1c05f016b720954756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 17/31] fix: dict_merge must not compare data lengths of root
 cells

The length of the data of a root cell depends on its label and value and says
nothing about the length of keys: dictionaries with the same keys were refused
with InvalidCell. The key length is checked while iterating and inserting.
---
 src/dict/ops/split_merge.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/dict/ops/split_merge.rs b/src/dict/ops/split_merge.rs
index 923ad03..c414032 100644
--- a/src/dict/ops/split_merge.rs
+++ b/src/dict/ops/split_merge.rs
@@ -151,12 +151,7 @@ pub fn dict_merge(
             *left = Some(right.clone());
             return Ok(());
         }
-        (Some(left_cell), Some(right_cell)) => {
-            let bit_len = left_cell.bit_len();
-            if bit_len != right_cell.bit_len() && bit_len != key_bit_length {
-                return Err(Error::InvalidCell); // KEY LENGTH ERROR?
-            }
-
+        (Some(_), Some(_)) => {
             let mut right_dict_iter = RawIter::new(right, key_bit_length);
             while let Some(Ok((key, value))) = right_dict_iter.next() {
                 let current_bit_len = key.size_bits();
-- 
2.43.0


From abe2ea7cc394160e6765b4ffc843645dd089d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 18/31] fix: dict_merge must report entries that cannot be read

An error of the iterator over the right dictionary ended the loop as if there
were no more entries, so the result silently lacked keys. On error the left
dictionary now stays as it was.
---
 src/dict/ops/split_merge.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dict/ops/split_merge.rs b/src/dict/ops/split_merge.rs
index c414032..98c9f12 100644
--- a/src/dict/ops/split_merge.rs
+++ b/src/dict/ops/split_merge.rs
@@ -152,12 +152,13 @@ pub fn dict_merge(
             return Ok(());
         }
         (Some(_), Some(_)) => {
-            let mut right_dict_iter = RawIter::new(right, key_bit_length);
-            while let Some(Ok((key, value))) = right_dict_iter.next() {
+            let mut merged = left.clone();
+            for entry in RawIter::new(right, key_bit_length) {
+                let (key, value) = ok!(entry);
                 let current_bit_len = key.size_bits();
 
                 dict_insert(
-                    left,
+                    &mut merged,
                     &mut key.as_data_slice(),
                     current_bit_len,
                     &value,
@@ -165,6 +166,7 @@ pub fn dict_merge(
                     context,
                 )?;
             }
+            *left = merged;
         }
     }
     Ok(())
-- 
2.43.0


From 1088fb9cef770d53cc59b6134845b82b03b8e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 19/31] fix: build cells of a Merkle proof once per Merkle
 depth

A cell that occurs both inside and outside of a nested Merkle cell was built once
and reused, with pruned branches of the wrong level.
---
 src/merkle/proof.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/merkle/proof.rs b/src/merkle/proof.rs
index fdd25d9..f03505a 100644
--- a/src/merkle/proof.rs
+++ b/src/merkle/proof.rs
@@ -440,7 +440,7 @@ where
 struct BuilderImpl<'a, 'b, 'c: 'a> {
     root: &'a DynCell,
     filter: &'b dyn MerkleFilter,
-    cells: ahash::HashMap<&'a HashBytes, Cell>,
+    cells: ahash::HashMap<(&'a HashBytes, u8), Cell>,
     pruned_branches: Option<&'b mut ahash::HashSet<&'a HashBytes>>,
     context: &'c dyn CellContext,
     allow_different_root: bool,
@@ -478,7 +478,7 @@ impl BuilderImpl<'_, '_, '_> {
                 // Process children if they are left
 
                 let child_repr_hash = child.repr_hash();
-                let child = if let Some(child) = self.cells.get(child_repr_hash) {
+                let child = if let Some(child) = self.cells.get(&(child_repr_hash, last.merkle_depth)) {
                     // Reused processed cells
                     child.clone()
                 } else {
@@ -543,8 +543,11 @@ impl BuilderImpl<'_, '_, '_> {
                 builder.set_references(last.children);
                 let proof_cell = ok!(builder.build_ext(self.context));
 
-                // Save this cell as processed cell
-                self.cells.insert(cell.repr_hash(), proof_cell.clone());
+                // Save this cell as processed cell at the Merkle depth of its parent,
+                // since it determines the level of pruned branches inside.
+                let parent_merkle_depth = last.merkle_depth - last.descriptor.is_merkle() as u8;
+                self.cells
+                    .insert((cell.repr_hash(), parent_merkle_depth), proof_cell.clone());
 
                 match stack.last_mut() {
                     // Append this cell to the ancestor
@@ -566,7 +569,7 @@ impl BuilderImpl<'_, '_, '_> {
 struct ParBuilderImpl<'a, 'b, 'c: 'a> {
     root: &'a DynCell,
     filter: &'b (dyn MerkleFilter + Send + Sync),
-    cells: scc::HashMap<&'a HashBytes, ExtCell, ahash::RandomState>,
+    cells: scc::HashMap<(&'a HashBytes, u8), ExtCell, ahash::RandomState>,
     pruned_branches: Option<&'b scc::HashSet<&'a HashBytes, ahash::RandomState>>,
     context: &'c (dyn CellContext + Send + Sync),
     split_at: ahash::HashSet<HashBytes>,
@@ -689,7 +692,7 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
                 // Process children if they are left
                 let child_repr_hash = child.repr_hash();
 
-                let child = if let Some(child) = self.cells.get(child_repr_hash) {
+                let child = if let Some(child) = self.cells.get(&(child_repr_hash, last.merkle_depth)) {
                     // Reused processed cells
                     child.clone()
                 } else {
@@ -785,8 +788,12 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
                     }
                 };
 
-                // Save this cell as processed cell
-                self.cells.insert(cell.repr_hash(), proof_cell.clone()).ok();
+                // Save this cell as processed cell at the Merkle depth of its parent,
+                // since it determines the level of pruned branches inside.
+                let parent_merkle_depth = last.merkle_depth - last.descriptor.is_merkle() as u8;
+                self.cells
+                    .insert((cell.repr_hash(), parent_merkle_depth), proof_cell.clone())
+                    .ok();
 
                 match stack.last_mut() {
                     // Append this cell to the ancestor
-- 
2.43.0


From ea4a3dad749442ef9b97f451710867a48beae594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 20/31] fix: look up old cells by their hash at the current
 Merkle depth

The number of set bits of a level mask is not the level of a pruned branch whose
mask has gaps, so applying a Merkle update could fail for a valid update.
---
 src/merkle/update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle/update.rs b/src/merkle/update.rs
index 7c78fc2..3c24636 100644
--- a/src/merkle/update.rs
+++ b/src/merkle/update.rs
@@ -183,7 +183,7 @@ impl MerkleUpdate {
                         let mask = child_descriptor.level_mask();
                         if mask.to_byte() & (1 << child_merkle_depth) != 0 {
                             // Use original hash for pruned branches
-                            let child_hash = child.as_ref().hash(mask.level() - 1);
+                            let child_hash = child.as_ref().hash(child_merkle_depth);
                             match self.old_cells.get(child_hash) {
                                 Some(cell) => cell.clone(),
                                 None => return Err(Error::InvalidData),
-- 
2.43.0


From 466f8837f4ed0f9537ba2276ca2ad70a03d11cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 21/31] fix: search included subtrees for unchanged cells even
 if seen before

A cell that was skipped by the filter outside of an included subtree was taken as
processed inside of it, so the update could not be applied.
---
 src/merkle/update.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/merkle/update.rs b/src/merkle/update.rs
index 3c24636..62a4562 100644
--- a/src/merkle/update.rs
+++ b/src/merkle/update.rs
@@ -539,7 +539,7 @@ impl<'a: 'b, 'b, 'c: 'a> BuilderImpl<'a, 'b, 'c> {
     fn build(self) -> Result<MerkleUpdate, Error> {
         struct Resolver<'a> {
             pruned_branches: ahash::HashSet<&'a HashBytes>,
-            visited: ahash::HashMap<&'a HashBytes, bool>,
+            visited: ahash::HashMap<(&'a HashBytes, bool), bool>,
             filter: &'a dyn MerkleFilter,
             changed_cells: ahash::HashSet<&'a HashBytes>,
         }
@@ -548,8 +548,9 @@ impl<'a: 'b, 'b, 'c: 'a> BuilderImpl<'a, 'b, 'c> {
             fn fill(&mut self, cell: &'a DynCell, mut skip_filter: bool) -> bool {
                 let repr_hash = cell.repr_hash();
 
-                // Skip visited cells
-                if let Some(&result) = self.visited.get(repr_hash) {
+                // Skip visited cells (an included subtree is processed without the filter)
+                let visited_key = (repr_hash, skip_filter);
+                if let Some(&result) = self.visited.get(&visited_key) {
                     return result;
                 }
 
@@ -580,7 +581,7 @@ impl<'a: 'b, 'b, 'c: 'a> BuilderImpl<'a, 'b, 'c> {
 
                 result |= is_pruned;
 
-                self.visited.insert(repr_hash, result);
+                self.visited.insert(visited_key, result);
 
                 result
             }
@@ -694,7 +695,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
         struct Resolver<'a> {
             pruned_branches: scc::HashSet<&'a HashBytes, ahash::RandomState>,
             changed_cells: scc::HashSet<&'a HashBytes, ahash::RandomState>,
-            deferred: scc::HashMap<&'a HashBytes, Promise<bool>, ahash::RandomState>,
+            deferred: scc::HashMap<(&'a HashBytes, bool), Promise<bool>, ahash::RandomState>,
             filter: &'a (dyn MerkleFilter + Send + Sync),
         }
 
@@ -738,7 +739,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
         struct SubResolver<'a, 's, 'r> {
             resolver: &'r Resolver<'a>,
             split_at: &'s ahash::HashSet<HashBytes>,
-            visited: ahash::HashMap<&'a HashBytes, bool>,
+            visited: ahash::HashMap<(&'a HashBytes, bool), bool>,
         }
 
         impl<'a, 's, 'r> SubResolver<'a, 's, 'r> {
@@ -755,8 +756,9 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
             {
                 let repr_hash = cell.repr_hash();
 
-                // Skip visited cells
-                if let Some(&result) = self.visited.get(repr_hash) {
+                // Skip visited cells (an included subtree is processed without the filter)
+                let visited_key = (repr_hash, skip_filter);
+                if let Some(&result) = self.visited.get(&visited_key) {
                     return CheckResult::Immediate(result);
                 }
 
@@ -775,13 +777,13 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
                 };
 
                 if !process_children {
-                    self.visited.insert(repr_hash, is_pruned);
+                    self.visited.insert(visited_key, is_pruned);
                     return CheckResult::Immediate(is_pruned);
                 }
 
                 if let Some(scope) = scope {
                     if unlikely(self.split_at.contains(repr_hash)) {
-                        let entry = match self.resolver.deferred.entry(repr_hash) {
+                        let entry = match self.resolver.deferred.entry((repr_hash, skip_filter)) {
                             scc::hash_map::Entry::Occupied(entry) => {
                                 return CheckResult::Deferred(entry.get().clone());
                             }
@@ -813,7 +815,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
 
                 // Mark as visited only finished cells
                 if let CheckResult::Immediate(has_changed) = result {
-                    self.visited.insert(repr_hash, has_changed);
+                    self.visited.insert(visited_key, has_changed);
                 }
 
                 result
-- 
2.43.0


From 319b8269fc009384dcb274e3149ae662f2897df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 22/31] fix: refuse pruned branches for Merkle depths above the
 max level

The shift overflowed for eight and more nested Merkle cells and made a pruned
branch of a wrong level.
---
 src/merkle/pruned_branch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/merkle/pruned_branch.rs b/src/merkle/pruned_branch.rs
index 5b285e6..d6c5f13 100644
--- a/src/merkle/pruned_branch.rs
+++ b/src/merkle/pruned_branch.rs
@@ -7,6 +7,11 @@ pub fn make_pruned_branch(
     merkle_depth: u8,
     context: &dyn CellContext,
 ) -> Result<Cell, Error> {
+    // A level mask cannot hold a deeper level.
+    if merkle_depth >= LevelMask::MAX_LEVEL {
+        return Err(Error::InvalidCell);
+    }
+
     let descriptor = cell.descriptor();
     let mut cell_level_mask = descriptor.level_mask();
 
-- 
2.43.0


From 1030c7fe8b51617a88f4b226f2aea1616f902450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:11 +0000
Subject: [PATCH 23/31] fix: demand one bit for a fixed size ABI array, not two

---
 src/abi/value/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 1b81a32..cc359d1 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -520,7 +520,7 @@ impl AbiSerializer {
             key_builder.clear_bits();
         }
 
-        let bits = 1 + if fixed_len { 1 } else { 32 };
+        let bits = 1 + if fixed_len { 0 } else { 32 };
         let refs = if self.version.use_max_size() {
             1
         } else {
-- 
2.43.0


From 45718bcc4cc9662340bebf58abea872f7c1200db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:11 +0000
Subject: [PATCH 24/31] fix: demand no reference for an empty ABI map before
 version 2.2

---
 src/abi/value/ser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index cc359d1..692bc09 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -574,7 +574,13 @@ impl AbiSerializer {
             key_builder.clear_bits();
         }
 
-        let target = self.require_builder(Size { bits: 1, refs: 1 });
+        let refs = if self.version.use_max_size() {
+            1
+        } else {
+            !value.is_empty() as u8
+        };
+
+        let target = self.require_builder(Size { bits: 1, refs });
         dict.store_into(target, context)
     }
 
-- 
2.43.0


From 4ea8c589bf45cc0305d82b39f4bf908523bcceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:11 +0000
Subject: [PATCH 25/31] fix: write a positive ABI varint as two's complement
 bytes

---
 src/abi/value/ser.rs | 59 +++++++-------------------------------------
 1 file changed, 9 insertions(+), 50 deletions(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 692bc09..bc9e79f 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -1,7 +1,7 @@
 use std::collections::BTreeMap;
 use std::num::NonZeroU8;
 
-use num_bigint::{BigInt, BigUint, Sign};
+use num_bigint::{BigInt, BigUint};
 
 use crate::abi::{
     AbiHeader, AbiHeaderType, AbiType, AbiValue, AbiVersion, NamedAbiValue, PlainAbiType,
@@ -111,10 +111,10 @@ impl AbiValue {
     }
 
     fn compute_exact_size_short(&self) -> Size {
-        fn compute_varuint_size(n: &NonZeroU8, value: &BigUint) -> Size {
+        fn compute_varint_size(n: &NonZeroU8, bytes: &[u8]) -> Size {
             let value_bytes: u8 = n.get() - 1;
             let len_bits = (8 - value_bytes.leading_zeros()) as u16;
-            let value_bits = std::cmp::max(8, 8 * value.bits().div_ceil(8) as u16);
+            let value_bits = (bytes.len() * 8) as u16;
             Size {
                 bits: len_bits + value_bits,
                 refs: 0,
@@ -123,8 +123,8 @@ impl AbiValue {
 
         match self {
             Self::Uint(n, _) | Self::Int(n, _) => Size { bits: *n, refs: 0 },
-            Self::VarUint(n, value) => compute_varuint_size(n, value),
-            Self::VarInt(n, value) => compute_varuint_size(n, value.magnitude()),
+            Self::VarUint(n, value) => compute_varint_size(n, &value.to_bytes_be()),
+            Self::VarInt(n, value) => compute_varint_size(n, &value.to_signed_bytes_be()),
             Self::Bool(_) => Size { bits: 1, refs: 0 },
             Self::Cell(_)
             | Self::Bytes(_)
@@ -359,8 +359,8 @@ impl AbiSerializer {
         match value {
             AbiValue::Uint(n, value) => self.write_uint(*n, value),
             AbiValue::Int(n, value) => self.write_int(*n, value),
-            AbiValue::VarUint(n, value) => self.write_varint(*n, Sign::Plus, value),
-            AbiValue::VarInt(n, value) => self.write_varint(*n, value.sign(), value.magnitude()),
+            AbiValue::VarUint(n, value) => self.write_varint(*n, &value.to_bytes_be()),
+            AbiValue::VarInt(n, value) => self.write_varint(*n, &value.to_signed_bytes_be()),
             AbiValue::Bool(value) => self.write_bool(*value),
             AbiValue::Cell(value) => self.write_cell(value),
             AbiValue::Address(value) => self.write_address(value),
@@ -397,10 +397,7 @@ impl AbiSerializer {
         target.store_bigint(value, bits, true)
     }
 
-    fn write_varint(&mut self, size: NonZeroU8, sign: Sign, value: &BigUint) -> Result<(), Error> {
-        let is_negative = sign == Sign::Minus;
-        let bytes = to_signed_bytes_be(is_negative, value);
-
+    fn write_varint(&mut self, size: NonZeroU8, bytes: &[u8]) -> Result<(), Error> {
         let max_value_size = size.get() - 1;
         if bytes.len() > max_value_size as usize {
             return Err(Error::IntOverflow);
@@ -419,7 +416,7 @@ impl AbiSerializer {
         });
 
         ok!(target.store_small_uint(bytes.len() as u8, len_bits));
-        target.store_raw(&bytes, value_bits)
+        target.store_raw(bytes, value_bits)
     }
 
     fn write_bool(&mut self, value: bool) -> Result<(), Error> {
@@ -654,44 +651,6 @@ impl AbiSerializer {
     }
 }
 
-fn to_signed_bytes_be(is_negative: bool, value: &BigUint) -> Vec<u8> {
-    #[inline]
-    fn is_zero(value: &u8) -> bool {
-        *value == 0
-    }
-
-    #[inline]
-    pub fn twos_complement_le(digits: &mut [u8]) {
-        let mut carry = true;
-        for digit in digits {
-            *digit = !*digit;
-            if carry {
-                let (d, c) = digit.overflowing_add(1);
-                *digit = d;
-                carry = c;
-            }
-        }
-    }
-
-    fn negative_to_signed_bytes_be(value: &BigUint) -> Vec<u8> {
-        let mut bytes = value.to_bytes_le();
-        let last_byte = bytes.last().cloned().unwrap_or(0);
-        if last_byte > 0x7f && !(last_byte == 0x80 && bytes.iter().rev().skip(1).all(is_zero)) {
-            // msb used by magnitude, extend by 1 byte
-            bytes.push(0);
-        }
-        twos_complement_le(&mut bytes);
-        bytes.reverse();
-        bytes
-    }
-
-    if is_negative {
-        negative_to_signed_bytes_be(value)
-    } else {
-        value.to_bytes_be()
-    }
-}
-
 const fn fits_into_dict_leaf(key_bits: u16, value_bits: usize) -> bool {
     // NOTE: Label offset is calculated as 2 bits for tag + max ceil(log2(key_bits)).
     // However this might be incorrect as we have other parts of the label to store.
-- 
2.43.0


From e0729b8e9906954ebe08a71a6a6b730c01465d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:25 +0000
Subject: [PATCH 26/31] fix: put the payload into a signed ABI v1 body

---
 src/abi/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index 637cb99..e00df78 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -1214,8 +1214,8 @@ impl UnsignedBody {
                 }
                 None => builder.store_bit_zero()?,
             }
-            builder.store_slice(self.payload.as_slice()?)?;
         }
+        builder.store_slice(self.payload.as_slice()?)?;
 
         builder.build().map_err(From::from)
     }
-- 
2.43.0


From 704f48b6017df5c24b295fdfdf1d2c83dbc4357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:25 +0000
Subject: [PATCH 27/31] fix: write the input id before headers in ABI v1
 messages

---
 src/abi/contract.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index e00df78..081f4cf 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -749,6 +749,11 @@ impl<'a> ExternalInput<'_, 'a> {
             .expire_at
             .unwrap_or((time / 1000) as u32 + DEFAULT_TIMEOUT_SEC);
 
+        // ABI v1 has the input id before headers
+        if abi_version.major == 1 {
+            serializer.write_value(&input_id, context)?;
+        }
+
         for header in self.function.headers.as_ref() {
             serializer.write_header_value(&match header {
                 AbiHeaderType::Time => AbiHeader::Time(time),
@@ -759,7 +764,9 @@ impl<'a> ExternalInput<'_, 'a> {
             })?;
         }
 
-        serializer.write_value(&input_id, context)?;
+        if abi_version.major != 1 {
+            serializer.write_value(&input_id, context)?;
+        }
         serializer.write_tuple(self.tokens, context)?;
 
         let payload = serializer.finalize(context)?.build_ext(context)?;
-- 
2.43.0


From 89b155c01fa7862d2676957753f892c46179efda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:09 +0000
Subject: [PATCH 28/31] fix: count the signature reference of an unsigned ABI
 v1 body once

---
 src/abi/contract.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index 081f4cf..31df87c 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -711,8 +711,11 @@ impl<'a> ExternalInput<'_, 'a> {
         let mut serializer = AbiSerializer::new(abi_version);
 
         serializer.add_offset(if abi_version.major == 1 {
-            // Reserve reference for signature
-            Size { bits: 0, refs: 1 }
+            // Reserve reference for signature (it is a reserved value of its own in an unsigned body)
+            Size {
+                bits: 0,
+                refs: reserve_signature as u8,
+            }
         } else {
             let bits = if abi_version >= AbiVersion::V2_3 {
                 // Reserve only for address as it also ensures the the signature will fit
-- 
2.43.0


From e91ec6865f25cc4572fe9a23419f97f853d7fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:37 +0000
Subject: [PATCH 29/31] fix: apply the limit of StorageStat to the root cell

---
 src/cell/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 5027ef7..6eef9ee 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -1670,6 +1670,10 @@ impl<'a> StorageStat<'a> {
             return true;
         }
 
+        if self.stats.cell_count >= self.limit as u64 {
+            return false;
+        }
+
         self.stats.bit_count += cell.bit_len() as u64;
         self.stats.cell_count += 1;
 
-- 
2.43.0


From 2c9f51c20c0412c5d393358ef2fa5c2e21460d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:37 +0000
Subject: [PATCH 30/31] fix: accept valid counts in StorageUsed::compute

---
 src/models/account/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/account/mod.rs b/src/models/account/mod.rs
index 686c90b..f54ac9e 100644
--- a/src/models/account/mod.rs
+++ b/src/models/account/mod.rs
@@ -48,7 +48,7 @@ impl StorageUsed {
             bits: VarUint56::new(res.bit_count),
         };
 
-        if res.cells.is_valid() || !res.bits.is_valid() {
+        if !res.cells.is_valid() || !res.bits.is_valid() {
             return Err(Error::IntOverflow);
         }
 
-- 
2.43.0


From e06b5374b2b76ec306a2878cfb6479b416f5ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:42 +0000
Subject: [PATCH 31/31] fix: do not preallocate the declared length of an ABI
 array

---
 src/abi/value/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index 1c79741..3fabb79 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -476,7 +476,8 @@ fn load_array_raw(
     ok!(preload_bits(1, slice));
     let dict = RawDict::<32>::load_from(slice)?;
 
-    let mut result = Vec::with_capacity(len);
+    // NOTE: `len` is declared by the input, so it must not be used as a capacity as is.
+    let mut result = Vec::with_capacity(std::cmp::min(len, 128));
     for value in dict.values().take(len) {
         let slice = &mut value?;
         let value = ok!(AbiValue::load_ext(ty, version, true, allow_partial, slice));
-- 
2.43.0

