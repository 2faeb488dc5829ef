From e047738e3d022d92c2ca378114946a8ebc30c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 01/24] fix: camefrom_into_path gave up on paths longer than
 the width squared

---
 src/sqrid/mappos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index ee94def..9707c81 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -112,7 +112,7 @@ where
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::width() + 1;
+    let mut maxiter = P::width().saturating_mul(P::height()).saturating_add(1);
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
-- 
2.43.0


From 680606a24795dbf28d5daf3537b0a69731ab289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 02/24] fix: A* with diagonals overestimated the distance left

---
 src/sqrid/astar.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index e0e1292..168e0e2 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -56,6 +56,22 @@ use super::Grid;
 use super::MapPos;
 use super::Sqrid;
 
+/* Heuristic ******************************************************************/
+
+/// Lower bound of the number of movements between two positions
+///
+/// A diagonal movement changes both coordinates at once, so when
+/// diagonals are enabled only the largest difference counts.
+fn heuristic<P: PosT, const D: bool>(pos: &P, dest: &P) -> usize {
+    if D {
+        let dx = pos.manhattan(&P::new_((dest.x(), pos.y())));
+        let dy = pos.manhattan(&P::new_((pos.x(), dest.y())));
+        dx.max(dy)
+    } else {
+        pos.manhattan(dest)
+    }
+}
+
 /* AstarIterator **************************************************************/
 
 /// Internal A* iterator
@@ -116,7 +132,7 @@ where
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
-                        let priority = Reverse(newcost + next_pos.manhattan(&self.dest));
+                        let priority = Reverse(newcost + heuristic::<P, D>(&next_pos, &self.dest));
                         self.frontier.push((priority, (next_pos, -dir)));
                     }
                 }
-- 
2.43.0


From ffe43aa009662c1ba145fde0016edfb8ba5ef2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 03/24] fix: A* overwrote the best direction to a position with
 a worse, older one

---
 src/sqrid/astar.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index 168e0e2..fd344ff 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -125,8 +125,13 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if priority > self.cost.get(&pos) + heuristic::<P, D>(&pos, &self.dest) {
+                // A shorter way to this position was found after this
+                // entry was pushed
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 let newcost = self.cost.get(&pos) + 1;
                 if let Some(next_pos) = (self.go)(pos, dir) {
@@ -137,10 +142,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 26b69ae0c7c8abb097c86a46a2b927faf7764a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 04/24] fix: uniform-cost search overwrote the cheapest
 direction to a position with an older one

---
 src/sqrid/ucs.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 6fafec4..bc42cf2 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -117,8 +117,13 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if priority > *self.cost.get(&pos) {
+                // A cheaper way to this position was found after this
+                // entry was pushed
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
                     let newcost = self.cost.get(&pos) + costincr;
@@ -129,10 +134,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From b2efe35d9d8ca9bdaa8c76a847e45169bed6224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 05/24] fix: uniform-cost search overflowed on costs it did not
 need

---
 src/sqrid/ucs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index bc42cf2..2a46124 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -126,7 +126,7 @@ where
             }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
-                    let newcost = self.cost.get(&pos) + costincr;
+                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
                         let priority = Reverse(newcost);
-- 
2.43.0


From 739b2a7ce488288e6c9d52e1a1f066ae9b606813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 06/24] fix: breadth-first search ignored an origin that is a
 destination

---
 src/sqrid/bf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index a982bb4..c5137e4 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -194,6 +194,11 @@ where
     P: Copy,
 {
     let mut from = MapPosDir::default();
+    if found(*orig) {
+        // The origin is not yielded by the iterator
+        from.set(*orig, Some(Dir::default()));
+        return Ok((*orig, from));
+    }
     for (pos, dir) in bf_iter::<GoFn, MySetPos, P, D, WORDS, SIZE>(go, orig).flatten() {
         from.set(pos, Some(dir));
         if found(pos) {
-- 
2.43.0


From 4d9731c523019bc80b4fe9b56d7072ede22ce4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 07/24] fix: breadth-first iteration yielded an origin that
 leads to itself

---
 src/sqrid/bf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index c5137e4..f1b6d6f 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -115,6 +115,8 @@ where
             nextfront: vec![(*orig, Dir::default())],
             go,
         };
+        // The origin is visited from the start, even if it leads to itself:
+        bfs.visited.insert(*orig);
         // Process origins:
         let _ = bfs.next();
         bfs
-- 
2.43.0


From df400194e46d4fd6fc735cf4aea3c6640e92ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 08/24] fix: range iteration dropped the last position of a
 range ending at the last row

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 27d61a6..246c745 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -517,8 +517,8 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
                 if p.x() < self.topleft.x() {
                     pos = P::new(self.topleft.x(), p.y()).ok();
                 } else if p.x() > self.botright.x() {
-                    let y = p.y().inc()?;
-                    pos = P::new(self.topleft.x(), y).ok();
+                    let y = p.y().inc();
+                    pos = y.and_then(|y| P::new(self.topleft.x(), y).ok());
                 }
             }
             self.value = pos.filter(|p| p.y() <= self.botright.y());
-- 
2.43.0


From 95de9a80e8a1ab13b8b1aafd4a68acd9add8ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 09/24] fix: gridbool rotations left the center of even-sized
 grids in place

---
 src/sqrid/gridbool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e5f1557..e9b0bf0 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -220,7 +220,7 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
 impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     /// Rotate all elements 90 degrees clockwise
     pub fn rotate_cw(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..=XYMAX / 2 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
@@ -241,7 +241,7 @@ impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     }
     /// Rotate all elements 90 degrees counterclockwise
     pub fn rotate_cc(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..=XYMAX / 2 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
-- 
2.43.0


From f5bf5c9ecb78cdaafad393b5c315f046962bfbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 10/24] fix: a gridbool filled with true differed from an equal
 one set bit by bit

---
 src/sqrid/gridbool.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e9b0bf0..5f53c63 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -87,7 +87,17 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
         } else {
             Self::WORD_FALSE
         };
-        Gridbool([v; WORDS], std::marker::PhantomData)
+        let mut words = [v; WORDS];
+        // Bits past the last position are always zero, otherwise
+        // gridbools with the same values could be different
+        let size = P::WIDTH * P::HEIGHT;
+        let mut i = size / 32;
+        while i < WORDS {
+            let used = size.saturating_sub(i * 32);
+            words[i] &= !(Self::WORD_TRUE >> used);
+            i += 1;
+        }
+        Gridbool(words, std::marker::PhantomData)
     }
 
     #[inline]
-- 
2.43.0


From d343edb81744d581472bda34f94800241b96c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 11/24] fix: positions from (i32, i32) wrapped out-of-bounds
 coordinates

---
 src/sqrid/pos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/pos.rs b/src/sqrid/pos.rs
index edc548d..10c50ba 100644
--- a/src/sqrid/pos.rs
+++ b/src/sqrid/pos.rs
@@ -233,7 +233,7 @@ impl<const XMAX: u16, const YMAX: u16> convert::TryFrom<&(i32, i32)> for Pos<XMA
     type Error = Error;
     #[inline]
     fn try_from(xy: &(i32, i32)) -> Result<Self, Self::Error> {
-        Pos::new(xy.0 as u16, xy.1 as u16)
+        <Self as PosT>::new(xy.0, xy.1)
     }
 }
 
-- 
2.43.0


From 64f1daa573ecc9153bf74614718515b55fd38de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 12/24] fix: position iterators kept announcing the size of the
 whole grid

---
 src/sqrid/postrait.rs | 68 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 246c745..ffe89bd 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -421,6 +421,38 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     }
 }
 
+/* Helpers for the size hints of the iterators */
+
+/// Number of values between `first` and `last`, inclusive, if it can be calculated.
+fn count<T: BoundedInt>(first: T, last: T) -> Option<usize> {
+    // Subtracting two values might be out of the type bounds, so we
+    // subtract as usize
+    let first: usize = first.try_into().ok()?;
+    let last: usize = last.try_into().ok()?;
+    last.checked_sub(first)?.checked_add(1)
+}
+
+/// Number of positions from `(minor, major)` to `(minor_end, major_end)`, inclusive, when
+/// `minor` is the coordinate that changes first; if it can be calculated.
+fn steps<A: BoundedInt, B: BoundedInt>(
+    minor: A,
+    minor_end: A,
+    major: B,
+    major_end: B,
+) -> Option<usize> {
+    let line = count(A::MIN, A::MAX)?;
+    let before = count(A::MIN, minor)? - 1;
+    let after = count(minor_end, A::MAX)? - 1;
+    line.checked_mul(count(major, major_end)?)?
+        .checked_sub(before)?
+        .checked_sub(after)
+}
+
+/// The size hint for an iterator with this many remaining items.
+fn size_hint_from(remaining: Option<usize>) -> (usize, Option<usize>) {
+    (remaining.unwrap_or(0), remaining)
+}
+
 /* PosTIter */
 
 /// Iterator for positions
@@ -461,8 +493,16 @@ impl<const XFIRST: bool, P: PosT> Iterator for PosTIter<XFIRST, P> {
         old
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::dimensions();
-        (size, Some(size))
+        let (Some(cur), Some(end)) = (self.cur, self.end) else {
+            return (0, Some(0));
+        };
+        let (x, y) = cur.tuple();
+        let (xend, yend) = end.tuple();
+        size_hint_from(if XFIRST {
+            steps(x, xend, y, yend)
+        } else {
+            steps(y, yend, x, xend)
+        })
     }
 }
 
@@ -528,8 +568,16 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width() * P::height();
-        (size, Some(size))
+        let Some(pos) = self.value else {
+            return (0, Some(0));
+        };
+        let remaining = || {
+            let line = count(self.topleft.x(), self.botright.x())?;
+            let lines = count(pos.y(), self.botright.y())?;
+            let done = count(self.topleft.x(), pos.x())? - 1;
+            line.checked_mul(lines)?.checked_sub(done)
+        };
+        size_hint_from(remaining())
     }
 }
 
@@ -552,8 +600,10 @@ impl<P: PosT> Iterator for PosTIterInX<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::height();
-        (size, Some(size))
+        match self.0 {
+            Some(pos) => size_hint_from(count(pos.y(), P::Ytype::MAX)),
+            None => (0, Some(0)),
+        }
     }
 }
 
@@ -575,8 +625,10 @@ impl<P: PosT> Iterator for PosTIterInY<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width();
-        (size, Some(size))
+        match self.0 {
+            Some(pos) => size_hint_from(count(pos.x(), P::Xtype::MAX)),
+            None => (0, Some(0)),
+        }
     }
 }
 
-- 
2.43.0


From a866f6da09d4d037d1194fa417b3b996a84d607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 13/24] fix: grid extend_from_vecvec wrapped around rows and
 columns past 65535

---
 src/sqrid/grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 6073151..d4cd094 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -191,7 +191,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     pub fn extend_from_vecvec(&mut self, v: Vec<Vec<T>>) -> Result<(), Error> {
         for (y, line) in v.into_iter().enumerate() {
             for (x, c) in line.into_iter().enumerate() {
-                let p = P::new(x as u16, y as u16)?;
+                let p = P::new(x, y)?;
                 self[p] = c;
             }
         }
-- 
2.43.0


From 42c9f3cb94df875911caedf6ba2e68d34133221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 14/24] fix: Dir::next without diagonals panicked or returned
 diagonals for a diagonal

---
 src/sqrid/dir.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sqrid/dir.rs b/src/sqrid/dir.rs
index a9ca60f..17910d7 100644
--- a/src/sqrid/dir.rs
+++ b/src/sqrid/dir.rs
@@ -166,12 +166,12 @@ impl Dir {
     pub const fn next<const D: bool>(&self) -> Option<Self> {
         // PartialEq is no const, but this is:
         let index = *self as usize;
-        if (D && index == 7) || (!D && index == 6) {
-            None
-        } else if D {
-            Some(Dir::ALL8[(*self as usize) + 1])
+        // Without diagonals, the next cardinal direction:
+        let next = if D { index + 1 } else { (index + 2) & !1 };
+        if next < Dir::ALL8.len() {
+            Some(Dir::ALL8[next])
         } else {
-            Some(Dir::ALL8[(*self as usize) + 2])
+            None
         }
     }
 
-- 
2.43.0


From 8280f1e2213904c3bc2bb4739cc25ffe6313c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 15/24] fix: default of bounded integers was out of bounds when
 0 is

---
 src/sqrid/boundedint.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index e0cede3..ab3a026 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -259,6 +259,13 @@ macro_rules! boundedint_type_create {
             }
         }
 
+        impl<const MIN: $type, const MAX: $type> Default for $name<MIN, MAX> {
+            /// The value closest to zero
+            fn default() -> Self {
+                Self(<$type>::default().clamp(MIN, MAX))
+            }
+        }
+
         impl<const MIN: $type, const MAX: $type> std::fmt::Debug for $name<MIN, MAX> {
             fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                 write!(f, "{}", self.0)
@@ -306,56 +313,56 @@ macro_rules! boundedint_type_create {
 }
 
 /// A bounded u8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU8<const MIN: u8, const MAX: u8>(pub u8);
 boundedint_type_create!(BoundedU8, u8);
 
 /// A bounded u16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU16<const MIN: u16, const MAX: u16>(pub u16);
 boundedint_type_create!(BoundedU16, u16);
 
 /// A bounded u32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU32<const MIN: u32, const MAX: u32>(pub u32);
 boundedint_type_create!(BoundedU32, u32);
 
 /// A bounded u64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU64<const MIN: u64, const MAX: u64>(pub u64);
 boundedint_type_create!(BoundedU64, u64);
 
 /// A bounded u128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU128<const MIN: u128, const MAX: u128>(pub u128);
 boundedint_type_create!(BoundedU128, u128);
 
 /// A bounded isize
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedIsize<const MIN: isize, const MAX: isize>(pub isize);
 boundedint_type_create!(BoundedIsize, isize);
 
 /// A bounded i8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI8<const MIN: i8, const MAX: i8>(pub i8);
 boundedint_type_create!(BoundedI8, i8);
 
 /// A bounded i16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI16<const MIN: i16, const MAX: i16>(pub i16);
 boundedint_type_create!(BoundedI16, i16);
 
 /// A bounded i32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI32<const MIN: i32, const MAX: i32>(pub i32);
 boundedint_type_create!(BoundedI32, i32);
 
 /// A bounded i64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI64<const MIN: i64, const MAX: i64>(pub i64);
 boundedint_type_create!(BoundedI64, i64);
 
 /// A bounded i128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI128<const MIN: i128, const MAX: i128>(pub i128);
 boundedint_type_create!(BoundedI128, i128);
-- 
2.43.0


From 8b583180b6e2408dca3ed84541097a27b3f5079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 16/24] fix: declared width and height of integer pairs were
 off by one

---
 src/sqrid/postrait.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index ffe89bd..f93b68b 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -639,8 +639,12 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize = { <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize;
-            const HEIGHT: usize = { <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize;
+            const WIDTH: usize = (<$xtype>::MAX as usize)
+                .wrapping_sub(<$xtype>::MIN as usize)
+                .saturating_add(1);
+            const HEIGHT: usize = (<$ytype>::MAX as usize)
+                .wrapping_sub(<$ytype>::MIN as usize)
+                .saturating_add(1);
             fn new_(xy: ($xtype, $ytype)) -> Self {
                 xy
             }
-- 
2.43.0


From 435ee8c1b8f82a2be917508f5c1fcc5996949c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 17/24] fix: column and line iteration skipped coordinates
 below the default

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index f93b68b..7fb031e 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -343,7 +343,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInX::<Self>(Some(Self::new_((x, Default::default()))))
+        PosTIterInX::<Self>(Some(Self::new_((x, Self::Ytype::MIN))))
     }
 
     /// Return an iterator that returns all positions in a line.
@@ -351,7 +351,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInY::<Self>(Some(Self::new_((Default::default(), y))))
+        PosTIterInY::<Self>(Some(Self::new_((Self::Xtype::MIN, y))))
     }
 
     /// Calculate a top-left and a bottom-right Pos's that contains all iterated points.
-- 
2.43.0


From b6bb53ce17aa010da5141140489645f7e14836aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 18/24] fix: grids of the wrong size compiled

---
 src/sqrid/grid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index d4cd094..116e6a3 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -79,6 +79,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     where
         T: Copy,
     {
+        let _ = Self::_ASSERTS;
         Grid([item; SIZE], std::marker::PhantomData)
     }
 
@@ -239,6 +240,7 @@ impl<T, const W: u16, const SIZE: usize> Grid<T, Pos<W, W>, SIZE> {
 
 impl<T: Default, P: PosT, const SIZE: usize> Default for Grid<T, P, SIZE> {
     fn default() -> Self {
+        let _ = Self::_ASSERTS;
         Self(
             std::array::from_fn(|_| (T::default())),
             std::marker::PhantomData,
@@ -264,6 +266,7 @@ impl<T: Default, P: PosT, const SIZE: usize> TryFrom<Vec<Vec<T>>> for Grid<T, P,
     type Error = Error;
     #[inline]
     fn try_from(mut vec: Vec<Vec<T>>) -> Result<Self, Self::Error> {
+        let _ = Self::_ASSERTS;
         if vec.len() > P::height() || vec.iter().any(|v| v.len() > P::width()) {
             return Err(Error::OutOfBounds);
         }
-- 
2.43.0


From 9791fcbbe787c0027136822cdf3d8cf19672708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 19/24] fix: flips of pairs of signed integers were wrong or
 panicked

---
 src/sqrid/postrait.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 7fb031e..d38c236 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -169,7 +169,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        Self::new(Self::Xtype::MAX.checked_sub(self.x()).unwrap(), self.y()).unwrap()
+        Self::new_((mirror(self.x()), self.y()))
     }
 
     /// Flip the coordinate horizontally
@@ -178,7 +178,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        Self::new(self.x(), Self::Ytype::MAX.checked_sub(self.y()).unwrap()).unwrap()
+        Self::new_((self.x(), mirror(self.y())))
     }
 
     /// Return the manhattan distance
@@ -421,6 +421,16 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     }
 }
 
+/* Helper for the flips */
+
+/// The value at the same distance from one end of the type as `value` is from the other.
+fn mirror<T: BoundedInt>(value: T) -> T {
+    // One of the differences might be out of the type bounds if MIN is not zero
+    let from_min = || T::MIN.checked_add(T::MAX.checked_sub(value)?);
+    let from_max = || T::MAX.checked_sub(value.checked_sub(T::MIN)?);
+    from_min().or_else(from_max).unwrap()
+}
+
 /* Helpers for the size hints of the iterators */
 
 /// Number of values between `first` and `last`, inclusive, if it can be calculated.
-- 
2.43.0


From 74c41ccebbc604c636aa0ed40679eba4ea7a9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 20/24] fix: new_static checked its arguments at run time
 outside constants

---
 src/sqrid/boundedint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index ab3a026..bd5da20 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -223,7 +223,7 @@ macro_rules! boundedint_type_create {
             /// const Bounded : sqrid::U8Bounded<0,5> = sqrid::U8Bounded::<0,5>::new_static::<9>();
             /// ```
             pub const fn new_static<const V: $type>() -> Self {
-                assert!(V >= MIN && V <= MAX);
+                const { assert!(V >= MIN && V <= MAX) };
                 Self(V)
             }
 
-- 
2.43.0


From ab3ea60d9c5e79926f84efefde0c4ca17db108bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:19 +0000
Subject: [PATCH 21/24] fix: searches over pairs of large or signed integers
 panicked or reported a loop

camefrom_into_path reserved space for the distance between the ends, which pairs of
integers cannot always measure, and bounded the path by width() times height(), which
overflows for u64 and u128 pairs and leaves out the negative half of signed ones.
---
 src/sqrid/mappos.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index 9707c81..7af9ac4 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -105,14 +105,13 @@ where
     P: std::ops::Add<Dir, Output = Result<P, Error>>,
     MapPosDir: MapPos<Option<Dir>, P, WORDS, SIZE>,
 {
-    let distance = orig.manhattan(dest);
-    let mut ret = collections::VecDeque::<Dir>::with_capacity(2 * distance);
+    let mut ret = collections::VecDeque::<Dir>::new();
     let mut pos = *dest;
     if map.get(&pos).is_none() {
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width().saturating_mul(P::height()).saturating_add(1);
+    let mut maxiter = P::WIDTH.saturating_mul(P::HEIGHT).saturating_add(1);
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
-- 
2.43.0


From 7f3ba2e4d5429f5993b652716022b46dfa08ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:15 +0000
Subject: [PATCH 22/24] fix: distances between signed positions panicked when
 they did not fit in the coordinate type

---
 src/sqrid/postrait.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index d38c236..6a71fb2 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -183,17 +183,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
 
     /// Return the manhattan distance
     fn manhattan(&self, pos: &Self) -> usize {
-        let dx = if self.x() > pos.x() {
-            self.x().checked_sub(pos.x()).unwrap()
-        } else {
-            pos.x().checked_sub(self.x()).unwrap()
-        };
-        let dy = if self.y() > pos.y() {
-            self.y().checked_sub(pos.y()).unwrap()
-        } else {
-            pos.y().checked_sub(self.y()).unwrap()
-        };
-        into_or_panic!(dx) + into_or_panic!(dy)
+        difference(self.x(), pos.x()) + difference(self.y(), pos.y())
     }
 
     /// Check that the position is inside the provided limits
@@ -421,6 +411,22 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     }
 }
 
+/* Helper for the distances */
+
+/// Absolute difference of two coordinates
+///
+/// It might not fit in the type of the coordinates, when they are negative and positive.
+fn difference<T: BoundedInt>(a: T, b: T) -> usize {
+    let (low, high) = if a > b { (b, a) } else { (a, b) };
+    if let Some(diff) = high.checked_sub(low) {
+        return into_or_panic!(diff);
+    }
+    let Some(below) = low.inc().and_then(|v| T::default().checked_sub(v)) else {
+        panic!()
+    };
+    into_or_panic!(high) + into_or_panic!(below) + 1
+}
+
 /* Helper for the flips */
 
 /// The value at the same distance from one end of the type as `value` is from the other.
-- 
2.43.0


From 65223bb911c50d24f9d5e7e24ac2d72545a223de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:15 +0000
Subject: [PATCH 23/24] fix: grids over user-defined positions could be read
 and written out of bounds

---
 src/sqrid/grid.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 116e6a3..6ba66f2 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -129,20 +129,20 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
 
     /// Get a reference to an element of the grid.
     ///
-    /// We use get_unchecked internally, because we guarantee the
-    /// validity of the Pos index on construction.
+    /// The index is checked: [`Pos`] guarantees its validity on
+    /// construction, but other position types might not.
     #[inline]
     pub fn get(&self, pos: &P) -> &T {
-        unsafe { self.0.get_unchecked(pos.to_usize()) }
+        &self.0[pos.to_usize()]
     }
 
     /// Get a mut reference to an element of the grid.
     ///
-    /// We use get_unchecked internally, because we guarantee the
-    /// validity of the Pos index on construction.
+    /// The index is checked: [`Pos`] guarantees its validity on
+    /// construction, but other position types might not.
     #[inline]
     pub fn get_mut(&mut self, pos: &P) -> &mut T {
-        unsafe { self.0.get_unchecked_mut(pos.to_usize()) }
+        &mut self.0[pos.to_usize()]
     }
 
     /// Returns an iterator over the grid values
-- 
2.43.0


From 280ad1f2e55e38d2c4c61d103d47fbff894c0fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:27 +0000
Subject: [PATCH 24/24] fix: flips of user-defined positions with negative
 coordinates could panic

---
 src/sqrid/postrait.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 6a71fb2..384957d 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -434,7 +434,8 @@ fn mirror<T: BoundedInt>(value: T) -> T {
     // One of the differences might be out of the type bounds if MIN is not zero
     let from_min = || T::MIN.checked_add(T::MAX.checked_sub(value)?);
     let from_max = || T::MAX.checked_sub(value.checked_sub(T::MIN)?);
-    from_min().or_else(from_max).unwrap()
+    let from_sum = || T::MIN.checked_add(T::MAX)?.checked_sub(value);
+    from_min().or_else(from_max).or_else(from_sum).unwrap()
 }
 
 /* Helpers for the size hints of the iterators */
-- 
2.43.0

