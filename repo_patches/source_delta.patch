From 1db1a681cc6d0af1225db6ce5f5f399c2a9b7372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:43 +0000
Subject: [PATCH 001/113] fix: sort by a reversed key no longer reverses twice
 when the cached prefix ties

---
 src/comp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index ebe1cfa..8c65158 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -247,7 +247,8 @@ impl LineComp {
         } else if left.complete() && right.complete() {
             Ordering::Equal
         } else {
-            self.comp_lines(left.get(base), right.get(base))
+            self.comp
+                .comp_lines(left.get(base), right.get(base), self.delim, 0, 0)
         };
         self.reverse(x)
     }
-- 
2.43.0


From eee36f346cc7f49d3db2722673d764427f254aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:43 +0000
Subject: [PATCH 002/113] fix: whole line sort keys are cached from the line,
 not from the whole buffer

---
 src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index 8c65158..8935486 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -445,7 +445,7 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, value);
+        self.comp.fill_cache(item, item.get(value));
     }
 
     fn set(&mut self, value: &[u8]) {
-- 
2.43.0


From f9575f0958231fc97c732d0fadd5edeb0859a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:43 +0000
Subject: [PATCH 003/113] fix: short sort keys that differ only by NUL bytes
 are not equal

---
 src/comp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 8935486..0675442 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1588,7 +1588,7 @@ impl Compare for ComparePlain {
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = u64::from_be_bytes(make_array(value));
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(value.len() <= 8 && !value.contains(&0));
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
@@ -1614,7 +1614,7 @@ impl Compare for CompareLower {
             x.make_ascii_lowercase();
         }
         item.cache = u64::from_be_bytes(aa);
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(value.len() <= 8 && !value.contains(&0));
     }
     fn set(&mut self, value: &[u8]) {
         value.assign_lower(&mut self.value);
-- 
2.43.0


From 832fa28bc0fb13b893f0497ab4333ea74fe5bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:32 +0000
Subject: [PATCH 004/113] fix: numeric comparison is a total order that agrees
 with the value of the number

---
 src/comp.rs | 84 ++++++++++++++++++++++-------------------------------
 1 file changed, 35 insertions(+), 49 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 0675442..b4dc6e3 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -648,39 +648,36 @@ fn skip_comma(mut a: &[u8]) -> &[u8] {
     a
 }
 
+/// compare fractional parts, if any. Missing digits are zeros.
 fn frac_cmp(mut a: &[u8], mut b: &[u8]) -> Ordering {
-    debug_assert!(!a.is_empty());
-    debug_assert!(!b.is_empty());
-    debug_assert!(a[0] == b'.');
-    debug_assert!(b[0] == b'.');
-    a = &a[1..];
-    b = &b[1..];
-    while !a.is_empty() && !b.is_empty() && (a[0] == b[0]) && a[0].is_ascii_digit() {
-        a = &a[1..];
-        b = &b[1..];
-    }
-    if a.is_empty() {
-        if b.is_empty() || !b[0].is_ascii_digit() {
-            Ordering::Equal
+    fn skip_point(a: &[u8]) -> &[u8] {
+        if !a.is_empty() && a[0] == b'.' {
+            &a[1..]
         } else {
-            Ordering::Less
+            &a[..0]
         }
-    } else if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            Ordering::Greater
+    }
+    fn digit(a: &mut &[u8]) -> Option<u8> {
+        if !a.is_empty() && a[0].is_ascii_digit() {
+            let ret = a[0];
+            *a = &a[1..];
+            Some(ret)
         } else {
-            Ordering::Equal
+            None
         }
-    } else if a[0].is_ascii_digit() {
-        if b[0].is_ascii_digit() {
-            a[0].cmp(&b[0])
-        } else {
-            Ordering::Greater
+    }
+    a = skip_point(a);
+    b = skip_point(b);
+    loop {
+        let left = digit(&mut a);
+        let right = digit(&mut b);
+        if left.is_none() && right.is_none() {
+            return Ordering::Equal;
+        }
+        let ret = left.unwrap_or(b'0').cmp(&right.unwrap_or(b'0'));
+        if ret != Ordering::Equal {
+            return ret;
         }
-    } else if b[0].is_ascii_digit() {
-        Ordering::Less
-    } else {
-        Ordering::Equal
     }
 }
 
@@ -693,25 +690,7 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         a = skip_comma(a);
         b = skip_comma(b);
     }
-    if a.is_empty() && b.is_empty() {
-        return Ordering::Equal;
-    }
-    if a.is_empty() {
-        if b[0].is_ascii_digit() {
-            return Ordering::Less;
-        }
-        return Ordering::Equal;
-    }
-    if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            return Ordering::Greater;
-        }
-        return Ordering::Equal;
-    }
-    if a[0] == b'.' && b[0] == b'.' {
-        return frac_cmp(a, b);
-    }
-    let tmp = a[0].cmp(&b[0]);
+    let tmp = a.get(0..1).cmp(&b.get(0..1));
 
     let mut log_a = 0;
     while !a.is_empty() && a[0].is_ascii_digit() {
@@ -731,7 +710,7 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         return log_a.cmp(&log_b);
     }
     if log_a == 0 {
-        return Ordering::Equal;
+        return frac_cmp(a, b);
     }
     tmp
 }
@@ -754,6 +733,12 @@ fn num_cmp_signed(mut a: &[u8], mut b: &[u8]) -> Ordering {
         false
     };
 
+    if left_minus != right_minus
+        && num_cmp_unsigned(a, b"") == Ordering::Equal
+        && num_cmp_unsigned(b, b"") == Ordering::Equal
+    {
+        return Ordering::Equal; // -0 is 0
+    }
     if left_minus {
         if right_minus {
             return num_cmp_unsigned(b, a);
@@ -1656,8 +1641,9 @@ impl Compare for CompareNumeric {
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
         num_cmp_signed(left, right) == Ordering::Equal
     }
-    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
-        item.cache = ulp_to_ulong(value.to_f64_lossy());
+    fn fill_cache(&self, item: &mut Item, _value: &[u8]) {
+        item.cache = 0; // f64 can't tell all values apart
+        item.clear_complete();
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
-- 
2.43.0


From f4b2867a12ae73945a51f1a5bce9d379155456e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:32 +0000
Subject: [PATCH 005/113] fix: float and expr sort keys agree on -0, 0 and NaN
 in all comparisons

---
 src/comp.rs | 12 ++++++------
 src/num.rs  | 17 ++++++++---------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index b4dc6e3..27e71e2 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1681,7 +1681,7 @@ impl Compare for Comparef64 {
         fcmp(left.to_f64_lossy(), right.to_f64_lossy())
     }
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
-        left.to_f64_lossy() == right.to_f64_lossy()
+        fcmp(left.to_f64_lossy(), right.to_f64_lossy()) == Ordering::Equal
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = ulp_to_ulong(value.to_f64_lossy());
@@ -1694,7 +1694,7 @@ impl Compare for Comparef64 {
         fcmp(self.value, right.to_f64_lossy())
     }
     fn equal_self(&self, right: &[u8]) -> bool {
-        self.value == right.to_f64_lossy()
+        fcmp(self.value, right.to_f64_lossy()) == Ordering::Equal
     }
 }
 
@@ -1856,7 +1856,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval(left);
         let right_val = self.exprs[right_file].eval(right);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn comp_lines(
         &mut self,
@@ -1880,7 +1880,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval_line(left, delim);
         let right_val = self.exprs[right_file].eval_line(right, delim);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn lookup(&mut self, fieldnames: &[&str], file_num: usize) -> Result<()> {
         while self.exprs.len() < (file_num + 1) {
@@ -1907,7 +1907,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
         let value = self.exprs[0].eval(right);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
     fn comp_self_line(&mut self, right: &[u8], delim: u8) -> Ordering {
         let value = self.exprs[0].eval_line(right, delim);
@@ -1915,7 +1915,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_line(&mut self, right: &[u8], delim: u8) -> bool {
         let value = self.exprs[0].eval_line(right, delim);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
 }
 
diff --git a/src/num.rs b/src/num.rs
index 24ad3e4..46c1c21 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -101,21 +101,20 @@ impl Junk {
     }
 }
 
-/// ordering for f64
+/// ordering for f64. NaN is equal to itself and greater than everything else.
 #[must_use]
 pub fn fcmp(x: f64, y: f64) -> Ordering {
-    if x == y {
-        return Ordering::Equal;
-    }
-    if x > y {
-        return Ordering::Greater;
-    }
-    Ordering::Less
+    x.partial_cmp(&y)
+        .unwrap_or_else(|| x.is_nan().cmp(&y.is_nan()))
 }
 
-/// convert an f64 to a similarly ordered u64
+/// convert an f64 to a u64, ordered as in `fcmp`
 #[must_use]
 pub fn ulp_to_ulong(d: f64) -> u64 {
+    if d.is_nan() {
+        return u64::MAX;
+    }
+    let d = d + 0.0; // -0.0 is equal to 0.0
     let x = u64::from_ne_bytes(d.to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
         x ^ 0xffff_ffff_ffff_ffff_u64
-- 
2.43.0


From 2315bce42a4acce3cb030739ad0952f10f40d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:32 +0000
Subject: [PATCH 006/113] fix: out of range numbers saturate, and integer
 suffixes M to E have their value

---
 src/num.rs  | 20 ++++++++++----------
 src/text.rs | 17 +++++++++--------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 46c1c21..1d98c5d 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -262,11 +262,11 @@ const P10_LETTERS: &[u8] = b"0kmgtpezy";
 const P2_VALUES_U: [usize; 9] = [
     1,
     1024,
-    1024 ^ 2,
-    1024 ^ 3,
-    1024 ^ 4,
-    1024 ^ 5,
-    1024 ^ 6,
+    1024_usize.pow(2),
+    1024_usize.pow(3),
+    1024_usize.pow(4),
+    1024_usize.pow(5),
+    1024_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
@@ -284,11 +284,11 @@ const P2_VALUES_F: [f64; 9] = [
 const P10_VALUES_U: [usize; 9] = [
     1,
     1000,
-    1000 ^ 2,
-    1000 ^ 3,
-    1000 ^ 4,
-    1000 ^ 5,
-    1000 ^ 6,
+    1000_usize.pow(2),
+    1000_usize.pow(3),
+    1000_usize.pow(4),
+    1000_usize.pow(5),
+    1000_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
diff --git a/src/text.rs b/src/text.rs
index cecf811..20fb822 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -631,14 +631,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as usize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as usize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul;
+                ret = ret.saturating_mul(mul);
             }
         }
         (ret, curr)
@@ -659,14 +659,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as isize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as isize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul as isize;
+                ret = ret.saturating_mul(isize::try_from(mul).unwrap_or(isize::MAX));
             }
         }
         ret *= neg;
@@ -713,8 +713,8 @@ impl Text for [u8] {
             }
             let mut exponent: i32 = 0;
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                exponent *= 10;
-                exponent += i32::from(curr[0] - b'0');
+                exponent = exponent.saturating_mul(10);
+                exponent = exponent.saturating_add(i32::from(curr[0] - b'0'));
                 curr = &curr[1..];
             }
             exponent *= neg_exp;
@@ -738,6 +738,7 @@ impl Text for [u8] {
                 //  	    These two lose accuracy
                 //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LOG2_10).exp2();},
                 //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LN_10).exp();},
+                _ if ret == 0.0 => {} // exp10 might be infinite
                 _ => {
                     ret *= libm::exp10(f64::from(exponent));
                 }
-- 
2.43.0


From c3465bdbc9cb5f3e25564b64ed1dd7de43438e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:32 +0000
Subject: [PATCH 007/113] fix: glob tries every position after a star, and does
 not run off the end

---
 src/text.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index 20fb822..6bb1d84 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -247,8 +247,10 @@ pub trait Text {
                 buff = buff.skip_first();
             } else {
                 wild = mp;
-                cp = cp.skip_first();
                 buff = cp;
+                if !cp.is_empty() {
+                    cp = cp.skip_first();
+                }
             }
         }
 
-- 
2.43.0


From a1a45c13be03097f8bd02f067d265a367f971bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:15 +0000
Subject: [PATCH 008/113] fix: merging sorted files keeps equal lines in file
 order, so unique prints the first

---
 src/sort.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sort.rs b/src/sort.rs
index 5a3a592..fc27324 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -24,6 +24,7 @@ impl MergeContext<'_> {
     fn compare(&mut self, a: usize, b: usize) -> Ordering {
         self.cmp
             .comp_cols(self.open[a].curr_line(), self.open[b].curr_line())
+            .then(a.cmp(&b)) // equal lines come out in file order
             .reverse()
     }
     fn equal(&mut self, a: &TextLine, b: usize) -> bool {
-- 
2.43.0


From 67a22d326473aa723ea6df340ca31221b2c1dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:17 +0000
Subject: [PATCH 009/113] fix: sort no longer fails or drops data when the
 buffer fills exactly, or is smaller than a line

---
 src/sort.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index fc27324..62b0089 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -410,6 +410,16 @@ impl Sorter {
         loop {
             debug_assert!(self.check());
             const SIZE: usize = 16 * 1024;
+            if self.data_used >= self.data.capacity() {
+                self.calc();
+                if self.ptrs.is_empty() {
+                    // a single line longer than the buffer
+                    self.data.reserve(self.data.capacity().max(SIZE));
+                } else {
+                    self.do_sort();
+                    self.write_tmp()?;
+                }
+            }
             let sz = self.prepare(SIZE);
             debug_assert!(sz > 0);
             let nbytes = r.read(&mut self.data[self.data_used..self.data_used + sz])?;
@@ -421,12 +431,6 @@ impl Sorter {
                 return Ok(());
             }
             self.data_used += nbytes;
-            // calc new stuff
-            if self.data_used >= self.data.capacity() {
-                self.calc();
-                self.do_sort();
-                self.write_tmp()?;
-            }
         }
     }
     /// Populate 'ptrs' from 'data'
@@ -457,7 +461,7 @@ impl Sorter {
         }
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
-        let nsize = self.data.len() - self.data_calc;
+        let nsize = self.data_used - self.data_calc;
         for i in 0..nsize {
             self.data[i] = self.data[self.data_calc + i];
         }
@@ -516,7 +520,7 @@ impl Sorter {
             if is_cdx(&first_line) {
                 w.write_all(&first_line)?;
             } else {
-                self.add_data(&first_line)?;
+                return self.add(first_line.chain(&mut *f));
             }
         }
         self.add(&mut *f)
-- 
2.43.0


From ab2fc066f97201faf4f4073c9753733b30fa4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:10 +0000
Subject: [PATCH 010/113] fix: sort --merge resolves named keys, checks headers
 and completes the last line

---
 src/sort.rs | 106 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 63 insertions(+), 43 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 62b0089..71d94b5 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -9,7 +9,7 @@ fancier sort
 
 use crate::comp::Item;
 use crate::prelude::*;
-use crate::util::{copy, get_reader, is_cdx, make_header, HeaderChecker};
+use crate::util::{copy, get_reader, is_cdx, make_header, HeadMode, HeaderChecker};
 use binary_heap_plus::BinaryHeap;
 use std::cell::RefCell;
 //use std::mem;
@@ -42,7 +42,7 @@ pub struct SortConfig {
 }
 
 impl SortConfig {
-    /// merge all the files into w, using tmp
+    /// merge all the temporary files into w, using tmp
     pub fn merge_t(
         &self,
         in_files: &[String],
@@ -59,43 +59,50 @@ impl SortConfig {
         }
     }
 
-    /// merge all the files into w, using tmp
+    /// merge all the temporary files into w, using tmp
     pub fn merge_t2(
         &self,
         in_files: &[String],
         cmp: &mut LineCompList,
-        mut w: impl Write,
+        w: impl Write,
         unique: bool,
         _tmp: &TempDir,
     ) -> Result<()> {
-        if in_files.is_empty() {
-            return Ok(());
-        }
         if in_files.len() == 1 && !unique {
             let r = get_reader(&in_files[0])?;
             return copy(r.0, w);
         }
-        let mc = Rc::new(RefCell::new(MergeContext {
-            open: Vec::with_capacity(in_files.len()),
-            cmp,
-        }));
-        let mut heap = BinaryHeap::new_by(|a: &usize, b: &usize| mc.borrow_mut().compare(*a, *b));
-        {
-            let mut mcm = mc.borrow_mut();
-            for x in in_files {
-                mcm.open.push(Reader::new_open2(x)?);
-            }
-            if !mcm.cmp.need_split() {
-                for x in &mut mcm.open {
-                    x.do_split(false);
-                }
-            }
-            // FIXME -- Check Header
-            if mcm.open[0].has_header() {
-                w.write_all(mcm.open[0].header().line.as_bytes())?;
+        self.merge_open2(Self::open_tmp(in_files)?, cmp, w, unique)
+    }
+
+    /// temporary files have no header, and their first line might look like one
+    fn open_tmp(in_files: &[String]) -> Result<Vec<Reader>> {
+        let text = TextFileMode {
+            head_mode: HeadMode::No,
+            ..TextFileMode::default()
+        };
+        in_files
+            .iter()
+            .map(|x| Reader::new_open(x, &text))
+            .collect()
+    }
+
+    fn merge_open2(
+        &self,
+        mut open: Vec<Reader>,
+        cmp: &mut LineCompList,
+        mut w: impl Write,
+        unique: bool,
+    ) -> Result<()> {
+        let num_files = open.len();
+        if !cmp.need_split() {
+            for x in &mut open {
+                x.do_split(false);
             }
         }
-        for i in 0..in_files.len() {
+        let mc = Rc::new(RefCell::new(MergeContext { open, cmp }));
+        let mut heap = BinaryHeap::new_by(|a: &usize, b: &usize| mc.borrow_mut().compare(*a, *b));
+        for i in 0..num_files {
             if !mc.borrow().open[i].is_done() {
                 heap.push(i);
             }
@@ -137,36 +144,37 @@ impl SortConfig {
         Ok(())
     }
 
-    /// merge all the files into w, using tmp
+    /// merge all the temporary files into w, using tmp
     pub fn merge_t1(
         &self,
         in_files: &[String],
         cmp: &mut LineCompList,
-        mut w: impl Write,
+        w: impl Write,
         unique: bool,
         _tmp: &TempDir,
     ) -> Result<()> {
-        if in_files.is_empty() {
-            return Ok(());
-        }
         if in_files.len() == 1 && !unique {
             let r = get_reader(&in_files[0])?;
             return copy(r.0, w);
         }
-        let mut open_files: Vec<Reader> = Vec::with_capacity(in_files.len());
-        for x in in_files {
-            open_files.push(Reader::new_open2(x)?);
+        self.merge_open1(Self::open_tmp(in_files)?, cmp, w, unique)
+    }
+
+    fn merge_open1(
+        &self,
+        mut open_files: Vec<Reader>,
+        cmp: &mut LineCompList,
+        mut w: impl Write,
+        unique: bool,
+    ) -> Result<()> {
+        if open_files.is_empty() {
+            return Ok(());
         }
         if !cmp.need_split() {
             for x in &mut open_files {
                 x.do_split(false);
             }
         }
-        // FIXME -- Check Header
-        if open_files[0].has_header() {
-            w.write_all(open_files[0].header().line.as_bytes())?;
-        }
-
         let nums: Vec<usize> = (0..open_files.len()).collect();
         let mut mm = MergeTreeItem::new_tree(&nums);
         if unique {
@@ -206,14 +214,26 @@ impl SortConfig {
         &self,
         files: &[String],
         cmp: &mut LineCompList,
-        w: impl Write,
+        mut w: impl Write,
         unique: bool,
     ) -> Result<()> {
-        let tmp = TempDir::new()?;
+        let open = files
+            .iter()
+            .map(|x| Reader::new_open2(x))
+            .collect::<Result<Vec<_>>>()?;
+        let mut checker = HeaderChecker::new();
+        for (f, fname) in open.iter().zip(files) {
+            if !f.is_empty() {
+                if checker.check_file(f, fname)? {
+                    w.write_all(f.header().line.as_bytes())?;
+                }
+                cmp.lookup(&f.names())?;
+            }
+        }
         if self.alt_merge {
-            self.merge_t1(files, cmp, w, unique, &tmp)
+            self.merge_open1(open, cmp, w, unique)
         } else {
-            self.merge_t2(files, cmp, w, unique, &tmp)
+            self.merge_open2(open, cmp, w, unique)
         }
     }
     /*
-- 
2.43.0


From b74b3ed1bf721a318dc5196fcda559ed1da61bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:10 +0000
Subject: [PATCH 011/113] fix: a column counted from the end, e.g. +1, can be
 used as a key

---
 src/column.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index e2fb6a1..2f04ac2 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1492,7 +1492,8 @@ impl NamedCol {
         let mut ch = spec.first();
         let was_plus = ch == '+';
         if was_plus {
-            ch = spec.take_first();
+            spec = spec.skip_first();
+            ch = if spec.is_empty() { '+' } else { spec.first() };
         }
         if ch.is_ascii_digit() && ch != '0' {
             let (a, b) = spec.to_usize();
-- 
2.43.0


From f121c784f4a5333a61f6e89a5a1810d8482a78eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:13 +0000
Subject: [PATCH 012/113] fix: gzip data and CDX headers are recognized even if
 the first bytes arrive in pieces

---
 src/util.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 297475d..841b3ce 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1238,6 +1238,16 @@ fn unescape_vec(data: &[u8]) -> Vec<u8> {
     ret
 }
 
+/// Make a BufReader whose first buffer always holds enough bytes to recognize a file type or header,
+/// no matter in how small pieces the data arrives.
+fn buffered(mut inner: Box<dyn Read>) -> Result<io::BufReader<Box<dyn Read>>> {
+    let mut start = Vec::new();
+    inner.by_ref().take(8).read_to_end(&mut start)?;
+    Ok(io::BufReader::new(Box::new(
+        io::Cursor::new(start).chain(inner),
+    )))
+}
+
 /// Make an Infile from a file name
 pub fn get_reader(name: &str) -> Result<Infile> {
     let inner: Box<dyn Read> = {
@@ -1252,10 +1262,10 @@ pub fn get_reader(name: &str) -> Result<Infile> {
             Box::new(fs::File::open(name)?)
         }
     };
-    let mut outer = io::BufReader::new(inner);
+    let mut outer = buffered(inner)?;
     let start = outer.fill_buf()?;
     if start.starts_with(&[0x1fu8, 0x8bu8, 0x08u8]) {
-        outer = io::BufReader::new(Box::new(MultiGzDecoder::new(outer)));
+        outer = buffered(Box::new(MultiGzDecoder::new(outer)))?;
     }
     Ok(Infile::new(outer, name))
 }
-- 
2.43.0


From 995ebec653126741faf333573e01a510e7ba40af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:35 +0000
Subject: [PATCH 013/113] fix: sort --check resolves named keys, and stops
 after the requested number of reports

---
 src/bin/cdx/sort_main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index f0d6b3e..5e0c13f 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -58,6 +58,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.is_done() {
                 continue;
             }
+            comp.lookup(&f.names())?;
             loop {
                 if f.getline()? {
                     break;
@@ -65,7 +66,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 if comp_check(&f, &mut comp, unique) {
                     reported += 1;
                     if reported >= num_checks {
-                        break;
+                        return cdx_err(CdxError::Silent);
                     }
                 }
             }
-- 
2.43.0


From 5e852994ae7b6df24bc303cf7520981576c52943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:10 +0000
Subject: [PATCH 014/113] fix: an existing output file is replaced, rather than
 partly overwritten

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 841b3ce..f296eb8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1207,7 +1207,7 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
         } else if name == "--" {
             Box::new(io::stderr())
         } else {
-            Box::new(fs::OpenOptions::new().write(true).create(true).open(name)?)
+            Box::new(fs::File::create(name)?)
         }
     };
     Ok(Outfile::new(io::BufWriter::new(inner), name))
-- 
2.43.0


From 5d81edf2c18ca3e273fea60dfee084326d3ed270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:10 +0000
Subject: [PATCH 015/113] fix: join --also does not invent a header for files
 that have none

---
 src/util.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index f296eb8..9703731 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1676,9 +1676,11 @@ impl Reader {
         w.write_all(&self.prev_line(lookback).line)?;
         Ok(())
     }
-    /// write header
+    /// write header, if there is one
     pub fn write_header(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(self.cont.header.line.as_bytes())?;
+        if self.has_header() {
+            w.write_all(self.cont.header.line.as_bytes())?;
+        }
         Ok(())
     }
     /// write header
-- 
2.43.0


From 7763517ed3e27d00efdcc17d761924c215ebde21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 016/113] fix: join --output honours new column names, e.g.
 1.new:2

---
 src/join.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/join.rs b/src/join.rs
index c7f9a94..020cc39 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -1,6 +1,6 @@
 //! Join files together by matching column values
 
-use crate::column::{OutCol, ScopedValue};
+use crate::column::{write_colname, OutCol, ScopedValue};
 use crate::comp::CompMaker;
 use crate::prelude::*;
 use crate::util::Outfile;
@@ -123,8 +123,7 @@ impl OneOutCol {
         Ok(())
     }
     fn write_head(&self, mut w: impl Write, f: &[Reader]) -> Result<()> {
-        w.write_all(f[self.file].header().get(self.col.num).as_bytes())?;
-        Ok(())
+        write_colname(&mut w, &self.col, f[self.file].header())
     }
 }
 
-- 
2.43.0


From 57300cc6c920c32ff36d6469251b8676a95483f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:52 +0000
Subject: [PATCH 017/113] fix: uniq splits lines into columns whenever
 aggregators or --which need them

---
 src/bin/cdx/uniq_main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 88822ac..491c1cb 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -150,6 +150,9 @@ impl Count {
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
         self.comp.lookup(fieldnames)
     }
+    fn need_split(&self) -> bool {
+        self.comp.need_split()
+    }
 }
 
 pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
@@ -229,7 +232,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         return Ok(());
     }
 
-    f.do_split(comp.need_split());
+    f.do_split(comp.need_split() || !agg.is_empty() || count.need_split());
     let mut matches = 1;
     if !agg.is_empty() {
         agg.add(f.curr_line());
-- 
2.43.0


From d4951fa22b70a463988227b3bcfd266c2cb25f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:52 +0000
Subject: [PATCH 018/113] fix: uniq without a key compares whole lines, rather
 than treating all lines as equal

---
 src/bin/cdx/uniq_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 491c1cb..61b093e 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -191,6 +191,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
 
     assert_eq!(files.len(), 1);
+    if comp.is_empty() {
+        comp.add("")?;
+    }
 
     let mut f = Reader::new(&settings.text_in);
     f.open(&files[0])?;
-- 
2.43.0


From 7520f86f26d1ff173bfc83a61f49363be387f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:52 +0000
Subject: [PATCH 019/113] fix: the amean aggregator prints the mean, not the
 sum

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 311b2f7..a534761 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1061,7 +1061,7 @@ impl Agg for AMean {
         self.num += 1;
     }
     fn result(&mut self, w: &mut dyn Write, fmt: NumFormat) -> Result<()> {
-        fmt.print(self.val as f64, w)
+        fmt.print(self.value(), w)
     }
     fn reset(&mut self) {
         self.val = 0;
-- 
2.43.0


From 423030f658414170dd24ae6be225b8d9df4afdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:52 +0000
Subject: [PATCH 020/113] fix: the max aggregator starts from the first value,
 not from an empty one

---
 src/agg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index a534761..e49d53f 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1072,6 +1072,7 @@ impl Agg for AMean {
 struct Max {
     comp: Comp,
     val: Vec<u8>,
+    empty: bool,
 }
 
 impl Max {
@@ -1079,13 +1080,15 @@ impl Max {
         Ok(Self {
             comp: CompMaker::make_comp(spec)?,
             val: Vec::new(),
+            empty: true,
         })
     }
 }
 
 impl Agg for Max {
     fn add(&mut self, data: &[u8]) {
-        if self.comp.comp.comp(&self.val, data) == Ordering::Less {
+        if self.empty || self.comp.comp.comp(&self.val, data) == Ordering::Less {
+            self.empty = false;
             self.val.clear();
             self.val.extend_from_slice(data);
         }
@@ -1096,6 +1099,7 @@ impl Agg for Max {
     }
     fn reset(&mut self) {
         self.val.clear();
+        self.empty = true;
     }
     fn value(&self) -> f64 {
         self.val.to_f64_lossy()
-- 
2.43.0


From 9407d085823a2d816a863064529d08b5543ad461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:52 +0000
Subject: [PATCH 021/113] fix: merge accepts Dxy as the last part, or followed
 by comp

---
 src/agg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/agg.rs b/src/agg.rs
index e49d53f..7ba6ccf 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -750,6 +750,7 @@ impl Merge {
                     }
                     sp = &sp[1..];
                 }
+                continue;
             }
             if let Some((a, b)) = sp.split_once('.') {
                 m.add_one(a)?;
-- 
2.43.0


From 3c968f183d0e1caa5a53ea387b52fa579e0b18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:01 +0000
Subject: [PATCH 022/113] fix: merge counts only the parts that min_len and
 max_len keep, and max_parts:0 writes none

---
 src/agg.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 7ba6ccf..14b3109 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -815,21 +815,18 @@ impl Agg for Merge {
                     .equal(a.get(&self.data.line), b.get(&self.data.line))
             });
         }
+        let (min_len, max_len) = (self.min_len, self.max_len);
+        self.data
+            .parts
+            .retain(|x| x.len() >= min_len && x.len() <= max_len);
         if self.do_count {
-            fmt.print(self.data.parts().len() as f64, w)?;
+            fmt.print(self.data.parts.len() as f64, w)?;
         } else {
-            let mut num_written = 0;
-            for x in &self.data.parts {
-                if x.len() >= self.min_len && x.len() <= self.max_len {
-                    if num_written > 0 {
-                        w.write_all(&[self.out_delim])?;
-                    }
-                    w.write_all(x.get(self.data.line()))?;
-                    num_written += 1;
-                    if num_written >= self.max_parts {
-                        break;
-                    }
+            for (i, x) in self.data.parts.iter().take(self.max_parts).enumerate() {
+                if i > 0 {
+                    w.write_all(&[self.out_delim])?;
                 }
+                w.write_all(x.get(self.data.line()))?;
             }
         }
         Ok(())
-- 
2.43.0


From 78fbd47ab8cabe031ab2f67eb8e0838a2d28ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:50 +0000
Subject: [PATCH 023/113] fix: binsearch does not treat the header as a line of
 data

---
 src/binsearch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index e34e486..2daa4e8 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -44,10 +44,10 @@ impl MemMap {
             delim,
         })
     }
-    /// get underlying memmap data
+    /// get underlying memmap data, without the header
     #[must_use]
     pub fn get(&self) -> &[u8] {
-        &self.map[..]
+        &self.map[self.header_len..]
     }
     /// get column delimiter
     #[must_use]
-- 
2.43.0


From 193b14e56bc037c8d416f1b09dc9520c0fc51ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 024/113] fix: binsearch finds the start of an empty line, and
 of a last line without newline

---
 src/binsearch.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index 2daa4e8..0532ecc 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -88,12 +88,9 @@ pub const fn find_end(data: &[u8], mut start: usize) -> usize {
 /// that is, starting in the middle of a line, find the start of it
 #[must_use]
 pub const fn find_start(data: &[u8], mut start: usize) -> usize {
-    while (start > 0) && (data[start] != b'\n') {
+    while (start > 0) && (data[start - 1] != b'\n') {
         start -= 1;
     }
-    if data[start] == b'\n' {
-        start += 1;
-    }
     start
 }
 
@@ -101,13 +98,10 @@ pub const fn find_start(data: &[u8], mut start: usize) -> usize {
 /// return the beginning of the previous line
 #[must_use]
 pub const fn find_prev(data: &[u8], start: usize) -> usize {
-    if start <= 1 {
+    if start == 0 {
         return 0;
     }
-    if data[start - 1] != b'\n' {
-        return find_start(data, start);
-    }
-    find_start(data, start - 2)
+    find_start(data, start - 1)
 }
 
 /// return first line that matches (with newline) or empty slice if none
-- 
2.43.0


From ad5fdb8cca7a3e66191044e21cad76442ac4f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 025/113] fix: binsearch --sub-delim no longer panics

---
 src/bin/cdx/binsearch_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 7faf54e..d006e4f 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -115,7 +115,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             filename = Some(f);
         } else if x.name == "context" {
             context.set(&x.value)?;
-        } else if x.name == "subdelim" {
+        } else if x.name == "sub-delim" {
             if x.value.len() != 1 {
                 return err!("--sub-delim value must be a single character");
             }
-- 
2.43.0


From 1a89354dc1304768c7935f1432da2ba170808e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:03 +0000
Subject: [PATCH 026/113] fix: binsearch --filename without a number of parts
 writes the file name, not nothing

---
 src/bin/cdx/binsearch_main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index d006e4f..d51295c 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -173,7 +173,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
                 let end = find_end(m.get(), start);
-                w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
+                if file.tail == 0 {
+                    w.write_all(f.as_bytes())?;
+                } else {
+                    w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
+                }
                 w.write_all(&[b'\t'])?;
                 write_all_nl(&mut w.0, &m.get()[start..end])?;
                 start = end;
-- 
2.43.0


From 5b3ad8ba6d0f3f4f32a895836cabb2a0b396dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:07 +0000
Subject: [PATCH 027/113] fix: an output header without any columns no longer
 underflows

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 2f04ac2..29f9af1 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -247,7 +247,7 @@ impl ColumnHeader {
     }
 
     fn get_size(&self) -> usize {
-        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len() - 1
+        self.cols.iter().map(|x| x.len() + 1).sum::<usize>()
     }
     /// append column names, joined
     fn add_head(&self, res: &mut String, text: &TextFileMode) {
-- 
2.43.0


From 8a3d808799195e906e2225dac21cfe49c6ed63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 028/113] fix: column lists allow matchers anywhere, and an
 empty list does not panic

---
 src/column.rs | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 29f9af1..ee36b06 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -775,14 +775,20 @@ impl ColumnSet {
 
     fn find_trans(spec: &str) -> Option<(&str, &str)> {
         let mut last_was_plus = false;
+        let mut depth = 0;
         for (i, x) in spec.char_indices() {
+            if x == '(' {
+                depth += 1;
+            } else if x == ')' {
+                depth -= 1;
+            }
             if last_was_plus {
                 if x.is_alphabetic() {
                     return Some((&spec[0..i - 1], &spec[i..]));
                 } else {
                     last_was_plus = false;
                 }
-            } else if x == '+' {
+            } else if x == '+' && depth <= 0 {
                 last_was_plus = true;
             }
         }
@@ -799,24 +805,29 @@ impl ColumnSet {
             None
         };
         loop {
-            if spc.first() == '(' {
-                let pos = find_close(spc)?;
-                self.add_one(&spc[..pos], negate, trans);
-                spc = &spc[pos..];
-                if spc.is_empty() {
-                    break;
-                }
-            } else if let Some((a, b)) = spc.split_once(',') {
-                self.add_one(a, negate, trans);
-                spc = b;
-            } else {
-                self.add_one(spc, negate, trans);
+            let pos = Self::find_comma(spc)?;
+            self.add_one(&spc[..pos], negate, trans);
+            if pos == spc.len() {
                 break;
             }
+            spc = &spc[pos + 1..];
         }
         Ok(())
     }
 
+    /// position of first comma not inside parentheses, or length of spec
+    fn find_comma(spec: &str) -> Result<usize> {
+        let mut pos = 0;
+        while pos < spec.len() {
+            match spec.as_bytes()[pos] {
+                b',' => return Ok(pos),
+                b'(' => pos += find_close(&spec[pos..])?,
+                _ => pos += 1,
+            }
+        }
+        Ok(spec.len())
+    }
+
     /// Turn column name into column number
     /// To also handle numbers and ranges, use `lookup1`
     /// # Examples
@@ -908,13 +919,16 @@ impl ColumnSet {
         if rng.is_empty() {
             return err!("Empty Range {}", rng);
         }
-        let (name, range) = match rng.split_once(':') {
+        let name_end = rng.find('(').unwrap_or(rng.len());
+        let (name, range) = match rng[..name_end].find(':') {
             None => ("", rng),
-            Some(x) => x,
+            Some(x) => (&rng[..x], &rng[x + 1..]),
         };
+        if range.is_empty() {
+            return err!("Empty Range {}", rng);
+        }
 
-        let ch = range.first();
-        if ch == '(' {
+        if range.starts_with('(') && range.ends_with(')') {
             return Ok(Self::to_outcols(
                 &Self::match_range(fieldnames, &range[1..range.len() - 1])?,
                 name,
-- 
2.43.0


From 373f1a5f343162107c25e11201ae7cb906135dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 029/113] fix: column +0 is out of bounds

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index ee36b06..c7610a5 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -867,7 +867,7 @@ impl ColumnSet {
         if let Some(stripped) = colname.strip_prefix('+') {
             let n = stripped.to_usize_whole(colname.as_bytes(), "column")?;
             let len = fieldnames.len();
-            if n > len {
+            if n < 1 || n > len {
                 err!("Column {} out of bounds", colname)
             } else {
                 Ok(len - n)
-- 
2.43.0


From 7a8613072689af69972943f5e8ffaeb3f2fe70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 030/113] fix: a failing transform, e.g. bad base64, is an
 error rather than a panic

---
 src/column.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index c7610a5..e5bf160 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1089,12 +1089,12 @@ impl ColumnSet {
         Ok(())
     }
 
-    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> &'a [u8] {
+    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> Result<&'a [u8]> {
         let col = &self.columns[col];
         if let Some(trans) = col.trans {
-            self.trans[trans].trans(cols.get(col.num), cols).unwrap()
+            self.trans[trans].trans(cols.get(col.num), cols)
         } else {
-            cols.get(col.num)
+            Ok(cols.get(col.num))
         }
     }
 
@@ -1111,10 +1111,10 @@ impl ColumnSet {
         if self.columns.is_empty() {
             return Ok(());
         }
-        text.write(w, self.fetch(cols, 0))?;
+        text.write(w, self.fetch(cols, 0)?)?;
         for i in 1..self.columns.len() {
             w.write_all(&[text.delim])?;
-            text.write(w, self.fetch(cols, i))?;
+            text.write(w, self.fetch(cols, i)?)?;
         }
         Ok(())
     }
-- 
2.43.0


From 22b516b893798b6dd099fbfc9871957bb82b44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 031/113] fix: normspace of a value with leading space does not
 insert a space after the first character

---
 src/trans.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trans.rs b/src/trans.rs
index 92912ba..47fefea 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -124,8 +124,8 @@ impl Trans for NormSpace {
             } else {
                 if need_space && !dst.is_empty() {
                     dst.push(b' ');
-                    need_space = false;
                 }
+                need_space = false;
                 dst.push(*x);
             }
         }
@@ -148,8 +148,8 @@ impl Trans for NormSpaceUtf8 {
             } else {
                 if need_space && !self.tmp.is_empty() {
                     self.tmp.push(' ');
-                    need_space = false;
                 }
+                need_space = false;
                 self.tmp.push(x);
             }
         }
-- 
2.43.0


From febc9f763f7fe7bf1896c3f5352d59c1cf2125f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 032/113] fix: transform aliases lowercase and uppercase work
 in the first transform

---
 src/trans.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trans.rs b/src/trans.rs
index 47fefea..3d13d4c 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -390,6 +390,7 @@ impl TransMaker {
     }
     /// Create a Trans from a trans spec and a pattern
     pub fn make2(trans: &str, pattern: &str) -> Result<Transform> {
+        Self::init()?;
         let mut spec = trans.to_string();
         if !pattern.is_empty() {
             spec.push(',');
-- 
2.43.0


From 94d2fb3f2641b29e798507347ad6b9eed044cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:02 +0000
Subject: [PATCH 033/113] fix: the null modifier of a matcher accepts empty
 values, rather than negating the match

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 56cf87f..5d5bdd2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1860,7 +1860,7 @@ impl MatchMaker {
                 } else if x.eq_ignore_ascii_case("trim") {
                     m.trim = true;
                 } else if x.eq_ignore_ascii_case("null") {
-                    m.negate = true;
+                    m.empty = true;
                 } else if x.eq_ignore_ascii_case("case") {
                     m.case = Case::Insens;
                 } else if x.eq_ignore_ascii_case("and") {
-- 
2.43.0


From 245518d30b3540cbf0f0bfc874d8ee5d1383d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:11 +0000
Subject: [PATCH 034/113] fix: the not modifier works for every use of a
 matcher, not just for lines

---
 src/matcher.rs | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 5d5bdd2..55ae599 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1030,13 +1030,12 @@ impl WholeMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for WholeMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.line_nl()))
-            } else {
-                self.matcher.umatch(line.line_nl())
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.line_nl()))
+        } else {
+            self.matcher.umatch(line.line_nl())
+        }
     }
 
     fn lookup(&mut self, _fieldnames: &[&str]) -> Result<()> {
@@ -1122,7 +1121,8 @@ impl LineMatch for ColSetMatcher {
             } else {
                 self.matcher.umatch(line.get(x.num))
             };
-            if did_match {
+            // the determiner counts matches, its result is what gets negated
+            if did_match != self.matcher.negate {
                 yes += 1;
             } else {
                 no += 1;
@@ -1166,13 +1166,12 @@ impl ColMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for ColMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
-            } else {
-                self.matcher.umatch(line.get(self.col.num))
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
+        } else {
+            self.matcher.umatch(line.get(self.col.num))
+        }
     }
 
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
@@ -1550,11 +1549,7 @@ impl Matcher {
         if self.trim {
             buff = buff.trimw();
         }
-        if self.empty && buff.is_empty() {
-            true
-        } else {
-            self.matcher.smatch(buff)
-        }
+        self.negate ^ ((self.empty && buff.is_empty()) || self.matcher.smatch(buff))
     }
     /// Are these bytes ok?
     #[must_use]
@@ -1562,11 +1557,7 @@ impl Matcher {
         if self.trim {
             buff = buff.trimw();
         }
-        if self.empty && buff.is_empty() {
-            true
-        } else {
-            self.matcher.umatch(buff)
-        }
+        self.negate ^ ((self.empty && buff.is_empty()) || self.matcher.umatch(buff))
     }
     /// umatch or smatch, depending on self.string
     pub fn do_match(&self, buff: &[u8]) -> Result<bool> {
@@ -1881,6 +1872,7 @@ impl MatchMaker {
             for x in pattern.split(delim) {
                 let mut m2 = m.clone();
                 m2.multi_mode = None; // not really necessary
+                m2.negate = false; // the outer matcher negates
                 Self::remake(&mut m2, x)?;
                 outer.push_obj(m2);
             }
-- 
2.43.0


From 0d0ea6a7014f21ea533efc7374d8ac65b145d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:19 +0000
Subject: [PATCH 035/113] fix: an empty multi-pattern is an error rather than a
 panic

---
 src/matcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index 55ae599..cffe5f0 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1867,6 +1867,9 @@ impl MatchMaker {
         if let Some(mm) = m.multi_mode {
             let mut outer = Box::new(MatcherList::new_with(mm));
             let mut pattern = pattern;
+            if pattern.is_empty() {
+                return err!("A multi-pattern must start with its delimiter, '{}'", matcher);
+            }
             let delim = pattern.first();
             pattern = pattern.skip_first();
             for x in pattern.split(delim) {
-- 
2.43.0


From dc64dbb1aafaa713adafe7dfb6c9451e5694e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:28 +0000
Subject: [PATCH 036/113] fix: matchers accept column groups, e.g.
 [all,this-that],foo

---
 src/matcher.rs | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index cffe5f0..e3843b5 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -272,6 +272,22 @@ impl Determiner {
             return err!("Unknown Determiner {spec}");
         })
     }
+    /// split "Columns" or "Determiner,Columns" into its parts
+    fn split(spec: &str) -> Result<(Self, &str)> {
+        if let Some((a, b)) = spec.split_once(',') {
+            if let Ok(det) = Self::new(a) {
+                return Ok((det, b));
+            }
+            if let Some((n, cols)) = b.split_once(',') {
+                if ["atmost", "atleast", "exactly", "atmostno", "atleastno", "exactlyno"]
+                    .contains(&a)
+                {
+                    return Ok((Self::new(&format!("{a},{n}"))?, cols));
+                }
+            }
+        }
+        Ok((Self::default(), spec))
+    }
     /// we've seen this many yes's and this many no's, with more to come. Are we done yet?
     #[must_use]
     pub const fn match_mid(&self, yes: usize, no: usize) -> Tri {
@@ -905,15 +921,15 @@ impl ColGroup {
             Ok((Self::default(), &spec[1..]))
         } else if spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let (det, cols) = Determiner::split(&spec[1..len - 1])?;
+            let rest = &spec[len..];
             Ok((
                 Self {
                     col: ColumnSet::from_spec(cols)?,
-                    det: Determiner::default(),
+                    det,
                     has_col: true,
                 },
-                rest,
+                rest.strip_prefix(',').unwrap_or(rest),
             ))
         } else if let Some((a, b)) = spec.split_once(',') {
             Ok((
@@ -1098,15 +1114,12 @@ struct ColSetMatcher {
 impl ColSetMatcher {
     /// new from parts
     fn new(cols: &str, method: &str, pattern: &str) -> Result<Self> {
-        if let Some((a, b)) = cols.split_once(',') {
-            Ok(Self {
-                matcher: MatchMaker::make2(method, pattern)?,
-                col: ColumnSet::from_spec(b)?,
-                det: Determiner::new(a)?,
-            })
-        } else {
-            err!("ColumnGroup format is Determiner,ColumnSet")
-        }
+        let (det, cols) = Determiner::split(cols)?;
+        Ok(Self {
+            matcher: MatchMaker::make2(method, pattern)?,
+            col: ColumnSet::from_spec(cols)?,
+            det,
+        })
     }
 }
 
@@ -1925,8 +1938,9 @@ impl MatchMaker {
     pub fn make_line(spec: &str) -> Result<Box<dyn LineMatch>> {
         if !spec.is_empty() && spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[..len];
+            let rest = &spec[len..];
+            let rest = rest.strip_prefix(',').unwrap_or(rest);
             if let Some((c, d)) = rest.split_once(',') {
                 Self::make_line3(cols, c, d)
             } else {
-- 
2.43.0


From fd322520204d9541e0116bf60b43f693c3cc2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:36 +0000
Subject: [PATCH 037/113] fix: the fractions of atmost and atleast are not
 mixed up

---
 src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index e3843b5..2fcb029 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -186,7 +186,7 @@ impl Thresh {
     pub fn at_most_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n <= *c,
-            Self::Frac(f) => num::f64_less(*f, n, tot),
+            Self::Frac(f) => num::f64_greater(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
@@ -194,7 +194,7 @@ impl Thresh {
     pub fn at_least_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n >= *c,
-            Self::Frac(f) => num::f64_greater(*f, n, tot),
+            Self::Frac(f) => num::f64_less(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
-- 
2.43.0


From ba399b124a83224e59770f6e98bb7ce0b57a3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:46 +0000
Subject: [PATCH 038/113] fix: a case insensitive suffix may be empty

---
 src/matcher.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 2fcb029..ddaf23a 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -422,14 +422,7 @@ fn bcase_suffix(haystack: &[u8], needle: &[u8]) -> bool {
     if needle.len() > haystack.len() {
         return false;
     }
-    let hay_len = haystack.len() - 1;
-    let nee_len = needle.len() - 1;
-    for x in 0..needle.len() {
-        if haystack[hay_len - x].to_ascii_lowercase() != needle[nee_len - x] {
-            return false;
-        }
-    }
-    true
+    bcase_prefix(&haystack[haystack.len() - needle.len()..], needle)
 }
 
 // needle is already lowercase
-- 
2.43.0


From ac70165bfffbdf9853036466c6d948e65b041f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:56 +0000
Subject: [PATCH 039/113] fix: a comp matcher may start with any character

---
 src/matcher.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index ddaf23a..51ed4ef 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -964,14 +964,14 @@ impl CompMatcher {
             return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
         // FIXME - factor out this CompareOp parsing
-        let op1 = pattern[0..2].parse::<CompareOp>();
+        let op1 = pattern.get(0..2).map(str::parse::<CompareOp>);
         let op;
-        if let Ok(o) = op1 {
+        if let Some(Ok(o)) = op1 {
             pattern = &pattern[2..];
             op = o;
         } else {
-            let op1 = pattern[0..1].parse::<CompareOp>();
-            if let Ok(o) = op1 {
+            let op1 = pattern.get(0..1).map(str::parse::<CompareOp>);
+            if let Some(Ok(o)) = op1 {
                 pattern = &pattern[1..];
                 op = o;
             } else if let Some((a, b)) = pattern.split_once('.') {
-- 
2.43.0


From b5a4b16286e4bf2dcdc92f6b582f92d154ac36b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:27 +0000
Subject: [PATCH 040/113] fix: case insensitive utf8 matchers compare lower
 case with lower case

---
 src/matcher.rs | 10 +++++-----
 src/text.rs    | 44 ++++++++------------------------------------
 2 files changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 51ed4ef..bab05be 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -382,7 +382,7 @@ struct PrefixMatchC {
 impl PrefixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -492,7 +492,7 @@ struct SuffixMatchC {
 impl SuffixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -518,14 +518,14 @@ struct InfixMatchC {
 impl InfixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
 }
 impl Match for InfixMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.to_lowercase().contains(&self.s_data) // PERF allocation
+        buff.new_lower().contains(&self.s_data) // PERF allocation
     }
     fn umatch(&self, buff: &[u8]) -> bool {
         find(&buff.to_ascii_lowercase(), &self.u_data).is_some() // PERF allocation
@@ -764,7 +764,7 @@ impl ExactMatchC {
 }
 impl Match for ExactMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.equal_insens_quick(&self.s_data)
+        self.s_data.as_str().equal_insens_quick(buff)
     }
     fn umatch(&self, buff: &[u8]) -> bool {
         buff.equal_insens_quick(&self.u_data)
diff --git a/src/text.rs b/src/text.rs
index 6bb1d84..168fdea 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -382,53 +382,25 @@ impl Text for str {
     }
 
     fn equal_insens(&self, other: &Self) -> bool {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn equal_insens_quick(&self, other: &Self) -> bool {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+        self.chars()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens(&self, other: &Self) -> Ordering {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 < ch.1 {
-                return Ordering::Less;
-            }
-            if ch.0 > ch.1 {
-                return Ordering::Greater;
-            }
-        }
-        self.len().cmp(&other.len())
+            .cmp(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens_quick(&self, other: &Self) -> Ordering {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 < ch.1 {
-                return Ordering::Less;
-            }
-            if ch.0 > ch.1 {
-                return Ordering::Greater;
-            }
-        }
-        self.len().cmp(&other.len())
+        self.chars()
+            .cmp(other.chars().flat_map(char::to_lowercase))
     }
     fn assign_lower(&self, dst: &mut String) {
         dst.clear();
-- 
2.43.0


From 094b07a42d33bec223054d2f5edc10c9f1d0a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:59 +0000
Subject: [PATCH 041/113] fix: a comp matcher accepts named operators, e.g.
 LT.author

---
 src/matcher.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index bab05be..a42846a 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -968,6 +968,7 @@ impl CompMatcher {
         let op;
         if let Some(Ok(o)) = op1 {
             pattern = &pattern[2..];
+            pattern = pattern.strip_prefix('.').unwrap_or(pattern);
             op = o;
         } else {
             let op1 = pattern.get(0..1).map(str::parse::<CompareOp>);
-- 
2.43.0


From 3f3ef074296ab765d9a2000a2eb39b94108879d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:39 +0000
Subject: [PATCH 042/113] fix: a comp matcher accepts a single digit column,
 e.g. <1

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index a42846a..0e65ca4 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -960,7 +960,7 @@ struct CompMatcher {
 impl CompMatcher {
     fn new(incol: &str, mut pattern: &str) -> Result<Self> {
         let target = NamedCol::new_from(incol)?;
-        if pattern.len() < 3 {
+        if pattern.len() < 2 {
             return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
         // FIXME - factor out this CompareOp parsing
-- 
2.43.0


From 2f9bdb7349ff3e875b202729c2ebba5672566861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:19 +0000
Subject: [PATCH 043/113] fix: cat pads the last line if its newline is
 missing, even if it is not the first line

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 0e369b0..7fb460f 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -198,7 +198,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     break;
                 }
                 w.write_all(&buffer[..n])?;
-                last_was_cr = first_line.last().unwrap() == &b'\n';
+                last_was_cr = buffer[n - 1] == b'\n';
             }
             if pad == PadMode::All && !last_was_cr {
                 w.write_all(b"\n")?;
-- 
2.43.0


From b0b23bf0d9850cbdf9036e07f00086a029db0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:25 +0000
Subject: [PATCH 044/113] fix: cat does not stop at a file that holds only a
 header

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 7fb460f..1c1932a 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -160,7 +160,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
-                return Ok(());
+                continue;
             }
             f.do_split(false);
             loop {
-- 
2.43.0


From 0430070aadac9199f60b4530d39af1ccc7d934b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:33 +0000
Subject: [PATCH 045/113] fix: all tools notice if some input files have a
 header and some do not

---
 src/bin/cdx/binsearch_main.rs | 3 ++-
 src/util.rs                   | 4 +---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index d51295c..157fe1d 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -152,7 +152,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 not_header.extend(m.header());
             }
         }
-        if settings.checker.check(&not_header, f)? {
+        let empty = not_header.is_empty() && m.get().is_empty();
+        if !empty && settings.checker.check(&not_header, f)? {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
diff --git a/src/util.rs b/src/util.rs
index 9703731..8993ebc 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1972,9 +1972,7 @@ impl HeaderChecker {
     pub fn check(&mut self, first_line: &[u8], fname: &str) -> Result<bool> {
         // FIXME - if is_cdx, make sure is also a valid header
         let cdx = is_valid_cdx(first_line, self.mode, fname)?;
-        if first_line.is_empty() {
-            Ok(false)
-        } else if first_line.last().unwrap() != &b'\n' && cdx {
+        if cdx && first_line.last() != Some(&b'\n') {
             err!("Malformed Header line in file {}", &fname)
         } else if self.saw_one {
             match self.mode {
-- 
2.43.0


From 4df6c5f188af3142402a4762316a5490b33446b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:10 +0000
Subject: [PATCH 046/113] fix: cat --remove and --skip honour the utf8 modifier
 of their matchers

---
 src/bin/cdx/cat_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 1c1932a..5bd03ae 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -164,8 +164,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             f.do_split(false);
             loop {
-                if !removes.umatch(f.curr_nl()) {
-                    if skips.umatch(f.curr_nl()) {
+                let line = f.curr_nl();
+                if !removes.matchers.iter().any(|x| x.do_match_safe(line)) {
+                    if skips.matchers.iter().any(|x| x.do_match_safe(line)) {
                         not_v.write(&mut w.0, f.curr())?;
                     } else {
                         v.write(&mut w.0, f.curr())?;
-- 
2.43.0


From a18d86e1df76ad51b06ea0e7878525c3eb828631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 047/113] fix: paste --last does not panic if a file has no
 lines

---
 src/bin/cdx/paste_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 0ac2311..2735a46 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -130,7 +130,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             need_delim = true;
             if f.is_done() {
-                if use_last {
+                if use_last && !f.prev_line(1).line().is_empty() {
                     w.write_all(f.prev_nl(1))?;
                 } else {
                     let mut nd = false;
-- 
2.43.0


From dbff4375d6d7c00b8e35c1d2cce6f0a13aafb746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:42 +0000
Subject: [PATCH 048/113] fix: wc --columns does not stop at a file that holds
 only a header

---
 src/bin/cdx/wc_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index a70ea1e..8f2e371 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -107,7 +107,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 }
             }
             if f.is_done() {
-                break;
+                continue;
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
-- 
2.43.0


From fa0d9bc2f9be6195c21b041de56838053bec003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:48 +0000
Subject: [PATCH 049/113] fix: wc --columns does not panic if a line has more
 columns than the first

---
 src/bin/cdx/wc_main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 8f2e371..36ce13d 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -111,6 +111,15 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
+                    if i >= colmap.len() {
+                        let name = format!("c{}", i + 1);
+                        if let Some(pos) = aggs.iter().position(|agg| agg.name == name) {
+                            colmap.push(pos);
+                        } else {
+                            colmap.push(aggs.len());
+                            aggs.push(NamedAgg::new(&name, agg.deep_clone()));
+                        }
+                    }
                     aggs[colmap[i]].agg.add(x);
                 }
                 if f.getline()? {
-- 
2.43.0


From 15870530267a57e28d79db3b0099436dbef8375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:53 +0000
Subject: [PATCH 050/113] fix: wc --columns writes the column names exactly if
 the header says so

---
 src/bin/cdx/wc_main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 36ce13d..b1bee89 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -144,7 +144,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         };
         if do_header {
             let mut ch = ColumnHeader::new();
-            if show_file_name != Tri::No {
+            if show_file {
                 ch.push("column")?;
             }
             let mut c_write = Writer::new(settings.text_out());
@@ -154,7 +154,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         if !total_only {
             for x in &aggs {
-                if show_file_name != Tri::No {
+                if show_file {
                     w.write_all(x.name.as_bytes())?;
                     w.write_all(b"\t")?;
                 }
-- 
2.43.0


From 726099a32b6e6ceafae82476c841b41aa493acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:03 +0000
Subject: [PATCH 051/113] fix: the short number format writes zero as 0, not
 0e0

---
 src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num.rs b/src/num.rs
index 1d98c5d..8c97959 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -175,7 +175,7 @@ impl NumFormat {
         match self {
             Self::Short(x) => {
                 let num = num.abs();
-                if (0.0001..1000.0).contains(&num) {
+                if num == 0.0 || (0.0001..1000.0).contains(&num) {
                     Self::Plain(x)
                 } else {
                     Self::Float(x)
-- 
2.43.0


From 71adb94a05a06b999eb1907c35ff5c3ff45239ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:32 +0000
Subject: [PATCH 052/113] fix: sample counts lines from 1

---
 src/bin/cdx/sample_main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index ccebd91..71b5437 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -132,8 +132,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
 
     let mut w = get_writer("-")?;
     for x in &files {
-        let mut f = Reader::new(&settings.text_in);
-        f.open(x)?;
+        let mut f = Reader::new_open(x, &settings.text_in)?;
         if f.is_empty() {
             continue;
         }
-- 
2.43.0


From 258e19c755f518493e7f1089cb033bd1dca7445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:38 +0000
Subject: [PATCH 053/113] fix: sample does not stop at a file that holds only a
 header

---
 src/bin/cdx/sample_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 71b5437..7cec57a 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -140,7 +140,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(f.header().line.as_bytes())?;
         }
         if f.is_done() {
-            return Ok(());
+            continue;
         }
         f.do_split(false);
         if saw_sample {
-- 
2.43.0


From 7eec9cc971398d11791400002ff6b0f05cb9ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:44 +0000
Subject: [PATCH 054/113] fix: sample --for with a very large step does not
 overflow

---
 src/bin/cdx/sample_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 7cec57a..0c92bd3 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -157,7 +157,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             while f.line_number() <= floop.to {
                 if f.line_number() == next {
                     w.write_all(f.curr_line().line())?;
-                    next += floop.by;
+                    next = next.saturating_add(floop.by);
                 }
                 if f.getline()? {
                     break;
-- 
2.43.0


From 87a564e7601edd046e6a26041bc79848984eea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:52 +0000
Subject: [PATCH 055/113] fix: sample --sample 2 does not panic if there are
 more lines

---
 src/sampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index f1e4b2d..4255f03 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -22,7 +22,7 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = small * 2 - 2;
+        let large = (small * 2 - 2).max(small + 1);
         let mut data = Vec::with_capacity(large);
         for _ in 0..large {
             data.push(Vec::new());
-- 
2.43.0


From 41ee1d4357cc40678f424d3aaeeb51dc3bc8aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:00 +0000
Subject: [PATCH 056/113] fix: transpose of a file with only a header does not
 add an empty column

---
 src/transpose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index a9d4daf..f1ef405 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -11,7 +11,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut data = Vec::new();
     let mut lines = 0;
-    while lines < max_lines {
+    while lines < max_lines && !f.is_done() {
         data.push(f.curr().clone());
         lines += 1;
         if f.getline()? {
-- 
2.43.0


From e01bcdab294483f2ba1949be190a4e09eb61c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 057/113] fix: an empty file has no lines, so that e.g. paste
 does not panic

---
 src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util.rs b/src/util.rs
index 8993ebc..2f65681 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1316,6 +1316,7 @@ impl InfileContext {
     fn read_header(&mut self, file: &mut impl BufRead, line: &mut TextLine) -> Result<()> {
         self.is_empty = self.text.read_header(file, &mut self.header.line)?;
         if self.is_empty {
+            self.is_done = true;
             return Ok(());
         }
         self.has_header = !self.header.line.is_empty();
-- 
2.43.0


From fc8887ac173668120c277acb71e54557fe2e95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:17 +0000
Subject: [PATCH 058/113] fix: expressions accept the operators <=, >=, == and
 !=

---
 src/tok2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 12fa02d..bb4b99a 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -119,7 +119,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '!' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::NE));
-                    input.skip_first();
+                    input.take_first();
                 } else {
                     res.push(Token::Unary(UnaryOp::Fact));
                 }
@@ -127,7 +127,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '<' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::LE));
-                    input.skip_first();
+                    input.take_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::LT));
                 }
@@ -135,7 +135,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '>' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::GE));
-                    input.skip_first();
+                    input.take_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::GT));
                 }
@@ -143,7 +143,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '=' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::EQ));
-                    input.skip_first();
+                    input.take_first();
                 } else {
                     return err!("Equal can't be followed by {} in '{}'", next, orig);
                 }
-- 
2.43.0


From 309f6d04835640c8bcc732449b9d7ed0dcfdfc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:25 +0000
Subject: [PATCH 059/113] fix: a sign after a factorial is a binary operator

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index bb4b99a..596522a 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -63,7 +63,7 @@ const fn can_binary(tok: &Token) -> bool {
     use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
     match tok {
         Binary(_) => false,
-        Unary(_) => false,
+        Unary(op) => matches!(op, UnaryOp::Fact),
         LParen => false,
         RParen => true,
         Comma => false,
-- 
2.43.0


From bb7e8a4f067ee2ac67593a0758fb6853ed883dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:32 +0000
Subject: [PATCH 060/113] fix: names in expressions may contain underscores,
 e.g. M_PI

---
 src/tok2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 596522a..0b04d97 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -152,7 +152,9 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
                 if ch.is_alphabetic() {
                     let mut var = String::new();
                     var.push(ch);
-                    while !input.is_empty() && input.first().is_alphanumeric() {
+                    while !input.is_empty()
+                        && (input.first().is_alphanumeric() || input.first() == '_')
+                    {
                         var.push(input.take_first());
                     }
                     res.push(Token::Var(var));
-- 
2.43.0


From 2c1fb9464e48978275a68649191a63e34d682b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:40 +0000
Subject: [PATCH 061/113] fix: acos is the arc cosine, not the absolute value

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 8d19549..60123b8 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -319,7 +319,7 @@ fn apply_func(op: FuncOp, args: &[f64]) -> f64 {
         Sin, Sinh, Sqrt, Tan, Tanh, Tgamma, Trunc, Yn, J0, J1, Y0, Y1,
     };
     match op {
-        Acos => args[0].abs(),
+        Acos => args[0].acos(),
         Acosh => args[0].acosh(),
         Asinh => args[0].asinh(),
         Asin => args[0].asin(),
-- 
2.43.0


From 5bab47a33904b7f319bd1f371725ca8858f4dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:47 +0000
Subject: [PATCH 062/113] fix: the factorial of zero is one

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 60123b8..20b66f2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -649,7 +649,7 @@ fn factorial(x: f64) -> f64 {
 }
 
 const FACTORIAL: [f64; 171] = [
-    0.0,
+    1.0,
     1.0,
     2.0,
     6.0,
-- 
2.43.0


From d9bc21f88aad74bd9f65e2c9632f00787e1f8425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:55 +0000
Subject: [PATCH 063/113] fix: an empty expression is an error rather than a
 panic

---
 src/shunting_yard.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index d4899ee..6a2253b 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -141,6 +141,9 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
     if n_operands > 1 {
         return err!("Too Many Operands");
     }
+    if n_operands < 1 {
+        return err!("Not Enough Operands");
+    }
 
     output.shrink_to_fit();
     Ok(output)
-- 
2.43.0


From 80330c7ca12496a55104ad5e6c894c50420741ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:03 +0000
Subject: [PATCH 064/113] fix: column c0 in an expression is an error rather
 than an underflow

---
 src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 20b66f2..81fd480 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -492,7 +492,11 @@ impl Expr {
                 static ref CN: Regex = Regex::new("^c([0-9]+)$").unwrap();
             }
             if let Some(cn) = CN.captures(&y.name) {
-                y.col = Some(cn.get(1).unwrap().as_str().to_usize_whole(b"", "").unwrap() - 1);
+                let num = cn.get(1).unwrap().as_str().to_usize_whole(b"", "").unwrap();
+                if num == 0 {
+                    return err!("Column numbers start at 1 : {}", y.name);
+                }
+                y.col = Some(num - 1);
                 continue;
             }
             // FIXME - some way to declare other variables
-- 
2.43.0


From 99005992a21385a7e89ae44d060640af3b1f83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:10 +0000
Subject: [PATCH 065/113] fix: named columns in an expression are looked up
 again for every file

---
 src/expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 81fd480..c296bd3 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -481,7 +481,10 @@ impl Expr {
         }
         let start_vars = self.vars.len();
         self.parse(&n)?;
-        'outer: for y in self.vars.iter_mut().skip(start_vars) {
+        'outer: for (n, y) in self.vars.iter_mut().enumerate() {
+            if n < start_vars && y.col.is_none() {
+                continue; // not a column
+            }
             for (i, x) in fieldnames.iter().enumerate() {
                 if *x == y.name {
                     y.col = Some(i);
-- 
2.43.0


From f2d4ebf2fc0b9e54f77ab7d33d3b46f9d21ebb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:15 +0000
Subject: [PATCH 066/113] fix: the first argument of a function may have a
 sign, e.g. abs(-1)

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 0b04d97..00c973e 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -69,7 +69,7 @@ const fn can_binary(tok: &Token) -> bool {
         Comma => false,
         Number(_) => true,
         Var(_) => true,
-        Func(_, _) => true,
+        Func(_, _) => false,
     }
 }
 pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
-- 
2.43.0


From 6db457b6f569c582b23c2db08708a7f859d69c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:41 +0000
Subject: [PATCH 067/113] fix: numbers are read to the nearest float, so that
 4.125 is 4.125

---
 src/text.rs | 51 +++++----------------------------------------------
 1 file changed, 5 insertions(+), 46 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 168fdea..9e0d3f8 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -658,66 +658,25 @@ impl Text for [u8] {
             curr = &curr[1..];
             neg = -1.0;
         }
-        let mut ret: f64 = 0.0;
+        let number = curr;
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10.0;
-            ret += f64::from(curr[0] - b'0');
             curr = &curr[1..];
         }
         if !curr.is_empty() && (curr[0] == b'.') {
             curr = &curr[1..];
-            let mut place = 0.1;
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                ret += place * f64::from(curr[0] - b'0');
-                place *= 0.1;
                 curr = &curr[1..];
             }
         }
-
         if is_exp(curr) {
-            curr = &curr[1..];
-            let mut neg_exp: i32 = 1;
-            if !curr.is_empty() {
-                if curr[0] == b'+' {
-                    curr = &curr[1..];
-                } else if curr[0] == b'-' {
-                    neg_exp = -1;
-                    curr = &curr[1..];
-                }
-            }
-            let mut exponent: i32 = 0;
+            curr = &curr[2..];
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                exponent = exponent.saturating_mul(10);
-                exponent = exponent.saturating_add(i32::from(curr[0] - b'0'));
                 curr = &curr[1..];
             }
-            exponent *= neg_exp;
-            match exponent {
-                -2 => {
-                    ret *= 0.01;
-                }
-                -1 => {
-                    ret *= 0.1;
-                }
-                0 => {}
-                1 => {
-                    ret *= 10.0;
-                }
-                2 => {
-                    ret *= 100.0;
-                }
-                3 => {
-                    ret *= 1000.0;
-                }
-                //  	    These two lose accuracy
-                //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LOG2_10).exp2();},
-                //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LN_10).exp();},
-                _ if ret == 0.0 => {} // exp10 might be infinite
-                _ => {
-                    ret *= libm::exp10(f64::from(exponent));
-                }
-            }
         }
+        // the std conversion rounds correctly, and fails only if there were no digits
+        let number = &number[..number.len() - curr.len()];
+        let mut ret = std::str::from_utf8(number).unwrap_or("").parse::<f64>().unwrap_or(0.0);
         if !curr.is_empty() {
             if let Some(mul) = suffix_valf(curr[0]) {
                 curr = &curr[1..];
-- 
2.43.0


From 3b0bc7115271b618d9a2bb6d0512d559697a4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 068/113] fix: HeaderMode None forbids and Strip removes the
 first header, Require needs headers to match

---
 src/util.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 2f65681..f19b954 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2005,6 +2005,14 @@ impl HeaderChecker {
                     if !cdx {
                         return err!("No CDX Header found in {} where one was required.", fname);
                     }
+                    if first_line != self.head {
+                        return err!(
+                            "Header Mismatch. First was {}, File {} has {}",
+                            String::from_utf8_lossy(&self.head),
+                            fname,
+                            String::from_utf8_lossy(first_line)
+                        );
+                    }
                     Ok(false)
                 }
                 HeaderMode::Strip => Ok(!cdx),
@@ -2019,7 +2027,7 @@ impl HeaderChecker {
             }
         } else {
             self.saw_one = true;
-            if cdx && self.mode == HeaderMode::Strip {
+            if cdx && self.mode == HeaderMode::None {
                 return err!("Found CDX header in {} where one was forbidden", fname);
             } else if !cdx && self.mode == HeaderMode::Require {
                 return err!("Found no CDX header in {} where one was required", fname);
-- 
2.43.0


From 749ca183caa113f8e240363f270c9bb0aac2211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 069/113] fix: HeaderChecker::check_file does not ask for a
 stripped header to be written

---
 src/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index f19b954..a0e5fe7 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1961,11 +1961,12 @@ impl HeaderChecker {
     pub fn check_file(&mut self, file: &Reader, fname: &str) -> Result<bool> {
         let first = !self.saw_one;
         if file.has_header() {
-            self.check(file.header().line.as_bytes(), fname)?;
+            let write = self.check(file.header().line.as_bytes(), fname)?;
+            Ok(write && first)
         } else {
             self.check(b"fake", fname)?;
+            Ok(false)
         }
-        Ok(file.has_header() && first)
     }
 
     /// call for the first line of every input file
-- 
2.43.0


From 42edaafcb01091d019cf375eccc435fafbb50a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:56 +0000
Subject: [PATCH 070/113] fix: comparing a whole line to a value does not
 include the newline

---
 src/comp.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 27e71e2..cab181a 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -377,6 +377,11 @@ impl LineComp {
     }
 }
 
+/// the value to which a line is compared does not have a newline
+fn without_newline(line: &[u8]) -> &[u8] {
+    line.strip_suffix(b"\n").unwrap_or(line)
+}
+
 /// compare the whole line with the [Compare]
 struct LineCompWhole {
     comp: Comp,
@@ -453,19 +458,19 @@ impl LineCompare for LineCompWhole {
     }
 
     fn comp_self_cols(&mut self, right: &TextLine) -> Ordering {
-        self.comp.comp_self(right.line())
+        self.comp.comp_self(without_newline(right.line()))
     }
 
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
-        self.comp.equal_self(right.line())
+        self.comp.equal_self(without_newline(right.line()))
     }
 
     fn comp_self_line(&mut self, right: &[u8], _delim: u8) -> Ordering {
-        self.comp.comp_self(right)
+        self.comp.comp_self(without_newline(right))
     }
 
     fn equal_self_line(&mut self, right: &[u8], _delim: u8) -> bool {
-        self.comp.equal_self(right)
+        self.comp.equal_self(without_newline(right))
     }
 }
 
-- 
2.43.0


From 9fcad0422b2928847bbaafe58f39e7b1cb573ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:06 +0000
Subject: [PATCH 071/113] fix: verify --first and --last check both ends of a
 range

---
 src/util.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index a0e5fe7..1fa68ba 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2299,7 +2299,7 @@ impl CheckLine {
         self.val2 = if r.val2.is_none() {
             None
         } else {
-            Some(r.op2.unwrap().to_owned())
+            Some(r.val2.unwrap().to_owned())
         };
         Ok(())
     }
@@ -2315,12 +2315,21 @@ impl CheckLine {
         line_num: usize,
     ) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        Ok(self.op.line_ok_verbose(line, comp, line_num))
+        if !self.op.line_ok_verbose(line, comp, line_num) {
+            return Ok(false);
+        }
+        match self.op2 {
+            None => Ok(true),
+            Some(o) => {
+                comp.set(self.val2.as_ref().unwrap().as_bytes(), b',')?;
+                Ok(o.line_ok_verbose(line, comp, line_num))
+            }
+        }
     }
     /// compare line OP text, return true if match
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        let ret = self.op.line_ok(line, comp);
+        let ret = self.op.invert().line_ok(line, comp);
         if !ret {
             return Ok(false);
         }
@@ -2328,7 +2337,7 @@ impl CheckLine {
             None => Ok(true),
             Some(o) => {
                 comp.set(self.val2.as_ref().unwrap().as_bytes(), b',')?;
-                Ok(o.line_ok(line, comp))
+                Ok(o.invert().line_ok(line, comp))
             }
         }
     }
-- 
2.43.0


From 65780cf99b3a9869f77d71a1e9fda9c3e84ca97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:17 +0000
Subject: [PATCH 072/113] fix: verify --first <=x is less or equal x, not less
 than =x

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 1fa68ba..d35dbb8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2178,8 +2178,8 @@ impl<'a> RangeSpec<'a> {
     fn new(spec: &'a str) -> Result<Self> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("^(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)(.+)$").unwrap();
-            static ref RE2: Regex = Regex::new("^(<|>|<=|>=|==|!=)(.+)$").unwrap();
+                Regex::new("^(<=|>=|<|>|==|!=)([^<>!=]+)(<=|>=|<|>|==|!=)(.+)$").unwrap();
+            static ref RE2: Regex = Regex::new("^(<=|>=|<|>|==|!=)(.+)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("^(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("^(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
-- 
2.43.0


From fd0439ee8f9e4874fab0bf7b7ffbb45e4b4dcf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 073/113] fix: verify --report and --show-matchers do not panic

---
 src/bin/cdx/verify_main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 878a985..bd48d5a 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use cdx::comp::comp_check;
 use cdx::expr;
-use cdx::matcher::Combiner;
+use cdx::matcher::{Combiner, MatchMaker};
 use cdx::prelude::*;
 use cdx::util::CheckLine;
 
@@ -48,7 +48,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             comp.add(&x.value)?;
         } else if x.name == "or" {
             list.multi = Combiner::Or;
-        } else if x.name == "fail" {
+        } else if x.name == "report" {
             max_fails = x.value.to_usize_whole(x.value.as_bytes(), "max fails")?;
         } else if x.name == "sort" {
             do_sort = true;
@@ -59,6 +59,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else if x.name == "unique" {
             do_sort = true;
             do_unique = true;
+        } else if x.name == "show-matchers" {
+            MatchMaker::help();
+            return Ok(());
         } else if x.name == "show-const" {
             expr::show_const();
             return Ok(());
-- 
2.43.0


From e5dc1ec18d37df1ad7b2c60cd541ea62735da255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:35 +0000
Subject: [PATCH 074/113] fix: verify also fails if it is the last line that is
 wrong

---
 src/bin/cdx/verify_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index bd48d5a..248d616 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -120,6 +120,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                         f.line_number() - 1,
                     )?
                 {
+                    did_fail = true;
+                }
+                if did_fail {
                     fails += 1;
                 }
                 break;
-- 
2.43.0


From 207dd3549b10511b57de4fdfe65df51c02345d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:45 +0000
Subject: [PATCH 075/113] fix: verify reports the right line numbers

---
 src/bin/cdx/verify_main.rs |  2 +-
 src/util.rs                | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 248d616..6899228 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -103,7 +103,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.curr().len() != num_cols {
                 eprintln!(
                     "Expected {num_cols} columns, but line {} of {} had {}",
-                    f.line_number() + 1,
+                    f.line_number(),
                     x,
                     f.curr().len()
                 );
diff --git a/src/util.rs b/src/util.rs
index d35dbb8..74c392b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1560,14 +1560,18 @@ impl Reader {
             loc: FileLocData::default(),
         };
         tmp.cont.read_header(&mut *tmp.file, &mut tmp.lines[0])?;
-        tmp.loc.name = name.to_string();
-        tmp.loc.line = 1;
-        tmp.loc.bytes = if tmp.has_header() {
-            tmp.header().line.len()
+        tmp.start_loc(name);
+        Ok(tmp)
+    }
+    /// set location to first line of file
+    fn start_loc(&mut self, name: &str) {
+        self.loc.name = name.to_string();
+        self.loc.line = 1;
+        self.loc.bytes = if self.has_header() {
+            self.header().line.len()
         } else {
             0
         };
-        Ok(tmp)
     }
     /// get current line contents, without the trailing newline
     #[must_use]
@@ -1599,7 +1603,9 @@ impl Reader {
     /// open file for reading
     pub fn open(&mut self, name: &str) -> Result<()> {
         self.file = get_reader(name)?;
-        self.cont.read_header(&mut *self.file, &mut self.lines[0])
+        self.cont.read_header(&mut *self.file, &mut self.lines[0])?;
+        self.start_loc(name);
+        Ok(())
     }
     /// The full text of the header, without the trailing newline
     #[must_use]
-- 
2.43.0


From aa955610eb2a3ad0daa8aa41909f7318d492c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:28 +0000
Subject: [PATCH 076/113] fix: quote mode closes the quotes it opens, and
 quotes values that contain quotes

---
 src/util.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 74c392b..ad795da 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,18 +546,19 @@ fn write_backslash(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()
 }
 
 fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
-    let mut made_quote = false;
+    if !buf.iter().any(|ch| *ch == tab || *ch == eol || *ch == b'"') {
+        w.write_all(buf)?;
+        return Ok(());
+    }
+    w.write_all(&[b'"'])?;
     for ch in buf {
         if *ch == b'"' {
             w.write_all(b"\"\"")?;
-            continue;
-        }
-        if !made_quote && (*ch == tab || *ch == eol) {
-            made_quote = true;
-            w.write_all(&[b'"'])?;
+        } else {
+            w.write_all(&[*ch])?;
         }
-        w.write_all(&[*ch])?;
     }
+    w.write_all(&[b'"'])?;
     Ok(())
 }
 
-- 
2.43.0


From b4837c048da6e19f907e4983b0b5794798775235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:15 +0000
Subject: [PATCH 077/113] fix: quote mode ignores delimiters between quotes,
 and only there

---
 src/util.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index ad795da..b4bcceb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -652,31 +652,25 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
     }
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
-    let mut last_was_quote = false;
     let mut in_quote = false;
-    for ch in line {
-        if in_quote {
-            if last_was_quote {
-                if *ch == b'"' {
-                    tmp.push(*ch);
-                    end += 1;
-                    continue;
-                } else {
-                    in_quote = false;
-                    // not continue
-                }
-            } else if *ch == b'"' {
-                last_was_quote = true;
-                continue;
+    let mut at_start = true;
+    let mut iter = line.iter().peekable();
+    while let Some(ch) = iter.next() {
+        if *ch == b'"' {
+            // "" means ", except that it's the empty value if it starts the column
+            if (in_quote || !at_start) && iter.next_if_eq(&&b'"').is_some() {
+                tmp.push(b'"');
+                end += 1;
+            } else {
+                in_quote = !in_quote;
             }
-        } else if *ch == b'"' {
-            in_quote = true;
-            last_was_quote = true;
+            at_start = false;
             continue;
         }
 
         tmp.push(*ch);
-        if *ch == delim {
+        at_start = *ch == delim && !in_quote;
+        if at_start {
             parts.push(FakeSlice { begin, end });
             begin = end + 1;
         }
-- 
2.43.0


From c87a0b045696852a6e003b84a5fb804f252e853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 078/113] fix: quote and backslash modes keep an empty last
 column

---
 src/util.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index b4bcceb..ac8884f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -610,10 +610,7 @@ pub const fn enslash(ch: u8) -> u8 {
 pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
     parts.clear();
     tmp.clear();
-    let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
-        line = &line[..line.len() - 1];
-    }
+    let line = line.strip_suffix(b"\n").unwrap_or(line);
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
     let mut last_was_slash = false;
@@ -637,19 +634,14 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
         end += 1;
         last_was_slash = false;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// split a line by a delimiter. Remove trailing newline, if any.
 pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
     parts.clear();
     tmp.clear();
-    let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
-        line = &line[..line.len() - 1];
-    }
+    let line = line.strip_suffix(b"\n").unwrap_or(line);
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
     let mut in_quote = false;
@@ -676,9 +668,7 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
         }
         end += 1;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// A line of a text file, broken into columns.
-- 
2.43.0


From 91bef01347362be2b7c165c955f2a99b8cb35d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:30 +0000
Subject: [PATCH 079/113] fix: files without header have the right column names
 if the delimiter is not tab

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index ac8884f..f112ac6 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1319,7 +1319,7 @@ impl InfileContext {
             for i in 1..=line.len() {
                 head_str += "c";
                 head_str += &i.to_string();
-                head_str += "\t";
+                head_str.push(self.text.delim as char);
             }
             head_str.pop();
             head_str += "\n";
-- 
2.43.0


From d068a06cdbee4ae807c881ff576381aa3c7393ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:37 +0000
Subject: [PATCH 080/113] fix: lines are written unchanged in quote and
 backslash modes

---
 src/util.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index f112ac6..357cb2b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -770,7 +770,8 @@ impl TextLine {
     /// whole line, without newline
     #[must_use]
     pub fn line_nl(&self) -> &[u8] {
-        &self.line[..self.line.len() - 1]
+        let line = self.line();
+        &line[..line.len() - 1]
     }
     /// whole line, with newline, as Vec
     pub fn raw(&mut self) -> &mut Vec<u8> {
@@ -782,6 +783,8 @@ impl TextLine {
         self.line.extend_from_slice(&x.line[..]);
         self.parts.clear();
         self.parts.extend_from_slice(&x.parts[..]);
+        self.orig.clear();
+        self.orig.extend_from_slice(&x.orig[..]);
     }
     /// make a new `TextLine`
     #[must_use]
@@ -804,6 +807,7 @@ impl TextLine {
     pub fn clear(&mut self) {
         self.parts.clear();
         self.line.clear();
+        self.orig.clear();
     }
     /// How many column in the line
     #[must_use]
@@ -1561,14 +1565,12 @@ impl Reader {
     /// get current line contents, without the trailing newline
     #[must_use]
     pub fn curr_nl(&self) -> &[u8] {
-        let line = self.curr_line();
-        &line.line[0..line.line.len() - 1]
+        self.curr_line().line_nl()
     }
     /// get previous line contents, without the trailing newline
     #[must_use]
     pub fn prev_nl(&self, n: usize) -> &[u8] {
-        let line = self.prev_line(n);
-        &line.line[0..line.line.len() - 1]
+        self.prev_line(n).line_nl()
     }
     /// get delimiter
     #[must_use]
@@ -1582,7 +1584,7 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// open file for reading
@@ -1621,8 +1623,9 @@ impl Reader {
     }
     /// get next line of text
     pub fn getline(&mut self) -> Result<bool> {
-        self.loc.bytes += self.curr().line.len();
+        self.loc.bytes += self.curr().line().len();
         self.incr();
+        self.lines[self.curr].clear();
         if self
             .cont
             .text
@@ -1660,12 +1663,12 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write_curr(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// write previous text line with newline
     pub fn write_prev(&self, w: &mut impl Write, lookback: usize) -> Result<()> {
-        w.write_all(&self.prev_line(lookback).line)?;
+        w.write_all(self.prev_line(lookback).line())?;
         Ok(())
     }
     /// write header, if there is one
@@ -2128,7 +2131,7 @@ impl CompareOp {
     ) -> bool {
         if !self.invert().line_ok(line, comp) {
             eprint!("Line {line_num} : ");
-            prerr_n(&[&line.line]);
+            prerr_n(&[line.line()]);
             eprint!("should have been {self:?} ");
             prerr_n(&[comp.get_value()]);
             eprintln!(" but wasn't");
-- 
2.43.0


From 9408eecaea6764bae831e82b5954e82b480b37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:42 +0000
Subject: [PATCH 081/113] fix: cgrep --location uses the right delimiter

---
 src/bin/cdx/cgrep_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 7e3da09..c6ea050 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -61,7 +61,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         loop {
             if list.ok(f.curr_line()) ^ reverse {
                 // write previous lines of context if necessary
-                loc.write_data(&mut w.0, b'\t', f.loc())?;
+                loc.write_data(&mut w.0, f.delim(), f.loc())?;
                 f.write_curr(&mut w.0)?;
             } else {
                 // write more lines of context if necessary
-- 
2.43.0


From 4a3941415f82e6f1e49eed8127fa1e65078f362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:47 +0000
Subject: [PATCH 082/113] fix: paste uses the right delimiter

---
 src/bin/cdx/paste_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 2735a46..9abfb96 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -89,6 +89,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         fds.push(f);
     }
     let mut w = get_writer("-")?;
+    let delim = [settings.text_out().delim];
     header.check_rename()?;
     if do_header {
         w.write_all(header.get_head(&settings.text_out()).as_bytes())?;
@@ -126,7 +127,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let mut need_delim = false;
         for (i, f) in fds.iter_mut().enumerate() {
             if need_delim {
-                w.write_all(b"\t")?;
+                w.write_all(&delim)?;
             }
             need_delim = true;
             if f.is_done() {
@@ -136,7 +137,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     let mut nd = false;
                     for j in rngs[i].start..rngs[i].end {
                         if nd {
-                            w.write_all(b"\t")?;
+                            w.write_all(&delim)?;
                         }
                         nd = true;
                         w.write_all(dflt.get(j).as_bytes())?;
-- 
2.43.0


From d55f0f3a1aae686295e86ffcada60f426c1332cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:54 +0000
Subject: [PATCH 083/113] fix: transpose uses the right delimiter and quoting

---
 src/transpose.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index f1ef405..d07bbc2 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -20,7 +20,8 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut w = get_writer("-")?;
     if head {
-        w.write_all(b" CDX\t")?;
+        w.write_all(b" CDX")?;
+        w.write_all(&[text.delim])?;
     }
     for i in 0..f.header().len() {
         let mut need_tab = if f.has_header() {
@@ -31,10 +32,10 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
         };
         for x in &data {
             if need_tab {
-                w.write_all(b"\t")?;
+                w.write_all(&[text.delim])?;
             }
             need_tab = true;
-            w.write_all(&x[i])?;
+            text.write(&mut w.0, &x[i])?;
         }
         w.write_all(b"\n")?;
     }
-- 
2.43.0


From 9ce713c76879acae98e5fdf279087c79dcc8f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:59 +0000
Subject: [PATCH 084/113] fix: wc uses the right delimiter

---
 src/bin/cdx/wc_main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index b1bee89..65ae81b 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -79,6 +79,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
     let nada = TextLine::new();
     let mut w = get_writer("-")?;
+    let delim = [settings.text_out().delim];
     let mut first_file = true;
     let mut totals = Vec::new();
     let do_totals;
@@ -156,11 +157,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &aggs {
                 if show_file {
                     w.write_all(x.name.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&delim)?;
                 }
                 for i in 0..x.agg.len() {
                     if i != 0 {
-                        w.write_all(b"\t")?;
+                        w.write_all(&delim)?;
                     }
                     x.agg.get(i).agg.borrow_mut().result(&mut w.0, fmt)?;
                 }
@@ -229,7 +230,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if !total_only {
                 if show_file {
                     w.write_all(x.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&delim)?;
                 }
                 c_write.write(&mut w.0, &nada)?;
             }
@@ -242,11 +243,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
     if do_totals {
         if show_file {
-            w.write_all(b"totals\t")?;
+            w.write_all(b"totals")?;
+            w.write_all(&delim)?;
         }
         for (i, t) in totals.iter().enumerate() {
             if i != 0 {
-                w.write_all(b"\t")?;
+                w.write_all(&delim)?;
             }
             fmt.print(*t, &mut w.0)?;
         }
-- 
2.43.0


From 04cc7e22ac0899a0036cac4db0742ae9f0b3cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:57 +0000
Subject: [PATCH 085/113] fix: a failure to write the end of the output is an
 error

---
 src/bin/cdx/binsearch_main.rs | 1 +
 src/bin/cdx/cat_main.rs       | 1 +
 src/bin/cdx/cgrep_main.rs     | 1 +
 src/bin/cdx/cut_main.rs       | 1 +
 src/bin/cdx/filegen_main.rs   | 1 +
 src/bin/cdx/paste_main.rs     | 1 +
 src/bin/cdx/sample_main.rs    | 1 +
 src/bin/cdx/sort_main.rs      | 1 +
 src/bin/cdx/uniq_main.rs      | 2 ++
 src/bin/cdx/wc_main.rs        | 1 +
 src/join.rs                   | 4 ++++
 src/transpose.rs              | 1 +
 12 files changed, 16 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 157fe1d..f756848 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -185,5 +185,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 5bd03ae..b9b6024 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -210,5 +210,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(b"\n")?;
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index c6ea050..772759d 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -71,5 +71,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index b94ad97..0d3dd4f 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -64,5 +64,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/filegen_main.rs b/src/bin/cdx/filegen_main.rs
index 4a74263..cc1834a 100644
--- a/src/bin/cdx/filegen_main.rs
+++ b/src/bin/cdx/filegen_main.rs
@@ -53,5 +53,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     for _i in 0..num_lines {
         list.write(&mut w.0, b'\t')?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 9abfb96..528e16c 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -153,5 +153,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 0c92bd3..748fd17 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -175,5 +175,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index 5e0c13f..d60f1e4 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -81,6 +81,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else {
             config.sort(&files, comp, &mut w.0, unique)?;
         }
+        w.flush()?;
     }
     Ok(())
 }
diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 61b093e..0eb973b 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -232,6 +232,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         w.write_all(ch.get_head(&settings.text_out()).as_bytes())?;
     }
     if f.is_done() {
+        w.flush()?;
         return Ok(());
     }
 
@@ -295,5 +296,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 65ae81b..05b9813 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -254,5 +254,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/join.rs b/src/join.rs
index 020cc39..ebb7313 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -318,6 +318,10 @@ impl Joiner {
             }
             self.r[1].getline()?;
         }
+        self.yes_match.flush()?;
+        for x in self.no_match.iter_mut().flatten() {
+            x.flush()?;
+        }
         Ok(())
     }
 }
diff --git a/src/transpose.rs b/src/transpose.rs
index d07bbc2..d499a21 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -39,5 +39,6 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
-- 
2.43.0


From f32f51f2c4af0d6d6ea0aabc9b4a9e863848ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:03 +0000
Subject: [PATCH 086/113] fix: sort fails if it cannot write a temporary file

---
 src/sort.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sort.rs b/src/sort.rs
index 71d94b5..7ab9a37 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -479,6 +479,7 @@ impl Sorter {
         for &x in &self.ptrs {
             new_w.write_all(x.get(&self.data))?;
         }
+        new_w.flush()?;
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
         let nsize = self.data_used - self.data_calc;
-- 
2.43.0


From 432bae370a77fbb1d7b0f45254e7360ff6b7903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:08 +0000
Subject: [PATCH 087/113] fix: tooltest : a test does not see the files of the
 tests before it

---
 src/tooltest.rs | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/tooltest.rs b/src/tooltest.rs
index 5a2b52f..7ee58e2 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -60,22 +60,17 @@ pub struct Test {
     out_files: Vec<OutFile>,
 }
 
-/// delete file from dir
-fn delete_file(s: &str, dir: &str) -> Result<()> {
-    let mut f = dir.to_string();
-    f.push_str(s);
-    std::fs::remove_file(f)?;
-    Ok(())
-}
-
-/// remove item from Vec and delete file
-fn nuke(v: &mut Vec<String>, s: &str, dir: &str, keep_files: bool) -> Result<()> {
-    v.retain(|x| x != s);
-    if keep_files {
-        Ok(())
-    } else {
-        delete_file(s, dir)
+/// delete everything in dir
+fn empty_dir(dir: &Path) -> Result<()> {
+    for entry in fs::read_dir(dir)? {
+        let entry = entry?;
+        if entry.file_type()?.is_dir() {
+            fs::remove_dir_all(entry.path())?;
+        } else {
+            fs::remove_file(entry.path())?;
+        }
     }
+    Ok(())
 }
 
 /// return directory as vec of file names
@@ -262,6 +257,16 @@ impl Test {
         if !tmp.ends_with('/') {
             tmp.push('/');
         }
+        let res = self.run_in(config, &tmp, keep_files);
+        if !keep_files {
+            // whatever happened, the next test starts with an empty directory
+            empty_dir(Path::new(&tmp))?;
+        }
+        res
+    }
+
+    fn run_in(&self, config: &Config, tmp: &str, keep_files: bool) -> Result<bool> {
+        let tmp = tmp.to_string();
         for x in &self.in_files {
             let mut fname = tmp.clone();
             fname.push_str(&x.name);
@@ -305,10 +310,11 @@ impl Test {
             Ok(x) => x,
         };
         let mut files = read_dir(Path::new(&tmp))?;
-        nuke(&mut files, "stdin", &tmp, keep_files)?;
-        for x in &self.in_files {
-            nuke(&mut files, &x.name, &tmp, keep_files)?;
-        }
+        files.retain(|f| {
+            f != "stdin"
+                && !self.in_files.iter().any(|x| x.name == *f)
+                && !self.out_files.iter().any(|x| x.name == *f)
+        });
         let mut failed = false;
         match output.status.code() {
             Some(code) => {
@@ -366,14 +372,12 @@ impl Test {
                     }
                 }
             }
-            nuke(&mut files, &x.name, &tmp, keep_files)?;
         }
         if !keep_files && !files.is_empty() {
             failed = true;
             eprintln!("Files left over in TMP dir :");
             for x in &files {
                 eprintln!("{x}");
-                delete_file(x, &tmp)?;
             }
         }
         if keep_files {
-- 
2.43.0


From 8c397eb97353fba3e87f81d7c1ab7bd5f39cbad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:01 +0000
Subject: [PATCH 088/113] fix: filegen : decimal does not write debugging
 output

---
 src/textgen.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index c314f7a..4fbebb0 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -50,15 +50,6 @@ impl DecimalGen {
                 }
             }
         }
-        eprintln!(
-            "{:?}",
-            Self {
-                sign,
-                pre,
-                post,
-                post_size
-            }
-        );
         Ok(Self {
             sign,
             pre,
-- 
2.43.0


From 08f31c2241e2925fca9eabb64a1f8e59255f922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:21 +0000
Subject: [PATCH 089/113] fix: filegen : too many digits, invalid distributions
 and large counts do not panic

---
 src/textgen.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index 4fbebb0..176cf50 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -41,12 +41,17 @@ impl DecimalGen {
                 spec = &spec[1..];
             }
             if !spec.is_empty() {
+                let power = |s: &str| {
+                    10_usize
+                        .checked_pow(s.len() as u32)
+                        .ok_or_else(|| anyhow!("Too many digits for decimal generator : '{s}'"))
+                };
                 if let Some((a, b)) = spec.split_once('.') {
-                    pre = 10_usize.pow(a.len() as u32);
+                    pre = power(a)?;
                     post_size = b.len();
-                    post = 10_usize.pow(post_size as u32);
+                    post = power(b)?;
                 } else {
-                    pre = 10_usize.pow(spec.len() as u32);
+                    pre = power(spec)?;
                 }
             }
         }
@@ -134,7 +139,8 @@ impl NormalDistGen {
         }
         Ok(Self {
             fmt,
-            norm: Normal::new(mean, dev).unwrap(),
+            norm: Normal::new(mean, dev)
+                .map_err(|e| anyhow!("Invalid normal distribution '{spec}' : {e}"))?,
         })
     }
 }
@@ -176,7 +182,7 @@ impl CountGen {
 }
 impl Gen for CountGen {
     fn write(&mut self, w: &mut dyn Write, loc: &Where) -> Result<()> {
-        write!(w, "{}", loc.line as isize + self.start - 1)?;
+        write!(w, "{}", loc.line as i128 + self.start as i128 - 1)?;
         Ok(())
     }
 }
-- 
2.43.0


From 7be782ff9ef1bfc36ec58e86c0eb8b522b7468c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:27 +0000
Subject: [PATCH 090/113] fix: tabs : lines with more columns than the first do
 not panic

---
 src/tabs.rs | 72 ++++++-----------------------------------------------
 1 file changed, 8 insertions(+), 64 deletions(-)

diff --git a/src/tabs.rs b/src/tabs.rs
index dd64fc7..fb1f5fb 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -61,72 +61,13 @@ pub fn basic(file: &str, text: &TextFileMode) -> Result<()> {
 }
 /// show the file in a specific rectangle
 pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
-    let mut f = Reader::new(text);
-    f.open(file)?;
-    if f.is_empty() {
-        return Ok(());
-    }
-    let mut lines: Vec<StringLine> = Vec::new();
-    let mut sizes: Vec<usize> = vec![0; f.header().len()];
-    if f.has_header() {
-        lines.push(f.header().clone());
-    }
-    if !f.is_done() {
-        while lines.len() < screen.height {
-            let mut s = StringLine::new();
-            s.line = String::from_utf8_lossy(f.curr().line()).to_string();
-            s.split(f.delim());
-            lines.push(s);
-            if f.getline()? {
-                break;
-            }
-        }
-    }
-    for x in &lines {
-        for (i, c) in x.iter().enumerate() {
-            let width = UnicodeWidthStr::width(c);
-            if sizes[i] < width {
-                sizes[i] = width;
-            }
-        }
-    }
-    let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
-    while total > target {
-        dec_max(&mut sizes);
-        total = sizes.iter().sum();
-    }
+    let mut v = Vec::new();
+    show2(file, screen, &mut v, text)?;
     let mut w = get_writer("-")?;
-    let mut do_center = f.has_header();
-    for x in &lines {
-        let mut need_space = false;
-        for (c, y) in x.iter().enumerate() {
-            let (nstr, width) = y.unicode_truncate(sizes[c]);
-            if need_space {
-                w.write_all(b" ")?;
-            }
-            let num = (sizes[c] - width) / 2;
-            if do_center {
-                for _ in 0..num {
-                    w.write_all(b" ")?;
-                }
-            }
-            w.write_all(nstr.as_bytes())?;
-            if do_center {
-                let num2 = (sizes[c] - width) - num;
-                for _ in 0..num2 {
-                    w.write_all(b" ")?;
-                }
-            } else {
-                for _ in width..sizes[c] {
-                    w.write_all(b" ")?;
-                }
-            }
-            need_space = true;
-        }
-        do_center = false;
-        w.write_all(b"\n")?;
+    for x in &v {
+        writeln!(w, "{x}")?;
     }
+    w.flush()?;
     Ok(())
 }
 
@@ -154,6 +95,9 @@ pub fn show2(file: &str, screen: &Rect, w: &mut Vec<String>, text: &TextFileMode
         }
     }
     for x in &lines {
+        if x.len() > sizes.len() {
+            sizes.resize(x.len(), 0);
+        }
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
             if sizes[i] < width {
-- 
2.43.0


From 3b7906a5c3bdeb6a36a159603aed8f54d59bdcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:44 +0000
Subject: [PATCH 091/113] fix: tabs : many files or columns on a small screen
 do not panic

---
 src/bin/cdx/tabs_main.rs | 4 ++--
 src/tabs.rs              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index ae42ba1..6d305fd 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -41,7 +41,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
-        let mut lines_left = base_rect.height - (2 * files.len()) + 1;
+        let mut lines_left = (base_rect.height + 1).saturating_sub(2 * files.len());
         let mut files_left = files.len();
         for x in &files {
             let mut v = Vec::new();
@@ -51,7 +51,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &v {
                 println!("{}", x);
             }
-            lines_left -= v.len();
+            lines_left = lines_left.saturating_sub(v.len());
             files_left -= 1;
             if files_left > 0 {
                 println!("{:-<1$}", "", real);
diff --git a/src/tabs.rs b/src/tabs.rs
index fb1f5fb..eee6670 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -30,7 +30,7 @@ impl Rect {
         if unsafe { libc::ioctl(2, libc::TIOCGWINSZ, &mut ws) } >= 0 {
             Self {
                 width: ws.ws_col as usize,
-                height: (ws.ws_row - 1) as usize,
+                height: ws.ws_row.saturating_sub(1) as usize,
             }
         } else {
             Self {
@@ -106,7 +106,7 @@ pub fn show2(file: &str, screen: &Rect, w: &mut Vec<String>, text: &TextFileMode
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
-- 
2.43.0


From 5f5211deaaf15851893b26e266d4cb96ae67afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:08 +0000
Subject: [PATCH 092/113] fix: tabs : failure to write the output does not
 panic

---
 src/bin/cdx/tabs_main.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index 6d305fd..8eb0d2c 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -2,13 +2,14 @@ use crate::prelude::*;
 use cdx::prelude::*;
 use cdx::tabs;
 
-fn print_centered(txt: &str, width: usize) {
+fn print_centered(w: &mut impl Write, txt: &str, width: usize) -> Result<()> {
     if txt.len() > width {
     } else {
         let left = (width - txt.len()) / 2;
         let right = width - txt.len() - left;
-        println!("{: <3$}{}{: <4$}", "", txt, "", left, right);
+        writeln!(w, "{: <3$}{}{: <4$}", "", txt, "", left, right)?;
     }
+    Ok(())
 }
 
 pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
@@ -28,6 +29,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     if end {
         eprintln!();
     }
+    let mut w = get_writer("-")?;
     if files.len() == 1 {
         let mut v = Vec::new();
         tabs::show2(
@@ -37,7 +39,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             &settings.text_in,
         )?;
         for x in v {
-            println!("{}", x);
+            writeln!(w, "{}", x)?;
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
@@ -47,16 +49,17 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             let mut v = Vec::new();
             let r = tabs::Rect::new(base_rect.width, lines_left / files_left);
             let real = tabs::show2(x, &r, &mut v, &settings.text_in)?;
-            print_centered(x, real);
+            print_centered(&mut w.0, x, real)?;
             for x in &v {
-                println!("{}", x);
+                writeln!(w, "{}", x)?;
             }
             lines_left = lines_left.saturating_sub(v.len());
             files_left -= 1;
             if files_left > 0 {
-                println!("{:-<1$}", "", real);
+                writeln!(w, "{:-<1$}", "", real)?;
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
-- 
2.43.0


From afb31e88eca1cf67d5250b79d2504b41398934a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:19 +0000
Subject: [PATCH 093/113] fix: binsearch of a file holding only ' CDX' panicked

---
 src/binsearch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index 0532ecc..790318b 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -28,6 +28,9 @@ impl MemMap {
         let mut header_len = find_end(&map[..], 0);
         let mut header = StringLine::new();
         if is_cdx(&map[..]) {
+            if header_len < 5 {
+                return err!("File {} has an oddly truncated header line", fname);
+            }
             delim = map[4];
             header.line = std::str::from_utf8(&map[0..header_len])?.to_string();
         } else {
-- 
2.43.0


From 159bc44aabb08b30748de17b9b393e12c81f0932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:24 +0000
Subject: [PATCH 094/113] fix: binsearch --context with a huge count kept
 looping after the end of the file

---
 src/bin/cdx/binsearch_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index f756848..3e85205 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -166,6 +166,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             start = find_prev(m.get(), start);
         }
         for _x in 0..after {
+            if stop == m.get().len() {
+                break;
+            }
             stop = find_end(m.get(), stop);
         }
         if filename.is_none() {
-- 
2.43.0


From 3de551950a5522933f63c23ea3dba46d2a24a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:32 +0000
Subject: [PATCH 095/113] fix: paste --default naming a column past the last
 panicked

---
 src/column.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index e5bf160..f4d80e1 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -458,6 +458,13 @@ impl ScopedValues {
             x.lookup(fieldnames)?;
             for i in 0..x.cols.columns.len() {
                 let j = x.cols.columns[i].num;
+                if j >= fieldnames.len() {
+                    return err!(
+                        "Column {} requested, but there are only {} columns",
+                        j + 1,
+                        fieldnames.len()
+                    );
+                }
                 self.strings[j].clone_from(&x.value);
                 self.has_value[j] = true;
             }
-- 
2.43.0


From 7c6a5ed82b100ab300a1be0d940f71d5a432b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:39 +0000
Subject: [PATCH 096/113] fix: uniq with aggregation panicked on a header with
 an unusable column name

---
 src/agg.rs               | 5 +++--
 src/bin/cdx/uniq_main.rs | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 14b3109..ddded5f 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -662,7 +662,7 @@ impl LineAggList {
         Ok(())
     }
     /// fill Writer with aggregators
-    pub fn fill(&self, w: &mut Writer, head: &StringLine) {
+    pub fn fill(&self, w: &mut Writer, head: &StringLine) -> Result<()> {
         for x in &self.v {
             if let AggType::Prefix(_s) = &x.out {
                 w.push(Box::new(x.clone()));
@@ -675,13 +675,14 @@ impl LineAggList {
                     continue 'outer;
                 }
             }
-            w.push(Box::new(ColumnSingle::with_name(x).unwrap()));
+            w.push(Box::new(ColumnSingle::with_name(x)?));
         }
         for x in &self.v {
             if let AggType::Append(_s) = &x.out {
                 w.push(Box::new(x.clone()));
             }
         }
+        Ok(())
     }
 }
 
diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 0eb973b..7a1bc12 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -211,7 +211,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             agg.push_append(&format!("{},1,count", count.name))?;
         }
         agg.lookup(&f.names())?;
-        agg.fill(&mut c_write, f.header());
+        agg.fill(&mut c_write, f.header())?;
         c_write.lookup(&f.names())?;
     }
 
-- 
2.43.0


From d39ef055f0feabec0b77d9cddaa29fdc55950449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:30 +0000
Subject: [PATCH 097/113] fix: sample --sample with a huge number needs no more
 memory than the input

---
 src/sampler.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index 4255f03..ac26439 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -11,7 +11,7 @@ use crate::prelude::*;
 pub struct Smooth {
     small: usize,       // goal size
     large: usize,       // maximum size
-    data: Vec<Vec<u8>>, // always length large
+    data: Vec<Vec<u8>>, // grows as needed, never longer than large
     jump: usize,        // number of lines between entries
     pos: usize,         // number of lines between last and penultimate entries in data
     size: usize,        // current number of 'live' elements in data
@@ -22,24 +22,21 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = (small * 2 - 2).max(small + 1);
-        let mut data = Vec::with_capacity(large);
-        for _ in 0..large {
-            data.push(Vec::new());
-        }
+        let large = (small - 1)
+            .saturating_mul(2)
+            .max(small.saturating_add(1));
         Self {
             small,
             large,
-            data,
+            data: Vec::new(),
             jump: 1,
             pos: 0,
             size: 0,
         }
     }
     fn verify(&self) -> bool {
-        debug_assert!(self.data.len() == self.large);
-        debug_assert!(self.size <= self.large);
-        debug_assert!(self.size <= self.large);
+        debug_assert!(self.data.len() <= self.large);
+        debug_assert!(self.size <= self.data.len());
         //	debug_assert!(self.pos <= self.jump);
         true
     }
@@ -51,6 +48,9 @@ impl Smooth {
                 self.jump *= 2;
                 self.collapse();
             }
+            if self.size == self.data.len() {
+                self.data.push(Vec::new());
+            }
             self.data[self.size].clear();
             self.data[self.size].extend(x);
             self.size += 1;
-- 
2.43.0


From cd22431fcf825c08943858d46044fc1e3c55c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:38 +0000
Subject: [PATCH 098/113] fix: cat --number starting at the largest integer
 panicked

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index f4d80e1..e955b45 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -683,7 +683,7 @@ impl ColumnFun for ColumnCount {
     /// write the column values (called many times)
     fn write(&mut self, w: &mut dyn Write, _line: &TextLine, _text: &TextFileMode) -> Result<()> {
         w.write_all(self.num.to_string().as_bytes())?;
-        self.num += 1;
+        self.num = self.num.wrapping_add(1);
         Ok(())
     }
     /// resolve any named columns
-- 
2.43.0


From d165db70590142181e3d018720b45749c6443ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:28 +0000
Subject: [PATCH 099/113] fix: a number format with more digits than can be
 printed panicked

---
 src/num.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index 8c97959..5810349 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -157,6 +157,9 @@ impl NumFormat {
             Ok(Self::Power10)
         } else if let Some((a, b)) = spec.split_once('.') {
             let p = b.to_usize_whole(spec.as_bytes(), "Num Format")?;
+            if p > usize::from(u16::MAX) {
+                return err!("Number format can not have more than {} digits", u16::MAX);
+            }
             if a.eq_ignore_ascii_case("plain") {
                 Ok(Self::Plain(Some(p)))
             } else if a.eq_ignore_ascii_case("short") {
-- 
2.43.0


From 01e8f9cf2185fa8b9560aabe2d925857089d45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:33 +0000
Subject: [PATCH 100/113] fix: a merge delimiter that is not a single byte
 panicked

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index ddded5f..5239eee 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -740,7 +740,7 @@ impl Merge {
                 break;
             }
             if sp.as_bytes()[0] == b'D' {
-                if sp.len() < 3 {
+                if !sp.is_char_boundary(3) {
                     return err!("Merge Delim Spec must be three bytes, e.g. 'D.,'");
                 }
                 m.add_one(&sp[0..3])?;
-- 
2.43.0


From 4b2b9d6de878c8eeeca2b4fc2446068296a97ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:10 +0000
Subject: [PATCH 101/113] fix: sort panicked without a usable temporary
 directory, even when it needs none

---
 src/sort.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 7ab9a37..0ab5b22 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -334,7 +334,8 @@ pub struct Sorter {
     config: SortConfig,
     ptrs: Vec<Item>,
     cmp: LineCompList,
-    tmp: TempDir,
+    // created when the first temporary file is needed
+    tmp: Option<TempDir>,
     tmp_files: Vec<String>,
     unique: bool,
     checker: HeaderChecker,
@@ -372,7 +373,7 @@ impl Sorter {
             ptrs: Vec::with_capacity(ptr_size),
             data: Vec::with_capacity(data_size),
             cmp,
-            tmp: TempDir::new().unwrap(), // FIXME - new should return Result
+            tmp: None,
             tmp_files: Vec::new(),
             unique,
             checker: HeaderChecker::new(),
@@ -472,9 +473,17 @@ impl Sorter {
 
     /// write ptrs to tmp file
     fn write_tmp(&mut self) -> Result<()> {
-        let mut tmp_file = self.tmp.path().to_owned();
+        if self.tmp.is_none() {
+            self.tmp = Some(TempDir::new()?);
+        }
+        let mut tmp_file = match &self.tmp {
+            Some(tmp) => tmp.path().to_owned(),
+            None => return err!("No temporary directory"),
+        };
         tmp_file.push(format!("sort_{}.txt", self.tmp_files.len()));
-        let tmp_name = tmp_file.to_str().unwrap();
+        let Some(tmp_name) = tmp_file.to_str() else {
+            return err!("Name of temporary directory is not UTF-8");
+        };
         let mut new_w = get_writer(tmp_name)?;
         for &x in &self.ptrs {
             new_w.write_all(x.get(&self.data))?;
@@ -514,18 +523,22 @@ impl Sorter {
             }
         } else {
             self.write_tmp()?;
-            self.config
-                .merge_t(&self.tmp_files, &mut self.cmp, w, self.unique, &self.tmp)?;
+            if let Some(tmp) = &self.tmp {
+                self.config
+                    .merge_t(&self.tmp_files, &mut self.cmp, w, self.unique, tmp)?;
+            }
         }
         Ok(())
     }
 
     #[allow(dead_code)]
     fn no_del(self) {
-        eprintln!(
-            "Not deleting {}",
-            self.tmp.into_path().into_os_string().to_string_lossy()
-        );
+        if let Some(tmp) = self.tmp {
+            eprintln!(
+                "Not deleting {}",
+                tmp.into_path().into_os_string().to_string_lossy()
+            );
+        }
     }
     /// add another file to be sorted
     pub fn add_file<W: Write>(&mut self, fname: &str, w: &mut W) -> Result<()> {
-- 
2.43.0


From e579990ad2708a3a4790a0bb19c1c83d474e321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:40 +0000
Subject: [PATCH 102/113] fix: sort by the random order panicked, because it
 was not an order

---
 src/comp.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index cab181a..8c26d52 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -28,6 +28,8 @@ use crate::num::{fcmp, ulp_to_ulong, Junk, JunkType, JunkVal};
 use crate::prelude::*;
 use crate::util::prerr_n;
 use lazy_static::lazy_static;
+use std::collections::hash_map::RandomState;
+use std::hash::BuildHasher;
 use std::sync::Mutex;
 
 /// method of comparing two slices
@@ -1462,34 +1464,39 @@ impl LineCompList {
     }
 }
 
+/// a random order, but the same one every time two values are compared
 #[derive(Default, Debug)]
-struct CompareRandom {}
+struct CompareRandom {
+    hash: RandomState,
+    value: Vec<u8>,
+}
 impl CompareRandom {
     fn new() -> Self {
         Self::default()
     }
-    fn ord(&self) -> Ordering {
-        if fastrand::bool() {
-            Ordering::Less
-        } else {
-            Ordering::Greater
-        }
-    }
 }
 impl Compare for CompareRandom {
-    fn comp(&self, _left: &[u8], _right: &[u8]) -> Ordering {
-        self.ord()
+    fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
+        self.hash
+            .hash_one(left)
+            .cmp(&self.hash.hash_one(right))
+            .then_with(|| left.cmp(right))
     }
-    fn equal(&self, _left: &[u8], _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn equal(&self, left: &[u8], right: &[u8]) -> bool {
+        left == right
     }
-    fn fill_cache(&self, _item: &mut Item, _value: &[u8]) {}
-    fn set(&mut self, _value: &[u8]) {}
-    fn comp_self(&self, _right: &[u8]) -> Ordering {
-        self.ord()
+    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
+        item.cache = self.hash.hash_one(value);
+        item.clear_complete();
     }
-    fn equal_self(&self, _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn set(&mut self, value: &[u8]) {
+        self.value = value.to_vec();
+    }
+    fn comp_self(&self, right: &[u8]) -> Ordering {
+        self.comp(&self.value, right)
+    }
+    fn equal_self(&self, right: &[u8]) -> bool {
+        self.equal(&self.value, right)
     }
 }
 
-- 
2.43.0


From 3d3d2f48e7f0c1258873833fd93eb94c0d66689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:23 +0000
Subject: [PATCH 103/113] fix: the line delimiter of --text-in was left in the
 last column of every line

---
 src/util.rs | 54 ++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 357cb2b..ac8e538 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -355,22 +355,41 @@ impl TextFileMode {
     /// split data line into columns
     pub fn split(&self, line: &mut TextLine) {
         match self.col_mode {
-            QuoteMode::Plain => split_plain(&mut line.parts, &line.line, self.delim),
+            QuoteMode::Plain => {
+                split_plain_eol(&mut line.parts, &line.line, self.delim, self.line_break);
+            }
             QuoteMode::Backslash => {
                 line.orig.clear();
                 line.orig.extend_from_slice(&line.line);
-                split_backslash(&mut line.parts, &line.orig, &mut line.line, self.delim);
+                split_backslash_eol(
+                    &mut line.parts,
+                    &line.orig,
+                    &mut line.line,
+                    self.delim,
+                    self.line_break,
+                );
             }
             QuoteMode::Quote => {
                 line.orig.clear();
                 line.orig.extend_from_slice(&line.line);
-                split_quotes(&mut line.parts, &line.orig, &mut line.line, self.delim);
+                split_quotes_eol(
+                    &mut line.parts,
+                    &line.orig,
+                    &mut line.line,
+                    self.delim,
+                    self.line_break,
+                );
             }
         }
     }
     /// split data line into columns
     pub fn split_head(&self, line: &mut StringLine) {
-        line.split(self.delim);
+        split_plain_eol(
+            &mut line.parts,
+            line.line.as_bytes(),
+            self.delim,
+            self.line_break,
+        );
         if line.line.starts_with(" CDX") {
             line.parts.remove(0);
         }
@@ -564,6 +583,9 @@ fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
 
 /// split a line by a delimiter. Remove trailing newline, if any.
 pub fn split_plain(parts: &mut Vec<FakeSlice>, line: &[u8], delim: u8) {
+    split_plain_eol(parts, line, delim, b'\n');
+}
+fn split_plain_eol(parts: &mut Vec<FakeSlice>, line: &[u8], delim: u8, eol: u8) {
     parts.clear();
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
@@ -577,7 +599,7 @@ pub fn split_plain(parts: &mut Vec<FakeSlice>, line: &[u8], delim: u8) {
     }
     if begin != end {
         let mut f = FakeSlice { begin, end };
-        if line[(end - 1) as usize] == b'\n' {
+        if line[(end - 1) as usize] == eol {
             f.end -= 1;
         }
         parts.push(f);
@@ -608,9 +630,18 @@ pub const fn enslash(ch: u8) -> u8 {
 
 /// split a line by a delimiter. Remove trailing newline, if any.
 pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
+    split_backslash_eol(parts, line, tmp, delim, b'\n');
+}
+fn split_backslash_eol(
+    parts: &mut Vec<FakeSlice>,
+    line: &[u8],
+    tmp: &mut Vec<u8>,
+    delim: u8,
+    eol: u8,
+) {
     parts.clear();
     tmp.clear();
-    let line = line.strip_suffix(b"\n").unwrap_or(line);
+    let line = line.strip_suffix(&[eol]).unwrap_or(line);
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
     let mut last_was_slash = false;
@@ -639,9 +670,18 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
 
 /// split a line by a delimiter. Remove trailing newline, if any.
 pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
+    split_quotes_eol(parts, line, tmp, delim, b'\n');
+}
+fn split_quotes_eol(
+    parts: &mut Vec<FakeSlice>,
+    line: &[u8],
+    tmp: &mut Vec<u8>,
+    delim: u8,
+    eol: u8,
+) {
     parts.clear();
     tmp.clear();
-    let line = line.strip_suffix(b"\n").unwrap_or(line);
+    let line = line.strip_suffix(&[eol]).unwrap_or(line);
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
     let mut in_quote = false;
-- 
2.43.0


From 26d3a6dfea564c5306a29b0017f45f304d6f059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:29 +0000
Subject: [PATCH 104/113] fix: cut and transpose ended lines with a newline,
 whatever the line delimiter of --text-out

---
 src/column.rs    | 4 ++--
 src/transpose.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index e955b45..d75ebdb 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -234,7 +234,7 @@ impl ColumnHeader {
             res.push(text.delim as char);
         }
         self.add_head(&mut res, text);
-        res.push('\n');
+        res.push(text.line_break as char);
         res
     }
 
@@ -1441,7 +1441,7 @@ impl Writer {
                 }
             }
         };
-        w.write_all(&[b'\n'])?;
+        w.write_all(&[self.text.line_break])?;
         Ok(())
     }
 }
diff --git a/src/transpose.rs b/src/transpose.rs
index d499a21..2e0fe8c 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -37,7 +37,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
             need_tab = true;
             text.write(&mut w.0, &x[i])?;
         }
-        w.write_all(b"\n")?;
+        w.write_all(&[text.line_break])?;
     }
     w.flush()?;
     Ok(())
-- 
2.43.0


From 608f46061032a78e6833c1e63b773eb558b2ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:02 +0000
Subject: [PATCH 105/113] fix: a line delimiter written as an escaped character
 still ended the line when read back

---
 src/util.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index ac8e538..d19cd51 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -446,6 +446,16 @@ impl TextFileMode {
         if sz == 0 {
             return Ok(true);
         }
+        if self.col_mode == QuoteMode::Backslash {
+            // an escaped line delimiter is part of the value
+            while line.last() == Some(&self.line_break) {
+                let len = line.len() - 1;
+                let slashes = line[..len].iter().rev().take_while(|c| **c == b'\\');
+                if slashes.count() % 2 == 0 || f.read_until(self.line_break, line)? == 0 {
+                    break;
+                }
+            }
+        }
         if self.col_mode != QuoteMode::Quote {
             return self.ensure_eof(line);
         }
-- 
2.43.0


From d11da6f7ca561ef139ada907a10bf2eadd61b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:46 +0000
Subject: [PATCH 106/113] fix: a header that ends with the line delimiter of
 --text-in or --text-out was refused

---
 src/bin/cdx/cat_main.rs   |  6 +++++-
 src/bin/cdx/cgrep_main.rs |  6 +++++-
 src/bin/cdx/cut_main.rs   |  6 +++++-
 src/util.rs               | 11 ++++++++++-
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index b9b6024..7c50e62 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -156,7 +156,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.has_header() {
                 not_header = header.get_head(&settings.text_out());
             }
-            if settings.checker.check(not_header.as_bytes(), x)? {
+            let eol = settings.text_out().line_break;
+            if settings
+                .checker
+                .check_eol(not_header.as_bytes(), eol, x)?
+            {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 772759d..26dc987 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -52,7 +52,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        let eol = settings.text_out().line_break;
+        if settings
+            .checker
+            .check_eol(not_header.as_bytes(), eol, x)?
+        {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index 0d3dd4f..542386c 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -51,7 +51,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        let eol = settings.text_out().line_break;
+        if settings
+            .checker
+            .check_eol(not_header.as_bytes(), eol, x)?
+        {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/util.rs b/src/util.rs
index d19cd51..b294d5d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2005,7 +2005,8 @@ impl HeaderChecker {
     pub fn check_file(&mut self, file: &Reader, fname: &str) -> Result<bool> {
         let first = !self.saw_one;
         if file.has_header() {
-            let write = self.check(file.header().line.as_bytes(), fname)?;
+            let eol = file.cont.text.line_break;
+            let write = self.check_eol(file.header().line.as_bytes(), eol, fname)?;
             Ok(write && first)
         } else {
             self.check(b"fake", fname)?;
@@ -2013,6 +2014,14 @@ impl HeaderChecker {
         }
     }
 
+    /// `check`, for a line that ends with something other than newline
+    pub fn check_eol(&mut self, first_line: &[u8], eol: u8, fname: &str) -> Result<bool> {
+        match first_line.split_last() {
+            Some((last, line)) if *last == eol => self.check(&[line, b"\n"].concat(), fname),
+            _ => self.check(first_line, fname),
+        }
+    }
+
     /// call for the first line of every input file
     /// return true if the line should be part of the output
     pub fn check(&mut self, first_line: &[u8], fname: &str) -> Result<bool> {
-- 
2.43.0


From bc79fa0cf3385b16f1fe40f7cdd620d152c62b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:44 +0000
Subject: [PATCH 107/113] fix: an escaped line delimiter at the very end of a
 file was lost

---
 src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index b294d5d..8f1965b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -451,7 +451,11 @@ impl TextFileMode {
             while line.last() == Some(&self.line_break) {
                 let len = line.len() - 1;
                 let slashes = line[..len].iter().rev().take_while(|c| **c == b'\\');
-                if slashes.count() % 2 == 0 || f.read_until(self.line_break, line)? == 0 {
+                if slashes.count() % 2 == 0 {
+                    break;
+                }
+                if f.read_until(self.line_break, line)? == 0 {
+                    line.push(self.line_break);
                     break;
                 }
             }
-- 
2.43.0


From 356cab54e663ad76f909ae64049088cfd07edcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:34 +0000
Subject: [PATCH 108/113] fix: a comparison of values honours rev, as a
 comparison of lines does

---
 src/agg.rs  |  4 ++--
 src/comp.rs | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 5239eee..36f429b 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -863,7 +863,7 @@ impl Agg for Min {
             self.val.extend_from_slice(data);
             return;
         }
-        if self.comp.comp.comp(&self.val, data) == Ordering::Greater {
+        if self.comp.comp(&self.val, data) == Ordering::Greater {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
@@ -1086,7 +1086,7 @@ impl Max {
 
 impl Agg for Max {
     fn add(&mut self, data: &[u8]) {
-        if self.empty || self.comp.comp.comp(&self.val, data) == Ordering::Less {
+        if self.empty || self.comp.comp(&self.val, data) == Ordering::Less {
             self.empty = false;
             self.val.clear();
             self.val.extend_from_slice(data);
diff --git a/src/comp.rs b/src/comp.rs
index 8c26d52..aafd403 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -155,14 +155,23 @@ impl Comp {
             junk: c.junk,
             pattern: c.pattern.clone(),
             ctype: c.ctype.clone(),
-            reverse: c.reverse,
+            // the LineComp does the reversing
+            reverse: false,
             comp: Box::new(ComparePlain::new()),
         }
     }
     /// Compare two slices, usually column values
     #[must_use]
     pub fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
-        self.comp.comp(left, right)
+        self.reverse(self.comp.comp(left, right))
+    }
+    /// reverse the ordering if self.reverse is set
+    const fn reverse(&self, x: Ordering) -> Ordering {
+        if self.reverse {
+            x.reverse()
+        } else {
+            x
+        }
     }
     /// Compare two slices for equality
     #[must_use]
@@ -180,7 +189,7 @@ impl Comp {
     /// Compare self to slice
     #[must_use]
     pub fn comp_self(&self, right: &[u8]) -> Ordering {
-        self.comp.comp_self(right)
+        self.reverse(self.comp.comp_self(right))
     }
     /// Compare self to slice for equality
     #[must_use]
-- 
2.43.0


From a5c4cb4c86383082adecc6f2bb8e3d69cc404b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:37 +0000
Subject: [PATCH 109/113] fix: a range matcher honours rev in its comparison

---
 src/util.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 8f1965b..74b8ab9 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,7 +1,7 @@
 //! Misc utility stuff
 //#![allow(dead_code)]
 use crate::column::ColumnHeader;
-use crate::comp::{CompMaker, Compare};
+use crate::comp::{Comp, CompMaker};
 use crate::prelude::*;
 use anyhow;
 use flate2::read::MultiGzDecoder;
@@ -2405,9 +2405,9 @@ impl CheckLine {
 /// A compare op with some text to compare against
 pub struct CheckBuff {
     op: CompareOp,
-    val: Box<dyn Compare>,
+    val: Comp,
     op2: Option<CompareOp>,
-    val2: Option<Box<dyn Compare>>,
+    val2: Option<Comp>,
 }
 impl fmt::Debug for CheckBuff {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
@@ -2426,7 +2426,7 @@ impl CheckBuff {
         Ok(Self {
             op: r.op1.parse::<CompareOp>()?,
             val: {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val1.as_bytes());
                 c
             },
@@ -2438,7 +2438,7 @@ impl CheckBuff {
             val2: if r.val2.is_none() {
                 None
             } else {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val2.unwrap().as_bytes());
                 Some(c)
             },
-- 
2.43.0


From 94e429925782c72810ba8778784ca75047aac0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:40 +0000
Subject: [PATCH 110/113] fix: byte positions of 2^32 and more wrap around in
 FakeSlice

---
 src/util.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 74b8ab9..c8635d3 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -505,30 +505,34 @@ pub struct FakeSlice {
     begin: u32,
     end: u32,
 }
+/// positions that do not fit are beyond the end of any line
+fn saturate_u32(num: usize) -> u32 {
+    u32::try_from(num).unwrap_or(u32::MAX)
+}
 impl FakeSlice {
     /// new from text, like '7' or '3-6'
     pub fn new(spec: &str) -> Result<Self> {
         if let Some((a, b)) = spec.split_once('-') {
-            let begin = a.to_usize_whole(spec.as_bytes(), "range")? as u32;
-            let end = b.to_usize_whole(spec.as_bytes(), "range")? as u32;
+            let begin = a.to_usize_whole(spec.as_bytes(), "range")?;
+            let end = b.to_usize_whole(spec.as_bytes(), "range")?;
             if begin == 0 || end == 0 {
                 err!("Invalid range, both number must be greater than zero")
             } else if begin > end {
                 err!("Invalid range, begin is greater than end")
             } else {
                 Ok(Self {
-                    begin: begin - 1,
-                    end,
+                    begin: saturate_u32(begin - 1),
+                    end: saturate_u32(end),
                 })
             }
         } else {
-            let num = spec.to_usize_whole(spec.as_bytes(), "position")? as u32;
+            let num = spec.to_usize_whole(spec.as_bytes(), "position")?;
             if num == 0 {
                 err!("Invalid offset, must be greater than zero")
             } else {
                 Ok(Self {
-                    begin: num - 1,
-                    end: num,
+                    begin: saturate_u32(num - 1),
+                    end: saturate_u32(num),
                 })
             }
         }
-- 
2.43.0


From 2394664e9c4f7951de2f4b5b1ae16bd6d1895ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:07 +0000
Subject: [PATCH 111/113] fix: first use of a registry from several threads
 misses standard methods

---
 src/agg.rs     | 3 +++
 src/comp.rs    | 3 +++
 src/matcher.rs | 3 +++
 src/textgen.rs | 3 +++
 src/trans.rs   | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/agg.rs b/src/agg.rs
index 36f429b..e1563d8 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1281,6 +1281,9 @@ pub struct AggMaker {}
 
 impl AggMaker {
     fn init() -> Result<()> {
+        static INIT: Mutex<()> = Mutex::new(());
+        // another thread might be half way through
+        let _guard = INIT.lock().unwrap();
         if !AGG_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
diff --git a/src/comp.rs b/src/comp.rs
index aafd403..d3ff7c6 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -871,6 +871,9 @@ pub struct CompMaker {}
 impl CompMaker {
     /// add standard match makers
     fn init() -> Result<()> {
+        static INIT: Mutex<()> = Mutex::new(());
+        // another thread might be half way through
+        let _guard = INIT.lock().unwrap();
         if !COMP_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
diff --git a/src/matcher.rs b/src/matcher.rs
index 0e65ca4..ab5c221 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1621,6 +1621,9 @@ pub struct MatchMaker {}
 impl MatchMaker {
     /// add standard match makers
     fn init() -> Result<()> {
+        static INIT: Mutex<()> = Mutex::new(());
+        // another thread might be half way through
+        let _guard = INIT.lock().unwrap();
         if !MATCH_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
diff --git a/src/textgen.rs b/src/textgen.rs
index 176cf50..0c3934f 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -290,6 +290,9 @@ pub struct GenMaker {}
 
 impl GenMaker {
     fn init() -> Result<()> {
+        static INIT: Mutex<()> = Mutex::new(());
+        // another thread might be half way through
+        let _guard = INIT.lock().unwrap();
         if !GEN_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
diff --git a/src/trans.rs b/src/trans.rs
index 3d13d4c..f3bc508 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -277,6 +277,9 @@ pub struct TransMaker {}
 impl TransMaker {
     /// add standard trans makers
     fn init() -> Result<()> {
+        static INIT: Mutex<()> = Mutex::new(());
+        // another thread might be half way through
+        let _guard = INIT.lock().unwrap();
         if !TRANS_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
-- 
2.43.0


From 7fb6a126dbdbd55968bb6acb327edc710d326a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:29 +0000
Subject: [PATCH 112/113] fix: a counter made before any aggregator is not
 found

---
 src/agg.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index e1563d8..0522900 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1281,10 +1281,10 @@ pub struct AggMaker {}
 
 impl AggMaker {
     fn init() -> Result<()> {
-        static INIT: Mutex<()> = Mutex::new(());
+        static INIT: Mutex<bool> = Mutex::new(false);
         // another thread might be half way through
-        let _guard = INIT.lock().unwrap();
-        if !AGG_MAKER.lock().unwrap().is_empty() {
+        let mut done = INIT.lock().unwrap();
+        if *done {
             return Ok(());
         }
         Self::do_add_alias("min", "minimum")?;
@@ -1344,6 +1344,7 @@ impl AggMaker {
         Self::do_push("sum", "The sum of the values", |p| {
             Ok(Rc::new(RefCell::new(Sum::new(p)?)))
         })?;
+        *done = true;
         Ok(())
     }
     /// Add a new Agg. If an Agg already exists by that name, replace it.
@@ -1499,9 +1500,8 @@ impl AggMaker {
     }
     /// Create a Agg from a name and a pattern
     pub fn make_counter2(spec: &str, pattern: &str) -> Result<Box<dyn Counter>> {
-        // we can't call init here, because mutex is already held by make2()
-        //        Self::init()?;
-        // we need to split the list of counters into a separate init
+        // AGG_MAKER might be held by make2(), so init must not touch it again
+        Self::init()?;
         let mut name = "";
         let mut utf8 = false;
         if !spec.is_empty() {
-- 
2.43.0


From ff7b2e3f0c3b430b1e5a800de3592dec09fc017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:27 +0000
Subject: [PATCH 113/113] fix: ColumnSet::write and write2 fail on a short line
 rather than panic

The first selected column was indexed without a check, although the
columns after it were checked (write) or empty (write2).
---
 src/column.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index d75ebdb..e9f9523 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1056,6 +1056,13 @@ impl ColumnSet {
         match iter.next() {
             None => {}
             Some(first) => {
+                if first.num >= cols.len() {
+                    return err!(
+                        "Line has only {} columns, but column {} was requested.",
+                        cols.len(),
+                        first.num + 1
+                    );
+                }
                 w.write_all(cols[first.num].as_bytes())?;
 
                 for x in iter {
@@ -1085,7 +1092,7 @@ impl ColumnSet {
         match iter.next() {
             None => {}
             Some(first) => {
-                w.write_all(&cols[first.num])?;
+                w.write_all(cols.get(first.num))?;
                 for x in iter {
                     w.write_all(&[delim])?;
                     w.write_all(cols.get(x.num))?;
-- 
2.43.0

