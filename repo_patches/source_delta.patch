From 58b6b843fefddb4b89f762dfc7c4b19a8871f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 01/54] hook: read-only mantissa/exponent accessor of Float
 under cfg(rmath_verif)

---
 src/bigint/float.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index ebbe717..aedb4be 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1240,6 +1240,14 @@ impl Float {
     }
 }
 
+/// read-only access to the mantissa words and the exponent, only for the verification harness
+#[cfg(rmath_verif)]
+impl Float {
+    pub fn verif_mant_exp(&self) -> (&[u32], isize) {
+        (self.mant.as_slice(), self.exp)
+    }
+}
+
 impl Neg for Float {
     type Output = Self; 
 
-- 
2.43.0


From 06a1ba602f33e2b8736849a71bdfddd3e11f09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:03 +0000
Subject: [PATCH 02/54] fix: Nat * u32 leaves a zero limb at the top of the
 product

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 4527ef1..65fc09c 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -635,6 +635,7 @@ impl Nat {
         } else {
             self.as_mut_vec().push(pre as u32);
         }
+        self.trim_head_zero();
     }
     
     pub(super) fn div_inner_basic(&mut self, rhs: &u32) {
-- 
2.43.0


From f5afd4585a42f44084dbb196c9ebd5f6602ba34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 03/54] fix: Nat - u32 leaves a zero limb at the top of the
 difference

---
 src/bigint/nat_amd64.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat_amd64.rs b/src/bigint/nat_amd64.rs
index 76200b2..6eb0799 100644
--- a/src/bigint/nat_amd64.rs
+++ b/src/bigint/nat_amd64.rs
@@ -112,6 +112,7 @@ impl Nat {
             c = march::_subborrow_u32(c, *x, rhs, x);
             rhs = 0;
         });
+        self.trim_head_zero();
     }
     
     
-- 
2.43.0


From ce9cd86e32d896b4d8f23b4baf7ac182e2a84883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:12 +0000
Subject: [PATCH 04/54] fix: Nat >> n is wrong for shifts of 32 bits and more

---
 src/bigint/nat.rs | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 65fc09c..1767fd7 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -467,36 +467,16 @@ impl Nat {
             return;
         }
 
-        let lhs = self.clone();
-        let mut pre = 0;
+        v.drain(..num);
         if nom > 0 {
-            let mask_h: u32 = ((1 << nom) - 1) << nom_c;
-            let mask_l: u32 = (1 << nom_c) - 1;
-            let mut itr = lhs.iter().skip(num);
-            match itr.next() { 
-                Some(x) => pre = *x >> nom,
-                None => {},
-            };
-            v.iter_mut().zip(itr).for_each(|(a, &b)| {
-                let r = b.rotate_right(nom);
-                *a = (r & mask_h) | pre;
-                pre = r & mask_l;
+            let mut pre = 0;
+            v.iter_mut().rev().for_each(|a| {
+                let tmp = *a;
+                *a = (tmp >> nom) | pre;
+                pre = tmp << nom_c;
             });
         }
-        v.truncate(v.len() - num);
-        if pre > 0 {
-            match v.last_mut() {
-                Some(x) => *x = pre,
-                _ => {},
-            };
-        } else {
-            if nom > 0 && num == 0 {
-                v.pop();
-                if v.len() == 0 {
-                    v.push(0);
-                }
-            }
-        }
+        self.trim_head_zero();
     }
     
     #[inline]
-- 
2.43.0


From 2d11aab639601780d0cc21c7f0e7437698b25cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:16 +0000
Subject: [PATCH 05/54] fix: 0 << n with n >= 32 is not canonical

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 1767fd7..f967645 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -449,7 +449,7 @@ impl Nat {
             if pre > 0 {v.push(pre);}
         }
         
-        if num > 0 {
+        if num > 0 && v.as_slice() != &[0] {
             v.resize(v.len() + num, 0);
             v.rotate_right(num);
         }
-- 
2.43.0


From f1acb7218aebb12064c3ee452829c762d5bfcfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:20 +0000
Subject: [PATCH 06/54] fix: a %= a.clone() panics on Nat

---
 src/bigint/nat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index f967645..c932eb2 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -537,6 +537,12 @@ impl Nat {
     pub(super) fn rem_inner(&mut self, rhs: &Self) {
         assert_ne!(rhs, &0u32, "The modulus must not be 0");
 
+        if self.nat.as_ptr() == rhs.nat.as_ptr() {
+            self.clear();
+            self.as_mut_vec().push(0);
+            return;
+        }
+
         if self.partial_cmp_inner(rhs) == Ordering::Less {
             return;
         }
-- 
2.43.0


From fc59398c6a5b57ddaa57342b660cbc4477afd25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:25 +0000
Subject: [PATCH 07/54] fix: Nat::random returns values with leading zero limbs

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index c932eb2..a9e709c 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -825,6 +825,7 @@ impl Nat {
                 Some(x) => *x &= mask,
                 None => {},
             }
+            n.trim_head_zero();
 
             if &*n< self {
                 break;
-- 
2.43.0


From 2ca938d853bd9a8794aa2819ca8a83c600e2bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:29 +0000
Subject: [PATCH 08/54] fix: Nat::and_not ignores a NaN right operand

---
 src/bigint/nat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index a9e709c..cdb2c15 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -251,6 +251,11 @@ impl Nat {
     }
     
     pub fn and_not_assign(&mut self, rhs: Nat) {
+        if self.is_nan() || rhs.is_nan() {
+            self.clear();
+            return;
+        }
+
         self.iter_mut().zip(rhs.iter()).for_each(|(x, &y) | {
             *x = (*x) & (!y);
         });
-- 
2.43.0


From ba7fd5d26bb9a71105c5009e6f02af9206e2167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 09/54] fix: decimal text with leading zeros is rejected by
 Nat::from_str

---
 src/bigint/nat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index cdb2c15..a4275da 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -278,6 +278,8 @@ impl Nat {
                                         Ok((i+2, 2))
                                     } else if x == 'x' || x == 'X' {
                                         Ok((i+2, 16))
+                                    } else if x.is_ascii_digit() {
+                                        Ok((i, 10))
                                     } else {
                                         Err(NatError::new(BeginWithIllegalChar, format!("begin with illegal char {}{}", c,x)))
                                     }
-- 
2.43.0


From 352ea5007ce64768814873846b7a490a7f2b2824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:37 +0000
Subject: [PATCH 10/54] fix: Nat::from_str turns a bare base prefix into NaN

---
 src/bigint/nat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index a4275da..bc82088 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -2096,6 +2096,9 @@ impl FromStr for Nat {
         let s = s.trim();
         let (i, base) = Self::check_base(s)?;
         let s = &s[i..];
+        if s.is_empty() {
+            return Err(NatError::new(BeginWithIllegalChar, "no digit after the base prefix"));
+        }
         
         match base {
             2 => Self::from_bin_str(s),
-- 
2.43.0


From 7496dc6931d05afd1a1e17d49a22661b28ce57a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:08 +0000
Subject: [PATCH 11/54] fix: BigInt / and % produce a negative zero

---
 src/bigint/bigint.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 2b19192..3ae1688 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -451,6 +451,9 @@ impl BigInt {
             },
         };
         self.nat /= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn mul_inner(&mut self, rhs: Self) {
@@ -465,6 +468,9 @@ impl BigInt {
     fn rem_inner(&mut self, rhs: Self) {
         assert_ne!(rhs.nat, 0u32, "the modulus can't be the 0");
         self.nat %= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn bitand_inner(&mut self, rhs: Self) {
-- 
2.43.0


From 487df85e327156bc0bf756ead5426ce91d4af9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 12/54] fix: BigInt | is wrong when exactly one operand is
 negative

---
 src/bigint/bigint.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 3ae1688..1aefb52 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -516,16 +516,17 @@ impl BigInt {
                 self.sign = Natural;
             }
         } else {
-            let rhs1 = if self.sign == Negative {
-                let rhs1 = self.nat.clone() - 1u32;
-                self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
-                rhs1
+            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(((y-1) &^ x) + 1)
+            let x = if self.sign == Negative {
+                self.nat -= 1u32;
+                rhs.nat
             } else {
-                rhs.nat - 1u32
+                let x = self.nat.deep_clone();
+                self.nat.clear();
+                self.nat.as_mut_vec().extend((rhs.nat - 1u32).iter());
+                x
             };
-            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(^((y-1) &^ x) + 1)
-            self.nat.and_not_assign(rhs1);
+            self.nat.and_not_assign(x);
             self.nat += 1u32;
             self.sign = if self.nat.is_nan() {Natural} else {Negative};
         }
-- 
2.43.0


From f1f9bfadd3082a8178034f65d395d5bec2e6ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 13/54] fix: BigInt::and_not is wrong when both operands are
 negative

---
 src/bigint/bigint.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 1aefb52..d31a414 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -544,9 +544,10 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) &^ (-y) == ^(x-1) &^ ^(y-1) == ^(x-1) & (y-1) == (y-1) &^ (x-1)
-                self.nat -= 1u32;
-                let rhs1 = rhs.nat - 1u32;
-                self.nat.and_not_assign(rhs1);
+                let (lhs1, rhs1) = (self.nat.clone() - 1u32, rhs.nat - 1u32);
+                self.nat.clear();
+                self.nat.as_mut_vec().extend(rhs1.iter());
+                self.nat.and_not_assign(lhs1);
                 self.sign = Natural;
             } else {
                 // x &^ y == x &^ y
-- 
2.43.0


From 21512c5878d47c975786c97a9e836e2d5802990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:20 +0000
Subject: [PATCH 14/54] fix: a &= a.clone(), |= and ^= are wrong for a negative
 BigInt

---
 src/bigint/bigint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index d31a414..5fa7a02 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -477,8 +477,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) & (-y) == ^(x-1) & ^(y-1) == ^((x-1) | (y-1)) == -(((x-1) | (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat |= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural } else {Negative};
@@ -505,8 +505,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) | (-y) == ^(x-1) | ^(y-1) == ^((x-1) & (y-1)) == -(((x-1) & (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat &= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
@@ -580,8 +580,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) ^ (-y) == ^(x-1) ^ ^(y-1) == (x-1) ^ (y-1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat ^= rhs1;
                 self.sign = Natural;
             } else {
-- 
2.43.0


From 5066d0e9227b2c7205184ee8e591b7c4b70dfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:23 +0000
Subject: [PATCH 15/54] fix: BigInt::exp negates twice for a negative base and
 a negative odd exponent

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 5fa7a02..f2bfd2b 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -672,7 +672,7 @@ impl BigInt {
         let ywords = b.nat.clone();
         let mwords = n.nat.clone();
         let mut e = xwords.exp(&ywords, &mwords);
-        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
+        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !b.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
             && (ywords.as_vec()[0] & 1 == 1) {
             true
         } else {
-- 
2.43.0


From 13f5fb13a437c8176aa038b33a151eae9fd9745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 16/54] fix: {:b} of a BigInt prints the 0b prefix

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index f2bfd2b..866dd42 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -1066,7 +1066,7 @@ bigint_fmt_impl!(
     (LowerHex, "{:#x}", "{:x}"),
     (UpperHex, "{:#X}", "{:X}"),
     (Debug, "{:#?}", "{:?}"),
-    (Binary, "{:#b}", "{:#b}")
+    (Binary, "{:#b}", "{:b}")
 );
 
 impl AsRef<Nat> for BigInt {
-- 
2.43.0


From c084010cd426e28c17ae40c9d439d1babfe392b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 17/54] fix: BigInt::mul_range overflows for i64::MIN

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 866dd42..fbacfe1 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -619,7 +619,7 @@ impl BigInt {
             BigInt::from(0u32)
         } else {
             let (is_neg, a, b) = if a < 0 {
-                (((b - a) & 1) == 0, (-b as u64), (-a as u64))
+                (((b - a) & 1) == 0, b.unsigned_abs(), a.unsigned_abs())
             } else {
                 (false, a as u64, b as u64)
             };
-- 
2.43.0


From 9307deea9c5d9d1604283f81fa679af261ad1863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 18/54] fix: BigInt::is_set_bit has no answer for the top bit
 of a negative power of two

---
 src/bigint/bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index fbacfe1..7a5cad3 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -698,8 +698,11 @@ impl BigInt {
     /// `None` if `bit_idx >= self.bits_len()`.
     pub fn is_set_bit(&self, i: usize) -> Option<bool> {
         if self.sign == Negative {
+            if i >= self.bits_len() {
+                return None;
+            }
             let t = self.nat.clone() - 1u32;
-            t.is_set_bit(i).map(|b| {!b})
+            Some(!t.is_set_bit(i).unwrap_or(false))
         } else {
             self.nat.is_set_bit(i)
         }
-- 
2.43.0


From fbfd1f087793a6739b1c8c6d8f38d3d8c73e72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:37 +0000
Subject: [PATCH 19/54] fix: BigInt::binomial(i64::MAX, 0) overflows

---
 src/bigint/bigint.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 7a5cad3..3223cd9 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -638,6 +638,10 @@ impl BigInt {
             k = n - k;
         }
         
+        if k == 0 {
+            return BigInt::from(1u32);
+        }
+        
         let mut a = Self::mul_range(n-k+1, n);
         let b = Self::mul_range(1, k);
         
-- 
2.43.0


From 1d47444b290e2abe8a409c05dcaf2bb9f0aa9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:57 +0000
Subject: [PATCH 20/54] fix: Nat::exp overflows when the top limb of the
 exponent is 1

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index bc82088..7151b8b 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1800,7 +1800,7 @@ impl Nat {
 
         let mut v = *b.as_vec().last().unwrap();
         let shift = v.leading_zeros() + 1;
-        v <<= shift;
+        v = v.checked_shl(shift).unwrap_or(0);
         let mask = 1u32 << (32 - 1);
         let w = 32 - shift;
         
-- 
2.43.0


From 0a8e5144b4e493fad1599a24102024dc487ed838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:01 +0000
Subject: [PATCH 21/54] fix: BigInt::binomial multiplies out k! to answer 0 for
 k > n

---
 src/bigint/bigint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 3223cd9..e9adb55 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -641,6 +641,9 @@ impl BigInt {
         if k == 0 {
             return BigInt::from(1u32);
         }
+        if n >= 0 && k > n {
+            return BigInt::from(0u32);
+        }
         
         let mut a = Self::mul_range(n-k+1, n);
         let b = Self::mul_range(1, k);
-- 
2.43.0


From 72fc3322845a243a84f6cc2fff38f6fdb222879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:02 +0000
Subject: [PATCH 22/54] fix: the Miller-Rabin test rejects a prime when the
 random base is 0

---
 src/bigint/nat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 7151b8b..abdb214 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -897,6 +897,10 @@ impl Nat {
         
         for _ in 0..s {
             self.random_inner(&mut a, rng);
+            if a == 0u32 {
+                // 0 is not a valid base (0^u mod n is never +-1), fall back to 2
+                a.as_mut_vec()[0] = 2;
+            }
             let mut tmp = a.exp(&u, self);
             if tmp.miller_rabin_witness(self, t, &n_m1, &mut buf) {
                 return false;
-- 
2.43.0


From d57fe4572e4e69203cedcd976218fd2883ecf954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 23/54] fix: Nat::generate_prime panics or shortens the number
 when the random source fails transiently

---
 src/bigint/nat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index abdb214..9dc8604 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1969,8 +1969,12 @@ impl Nat {
         let mut p = Nat::with_capacity(len);
         loop {
             p.as_mut_vec().clear();
-            for x in rng.iter_mut().take(len) {
-                p.as_mut_vec().push(x);
+            let mut itr = rng.iter_mut();
+            while p.num() < len {
+                match itr.next() {
+                    Some(x) => p.as_mut_vec().push(x),
+                    None => itr.clear_error(),
+                }
             }
             
             // 清除大于bits_len的位;
-- 
2.43.0


From 4e73791adb0293c9953b5dad43289029eb997c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:24 +0000
Subject: [PATCH 24/54] fix: a zero Rat keeps an arbitrary, possibly negative,
 denominator

---
 src/bigint/rat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4d1cd0a..2900e11 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -324,6 +324,8 @@ impl Rat {
         let mut t = true;
         if self.a.is_nan() || self.a.nat == 0u32 {
             self.a.sign = Natural;
+            // the canonical form of zero is 0/1
+            self.b = BigInt::from(1u32);
             t = false;
         }
         
-- 
2.43.0


From 9298616ff300f786e7d3fb0fa53ddef8ac7717a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:29 +0000
Subject: [PATCH 25/54] fix: Rat::from_str does not reduce the fraction

---
 src/bigint/rat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 2900e11..9683e4a 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -725,7 +725,9 @@ impl FromStr for Rat {
             } else {
                 a.sign = BISign::from(a.sign != b.sign);
                 b.sign = Natural;
-                Ok(Rat {a, b})
+                let mut z = Rat {a, b};
+                z.norm();
+                Ok(z)
             }
         }
     }
-- 
2.43.0


From 82c3e0f269211b3c558a738809af2b8c4f2e40fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:34 +0000
Subject: [PATCH 26/54] fix: Rat::from_f64 divides instead of multiplying by
 the power of two of a large float

---
 src/bigint/rat.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 9683e4a..732bdf0 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -99,8 +99,11 @@ impl Rat {
             let mut a= BigInt::from(mantissa);
             a.sign = BISign::from(f < 0f64);
             let mut b = BigInt::from(1u32);
-            let s = if shift > 0 {shift as usize} else {(-shift) as usize};
-            b.nat.shl_inner(&s);
+            if shift > 0 {
+                b.nat.shl_inner(&(shift as usize));
+            } else {
+                a.nat.shl_inner(&((-shift) as usize));
+            }
             
             let mut z = Rat {a, b};
             z.norm();
-- 
2.43.0


From 6327742215c05d546911863769dff6f33db76fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:38 +0000
Subject: [PATCH 27/54] fix: Rat::to_f32 of zero is not returned early

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 732bdf0..0bf10af 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -166,7 +166,7 @@ impl Rat {
         let (emin, _emax) = (1 - ebias, ebias);
         
         if a == 0u32 {
-            (0f32, true);
+            return (0f32, true);
         }
         
         let (alen, blen) = (a.bits_len() as isize, b.bits_len() as isize);
-- 
2.43.0


From 1d69c63949c068d1191d36204567b778dac33d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:10 +0000
Subject: [PATCH 28/54] fix: Rat::to_f32/to_f64 report an underflow to zero as
 exact

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 0bf10af..4cb32aa 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -229,7 +229,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1) as f32;
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0f32 {
             (f, false)
         } else {
             (f, exact)
@@ -316,7 +316,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1);
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0f64 {
             (f, false)
         } else {
             (f, exact)
-- 
2.43.0


From 81d4c5207c4d95a94df2876a3eff444305939eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:14 +0000
Subject: [PATCH 29/54] fix: Rat::from_frac overflows for isize::MIN

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4cb32aa..60a4f9a 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -47,8 +47,8 @@ impl Rat {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
         } else {
             let mut z = Rat {
-                a: if denominator < 0 {BigInt::from(-numerator)} else {BigInt::from(numerator)},
-                b: BigInt::from(denominator.abs()),
+                a: if denominator < 0 {-BigInt::from(numerator)} else {BigInt::from(numerator)},
+                b: BigInt::from(denominator).abs(),
             };
             z.norm();
             Ok(z)
-- 
2.43.0


From d816591c42ae04bcbf95930c874823c7dd1483b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 30/54] fix: Rat::from_str returns NaN for decimal text beyond
 the f64 range

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 60a4f9a..bb86571 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -691,7 +691,7 @@ impl FromStr for Rat {
         } else if s.find('.').is_some() {
             match f64::from_str(s) {
                 Ok(f) => {
-                    if f.is_nan() {
+                    if !f.is_finite() {
                         Err(RatError::new(RatErrKind::ParseStringWrong, format!("{} is not a number", s)))
                     } else {
                         Ok(Rat::from(f))
-- 
2.43.0


From 0b16a5bf98541011558d5b82d279b3979ab7d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:45 +0000
Subject: [PATCH 31/54] fix: Float division pads the dividend at the wrong end

---
 src/bigint/float.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index aedb4be..fa6d127 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -549,9 +549,10 @@ impl Float {
         // compute adjusted x.mant such that we get enough result precision
         let d = n - (self.mant.as_vec().len() as isize) + (y.mant.as_vec().len() as isize);
         let xadj = if d > 0 {
-            let tmp = self.mant.deep_clone();
-            tmp.as_mut_vec().resize(((self.mant.as_vec().len() as isize) + d) as usize, 0);
-            tmp
+            // the padding words are the least significant ones
+            let mut tmp = vec![0u32; d as usize];
+            tmp.extend(self.mant.iter());
+            Nat::from(tmp)
         } else {
             self.mant.clone()
         };
-- 
2.43.0


From 1828574ff5d7ed9f19043e063207a1cc1ab94221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:49 +0000
Subject: [PATCH 32/54] fix: Float Inf / finite is NaN

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index fa6d127..72ad4be 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -592,7 +592,7 @@ impl Float {
             self.uquo(y)
         } else {
             self.acc = Accuracy::Exact;
-            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && self.form.is_infinite()) {
+            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && y.form.is_infinite()) {
                 self.form = Form::Nan;
                 self.neg = Natural;
                 // panic!("division of zero by zero or infinity by infinity");
-- 
2.43.0


From 9fc3dab58f02db1105bfe1818d22db623edc990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 33/54] fix: Float + and - take precision and mode of the right
 operand when it is the larger one

---
 src/bigint/float.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 72ad4be..3b88980 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -998,6 +998,8 @@ impl Float {
                     self.usub(y);
                 } else {
                     let mut tmp = y.deep_clone();
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.neg = !self.neg;
                     tmp.usub(&*self);
                     *self = tmp;
@@ -1080,6 +1082,8 @@ impl Float {
                     self.usub(y);
                 } else {
                     let mut tmp = y.deep_clone();
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.neg = !self.neg;
                     tmp.usub(&*self);
                     *self = tmp;
-- 
2.43.0


From 241f7f67910b742bdced46bf9122b3c854c0dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:57 +0000
Subject: [PATCH 34/54] fix: Float 0 - y and x - Inf do not negate the right
 operand

---
 src/bigint/float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 3b88980..10b8edb 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1112,7 +1112,9 @@ impl Float {
         } else {
             // ±0 - y
             // x - ±Inf
-            self.set_float(y);
+            let mut t = y.deep_clone();
+            t.neg = !t.neg;
+            self.set_float(&t);
         }
     }
     
-- 
2.43.0


From 2c4ab8e0b531177aeaebff9021219d64bb6534d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:01 +0000
Subject: [PATCH 35/54] fix: Float -0 + +0 is -0

---
 src/bigint/float.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 10b8edb..8a52813 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1017,6 +1017,11 @@ impl Float {
             self.form = Form::Nan;
             self.neg = BISign::from(false);
             // panic!("addition of infinities with opposite signs");
+        } else if self.form.is_zero() && y.form.is_zero() {
+            // ±0 + ±0
+            self.acc = Accuracy::Exact;
+            // -0 + -0 == -0
+            self.neg = BISign::from(self.neg == Negative && y.neg == Negative);
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf + y
             // x + ±0
-- 
2.43.0


From 98268c32d906c596e1152d5e28c02d70f752c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:06 +0000
Subject: [PATCH 36/54] fix: Float x + 0, x - 0 and Inf + x keep the accuracy
 of an earlier operation

---
 src/bigint/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 8a52813..f92be66 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1025,6 +1025,7 @@ impl Float {
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf + y
             // x + ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 + y
             // x + ±Inf
@@ -1114,6 +1115,7 @@ impl Float {
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf - y
             // x - ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 - y
             // x - ±Inf
-- 
2.43.0


From df90e98a8eb494c3031f5b349efb6c9dcd34794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:11 +0000
Subject: [PATCH 37/54] fix: Float::from(i64::MIN) overflows

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index f92be66..ca3d66d 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -317,7 +317,7 @@ impl Float {
     }
     
     fn set_i64(&mut self, x: i64) {
-        self.set_bits(x < 0, x.abs() as u64)
+        self.set_bits(x < 0, x.unsigned_abs())
     }
     
     fn set_f64(&mut self, x: f64) {
-- 
2.43.0


From 04e8728f8cfb5c094586e3577c5cb523c9c3bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:16 +0000
Subject: [PATCH 38/54] fix: Float::from(Rat) ignores the precision of the
 denominator

---
 src/bigint/float.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index ca3d66d..d4626a3 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -529,6 +529,7 @@ impl Float {
                 if self.prec == 0 {
                     self.prec = std::cmp::max(a.prec, b.prec);
                 }
+                a.prec = self.prec;
                 a /= b;
                 *self = a;
             },
-- 
2.43.0


From c64455638ae914a30414b13bfbdc36e736794352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:19 +0000
Subject: [PATCH 39/54] fix: Float::to_f32/to_f64 round to the smallest normal
 instead of the smallest denormal number, and lose the sign

---
 src/bigint/float.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index d4626a3..812f9d3 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -741,9 +741,9 @@ impl Float {
                 // We handle p == 0 explicitly because it's easy and because
                 // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (-f32::MIN_POSITIVE, Accuracy::Below);
+                        return (-f32::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f32::MIN_POSITIVE, Accuracy::Above);
+                        return (f32::from_bits(1), Accuracy::Above);
                     }
                 }
             }
@@ -852,9 +852,9 @@ impl Float {
                     // We handle p == 0 explicitly because it's easy and because
                     // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (f64::MIN_POSITIVE, Accuracy::Below);
+                        return (-f64::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f64::MIN_POSITIVE, Accuracy::Above);
+                        return (f64::from_bits(1), Accuracy::Above);
                     }
                 }
             }
-- 
2.43.0


From c84484e42ea59b2067813a32074db957965e53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:24 +0000
Subject: [PATCH 40/54] fix: Float::set_mant_exp loses the mantissa when self
 and mant are the same

---
 src/bigint/float.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 812f9d3..0b96d40 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -245,8 +245,7 @@ impl Float {
         self.neg = mant.neg;
         self.prec = mant.prec;
         self.exp = mant.exp;
-        self.mant.clear();
-        self.mant.as_mut_vec().extend(mant.mant.iter());
+        self.mant = mant.mant.deep_clone();
         
         if self.form.is_finite() {
             self.set_exp_and_round(self.exp.saturating_add(exp), 0);
-- 
2.43.0


From 134127f1ab89a302738ac555f7cc7ac2018454f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:16 +0000
Subject: [PATCH 41/54] fix: the decimal conversion of a Float drops digits
 when an inner digit is 0

---
 src/bigint/decimal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/decimal.rs b/src/bigint/decimal.rs
index df6cd12..982ce6b 100644
--- a/src/bigint/decimal.rs
+++ b/src/bigint/decimal.rs
@@ -53,6 +53,8 @@ impl Decimal {
             for c in s.chars().rev() {
                 if c == '0' {
                     n -= 1;
+                } else {
+                    break;
                 }
             }
             s.chars().take(n).for_each(|c| {z.mant.push(c);});
-- 
2.43.0


From e0d92fa0efff464e44ba0d39f32316cd4cabb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:19 +0000
Subject: [PATCH 42/54] fix: Display of a Float rounds the significant digits
 before the fraction

---
 src/bigint/float_fmt.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 8909785..49efd32 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -40,7 +40,6 @@ impl Float {
         }
         
         let mut decimal = Decimal::new(&self.mant, self.exp - (self.mant.bits_len() as isize));
-        decimal.round(1 + prec);
         match fmt_char {
             'e' | 'E' => {
                 decimal.round( 1 + prec);
-- 
2.43.0


From 9c44a4dcb8909f02087b70cf39bfcecd016c6fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 43/54] fix: Display of a Float below 0.1 panics

---
 src/bigint/float_fmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 49efd32..7b21d81 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -101,7 +101,10 @@ impl Float {
         
         if prec > 0 {
             buf.push('.');
-            (0..prec).for_each(|i| {buf.push(d[(d.exp as usize) + i]);});
+            (0..(prec as isize)).for_each(|i| {
+                let i = d.exp + i;
+                buf.push(if i < 0 {d.zero} else {d[i as usize]});
+            });
         }
     }
 }
-- 
2.43.0


From 7a7d105ad3bc47612486b12e14f74c77f441df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:27 +0000
Subject: [PATCH 44/54] fix: Float::from_str rejects decimal text whose digits
 are all before the point

---
 src/bigint/float_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 7b21d81..67f0b04 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -227,8 +227,8 @@ impl FromStr for Float {
             }
         };
         
+        buf_de.push('1');
         if exp < 0 {
-            buf_de.push('1');
             buf_de.push_str("0".repeat((-exp) as usize).as_str());
         } else {
             buf_nu.push_str("0".repeat(exp as usize).as_str());
-- 
2.43.0


From c14ff02e52c79502716376129f7abce34d5586c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 45/54] fix: Float::from_str takes the hex digit e for an
 exponent

---
 src/bigint/float_fmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 67f0b04..f45969a 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -161,7 +161,9 @@ impl FromStr for Float {
             return Err(FloatError::new(FloatErrKind::ParseStringWrong, "empty string"));
         }
         
-        let (dot_idx, se_idx, ue_idx) = (s.find('.'), s.find('e'), s.find('E'));
+        let digits = s.trim_start_matches(|c| c == '+' || c == '-');
+        let is_hex = digits.starts_with("0x") || digits.starts_with("0X");
+        let (dot_idx, se_idx, ue_idx) = if is_hex {(None, None, None)} else {(s.find('.'), s.find('e'), s.find('E'))};
         
         let e_idx = if se_idx.is_some() && ue_idx.is_some() {
             return Err(FloatError::new(FloatErrKind::ParseStringWrong, "invalid string"));
-- 
2.43.0


From c1528ab2792194e6384567f1a40cb8ae20ab4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 46/54] fix: Float::from_str accepts malformed text such as
 .e5, 0.x5 or 0x1.8

---
 src/bigint/float_fmt.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index f45969a..7249a64 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -90,6 +90,10 @@ impl Float {
         buf.push_str(s.as_str());
     }
     
+    fn is_digits(s: &str) -> bool {
+        !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit())
+    }
+    
     fn fmt_for_display(buf: &mut String, d: &Decimal, prec: usize) {
         if d.exp > 0 {
             let m = std::cmp::min(d.mant.len(), d.exp as usize);
@@ -186,8 +190,8 @@ impl FromStr for Float {
         let (s, exp) = match e_idx {
             Some(idx) => {
                 let es = &s[(idx+1)..];
-                if es.is_empty() {
-                    (s, 0)
+                if !Self::is_digits(es.strip_prefix(|c| c == '+' || c == '-').unwrap_or(es)) {
+                    return Err(FloatError::new(FloatErrKind::ParseStringWrong, "illegal exponent"));
                 } else {
                     let e = match BigInt::from_str(es) {
                         Ok(x) => x,
@@ -216,6 +220,11 @@ impl FromStr for Float {
             None => (s, 0),
         };
         
+        let mant = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s);
+        if !Self::is_digits(mant.replacen('.', "", 1).as_str()) {
+            return Err(FloatError::new(FloatErrKind::ParseStringWrong, "illegal mantissa"));
+        }
+        
         let (mut buf_nu, mut buf_de) = (String::with_capacity(s.len()), String::with_capacity(s.len()));
         let exp = match dot_idx {
             Some(idx) => {
-- 
2.43.0


From 905c56c8af0fb8e6fc9bcf7a447a702dead04276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:27 +0000
Subject: [PATCH 47/54] fix: Rat::from_frac_bigint takes a NaN denominator for
 1

---
 src/bigint/rat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index bb86571..2d8a53b 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -58,6 +58,8 @@ impl Rat {
     pub fn from_frac_bigint(numerator: &BigInt, denominator: &BigInt) -> Result<Rat, RatError> {
         if denominator.nat == 0u32 {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
+        } else if numerator.is_nan() || denominator.is_nan() {
+            Ok(Rat::nan())
         } else {
             let mut z = Rat {
                 a: if denominator.sign == Negative {BigInt::from(-numerator.clone())} else {BigInt::from(numerator.deep_clone())},
-- 
2.43.0


From 3a939952703123366e81ff20a03398356c481299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:27 +0000
Subject: [PATCH 48/54] fix: LinearCongruentialRand wraps a*x+c around before
 reducing it mod m

---
 src/rand/linear_congruential_rand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rand/linear_congruential_rand.rs b/src/rand/linear_congruential_rand.rs
index b4c67e0..929417b 100644
--- a/src/rand/linear_congruential_rand.rs
+++ b/src/rand/linear_congruential_rand.rs
@@ -34,7 +34,8 @@ macro_rules! lcr_calc {
     ($Type0: ty) => {
         impl Source<$Type0> for LinearCongruentialRand<$Type0> {
             fn gen(&mut self) -> Result<$Type0> {
-                let tmp = (((self.a).overflowing_mul(self.x).0).overflowing_add(self.c)).0 % self.m;
+                // a*x+c can exceed the word, and wrapping it around before `mod m` would change the sequence
+                let tmp = (((self.a as u128) * (self.x as u128) + (self.c as u128)) % (self.m as u128)) as $Type0;
                 self.x = tmp;
                 Ok(tmp)
             }
-- 
2.43.0


From c480fd67f0f5a664526199af9903822a3e38beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:32 +0000
Subject: [PATCH 49/54] fix: MersenneTwisterRand shifts right instead of left
 in the TGFSR tempering

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 1ffc1b4..3126059 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -156,8 +156,8 @@ macro_rules! mtr_impl {
                 }
                 let mut z = self.state[self.idx as usize];
                 z ^= (z >> self.tempering_u) & self.tempering_d;
-                z ^= (z >> self.tempering_s) & self.tempering_b;
-                z ^= (z >> self.tempering_t) & self.tempering_c;
+                z ^= (z << self.tempering_s) & self.tempering_b;
+                z ^= (z << self.tempering_t) & self.tempering_c;
                 z ^= z >> self.shift_l;
                 
                 self.idx += 1;
-- 
2.43.0


From acd1826360ff238958027f71aed0354b0a4766d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:36 +0000
Subject: [PATCH 50/54] fix: LaggedFibonacciRand overflows at the full word
 size

---
 src/rand/lagged_fibonacci_rand.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rand/lagged_fibonacci_rand.rs b/src/rand/lagged_fibonacci_rand.rs
index 02e9a21..df38fdb 100644
--- a/src/rand/lagged_fibonacci_rand.rs
+++ b/src/rand/lagged_fibonacci_rand.rs
@@ -99,7 +99,11 @@ macro_rules! lfr_impl {
                 let ps = if self.idx < self.short_lag {(self.long_lag + self.idx) - self.short_lag} else {self.idx - self.short_lag} as usize;
                 let idx = self.idx as usize;
                 let carry = self.carry;
-                let xi = if self.state[ps] >= (self.state[idx] + self.carry) {
+                let is_no_borrow = match self.state[idx].checked_add(carry) {
+                    Some(x) => self.state[ps] >= x,
+                    None => false,
+                };
+                let xi = if is_no_borrow {
                     self.carry = 0;
                     (self.state[ps].overflowing_sub(self.state[idx]).0).overflowing_sub(carry).0
                 } else {
-- 
2.43.0


From f6172053380d034b56a61a2263a31ffd3423a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:40 +0000
Subject: [PATCH 51/54] fix: MersenneTwisterRand accepts a zero tempering shift
 or mask

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 3126059..363f653 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -45,8 +45,8 @@ impl<T> MersenneTwisterRand<T>
     pub fn new<Sd: Seed<T>>(sd: &Sd, w: T, n: T, m: T, r: T, a: T,
                             u_d: (T, T), s_b: (T, T), t_c: (T, T), l: T, f: T) -> Result<Self> {
         if w == T::default() || m == T::default() || r == T::default() || a == T::default() || 
-            u_d == (T::default(), T::default()) || s_b == (T::default(), T::default()) ||
-            t_c == (T::default(), T::default()) || l == T::default() || f == T::default() {
+            u_d.0 == T::default() || u_d.1 == T::default() || s_b.0 == T::default() || s_b.1 == T::default() ||
+            t_c.0 == T::default() || t_c.1 == T::default() || l == T::default() || f == T::default() {
             Err(RandError::new(RandErrKind::InvalidRngPara, format!("all parameters cannot be the {:?}", T::default())))
         } else if  m > n {
             Err(RandError::new(RandErrKind::InvalidRngPara, "m must be satisfy the relation: m <= n"))
-- 
2.43.0


From 849c755b6c95cb419c70c8ae0b928b3e2752eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:48 +0000
Subject: [PATCH 52/54] fix: compute gcd iteratively, deep recursion overflowed
 the stack for large operands

---
 src/bigint/bigint.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index e9adb55..5104d2f 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -279,17 +279,24 @@ impl BigInt {
         }
     }
     
+    /// `lhs` and `rhs` must be positive
     fn gcd_extend(lhs: BigInt, rhs: BigInt) -> (BigInt, BigInt, BigInt) {
-        if rhs == 0u32 {
-            (lhs, BigInt::from(1), BigInt::from(0))
-        } else {
-            let rem = lhs.clone() % rhs.clone();
-            let mut div = lhs / rhs.clone();
-            let (d_p, mut x_p, y_p) = BigInt::gcd_extend(rhs, rem);
-            div.mul_inner(y_p.clone());
-            x_p.sub_inner(div);
-            (d_p, y_p, x_p)
+        // iterative, because the number of division steps is proportional to the size of the operands
+        let (mut r0, mut r1) = (lhs.clone(), rhs.clone());
+        let (mut x0, mut x1) = (BigInt::from(1), BigInt::from(0));
+        while r1 != 0u32 {
+            let rem = r0.clone() % r1.clone();
+            let mut div = r0 / r1.clone();
+            div.mul_inner(x1.clone());
+            x0.sub_inner(div);
+            std::mem::swap(&mut x0, &mut x1);
+            r0 = r1;
+            r1 = rem;
         }
+        
+        // r0 == lhs * x0 + rhs * y
+        let y = (r0.clone() - lhs * x0.clone()) / rhs;
+        (r0, x0, y)
     }
 
     /// <<算法导论>>  
-- 
2.43.0


From d5451aec762a329a989ca109197c216047103a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:12 +0000
Subject: [PATCH 53/54] hook: let a monitor script and observe rdrand/rdseed
 under cfg(rmath_verif)

---
 src/rand/default_rand_amd64.rs |  7 ++--
 src/rand/default_seed_amd64.rs |  7 ++--
 src/rand/mod.rs                |  3 ++
 src/rand/verif_hw.rs           | 58 ++++++++++++++++++++++++++++++++++
 4 files changed, 71 insertions(+), 4 deletions(-)
 create mode 100644 src/rand/verif_hw.rs

diff --git a/src/rand/default_rand_amd64.rs b/src/rand/default_rand_amd64.rs
index 370c5c7..f60e1a8 100644
--- a/src/rand/default_rand_amd64.rs
+++ b/src/rand/default_rand_amd64.rs
@@ -1,10 +1,13 @@
 use crate::rand::{Source, Seed, RandError, RandErrKind, Result, PrimitiveType};
 
-#[cfg(target_arch = "x86_64")]
+#[cfg(all(target_arch = "x86_64", not(rmath_verif)))]
 use std::arch::x86_64 as march;
 
-#[cfg(target_arch = "x86")]
+#[cfg(all(target_arch = "x86", not(rmath_verif)))]
 use std::arch::x86 as march;
+
+#[cfg(rmath_verif)]
+use crate::rand::verif_hw as march;
 use std::marker::PhantomData;
 
 #[derive(Clone)]
diff --git a/src/rand/default_seed_amd64.rs b/src/rand/default_seed_amd64.rs
index 45cecb4..0314713 100644
--- a/src/rand/default_seed_amd64.rs
+++ b/src/rand/default_seed_amd64.rs
@@ -2,11 +2,14 @@
 
 use crate::rand::{Seed, RandError, RandErrKind, Result, PrimitiveType};
 
-#[cfg(target_arch = "x86_64")]
+#[cfg(all(target_arch = "x86_64", not(rmath_verif)))]
 use std::arch::x86_64 as march;
 
-#[cfg(target_arch = "x86")]
+#[cfg(all(target_arch = "x86", not(rmath_verif)))]
 use std::arch::x86 as march;
+
+#[cfg(rmath_verif)]
+use crate::rand::verif_hw as march;
 use std::marker::PhantomData;
 
 #[derive(Clone)]
diff --git a/src/rand/mod.rs b/src/rand/mod.rs
index 5b838c5..c994f7e 100644
--- a/src/rand/mod.rs
+++ b/src/rand/mod.rs
@@ -142,6 +142,9 @@ mod lagged_fibonacci_rand;
 pub use lagged_fibonacci_rand::LaggedFibonacciRand;
 iter_impl!(LaggedFibonacciRand, u32, usize, u64);
 
+#[cfg(all(rmath_verif, any(target_arch = "x86", target_arch = "x86_64")))]
+pub mod verif_hw;
+
 #[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
 mod default_seed;
 #[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
diff --git a/src/rand/verif_hw.rs b/src/rand/verif_hw.rs
new file mode 100644
index 0000000..c21e808
--- /dev/null
+++ b/src/rand/verif_hw.rs
@@ -0,0 +1,58 @@
+//! Only compiled with `cfg(rmath_verif)`: stands between the crate and the rdrand/rdseed instructions,
+//! so that a monitor can make them fail on demand and can see which words they delivered.
+#![allow(missing_docs)]
+
+#[cfg(target_arch = "x86_64")]
+pub use std::arch::x86_64::*;
+#[cfg(target_arch = "x86")]
+pub use std::arch::x86::*;
+
+#[cfg(target_arch = "x86_64")]
+use std::arch::x86_64 as real;
+#[cfg(target_arch = "x86")]
+use std::arch::x86 as real;
+
+use std::cell::RefCell;
+use std::collections::VecDeque;
+
+thread_local! {
+    static SCRIPT: RefCell<VecDeque<Option<u64>>> = RefCell::new(VecDeque::new());
+    static LOG: RefCell<Vec<(bool, u64)>> = RefCell::new(Vec::new());
+}
+
+/// the next steps: `Some(word)` succeeds with that word, `None` fails
+pub fn script(steps: Vec<Option<u64>>) {
+    SCRIPT.with(|s| *s.borrow_mut() = steps.into());
+    LOG.with(|l| l.borrow_mut().clear());
+}
+
+/// the steps executed since the last call: (succeeded, word)
+pub fn take_log() -> Vec<(bool, u64)> {
+    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
+}
+
+macro_rules! step {
+    ($name: ident, $ty: ty, $feature: literal) => {
+        #[target_feature(enable = $feature)]
+        pub unsafe fn $name(out: &mut $ty) -> i32 {
+            let next = SCRIPT.with(|s| s.borrow_mut().pop_front());
+            match next {
+                None => real::$name(out),
+                Some(step) => {
+                    *out = step.unwrap_or(0) as $ty;
+                    LOG.with(|l| l.borrow_mut().push((step.is_some(), *out as u64)));
+                    step.is_some() as i32
+                }
+            }
+        }
+    };
+}
+
+step!(_rdrand16_step, u16, "rdrand");
+step!(_rdrand32_step, u32, "rdrand");
+step!(_rdseed16_step, u16, "rdseed");
+step!(_rdseed32_step, u32, "rdseed");
+#[cfg(target_arch = "x86_64")]
+step!(_rdrand64_step, u64, "rdrand");
+#[cfg(target_arch = "x86_64")]
+step!(_rdseed64_step, u64, "rdseed");
-- 
2.43.0


From 7fc20a9a10cbf69af080293eb97890d91b08d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:14 +0000
Subject: [PATCH 54/54] hook: cfg(rmath_portable) builds the portable back ends
 on x86

---
 src/bigint/mod.rs |  6 +++---
 src/rand/mod.rs   | 26 +++++++++++++-------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/bigint/mod.rs b/src/bigint/mod.rs
index d0c0896..ed60be1 100644
--- a/src/bigint/mod.rs
+++ b/src/bigint/mod.rs
@@ -16,13 +16,13 @@ mod nat_macro;
 mod nat;
 mod nat_err;
 
-#[cfg(rmath_avx2 = "support")]
+#[cfg(all(rmath_avx2 = "support", not(rmath_portable)))]
 mod nat_avx2;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), not(rmath_portable)))]
 mod nat_amd64;
 
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64", rmath_avx2 = "support")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64", rmath_avx2 = "support"))))]
 mod nat_generic;
 
 pub use nat::Nat;
diff --git a/src/rand/mod.rs b/src/rand/mod.rs
index c994f7e..391ec20 100644
--- a/src/rand/mod.rs
+++ b/src/rand/mod.rs
@@ -142,37 +142,37 @@ mod lagged_fibonacci_rand;
 pub use lagged_fibonacci_rand::LaggedFibonacciRand;
 iter_impl!(LaggedFibonacciRand, u32, usize, u64);
 
-#[cfg(all(rmath_verif, any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(all(rmath_verif, any(target_arch = "x86", target_arch = "x86_64"), not(rmath_portable)))]
 pub mod verif_hw;
 
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 mod default_seed;
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 pub use default_seed::DefaultSeed;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), not(rmath_portable)))]
 mod default_seed_amd64;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), not(rmath_portable)))]
 pub use default_seed_amd64::DefaultSeed;
 
 
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 mod default_rand;
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 pub use default_rand::DefaultRand;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), not(rmath_portable)))]
 mod default_rand_amd64;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), not(rmath_portable)))]
 pub use default_rand_amd64::DefaultRand;
 iter_impl!(DefaultRand, u32, usize, u64);
 
 
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 mod crypto_rand;
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 pub use crypto_rand::CryptoRand;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), not(rmath_portable)))]
 mod crypto_rand_amd64;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), not(rmath_portable)))]
 pub use crypto_rand_amd64::CryptoRand;
 iter_impl!(CryptoRand, u32, usize, u64);
-- 
2.43.0

