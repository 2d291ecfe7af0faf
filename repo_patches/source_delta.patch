From cc7e3bbbfecd14146cc86a1f3361ebcf6db99f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 1/6] verif: cfg(mockall_verif) hook to preset an expectation's
 call count

---
 mockall/src/lib.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 88b33dc..abd9798 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1661,8 +1661,30 @@ impl Times {
         self.range.0 = range;
     }
 
+    #[allow(unexpected_cfgs)]
     pub fn times<T: Into<TimesRange>>(&mut self, t: T) {
         self.range = t.into();
+        #[cfg(mockall_verif)]
+        self.count.store(verif::call_count(), Ordering::Relaxed);
+    }
+}
+
+// Only for formal verification: lets a proof start from an expectation that has
+// already been called an arbitrary number of times.
+#[allow(unexpected_cfgs)]
+#[doc(hidden)]
+pub mod verif {
+    #[cfg(mockall_verif)]
+    static CALL_COUNT: super::AtomicUsize = super::AtomicUsize::new(0);
+
+    #[cfg(mockall_verif)]
+    pub fn set_call_count(n: usize) {
+        CALL_COUNT.store(n, super::Ordering::Relaxed);
+    }
+
+    #[cfg(mockall_verif)]
+    pub(crate) fn call_count() -> usize {
+        CALL_COUNT.load(super::Ordering::Relaxed)
     }
 }
 
-- 
2.43.0


From 26df6a1a55ce0cedca5a4af1087e4d461c82defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 2/6] fix: reject times(..0), an empty range, like times(0..0)

---
 mockall/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index abd9798..7d012e8 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1556,6 +1556,7 @@ impl From<RangeInclusive<usize>> for TimesRange {
 
 impl From<RangeTo<usize>> for TimesRange {
     fn from(r: RangeTo<usize>) -> TimesRange {
+        assert!(r.end > 0, "Backwards range");
         TimesRange(0..r.end)
     }
 }
-- 
2.43.0


From ad40c5c8002dd344bbb87a8d5a0626d8c9d7cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 3/6] verif: cfg(mockall_verif) hook to start from a sequence
 in an arbitrary state

---
 mockall/src/lib.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 7d012e8..94d59c1 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1687,6 +1687,29 @@ pub mod verif {
     pub(crate) fn call_count() -> usize {
         CALL_COUNT.load(super::Ordering::Relaxed)
     }
+
+    // Likewise a sequence that earlier expectations have already joined, and that
+    // some of them have already satisfied.
+    #[cfg(mockall_verif)]
+    static SEQ_NEXT: super::AtomicUsize = super::AtomicUsize::new(0);
+    #[cfg(mockall_verif)]
+    static SEQ_LEVEL: super::AtomicUsize = super::AtomicUsize::new(0);
+
+    #[cfg(mockall_verif)]
+    pub fn set_sequence(joined: usize, satisfied: usize) {
+        SEQ_NEXT.store(joined, super::Ordering::Relaxed);
+        SEQ_LEVEL.store(satisfied, super::Ordering::Relaxed);
+    }
+
+    #[cfg(mockall_verif)]
+    pub(crate) fn sequence() -> super::Sequence {
+        super::Sequence {
+            inner: super::Arc::new(super::SeqInner {
+                satisfaction_level: super::AtomicUsize::new(SEQ_LEVEL.load(super::Ordering::Relaxed)),
+            }),
+            next_seq: SEQ_NEXT.load(super::Ordering::Relaxed),
+        }
+    }
 }
 
 /// Non-generic keys to `GenericExpectation` internal storage
@@ -1793,7 +1816,11 @@ pub struct Sequence {
 
 impl Sequence {
     /// Create a new empty [`Sequence`]
+    #[allow(unexpected_cfgs)]
     pub fn new() -> Self {
+        #[cfg(mockall_verif)]
+        return verif::sequence();
+        #[cfg(not(mockall_verif))]
         Self::default()
     }
 
-- 
2.43.0


From a86eba51d94d4e49891a9c289d8279c677357ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 4/6] fix: a never-called expectation must not block the rest
 of its sequence

---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3a7a484..e6337b1 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -972,7 +972,11 @@ impl ToTokens for Common<'_> {
                 {
                     assert!(self.times.is_exact(),
                         "Only Expectations with an exact call count have sequences");
-                    self.seq_handle = Some(__mockall_seq.next_handle());
+                    // An expectation that requires no calls is already
+                    // satisfied, so later ones need not wait for it.
+                    if self.times.maximum() > 0 {
+                        self.seq_handle = Some(__mockall_seq.next_handle());
+                    }
                     self
                 }
 
-- 
2.43.0


From 00d4fe6eff6e451d721ae2c141c12a8312405186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:32 +0000
Subject: [PATCH 5/6] verification hook: statics of the hook carry a tag (hook
 mockall_verif only)

---
 mockall/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 94d59c1..f07e07e 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1675,39 +1675,42 @@ impl Times {
 #[allow(unexpected_cfgs)]
 #[doc(hidden)]
 pub mod verif {
+    // The tag keeps the initial bytes of these statics different from those of any
+    // constant in the program, because the verifier merges equal allocations.
     #[cfg(mockall_verif)]
-    static CALL_COUNT: super::AtomicUsize = super::AtomicUsize::new(0);
+    struct Tagged(#[allow(dead_code)] u64, super::AtomicUsize);
+    #[cfg(mockall_verif)]
+    static CALL_COUNT: Tagged = Tagged(0x9e37_79b9_7f4a_7c15, super::AtomicUsize::new(0));
+    #[cfg(mockall_verif)]
+    static SEQ_NEXT: Tagged = Tagged(0xbf58_476d_1ce4_e5b9, super::AtomicUsize::new(0));
+    #[cfg(mockall_verif)]
+    static SEQ_LEVEL: Tagged = Tagged(0x94d0_49bb_1331_11eb, super::AtomicUsize::new(0));
 
     #[cfg(mockall_verif)]
     pub fn set_call_count(n: usize) {
-        CALL_COUNT.store(n, super::Ordering::Relaxed);
+        CALL_COUNT.1.store(n, super::Ordering::Relaxed);
     }
 
     #[cfg(mockall_verif)]
     pub(crate) fn call_count() -> usize {
-        CALL_COUNT.load(super::Ordering::Relaxed)
+        CALL_COUNT.1.load(super::Ordering::Relaxed)
     }
 
     // Likewise a sequence that earlier expectations have already joined, and that
     // some of them have already satisfied.
-    #[cfg(mockall_verif)]
-    static SEQ_NEXT: super::AtomicUsize = super::AtomicUsize::new(0);
-    #[cfg(mockall_verif)]
-    static SEQ_LEVEL: super::AtomicUsize = super::AtomicUsize::new(0);
-
     #[cfg(mockall_verif)]
     pub fn set_sequence(joined: usize, satisfied: usize) {
-        SEQ_NEXT.store(joined, super::Ordering::Relaxed);
-        SEQ_LEVEL.store(satisfied, super::Ordering::Relaxed);
+        SEQ_NEXT.1.store(joined, super::Ordering::Relaxed);
+        SEQ_LEVEL.1.store(satisfied, super::Ordering::Relaxed);
     }
 
     #[cfg(mockall_verif)]
     pub(crate) fn sequence() -> super::Sequence {
         super::Sequence {
             inner: super::Arc::new(super::SeqInner {
-                satisfaction_level: super::AtomicUsize::new(SEQ_LEVEL.load(super::Ordering::Relaxed)),
+                satisfaction_level: super::AtomicUsize::new(SEQ_LEVEL.1.load(super::Ordering::Relaxed)),
             }),
-            next_seq: SEQ_NEXT.load(super::Ordering::Relaxed),
+            next_seq: SEQ_NEXT.1.load(super::Ordering::Relaxed),
         }
     }
 }
-- 
2.43.0


From d75d13a126428d3ae2c49039580eaec13edf2794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:59 +0000
Subject: [PATCH 6/6] fix: a return_once_st expectation called on another
 thread panics, it does not abort

Fragile::into_inner panics on the wrong thread and drops the Fragile, whose
destructor panics again.  Check the thread while the Fragile is in place.
---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index e6337b1..122d09f 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1974,7 +1974,11 @@ impl ToTokens for StaticRfunc<'_> {
                                 unreachable!()
                             }
                         },
-                        Rfunc::OnceSt(_) => {
+                        Rfunc::OnceSt(__mockall_f) => {
+                            // On the wrong thread, panic while the Fragile is
+                            // still in place.  into_inner would also drop it,
+                            // which panics again and aborts the process.
+                            let _ = __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
                                 mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
-- 
2.43.0

