From 3ea983c3d28b84a228141fb60c67ed9cfc6db89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 1/8] fix: plugging an empty workload excludes the name itself,
 not a pattern

The name was parsed as a filter pattern, so plugging the empty workload
for a name like * or ?x removed every term.
---
 src/enumo/workload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/workload.rs b/src/enumo/workload.rs
index 913d333..7289943 100644
--- a/src/enumo/workload.rs
+++ b/src/enumo/workload.rs
@@ -127,7 +127,7 @@ impl Workload {
         match workload {
             // Empty plug is the same as filter excludes
             Workload::Set(xs) if xs.is_empty() => {
-                self.filter(Filter::Excludes(name.into().parse().unwrap()))
+                self.filter(Filter::Excludes(Pattern::Lit(name.into())))
             }
             _ => Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone())),
         }
-- 
2.43.0


From d38904e5da9eeaaed103b58a60a30948f57e77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 2/8] fix: handle the empty list () in plugs and in the depth
 metric

Plugging dropped terms that contain an empty list even when the name does
not occur in them, and measuring the depth of an empty list panicked.
---
 src/enumo/sexp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index 597e618..c67f0d5 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -91,6 +91,8 @@ impl Sexp {
         match self {
             Sexp::Atom(s) if s == name => pegs.to_vec(),
             Sexp::Atom(_) => vec![self.clone()],
+            // The cartesian product of no factors below would be empty
+            Sexp::List(sexps) if sexps.is_empty() => vec![self.clone()],
             Sexp::List(sexps) => sexps
                 .iter()
                 .map(|x| x.plug(name, pegs))
@@ -109,7 +111,7 @@ impl Sexp {
             Sexp::List(s) => match metric {
                 Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),
                 Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,
-                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap() + 1,
+                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,
             },
         }
     }
-- 
2.43.0


From 3fce93da5fa8b09d69d5034f65e4f0a35165c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 3/8] fix: bitvector validation no longer truncates literals to
 64 bits

---
 src/bv.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 99323e9..ad06f1e 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -250,7 +250,12 @@ macro_rules! impl_bv {
                     for node in expr.as_ref().iter() {
                         match node {
                             Bv::Var(v) => buf.push(z3::ast::BV::new_const(&ctx, v.to_string(), $n)),
-                            Bv::Lit(c) => buf.push(z3::ast::BV::from_u64(&ctx, c.0 as u64, $n)),
+                            Bv::Lit(c) => {
+                                // from_u64 takes only 64 bits: build literals from two halves
+                                let high = z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u64, 64);
+                                let low = z3::ast::BV::from_u64(&ctx, c.0 as u64, 64);
+                                buf.push(high.concat(&low).extract($n - 1, 0))
+                            }
                             Bv::Add([a, b]) => buf.push(buf[usize::from(*a)].bvadd(&buf[usize::from(*b)])),
                             Bv::Sub([a, b]) => buf.push(buf[usize::from(*a)].bvsub(&buf[usize::from(*b)])),
                             Bv::Mul([a, b]) => buf.push(buf[usize::from(*a)].bvmul(&buf[usize::from(*b)])),
-- 
2.43.0


From 362534a2415c445f0ba5ecf95c85dc3dafaaebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 4/8] fix: malformed #b bitvector text is a parse error, not a
 panic

---
 src/bv.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bv.rs b/src/bv.rs
index ad06f1e..3237e2d 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -113,8 +113,7 @@ impl<const N: Inner> std::str::FromStr for BV<N> {
     type Err = std::num::ParseIntError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = s.strip_prefix("#b") {
-            let i = Inner::from_str_radix(stripped, 2).unwrap();
-            return Ok(Self::new(i));
+            return Inner::from_str_radix(stripped, 2).map(Self::new);
         }
         s.parse::<Inner>().map(Self::new)
     }
-- 
2.43.0


From 089a9b0c696255091de5f7812e9d1eff3cd74d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 5/8] fix: bitvector workloads without variables can be
 materialised

---
 src/bv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 3237e2d..f95e3a9 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -230,7 +230,7 @@ macro_rules! impl_bv {
 
                 let mut cvecs = self_product(&consts, vars.len());
 
-                egraph.analysis.cvec_len = cvecs[0].len();
+                egraph.analysis.cvec_len = consts.len().pow(vars.len() as u32);
 
                 for (i, v) in vars.iter().enumerate() {
                     let id = egraph.add(Bv::Var(Symbol::from(v.clone())));
-- 
2.43.0


From ee56324a1287bbec746414e475611afa9e5fb1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 6/8] fix: cvec matching requires a sample where both vectors
 are defined

---
 src/enumo/ruleset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index ac0130e..6915768 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -280,13 +280,15 @@ impl<L: SynthLanguage> Ruleset<L> {
             .collect();
 
         let compare = |cvec1: &CVec<L>, cvec2: &CVec<L>| -> bool {
+            let mut agree_somewhere = false;
             for tup in cvec1.iter().zip(cvec2) {
                 match tup {
                     (Some(a), Some(b)) if a != b => return false,
+                    (Some(_), Some(_)) => agree_somewhere = true,
                     _ => (),
                 }
             }
-            true
+            agree_somewhere
         };
         let mut candidates = Ruleset::default();
         let extract = Extractor::new(egraph, AstSize);
-- 
2.43.0


From accdaf0fa69dd8f56a1564b862400ae770c3e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:50 +0000
Subject: [PATCH 7/8] fix: minimize reports only failed candidates as invalid

---
 src/enumo/ruleset.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index 6915768..ff84102 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -376,10 +376,12 @@ impl<L: SynthLanguage> Ruleset<L> {
                 // If reverse direction is also in candidates, add it at the same time
                 let reverse = Rule::new(&rule.rhs, &rule.lhs);
                 if let Some(reverse) = reverse {
-                    if self.contains(&reverse) && reverse.is_valid() {
-                        selected.add(reverse);
-                    } else {
-                        invalid.add(reverse);
+                    if self.contains(&reverse) {
+                        if reverse.is_valid() {
+                            selected.add(reverse);
+                        } else {
+                            invalid.add(reverse);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From c1b26b0d614ede432a18e33d9e7dfa01545ef697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:44 +0000
Subject: [PATCH 8/8] fix: concurrent log writers no longer lose each other's
 rows

---
 src/logger.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/logger.rs b/src/logger.rs
index 02ca7b2..221392e 100644
--- a/src/logger.rs
+++ b/src/logger.rs
@@ -1,5 +1,6 @@
 use std::{
     fs::{self, OpenOptions},
+    sync::Mutex,
     time::{Duration, Instant},
 };
 
@@ -7,6 +8,10 @@ use serde_json::{json, Value};
 
 use crate::{count_lines, enumo::Ruleset, DeriveType, Limits, Phase, SynthLanguage};
 
+// Adding a row reads the whole file and writes it back, so concurrent
+// callers (e.g. tests running in parallel) must take turns.
+static OUTPUT_LOCK: Mutex<()> = Mutex::new(());
+
 /**
  * Adds a JSON object to the nightly data
  * The file is an array of JSON objects, so this function
@@ -14,6 +19,7 @@ use crate::{count_lines, enumo::Ruleset, DeriveType, Limits, Phase, SynthLanguag
  * the array, and writes it back to the file
  */
 fn add_json_to_file(json: Value) {
+    let _guard = OUTPUT_LOCK.lock().unwrap_or_else(|e| e.into_inner());
     let path = "nightly/data/output.json";
     std::fs::create_dir_all("nightly/data").unwrap_or_else(|e| panic!("Error creating dir: {}", e));
 
-- 
2.43.0

