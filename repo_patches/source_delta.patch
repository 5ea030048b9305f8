From 53e81cdf7670a514657bf38c08526f99388fcb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 01/11] fix: plugging an empty workload into a hole named like
 a pattern (* or ?x) removed every term

---
 src/enumo/workload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/workload.rs b/src/enumo/workload.rs
index 913d333..7289943 100644
--- a/src/enumo/workload.rs
+++ b/src/enumo/workload.rs
@@ -127,7 +127,7 @@ impl Workload {
         match workload {
             // Empty plug is the same as filter excludes
             Workload::Set(xs) if xs.is_empty() => {
-                self.filter(Filter::Excludes(name.into().parse().unwrap()))
+                self.filter(Filter::Excludes(Pattern::Lit(name.into())))
             }
             _ => Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone())),
         }
-- 
2.43.0


From 98ecbe453d6d34c4b1c0fa2e23719368fd2beb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 02/11] fix: plugging a term containing an empty list dropped
 the term

---
 src/enumo/sexp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index 597e618..d27590a 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -91,6 +91,8 @@ impl Sexp {
         match self {
             Sexp::Atom(s) if s == name => pegs.to_vec(),
             Sexp::Atom(_) => vec![self.clone()],
+            // The product of no factors is the empty list itself
+            Sexp::List(sexps) if sexps.is_empty() => vec![self.clone()],
             Sexp::List(sexps) => sexps
                 .iter()
                 .map(|x| x.plug(name, pegs))
-- 
2.43.0


From c5e1bcca82a11d7f52265ebb28e2015ba2389871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 03/11] fix: measuring the depth of an empty list panicked

---
 src/enumo/sexp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index d27590a..b264b25 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -111,7 +111,7 @@ impl Sexp {
             Sexp::List(s) => match metric {
                 Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),
                 Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,
-                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap() + 1,
+                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,
             },
         }
     }
-- 
2.43.0


From 3aa273afeb62bfc5a96d136dff77589bd759571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 04/11] fix: cvec matching proposed rules between terms never
 defined on a common sample

---
 src/enumo/ruleset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index ac0130e..c3f78bb 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -280,13 +280,15 @@ impl<L: SynthLanguage> Ruleset<L> {
             .collect();
 
         let compare = |cvec1: &CVec<L>, cvec2: &CVec<L>| -> bool {
+            let mut both_defined = false;
             for tup in cvec1.iter().zip(cvec2) {
                 match tup {
                     (Some(a), Some(b)) if a != b => return false,
+                    (Some(_), Some(_)) => both_defined = true,
                     _ => (),
                 }
             }
-            true
+            both_defined
         };
         let mut candidates = Ruleset::default();
         let extract = Extractor::new(egraph, AstSize);
-- 
2.43.0


From 060950d4c8663ecf2342c75419f3f3429e46c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 05/11] fix: minimize reported rules that were valid or no
 candidates as invalid

---
 src/enumo/ruleset.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index c3f78bb..7ff1a12 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -376,10 +376,12 @@ impl<L: SynthLanguage> Ruleset<L> {
                 // If reverse direction is also in candidates, add it at the same time
                 let reverse = Rule::new(&rule.rhs, &rule.lhs);
                 if let Some(reverse) = reverse {
-                    if self.contains(&reverse) && reverse.is_valid() {
-                        selected.add(reverse);
-                    } else {
-                        invalid.add(reverse);
+                    if self.contains(&reverse) {
+                        if reverse.is_valid() {
+                            selected.add(reverse);
+                        } else {
+                            invalid.add(reverse);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From b8b671e8cf618f15b88f06f595bb801f9cd9f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 06/11] fix: bitvector workloads without variables panicked

---
 src/bv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bv.rs b/src/bv.rs
index 99323e9..8ac3eb3 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -229,9 +229,9 @@ macro_rules! impl_bv {
                 consts.sort();
                 consts.dedup();
 
-                let mut cvecs = self_product(&consts, vars.len());
+                let cvecs = self_product(&consts, vars.len());
 
-                egraph.analysis.cvec_len = cvecs[0].len();
+                egraph.analysis.cvec_len = consts.len().pow(vars.len() as u32);
 
                 for (i, v) in vars.iter().enumerate() {
                     let id = egraph.add(Bv::Var(Symbol::from(v.clone())));
-- 
2.43.0


From 033620635737bc411f863de5aa19749cd2a01d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 07/11] fix: bitvector validation truncated literals to 64 bits

---
 src/bv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 8ac3eb3..c68be53 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -250,7 +250,11 @@ macro_rules! impl_bv {
                     for node in expr.as_ref().iter() {
                         match node {
                             Bv::Var(v) => buf.push(z3::ast::BV::new_const(&ctx, v.to_string(), $n)),
-                            Bv::Lit(c) => buf.push(z3::ast::BV::from_u64(&ctx, c.0 as u64, $n)),
+                            Bv::Lit(c) => {
+                                let high = z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u64, 64);
+                                let low = z3::ast::BV::from_u64(&ctx, c.0 as u64, 64);
+                                buf.push(high.concat(&low).extract($n - 1, 0))
+                            }
                             Bv::Add([a, b]) => buf.push(buf[usize::from(*a)].bvadd(&buf[usize::from(*b)])),
                             Bv::Sub([a, b]) => buf.push(buf[usize::from(*a)].bvsub(&buf[usize::from(*b)])),
                             Bv::Mul([a, b]) => buf.push(buf[usize::from(*a)].bvmul(&buf[usize::from(*b)])),
-- 
2.43.0


From f1f88dc5f4c5d6e762bbfa7c6c002a8ac55284de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:43 +0000
Subject: [PATCH 08/11] fix: generalising terms with more than 26 variables
 panicked

---
 src/language.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/language.rs b/src/language.rs
index 998d6a4..d598cad 100644
--- a/src/language.rs
+++ b/src/language.rs
@@ -257,7 +257,11 @@ pub trait SynthLanguage: Language + Send + Sync + Display + FromOp + 'static {
                 let len = map.len();
                 let var = map
                     .entry(sym)
-                    .or_insert_with(|| format!("?{}", letter(len)).parse().unwrap());
+                    .or_insert_with(|| match len / 26 {
+                        0 => format!("?{}", letter(len)).parse().unwrap(),
+                        // More variables than letters: ?a1, ?b1, ..
+                        n => format!("?{}{}", letter(len % 26), n).parse().unwrap(),
+                    });
                 let s = var.to_string();
                 Self::mk_var(s[1..].into())
             }
-- 
2.43.0


From ef0dd1f58fc084885f975b73a03d7ddd3045f5d6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 09/11] fix: list every rule exactly once on the nightly pages

formatRules removed entries from the array it was iterating over, so a rule
whose reverse was not its direct neighbour lost a following rule and was shown
twice, and the shared data was changed for later tables.
---
 infra/nightly-resources/utils.js | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/infra/nightly-resources/utils.js b/infra/nightly-resources/utils.js
index c6191d3..d87ab5b 100644
--- a/infra/nightly-resources/utils.js
+++ b/infra/nightly-resources/utils.js
@@ -40,11 +40,16 @@ function formatRules(rules) {
   if (!rules || rules.length == 0) {
     return "-";
   }
-  rules.forEach((rule, i) => {
+  let shown = new Set();
+  rules.forEach((rule) => {
+    if (shown.has(rule)) {
+      return;
+    }
     let [left, right] = rule.split(" ==> ");
-    if (rules.includes(`${right} ==> ${left}`)) {
+    let reverse = `${right} ==> ${left}`;
+    if (rules.includes(reverse)) {
       bidir.push(`${left} <=> ${right}`);
-      rules.splice(i, 1);
+      shown.add(reverse);
     } else {
       bidir.push(`${left} ==> ${right}`);
     }
-- 
2.43.0


From 6c2200dafb87e5b32dc711e82e54cde70ae8d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 10/11] fix: nightly detail links show the row they belong to

A domain that is compared against several baselines has several rows, but all
links of that domain showed the first one.
---
 infra/nightly-resources/data.js  | 12 +++++++++---
 infra/nightly-resources/index.js | 10 ++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/infra/nightly-resources/data.js b/infra/nightly-resources/data.js
index d6de304..6b9cab2 100644
--- a/infra/nightly-resources/data.js
+++ b/infra/nightly-resources/data.js
@@ -1,10 +1,16 @@
-// Parses the intended domain out of the URL query param (?domain=<some domain>)
+// Parses the intended domain and baseline out of the URL query params
+// (?domain=<some domain>&baseline=<some baseline>)
 // Finds the corresponding JSON object in the global data array
+// A domain can be compared against several baselines; without a baseline
+// this is the first of its rows
 function getDomainData() {
   let params = new URLSearchParams(window.location.search);
-  let domain = Object.fromEntries(params).domain;
+  let { domain, baseline } = Object.fromEntries(params);
 
-  return data.find((x) => x.spec_name == domain);
+  return data.find(
+    (x) =>
+      x.spec_name == domain && (!baseline || x.baseline_name == baseline)
+  );
 }
 
 // Filters the global data array to just the rows corresponding to the bv4 experiment
diff --git a/infra/nightly-resources/index.js b/infra/nightly-resources/index.js
index 3db8a2e..da60fc1 100644
--- a/infra/nightly-resources/index.js
+++ b/infra/nightly-resources/index.js
@@ -14,14 +14,16 @@ function load() {
     getBaseline("halide")
   );
 
-  let domains = data.map((row) => row.spec_name).filter((x) => !!x);
+  let domainRows = data.filter((row) => !!row.spec_name);
   let domainList = "";
-  domains.forEach((domain) => {
+  domainRows.forEach((row) => {
+    let domain = row.spec_name;
+    let query = `domain=${domain}&baseline=${row.baseline_name}`;
     domainList += `
       <p>
       ${domain}: 
-      <a href="rules.html?domain=${domain}">All Rules</a>
-      <a href="derive_detail.html?domain=${domain}">Derivability</a>
+      <a href="rules.html?${query}">All Rules</a>
+      <a href="derive_detail.html?${query}">Derivability</a>
       </p>
     `;
   });
-- 
2.43.0


From f8e11ea734a7c074fcd642ef983059f22c6e7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 11/11] fix: show Ruler's published times in the OOPSLA LaTeX
 table

The times are keyed by the names shown in the table, but were looked up by the
recipe's name, and the column heading compared against a misspelt table name.
---
 infra/nightly-resources/latex.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infra/nightly-resources/latex.js b/infra/nightly-resources/latex.js
index 5dde065..80e1b25 100644
--- a/infra/nightly-resources/latex.js
+++ b/infra/nightly-resources/latex.js
@@ -112,7 +112,7 @@ function generateBaselineLatex(tableName) {
       `${
         row.derivability.enumo_derives_baseline.lhs.can.length +
         row.derivability.enumo_derives_baseline.lhs.cannot.length
-      } ${rulerTimes[row.spec_name] || ""}`,
+      } ${rulerTimes[specNames[row.spec_name] || row.spec_name] || ""}`,
     enumo_derives_baseline: (row) => {
       lhs_percentage = getDerivability(
         row.derivability.enumo_derives_baseline.lhs
@@ -148,7 +148,7 @@ function generateBaselineLatex(tableName) {
     String.raw`\begin{tabular}{lccccc}`,
     String.raw`Domain   & \enumo LOC  & \# \enumo (Time)   & \# ${
       macroNames[tableName]
-    } ${tableName === "ooplsa" ? "(Time)" : ""}  & \enumo $\rightarrow$ ${
+    } ${tableName === "oopsla" ? "(Time)" : ""}  & \enumo $\rightarrow$ ${
       macroNames[tableName]
     } (Time) & ${
       macroNames[tableName]
-- 
2.43.0

