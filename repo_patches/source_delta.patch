From 995de7163e3712fd83eccc0576e2a78326ca58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 01/29] fix: import is_slinkuhi in jvozba.py (every lujvo built
 raised NameError)

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 69b4add..42c358e 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, normalise
+from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi, normalise
 from latkerlo_jvotci.rafsi import RAFSI_LIST
 from latkerlo_jvotci.data import BANNED_TRIPLES
 from latkerlo_jvotci.exceptions import NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
-- 
2.43.0


From e62baccb92b66bb665653704b70c7120de98050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 02/29] fix: check the previous and the new rafsi in combine
 (produced lujvo that are not brivla)

The slice of the previous rafsi was always empty and the vowels-only test was
made on it instead of on the new rafsi, so e.g. 'narge -iu-' (experimental
rafsi) gave nagyiu, which analyse_brivla rejects. Same test as in the TypeScript
and Rust versions.
---
 py/latkerlo_jvotci/jvozba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 42c358e..5537dbc 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -326,8 +326,8 @@ def combine(
     raftai_1 = tarmi_ignoring_hyphen(rafsi)
     if lujvo[-1] not in "y'" and raftai_1 == OTHER_RAFSI:
         return
-    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][0]];
-    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", prulamrafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
+    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]]
+    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and re.fullmatch(r"[aeiou']+", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER):
         return
     hyphen = ""
     if lujvo[-1] == "'":
-- 
2.43.0


From e6c13a4591fc67b4a0eb9e7481064752f696934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 03/29] fix: IndexError on empty strings, double y and rafsi
 ending in a stray r (Python)

analyse_brivla(""), analyse_brivla("a'yya") and get_lujvo("bandu'er- gumri")
raised IndexError; the TypeScript and Rust versions reject or accept them as
documented.
---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 py/latkerlo_jvotci/katna.py  | 2 +-
 py/latkerlo_jvotci/tools.py  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 5537dbc..8840b59 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -167,7 +167,7 @@ def get_rafsi_list_list(
         rafsi_list: list[tuple[str, int]] = []
         is_first = i == 0
         is_last = i == len(valsi_list) - 1
-        if valsi[-1] == "-":
+        if valsi.endswith("-"):
             is_short_brivla = valsi[0] != "-"
             valsi = valsi.strip('-')
             if not is_only_lojban_characters(valsi):
diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 619e954..ab6ac8f 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -179,7 +179,7 @@ def jvokaha_2(
                 continue
             elif y_hyphens != FORCE_Y and (
                 lujvo[:2] == "nr"  # n-hyphen is only allowed before r
-                or lujvo[0] == "r" and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
+                or len(lujvo) > 1 and lujvo[0] == "r" and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
             ) and rafsi_tarmi(res[-1]) in [CVV, CVhV]:
                 res.append(lujvo[0])
                 lujvo = lujvo[1:]
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 42b498c..484f887 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -19,7 +19,7 @@ def normalise(word: str) -> str:
     :param word: A lojban word.
     :return: The normalised form.
     """
-    if word[0] == ".":
+    if word.startswith("."):
         word = word[1:]
     word = word.lower()
     word = word.replace("h", "'")
@@ -348,7 +348,7 @@ def analyse_brivla(
         did_add_a = False
         part_a = part + "a"
         if part[-1] == "'":
-            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][0] != "'":
+            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and not y_parts[i+1].startswith("'"):
                 require_cluster = True
             part = part[:-1]
             part_copy = part
-- 
2.43.0


From c978882c4b34dc4807ba986f9c8d852634200b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 04/29] fix: a bad vowel sequence after y' is NotBrivlaError
 (DecompositionError or panic escaped)

analyse_brivla("a'y'aa") let the internal DecompositionError escape in Python and
TypeScript and panicked in Rust, although it documents NotBrivlaError only.
---
 js/docs/tools.js            | 12 +++++++++++-
 js/src/tools.ts             | 11 ++++++++++-
 py/latkerlo_jvotci/tools.py |  7 +++++--
 rs/src/tools.rs             |  9 +++------
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 4ee6fe0..2801f38 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -305,7 +305,17 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 throw new NotBrivlaError("that was only a '");
             let firstCons = [...part].findIndex(c => !isVowel(c));
             let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-            if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+            let isConsonantOrGlide = false;
+            try {
+                isConsonantOrGlide = !isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]);
+            }
+            catch (e) {
+                if (e instanceof DecompositionError)
+                    throw new NotBrivlaError(`bad vowel sequence after ': {${part}}`);
+                else
+                    throw e;
+            }
+            if (isConsonantOrGlide)
                 throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
         }
         else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 48a32f5..a52f443 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -375,7 +375,16 @@ function analyseBrivla(
         throw new NotBrivlaError("that was only a '");
       let firstCons = [...part].findIndex(c => !isVowel(c));
       let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-      if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+      let isConsonantOrGlide = false;
+      try {
+        isConsonantOrGlide = !isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]);
+      } catch (e) {
+        if (e instanceof DecompositionError)
+          throw new NotBrivlaError(`bad vowel sequence after ': {${part}}`);
+        else
+          throw e;
+      }
+      if (isConsonantOrGlide)
         throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
     } else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
       throw new NotBrivlaError(`non-glide vowel after y: {${part}}`);
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 484f887..e740e24 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -324,8 +324,11 @@ def analyse_brivla(
                 raise NotBrivlaError("that was only a '")
             first_cons = next((i for i, c in enumerate(part) if not is_vowel(c)), -1)
             vchunk = part if first_cons == -1 else part[:first_cons]
-            if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
-                raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
+            try:
+                if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
+                    raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
+            except DecompositionError:
+                raise NotBrivlaError(f"bad vowel sequence after ': {{{part}}}")
         elif i > 0 and is_vowel(part[0]) and not is_glide(part):
             raise NotBrivlaError(f"non-glide vowel after y: {{{part}}}")
         if next_hyphen:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 34aac62..2097b39 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -448,13 +448,10 @@ pub fn analyze_brivla(
                 )));
             }
             if !is_vowel(strin!(part, 0))
-                || FOLLOW_VOWEL_CLUSTERS.contains(
-                    &split_vowel_cluster(
-                        &part.chars().take_while(|c| is_vowel(*c)).collect::<String>(),
-                    )
-                    .unwrap()[0]
-                        .as_str(),
+                || split_vowel_cluster(
+                    &part.chars().take_while(|c| is_vowel(*c)).collect::<String>(),
                 )
+                .map_or(true, |s| FOLLOW_VOWEL_CLUSTERS.contains(&s[0].as_str()))
             {
                 return Err(NotBrivlaError(format!(
                     "{{{valsi}}} contains an apostrophe not followed by a non-glide vowel"
-- 
2.43.0


From df09592d971ab00f5ef114be54c53b2092a18659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 05/29] fix: regenerate js/docs/rafsi.js (rafsi cfo of jicfo
 and zbu of fizbu were missing)

---
 js/docs/rafsi.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/rafsi.js b/js/docs/rafsi.js
index 43d1c9d..b115d2d 100644
--- a/js/docs/rafsi.js
+++ b/js/docs/rafsi.js
@@ -503,7 +503,7 @@ const RAFSI_LIST = new Map([
     ["finti", ['fin', "fi'i"]],
     ["firca", []],
     ["fisli", []],
-    ["fizbu", []],
+    ["fizbu", ['zbu']],
     ["fizde", ['fiz']],
     ["flaci", []],
     ["flalu", ['fla']],
@@ -679,7 +679,7 @@ const RAFSI_LIST = new Map([
     ["jguvi", []],
     ["jibni", ['jbi']],
     ["jibri", ['jib']],
-    ["jicfo", []],
+    ["jicfo", ['cfo']],
     ["jicla", []],
     ["jicmu", ['cmu']],
     ["jidge", ['jid']],
-- 
2.43.0


From ae3182b6479a9d10feade2d08cb248e776ea0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 06/29] fix: rafsi_tarmi checks every consonant position (Rust)

veim was classified as CVCC and kray as CCVC, so e.g. analyze_brivla("krayyfe'e")
returned NonLojbanCharacterError instead of NotBrivlaError, unlike Python and
TypeScript.
---
 rs/src/tarmi.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index b574f09..28023e8 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -377,14 +377,18 @@ pub fn rafsi_tarmi(r: &str) -> Tarmi {
         3 => match (is_vowel(strin!(r, 1)), is_vowel(strin!(r, 2))) {
             (true, false) if is_consonant(strin!(r, 2)) => Cvc,
             (true, true) => Cvv,
-            (false, true) => Ccv,
+            (false, true) if is_consonant(strin!(r, 1)) => Ccv,
             _ => OtherRafsi,
         },
         4 if strin!(r, 3) != '\'' => {
             match (is_vowel(strin!(r, 1)), strin!(r, 2), is_vowel(strin!(r, 3))) {
                 (true, '\'', true) => Cvhv,
-                (true, _, false) if is_consonant(strin!(r, 3)) => Cvcc,
-                (false, v, false) if is_vowel(v) => Ccvc,
+                (true, c, false) if is_consonant(c) && is_consonant(strin!(r, 3)) => Cvcc,
+                (false, v, false)
+                    if is_consonant(strin!(r, 1)) && is_vowel(v) && is_consonant(strin!(r, 3)) =>
+                {
+                    Ccvc
+                }
                 _ => OtherRafsi,
             }
         }
-- 
2.43.0


From fe2076b8df267e20244fc50b5e7bc5c466fcfee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 07/29] fix: reject a lujvo without its final vowel inside a
 lujvo (Rust)

analyze_brivla documents that a lujvo without the final vowel is not a rafsi, and
Python and TypeScript reject e.g. xlastyme (xlasta = xla + sta), but Rust
accepted it when the part with the vowel restored ends in a gismu shape.
---
 rs/src/tools.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 2097b39..dd6ac1d 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -630,6 +630,14 @@ pub fn analyze_brivla(
             }
             let shape_type = shape_type.unwrap();
             if shape_type == Zihevla {
+                if added_a
+                    && let Ok(decomp) = jvokaha2(part, &extract!(settings; y_hyphens, allow_mz))
+                {
+                    return Err(NotBrivlaError(format!(
+                        "{{{part_}}} is a lujvo without its final vowel: {{{}}}",
+                        decomp.join(" ")
+                    )));
+                }
                 has_cluster = true;
             }
             if is_consonant(strin!(part, 0)) || settings.glides && is_glide(part) {
-- 
2.43.0


From 3799e9d4ef9efd9f7ccc711eb799d1ab5b9dc8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 08/29] fix: non-ASCII input is NotBrivlaError instead of a
 panic in analyze_brivla (Rust)

---
 rs/src/tools.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index dd6ac1d..509ab87 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -384,6 +384,10 @@ pub fn analyze_brivla(
     } else if !is_vowel(strin!(&valsi, -1)) {
         return Err(NotBrivlaError(format!("{{{valsi}}} doesn't end in a consonant or vowel")));
     }
+    // everything below slices by byte index
+    if !valsi.is_ascii() {
+        return Err(NotBrivlaError(format!("{{{valsi}}} contains a non-Lojban character")));
+    }
     if is_cmetai {
         if is_gismu(&format!("{valsi}a"), &extract!(settings; allow_mz)) {
             return Err(NotBrivlaError(format!("{{{valsi}}} is a non-decomposable cmevla")));
-- 
2.43.0


From 088b5d44abe090372f2ae385b3b35e0bb96814bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 09/29] fix: mz is a valid pair inside a zi'evla triple when
 allow_mz is set (Python, TypeScript)

With allow_mz, mz was refused as the start of a three-consonant cluster (roinmemzdi)
although any other valid pair is accepted there; Rust accepts it. The pairs are
checked by the caller, which knows the setting.
---
 js/docs/tarmi.js            | 3 ++-
 js/src/tarmi.ts             | 3 ++-
 py/latkerlo_jvotci/tarmi.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/js/docs/tarmi.js b/js/docs/tarmi.js
index d30af4e..aa7b333 100644
--- a/js/docs/tarmi.js
+++ b/js/docs/tarmi.js
@@ -226,7 +226,8 @@ function isZihevlaMiddleCluster(cluster) {
     if (cluster.length === 3) {
         if (SONORANT_CONSONANTS.includes(cluster[1]))
             return true;
-        return VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
+        // Whether mz is allowed is checked with the other pairs, outside this function
+        return MZ_VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
     }
     else if (cluster.length < 3) {
         return true; // Pairs are already checked outside this function
diff --git a/js/src/tarmi.ts b/js/src/tarmi.ts
index 3f2814d..26669a4 100644
--- a/js/src/tarmi.ts
+++ b/js/src/tarmi.ts
@@ -237,7 +237,8 @@ function isZihevlaMiddleCluster(cluster: string): boolean {
   if (cluster.length === 3) {
     if (SONORANT_CONSONANTS.includes(cluster[1]))
       return true;
-    return VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
+    // Whether mz is allowed is checked with the other pairs, outside this function
+    return MZ_VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
   } else if (cluster.length < 3) {
     return true;  // Pairs are already checked outside this function
   }
diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index 7558bb5..2209130 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -221,7 +221,8 @@ def is_zihevla_middle_cluster(cluster: str) -> bool:
     if len(cluster) == 3:
         if cluster[1] in SONORANT_CONSONANTS:
             return True
-        return cluster[:2] in VALID and cluster[1:] in INITIAL
+        # Whether mz is allowed is checked with the other pairs, outside this function
+        return cluster[:2] in MZ_VALID and cluster[1:] in INITIAL
     elif len(cluster) < 3:
         return True  # Pairs are already checked outside this function
 
-- 
2.43.0


From 8f70ae9d7980b8687ee849fe20d8be8d18754abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 10/29] fix: score_lujvo scores hyphens as
 get_lujvo_with_analytics does, and applies the tiebreak to the normalised
 word

---
 js/docs/katna.js            |  2 +-
 js/src/katna.ts             |  4 +---
 py/latkerlo_jvotci/katna.py |  9 ++-------
 rs/src/katna.rs             | 10 ++--------
 4 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 54883e5..e0738ac 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -248,7 +248,7 @@ function scoreLujvo(lujvo, { generateCmevla = false, yHyphens = YHyphenSetting.S
     catch (e) {
         throw e;
     }
-    return decomp.map(r => ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)).reduce((a, b) => a + b) - tiebreak(lujvo);
+    return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(normalise(lujvo));
 }
 /**
  * Decompose a lujvo into a list of selrafsi and formatted rafsi.
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 7f0abbe..b37a230 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -300,9 +300,7 @@ function scoreLujvo(lujvo: string, {
   } catch (e) {
     throw e;
   }
-  return decomp.map(r =>
-    ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)
-  ).reduce((a, b) => a + b) - tiebreak(lujvo);
+  return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(normalise(lujvo));
 }
 
 /**
diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index ab6ac8f..114c971 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import is_brivla, analyse_brivla
+from latkerlo_jvotci.tools import is_brivla, analyse_brivla, normalise
 from latkerlo_jvotci.jvozba import get_lujvo_from_list, score, tiebreak
 from latkerlo_jvotci.exceptions import DecompositionError, InvalidClusterError, NotBrivlaError, NoLujvoFoundError
 from latkerlo_jvotci.rafsi import RAFSI_LIST
@@ -257,12 +257,7 @@ def score_lujvo(
         allow_mz: bool = False) -> int:
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
-    return sum(
-        1000 * len(r)
-        if r in ["y", "n", "r", ""]
-        else score(r)
-        for r in decomp
-    ) - tiebreak(lujvo)
+    return sum(score(r) for r in decomp) - tiebreak(normalise(lujvo))
 
 
 def get_veljvo(
diff --git a/rs/src/katna.rs b/rs/src/katna.rs
index 518efcf..8bc060c 100644
--- a/rs/src/katna.rs
+++ b/rs/src/katna.rs
@@ -18,7 +18,7 @@ use crate::{
         YHyphenSetting::{ForceY, Standard},
         is_consonant, is_vowel, rafsi_tarmi,
     },
-    tools::{analyze_brivla, is_brivla},
+    tools::{analyze_brivla, is_brivla, normalize},
 };
 
 /// Returns the word with the given rafsi, if one exists.
@@ -256,13 +256,7 @@ pub fn jvokaha2(lujvo: &str, settings: &Settings) -> Result<Vec<String>, Jvonunf
 pub fn score_lujvo(lujvo: &str, settings: &Settings) -> Result<i32, Jvonunfli> {
     get_veljvo(lujvo, settings)?;
     let decomp = analyze_brivla(lujvo, settings)?.1;
-    Ok(decomp
-        .iter()
-        .map(|r| {
-            if ["y", "n", "r", ""].contains(&r.as_str()) { 1100 * r.len() as i32 } else { score(r) }
-        })
-        .sum::<i32>()
-        - tiebreak(lujvo))
+    Ok(decomp.iter().map(|r| score(r)).sum::<i32>() - tiebreak(&normalize(lujvo)))
 }
 
 /// Gets the selrafsi (source tanru) and formatted unassigned rafsi for this
-- 
2.43.0


From d8c2acaab445e8526d40c6a36405a840d2a4ef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 11/29] fix: the tiebreak point is given for the finished lujvo
 only, not for a prefix of it (score was one too low)

---
 js/docs/jvozba.js            | 2 +-
 js/src/jvozba.ts             | 2 +-
 py/latkerlo_jvotci/jvozba.py | 2 +-
 rs/src/jvozba.rs             | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 0cb9709..cfbabe2 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -355,7 +355,7 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
     return [
         tosmabruType,
         totalConsonants,
-        lujvoScore + score(hyphen) + score(rafsi) - tiebreak(lujvo + hyphen + rafsi),
+        lujvoScore + score(hyphen) + score(rafsi) - (tanruLen === 2 ? tiebreak(lujvo + hyphen + rafsi) : 0),
         lujvo + hyphen + rafsi,
         indexList
     ];
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 10f67b8..3556d48 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -429,7 +429,7 @@ function combine(
   return [
     tosmabruType,
     totalConsonants,
-    lujvoScore + score(hyphen) + score(rafsi) - tiebreak(lujvo + hyphen + rafsi),
+    lujvoScore + score(hyphen) + score(rafsi) - (tanruLen === 2 ? tiebreak(lujvo + hyphen + rafsi) : 0),
     lujvo + hyphen + rafsi,
     indexList
   ];
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 8840b59..1149251 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -395,7 +395,7 @@ def combine(
     return (
         tosmabru_type,
         total_consonants,
-        lujvo_score + score(hyphen) + score(rafsi) - tiebreak(res),
+        lujvo_score + score(hyphen) + score(rafsi) - (tiebreak(res) if tanru_len == 2 else 0),
         res,
         index_list
     )
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 56a2b3f..895011a 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -469,7 +469,7 @@ pub fn combine(
         total_c = 2;
     }
     let res = format!("{lujvo}{hyphen}{rafsi}");
-    let score = lujvo_score + score(hyphen) + score(rafsi) - tiebreak(&res);
+    let score = lujvo_score + score(hyphen) + score(rafsi) - if tanru_len == 2 { tiebreak(&res) } else { 0 };
     Some((tosmabru_type, total_c, score, res, indices))
 }
 
-- 
2.43.0


From 284a32726219ee018cacae2054bb692ffd4dbc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 12/29] fix: a CVV rafsi must be a falling diphthong (-fuo-
 made lujvo that are not brivla)

---
 js/docs/tarmi.js            | 2 ++
 js/src/tarmi.ts             | 2 ++
 py/latkerlo_jvotci/tarmi.py | 2 ++
 rs/src/tarmi.rs             | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/js/docs/tarmi.js b/js/docs/tarmi.js
index aa7b333..a17a54c 100644
--- a/js/docs/tarmi.js
+++ b/js/docs/tarmi.js
@@ -267,6 +267,8 @@ function isValidRafsi(rafsi, allowMZ = false) {
         return (allowMZ ? MZ_VALID : VALID).includes(rafsi.slice(2, 4));
     if ([Tarmi.CCVCV, Tarmi.CCVC, Tarmi.CCV].includes(raftai))
         return INITIAL.includes(rafsi.slice(0, 2));
+    if (raftai === Tarmi.CVV)
+        return ["ai", "ei", "oi", "au"].includes(rafsi.slice(1));
     return 1 <= raftai && raftai <= 8;
 }
 /**
diff --git a/js/src/tarmi.ts b/js/src/tarmi.ts
index 26669a4..cba1a76 100644
--- a/js/src/tarmi.ts
+++ b/js/src/tarmi.ts
@@ -280,6 +280,8 @@ function isValidRafsi(rafsi: string, allowMZ = false): boolean {
     return (allowMZ ? MZ_VALID : VALID).includes(rafsi.slice(2, 4));
   if ([Tarmi.CCVCV, Tarmi.CCVC, Tarmi.CCV].includes(raftai))
     return INITIAL.includes(rafsi.slice(0, 2));
+  if (raftai === Tarmi.CVV)
+    return ["ai", "ei", "oi", "au"].includes(rafsi.slice(1));
   return 1 <= raftai && raftai <= 8;
 }
 
diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index 2209130..a2b481d 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -264,6 +264,8 @@ def is_valid_rafsi(rafsi: str, allow_mz: bool = False) -> bool:
         return rafsi[2:4] in (MZ_VALID if allow_mz else VALID)
     if raftai in [CCVCV, CCVC, CCV]:
         return rafsi[:2] in INITIAL
+    if raftai == CVV:
+        return rafsi[1:] in ["ai", "ei", "oi", "au"]
     return 1 <= raftai <= 8
 
 
diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index 28023e8..10fc1f4 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -361,6 +361,8 @@ pub fn is_valid_rafsi(r: &str, settings: &Settings) -> bool {
         if settings.allow_mz { &MZ_VALID } else { &VALID }.contains(&strsl!(r, 2..4))
     } else if [Ccvcv, Ccvc, Ccv].contains(&t) {
         INITIAL.contains(&strsl!(r, 0..2))
+    } else if t == Cvv {
+        ["ai", "ei", "oi", "au"].contains(&strsl!(r, 1..3))
     } else {
         1 <= t as i8 && t as i8 <= 8
     }
-- 
2.43.0


From 0c6e48f6d12df57f403ea8a704c714b501be60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 13/29] fix: decomposable cmevla never fall apart, and a
 cluster may lie across a y-hyphen (analyser)

---
 js/docs/tools.js            | 18 ++++++++++++------
 js/src/tools.ts             | 18 ++++++++++++------
 py/latkerlo_jvotci/tools.py | 18 ++++++++++++------
 rs/src/tools.rs             | 25 +++++++++++++++++--------
 4 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 2801f38..94d4624 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -327,6 +327,8 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
         }
         if (rafsiTarmi(part) === Tarmi.CVC) {
             resultParts.push(part);
+            if (consonantBeforeBreak)
+                hasCluster = true;
             consonantBeforeBreak = true;
             numConsonants += 2;
             continue;
@@ -340,7 +342,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
         let didAddA = false;
         let partA = part + "a";
         if (part.slice(-1) === "'") {
-            if (yHyphens === YHyphenSetting.STANDARD && !hasCluster && i < yParts.length - 1 && yParts[i + 1][0] !== "'")
+            if (yHyphens === YHyphenSetting.STANDARD && !hasCluster && !isCmevlatai && i < yParts.length - 1 && yParts[i + 1][0] !== "'")
                 requireCluster = true;
             part = part.slice(0, -1);
             partCopy = part;
@@ -356,6 +358,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
             requireCluster = true;
         }
         let didKaha = false;
+        let endsInCVC = false;
         if (canBeRafsi) {
             bastryvla_test: if (!/'a$/.test(partA) && !isGismu(partA.slice(-5), allowMZ)) {
                 let decomp;
@@ -380,14 +383,17 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
                     throw e;
             }
-            foundParts.forEach((partPart) => {
+            foundParts.forEach((partPart, j) => {
                 const raftai = rafsiTarmi(partPart);
                 if ([Tarmi.CVV, Tarmi.CVhV].includes(raftai)) {
                     numConsonants += 1;
                 }
                 else if (raftai !== Tarmi.OtherRafsi) {
                     numConsonants += 2;
-                    hasCluster = true;
+                    if (raftai === Tarmi.CVC && j === foundParts.length - 1)
+                        endsInCVC = true;
+                    else
+                        hasCluster = true;
                 }
             });
         }
@@ -400,7 +406,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                     throw new NotBrivlaError("falls off because y");
                 }
             }
-            if (i === 0) {
+            if (i === 0 && !isCmevlatai) {
                 let toPart = "";
                 let smabruPart = "";
                 if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
@@ -467,7 +473,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 numConsonants += 1;
             resultParts.push(partCopy);
         }
-        consonantBeforeBreak = false;
+        consonantBeforeBreak = endsInCVC;
     }
     if (!hasCluster && !isCmevlatai) {
         if (consonants === ConsonantSetting.CLUSTER)
@@ -479,7 +485,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
         else if (isMahortai)
             throw new NotBrivlaError("cmavo shaped or maybe multiple cmavo shaped");
     }
-    if (!(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
+    if (!isCmevlatai && !(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
         if (isSlinkuhi(valsi, { yHyphens: yHyphens, allowMZ: allowMZ }))
             throw new NotBrivlaError(`slinku'i: {to,${valsi}}`);
     }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index a52f443..aae600b 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -396,6 +396,8 @@ function analyseBrivla(
 
     if (rafsiTarmi(part) === Tarmi.CVC) {
       resultParts.push(part);
+      if (consonantBeforeBreak)
+        hasCluster = true;
       consonantBeforeBreak = true;
       numConsonants += 2;
       continue;
@@ -412,7 +414,7 @@ function analyseBrivla(
 
     let partA = part + "a";
     if (part.slice(-1) === "'") {
-      if (yHyphens === YHyphenSetting.STANDARD && !hasCluster && i < yParts.length - 1 && yParts[i + 1][0] !== "'")
+      if (yHyphens === YHyphenSetting.STANDARD && !hasCluster && !isCmevlatai && i < yParts.length - 1 && yParts[i + 1][0] !== "'")
         requireCluster = true;
       part = part.slice(0, -1);
       partCopy = part;
@@ -429,6 +431,7 @@ function analyseBrivla(
     }
 
     let didKaha = false;
+    let endsInCVC = false;
     if (canBeRafsi) {
       bastryvla_test: if (!/'a$/.test(partA) && !isGismu(partA.slice(-5), allowMZ)) {
         let decomp;
@@ -450,13 +453,16 @@ function analyseBrivla(
           throw e;
       }
 
-      foundParts.forEach((partPart) => {
+      foundParts.forEach((partPart, j) => {
         const raftai = rafsiTarmi(partPart);
         if ([Tarmi.CVV, Tarmi.CVhV].includes(raftai)) {
           numConsonants += 1;
         } else if (raftai !== Tarmi.OtherRafsi) {
           numConsonants += 2;
-          hasCluster = true;
+          if (raftai === Tarmi.CVC && j === foundParts.length - 1)
+            endsInCVC = true;
+          else
+            hasCluster = true;
         }
       })
     }
@@ -473,7 +479,7 @@ function analyseBrivla(
         }
       }
 
-      if (i === 0) {
+      if (i === 0 && !isCmevlatai) {
         let toPart = "";
         let smabruPart = "";
         if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
@@ -547,7 +553,7 @@ function analyseBrivla(
       resultParts.push(partCopy);
     }
 
-    consonantBeforeBreak = false;
+    consonantBeforeBreak = endsInCVC;
   }
 
   if (!hasCluster && !isCmevlatai) {
@@ -561,7 +567,7 @@ function analyseBrivla(
       throw new NotBrivlaError("cmavo shaped or maybe multiple cmavo shaped");
   }
 
-  if (!(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
+  if (!isCmevlatai && !(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
     if (isSlinkuhi(valsi, { yHyphens: yHyphens, allowMZ: allowMZ }))
       throw new NotBrivlaError(`slinku'i: {to,${valsi}}`);
   }
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index e740e24..16e0c16 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -337,6 +337,8 @@ def analyse_brivla(
 
         if rafsi_tarmi(part) == CVC:
             result_parts.append(part)
+            if consonant_before_break:
+                has_cluster = True
             consonant_before_break = True
             num_consonants += 2
             continue
@@ -351,7 +353,7 @@ def analyse_brivla(
         did_add_a = False
         part_a = part + "a"
         if part[-1] == "'":
-            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and not y_parts[i+1].startswith("'"):
+            if y_hyphens == STANDARD and not has_cluster and not is_cmevlatai and i < len(y_parts) - 1 and not y_parts[i+1].startswith("'"):
                 require_cluster = True
             part = part[:-1]
             part_copy = part
@@ -367,6 +369,7 @@ def analyse_brivla(
             require_cluster = True
 
         did_kaha = False
+        ends_in_cvc = False
         if can_be_rafsi:
             if not part_a.endswith("'a") and not is_gismu(part_a[-5:], allow_mz):
                 try:
@@ -386,13 +389,16 @@ def analyse_brivla(
             except (DecompositionError, InvalidClusterError, IndexError):
                 pass
 
-            for part_part in found_parts:
+            for j, part_part in enumerate(found_parts):
                 raftai = rafsi_tarmi(part_part)
                 if raftai in [CVV, CVhV]:
                     num_consonants += 1
                 elif raftai != OTHER_RAFSI:
                     num_consonants += 2
-                    has_cluster = True
+                    if raftai == CVC and j == len(found_parts) - 1:
+                        ends_in_cvc = True
+                    else:
+                        has_cluster = True
 
         if did_kaha:
             if rafsi_tarmi(part) in [CVV, CVhV]:
@@ -401,7 +407,7 @@ def analyse_brivla(
                         not (i == len(y_parts) - 2 and rafsi_tarmi(y_parts[1]) in [CVV, CCV])):
                     raise NotBrivlaError("falls off because y")
 
-            if i == 0:
+            if i == 0 and not is_cmevlatai:
                 to_part = ""
                 smabru_part = ""
                 if rafsi_tarmi(part[:4]) == CVhV:
@@ -454,7 +460,7 @@ def analyse_brivla(
 
             result_parts.append(part_copy)
 
-        consonant_before_break = False
+        consonant_before_break = ends_in_cvc
 
     if not has_cluster and not is_cmevlatai:
         if consonants == CLUSTER:
@@ -466,7 +472,7 @@ def analyse_brivla(
         elif is_mahortai:
             raise NotBrivlaError("cmavo shaped or maybe multiple cmavo shaped")
 
-    if not (is_vowel(valsi[0]) and (is_consonant(valsi[1]) or valsi[1] == "y")):
+    if not is_cmevlatai and not (is_vowel(valsi[0]) and (is_consonant(valsi[1]) or valsi[1] == "y")):
         if is_slinkuhi(valsi, y_hyphens=y_hyphens, allow_mz=allow_mz):
             raise NotBrivlaError("slinku'i")
 
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 509ab87..2962625 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -472,6 +472,9 @@ pub fn analyze_brivla(
         }
         if rafsi_tarmi(part) == Cvc {
             res_parts.push(part.to_string());
+            if consonant_before_break {
+                has_cluster = true;
+            }
             consonant_before_break = true;
             num_consonants += 2;
             continue;
@@ -495,6 +498,7 @@ pub fn analyze_brivla(
         if strin!(part, -1) == '\'' {
             if settings.y_hyphens == Standard
                 && !has_cluster
+                && !is_cmetai
                 && i < y_parts.len() - 1
                 && strin!(y_parts[i + 1], 0) != '\''
             {
@@ -517,6 +521,7 @@ pub fn analyze_brivla(
             require_cluster = true;
         }
         let mut katnad = false;
+        let mut ends_in_cvc = false;
         if can_be_rafsi {
             if !part_a.ends_with("'a")
                 && !is_gismu(strsl!(part_a, -5..), &extract!(settings; allow_mz))
@@ -547,18 +552,22 @@ pub fn analyze_brivla(
                 katnad = true;
             }
             let found_parts = found_parts.unwrap();
-            for fp in found_parts {
-                let raftai = rafsi_tarmi(&fp);
+            for (j, fp) in found_parts.iter().enumerate() {
+                let raftai = rafsi_tarmi(fp);
                 if [Cvv, Cvhv].contains(&raftai) {
                     num_consonants += 1;
                 } else if raftai != OtherRafsi {
                     num_consonants += 2;
-                    has_cluster = true;
+                    if raftai == Cvc && j == found_parts.len() - 1 {
+                        ends_in_cvc = true;
+                    } else {
+                        has_cluster = true;
+                    }
                 }
             }
         }
         if katnad {
-            if i == 0 {
+            if i == 0 && !is_cmetai {
                 let mut to_part = "";
                 let mut smabru_part = "";
                 if rafsi_tarmi(strsl!(part, 0..4)) == Cvhv {
@@ -599,7 +608,6 @@ pub fn analyze_brivla(
                         )));
                     }
                 } else if settings.y_hyphens == Standard
-                    && !is_cmetai
                     && !to_part.is_empty()
                     && !y_parts[i + 1].starts_with('\'')
                 {
@@ -649,7 +657,7 @@ pub fn analyze_brivla(
             }
             res_parts.push(part_.to_string());
         }
-        consonant_before_break = false;
+        consonant_before_break = ends_in_cvc;
     }
     if !has_cluster && !is_cmetai {
         if settings.consonants == Cluster {
@@ -664,8 +672,9 @@ pub fn analyze_brivla(
             return Err(NotBrivlaError(format!("{{{valsi}}} is just a cmavo or cmavo compound")));
         }
     }
-    if !(is_vowel(strin!(&valsi, 0))
-        && (is_consonant(strin!(&valsi, 1)) || strin!(&valsi, 1) == 'y'))
+    if !is_cmetai
+        && !(is_vowel(strin!(&valsi, 0))
+            && (is_consonant(strin!(&valsi, 1)) || strin!(&valsi, 1) == 'y'))
         && is_slinkuhi(&valsi, &extract!(settings; y_hyphens, allow_mz)).unwrap()
     {
         Err(NotBrivlaError(format!("{{{valsi}}} is a slinku'i")))
-- 
2.43.0


From 124ad6b4e6a0db01c228672cd7292848f8b3b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 14/29] fix: do not build lujvo with experimental rafsi that
 fall apart into cmavo (no cluster before the y)

---
 js/docs/jvozba.js            | 30 +++++++++++++++++++++++++++---
 js/src/jvozba.ts             | 36 +++++++++++++++++++++++++++++++++---
 py/latkerlo_jvotci/jvozba.py | 36 ++++++++++++++++++++++++++++++++----
 rs/src/jvozba.rs             | 35 ++++++++++++++++++++++++++++++++---
 4 files changed, 124 insertions(+), 13 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index cfbabe2..a3b06a4 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -99,7 +99,8 @@ glides) {
     else if (rType === Tarmi.CVC) {
         result.push([rafsi, 2]);
         if (!isLast)
-            result.push([rafsi + "y", 2]);
+            // whether there is a cluster depends on what follows the y
+            result.push([rafsi + "y", consonants === ConsonantSetting.CLUSTER ? 0 : 2]);
     }
     else {
         throw Error(`Unrecognised rafsi type: ${rType}`);
@@ -242,6 +243,21 @@ function getRafsiListList(valsiList, { yHyphens = YHyphenSetting.STANDARD, expRa
     }
     return listOfRafsiLists;
 }
+/**
+ * Check for two consonants in a row, possibly with a y-hyphen between them.
+ *
+ * @param lujvo A partial lujvo.
+ * @param glides True if glides count as consonants.
+ * @returns True if there is a cluster.
+ */
+function hasCluster(lujvo, glides = false) {
+    for (let i = 0; i < lujvo.length; i++) {
+        const rest = lujvo.slice(i + 1).replace(/^y/, "");
+        if (rest.length > 0 && isConsonant(lujvo[i]) && (isConsonant(rest[0]) || (glides && isGlide(rest))))
+            return true;
+    }
+    return false;
+}
 /**
  * Add one rafsi to the end of the current lujvo (if possible) and
  * calculate the score.
@@ -282,6 +298,9 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
         && (rafsi[0] == "'"
             || isGlide(rafsi) && !glides && consonants == ConsonantSetting.CLUSTER))
         return null;
+    if (yHyphens === YHyphenSetting.STANDARD && !generateCmevla && lujvo.endsWith("'y") && rafsiInitial !== "'"
+        && !hasCluster(lujvo, glides))
+        return null; // everything up to the y would be cmavo
     let hyphen = "";
     if (lujvoFinal === "'") {
         if (rafsiInitial === "'" || yHyphens !== YHyphenSetting.STANDARD)
@@ -325,7 +344,8 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
         }
     }
     else if (tosmabruType === TosyType.Tosyhuhu) {
-        if (rafsiInitial !== "'" || containsConsonant(rafsi))
+        if ((rafsiInitial !== "'" || containsConsonant(rafsi)) && !(raftai1 === Tarmi.CVC && rafsi.slice(-1) === "y")
+            || hasCluster(lujvo + hyphen + rafsi, glides))
             tosmabruType = TosyType.Tosynone;
     }
     const rafsiStart = lujvo.length + hyphen.length + (rafsi[0] === "'" ? 1 : 0);
@@ -396,8 +416,12 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
     rafsiListList[0].forEach((rafsi0) => {
         rafsiListList[1].forEach((rafsi1) => {
             let tosmabruType = TosyType.Tosynone;
-            if (tarmiIgnoringHyphen(rafsi0[0]) === Tarmi.CVC && !generateCmevla)
+            if (generateCmevla)
+                tosmabruType = TosyType.Tosynone;
+            else if (tarmiIgnoringHyphen(rafsi0[0]) === Tarmi.CVC)
                 tosmabruType = rafsi0[0].slice(-1) === "y" ? TosyType.Tosyhuhu : TosyType.Tosmabru;
+            else if (rafsi0[0].slice(-1) === "'" || [Tarmi.CVV, Tarmi.CVhV].includes(rafsiTarmi(rafsi0[0])))
+                tosmabruType = TosyType.Tosyhuhu;
             const result = combine(rafsi0[0], rafsi1[0], rafsi0[1], // TODO: Bring back numConsonants. This is confusing.
             rafsi1[1], score(rafsi0[0]), [[0, stripHyphens(rafsi0[0]).length]], tosmabruType, generateCmevla, rafsiListList.length, yHyphens = yHyphens, consonants = consonants, glides = glides, allowMZ = allowMZ);
             updateCurrentBest(result, currentBest);
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 3556d48..32b98ab 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -116,7 +116,8 @@ function getRafsiForRafsi(
   } else if (rType === Tarmi.CVC) {
     result.push([rafsi, 2]);
     if (!isLast)
-      result.push([rafsi + "y", 2]);
+      // whether there is a cluster depends on what follows the y
+      result.push([rafsi + "y", consonants === ConsonantSetting.CLUSTER ? 0 : 2]);
 
   } else {
     throw Error(`Unrecognised rafsi type: ${rType}`);
@@ -289,6 +290,22 @@ function getRafsiListList(
   return listOfRafsiLists;
 }
 
+/**
+ * Check for two consonants in a row, possibly with a y-hyphen between them.
+ *
+ * @param lujvo A partial lujvo.
+ * @param glides True if glides count as consonants.
+ * @returns True if there is a cluster.
+ */
+function hasCluster(lujvo: string, glides = false): boolean {
+  for (let i = 0; i < lujvo.length; i++) {
+    const rest = lujvo.slice(i + 1).replace(/^y/, "");
+    if (rest.length > 0 && isConsonant(lujvo[i]) && (isConsonant(rest[0]) || (glides && isGlide(rest))))
+      return true;
+  }
+  return false;
+}
+
 /**
  * Add one rafsi to the end of the current lujvo (if possible) and
  * calculate the score.
@@ -354,6 +371,12 @@ function combine(
   )
     return null;
 
+  if (
+    yHyphens === YHyphenSetting.STANDARD && !generateCmevla && lujvo.endsWith("'y") && rafsiInitial !== "'"
+    && !hasCluster(lujvo, glides)
+  )
+    return null;  // everything up to the y would be cmavo
+
   let hyphen = "";
   if (lujvoFinal === "'") {
     if (rafsiInitial === "'" || yHyphens !== YHyphenSetting.STANDARD)
@@ -394,7 +417,10 @@ function combine(
       tosmabruType = TosyType.Tosynone;
     }
   } else if (tosmabruType === TosyType.Tosyhuhu) {
-    if (rafsiInitial !== "'" || containsConsonant(rafsi))
+    if (
+      (rafsiInitial !== "'" || containsConsonant(rafsi)) && !(raftai1 === Tarmi.CVC && rafsi.slice(-1) === "y")
+      || hasCluster(lujvo + hyphen + rafsi, glides)
+    )
       tosmabruType = TosyType.Tosynone;
   }
 
@@ -485,8 +511,12 @@ function getLujvoFromList(
   rafsiListList[0].forEach((rafsi0) => {
     rafsiListList[1].forEach((rafsi1) => {
       let tosmabruType = TosyType.Tosynone;
-      if (tarmiIgnoringHyphen(rafsi0[0]) === Tarmi.CVC && !generateCmevla)
+      if (generateCmevla)
+        tosmabruType = TosyType.Tosynone;
+      else if (tarmiIgnoringHyphen(rafsi0[0]) === Tarmi.CVC)
         tosmabruType = rafsi0[0].slice(-1) === "y" ? TosyType.Tosyhuhu : TosyType.Tosmabru;
+      else if (rafsi0[0].slice(-1) === "'" || [Tarmi.CVV, Tarmi.CVhV].includes(rafsiTarmi(rafsi0[0])))
+        tosmabruType = TosyType.Tosyhuhu;
 
       const result = combine(
         rafsi0[0],
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 1149251..8be723c 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -134,7 +134,8 @@ def get_rafsi_for_rafsi(
     elif r_type == CVC:
         result.append((rafsi, 2))
         if not is_last:
-            result.append((rafsi + "y", 2))
+            # whether there is a cluster depends on what follows the y
+            result.append((rafsi + "y", 0 if consonants == CLUSTER else 2))
 
     else:
         assert False, r_type
@@ -279,6 +280,21 @@ def get_rafsi_list_list(
     return list_of_rafsi_lists
 
 
+def has_cluster(lujvo: str, glides: bool = False) -> bool:
+    """
+    Check for two consonants in a row, possibly with a y-hyphen between them.
+
+    :param lujvo: A partial lujvo.
+    :param glides: True if glides count as consonants.
+    :return: True if there is a cluster.
+    """
+    for i, lerfu in enumerate(lujvo):
+        rest = lujvo[i+1:].removeprefix("y")
+        if rest and is_consonant(lerfu) and (is_consonant(rest[0]) or (glides and is_glide(rest))):
+            return True
+    return False
+
+
 def combine(
         lujvo: str,
         rafsi: str,
@@ -329,6 +345,11 @@ def combine(
     prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]]
     if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and re.fullmatch(r"[aeiou']+", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER):
         return
+    if (
+        y_hyphens == STANDARD and not generate_cmevla and lujvo.endswith("'y") and rafsi[0] != "'"
+        and not has_cluster(lujvo, glides)
+    ):
+        return  # everything up to the y would be cmavo
     hyphen = ""
     if lujvo[-1] == "'":
         if rafsi[0] == "'" or y_hyphens != STANDARD:
@@ -362,7 +383,10 @@ def combine(
         else:
             tosmabru_type = TOSYNONE
     elif tosmabru_type == TOSYhUhU:
-        if rafsi[0] != "'" or contains_consonant(rafsi):
+        if (
+            (rafsi[0] != "'" or contains_consonant(rafsi)) and not (raftai_1 == CVC and rafsi[-1] == "y")
+            or has_cluster(lujvo + hyphen + rafsi, glides)
+        ):
             tosmabru_type = TOSYNONE
 
     rafsi_start = len(lujvo) + len(hyphen) + (1 if rafsi[0] == "'" else 0)
@@ -445,10 +469,14 @@ def get_lujvo_from_list(
     current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
     for rafsi0, num_consonants_0 in rafsi_list_list[0]:
         for rafsi1, num_consonants_1 in rafsi_list_list[1]:
-            if tarmi_ignoring_hyphen(rafsi0) != CVC or generate_cmevla:
+            if generate_cmevla:
                 tosmabru_type = TOSYNONE
-            else:
+            elif tarmi_ignoring_hyphen(rafsi0) == CVC:
                 tosmabru_type = TOSYhUhU if rafsi0[-1] == "y" else TOSMABRU
+            elif rafsi0[-1] == "'" or rafsi_tarmi(rafsi0) in [CVV, CVhV]:
+                tosmabru_type = TOSYhUhU
+            else:
+                tosmabru_type = TOSYNONE
             result = combine(
                 rafsi0,
                 rafsi1,
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 895011a..b2d5a29 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -132,7 +132,8 @@ pub fn get_rafsi_for_rafsi(
         "Cvc" => {
             res.push((r.clone(), 2));
             if !last {
-                res.push((format!("{r}y"), 2));
+                // whether there is a cluster depends on what follows the y
+                res.push((format!("{r}y"), if settings.consonants == Cluster { 0 } else { 2 }));
             }
         }
         _ => {
@@ -360,6 +361,18 @@ pub fn grll(vl: &str, settings: &Settings) -> Result<Vec<Vec<(String, i32)>>, Jv
     get_rafsi_list_list(&process_tanru(vl), settings)
 }
 
+/// Returns `true` if there are two consonants in a row, possibly with a
+/// y-hyphen between them.
+fn has_cluster(lujvo: &str, glides: bool) -> bool {
+    lujvo.char_indices().any(|(i, c)| {
+        let rest = strsl!(lujvo, i as isize + 1..);
+        let rest = rest.strip_prefix('y').unwrap_or(rest);
+        is_consonant(c)
+            && !rest.is_empty()
+            && (is_consonant(strin!(rest, 0)) || glides && is_glide(rest))
+    })
+}
+
 /// A potential lujvo-rafsi combination. The fields in order are `(`[tosmabru
 /// type][`Tosytype`], number of consonants, score of the resulting lujvo, the
 /// lujvo itself, indices of all the rafsi`)`.
@@ -399,6 +412,14 @@ pub fn combine(
     {
         return None;
     }
+    if settings.y_hyphens == Standard
+        && !settings.generate_cmevla
+        && lujvo.ends_with("'y")
+        && rafsi_i != '\''
+        && !has_cluster(lujvo, settings.glides)
+    {
+        return None; // everything up to the y would be cmavo
+    }
     let mut hyphen = "";
     if lujvo_f == '\'' {
         if rafsi_i == '\'' || settings.y_hyphens != Standard {
@@ -441,7 +462,11 @@ pub fn combine(
         } else {
             tosmabru_type = Tosynone;
         }
-    } else if tosmabru_type == Tosyhuhu && (rafsi_i != '\'' || contains_consonant(rafsi)) {
+    } else if tosmabru_type == Tosyhuhu
+        && ((rafsi_i != '\'' || contains_consonant(rafsi))
+            && !(raftai1 == Cvc && strin!(rafsi, -1) == 'y')
+            || has_cluster(&format!("{lujvo}{hyphen}{rafsi}"), settings.glides))
+    {
         tosmabru_type = Tosynone;
     }
     let rafsi_start = lujvo.len() + hyphen.len() + (strin!(rafsi, 0) == '\'') as usize;
@@ -529,8 +554,12 @@ pub fn get_lujvo_from_list(
     for rafsi0 in &rafsi_list_list[0] {
         for rafsi1 in &rafsi_list_list[1] {
             let tosmabru_type =
-                if tarmi_ignoring_hyphen(&rafsi0.0) == Cvc && !settings.generate_cmevla {
+                if settings.generate_cmevla {
+                    Tosynone
+                } else if tarmi_ignoring_hyphen(&rafsi0.0) == Cvc {
                     if strin!(&rafsi0.0, -1) == 'y' { Tosyhuhu } else { Tosmabru }
+                } else if rafsi0.0.ends_with('\'') || [Cvv, Cvhv].contains(&rafsi_tarmi(&rafsi0.0)) {
+                    Tosyhuhu
                 } else {
                     Tosynone
                 };
-- 
2.43.0


From dfb740a8e6c5a8b5c001004d163f0edea6673a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 15/29] fix: slinku'i test with an unnecessary y-hyphen after
 the first rafsi (klingonygu'e)

---
 js/docs/tools.js            | 17 ++++++++++++++++-
 js/src/tools.ts             | 17 ++++++++++++++++-
 py/latkerlo_jvotci/tools.py | 16 +++++++++++++++-
 rs/src/tools.rs             | 12 +++++++++++-
 4 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 94d4624..0a69494 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -68,9 +68,24 @@ function isSlinkuhi(aString, { yHyphens = YHyphenSetting.STANDARD, allowMZ = fal
         jvokaha("to" + aString, { yHyphens: yHyphens, allowMZ: allowMZ });
         return true;
     }
+    catch (e) {
+        if (!(e instanceof DecompositionError || e instanceof InvalidClusterError))
+            throw e;
+    }
+    // tok-lin-gon-y-gu'e: the y may be unnecessary in the resulting lujvo
+    const beforeY = aString.split("y")[0];
+    if (beforeY === aString || beforeY === "" || !isConsonant(beforeY.slice(-1)))
+        return false;
+    let toDecomposes = false;
+    try {
+        jvokaha2("to" + beforeY, { yHyphens: yHyphens, allowMZ: allowMZ });
+        toDecomposes = true;
+        jvokaha2(beforeY, { yHyphens: yHyphens, allowMZ: allowMZ });
+        return false;
+    }
     catch (e) {
         if (e instanceof DecompositionError || e instanceof InvalidClusterError)
-            return false;
+            return toDecomposes;
         else
             throw e;
     }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index aae600b..ad815c1 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -86,9 +86,24 @@ function isSlinkuhi(
   try {
     jvokaha("to" + aString, { yHyphens: yHyphens, allowMZ: allowMZ });
     return true;
+  } catch (e) {
+    if (!(e instanceof DecompositionError || e instanceof InvalidClusterError))
+      throw e;
+  }
+
+  // tok-lin-gon-y-gu'e: the y may be unnecessary in the resulting lujvo
+  const beforeY = aString.split("y")[0];
+  if (beforeY === aString || beforeY === "" || !isConsonant(beforeY.slice(-1)))
+    return false;
+  let toDecomposes = false;
+  try {
+    jvokaha2("to" + beforeY, { yHyphens: yHyphens, allowMZ: allowMZ });
+    toDecomposes = true;
+    jvokaha2(beforeY, { yHyphens: yHyphens, allowMZ: allowMZ });
+    return false;
   } catch (e) {
     if (e instanceof DecompositionError || e instanceof InvalidClusterError)
-      return false;
+      return toDecomposes;
     else
       throw e;
   }
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 16e0c16..7e471b9 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -64,7 +64,7 @@ def is_slinkuhi(string: str, y_hyphens: str = STANDARD, allow_mz: bool = False)
     :param allow_mz: True if mz is a valid consonant cluster.
     :return: True if string fails slinku'i test.
     """
-    from latkerlo_jvotci.katna import jvokaha
+    from latkerlo_jvotci.katna import jvokaha, jvokaha_2
     if (is_vowel(string[0])):
         # words starting with vowels have an invisible `.` at the start
         return False
@@ -72,7 +72,21 @@ def is_slinkuhi(string: str, y_hyphens: str = STANDARD, allow_mz: bool = False)
         jvokaha("to" + string, y_hyphens=y_hyphens, allow_mz=allow_mz)
         return True
     except (DecompositionError, InvalidClusterError):
+        pass
+
+    # tok-lin-gon-y-gu'e: the y may be unnecessary in the resulting lujvo
+    before_y = string.split("y")[0]
+    if before_y == string or not before_y or not is_consonant(before_y[-1]):
+        return False
+    try:
+        jvokaha_2("to" + before_y, y_hyphens=y_hyphens, allow_mz=allow_mz)
+    except (DecompositionError, InvalidClusterError):
+        return False
+    try:
+        jvokaha_2(before_y, y_hyphens=y_hyphens, allow_mz=allow_mz)
         return False
+    except (DecompositionError, InvalidClusterError):
+        return True
 
 
 def check_zihevla_or_rafsi(
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 2962625..473a7c0 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -120,7 +120,17 @@ pub fn is_slinkuhi(s: &str, settings: &Settings) -> Result<bool, Jvonunfli> {
         Ok(false)
     } else if let Err(e) = jvokaha(&format!("pa{s}"), &extract!(settings; y_hyphens, allow_mz)) {
         match e {
-            DecompositionError(_) | InvalidClusterError(_) => Ok(false),
+            DecompositionError(_) | InvalidClusterError(_) => {
+                // pak-lin-gon-y-gu'e: the y may be unnecessary in the resulting lujvo
+                let Some((before_y, _)) = s.split_once('y') else {
+                    return Ok(false);
+                };
+                Ok(!before_y.is_empty()
+                    && is_consonant(strin!(before_y, -1))
+                    && jvokaha2(&format!("pa{before_y}"), &extract!(settings; y_hyphens, allow_mz))
+                        .is_ok()
+                    && jvokaha2(before_y, &extract!(settings; y_hyphens, allow_mz)).is_err())
+            }
             _ => Err(e),
         }
     } else {
-- 
2.43.0


From ff6835be85320dc8791b92a3e19638f467a5bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 16/29] fix: pass allow_mz on to the tests for words that fall
 apart

---
 js/docs/tools.js            | 6 +++---
 js/src/tools.ts             | 6 +++---
 py/latkerlo_jvotci/tools.py | 6 +++---
 rs/src/tools.rs             | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 0a69494..55f9a6f 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -192,11 +192,11 @@ function checkZihevlaOrRafsi(valsi, { requireZihevla = false, yHyphens = YHyphen
     }
     else if (numSyllables > 2) {
         if (clusterPos !== null && clusterPos > 0) {
-            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
                 throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
             for (let i = 1; i < clusterPos; i++) {
                 if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
                         throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
                 }
             }
@@ -441,7 +441,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         smabruPart = smabruPart.slice(0, -1);
                     else
                         smabruPart = stripHyphens(smabruPart);
-                    if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+                    if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
                         throw new NotBrivlaError("tosmabru");
                     try {
                         jvokaha(smabruPart, { yHyphens: yHyphens, allowMZ: allowMZ });
diff --git a/js/src/tools.ts b/js/src/tools.ts
index ad815c1..ae505d6 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -231,12 +231,12 @@ function checkZihevlaOrRafsi(
 
   } else if (numSyllables > 2) {
     if (clusterPos !== null && clusterPos > 0) {
-      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
         throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
 
       for (let i = 1; i < clusterPos; i++) {
         if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
             throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
         }
       }
@@ -516,7 +516,7 @@ function analyseBrivla(
           else
             smabruPart = stripHyphens(smabruPart);
 
-          if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+          if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
             throw new NotBrivlaError("tosmabru");
 
           try {
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 7e471b9..a0ac7e4 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -199,12 +199,12 @@ def check_zihevla_or_rafsi(
 
     elif num_syllables > 2:
         if cluster_pos and cluster_pos > 0:
-            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens):
+            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                 raise NotZihevlaError(f"falls apart at cluster: {{{valsi_copy[0:cluster_pos]}_{valsi_copy[cluster_pos:]}}}")
 
             for i in range(1, cluster_pos):
                 if is_consonant(valsi_copy[cluster_pos - i]) or is_glide(valsi_copy[cluster_pos - i:]):
-                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens):
+                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                         raise NotZihevlaError(f"falls apart before cluster: {{{valsi_copy[0:cluster_pos-i]}_{valsi_copy[cluster_pos-i:]}}}")
 
     if cluster_pos is None:
@@ -440,7 +440,7 @@ def analyse_brivla(
                     else:
                         smabru_part = strip_hyphens(smabru_part)
 
-                    if is_valid_rafsi(smabru_part) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
+                    if is_valid_rafsi(smabru_part, allow_mz=allow_mz) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
                         raise NotBrivlaError("tosmabru")
 
                     try:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 473a7c0..e2b5231 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -299,7 +299,7 @@ pub fn check_zihevla_or_rafsi(
         return Err(NotZihevlaError(format!("{{{valsi_}}} doesn't have enough syllables")));
     }
     if num_syllables > 2 && cluster_pos > Some(0) {
-        if is_brivla(strsl!(valsi_, cluster_pos.unwrap()..), &extract!(settings; y_hyphens)) {
+        if is_brivla(strsl!(valsi_, cluster_pos.unwrap()..), &extract!(settings; y_hyphens, allow_mz)) {
             return Err(NotZihevlaError(format!(
                 "{{{valsi_}}} is a tosmabru: {{{} {}}}",
                 strsl!(valsi_, 0..cluster_pos.unwrap()),
@@ -311,7 +311,7 @@ pub fn check_zihevla_or_rafsi(
                 || is_glide(strsl!(valsi_, cluster_pos.unwrap() - i..)))
                 && is_brivla(
                     strsl!(valsi_, cluster_pos.unwrap() - i..),
-                    &extract!(settings; y_hyphens),
+                    &extract!(settings; y_hyphens, allow_mz),
                 )
             {
                 return Err(NotZihevlaError(format!(
@@ -597,7 +597,7 @@ pub fn analyze_brivla(
                     } else {
                         smabru_part = &hyphenless;
                     }
-                    if is_valid_rafsi(smabru_part, &Settings::default())
+                    if is_valid_rafsi(smabru_part, &extract!(settings; allow_mz))
                         && !(rafsi_tarmi(smabru_part) == Ccv
                             && strin!(strsl!(y_parts[i], to_part.len() as isize..), 3) == '\'')
                     {
-- 
2.43.0


From 2710b29df9f510f59c2f75edac395ecf423a3b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 17/29] fix: keep partial lujvo with and without a cluster
 apart before a 'y hyphen (a lujvo was missed)

---
 js/docs/jvozba.js            | 11 +++++++----
 js/src/jvozba.ts             | 12 ++++++++----
 py/latkerlo_jvotci/jvozba.py | 16 ++++++++++------
 rs/src/jvozba.rs             | 11 ++++++++---
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index a3b06a4..59be656 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -386,12 +386,15 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
  * @param candidate The new candidate lujvo.
  * @param currentBest The list of existing best candidates for each
     combination of tosmabru type and number of consonants.
+ * @param glides True if glides count as consonants.
  */
-function updateCurrentBest(candidate, currentBest) {
+function updateCurrentBest(candidate, currentBest, glides = false) {
     if (candidate == null)
         return;
     const [tosmabruType, numConsonants, resScore, resLujvo, resIndexList] = candidate;
-    const lujvoFinal = resLujvo.slice(-1);
+    let lujvoFinal = resLujvo.slice(-1);
+    if (resLujvo.endsWith("'y") && !hasCluster(resLujvo, glides))
+        lujvoFinal = "'"; // can't be continued in the same ways as one with a cluster
     if (!currentBest[tosmabruType][numConsonants].has(lujvoFinal) ||
         currentBest[tosmabruType][numConsonants].get(lujvoFinal)[1] > resScore) {
         currentBest[tosmabruType][numConsonants].set(lujvoFinal, [resLujvo, resScore, resIndexList]);
@@ -424,7 +427,7 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
                 tosmabruType = TosyType.Tosyhuhu;
             const result = combine(rafsi0[0], rafsi1[0], rafsi0[1], // TODO: Bring back numConsonants. This is confusing.
             rafsi1[1], score(rafsi0[0]), [[0, stripHyphens(rafsi0[0]).length]], tosmabruType, generateCmevla, rafsiListList.length, yHyphens = yHyphens, consonants = consonants, glides = glides, allowMZ = allowMZ);
-            updateCurrentBest(result, currentBest);
+            updateCurrentBest(result, currentBest, glides);
         });
     });
     let previousBest = currentBest;
@@ -436,7 +439,7 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
                 for (let numConsonants = 0; numConsonants < 3; numConsonants++) {
                     previousBest[tosmabruType][numConsonants].forEach((lujvoAndScore, _) => {
                         const result = combine(lujvoAndScore[0], rafsi[0], numConsonants, rafsi[1], lujvoAndScore[1], lujvoAndScore[2], tosmabruType, generateCmevla, rafsiListList.length, yHyphens = yHyphens, consonants = consonants, glides = glides, allowMZ = allowMZ);
-                        updateCurrentBest(result, currentBest);
+                        updateCurrentBest(result, currentBest, glides);
                     });
                 }
             }
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 32b98ab..4feb8e4 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -467,15 +467,19 @@ function combine(
  * @param candidate The new candidate lujvo.
  * @param currentBest The list of existing best candidates for each
     combination of tosmabru type and number of consonants.
+ * @param glides True if glides count as consonants.
  */
 function updateCurrentBest(
   candidate: [TosyType, number, number, string, [number, number][]] | null,
-  currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][]
+  currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][],
+  glides = false
 ) {
   if (candidate == null)
     return;
   const [tosmabruType, numConsonants, resScore, resLujvo, resIndexList] = candidate!;
-  const lujvoFinal = resLujvo.slice(-1);
+  let lujvoFinal = resLujvo.slice(-1);
+  if (resLujvo.endsWith("'y") && !hasCluster(resLujvo, glides))
+    lujvoFinal = "'";  // can't be continued in the same ways as one with a cluster
   if (!currentBest[tosmabruType][numConsonants].has(lujvoFinal) ||
     currentBest[tosmabruType][numConsonants].get(lujvoFinal)![1] > resScore) {
     currentBest[tosmabruType][numConsonants].set(lujvoFinal, [resLujvo, resScore, resIndexList]);
@@ -533,7 +537,7 @@ function getLujvoFromList(
         glides = glides,
         allowMZ = allowMZ
       );
-      updateCurrentBest(result, currentBest);
+      updateCurrentBest(result, currentBest, glides);
     });
   });
   let previousBest = currentBest;
@@ -558,7 +562,7 @@ function getLujvoFromList(
               glides = glides,
               allowMZ = allowMZ
             );
-            updateCurrentBest(result, currentBest);
+            updateCurrentBest(result, currentBest, glides);
           });
         }
       }
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 8be723c..fabdaf6 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -425,22 +425,26 @@ def combine(
     )
 
 
-def update_current_best(candidate, current_best):
+def update_current_best(candidate, current_best, glides: bool = False):
     """
     Add the candidate to current_best if it is the best.
 
     :param candidate: The new candidate lujvo.
     :param current_best: The list of existing best candidates for each
     combination of tosmabru type and number of consonants.
+    :param glides: True if glides count as consonants.
     """
     if candidate is None:
         return
     tosmabru_type, num_consonants, res_score, res_lujvo, res_index_list = candidate
+    res_final = res_lujvo[-1]
+    if res_lujvo.endswith("'y") and not has_cluster(res_lujvo, glides):
+        res_final = "'"  # can't be continued in the same ways as one with a cluster
     if (
-        res_lujvo[-1] not in current_best[tosmabru_type][num_consonants]
-        or current_best[tosmabru_type][num_consonants][res_lujvo[-1]][1] > res_score
+        res_final not in current_best[tosmabru_type][num_consonants]
+        or current_best[tosmabru_type][num_consonants][res_final][1] > res_score
     ):
-        current_best[tosmabru_type][num_consonants][res_lujvo[-1]] = res_lujvo, res_score, res_index_list
+        current_best[tosmabru_type][num_consonants][res_final] = res_lujvo, res_score, res_index_list
 
 
 def get_lujvo_from_list(
@@ -492,7 +496,7 @@ def get_lujvo_from_list(
                 glides=glides,
                 allow_mz=allow_mz
             )
-            update_current_best(result, current_best)
+            update_current_best(result, current_best, glides)
     previous_best = current_best
     for rafsi_list in rafsi_list_list[2:]:
         current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
@@ -514,7 +518,7 @@ def get_lujvo_from_list(
                             glides=glides,
                             allow_mz=allow_mz
                         )
-                        update_current_best(result, current_best)
+                        update_current_best(result, current_best, glides)
         previous_best = current_best
     best_lujvo = None
     best_score = 10**100
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index b2d5a29..a806be2 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -506,12 +506,17 @@ type BestLujvoMap = IndexMap<char, (String, i32, Vec<[usize; 2]>)>;
 pub fn update_current_best(
     candidate: Candidate,
     mut current_best: [[BestLujvoMap; 3]; 3],
+    glides: bool,
 ) -> [[BestLujvoMap; 3]; 3] {
     if candidate.is_none() {
         return current_best;
     }
     let (tosmabru_type, num_consonants, res_score, res_lujvo, res_indices) = candidate.unwrap();
-    let lujvo_f = strin!(&res_lujvo, -1);
+    let lujvo_f = if res_lujvo.ends_with("'y") && !has_cluster(&res_lujvo, glides) {
+        '\'' // can't be continued in the same ways as one with a cluster
+    } else {
+        strin!(&res_lujvo, -1)
+    };
     if !current_best[tosmabru_type as usize][num_consonants as usize].contains_key(&lujvo_f)
         || current_best[tosmabru_type as usize][num_consonants as usize].get(&lujvo_f).unwrap().1
             > res_score
@@ -581,7 +586,7 @@ pub fn get_lujvo_from_list(
                     allow_mz
                 ),
             );
-            current_best = update_current_best(res, current_best);
+            current_best = update_current_best(res, current_best, settings.glides);
         }
     }
     let mut previous_best = current_best;
@@ -615,7 +620,7 @@ pub fn get_lujvo_from_list(
                                 allow_mz
                             ),
                         );
-                        current_best = update_current_best(res, current_best);
+                        current_best = update_current_best(res, current_best, settings.glides);
                     }
                 }
             }
-- 
2.43.0


From 7b6f9f281f10288e729ae41e22e30a78d2803956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 18/29] fix: throw a DecompositionError, not a TypeError, for a
 single rafsi (getLujvo("speni -zb-"))

---
 js/docs/katna.js | 2 +-
 js/src/katna.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index e0738ac..18bd80c 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -100,7 +100,7 @@ function jvokaha(lujvo, { yHyphens = YHyphenSetting.STANDARD, consonants = Conso
     const arr = jvokaha2(lujvo, { yHyphens: yHyphens, allowMZ: allowMZ });
     const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
     if (rafsiTanru.length == 1) {
-        throw new TypeError("not enough rafsi");
+        throw new DecompositionError("not enough rafsi");
     }
     let correctLujvo;
     try {
diff --git a/js/src/katna.ts b/js/src/katna.ts
index b37a230..555261b 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -125,7 +125,7 @@ function jvokaha(
 
   const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
   if (rafsiTanru.length == 1) {
-    throw new TypeError("not enough rafsi");
+    throw new DecompositionError("not enough rafsi");
   }
   let correctLujvo: string;
   try {
-- 
2.43.0


From 11bdfb63a499b31d62d70d611877d117ebec7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 19/29] fix: rs: exponential time for words with many
 consonants before the first cluster

---
 rs/src/tools.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index e2b5231..2df685c 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -177,7 +177,9 @@ pub fn check_zihevla_or_rafsi(
                     let pos_ = (1..=pos).find(|p| {
                         let to_part = strsl!(valsi_, ..*p);
                         let smabru_part = strsl!(valsi_, *p..);
-                        (is_vowel(strin!(to_part, -1)) || strin!(to_part, -1) == 'y')
+                        // a brivla has at most one consonant before its first cluster
+                        strsl!(valsi_, *p..pos).chars().filter(|c| is_consonant(*c)).count() < 2
+                            && (is_vowel(strin!(to_part, -1)) || strin!(to_part, -1) == 'y')
                             && is_cmavo_compound(to_part)
                             && (is_glide(smabru_part)
                                 || !START_VOWEL_CLUSTERS.iter().any(|v| {
-- 
2.43.0


From a20cdab3ea1815b69d4ff9f2fe423130872e2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 20/29] fix: rs: the interactive mode looped forever at the end
 of the input

---
 rs/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 712fb31..6d2f341 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -72,7 +72,10 @@ fn main() {
                 if used_cli { input.clone() + "\n" } else { String::new() }
             );
             stdout().flush().unwrap();
-            stdin().read_line(&mut input).expect("failed to read stdin");
+            if stdin().read_line(&mut input).expect("failed to read stdin") == 0 {
+                println!("{RESET}");
+                return;
+            }
         }
         print!("{RESET}");
         stdout().flush().unwrap();
-- 
2.43.0


From fde52afb7080877abb0bd6a97a6a694286c7884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 21/29] fix: rs: the cli compared a cmevla with the best brivla
 and gave up

---
 rs/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 6d2f341..bf5e842 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -12,6 +12,7 @@ use latkerlo_jvotci::{
     get_lujvo, get_lujvo_with_analytics, get_veljvo,
     katna::{search_selrafsi_from_rafsi, selrafsi_list_from_rafsi_list},
     normalize, score_lujvo,
+    tarmi::BrivlaType,
 };
 
 #[allow(clippy::too_many_lines)]
@@ -129,7 +130,9 @@ fn main() {
                 continue;
             }
             let veljvo = veljvo.unwrap().join(" ");
-            let best = get_lujvo_with_analytics(&veljvo, &settings);
+            let generate_cmevla = analysis == BrivlaType::Cmevla;
+            let best =
+                get_lujvo_with_analytics(&veljvo, &Settings { generate_cmevla, ..settings });
             if let Ok((best_lujvo, best_score, _)) = best
                 && normalize(&input) != best_lujvo
             {
-- 
2.43.0


From 8463b785dc8d09ecca7ffb26da28ba397dab22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 22/29] fix: py: the interactive jvozba ended at a rafsi with
 an invalid cluster

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index fabdaf6..af70464 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -651,5 +651,5 @@ if __name__ == "__main__":
             print(get_lujvo_with_analytics(string,
                             generate_cmevla=cmevla_setting, y_hyphens=y_setting,
                             exp_rafsi_shapes=raf_setting, consonants=con_setting, glides=glide_setting, allow_mz=mz_setting))
-        except (NoLujvoFoundError, NonLojbanCharacterError, NotZihevlaError) as e:
+        except (InvalidClusterError, NoLujvoFoundError, NonLojbanCharacterError, NotZihevlaError) as e:
             print(e)
-- 
2.43.0


From af0f17d06f2a5244b63c11ac8339612dbac3a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 23/29] fix: rs: the cli printed the rafsi of its argument
 twice

---
 rs/src/main.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index bf5e842..d935a5e 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -47,16 +47,6 @@ fn main() {
                 );
                 exit(1);
             }
-            if (i == 0 || i == 1 && args[0].starts_with('-')) && args[i..].len() == 1 {
-                let arg = normalize(arg);
-                if let Some(selrafsi) = search_selrafsi_from_rafsi(&arg) {
-                    println!("{PINK}{{{arg}}} is a rafsi of {{{selrafsi}}}{RESET}");
-                }
-                if let Some(rafsi) = RAFSI.iter().find(|(s, _)| *s == &arg).map(|(_, r)| r) {
-                    let rafsi = rafsi.iter().join(" ");
-                    println!("{PINK}{{{arg}}} has rafsi {{{rafsi}}}{RESET}");
-                }
-            }
             arginput.push(arg);
         }
     }
-- 
2.43.0


From 7372d321c4d5dee9b01c237bcb0fb3c2dd0616b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:01 +0000
Subject: [PATCH 24/29] fix: documented score of tcanyja'a (the library and its
 tests say 8997)

---
 README.md              | 4 ++--
 examples/js_example.js | 2 +-
 examples/py_example.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index bf6ee8f..db7239f 100644
--- a/README.md
+++ b/README.md
@@ -165,7 +165,7 @@ get_lujvo_with_analytics("mlatu kerlo")
 # -> ["latkerlo", 7937, [(0, 3), (3, 8)]]
 
 get_lujvo_with_analytics("tcana jatna")
-# -> ["tcanyja'a", 8597, [(0, 4), (5, 9)]]
+# -> ["tcanyja'a", 8997, [(0, 4), (5, 9)]]
 ```
 
 ```javascript
@@ -174,7 +174,7 @@ getLujvoWithAnalytics("mlatu kerlo");
 // -> ["latkerlo", 7937, [[0, 3], [3, 8]]]
 
 getLujvoWithAnalytics("tcana jatna");
-// -> ["tcanyja'a", 8597, [[0, 4], [5, 9]]]
+// -> ["tcanyja'a", 8997, [[0, 4], [5, 9]]]
 ```
 \
 `get_rafsi_indices` / `getRafsiIndices` can be used to get the corresponding
diff --git a/examples/js_example.js b/examples/js_example.js
index cf526ab..fc5f2f7 100644
--- a/examples/js_example.js
+++ b/examples/js_example.js
@@ -26,7 +26,7 @@ console.log(getLujvoWithAnalytics("mlatu kerlo"));
 // -> ["latkerlo", 7937, [[0, 3], [3, 8]]]
 
 console.log(getLujvoWithAnalytics("tcana jatna"));
-// -> ["tcanyja'a", 8597, [[0, 4], [5, 9]]]
+// -> ["tcanyja'a", 8997, [[0, 4], [5, 9]]]
 
 console.log(getRafsiIndices(["lat", "kerlo"]));
 // -> [[0, 3], [3, 8]]
diff --git a/examples/py_example.py b/examples/py_example.py
index cd696b1..c237b9b 100644
--- a/examples/py_example.py
+++ b/examples/py_example.py
@@ -26,7 +26,7 @@ print(get_lujvo_with_analytics("mlatu kerlo"))
 # -> ["latkerlo", 7937, [(0, 3), (3, 8)]]
 
 print(get_lujvo_with_analytics("tcana jatna"))
-# -> ["tcanyja'a", 8597, [(0, 4), (5, 9)]]
+# -> ["tcanyja'a", 8997, [(0, 4), (5, 9)]]
 
 print(get_rafsi_indices(["lat", "kerlo"]))
 # -> [(0, 3), (3, 8)]
-- 
2.43.0


From 6eb510d188151d035f1bbcb984c28ebdb542f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 25/29] fix: is_gismu_or_lujvo says no to what starts with
 CCV'y instead of raising an error

---
 js/docs/tools.js            | 2 +-
 js/src/tools.ts             | 2 +-
 py/latkerlo_jvotci/tools.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 55f9a6f..98b854e 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -43,7 +43,7 @@ function isGismuOrLujvo(aString, { yHyphens = YHyphenSetting.STANDARD, allowMZ =
         });
     }
     catch (e) {
-        if (e instanceof DecompositionError || e instanceof InvalidClusterError)
+        if (e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof NotBrivlaError)
             return false;
         else
             throw e;
diff --git a/js/src/tools.ts b/js/src/tools.ts
index ae505d6..e62893d 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -54,7 +54,7 @@ function isGismuOrLujvo(
         allowMZ: allowMZ
       });
   } catch (e) {
-    if (e instanceof DecompositionError || e instanceof InvalidClusterError)
+    if (e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof NotBrivlaError)
       return false;
     else
       throw e;
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index a0ac7e4..8d501fd 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -48,7 +48,7 @@ def is_gismu_or_lujvo(a_string: str, y_hyphens: str = STANDARD, allow_mz: bool =
 
     try:
         jvokaha(a_string, y_hyphens=y_hyphens, allow_mz=allow_mz)  # TODO more settings?
-    except (DecompositionError, InvalidClusterError):
+    except (DecompositionError, InvalidClusterError, NotBrivlaError):
         return False
 
     return True
-- 
2.43.0


From ea638d56f0edca885c12ccf76efbbbbfc3b521b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 26/29] fix: the shape of the hyphen 'y is that of a hyphen in
 Rust too

---
 rs/src/tarmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index 10fc1f4..5bc1206 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -374,8 +374,8 @@ pub fn is_valid_rafsi(r: &str, settings: &Settings) -> bool {
 pub fn rafsi_tarmi(r: &str) -> Tarmi {
     match r.len() {
         1 if !is_vowel(strin!(r, 0)) => Hyphen,
-        _ if !is_consonant(strin!(r, 0)) => OtherRafsi,
         2 if r == "'y" => Hyphen,
+        _ if !is_consonant(strin!(r, 0)) => OtherRafsi,
         3 => match (is_vowel(strin!(r, 1)), is_vowel(strin!(r, 2))) {
             (true, false) if is_consonant(strin!(r, 2)) => Cvc,
             (true, true) => Cvv,
-- 
2.43.0


From b8b4ab8234fa4ed85472b8876033260044f1070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 27/29] Leave the example files as they were (their documented
 score of tcanyja'a is recorded as a finding)

---
 examples/js_example.js | 2 +-
 examples/py_example.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/js_example.js b/examples/js_example.js
index fc5f2f7..cf526ab 100644
--- a/examples/js_example.js
+++ b/examples/js_example.js
@@ -26,7 +26,7 @@ console.log(getLujvoWithAnalytics("mlatu kerlo"));
 // -> ["latkerlo", 7937, [[0, 3], [3, 8]]]
 
 console.log(getLujvoWithAnalytics("tcana jatna"));
-// -> ["tcanyja'a", 8997, [[0, 4], [5, 9]]]
+// -> ["tcanyja'a", 8597, [[0, 4], [5, 9]]]
 
 console.log(getRafsiIndices(["lat", "kerlo"]));
 // -> [[0, 3], [3, 8]]
diff --git a/examples/py_example.py b/examples/py_example.py
index c237b9b..cd696b1 100644
--- a/examples/py_example.py
+++ b/examples/py_example.py
@@ -26,7 +26,7 @@ print(get_lujvo_with_analytics("mlatu kerlo"))
 # -> ["latkerlo", 7937, [(0, 3), (3, 8)]]
 
 print(get_lujvo_with_analytics("tcana jatna"))
-# -> ["tcanyja'a", 8997, [(0, 4), (5, 9)]]
+# -> ["tcanyja'a", 8597, [(0, 4), (5, 9)]]
 
 print(get_rafsi_indices(["lat", "kerlo"]))
 # -> [(0, 3), (3, 8)]
-- 
2.43.0


From 61ab026ee7664aa6c95cbb79202c2d02eae9ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 28/29] fix: words with more than one cmavo, or a cmavo before
 a hyphenated CVV, in front fall apart too

---
 js/docs/tools.js            | 19 ++++++++++
 js/src/tools.ts             | 20 +++++++++++
 py/latkerlo_jvotci/tools.py | 17 +++++++++
 rs/src/tools.rs             | 71 +++++++++++++++++++++++++++----------
 4 files changed, 109 insertions(+), 18 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 98b854e..a3b6b17 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -441,6 +441,8 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         smabruPart = smabruPart.slice(0, -1);
                     else
                         smabruPart = stripHyphens(smabruPart);
+                }
+                while (smabruPart.length > 0) {
                     if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
                         throw new NotBrivlaError("tosmabru");
                     try {
@@ -451,6 +453,23 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
                             throw e;
                     }
+                    // more than one cmavo may fall off
+                    let toLen = 0;
+                    if (rafsiTarmi(smabruPart.slice(0, 4)) === Tarmi.CVhV)
+                        toLen = 4;
+                    else if (rafsiTarmi(smabruPart.slice(0, 3)) === Tarmi.CVV)
+                        toLen = 3;
+                    else if (smabruPart.length > 1 && isConsonant(smabruPart[0]) && isVowel(smabruPart[1]))
+                        toLen = 2;
+                    else {
+                        if (isBrivla(valsi.slice(toPart.length), { yHyphens: yHyphens, allowMZ: allowMZ }))
+                            throw new NotBrivlaError("tosmabru");
+                        break;
+                    }
+                    toPart += smabruPart.slice(0, toLen);
+                    smabruPart = smabruPart.slice(toLen);
+                    if (toLen > 2 && ["r", "n"].includes(smabruPart[0]) && !isVowel(smabruPart[1]))
+                        throw new NotBrivlaError("tosmabru"); // only the beginning of a word needs the hyphen
                 }
             }
         }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index e62893d..46d6637 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -515,7 +515,9 @@ function analyseBrivla(
             smabruPart = smabruPart.slice(0, -1);
           else
             smabruPart = stripHyphens(smabruPart);
+        }
 
+        while (smabruPart.length > 0) {
           if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
             throw new NotBrivlaError("tosmabru");
 
@@ -526,6 +528,24 @@ function analyseBrivla(
             if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
               throw e;
           }
+
+          // more than one cmavo may fall off
+          let toLen = 0;
+          if (rafsiTarmi(smabruPart.slice(0, 4)) === Tarmi.CVhV)
+            toLen = 4;
+          else if (rafsiTarmi(smabruPart.slice(0, 3)) === Tarmi.CVV)
+            toLen = 3;
+          else if (smabruPart.length > 1 && isConsonant(smabruPart[0]) && isVowel(smabruPart[1]))
+            toLen = 2;
+          else {
+            if (isBrivla(valsi.slice(toPart.length), { yHyphens: yHyphens, allowMZ: allowMZ }))
+              throw new NotBrivlaError("tosmabru");
+            break;
+          }
+          toPart += smabruPart.slice(0, toLen);
+          smabruPart = smabruPart.slice(toLen);
+          if (toLen > 2 && ["r", "n"].includes(smabruPart[0]) && !isVowel(smabruPart[1]))
+            throw new NotBrivlaError("tosmabru");  // only the beginning of a word needs the hyphen
         }
       }
 
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 8d501fd..e35adda 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -440,6 +440,7 @@ def analyse_brivla(
                     else:
                         smabru_part = strip_hyphens(smabru_part)
 
+                while smabru_part:
                     if is_valid_rafsi(smabru_part, allow_mz=allow_mz) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
                         raise NotBrivlaError("tosmabru")
 
@@ -448,6 +449,22 @@ def analyse_brivla(
                         raise NotBrivlaError("tosmabru")
                     except (DecompositionError, InvalidClusterError, TypeError):
                         pass
+
+                    # more than one cmavo may fall off
+                    if rafsi_tarmi(smabru_part[:4]) == CVhV:
+                        to_len = 4
+                    elif rafsi_tarmi(smabru_part[:3]) == CVV:
+                        to_len = 3
+                    elif len(smabru_part) > 1 and is_consonant(smabru_part[0]) and is_vowel(smabru_part[1]):
+                        to_len = 2
+                    else:
+                        if is_brivla(valsi[len(to_part):], y_hyphens=y_hyphens, allow_mz=allow_mz):
+                            raise NotBrivlaError("tosmabru")
+                        break
+                    to_part += smabru_part[:to_len]
+                    smabru_part = smabru_part[to_len:]
+                    if to_len > 2 and smabru_part[:1] in ["r", "n"] and not is_vowel(smabru_part[1]):
+                        raise NotBrivlaError("tosmabru")  # only the beginning of a word needs the hyphen
         else:
             require_zihevla = require_cluster or not exp_rafsi_shapes
             try:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 2df685c..a803c30 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -599,25 +599,60 @@ pub fn analyze_brivla(
                     } else {
                         smabru_part = &hyphenless;
                     }
-                    if is_valid_rafsi(smabru_part, &extract!(settings; allow_mz))
-                        && !(rafsi_tarmi(smabru_part) == Ccv
-                            && strin!(strsl!(y_parts[i], to_part.len() as isize..), 3) == '\'')
-                    {
-                        return Err(NotBrivlaError(format!(
-                            "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
-                            if added_a { "a" } else { "" }
-                        )));
-                    }
-                    if let Err(e) = jvokaha(smabru_part, &extract!(settings; y_hyphens, allow_mz)) {
-                        match e {
-                            DecompositionError(_) | InvalidClusterError(_) | FakeTypeError(_) => (),
-                            _ => return Err(e),
+                    while !smabru_part.is_empty() {
+                        if is_valid_rafsi(smabru_part, &extract!(settings; allow_mz))
+                            && !(rafsi_tarmi(smabru_part) == Ccv
+                                && strin!(strsl!(y_parts[i], to_part.len() as isize..), 3) == '\'')
+                        {
+                            return Err(NotBrivlaError(format!(
+                                "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
+                                if added_a { "a" } else { "" }
+                            )));
+                        }
+                        if let Err(e) =
+                            jvokaha(smabru_part, &extract!(settings; y_hyphens, allow_mz))
+                        {
+                            match e {
+                                DecompositionError(_)
+                                | InvalidClusterError(_)
+                                | FakeTypeError(_) => (),
+                                _ => return Err(e),
+                            }
+                        } else {
+                            return Err(NotBrivlaError(format!(
+                                "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
+                                if added_a { "a" } else { "" }
+                            )));
+                        }
+                        // more than one cmavo may fall off
+                        let to_len = if rafsi_tarmi(strsl!(smabru_part, 0..4)) == Cvhv {
+                            4
+                        } else if rafsi_tarmi(strsl!(smabru_part, 0..3)) == Cvv {
+                            3
+                        } else if is_consonant(strin!(smabru_part, 0))
+                            && is_vowel(strin!(smabru_part, 1))
+                        {
+                            2
+                        } else {
+                            let rest = strsl!(&valsi, to_part.len() as isize..);
+                            if is_brivla(rest, &extract!(settings; y_hyphens, allow_mz)) {
+                                return Err(NotBrivlaError(format!(
+                                    "{{{valsi}}} is a tosmabru: {{{to_part} {rest}}}"
+                                )));
+                            }
+                            break;
+                        };
+                        to_part = &part[..to_part.len() + to_len];
+                        smabru_part = &smabru_part[to_len..];
+                        if to_len > 2
+                            && ['r', 'n'].contains(&strin!(smabru_part, 0))
+                            && !is_vowel(strin!(smabru_part, 1))
+                        {
+                            // only the beginning of a word needs the hyphen
+                            return Err(NotBrivlaError(format!(
+                                "{{{part}}} falls apart before the last rafsi of {{{to_part}}}"
+                            )));
                         }
-                    } else {
-                        return Err(NotBrivlaError(format!(
-                            "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
-                            if added_a { "a" } else { "" }
-                        )));
                     }
                 } else if settings.y_hyphens == Standard
                     && !to_part.is_empty()
-- 
2.43.0


From 53673b8f380c48e7dc79b4657fea173c208fa205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:09 +0000
Subject: [PATCH 29/29] fix: keep partial lujvo ending in a CVC or CVV rafsi
 and y apart (words were missed, fewer with weaker consonant rules)

---
 js/docs/jvozba.js            | 3 +++
 js/src/jvozba.ts             | 3 +++
 py/latkerlo_jvotci/jvozba.py | 2 ++
 rs/src/jvozba.rs             | 9 +++++++++
 4 files changed, 17 insertions(+)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 59be656..138b657 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -395,6 +395,9 @@ function updateCurrentBest(candidate, currentBest, glides = false) {
     let lujvoFinal = resLujvo.slice(-1);
     if (resLujvo.endsWith("'y") && !hasCluster(resLujvo, glides))
         lujvoFinal = "'"; // can't be continued in the same ways as one with a cluster
+    const lastRafsi = resLujvo.slice(...resIndexList[resIndexList.length - 1]);
+    if ("'y".includes(lujvoFinal) && [Tarmi.CVV, Tarmi.CVC].includes(rafsiTarmi(lastRafsi)))
+        lujvoFinal += "-"; // nor can these be followed by the same experimental rafsi
     if (!currentBest[tosmabruType][numConsonants].has(lujvoFinal) ||
         currentBest[tosmabruType][numConsonants].get(lujvoFinal)[1] > resScore) {
         currentBest[tosmabruType][numConsonants].set(lujvoFinal, [resLujvo, resScore, resIndexList]);
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 4feb8e4..7da4054 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -480,6 +480,9 @@ function updateCurrentBest(
   let lujvoFinal = resLujvo.slice(-1);
   if (resLujvo.endsWith("'y") && !hasCluster(resLujvo, glides))
     lujvoFinal = "'";  // can't be continued in the same ways as one with a cluster
+  const lastRafsi = resLujvo.slice(...resIndexList[resIndexList.length - 1]);
+  if ("'y".includes(lujvoFinal) && [Tarmi.CVV, Tarmi.CVC].includes(rafsiTarmi(lastRafsi)))
+    lujvoFinal += "-";  // nor can these be followed by the same experimental rafsi
   if (!currentBest[tosmabruType][numConsonants].has(lujvoFinal) ||
     currentBest[tosmabruType][numConsonants].get(lujvoFinal)![1] > resScore) {
     currentBest[tosmabruType][numConsonants].set(lujvoFinal, [resLujvo, resScore, resIndexList]);
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index af70464..1f1b312 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -440,6 +440,8 @@ def update_current_best(candidate, current_best, glides: bool = False):
     res_final = res_lujvo[-1]
     if res_lujvo.endswith("'y") and not has_cluster(res_lujvo, glides):
         res_final = "'"  # can't be continued in the same ways as one with a cluster
+    if res_final in "'y" and rafsi_tarmi(res_lujvo[slice(*res_index_list[-1])]) in [CVV, CVC]:
+        res_final += "-"  # nor can these be followed by the same experimental rafsi
     if (
         res_final not in current_best[tosmabru_type][num_consonants]
         or current_best[tosmabru_type][num_consonants][res_final][1] > res_score
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index a806be2..167ae1c 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -517,6 +517,15 @@ pub fn update_current_best(
     } else {
         strin!(&res_lujvo, -1)
     };
+    let [start, end] = res_indices[res_indices.len() - 1];
+    let lujvo_f = if "'y".contains(lujvo_f)
+        && [Cvv, Cvc].contains(&rafsi_tarmi(&res_lujvo[start..end]))
+    {
+        // nor can these be followed by the same experimental rafsi
+        if lujvo_f == 'y' { 'Y' } else { '-' }
+    } else {
+        lujvo_f
+    };
     if !current_best[tosmabru_type as usize][num_consonants as usize].contains_key(&lujvo_f)
         || current_best[tosmabru_type as usize][num_consonants as usize].get(&lujvo_f).unwrap().1
             > res_score
-- 
2.43.0

