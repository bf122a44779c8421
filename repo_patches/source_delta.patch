From 1c5689a436c786d00931c15566ece5bd4b85eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 01/10] fix: keep matched ranges covering everything inserted
 into them

Inserting a range reaching past the end of the range it overlaps, or
spanning several existing ranges, dropped part of the inserted range.
---
 src/matched_ranges.rs | 152 +++++++++++-------------------------------
 1 file changed, 38 insertions(+), 114 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 664ad61..5daa605 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -75,151 +75,75 @@ impl<'a> MatchedRanges<'a> {
 
             // The range at `idx` and the new range have the same start.
             Ok(idx) => {
-                let (range, next_range) = {
-                    let (left, right) = self.split_at_mut(idx + 1);
-                    (&mut left[idx], right.get_mut(0))
-                };
-
-                if range.end >= new_range.end {
-                    // The new range is completely contained within this
-                    // existing range.
-                    return;
-                }
-
-                if let Some(next_range) = next_range {
-                    if new_range.end >= next_range.start {
-                        // The new range fills the gap between this range and
-                        // the next one.
-                        range.end = next_range.end;
-                        self.remove(idx + 1);
-                        return;
-                    }
-                }
-
-                range.end = new_range.end;
-
+                self.extend_end(idx, new_range.end);
                 return;
             },
         };
 
-        if insert_idx == 0 {
-            let Some(first_range) = self.get_mut(0) else {
-                // This is the first range.
-                self.push(new_range);
-                return;
-            };
-
-            if new_range.end >= first_range.start {
-                first_range.start = new_range.start;
-            } else {
-                self.insert_at(0, new_range);
-            }
-
-            return;
-        }
-
-        if insert_idx == self.len() {
-            let last_range = self.last_mut().unwrap();
-
-            if new_range.start <= last_range.end {
-                last_range.end = last_range.end.max(new_range.end);
-            } else {
-                self.push(new_range);
-            }
-
-            return;
-        }
+        if insert_idx > 0 {
+            let prev_idx = insert_idx - 1;
 
-        let (prev_range, next_range) = {
-            let (left, right) = self.split_at_mut(insert_idx);
-            (&mut left[insert_idx - 1], &mut right[0])
-        };
-
-        match (
-            new_range.start <= prev_range.end,
-            new_range.end >= next_range.start,
-        ) {
-            // The new range fills the gap between two existing ranges, so
-            // we merge them.
-            //
-            // ------   ------    =>    ---------------
-            //     xxxxxxx
-            (true, true) => {
-                prev_range.end = next_range.end;
-                self.remove(insert_idx);
-            },
-
-            // The new range starts within an existing range but ends before
-            // the next one starts, so we extend the end of the existing range.
+            // The new range starts within (or right at the end of) an existing
+            // range, so we extend the end of the existing range.
             //
             // ------    ------    =>    --------  ------
             //     xxxx
-            (true, false) if new_range.end > prev_range.end => {
-                prev_range.end = new_range.end;
-            },
+            if new_range.start <= self.ranges[self.initial_len + prev_idx].end
+            {
+                self.extend_end(prev_idx, new_range.end);
+                return;
+            }
+        }
 
-            // The new range ends within an existing range but starts after
-            // the previous one ends, so we extend the start of the existing
-            // range.
+        match self.get_mut(insert_idx) {
+            // The new range reaches the next range but starts after the
+            // previous one ends, so we extend the start of the existing range.
             //
             // ------    ------    =>    ------  --------
             //         xxxx
-            (false, true) => {
+            Some(next_range) if new_range.end >= next_range.start => {
                 next_range.start = new_range.start;
+                self.extend_end(insert_idx, new_range.end);
             },
 
             // The new range is strictly within an existing gap, so we just
             // insert it.
             // ------         ------    =>   ------  -----  ------
             //         xxxxx
-            (false, false) => {
-                self.insert_at(insert_idx, new_range);
-            },
-
-            _ => {},
+            _ => self.insert_at(insert_idx, new_range),
         }
     }
 
-    /// TODO: docs
+    /// Extends the end of the range at `idx` up to (at least) `new_end`,
+    /// merging into it all the following ranges that it now reaches.
+    ///
+    /// ------   ---   ------    =>    ----------------
+    ///     xxxxxxxxxxxx
     #[inline(always)]
-    fn insert_at(&mut self, idx: usize, range: Range<usize>) {
-        self.ranges.insert(self.initial_len + idx, range);
-    }
+    fn extend_end(&mut self, idx: usize, new_end: usize) {
+        let idx = self.initial_len + idx;
 
-    /// TODO: docs
-    #[inline(always)]
-    fn last_mut(&mut self) -> Option<&mut Range<usize>> {
-        self.ranges.last_mut()
-    }
+        let mut end = self.ranges[idx].end.max(new_end);
 
-    /// TODO: docs
-    #[inline(always)]
-    fn len(&self) -> usize {
-        self.ranges.len() - self.initial_len
-    }
+        let mut next_idx = idx + 1;
 
-    /// TODO: docs
-    #[inline(always)]
-    fn push(&mut self, range: Range<usize>) {
-        self.ranges.push(range);
-    }
+        while let Some(next_range) = self.ranges.get(next_idx) {
+            if end < next_range.start {
+                break;
+            }
+            end = end.max(next_range.end);
+            next_idx += 1;
+        }
 
-    /// TODO: docs
-    #[inline(always)]
-    fn remove(&mut self, idx: usize) -> Range<usize> {
-        self.ranges.remove(self.initial_len + idx)
+        self.ranges[idx].end = end;
+
+        self.ranges.drain(idx + 1..next_idx);
     }
 
     /// TODO: docs
     #[inline(always)]
-    fn split_at_mut(
-        &mut self,
-        idx: usize,
-    ) -> (&mut [Range<usize>], &mut [Range<usize>]) {
-        let len = self.initial_len;
-        let (left, right) = self.ranges.split_at_mut(len + idx);
-        let left = &mut left[len..];
-        (left, right)
+    fn insert_at(&mut self, idx: usize, range: Range<usize>) {
+        self.ranges.insert(self.initial_len + idx, range);
     }
 }
 
-- 
2.43.0


From d21662deb961328509f1c28d596827dcd8d6c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 02/10] fix: make FzfV2 score and report the whole query across
 long gaps

Scores went negative instead of stopping at zero in gaps, and the best
score was picked among all the prefixes of the query. With gaps long
enough the score and the ranges were those of a prefix of the query.
---
 src/metrics/fzf/fzf_v2.rs | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 7b4061d..27d83c9 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -399,7 +399,7 @@ fn score<'scoring, 'consecutive>(
     let mut consecutive_matrix =
         consecutive_slab.alloc(matrix_width, matrix_height);
 
-    let (max_score, max_score_cell) = score_first_row(
+    score_first_row(
         scoring_matrix.row_mut(0),
         consecutive_matrix.row_mut(0),
         pattern.char(0),
@@ -414,8 +414,6 @@ fn score<'scoring, 'consecutive>(
         candidate,
         scheme,
         matches,
-        max_score,
-        max_score_cell,
     );
 
     (scoring_matrix, consecutive_matrix, max_score, max_score_cell)
@@ -429,13 +427,9 @@ fn score_first_row(
     first_pattern_char: char,
     candidate: &mut CandidateV2,
     scheme: &Scheme,
-) -> (Score, MatrixCell) {
-    let mut max_score: Score = 0;
-
+) {
     let mut prev_score: Score = 0;
 
-    let mut max_score_col: usize = 0;
-
     let mut column = 0;
 
     let mut penalty = penalty::GAP_START;
@@ -444,7 +438,7 @@ fn score_first_row(
         penalty = penalty::GAP_START;
 
         for col in column + 1..char_offset {
-            let score = prev_score.saturating_sub(penalty);
+            let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
             prev_score = score;
             penalty = penalty::GAP_EXTENSION;
@@ -460,22 +454,15 @@ fn score_first_row(
 
         scores_first_row[column] = score;
 
-        if score > max_score {
-            max_score = score;
-            max_score_col = column;
-        }
-
         prev_score = score;
     }
 
     for col in column + 1..scores_first_row.len() {
-        let score = prev_score.saturating_sub(penalty);
+        let score = (prev_score - penalty).max(0);
         scores_first_row[col] = score;
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
     }
-
-    (max_score, MatrixCell(max_score_col))
 }
 
 /// TODO: docs
@@ -487,14 +474,20 @@ fn score_remaining_rows(
     candidate: &mut CandidateV2,
     scheme: &Scheme,
     matches: &[usize],
-    mut max_score: Score,
-    mut max_score_cell: MatrixCell,
 ) -> (Score, MatrixCell) {
+    let mut max_score: Score = 0;
+
+    let mut max_score_cell = MatrixCell(0);
+
     let matrix_width = scores.width();
 
     for row_idx in 1..scores.height() {
         let pattern_char = pattern.char(row_idx);
 
+        // Only a cell in the last row scores an alignment of the whole
+        // pattern.
+        let is_last_row = row_idx + 1 == scores.height();
+
         let (prev_scores_row, scores_row) =
             scores.two_rows_mut(row_idx - 1, row_idx);
 
@@ -514,14 +507,14 @@ fn score_remaining_rows(
 
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
-                let score = score_left.saturating_sub(penalty);
+                let score = (score_left - penalty).max(0);
                 scores_row[col] = score;
                 penalty = penalty::GAP_EXTENSION;
             }
 
             column = char_offset;
 
-            let score_left = scores_row[column - 1].saturating_sub(penalty);
+            let score_left = (scores_row[column - 1] - penalty).max(0);
 
             let mut score_up_left = prev_scores_row[column - 1] + bonus::MATCH;
 
@@ -548,7 +541,7 @@ fn score_remaining_rows(
 
             let score = score_left.max(score_up_left);
 
-            if score > max_score {
+            if is_last_row && score > max_score {
                 max_score = score;
                 max_score_cell = MatrixCell(row_idx * matrix_width + column);
             }
@@ -560,7 +553,7 @@ fn score_remaining_rows(
 
         for col in column + 1..matrix_width {
             let score_left = scores_row[col - 1];
-            let score = score_left.saturating_sub(penalty);
+            let score = (score_left - penalty).max(0);
             scores_row[col] = score;
             penalty = penalty::GAP_EXTENSION;
         }
-- 
2.43.0


From 3211b2c4dc2af97336e5157cd1d01b2dd114834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 03/10] fix: leave the ranges untouched when a query doesn't
 match

When only some of the conditions of an extended query matched, their
ranges were left in the vector even though no match was returned.
---
 src/matched_ranges.rs  |  7 +++++++
 src/metrics/fzf/fzf.rs | 11 +++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 5daa605..cad9c4c 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -59,6 +59,13 @@ impl<'a> MatchedRanges<'a> {
         self.ranges[self.initial_len..].binary_search_by(fun)
     }
 
+    /// Removes all the inserted ranges, leaving the ones that were already in
+    /// the vector.
+    #[inline(always)]
+    pub(crate) fn clear(&mut self) {
+        self.ranges.truncate(self.initial_len);
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn get_mut(&mut self, idx: usize) -> Option<&mut Range<usize>> {
diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 7eb0339..bccd3cc 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -163,9 +163,16 @@ pub(super) trait Fzf {
             SearchMode::Extended(conditions) => {
                 let mut total_score: Score = 0;
                 for condition in conditions {
-                    total_score += condition.iter().find_map(|pattern| {
+                    let score = condition.iter().find_map(|pattern| {
                         self.score::<RANGES>(pattern, candidate, ranges)
-                    })?;
+                    });
+                    let Some(score) = score else {
+                        // The candidate doesn't match, so we remove the ranges
+                        // inserted by the conditions that did.
+                        ranges.clear();
+                        return None;
+                    };
+                    total_score += score;
                 }
                 Some(FzfDistance::from_score(total_score))
             },
-- 
2.43.0


From f03210dfd3a93fffeca0fcfb8a79974d1f3adc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 04/10] fix: don't panic when parsing long non-extended queries

parse_not_extended() never grew the buffer the characters of the query
are copied to.
---
 src/metrics/fzf/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metrics/fzf/parser.rs b/src/metrics/fzf/parser.rs
index 08647e8..a68408f 100644
--- a/src/metrics/fzf/parser.rs
+++ b/src/metrics/fzf/parser.rs
@@ -170,6 +170,12 @@ impl FzfParser {
     /// ```
     #[inline]
     pub fn parse_not_extended<'a>(&'a mut self, query: &str) -> FzfQuery<'a> {
+        let max_chars = query.len();
+
+        if self.chars.len() < max_chars {
+            self.chars.resize(max_chars, char::default());
+        }
+
         let mut char_len = 0;
 
         for ch in query.chars() {
-- 
2.43.0


From fbc953ffae66d3932427606054ad2fc81925db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 05/10] fix: honor the inverse marker of a lone fuzzy pattern

A query made of a single inverse fuzzy pattern (!'foo) matched exactly
the candidates it's supposed to exclude.
---
 src/metrics/fzf/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metrics/fzf/query.rs b/src/metrics/fzf/query.rs
index fdf913b..853e126 100644
--- a/src/metrics/fzf/query.rs
+++ b/src/metrics/fzf/query.rs
@@ -49,7 +49,8 @@ impl<'a> FzfQuery<'a> {
     #[inline]
     pub(super) fn new_extended(conditions: &'a [Condition<'a>]) -> Self {
         // If there's only one condition with a single pattern, and that
-        // pattern is fuzzy, then we can use the non-extended search mode.
+        // pattern is fuzzy and not inverse, then we can use the non-extended
+        // search mode.
         if conditions.len() == 1 {
             let mut patterns = conditions[0].iter();
 
@@ -59,6 +60,7 @@ impl<'a> FzfQuery<'a> {
 
             if patterns.next().is_none()
                 && matches!(first_pattern.match_type, MatchType::Fuzzy)
+                && !first_pattern.is_inverse
             {
                 return Self {
                     search_mode: SearchMode::NotExtended(first_pattern),
-- 
2.43.0


From 8345c32d25a5e0f48b8e35ed89825c82f771c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:22 +0000
Subject: [PATCH 06/10] fix: ignore the case of non-ASCII letters in
 case-insensitive searches
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Case-insensitive comparison only knew the case of ASCII letters, so "é"
didn't match "É", although CaseSensitivity::Insensitive is documented to
ignore the case of letters (and smart case already treats "É" as an
uppercase letter).
---
 src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 61f16b6..24e33ac 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -16,11 +16,14 @@ pub fn ascii_letter_flip_case(ascii_letter: u8) -> u8 {
 #[inline(always)]
 pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
     lhs.eq_ignore_ascii_case(&rhs)
+        || (!lhs.is_ascii()
+            && !rhs.is_ascii()
+            && lhs.to_lowercase().eq(rhs.to_lowercase()))
 }
 
 #[inline(always)]
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&normalize_candidate_char(lhs, rhs))
+    case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
 }
 
 #[inline(always)]
-- 
2.43.0


From 69b724fffe7dba4b80830d03cda24f40dba58844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 07/10] fix: charge a gap once, also if it spans characters
 that match

FzfV2 started a new gap at every candidate character that equals the
current query character, even if the best alignment skips that character,
and continued the previous gap right after the last match of the first
row.
---
 src/metrics/fzf/fzf_v2.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 27d83c9..a376283 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -435,8 +435,6 @@ fn score_first_row(
     let mut penalty = penalty::GAP_START;
 
     for char_offset in candidate.matches(first_pattern_char) {
-        penalty = penalty::GAP_START;
-
         for col in column + 1..char_offset {
             let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
@@ -455,6 +453,8 @@ fn score_first_row(
         scores_first_row[column] = score;
 
         prev_score = score;
+
+        penalty = penalty::GAP_START;
     }
 
     for col in column + 1..scores_first_row.len() {
@@ -503,8 +503,6 @@ fn score_remaining_rows(
         for char_offset in
             candidate.matches_from(first_match_offset, pattern_char)
         {
-            penalty = penalty::GAP_START;
-
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
                 let score = (score_left - penalty).max(0);
@@ -539,6 +537,12 @@ fn score_remaining_rows(
                 bonus
             };
 
+            penalty = if score_up_left < score_left {
+                penalty::GAP_EXTENSION
+            } else {
+                penalty::GAP_START
+            };
+
             let score = score_left.max(score_up_left);
 
             if is_last_row && score > max_score {
-- 
2.43.0


From 36ea79f260723042a3a25bcc0dfce09385928988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:42 +0000
Subject: [PATCH 08/10] fix: give each occurrence of an exact term its own
 boundary bonus

The class of the character before an occurrence was that of whichever
character an earlier attempt had stopped at, so a later occurrence could
get the bonus of another position, and the wrong one be chosen.
---
 src/metrics/fzf/fzf.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index bccd3cc..daa1cc0 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -205,8 +205,6 @@ fn exact_match<const RANGES: bool>(
     // TODO: docs
     let mut matched = false;
 
-    let mut prev_class = scheme.initial_char_class;
-
     let mut start_offset = 0;
 
     'outer: loop {
@@ -220,14 +218,22 @@ fn exact_match<const RANGES: bool>(
         for (char_offset, candidate_ch) in chars.by_ref() {
             let pattern_ch = pattern.char(pattern_char_idx);
 
-            let char_class = char_class(candidate_ch, scheme);
-
             if (char_eq)(pattern_ch, candidate_ch) {
                 if pattern_char_idx == 0 {
                     bonus_start = current_start_offset + char_offset;
                     start_offset += char_offset + 1;
-                    current_bonus =
-                        compute_bonus(prev_class, char_class, scheme);
+
+                    let prev_class = if bonus_start == 0 {
+                        scheme.initial_char_class
+                    } else {
+                        char_class(candidate.char(bonus_start - 1), scheme)
+                    };
+
+                    current_bonus = compute_bonus(
+                        prev_class,
+                        char_class(candidate_ch, scheme),
+                        scheme,
+                    );
                 }
 
                 pattern_char_idx += 1;
@@ -253,8 +259,6 @@ fn exact_match<const RANGES: bool>(
             } else if pattern_char_idx > 0 {
                 break;
             }
-
-            prev_class = char_class;
         }
 
         if chars.next().is_none() {
-- 
2.43.0


From 3af1e6099c96391ff6fa196508ea59feab072d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:17 +0000
Subject: [PATCH 09/10] fix: give a digit that begins a word the bonus of a
 word boundary

A digit after a space, a delimiter or another non-word character got the
smaller bonus of a digit that follows a letter, unlike in fzf, so that
e.g. a word starting with the query ranked lower for being a number.
---
 src/metrics/fzf/scoring.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metrics/fzf/scoring.rs b/src/metrics/fzf/scoring.rs
index cdbee33..c04cbfe 100644
--- a/src/metrics/fzf/scoring.rs
+++ b/src/metrics/fzf/scoring.rs
@@ -89,7 +89,9 @@ pub(super) fn compute_bonus(
 
         Upper if prev_class == Lower => bonus::CAMEL_123,
 
-        Number if prev_class != Number => bonus::CAMEL_123,
+        Number if matches!(prev_class, Lower | Upper | Letter) => {
+            bonus::CAMEL_123
+        },
 
         _ => {
             if prev_class == WhiteSpace {
-- 
2.43.0


From 162a0ebb76bd0239eea398ab5291824d866d8685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 10/10] fix: normalize uppercase letters if case is ignored
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With candidate normalization on and case ignored, most uppercase letters
with diacritics did not match their base letter, e.g. "cech" did not match
"Čech", although their lowercase variants do.
---
 src/utils.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 24e33ac..f3e1894 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -24,6 +24,9 @@ pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
 #[inline(always)]
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
     case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
+        || (lhs.is_ascii()
+            && !rhs.is_ascii()
+            && lhs.eq_ignore_ascii_case(&normalize_lowercase(rhs)))
 }
 
 #[inline(always)]
@@ -62,6 +65,18 @@ fn normalize_candidate_char(query_char: char, candidate_char: char) -> char {
     }
 }
 
+/// Normalizes the lowercase variant of the given character, as most uppercase
+/// letters can't be normalized on their own.
+#[inline(always)]
+fn normalize_lowercase(ch: char) -> char {
+    let mut lowercase = ch.to_lowercase();
+
+    match (lowercase.next(), lowercase.next()) {
+        (Some(lowercase), None) => normalize(lowercase),
+        _ => ch,
+    }
+}
+
 /// TODO: docs
 #[inline(always)]
 pub fn strip_leading_spaces(s: &str) -> &str {
-- 
2.43.0

