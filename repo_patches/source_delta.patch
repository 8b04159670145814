From c0c4a2c10581d181414c734f4d44b76464b7e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:06 +0000
Subject: [PATCH 01/10] fix: score the penalty shootout winner 0.75 when it is
 player two in fifa()

With penalties, player two was given 0.75 for losing and 0.5 for winning the
shootout. The loser of a shootout is treated as having drawn (0.5), the winner gets
0.75, as fifa_rating_period already does.
---
 src/fifa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fifa.rs b/src/fifa.rs
index baab75f..5dacb43 100644
--- a/src/fifa.rs
+++ b/src/fifa.rs
@@ -265,7 +265,7 @@ pub fn fifa(
         outcome.to_chess_points()
     };
     let outcome2 = if config.penalties {
-        if outcome == &Outcomes::WIN {
+        if outcome == &Outcomes::LOSS {
             0.75
         } else {
             0.5
-- 
2.43.0


From 40c4fbccfbc5ee407f6d6dc02e8fe154c0816a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:25 +0000
Subject: [PATCH 02/10] fix: apply the rating floor of 100 in
 uscf_rating_period

uscf() never returns a rating below the USCF floor of 100, uscf_rating_period did.
---
 src/uscf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 14879d8..411fdae 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -416,7 +416,7 @@ pub fn uscf_rating_period(
         );
 
         return USCFRating {
-            rating: new_rating,
+            rating: new_rating.max(100.0),
             games: player.games + results.len(),
         };
     }
@@ -438,7 +438,7 @@ pub fn uscf_rating_period(
     );
 
     USCFRating {
-        rating: new_rating,
+        rating: new_rating.max(100.0),
         games: player.games + results.len(),
     }
 }
-- 
2.43.0


From 9afbed68b1bdbebacf8d64e646a196cc0a61b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:25 +0000
Subject: [PATCH 03/10] fix: apply the rating floor of -900 in
 egf_rating_period

The floor was only applied to each game on its own, so that several losses in a period
could take a rating below -900.
---
 src/egf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/egf.rs b/src/egf.rs
index 98aa9ac..75c707a 100644
--- a/src/egf.rs
+++ b/src/egf.rs
@@ -319,7 +319,7 @@ pub fn egf_rating_period(
     }
 
     EGFRating {
-        rating: player.rating + rating_change,
+        rating: (player.rating + rating_change).max(-900.0),
     }
 }
 
-- 
2.43.0


From cc709ee10e0f5a352f74273e9a9d65c4d5b8a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:25 +0000
Subject: [PATCH 04/10] fix: return the player unchanged from
 ingo_rating_period without results

The averages over an empty list are NaN, and so was the new rating.
---
 src/ingo.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ingo.rs b/src/ingo.rs
index f9a4d11..2a5f1ef 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -280,6 +280,11 @@ pub fn ingo(
 /// assert!((new_player.rating.round() - 126.0).abs() < f64::EPSILON);
 /// ```
 pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)]) -> IngoRating {
+    // Without any results there is nothing to average over.
+    if results.is_empty() {
+        return *player;
+    }
+
     // Ingo was meant to be used in tournaments, so we do not need to loop over the opponents here.
     let development = age_to_devcoefficent(player.age);
 
-- 
2.43.0


From f7d2032a91fb35ec911d78f617f7192206800264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:25 +0000
Subject: [PATCH 05/10] fix: let match_quality_multi_team handle exactly two
 teams

With two teams the operands of the product were conformable the wrong way round, giving
an outer product and then a panic on incompatible dimensions.
---
 src/trueskill/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 83501ce..0fb003d 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1150,7 +1150,7 @@ pub fn match_quality_multi_team(
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
     let atsa = rotated_a_matrix.clone() * variance_matrix * a_matrix.clone();
-    let start = a_matrix * mean_matrix.transpose();
+    let start = mean_matrix.transpose() * a_matrix;
     let middle = a_ta.clone() + atsa;
 
     let end = rotated_a_matrix * mean_matrix;
-- 
2.43.0


From 7d74dc21b3b53de968b4913b66189511f00c6563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:47 +0000
Subject: [PATCH 06/10] fix: do not panic in match_quality_multi_team with a
 single team

---
 src/trueskill/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 0fb003d..eaedcd5 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1146,6 +1146,12 @@ pub fn match_quality_multi_team(
     let variance_matrix = Matrix::new_diagonal(&team_uncertainties_sq_flatten);
 
     let rotated_a_matrix = Matrix::create_rotated_a_matrix(teams, weights)?;
+
+    // A match needs at least two teams.
+    if teams.len() == 1 {
+        return Ok(0.0);
+    }
+
     let a_matrix = rotated_a_matrix.transpose();
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
-- 
2.43.0


From 2e66db954c43f58c7c8bf9ec71749252900250f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:47 +0000
Subject: [PATCH 07/10] fix: return a single team unchanged from
 trueskill_multi_team

With one team there is no team difference, and the schedule panicked.
---
 src/trueskill/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index eaedcd5..273bb11 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -790,6 +790,11 @@ pub fn trueskill_multi_team(
         weights,
     )?;
 
+    // With a single team there is nobody to compare it to.
+    if let [(team, _)] = teams_and_ranks {
+        return Ok(vec![team.to_vec()]);
+    }
+
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
     for (pos, ((team, outcome), weights)) in teams_and_ranks.iter().zip(&weights).enumerate() {
         sorted_teams_and_ranks_with_pos.push((pos, (*team, *outcome, &weights[..])));
-- 
2.43.0


From aa8a0b67f0e96e9d83914bf4b5a695ac3a519423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:47 +0000
Subject: [PATCH 08/10] fix: return 1.0 instead of NaN from trueskill
 expected_score_multi_team for a single team

---
 src/trueskill/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 273bb11..8c4cc82 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1364,6 +1364,11 @@ pub fn expected_score_multi_team(
     teams: &[&[TrueSkillRating]],
     config: &TrueSkillConfig,
 ) -> Vec<f64> {
+    // A single team has nobody to lose against.
+    if teams.len() == 1 {
+        return vec![1.0];
+    }
+
     let player_count = teams.iter().map(|t| t.len()).sum::<usize>() as f64;
 
     let mut win_probabilities = Vec::with_capacity(teams.len());
-- 
2.43.0


From a2fbf6e7c66e522793fadd8026a080dc3986bbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:53 +0000
Subject: [PATCH 09/10] fix: invert 1x1 matrices, so that
 match_quality_multi_team sees the ratings of two teams

The adjugate of a 1x1 matrix took the determinant of the empty matrix as 0; the inverse was 0 and the
exponent vanished: with two teams the quality did not depend on their ratings.
---
 src/trueskill/matrix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 4342f3b..a55bb60 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -103,6 +103,11 @@ impl Matrix {
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
+        // The determinant of the empty matrix, which the adjugate of a 1x1 matrix needs.
+        if self.rows == 0 {
+            return 1.0;
+        }
+
         if self.rows == 1 {
             return self.get(0, 0);
         }
-- 
2.43.0


From 6768f5a4e2723b876321a784352bef6bbe4c89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:46 +0000
Subject: [PATCH 10/10] fix: a TrueSkill team member with weight zero no longer
 gets a NaN rating

The message of a sum to a term without weight was the quotient of zero and zero.
---
 src/trueskill/factor_graph.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index e2b78a3..a905340 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -169,11 +169,16 @@ impl SumFactor {
 
     pub fn up(&self, index: usize) -> f64 {
         let coeff = self.coeffs[index];
+        if coeff == 0.0 {
+            // A term without weight learns nothing from the sum.
+            return self.terms[index]
+                .borrow_mut()
+                .update_message(self.id, Gaussian::default());
+        }
+
         let mut coeffs = Vec::new();
         for (x, c) in self.coeffs.iter().enumerate() {
-            if coeff == 0.0 {
-                coeffs.push(0.0);
-            } else if x == index {
+            if x == index {
                 coeffs.push(coeff.recip());
             } else {
                 coeffs.push(-(*c) / coeff);
-- 
2.43.0

