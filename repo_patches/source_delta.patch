From fc68ee93f02ca1bb965b2d7df243ff6feb0f482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:15 +0000
Subject: [PATCH 01/14] fix: FIFA penalty shootouts award player two 0.75 only
 when player two won

Player two received 0.75 points when player one won the shootout, and 0.5
when player two won it. The documentation says the winner gets 0.75.
---
 src/fifa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fifa.rs b/src/fifa.rs
index baab75f..5dacb43 100644
--- a/src/fifa.rs
+++ b/src/fifa.rs
@@ -265,7 +265,7 @@ pub fn fifa(
         outcome.to_chess_points()
     };
     let outcome2 = if config.penalties {
-        if outcome == &Outcomes::WIN {
+        if outcome == &Outcomes::LOSS {
             0.75
         } else {
             0.5
-- 
2.43.0


From 0832d9309b4d73ec0b4e85da136dd09198179123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:15 +0000
Subject: [PATCH 02/14] fix: apply the USCF rating floor of 100 in rating
 periods

uscf() floors ratings at 100, uscf_rating_period() did not.
---
 src/uscf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 14879d8..411fdae 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -416,7 +416,7 @@ pub fn uscf_rating_period(
         );
 
         return USCFRating {
-            rating: new_rating,
+            rating: new_rating.max(100.0),
             games: player.games + results.len(),
         };
     }
@@ -438,7 +438,7 @@ pub fn uscf_rating_period(
     );
 
     USCFRating {
-        rating: new_rating,
+        rating: new_rating.max(100.0),
         games: player.games + results.len(),
     }
 }
-- 
2.43.0


From 9f7e79eb528539d802eda271dd5847224acb61ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:15 +0000
Subject: [PATCH 03/14] fix: keep EGF rating period results at or above -900

Only the change of each game was limited, so the sum could go below the
minimum rating.
---
 src/egf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/egf.rs b/src/egf.rs
index 98aa9ac..75c707a 100644
--- a/src/egf.rs
+++ b/src/egf.rs
@@ -319,7 +319,7 @@ pub fn egf_rating_period(
     }
 
     EGFRating {
-        rating: player.rating + rating_change,
+        rating: (player.rating + rating_change).max(-900.0),
     }
 }
 
-- 
2.43.0


From 6653c969d18edb69af8cba920017f4172aee9747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 04/14] fix: keep Ingo expected scores between 0.0 and 1.0

For rating gaps above 50 points the documented probability went above 1
or below 0.
---
 src/ingo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ingo.rs b/src/ingo.rs
index f9a4d11..76c6abc 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -331,7 +331,7 @@ pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)
 /// assert!((exp1 + exp2 - 1.0).abs() < f64::EPSILON);
 /// ```
 pub fn expected_score(player_one: &IngoRating, player_two: &IngoRating) -> (f64, f64) {
-    let exp_one = 0.5 + (player_two.rating - player_one.rating) / 100.0;
+    let exp_one = (0.5 + (player_two.rating - player_one.rating) / 100.0).clamp(0.0, 1.0);
     let exp_two = 1.0 - exp_one;
 
     (exp_one, exp_two)
@@ -372,7 +372,7 @@ pub fn expected_score(player_one: &IngoRating, player_two: &IngoRating) -> (f64,
 pub fn expected_score_rating_period(player: &IngoRating, opponents: &[IngoRating]) -> Vec<f64> {
     opponents
         .iter()
-        .map(|o| 0.5 + (o.rating - player.rating) / 100.0)
+        .map(|o| (0.5 + (o.rating - player.rating) / 100.0).clamp(0.0, 1.0))
         .collect()
 }
 
-- 
2.43.0


From 8e12b211b8e38fe1edc5c38f3f451aab3717d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 05/14] fix: return the Ingo rating unchanged for an empty
 rating period

The averages were 0/0, which made the rating NaN.
---
 src/ingo.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ingo.rs b/src/ingo.rs
index 76c6abc..6552573 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -280,6 +280,10 @@ pub fn ingo(
 /// assert!((new_player.rating.round() - 126.0).abs() < f64::EPSILON);
 /// ```
 pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)]) -> IngoRating {
+    if results.is_empty() {
+        return *player;
+    }
+
     // Ingo was meant to be used in tournaments, so we do not need to loop over the opponents here.
     let development = age_to_devcoefficent(player.age);
 
-- 
2.43.0


From ea964434b4fa5ac9fe11d1b63aee0a2649636df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:30 +0000
Subject: [PATCH 06/14] fix: keep the DWZ rating for an empty rating period of
 a player without events

With an index of 0 the calculation was 800/0 * 0, which made the rating NaN.
---
 src/dwz.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dwz.rs b/src/dwz.rs
index 2a3fb3f..aa36bf8 100644
--- a/src/dwz.rs
+++ b/src/dwz.rs
@@ -341,6 +341,13 @@ pub fn dwz(
 /// assert_eq!(new_player.index, 18);
 /// ```
 pub fn dwz_rating_period(player: &DWZRating, results: &[(DWZRating, Outcomes)]) -> DWZRating {
+    if results.is_empty() {
+        return DWZRating {
+            index: player.index + 1,
+            ..*player
+        };
+    }
+
     let points = results.iter().map(|r| r.1.to_chess_points()).sum();
 
     let expected_points = results.iter().map(|r| expected_score(player, &r.0).0).sum();
-- 
2.43.0


From 2c13b97379d32dfbb9c576a927169d18345e79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:58 +0000
Subject: [PATCH 07/14] fix: avoid NaN in Weng-Lin when a rating is large
 compared to its uncertainty

exp(rating / c) overflowed to infinity, and inf / inf is NaN.
---
 src/weng_lin.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/weng_lin.rs b/src/weng_lin.rs
index 033253f..df24f4c 100644
--- a/src/weng_lin.rs
+++ b/src/weng_lin.rs
@@ -912,8 +912,11 @@ pub fn expected_score_multi_team(teams: &[&[WengLinRating]], config: &WengLinCon
 
     let mut sum = 0.0;
 
+    // Shifting all ratings by the highest one, so that the exponentials cannot overflow.
+    let max = ratings.iter().copied().fold(f64::NEG_INFINITY, f64::max);
+
     for rating in ratings {
-        let e = (rating / c).exp();
+        let e = ((rating - max) / c).exp();
         exps.push(e);
         sum += e;
     }
@@ -971,8 +974,10 @@ pub fn expected_score_rating_period(
 }
 
 fn p_value(rating_one: f64, rating_two: f64, c_value: f64) -> (f64, f64) {
-    let e1 = (rating_one / c_value).exp();
-    let e2 = (rating_two / c_value).exp();
+    // Shifting both ratings by the higher one, so that the exponentials cannot overflow.
+    let max = rating_one.max(rating_two);
+    let e1 = ((rating_one - max) / c_value).exp();
+    let e2 = ((rating_two - max) / c_value).exp();
 
     let exp_one = e1 / (e1 + e2);
     let exp_two = 1.0 - exp_one;
-- 
2.43.0


From 40599de475bbfa4bf4ab65557e5ffda67a833baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:58 +0000
Subject: [PATCH 08/14] fix: TrueSkill match_quality_multi_team no longer
 panics with two teams

The product had incompatible dimensions when there is a single team difference.
---
 src/trueskill/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 83501ce..0fb003d 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1150,7 +1150,7 @@ pub fn match_quality_multi_team(
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
     let atsa = rotated_a_matrix.clone() * variance_matrix * a_matrix.clone();
-    let start = a_matrix * mean_matrix.transpose();
+    let start = mean_matrix.transpose() * a_matrix;
     let middle = a_ta.clone() + atsa;
 
     let end = rotated_a_matrix * mean_matrix;
-- 
2.43.0


From 9eba793db7d392c12fe16dc6dda6ed1084ac6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:58 +0000
Subject: [PATCH 09/14] fix: handle a single team in the TrueSkill multi-team
 functions

trueskill_multi_team and match_quality_multi_team panicked,
expected_score_multi_team returned NaN.
---
 src/trueskill/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 0fb003d..fa43753 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -790,6 +790,11 @@ pub fn trueskill_multi_team(
         weights,
     )?;
 
+    // There is nothing to rate if there is only one team.
+    if teams_and_ranks.len() == 1 {
+        return Ok(vec![teams_and_ranks[0].0.to_vec()]);
+    }
+
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
     for (pos, ((team, outcome), weights)) in teams_and_ranks.iter().zip(&weights).enumerate() {
         sorted_teams_and_ranks_with_pos.push((pos, (*team, *outcome, &weights[..])));
@@ -1127,6 +1132,13 @@ pub fn match_quality_multi_team(
         }
     }
 
+    let rotated_a_matrix = Matrix::create_rotated_a_matrix(teams, weights)?;
+
+    // There is no match to be played if there is only one team.
+    if teams.len() == 1 {
+        return Ok(0.0);
+    }
+
     let total_players = teams.iter().map(|t| t.len()).sum::<usize>();
 
     let team_uncertainties_sq_flatten = teams
@@ -1145,7 +1157,6 @@ pub fn match_quality_multi_team(
     let mean_matrix = Matrix::new_from_data(&team_ratings_flatten, total_players, 1);
     let variance_matrix = Matrix::new_diagonal(&team_uncertainties_sq_flatten);
 
-    let rotated_a_matrix = Matrix::create_rotated_a_matrix(teams, weights)?;
     let a_matrix = rotated_a_matrix.transpose();
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
@@ -1353,6 +1364,11 @@ pub fn expected_score_multi_team(
     teams: &[&[TrueSkillRating]],
     config: &TrueSkillConfig,
 ) -> Vec<f64> {
+    // A single team has no opponents to lose to.
+    if teams.len() == 1 {
+        return vec![1.0];
+    }
+
     let player_count = teams.iter().map(|t| t.len()).sum::<usize>() as f64;
 
     let mut win_probabilities = Vec::with_capacity(teams.len());
-- 
2.43.0


From d7fc2c12bc3740fb4c99f4852194ceb99de6ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:49 +0000
Subject: [PATCH 10/14] fix: match_quality_multi_team no longer needs factorial
 time in the amount of teams

The determinant was expanded by minors, so a match of 14 teams did not finish
in any reasonable time.
---
 src/trueskill/matrix.rs | 43 +++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 4342f3b..f08ff65 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -99,21 +99,48 @@ impl Matrix {
         matrix
     }
 
-    #[allow(clippy::cast_possible_truncation, clippy::cast_possible_wrap)]
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
-        if self.rows == 1 {
-            return self.get(0, 0);
-        }
+        // Gaussian elimination with partial pivoting.
+        // Expanding by minors would need factorial time in the amount of teams.
+        let mut matrix = self.clone();
+        let mut det = 1.0;
+
+        for col in 0..matrix.cols {
+            let pivot = (col..matrix.rows)
+                .max_by(|&a, &b| {
+                    matrix
+                        .get(a, col)
+                        .abs()
+                        .total_cmp(&matrix.get(b, col).abs())
+                })
+                .unwrap_or(col);
+
+            if pivot != col {
+                for j in 0..matrix.cols {
+                    let tmp = matrix.get(col, j);
+                    matrix.set(col, j, matrix.get(pivot, j));
+                    matrix.set(pivot, j, tmp);
+                }
+                det = -det;
+            }
 
-        let mut sum = 0.0;
+            let diagonal = matrix.get(col, col);
+            det *= diagonal;
+            if diagonal == 0.0 {
+                break;
+            }
 
-        for i in 0..self.rows {
-            sum += self.get(0, i) * self.minor(0, i).determinant() * (-1.0_f64).powi(i as i32);
+            for row in (col + 1)..matrix.rows {
+                let factor = matrix.get(row, col) / diagonal;
+                for j in col..matrix.cols {
+                    matrix.set(row, j, matrix.get(row, j) - factor * matrix.get(col, j));
+                }
+            }
         }
 
-        sum
+        det
     }
 
     pub fn minor(&self, row: usize, col: usize) -> Self {
-- 
2.43.0


From cf53aa8141a6ef6f5917bd2a6171dc34166b7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:17 +0000
Subject: [PATCH 11/14] fix: TrueSkill weights of 0.0 no longer produce NaN

The documentation allows a weight of 0.0 for players who did not play, but the
message to such a player was 0/0. A team in which nobody played is now handled
like an empty team.
---
 src/trueskill/factor_graph.rs | 11 ++++++++---
 src/trueskill/mod.rs          | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index e2b78a3..aac018f 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -169,11 +169,16 @@ impl SumFactor {
 
     pub fn up(&self, index: usize) -> f64 {
         let coeff = self.coeffs[index];
+        // A term without any contribution to the sum learns nothing from it.
+        if coeff == 0.0 {
+            return self.terms[index]
+                .borrow_mut()
+                .update_message(self.id, Gaussian::default());
+        }
+
         let mut coeffs = Vec::new();
         for (x, c) in self.coeffs.iter().enumerate() {
-            if coeff == 0.0 {
-                coeffs.push(0.0);
-            } else if x == index {
+            if x == index {
                 coeffs.push(coeff.recip());
             } else {
                 coeffs.push(-(*c) / coeff);
diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index fa43753..a2233a9 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -790,9 +790,12 @@ pub fn trueskill_multi_team(
         weights,
     )?;
 
-    // There is nothing to rate if there is only one team.
-    if teams_and_ranks.len() == 1 {
-        return Ok(vec![teams_and_ranks[0].0.to_vec()]);
+    // There is nothing to rate if there is only one team, or if nobody of a team has played.
+    if teams_and_ranks.len() == 1 || weights.iter().any(|team| team.iter().all(|&w| w == 0.0)) {
+        return Ok(teams_and_ranks
+            .iter()
+            .map(|(team, _)| team.to_vec())
+            .collect());
     }
 
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
@@ -1134,8 +1137,10 @@ pub fn match_quality_multi_team(
 
     let rotated_a_matrix = Matrix::create_rotated_a_matrix(teams, weights)?;
 
-    // There is no match to be played if there is only one team.
-    if teams.len() == 1 {
+    // There is no match to be played if there is only one team, or if nobody of a team is playing.
+    if teams.len() == 1
+        || weights.is_some_and(|w| w.iter().any(|team| team.iter().all(|&w| w == 0.0)))
+    {
         return Ok(0.0);
     }
 
-- 
2.43.0


From a65ade8fe3e405a8b2f8c645fd663caa46e918f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:14 +0000
Subject: [PATCH 12/14] fix: keep the TrueSkill uncertainty a number when w is
 rounded above 1

With a draw margin that is small compared to the uncertainties the cdf
approximation can make w_draw exceed 1, so that the new uncertainty became NaN
(e.g. 23.4 vs 0.1 uncertainty, beta 0.1, draw).
---
 src/trueskill/math.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/math.rs b/src/trueskill/math.rs
index 8be4c41..655a8ef 100644
--- a/src/trueskill/math.rs
+++ b/src/trueskill/math.rs
@@ -93,7 +93,9 @@ pub fn new_uncertainty(uncertainty: f64, c: f64, w: f64, dynamics_factor: f64) -
     let variance = uncertainty.mul_add(uncertainty, dynamics_factor.powi(2));
     let dev_multiplier = variance / c.powi(2);
 
-    (variance * w.mul_add(-dev_multiplier, 1.0)).sqrt()
+    // w never exceeds 1, but the error of the cdf approximation can push it slightly above,
+    // which would leave nothing (or less than nothing) of the variance.
+    (variance * w.min(1.0).mul_add(-dev_multiplier, 1.0)).sqrt()
 }
 
 #[cfg(test)]
-- 
2.43.0


From eab6dcc0f42856b99a2d5f012d3ce18eb35dcba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:44 +0000
Subject: [PATCH 13/14] fix: USCF bonus threshold counts at least four games,
 not at most four

The published formula pays K(S-E) - B*sqrt(max(m, 4)) as a bonus: three-round
events are treated like four-round ones. min(m, 4) never raised the threshold
for longer events, so their bonuses were too high.
---
 src/uscf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 411fdae..5b25c22 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -566,7 +566,7 @@ fn get_boost_value(played_games: usize, k: f64, e: f64, score: f64, t: f64) -> f
     }
 
     let kse = k * (score - e);
-    let tm = t * (played_games.min(4) as f64).sqrt();
+    let tm = t * (played_games.max(4) as f64).sqrt();
 
     if tm >= kse {
         0.0
-- 
2.43.0


From 2489ed913c414e4fc55513eb26a690369fe8d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:29 +0000
Subject: [PATCH 14/14] fix: keep TrueSkill multi-team ratings numbers in the
 deep tail

Below the smallest usable cdf value w was returned as exactly 1, which leaves a
truncated difference without any variance (a division by 0), so that
trueskill_multi_team returned NaN for everybody: e.g. a free-for-all of 200 new
players, or 15.5 (uncertainty 0.13) winning against 26.7 (0.29) with beta 0.12.
---
 src/trueskill/math.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trueskill/math.rs b/src/trueskill/math.rs
index 655a8ef..42a663f 100644
--- a/src/trueskill/math.rs
+++ b/src/trueskill/math.rs
@@ -21,7 +21,8 @@ pub fn w_non_draw(difference: f64, draw_margin: f64, c: f64) -> f64 {
 
     if norm < 2.222_758_749e-162 {
         if diff_c < 0.0 {
-            return 1.0;
+            // Not exactly 1, there is always some variance left.
+            return 1.0 - (diff_c - draw_c).powi(-2);
         }
         return 0.0;
     }
@@ -62,7 +63,9 @@ pub fn w_draw(difference: f64, draw_margin: f64, c: f64) -> f64 {
     let norm = cdf(draw_c - diff_c_abs, 0.0, 1.0) - cdf(-draw_c - diff_c_abs, 0.0, 1.0);
 
     if norm < 2.222_758_749e-162 {
-        return 1.0;
+        // Not exactly 1, there is always some variance left:
+        // that of the tail, or that of the interval of a draw if it is narrower.
+        return 1.0 - (diff_c_abs - draw_c).powi(-2).min(draw_c.powi(2) / 3.0);
     }
 
     let v = v_draw(difference, draw_margin, c);
-- 
2.43.0

