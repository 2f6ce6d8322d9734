From 5b672f463495f12b98ae622483204ac24e45da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 01/10] fix: kill_worst kills exactly the worst living
 individuals

It always killed individual 0 even if it was already dead or the best one, spared
worse individuals while filling its list, and treated NaN as better than numbers.
---
 optlib/src/genetic/selection/mod.rs | 45 ++++++++---------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/optlib/src/genetic/selection/mod.rs b/optlib/src/genetic/selection/mod.rs
index 4c05858..309173f 100644
--- a/optlib/src/genetic/selection/mod.rs
+++ b/optlib/src/genetic/selection/mod.rs
@@ -55,40 +55,19 @@ impl<T: Clone> Selection<T> for LimitPopulation {
 /// Function to kill worst individuals in population.
 /// `count` - how many individuals must be killed.
 pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
-    // List of indexes of individuals in population to be kill
-    let mut kill_list: Vec<usize> = Vec::with_capacity(count);
-    kill_list.push(0);
+    let mut kill_list: Vec<usize> = (0..population.len())
+        .filter(|&n| population[n].is_alive())
+        .collect();
 
-    // Index of the items in kill_list with best fitness
-    let mut best_index = 0;
-    let mut best_fitness = population[kill_list[best_index]].get_fitness();
-
-    for n in 1..population.len() {
-        if !population[n].is_alive() {
-            continue;
-        }
-
-        if kill_list.len() < count {
-            kill_list.push(n);
-            if population[n].get_fitness() < best_fitness {
-                best_index = kill_list.len() - 1;
-            }
-        } else {
-            if population[n].get_fitness() > best_fitness {
-                kill_list[best_index] = n;
-
-                // Find new best item
-                best_index = 0;
-                best_fitness = population[kill_list[best_index]].get_fitness();
-                for m in 1..kill_list.len() {
-                    if population[kill_list[m]].get_fitness() < best_fitness {
-                        best_index = m;
-                        best_fitness = population[kill_list[best_index]].get_fitness();
-                    }
-                }
-            }
-        }
-    }
+    // The worst individuals go first. NaN is worse than any other value.
+    kill_list.sort_by(|&n, &m| {
+        let fitness_n = population[n].get_fitness();
+        let fitness_m = population[m].get_fitness();
+        fitness_m
+            .partial_cmp(&fitness_n)
+            .unwrap_or_else(|| fitness_m.is_nan().cmp(&fitness_n.is_nan()))
+    });
+    kill_list.truncate(count);
 
     for n in kill_list {
         population[n].kill();
-- 
2.43.0


From 35718e73a2700c4cd24ac95a19f6809d299d02ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 02/10] fix: pairing an empty population yields no families
 instead of panicking

---
 optlib/src/genetic/pairing/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index e7d8204..4d7af1d 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -14,6 +14,9 @@ pub struct RandomPairing {
 impl<T> Pairing<T> for RandomPairing {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = vec![];
+        if population.len() == 0 {
+            return pairs;
+        }
 
         let between = Uniform::new(0, population.len());
         let count = population.len() / 2;
@@ -77,6 +80,10 @@ impl Tournament {
 impl<T> Pairing<T> for Tournament {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = Vec::with_capacity(self.families_count);
+        if population.len() == 0 {
+            return pairs;
+        }
+
         let between = Uniform::new(0, population.len());
 
         // Loop for families count
-- 
2.43.0


From 7274ce8cfcd58096b263c30b15432aaa8a59e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 03/10] fix: a NaN individual does not win tournaments

---
 optlib/src/genetic/pairing/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index 4d7af1d..54d3375 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -97,7 +97,13 @@ impl<T> Pairing<T> for Tournament {
                 // Loop for tournaments rounds
                 for _ in 0..self.rounds_count {
                     let challenger = between.sample(&mut self.random);
-                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {
+                    let challenger_goal = population[challenger].get_goal();
+                    let best_goal = population[best_ind_index].get_goal();
+
+                    // NaN is worse than any other value
+                    if challenger_goal < best_goal
+                        || (best_goal.is_nan() && !challenger_goal.is_nan())
+                    {
                         best_ind_index = challenger;
                     }
                 }
-- 
2.43.0


From 1a0a3c49632c6a079471395174848c2b619a11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 04/10] fix: linear inertia stays at w_min after t_max
 iterations

---
 optlib/src/particleswarm/velocitycalc/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optlib/src/particleswarm/velocitycalc/mod.rs b/optlib/src/particleswarm/velocitycalc/mod.rs
index 90615e8..014e32e 100644
--- a/optlib/src/particleswarm/velocitycalc/mod.rs
+++ b/optlib/src/particleswarm/velocitycalc/mod.rs
@@ -258,7 +258,8 @@ impl<T: Clone> Inertia<T> for ConstInertia<T> {
     }
 }
 
-/// The inertia coefficient decreases linearly from w_max to w_min
+/// The inertia coefficient decreases linearly from w_max to w_min.
+/// It remains equal to w_min after t_max iterations.
 pub struct LinearInertia<T> {
     w_min: T,
     w_max: T,
@@ -277,6 +278,10 @@ impl<T: Float> LinearInertia<T> {
 
 impl<T: Float> Inertia<T> for LinearInertia<T> {
     fn get(&mut self, iteration: usize) -> T {
+        if iteration >= self.t_max {
+            return self.w_min;
+        }
+
         self.w_max
             - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()
     }
-- 
2.43.0


From d686de0d7bff56fdaa6368bc613a8bb0ba0094bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 05/10] fix: limiting the velocity modulus does not overflow or
 underflow

---
 optlib/src/particleswarm/postvelocitycalc/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optlib/src/particleswarm/postvelocitycalc/mod.rs b/optlib/src/particleswarm/postvelocitycalc/mod.rs
index 5635753..ce173f4 100644
--- a/optlib/src/particleswarm/postvelocitycalc/mod.rs
+++ b/optlib/src/particleswarm/postvelocitycalc/mod.rs
@@ -46,14 +46,14 @@ impl<T> MaxVelocityAbs<T> {
 
 impl<T: Float> PostVelocityCalc<T> for MaxVelocityAbs<T> {
     fn correct_velocity(&mut self, velocity: Vec<T>) -> Vec<T> {
+        // hypot() does not overflow or underflow unlike the sum of squares
         let current_velocity_abs = velocity
             .iter()
-            .fold(T::zero(), |acc, vi| acc + (*vi) * (*vi))
-            .sqrt();
+            .fold(T::zero(), |acc, vi| acc.hypot(*vi));
         if current_velocity_abs > self.max_velocity {
             let new_velocity = velocity
                 .iter()
-                .map(|vi| (*vi) * self.max_velocity / current_velocity_abs)
+                .map(|vi| (*vi) / current_velocity_abs * self.max_velocity)
                 .collect();
             new_velocity
         } else {
-- 
2.43.0


From ee8d3ac6d5536c89bbfbc374f4eaeb5b25208ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 06/10] fix: GoalNotChange used again judges a new running by
 its own history

---
 optlib/src/tools/stopchecker/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 476eb40..4690336 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -110,6 +110,12 @@ impl GoalNotChange {
 
 impl<T> StopChecker<T> for GoalNotChange {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // The algorithm was started anew: forget the previous running
+        if state.get_iteration() <= self.change_iter {
+            self.old_goal = f64::MAX;
+            self.change_iter = 0;
+        }
+
         match state.get_best_solution() {
             None => false,
             Some((_, best_goal)) => {
-- 
2.43.0


From ae6bf3f817c61fba8af8215c031a74f9480fd489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 07/10] fix: composite stop checkers show every state to all
 their members

---
 optlib/src/tools/stopchecker/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 4690336..b9c2941 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -25,13 +25,15 @@ impl<T> CompositeAny<T> {
 
 impl<T> StopChecker<T> for CompositeAny<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // Every checker must see every state, therefore the loop does not stop at the first answer
+        let mut result = false;
         for checker in &mut self.stop_checkers {
             if checker.can_stop(state) {
-                return true;
+                result = true;
             }
         }
 
-        false
+        result
     }
 }
 
@@ -50,13 +52,15 @@ impl<T> CompositeAll<T> {
 
 impl<T> StopChecker<T> for CompositeAll<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // Every checker must see every state, therefore the loop does not stop at the first answer
+        let mut result = true;
         for checker in &mut self.stop_checkers {
             if !checker.can_stop(state) {
-                return false;
+                result = false;
             }
         }
 
-        true
+        result
     }
 }
 
-- 
2.43.0


From e5ef94b7b172bf8cada8b1d2da6b5693a864a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 08/10] fix: statistics keep one result per running after
 resuming

---
 optlib/src/tools/statistics/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 9867a05..aaa5a48 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -172,6 +172,10 @@ impl<T: Clone> Statistics<T> {
     }
 
     fn add_result(&mut self, state: &dyn AlgorithmState<T>) {
+        // The running was resumed, if it has a result already
+        if self.results.len() >= self.convergence.len() {
+            self.results.pop();
+        }
         self.results.push(state.get_best_solution().clone());
     }
 
-- 
2.43.0


From 78a0d593c92841190e0b76e684de181dcea5aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 09/10] fix: a solution with a NaN coordinate is not successful

---
 optlib/src/tools/statistics/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index aaa5a48..d9d913e 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -94,7 +94,8 @@ pub fn get_predicate_success_vec_solution<T: Float>(
 
     move |(answer, _): &(Vec<T>, GoalValue)| {
         for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {
-            if (*x - *e).abs() > *d {
+            // The condition is false for NaN
+            if !((*x - *e).abs() <= *d) {
                 return false;
             }
         }
-- 
2.43.0


From c0e3658531b08c438ec044e1116cc7ba1a018296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:40 +0000
Subject: [PATCH 10/10] fix: statistics logger attached to a running that has
 been started without it

---
 optlib/src/tools/statistics/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index d9d913e..ef43e83 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -400,7 +400,12 @@ impl<'a, T: Clone> Logger<T> for StatisticsLogger<'a, T> {
     }
 
     /// Will be called before run algorithm (possibly after result algorithm after pause).
-    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {}
+    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {
+        // The logger may be attached to a running which has been started without it
+        if self.statistics.convergence.is_empty() {
+            self.statistics.convergence.push(vec![]);
+        }
+    }
 
     /// Will be called in the end of iteration.
     fn next_iteration(&mut self, state: &dyn AlgorithmState<T>) {
-- 
2.43.0

