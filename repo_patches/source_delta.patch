From c4033acc66dd87e8a834022babb3c254a4b32718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 1/8] fix: never sample a transition with zero intensity

get_random_state counted the positive entries of the row and used that count
as the next state, so every zero entry shifted the result to a wrong state.
---
 src/params.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 71395af..0adb604 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -231,26 +231,23 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
                 let lambda = cim[[u, state, state]] * -1.0;
                 let urand: f64 = rng.gen_range(0.0..=1.0);
 
-                let next_state = cim.slice(s![u, state, ..]).map(|x| x / lambda).iter().fold(
-                    (0, 0.0),
-                    |mut acc, ele| {
-                        if &acc.1 + ele < urand && ele > &0.0 {
-                            acc.0 += 1;
+                // Only the states with a positive intensity are reachable: take the first one whose
+                // cumulative probability is not smaller than urand (or the last one of them).
+                let next_state = cim
+                    .slice(s![u, state, ..])
+                    .map(|x| x / lambda)
+                    .iter()
+                    .enumerate()
+                    .filter(|(idx, ele)| *idx != state && **ele > 0.0)
+                    .fold((state, 0.0), |acc, (idx, ele)| {
+                        if acc.0 == state || acc.1 < urand {
+                            (idx, acc.1 + ele)
+                        } else {
+                            acc
                         }
-                        if ele > &0.0 {
-                            acc.1 += ele;
-                        }
-                        acc
-                    },
-                );
-
-                let next_state = if next_state.0 < state {
-                    next_state.0
-                } else {
-                    next_state.0 + 1
-                };
+                    });
 
-                let next_state = StateType::Discrete(next_state);
+                let next_state = StateType::Discrete(next_state.0);
                 trace!(
                     "Generate random state. Node: {} - State: {:?}",
                     self.get_label(),
-- 
2.43.0


From 882e308f21581c1432e93760182037d4a80645b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 2/8] fix: reject intensity matrices with negative rates or
 non-finite entries

validate_params accepted negative off-diagonal entries, and NaN / infinite
entries because every comparison with NaN is false.
---
 src/params.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/params.rs b/src/params.rs
index 0adb604..a3bd83b 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -311,6 +311,31 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
+        // Check if each intensity is a finite number
+        if cim.iter().any(|x| !x.is_finite()) {
+            warn!(
+                "The intensities of the cim for node {} must be finite",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The intensities of each cim must be finite",
+            )));
+        }
+
+        // Check if the intensities outside the diagonal are non-negative
+        if cim
+            .indexed_iter()
+            .any(|((_, from, to), x)| from != to && x < &0.0)
+        {
+            warn!(
+                "The intensities outside the diagonal of each cim for node {} must be non-negative",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The intensities outside the diagonal of each cim must be non-negative",
+            )));
+        }
+
         // Check if each row sum up to 0
         if cim
             .sum_axis(Axis(2))
-- 
2.43.0


From 3ac73e02120f729ee384ddf5013645f6e0a17fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 3/8] fix: accrue the instantaneous reward of the state the
 process stays in

MonteCarloReward credited the time spent in the previous state with the
instantaneous reward of the state entered afterwards.
---
 src/reward/reward_evaluation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 5861e75..dee15bf 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -219,7 +219,9 @@ impl RewardEvaluation for MonteCarloReward {
                                 / discount_factor
                         }
                     };
-                    ret += discount * r.instantaneous_reward;
+                    // Between `previous.t` and `current.t` the process stays in `previous.state`
+                    let sojourn_reward = reward_function.call(&previous.state, None);
+                    ret += discount * sojourn_reward.instantaneous_reward;
                     ret += match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => 1.0,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-- 
2.43.0


From f8f5f4b9f94527ea3b67b2698e85e09488ad92b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 4/8] fix: do not return the cached parameters of another node

Cache::fit used the parent set alone as key, so a cache asked for a second
node answered with the parameters of the first one.
---
 .../constraint_based_algorithm.rs                   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/structure_learning/constraint_based_algorithm.rs b/src/structure_learning/constraint_based_algorithm.rs
index 84683bc..ada3b5a 100644
--- a/src/structure_learning/constraint_based_algorithm.rs
+++ b/src/structure_learning/constraint_based_algorithm.rs
@@ -16,8 +16,8 @@ use crate::tools::Dataset;
 
 pub struct Cache<'a, P: ParameterLearning> {
     parameter_learning: &'a P,
-    cache_persistent_small: HashMap<Option<BTreeSet<usize>>, Params>,
-    cache_persistent_big: HashMap<Option<BTreeSet<usize>>, Params>,
+    cache_persistent_small: HashMap<(usize, Option<BTreeSet<usize>>), Params>,
+    cache_persistent_big: HashMap<(usize, Option<BTreeSet<usize>>), Params>,
     parent_set_size_small: usize,
 }
 
@@ -38,6 +38,7 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
         parent_set: Option<BTreeSet<usize>>,
     ) -> Params {
         let parent_set_len = parent_set.as_ref().unwrap().len();
+        let key = (node, parent_set.clone());
         if parent_set_len > self.parent_set_size_small + 1 {
             //self.cache_persistent_small = self.cache_persistent_big;
             mem::swap(
@@ -49,7 +50,7 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
         }
 
         if parent_set_len > self.parent_set_size_small {
-            match self.cache_persistent_big.get(&parent_set) {
+            match self.cache_persistent_big.get(&key) {
                 // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                 // not cloning requires a minor and reasoned refactoring across the library
                 Some(params) => params.clone(),
@@ -57,12 +58,12 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
                     let params =
                         self.parameter_learning
                             .fit(net, dataset, node, parent_set.clone());
-                    self.cache_persistent_big.insert(parent_set, params.clone());
+                    self.cache_persistent_big.insert(key, params.clone());
                     params
                 }
             }
         } else {
-            match self.cache_persistent_small.get(&parent_set) {
+            match self.cache_persistent_small.get(&key) {
                 // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                 // not cloning requires a minor and reasoned refactoring across the library
                 Some(params) => params.clone(),
@@ -71,7 +72,7 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
                         self.parameter_learning
                             .fit(net, dataset, node, parent_set.clone());
                     self.cache_persistent_small
-                        .insert(parent_set, params.clone());
+                        .insert(key, params.clone());
                     params
                 }
             }
-- 
2.43.0


From 4ab30cf1e6035a858142640314525362c7df6192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 5/8] fix: drop parameters that refer to removed parents

add_node and initialize_adj_matrix remove all the edges but kept the
parameters of the children, indexed by configurations of parents they no
longer have.
---
 src/process/ctbn.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/process/ctbn.rs b/src/process/ctbn.rs
index c05a540..d6a0ccb 100644
--- a/src/process/ctbn.rs
+++ b/src/process/ctbn.rs
@@ -72,6 +72,18 @@ impl CtbnNetwork {
         }
     }
 
+    /// Reset the parameters of the nodes with parents, which are about to lose them: those
+    /// parameters are defined over the configurations of the old parent set.
+    fn reset_params_of_children(&mut self) {
+        if let Some(network) = &self.adj_matrix {
+            for (node, parents) in self.nodes.iter_mut().zip(network.columns()) {
+                if parents.iter().any(|x| x > &0) {
+                    node.reset_params();
+                }
+            }
+        }
+    }
+
     ///Transform the **CTBN** into a **CTMP**
     ///
     /// # Return
@@ -168,6 +180,7 @@ impl CtbnNetwork {
 
 impl process::NetworkProcess for CtbnNetwork {
     fn initialize_adj_matrix(&mut self) {
+        self.reset_params_of_children();
         self.adj_matrix = Some(Array2::<u16>::zeros(
             (self.nodes.len(), self.nodes.len()).f(),
         ));
@@ -175,6 +188,7 @@ impl process::NetworkProcess for CtbnNetwork {
 
     fn add_node(&mut self, mut n: Params) -> Result<usize, process::NetworkError> {
         n.reset_params();
+        self.reset_params_of_children();
         self.adj_matrix = Option::None;
         self.nodes.push(n);
         Ok(self.nodes.len() - 1)
-- 
2.43.0


From 9a663c7ef05ff2f0ef76e019542a7a4821a112d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 6/8] fix: keep the rows of an amalgamated matrix summing to
 zero

---
 src/process/ctbn.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/process/ctbn.rs b/src/process/ctbn.rs
index d6a0ccb..8b5ca51 100644
--- a/src/process/ctbn.rs
+++ b/src/process/ctbn.rs
@@ -138,6 +138,14 @@ impl CtbnNetwork {
             }
         }
 
+        // The rows of each node sum up to zero only up to a tolerance, which may add up over the
+        // nodes: the diagonal is minus the sum of the other intensities of the row.
+        for idx_state in 0..state_space {
+            amalgamated_cim[[0, idx_state, idx_state]] = 0.0;
+            let exit_intensity = amalgamated_cim.slice(s![0, idx_state, ..]).sum();
+            amalgamated_cim[[0, idx_state, idx_state]] = -exit_intensity;
+        }
+
         let mut amalgamated_param = DiscreteStatesContinousTimeParams::new(
             "ctmp".to_string(),
             BTreeSet::from_iter((0..state_space).map(|x| x.to_string())),
-- 
2.43.0


From 1e0d1b8db3f40d797a2255924498548ca7901c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 7/8] fix: discount zero and tiny discount factors without
 cancellation

---
 src/reward/reward_evaluation.rs | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index dee15bf..6bf8558 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -26,6 +26,21 @@ pub enum RewardCriteria {
     InfiniteHorizon { discount_factor: f64 },
 }
 
+impl RewardCriteria {
+    /// Integral of the discount over the interval of time between `from` and `to`
+    fn discounted_time(&self, from: f64, to: f64) -> f64 {
+        match *self {
+            RewardCriteria::InfiniteHorizon { discount_factor } if discount_factor != 0.0 => {
+                // exp_m1 because the difference of two exponentials cancels for small discounts
+                std::f64::consts::E.powf(-discount_factor * from)
+                    * -(-discount_factor * (to - from)).exp_m1()
+                    / discount_factor
+            }
+            _ => to - from,
+        }
+    }
+}
+
 /// Monte Carlo algorithm to approximate the evaluation of the reward function
 ///
 /// # Arguments
@@ -200,25 +215,13 @@ impl RewardEvaluation for MonteCarloReward {
                 let current = sampler.next().unwrap();
                 if current.t > self.end_time {
                     let r = reward_function.call(&previous.state, None);
-                    let discount = match self.reward_criteria {
-                        RewardCriteria::FiniteHorizon => self.end_time - previous.t,
-                        RewardCriteria::InfiniteHorizon { discount_factor } => {
-                            (std::f64::consts::E.powf(-discount_factor * previous.t)
-                                - std::f64::consts::E.powf(-discount_factor * self.end_time))
-                                / discount_factor
-                        }
-                    };
+                    let discount = self
+                        .reward_criteria
+                        .discounted_time(previous.t, self.end_time);
                     ret += discount * r.instantaneous_reward;
                 } else {
                     let r = reward_function.call(&current.state, Some(&previous.state));
-                    let discount = match self.reward_criteria {
-                        RewardCriteria::FiniteHorizon => current.t - previous.t,
-                        RewardCriteria::InfiniteHorizon { discount_factor } => {
-                            (std::f64::consts::E.powf(-discount_factor * previous.t)
-                                - std::f64::consts::E.powf(-discount_factor * current.t))
-                                / discount_factor
-                        }
-                    };
+                    let discount = self.reward_criteria.discounted_time(previous.t, current.t);
                     // Between `previous.t` and `current.t` the process stays in `previous.state`
                     let sojourn_reward = reward_function.call(&previous.state, None);
                     ret += discount * sojourn_reward.instantaneous_reward;
-- 
2.43.0


From 759ea486919f5f998b92e808b2e32c8218e657d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 8/8] fix: spread of Monte Carlo rewards no longer lost to
 cancellation when their mean is large

---
 src/reward/reward_evaluation.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 6bf8558..edda85f 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -199,7 +199,8 @@ impl RewardEvaluation for MonteCarloReward {
 
         // Initialize the variable required to perform early stopping hypotesis test
         let mut expected_value = 0.0;
-        let mut squared_expected_value = 0.0;
+        // Sum of the squared deviations from the mean
+        let mut squared_deviations = 0.0;
         let normal = statrs::distribution::Normal::new(0.0, 1.0).unwrap();
 
         // Generate and evaluate tranjectories util max_iteration is reached or early stopping rule
@@ -237,14 +238,14 @@ impl RewardEvaluation for MonteCarloReward {
 
             // Evaluate the early stopping hypothesis test .
             let float_i = i as f64;
-            expected_value =
-                expected_value * float_i as f64 / (float_i + 1.0) + ret / (float_i + 1.0);
-            squared_expected_value = squared_expected_value * float_i as f64 / (float_i + 1.0)
-                + ret.powi(2) / (float_i + 1.0);
+            // The deviations are accumulated directly: the difference between the mean of the
+            // squares and the square of the mean cancels when the mean is large.
+            let deviation: f64 = ret - expected_value;
+            expected_value += deviation / (float_i + 1.0);
+            squared_deviations += deviation * (ret - expected_value);
 
             if i > 2 {
-                let var =
-                    (float_i + 1.0) / float_i * (squared_expected_value - expected_value.powi(2));
+                let var = squared_deviations / float_i;
                 if self.alpha_stop
                     - 2.0 * normal.cdf(-(float_i + 1.0).sqrt() * self.max_err_stop / var.sqrt())
                     > 0.0
-- 
2.43.0

