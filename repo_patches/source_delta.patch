From a743845ef218281fd0af60266711fce1b1ef9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 01/10] fix: draw the FFT fractional noise from the configured
 seed

---
 crates/RustQuant_stochastics/src/fractional_process.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/fractional_process.rs b/crates/RustQuant_stochastics/src/fractional_process.rs
index 3b2e3a0..1ba4ea2 100644
--- a/crates/RustQuant_stochastics/src/fractional_process.rs
+++ b/crates/RustQuant_stochastics/src/fractional_process.rs
@@ -95,7 +95,7 @@ pub fn fgn_cholesky(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f6
 }
 
 /// Fractional Gaussian noise via FFT.
-pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
+pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f64> {
     if !(0.0..=1.0).contains(&hurst) {
         panic!("Hurst parameter must be between 0 and 1");
     }
@@ -125,9 +125,14 @@ pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
 
     sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re / (2.0 * n as f64)).sqrt(), x.im));
 
-    let rnd = Array1::<Complex<f64>>::random(
+    let mut rng = match seed {
+        Some(seed) => StdRng::seed_from_u64(seed),
+        None => StdRng::from_entropy()
+    };
+    let rnd = Array1::<Complex<f64>>::random_using(
         2 * n,
         ComplexDistribution::new(StandardNormal, StandardNormal),
+        &mut rng,
     );
     let fgn = &sqrt_eigenvalues * &rnd;
     let fft_handler = FftHandler::new(2 * n);
-- 
2.43.0


From 3bed605b223cf1cecc9570cb47c8dee7c7c3430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 02/10] fix: give every path of a seeded fractional simulation
 its own noise

---
 .../RustQuant_stochastics/src/simulation.rs   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 420b356..032607c 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -16,7 +16,7 @@ use RustQuant_math::{Distribution as LocalDistribution, Poisson};
 
 enum NoiseGenerator {
     Dynamic(StdRng),
-    Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64)),
+    Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64), u64),
 }
 
 pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
@@ -49,8 +49,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                    NoiseGenerator::Fractional(fractional_config, seed) => {
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -61,7 +61,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.drift(path[t], times_ref[t]) * dt
                         + stochastic_process.diffusion(path[t], times_ref[t]) * diffusion_scale * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
-                            NoiseGenerator::Fractional(_) => fraction_noise[t],
+                            NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
                             false => 0.0,
@@ -74,8 +74,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                    NoiseGenerator::Fractional(fractional_config, seed) => {
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -84,7 +84,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 for t in 0..config.n_steps {
                     dw = match noise_gen {
                         NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
-                        NoiseGenerator::Fractional(_) => fraction_noise[t],
+                        NoiseGenerator::Fractional(..) => fraction_noise[t],
                     };
                     path.push(
                         path[t]
@@ -110,8 +110,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
 
                 let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                    NoiseGenerator::Fractional(fractional_config, seed) => {
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -125,7 +125,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             times[t] + 0.5 * dt,
                         ) * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
-                            NoiseGenerator::Fractional(_) => fraction_noise[t],
+                            NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
@@ -143,7 +143,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     if config.parallel {
         paths.par_iter_mut().enumerate().for_each(|(i, path)| {
             let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
+                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, base_seed.wrapping_add(i as u64)),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
             scheme(path, noise_gen);
@@ -151,7 +151,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
             let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
+                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, base_seed.wrapping_add(i as u64)),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
             scheme(path, noise_gen);
-- 
2.43.0


From 05a171329b84b744574f0cdfb3251a31c0a09287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 03/10] fix: draw jump times and sizes per path from the
 configured seed

---
 .../src/merton_jump_diffusion.rs              |  9 +++
 crates/RustQuant_stochastics/src/process.rs   |  8 ++
 .../RustQuant_stochastics/src/simulation.rs   | 81 +++++++++++--------
 3 files changed, 63 insertions(+), 35 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs b/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
index 57ac66f..e6a24f6 100644
--- a/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
+++ b/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
@@ -68,6 +68,15 @@ impl StochasticProcess for MertonJumpDiffusion {
         self.gaussian.sample(1).unwrap().first().copied()
     }
 
+    fn jump_with_rng(&self, _x: f64, _t: f64, rng: &mut rand::rngs::StdRng) -> Option<f64> {
+        use rand_distr::Distribution;
+
+        let jump_size =
+            rand_distr::Normal::new(self.gaussian.mean(), self.gaussian.variance().sqrt()).unwrap();
+
+        Some(jump_size.sample(rng))
+    }
+
     fn parameters(&self) -> Vec<f64> {
         vec![self.mu.0(0.0), self.sigma.0(0.0), self.lambda.0(0.0)]
     }
diff --git a/crates/RustQuant_stochastics/src/process.rs b/crates/RustQuant_stochastics/src/process.rs
index a951621..f222623 100644
--- a/crates/RustQuant_stochastics/src/process.rs
+++ b/crates/RustQuant_stochastics/src/process.rs
@@ -216,6 +216,14 @@ pub trait StochasticProcess: Sync {
     /// Base method for the process' jump term (if applicable).
     fn jump(&self, x: f64, t: f64) -> Option<f64>;
 
+    /// The process' jump term, drawing any randomness it needs from `rng`.
+    ///
+    /// Processes with random jump sizes must override this method for their
+    /// simulations to be reproducible from a seed.
+    fn jump_with_rng(&self, x: f64, t: f64, _rng: &mut rand::rngs::StdRng) -> Option<f64> {
+        self.jump(x, t)
+    }
+
     /// Return the model's parameters as a `Vec<f64>`.
     fn parameters(&self) -> Vec<f64> {
         vec![]
diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 032607c..babe464 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -11,14 +11,21 @@ use rayon::prelude::*;
 use rand::prelude::Distribution;
 use rand::{rngs::StdRng, SeedableRng};
 use crate::process::{StochasticProcess, Trajectories, StochasticProcessConfig, StochasticScheme};
-use RustQuant_math::{Distribution as LocalDistribution, Poisson};
-
 
 enum NoiseGenerator {
     Dynamic(StdRng),
     Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64), u64),
 }
 
+/// Source of one path's jumps, independent of the path's Brownian noise.
+struct JumpGenerator {
+    rng: StdRng,
+    counts: rand_distr::Poisson<f64>,
+}
+
+/// Separates the stream of a path's jumps from the stream of its Brownian noise.
+const JUMP_STREAM: u64 = 0x4A55_4D50_5F52_4E47;
+
 pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
         stochastic_process: &T,
         config: &StochasticProcessConfig,
@@ -37,16 +44,12 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     let normal_dist: rand_distr::Normal<f64> = rand_distr::Normal::new(0.0, 1.0).unwrap();
     let diffusion_scale: f64 = dt.sqrt();
 
-    let jumps: &[f64] = match jump_config {
-        Some(lambda) => {
-            &Poisson::new(lambda * dt).sample(config.n_steps).unwrap()
-        }
-        None => &vec![],
-    };
+    let jump_counts: Option<rand_distr::Poisson<f64>> =
+        jump_config.map(|lambda| rand_distr::Poisson::new(lambda * dt).unwrap());
 
     let scheme = match config.scheme {
         StochasticScheme::EulerMaruyama => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, mut jump_gen: Option<JumpGenerator>| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config, seed) => {
@@ -62,16 +65,16 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.diffusion(path[t], times_ref[t]) * diffusion_scale * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
                             NoiseGenerator::Fractional(..) => fraction_noise[t],
-                        } + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        } + match jump_gen {
+                            Some(ref mut jump_gen) => calculate_jump(stochastic_process, path[t], times_ref[t], jump_gen),
+                            None => 0.0,
                         }
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, Option<JumpGenerator>) + Send + Sync>,
         StochasticScheme::Milstein => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, mut jump_gen: Option<JumpGenerator>| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config, seed) => {
@@ -97,16 +100,16 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                                     / 2.0
                                     * 1e-5)
                         * ((dw * dw) - dt))
-                        + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        + match jump_gen {
+                            Some(ref mut jump_gen) => calculate_jump(stochastic_process, path[t], times_ref[t], jump_gen),
+                            None => 0.0,
                         }
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, Option<JumpGenerator>) + Send + Sync>,
         StochasticScheme::StrangSplitting => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, mut jump_gen: Option<JumpGenerator>| {
 
 
                 let fraction_noise: Vec<f64> = match noise_gen {
@@ -127,14 +130,14 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
                             NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        + match jump_gen {
+                            Some(ref mut jump_gen) => calculate_jump(stochastic_process, path[t], times_ref[t], jump_gen),
+                            None => 0.0,
                         }
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, Option<JumpGenerator>) + Send + Sync>,
     };
 
     let mut paths: Vec<Vec<f64>> = vec![vec![config.x_0]; config.m_paths];
@@ -146,7 +149,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, base_seed.wrapping_add(i as u64)),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
-            scheme(path, noise_gen);
+            scheme(path, noise_gen, jump_generator(jump_counts, base_seed, i));
         });
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
@@ -154,7 +157,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, base_seed.wrapping_add(i as u64)),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
-            scheme(path, noise_gen);
+            scheme(path, noise_gen, jump_generator(jump_counts, base_seed, i));
         });
     }
 
@@ -164,21 +167,29 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     }
 }
 
+fn jump_generator(
+    counts: Option<rand_distr::Poisson<f64>>,
+    base_seed: u64,
+    path: usize,
+) -> Option<JumpGenerator> {
+    counts.map(|counts| JumpGenerator {
+        rng: StdRng::seed_from_u64(base_seed.wrapping_add(path as u64) ^ JUMP_STREAM),
+        counts,
+    })
+}
+
 fn calculate_jump<T: StochasticProcess>(
     stochastic_process: &T,
     x: f64,
     time_ref: f64,
-    jump: f64,
+    jump_gen: &mut JumpGenerator,
 ) -> f64 {
-    match stochastic_process.jump(x, time_ref) {
-        Some(jump_size) => {
-            if jump > 0.0 {
-                jump_size
-            } else {
-                0.0
-            }
-        },
-        None => 0.0,
+    if jump_gen.counts.sample(&mut jump_gen.rng) > 0.0 {
+        stochastic_process
+            .jump_with_rng(x, time_ref, &mut jump_gen.rng)
+            .unwrap_or(0.0)
+    } else {
+        0.0
     }
 }
 
-- 
2.43.0


From 200d4d392d96e92a21d6742ea744b7dd0aadf01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 04/10] fix: use increments of variance dt in the Milstein and
 Strang schemes

---
 crates/RustQuant_stochastics/src/simulation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index babe464..cab59ce 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -86,7 +86,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 let mut dw: f64;
                 for t in 0..config.n_steps {
                     dw = match noise_gen {
-                        NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                         NoiseGenerator::Fractional(..) => fraction_noise[t],
                     };
                     path.push(
@@ -97,8 +97,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         * (stochastic_process.diffusion(path[t], times_ref[t])
                         * ((stochastic_process.diffusion(path[t] + 1e-5, times_ref[t])
                                     - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
-                                    / 2.0
-                                    * 1e-5)
+                                    / (2.0 * 1e-5))
                         * ((dw * dw) - dt))
                         + match jump_gen {
                             Some(ref mut jump_gen) => calculate_jump(stochastic_process, path[t], times_ref[t], jump_gen),
@@ -127,7 +126,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             path[t] + 0.5 * stochastic_process.drift(path[t], times[t]) * dt,
                             times[t] + 0.5 * dt,
                         ) * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
                         + match jump_gen {
-- 
2.43.0


From 01c852e8d9803e6b1e3ecbb986bfc109f54c96b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 05/10] fix: scale fractional noise by the length of the
 simulated period, once

---
 crates/RustQuant_stochastics/src/simulation.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index cab59ce..e74130a 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -53,7 +53,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config, seed) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, Some(seed))
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -62,8 +62,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     path.push(
                         path[t]
                         + stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + stochastic_process.diffusion(path[t], times_ref[t]) * diffusion_scale * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + match jump_gen {
                             Some(ref mut jump_gen) => calculate_jump(stochastic_process, path[t], times_ref[t], jump_gen),
@@ -78,7 +78,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config, seed) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, Some(seed))
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -113,7 +113,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config, seed) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, Some(seed))
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
-- 
2.43.0


From 4edf51e8aa4247621104f160882abcb9c4ac998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 06/10] fix: use one valuation date per Black-Scholes-Merton
 computation

---
 .../src/options/black_scholes_merton.rs       | 153 ++++++++++--------
 1 file changed, 90 insertions(+), 63 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 9cf802d..9bbf380 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -126,12 +126,13 @@ impl BlackScholesMerton {
     /// Generalised Black-Scholes European Option Price.
     #[must_use]
     pub fn price(&self) -> f64 {
-        let (S, K, _, r, b) = self.unpack();
-        let T = self.year_fraction();
-        let (d1, d2) = self.d1_d2();
+        let this = self.dated();
+        let (S, K, _, r, b) = this.unpack();
+        let T = this.year_fraction();
+        let (d1, d2) = this.d1_d2();
         let n = Gaussian::default();
 
-        match self.option_type {
+        match this.option_type {
             TypeFlag::Call => S * ((b - r) * T).exp() * n.cdf(d1) - K * (-r * T).exp() * n.cdf(d2),
             TypeFlag::Put => {
                 -S * ((b - r) * T).exp() * n.cdf(-d1) + K * (-r * T).exp() * n.cdf(-d2)
@@ -160,6 +161,15 @@ impl BlackScholesMerton {
         )
     }
 
+    // The same option with its evaluation date fixed, so that a computation
+    // which needs the date several times uses the same one throughout.
+    fn dated(&self) -> Self {
+        Self {
+            evaluation_date: Some(self.evaluation_date.unwrap_or(today())),
+            ..*self
+        }
+    }
+
     // Compute d1 and d2.
     #[must_use]
     fn d1_d2(&self) -> (f64, f64) {
@@ -189,12 +199,13 @@ impl BlackScholesMerton {
     /// Delta of generalised Black-Scholes European Option.
     #[must_use]
     pub fn delta(&self) -> f64 {
-        let (_, _, _, r, b) = self.unpack();
-        let T = self.year_fraction();
-        let d1 = self.d1_d2().0;
+        let this = self.dated();
+        let (_, _, _, r, b) = this.unpack();
+        let T = this.year_fraction();
+        let d1 = this.d1_d2().0;
         let n = Gaussian::default();
 
-        match self.option_type {
+        match this.option_type {
             TypeFlag::Call => ((b - r) * T).exp() * n.cdf(d1),
             TypeFlag::Put => ((b - r) * T).exp() * (n.cdf(d1) - 1.0),
         }
@@ -204,9 +215,10 @@ impl BlackScholesMerton {
     /// Also known as DdeltaDvol.
     #[must_use]
     pub fn vanna(&self) -> f64 {
-        let (_, _, v, r, b) = self.unpack();
-        let T = self.year_fraction();
-        let (d1, d2) = self.d1_d2();
+        let this = self.dated();
+        let (_, _, v, r, b) = this.unpack();
+        let T = this.year_fraction();
+        let (d1, d2) = this.d1_d2();
         let n = Gaussian::default();
 
         -((b - r) * T).exp() * n.pdf(d1) * d2 / v
@@ -216,12 +228,13 @@ impl BlackScholesMerton {
     /// Also known as DdeltaDtime, delta decay or delta bleed.
     #[must_use]
     pub fn charm(&self) -> f64 {
-        let (_, _, v, r, b) = self.unpack();
-        let T = self.year_fraction();
-        let (d1, d2) = self.d1_d2();
+        let this = self.dated();
+        let (_, _, v, r, b) = this.unpack();
+        let T = this.year_fraction();
+        let (d1, d2) = this.d1_d2();
         let n = Gaussian::default();
 
-        match self.option_type {
+        match this.option_type {
             TypeFlag::Call => {
                 ((b - r) * T).exp()
                     * (n.pdf(d1) * ((b / (v * T.sqrt())) - (d2 / (2.0 * T))) + (b - r) * n.cdf(d1))
@@ -237,17 +250,19 @@ impl BlackScholesMerton {
     /// Also known as elasticity or leverage.
     #[must_use]
     pub fn lambda(&self) -> f64 {
-        self.delta() * self.underlying_price / self.price()
+        let this = self.dated();
+        this.delta() * this.underlying_price / this.price()
     }
 
     /// Gamma of generalised Black-Scholes European Option.
     /// Also known as convexity.
     #[must_use]
     pub fn gamma(&self) -> f64 {
+        let this = self.dated();
         let n = Gaussian::default();
-        let (S, _, v, r, b) = self.unpack();
-        let T = self.year_fraction();
-        let (d1, _) = self.d1_d2();
+        let (S, _, v, r, b) = this.unpack();
+        let T = this.year_fraction();
+        let (d1, _) = this.d1_d2();
 
         ((b - r) * T).exp() * n.pdf(d1) / (S * v * T.sqrt())
     }
@@ -262,8 +277,9 @@ impl BlackScholesMerton {
     /// Also known as DgammaDvol.
     #[must_use]
     pub fn zomma(&self) -> f64 {
-        let (d1, d2) = self.d1_d2();
-        self.gamma() * ((d1 * d2 - 1.0) / self.volatility)
+        let this = self.dated();
+        let (d1, d2) = this.d1_d2();
+        this.gamma() * ((d1 * d2 - 1.0) / this.volatility)
     }
 
     /// Zomma percent of generalised Black-Scholes European Option.
@@ -276,11 +292,12 @@ impl BlackScholesMerton {
     /// Also known as DgammaDspot.
     #[must_use]
     pub fn speed(&self) -> f64 {
-        let (S, _, v, _, _) = self.unpack();
-        let T = self.year_fraction();
-        let (d1, _) = self.d1_d2();
+        let this = self.dated();
+        let (S, _, v, _, _) = this.unpack();
+        let T = this.year_fraction();
+        let (d1, _) = this.d1_d2();
 
-        let gamma = self.gamma();
+        let gamma = this.gamma();
 
         -gamma * (1.0 + d1 / (v * T.sqrt())) / S
     }
@@ -289,11 +306,12 @@ impl BlackScholesMerton {
     /// Also known as DgammaDtime.
     #[must_use]
     pub fn colour(&self) -> f64 {
-        let (_, _, v, r, b) = self.unpack();
-        let T = self.year_fraction();
-        let (d1, d2) = self.d1_d2();
+        let this = self.dated();
+        let (_, _, v, r, b) = this.unpack();
+        let T = this.year_fraction();
+        let (d1, d2) = this.d1_d2();
 
-        let gamma = self.gamma();
+        let gamma = this.gamma();
 
         gamma * (r - b + b * d1 / (v * T.sqrt()) + (1.0 - d1 * d2) / (2.0 * T))
     }
@@ -302,9 +320,10 @@ impl BlackScholesMerton {
     /// Also known as zeta.
     #[must_use]
     pub fn vega(&self) -> f64 {
-        let (S, _, _, r, b) = self.unpack();
-        let T = self.year_fraction();
-        let (d1, _) = self.d1_d2();
+        let this = self.dated();
+        let (S, _, _, r, b) = this.unpack();
+        let T = this.year_fraction();
+        let (d1, _) = this.d1_d2();
 
         let n = Gaussian::default();
 
@@ -315,42 +334,46 @@ impl BlackScholesMerton {
     /// Also known as DvegaDvol.
     #[must_use]
     pub fn vomma(&self) -> f64 {
-        let (d1, d2) = self.d1_d2();
+        let this = self.dated();
+        let (d1, d2) = this.d1_d2();
 
-        self.vega() * d1 * d2 / self.volatility
+        this.vega() * d1 * d2 / this.volatility
     }
 
     /// Ultima of generalised Black-Scholes European Option.
     /// Also known as DvommaDvol.
     #[must_use]
     pub fn ultima(&self) -> f64 {
-        let (d1, d2) = self.d1_d2();
+        let this = self.dated();
+        let (d1, d2) = this.d1_d2();
 
-        (self.vomma() / self.volatility) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        (this.vomma() / this.volatility) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
     }
 
     /// Vega Bleed of the generalised Black-Scholes European option.
     /// Also known as DvegaDtime.
     #[must_use]
     pub fn vega_bleed(&self) -> f64 {
-        let (_, _, v, r, b) = self.unpack();
-        let T = self.year_fraction();
-        let (d1, d2) = self.d1_d2();
+        let this = self.dated();
+        let (_, _, v, r, b) = this.unpack();
+        let T = this.year_fraction();
+        let (d1, d2) = this.d1_d2();
 
-        self.vega() * (r - b + b * d1 / (v * T.sqrt()) - (d1 * d2 + 1.0) / (2.0 * T))
+        this.vega() * (r - b + b * d1 / (v * T.sqrt()) - (d1 * d2 + 1.0) / (2.0 * T))
     }
 
     /// Theta of the generalised Black-Scholes European option.
     /// Also known as Expected Bleed.
     #[must_use]
     pub fn theta(&self) -> f64 {
-        let (S, K, v, r, b) = self.unpack();
-        let T = self.year_fraction();
-        let (d1, d2) = self.d1_d2();
+        let this = self.dated();
+        let (S, K, v, r, b) = this.unpack();
+        let T = this.year_fraction();
+        let (d1, d2) = this.d1_d2();
 
         let n = Gaussian::default();
 
-        match self.option_type {
+        match this.option_type {
             TypeFlag::Call => {
                 -S * ((b - r) * T).exp() * n.pdf(d1) * v / (2.0 * T.sqrt())
                     - (b - r) * S * ((b - r) * T).exp() * n.cdf(d1)
@@ -367,20 +390,21 @@ impl BlackScholesMerton {
     /// Rho of the generalised Black-Scholes European option.
     #[must_use]
     pub fn rho(&self) -> f64 {
-        let T = self.year_fraction();
+        let this = self.dated();
+        let T = this.year_fraction();
 
-        match self.option_type {
+        match this.option_type {
             TypeFlag::Call => {
-                self.strike_price
+                this.strike_price
                     * T
-                    * (-self.risk_free_rate * T).exp()
-                    * Gaussian::default().cdf(self.d1_d2().1)
+                    * (-this.risk_free_rate * T).exp()
+                    * Gaussian::default().cdf(this.d1_d2().1)
             }
             TypeFlag::Put => {
-                -self.strike_price
+                -this.strike_price
                     * T
-                    * (-self.risk_free_rate * T).exp()
-                    * Gaussian::default().cdf(-self.d1_d2().1)
+                    * (-this.risk_free_rate * T).exp()
+                    * Gaussian::default().cdf(-this.d1_d2().1)
             }
         }
     }
@@ -389,12 +413,13 @@ impl BlackScholesMerton {
     /// Also known as Rho-2.
     #[must_use]
     pub fn phi(&self) -> f64 {
-        let (S, _, _, r, b) = self.unpack();
-        let T = self.year_fraction();
+        let this = self.dated();
+        let (S, _, _, r, b) = this.unpack();
+        let T = this.year_fraction();
 
-        let (d1, _) = self.d1_d2();
+        let (d1, _) = this.d1_d2();
 
-        match self.option_type {
+        match this.option_type {
             TypeFlag::Call => -T * S * ((b - r) * T).exp() * Gaussian::default().cdf(d1),
             TypeFlag::Put => T * S * ((b - r) * T).exp() * Gaussian::default().cdf(-d1),
         }
@@ -416,24 +441,26 @@ impl BlackScholesMerton {
     /// Also known as Dual Delta or Discounted Probability.
     #[must_use]
     pub fn strike_delta(&self) -> f64 {
+        let this = self.dated();
         let n = Gaussian::default();
 
-        let T = self.year_fraction();
+        let T = this.year_fraction();
 
-        match self.option_type {
-            TypeFlag::Call => -(-self.risk_free_rate * T).exp() * n.cdf(self.d1_d2().1),
-            TypeFlag::Put => (-self.risk_free_rate * T).exp() * n.cdf(-self.d1_d2().1),
+        match this.option_type {
+            TypeFlag::Call => -(-this.risk_free_rate * T).exp() * n.cdf(this.d1_d2().1),
+            TypeFlag::Put => (-this.risk_free_rate * T).exp() * n.cdf(-this.d1_d2().1),
         }
     }
 
     /// Strike Gamma of the generalised Black-Scholes European option.
     #[must_use]
     pub fn strike_gamma(&self) -> f64 {
+        let this = self.dated();
         let n = Gaussian::default();
-        let T = self.year_fraction();
+        let T = this.year_fraction();
 
-        n.pdf(self.d1_d2().1) * (-self.risk_free_rate * T).exp()
-            / (self.strike_price * self.volatility * T.sqrt())
+        n.pdf(this.d1_d2().1) * (-this.risk_free_rate * T).exp()
+            / (this.strike_price * this.volatility * T.sqrt())
     }
 }
 
-- 
2.43.0


From 9ff7ee69ea5d011e11bb2b4521031c5b6fd9b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 07/10] fix: use one valuation date per Nelson-Siegel-Svensson
 computation

---
 .../src/nelson_siegel_svensson.rs             | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs b/crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs
index a3b7121..6078f70 100644
--- a/crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs
+++ b/crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs
@@ -61,14 +61,11 @@ impl NelsonSiegelSvensson {
             lambda2,
         }
     }
-}
 
-impl CurveModel for NelsonSiegelSvensson {
-    /// Returns the forward rate for a given date.
-    fn forward_rate(&self, date: Date) -> f64 {
-        assert!(date > today(), "Date must be in the future.");
+    fn forward_rate_from(&self, today: Date, date: Date) -> f64 {
+        assert!(date > today, "Date must be in the future.");
 
-        let tau = DayCountConvention::Actual_365_25.day_count_factor(today(), date);
+        let tau = DayCountConvention::Actual_365_25.day_count_factor(today, date);
 
         let term1 = f64::exp(-tau / self.lambda1);
         let term2 = (tau / self.lambda1) * term1;
@@ -77,11 +74,10 @@ impl CurveModel for NelsonSiegelSvensson {
         self.beta0 + self.beta1 * term1 + self.beta2 * term2 + self.beta3 * term3
     }
 
-    /// Returns the spot rate for a given date.
-    fn spot_rate(&self, date: Date) -> f64 {
-        assert!(date > today(), "Date must be in the future.");
+    fn spot_rate_from(&self, today: Date, date: Date) -> f64 {
+        assert!(date > today, "Date must be in the future.");
 
-        let tau = DayCountConvention::Actual_365_25.day_count_factor(today(), date);
+        let tau = DayCountConvention::Actual_365_25.day_count_factor(today, date);
 
         let term1 = self.lambda1 * (1. - f64::exp(-tau / self.lambda1)) / tau;
         let term2 = term1 - f64::exp(-tau / self.lambda1);
@@ -90,11 +86,24 @@ impl CurveModel for NelsonSiegelSvensson {
 
         self.beta0 + self.beta1 * term1 + self.beta2 * term2 + self.beta3 * term3
     }
+}
+
+impl CurveModel for NelsonSiegelSvensson {
+    /// Returns the forward rate for a given date.
+    fn forward_rate(&self, date: Date) -> f64 {
+        self.forward_rate_from(today(), date)
+    }
+
+    /// Returns the spot rate for a given date.
+    fn spot_rate(&self, date: Date) -> f64 {
+        self.spot_rate_from(today(), date)
+    }
 
     fn discount_factor(&self, date: Date) -> f64 {
-        let tau = DayCountConvention::Actual_365_25.day_count_factor(today(), date);
+        let today = today();
+        let tau = DayCountConvention::Actual_365_25.day_count_factor(today, date);
 
-        f64::exp(-self.spot_rate(date) * tau / 100.)
+        f64::exp(-self.spot_rate_from(today, date) * tau / 100.)
     }
 }
 
-- 
2.43.0


From fcccd930e7a40d3f405cb7a44c1a172832b1a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 08/10] fix: keep unrelated non-finite partials out of a
 gradient

---
 crates/RustQuant_autodiff/src/accumulate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/RustQuant_autodiff/src/accumulate.rs b/crates/RustQuant_autodiff/src/accumulate.rs
index 2cf1a1c..2b278d3 100644
--- a/crates/RustQuant_autodiff/src/accumulate.rs
+++ b/crates/RustQuant_autodiff/src/accumulate.rs
@@ -43,6 +43,12 @@ impl Accumulate<Vec<f64>> for Variable<'_> {
         for (index, vertex) in self.graph.vertices.borrow().iter().enumerate().rev() {
             let deriv = adjoints[index];
 
+            // Vertices the output does not depend on contribute nothing,
+            // even where their partials are not finite.
+            if deriv == 0.0 {
+                continue;
+            }
+
             adjoints[vertex.parents[0]] += vertex.partials[0] * deriv;
             adjoints[vertex.parents[1]] += vertex.partials[1] * deriv;
         }
-- 
2.43.0


From 5aa7a9e73d40aade691499980759c75e2de4400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 09/10] fix: store a quote's new value even when it differs by
 zero

---
 crates/RustQuant_cashflows/src/quotes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_cashflows/src/quotes.rs b/crates/RustQuant_cashflows/src/quotes.rs
index 7bc6894..96d6716 100644
--- a/crates/RustQuant_cashflows/src/quotes.rs
+++ b/crates/RustQuant_cashflows/src/quotes.rs
@@ -54,7 +54,7 @@ impl SimpleQuote {
             _ => 0.0,
         };
 
-        if diff != 0.0 {
+        if value.is_some() {
             self.value = value;
             // Assuming notify_observers() function exists and does what it's supposed to
             // self.notify_observers();
-- 
2.43.0


From ed2e2aabb5737a40219364b44c956b2b6b6ebb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 10/10] fix: interpolate a curve between its current nodes

---
 crates/RustQuant_data/src/curves.rs | 31 ++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_data/src/curves.rs b/crates/RustQuant_data/src/curves.rs
index bea485b..619b2e0 100644
--- a/crates/RustQuant_data/src/curves.rs
+++ b/crates/RustQuant_data/src/curves.rs
@@ -124,13 +124,17 @@ impl Curve {
             }
         };
 
-        Ok(Self {
+        let mut curve = Self {
             nodes: dates.into_iter().zip(rates.into_iter()).collect(),
             curve_type,
             interpolation_method,
             interpolator,
             nss: None,
-        })
+        };
+        // Of several rates for one date, the nodes keep the last.
+        curve.refresh_interpolator();
+
+        Ok(curve)
     }
 
     /// Create a new Curve from a list of nodes.
@@ -207,13 +211,13 @@ impl Curve {
     /// Set a rate in the curve.
     pub fn set_rate(&mut self, date: Date, rate: f64) {
         self.nodes.insert(date, rate);
+        self.refresh_interpolator();
     }
 
     /// Set multiple rates in the curve.
     pub fn set_rates(&mut self, rates: Vec<(Date, f64)>) {
-        for (date, rate) in rates {
-            self.set_rate(date, rate);
-        }
+        self.nodes.extend(rates);
+        self.refresh_interpolator();
     }
 
     /// Get the first date in the curve.
@@ -279,6 +283,7 @@ impl Curve {
         for value in self.nodes.values_mut() {
             *value += shift;
         }
+        self.refresh_interpolator();
     }
 
     /// Plot the curve.
@@ -340,6 +345,22 @@ impl CostFunction for Curve {
 }
 
 impl Curve {
+    /// Make the interpolator interpolate the current nodes.
+    fn refresh_interpolator(&mut self) {
+        let dates = self.dates();
+        let rates = self.rates();
+
+        match self.interpolation_method {
+            InterpolationMethod::Linear => {
+                self.interpolator = Arc::new(LinearInterpolator::new(dates, rates).unwrap());
+            }
+            InterpolationMethod::Exponential => {
+                self.interpolator = Arc::new(ExponentialInterpolator::new(dates, rates).unwrap());
+            }
+            InterpolationMethod::CubicSpline | InterpolationMethod::Lagrange => {}
+        }
+    }
+
     /// Fit a Nelson-Siegel-Svensson curve to the data.
     fn fit_nss(&mut self) -> Result<(), argmin::core::Error> {
         const CURVE_OPTIM_MAX_ITER: u64 = 69;
-- 
2.43.0

