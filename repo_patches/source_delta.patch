From c45231d9d3b8abefc5b2dfe11dad0e11bc852eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:18 +0000
Subject: [PATCH 01/90] fix: control the integration error when propagating
 backward

---
 nyx-core/src/propagators/instance.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index a6d74b5..dc47999 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -426,7 +426,7 @@ where
                         .estimate(&error_est, &next_state, state_vec);
 
                 if self.details.error <= self.prop.opts.tolerance
-                    || step_size_s <= self.prop.opts.min_step.to_seconds()
+                    || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
                     if next_state.iter().any(|x| x.is_nan()) {
@@ -481,8 +481,9 @@ where
                         * (self.prop.opts.tolerance / self.details.error)
                             .powf(1.0 / f64::from(self.prop.method.order() - 1));
 
-                    step_size_s = if proposed_step_s < self.prop.opts.min_step.to_seconds() {
-                        self.prop.opts.min_step.to_seconds()
+                    step_size_s = if proposed_step_s.abs() < self.prop.opts.min_step.to_seconds() {
+                        // The step is negative when propagating backward.
+                        self.prop.opts.min_step.to_seconds() * step_size_s.signum()
                     } else {
                         proposed_step_s
                     };
-- 
2.43.0


From 67887ce9c8c5259f4207bab0cd7f9be40509bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:19 +0000
Subject: [PATCH 02/90] fix: control the integration error of the last step of
 a propagation

---
 nyx-core/src/propagators/instance.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index dc47999..39965eb 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -181,10 +181,21 @@ where
                 // Take one final step of exactly the needed duration until the stop time
                 let prev_step_size = self.step_size;
                 let prev_step_kind = self.fixed_step;
-                self.set_step(stop_time - epoch, true);
+                self.set_step(stop_time - epoch, prev_step_kind);
 
                 self.single_step()?;
 
+                if self.state.epoch() != stop_time {
+                    // The error was too large for a step of that duration, so an adaptive step was shortened.
+                    // Publish this intermediate step and keep going.
+                    if let Some(ref chan) = maybe_tx_chan
+                        && let Err(e) = chan.send(self.state)
+                    {
+                        warn!("{e} when sending on channel")
+                    }
+                    continue;
+                }
+
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
                     && let Err(e) = chan.send(self.state)
@@ -444,7 +455,12 @@ where
                         );
                     }
 
-                    self.details.step = step_size_s * Unit::Second;
+                    self.details.step = if self.details.attempts > 1 {
+                        step_size_s * Unit::Second
+                    } else {
+                        // The step was not adapted: keep its exact duration.
+                        self.step_size
+                    };
                     if self.details.error < self.prop.opts.tolerance {
                         // Let's increase the step size for the next iteration.
                         // Error is less than tolerance, let's attempt to increase the step for the next iteration.
-- 
2.43.0


From 1471e3fe22b50d8d4a44ffee7d0dc750ff5fd127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:19 +0000
Subject: [PATCH 03/90] fix: use the magnitude of the state change in the
 largest error control

---
 nyx-core/src/propagators/error_ctrl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/propagators/error_ctrl.rs b/nyx-core/src/propagators/error_ctrl.rs
index 30b670d..e61f0e4 100644
--- a/nyx-core/src/propagators/error_ctrl.rs
+++ b/nyx-core/src/propagators/error_ctrl.rs
@@ -138,7 +138,7 @@ impl ErrorControl {
                 let state_delta = candidate - cur_state;
                 let mut max_err = 0.0;
                 for (i, prop_err_i) in error_est.iter().enumerate() {
-                    let err = if state_delta[i] > REL_ERR_THRESH {
+                    let err = if state_delta[i].abs() > REL_ERR_THRESH {
                         (prop_err_i / state_delta[i]).abs()
                     } else {
                         prop_err_i.abs()
-- 
2.43.0


From 6b187e99414c1dd562be09d121dc45405bc002df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:20 +0000
Subject: [PATCH 04/90] fix: RungeKutta4 is a fixed step method whatever the
 options

---
 nyx-core/src/propagators/propagator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/propagators/propagator.rs b/nyx-core/src/propagators/propagator.rs
index 014905b..edc0bfa 100644
--- a/nyx-core/src/propagators/propagator.rs
+++ b/nyx-core/src/propagators/propagator.rs
@@ -102,7 +102,8 @@ where
             log_progress: true,
             almanac,
             step_size: self.opts.init_step,
-            fixed_step: self.opts.fixed_step,
+            // RK4 has no error estimate, so its step cannot be adapted.
+            fixed_step: self.opts.fixed_step || self.method == IntegratorMethod::RungeKutta4,
             k,
         }
     }
-- 
2.43.0


From 705b9030e43a3cba0176d1e465776f3f040a21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:48 +0000
Subject: [PATCH 05/90] fix: integrate the state transition matrix with the
 partials on its left at each stage

---
 nyx-core/src/dynamics/spacecraft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 3fecb4c..1047633 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -205,13 +205,13 @@ impl Dynamics for SpacecraftDynamics {
         let mut d_x = OVector::<f64, Const<90>>::zeros();
 
         // Maybe I use this only when estimating the orbit state from a spacecraft, but that functionality will soon disappear.
-        match ctx.stm {
+        match osc_sc.stm {
             Some(stm) => {
                 // Call the gradient (also called the dual EOM function of the force models)
                 let (state, grad) = self.dual_eom(delta_t_s, &osc_sc, almanac)?;
 
-                // Apply the gradient to the STM
-                let stm_dt = stm * grad;
+                // Apply the gradient to the STM: d(STM)/dt = A * STM
+                let stm_dt = grad * stm;
 
                 // Rebuild the state vector
                 for (i, val) in state.iter().enumerate() {
-- 
2.43.0


From edc9cc29517a2b86960e2890f13e7678c3a0e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:11 +0000
Subject: [PATCH 06/90] fix: third body partials no longer differentiate the
 position of the third body

---
 nyx-core/src/dynamics/orbital.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/dynamics/orbital.rs b/nyx-core/src/dynamics/orbital.rs
index 273de65..39651a9 100644
--- a/nyx-core/src/dynamics/orbital.rs
+++ b/nyx-core/src/dynamics/orbital.rs
@@ -284,14 +284,12 @@ impl AccelModel for PointMasses {
                     action: "computing third body gravitational pull",
                 })?;
 
-            let r_ij: Vector3<OHyperdual<f64, Const<7>>> = hyperspace_from_vector(&st_ij.radius_km);
+            // The position of the third body does not depend on the spacecraft state, so it has no dual part.
+            let r_ij: Vector3<OHyperdual<f64, Const<7>>> =
+                st_ij.radius_km.map(OHyperdual::<f64, Const<7>>::from_real);
             let r_ij3 = norm(&r_ij).powi(3);
 
-            // The difference leads to the dual parts nulling themselves out, so let's fix that.
-            let mut r_j = radius - r_ij; // sc as seen from 3rd body
-            r_j[0][1] = 1.0;
-            r_j[1][2] = 1.0;
-            r_j[2][3] = 1.0;
+            let r_j = radius - r_ij; // sc as seen from 3rd body
 
             let r_j3 = norm(&r_j).powi(3);
             let mut third_body_acc_d = r_j / r_j3 + r_ij / r_ij3;
-- 
2.43.0


From 7f7b88e10f44c573f25d9c39615142b1fc18bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:11 +0000
Subject: [PATCH 07/90] fix: the reflectivity partial of the solar pressure is
 defined for a zero coefficient

---
 nyx-core/src/dynamics/solarpressure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/solarpressure.rs b/nyx-core/src/dynamics/solarpressure.rs
index 284f96e..de7b20c 100644
--- a/nyx-core/src/dynamics/solarpressure.rs
+++ b/nyx-core/src/dynamics/solarpressure.rs
@@ -222,8 +222,10 @@ impl ForceModel for SolarPressure {
             }
         }
 
-        // Compute the partial wrt to Cr.
-        let wrt_cr = self.eom(ctx, almanac)? / ctx.srp.coeff_reflectivity;
+        // Compute the partial wrt to Cr: the force is linear in Cr, so this is the force for a Cr of one (Cr may be zero).
+        let mut unit_cr = *ctx;
+        unit_cr.srp.coeff_reflectivity = 1.0;
+        let wrt_cr = self.eom(&unit_cr, almanac)?;
         for j in 0..3 {
             grad[(3, j)] = wrt_cr[j];
         }
-- 
2.43.0


From 4f6e85bf3884da3e3f584b34e3428c613d691fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:11 +0000
Subject: [PATCH 08/90] fix: load COF gravity files from a configuration

---
 nyx-core/src/io/gravity.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 586244a..18e3b47 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -104,8 +104,10 @@ impl GravityFieldData {
                 action: "fetching gravity field frame",
             })?;
 
-        if !cfg.gunzipped && cfg.filepath.ends_with(".cof")
-            || cfg.gunzipped && cfg.filepath.ends_with(".cof.gz")
+        // NOTE: Path::ends_with compares whole path components, so compare the file name itself.
+        let filename = cfg.filepath.to_string_lossy().to_ascii_lowercase();
+        if !cfg.gunzipped && filename.ends_with(".cof")
+            || cfg.gunzipped && filename.ends_with(".cof.gz")
         {
             Self::from_cof(cfg.filepath, cfg.degree, cfg.order, cfg.gunzipped, frame)
         } else {
-- 
2.43.0


From f3e47727b894f88329345d837afdad35d227c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:57 +0000
Subject: [PATCH 09/90] fix: parse COF coefficients concatenated with a
 positive exponent

---
 nyx-core/src/io/gravity.rs | 82 ++++++++++++--------------------------
 1 file changed, 26 insertions(+), 56 deletions(-)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 18e3b47..59f17ba 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -237,64 +237,34 @@ impl GravityFieldData {
                         } else {
                             // There is a space as a delimiting character between the C_nm and S_nm only if the S_nm
                             // is a positive number, otherwise, they are continuous (what a great format).
-                            if (item.matches('-').count() == 3 && !item.starts_with('-'))
-                                || item.matches('-').count() == 4
-                            {
+                            let bytes = item.as_bytes();
+                            let s_nm_start = (1..bytes.len()).find(|&i| {
+                                // A minus sign which is not that of an exponent starts the S_nm.
+                                bytes[i] == b'-' && !bytes[i - 1].eq_ignore_ascii_case(&b'e')
+                            });
+                            if let Some(s_nm_start) = s_nm_start {
                                 // Now we have two items concatenated into one... great
-                                let parts: Vec<&str> = item.split('-').collect();
-                                if parts.len() == 5 {
-                                    // That mean we have five minus signs, so both the C and S are negative.
-                                    let c_nm_str = "-".to_owned() + parts[1] + "-" + parts[2];
-                                    match f64::from_str(&c_nm_str) {
-                                        Ok(val) => c_nm = val,
-                                        Err(_) => {
-                                            return Err(NyxError::FileUnreadable {
-                                                msg: format!(
-                                                    "Harmonics file:
-                                                could not parse C_nm `{item}` on line {lno}"
-                                                ),
-                                            });
-                                        }
-                                    }
-                                    // That mean we have five minus signs, so both the C and S are negative.
-                                    let s_nm_str = "-".to_owned() + parts[3] + "-" + parts[4];
-                                    match f64::from_str(&s_nm_str) {
-                                        Ok(val) => s_nm = val,
-                                        Err(_) => {
-                                            return Err(NyxError::FileUnreadable {
-                                                msg: format!(
-                                                    "Harmonics file:
-                                                could not parse S_nm `{item}` on line {lno}"
-                                                ),
-                                            });
-                                        }
-                                    }
-                                } else {
-                                    // That mean we have fouve minus signs, and since both values are concatenated, C_nm is positive and S_nm is negative
-                                    let c_nm_str = parts[0].to_owned() + "-" + parts[1];
-                                    match f64::from_str(&c_nm_str) {
-                                        Ok(val) => c_nm = val,
-                                        Err(_) => {
-                                            return Err(NyxError::FileUnreadable {
-                                                msg: format!(
-                                                    "Harmonics file:
-                                                could not parse C_nm `{item}` on line {lno}"
-                                                ),
-                                            });
-                                        }
+                                let (c_nm_str, s_nm_str) = item.split_at(s_nm_start);
+                                match f64::from_str(c_nm_str) {
+                                    Ok(val) => c_nm = val,
+                                    Err(_) => {
+                                        return Err(NyxError::FileUnreadable {
+                                            msg: format!(
+                                                "Harmonics file:
+                                            could not parse C_nm `{item}` on line {lno}"
+                                            ),
+                                        });
                                     }
-                                    // That mean we have five minus signs, so both the C and S are negative.
-                                    let s_nm_str = "-".to_owned() + parts[2] + "-" + parts[3];
-                                    match f64::from_str(&s_nm_str) {
-                                        Ok(val) => s_nm = val,
-                                        Err(_) => {
-                                            return Err(NyxError::FileUnreadable {
-                                                msg: format!(
-                                                    "Harmonics file:
-                                                could not parse S_nm `{item}` on line {lno}"
-                                                ),
-                                            });
-                                        }
+                                }
+                                match f64::from_str(s_nm_str) {
+                                    Ok(val) => s_nm = val,
+                                    Err(_) => {
+                                        return Err(NyxError::FileUnreadable {
+                                            msg: format!(
+                                                "Harmonics file:
+                                            could not parse S_nm `{item}` on line {lno}"
+                                            ),
+                                        });
                                     }
                                 }
                             } else {
-- 
2.43.0


From 1aff6380248f000f48597e41853c1ab398629de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:19 +0000
Subject: [PATCH 10/90] fix: the Ruggiero guidance law coasts in eclipse when a
 maximum eclipse is set

---
 nyx-core/src/dynamics/guidance/ruggiero.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/ruggiero.rs b/nyx-core/src/dynamics/guidance/ruggiero.rs
index 4dead80..1d1e5a7 100644
--- a/nyx-core/src/dynamics/guidance/ruggiero.rs
+++ b/nyx-core/src/dynamics/guidance/ruggiero.rs
@@ -435,14 +435,16 @@ impl GuidanceLaw for Ruggiero {
                         > max_eclipse
                     {
                         // Coast in eclipse
-                        sc.mode = GuidanceMode::Coast;
+                        sc.mut_mode(GuidanceMode::Coast);
                     } else {
-                        sc.mode = GuidanceMode::Thrust;
+                        sc.mut_mode(GuidanceMode::Thrust);
                     }
-                } else if sc.mode() == GuidanceMode::Coast {
-                    debug!("enabling steering: {:x}", sc.orbit);
+                } else {
+                    if sc.mode() == GuidanceMode::Coast {
+                        debug!("enabling steering: {:x}", sc.orbit);
+                    }
+                    sc.mut_mode(GuidanceMode::Thrust);
                 }
-                sc.mut_mode(GuidanceMode::Thrust);
             } else {
                 if sc.mode() == GuidanceMode::Thrust {
                     debug!("disabling steering: {:x}", sc.orbit);
-- 
2.43.0


From a62903dc456de183ca9aaf68a033c79042df8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 11/90] fix: remove the duplicate epochs of a trajectory stored
 out of order

---
 nyx-core/src/md/trajectory/traj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e3f9fbb..85f6d75 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -73,10 +73,10 @@ where
     }
     /// Orders the states, can be used to store the states out of order
     pub fn finalize(&mut self) {
-        // Remove duplicate epochs
-        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
-        // And sort
+        // Sort (stable, so the first of several states at the same epoch stays first)
         self.states.sort_by_key(|a| a.epoch());
+        // And remove duplicate epochs, which are now next to one another
+        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
     }
 
     /// Evaluate the trajectory at this specific epoch.
-- 
2.43.0


From ce873a09fd9a6d24ee30587005711ae722b8879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 12/90] fix: honour the excluded bounds when filtering a
 trajectory by offset

---
 nyx-core/src/md/trajectory/traj.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 85f6d75..e0a7705 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -179,17 +179,20 @@ where
             return self;
         }
         // Rebuild an epoch bound.
+        let first_epoch = self.states.first().unwrap().epoch();
         let start = match bound.start_bound() {
-            Unbounded => self.states.first().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
+            Unbounded => Unbounded,
+            Included(offset) => Included(first_epoch + *offset),
+            Excluded(offset) => Excluded(first_epoch + *offset),
         };
 
         let end = match bound.end_bound() {
-            Unbounded => self.states.last().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
+            Unbounded => Unbounded,
+            Included(offset) => Included(first_epoch + *offset),
+            Excluded(offset) => Excluded(first_epoch + *offset),
         };
 
-        self.filter_by_epoch(start..=end)
+        self.filter_by_epoch((start, end))
     }
     /// Store this trajectory arc to a parquet file with the default configuration (depends on the state type, search for `export_params` in the documentation for details).
     pub fn to_parquet_simple<P: AsRef<Path>>(&self, path: P) -> Result<PathBuf, Box<dyn Error>> {
-- 
2.43.0


From 04863646ff31575669a9d021cf3481b14aed8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 13/90] fix: interpolate the propellant mass from the states
 around the requested epoch

---
 nyx-core/src/md/trajectory/interpolatable.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 6114973..077c12d 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -94,13 +94,17 @@ impl Interpolatable for Spacecraft {
             self.orbit.frame,
         );
 
-        // Fuel is linearly interpolated -- should really be a Lagrange interpolation here
-        let first = states.first().unwrap();
-        let last = states.last().unwrap();
-        let prop_kg_dt = (last.mass.prop_mass_kg - first.mass.prop_mass_kg)
-            / (last.epoch() - first.epoch()).to_seconds();
-
-        self.mass.prop_mass_kg += prop_kg_dt * (epoch - first.epoch()).to_seconds();
+        // Fuel is linearly interpolated between the states on either side of the requested epoch
+        let next_idx = states
+            .partition_point(|state| state.epoch() < epoch)
+            .clamp(1, n - 1);
+        let prev = &states[next_idx - 1];
+        let next = &states[next_idx];
+        let prop_kg_dt = (next.mass.prop_mass_kg - prev.mass.prop_mass_kg)
+            / (next.epoch() - prev.epoch()).to_seconds();
+
+        self.mass.prop_mass_kg =
+            prev.mass.prop_mass_kg + prop_kg_dt * (epoch - prev.epoch()).to_seconds();
         // Thrust direction is a discrete guidance output and should not be interpolated.
         self.thrust_direction = None;
 
-- 
2.43.0


From de6efc26784393d3243a56f603c0a27f27eaca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 14/90] fix: read the reflectivity and drag coefficients back
 from trajectory files

---
 nyx-core/src/md/trajectory/sc_traj.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index a4e9717..fbf3547 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -248,6 +248,8 @@ impl Traj<Spacecraft> {
             (StateParameter::ThrustX(), false),
             (StateParameter::ThrustY(), false),
             (StateParameter::ThrustZ(), false),
+            (StateParameter::Cr(), false),
+            (StateParameter::Cd(), false),
         ];
 
         let reader = builder.build().context(ParquetSnafu {
-- 
2.43.0


From d7088b1ebb4b1acb5c24682204e44a96c1e72dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:38 +0000
Subject: [PATCH 15/90] fix: read the thrust direction of a trajectory file as
 one vector

---
 nyx-core/src/md/trajectory/sc_traj.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index fbf3547..842c389 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -23,6 +23,7 @@ use crate::cosmic::{GuidanceMode, Spacecraft};
 use crate::dynamics::guidance::{ThrustDirectionReplay, Thruster};
 use crate::errors::{FromAlmanacSnafu, NyxError};
 use crate::io::{InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
+use crate::linalg::Vector3;
 use crate::md::prelude::{Interpolatable, StateParameter};
 use crate::time::{Duration, Epoch, TimeUnits};
 use anise::analysis::prelude::OrbitalElement;
@@ -409,11 +410,25 @@ impl Traj<Spacecraft> {
                     });
                 }
 
+                // The components of the thrust direction must be set together since it is a unit vector.
+                let mut thrust_direction: Option<Vector3<f64>> = None;
                 for (param, data) in &shared_data {
                     if data.is_valid(i) {
-                        state.set_value(*param, data.value(i)).unwrap();
+                        let axis = match param {
+                            StateParameter::ThrustX() => 0,
+                            StateParameter::ThrustY() => 1,
+                            StateParameter::ThrustZ() => 2,
+                            _ => {
+                                state.set_value(*param, data.value(i)).unwrap();
+                                continue;
+                            }
+                        };
+                        thrust_direction.get_or_insert_with(Vector3::zeros)[axis] = data.value(i);
                     }
                 }
+                if thrust_direction.is_some() {
+                    state.mut_thrust_direction(thrust_direction);
+                }
 
                 traj.states.push(state);
             }
-- 
2.43.0


From 32c111dbfd00b5fbf6c45e6fb88ecff9c67ba399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:59 +0000
Subject: [PATCH 16/90] fix: record the trajectory in the frame of the initial
 state whatever the integration frame

---
 nyx-core/src/propagators/instance.rs | 45 ++++++++++++++--------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 39965eb..abc572f 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -25,6 +25,7 @@ use crate::md::trajectory::{Interpolatable, Traj};
 use crate::time::{Duration, Epoch, Unit};
 use anise::almanac::Almanac;
 use anise::errors::MathError;
+use anise::frames::Frame;
 use log::{info, warn};
 use rayon::iter::ParallelBridge;
 use rayon::prelude::ParallelIterator;
@@ -83,6 +84,22 @@ where
         self.fixed_step = fixed;
     }
 
+    /// Returns the current state in the provided frame, which is only set if it differs from the integration frame.
+    fn state_in_frame(&self, frame: Option<Frame>) -> Result<D::StateType, PropagationError> {
+        let mut state = self.state;
+        if let Some(frame) = frame {
+            let orbit = self
+                .almanac
+                .transform_to(state.orbit(), frame, None)
+                .context(DynamicsAlmanacSnafu {
+                    action: "transforming state from desired integration frame",
+                })
+                .context(DynamicsSnafu)?;
+            state.set_orbit(orbit);
+        }
+        Ok(state)
+    }
+
     #[allow(clippy::erasing_op)]
     pub(crate) fn propagate<F>(
         &mut self,
@@ -164,16 +181,7 @@ where
                     }
 
                     // Rotate back if needed
-                    if let Some(original_frame) = original_frame {
-                        let new_orbit = self
-                            .almanac
-                            .transform_to(self.state.orbit(), original_frame, None)
-                            .context(DynamicsAlmanacSnafu {
-                                action: "transforming state from desired integration frame",
-                            })
-                            .context(DynamicsSnafu)?;
-                        self.state.set_orbit(new_orbit);
-                    }
+                    self.state = self.state_in_frame(original_frame)?;
 
                     return Ok(self.state);
                 }
@@ -189,7 +197,7 @@ where
                     // The error was too large for a step of that duration, so an adaptive step was shortened.
                     // Publish this intermediate step and keep going.
                     if let Some(ref chan) = maybe_tx_chan
-                        && let Err(e) = chan.send(self.state)
+                        && let Err(e) = chan.send(self.state_in_frame(original_frame)?)
                     {
                         warn!("{e} when sending on channel")
                     }
@@ -198,7 +206,7 @@ where
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(self.state_in_frame(original_frame)?)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -219,16 +227,7 @@ where
                 }
 
                 // Rotate back if needed
-                if let Some(original_frame) = original_frame {
-                    let new_orbit = self
-                        .almanac
-                        .transform_to(self.state.orbit(), original_frame, None)
-                        .context(DynamicsAlmanacSnafu {
-                            action: "transforming state from desired integration frame",
-                        })
-                        .context(DynamicsSnafu)?;
-                    self.state.set_orbit(new_orbit);
-                }
+                self.state = self.state_in_frame(original_frame)?;
 
                 return Ok(self.state);
             } else {
@@ -264,7 +263,7 @@ where
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(self.state_in_frame(original_frame)?)
                 {
                     warn!("{e} when sending on channel")
                 }
-- 
2.43.0


From 2fb5c4007cbb9f82591abebc4847e6356c1d84cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:45 +0000
Subject: [PATCH 17/90] fix: stop on events when propagating backward, in the
 event frame, and on the last step

---
 nyx-core/src/propagators/event.rs    | 25 +++++++++++++++++++++----
 nyx-core/src/propagators/instance.rs | 16 ++++++++++++----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/propagators/event.rs b/nyx-core/src/propagators/event.rs
index 6d07cd7..ea6eb6e 100644
--- a/nyx-core/src/propagators/event.rs
+++ b/nyx-core/src/propagators/event.rs
@@ -169,17 +169,24 @@ where
 
         traj.finalize();
 
-        // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
-        let last_traj_state = traj.states.last().cloned().unwrap();
-        if end_state == last_traj_state {
+        if crossing_counts < trigger {
             return Err(PropagationError::NthEventError {
                 nth: trigger,
                 found: crossing_counts,
             });
         }
 
+        // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
+        // The event is between the latest published state and the end state.
+        let last_traj_state = if max_duration.is_negative() {
+            traj.states.first().cloned().unwrap()
+        } else {
+            traj.states.last().cloned().unwrap()
+        };
+
         // Add the final state to the trajectory so we can search it in full.
         traj.states.push(end_state);
+        traj.finalize();
 
         // We have one bracket to search.
         let traj_at = |epoch: Epoch| -> Result<f64, AnalysisError> {
@@ -189,7 +196,17 @@ where
                     err: format!("{e}"),
                 })?;
 
-            event.eval(state.orbit(), &self.almanac)
+            let orbit = if let Some(observer_frame) = event_frame {
+                self.almanac
+                    .transform_to(state.orbit(), observer_frame, None)
+                    .map_err(|e| AnalysisError::GenericAnalysisError {
+                        err: format!("{e}"),
+                    })?
+            } else {
+                state.orbit()
+            };
+
+            event.eval(orbit, &self.almanac)
         };
 
         // Else Brent solver between these states
diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index abc572f..90a1a5c 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -168,8 +168,6 @@ where
             if (!backprop && epoch + self.step_size > stop_time)
                 || (backprop && epoch + self.step_size <= stop_time)
             {
-                // We don't check for the interrupt condition on the last step.
-                // If we're reached this far without hitting it, we most certainly won't trigger it.
                 if stop_time == epoch {
                     // No propagation necessary
                     #[cfg(not(target_arch = "wasm32"))]
@@ -193,6 +191,15 @@ where
 
                 self.single_step()?;
 
+                if let Some(ref mut condition) = stop_condition
+                    && condition(self.state_in_frame(original_frame)?)?
+                {
+                    // Stopping condition triggered on the way to the stop time: do not send the new state either.
+                    self.set_step(prev_step_size.abs(), prev_step_kind);
+                    self.state = self.state_in_frame(original_frame)?;
+                    return Ok(self.state);
+                }
+
                 if self.state.epoch() != stop_time {
                     // The error was too large for a step of that duration, so an adaptive step was shortened.
                     // Publish this intermediate step and keep going.
@@ -251,13 +258,14 @@ where
                 self.single_step()?;
 
                 if let Some(ref mut condition) = stop_condition
-                    && condition(self.state)?
+                    && condition(self.state_in_frame(original_frame)?)?
                 {
                     // Stopping condition triggered. We don't send
                     // the new state on the channel for the caller to know that the exact
                     // condition they are seeking is between the last state on the channel
                     // and the state we're returning
-
+                    self.step_size = self.step_size.abs(); // Restore to a positive step size
+                    self.state = self.state_in_frame(original_frame)?;
                     return Ok(self.state);
                 }
 
-- 
2.43.0


From dc711ee623ede840e830a83d695eaa8bcacf3bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:22 +0000
Subject: [PATCH 18/90] fix: interpolate the first interval of a trajectory of
 thirteen states from its own samples

---
 nyx-core/src/md/trajectory/traj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e0a7705..4b59194 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -110,7 +110,7 @@ where
 
                 // Check that we have enough samples
                 if last_idx == self.states.len() {
-                    first_idx = last_idx.saturating_sub(2 * num_left);
+                    first_idx = last_idx.saturating_sub(INTERPOLATION_SAMPLES);
                 }
 
                 let mut states = Vec::with_capacity(last_idx - first_idx);
-- 
2.43.0


From 0c64c5f96f52b59c335947b4aac3e0bf638c60fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:22 +0000
Subject: [PATCH 19/90] fix: interpolate trajectories with times relative to
 the requested epoch

---
 nyx-core/src/md/trajectory/interpolatable.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 077c12d..877711a 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -53,7 +53,9 @@ impl Interpolatable for Spacecraft {
     fn interpolate(mut self, epoch: Epoch, states: &[Self]) -> Result<Self, InterpolationError> {
         // Interpolate the Orbit first
         // Statically allocated arrays of the maximum number of samples
-        let mut epochs_tdb = [0.0; INTERPOLATION_SAMPLES];
+        // The times are relative to the requested epoch: seconds past J2000 are only resolved to some hundred
+        // nanoseconds, which the interpolation would amplify, notably near the ends of the trajectory.
+        let mut offsets_s = [0.0; INTERPOLATION_SAMPLES];
         let mut xs = [0.0; INTERPOLATION_SAMPLES];
         let mut ys = [0.0; INTERPOLATION_SAMPLES];
         let mut zs = [0.0; INTERPOLATION_SAMPLES];
@@ -68,20 +70,17 @@ impl Interpolatable for Spacecraft {
             vxs[cno] = state.orbit.velocity_km_s.x;
             vys[cno] = state.orbit.velocity_km_s.y;
             vzs[cno] = state.orbit.velocity_km_s.z;
-            epochs_tdb[cno] = state.epoch().to_et_seconds();
+            offsets_s[cno] = (state.epoch() - epoch).to_seconds();
         }
 
         // Ensure that if we don't have enough states, we only interpolate using what we have instead of INTERPOLATION_SAMPLES
         let n = states.len();
 
-        let (x_km, vx_km_s) =
-            hermite_eval(&epochs_tdb[..n], &xs[..n], &vxs[..n], epoch.to_et_seconds())?;
+        let (x_km, vx_km_s) = hermite_eval(&offsets_s[..n], &xs[..n], &vxs[..n], 0.0)?;
 
-        let (y_km, vy_km_s) =
-            hermite_eval(&epochs_tdb[..n], &ys[..n], &vys[..n], epoch.to_et_seconds())?;
+        let (y_km, vy_km_s) = hermite_eval(&offsets_s[..n], &ys[..n], &vys[..n], 0.0)?;
 
-        let (z_km, vz_km_s) =
-            hermite_eval(&epochs_tdb[..n], &zs[..n], &vzs[..n], epoch.to_et_seconds())?;
+        let (z_km, vz_km_s) = hermite_eval(&offsets_s[..n], &zs[..n], &vzs[..n], 0.0)?;
 
         self.orbit = Orbit::new(
             x_km,
-- 
2.43.0


From 425432ecfa48440ebef8083d5772bf35d0782474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 20/90] fix: keep the Izzo solution on the requested side
 whatever the sign of the transfer normal

---
 nyx-core/src/tools/lambert/izzo.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index a0729f3..bb146e4 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -60,16 +60,11 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let i_r1 = r_init / ri_norm;
     let i_r2 = r_final / rf_norm;
 
+    // Normal to the short way transfer. The caller's choice of direction is applied below, and must
+    // not depend on the orientation of the frame: the short way always goes around this vector.
     let mut i_h = i_r1.cross(&i_r2);
     i_h /= i_h.norm(); // Ensure normalization
 
-    // Normalize orientation so i_h points along +z, matching the
-    // lamberthub reference. The user's prograde/retrograde choice is
-    // then applied on its own, decoupled from ECI-frame parity.
-    if i_h.z < 0.0 {
-        i_h = -i_h;
-    }
-
     // Geometry of the problem
     let lambda = 1.0 - c_norm / s;
     let mut m_lambda = lambda.sqrt();
-- 
2.43.0


From e5b5ad2fd68ce78b159e9ef587fed85a979fb6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 21/90] fix: verify a targeter solution in the frame of its
 objectives

---
 nyx-core/src/md/opti/targeter.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/md/opti/targeter.rs b/nyx-core/src/md/opti/targeter.rs
index 437738d..a129381 100644
--- a/nyx-core/src/md/opti/targeter.rs
+++ b/nyx-core/src/md/opti/targeter.rs
@@ -18,7 +18,7 @@
 
 use snafu::ResultExt;
 
-use crate::cosmic::AstroPhysicsSnafu;
+use crate::cosmic::{AstroAlmanacSnafu, AstroPhysicsSnafu};
 use crate::dynamics::guidance::LocalFrame;
 use crate::errors::TargetingError;
 use crate::md::AstroSnafu;
@@ -275,7 +275,7 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 println!("{mnvr}");
                 let mut prop = self.prop.clone();
                 prop.dynamics = prop.dynamics.with_guidance_law(Arc::new(mnvr));
-                prop.with(solution.corrected_state, almanac)
+                prop.with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
@@ -283,14 +283,22 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 // This isn't a finite burn maneuver, let's just apply the correction
                 // Propagate until achievement epoch
                 self.prop
-                    .with(solution.corrected_state, almanac)
+                    .with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
         };
 
-        // Build the partials
-        let xf_dual = OrbitGrad::from(xf.orbit);
+        // Build the partials, in the objective frame if there is one
+        let xf_dual = match &self.objective_frame {
+            Some(frame) => OrbitGrad::from(
+                almanac
+                    .transform_to(xf.orbit, *frame, None)
+                    .context(AstroAlmanacSnafu)
+                    .context(AstroSnafu)?,
+            ),
+            None => OrbitGrad::from(xf.orbit),
+        };
 
         let mut is_bplane_tgt = false;
         for obj in &self.objectives {
-- 
2.43.0


From 33043638569706c45a66509f7bbfba61bba5683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 22/90] fix: express every correction of the targeter in the
 local frame of the initial state

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 08af3b7..dd6033f 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -430,7 +430,8 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         // Now, let's apply the correction to the initial state
                         if let Some(frame) = self.correction_frame {
                             // The following will error if the frame is not local
-                            let dcm_vnc2inertial = this_xi
+                            // and all corrections are those in the local frame of the uncorrected state.
+                            let dcm_vnc2inertial = xi_start
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
@@ -721,7 +722,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
             // Now, let's apply the correction to the initial state
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
-- 
2.43.0


From 40b59698a2a7c297f9daff83e20a203e4c155d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:30 +0000
Subject: [PATCH 23/90] fix: disperse the coefficients and propellant mass by
 their own mean and standard deviation

---
 nyx-core/src/mc/multivariate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index b3dbef8..353bb4e 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -168,13 +168,16 @@ impl MvnSpacecraft {
                 } else {
                     match disp.param {
                         StateParameter::Cr() => {
-                            cov[(7, 7)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(6, 6)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[6] = disp.mean.unwrap_or(0.0);
                         }
                         StateParameter::Cd() => {
-                            cov[(8, 8)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(7, 7)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[7] = disp.mean.unwrap_or(0.0);
                         }
-                        StateParameter::DryMass() | StateParameter::PropMass() => {
-                            cov[(9, 9)] = disp.mean.unwrap_or(0.0).powi(2);
+                        StateParameter::PropMass() => {
+                            cov[(8, 8)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[8] = disp.mean.unwrap_or(0.0);
                         }
                         _ => return Err(Box::new(StateError::ReadOnly { param: disp.param })),
                     }
-- 
2.43.0


From 4570cfccb720a34e3245b45d2af7c2f470753c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:30 +0000
Subject: [PATCH 24/90] fix: report the dispersions as those added to the
 template state

---
 nyx-core/src/mc/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 353bb4e..a5396f1 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -323,7 +323,7 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
         let mut actual_dispersions = Vec::new();
         for disp in &self.dispersions {
             // Compute the delta
-            let delta = self.template.value(disp.param).unwrap() - state.value(disp.param).unwrap();
+            let delta = state.value(disp.param).unwrap() - self.template.value(disp.param).unwrap();
             actual_dispersions.push((disp.param, delta));
         }
 
-- 
2.43.0


From ae5fad5f7846c945a6b85ced03cd1213be286ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:30 +0000
Subject: [PATCH 25/90] fix: report the standard deviations of a covariance as
 such

---
 nyx-core/src/mc/multivariate.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index a5396f1..47c78a5 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -252,39 +252,39 @@ impl MvnSpacecraft {
         let dispersions = vec![
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::X))
-                .std_dev(cov[(0, 0)])
+                .std_dev(cov[(0, 0)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Y))
-                .std_dev(cov[(1, 1)])
+                .std_dev(cov[(1, 1)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Z))
-                .std_dev(cov[(2, 2)])
+                .std_dev(cov[(2, 2)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VX))
-                .std_dev(cov[(3, 3)])
+                .std_dev(cov[(3, 3)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VY))
-                .std_dev(cov[(4, 4)])
+                .std_dev(cov[(4, 4)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VZ))
-                .std_dev(cov[(5, 5)])
+                .std_dev(cov[(5, 5)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cr())
-                .std_dev(cov[(6, 6)])
+                .std_dev(cov[(6, 6)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cd())
-                .std_dev(cov[(7, 7)])
+                .std_dev(cov[(7, 7)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::PropMass())
-                .std_dev(cov[(8, 8)])
+                .std_dev(cov[(8, 8)].sqrt())
                 .build(),
         ];
 
-- 
2.43.0


From d244b806449a6d908c606727329d72af5dfa760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:52 +0000
Subject: [PATCH 26/90] fix: accept dispersions on the B-plane parameters

---
 nyx-core/src/mc/multivariate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 47c78a5..217c887 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -99,7 +99,7 @@ impl MvnSpacecraft {
 
         let num_orbital = dispersions
             .iter()
-            .filter(|disp| disp.param.is_orbital())
+            .filter(|disp| disp.param.is_orbital() || disp.param.is_b_plane())
             .count();
 
         if num_orbital > 0 {
@@ -111,7 +111,7 @@ impl MvnSpacecraft {
 
             for (rno, disp) in dispersions
                 .iter()
-                .filter(|d| d.param.is_orbital())
+                .filter(|d| d.param.is_orbital() || d.param.is_b_plane())
                 .enumerate()
             {
                 let partial = if let StateParameter::Element(oe) = disp.param {
@@ -163,7 +163,7 @@ impl MvnSpacecraft {
 
         if dispersions.len() > num_orbital {
             for disp in &dispersions {
-                if disp.param.is_orbital() {
+                if disp.param.is_orbital() || disp.param.is_b_plane() {
                     continue;
                 } else {
                     match disp.param {
-- 
2.43.0


From ee9b5789118a98e168cecaab0a5288fa2f05b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:53 +0000
Subject: [PATCH 27/90] fix: accept singular covariances whose eigenvalues
 round below zero

---
 nyx-core/src/mc/multivariate.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 217c887..fa2458c 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -225,17 +225,13 @@ impl MvnSpacecraft {
         cov: SMatrix<f64, 9, 9>,
         mean: SVector<f64, 9>,
     ) -> Result<Self, Box<NyxError>> {
-        // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil
-        match cov.eigenvalues() {
-            None => return Err(Box::new(NyxError::CovarianceMatrixNotPsd)),
-            Some(evals) => {
-                for eigenval in &evals {
-                    if *eigenval < 0.0 {
-                        return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
-                    }
-                }
-            }
-        };
+        // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil,
+        // to within the rounding errors of the decomposition (a covariance may be singular).
+        let evals = cov.symmetric_eigenvalues();
+        let tol = evals.amax() * 1e-12;
+        if evals.iter().any(|eigenval| eigenval.is_nan() || *eigenval < -tol) {
+            return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
+        }
 
         let svd = cov.svd_unordered(false, true);
         if svd.v_t.is_none() {
-- 
2.43.0


From c943f997e2208254eabd850af1f1944577499ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:53 +0000
Subject: [PATCH 28/90] fix: export each Monte Carlo run until its own end

---
 nyx-core/src/mc/results.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/mc/results.rs b/nyx-core/src/mc/results.rs
index 52f06a3..a7591de 100644
--- a/nyx-core/src/mc/results.rs
+++ b/nyx-core/src/mc/results.rs
@@ -284,8 +284,11 @@ where
                 let states =
                     if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                         // Must interpolate the data!
-                        let start = cfg.start_epoch.unwrap_or_else(|| start.unwrap());
-                        let end = cfg.end_epoch.unwrap_or_else(|| end.unwrap());
+                        // The bounds default to those of this run, and runs may end at different epochs.
+                        let start = cfg
+                            .start_epoch
+                            .unwrap_or_else(|| success.traj.first().epoch());
+                        let end = cfg.end_epoch.unwrap_or_else(|| success.state.epoch());
                         let step = cfg.step.unwrap_or_else(|| 1.minutes());
                         success
                             .traj
-- 
2.43.0


From c574af66cf9afaf51eff1092edeb31f605783a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:39 +0000
Subject: [PATCH 29/90] fix: factor the correlations rather than the covariance
 of a dispersion

---
 nyx-core/src/mc/multivariate.rs | 52 ++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index fa2458c..5f8b623 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -70,6 +70,32 @@ pub struct MvnSpacecraft {
     pub std_norm_distr: Normal<f64>,
 }
 
+/// Returns a square root L of the covariance C, such that L L^T = C.
+///
+/// The decomposition is that of the correlations: the variances of the velocities are many orders of magnitude smaller
+/// than those of the positions, and would be lost in the numerical errors of a decomposition of the covariance itself.
+fn sqrt_covar(cov: &SMatrix<f64, 9, 9>) -> Result<SMatrix<f64, 9, 9>, NyxError> {
+    let sigmas = cov.diagonal().map(|var| var.sqrt());
+    let correl = SMatrix::<f64, 9, 9>::from_fn(|i, j| {
+        if sigmas[i] > 0.0 && sigmas[j] > 0.0 {
+            cov[(i, j)] / (sigmas[i] * sigmas[j])
+        } else {
+            0.0
+        }
+    });
+
+    let eigen = correl.symmetric_eigen();
+    let mut sqrt_s_v = eigen.eigenvectors;
+
+    for (i, mut col) in sqrt_s_v.column_iter_mut().enumerate() {
+        // The correlations may be singular, in which case rounding errors may cause slightly negative eigenvalues.
+        col *= eigen.eigenvalues[i].max(0.0).sqrt();
+        col.component_mul_assign(&sigmas);
+    }
+
+    Ok(sqrt_s_v)
+}
+
 impl MvnSpacecraft {
     /// Creates a new mulivariate state generator from a mean and covariance on the set of state parameters.
     /// The covariance must be positive semi definite.
@@ -186,23 +212,13 @@ impl MvnSpacecraft {
         }
 
         // At this point, the cov matrix is a 9x9 with all dispersions transformed into the Cartesian state space.
-        let svd = cov.svd_unordered(false, true);
-        if svd.v_t.is_none() {
-            return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
-        }
-
-        let sqrt_s = svd.singular_values.map(|x| x.sqrt());
-        let mut sqrt_s_v_t = svd.v_t.unwrap().transpose();
-
-        for (i, mut col) in sqrt_s_v_t.column_iter_mut().enumerate() {
-            col *= sqrt_s[i];
-        }
+        let sqrt_s_v = sqrt_covar(&cov).map_err(Box::new)?;
 
         Ok(Self {
             template,
             dispersions,
             mean,
-            sqrt_s_v: sqrt_s_v_t,
+            sqrt_s_v,
             std_norm_distr: Normal::new(0.0, 1.0).unwrap(),
         })
     }
@@ -233,17 +249,7 @@ impl MvnSpacecraft {
             return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
         }
 
-        let svd = cov.svd_unordered(false, true);
-        if svd.v_t.is_none() {
-            return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
-        }
-
-        let s = svd.singular_values;
-        // Item by item multiplication
-        let mut sqrt_s_v = svd.v_t.unwrap().transpose();
-        for (i, mut col) in sqrt_s_v.column_iter_mut().enumerate() {
-            col *= s[i].sqrt();
-        }
+        let sqrt_s_v = sqrt_covar(&cov).map_err(Box::new)?;
 
         let dispersions = vec![
             StateDispersion::builder()
-- 
2.43.0


From 1c6c091f503266bcb7f2e3f6aaf527337b9a413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 30/90] fix: map dispersions into the Cartesian state with an
 orthogonal decomposition

---
 nyx-core/src/mc/multivariate.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 5f8b623..4c27eb9 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -20,7 +20,7 @@ use super::{DispersedState, StateDispersion};
 use crate::cosmic::AstroPhysicsSnafu;
 use crate::errors::StateError;
 use crate::md::prelude::BPlane;
-use crate::md::{AstroSnafu, StateParameter};
+use crate::md::{AstroSnafu, StateParameter, TargetingError};
 use crate::{NyxError, Spacecraft, State, pseudo_inverse};
 use anise::analysis::prelude::OrbitalElement;
 use anise::astro::orbit_gradient::OrbitGrad;
@@ -173,7 +173,17 @@ impl MvnSpacecraft {
 
             // Now that we have the Jacobian that rotates from the Cartesian elements to the dispersions parameters,
             // let's compute the inverse of this Jacobian to rotate from the dispersion params into the Cartesian elements.
-            let jac_inv = pseudo_inverse!(&jac)?;
+            // With up to six parameters, use an orthogonal decomposition: the Jacobian mixes angles, lengths and velocities,
+            // and is too poorly scaled for the normal equations, which square its condition number.
+            let jac_inv = if num_orbital <= 6 {
+                let qr = jac.transpose().qr();
+                match qr.r().transpose().try_inverse() {
+                    Some(r_t_inv) => qr.q() * r_t_inv,
+                    None => return Err(Box::new(TargetingError::SingularJacobian)),
+                }
+            } else {
+                pseudo_inverse!(&jac)?
+            };
 
             // Rotate the orbital covariance back into the Cartesian state space, making this a 6x6.
             let orbit_cov = &jac_inv * &covar * jac_inv.transpose();
-- 
2.43.0


From 9bf013895f9d506f5afc594052a75faf1d533e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:09 +0000
Subject: [PATCH 31/90] fix: zero sensitivity for the measurement types which
 are not available

---
 nyx-core/src/od/msr/sensitivity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 46a3cb0..2a832e3 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -96,7 +96,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
-- 
2.43.0


From b4ba5fb8301589da51b415c5940e7a9fc9bbc59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:09 +0000
Subject: [PATCH 32/90] fix: compute the range and Doppler sensitivities at the
 expected range and range-rate

---
 nyx-core/src/od/msr/sensitivity.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 2a832e3..2e52a4a 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -120,7 +120,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &GroundStation,
         almanac: &Almanac,
@@ -141,15 +141,9 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // Always recompute the expected to range, a better model for scalar OD processing.
-                let ρ_km = tx
-                    .azimuth_elevation_of(receiver, None, almanac)
-                    .context(ODAlmanacSnafu {
-                        action: "computing range for Doppler measurement",
-                    })?
-                    .range_km;
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                // Always recompute the expected range and range-rate, a better model for scalar OD processing.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -169,7 +163,8 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                // The reported range may be ambiguous or noisy, so use the expected range.
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From 46a846b2ef76d827f8230f0dac92e711c30b44c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:57 +0000
Subject: [PATCH 33/90] fix: azimuth and elevation sensitivities in the frame
 and unit of the measurement

---
 nyx-core/src/od/msr/sensitivity.rs | 72 +++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 2e52a4a..5511cf7 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -21,9 +21,10 @@ use crate::linalg::allocator::Allocator;
 use crate::md::prelude::Interpolatable;
 use crate::od::{GroundStation, ODAlmanacSnafu, ODError, TrackingDevice};
 use crate::{Spacecraft, State};
+use anise::errors::AlmanacError;
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, Matrix3, OMatrix, U1, Vector3};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -115,6 +116,40 @@ where
     }
 }
 
+/// Returns the rotation from the SEZ frame of the ground station to the frame of the receiver.
+fn sez_to_frame(
+    tx: &GroundStation,
+    rx: &Spacecraft,
+    almanac: &Almanac,
+) -> Result<Matrix3<f64>, ODError> {
+    let epoch = rx.orbit.epoch;
+    let tx_orbit = tx.to_orbit(epoch, almanac).context(ODAlmanacSnafu {
+        action: "computing transmitter location when computing sensitivity matrix",
+    })?;
+
+    let sez_to_fixed = tx_orbit
+        .dcm_from_topocentric_to_body_fixed()
+        .map_err(|source| AlmanacError::AlmanacPhysics {
+            action: "computing SEZ DCM of the transmitter",
+            source: Box::new(source),
+        })
+        .context(ODAlmanacSnafu {
+            action: "computing SEZ DCM when computing sensitivity matrix",
+        })?;
+
+    let fixed_to_frame = almanac
+        .rotate(tx_orbit.frame, rx.orbit.frame, epoch)
+        .map_err(|source| AlmanacError::Orientation {
+            action: "rotating from the transmitter frame to the receiver frame",
+            source: Box::new(source),
+        })
+        .context(ODAlmanacSnafu {
+            action: "computing SEZ DCM when computing sensitivity matrix",
+        })?;
+
+    Ok(fixed_to_frame.rot_mat * sez_to_fixed.rot_mat)
+}
+
 impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
     for ScalarSensitivity<Spacecraft, Spacecraft, GroundStation>
 {
@@ -181,16 +216,17 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Azimuth => {
-                let denom = delta_r.x.powi(2) + delta_r.y.powi(2);
-                let m11 = -delta_r.y / denom;
-                let m12 = delta_r.x / denom;
-                let m13 = 0.0;
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
+                // Build the sensitivity in the SEZ frame of the transmitter and rotate back into the estimation frame.
+                let sez_dcm = sez_to_frame(tx, rx, almanac)?;
+                let rho_sez = sez_dcm.transpose() * delta_r;
+                let denom = rho_sez.x.powi(2) + rho_sez.y.powi(2);
+                // The azimuth is measured from the North, positive toward the East, in degrees.
+                let row = sez_dcm
+                    * (Vector3::new(rho_sez.y, -rho_sez.x, 0.0) / denom).map(f64::to_degrees);
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
+                        row.x, row.y, row.z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                     ]);
 
                 Ok(Self {
@@ -200,17 +236,23 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Elevation => {
-                let r2 = delta_r.norm().powi(2);
-                let z2 = delta_r.z.powi(2);
+                // Build the sensitivity in the SEZ frame of the transmitter and rotate back into the estimation frame.
+                let sez_dcm = sez_to_frame(tx, rx, almanac)?;
+                let rho_sez = sez_dcm.transpose() * delta_r;
+                let r2 = rho_sez.norm_squared();
+                let rho_xy = (rho_sez.x.powi(2) + rho_sez.y.powi(2)).sqrt();
 
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
-                let m11 = -(delta_r.x * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m12 = -(delta_r.y * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m13 = (delta_r.x.powi(2) + delta_r.y.powi(2)).sqrt() / r2;
+                let row = sez_dcm
+                    * Vector3::new(
+                        -(rho_sez.x * rho_sez.z) / (r2 * rho_xy),
+                        -(rho_sez.y * rho_sez.z) / (r2 * rho_xy),
+                        rho_xy / r2,
+                    )
+                    .map(f64::to_degrees);
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
+                        row.x, row.y, row.z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                     ]);
 
                 Ok(Self {
-- 
2.43.0


From bbeb6a78bbd89d27bd2709c983dbb92be27ee960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:58 +0000
Subject: [PATCH 34/90] fix: set the constant bias of the measurement noise

---
 nyx-core/src/od/ground_station/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 7b09536..1c4872c 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -182,14 +182,12 @@ impl GroundStation {
             .get_mut(&msr_type)
             .ok_or(ODError::NoiseNotConfigured {
                 kind: format!("{msr_type:?}"),
-            })
-            .unwrap();
+            })?;
 
-        if this_noise.bias.is_none() {
-            this_noise.bias = Some(GaussMarkov::ZERO);
-        }
-
-        this_noise.bias.unwrap().constant = Some(bias_constant);
+        this_noise
+            .bias
+            .get_or_insert(GaussMarkov::ZERO)
+            .constant = Some(bias_constant);
 
         Ok(self)
     }
-- 
2.43.0


From c01f97eb6a266f6bd0862e9134822cc2bbbdbd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:38 +0000
Subject: [PATCH 35/90] fix: average the two-way azimuth along the short arc

---
 nyx-core/src/od/msr/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/msr/types.rs b/nyx-core/src/od/msr/types.rs
index e08f938..9d95fc7 100644
--- a/nyx-core/src/od/msr/types.rs
+++ b/nyx-core/src/od/msr/types.rs
@@ -21,7 +21,11 @@ use arrow::datatypes::{DataType, Field};
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, str::FromStr};
 
-use crate::{io::InputOutputError, od::ODError};
+use crate::{
+    io::InputOutputError,
+    od::ODError,
+    utils::{between_0_360, between_pm_180},
+};
 
 #[cfg(feature = "python")]
 use pyo3::prelude::*;
@@ -134,7 +138,9 @@ impl MeasurementType {
                 Ok(doppler_km_s + noise / 2.0_f64.sqrt())
             }
             Self::Azimuth => {
-                let az_deg = (aer_t1.azimuth_deg + aer_t0.azimuth_deg) * 0.5;
+                // Average along the short arc, which may cross the North.
+                let delta_az_deg = between_pm_180(aer_t1.azimuth_deg - aer_t0.azimuth_deg);
+                let az_deg = between_0_360(aer_t0.azimuth_deg + delta_az_deg * 0.5);
                 Ok(az_deg + noise / 2.0_f64.sqrt())
             }
             Self::Elevation => {
-- 
2.43.0


From e4fac56288c56f6df432c19336d351daae76b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:38 +0000
Subject: [PATCH 36/90] fix: measure the component of the position of each
 measurement type

---
 nyx-core/src/od/position/trk_device.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index ef7bac9..3a35a90 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -73,10 +73,20 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             }
         }
 
-        for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
+        for msr_type in self.measurement_types.iter().copied() {
+            let position_km = match msr_type {
+                MeasurementType::X => rx.orbit.radius_km.x,
+                MeasurementType::Y => rx.orbit.radius_km.y,
+                MeasurementType::Z => rx.orbit.radius_km.z,
+                _ => {
+                    return Err(ODError::MeasurementSimError {
+                        details: format!("{msr_type:?} is not supported by XyzDevice"),
+                    });
+                }
+            };
             msr.push(
                 msr_type,
-                rx.orbit.radius_km[ii]
+                position_km
                     + noises.get(&msr_type).unwrap_or(&0.0)
                     + self.measurement_bias(msr_type, rx.orbit.epoch)?,
             );
-- 
2.43.0


From 09c713fe3c8a138bc3e00bc53f0452a8a5ec35e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:45 +0000
Subject: [PATCH 37/90] fix: add the measurement bias to the computed
 observation

---
 nyx-core/src/od/position/trk_device.rs     | 4 +---
 nyx-core/src/od/process/mod.rs             | 2 +-
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index 3a35a90..4218f29 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -86,9 +86,7 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             };
             msr.push(
                 msr_type,
-                position_km
-                    + noises.get(&msr_type).unwrap_or(&0.0)
-                    + self.measurement_bias(msr_type, rx.orbit.epoch)?,
+                position_km + noises.get(&msr_type).unwrap_or(&0.0),
             );
         }
 
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 33689e4..1b336a7 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -327,7 +327,7 @@ where
                                         // Apply any biases on the computed observation
                                         let computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
-                                            - device.measurement_bias_vector::<MsrSize>(
+                                            + device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index c94d8e2..5c6df27 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -182,7 +182,7 @@ where
                     // Only recompute the computed observation from the update state estimate.
                     residual.computed_obs = computed_meas
                         .observation::<MsrSize>(&residual.msr_types)
-                        - device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
+                        + device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
 
                     // Update the postfit residual.
                     residual.postfit = &residual.real_obs - &residual.computed_obs;
-- 
2.43.0


From 7ccf66d15ad34f4aeb4d568e4f239ab0b9972c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:56 +0000
Subject: [PATCH 38/90] fix: interlink range-rate from the velocity relative to
 the transmitter

---
 nyx-core/src/od/interlink/trk_device.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index c447ba4..2b68967 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -205,9 +205,9 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
 
             let rho_tx_frame = rx_in_tx_frame.radius_km - observer.orbit.radius_km;
 
-            // Compute the range-rate \dot ρ. Note that rx_in_tx_frame is already the relative velocity of rx wrt tx!
-            let range_rate_km_s =
-                rho_tx_frame.dot(&rx_in_tx_frame.velocity_km_s) / rho_tx_frame.norm();
+            // Compute the range-rate \dot ρ from the relative velocity: the transmitter is moving in its own frame.
+            let rho_dot_tx_frame = rx_in_tx_frame.velocity_km_s - observer.orbit.velocity_km_s;
+            let range_rate_km_s = rho_tx_frame.dot(&rho_dot_tx_frame) / rho_tx_frame.norm();
 
             let noises = self.noises(observer.epoch(), rng)?;
 
-- 
2.43.0


From 3dbd65baec09edba6ad472f078c5f84c4a96ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:56 +0000
Subject: [PATCH 39/90] fix: interlink sensitivities at the expected range and
 range-rate, zero if not measured

---
 nyx-core/src/od/interlink/sensitivity.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 936ccd3..2a1d67e 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -58,7 +58,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
@@ -82,7 +82,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
@@ -107,17 +107,9 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Doppler measurement data is missing".to_string(),
-                    }
-                })?;
+                // Use the expected range and range-rate, the range might not be measured.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -137,11 +129,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From 3e12bfec5a1c082b2a2f31137ca20150c7b15669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:23 +0000
Subject: [PATCH 40/90] fix: ground asset sensitivities in the frame of the
 asset

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index bd27961..2e4a099 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -94,6 +94,11 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 details: "computing sensitivity ground asset / interlink".into(),
             })?
             .orbit;
+        let transmitter = almanac
+            .transform_to(transmitter, receiver.frame, None)
+            .context(ODAlmanacSnafu {
+                action: "computing transmitter location when computing sensitivity matrix",
+            })?;
 
         let jac = rx
             .geodetic_to_cartesian_jacobian()
-- 
2.43.0


From 88767ea8781d67bc24e7d0d0dcabfed745ce4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:36 +0000
Subject: [PATCH 41/90] fix: ground asset sensitivities at the expected range
 and range-rate, zero if not measured

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 2e4a099..9135e83 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -48,7 +48,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <GroundAsset as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
@@ -74,13 +74,12 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
     /// ground asset. Then we compute the AER as seen from the ground asset.
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &GroundAsset,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
     ) -> Result<Self, ODError> {
         let receiver = rx.orbit();
-        let loc = rx.to_location();
 
         // Compute the device location in the receiver frame because we compute the sensitivity in that frame.
         // This frame is required because the scalar measurements are frame independent, but the sensitivity
@@ -115,20 +114,9 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = match msr.data.get(&MeasurementType::Range) {
-                    Some(range_km) => *range_km,
-                    None => {
-                        almanac
-                            .azimuth_elevation_range_sez_from_location(transmitter, loc, None, None)
-                            .context(ODAlmanacSnafu {
-                                action: "computing range for Doppler measurement",
-                            })?
-                            .range_km
-                    }
-                };
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                // Use the expected range and range-rate, the range might not be measured.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -148,7 +136,7 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From 630ccd27d4082edf4827dd79d85b7b2953ff8d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:43 +0000
Subject: [PATCH 42/90] fix: hand off the tracking between all of the
 overlapping strands, and allow none

---
 nyx-core/src/od/simulator/arc.rs | 76 ++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 255bc97..64e0ae3 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -366,7 +366,7 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
                             // We're turning on the tracking sooner than the schedule allows, so let's fix that.
                             strand_range.start = prev_strand.end + off;
                             // Check that we didn't eat into the whole tracking opportunity
-                            if strand_range.start > strand_end {
+                            if strand_range.start > strand_range.end {
                                 // Lost this whole opportunity.
                                 warn!(
                                     "Dropped {name} [{strand_start}, {strand_end}]: cadence {:?}",
@@ -400,39 +400,59 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
         // Build all of the strands, remembering which tracker they come from.
         let mut cfg_as_vec = Vec::new();
         for (name, cfg) in &built_cfg {
-            if let Some(strands) = &cfg.strands {
-                for (ii, strand) in strands.iter().enumerate() {
-                    cfg_as_vec.push((name.clone(), ii, *strand));
+            if let Some(strands) = &cfg.strands
+                && self.devices.contains_key(name)
+            {
+                for strand in strands {
+                    cfg_as_vec.push((name.clone(), *strand));
                 }
             }
         }
         // Iterate through the strands by chronological order. Cannot use maps because we change types.
-        cfg_as_vec.sort_by_key(|(_, _, strand)| strand.start);
-        for (ii, (this_name, this_pos, this_strand)) in
-            cfg_as_vec.iter().take(cfg_as_vec.len() - 1).enumerate()
-        {
-            // Grab the config
-            if let Some(config) = self.configs[this_name].scheduler.as_ref() {
-                // Grab the next strand, chronologically
-                if let Some((next_name, next_pos, next_strand)) = cfg_as_vec.get(ii + 1) {
-                    if config.handoff == Handoff::Greedy && this_strand.end >= next_strand.start {
-                        // Modify the built configurations to change the start time of the next strand because the current one is greedy.
-                        let next_config = built_cfg.get_mut(next_name).unwrap();
-                        let new_start = this_strand.end + next_config.sampling;
-                        next_config.strands.as_mut().unwrap()[*next_pos].start = new_start;
-                        info!("Greedy handoff for {this_name}: {next_name} delayed to {new_start}");
-                    } else if config.handoff == Handoff::Eager
-                        && this_strand.end >= next_strand.start
-                    {
-                        let this_config = built_cfg.get_mut(this_name).unwrap();
-                        let new_end = next_strand.start - this_config.sampling;
-                        this_config.strands.as_mut().unwrap()[*this_pos].end = new_end;
-                        info!("Eager handoff for {this_name}: {this_name} terminated at {new_end}");
-                    }
+        cfg_as_vec.sort_by_key(|(_, strand)| strand.start);
+        let mut ii = 0;
+        while ii + 1 < cfg_as_vec.len() {
+            let (this_name, this_strand) = cfg_as_vec[ii].clone();
+            let (next_name, next_strand) = cfg_as_vec[ii + 1].clone();
+            let handoff = self.configs[&this_name].scheduler.map(|sched| sched.handoff);
+
+            if this_strand.end < next_strand.start {
+                ii += 1;
+            } else if handoff == Some(Handoff::Greedy) {
+                // Change the start time of the next strand because the current one is greedy.
+                let new_start = this_strand.end + built_cfg[&next_name].sampling;
+                info!("Greedy handoff for {this_name}: {next_name} delayed to {new_start}");
+                if new_start > next_strand.end {
+                    // The current strand covers all of the next one.
+                    cfg_as_vec.remove(ii + 1);
+                } else {
+                    cfg_as_vec[ii + 1].1.start = new_start;
+                    cfg_as_vec[ii + 1..].sort_by_key(|(_, strand)| strand.start);
+                }
+            } else if handoff == Some(Handoff::Eager) {
+                let new_end = next_strand.start - built_cfg[&this_name].sampling;
+                info!("Eager handoff for {this_name}: {this_name} terminated at {new_end}");
+                if new_end < this_strand.start {
+                    // No time left for this strand before the next one.
+                    cfg_as_vec.remove(ii);
                 } else {
-                    // Reached the end
-                    break;
+                    cfg_as_vec[ii].1.end = new_end;
+                    ii += 1;
                 }
+            } else {
+                ii += 1;
+            }
+        }
+        // Store the strands after the handoffs.
+        for (name, cfg) in built_cfg.iter_mut() {
+            if let Some(strands) = cfg.strands.as_mut()
+                && self.devices.contains_key(name)
+            {
+                *strands = cfg_as_vec
+                    .iter()
+                    .filter(|(strand_name, _)| strand_name == name)
+                    .map(|(_, strand)| *strand)
+                    .collect();
             }
         }
 
-- 
2.43.0


From 91835c74bf6cc4e7cd244f8d3b8022662b0318f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:43 +0000
Subject: [PATCH 43/90] fix: measurements of different types are not equal

---
 nyx-core/src/od/msr/measurement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nyx-core/src/od/msr/measurement.rs b/nyx-core/src/od/msr/measurement.rs
index 0e824b8..77d1a45 100644
--- a/nyx-core/src/od/msr/measurement.rs
+++ b/nyx-core/src/od/msr/measurement.rs
@@ -124,6 +124,7 @@ impl PartialEq for Measurement {
     fn eq(&self, other: &Self) -> bool {
         self.tracker == other.tracker
             && self.epoch == other.epoch
+            && self.data.len() == other.data.len()
             && self.data.iter().all(|(key, &value)| {
                 if let Some(&other_value) = other.data.get(key) {
                     (value - other_value).abs() < 1e-10
-- 
2.43.0


From e37c99e232dc4811508266dbacde4fa3f3651af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:43 +0000
Subject: [PATCH 44/90] fix: filter the tracking data by the kind of offset
 bounds which is given

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 6878e9e..c4f8e3e 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -20,8 +20,7 @@ use core::fmt;
 use hifitime::prelude::{Duration, Epoch};
 use indexmap::{IndexMap, IndexSet};
 use log::{info, warn};
-use std::ops::Bound::{self, Excluded, Included, Unbounded};
-use std::ops::{Add, AddAssign, RangeBounds};
+use std::ops::{Add, AddAssign, Bound, RangeBounds};
 
 mod io_ccsds_tdm;
 mod io_parquet;
@@ -395,18 +394,12 @@ impl TrackingDataArc {
         if self.is_empty() {
             return self;
         }
-        // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.start_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
-
-        let end = match bound.end_bound() {
-            Unbounded => self.end_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
+        // Rebuild an epoch bound, of the same kind.
+        let first = self.start_epoch().unwrap();
+        let start = bound.start_bound().map(|offset| first + *offset);
+        let end = bound.end_bound().map(|offset| first + *offset);
 
-        self.filter_by_epoch(start..end)
+        self.filter_by_epoch((start, end))
     }
 
     /// Returns a new tracking arc that only contains measurements from the desired tracker.
-- 
2.43.0


From 42174194b747ee58248bac842d55dfa280b6fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:04 +0000
Subject: [PATCH 45/90] fix: read every measurement type of a tracking data
 file, and only where it is set

---
 .../src/od/msr/trackingdata/io_parquet.rs     | 124 ++++++------------
 1 file changed, 40 insertions(+), 84 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 781392a..63943d2 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -23,12 +23,11 @@ use arrow::array::{Array, Float64Builder, StringBuilder};
 use arrow::datatypes::{DataType, Field, Schema};
 use arrow::record_batch::RecordBatch;
 use arrow::{
-    array::{Float64Array, PrimitiveArray, StringArray},
-    datatypes,
+    array::{Float64Array, StringArray},
     record_batch::RecordBatchReader,
 };
 use hifitime::{Epoch, TimeScale};
-use indexmap::IndexMap;
+use indexmap::{IndexMap, IndexSet};
 use log::{info, warn};
 use parquet::arrow::ArrowWriter;
 use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
@@ -40,6 +39,20 @@ use std::sync::Arc;
 
 use super::TrackingDataArc;
 
+/// All of the measurement types which may be stored.
+const MSR_TYPES: [MeasurementType; 10] = [
+    MeasurementType::Range,
+    MeasurementType::Doppler,
+    MeasurementType::Azimuth,
+    MeasurementType::Elevation,
+    MeasurementType::ReceiveFrequency,
+    MeasurementType::TransmitFrequency,
+    MeasurementType::TransmitFrequencyRate,
+    MeasurementType::X,
+    MeasurementType::Y,
+    MeasurementType::Z,
+];
+
 impl TrackingDataArc {
     /// Loads a tracking arc from its serialization in parquet.
     ///
@@ -57,19 +70,18 @@ impl TrackingDataArc {
         // Check the schema
         let mut has_epoch = false;
         let mut has_tracking_dev = false;
-        let mut range_avail = false;
-        let mut doppler_avail = false;
-        let mut az_avail = false;
-        let mut el_avail = false;
+        let mut msr_avail = IndexSet::new();
         for field in &reader.schema().fields {
             match field.name().as_str() {
                 "Epoch (UTC)" => has_epoch = true,
                 "Tracking device" => has_tracking_dev = true,
-                "Range (km)" => range_avail = true,
-                "Doppler (km/s)" => doppler_avail = true,
-                "Azimuth (deg)" => az_avail = true,
-                "Elevation (deg)" => el_avail = true,
-                _ => {}
+                name => {
+                    for msr_type in MSR_TYPES {
+                        if msr_type.to_field().name() == name {
+                            msr_avail.insert(msr_type);
+                        }
+                    }
+                }
             }
         }
 
@@ -88,9 +100,9 @@ impl TrackingDataArc {
         );
 
         ensure!(
-            range_avail || doppler_avail || az_avail || el_avail,
+            !msr_avail.is_empty(),
             MissingDataSnafu {
-                which: "`Range (km)` or `Doppler (km/s)` or `Azimuth (deg)` or `Elevation (deg)`"
+                which: "`Range (km)` or `Doppler (km/s)` or `Azimuth (deg)` or `Elevation (deg)` or any other measurement type"
             }
         );
 
@@ -116,57 +128,18 @@ impl TrackingDataArc {
                 .downcast_ref::<StringArray>()
                 .unwrap();
 
-            let range_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if range_avail {
-                Some(
-                    batch
-                        .column_by_name("Range (km)")
-                        .unwrap()
-                        .as_any()
-                        .downcast_ref::<Float64Array>()
-                        .unwrap(),
-                )
-            } else {
-                None
-            };
-
-            let doppler_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if doppler_avail {
-                Some(
-                    batch
-                        .column_by_name("Doppler (km/s)")
-                        .unwrap()
-                        .as_any()
-                        .downcast_ref::<Float64Array>()
-                        .unwrap(),
-                )
-            } else {
-                None
-            };
-
-            let azimuth_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if az_avail {
-                Some(
-                    batch
-                        .column_by_name("Azimuth (deg)")
+            let msr_data = msr_avail
+                .iter()
+                .map(|msr_type| {
+                    let column = batch
+                        .column_by_name(msr_type.to_field().name())
                         .unwrap()
                         .as_any()
                         .downcast_ref::<Float64Array>()
-                        .unwrap(),
-                )
-            } else {
-                None
-            };
-
-            let elevation_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if el_avail {
-                Some(
-                    batch
-                        .column_by_name("Elevation (deg)")
-                        .unwrap()
-                        .as_any()
-                        .downcast_ref::<Float64Array>()
-                        .unwrap(),
-                )
-            } else {
-                None
-            };
+                        .unwrap();
+                    (*msr_type, column)
+                })
+                .collect::<Vec<_>>();
 
             // Set the measurements in the tracking arc
             for i in 0..batch.num_rows() {
@@ -183,28 +156,11 @@ impl TrackingDataArc {
                     rejected: false,
                 };
 
-                if range_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Range, range_data.unwrap().value(i));
-                }
-
-                if doppler_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Doppler, doppler_data.unwrap().value(i));
-                }
-
-                if az_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Azimuth, azimuth_data.unwrap().value(i));
-                }
-
-                if el_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Elevation, elevation_data.unwrap().value(i));
+                // A null marks a measurement type which is not available at that epoch.
+                for (msr_type, column) in &msr_data {
+                    if column.is_valid(i) {
+                        measurement.data.insert(*msr_type, column.value(i));
+                    }
                 }
 
                 measurements.push(measurement);
-- 
2.43.0


From 6cc281b54e3578994e817f0ad9bba9ac39ba3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:04 +0000
Subject: [PATCH 46/90] fix: export the tracking data up to and including the
 end epoch

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 4 ++--
 nyx-core/src/od/msr/trackingdata/io_parquet.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 9b6285e..6ae42f8 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -431,12 +431,12 @@ impl TrackingDataArc {
         // Filter epochs if needed.
         if let Some(start_epoch) = cfg.start_epoch {
             if let Some(end_epoch) = cfg.end_epoch {
-                self = self.filter_by_epoch(start_epoch..end_epoch);
+                self = self.filter_by_epoch(start_epoch..=end_epoch);
             } else {
                 self = self.filter_by_epoch(start_epoch..);
             }
         } else if let Some(end_epoch) = cfg.end_epoch {
-            self = self.filter_by_epoch(..end_epoch);
+            self = self.filter_by_epoch(..=end_epoch);
         }
 
         let tick = Epoch::now().unwrap();
diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 63943d2..977c022 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -231,7 +231,7 @@ impl TrackingDataArc {
 
                 info!("Exporting measurements from {start} to {end}.");
 
-                self.clone().filter_by_epoch(start..end).measurements
+                self.clone().filter_by_epoch(start..=end).measurements
             } else {
                 self.measurements.clone()
             };
-- 
2.43.0


From efb964e563b918a769fa8b7305b778384dc2a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:04 +0000
Subject: [PATCH 47/90] fix: write the epochs of the TDM in its time system

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 6ae42f8..effe9ad 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -488,6 +488,9 @@ impl TrackingDataArc {
         )
         .map_err(err_hdlr)?;
 
+        // The time system of all of the sections is UTC.
+        let to_utc = |epoch: Epoch| epoch.to_time_scale(TimeScale::UTC);
+
         // Create a new meta section for each tracker and for each measurement type that is one or two way.
         // Get unique trackers and process each one separately
         let trackers = self.unique_aliases();
@@ -516,13 +519,13 @@ impl TrackingDataArc {
                 writeln!(
                     writer,
                     "\tSTART_TIME = {}",
-                    Formatter::new(tracker_data.start_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::new(to_utc(tracker_data.start_epoch().unwrap()), iso8601_no_ts)
                 )
                 .map_err(err_hdlr)?;
                 writeln!(
                     writer,
                     "\tSTOP_TIME = {}",
-                    Formatter::new(tracker_data.end_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::new(to_utc(tracker_data.end_epoch().unwrap()), iso8601_no_ts)
                 )
                 .map_err(err_hdlr)?;
 
@@ -593,7 +596,7 @@ impl TrackingDataArc {
                             writer,
                             "\t{:<20} = {:<23}\t{:.12}",
                             mtype.ccsds_tdm_name(),
-                            Formatter::new(m.epoch, iso8601_no_ts),
+                            Formatter::new(to_utc(m.epoch), iso8601_no_ts),
                             value * multiplier
                         )
                         .map_err(err_hdlr)?;
-- 
2.43.0


From 6f03e2812c8bc68f0afcd37d4ae99d445755ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:04 +0000
Subject: [PATCH 48/90] fix: do not halve the angles of two way TDM data

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index effe9ad..efcd39c 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -165,7 +165,7 @@ impl TrackingDataArc {
             if let Some((mtype, epoch, value)) = parse_measurement_line(line, time_system)? {
                 // 1. Calculate the effective divider for this specific line.
                 // (See the critique below regarding why mutating msr_divider here was a bug).
-                let effective_divider = if [
+                if [
                     MeasurementType::ReceiveFrequency,
                     MeasurementType::TransmitFrequency,
                     MeasurementType::TransmitFrequencyRate,
@@ -173,9 +173,12 @@ impl TrackingDataArc {
                 .contains(&mtype)
                 {
                     has_freq_data = true;
-                    1.0
-                } else {
+                }
+                // Only the range and Doppler are counted twice in two way data, not the angles.
+                let effective_divider = if mtype.may_be_two_way() {
                     msr_divider
+                } else {
+                    1.0
                 };
 
                 let scaled_value = value / effective_divider;
-- 
2.43.0


From 5827938bf3a22b0ce4ebb4b400581d4c4cf610d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:04 +0000
Subject: [PATCH 49/90] fix: skip the comments of the TDM data

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index efcd39c..d6ac94a 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -624,6 +624,10 @@ fn parse_measurement_line(
     line: &str,
     time_system: TimeScale,
 ) -> Result<Option<(MeasurementType, Epoch, f64)>, InputOutputError> {
+    if line.starts_with("COMMENT") {
+        return Ok(None);
+    }
+
     let parts: Vec<&str> = line.split('=').collect();
     if parts.len() != 2 {
         return Ok(None);
-- 
2.43.0


From 5a523b8d6a765bcedab6e9ce1a9b15d984d65853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:14 +0000
Subject: [PATCH 50/90] fix: downsample each tracker on its own, and keep the
 moduli

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index c4f8e3e..b22eaf3 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -217,6 +217,24 @@ impl TrackingDataArc {
         if self.is_empty() {
             return self.clone();
         }
+
+        let trackers = self.unique_aliases();
+        if trackers.len() > 1 {
+            // Filter each tracker on its own: the measurements of several trackers may not be averaged.
+            let mut result = TrackingDataArc {
+                measurements: Vec::new(),
+                ..self.clone()
+            };
+            for tracker in trackers {
+                let tracker_arc = self.clone().filter_by_tracker(tracker);
+                result
+                    .measurements
+                    .extend(tracker_arc.downsample(target_step).measurements);
+            }
+            result.sort();
+            return result;
+        }
+
         let current_step = self.min_duration_sep().unwrap();
 
         if current_step >= target_step {
@@ -237,8 +255,8 @@ impl TrackingDataArc {
         );
 
         let mut result = TrackingDataArc {
-            source: self.source.clone(),
-            ..Default::default()
+            measurements: Vec::new(),
+            ..self.clone()
         };
 
         let measurements: Vec<_> = self.measurements.iter().collect();
-- 
2.43.0


From d2bbd463578f1ded7f16afab954adaf83a54f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:20 +0000
Subject: [PATCH 51/90] fix: process only the measurement types which are
 available in each measurement

---
 nyx-core/src/od/process/mod.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 1b336a7..9256854 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -264,7 +264,13 @@ where
                         // Get the computed observations
                         match devices.get_mut(&msr.tracker) {
                             Some(device) => {
-                                let msr_types = device.measurement_types().clone();
+                                // Only process the types which are available in this measurement.
+                                let msr_types = device
+                                    .measurement_types()
+                                    .iter()
+                                    .copied()
+                                    .filter(|msr_type| msr.data.contains_key(msr_type))
+                                    .collect::<IndexSet<_>>();
 
                                 // Perform several measurement updates to ensure the desired dimensionality.
                                 let windows = msr_types.len() / MsrSize::DIM;
@@ -287,14 +293,6 @@ where
                                         break;
                                     }
 
-                                    // If this measurement type is unavailable, continue to the next one.
-                                    if !msr.availability(&cur_msr_types)
-                                        .iter()
-                                        .any(|avail| *avail)
-                                    {
-                                        continue;
-                                    }
-
                                     // Grab the un-modulo'd real observation
                                     let mut real_obs: OVector<f64, MsrSize> =
                                         msr.observation(&cur_msr_types);
-- 
2.43.0


From d144cf4796ca7b6bd41fb7c063dc1f9bf484e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:20 +0000
Subject: [PATCH 52/90] fix: unit variance for the rows of the measurement
 noise without a measurement type

---
 nyx-core/src/od/simulator/trackdata.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nyx-core/src/od/simulator/trackdata.rs b/nyx-core/src/od/simulator/trackdata.rs
index a063e3c..1a56516 100644
--- a/nyx-core/src/od/simulator/trackdata.rs
+++ b/nyx-core/src/od/simulator/trackdata.rs
@@ -90,7 +90,12 @@ where
         DefaultAllocator: Allocator<M, M>,
     {
         // Rebuild the R matrix of the measurement noise.
+        // The rows without a measurement type are of unit variance: their observation and sensitivity are zero,
+        // so they do not contribute to the update, and the innovation covariance remains invertible.
         let mut r_mat = OMatrix::<f64, M, M>::zeros();
+        for i in msr_types.len()..M::DIM {
+            r_mat[(i, i)] = 1.0;
+        }
 
         for (i, msr_type) in msr_types.iter().enumerate() {
             if self.measurement_types().contains(msr_type) {
-- 
2.43.0


From fca6e34e88455482c2bede2ac5ff3763b1059f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:03 +0000
Subject: [PATCH 53/90] fix: resolve the ambiguity of a measurement nearest to
 the expected one

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 18 ++++++++++++++++++
 nyx-core/src/od/process/mod.rs          | 18 ++++++------------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index b22eaf3..5530665 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -355,6 +355,24 @@ impl TrackingDataArc {
         (start_idx, end_idx)
     }
 
+    /// Returns the real observation nearest to the computed one, among those which differ by a multiple of the modulus
+    /// of this measurement type. Azimuths are always modulo one turn.
+    pub(crate) fn resolve_ambiguity(
+        &self,
+        msr_type: MeasurementType,
+        real_obs: f64,
+        computed_obs: f64,
+    ) -> f64 {
+        let modulus = match self.moduli.as_ref().and_then(|m| m.get(&msr_type)) {
+            Some(modulus) => *modulus,
+            None if msr_type == MeasurementType::Azimuth => 360.0,
+            None => return real_obs,
+        };
+        let k = ((computed_obs - real_obs) / modulus).round();
+        // real_obs = measured_obs + k * modulus
+        real_obs + k * modulus
+    }
+
     /// Returns the unique list of aliases in this tracking data arc
     pub fn unique_aliases(&self) -> IndexSet<String> {
         self.unique().0
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 9256854..fd7b5bd 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -331,18 +331,12 @@ where
                                             )?;
 
                                         // Apply the modulo to the real obs
-                                        if let Some(moduli) = &arc.moduli {
-                                            let mut obs_ambiguity =
-                                                OVector::<f64, MsrSize>::zeros();
-
-                                            for (i, msr_type) in cur_msr_types.iter().enumerate() {
-                                                if let Some(modulus) = moduli.get(msr_type) {
-                                                    let k = computed_obs[i].div_euclid(*modulus);
-                                                    // real_obs = measured_obs + k * modulus
-                                                    obs_ambiguity[i] = k * *modulus;
-                                                }
-                                            }
-                                            real_obs += obs_ambiguity;
+                                        for (i, msr_type) in cur_msr_types.iter().enumerate() {
+                                            real_obs[i] = arc.resolve_ambiguity(
+                                                *msr_type,
+                                                real_obs[i],
+                                                computed_obs[i],
+                                            );
                                         }
 
                                         let (estimate, mut residual, gain) = kf.measurement_update(
-- 
2.43.0


From 1c5e95084e6df3e742b4e916339f02367fcf67e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:03 +0000
Subject: [PATCH 54/90] fix: initialize the process noises of a prediction

---
 nyx-core/src/od/process/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index fd7b5bd..a75a6fc 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -452,6 +452,8 @@ where
             prev_used_snc: 0,
         };
 
+        kf.initialize_process_noises();
+
         let prop_time = end_epoch - kf.previous_estimate().epoch();
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
-- 
2.43.0


From d6307ece01611e4cfb3797c4223fe5a47412f64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:03 +0000
Subject: [PATCH 55/90] fix: end a prediction at the requested epoch

---
 nyx-core/src/od/process/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index a75a6fc..448fa3c 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -458,7 +458,9 @@ where
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
         loop {
-            let nominal_state = prop_instance.for_duration(self.max_step).context(ODPropSnafu)?;
+            // Do not step over the end epoch.
+            let step = self.max_step.min(end_epoch - prop_instance.state.epoch());
+            let nominal_state = prop_instance.for_duration(step).context(ODPropSnafu)?;
             // Extract the state and update the STM in the filter.
             // Get the datetime and info needed to compute the theoretical measurement according to the model
             let epoch = nominal_state.epoch();
-- 
2.43.0


From 859f993fdef8d6166c1bc2b6ebba4718177f606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:03 +0000
Subject: [PATCH 56/90] fix: reset the STM after each step of the batch least
 squares

---
 nyx-core/src/od/blse/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index d4fd773..9a95957 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -220,6 +220,8 @@ where
                     let step_stm = this_state.stm().expect("STM unavailable");
                     // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
                     stm = step_stm * stm;
+                    // The propagator otherwise continues from the STM of the previous step.
+                    prop_inst.state.reset_stm();
 
                     if (epoch - msr_epoch).abs() < self.epoch_precision {
                         // Get the correct tracking device
-- 
2.43.0


From 6803e22be8352937fd8b86f96bcf5be592e19d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:03 +0000
Subject: [PATCH 57/90] fix: use every measurement of an epoch in the batch
 least squares

---
 nyx-core/src/od/blse/mod.rs | 49 ++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 9a95957..b114b5f 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -204,24 +204,28 @@ where
 
                 loop {
                     let delta_t = msr_epoch - epoch;
-                    if delta_t <= Duration::ZERO {
+                    if delta_t <= -self.epoch_precision {
                         // Move onto the next measurement.
                         break;
                     }
 
-                    // Propagate for the minimum time between the maximum step size, the next step size, and the duration to the next measurement.
-                    let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
-
-                    // Propagate reference state from the previous state to msr_epoch
-                    let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
-                    epoch = this_state.epoch();
-
-                    // Grab the STM Phi(t_{i+1}, t_i) from the propagated state's STM.
-                    let step_stm = this_state.stm().expect("STM unavailable");
-                    // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
-                    stm = step_stm * stm;
-                    // The propagator otherwise continues from the STM of the previous step.
-                    prop_inst.state.reset_stm();
+                    // Several measurements may be at the same epoch, possibly that of the initial state.
+                    if delta_t > Duration::ZERO {
+                        // Propagate for the minimum time between the maximum step size, the next step size, and the duration to the next measurement.
+                        let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
+
+                        // Propagate reference state from the previous state to msr_epoch
+                        let next_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
+                        epoch = next_state.epoch();
+
+                        // Grab the STM Phi(t_{i+1}, t_i) from the propagated state's STM.
+                        let step_stm = next_state.stm().expect("STM unavailable");
+                        // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
+                        stm = step_stm * stm;
+                        // The propagator otherwise continues from the STM of the previous step.
+                        prop_inst.state.reset_stm();
+                    }
+                    let this_state = prop_inst.state;
 
                     if (epoch - msr_epoch).abs() < self.epoch_precision {
                         // Get the correct tracking device
@@ -235,7 +239,7 @@ where
                                     );
                                 }
                                 unknown_trackers.insert(msr.tracker.clone());
-                                continue;
+                                break;
                             }
                         };
 
@@ -297,6 +301,8 @@ where
                             // Accumulate sum of squares of weighted residuals
                             sum_sq_weighted_residuals += weight * residual * residual;
                         }
+                        // Move onto the next measurement.
+                        break;
                     }
                 }
             }
@@ -480,13 +486,15 @@ where
 
             loop {
                 let delta_t = msr_epoch - epoch;
-                if delta_t <= Duration::ZERO {
+                if delta_t <= -self.epoch_precision {
                     break;
                 }
 
-                let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
-                let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
-                epoch = this_state.epoch();
+                if delta_t > Duration::ZERO {
+                    let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
+                    epoch = prop_inst.for_duration(next_step).context(ODPropSnafu)?.epoch();
+                }
+                let this_state = prop_inst.state;
 
                 if (epoch - msr_epoch).abs() < self.epoch_precision {
                     let device = match devices.get_mut(&msr.tracker) {
@@ -499,7 +507,7 @@ where
                                 );
                             }
                             unknown_trackers.insert(msr.tracker.clone());
-                            continue;
+                            break;
                         }
                     };
 
@@ -535,6 +543,7 @@ where
 
                         sum_sq_weighted_residuals += weight * residual * residual;
                     }
+                    break;
                 }
             }
         }
-- 
2.43.0


From 967895dd8823fc31a1e049aac2d3e8fb0905b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:03 +0000
Subject: [PATCH 58/90] fix: add the measurement bias to the computed
 observation of the batch least squares

---
 nyx-core/src/od/blse/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index b114b5f..3d9b8fb 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -263,7 +263,8 @@ where
                             };
 
                             // Get the computed observation value
-                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                                + device.measurement_bias(msr_type, msr_epoch)?;
 
                             // Get real observation y_i
                             let real_obs = msr.observation::<U1>(&msr_types)[0];
@@ -523,7 +524,8 @@ where
                             None => continue,
                         };
 
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                            + device.measurement_bias(msr_type, msr_epoch)?;
                         let real_obs = msr.observation::<U1>(&msr_types)[0];
 
                         ensure!(
-- 
2.43.0


From 658cb49fe4f855b7518d238a270af7ef1a86e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:03 +0000
Subject: [PATCH 59/90] fix: resolve the ambiguities of the measurements in the
 batch least squares

---
 nyx-core/src/od/blse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 3d9b8fb..706dc5e 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -279,7 +279,7 @@ where
                             );
 
                             // Compute residual dy = y_i - H(X(t_i))
-                            let residual = real_obs - computed_obs;
+                            let residual = arc.resolve_ambiguity(msr_type, real_obs, computed_obs) - computed_obs;
 
                             // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
                             let r_matrix = device
@@ -536,7 +536,7 @@ where
                             }
                         );
 
-                        let residual = real_obs - computed_obs;
+                        let residual = arc.resolve_ambiguity(msr_type, real_obs, computed_obs) - computed_obs;
                         let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
                         let r_variance = r_matrix[(0, 0)];
 
-- 
2.43.0


From a567af162d5ce0e89a27aeb5257671c91187320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:21 +0000
Subject: [PATCH 60/90] fix: smooth each estimate from the smoothed estimate
 which follows it

---
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index 5c6df27..6657856 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -130,7 +130,7 @@ where
         loop {
             let k = l - smoothed.estimates.len();
             // Borrow the previously smoothed estimate of the k+1 estimate
-            let sm_est_kp1 = &self.estimates[k + 1];
+            let sm_est_kp1 = smoothed.estimates.last().unwrap();
             let x_kp1_l = sm_est_kp1.state_deviation();
             let p_kp1_l = sm_est_kp1.covar();
             // Borrow the k-th estimate, which we're smoothing with the next estimate
-- 
2.43.0


From bf4cd1e2e94480a976cd1c154f7892e9e428db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:21 +0000
Subject: [PATCH 61/90] fix: recompute the residual of the smoothed estimate,
 not that of the next one

---
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index 6657856..c3e3ed9 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -162,7 +162,7 @@ where
             // Compute the smoothed covariance
             smoothed_est_k.set_covar(p_k_l);
             // Recompute the residual if available.
-            if let Some(mut residual) = self.residuals[k + 1].clone() {
+            if let Some(mut residual) = self.residuals[k].clone() {
                 let tracker = residual
                     .tracker
                     .as_ref()
-- 
2.43.0


From 19828afdf916b59ad492b8aeb00774ba4e703703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:28 +0000
Subject: [PATCH 62/90] fix: smooth a solution of a single estimate

---
 nyx-core/src/od/process/solution/smooth.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index c3e3ed9..78bca04 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -127,7 +127,7 @@ where
         smoothed.gains.push(None);
         smoothed.filter_smoother_ratios.push(None);
 
-        loop {
+        while smoothed.estimates.len() < self.estimates.len() {
             let k = l - smoothed.estimates.len();
             // Borrow the previously smoothed estimate of the k+1 estimate
             let sm_est_kp1 = smoothed.estimates.last().unwrap();
@@ -212,10 +212,6 @@ where
             smoothed.filter_smoother_ratios.push(Some(fs_ratios));
             // Set all gains to None.
             smoothed.gains.push(None);
-
-            if smoothed.estimates.len() == self.estimates.len() {
-                break;
-            }
         }
 
         // Note that we have yet to reverse the list, so we print them backward
-- 
2.43.0


From 32a7660496678b59bb0f44acb11d0b6c0a6a3e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:47 +0000
Subject: [PATCH 63/90] fix: sort a merged OD solution chronologically

The permutation was not applied correctly when it has cycles of three estimates or more.
---
 .../src/od/process/solution/filter_data.rs    | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 25eda53..04c31a2 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -246,18 +246,20 @@ where
                 .expect("Epoch comparison failed")
         });
 
-        // Apply permutation to both vectors in-place
-        for i in 0..indices.len() {
-            let current = i;
-            while indices[current] != current {
-                let target = indices[current];
-                indices.swap(current, target);
-                self.estimates.swap(current, target);
-                self.residuals.swap(current, target);
-                self.gains.swap(current, target);
-                self.filter_smoother_ratios.swap(current, target);
-            }
-        }
+        // Apply the permutation to all of the vectors
+        self.estimates = indices
+            .iter()
+            .map(|&i| self.estimates[i].clone())
+            .collect();
+        self.residuals = indices
+            .iter()
+            .map(|&i| self.residuals[i].clone())
+            .collect();
+        self.gains = indices.iter().map(|&i| self.gains[i].clone()).collect();
+        self.filter_smoother_ratios = indices
+            .iter()
+            .map(|&i| self.filter_smoother_ratios[i].clone())
+            .collect();
 
         self
     }
-- 
2.43.0


From 882491f300a45bd3d576162fc5423d98f3d46617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:47 +0000
Subject: [PATCH 64/90] fix: keep the devices and measurement types of both
 solutions in a merge

Otherwise, the residuals of the second solution are lost when exporting the merged solution.
---
 nyx-core/src/od/process/solution/filter_data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 04c31a2..3acb39e 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -233,6 +233,8 @@ where
         self.gains.append(&mut other.gains);
         self.filter_smoother_ratios
             .append(&mut other.filter_smoother_ratios);
+        self.devices.append(&mut other.devices);
+        self.measurement_types.extend(other.measurement_types);
 
         // Sort to ensure chronological order using indices based permutations.
         // Generate indices representing original positions
-- 
2.43.0


From f24b4d8cef6bbc353989d6905de9762ad452275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:47 +0000
Subject: [PATCH 65/90] fix: average the residuals over the residuals only

The time updates do not have any residual, and the rejected measurements do not have any postfit.
---
 nyx-core/src/od/process/solution/stats.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index c337ce5..3e6e7cb 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -147,28 +147,34 @@ where
     /// Returns the root mean square of the prefit residuals
     pub fn rms_prefit_residuals(&self) -> f64 {
         let mut sum = 0.0;
+        let mut count = 0;
         for residual in self.residuals.iter().flatten() {
             sum += residual.prefit.dot(&residual.prefit);
+            count += 1;
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (count as f64)).sqrt()
     }
 
-    /// Returns the root mean square of the postfit residuals
+    /// Returns the root mean square of the postfit residuals (rejected measurements do not have any)
     pub fn rms_postfit_residuals(&self) -> f64 {
         let mut sum = 0.0;
-        for residual in self.residuals.iter().flatten() {
+        let mut count = 0;
+        for residual in self.residuals.iter().flatten().filter(|r| !r.rejected) {
             sum += residual.postfit.dot(&residual.postfit);
+            count += 1;
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (count as f64)).sqrt()
     }
 
     /// Returns the root mean square of the prefit residual ratios
     pub fn rms_residual_ratios(&self) -> f64 {
         let mut sum = 0.0;
+        let mut count = 0;
         for residual in self.residuals.iter().flatten() {
             sum += residual.ratio.powi(2);
+            count += 1;
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (count as f64)).sqrt()
     }
 
     /// Computes the fraction of residual ratios that lie within ±threshold.
-- 
2.43.0


From 409c0b1d319abbbc1f9807ab621241aa7137e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:47 +0000
Subject: [PATCH 66/90] fix: check both sides of the empirical CDF in the
 Kolmogorov-Smirnov test

---
 nyx-core/src/od/process/solution/stats.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index 3e6e7cb..744dd1e 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -227,11 +227,13 @@ where
         // Compute the maximum difference between the empirical CDF and the normal CDF.
         let mut d_stat = 0.0;
         for (i, &value) in residual_ratios.iter().enumerate() {
-            let empirical_cdf = (i + 1) as f64 / n;
             let model_cdf = normal_dist.cdf(value);
-            let diff = (empirical_cdf - model_cdf).abs();
-            if diff > d_stat {
-                d_stat = diff;
+            // The empirical CDF steps at this value: check both sides of the step.
+            for empirical_cdf in [i as f64 / n, (i + 1) as f64 / n] {
+                let diff = (empirical_cdf - model_cdf).abs();
+                if diff > d_stat {
+                    d_stat = diff;
+                }
             }
         }
         Ok(d_stat)
-- 
2.43.0


From 634d2299cd3c0a5fecc951f7adb6c9d71cfc4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:15 +0000
Subject: [PATCH 67/90] fix: count every whitened residual in the threshold of
 the normality test

---
 nyx-core/src/od/process/solution/stats.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index 744dd1e..e5d67c3 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -251,7 +251,8 @@ where
     /// Returns Ok(true) if the residuals are consistent with a normal distribution,
     /// Ok(false) if not, or None if no residuals are available.
     pub fn is_normal(&self, alpha: Option<f64>) -> Result<bool, ODError> {
-        let n = self.accepted_residuals().len();
+        // The KS statistic is computed from every component of the whitened residuals
+        let n = self.accepted_residuals().len() * MsrSize::DIM;
         if n == 0 {
             return Err(ODError::ODNoResiduals {
                 action: "evaluating residual normality",
-- 
2.43.0


From e56ac378f4e16d6ec6e17d5966bc1a9f8ee20b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:15 +0000
Subject: [PATCH 68/90] fix: return an error for the normality test of a single
 residual

There is no normal distribution of that sample, which was a panic.
---
 nyx-core/src/od/process/solution/stats.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index e5d67c3..10d38cb 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -221,6 +221,13 @@ where
             / n;
         let std_dev = variance.sqrt();
 
+        if std_dev == 0.0 {
+            return Err(ODError::TooFewMeasurements {
+                need: 2,
+                action: "normality test of different residuals",
+            });
+        }
+
         // Create a normal distribution based on the empirical mean and std deviation.
         let normal_dist = Normal::new(mean, std_dev).unwrap();
 
-- 
2.43.0


From 872efb175a4afcc51bbc4b07e2d83283adf7a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:15 +0000
Subject: [PATCH 69/90] fix: rotate the exported covariances into the RIC frame

The covariance was rotated from the RIC frame to the inertial frame.
---
 nyx-core/src/od/process/solution/export.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 08bd7d6..6b87c8d 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -429,19 +429,20 @@ where
         let mut ric_covariances = Vec::new();
 
         for s in &estimates {
-            let dcm_ric2inertial = s
+            let dcm_inertial2ric = s
                 .state()
                 .orbit()
                 .dcm_from_ric_to_inertial()
                 .unwrap()
+                .transpose()
                 .state_dcm();
 
             // Build the matrix view of the orbit part of the covariance.
             let cov = s.covar();
             let orbit_cov = cov.fixed_view::<6, 6>(0, 0);
 
-            // Rotate back into the RIC frame
-            let ric_covar = dcm_ric2inertial * orbit_cov * dcm_ric2inertial.transpose();
+            // Rotate into the RIC frame
+            let ric_covar = dcm_inertial2ric * orbit_cov * dcm_inertial2ric.transpose();
             ric_covariances.push(ric_covar);
         }
 
-- 
2.43.0


From 635580c41b045c1661d659279c685347d097bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:44 +0000
Subject: [PATCH 70/90] fix: read the whitened residuals of an OD solution

They are stored by row of the residual, not by measurement type, and were all read as NaN.
---
 nyx-core/src/od/process/solution/import.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index adf9c9f..e1ee4d7 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -284,7 +284,7 @@ where
             let mut residual_data_cols: HashMap<MeasurementType, BTreeMap<String, Float64Array>> = HashMap::new();
             for msr_type in &measurement_types_found {
                  let mut type_cols = BTreeMap::new();
-                 let prefixes = ["Prefit residual", "Whitened residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
+                 let prefixes = ["Prefit residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
                  for prefix in prefixes {
                       // Again, guessing column name format
                       let base_name = format!("{}: {:?} ({})", prefix, msr_type, msr_type.unit());
@@ -296,6 +296,11 @@ where
                  residual_data_cols.insert(*msr_type, type_cols);
             }
 
+            // Whitened residual columns: one for each row of the residual
+            let whitened_cols: Vec<Option<Float64Array>> = (0..MsrSize::DIM)
+                .map(|j| get_col(&format!("Whitened residual #{j}")).ok().and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned()))
+                .collect();
+
             // Gain columns (store for iteration)
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
             let mut gain_available = true;
@@ -428,22 +433,24 @@ where
                      let mut comp_obs_vec = OVector::<f64, MsrSize>::zeros();
                      let mut current_msr_types = IndexSet::with_capacity(MsrSize::DIM);
 
+                     for (j, whitened_col) in whitened_cols.iter().enumerate() {
+                           whitened_vec[j] = whitened_col.as_ref().and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None }).unwrap_or(f64::NAN);
+                     }
+
                      let mut msr_idx = 0;
                      for (msr_type, type_cols) in &residual_data_cols {
                            if msr_idx >= MsrSize::DIM { break; } // Should not happen if MsrSize matches data
 
                            // Check if data exists for this type *at this row*
                            let prefit_val = type_cols.get("Prefit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
-                           let whitened_resid_val = type_cols.get("Whitened residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let postfit_val = type_cols.get("Postfit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let noise_val = type_cols.get("Measurement noise").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let real_val = type_cols.get("Real observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let comp_val = type_cols.get("Computed observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
 
                            // Only include if *at least one* value is present for this type in this row
-                           if prefit_val.is_some() || whitened_resid_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
+                           if prefit_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
                                 prefit_vec[msr_idx] = prefit_val.unwrap_or(f64::NAN);
-                                whitened_vec[msr_idx] = whitened_resid_val.unwrap_or(f64::NAN);
                                 postfit_vec[msr_idx] = postfit_val.unwrap_or(f64::NAN);
                                 noise_vec[msr_idx] = noise_val.unwrap_or(f64::NAN);
                                 real_obs_vec[msr_idx] = real_val.unwrap_or(f64::NAN);
-- 
2.43.0


From 3a4cc1909535c0020396bd81ee98795a6d295503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:44 +0000
Subject: [PATCH 71/90] fix: read the residuals of an OD solution in the order
 of its measurement types

The order was random, and not that of the gains and of the whitened residuals.
---
 nyx-core/src/od/process/solution/import.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index e1ee4d7..c2745ae 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -33,7 +33,7 @@ use anise::structure::spacecraft::{DragData, Mass, SRPData};
 use arrow::array::RecordBatchReader;
 use arrow::array::{Array, BooleanArray, Float64Array, StringArray};
 use hifitime::Epoch;
-use indexmap::IndexSet;
+use indexmap::{IndexMap, IndexSet};
 use log::{info, warn};
 use msr::sensitivity::TrackerSensitivity;
 use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
@@ -281,7 +281,7 @@ where
             let tracker_col = get_col("Tracker").ok().and_then(|arr| arr.as_any().downcast_ref::<StringArray>().cloned());
             let ratio_col = get_col("Residual ratio").ok().and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned());
 
-            let mut residual_data_cols: HashMap<MeasurementType, BTreeMap<String, Float64Array>> = HashMap::new();
+            let mut residual_data_cols: IndexMap<MeasurementType, BTreeMap<String, Float64Array>> = IndexMap::new();
             for msr_type in &measurement_types_found {
                  let mut type_cols = BTreeMap::new();
                  let prefixes = ["Prefit residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
-- 
2.43.0


From c89a0962449d6d68061817149b5627a209cfc699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:36 +0000
Subject: [PATCH 72/90] fix: read the gains of an OD solution whose residuals
 do not hold every measurement type

---
 nyx-core/src/od/process/solution/import.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index c2745ae..b38ea08 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -305,14 +305,19 @@ where
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
             let mut gain_available = true;
             for i in 0..state_size {
-                for f in &measurement_types_found {
+                for j in 0..MsrSize::DIM {
                     // Guessing format - needs robust parsing or metadata
-                    let base_name = format!(
-                        "Gain {}*{f:?} ({}*{})",
-                        state_items[i],
-                        cov_units[i],
-                        f.unit()
-                    );
+                    let base_name = if measurement_types_found.len() == MsrSize::DIM {
+                        let f = &measurement_types_found[j];
+                        format!(
+                            "Gain {}*{f:?} ({}*{})",
+                            state_items[i],
+                            cov_units[i],
+                            f.unit()
+                        )
+                    } else {
+                        format!("Gain {}*[{j}]", state_items[i])
+                    };
                     let col_name = schema.fields().iter()
                          .find(|f| f.name().starts_with(&base_name))
                          .map(|f| f.name().as_str());
-- 
2.43.0


From 415a2041982b2370c5744923cdfd0e95d2f34fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:37 +0000
Subject: [PATCH 73/90] fix: export the gains and ratios of the requested
 epochs only

Exporting an OD solution with a start or end epoch was an error because the columns do not have the same length.
---
 nyx-core/src/od/process/solution/export.rs | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 6b87c8d..46e58df 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -346,7 +346,7 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
+        let (estimates, residuals, gains, filter_smoother_ratios) =
             if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                 // Must interpolate the data!
                 let start = cfg
@@ -359,17 +359,27 @@ where
                 let mut residuals: Vec<Option<Residual<MsrSize>>> =
                     Vec::with_capacity(self.residuals.len());
                 let mut estimates = Vec::with_capacity(self.estimates.len());
+                let mut gains = Vec::with_capacity(self.gains.len());
+                let mut filter_smoother_ratios =
+                    Vec::with_capacity(self.filter_smoother_ratios.len());
 
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
+                for (idx, estimate) in self.estimates.iter().enumerate() {
                     if estimate.epoch() >= start && estimate.epoch() <= end {
                         estimates.push(*estimate);
-                        residuals.push(residual.clone());
+                        residuals.push(self.residuals[idx].clone());
+                        gains.push(self.gains[idx].clone());
+                        filter_smoother_ratios.push(self.filter_smoother_ratios[idx]);
                     }
                 }
 
-                (estimates, residuals)
+                (estimates, residuals, gains, filter_smoother_ratios)
             } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
+                (
+                    self.estimates.to_vec(),
+                    self.residuals.to_vec(),
+                    self.gains.to_vec(),
+                    self.filter_smoother_ratios.to_vec(),
+                )
             };
 
         // Build all of the records
@@ -587,7 +597,7 @@ where
         for i in 0..est_size {
             for j in 0..MsrSize::DIM {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -601,7 +611,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..est_size {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From 889a332108fe6f7aad642109ad7f684166050568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 74/90] fix: return an error when an OD solution file is not a
 parquet file

---
 nyx-core/src/od/process/solution/import.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index b38ea08..2d6d3a1 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -83,7 +83,9 @@ where
           action: "opening OD solution file",
       })?;
 
-      let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+      let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+          action: "reading OD results",
+      })?;
 
       let mut metadata = HashMap::new();
       // Build the custom metadata
-- 
2.43.0


From b95b7e0f011e4d2acca8df04b49493ece3af5f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:59 +0000
Subject: [PATCH 75/90] fix: refuse an optional duration which cannot be parsed

---
 nyx-core/src/io/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/io/mod.rs b/nyx-core/src/io/mod.rs
index 2dfa9f8..cf038fa 100644
--- a/nyx-core/src/io/mod.rs
+++ b/nyx-core/src/io/mod.rs
@@ -278,13 +278,10 @@ pub(crate) fn maybe_duration_from_str<'de, D>(deserializer: D) -> Result<Option<
 where
     D: Deserializer<'de>,
 {
-    if let Ok(s) = String::deserialize(deserializer) {
-        if let Ok(duration) = Duration::from_str(&s) {
-            Ok(Some(duration))
-        } else {
-            Ok(None)
-        }
-    } else {
-        Ok(None)
+    match Option::<String>::deserialize(deserializer)? {
+        Some(s) => Duration::from_str(&s)
+            .map(Some)
+            .map_err(serde::de::Error::custom),
+        None => Ok(None),
     }
 }
-- 
2.43.0


From 511cf4961998b8c768e3e5cf5288329a9aad5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:30 +0000
Subject: [PATCH 76/90] fix: describe the gravity field of a sequence to Dhall
 as it is serialized

---
 nyx-core/src/dynamics/sequence/config.rs | 7 +------
 nyx-core/src/io/gravity.rs               | 1 +
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/config.rs b/nyx-core/src/dynamics/sequence/config.rs
index 80adbce..165bc4c 100644
--- a/nyx-core/src/dynamics/sequence/config.rs
+++ b/nyx-core/src/dynamics/sequence/config.rs
@@ -15,7 +15,6 @@
     You should have received a copy of the GNU Affero General Public License
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
-use anise::frames::FrameUid;
 use anise::prelude::Almanac;
 use serde::{Deserialize, Serialize};
 use serde_dhall::{SimpleType, StaticType};
@@ -202,13 +201,9 @@ impl StaticType for AccelModels {
             SimpleType::Optional(Box::new(PointMasses::static_type())),
         );
 
-        #[allow(dead_code)]
-        #[derive(StaticType)]
-        struct GravityFieldDhall(GravityFieldConfig, FrameUid);
-
         fields.insert(
             "gravity_field".to_string(),
-            SimpleType::Optional(Box::new(GravityFieldDhall::static_type())),
+            SimpleType::Optional(Box::new(GravityFieldConfig::static_type())),
         );
 
         fields.insert(
diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 59f17ba..41c48d0 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -496,6 +496,7 @@ impl StaticType for GravityFieldConfig {
         fields.insert("gunzipped".to_string(), bool::static_type());
         fields.insert("degree".to_string(), usize::static_type());
         fields.insert("order".to_string(), usize::static_type());
+        fields.insert("frame".to_string(), FrameUid::static_type());
 
         SimpleType::Record(fields)
     }
-- 
2.43.0


From 271012f7544dcf3c737e916610be65a5808108bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:18 +0000
Subject: [PATCH 77/90] fix: serialize the thrusters and propagators of a
 sequence as the pairs that Dhall expects

---
 nyx-core/src/dynamics/sequence/mod.rs | 51 +++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index dbc2a26..f473680 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -48,7 +48,9 @@ pub use discrete_event::*;
 pub struct SpacecraftSequence {
     #[serde(serialize_with = "map_as_pairs", deserialize_with = "pairs_as_map")]
     pub seq: BTreeMap<Epoch, Phase>,
+    #[serde(serialize_with = "named_as_pairs", deserialize_with = "pairs_as_named")]
     pub thruster_sets: HashMap<String, Thruster>,
+    #[serde(serialize_with = "named_as_pairs", deserialize_with = "pairs_as_named")]
     pub propagators: HashMap<String, PropagatorConfig>,
     #[serde(skip)]
     prop_setups: IndexMap<String, Propagator<SpacecraftDynamics>>,
@@ -349,5 +351,54 @@ where
     let pairs: Vec<(K, V)> = Vec::deserialize(deserializer)?;
     Ok(pairs.into_iter().collect())
 }
+
+fn named_as_pairs<S, V>(map: &HashMap<String, V>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: serde::Serializer,
+    V: Serialize,
+{
+    serializer.collect_seq(map.iter())
+}
+
+// Reads either the pairs or a map
+fn pairs_as_named<'de, D, V>(deserializer: D) -> Result<HashMap<String, V>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    V: Deserialize<'de>,
+{
+    struct PairsOrMap<V>(std::marker::PhantomData<V>);
+
+    impl<'de, V: Deserialize<'de>> serde::de::Visitor<'de> for PairsOrMap<V> {
+        type Value = HashMap<String, V>;
+
+        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+            write!(f, "a list of (name, value) pairs, or a map")
+        }
+
+        fn visit_seq<A: serde::de::SeqAccess<'de>>(
+            self,
+            mut seq: A,
+        ) -> Result<Self::Value, A::Error> {
+            let mut named = HashMap::new();
+            while let Some((name, value)) = seq.next_element()? {
+                named.insert(name, value);
+            }
+            Ok(named)
+        }
+
+        fn visit_map<A: serde::de::MapAccess<'de>>(
+            self,
+            mut map: A,
+        ) -> Result<Self::Value, A::Error> {
+            let mut named = HashMap::new();
+            while let Some((name, value)) = map.next_entry()? {
+                named.insert(name, value);
+            }
+            Ok(named)
+        }
+    }
+
+    deserializer.deserialize_any(PairsOrMap(std::marker::PhantomData))
+}
 #[cfg(feature = "python")]
 pub mod python;
-- 
2.43.0


From eb372bdfbbc54f7af0af671580e5429a4efc6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:18 +0000
Subject: [PATCH 78/90] fix: rotate the state into the new frame of a frame
 swap

---
 nyx-core/src/dynamics/sequence/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index f473680..31c67c4 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -164,13 +164,7 @@ impl SpacecraftSequence {
                                     {
                                         state = state.with_orbit(
                                             almanac
-                                                .translate_to(state.orbit, *new_frame, None)
-                                                .map_err(|source| {
-                                                    anise::errors::AlmanacError::Ephemeris {
-                                                        action: "central body swap",
-                                                        source: Box::new(source),
-                                                    }
-                                                })
+                                                .transform_to(state.orbit, *new_frame, None)
                                                 .context(FromAlmanacSnafu {
                                                     action: "central body swap",
                                                 })?,
-- 
2.43.0


From f0de40302124c1b3b92266901560dade6bfc7f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:35 +0000
Subject: [PATCH 79/90] fix: apply the impulsive maneuver of a discrete event
 in its local frame

---
 nyx-core/src/dynamics/sequence/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 31c67c4..1893002 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -30,6 +30,7 @@ use serde_dhall::{SimpleType, StaticType};
 use snafu::ResultExt;
 use std::collections::HashMap;
 
+use crate::dynamics::guidance::mnvr::ImpulsiveManeuver;
 use crate::dynamics::guidance::{Kluever, Ruggiero};
 use crate::dynamics::{SpacecraftDynamics, guidance::Thruster};
 use crate::errors::{FromAlmanacSnafu, FromPropSnafu};
@@ -178,8 +179,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = apply_impulse(state, mnvr)?;
                                     }
                                     if let Some(decr) = decrement_properties {
                                         if let Some(mass) = decr.mass {
@@ -203,8 +203,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = apply_impulse(state, mnvr)?;
                                     }
                                     if let Some(incr) = increment_properties {
                                         if let Some(mass) = incr.mass {
@@ -284,6 +283,15 @@ impl SpacecraftSequence {
     }
 }
 
+/// Applies the impulsive maneuver, whose vector is expressed in its local frame, to the state.
+fn apply_impulse(state: Spacecraft, mnvr: &ImpulsiveManeuver) -> Result<Spacecraft, NyxError> {
+    let dcm = state
+        .orbit
+        .dcm_to_inertial(mnvr.local_frame)
+        .map_err(|e| NyxError::GenericError { msg: e.to_string() })?;
+    Ok(state.with_orbit(state.orbit.with_dv_km_s(dcm * mnvr.dv_km_s)))
+}
+
 impl StaticType for SpacecraftSequence {
     fn static_type() -> serde_dhall::SimpleType {
         let mut repr = HashMap::new();
-- 
2.43.0


From d528a69888f59e6db2bc20fd21ddbc120c32e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:35 +0000
Subject: [PATCH 80/90] fix: refuse a spacecraft sequence without any phase

---
 nyx-core/src/dynamics/sequence/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 1893002..126b938 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -60,7 +60,7 @@ pub struct SpacecraftSequence {
 impl SpacecraftSequence {
     pub fn validate(&self) -> Result<(), String> {
         // Check that the last statement is a terminate
-        if let Some((_, Phase::Activity { .. })) = self.seq.iter().last() {
+        if !matches!(self.seq.iter().last(), Some((_, Phase::Terminate))) {
             return Err("final phase must be a Terminate".into());
         }
 
-- 
2.43.0


From ef3710f332b4d2e1c0ab0681c43d17bc62feb732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:35 +0000
Subject: [PATCH 81/90] fix: propagate through the disabled phases of a
 sequence

---
 nyx-core/src/dynamics/sequence/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 126b938..cc902d2 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -224,6 +224,15 @@ impl SpacecraftSequence {
                             }
                         }
 
+                        // A disabled phase is skipped, so it does not end this one (unless the plan stops there).
+                        while let Some((_, Phase::Activity { name, disabled, .. })) =
+                            phase_iterator.peek()
+                            && *disabled
+                            && until_phase.as_ref() != Some(name)
+                        {
+                            phase_iterator.next();
+                        }
+
                         let end_time = phase_iterator
                             .peek()
                             .expect("validate did not catch missing terminate")
-- 
2.43.0


From 0d160973bb01c197ab30088e0b7ad34b1c84eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:35 +0000
Subject: [PATCH 82/90] fix: start a sequence with the phase that is active at
 the epoch of the state

---
 nyx-core/src/dynamics/sequence/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index cc902d2..4295458 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -128,7 +128,20 @@ impl SpacecraftSequence {
         almanac: Arc<Almanac>,
     ) -> Result<Vec<Trajectory>, NyxError> {
         let tick = Epoch::now().unwrap();
-        let mut phase_iterator = self.seq.range(state.epoch()..).peekable();
+        let start_epoch = state.epoch();
+        // Start with the phase that is active at the epoch of the state, i.e. the latest enabled one that has started
+        // (or the one where the plan stops).
+        let active_epoch = self
+            .seq
+            .range(..=start_epoch)
+            .rfind(|(_, phase)| match phase {
+                Phase::Terminate => true,
+                Phase::Activity { name, disabled, .. } => {
+                    !disabled || until_phase.as_ref() == Some(name)
+                }
+            })
+            .map_or(start_epoch, |(epoch, _)| *epoch);
+        let mut phase_iterator = self.seq.range(active_epoch..).peekable();
 
         let mut trajs = Vec::with_capacity(self.seq.len());
 
@@ -157,7 +170,10 @@ impl SpacecraftSequence {
                         info!("[{epoch}] skipping disabled {name}");
                     } else {
                         info!("[{epoch}] executing {name}");
-                        if let Some(discrete_event) = on_entry {
+                        // The entry event was already applied to a state which is past the start of its phase.
+                        if let Some(discrete_event) = on_entry
+                            && *epoch >= start_epoch
+                        {
                             match &**discrete_event {
                                 DiscreteEvent::FrameSwap { new_frame } => {
                                     if !new_frame.orient_origin_match(state.orbit.frame)
-- 
2.43.0


From 60223d90150285ebf482e343fe6d17f99f0ef6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:17 +0000
Subject: [PATCH 83/90] fix: deviate a dispersed estimate toward its dispersed
 state

---
 nyx-core/src/od/estimate/kfestimate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/estimate/kfestimate.rs b/nyx-core/src/od/estimate/kfestimate.rs
index b37fd61..07e76fe 100644
--- a/nyx-core/src/od/estimate/kfestimate.rs
+++ b/nyx-core/src/od/estimate/kfestimate.rs
@@ -119,7 +119,7 @@ impl KfEstimate<Spacecraft> {
         let dispersed_state = generator.sample(&mut rng);
 
         // Compute the difference between both states
-        let delta_orbit = (nominal_state.orbit - dispersed_state.state.orbit).unwrap();
+        let delta_orbit = (dispersed_state.state.orbit - nominal_state.orbit).unwrap();
 
         let state_deviation = [
             delta_orbit.radius_km.x,
@@ -128,9 +128,9 @@ impl KfEstimate<Spacecraft> {
             delta_orbit.velocity_km_s.x,
             delta_orbit.velocity_km_s.y,
             delta_orbit.velocity_km_s.z,
-            (nominal_state.srp.coeff_reflectivity - dispersed_state.state.srp.coeff_reflectivity),
-            (nominal_state.drag.coeff_drag - dispersed_state.state.drag.coeff_drag),
-            (nominal_state.mass.prop_mass_kg - dispersed_state.state.mass.prop_mass_kg),
+            (dispersed_state.state.srp.coeff_reflectivity - nominal_state.srp.coeff_reflectivity),
+            (dispersed_state.state.drag.coeff_drag - nominal_state.drag.coeff_drag),
+            (dispersed_state.state.mass.prop_mass_kg - nominal_state.mass.prop_mass_kg),
         ];
 
         // Build the covariance as three times the absolute value of the error, squared.
-- 
2.43.0


From c83db9bdf559d91cfa4df05c3496bc1cf665932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:17 +0000
Subject: [PATCH 84/90] fix: set each component of the thrust direction to its
 value

---
 nyx-core/src/cosmic/spacecraft.rs | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/nyx-core/src/cosmic/spacecraft.rs b/nyx-core/src/cosmic/spacecraft.rs
index 600a62e..3c9d00e 100644
--- a/nyx-core/src/cosmic/spacecraft.rs
+++ b/nyx-core/src/cosmic/spacecraft.rs
@@ -588,34 +588,16 @@ impl State for Spacecraft {
                 None => return Err(StateError::NoThrusterAvail),
             },
             StateParameter::ThrustX() => {
-                let mut direction = self.thrust_direction();
-                if direction.is_none() {
-                    direction = Some(Vector3::zeros());
-                }
-                if let Some(mut direction) = direction {
-                    direction[0] = val;
-                    self.mut_thrust_direction(Some(direction));
-                }
+                // The components are set one by one, so the direction cannot be normalized here.
+                self.thrust_direction.get_or_insert_default().x = val;
             }
             StateParameter::ThrustY() => {
-                let mut direction = self.thrust_direction();
-                if direction.is_none() {
-                    direction = Some(Vector3::zeros());
-                }
-                if let Some(mut direction) = direction {
-                    direction[1] = val;
-                    self.mut_thrust_direction(Some(direction));
-                }
+                // The components are set one by one, so the direction cannot be normalized here.
+                self.thrust_direction.get_or_insert_default().y = val;
             }
             StateParameter::ThrustZ() => {
-                let mut direction = self.thrust_direction();
-                if direction.is_none() {
-                    direction = Some(Vector3::zeros());
-                }
-                if let Some(mut direction) = direction {
-                    direction[2] = val;
-                    self.mut_thrust_direction(Some(direction));
-                }
+                // The components are set one by one, so the direction cannot be normalized here.
+                self.thrust_direction.get_or_insert_default().z = val;
             }
             StateParameter::ThrustInPlane(_) | StateParameter::ThrustOutOfPlane(_) => {
                 return Err(StateError::ReadOnly { param });
-- 
2.43.0


From ecc292474d21189c2a754536a62fe273c2152620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:24 +0000
Subject: [PATCH 85/90] fix: integrate the state transition matrix of ground
 assets

GroundDynamics::eom returned zeros for the derivative of the STM, which stayed
at identity, so the uncertainty on the rates never reached the position.
---
 nyx-core/src/od/groundpnt/ground_dynamics.rs | 27 ++++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/ground_dynamics.rs b/nyx-core/src/od/groundpnt/ground_dynamics.rs
index 3251c7e..d8ff0e7 100644
--- a/nyx-core/src/od/groundpnt/ground_dynamics.rs
+++ b/nyx-core/src/od/groundpnt/ground_dynamics.rs
@@ -16,6 +16,7 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
 
+use crate::State;
 use crate::dynamics::{Dynamics, DynamicsError};
 use crate::od::groundpnt::GroundAsset;
 use anise::prelude::Almanac;
@@ -31,27 +32,25 @@ impl Dynamics for GroundDynamics {
 
     fn eom(
         &self,
-        _delta_t: f64,
-        _state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
+        delta_t: f64,
+        state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
         state_ctx: &Self::StateType,
-        _almanac: &Almanac,
+        almanac: &Almanac,
     ) -> Result<OVector<f64, <Self::StateType as crate::State>::VecLength>, DynamicsError>
     where
         DefaultAllocator: Allocator<<Self::StateType as crate::State>::VecLength>,
     {
-        let d_x = Vector6::from_iterator([
-            state_ctx.latitude_rate_deg_s,
-            state_ctx.longitude_rate_deg_s,
-            state_ctx.height_rate_km_s,
-            0.0,
-            0.0,
-            0.0,
-        ]);
+        let osc = state_ctx.set_with_delta_seconds(delta_t, state_vec);
+        let (d_x, grad) = self.dual_eom(delta_t, &osc, almanac)?;
+
+        // Apply the gradient to the STM: d(STM)/dt = A * STM
+        let d_stm = match osc.stm {
+            Some(stm) => grad * stm,
+            None => Matrix6::zeros(),
+        };
 
         Ok(OVector::<f64, Const<42>>::from_iterator(
-            d_x.iter()
-                .chain(OVector::<f64, Const<36>>::zeros().iter())
-                .cloned(),
+            d_x.iter().chain(d_stm.iter()).cloned(),
         ))
     }
 
-- 
2.43.0


From 519a19910cca80a0798e28e9632fdf24f03cf110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:24 +0000
Subject: [PATCH 86/90] fix: export the gains and smoother ratios of the
 requested span of PNT results

With a start or end epoch, only the estimates and residuals were filtered, so
the columns had different lengths and the export failed.
---
 nyx-core/src/od/groundpnt/solution.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/solution.rs b/nyx-core/src/od/groundpnt/solution.rs
index 0383580..888ab0e 100644
--- a/nyx-core/src/od/groundpnt/solution.rs
+++ b/nyx-core/src/od/groundpnt/solution.rs
@@ -257,7 +257,7 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
+        let (estimates, residuals, gains, filter_smoother_ratios) =
             if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                 // Must interpolate the data!
                 let start = cfg
@@ -270,17 +270,27 @@ where
                 let mut residuals: Vec<Option<Residual<U2>>> =
                     Vec::with_capacity(self.residuals.len());
                 let mut estimates = Vec::with_capacity(self.estimates.len());
+                let mut gains = Vec::with_capacity(self.gains.len());
+                let mut filter_smoother_ratios =
+                    Vec::with_capacity(self.filter_smoother_ratios.len());
 
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
+                for (idx, estimate) in self.estimates.iter().enumerate() {
                     if estimate.epoch() >= start && estimate.epoch() <= end {
                         estimates.push(*estimate);
-                        residuals.push(residual.clone());
+                        residuals.push(self.residuals[idx].clone());
+                        gains.push(self.gains[idx]);
+                        filter_smoother_ratios.push(self.filter_smoother_ratios[idx]);
                     }
                 }
 
-                (estimates, residuals)
+                (estimates, residuals, gains, filter_smoother_ratios)
             } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
+                (
+                    self.estimates.to_vec(),
+                    self.residuals.to_vec(),
+                    self.gains.to_vec(),
+                    self.filter_smoother_ratios.to_vec(),
+                )
             };
 
         // Build all of the records
@@ -447,7 +457,7 @@ where
         for i in 0..state_items.len() {
             for j in 0..2 {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -461,7 +471,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..state_items.len() {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From c5c77b4f9e6bc2e6a4cd9279a18a8c46b050445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:24 +0000
Subject: [PATCH 87/90] fix: interpolate ground assets between the two
 surrounding states

With up to thirteen unevenly spaced states (as the adaptive integrators produce
them), the high order polynomial amplified rounding errors of the coordinates
to as much as a tenth of a degree.
---
 nyx-core/src/od/groundpnt/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/groundpnt/mod.rs b/nyx-core/src/od/groundpnt/mod.rs
index f52f820..f5ac304 100644
--- a/nyx-core/src/od/groundpnt/mod.rs
+++ b/nyx-core/src/od/groundpnt/mod.rs
@@ -382,7 +382,13 @@ impl State for GroundAsset {
 
 impl Interpolatable for GroundAsset {
     fn interpolate(mut self, epoch: Epoch, states: &[Self]) -> Result<Self, InterpolationError> {
-        // Interpolate the Orbit first
+        // Ground assets move at constant rates, so only use the states on either side of the requested epoch: a
+        // higher order does not add any accuracy, and amplifies the rounding errors if the states are unevenly spaced.
+        let next_idx = states
+            .partition_point(|state| state.epoch < epoch)
+            .clamp(1, states.len() - 1);
+        let states = &states[next_idx - 1..=next_idx];
+
         // Statically allocated arrays of the maximum number of samples
         let mut epochs_tdb = [0.0; INTERPOLATION_SAMPLES];
         let mut xs = [0.0; INTERPOLATION_SAMPLES];
-- 
2.43.0


From e4748d702d162e3ff01b228d637f082d0f05c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:27 +0000
Subject: [PATCH 88/90] fix: multiple shooting: partials of the impulse two
 nodes down

The impulse at a node is the departure velocity less the arrival velocity, so
moving the node two legs before changes it by minus the change of the arrival
velocity. The partial was also left out for the last impulse (and the bound
underflowed with fewer than three nodes), so the returned arrangement of nodes
was not the minimum of the cost.
---
 nyx-core/src/md/opti/multipleshooting/multishoot.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/opti/multipleshooting/multishoot.rs b/nyx-core/src/md/opti/multipleshooting/multishoot.rs
index 263fe24..706a956 100644
--- a/nyx-core/src/md/opti/multipleshooting/multishoot.rs
+++ b/nyx-core/src/md/opti/multipleshooting/multishoot.rs
@@ -179,9 +179,9 @@ impl<T: MultishootNode<OT>, const VT: usize, const OT: usize> MultipleShooting<'
                     /* ***
                      ** 2.D. Compute the difference between the arrival and departure velocities and node i+1
                      ** *** */
-                    if i < self.targets.len() - 3 {
-                        let dv_ip1 = inner_sol_b.achieved_state.orbit.velocity_km_s
-                            - initial_states[i + 2].orbit.velocity_km_s;
+                    if i + 2 < self.targets.len() {
+                        let dv_ip1 = initial_states[i + 2].orbit.velocity_km_s
+                            - inner_sol_b.achieved_state.orbit.velocity_km_s;
                         // ∂Δv_x / ∂r_x
                         outer_jacobian[(3 * (i + 2), OT * i + axis)] =
                             dv_ip1[0] / next_node[axis].tolerance;
-- 
2.43.0


From 66141a1b52978f50689fe67d61d685487734ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:27 +0000
Subject: [PATCH 89/90] fix: interpolate trajectories whose samples are
 unevenly spaced

Two samples much closer to one another than those around them (as the short
last step of a propagation leaves) amplified their differences through the
Hermite interpolation: errors grew from kilometers for a gap of one percent of
the step to millions of kilometers for nanoseconds. Skip the samples which are
much closer to their neighbor than those nearer to the epoch.
---
 nyx-core/src/md/trajectory/interpolatable.rs | 89 +++++++++++++++++---
 1 file changed, 76 insertions(+), 13 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 877711a..6130652 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -21,6 +21,9 @@ use anise::math::interpolation::{InterpolationError, hermite_eval};
 
 pub(crate) const INTERPOLATION_SAMPLES: usize = 13;
 
+/// Away from the interpolated epoch, samples closer to the previous one than this ratio of the previous gap are skipped.
+const MIN_GAP_RATIO: f64 = 0.2;
+
 use super::StateParameter;
 use crate::cosmic::Frame;
 use crate::dynamics::guidance::LocalFrame;
@@ -49,6 +52,61 @@ where
     fn export_params() -> Vec<StateParameter>;
 }
 
+/// Returns whether each state is to be used in the interpolation at this epoch: the states on either side of it are, and
+/// then, going away from the epoch, those which aren't much closer to the previous one than it is to the one before.
+fn well_spaced(
+    epoch: Epoch,
+    states: &[Spacecraft],
+    next_idx: usize,
+) -> [bool; INTERPOLATION_SAMPLES] {
+    let mut is_used = [false; INTERPOLATION_SAMPLES];
+    is_used[next_idx - 1] = true;
+    is_used[next_idx] = true;
+
+    let offset_s = |idx: usize| (states[idx].epoch() - epoch).to_seconds();
+    let bracket_s = offset_s(next_idx) - offset_s(next_idx - 1);
+
+    let (mut prev_idx, mut prev_gap_s) = (next_idx, bracket_s);
+    for (idx, used) in is_used
+        .iter_mut()
+        .enumerate()
+        .take(states.len())
+        .skip(next_idx + 1)
+    {
+        let gap_s = offset_s(idx) - offset_s(prev_idx);
+        if gap_s >= MIN_GAP_RATIO * prev_gap_s {
+            *used = true;
+            (prev_idx, prev_gap_s) = (idx, gap_s);
+        }
+    }
+
+    let (mut prev_idx, mut prev_gap_s) = (next_idx - 1, bracket_s);
+    for idx in (0..next_idx - 1).rev() {
+        let gap_s = offset_s(prev_idx) - offset_s(idx);
+        if gap_s >= MIN_GAP_RATIO * prev_gap_s {
+            is_used[idx] = true;
+            (prev_idx, prev_gap_s) = (idx, gap_s);
+        }
+    }
+
+    // If the epoch is itself between two samples that are much closer than those around them, use only the nearest one.
+    let around_s = [
+        (next_idx > 1).then(|| offset_s(next_idx - 1) - offset_s(next_idx - 2)),
+        (next_idx + 1 < states.len()).then(|| offset_s(next_idx + 1) - offset_s(next_idx)),
+    ];
+    if around_s.iter().any(Option::is_some)
+        && around_s
+            .iter()
+            .flatten()
+            .all(|gap_s| bracket_s < MIN_GAP_RATIO * gap_s)
+    {
+        let is_next_closest = offset_s(next_idx) < -offset_s(next_idx - 1);
+        is_used[next_idx - usize::from(is_next_closest)] = false;
+    }
+
+    is_used
+}
+
 impl Interpolatable for Spacecraft {
     fn interpolate(mut self, epoch: Epoch, states: &[Self]) -> Result<Self, InterpolationError> {
         // Interpolate the Orbit first
@@ -63,19 +121,27 @@ impl Interpolatable for Spacecraft {
         let mut vys = [0.0; INTERPOLATION_SAMPLES];
         let mut vzs = [0.0; INTERPOLATION_SAMPLES];
 
-        for (cno, state) in states.iter().enumerate() {
-            xs[cno] = state.orbit.radius_km.x;
-            ys[cno] = state.orbit.radius_km.y;
-            zs[cno] = state.orbit.radius_km.z;
-            vxs[cno] = state.orbit.velocity_km_s.x;
-            vys[cno] = state.orbit.velocity_km_s.y;
-            vzs[cno] = state.orbit.velocity_km_s.z;
-            offsets_s[cno] = (state.epoch() - epoch).to_seconds();
+        // Skip the samples that are much closer to their neighbor than the samples nearer to the requested epoch are to
+        // one another (e.g. because of the short last step of a propagation): they bring no information, but the
+        // differences of these samples divided by their tiny separation would be amplified by the interpolation.
+        let next_idx = states
+            .partition_point(|state| state.epoch() < epoch)
+            .clamp(1, states.len() - 1);
+        let is_used = well_spaced(epoch, states, next_idx);
+
+        let mut n = 0;
+        for (state, _) in states.iter().zip(is_used).filter(|(_, used)| *used) {
+            xs[n] = state.orbit.radius_km.x;
+            ys[n] = state.orbit.radius_km.y;
+            zs[n] = state.orbit.radius_km.z;
+            vxs[n] = state.orbit.velocity_km_s.x;
+            vys[n] = state.orbit.velocity_km_s.y;
+            vzs[n] = state.orbit.velocity_km_s.z;
+            offsets_s[n] = (state.epoch() - epoch).to_seconds();
+            n += 1;
         }
 
         // Ensure that if we don't have enough states, we only interpolate using what we have instead of INTERPOLATION_SAMPLES
-        let n = states.len();
-
         let (x_km, vx_km_s) = hermite_eval(&offsets_s[..n], &xs[..n], &vxs[..n], 0.0)?;
 
         let (y_km, vy_km_s) = hermite_eval(&offsets_s[..n], &ys[..n], &vys[..n], 0.0)?;
@@ -94,9 +160,6 @@ impl Interpolatable for Spacecraft {
         );
 
         // Fuel is linearly interpolated between the states on either side of the requested epoch
-        let next_idx = states
-            .partition_point(|state| state.epoch() < epoch)
-            .clamp(1, n - 1);
         let prev = &states[next_idx - 1];
         let next = &states[next_idx];
         let prop_kg_dt = (next.mass.prop_mass_kg - prev.mass.prop_mass_kg)
-- 
2.43.0


From db9b98ba1d76b31fd61cf4f8a9748c493bcc7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:24 +0000
Subject: [PATCH 90/90] fix: OD solutions with different measurement types are
 not equal

---
 nyx-core/src/od/process/solution/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/mod.rs b/nyx-core/src/od/process/solution/mod.rs
index 94a3715..bb024b9 100644
--- a/nyx-core/src/od/process/solution/mod.rs
+++ b/nyx-core/src/od/process/solution/mod.rs
@@ -216,7 +216,7 @@ where
             && self.gains.len() == other.gains.len()
             && self.filter_smoother_ratios.len() == other.filter_smoother_ratios.len()
             && self.devices == other.devices
-            && self.measurement_types.iter().all(|msr_type| other.measurement_types.contains(msr_type))
+            && self.measurement_types == other.measurement_types
             && self.estimates.iter().zip(other.estimates.iter()).all(|(mine, theirs)| {
                 (mine.state().to_state_vector() - theirs.state().to_state_vector()).norm() < 1e-6 &&
                 (mine.covar() - theirs.covar()).norm() < 1e-8
-- 
2.43.0

