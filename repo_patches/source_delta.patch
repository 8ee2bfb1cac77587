From 6bc8776721988182769480b560ba87abe18beed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:47 +0000
Subject: [PATCH 001/113] fix: enforce the integration tolerance when
 propagating backward

The step is negative during a back propagation, so it always compared as smaller than the minimum step and every step was accepted whatever its error.
---
 nyx-core/src/propagators/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index a6d74b5..2514958 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -426,7 +426,7 @@ where
                         .estimate(&error_est, &next_state, state_vec);
 
                 if self.details.error <= self.prop.opts.tolerance
-                    || step_size_s <= self.prop.opts.min_step.to_seconds()
+                    || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
                     if next_state.iter().any(|x| x.is_nan()) {
@@ -481,8 +481,8 @@ where
                         * (self.prop.opts.tolerance / self.details.error)
                             .powf(1.0 / f64::from(self.prop.method.order() - 1));
 
-                    step_size_s = if proposed_step_s < self.prop.opts.min_step.to_seconds() {
-                        self.prop.opts.min_step.to_seconds()
+                    step_size_s = if proposed_step_s.abs() < self.prop.opts.min_step.to_seconds() {
+                        self.prop.opts.min_step.to_seconds() * step_size_s.signum()
                     } else {
                         proposed_step_s
                     };
-- 
2.43.0


From 3550e0146023906acb020b42b7c19bf5a5e04a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:16 +0000
Subject: [PATCH 002/113] fix: leave the propagator instance usable after a
 stop condition

When the stop condition (event) triggered, the step size kept the sign of a back propagation, so a later forward propagation never ended, and the state was left in the integration frame.
---
 nyx-core/src/propagators/instance.rs | 57 +++++++++++++++-------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 2514958..c011b4c 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -25,6 +25,7 @@ use crate::md::trajectory::{Interpolatable, Traj};
 use crate::time::{Duration, Epoch, Unit};
 use anise::almanac::Almanac;
 use anise::errors::MathError;
+use anise::frames::Frame;
 use log::{info, warn};
 use rayon::iter::ParallelBridge;
 use rayon::prelude::ParallelIterator;
@@ -110,6 +111,8 @@ where
             .context(DynamicsSnafu)?;
 
         let backprop = duration.is_negative();
+        // The step size is in the direction of the propagation
+        self.step_size = self.step_size.abs();
         if backprop {
             self.step_size = -self.step_size; // Invert the step size
         }
@@ -163,17 +166,7 @@ where
                         }
                     }
 
-                    // Rotate back if needed
-                    if let Some(original_frame) = original_frame {
-                        let new_orbit = self
-                            .almanac
-                            .transform_to(self.state.orbit(), original_frame, None)
-                            .context(DynamicsAlmanacSnafu {
-                                action: "transforming state from desired integration frame",
-                            })
-                            .context(DynamicsSnafu)?;
-                        self.state.set_orbit(new_orbit);
-                    }
+                    self.restore(backprop, original_frame)?;
 
                     return Ok(self.state);
                 }
@@ -195,10 +188,6 @@ where
                 // Restore the step size for subsequent calls
                 self.set_step(prev_step_size, prev_step_kind);
 
-                if backprop {
-                    self.step_size = -self.step_size; // Restore to a positive step size
-                }
-
                 #[cfg(not(target_arch = "wasm32"))]
                 {
                     if self.log_progress {
@@ -207,17 +196,7 @@ where
                     }
                 }
 
-                // Rotate back if needed
-                if let Some(original_frame) = original_frame {
-                    let new_orbit = self
-                        .almanac
-                        .transform_to(self.state.orbit(), original_frame, None)
-                        .context(DynamicsAlmanacSnafu {
-                            action: "transforming state from desired integration frame",
-                        })
-                        .context(DynamicsSnafu)?;
-                    self.state.set_orbit(new_orbit);
-                }
+                self.restore(backprop, original_frame)?;
 
                 return Ok(self.state);
             } else {
@@ -247,6 +226,7 @@ where
                     // the new state on the channel for the caller to know that the exact
                     // condition they are seeking is between the last state on the channel
                     // and the state we're returning
+                    self.restore(backprop, original_frame)?;
 
                     return Ok(self.state);
                 }
@@ -261,6 +241,31 @@ where
         }
     }
 
+    /// Sets the step size to a positive value and the state to its original frame, such that this instance may be used again.
+    fn restore(
+        &mut self,
+        backprop: bool,
+        original_frame: Option<Frame>,
+    ) -> Result<(), PropagationError> {
+        if backprop {
+            self.step_size = -self.step_size; // Restore to a positive step size
+        }
+
+        // Rotate back if needed
+        if let Some(original_frame) = original_frame {
+            let new_orbit = self
+                .almanac
+                .transform_to(self.state.orbit(), original_frame, None)
+                .context(DynamicsAlmanacSnafu {
+                    action: "transforming state from desired integration frame",
+                })
+                .context(DynamicsSnafu)?;
+            self.state.set_orbit(new_orbit);
+        }
+
+        Ok(())
+    }
+
     /// This method propagates the provided Dynamics for the provided duration.
     pub fn for_duration(&mut self, duration: Duration) -> Result<D::StateType, PropagationError> {
         self.propagate(duration, None, Some(|_| Ok(false)))
-- 
2.43.0


From 5f734b63fbd3920127f38b17fcb68c2174fea1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:16 +0000
Subject: [PATCH 003/113] fix: publish states in the frame of the initial state
 when integrating in another frame

The trajectory mixed the initial state in its own frame with states in the integration frame.
---
 nyx-core/src/propagators/instance.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index c011b4c..36643d2 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -180,7 +180,7 @@ where
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(self.state_in(original_frame)?)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -220,7 +220,7 @@ where
                 self.single_step()?;
 
                 if let Some(ref mut condition) = stop_condition
-                    && condition(self.state)?
+                    && condition(self.state_in(original_frame)?)?
                 {
                     // Stopping condition triggered. We don't send
                     // the new state on the channel for the caller to know that the exact
@@ -233,7 +233,7 @@ where
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(self.state_in(original_frame)?)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -251,19 +251,27 @@ where
             self.step_size = -self.step_size; // Restore to a positive step size
         }
 
+        self.state = self.state_in(original_frame)?;
+
+        Ok(())
+    }
+
+    /// Returns the current state in the original frame if it is integrated in another one.
+    fn state_in(&self, original_frame: Option<Frame>) -> Result<D::StateType, PropagationError> {
+        let mut state = self.state;
         // Rotate back if needed
         if let Some(original_frame) = original_frame {
             let new_orbit = self
                 .almanac
-                .transform_to(self.state.orbit(), original_frame, None)
+                .transform_to(state.orbit(), original_frame, None)
                 .context(DynamicsAlmanacSnafu {
                     action: "transforming state from desired integration frame",
                 })
                 .context(DynamicsSnafu)?;
-            self.state.set_orbit(new_orbit);
+            state.set_orbit(new_orbit);
         }
 
-        Ok(())
+        Ok(state)
     }
 
     /// This method propagates the provided Dynamics for the provided duration.
-- 
2.43.0


From 8d8dce05c43301ff6f406459928a4377eb97b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:23 +0000
Subject: [PATCH 004/113] fix: apply the error control to the last step of an
 adaptive propagation

The step which lands on the requested epoch was taken as a fixed step of up to the proposed (or initial) step size whatever its error, e.g. thousands of kilometers over 2500 s with the step options of with_adaptive_step.
---
 nyx-core/src/propagators/instance.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 36643d2..85dac32 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -174,7 +174,7 @@ where
                 // Take one final step of exactly the needed duration until the stop time
                 let prev_step_size = self.step_size;
                 let prev_step_kind = self.fixed_step;
-                self.set_step(stop_time - epoch, true);
+                self.set_step(stop_time - epoch, prev_step_kind);
 
                 self.single_step()?;
 
@@ -185,6 +185,11 @@ where
                     warn!("{e} when sending on channel")
                 }
 
+                if self.state.epoch() != stop_time {
+                    // That step was too large for the requested tolerance, so keep going with the adapted step.
+                    continue;
+                }
+
                 // Restore the step size for subsequent calls
                 self.set_step(prev_step_size, prev_step_kind);
 
@@ -457,7 +462,12 @@ where
                         );
                     }
 
-                    self.details.step = step_size_s * Unit::Second;
+                    self.details.step = if self.details.attempts == 1 {
+                        // Not adapted, so avoid any rounding.
+                        self.step_size
+                    } else {
+                        step_size_s * Unit::Second
+                    };
                     if self.details.error < self.prop.opts.tolerance {
                         // Let's increase the step size for the next iteration.
                         // Error is less than tolerance, let's attempt to increase the step for the next iteration.
-- 
2.43.0


From c3bbe3f757deb87a1036763ddf1a92c325b81a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:17 +0000
Subject: [PATCH 005/113] fix: find events in the last step and when
 propagating backward

---
 nyx-core/src/propagators/event.rs    | 34 +++++++++++++++++++++++-----
 nyx-core/src/propagators/instance.rs | 12 ++++++++--
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/propagators/event.rs b/nyx-core/src/propagators/event.rs
index 6d07cd7..5d78bf0 100644
--- a/nyx-core/src/propagators/event.rs
+++ b/nyx-core/src/propagators/event.rs
@@ -169,17 +169,24 @@ where
 
         traj.finalize();
 
-        // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
-        let last_traj_state = traj.states.last().cloned().unwrap();
-        if end_state == last_traj_state {
+        if crossing_counts < trigger {
             return Err(PropagationError::NthEventError {
                 nth: trigger,
                 found: crossing_counts,
             });
         }
 
+        // The bracket starts at the latest published state, i.e. the first one if propagating backward.
+        // We pushed at least one item to this trajectory, so the following unwraps will always succeed.
+        let bracket_epoch = if max_duration.is_negative() {
+            traj.states.first().unwrap().epoch()
+        } else {
+            traj.states.last().unwrap().epoch()
+        };
+
         // Add the final state to the trajectory so we can search it in full.
         traj.states.push(end_state);
+        traj.finalize();
 
         // We have one bracket to search.
         let traj_at = |epoch: Epoch| -> Result<f64, AnalysisError> {
@@ -189,12 +196,27 @@ where
                     err: format!("{e}"),
                 })?;
 
-            event.eval(state.orbit(), &self.almanac)
+            let orbit = if let Some(observer_frame) = event_frame {
+                self.almanac
+                    .transform_to(state.orbit(), observer_frame, None)
+                    .map_err(|e| AnalysisError::GenericAnalysisError {
+                        err: format!("{e}"),
+                    })?
+            } else {
+                state.orbit()
+            };
+
+            event.eval(orbit, &self.almanac)
         };
 
         // Else Brent solver between these states
-        let event_epoch = brent_solver(traj_at, event, last_traj_state.epoch(), end_state.epoch())
-            .context(PropAnalysisSnafu)?;
+        let event_epoch = brent_solver(
+            traj_at,
+            event,
+            bracket_epoch.min(end_state.epoch()),
+            bracket_epoch.max(end_state.epoch()),
+        )
+        .context(PropAnalysisSnafu)?;
 
         #[cfg(not(target_arch = "wasm32"))]
         {
diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 85dac32..f32d738 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -154,8 +154,6 @@ where
             if (!backprop && epoch + self.step_size > stop_time)
                 || (backprop && epoch + self.step_size <= stop_time)
             {
-                // We don't check for the interrupt condition on the last step.
-                // If we're reached this far without hitting it, we most certainly won't trigger it.
                 if stop_time == epoch {
                     // No propagation necessary
                     #[cfg(not(target_arch = "wasm32"))]
@@ -178,6 +176,16 @@ where
 
                 self.single_step()?;
 
+                if let Some(ref mut condition) = stop_condition
+                    && condition(self.state_in(original_frame)?)?
+                {
+                    // Same as below: this state is not published.
+                    self.set_step(prev_step_size, prev_step_kind);
+                    self.restore(backprop, original_frame)?;
+
+                    return Ok(self.state);
+                }
+
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
                     && let Err(e) = chan.send(self.state_in(original_frame)?)
-- 
2.43.0


From fbc7b2370846221a885ff0f8f768194524ac9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:51 +0000
Subject: [PATCH 006/113] fix: integrate the state transition matrix with the
 gradient at each stage

---
 nyx-core/src/dynamics/spacecraft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 3fecb4c..2df44a4 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -205,13 +205,13 @@ impl Dynamics for SpacecraftDynamics {
         let mut d_x = OVector::<f64, Const<90>>::zeros();
 
         // Maybe I use this only when estimating the orbit state from a spacecraft, but that functionality will soon disappear.
-        match ctx.stm {
+        match osc_sc.stm {
             Some(stm) => {
                 // Call the gradient (also called the dual EOM function of the force models)
                 let (state, grad) = self.dual_eom(delta_t_s, &osc_sc, almanac)?;
 
                 // Apply the gradient to the STM
-                let stm_dt = stm * grad;
+                let stm_dt = grad * stm;
 
                 // Rebuild the state vector
                 for (i, val) in state.iter().enumerate() {
-- 
2.43.0


From f1d09376efd6cf18df74467a4564fb59b626d6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:15 +0000
Subject: [PATCH 007/113] fix: hold the third bodies constant in the gradient
 of the point masses

---
 nyx-core/src/dynamics/orbital.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/dynamics/orbital.rs b/nyx-core/src/dynamics/orbital.rs
index 273de65..90ebbcb 100644
--- a/nyx-core/src/dynamics/orbital.rs
+++ b/nyx-core/src/dynamics/orbital.rs
@@ -284,15 +284,13 @@ impl AccelModel for PointMasses {
                     action: "computing third body gravitational pull",
                 })?;
 
-            let r_ij: Vector3<OHyperdual<f64, Const<7>>> = hyperspace_from_vector(&st_ij.radius_km);
+            // The position of the third body does not depend on that of the spacecraft, so its dual parts are null.
+            let r_ij = st_ij
+                .radius_km
+                .map(OHyperdual::<f64, Const<7>>::from_real);
             let r_ij3 = norm(&r_ij).powi(3);
 
-            // The difference leads to the dual parts nulling themselves out, so let's fix that.
-            let mut r_j = radius - r_ij; // sc as seen from 3rd body
-            r_j[0][1] = 1.0;
-            r_j[1][2] = 1.0;
-            r_j[2][3] = 1.0;
-
+            let r_j = radius - r_ij; // sc as seen from 3rd body
             let r_j3 = norm(&r_j).powi(3);
             let mut third_body_acc_d = r_j / r_j3 + r_ij / r_ij3;
             third_body_acc_d[0] *= gm_d;
-- 
2.43.0


From a6f742cb7b562fd064486a310d0401324d99fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:37 +0000
Subject: [PATCH 008/113] fix: load the gravity fields configured from COF
 files

---
 nyx-core/src/io/gravity.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 586244a..59e9bd8 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -104,8 +104,10 @@ impl GravityFieldData {
                 action: "fetching gravity field frame",
             })?;
 
-        if !cfg.gunzipped && cfg.filepath.ends_with(".cof")
-            || cfg.gunzipped && cfg.filepath.ends_with(".cof.gz")
+        // Path::ends_with only considers whole path components.
+        let filename = cfg.filepath.to_string_lossy();
+        if !cfg.gunzipped && filename.ends_with(".cof")
+            || cfg.gunzipped && filename.ends_with(".cof.gz")
         {
             Self::from_cof(cfg.filepath, cfg.degree, cfg.order, cfg.gunzipped, frame)
         } else {
-- 
2.43.0


From 02dfac01716866ffbdebf83d6a41d9a20dc7228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:37 +0000
Subject: [PATCH 009/113] fix: compute the drag from the velocity relative to
 the atmosphere, in the integration frame

---
 nyx-core/src/dynamics/drag.rs | 114 ++++++++++++++--------------------
 1 file changed, 48 insertions(+), 66 deletions(-)

diff --git a/nyx-core/src/dynamics/drag.rs b/nyx-core/src/dynamics/drag.rs
index c71dbde..05d8a32 100644
--- a/nyx-core/src/dynamics/drag.rs
+++ b/nyx-core/src/dynamics/drag.rs
@@ -18,13 +18,14 @@
 
 use anise::almanac::Almanac;
 use anise::constants::frames::IAU_EARTH_FRAME;
+use anise::errors::OrientationSnafu;
 use snafu::ResultExt;
 
 use super::{
     DynamicsAlmanacSnafu, DynamicsAstroSnafu, DynamicsError, DynamicsPlanetarySnafu, ForceModel,
 };
 use crate::cosmic::{AstroError, AstroPhysicsSnafu, Frame, Spacecraft};
-use crate::linalg::{Matrix4x3, Vector3};
+use crate::linalg::{Matrix3, Matrix4x3, Vector3};
 use serde::{Deserialize, Serialize};
 use serde_dhall::StaticType;
 use std::fmt;
@@ -82,6 +83,23 @@ impl fmt::Display for ConstantDrag {
     }
 }
 
+/// Returns the rotation from the drag frame into the integration frame.
+fn rotate_to(
+    drag_frame: Frame,
+    ctx: &Spacecraft,
+    almanac: &Almanac,
+) -> Result<Matrix3<f64>, DynamicsError> {
+    Ok(almanac
+        .rotate(drag_frame, ctx.orbit.frame, ctx.orbit.epoch)
+        .context(OrientationSnafu {
+            action: "rotating into the integration frame",
+        })
+        .context(DynamicsAlmanacSnafu {
+            action: "rotating into the integration frame",
+        })?
+        .rot_mat)
+}
+
 impl ForceModel for ConstantDrag {
     fn estimation_index(&self) -> Option<usize> {
         if self.estimate { Some(7) } else { None }
@@ -95,7 +113,7 @@ impl ForceModel for ConstantDrag {
                     action: "transforming into drag frame",
                 })?;
 
-        let velocity = osc.velocity_km_s;
+        let velocity = rotate_to(self.frame, ctx, almanac)? * osc.velocity_km_s;
         // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
         Ok(-0.5
             * 1e3
@@ -179,8 +197,6 @@ impl ForceModel for Drag {
     }
 
     fn eom(&self, ctx: &Spacecraft, almanac: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
-        let integration_frame = ctx.orbit.frame;
-
         let osc_drag_frame =
             almanac
                 .transform_to(ctx.orbit, self.frame, None)
@@ -188,54 +204,24 @@ impl ForceModel for Drag {
                     action: "transforming into drag frame",
                 })?;
 
-        match self.density {
-            AtmDensity::Constant(rho) => {
-                let velocity = osc_drag_frame.velocity_km_s;
-                // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
-                Ok(-0.5
-                    * 1e3
-                    * rho
-                    * ctx.drag.coeff_drag
-                    * ctx.drag.area_m2
-                    * velocity.norm()
-                    * velocity)
-            }
+        let rho = match self.density {
+            AtmDensity::Constant(rho) => rho,
 
             AtmDensity::Exponential {
                 rho0,
                 r0,
                 ref_alt_m,
             } => {
-                // Compute rho in the drag frame.
-                let rho = rho0
-                    * (-(osc_drag_frame.rmag_km()
-                        - (r0
-                            + self
-                                .frame
-                                .mean_equatorial_radius_km()
-                                .context(AstroPhysicsSnafu)
-                                .context(DynamicsAstroSnafu)?))
-                        / ref_alt_m)
-                        .exp();
-
-                // TODO: Drag modeling will be improved in https://github.com/nyx-space/nyx/issues/317
-                // The frame will be double checked in this PR as well.
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
-                // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
-                Ok(-0.5
-                    * 1e3
-                    * rho
-                    * ctx.drag.coeff_drag
-                    * ctx.drag.area_m2
-                    * velocity.norm()
-                    * velocity)
+                // Compute rho in the drag frame, altitudes are in meters.
+                let altitude_m = (osc_drag_frame.rmag_km()
+                    - self
+                        .frame
+                        .mean_equatorial_radius_km()
+                        .context(AstroPhysicsSnafu)
+                        .context(DynamicsAstroSnafu)?)
+                    * 1e3;
+
+                rho0 * (-(altitude_m - r0) / ref_alt_m).exp()
             }
 
             AtmDensity::StdAtm { max_alt_m } => {
@@ -245,7 +231,8 @@ impl ForceModel for Drag {
                         .mean_equatorial_radius_km()
                         .context(AstroPhysicsSnafu)
                         .context(DynamicsAstroSnafu)?;
-                let rho = if altitude_km > max_alt_m / 1_000.0 {
+
+                if altitude_km > max_alt_m / 1_000.0 {
                     // Use a constant density
                     10.0_f64.powf((-7e-5) * altitude_km - 14.464)
                 } else {
@@ -261,26 +248,21 @@ impl ForceModel for Drag {
 
                     /* Calculating density by raising 10 to the log of density */
                     10.0_f64.powf(logdensity)
-                };
-
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
-                // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
-                Ok(-0.5
-                    * 1e3
-                    * rho
-                    * ctx.drag.coeff_drag
-                    * ctx.drag.area_m2
-                    * velocity.norm()
-                    * velocity)
+                }
             }
-        }
+        };
+
+        // TODO: Drag modeling will be improved in https://github.com/nyx-space/nyx/issues/317
+        // The velocity with respect to the atmosphere, which rotates with the drag frame, in the integration frame.
+        let velocity = rotate_to(self.frame, ctx, almanac)? * osc_drag_frame.velocity_km_s;
+        // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
+        Ok(-0.5
+            * 1e3
+            * rho
+            * ctx.drag.coeff_drag
+            * ctx.drag.area_m2
+            * velocity.norm()
+            * velocity)
     }
 
     fn gradient(
-- 
2.43.0


From f86e6c950054debb4a8d0d2d34338cd2f2ded66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:38 +0000
Subject: [PATCH 010/113] fix: refuse gravity field files with an order greater
 than the degree

---
 nyx-core/src/io/gravity.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 59e9bd8..ec84c27 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -335,6 +335,14 @@ impl GravityFieldData {
                 break;
             }
 
+            if cur_order > cur_degree {
+                return Err(NyxError::FileUnreadable {
+                    msg: format!(
+                        "Harmonics file: order {cur_order} exceeds degree {cur_degree} on line {lno}"
+                    ),
+                });
+            }
+
             // Only insert this data into the hashmap if it's within the required order as well
             if cur_order <= order {
                 c_nm_mat[(cur_degree, cur_order)] = c_nm;
@@ -469,6 +477,14 @@ impl GravityFieldData {
                 break;
             }
 
+            if cur_order > cur_degree {
+                return Err(NyxError::FileUnreadable {
+                    msg: format!(
+                        "Harmonics file: order {cur_order} exceeds degree {cur_degree} on line {lno}"
+                    ),
+                });
+            }
+
             // Only insert this data into the hashmap if it's within the required order as well
             if cur_order <= order {
                 c_nm_mat[(cur_degree, cur_order)] = c_nm;
-- 
2.43.0


From 44688a127ab97783a8ad7f82e29bf102deb240b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 011/113] fix: compute third body positions in the axes of the
 integration frame

---
 nyx-core/src/dynamics/orbital.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/orbital.rs b/nyx-core/src/dynamics/orbital.rs
index 90ebbcb..7e5f597 100644
--- a/nyx-core/src/dynamics/orbital.rs
+++ b/nyx-core/src/dynamics/orbital.rs
@@ -221,7 +221,7 @@ impl AccelModel for PointMasses {
             }
 
             let third_body_frame = almanac
-                .frame_info(osc.frame.with_ephem(third_body))
+                .frame_info(Frame::from_ephem_j2000(third_body))
                 .context(DynamicsPlanetarySnafu {
                     action: "planetary data from third body not loaded",
                 })?;
@@ -265,7 +265,7 @@ impl AccelModel for PointMasses {
             }
 
             let third_body_frame = almanac
-                .frame_info(osc.frame.with_ephem(third_body))
+                .frame_info(Frame::from_ephem_j2000(third_body))
                 .context(DynamicsPlanetarySnafu {
                     action: "planetary data from third body not loaded",
                 })?;
-- 
2.43.0


From 283457c41b82d26034a9fec4ea5eae1a0bbbba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 012/113] fix: express the solar radiation pressure in the axes
 of the integration frame

---
 nyx-core/src/dynamics/solarpressure.rs | 43 ++++++++++++++++++--------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/nyx-core/src/dynamics/solarpressure.rs b/nyx-core/src/dynamics/solarpressure.rs
index 284f96e..7a5ef1f 100644
--- a/nyx-core/src/dynamics/solarpressure.rs
+++ b/nyx-core/src/dynamics/solarpressure.rs
@@ -18,10 +18,11 @@
 
 use super::{DynamicsAlmanacSnafu, DynamicsError, DynamicsPlanetarySnafu, ForceModel};
 use crate::cosmic::eclipse::ShadowModel;
-use crate::cosmic::{AU, Frame, SPEED_OF_LIGHT_M_S, Spacecraft};
+use crate::cosmic::{AU, Frame, Orbit, SPEED_OF_LIGHT_M_S, Spacecraft};
 use crate::linalg::{Const, Matrix4x3, Vector3};
 use anise::almanac::Almanac;
 use anise::constants::frames::{EARTH_J2000, SUN_J2000};
+use anise::errors::OrientationSnafu;
 use hyperdual::{Float, OHyperdual, hyperspace_from_vector, linalg::norm};
 use log::warn;
 use serde::{Deserialize, Serialize};
@@ -125,6 +126,32 @@ impl SolarPressure {
     pub fn new(shadow_bodies: Vec<Frame>, almanac: &Almanac) -> Result<Arc<Self>, DynamicsError> {
         Ok(Arc::new(Self::default_flux_raw(shadow_bodies, almanac)?))
     }
+
+    /// Returns the position of the spacecraft as seen from the Sun, in the orientation of the integration frame.
+    fn vector_from_sun(
+        &self,
+        osc: Orbit,
+        almanac: &Almanac,
+    ) -> Result<Vector3<f64>, DynamicsError> {
+        let light_source = self.shadow_model.light_source;
+        let r_sun = almanac
+            .transform_to(osc, light_source, None)
+            .context(DynamicsAlmanacSnafu {
+                action: "transforming state to vector seen from Sun",
+            })?
+            .radius_km;
+
+        let dcm = almanac
+            .rotate(light_source, osc.frame, osc.epoch)
+            .context(OrientationSnafu {
+                action: "rotating vector seen from Sun",
+            })
+            .context(DynamicsAlmanacSnafu {
+                action: "rotating vector seen from Sun into integration frame",
+            })?;
+
+        Ok(dcm.rot_mat * r_sun)
+    }
 }
 
 impl ForceModel for SolarPressure {
@@ -135,12 +162,7 @@ impl ForceModel for SolarPressure {
     fn eom(&self, ctx: &Spacecraft, almanac: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
         let osc = ctx.orbit;
         // Compute the position of the Sun as seen from the spacecraft
-        let r_sun = almanac
-            .transform_to(ctx.orbit, self.shadow_model.light_source, None)
-            .context(DynamicsAlmanacSnafu {
-                action: "transforming state to vector seen from Sun",
-            })?
-            .radius_km;
+        let r_sun = self.vector_from_sun(osc, almanac)?;
 
         let r_sun_unit = r_sun / r_sun.norm();
 
@@ -172,12 +194,7 @@ impl ForceModel for SolarPressure {
         let osc = ctx.orbit;
 
         // Compute the position of the Sun as seen from the spacecraft
-        let r_sun = almanac
-            .transform_to(ctx.orbit, self.shadow_model.light_source, None)
-            .context(DynamicsAlmanacSnafu {
-                action: "transforming state to vector seen from Sun",
-            })?
-            .radius_km;
+        let r_sun = self.vector_from_sun(osc, almanac)?;
 
         let r_sun_d: Vector3<OHyperdual<f64, Const<9>>> = hyperspace_from_vector(&r_sun);
         let r_sun_unit = r_sun_d / norm(&r_sun_d);
-- 
2.43.0


From e94ec85317d80a9352efab5f93fd1ecca988b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:08 +0000
Subject: [PATCH 013/113] fix: define the reflectivity partial of a null
 reflectivity

---
 nyx-core/src/dynamics/solarpressure.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/dynamics/solarpressure.rs b/nyx-core/src/dynamics/solarpressure.rs
index 7a5ef1f..044cf3e 100644
--- a/nyx-core/src/dynamics/solarpressure.rs
+++ b/nyx-core/src/dynamics/solarpressure.rs
@@ -240,7 +240,9 @@ impl ForceModel for SolarPressure {
         }
 
         // Compute the partial wrt to Cr.
-        let wrt_cr = self.eom(ctx, almanac)? / ctx.srp.coeff_reflectivity;
+        let mut unit_cr = *ctx;
+        unit_cr.srp.coeff_reflectivity = 1.0;
+        let wrt_cr = self.eom(&unit_cr, almanac)?;
         for j in 0..3 {
             grad[(3, j)] = wrt_cr[j];
         }
-- 
2.43.0


From fdb4ba271200a1a95355b761ea951c360e2fa8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:08 +0000
Subject: [PATCH 014/113] fix: coast in eclipse with the Ruggiero guidance law

---
 nyx-core/src/dynamics/guidance/ruggiero.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/ruggiero.rs b/nyx-core/src/dynamics/guidance/ruggiero.rs
index 4dead80..2f6ded0 100644
--- a/nyx-core/src/dynamics/guidance/ruggiero.rs
+++ b/nyx-core/src/dynamics/guidance/ruggiero.rs
@@ -439,10 +439,12 @@ impl GuidanceLaw for Ruggiero {
                     } else {
                         sc.mode = GuidanceMode::Thrust;
                     }
-                } else if sc.mode() == GuidanceMode::Coast {
-                    debug!("enabling steering: {:x}", sc.orbit);
+                } else {
+                    if sc.mode() == GuidanceMode::Coast {
+                        debug!("enabling steering: {:x}", sc.orbit);
+                    }
+                    sc.mut_mode(GuidanceMode::Thrust);
                 }
-                sc.mut_mode(GuidanceMode::Thrust);
             } else {
                 if sc.mode() == GuidanceMode::Thrust {
                     debug!("disabling steering: {:x}", sc.orbit);
-- 
2.43.0


From a7766870f4655d60e9cfe17454221d5f400fc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:08 +0000
Subject: [PATCH 015/113] fix: record the thrust direction of the updated
 guidance mode

---
 nyx-core/src/dynamics/spacecraft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 2df44a4..9f7630c 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -169,6 +169,8 @@ impl Dynamics for SpacecraftDynamics {
 
         if let Some(guid_law) = &self.guid_law {
             let mut state = next_state;
+            // Update the control mode
+            guid_law.next(&mut state, almanac);
             // In a single clause, check that the throttle call is OK and its value positive
             // And convert the Result to an Option on the direction to return the option of a vector
             // for the next thrust direction.
@@ -178,8 +180,6 @@ impl Dynamics for SpacecraftDynamics {
             };
 
             state.mut_thrust_direction(thrust_direction);
-            // Update the control mode
-            guid_law.next(&mut state, almanac);
             Ok(state)
         } else {
             let mut state = next_state;
-- 
2.43.0


From b44d1ed0f41726c33802321951b4fe0fb8877bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:26 +0000
Subject: [PATCH 016/113] fix: finite burns and replays leave the inhibited
 guidance mode unchanged

---
 nyx-core/src/dynamics/guidance/mnvr.rs   |  3 +++
 nyx-core/src/dynamics/guidance/replay.rs | 12 ++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/mnvr.rs b/nyx-core/src/dynamics/guidance/mnvr.rs
index a9b13fd..bc2a423 100644
--- a/nyx-core/src/dynamics/guidance/mnvr.rs
+++ b/nyx-core/src/dynamics/guidance/mnvr.rs
@@ -386,6 +386,9 @@ impl GuidanceLaw for Maneuver {
     }
 
     fn next(&self, sc: &mut Spacecraft, _almanac: &Almanac) {
+        if sc.mode() == GuidanceMode::Inhibit {
+            return;
+        }
         let next_mode = if sc.epoch() >= self.start && sc.epoch() <= self.end {
             GuidanceMode::Thrust
         } else {
diff --git a/nyx-core/src/dynamics/guidance/replay.rs b/nyx-core/src/dynamics/guidance/replay.rs
index 707e24a..c4cae6a 100644
--- a/nyx-core/src/dynamics/guidance/replay.rs
+++ b/nyx-core/src/dynamics/guidance/replay.rs
@@ -98,10 +98,11 @@ impl GuidanceLaw for ThrustDirectionReplay {
 
     fn throttle(&self, osc_state: &Spacecraft) -> Result<f64, GuidanceError> {
         Ok(
-            if self
-                .command_at_or_before(osc_state)
-                .and_then(|sample| sample.thrust_direction())
-                .is_some()
+            if osc_state.mode() != GuidanceMode::Inhibit
+                && self
+                    .command_at_or_before(osc_state)
+                    .and_then(|sample| sample.thrust_direction())
+                    .is_some()
             {
                 1.0
             } else {
@@ -111,6 +112,9 @@ impl GuidanceLaw for ThrustDirectionReplay {
     }
 
     fn next(&self, next_state: &mut Spacecraft, _almanac: &Almanac) {
+        if next_state.mode() == GuidanceMode::Inhibit {
+            return;
+        }
         let thrust_direction = self
             .command_at_or_before(next_state)
             .and_then(|sample| sample.thrust_direction());
-- 
2.43.0


From bdb5e6fd752beabc2425ed2b102ab231f31d7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:26 +0000
Subject: [PATCH 017/113] fix: do not thrust with the Kluever guidance law when
 there is nothing to correct

---
 nyx-core/src/dynamics/guidance/kluever.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/dynamics/guidance/kluever.rs b/nyx-core/src/dynamics/guidance/kluever.rs
index 6c0684a..95a9869 100644
--- a/nyx-core/src/dynamics/guidance/kluever.rs
+++ b/nyx-core/src/dynamics/guidance/kluever.rs
@@ -265,6 +265,14 @@ impl GuidanceLaw for Kluever {
             }
         }
 
+        if sum_weighted_num_alpha == 0.0
+            && sum_weighted_den_alpha == 0.0
+            && sum_weighted_num_beta == 0.0
+        {
+            // Nothing to correct
+            return Ok(Vector3::zeros());
+        }
+
         // Calculate blended steering angles
         let alpha = sum_weighted_num_alpha.atan2(sum_weighted_den_alpha);
 
@@ -288,7 +296,7 @@ impl GuidanceLaw for Kluever {
 
     /// Either thrust full power or not at all
     fn throttle(&self, sc: &Spacecraft) -> Result<f64, GuidanceError> {
-        if sc.mode() == GuidanceMode::Thrust {
+        if sc.mode() == GuidanceMode::Thrust && self.direction(sc)?.norm() > 0.0 {
             Ok(1.0)
         } else {
             Ok(0.0)
-- 
2.43.0


From a0c112a1574fa22d7bd837a19c160a295946e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:54 +0000
Subject: [PATCH 018/113] fix: apply the impulsive maneuvers of a sequence in
 their local frame

---
 nyx-core/src/dynamics/sequence/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index dbc2a26..41947ea 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -30,6 +30,7 @@ use serde_dhall::{SimpleType, StaticType};
 use snafu::ResultExt;
 use std::collections::HashMap;
 
+use crate::dynamics::guidance::mnvr::ImpulsiveManeuver;
 use crate::dynamics::guidance::{Kluever, Ruggiero};
 use crate::dynamics::{SpacecraftDynamics, guidance::Thruster};
 use crate::errors::{FromAlmanacSnafu, FromPropSnafu};
@@ -182,8 +183,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = apply_impulsive(state, mnvr)?;
                                     }
                                     if let Some(decr) = decrement_properties {
                                         if let Some(mass) = decr.mass {
@@ -207,8 +207,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = apply_impulsive(state, mnvr)?;
                                     }
                                     if let Some(incr) = increment_properties {
                                         if let Some(mass) = incr.mass {
@@ -288,6 +287,17 @@ impl SpacecraftSequence {
     }
 }
 
+/// Applies the impulsive maneuver, defined in its local frame, to the provided state.
+fn apply_impulsive(state: Spacecraft, mnvr: &ImpulsiveManeuver) -> Result<Spacecraft, NyxError> {
+    let dcm = state
+        .orbit
+        .dcm_to_inertial(mnvr.local_frame)
+        .map_err(|e| NyxError::GenericError {
+            msg: format!("when applying {mnvr}: {e}"),
+        })?;
+    Ok(state.with_orbit(state.orbit.with_dv_km_s(dcm * mnvr.dv_km_s)))
+}
+
 impl StaticType for SpacecraftSequence {
     fn static_type() -> serde_dhall::SimpleType {
         let mut repr = HashMap::new();
-- 
2.43.0


From 080f248a6f652ef73f87ea03ff6e9a65e180f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:59 +0000
Subject: [PATCH 019/113] fix: rotate the orbit when a sequence swaps to a
 frame of another orientation

---
 nyx-core/src/dynamics/sequence/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 41947ea..f704b3a 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -163,13 +163,7 @@ impl SpacecraftSequence {
                                     {
                                         state = state.with_orbit(
                                             almanac
-                                                .translate_to(state.orbit, *new_frame, None)
-                                                .map_err(|source| {
-                                                    anise::errors::AlmanacError::Ephemeris {
-                                                        action: "central body swap",
-                                                        source: Box::new(source),
-                                                    }
-                                                })
+                                                .transform_to(state.orbit, *new_frame, None)
                                                 .context(FromAlmanacSnafu {
                                                     action: "central body swap",
                                                 })?,
-- 
2.43.0


From 66bb5c3feea4ba45ded997bfdcc6f7da4dfb7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:35 +0000
Subject: [PATCH 020/113] fix: start a sequence in the phase under way, and
 skip disabled phases as if they were removed

---
 nyx-core/src/dynamics/sequence/mod.rs | 43 +++++++++++++++++++++------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index f704b3a..7eb9a78 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -126,7 +126,26 @@ impl SpacecraftSequence {
         almanac: Arc<Almanac>,
     ) -> Result<Vec<Trajectory>, NyxError> {
         let tick = Epoch::now().unwrap();
-        let mut phase_iterator = self.seq.range(state.epoch()..).peekable();
+        // The relevant phase is the one under way at the epoch of this state, or the first one.
+        // Disabled phases are skipped, so the phase under way extends until the next enabled one.
+        let init_epoch = state.epoch();
+        let enabled = |phase: &Phase| !matches!(phase, Phase::Activity { disabled: true, .. });
+        let first_epoch = self
+            .seq
+            .range(..=init_epoch)
+            .rfind(|(_, phase)| enabled(phase))
+            .map_or(init_epoch, |(epoch, _)| *epoch);
+        let mut phase_iterator = self
+            .seq
+            .range(first_epoch..)
+            .filter(|(epoch, phase)| match phase {
+                // Keep the upcoming phase where to stop even if it is disabled
+                Phase::Activity { name, .. } => {
+                    enabled(phase) || (until_phase.as_ref() == Some(name) && **epoch >= init_epoch)
+                }
+                Phase::Terminate => true,
+            })
+            .peekable();
 
         let mut trajs = Vec::with_capacity(self.seq.len());
 
@@ -155,7 +174,10 @@ impl SpacecraftSequence {
                         info!("[{epoch}] skipping disabled {name}");
                     } else {
                         info!("[{epoch}] executing {name}");
-                        if let Some(discrete_event) = on_entry {
+                        // If the initial state is past the start of this phase, then its entry event has already happened
+                        if let Some(discrete_event) = on_entry
+                            && *epoch >= init_epoch
+                        {
                             match &**discrete_event {
                                 DiscreteEvent::FrameSwap { new_frame } => {
                                     if !new_frame.orient_origin_match(state.orbit.frame)
@@ -277,18 +299,21 @@ impl SpacecraftSequence {
                 }
             }
         }
-        unreachable!("spacecraft plan never finished?!")
+        Err(NyxError::GenericError {
+            msg: "spacecraft sequence has no Terminate phase".to_string(),
+        })
     }
 }
 
 /// Applies the impulsive maneuver, defined in its local frame, to the provided state.
 fn apply_impulsive(state: Spacecraft, mnvr: &ImpulsiveManeuver) -> Result<Spacecraft, NyxError> {
-    let dcm = state
-        .orbit
-        .dcm_to_inertial(mnvr.local_frame)
-        .map_err(|e| NyxError::GenericError {
-            msg: format!("when applying {mnvr}: {e}"),
-        })?;
+    let dcm =
+        state
+            .orbit
+            .dcm_to_inertial(mnvr.local_frame)
+            .map_err(|e| NyxError::GenericError {
+                msg: format!("when applying {mnvr}: {e}"),
+            })?;
     Ok(state.with_orbit(state.orbit.with_dv_km_s(dcm * mnvr.dv_km_s)))
 }
 
-- 
2.43.0


From 9e325713b620f0d39a3203ae28931af454ce5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:51 +0000
Subject: [PATCH 021/113] fix: interpolate the propellant mass between the
 states around the epoch

---
 nyx-core/src/md/trajectory/interpolatable.rs | 23 ++++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 6114973..7ebebca 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -94,13 +94,22 @@ impl Interpolatable for Spacecraft {
             self.orbit.frame,
         );
 
-        // Fuel is linearly interpolated -- should really be a Lagrange interpolation here
-        let first = states.first().unwrap();
-        let last = states.last().unwrap();
-        let prop_kg_dt = (last.mass.prop_mass_kg - first.mass.prop_mass_kg)
-            / (last.epoch() - first.epoch()).to_seconds();
-
-        self.mass.prop_mass_kg += prop_kg_dt * (epoch - first.epoch()).to_seconds();
+        // Fuel is linearly interpolated between the states around this epoch -- should really be a Lagrange interpolation here
+        let next_idx = states
+            .iter()
+            .position(|state| state.epoch() > epoch)
+            .unwrap_or(n - 1)
+            .max(1)
+            .min(n - 1);
+        let prev = &states[next_idx.saturating_sub(1)];
+        let next = &states[next_idx];
+        let span_s = (next.epoch() - prev.epoch()).to_seconds();
+        self.mass.prop_mass_kg = prev.mass.prop_mass_kg;
+        if span_s > 0.0 {
+            self.mass.prop_mass_kg += (next.mass.prop_mass_kg - prev.mass.prop_mass_kg)
+                * (epoch - prev.epoch()).to_seconds()
+                / span_s;
+        }
         // Thrust direction is a discrete guidance output and should not be interpolated.
         self.thrust_direction = None;
 
-- 
2.43.0


From 2b1c1ea71d9826fcf0bf1203ad6f30467bc2dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:51 +0000
Subject: [PATCH 022/113] fix: remove all of the duplicate epochs when
 finalizing a trajectory

---
 nyx-core/src/md/trajectory/traj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e3f9fbb..0ebf321 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -73,10 +73,10 @@ where
     }
     /// Orders the states, can be used to store the states out of order
     pub fn finalize(&mut self) {
-        // Remove duplicate epochs
-        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
-        // And sort
+        // Sort
         self.states.sort_by_key(|a| a.epoch());
+        // And remove duplicate epochs, which are now consecutive
+        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
     }
 
     /// Evaluate the trajectory at this specific epoch.
-- 
2.43.0


From fa8cae897f26f27520bbd772f445c544992aebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:56 +0000
Subject: [PATCH 023/113] fix: honor the excluded bounds when filtering a
 trajectory by offset

---
 nyx-core/src/md/trajectory/traj.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 0ebf321..04be7ef 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -45,7 +45,7 @@ use std::fmt;
 use std::fs::File;
 use std::iter::Iterator;
 use std::ops;
-use std::ops::Bound::{Excluded, Included, Unbounded};
+use std::ops::Bound;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -179,17 +179,11 @@ where
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.states.first().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
-
-        let end = match bound.end_bound() {
-            Unbounded => self.states.last().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
+        let first_epoch = self.first().epoch();
+        let to_epoch = |offset_bound: Bound<&Duration>| offset_bound.map(|o| first_epoch + *o);
+        let epoch_bounds = (to_epoch(bound.start_bound()), to_epoch(bound.end_bound()));
 
-        self.filter_by_epoch(start..=end)
+        self.filter_by_epoch(epoch_bounds)
     }
     /// Store this trajectory arc to a parquet file with the default configuration (depends on the state type, search for `export_params` in the documentation for details).
     pub fn to_parquet_simple<P: AsRef<Path>>(&self, path: P) -> Result<PathBuf, Box<dyn Error>> {
-- 
2.43.0


From 402d780b3e7771a496e86724b8e76f9538eedbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 024/113] fix: set the components of the thrust direction
 without altering the other ones

---
 nyx-core/src/cosmic/spacecraft.rs | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/nyx-core/src/cosmic/spacecraft.rs b/nyx-core/src/cosmic/spacecraft.rs
index 600a62e..563e8f4 100644
--- a/nyx-core/src/cosmic/spacecraft.rs
+++ b/nyx-core/src/cosmic/spacecraft.rs
@@ -588,34 +588,16 @@ impl State for Spacecraft {
                 None => return Err(StateError::NoThrusterAvail),
             },
             StateParameter::ThrustX() => {
-                let mut direction = self.thrust_direction();
-                if direction.is_none() {
-                    direction = Some(Vector3::zeros());
-                }
-                if let Some(mut direction) = direction {
-                    direction[0] = val;
-                    self.mut_thrust_direction(Some(direction));
-                }
+                // Do not normalize: the components are set one at a time.
+                self.thrust_direction.get_or_insert_default().x = val;
             }
             StateParameter::ThrustY() => {
-                let mut direction = self.thrust_direction();
-                if direction.is_none() {
-                    direction = Some(Vector3::zeros());
-                }
-                if let Some(mut direction) = direction {
-                    direction[1] = val;
-                    self.mut_thrust_direction(Some(direction));
-                }
+                // Do not normalize: the components are set one at a time.
+                self.thrust_direction.get_or_insert_default().y = val;
             }
             StateParameter::ThrustZ() => {
-                let mut direction = self.thrust_direction();
-                if direction.is_none() {
-                    direction = Some(Vector3::zeros());
-                }
-                if let Some(mut direction) = direction {
-                    direction[2] = val;
-                    self.mut_thrust_direction(Some(direction));
-                }
+                // Do not normalize: the components are set one at a time.
+                self.thrust_direction.get_or_insert_default().z = val;
             }
             StateParameter::ThrustInPlane(_) | StateParameter::ThrustOutOfPlane(_) => {
                 return Err(StateError::ReadOnly { param });
-- 
2.43.0


From 9eca155a8be22f6722131cd1bd638c2e896fe742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 025/113] fix: restore the reflectivity and drag coefficients
 of trajectories stored in parquet

---
 nyx-core/src/md/trajectory/sc_traj.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index a4e9717..fba5f07 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -244,6 +244,8 @@ impl Traj<Spacecraft> {
             (StateParameter::DryMass(), false),
             (StateParameter::Isp(), false),
             (StateParameter::PropMass(), false),
+            (StateParameter::Cr(), false),
+            (StateParameter::Cd(), false),
             (StateParameter::Thrust(), false),
             (StateParameter::ThrustX(), false),
             (StateParameter::ThrustY(), false),
-- 
2.43.0


From d9fee5b3b000ba060264f217223997a5a6331898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:05 +0000
Subject: [PATCH 026/113] fix: report the damaged trajectory files instead of
 panicking

---
 nyx-core/src/md/trajectory/sc_traj.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index fba5f07..4e25e67 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -22,7 +22,7 @@ use crate::State;
 use crate::cosmic::{GuidanceMode, Spacecraft};
 use crate::dynamics::guidance::{ThrustDirectionReplay, Thruster};
 use crate::errors::{FromAlmanacSnafu, NyxError};
-use crate::io::{InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
+use crate::io::{ArrowSnafu, InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
 use crate::md::prelude::{Interpolatable, StateParameter};
 use crate::time::{Duration, Epoch, TimeUnits};
 use anise::analysis::prelude::OrbitalElement;
@@ -214,7 +214,9 @@ impl Traj<Spacecraft> {
             action: "opening trajectory file",
         })?;
 
-        let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+        let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+            action: "reading trajectory file",
+        })?;
 
         let mut metadata = HashMap::new();
         // Build the custom metadata
@@ -344,7 +346,9 @@ impl Traj<Spacecraft> {
 
         // Now convert each batch on the fly
         for maybe_batch in reader {
-            let batch = maybe_batch.unwrap();
+            let batch = maybe_batch.context(ArrowSnafu {
+                action: "reading batch of trajectory data",
+            })?;
 
             let epochs = batch
                 .column_by_name("Epoch (UTC)")
-- 
2.43.0


From 72bb86b034d4439e81a9be37c17fbd693e5e3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:23 +0000
Subject: [PATCH 027/113] fix: interpolate trajectories with offsets instead of
 absolute seconds, for precision

---
 nyx-core/src/md/trajectory/interpolatable.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 7ebebca..394d76a 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -53,7 +53,11 @@ impl Interpolatable for Spacecraft {
     fn interpolate(mut self, epoch: Epoch, states: &[Self]) -> Result<Self, InterpolationError> {
         // Interpolate the Orbit first
         // Statically allocated arrays of the maximum number of samples
-        let mut epochs_tdb = [0.0; INTERPOLATION_SAMPLES];
+        // Use the offsets to the first state because absolute seconds past J2000 are only precise to some 0.1 microseconds,
+        // and such a timing error is amplified by the high order interpolation.
+        let ref_epoch = states.first().map_or(epoch, |state| state.epoch());
+        let offset_s = (epoch - ref_epoch).to_seconds();
+        let mut offsets_s = [0.0; INTERPOLATION_SAMPLES];
         let mut xs = [0.0; INTERPOLATION_SAMPLES];
         let mut ys = [0.0; INTERPOLATION_SAMPLES];
         let mut zs = [0.0; INTERPOLATION_SAMPLES];
@@ -68,20 +72,17 @@ impl Interpolatable for Spacecraft {
             vxs[cno] = state.orbit.velocity_km_s.x;
             vys[cno] = state.orbit.velocity_km_s.y;
             vzs[cno] = state.orbit.velocity_km_s.z;
-            epochs_tdb[cno] = state.epoch().to_et_seconds();
+            offsets_s[cno] = (state.epoch() - ref_epoch).to_seconds();
         }
 
         // Ensure that if we don't have enough states, we only interpolate using what we have instead of INTERPOLATION_SAMPLES
         let n = states.len();
 
-        let (x_km, vx_km_s) =
-            hermite_eval(&epochs_tdb[..n], &xs[..n], &vxs[..n], epoch.to_et_seconds())?;
+        let (x_km, vx_km_s) = hermite_eval(&offsets_s[..n], &xs[..n], &vxs[..n], offset_s)?;
 
-        let (y_km, vy_km_s) =
-            hermite_eval(&epochs_tdb[..n], &ys[..n], &vys[..n], epoch.to_et_seconds())?;
+        let (y_km, vy_km_s) = hermite_eval(&offsets_s[..n], &ys[..n], &vys[..n], offset_s)?;
 
-        let (z_km, vz_km_s) =
-            hermite_eval(&epochs_tdb[..n], &zs[..n], &vzs[..n], epoch.to_et_seconds())?;
+        let (z_km, vz_km_s) = hermite_eval(&offsets_s[..n], &zs[..n], &vzs[..n], offset_s)?;
 
         self.orbit = Orbit::new(
             x_km,
-- 
2.43.0


From ffb7d449961a1223cc3b5ef1eec30af708b3b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:12 +0000
Subject: [PATCH 028/113] fix: keep the interpolation of unevenly spaced
 trajectories well conditioned

---
 nyx-core/src/md/trajectory/traj.rs | 50 +++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 04be7ef..0667506 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -49,6 +49,28 @@ use std::ops::Bound;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
+/// Maximum amplification of the rounding errors of the states by the interpolation.
+const MAX_INTERPOLATION_GAIN: f64 = 1e6;
+
+/// Returns the absolute value of the Hermite basis polynomials for each of the nodes when evaluated at zero.
+fn hermite_weights(nodes: &[f64]) -> Vec<f64> {
+    nodes
+        .iter()
+        .enumerate()
+        .map(|(i, xi)| {
+            let mut basis = 1.0;
+            let mut basis_dt = 0.0;
+            for (j, xj) in nodes.iter().enumerate() {
+                if i != j {
+                    basis *= xj / (xj - xi);
+                    basis_dt += 1.0 / (xi - xj);
+                }
+            }
+            ((1.0 + 2.0 * basis_dt * xi) * basis * basis).abs()
+        })
+        .collect()
+}
+
 /// Store a trajectory of any State.
 #[derive(Clone, PartialEq)]
 pub struct Traj<S: Interpolatable>
@@ -106,13 +128,39 @@ where
 
                 // Ensure that we aren't fetching out of the window
                 let mut first_idx = idx.saturating_sub(num_left);
-                let last_idx = self.states.len().min(first_idx + INTERPOLATION_SAMPLES);
+                let mut last_idx = self.states.len().min(first_idx + INTERPOLATION_SAMPLES);
 
                 // Check that we have enough samples
                 if last_idx == self.states.len() {
                     first_idx = last_idx.saturating_sub(2 * num_left);
                 }
 
+                // Samples clustered away from this epoch, e.g. where the integrator adapted its step, make the interpolation
+                // ill-conditioned. So ignore the outermost samples as long as they amplify the rounding errors too much.
+                let offsets_s: Vec<f64> = self.states[first_idx..last_idx]
+                    .iter()
+                    .map(|state| (state.epoch() - epoch).to_seconds())
+                    .collect();
+                let window_start = first_idx;
+                while last_idx - first_idx > 2 {
+                    let weights = hermite_weights(
+                        &offsets_s[first_idx - window_start..last_idx - window_start],
+                    );
+                    if weights.iter().sum::<f64>() < MAX_INTERPOLATION_GAIN {
+                        break;
+                    }
+                    // Always keep the samples on either side of the epoch.
+                    let can_drop_first = first_idx + 1 < idx;
+                    let can_drop_last = last_idx - 1 > idx;
+                    if can_drop_first
+                        && (!can_drop_last || weights[0] >= weights[weights.len() - 1])
+                    {
+                        first_idx += 1;
+                    } else {
+                        last_idx -= 1;
+                    }
+                }
+
                 let mut states = Vec::with_capacity(last_idx - first_idx);
                 for idx in first_idx..last_idx {
                     states.push(self.states[idx]);
-- 
2.43.0


From 895564d405f68e5eff9972c522e8142850fd80f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:32 +0000
Subject: [PATCH 029/113] fix: disperse the coefficients and propellant mass
 with their own mean and standard deviation

---
 nyx-core/src/mc/multivariate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index b3dbef8..353bb4e 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -168,13 +168,16 @@ impl MvnSpacecraft {
                 } else {
                     match disp.param {
                         StateParameter::Cr() => {
-                            cov[(7, 7)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(6, 6)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[6] = disp.mean.unwrap_or(0.0);
                         }
                         StateParameter::Cd() => {
-                            cov[(8, 8)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(7, 7)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[7] = disp.mean.unwrap_or(0.0);
                         }
-                        StateParameter::DryMass() | StateParameter::PropMass() => {
-                            cov[(9, 9)] = disp.mean.unwrap_or(0.0).powi(2);
+                        StateParameter::PropMass() => {
+                            cov[(8, 8)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[8] = disp.mean.unwrap_or(0.0);
                         }
                         _ => return Err(Box::new(StateError::ReadOnly { param: disp.param })),
                     }
-- 
2.43.0


From 712aa0573cab1255708fa9a0a21813cba811f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:33 +0000
Subject: [PATCH 030/113] fix: report the dispersions as the dispersed state
 minus the template

---
 nyx-core/src/mc/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 353bb4e..a5396f1 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -323,7 +323,7 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
         let mut actual_dispersions = Vec::new();
         for disp in &self.dispersions {
             // Compute the delta
-            let delta = self.template.value(disp.param).unwrap() - state.value(disp.param).unwrap();
+            let delta = state.value(disp.param).unwrap() - self.template.value(disp.param).unwrap();
             actual_dispersions.push((disp.param, delta));
         }
 
-- 
2.43.0


From ea0bec376334d93828420df23746d60125c59312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:33 +0000
Subject: [PATCH 031/113] fix: record the standard deviations of a spacecraft
 covariance, not its variances

---
 nyx-core/src/mc/multivariate.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index a5396f1..47c78a5 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -252,39 +252,39 @@ impl MvnSpacecraft {
         let dispersions = vec![
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::X))
-                .std_dev(cov[(0, 0)])
+                .std_dev(cov[(0, 0)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Y))
-                .std_dev(cov[(1, 1)])
+                .std_dev(cov[(1, 1)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Z))
-                .std_dev(cov[(2, 2)])
+                .std_dev(cov[(2, 2)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VX))
-                .std_dev(cov[(3, 3)])
+                .std_dev(cov[(3, 3)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VY))
-                .std_dev(cov[(4, 4)])
+                .std_dev(cov[(4, 4)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VZ))
-                .std_dev(cov[(5, 5)])
+                .std_dev(cov[(5, 5)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cr())
-                .std_dev(cov[(6, 6)])
+                .std_dev(cov[(6, 6)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cd())
-                .std_dev(cov[(7, 7)])
+                .std_dev(cov[(7, 7)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::PropMass())
-                .std_dev(cov[(8, 8)])
+                .std_dev(cov[(8, 8)].sqrt())
                 .build(),
         ];
 
-- 
2.43.0


From 3e0dea714bc02768876dc1f7a825e894d2dda72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:53 +0000
Subject: [PATCH 032/113] fix: set the deviation of a dispersed estimate to the
 dispersed state minus the nominal

---
 nyx-core/src/od/estimate/kfestimate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/estimate/kfestimate.rs b/nyx-core/src/od/estimate/kfestimate.rs
index b37fd61..07e76fe 100644
--- a/nyx-core/src/od/estimate/kfestimate.rs
+++ b/nyx-core/src/od/estimate/kfestimate.rs
@@ -119,7 +119,7 @@ impl KfEstimate<Spacecraft> {
         let dispersed_state = generator.sample(&mut rng);
 
         // Compute the difference between both states
-        let delta_orbit = (nominal_state.orbit - dispersed_state.state.orbit).unwrap();
+        let delta_orbit = (dispersed_state.state.orbit - nominal_state.orbit).unwrap();
 
         let state_deviation = [
             delta_orbit.radius_km.x,
@@ -128,9 +128,9 @@ impl KfEstimate<Spacecraft> {
             delta_orbit.velocity_km_s.x,
             delta_orbit.velocity_km_s.y,
             delta_orbit.velocity_km_s.z,
-            (nominal_state.srp.coeff_reflectivity - dispersed_state.state.srp.coeff_reflectivity),
-            (nominal_state.drag.coeff_drag - dispersed_state.state.drag.coeff_drag),
-            (nominal_state.mass.prop_mass_kg - dispersed_state.state.mass.prop_mass_kg),
+            (dispersed_state.state.srp.coeff_reflectivity - nominal_state.srp.coeff_reflectivity),
+            (dispersed_state.state.drag.coeff_drag - nominal_state.drag.coeff_drag),
+            (dispersed_state.state.mass.prop_mass_kg - nominal_state.mass.prop_mass_kg),
         ];
 
         // Build the covariance as three times the absolute value of the error, squared.
-- 
2.43.0


From 1aee1c14c8ba5f49c3c414017dc362ed3a997c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:54 +0000
Subject: [PATCH 033/113] fix: export each Monte Carlo run over its own time
 span

---
 nyx-core/src/mc/results.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/mc/results.rs b/nyx-core/src/mc/results.rs
index 52f06a3..357bdb5 100644
--- a/nyx-core/src/mc/results.rs
+++ b/nyx-core/src/mc/results.rs
@@ -284,8 +284,10 @@ where
                 let states =
                     if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                         // Must interpolate the data!
-                        let start = cfg.start_epoch.unwrap_or_else(|| start.unwrap());
-                        let end = cfg.end_epoch.unwrap_or_else(|| end.unwrap());
+                        let start = cfg
+                            .start_epoch
+                            .unwrap_or_else(|| success.traj.first().epoch());
+                        let end = cfg.end_epoch.unwrap_or_else(|| success.traj.last().epoch());
                         let step = cfg.step.unwrap_or_else(|| 1.minutes());
                         success
                             .traj
-- 
2.43.0


From f84461246b10839282eab47d5f20aee7d239e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:20 +0000
Subject: [PATCH 034/113] fix: accept semi definite covariances whose nil
 eigenvalues are rounded below zero

---
 nyx-core/src/mc/multivariate.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 47c78a5..5106846 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -226,16 +226,12 @@ impl MvnSpacecraft {
         mean: SVector<f64, 9>,
     ) -> Result<Self, Box<NyxError>> {
         // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil
-        match cov.eigenvalues() {
-            None => return Err(Box::new(NyxError::CovarianceMatrixNotPsd)),
-            Some(evals) => {
-                for eigenval in &evals {
-                    if *eigenval < 0.0 {
-                        return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
-                    }
-                }
-            }
-        };
+        let eigenvalues = cov.symmetric_eigenvalues();
+        // A semi definite matrix has nil eigenvalues, which are computed to within rounding errors.
+        let rounding = 1e-12 * eigenvalues.amax();
+        if eigenvalues.iter().any(|val| !(*val >= -rounding)) {
+            return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
+        }
 
         let svd = cov.svd_unordered(false, true);
         if svd.v_t.is_none() {
-- 
2.43.0


From 2f1d172537c9e094360b36ea76a6950a219cbf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:20 +0000
Subject: [PATCH 035/113] fix: apply the pointing error of a delta-v aligned
 with the current pointing

---
 nyx-core/src/mc/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/mc/helpers.rs b/nyx-core/src/mc/helpers.rs
index f2f10f1..f8cc9c7 100644
--- a/nyx-core/src/mc/helpers.rs
+++ b/nyx-core/src/mc/helpers.rs
@@ -55,7 +55,9 @@ pub fn dv_pointing_error<R: Rng>(
 
     let dv_hat = dv / dv_mag;
     let cur_pointing_mag = cur_pointing.norm();
-    let cur_angle = (cur_pointing.dot(&dv_hat) / cur_pointing_mag).acos();
+    let cur_angle = (cur_pointing.dot(&dv_hat) / cur_pointing_mag)
+        .clamp(-1.0, 1.0)
+        .acos();
 
     let new_angle = Normal::new(cur_angle, error_prct3s / 3.0)
         .unwrap()
-- 
2.43.0


From c8eccd40e602789fcf386c50c8be31a51f4baa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:34 +0000
Subject: [PATCH 036/113] fix: invert the gradients of the dispersed elements
 without losing their precision

---
 nyx-core/src/mc/multivariate.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 5106846..70e703a 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -20,8 +20,8 @@ use super::{DispersedState, StateDispersion};
 use crate::cosmic::AstroPhysicsSnafu;
 use crate::errors::StateError;
 use crate::md::prelude::BPlane;
-use crate::md::{AstroSnafu, StateParameter};
-use crate::{NyxError, Spacecraft, State, pseudo_inverse};
+use crate::md::{AstroSnafu, StateParameter, TargetingError};
+use crate::{NyxError, Spacecraft, State};
 use anise::analysis::prelude::OrbitalElement;
 use anise::astro::orbit_gradient::OrbitGrad;
 use nalgebra::{DMatrix, DVector, SMatrix, SVector};
@@ -147,7 +147,13 @@ impl MvnSpacecraft {
 
             // Now that we have the Jacobian that rotates from the Cartesian elements to the dispersions parameters,
             // let's compute the inverse of this Jacobian to rotate from the dispersion params into the Cartesian elements.
-            let jac_inv = pseudo_inverse!(&jac)?;
+            // Use the SVD instead of the normal equations, because these gradients are of very different magnitudes.
+            let jac_svd = jac.svd(true, true);
+            let rounding = 6.0 * f64::EPSILON * jac_svd.singular_values.amax();
+            if jac_svd.rank(rounding) < jac_svd.singular_values.len() {
+                return Err(Box::new(TargetingError::SingularJacobian));
+            }
+            let jac_inv = jac_svd.pseudo_inverse(rounding)?;
 
             // Rotate the orbital covariance back into the Cartesian state space, making this a 6x6.
             let orbit_cov = &jac_inv * &covar * jac_inv.transpose();
-- 
2.43.0


From a741822740eb519c1340bd6b37597e5ae794a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:39 +0000
Subject: [PATCH 037/113] fix: Izzo's Lambert solver flies the requested way
 around, and refuses colinear radii

The normal was flipped towards +z while lambda kept its sign, so half of the
transfers did not reach the target. Colinear radii caused a panic or NaN.
---
 nyx-core/src/tools/lambert/izzo.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index a0729f3..ba04f12 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -20,7 +20,10 @@ use core::f64::consts::PI;
 
 use crate::errors::LambertError;
 
-use super::{LAMBERT_EPSILON, LambertInput, LambertSolution, MAX_ITERATIONS, TransferKind};
+use super::{
+    LAMBERT_EPSILON, LAMBERT_EPSILON_RAD, LambertInput, LambertSolution, MAX_ITERATIONS,
+    TransferKind,
+};
 
 /// Solve the Lambert boundary problem using Izzo's method.
 ///
@@ -60,15 +63,13 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let i_r1 = r_init / ri_norm;
     let i_r2 = r_final / rf_norm;
 
-    let mut i_h = i_r1.cross(&i_r2);
-    i_h /= i_h.norm(); // Ensure normalization
-
-    // Normalize orientation so i_h points along +z, matching the
-    // lamberthub reference. The user's prograde/retrograde choice is
-    // then applied on its own, decoupled from ECI-frame parity.
-    if i_h.z < 0.0 {
-        i_h = -i_h;
+    // The plane of the transfer is undefined if both radii are colinear.
+    let i_h = i_r1.cross(&i_r2);
+    if !(i_h.norm() > LAMBERT_EPSILON_RAD) {
+        return Err(LambertError::TargetsTooClose);
     }
+    // Normal of the short way transfer.
+    let i_h = i_h / i_h.norm();
 
     // Geometry of the problem
     let lambda = 1.0 - c_norm / s;
@@ -84,7 +85,7 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     // prograde branch to preserve historical behavior. `direction_of_motion`
     // returns `MultiRevNotSupported` for NRevs, hence the guard.
     let dm = if matches!(kind, TransferKind::NRevs(_)) {
-        1.0
+        if i_h.z < 0.0 { -1.0 } else { 1.0 }
     } else {
         kind.direction_of_motion(&r_final, &r_init)?
     };
-- 
2.43.0


From 2ba95583d5337ee50087f48caf9d3cd62f496534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:39 +0000
Subject: [PATCH 038/113] fix: Lambert solvers refuse a time of flight which is
 not positive

They returned velocities which do not connect the two states.
---
 nyx-core/src/errors.rs                | 2 ++
 nyx-core/src/tools/lambert/godding.rs | 4 ++++
 nyx-core/src/tools/lambert/izzo.rs    | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/nyx-core/src/errors.rs b/nyx-core/src/errors.rs
index 54269fd..c563d91 100644
--- a/nyx-core/src/errors.rs
+++ b/nyx-core/src/errors.rs
@@ -144,4 +144,6 @@ pub enum LambertError {
     MultiRevNotFeasible { m: u32, m_max: u32 },
     #[snafu(display("Izzo method failed to converge after {maxiter} iterations"))]
     SolverMaxIter { maxiter: usize },
+    #[snafu(display("time of flight must be positive but is {tof_s} s"))]
+    TimeOfFlight { tof_s: f64 },
 }
diff --git a/nyx-core/src/tools/lambert/godding.rs b/nyx-core/src/tools/lambert/godding.rs
index 73fb580..500d721 100644
--- a/nyx-core/src/tools/lambert/godding.rs
+++ b/nyx-core/src/tools/lambert/godding.rs
@@ -47,6 +47,10 @@ pub fn gooding(input: LambertInput, kind: TransferKind) -> Result<LambertSolutio
     let tof_s = (input.final_state.epoch - input.initial_state.epoch).to_seconds();
     let mu_km3_s2 = input.mu_km2_s3();
 
+    if tof_s <= 0.0 {
+        return Err(LambertError::TimeOfFlight { tof_s });
+    }
+
     let r_init_norm = r_init.norm();
     let r_final_norm = r_final.norm();
     let r_norm_product = r_init_norm * r_final_norm;
diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index ba04f12..ee3115e 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -50,6 +50,10 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let tof_s = (input.final_state.epoch - input.initial_state.epoch).to_seconds();
     let mu_km3_s2 = input.mu_km2_s3();
 
+    if tof_s <= 0.0 {
+        return Err(LambertError::TimeOfFlight { tof_s });
+    }
+
     let ri_norm = r_init.norm();
     let rf_norm = r_final.norm();
 
-- 
2.43.0


From 0b1d7683ab9595282032e929454b295b64f5e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 039/113] fix: Gooding's Lambert solver refuses colinear radii
 instead of returning NaN

---
 nyx-core/src/tools/lambert/godding.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/tools/lambert/godding.rs b/nyx-core/src/tools/lambert/godding.rs
index 500d721..99f3a16 100644
--- a/nyx-core/src/tools/lambert/godding.rs
+++ b/nyx-core/src/tools/lambert/godding.rs
@@ -58,12 +58,10 @@ pub fn gooding(input: LambertInput, kind: TransferKind) -> Result<LambertSolutio
 
     let dm = kind.direction_of_motion(&r_final, &r_init)?;
 
-    let nu_init = r_init[1].atan2(r_init[0]);
-    let nu_final = r_final[1].atan2(r_final[0]);
-
     let a = dm * (r_norm_product * (1.0 + cos_dnu)).sqrt();
 
-    if nu_final - nu_init < LAMBERT_EPSILON_RAD && a.abs() < LAMBERT_EPSILON {
+    // The plane of the transfer is undefined if both radii are colinear.
+    if !(r_init.cross(&r_final).norm() > LAMBERT_EPSILON_RAD * r_norm_product) {
         return Err(LambertError::TargetsTooClose);
     }
 
-- 
2.43.0


From 913e9fee578f26c69cee7863137ea2da039abcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:05 +0000
Subject: [PATCH 040/113] fix: Izzo's shortest time of flight of several
 revolutions is that of the minimum

Halley's iterations kept the time of flight of their first guess, hence feasible
transfers were refused.
---
 nyx-core/src/tools/lambert/izzo.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index ee3115e..a5b27a7 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -288,8 +288,7 @@ fn compute_t_min(
     } else {
         // Set x_i > 0 to avoid problems at ll = -1
         let x_i = 0.1;
-        let t_i = tof_equation(x_i, 0.0, ll, m);
-        let x_t_min = halley(x_i, t_i, ll, atol, rtol, maxiter)?;
+        let x_t_min = halley(x_i, ll, m, atol, rtol, maxiter)?;
         let t_min = tof_equation(x_t_min, 0.0, ll, m);
         Ok((x_t_min, t_min))
     }
@@ -376,23 +375,24 @@ pub fn hyp2f1b(x: f64) -> f64 {
 /// Returns a Result, which is Ok(value) on success or Err(message) on failure.
 pub fn halley(
     mut p0: f64,
-    t0: f64,
     ll: f64,
+    m: u32,
     atol: f64,
     rtol: f64,
     maxiter: usize,
 ) -> Result<f64, LambertError> {
     for _ in 1..=maxiter {
         let y = compute_y(p0, ll);
-        let fder = tof_equation_p(p0, y, t0, ll);
-        let fder2 = tof_equation_p2(p0, y, t0, fder, ll);
+        let t = tof_equation_y(p0, y, 0.0, ll, m);
+        let fder = tof_equation_p(p0, y, t, ll);
+        let fder2 = tof_equation_p2(p0, y, t, fder, ll);
 
         // Avoid division by zero
         if fder2.abs() < 1e-14 {
             return Err(LambertError::TargetsTooClose);
         }
 
-        let fder3 = tof_equation_p3(p0, y, t0, fder, fder2, ll);
+        let fder3 = tof_equation_p3(p0, y, t, fder, fder2, ll);
 
         // Halley step (cubic)
         let p = p0 - 2.0 * fder * fder2 / (2.0 * fder2.powi(2) - fder * fder3);
-- 
2.43.0


From 135d480068a508ce585c32143f80fbb850d85e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:16 +0000
Subject: [PATCH 041/113] fix: targeting in a local frame keeps the frame of
 the uncorrected state

Each iteration used the local frame of its own corrected state, while the
solution applies the total correction in that of the uncorrected state: the
corrected state did not meet the objectives.
---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 08af3b7..35e33ec 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -180,7 +180,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
         // Apply the accumulated initial guess to xi (once, after the loop)
         if !finite_burn_target {
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
@@ -430,7 +430,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         // Now, let's apply the correction to the initial state
                         if let Some(frame) = self.correction_frame {
                             // The following will error if the frame is not local
-                            let dcm_vnc2inertial = this_xi
+                            let dcm_vnc2inertial = xi_start
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
@@ -721,7 +721,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
             // Now, let's apply the correction to the initial state
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
-- 
2.43.0


From 3fa8bddaa83e37db77b1f78289ed952bee023984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:16 +0000
Subject: [PATCH 042/113] fix: the targeters enforce the bounds of a variable
 on its total correction

Only each step was bounded, and not even that when it was limited to the
maximum step.
---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 7 +++----
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 6 ++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 35e33ec..021d2a0 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -710,11 +710,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     // Choose the minimum step between the provided max step and the correction.
                     if delta[i].abs() > var.max_step.abs() {
                         delta[i] = var.max_step.abs() * delta[i].signum();
-                    } else if delta[i] > var.max_value {
-                        delta[i] = var.max_value;
-                    } else if delta[i] < var.min_value {
-                        delta[i] = var.min_value;
                     }
+                    // The bounds apply to the whole correction.
+                    delta[i] =
+                        var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
                     state_correction[var.component.vec_index()] += delta[i];
                 }
             }
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 8705161..33d7fd3 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -300,11 +300,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                 // Choose the minimum step between the provided max step and the correction.
                 if delta[i].abs() > var.max_step {
                     delta[i] = var.max_step * delta[i].signum();
-                } else if delta[i] > var.max_value {
-                    delta[i] = var.max_value;
-                } else if delta[i] < var.min_value {
-                    delta[i] = var.min_value;
                 }
+                // The bounds apply to the whole correction.
+                delta[i] = var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
 
                 info!(
                     "Correction {:?} (element {}): {}",
-- 
2.43.0


From e85a8ea58094973621ec7250d979998c256efb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:17 +0000
Subject: [PATCH 043/113] fix: applying a targeter solution verifies it in the
 frame of the objectives

The objectives were assessed in the integration frame, and without their
multiplicative factors; a maneuver was also printed to the standard output.
---
 nyx-core/src/md/opti/targeter.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/md/opti/targeter.rs b/nyx-core/src/md/opti/targeter.rs
index 437738d..fbb14fd 100644
--- a/nyx-core/src/md/opti/targeter.rs
+++ b/nyx-core/src/md/opti/targeter.rs
@@ -18,7 +18,7 @@
 
 use snafu::ResultExt;
 
-use crate::cosmic::AstroPhysicsSnafu;
+use crate::cosmic::{AstroAlmanacSnafu, AstroPhysicsSnafu};
 use crate::dynamics::guidance::LocalFrame;
 use crate::errors::TargetingError;
 use crate::md::AstroSnafu;
@@ -272,10 +272,9 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
     ) -> Result<(Spacecraft, Traj<Spacecraft>), TargetingError> {
         let (xf, traj) = match solution.to_mnvr() {
             Ok(mnvr) => {
-                println!("{mnvr}");
                 let mut prop = self.prop.clone();
                 prop.dynamics = prop.dynamics.with_guidance_law(Arc::new(mnvr));
-                prop.with(solution.corrected_state, almanac)
+                prop.with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
@@ -283,14 +282,22 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 // This isn't a finite burn maneuver, let's just apply the correction
                 // Propagate until achievement epoch
                 self.prop
-                    .with(solution.corrected_state, almanac)
+                    .with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
         };
 
-        // Build the partials
-        let xf_dual = OrbitGrad::from(xf.orbit);
+        // Build the partials, in the frame of the objectives
+        let xf_dual = match self.objective_frame {
+            Some(frame) => OrbitGrad::from(
+                almanac
+                    .transform_to(xf.orbit, frame, None)
+                    .context(AstroAlmanacSnafu)
+                    .context(AstroSnafu)?,
+            ),
+            None => OrbitGrad::from(xf.orbit),
+        };
 
         let mut is_bplane_tgt = false;
         for obj in &self.objectives {
@@ -325,12 +332,10 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 unreachable!()
             };
 
-            let param_err = obj.desired_value - partial.real();
-
-            if param_err.abs() > obj.tolerance {
+            if !obj.assess_value(partial.real()).0 {
                 converged = false;
             }
-            param_errors.push(param_err);
+            param_errors.push(obj.desired_value - partial.real());
         }
         if converged {
             Ok((xf, traj))
@@ -340,7 +345,7 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 objmsg.push_str(&format!(
                     "{:?} = {:.3} BUT should be {:.3} (± {:.1e}) (error = {:.3})",
                     obj.parameter,
-                    obj.desired_value + param_errors[i],
+                    obj.desired_value - param_errors[i],
                     obj.desired_value,
                     obj.tolerance,
                     param_errors[i]
-- 
2.43.0


From 54b1ff85ef3a3a312dd32fe91cd8c2dae7c6ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:00 +0000
Subject: [PATCH 044/113] fix: the targeter returns the errors of its perturbed
 propagations

They caused a panic.
---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 32 +++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 021d2a0..5440a85 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -328,7 +328,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     .map(|(j, var)| (j, var, 0.0_f64))
                     .collect();
 
-                pert_calc.par_iter_mut().for_each(|(_, var, jac_val)| {
+                pert_calc.par_iter_mut().try_for_each(|(_, var, jac_val)| {
                     let mut this_xi = xi;
 
                     let mut this_prop = self.prop.clone();
@@ -388,7 +388,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                     vector[var.component.vec_index()] -= 2.0 * var.perturbation;
                                     opposed_pert = true;
                                 }
-                                this_mnvr.set_direction(vector).unwrap();
+                                this_mnvr.set_direction(vector).context(GuidanceSnafu)?;
                             }
                             Vary::ThrustRateX | Vary::ThrustRateY | Vary::ThrustRateZ => {
                                 let mut vector = this_mnvr.rate();
@@ -402,7 +402,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                         2.0 * var.perturbation;
                                     opposed_pert = true;
                                 }
-                                this_mnvr.set_rate(vector).unwrap();
+                                this_mnvr.set_rate(vector).context(GuidanceSnafu)?;
                             }
                             Vary::ThrustAccelX | Vary::ThrustAccelY | Vary::ThrustAccelZ => {
                                 let mut vector = this_mnvr.accel();
@@ -416,7 +416,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                         2.0 * var.perturbation;
                                     opposed_pert = true;
                                 }
-                                this_mnvr.set_accel(vector).unwrap();
+                                this_mnvr.set_accel(vector).context(GuidanceSnafu)?;
                             }
                             Vary::ThrustLevel => {
                                 this_mnvr.thrust_prct += var.perturbation;
@@ -434,8 +434,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
-                                .context(AstroSnafu)
-                                .unwrap()
+                                .context(AstroSnafu)?
                                 .rot_mat;
 
                             let velocity_correction =
@@ -451,7 +450,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         let pre_mnvr = this_prop
                             .with(cur_xi, almanac.clone())
                             .until_epoch(this_mnvr.start)
-                            .unwrap();
+                            .context(PropSnafu)?;
                         // Add this maneuver to the dynamics, make sure that we don't over-step this maneuver
                         let prop_opts = this_prop.opts;
                         this_prop.set_max_step(this_mnvr.duration());
@@ -463,20 +462,20 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                 almanac.clone(),
                             )
                             .until_epoch(this_mnvr.end)
-                            .unwrap();
+                            .context(PropSnafu)?;
                         // Reset the propagator options to their previous configuration
                         this_prop.opts = prop_opts;
                         // And propagate until the achievement epoch
                         this_prop
                             .with(post_mnvr, almanac.clone())
                             .until_epoch(achievement_epoch)
-                            .unwrap()
+                            .context(PropSnafu)?
                             .orbit
                     } else {
                         this_prop
                             .with(this_xi, almanac.clone())
                             .until_epoch(achievement_epoch)
-                            .unwrap()
+                            .context(PropSnafu)?
                             .orbit
                     };
 
@@ -485,8 +484,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                             let orbit_obj_frame = almanac
                                 .transform_to(this_xf, *frame, None)
                                 .context(AstroAlmanacSnafu)
-                                .context(AstroSnafu)
-                                .unwrap();
+                                .context(AstroSnafu)?;
 
                             OrbitGrad::from(orbit_obj_frame)
                         }
@@ -494,7 +492,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     };
 
                     let b_plane = if is_bplane_tgt {
-                        Some(BPlane::from_dual(xf_dual_obj_frame).unwrap())
+                        Some(BPlane::from_dual(xf_dual_obj_frame).context(AstroSnafu)?)
                     } else {
                         None
                     };
@@ -507,7 +505,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                             _ => unreachable!(),
                         }
                     } else if let StateParameter::Element(oe) = obj.parameter {
-                        xf_dual_obj_frame.partial_for(oe).unwrap()
+                        xf_dual_obj_frame
+                            .partial_for(oe)
+                            .context(AstroPhysicsSnafu)
+                            .context(AstroSnafu)?
                     } else {
                         unreachable!()
                     };
@@ -518,7 +519,8 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         // We opposed the perturbation to ensure we don't over step a min/max bound
                         *jac_val = -*jac_val;
                     }
-                });
+                    Ok::<(), TargetingError>(())
+                })?;
 
                 for (j, var, jac_val) in &pert_calc {
                     // If this is a thrust level, we oppose the value so that the correction can still be positive.
-- 
2.43.0


From e5dbe353a0312984b46f552a352725b49fd4ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:00 +0000
Subject: [PATCH 045/113] fix: the targeters accept objectives with large
 values or coarse tolerances

The width of the progress messages overflowed an integer.
---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 9 ++++-----
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 5440a85..f200cfc 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -203,11 +203,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             .objectives
             .iter()
             .map(|obj| {
-                obj.desired_value.abs().ceil() as i32
-                    * 10_i32.pow(obj.tolerance.abs().log10().ceil() as u32)
+                obj.desired_value.abs().ceil()
+                    * 10_f64.powf(obj.tolerance.abs().log10().ceil().max(0.0))
             })
-            .max()
-            .unwrap();
+            .fold(1.0_f64, f64::max);
 
         let max_obj_tol = self
             .objectives
@@ -216,7 +215,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             .max()
             .unwrap();
 
-        let width = f64::from(max_obj_val).log10() as usize + 2 + max_obj_tol;
+        let width = max_obj_val.log10() as usize + 2 + max_obj_tol;
 
         #[cfg(not(target_arch = "wasm32"))]
         let start_instant = Instant::now();
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 33d7fd3..13114c1 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -105,11 +105,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             .objectives
             .iter()
             .map(|obj| {
-                obj.desired_value.abs().ceil() as i32
-                    * 10_i32.pow(obj.tolerance.abs().log10().ceil() as u32)
+                obj.desired_value.abs().ceil()
+                    * 10_f64.powf(obj.tolerance.abs().log10().ceil().max(0.0))
             })
-            .max()
-            .unwrap();
+            .fold(1.0_f64, f64::max);
 
         let max_obj_tol = self
             .objectives
@@ -118,7 +117,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             .max()
             .unwrap();
 
-        let width = f64::from(max_obj_val).log10() as usize + 2 + max_obj_tol;
+        let width = max_obj_val.log10() as usize + 2 + max_obj_tol;
 
         #[cfg(not(target_arch = "wasm32"))]
         let start_instant = Instant::now();
-- 
2.43.0


From 5963042b765e45c8cf66cda167b72b4492c30f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:00 +0000
Subject: [PATCH 046/113] fix: the hyperdual targeter refuses invalid variables
 and local correction frames

Both were silently ignored.
---
 nyx-core/src/md/opti/raphson_hyperdual.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 13114c1..8a6cc5d 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -69,6 +69,15 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
         // Apply the initial guess
         for (i, var) in self.variables.iter().enumerate() {
+            // Check the validity (this function will report to log and raise an error)
+            var.valid()?;
+            if let Some(correction_frame) = self.correction_frame {
+                return Err(TargetingError::FrameError {
+                    msg: format!(
+                        "hyperdual targeting does not support corrections in frame {correction_frame:?}"
+                    ),
+                });
+            }
             match var.component {
                 Vary::PositionX => {
                     xi.orbit.radius_km.x += var.init_guess;
-- 
2.43.0


From 6b69bc67bfa8f3db7c2e48b9b73e21eba6f4cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 047/113] fix: average two-way azimuths through north

---
 nyx-core/src/od/msr/types.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/types.rs b/nyx-core/src/od/msr/types.rs
index e08f938..9a15679 100644
--- a/nyx-core/src/od/msr/types.rs
+++ b/nyx-core/src/od/msr/types.rs
@@ -134,7 +134,12 @@ impl MeasurementType {
                 Ok(doppler_km_s + noise / 2.0_f64.sqrt())
             }
             Self::Azimuth => {
-                let az_deg = (aer_t1.azimuth_deg + aer_t0.azimuth_deg) * 0.5;
+                // Average along the shortest arc: the azimuth may go through north in between both times.
+                let mut delta_az_deg = (aer_t1.azimuth_deg - aer_t0.azimuth_deg).rem_euclid(360.0);
+                if delta_az_deg > 180.0 {
+                    delta_az_deg -= 360.0;
+                }
+                let az_deg = (aer_t0.azimuth_deg + delta_az_deg * 0.5).rem_euclid(360.0);
                 Ok(az_deg + noise / 2.0_f64.sqrt())
             }
             Self::Elevation => {
-- 
2.43.0


From 1e2acb70f38451c32a8e6a95474c80d857ace8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 048/113] fix: interlink range rate accounts for the velocity
 of the transmitter

---
 nyx-core/src/od/interlink/trk_device.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index c447ba4..8a06999 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -205,9 +205,9 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
 
             let rho_tx_frame = rx_in_tx_frame.radius_km - observer.orbit.radius_km;
 
-            // Compute the range-rate \dot ρ. Note that rx_in_tx_frame is already the relative velocity of rx wrt tx!
-            let range_rate_km_s =
-                rho_tx_frame.dot(&rx_in_tx_frame.velocity_km_s) / rho_tx_frame.norm();
+            // Compute the range-rate \dot ρ from the velocity of rx relative to tx.
+            let rel_velocity_km_s = rx_in_tx_frame.velocity_km_s - observer.orbit.velocity_km_s;
+            let range_rate_km_s = rho_tx_frame.dot(&rel_velocity_km_s) / rho_tx_frame.norm();
 
             let noises = self.noises(observer.epoch(), rng)?;
 
-- 
2.43.0


From a99bb4397eddbbc314de5b68f4a01806a53d8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 049/113] fix: unsupported interlink measurement types are an
 error

---
 nyx-core/src/od/interlink/trk_device.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index 8a06999..2d95ea4 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -221,7 +221,11 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
                     MeasurementType::Range => rho_tx_frame.norm(),
                     MeasurementType::Doppler => range_rate_km_s,
                     // Or return an error for unsupported types
-                    _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
+                    _ => {
+                        return Err(ODError::MeasurementSimError {
+                            details: format!("{msr_type:?} is not supported for interlink"),
+                        });
+                    }
                 } + noises[ii + 1];
                 msr.push(*msr_type, msr_value);
             }
-- 
2.43.0


From cd85e82081d9cadf0e10d908cb720dc9ba050a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 050/113] fix: the position device measures the coordinate of
 each type, biased once

---
 nyx-core/src/od/position/trk_device.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index ef7bac9..52c355e 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -73,12 +73,21 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             }
         }
 
-        for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
+        for msr_type in self.measurement_types.iter().copied() {
+            let coordinate_km = match msr_type {
+                MeasurementType::X => rx.orbit.radius_km.x,
+                MeasurementType::Y => rx.orbit.radius_km.y,
+                MeasurementType::Z => rx.orbit.radius_km.z,
+                _ => {
+                    return Err(ODError::MeasurementSimError {
+                        details: format!("{msr_type:?} is not supported by XyzDevice"),
+                    });
+                }
+            };
+            // The noise sample already includes the constant bias, if any.
             msr.push(
                 msr_type,
-                rx.orbit.radius_km[ii]
-                    + noises.get(&msr_type).unwrap_or(&0.0)
-                    + self.measurement_bias(msr_type, rx.orbit.epoch)?,
+                coordinate_km + noises.get(&msr_type).unwrap_or(&0.0),
             );
         }
 
-- 
2.43.0


From e4b3ecbf74bdf91598ec4bf276d2797e94640989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 051/113] fix: with_msr_bias_constant sets the bias of the
 station

---
 nyx-core/src/od/ground_station/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 7b09536..968c037 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -182,14 +182,9 @@ impl GroundStation {
             .get_mut(&msr_type)
             .ok_or(ODError::NoiseNotConfigured {
                 kind: format!("{msr_type:?}"),
-            })
-            .unwrap();
+            })?;
 
-        if this_noise.bias.is_none() {
-            this_noise.bias = Some(GaussMarkov::ZERO);
-        }
-
-        this_noise.bias.unwrap().constant = Some(bias_constant);
+        this_noise.bias.get_or_insert(GaussMarkov::ZERO).constant = Some(bias_constant);
 
         Ok(self)
     }
-- 
2.43.0


From 00ff62a1ac03cdb3bed3990520ed7ef6cc35320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 052/113] fix: the noise of a device without stochastics is an
 error

---
 nyx-core/src/od/ground_station/trk_device.rs | 14 ++++++++++++--
 nyx-core/src/od/interlink/trk_device.rs      | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/ground_station/trk_device.rs b/nyx-core/src/od/ground_station/trk_device.rs
index 10cc99b..27b3040 100644
--- a/nyx-core/src/od/ground_station/trk_device.rs
+++ b/nyx-core/src/od/ground_station/trk_device.rs
@@ -215,7 +215,12 @@ impl TrackingDevice<Spacecraft> for GroundStation {
     /// a diagonal matrix. The first item in the diagonal is the range noise (in km), set to the square of the steady state sigma. The
     /// second item is the Doppler noise (in km/s), set to the square of the steady state sigma of that Gauss Markov process.
     fn measurement_covar(&self, msr_type: MeasurementType, epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics = self
+            .stochastic_noises
+            .as_ref()
+            .ok_or(ODError::NoiseNotConfigured {
+                kind: format!("{msr_type:?}"),
+            })?;
 
         Ok(stochastics
             .get(&msr_type)
@@ -226,7 +231,12 @@ impl TrackingDevice<Spacecraft> for GroundStation {
     }
 
     fn measurement_bias(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics = self
+            .stochastic_noises
+            .as_ref()
+            .ok_or(ODError::NoiseNotConfigured {
+                kind: format!("{msr_type:?}"),
+            })?;
 
         if let Some(gm) = stochastics
             .get(&msr_type)
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index 2d95ea4..e9009e0 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -242,7 +242,12 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
     /// a diagonal matrix. The first item in the diagonal is the range noise (in km), set to the square of the steady state sigma. The
     /// second item is the Doppler noise (in km/s), set to the square of the steady state sigma of that Gauss Markov process.
     fn measurement_covar(&self, msr_type: MeasurementType, epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics = self
+            .stochastic_noises
+            .as_ref()
+            .ok_or(ODError::NoiseNotConfigured {
+                kind: format!("{msr_type:?}"),
+            })?;
 
         Ok(stochastics
             .get(&msr_type)
@@ -253,7 +258,12 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
     }
 
     fn measurement_bias(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics = self
+            .stochastic_noises
+            .as_ref()
+            .ok_or(ODError::NoiseNotConfigured {
+                kind: format!("{msr_type:?}"),
+            })?;
 
         if let Some(gm) = stochastics
             .get(&msr_type)
-- 
2.43.0


From 30b633294c843b28f94719cf2587c9a5c4a5a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 053/113] fix: unknown device locations are an error

---
 nyx-core/src/od/ground_station/trk_device.rs |  2 +-
 nyx-core/src/od/interlink/trk_device.rs      | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/ground_station/trk_device.rs b/nyx-core/src/od/ground_station/trk_device.rs
index 27b3040..6781613 100644
--- a/nyx-core/src/od/ground_station/trk_device.rs
+++ b/nyx-core/src/od/ground_station/trk_device.rs
@@ -152,7 +152,7 @@ impl TrackingDevice<Spacecraft> for GroundStation {
     }
 
     fn location(&self, epoch: Epoch, frame: Frame, almanac: &Almanac) -> AlmanacResult<Orbit> {
-        almanac.transform_to(self.to_orbit(epoch, almanac).unwrap(), frame, None)
+        almanac.transform_to(self.to_orbit(epoch, almanac)?, frame, None)
     }
 
     fn measure_instantaneous(
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index e9009e0..4a6f4bf 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -17,7 +17,7 @@
 */
 use anise::almanac::Almanac;
 use anise::astro::Aberration;
-use anise::errors::AlmanacResult;
+use anise::errors::{AlmanacError, AlmanacResult};
 use anise::prelude::{Frame, Orbit};
 use hifitime::{Duration, Epoch, TimeUnits};
 use indexmap::{IndexMap, IndexSet};
@@ -100,7 +100,13 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
     }
 
     fn location(&self, epoch: Epoch, frame: Frame, almanac: &Almanac) -> AlmanacResult<Orbit> {
-        almanac.transform_to(self.traj.at(epoch).unwrap().orbit, frame, self.ab_corr)
+        let tx = self
+            .traj
+            .at(epoch)
+            .map_err(|e| AlmanacError::GenericError {
+                err: format!("{e} when fetching the interlink transmitter"),
+            })?;
+        almanac.transform_to(tx.orbit, frame, self.ab_corr)
     }
 
     fn measure(
-- 
2.43.0


From 3d3b9134a4a8b7f47abcc41a762db339338194e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:05 +0000
Subject: [PATCH 054/113] fix: the timestamp noise keeps its state between
 measurements

---
 nyx-core/src/od/ground_station/mod.rs   | 2 +-
 nyx-core/src/od/interlink/trk_device.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 968c037..6e9eb05 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -202,7 +202,7 @@ impl GroundStation {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index 4a6f4bf..1af93d7 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -70,7 +70,7 @@ impl InterlinkTxSpacecraft {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
-- 
2.43.0


From cba8fe915ad18c1dcf91907259ee6814c03112aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:05 +0000
Subject: [PATCH 055/113] fix: the sensitivity of a missing measurement is zero

---
 nyx-core/src/od/interlink/sensitivity.rs | 2 +-
 nyx-core/src/od/msr/sensitivity.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 936ccd3..83aad3a 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -58,7 +58,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 46a3cb0..2a832e3 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -96,7 +96,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
-- 
2.43.0


From 3b7f4f56c4810fcef1bf419e834538b4961c9e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:05 +0000
Subject: [PATCH 056/113] fix: the range and Doppler partials are those of the
 geometry, not of the measured values

---
 nyx-core/src/od/interlink/sensitivity.rs | 22 +++++-----------------
 nyx-core/src/od/msr/sensitivity.rs       | 16 +++++-----------
 2 files changed, 10 insertions(+), 28 deletions(-)

diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 83aad3a..5488f17 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -82,7 +82,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
@@ -107,17 +107,9 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Doppler measurement data is missing".to_string(),
-                    }
-                })?;
+                // Always recompute the expected range and range rate: the partials do not depend on the measured values.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -137,11 +129,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 2a832e3..6c1a758 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -120,7 +120,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &GroundStation,
         almanac: &Almanac,
@@ -141,15 +141,9 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // Always recompute the expected to range, a better model for scalar OD processing.
-                let ρ_km = tx
-                    .azimuth_elevation_of(receiver, None, almanac)
-                    .context(ODAlmanacSnafu {
-                        action: "computing range for Doppler measurement",
-                    })?
-                    .range_km;
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                // Always recompute the expected range and range rate: the partials do not depend on the measured values.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -169,7 +163,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From 26e7f10c134822f3027b8474b77fed2e340fe285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:05 +0000
Subject: [PATCH 057/113] fix: the azimuth and elevation partials are
 topocentric and in degrees

---
 nyx-core/src/od/ground_station/mod.rs | 26 +++++++++++++++++-
 nyx-core/src/od/msr/sensitivity.rs    | 39 ++++++++++++++++++---------
 2 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 6e9eb05..0964f02 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -21,7 +21,8 @@ use anise::errors::{AlmanacError, AlmanacResult};
 use anise::prelude::{Almanac, Frame, Orbit};
 use der::{Decode, Encode, Reader};
 use indexmap::{IndexMap, IndexSet};
-use snafu::ensure;
+use nalgebra::Matrix3;
+use snafu::{ResultExt, ensure};
 
 use super::msr::MeasurementType;
 use super::noise::{GaussMarkov, StochasticNoise};
@@ -221,6 +222,29 @@ impl GroundStation {
         Ok(noises)
     }
 
+    /// Returns the rotation from the South East Zenith frame of this station to the provided frame.
+    pub(crate) fn sez_to_frame(
+        &self,
+        epoch: Epoch,
+        frame: Frame,
+        almanac: &Almanac,
+    ) -> Result<Matrix3<f64>, ODError> {
+        let location = self.to_orbit(epoch, almanac).context(ODAlmanacSnafu {
+            action: "computing the SEZ frame of the ground station",
+        })?;
+        let sez_to_fixed = location.dcm_from_topocentric_to_body_fixed().map_err(|e| {
+            ODError::MeasurementSimError {
+                details: format!("{e} when computing the SEZ frame of the ground station"),
+            }
+        })?;
+        let fixed_to_frame = almanac.rotate(location.frame, frame, epoch).map_err(|e| {
+            ODError::MeasurementSimError {
+                details: format!("{e} when rotating the SEZ frame of the ground station"),
+            }
+        })?;
+        Ok(fixed_to_frame.rot_mat * sez_to_fixed.rot_mat)
+    }
+
     fn available_data(&self) -> u8 {
         let mut bits: u8 = 0;
 
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 6c1a758..6f0c834 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -23,7 +23,7 @@ use crate::od::{GroundStation, ODAlmanacSnafu, ODError, TrackingDevice};
 use crate::{Spacecraft, State};
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, OMatrix, U1, Vector3};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -180,12 +180,16 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Azimuth => {
-                let denom = delta_r.x.powi(2) + delta_r.y.powi(2);
-                let m11 = -delta_r.y / denom;
-                let m12 = delta_r.x / denom;
-                let m13 = 0.0;
+                // Build the partials in the SEZ frame of the transmitter and rotate them into the receiver frame.
+                let sez2rx = tx.sez_to_frame(receiver.epoch, receiver.frame, almanac)?;
+                let rho_sez = sez2rx.transpose() * delta_r;
+                let denom = rho_sez.x.powi(2) + rho_sez.y.powi(2);
+                let partials = sez2rx * Vector3::new(rho_sez.y / denom, -rho_sez.x / denom, 0.0);
 
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
+                // The azimuth is in degrees.
+                let m11 = partials.x.to_degrees();
+                let m12 = partials.y.to_degrees();
+                let m13 = partials.z.to_degrees();
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
@@ -199,13 +203,22 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Elevation => {
-                let r2 = delta_r.norm().powi(2);
-                let z2 = delta_r.z.powi(2);
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
-                let m11 = -(delta_r.x * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m12 = -(delta_r.y * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m13 = (delta_r.x.powi(2) + delta_r.y.powi(2)).sqrt() / r2;
+                // Build the partials in the SEZ frame of the transmitter and rotate them into the receiver frame.
+                let sez2rx = tx.sez_to_frame(receiver.epoch, receiver.frame, almanac)?;
+                let rho_sez = sez2rx.transpose() * delta_r;
+                let r2 = rho_sez.norm_squared();
+                let horiz = (rho_sez.x.powi(2) + rho_sez.y.powi(2)).sqrt();
+                let partials = sez2rx
+                    * Vector3::new(
+                        -rho_sez.x * rho_sez.z / (r2 * horiz),
+                        -rho_sez.y * rho_sez.z / (r2 * horiz),
+                        horiz / r2,
+                    );
+
+                // The elevation is in degrees.
+                let m11 = partials.x.to_degrees();
+                let m12 = partials.y.to_degrees();
+                let m13 = partials.z.to_degrees();
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-- 
2.43.0


From 46eff76673a708bb5f44b8219e226ea3887ad034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:44 +0000
Subject: [PATCH 058/113] fix: filter_by_offset keeps the bounds it is given

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 6878e9e..09b2037 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -396,17 +396,15 @@ impl TrackingDataArc {
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.start_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
+        let first_epoch = self.start_epoch().unwrap();
+        let to_epoch = |bound: Bound<&Duration>| match bound {
+            Unbounded => Unbounded,
+            Included(offset) => Included(first_epoch + *offset),
+            Excluded(offset) => Excluded(first_epoch + *offset),
         };
+        let epoch_bound = (to_epoch(bound.start_bound()), to_epoch(bound.end_bound()));
 
-        let end = match bound.end_bound() {
-            Unbounded => self.end_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
-
-        self.filter_by_epoch(start..end)
+        self.filter_by_epoch(epoch_bound)
     }
 
     /// Returns a new tracking arc that only contains measurements from the desired tracker.
-- 
2.43.0


From aaad6ba2c2824c7303572f1d8d29d140b3db7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:44 +0000
Subject: [PATCH 059/113] fix: exclude_measurement_type drops the measurements
 it empties

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 09b2037..ec3da00 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -463,16 +463,12 @@ impl TrackingDataArc {
         self
     }
 
-    /// Returns a new tracking arc that contains measurements from all trackers except the one provided
+    /// Returns a new tracking arc that contains the measurements of all types except the one provided
     pub fn exclude_measurement_type(mut self, excluded_type: MeasurementType) -> Self {
-        self.measurements = self
-            .measurements
-            .iter_mut()
-            .map(|msr| {
-                msr.data.retain(|msr_type, _| *msr_type != excluded_type);
-                msr.clone()
-            })
-            .collect::<Vec<Measurement>>();
+        self.measurements.retain_mut(|msr| {
+            msr.data.retain(|msr_type, _| *msr_type != excluded_type);
+            !msr.data.is_empty()
+        });
         self
     }
 
-- 
2.43.0


From 4f21f7430eda1c2c01b0a7faf41aede7229e1bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:44 +0000
Subject: [PATCH 060/113] fix: measurements are equal only if both have the
 same types

---
 nyx-core/src/od/msr/measurement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nyx-core/src/od/msr/measurement.rs b/nyx-core/src/od/msr/measurement.rs
index 0e824b8..77d1a45 100644
--- a/nyx-core/src/od/msr/measurement.rs
+++ b/nyx-core/src/od/msr/measurement.rs
@@ -124,6 +124,7 @@ impl PartialEq for Measurement {
     fn eq(&self, other: &Self) -> bool {
         self.tracker == other.tracker
             && self.epoch == other.epoch
+            && self.data.len() == other.data.len()
             && self.data.iter().all(|(key, &value)| {
                 if let Some(&other_value) = other.data.get(key) {
                     (value - other_value).abs() < 1e-10
-- 
2.43.0


From ea7ab6789cbdc959d99c97898721ed29e89d4143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:44 +0000
Subject: [PATCH 061/113] fix: downsampling does not mix trackers nor passes,
 and keeps the moduli and rejections

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 31 ++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index ec3da00..247d328 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -215,6 +215,23 @@ impl TrackingDataArc {
     /// :type target_step: Duration
     /// :rtype: TrackingDataArc
     pub fn downsample(&self, target_step: Duration) -> Self {
+        // Each tracker is filtered on its own: a window never mixes the observations of several trackers.
+        let trackers = self.unique_aliases();
+        if trackers.len() > 1 {
+            let mut result = TrackingDataArc {
+                measurements: Vec::new(),
+                ..self.clone()
+            };
+            for tracker in trackers {
+                let tracker_arc = self.clone().filter_by_tracker(tracker);
+                result
+                    .measurements
+                    .extend(tracker_arc.downsample(target_step).measurements);
+            }
+            result.sort();
+            return result;
+        }
+
         if self.is_empty() {
             return self.clone();
         }
@@ -239,22 +256,30 @@ impl TrackingDataArc {
 
         let mut result = TrackingDataArc {
             source: self.source.clone(),
+            moduli: self.moduli.clone(),
+            force_reject: self.force_reject,
             ..Default::default()
         };
 
+        // Samples further away than this are not in the window, e.g. those of another pass.
+        let half_window = current_step * ((window_size / 2) as i64);
+
         let measurements: Vec<_> = self.measurements.iter().collect();
 
         for (i, msr) in measurements.iter().enumerate().step_by(window_size) {
             let epoch = msr.epoch;
             let start = i.saturating_sub(window_size / 2);
             let end = (i + window_size / 2 + 1).min(measurements.len());
-            let window = &measurements[start..end];
+            let window = measurements[start..end]
+                .iter()
+                .filter(|m| (m.epoch - epoch).abs() <= half_window)
+                .collect::<Vec<_>>();
 
             let mut filtered_measurement = Measurement {
-                tracker: window[0].tracker.clone(),
+                tracker: msr.tracker.clone(),
                 epoch,
                 data: IndexMap::new(),
-                rejected: false,
+                rejected: window.iter().any(|m| m.rejected),
             };
 
             // Apply moving average filter for each measurement type
-- 
2.43.0


From abaed93c53cf5369df57c3b47007d22081a74935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:44 +0000
Subject: [PATCH 062/113] fix: loading a tracking arc from an invalid parquet
 file is an error

---
 nyx-core/src/od/msr/trackingdata/io_parquet.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 781392a..3150efa 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -48,7 +48,9 @@ impl TrackingDataArc {
         let file = File::open(&path).context(StdIOSnafu {
             action: "opening file for tracking arc",
         })?;
-        let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+        let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+            action: "opening tracking arc",
+        })?;
 
         let reader = builder.build().context(ParquetSnafu {
             action: "reading tracking arc",
-- 
2.43.0


From 6c7ee848da66471f624091f3130ddd5080061786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:45 +0000
Subject: [PATCH 063/113] fix: missing observations of a parquet tracking arc
 are not zeros

---
 nyx-core/src/od/msr/trackingdata/io_parquet.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 3150efa..7af7f80 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -185,28 +185,28 @@ impl TrackingDataArc {
                     rejected: false,
                 };
 
-                if range_avail {
+                if let Some(data) = range_data.filter(|data| data.is_valid(i)) {
                     measurement
                         .data
-                        .insert(MeasurementType::Range, range_data.unwrap().value(i));
+                        .insert(MeasurementType::Range, data.value(i));
                 }
 
-                if doppler_avail {
+                if let Some(data) = doppler_data.filter(|data| data.is_valid(i)) {
                     measurement
                         .data
-                        .insert(MeasurementType::Doppler, doppler_data.unwrap().value(i));
+                        .insert(MeasurementType::Doppler, data.value(i));
                 }
 
-                if az_avail {
+                if let Some(data) = azimuth_data.filter(|data| data.is_valid(i)) {
                     measurement
                         .data
-                        .insert(MeasurementType::Azimuth, azimuth_data.unwrap().value(i));
+                        .insert(MeasurementType::Azimuth, data.value(i));
                 }
 
-                if el_avail {
+                if let Some(data) = elevation_data.filter(|data| data.is_valid(i)) {
                     measurement
                         .data
-                        .insert(MeasurementType::Elevation, elevation_data.unwrap().value(i));
+                        .insert(MeasurementType::Elevation, data.value(i));
                 }
 
                 measurements.push(measurement);
-- 
2.43.0


From 8deffe01c85fe7640dc63ceeb9156ef3b9246e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:45 +0000
Subject: [PATCH 064/113] fix: exporting a tracking arc without an end epoch
 keeps the last measurement

---
 nyx-core/src/od/msr/trackingdata/io_parquet.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 7af7f80..0ce4ec3 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -35,6 +35,7 @@ use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
 use snafu::{ResultExt, ensure};
 use std::collections::HashMap;
 use std::fs::File;
+use std::ops::Bound;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -270,14 +271,12 @@ impl TrackingDataArc {
 
         let measurements =
             if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
-                let start = cfg
-                    .start_epoch
-                    .unwrap_or_else(|| self.start_epoch().unwrap());
-                let end = cfg.end_epoch.unwrap_or_else(|| self.end_epoch().unwrap());
+                let start = cfg.start_epoch.map_or(Bound::Unbounded, Bound::Included);
+                let end = cfg.end_epoch.map_or(Bound::Unbounded, Bound::Excluded);
 
-                info!("Exporting measurements from {start} to {end}.");
+                info!("Exporting measurements from {start:?} to {end:?}.");
 
-                self.clone().filter_by_epoch(start..end).measurements
+                self.clone().filter_by_epoch((start, end)).measurements
             } else {
                 self.measurements.clone()
             };
-- 
2.43.0


From ca6a33fd8e28d000a1a893f9735396e308ff6a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:05 +0000
Subject: [PATCH 065/113] fix: the epochs of exported TDM files are in UTC

---
 .../src/od/msr/trackingdata/io_ccsds_tdm.rs    | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 9b6285e..b3ecb9a 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -516,13 +516,25 @@ impl TrackingDataArc {
                 writeln!(
                     writer,
                     "\tSTART_TIME = {}",
-                    Formatter::new(tracker_data.start_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::new(
+                        tracker_data
+                            .start_epoch()
+                            .unwrap()
+                            .to_time_scale(TimeScale::UTC),
+                        iso8601_no_ts
+                    )
                 )
                 .map_err(err_hdlr)?;
                 writeln!(
                     writer,
                     "\tSTOP_TIME = {}",
-                    Formatter::new(tracker_data.end_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::new(
+                        tracker_data
+                            .end_epoch()
+                            .unwrap()
+                            .to_time_scale(TimeScale::UTC),
+                        iso8601_no_ts
+                    )
                 )
                 .map_err(err_hdlr)?;
 
@@ -593,7 +605,7 @@ impl TrackingDataArc {
                             writer,
                             "\t{:<20} = {:<23}\t{:.12}",
                             mtype.ccsds_tdm_name(),
-                            Formatter::new(m.epoch, iso8601_no_ts),
+                            Formatter::new(m.epoch.to_time_scale(TimeScale::UTC), iso8601_no_ts),
                             value * multiplier
                         )
                         .map_err(err_hdlr)?;
-- 
2.43.0


From a034f9375da6cb4c4f7d30c9020f12aa8b966481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:05 +0000
Subject: [PATCH 066/113] fix: loading a tracking arc with unexpected column
 types is an error

---
 nyx-core/src/od/msr/trackingdata/io_parquet.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 0ce4ec3..c1eed84 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -99,6 +99,10 @@ impl TrackingDataArc {
 
         let mut measurements = Vec::new();
 
+        let bad_column = |column: &str| InputOutputError::UnsupportedData {
+            which: format!("type of column `{column}`"),
+        };
+
         // We can safely unwrap the columns since we've checked for their existance just before.
         for maybe_batch in reader {
             let batch = maybe_batch.context(ArrowSnafu {
@@ -110,14 +114,14 @@ impl TrackingDataArc {
                 .unwrap()
                 .as_any()
                 .downcast_ref::<StringArray>()
-                .unwrap();
+                .ok_or_else(|| bad_column("Tracking device"))?;
 
             let epochs = batch
                 .column_by_name("Epoch (UTC)")
                 .unwrap()
                 .as_any()
                 .downcast_ref::<StringArray>()
-                .unwrap();
+                .ok_or_else(|| bad_column("Epoch (UTC)"))?;
 
             let range_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if range_avail {
                 Some(
@@ -126,7 +130,7 @@ impl TrackingDataArc {
                         .unwrap()
                         .as_any()
                         .downcast_ref::<Float64Array>()
-                        .unwrap(),
+                        .ok_or_else(|| bad_column("Range (km)"))?,
                 )
             } else {
                 None
@@ -139,7 +143,7 @@ impl TrackingDataArc {
                         .unwrap()
                         .as_any()
                         .downcast_ref::<Float64Array>()
-                        .unwrap(),
+                        .ok_or_else(|| bad_column("Doppler (km/s)"))?,
                 )
             } else {
                 None
@@ -152,7 +156,7 @@ impl TrackingDataArc {
                         .unwrap()
                         .as_any()
                         .downcast_ref::<Float64Array>()
-                        .unwrap(),
+                        .ok_or_else(|| bad_column("Azimuth (deg)"))?,
                 )
             } else {
                 None
@@ -165,7 +169,7 @@ impl TrackingDataArc {
                         .unwrap()
                         .as_any()
                         .downcast_ref::<Float64Array>()
-                        .unwrap(),
+                        .ok_or_else(|| bad_column("Elevation (deg)"))?,
                 )
             } else {
                 None
-- 
2.43.0


From 36065c31708b68f64b1f0d24b40307bbdb57dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:38 +0000
Subject: [PATCH 067/113] fix: the angles of two-way TDM segments are not
 halved

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index b3ecb9a..9033ccd 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -174,8 +174,11 @@ impl TrackingDataArc {
                 {
                     has_freq_data = true;
                     1.0
-                } else {
+                } else if mtype.may_be_two_way() {
                     msr_divider
+                } else {
+                    // Angles do not depend on the path.
+                    1.0
                 };
 
                 let scaled_value = value / effective_divider;
-- 
2.43.0


From edf93e630c9d4ffd61ac77fa6dbdb1ac6db81096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:20 +0000
Subject: [PATCH 068/113] fix: building a schedule without any pass does not
 panic

---
 nyx-core/src/od/simulator/arc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 255bc97..1191cf5 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -408,8 +408,10 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
         }
         // Iterate through the strands by chronological order. Cannot use maps because we change types.
         cfg_as_vec.sort_by_key(|(_, _, strand)| strand.start);
-        for (ii, (this_name, this_pos, this_strand)) in
-            cfg_as_vec.iter().take(cfg_as_vec.len() - 1).enumerate()
+        for (ii, (this_name, this_pos, this_strand)) in cfg_as_vec
+            .iter()
+            .take(cfg_as_vec.len().saturating_sub(1))
+            .enumerate()
         {
             // Grab the config
             if let Some(config) = self.configs[this_name].scheduler.as_ref() {
-- 
2.43.0


From c5717abb1c07ef2353f1c13e0583a65dc24c8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:20 +0000
Subject: [PATCH 069/113] fix: handoffs do not leave strands which end before
 they start

---
 nyx-core/src/od/simulator/arc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 1191cf5..561818f 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -438,6 +438,13 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
             }
         }
 
+        // A handoff may leave no time at all to a strand.
+        for cfg in built_cfg.values_mut() {
+            if let Some(strands) = cfg.strands.as_mut() {
+                strands.retain(|strand| strand.start <= strand.end);
+            }
+        }
+
         Ok(built_cfg)
     }
 
-- 
2.43.0


From 411482acda6a573e360a2be12e04b35266548fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:23 +0000
Subject: [PATCH 070/113] fix: the bias of a device is added to the computed
 observations, as it is to the simulated ones

---
 nyx-core/src/od/process/mod.rs             | 2 +-
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 33689e4..1b336a7 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -327,7 +327,7 @@ where
                                         // Apply any biases on the computed observation
                                         let computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
-                                            - device.measurement_bias_vector::<MsrSize>(
+                                            + device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index c94d8e2..5c6df27 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -182,7 +182,7 @@ where
                     // Only recompute the computed observation from the update state estimate.
                     residual.computed_obs = computed_meas
                         .observation::<MsrSize>(&residual.msr_types)
-                        - device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
+                        + device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
 
                     // Update the postfit residual.
                     residual.postfit = &residual.real_obs - &residual.computed_obs;
-- 
2.43.0


From 3aecea653274583e1c3ab9c00c9a19492157f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 071/113] fix: measurement types missing from a measurement do
 not cause its rejection

---
 nyx-core/src/od/process/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 1b336a7..ba2031d 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -325,13 +325,22 @@ where
                                         device.measure(epoch, &traj, None, &self.almanac)?
                                     {
                                         // Apply any biases on the computed observation
-                                        let computed_obs = computed_meas
+                                        let mut computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
                                             + device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
 
+                                        // The rows of the measurement types which are not in this measurement are zero.
+                                        for (i, available) in
+                                            msr.availability(&cur_msr_types).into_iter().enumerate()
+                                        {
+                                            if !available {
+                                                computed_obs[i] = 0.0;
+                                            }
+                                        }
+
                                         // Apply the modulo to the real obs
                                         if let Some(moduli) = &arc.moduli {
                                             let mut obs_ambiguity =
-- 
2.43.0


From 9102163faca7003e2188d9cc5c14c0a841545385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 072/113] fix: the ambiguity of a measurement does not jump
 when the computed observation is near a multiple of the modulus

---
 nyx-core/src/od/process/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index ba2031d..c932e0d 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -348,7 +348,8 @@ where
 
                                             for (i, msr_type) in cur_msr_types.iter().enumerate() {
                                                 if let Some(modulus) = moduli.get(msr_type) {
-                                                    let k = computed_obs[i].div_euclid(*modulus);
+                                                    // Choose the ambiguity which brings the observation closest to the computed one.
+                                                    let k = ((computed_obs[i] - real_obs[i]) / *modulus).round();
                                                     // real_obs = measured_obs + k * modulus
                                                     obs_ambiguity[i] = k * *modulus;
                                                 }
-- 
2.43.0


From d690fa215df420bd6fbc03aec67cdcd34022d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 073/113] fix: forced rejections include the measurements
 without any residual

---
 nyx-core/src/od/process/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index c932e0d..e3ae61f 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -174,7 +174,8 @@ where
 
         let resid_crit = if arc.force_reject {
             warn!("Rejecting all measurements from {arc} as requested");
-            Some(SigmaRejection { num_sigmas: 0.0 })
+            // A negative threshold also rejects the measurements which match the computed ones exactly.
+            Some(SigmaRejection { num_sigmas: -1.0 })
         } else {
             self.sigma_reject
         };
-- 
2.43.0


From 680e54ed54a895e36cb17c9bad983d70b102da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 074/113] fix: predictions initialize the epochs of the process
 noises

---
 nyx-core/src/od/process/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index e3ae61f..7f5b03c 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -471,6 +471,8 @@ where
             prev_used_snc: 0,
         };
 
+        kf.initialize_process_noises();
+
         let prop_time = end_epoch - kf.previous_estimate().epoch();
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
-- 
2.43.0


From 035582fcd56deb5f6e285da9f3d745e52b4ec30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 075/113] fix: predictions stop at the requested epoch

---
 nyx-core/src/od/process/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 7f5b03c..c722a8f 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -477,7 +477,10 @@ where
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
         loop {
-            let nominal_state = prop_instance.for_duration(self.max_step).context(ODPropSnafu)?;
+            let step = self
+                .max_step
+                .min(end_epoch - prop_instance.state.epoch());
+            let nominal_state = prop_instance.for_duration(step).context(ODPropSnafu)?;
             // Extract the state and update the STM in the filter.
             // Get the datetime and info needed to compute the theoretical measurement according to the model
             let epoch = nominal_state.epoch();
-- 
2.43.0


From 233cf2b6148e64066c15403ada00bd1b47ac70b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 076/113] fix: filters process devices with fewer measurement
 types than the size of the filter

---
 nyx-core/src/od/simulator/trackdata.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nyx-core/src/od/simulator/trackdata.rs b/nyx-core/src/od/simulator/trackdata.rs
index a063e3c..eaf338f 100644
--- a/nyx-core/src/od/simulator/trackdata.rs
+++ b/nyx-core/src/od/simulator/trackdata.rs
@@ -92,6 +92,11 @@ where
         // Rebuild the R matrix of the measurement noise.
         let mut r_mat = OMatrix::<f64, M, M>::zeros();
 
+        // Rows without any measurement type are unused but must not prevent the inversion of this matrix.
+        for i in msr_types.len()..M::DIM {
+            r_mat[(i, i)] = 1.0;
+        }
+
         for (i, msr_type) in msr_types.iter().enumerate() {
             if self.measurement_types().contains(msr_type) {
                 r_mat[(i, i)] = self.measurement_covar(*msr_type, epoch)?;
-- 
2.43.0


From 92661dbf8aedc0b4346ef477776e1e2e213f318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 077/113] fix: the RMS of residuals do not count the time
 updates

---
 nyx-core/src/od/process/solution/stats.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index c337ce5..99fba71 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -150,7 +150,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.prefit.dot(&residual.prefit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the postfit residuals
@@ -159,7 +159,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.postfit.dot(&residual.postfit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the prefit residual ratios
@@ -168,7 +168,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.ratio.powi(2);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Computes the fraction of residual ratios that lie within ±threshold.
-- 
2.43.0


From 84be3e0d79de2c6890d64a4edce556f60c845f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 078/113] fix: the Kolmogorov-Smirnov statistic accounts for
 both sides of each step

---
 nyx-core/src/od/process/solution/stats.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index 99fba71..fd75ff7 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -223,7 +223,10 @@ where
         for (i, &value) in residual_ratios.iter().enumerate() {
             let empirical_cdf = (i + 1) as f64 / n;
             let model_cdf = normal_dist.cdf(value);
-            let diff = (empirical_cdf - model_cdf).abs();
+            // The empirical CDF is a step function: check both sides of this step.
+            let diff = (empirical_cdf - model_cdf)
+                .abs()
+                .max((model_cdf - i as f64 / n).abs());
             if diff > d_stat {
                 d_stat = diff;
             }
-- 
2.43.0


From 9d6c44c16ea82930a339e364a34cc608527f263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 079/113] fix: merged OD solutions are in chronological order

---
 .../src/od/process/solution/filter_data.rs    | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 25eda53..4e953de 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -246,18 +246,14 @@ where
                 .expect("Epoch comparison failed")
         });
 
-        // Apply permutation to both vectors in-place
-        for i in 0..indices.len() {
-            let current = i;
-            while indices[current] != current {
-                let target = indices[current];
-                indices.swap(current, target);
-                self.estimates.swap(current, target);
-                self.residuals.swap(current, target);
-                self.gains.swap(current, target);
-                self.filter_smoother_ratios.swap(current, target);
-            }
-        }
+        // Apply this permutation to all of the vectors in the same way.
+        self.estimates = indices.iter().map(|&i| self.estimates[i].clone()).collect();
+        self.residuals = indices.iter().map(|&i| self.residuals[i].clone()).collect();
+        self.gains = indices.iter().map(|&i| self.gains[i].clone()).collect();
+        self.filter_smoother_ratios = indices
+            .iter()
+            .map(|&i| self.filter_smoother_ratios[i].clone())
+            .collect();
 
         self
     }
-- 
2.43.0


From 1c00b07bbf480daced79b4901560a563a56115a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 080/113] fix: merged OD solutions keep the devices and
 measurement types of both

---
 nyx-core/src/od/process/solution/filter_data.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 4e953de..d72c752 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -234,6 +234,11 @@ where
         self.filter_smoother_ratios
             .append(&mut other.filter_smoother_ratios);
 
+        for (name, device) in other.devices {
+            self.devices.entry(name).or_insert(device);
+        }
+        self.measurement_types.extend(other.measurement_types);
+
         // Sort to ensure chronological order using indices based permutations.
         // Generate indices representing original positions
         let mut indices: Vec<usize> = (0..self.estimates.len()).collect();
-- 
2.43.0


From f315423002ad570fa0a4b639fd5a7ccf26b177c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 081/113] fix: exporting a time span of an OD solution also
 selects its gains and ratios

---
 nyx-core/src/od/process/solution/export.rs | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 08bd7d6..49d4b7c 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -346,7 +346,7 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
+        let (estimates, residuals, gains, filter_smoother_ratios) =
             if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                 // Must interpolate the data!
                 let start = cfg
@@ -359,17 +359,27 @@ where
                 let mut residuals: Vec<Option<Residual<MsrSize>>> =
                     Vec::with_capacity(self.residuals.len());
                 let mut estimates = Vec::with_capacity(self.estimates.len());
+                let mut gains = Vec::with_capacity(self.gains.len());
+                let mut filter_smoother_ratios =
+                    Vec::with_capacity(self.filter_smoother_ratios.len());
 
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
+                for (i, estimate) in self.estimates.iter().enumerate() {
                     if estimate.epoch() >= start && estimate.epoch() <= end {
                         estimates.push(*estimate);
-                        residuals.push(residual.clone());
+                        residuals.push(self.residuals[i].clone());
+                        gains.push(self.gains[i].clone());
+                        filter_smoother_ratios.push(self.filter_smoother_ratios[i]);
                     }
                 }
 
-                (estimates, residuals)
+                (estimates, residuals, gains, filter_smoother_ratios)
             } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
+                (
+                    self.estimates.to_vec(),
+                    self.residuals.to_vec(),
+                    self.gains.to_vec(),
+                    self.filter_smoother_ratios.to_vec(),
+                )
             };
 
         // Build all of the records
@@ -586,7 +596,7 @@ where
         for i in 0..est_size {
             for j in 0..MsrSize::DIM {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -600,7 +610,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..est_size {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From 30eb8b413be683bd382a2fff0bb8f890a2f53226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 082/113] fix: the RIC uncertainties of exported OD solutions
 are rotated into the RIC frame

---
 nyx-core/src/od/process/solution/export.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 49d4b7c..6e2c806 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -439,11 +439,12 @@ where
         let mut ric_covariances = Vec::new();
 
         for s in &estimates {
-            let dcm_ric2inertial = s
+            let dcm_inertial2ric = s
                 .state()
                 .orbit()
                 .dcm_from_ric_to_inertial()
                 .unwrap()
+                .transpose()
                 .state_dcm();
 
             // Build the matrix view of the orbit part of the covariance.
@@ -451,7 +452,7 @@ where
             let orbit_cov = cov.fixed_view::<6, 6>(0, 0);
 
             // Rotate back into the RIC frame
-            let ric_covar = dcm_ric2inertial * orbit_cov * dcm_ric2inertial.transpose();
+            let ric_covar = dcm_inertial2ric * orbit_cov * dcm_inertial2ric.transpose();
             ric_covariances.push(ric_covar);
         }
 
-- 
2.43.0


From d8bd8f84370fdaacff90f4692a2423066b39baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 083/113] fix: loading an OD solution from an invalid file is
 an error

---
 nyx-core/src/od/process/solution/import.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index adf9c9f..2c91a83 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -83,7 +83,9 @@ where
           action: "opening OD solution file",
       })?;
 
-      let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+      let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+          action: "opening OD solution file",
+      })?;
 
       let mut metadata = HashMap::new();
       // Build the custom metadata
-- 
2.43.0


From 78d27155399dcf95f0985012f5f8427d1dc1f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 084/113] fix: the residuals of a loaded OD solution are in the
 order of its measurement types

---
 nyx-core/src/od/process/solution/import.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index 2c91a83..de8b5f1 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -33,7 +33,7 @@ use anise::structure::spacecraft::{DragData, Mass, SRPData};
 use arrow::array::RecordBatchReader;
 use arrow::array::{Array, BooleanArray, Float64Array, StringArray};
 use hifitime::Epoch;
-use indexmap::IndexSet;
+use indexmap::{IndexMap, IndexSet};
 use log::{info, warn};
 use msr::sensitivity::TrackerSensitivity;
 use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
@@ -283,7 +283,7 @@ where
             let tracker_col = get_col("Tracker").ok().and_then(|arr| arr.as_any().downcast_ref::<StringArray>().cloned());
             let ratio_col = get_col("Residual ratio").ok().and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned());
 
-            let mut residual_data_cols: HashMap<MeasurementType, BTreeMap<String, Float64Array>> = HashMap::new();
+            let mut residual_data_cols: IndexMap<MeasurementType, BTreeMap<String, Float64Array>> = IndexMap::new();
             for msr_type in &measurement_types_found {
                  let mut type_cols = BTreeMap::new();
                  let prefixes = ["Prefit residual", "Whitened residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
-- 
2.43.0


From ab475e2788ba432382edb9aae78bd70c3a1b8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 085/113] fix: the whitened residuals of an OD solution are
 loaded

---
 nyx-core/src/od/process/solution/import.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index de8b5f1..84835ef 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -286,7 +286,7 @@ where
             let mut residual_data_cols: IndexMap<MeasurementType, BTreeMap<String, Float64Array>> = IndexMap::new();
             for msr_type in &measurement_types_found {
                  let mut type_cols = BTreeMap::new();
-                 let prefixes = ["Prefit residual", "Whitened residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
+                 let prefixes = ["Prefit residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
                  for prefix in prefixes {
                       // Again, guessing column name format
                       let base_name = format!("{}: {:?} ({})", prefix, msr_type, msr_type.unit());
@@ -298,6 +298,12 @@ where
                  residual_data_cols.insert(*msr_type, type_cols);
             }
 
+            // Whitened residuals are stored per row of the residual
+            let mut whitened_cols: Vec<Option<Float64Array>> = Vec::new();
+            for j in 0..MsrSize::DIM {
+                whitened_cols.push(get_col(&format!("Whitened residual #{j}")).ok().and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned()));
+            }
+
             // Gain columns (store for iteration)
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
             let mut gain_available = true;
@@ -423,7 +429,10 @@ where
                 let current_residual: Option<Residual<MsrSize>> = if let (Some(is_rejected), Some(tracker), Some(ratio)) = (is_rejected_opt, tracker_opt.clone(), ratio_opt) {
                      // It's a measurement update
                      let mut prefit_vec = OVector::<f64, MsrSize>::zeros();
-                     let mut whitened_vec = OVector::<f64, MsrSize>::zeros();
+                     let whitened_vec = OVector::<f64, MsrSize>::from_iterator(whitened_cols.iter().map(|col| match col {
+                           Some(col) if col.is_valid(i) => col.value(i),
+                           _ => f64::NAN,
+                     }));
                      let mut postfit_vec = OVector::<f64, MsrSize>::zeros();
                      let mut noise_vec = OVector::<f64, MsrSize>::zeros();
                      let mut real_obs_vec = OVector::<f64, MsrSize>::zeros();
@@ -436,16 +445,14 @@ where
 
                            // Check if data exists for this type *at this row*
                            let prefit_val = type_cols.get("Prefit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
-                           let whitened_resid_val = type_cols.get("Whitened residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let postfit_val = type_cols.get("Postfit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let noise_val = type_cols.get("Measurement noise").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let real_val = type_cols.get("Real observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let comp_val = type_cols.get("Computed observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
 
                            // Only include if *at least one* value is present for this type in this row
-                           if prefit_val.is_some() || whitened_resid_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
+                           if prefit_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
                                 prefit_vec[msr_idx] = prefit_val.unwrap_or(f64::NAN);
-                                whitened_vec[msr_idx] = whitened_resid_val.unwrap_or(f64::NAN);
                                 postfit_vec[msr_idx] = postfit_val.unwrap_or(f64::NAN);
                                 noise_vec[msr_idx] = noise_val.unwrap_or(f64::NAN);
                                 real_obs_vec[msr_idx] = real_val.unwrap_or(f64::NAN);
-- 
2.43.0


From 0c3ea4583f3d7e33cb0b00eda65ce4eb36ecc98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 086/113] fix: the gains of OD solutions with more measurement
 types than the filter size are loaded

---
 nyx-core/src/od/process/solution/import.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index 84835ef..161337d 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -308,14 +308,19 @@ where
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
             let mut gain_available = true;
             for i in 0..state_size {
-                for f in &measurement_types_found {
+                for j in 0..MsrSize::DIM {
                     // Guessing format - needs robust parsing or metadata
-                    let base_name = format!(
-                        "Gain {}*{f:?} ({}*{})",
-                        state_items[i],
-                        cov_units[i],
-                        f.unit()
-                    );
+                    let base_name = if measurement_types_found.len() == MsrSize::DIM {
+                        let f = measurement_types_found[j];
+                        format!(
+                            "Gain {}*{f:?} ({}*{})",
+                            state_items[i],
+                            cov_units[i],
+                            f.unit()
+                        )
+                    } else {
+                        format!("Gain {}*[{j}]", state_items[i])
+                    };
                     let col_name = schema.fields().iter()
                          .find(|f| f.name().starts_with(&base_name))
                          .map(|f| f.name().as_str());
-- 
2.43.0


From 5c1a6890d1198fb70184728ccbc09a633bc1a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:06 +0000
Subject: [PATCH 087/113] fix: the batch least squares maps the measurements
 with the state transition of each step once

---
 nyx-core/src/od/blse/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index d4fd773..996dfad 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -220,6 +220,8 @@ where
                     let step_stm = this_state.stm().expect("STM unavailable");
                     // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
                     stm = step_stm * stm;
+                    // The next step's STM must start from this epoch.
+                    prop_inst.state.reset_stm();
 
                     if (epoch - msr_epoch).abs() < self.epoch_precision {
                         // Get the correct tracking device
-- 
2.43.0


From 0ff7ea6e934b2e2d6059b74fee37d9513725b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:06 +0000
Subject: [PATCH 088/113] fix: the batch least squares uses all of the
 measurements of an epoch, including the first one

---
 nyx-core/src/od/blse/mod.rs | 56 ++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 996dfad..77a77cd 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -204,24 +204,23 @@ where
 
                 loop {
                     let delta_t = msr_epoch - epoch;
-                    if delta_t <= Duration::ZERO {
-                        // Move onto the next measurement.
-                        break;
+                    if delta_t > Duration::ZERO {
+                        // Propagate for the minimum time between the maximum step size, the next step size, and the duration to the next measurement.
+                        let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
+
+                        // Propagate reference state from the previous state to msr_epoch
+                        let next_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
+                        epoch = next_state.epoch();
+
+                        // Grab the STM Phi(t_{i+1}, t_i) from the propagated state's STM.
+                        let step_stm = next_state.stm().expect("STM unavailable");
+                        // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
+                        stm = step_stm * stm;
+                        // The next step's STM must start from this epoch.
+                        prop_inst.state.reset_stm();
                     }
 
-                    // Propagate for the minimum time between the maximum step size, the next step size, and the duration to the next measurement.
-                    let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
-
-                    // Propagate reference state from the previous state to msr_epoch
-                    let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
-                    epoch = this_state.epoch();
-
-                    // Grab the STM Phi(t_{i+1}, t_i) from the propagated state's STM.
-                    let step_stm = this_state.stm().expect("STM unavailable");
-                    // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
-                    stm = step_stm * stm;
-                    // The next step's STM must start from this epoch.
-                    prop_inst.state.reset_stm();
+                    let this_state = prop_inst.state;
 
                     if (epoch - msr_epoch).abs() < self.epoch_precision {
                         // Get the correct tracking device
@@ -235,7 +234,7 @@ where
                                     );
                                 }
                                 unknown_trackers.insert(msr.tracker.clone());
-                                continue;
+                                break;
                             }
                         };
 
@@ -298,6 +297,11 @@ where
                             sum_sq_weighted_residuals += weight * residual * residual;
                         }
                     }
+
+                    if epoch >= msr_epoch || msr_epoch - epoch < self.epoch_precision {
+                        // Move onto the next measurement.
+                        break;
+                    }
                 }
             }
 
@@ -480,13 +484,15 @@ where
 
             loop {
                 let delta_t = msr_epoch - epoch;
-                if delta_t <= Duration::ZERO {
-                    break;
+                if delta_t > Duration::ZERO {
+                    let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
+                    epoch = prop_inst
+                        .for_duration(next_step)
+                        .context(ODPropSnafu)?
+                        .epoch();
                 }
 
-                let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
-                let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
-                epoch = this_state.epoch();
+                let this_state = prop_inst.state;
 
                 if (epoch - msr_epoch).abs() < self.epoch_precision {
                     let device = match devices.get_mut(&msr.tracker) {
@@ -499,7 +505,7 @@ where
                                 );
                             }
                             unknown_trackers.insert(msr.tracker.clone());
-                            continue;
+                            break;
                         }
                     };
 
@@ -536,6 +542,10 @@ where
                         sum_sq_weighted_residuals += weight * residual * residual;
                     }
                 }
+
+                if epoch >= msr_epoch || msr_epoch - epoch < self.epoch_precision {
+                    break;
+                }
             }
         }
 
-- 
2.43.0


From 4108f2bba7057a5bc69b6254d522f761b6541067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 089/113] fix: the smoother updates the residual of the
 estimate which it smooths

---
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index 5c6df27..2968bbe 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -162,7 +162,7 @@ where
             // Compute the smoothed covariance
             smoothed_est_k.set_covar(p_k_l);
             // Recompute the residual if available.
-            if let Some(mut residual) = self.residuals[k + 1].clone() {
+            if let Some(mut residual) = self.residuals[k].clone() {
                 let tracker = residual
                     .tracker
                     .as_ref()
-- 
2.43.0


From d0554d90897a301d45fb5531fa601d284d74b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 090/113] fix: smoothing a solution with fewer than two
 estimates does not panic

---
 nyx-core/src/od/process/solution/smooth.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index 2968bbe..78d6a86 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -106,6 +106,14 @@ where
         <StateType as State>::Size:
             DimMin<<StateType as State>::Size, Output = <StateType as State>::Size>,
     {
+        snafu::ensure!(
+            !self.estimates.is_empty(),
+            TooFewMeasurementsSnafu {
+                need: 1_usize,
+                action: "smoothing an OD solution"
+            }
+        );
+
         let l = self.estimates.len() - 1;
 
         let mut smoothed = Self {
@@ -127,7 +135,7 @@ where
         smoothed.gains.push(None);
         smoothed.filter_smoother_ratios.push(None);
 
-        loop {
+        while smoothed.estimates.len() < self.estimates.len() {
             let k = l - smoothed.estimates.len();
             // Borrow the previously smoothed estimate of the k+1 estimate
             let sm_est_kp1 = &self.estimates[k + 1];
@@ -212,10 +220,6 @@ where
             smoothed.filter_smoother_ratios.push(Some(fs_ratios));
             // Set all gains to None.
             smoothed.gains.push(None);
-
-            if smoothed.estimates.len() == self.estimates.len() {
-                break;
-            }
         }
 
         // Note that we have yet to reverse the list, so we print them backward
-- 
2.43.0


From 8010b93a01748de3620b709d2a2de02bfb2bed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 091/113] fix: the smoother accounts for all of the following
 measurements

---
 nyx-core/src/od/process/solution/smooth.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index 78d6a86..4967c2e 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -125,6 +125,18 @@ where
             measurement_types: self.measurement_types.clone(),
         };
 
+        // When the filter updates the reference of the propagator, each deviation is exactly the correction of that update.
+        // Otherwise, the deviations also include the mapped deviation of the previous estimate.
+        let reference_updated =
+            self.results()
+                .zip(self.gains.iter())
+                .all(|((est, resid), gain)| match (resid, gain) {
+                    (Some(resid), Some(gain)) => est.state_deviation() == gain * &resid.prefit,
+                    _ => {
+                        est.state_deviation() == OVector::<f64, <StateType as State>::Size>::zeros()
+                    }
+                });
+
         // Set the first item of the smoothed estimates to the last estimate (we cannot smooth the very last estimate)
         smoothed
             .estimates
@@ -138,7 +150,7 @@ where
         while smoothed.estimates.len() < self.estimates.len() {
             let k = l - smoothed.estimates.len();
             // Borrow the previously smoothed estimate of the k+1 estimate
-            let sm_est_kp1 = &self.estimates[k + 1];
+            let sm_est_kp1 = smoothed.estimates.last().unwrap();
             let x_kp1_l = sm_est_kp1.state_deviation();
             let p_kp1_l = sm_est_kp1.covar();
             // Borrow the k-th estimate, which we're smoothing with the next estimate
@@ -160,7 +172,11 @@ where
                 .ok_or(ODError::SingularStateTransitionMatrix)?;
 
             // Compute smoothed state deviation
-            let x_k_l = &phi_kp1_k * x_kp1_l;
+            let mut x_k_l = &phi_kp1_k * x_kp1_l;
+            if reference_updated {
+                // The deviation at k+1 is with respect to the propagation of the updated state at k, and not of the nominal state at k.
+                x_k_l += est_k.state_deviation();
+            }
             // Compute smoothed covariance
             let p_k_l = &phi_kp1_k * p_kp1_l * &phi_kp1_k.transpose();
             // Store into vector
-- 
2.43.0


From 8df5a670f1f8eb6ccdd0e5786fd3153efa3361ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:34 +0000
Subject: [PATCH 092/113] fix: the filter computes the measurements from its
 latest state

When the propagation ended a nanosecond away from the epoch of a measurement,
the computed observations were interpolated across the update of the filter,
or were not available at all.
---
 nyx-core/src/od/process/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index c722a8f..d61e527 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -254,6 +254,13 @@ where
                     // This prevents infinite loops where the propagator (especially if fixed step)
                     // fails to step a tiny amount (drift) to reach the exact measurement time.
                     prop_instance.state.set_epoch(next_msr_epoch);
+                    // The trajectory must also contain this state at that exact epoch, else the computed
+                    // measurements would be interpolated across the updates of the filter.
+                    if let Some(state) = traj.states.last_mut() {
+                        state.set_epoch(next_msr_epoch);
+                    }
+                    nominal_state = prop_instance.state;
+                    epoch = next_msr_epoch;
 
                     if msr.rejected {
                         debug!("Skipping manually rejected measurement at {}", epoch);
-- 
2.43.0


From 7fb6598526a028d6fdd4022a9f68e7e09809bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 093/113] fix: the batch least squares accounts for the biases
 of the devices, like the Kalman filter

---
 nyx-core/src/od/blse/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 77a77cd..4600208 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -257,8 +257,9 @@ where
                                 }
                             };
 
-                            // Get the computed observation value
-                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                            // Get the computed observation value, including the bias of the device
+                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                                + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
 
                             // Get real observation y_i
                             let real_obs = msr.observation::<U1>(&msr_types)[0];
@@ -521,7 +522,8 @@ where
                             None => continue,
                         };
 
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                            + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
                         let real_obs = msr.observation::<U1>(&msr_types)[0];
 
                         ensure!(
-- 
2.43.0


From 8f513e6fa62010830df57db1ab5c29f46b6fca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 094/113] fix: the batch least squares accounts for the moduli
 of the measurements, like the Kalman filter

---
 nyx-core/src/od/blse/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 4600208..d8186b7 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -274,7 +274,11 @@ where
                             );
 
                             // Compute residual dy = y_i - H(X(t_i))
-                            let residual = real_obs - computed_obs;
+                            let mut residual = real_obs - computed_obs;
+                            if let Some(modulus) = arc.moduli.as_ref().and_then(|m| m.get(&msr_type)) {
+                                // Choose the ambiguity which brings the observation closest to the computed one.
+                                residual -= (residual / *modulus).round() * *modulus;
+                            }
 
                             // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
                             let r_matrix = device
@@ -534,7 +538,10 @@ where
                             }
                         );
 
-                        let residual = real_obs - computed_obs;
+                        let mut residual = real_obs - computed_obs;
+                        if let Some(modulus) = arc.moduli.as_ref().and_then(|m| m.get(&msr_type)) {
+                            residual -= (residual / *modulus).round() * *modulus;
+                        }
                         let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
                         let r_variance = r_matrix[(0, 0)];
 
-- 
2.43.0


From cd136eb6bded6c19ba681e3af515c27e8a9284d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:03 +0000
Subject: [PATCH 095/113] fix: the RMS of the postfit residuals is not NaN when
 measurements are rejected

---
 nyx-core/src/od/process/solution/stats.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index fd75ff7..f4f167d 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -156,10 +156,16 @@ where
     /// Returns the root mean square of the postfit residuals
     pub fn rms_postfit_residuals(&self) -> f64 {
         let mut sum = 0.0;
+        let mut count = 0_usize;
         for residual in self.residuals.iter().flatten() {
+            // The filter does not compute the postfit of the measurements it rejects.
+            if residual.rejected && residual.postfit.iter().any(|postfit| postfit.is_nan()) {
+                continue;
+            }
             sum += residual.postfit.dot(&residual.postfit);
+            count += 1;
         }
-        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
+        (sum / count as f64).sqrt()
     }
 
     /// Returns the root mean square of the prefit residual ratios
-- 
2.43.0


From 24d16ef061e1588d9a53448b78b7a91c9de4d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:25 +0000
Subject: [PATCH 096/113] fix: the state transition matrix of a ground asset
 accounts for its velocity

---
 nyx-core/src/od/groundpnt/ground_dynamics.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/ground_dynamics.rs b/nyx-core/src/od/groundpnt/ground_dynamics.rs
index 3251c7e..caf73d3 100644
--- a/nyx-core/src/od/groundpnt/ground_dynamics.rs
+++ b/nyx-core/src/od/groundpnt/ground_dynamics.rs
@@ -32,7 +32,7 @@ impl Dynamics for GroundDynamics {
     fn eom(
         &self,
         _delta_t: f64,
-        _state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
+        state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
         state_ctx: &Self::StateType,
         _almanac: &Almanac,
     ) -> Result<OVector<f64, <Self::StateType as crate::State>::VecLength>, DynamicsError>
@@ -48,10 +48,15 @@ impl Dynamics for GroundDynamics {
             0.0,
         ]);
 
+        // Time derivative of the STM: the rates of the position rows are the velocity rows, cf. `dual_eom`.
+        let stm = Matrix6::from_column_slice(&state_vec.as_slice()[6..42]);
+        let mut stm_dt = Matrix6::zeros();
+        stm_dt
+            .fixed_rows_mut::<3>(0)
+            .copy_from(&stm.fixed_rows::<3>(3));
+
         Ok(OVector::<f64, Const<42>>::from_iterator(
-            d_x.iter()
-                .chain(OVector::<f64, Const<36>>::zeros().iter())
-                .cloned(),
+            d_x.iter().chain(stm_dt.iter()).cloned(),
         ))
     }
 
-- 
2.43.0


From 8f186531fa1d2b46382f6390ebddd352c023245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:25 +0000
Subject: [PATCH 097/113] fix: the sensitivity of a ground asset to missing
 measurement types is zero

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index bd27961..5b5ef98 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -48,7 +48,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <GroundAsset as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
-- 
2.43.0


From 89bb7db7ac66453fa0725f28e6a58c3be99c1dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 098/113] fix: the sensitivity of a ground asset is computed in
 its own frame

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 5b5ef98..6547e1a 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -86,14 +86,21 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
         // This frame is required because the scalar measurements are frame independent, but the sensitivity
         // must be in the estimation frame.
 
-        let transmitter = tx
-            .traj
-            .at(receiver.epoch)
-            .map_err(|source| ODError::ODTrajError {
-                source,
-                details: "computing sensitivity ground asset / interlink".into(),
-            })?
-            .orbit;
+        let transmitter = almanac
+            .transform_to(
+                tx.traj
+                    .at(receiver.epoch)
+                    .map_err(|source| ODError::ODTrajError {
+                        source,
+                        details: "computing sensitivity ground asset / interlink".into(),
+                    })?
+                    .orbit,
+                receiver.frame,
+                None,
+            )
+            .context(ODAlmanacSnafu {
+                action: "computing transmitter location when computing sensitivity matrix",
+            })?;
 
         let jac = rx
             .geodetic_to_cartesian_jacobian()
-- 
2.43.0


From cda588b7d28ab8178d76e72a9c5cf3a4e257db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 099/113] fix: the Doppler of a moving ground asset accounts
 for its velocity

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 11 +++++++++--
 nyx-core/src/od/groundpnt/trk_device.rs  | 24 ++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 6547e1a..100739c 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -27,7 +27,7 @@ use crate::{Spacecraft, State};
 use anise::errors::AlmanacError;
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, OMatrix, U1, Vector3};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -113,7 +113,14 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
             })?;
 
         let delta_r = receiver.radius_km - transmitter.radius_km;
-        let delta_v = receiver.velocity_km_s - transmitter.velocity_km_s;
+        // The velocity of the asset in its frame follows from its latitude, longitude, and height rates.
+        let receiver_velocity_km_s = jac.fixed_view::<3, 3>(0, 0)
+            * Vector3::new(
+                rx.latitude_rate_deg_s,
+                rx.longitude_rate_deg_s,
+                rx.height_rate_km_s,
+            );
+        let delta_v = receiver_velocity_km_s - transmitter.velocity_km_s;
 
         match msr_type {
             MeasurementType::Doppler => {
diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index d07545b..58d1276 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -22,13 +22,14 @@ use anise::math::interpolation::InterpolationError;
 use anise::prelude::{Frame, Orbit};
 use hifitime::{Epoch, TimeUnits};
 use indexmap::IndexSet;
+use nalgebra::Vector3;
 use rand_pcg::Pcg64Mcg;
 use snafu::ResultExt;
 
 use crate::State;
 use crate::md::prelude::Traj;
 use crate::od::TrackingDevice;
-use crate::od::groundpnt::GroundAsset;
+use crate::od::groundpnt::{GroundAsset, velocity_sez_from_latlongalt_rate};
 use crate::od::interlink::InterlinkTxSpacecraft;
 use crate::od::msr::MeasurementType;
 use crate::od::prelude::{Measurement, ODError};
@@ -151,6 +152,25 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
         if aer.elevation_above_mask_deg() < 0.0 {
             Ok(None)
         } else {
+            // The range rate above is that of a fixed location: remove the velocity of the asset along the line of sight.
+            let (sin_az, cos_az) = aer.azimuth_deg.to_radians().sin_cos();
+            let (sin_el, cos_el) = aer.elevation_deg.to_radians().sin_cos();
+            let los_sez = Vector3::new(-cos_el * cos_az, cos_el * sin_az, sin_el);
+            let velocity_sez_km_s = velocity_sez_from_latlongalt_rate(
+                rx.orbit(),
+                rx.latitude_rate_deg_s,
+                rx.longitude_rate_deg_s,
+                rx.height_rate_km_s,
+            )
+            .map_err(|e| ODError::ODAlmanac {
+                source: Box::new(AlmanacError::AlmanacPhysics {
+                    action: "computing the velocity of the ground asset",
+                    source: Box::new(e),
+                }),
+                action: "computing the velocity of the ground asset",
+            })?;
+            let range_rate_km_s = aer.range_rate_km_s - los_sez.dot(&velocity_sez_km_s);
+
             let noises = self.noises(rx.epoch, rng)?;
 
             let mut msr =
@@ -160,7 +180,7 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
             for (ii, msr_type) in self.measurement_types.iter().enumerate() {
                 let msr_value = match *msr_type {
                     MeasurementType::Range => aer.range_km,
-                    MeasurementType::Doppler => aer.range_rate_km_s,
+                    MeasurementType::Doppler => range_rate_km_s,
                     // Or return an error for unsupported types
                     _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
                 } + noises[ii + 1];
-- 
2.43.0


From 971368f5bae5ad2d4bdfeabe53f776198b0972a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 100/113] fix: the sensitivity of a ground asset does not
 depend on the noise of the measurement

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 100739c..243420b 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -74,13 +74,12 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
     /// ground asset. Then we compute the AER as seen from the ground asset.
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &GroundAsset,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
     ) -> Result<Self, ODError> {
         let receiver = rx.orbit();
-        let loc = rx.to_location();
 
         // Compute the device location in the receiver frame because we compute the sensitivity in that frame.
         // This frame is required because the scalar measurements are frame independent, but the sensitivity
@@ -124,20 +123,9 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = match msr.data.get(&MeasurementType::Range) {
-                    Some(range_km) => *range_km,
-                    None => {
-                        almanac
-                            .azimuth_elevation_range_sez_from_location(transmitter, loc, None, None)
-                            .context(ODAlmanacSnafu {
-                                action: "computing range for Doppler measurement",
-                            })?
-                            .range_km
-                    }
-                };
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                // Always recompute the expected range and range rate: the partials do not depend on the measured values.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -157,7 +145,7 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From 4a86ea82be60494ddc61e8fb202a264e3e4b3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 101/113] fix: ground assets with unsupported types or without
 noises return errors

---
 nyx-core/src/od/groundpnt/trk_device.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index 58d1276..16bc871 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -182,7 +182,11 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
                     MeasurementType::Range => aer.range_km,
                     MeasurementType::Doppler => range_rate_km_s,
                     // Or return an error for unsupported types
-                    _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
+                    _ => {
+                        return Err(ODError::MeasurementSimError {
+                            details: format!("{msr_type:?} is not supported for interlink"),
+                        });
+                    }
                 } + noises[ii + 1];
                 msr.push(*msr_type, msr_value);
             }
@@ -215,7 +219,12 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
     }
 
     fn measurement_bias(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics =
+            self.stochastic_noises
+                .as_ref()
+                .ok_or_else(|| ODError::NoiseNotConfigured {
+                    kind: "stochastic noises for interlink transmitter".to_string(),
+                })?;
 
         if let Some(gm) = stochastics
             .get(&msr_type)
-- 
2.43.0


From 5efff312116d3a02b7bfe31843b7f1cbca0d95bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 102/113] fix: exporting a time span of a PNT solution also
 selects its gains and ratios

---
 nyx-core/src/od/groundpnt/solution.rs | 60 ++++++++++++++++-----------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/solution.rs b/nyx-core/src/od/groundpnt/solution.rs
index 0383580..4db70f3 100644
--- a/nyx-core/src/od/groundpnt/solution.rs
+++ b/nyx-core/src/od/groundpnt/solution.rs
@@ -257,31 +257,41 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
-            if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
-                // Must interpolate the data!
-                let start = cfg
-                    .start_epoch
-                    .unwrap_or_else(|| self.estimates.first().unwrap().state().epoch());
-                let end = cfg
-                    .end_epoch
-                    .unwrap_or_else(|| self.estimates.last().unwrap().state().epoch());
-
-                let mut residuals: Vec<Option<Residual<U2>>> =
-                    Vec::with_capacity(self.residuals.len());
-                let mut estimates = Vec::with_capacity(self.estimates.len());
-
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
-                    if estimate.epoch() >= start && estimate.epoch() <= end {
-                        estimates.push(*estimate);
-                        residuals.push(residual.clone());
-                    }
+        let (estimates, residuals, gains, filter_smoother_ratios) = if cfg.start_epoch.is_some()
+            || cfg.end_epoch.is_some()
+            || cfg.step.is_some()
+        {
+            // Must interpolate the data!
+            let start = cfg
+                .start_epoch
+                .unwrap_or_else(|| self.estimates.first().unwrap().state().epoch());
+            let end = cfg
+                .end_epoch
+                .unwrap_or_else(|| self.estimates.last().unwrap().state().epoch());
+
+            let mut residuals: Vec<Option<Residual<U2>>> = Vec::with_capacity(self.residuals.len());
+            let mut estimates = Vec::with_capacity(self.estimates.len());
+            let mut gains = Vec::with_capacity(self.gains.len());
+            let mut filter_smoother_ratios = Vec::with_capacity(self.filter_smoother_ratios.len());
+
+            for (i, estimate) in self.estimates.iter().enumerate() {
+                if estimate.epoch() >= start && estimate.epoch() <= end {
+                    estimates.push(*estimate);
+                    residuals.push(self.residuals[i].clone());
+                    gains.push(self.gains[i]);
+                    filter_smoother_ratios.push(self.filter_smoother_ratios[i]);
                 }
+            }
 
-                (estimates, residuals)
-            } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
-            };
+            (estimates, residuals, gains, filter_smoother_ratios)
+        } else {
+            (
+                self.estimates.to_vec(),
+                self.residuals.to_vec(),
+                self.gains.to_vec(),
+                self.filter_smoother_ratios.to_vec(),
+            )
+        };
 
         // Build all of the records
 
@@ -447,7 +457,7 @@ where
         for i in 0..state_items.len() {
             for j in 0..2 {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -461,7 +471,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..state_items.len() {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From b3483b06cddc0de805c3164cbc5ec5d34179ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 103/113] fix: PNT solutions with a single measurement type can
 be exported

---
 nyx-core/src/od/groundpnt/solution.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/groundpnt/solution.rs b/nyx-core/src/od/groundpnt/solution.rs
index 4db70f3..34c620b 100644
--- a/nyx-core/src/od/groundpnt/solution.rs
+++ b/nyx-core/src/od/groundpnt/solution.rs
@@ -455,7 +455,7 @@ where
 
         // Add the filter gains
         for i in 0..state_items.len() {
-            for j in 0..2 {
+            for j in 0..self.measurement_types.len() {
                 let mut data = Float64Builder::new();
                 for opt_k in &gains {
                     if let Some(k) = opt_k {
-- 
2.43.0


From 2935447b3988da25ebce42bfc9859f68bf22c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:33 +0000
Subject: [PATCH 104/113] fix: propagator configurations with a gravity field
 can be written as Dhall

---
 nyx-core/src/dynamics/sequence/config.rs | 7 +------
 nyx-core/src/io/gravity.rs               | 1 +
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/config.rs b/nyx-core/src/dynamics/sequence/config.rs
index 80adbce..165bc4c 100644
--- a/nyx-core/src/dynamics/sequence/config.rs
+++ b/nyx-core/src/dynamics/sequence/config.rs
@@ -15,7 +15,6 @@
     You should have received a copy of the GNU Affero General Public License
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
-use anise::frames::FrameUid;
 use anise::prelude::Almanac;
 use serde::{Deserialize, Serialize};
 use serde_dhall::{SimpleType, StaticType};
@@ -202,13 +201,9 @@ impl StaticType for AccelModels {
             SimpleType::Optional(Box::new(PointMasses::static_type())),
         );
 
-        #[allow(dead_code)]
-        #[derive(StaticType)]
-        struct GravityFieldDhall(GravityFieldConfig, FrameUid);
-
         fields.insert(
             "gravity_field".to_string(),
-            SimpleType::Optional(Box::new(GravityFieldDhall::static_type())),
+            SimpleType::Optional(Box::new(GravityFieldConfig::static_type())),
         );
 
         fields.insert(
diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index ec84c27..2ae45c8 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -542,6 +542,7 @@ impl StaticType for GravityFieldConfig {
         fields.insert("gunzipped".to_string(), bool::static_type());
         fields.insert("degree".to_string(), usize::static_type());
         fields.insert("order".to_string(), usize::static_type());
+        fields.insert("frame".to_string(), FrameUid::static_type());
 
         SimpleType::Record(fields)
     }
-- 
2.43.0


From 3019b4b8139e000c556d3b86d8ff78105038b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:18 +0000
Subject: [PATCH 105/113] fix: printed estimates list sigmas, not variances, in
 the unit they announce

---
 nyx-core/src/od/estimate/kfestimate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/estimate/kfestimate.rs b/nyx-core/src/od/estimate/kfestimate.rs
index 07e76fe..5073198 100644
--- a/nyx-core/src/od/estimate/kfestimate.rs
+++ b/nyx-core/src/od/estimate/kfestimate.rs
@@ -301,7 +301,8 @@ where
                 ""
             };
             // Convert from km to meter
-            let val = &self.covar[(i, i)] * 1e3;
+            let scale = if i < 6 { 1e3 } else { 1.0 };
+            let val = self.covar[(i, i)].sqrt() * scale;
             if val.abs() < 1e-3 {
                 fmt_cov.push(format!("{val:.6e} {unit}"));
             } else {
@@ -344,7 +345,7 @@ where
             } else {
                 ""
             };
-            fmt_cov.push(format!("{:e} {unit}", &self.covar[(i, i)]));
+            fmt_cov.push(format!("{:e} {unit}", self.covar[(i, i)].sqrt()));
         }
         write!(
             f,
-- 
2.43.0


From bf8c94368d5f655a77f4ffd245a7c1050725431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:38 +0000
Subject: [PATCH 106/113] fix: the outer Jacobian of multiple shooting has the
 right sign and all of its blocks

---
 nyx-core/src/md/opti/multipleshooting/multishoot.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/opti/multipleshooting/multishoot.rs b/nyx-core/src/md/opti/multipleshooting/multishoot.rs
index 263fe24..706a956 100644
--- a/nyx-core/src/md/opti/multipleshooting/multishoot.rs
+++ b/nyx-core/src/md/opti/multipleshooting/multishoot.rs
@@ -179,9 +179,9 @@ impl<T: MultishootNode<OT>, const VT: usize, const OT: usize> MultipleShooting<'
                     /* ***
                      ** 2.D. Compute the difference between the arrival and departure velocities and node i+1
                      ** *** */
-                    if i < self.targets.len() - 3 {
-                        let dv_ip1 = inner_sol_b.achieved_state.orbit.velocity_km_s
-                            - initial_states[i + 2].orbit.velocity_km_s;
+                    if i + 2 < self.targets.len() {
+                        let dv_ip1 = initial_states[i + 2].orbit.velocity_km_s
+                            - inner_sol_b.achieved_state.orbit.velocity_km_s;
                         // ∂Δv_x / ∂r_x
                         outer_jacobian[(3 * (i + 2), OT * i + axis)] =
                             dv_ip1[0] / next_node[axis].tolerance;
-- 
2.43.0


From f6f8ef764d5bff7e3d717474f7cb4ccab882e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:13 +0000
Subject: [PATCH 107/113] fix: Kluever steers the equinoctial h and k with the
 right radial component

---
 nyx-core/src/dynamics/guidance/kluever.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/kluever.rs b/nyx-core/src/dynamics/guidance/kluever.rs
index 95a9869..ab60a3b 100644
--- a/nyx-core/src/dynamics/guidance/kluever.rs
+++ b/nyx-core/src/dynamics/guidance/kluever.rs
@@ -222,7 +222,7 @@ impl GuidanceLaw for Kluever {
                     let k = sc
                         .value(StateParameter::Element(OrbitalElement::EquinoctialK))
                         .context(GuidStateSnafu)?;
-                    sum_weighted_num_alpha += weight * cos_l;
+                    sum_weighted_num_alpha += weight * (-cos_l);
                     sum_weighted_den_alpha +=
                         weight * (sin_l + (h + sin_l) / (1.0 + h * sin_l + k * cos_l));
                 }
@@ -235,7 +235,7 @@ impl GuidanceLaw for Kluever {
                     let k = sc
                         .value(StateParameter::Element(OrbitalElement::EquinoctialK))
                         .context(GuidStateSnafu)?;
-                    sum_weighted_num_alpha += weight * (-sin_l);
+                    sum_weighted_num_alpha += weight * sin_l;
                     sum_weighted_den_alpha +=
                         weight * (cos_l + (k + cos_l) / (1.0 + h * sin_l + k * cos_l));
                 }
-- 
2.43.0


From be9eaa7e1793783d255d032a1d6f3b979031afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:12 +0000
Subject: [PATCH 108/113] fix: report a state which is not a number instead of
 panicking in the step adaptation

---
 nyx-core/src/propagators/instance.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index f32d738..a85e84d 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -451,11 +451,13 @@ where
                         .error_ctrl
                         .estimate(&error_est, &next_state, state_vec);
 
-                if self.details.error <= self.prop.opts.tolerance
+                // A smaller step cannot be computed from an error which is not a number.
+                if self.details.error.is_nan()
+                    || self.details.error <= self.prop.opts.tolerance
                     || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
-                    if next_state.iter().any(|x| x.is_nan()) {
+                    if self.details.error.is_nan() || next_state.iter().any(|x| x.is_nan()) {
                         return Err(PropagationError::PropMathError {
                             source: MathError::DomainError {
                                 value: f64::NAN,
-- 
2.43.0


From 69cdf82ea470afc50b525057f4d85a15f9bafeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:56 +0000
Subject: [PATCH 109/113] fix: the angle rates of a maneuver are finite burn
 variables

Vary::is_finite_burn listed the angle accelerations twice instead of the
angle rates, so these were applied as position corrections.
---
 nyx-core/src/md/opti/target_variable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/target_variable.rs b/nyx-core/src/md/opti/target_variable.rs
index f6d0f3c..39e0d43 100644
--- a/nyx-core/src/md/opti/target_variable.rs
+++ b/nyx-core/src/md/opti/target_variable.rs
@@ -82,10 +82,10 @@ impl Vary {
     #[allow(clippy::nonminimal_bool)]
     pub fn is_finite_burn(&self) -> bool {
         *self == Self::MnvrAlpha
-            || *self == Self::MnvrAlphaDDot
+            || *self == Self::MnvrAlphaDot
             || *self == Self::MnvrAlphaDDot
             || *self == Self::MnvrDelta
-            || *self == Self::MnvrDeltaDDot
+            || *self == Self::MnvrDeltaDot
             || *self == Self::MnvrDeltaDDot
             || *self == Self::StartEpoch
             || *self == Self::Duration
-- 
2.43.0


From 78dff749496acec0ae1005ea9880f903a2f60dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:56 +0000
Subject: [PATCH 110/113] fix: trajectory files with columns of another type or
 null values are errors

Loading such a parquet file panicked, or made up states from null values.
---
 nyx-core/src/md/trajectory/sc_traj.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index 4e25e67..c6e372d 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -344,6 +344,10 @@ impl Traj<Spacecraft> {
         // At this stage, we know that the measurement is valid and the conversion is supported.
         let mut traj = Traj::default();
 
+        let bad_column = |column: &str| InputOutputError::UnsupportedData {
+            which: format!("type of column `{column}`"),
+        };
+
         // Now convert each batch on the fly
         for maybe_batch in reader {
             let batch = maybe_batch.context(ArrowSnafu {
@@ -355,7 +359,7 @@ impl Traj<Spacecraft> {
                 .unwrap()
                 .as_any()
                 .downcast_ref::<StringArray>()
-                .unwrap();
+                .ok_or_else(|| bad_column("Epoch (UTC)"))?;
 
             let mut shared_data = vec![];
             let guidance_mode_data = if has_guidance_mode {
@@ -365,7 +369,7 @@ impl Traj<Spacecraft> {
                         .unwrap()
                         .as_any()
                         .downcast_ref::<StringArray>()
-                        .unwrap(),
+                        .ok_or_else(|| bad_column("guidance_mode"))?,
                 )
             } else {
                 None
@@ -380,7 +384,7 @@ impl Traj<Spacecraft> {
                             .unwrap()
                             .as_any()
                             .downcast_ref::<Float64Array>()
-                            .unwrap(),
+                            .ok_or_else(|| bad_column(field.to_field(None).name()))?,
                     ));
                 }
             }
@@ -413,9 +417,17 @@ impl Traj<Spacecraft> {
                     });
                 }
 
-                for (param, data) in &shared_data {
+                for (sno, (param, data)) in shared_data.iter().enumerate() {
                     if data.is_valid(i) {
                         state.set_value(*param, data.value(i)).unwrap();
+                    } else {
+                        // The first six columns are the orbit, which is required.
+                        ensure!(
+                            sno >= 6,
+                            MissingDataSnafu {
+                                which: format!("`{}` in row {i}", param.to_field(None).name())
+                            }
+                        );
                     }
                 }
 
-- 
2.43.0


From f0651fc963c8bc86a44b77f087f49eff011b4b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:56 +0000
Subject: [PATCH 111/113] fix: TDM range units and angle types which are not
 supported are errors

These observations were read as kilometers, and as azimuths and elevations.
---
 .../src/od/msr/trackingdata/io_ccsds_tdm.rs     | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 9033ccd..a5038ff 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -151,6 +151,23 @@ impl TrackingDataArc {
                     }
                 }
 
+                if let Some((keyword, value)) = line.split_once('=') {
+                    let value = value.trim();
+                    match keyword.trim() {
+                        "RANGE_UNITS" if !value.eq_ignore_ascii_case("km") => {
+                            return Err(InputOutputError::UnsupportedData {
+                                which: format!("range units `{value}`, only km is supported"),
+                            });
+                        }
+                        "ANGLE_TYPE" if !value.eq_ignore_ascii_case("AZEL") => {
+                            return Err(InputOutputError::UnsupportedData {
+                                which: format!("angle type `{value}`, only AZEL is supported"),
+                            });
+                        }
+                        _ => {}
+                    }
+                }
+
                 let mut splt = line.split('=');
                 if let Some(keyword) = splt.nth(0) {
                     // Get the zeroth item again since we've consumed the first zeroth one.
-- 
2.43.0


From 28d73a0a689c45bfd456a1d243d0a855eb9bca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:56 +0000
Subject: [PATCH 112/113] fix: TDM metadata applies to its own segment and to
 the observations of the file

The corrections and turn-around ratio of the last segment were applied to all
segments, and the corrections of two-way observations were not halved with them.
---
 .../src/od/msr/trackingdata/io_ccsds_tdm.rs   | 154 ++++++++++--------
 1 file changed, 88 insertions(+), 66 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index a5038ff..662004a 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -102,8 +102,9 @@ impl TrackingDataArc {
         let mut in_data_section = false;
         let mut current_tracker = String::new();
         let mut time_system = TimeScale::UTC;
-        let mut has_freq_data = false;
         let mut msr_divider = 1.0;
+        // For each segment, index of its first measurement, its divider, and its own metadata.
+        let mut segments: Vec<(usize, f64, HashMap<String, String>)> = Vec::new();
 
         for line in reader.lines() {
             let line = line.context(StdIOSnafu {
@@ -111,8 +112,12 @@ impl TrackingDataArc {
             })?;
             let line = line.trim();
 
-            if line == "DATA_START" {
+            if line == "META_START" {
+                // The metadata only applies to its own segment.
+                metadata.clear();
+            } else if line == "DATA_START" {
                 in_data_section = true;
+                segments.push((measurements.len(), msr_divider, metadata.clone()));
                 continue;
             } else if line == "DATA_STOP" {
                 in_data_section = false;
@@ -189,7 +194,6 @@ impl TrackingDataArc {
                 ]
                 .contains(&mtype)
                 {
-                    has_freq_data = true;
                     1.0
                 } else if mtype.may_be_two_way() {
                     msr_divider
@@ -200,11 +204,15 @@ impl TrackingDataArc {
 
                 let scaled_value = value / effective_divider;
 
-                // If the last inserted measurement belongs to the exact same tracker
+                // If the last inserted measurement of this segment belongs to the exact same tracker
                 // and epoch, we append the sub-observable to its IndexMap.
-                let is_concurrent = measurements.last().is_some_and(|last: &Measurement| {
-                    last.epoch == epoch && last.tracker == current_tracker
-                });
+                let segment_start = segments.last().map_or(0, |segment| segment.0);
+                let is_concurrent =
+                    measurements[segment_start..]
+                        .last()
+                        .is_some_and(|last: &Measurement| {
+                            last.epoch == epoch && last.tracker == current_tracker
+                        });
 
                 if is_concurrent {
                     measurements
@@ -227,57 +235,6 @@ impl TrackingDataArc {
             }
         }
 
-        let mut turnaround_ratio = None;
-        let drop_freq_data;
-        if has_freq_data {
-            // If there is any frequency measurement, compute the turn-around ratio.
-            if let Some(ta_num_str) = metadata.get("TURNAROUND_NUMERATOR") {
-                if let Some(ta_denom_str) = metadata.get("TURNAROUND_DENOMINATOR") {
-                    if let Ok(ta_num) = ta_num_str.parse::<i32>() {
-                        if let Ok(ta_denom) = ta_denom_str.parse::<i32>() {
-                            // turn-around ratio is set.
-                            turnaround_ratio = Some(f64::from(ta_num) / f64::from(ta_denom));
-                            info!("turn-around ratio is {ta_num}/{ta_denom}");
-                            drop_freq_data = false;
-                        } else {
-                            error!(
-                                "turn-around denominator `{ta_denom_str}` is not a valid integer"
-                            );
-                            drop_freq_data = true;
-                        }
-                    } else {
-                        error!("turn-around numerator `{ta_num_str}` is not a valid integer");
-                        drop_freq_data = true;
-                    }
-                } else {
-                    error!(
-                        "required turn-around denominator missing from metadata -- dropping ALL RECEIVE/TRANSMIT data"
-                    );
-                    drop_freq_data = true;
-                }
-            } else {
-                error!(
-                    "required turn-around numerator missing from metadata -- dropping ALL RECEIVE/TRANSMIT data"
-                );
-                drop_freq_data = true;
-            }
-        } else {
-            drop_freq_data = true;
-        }
-
-        let corrections_applied = if let Some(corr_flag) = metadata.get("CORRECTIONS_APPLIED") {
-            match corr_flag.trim().to_lowercase().as_str() {
-                "no" => false,
-                "yes" => true,
-                _ => {
-                    warn!("invalid CORRECTIONS_APPLIED `{corr_flag}`");
-                    true
-                }
-            }
-        } else {
-            true
-        };
-
         // Now, let's convert the receive and transmit frequencies to Doppler measurements in velocity units.
         // We expect the transmit and receive frequencies to have the exact same timestamp.
         let mut freq_types = IndexSet::new();
@@ -291,10 +248,19 @@ impl TrackingDataArc {
 
         let mut all_applied_corrections = IndexSet::new();
 
-        for measurement in &mut measurements {
+        let mut segment_no = 0;
+        for (msr_no, measurement) in measurements.iter_mut().enumerate() {
             let epoch = measurement.epoch;
+            while segments
+                .get(segment_no + 1)
+                .is_some_and(|next| next.0 <= msr_no)
+            {
+                segment_no += 1;
+            }
+            let (_, divider, metadata) = &segments[segment_no];
+
             // Apply corrections if any
-            if !corrections_applied {
+            if !corrections_applied(metadata) {
                 for msr_type in [
                     MeasurementType::Range,
                     MeasurementType::Doppler,
@@ -307,7 +273,13 @@ impl TrackingDataArc {
                     let kw = format!("CORRECTION_{}", msr_type.ccsds_tdm_name());
                     if let Some(correction_str) = metadata.get(&kw) {
                         if let Ok(correction) = correction_str.parse::<f64>() {
-                            measurement.correct(msr_type, correction);
+                            // The corrections apply to the observations as they are in the file.
+                            let divider = if msr_type.may_be_two_way() {
+                                *divider
+                            } else {
+                                1.0
+                            };
+                            measurement.correct(msr_type, correction / divider);
                             all_applied_corrections.insert(msr_type);
                         } else {
                             warn!("invalid correction value for {kw}");
@@ -316,12 +288,19 @@ impl TrackingDataArc {
                 }
             }
 
-            if drop_freq_data {
+            if !freq_types
+                .iter()
+                .any(|freq| measurement.data.contains_key(freq))
+            {
+                continue;
+            }
+
+            let Some(turnaround_ratio) = turnaround_ratio(metadata) else {
                 for freq in &freq_types {
                     measurement.data.swap_remove(freq);
                 }
                 continue;
-            }
+            };
 
             // Update the transmit frequency and rate if they are set.
             if let Some(rate) = measurement
@@ -375,10 +354,10 @@ impl TrackingDataArc {
                 .unwrap();
 
             // Compute the Doppler shift, equation from section 3.5.2.8.2 of CCSDS TDM v2 specs
-            let doppler_shift_hz = transmit_freq_hz * turnaround_ratio.unwrap() - receive_freq_hz;
+            let doppler_shift_hz = transmit_freq_hz * turnaround_ratio - receive_freq_hz;
             // Compute the expected Doppler measurement as range-rate.
             let rho_dot_km_s = (doppler_shift_hz * SPEED_OF_LIGHT_KM_S)
-                / (2.0 * transmit_freq_hz * turnaround_ratio.unwrap());
+                / (2.0 * transmit_freq_hz * turnaround_ratio);
 
             // Finally, replace the frequency data with a Doppler measurement.
             for freq in &freq_types {
@@ -393,7 +372,11 @@ impl TrackingDataArc {
             info!("applied corrections for {all_applied_corrections:?}");
         }
 
-        let moduli = if let Some(range_modulus) = metadata.get("RANGE_MODULUS") {
+        let moduli = if let Some(range_modulus) = segments
+            .iter()
+            .rev()
+            .find_map(|(_, _, metadata)| metadata.get("RANGE_MODULUS"))
+        {
             if let Ok(value) = range_modulus.parse::<f64>() {
                 if value > 0.0 {
                     let mut modulos = IndexMap::new();
@@ -646,6 +629,45 @@ impl TrackingDataArc {
     }
 }
 
+/// Returns the turn-around ratio of this segment, or None (and logs the error) if it is not properly set.
+fn turnaround_ratio(metadata: &HashMap<String, String>) -> Option<f64> {
+    let mut items = [0.0; 2];
+    for (item, kw) in items
+        .iter_mut()
+        .zip(["TURNAROUND_NUMERATOR", "TURNAROUND_DENOMINATOR"])
+    {
+        match metadata.get(kw) {
+            Some(value) => match value.parse::<i32>() {
+                Ok(value) => *item = f64::from(value),
+                Err(_) => {
+                    error!("{kw} `{value}` is not a valid integer");
+                    return None;
+                }
+            },
+            None => {
+                error!("required {kw} missing from metadata -- dropping RECEIVE/TRANSMIT data");
+                return None;
+            }
+        }
+    }
+    Some(items[0] / items[1])
+}
+
+/// Returns whether the corrections of this segment are already applied to its data.
+fn corrections_applied(metadata: &HashMap<String, String>) -> bool {
+    match metadata.get("CORRECTIONS_APPLIED") {
+        Some(corr_flag) => match corr_flag.trim().to_lowercase().as_str() {
+            "no" => false,
+            "yes" => true,
+            _ => {
+                warn!("invalid CORRECTIONS_APPLIED `{corr_flag}`");
+                true
+            }
+        },
+        None => true,
+    }
+}
+
 fn parse_measurement_line(
     line: &str,
     time_system: TimeScale,
-- 
2.43.0


From 5aaa9712abfc1adb17643a6ed665ce796adf8803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:56 +0000
Subject: [PATCH 113/113] fix: the frequency offset of a TDM is added to its
 receive frequencies

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 662004a..18dd022 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -348,10 +348,22 @@ impl TrackingDataArc {
             let transmit_freq_hz =
                 latest_transmit_freq.unwrap() + latest_transmit_rate * dt.to_seconds();
 
+            // The frequency offset must be added to each receive frequency to reconstruct it.
+            let freq_offset_hz = match metadata.get("FREQ_OFFSET") {
+                Some(offset) => {
+                    offset
+                        .parse::<f64>()
+                        .map_err(|e| InputOutputError::UnsupportedData {
+                            which: format!("FREQ_OFFSET `{offset}` is not a float: {e}"),
+                        })?
+                }
+                None => 0.0,
+            };
             let receive_freq_hz = *measurement
                 .data
                 .get(&MeasurementType::ReceiveFrequency)
-                .unwrap();
+                .unwrap()
+                + freq_offset_hz;
 
             // Compute the Doppler shift, equation from section 3.5.2.8.2 of CCSDS TDM v2 specs
             let doppler_shift_hz = transmit_freq_hz * turnaround_ratio - receive_freq_hz;
-- 
2.43.0

