From 4c47424e060ffd3684c24b35f19e5d6334085d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 01/26] fix: recover the azimuthal angle on the whole circle
 (theta was wrong on the plane x = 0)

---
 src/spin.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/spin.rs b/src/spin.rs
index 571cad2..d864588 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -1,5 +1,3 @@
-use std::f64::consts::PI;
-
 ///Struct for storing a 3-dimensional normalised spin
 
 #[derive(Debug, Clone)]
@@ -133,11 +131,7 @@ impl Spin {
     }
 
     pub fn theta(&self) -> f64 {
-        (self.dir[1] / self.dir[0]).atan()
-            + match self.dir[0] {
-                x if x > 0.0 => 0.0,
-                _ => PI,
-            }
+        self.dir[1].atan2(self.dir[0])
     }
 
     pub fn phi(&self) -> f64 {
-- 
2.43.0


From ba12d0abc4ef360b51a709d38c416e628b8c432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 02/26] fix: a spin in zero field stays where it is instead of
 becoming NaN

---
 src/spin.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spin.rs b/src/spin.rs
index d864588..e59377c 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -165,6 +165,10 @@ impl Spin {
     #[inline]
     pub fn rotate(&mut self, field: &[f64; 3], dt: f64) {
         let fs: f64 = field.iter().map(|x| x * x).sum::<f64>().sqrt();
+        // No field, no precession: there is no axis to normalise
+        if fs == 0.0 {
+            return;
+        }
         let f: [f64; 3] = [field[0] / fs, field[1] / fs, field[2] / fs];
         let dts: f64 = fs * dt;
         let dc: f64 = dts.cos();
-- 
2.43.0


From f01b96c2f6395bf40cf950f760331f3d27e7d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 03/26] fix: charge the trial spin, not the old one, for the
 S^z term in the Magnus Metropolis update

---
 src/spinchain.rs          | 2 +-
 src/spinchain_langevin.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 39a3f59..de95350 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1037,7 +1037,7 @@ impl SpinChain {
 
         if index < self.vars.ssize as usize {
             de -= PI / self.vars.tau
-                * (s_j.dir[2]
+                * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
                             - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 365acf0..000bb1b 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -372,7 +372,7 @@ impl SpinChainLangevin {
 
         if index < self.vars.ssize as usize {
             de -= PI / self.vars.tau
-                * (s_j.dir[2]
+                * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
                             - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-- 
2.43.0


From eb64589323bed8e7f70135f74a6af9a9e57d54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 04/26] fix: square of Omega at site j+1 uses its own
 neighbours in the second-order Magnus update

---
 src/spinchain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index de95350..bbb0364 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -610,7 +610,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             ei2 -= s_jp1.dir[0]
                 * ((j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2])
@@ -791,7 +791,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             de2 -= s_jp1.dir[0]
                 * ((j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2])
-- 
2.43.0


From 6422e5e855f9d32a01e0bdecb8137a2f1c357c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 05/26] fix: the first Magnus correction is weighted by 1/(2
 omega), as documented, not omega/2

---
 src/spinchain.rs          | 4 ++--
 src/spinchain_langevin.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index bbb0364..c5fb2f5 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1000,7 +1000,7 @@ impl SpinChain {
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
         // But only if the field is non-zero at site j
         if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
+            ei -= self.vars.tau / (4.0 * PI)
                 * (s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
@@ -1036,7 +1036,7 @@ impl SpinChain {
         }
 
         if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
+            de -= self.vars.tau / (4.0 * PI)
                 * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 000bb1b..2580705 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -335,7 +335,7 @@ impl SpinChainLangevin {
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
         // But only if the field is non-zero at site j
         if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
+            ei -= self.vars.tau / (4.0 * PI)
                 * (s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
@@ -371,7 +371,7 @@ impl SpinChainLangevin {
         }
 
         if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
+            de -= self.vars.tau / (4.0 * PI)
                 * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-- 
2.43.0


From f4029c368d01914b9236b9d3941de3b32f952aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 06/26] fix: the Langevin boundary term includes the static
 field the end spins precess in

---
 src/spinchain_langevin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 2580705..a0e9074 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -550,19 +550,21 @@ impl SpinChainLangevin {
         let slsq: f64 = sq!(self.spins[ell - 1].dir);
 
         let h_e: [f64; 3] = self.h_ext(self.t);
+        let h_el: [f64; 3] = Self::sum_vec(&self.static_h[0], &h_e);
+        let h_er: [f64; 3] = Self::sum_vec(&self.static_h[ell - 1], &h_e);
 
         //Use macro to do these things later, for now just use vec
         //\Omega_1 = J_1 S_2 - B(t)
 
         let om_1: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_e[x])
+            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_el[x])
             .collect();
         let om_1_sq: f64 = sq!(om_1);
         let oms1: f64 = dot!(om_1, self.spins[0].dir);
 
         //\Omega_\ell = J_{\ell-1} S_{\ell-1} - B(t)
         let om_ell: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_e[x])
+            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_er[x])
             .collect();
         let om_ell_sq: f64 = sq!(om_ell);
         let omsell: f64 = dot!(om_ell, self.spins[ell - 1].dir);
-- 
2.43.0


From 9d018cdd69331611f6056f9a9b3c3d7e3c2d460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 07/26] fix: wait for the background writer, so every record
 reaches the file before exit

---
 src/obs.rs     | 20 ++++++++++++++++----
 src/writers.rs |  7 +++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f5c3cdc..a5e56f8 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -611,7 +611,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         .unwrap();
 
     let (tx, rx) = mpsc::channel();
-    write_in_bg(dyn_hist, rx);
+    let writing_thread = write_in_bg(dyn_hist, rx);
     let m = MultiProgress::new();
     let sty = ProgressStyle::default_bar()
         .template(
@@ -668,6 +668,9 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         });
     }
     m.join().unwrap();
+    // Close the channel, and wait for every record to reach the file
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 ///Generate ```sample_num``` samples via Monte Carlo and dynamical evolution to check that the
@@ -813,7 +816,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
         .open(evt_string)
         .unwrap();
 
-    write_in_bg(evt_file, rx);
+    let writing_thread = write_in_bg(evt_file, rx);
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -873,6 +876,9 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     }
 
     m.join().unwrap();
+    // Close the channel, and wait for every record to reach the file
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
@@ -1524,7 +1530,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1598,6 +1604,9 @@ pub fn run_mc_magnus(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    // Close the channel, and wait for every record to reach the file
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_mc_profile(conf: &mut Config) {
@@ -1715,7 +1724,7 @@ pub fn run_mc(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1789,4 +1798,7 @@ pub fn run_mc(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    // Close the channel, and wait for every record to reach the file
+    drop(tx);
+    writing_thread.join().unwrap();
 }
diff --git a/src/writers.rs b/src/writers.rs
index 23386a0..688cb4c 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,11 +1,14 @@
 use super::*;
 
-pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) {
+pub fn write_in_bg(
+    file: File,
+    rx: std::sync::mpsc::Receiver<String>,
+) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
         }
-    });
+    })
 }
 
 pub fn profile_in_bg(
-- 
2.43.0


From 1b99f504d472cc01d08516a40f2e9faa1f5e3f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 08/26] fix: find the stroboscopic steps by rounding, not
 truncating, the number of time steps

---
 src/obs.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index a5e56f8..9072ec2 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -492,7 +492,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let txc = mpsc::Sender::clone(&tx);
         let pb = m.add(ProgressBar::new((1000.0 * conf.tau) as u64));
         let steps: usize = (1000.0 * conf.tau / conf.dt) as usize;
-        let steps_in_cycle: usize = (conf.tau / conf.dt) as usize;
+        let steps_in_cycle: usize = (conf.tau / conf.dt).round() as usize;
         pb.set_style(sty.clone());
 
         let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
@@ -574,7 +574,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
         (steps as f64) * conf.dt
     );
     let mut step_count: u64 = 0;
-    let cycle_steps: u64 = (conf.tau / conf.dt) as u64;
+    let cycle_steps: u64 = (conf.tau / conf.dt).round() as u64;
 
     println!("Sample num: {}", sample_num);
     for _ in 0..init_steps {
@@ -912,7 +912,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
             }
             pb.reset_eta();
             //Round is necessary!
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -920,7 +920,9 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps)
+                        == 0
+                    {
                         spin_chain.log();
                     }
                 } else {
@@ -977,7 +979,8 @@ pub fn run_sim_response(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary!
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
             spin_chain.t = -spin_chain.vars.t;
@@ -990,7 +993,8 @@ pub fn run_sim_response(conf: &mut Config) {
                 }
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t.abs() / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps)
+                        == 0
                     {
                         spin_chain.log();
                     }
@@ -1048,7 +1052,8 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary!
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -1056,7 +1061,9 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps)
+                        == 0
+                    {
                         spin_chain.log();
                     }
                 } else {
@@ -1296,7 +1303,8 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary!
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -1304,7 +1312,9 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps)
+                        == 0
+                    {
                         spin_chain.log_ext();
                     }
                 } else {
-- 
2.43.0


From ff67c123b6ceaa0d2d0985830ed45e12013f93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 09/26] fix: read the drive type from the documented key
 drivetype

---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index 53d5ec8..6c58c01 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -60,6 +60,7 @@ pub struct Config {
     pub beta: f64,
     pub mc_points: usize,
     pub e: f64,
+    #[serde(alias = "drivetype")]
     pub drive: DriveType,
     pub log: bool,
 }
-- 
2.43.0


From 6c697ded14add34a7a7f06defa8fc5b78a9aec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 10/26] fix: --config-desc prints the documented description,
 which was empty

---
 src/config-desc.toml | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/config-desc.toml b/src/config-desc.toml
index e69de29..c78a3ca 100644
--- a/src/config-desc.toml
+++ b/src/config-desc.toml
@@ -0,0 +1,24 @@
+# Default config and description of options
+hsize = 512    # size of the system
+ssize = 8      # size of subsystem (driven part)
+t = 256.0      # final time of simulation
+dt = 0.02      # time-step for simulation
+runs = 2       # number runs to perform
+threads = 2    # number of parallel threads
+trel = 0.0     # minus initial time
+tau = 10.0     # period of drive
+lambda = 1.0   # value of J_z coupling
+hfield = [0.0, 0.0, 0.0] # constant h field on entire system
+hs = [0.0, 0.0, 0.0]     # constant h field on subsystem
+jvar = 0.001   # variance in J couplings (x, y, z independent)
+hvar = 0.0     # variance in field
+method = 2     # method for numerical integration (2=2nd order Suzuki-Trotter)
+ednsty = -0.66 # energy-density of initial state
+file = "log"   # pattern for log files i.e. log0.dat, log1.dat
+strob = false  # stroboscopic evaluation
+offset = 0     # first file i.e. log0.dat
+beta = 2.88    # beta (determined from ednsty)
+mc_points = 1000 # number of Monte-Carlo samples
+e = 0.9        # eccentricity (scale of y-drive if drivetype="xyelliptic")
+drivetype = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic", "staticfield", "none"
+log = true     # write log files
-- 
2.43.0


From ea23461740da2a320bb3bd6a92d21d6bb263f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 11/26] fix: a configuration file which exists but cannot be
 read is not replaced by the defaults

---
 src/spinchain.rs          | 8 ++++++--
 src/spinchain_langevin.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index c5fb2f5..8f2481e 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -12,7 +12,7 @@ use rustfft::{num_complex::Complex, FftPlanner};
 use std::f64::consts::PI;
 use std::fs;
 use std::fs::File;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 
 #[allow(unused_macros)]
 macro_rules! triplet {
@@ -77,7 +77,7 @@ pub struct SpinChain {
 
 impl SpinChain {
     /// Reads a configuration from a file.
-    /// If the file cannot be opened, write a config.toml with default values and use default
+    /// If the file does not exist, write a config.toml with default values and use default
     /// values
     pub fn read_config(filename: &str) -> Config {
         //Read files
@@ -93,6 +93,10 @@ impl SpinChain {
                     //Config::default()
                 }
             },
+            Err(e) if e.kind() != ErrorKind::NotFound => {
+                //Leave a file which is there, but cannot be read, alone
+                panic!("Problem reading {}: {:?}", filename, e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index a0e9074..250e2f8 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -17,7 +17,7 @@ use rand_distr::{Distribution, Normal, Uniform};
 use std::f64::consts::PI;
 use std::fs;
 use std::fs::File;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 
 macro_rules! sq {
     ($( $x:expr),*) => {
@@ -68,7 +68,7 @@ pub struct SpinChainLangevin {
 
 impl SpinChainLangevin {
     /// Reads a configuration from a file.
-    /// If the file cannot be opened, write a config.toml with default values and use default
+    /// If the file does not exist, write a config.toml with default values and use default
     /// values
     pub fn read_config(filename: &str) -> Config {
         //Read files
@@ -84,6 +84,10 @@ impl SpinChainLangevin {
                     //Config::default()
                 }
             },
+            Err(e) if e.kind() != ErrorKind::NotFound => {
+                //Leave a file which is there, but cannot be read, alone
+                panic!("Problem reading {}: {:?}", filename, e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
-- 
2.43.0


From 0f7de429d3eec04cc1febe18b607db7daa004695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 12/26] fix: a run moves the log offset in config.toml on, and
 keeps the other settings as they were

---
 src/obs.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 9072ec2..0b51738 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -794,6 +794,15 @@ pub fn gen_hist(conf: &mut Config, sample_num: usize) {
     pb.finish_with_message("Done");
 }
 
+///Moves the log offset on by ```num``` in config.toml, and leaves the other settings there alone:
+///those in ```conf``` may have been overridden for this run only
+fn advance_offset(conf: &mut Config, num: usize) {
+    conf.offset += num as u32;
+    let mut saved: Config = SpinChain::read_config("config.toml");
+    saved.offset = conf.offset;
+    fs::write("config.toml", toml::to_string(&saved).unwrap()).unwrap();
+}
+
 pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     let m = MultiProgress::new();
     let sty = ProgressStyle::default_bar()
@@ -942,8 +951,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
     m.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1015,8 +1023,7 @@ pub fn run_sim_response(conf: &mut Config) {
     m.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1083,8 +1090,7 @@ pub fn run_sim(conf: &mut Config) {
     m.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1266,8 +1272,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
     writing_thread_4000.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1334,8 +1339,7 @@ pub fn run_ext(conf: &mut Config) {
     m.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
-- 
2.43.0


From 14435cb4805b1da169a69d290ff976ce1c047f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 13/26] fix: the energy profile covers the whole chain, not
 only the driven sites

---
 src/spinchain.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 8f2481e..3d229bc 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1078,13 +1078,7 @@ impl SpinChain {
             .map(|x| SpinChain::sum_vec(&self.static_h[x], &h_e))
             .collect();
 
-        //for j in 1..(self.vars.hsize - 1) as usize {
-        for (j, _item) in h
-            .iter()
-            .enumerate()
-            .take((self.vars.hsize - 1) as usize)
-            .skip(1)
-        {
+        for j in 1..(self.vars.hsize - 1) as usize {
             let mut e_loc: f64 = 0.0;
             for k in 0..3 {
                 e_loc -= 0.5
-- 
2.43.0


From 4e1552be5693b58021c61ee23d593b340a0106f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 14/26] fix: averages skip the header line only, not the first
 row of a log without a header

---
 src/obs.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 0b51738..f0afa7c 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1343,6 +1343,14 @@ pub fn run_ext(conf: &mut Config) {
     println!("Finished {} runs", num);
 }
 
+///The lines of a log file which hold data i.e. all but the header, if it has one
+fn data_lines(reader: BufReader<File>) -> impl Iterator<Item = String> {
+    reader
+        .lines()
+        .map(|line| line.unwrap())
+        .filter(|line| !line.starts_with('#'))
+}
+
 pub fn two_point_average(conf: &mut Config) {
     println!("Calculating two-point-average");
 
@@ -1382,8 +1390,7 @@ pub fn two_point_average(conf: &mut Config) {
 
                     // First get the data at line 0
                     let reader = BufReader::new(file);
-                    for line in reader.lines().skip(1) {
-                        let line = line.unwrap();
+                    for line in data_lines(reader) {
                         let line_data: Vec<f64> = line
                             .split(' ')
                             .flat_map(str::parse::<f64>)
@@ -1399,10 +1406,7 @@ pub fn two_point_average(conf: &mut Config) {
                 let reader = BufReader::new(file);
 
                 //Run through line-by-line
-                //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
-                    let line = line.unwrap();
-
+                for (i, line) in data_lines(reader).enumerate() {
                     // Read line into appropriate vector
 
                     let mut line_data: Vec<f64> = line
@@ -1480,10 +1484,7 @@ pub fn average(conf: &mut Config) {
                 let reader = BufReader::new(file);
 
                 //Run through line-by-line
-                //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
-                    let line = line.unwrap();
-
+                for (i, line) in data_lines(reader).enumerate() {
                     //                    println!("Line {}: {}", i, &line);
                     // Read line into appropriate vector
 
-- 
2.43.0


From c4d4918d1e83a44b9147bcae7d5f7303c8604b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 15/26] fix: a Langevin chain with logging off leaves the log
 files alone

---
 src/spinchain_langevin.rs | 40 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 250e2f8..b16e78a 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -63,7 +63,7 @@ pub struct SpinChainLangevin {
     ///Configuration variables for the system
     pub vars: Config,
     ///Log file
-    file: std::fs::File,
+    file: Option<std::fs::File>,
 }
 
 impl SpinChainLangevin {
@@ -193,8 +193,14 @@ impl SpinChainLangevin {
             &[conf.file.clone(), num.to_string(), ".dat".to_string()].join("");
 
         //Log file
-        let file = File::create(conf_file_name).unwrap();
-        writeln!(&file, "#t E_total E_sub M_x M_y M_z").unwrap();
+        let file = match conf.log {
+            true => {
+                let file = File::create(conf_file_name).unwrap();
+                writeln!(&file, "#t E_total E_sub M_x M_y M_z").unwrap();
+                Some(file)
+            }
+            false => None,
+        };
         let t0: f64 = -conf.trel;
 
         SpinChainLangevin {
@@ -421,19 +427,21 @@ impl SpinChainLangevin {
         //Also calculate boundary terms
         let boundary_term: f64 = self.boundary_term();
 
-        writeln!(
-            &self.file,
-            "{} {} {} {} {} {} {} {}",
-            self.t,
-            es,
-            e,
-            m[0] / s,
-            m[1] / s,
-            m[2] / s,
-            mt[2] / self.vars.hsize as f64,
-            boundary_term
-        )
-        .unwrap();
+        if let Some(mut f) = self.file.as_ref() {
+            writeln!(
+                f,
+                "{} {} {} {} {} {} {} {}",
+                self.t,
+                es,
+                e,
+                m[0] / s,
+                m[1] / s,
+                m[2] / s,
+                mt[2] / self.vars.hsize as f64,
+                boundary_term
+            )
+            .unwrap()
+        };
     }
 
     /// Returns the energy of two spins coupled with j i.e. spin1.j.spin2
-- 
2.43.0


From 254df82ad58fb1c39960da37ea203635009cf509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 16/26] fix: modes which write no log do not empty the logs of
 earlier runs

---
 src/obs.rs | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f0afa7c..b5eb35c 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1,7 +1,16 @@
 use super::*;
 
+///The configuration for a chain which writes no log of its own, and so must not create (and empty)
+///one
+fn without_log(conf: &Config) -> Config {
+    Config {
+        log: false,
+        ..conf.clone()
+    }
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -20,7 +29,7 @@ pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -39,7 +48,7 @@ pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -57,7 +66,7 @@ pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
     e_samples.iter().fold(0.0, |acc, x| acc + x) / (samples as f64)
 }
 pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -78,7 +87,7 @@ pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
 }
 pub fn estim_eh(conf: &mut Config, beta: f64) -> f64 {
     // let omega: f64 = 2.0 * PI / conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -281,7 +290,7 @@ pub fn get_obs_maglab(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -315,7 +324,7 @@ pub fn get_obs_rot(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -348,7 +357,7 @@ pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -379,7 +388,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -412,7 +421,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
 pub fn gen_hist_magnus(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
     let s: f64 = sc.vars.ssize as f64;
 
     let mc_hist = OpenOptions::new()
@@ -495,7 +504,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let steps_in_cycle: usize = (conf.tau / conf.dt).round() as usize;
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
         pool.execute(move || {
             pb.set_message(format!("run {}", i));
@@ -551,7 +560,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //Then sample every 10 cycles?
     let offset: f64 = 30.0;
     let final_t: f64 = (sample_num as f64 + offset) * conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
     let pb = ProgressBar::new(final_t as u64);
     let sty = ProgressStyle::default_bar()
@@ -641,7 +650,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         let pb = m.add(ProgressBar::new(conf.t as u64));
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
         //        sc.file = f.try_clone().unwrap();
 
         pool.execute(move || {
@@ -679,7 +688,7 @@ pub fn gen_hist(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(without_log(conf), 0);
 
     let mc_hist = OpenOptions::new()
         .create(true)
@@ -1573,7 +1582,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(without_log(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1665,7 +1674,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(without_log(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1767,7 +1776,7 @@ pub fn run_mc(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(without_log(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
-- 
2.43.0


From a181ab3ae7354fb3e35aba107e0c933ebb157f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 17/26] fix: --n-steps moves the log offset past the logs it
 wrote, so the next run keeps them

---
 src/obs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obs.rs b/src/obs.rs
index b5eb35c..4fab4e1 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -897,6 +897,9 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     // Close the channel, and wait for every record to reach the file
     drop(tx);
     writing_thread.join().unwrap();
+
+    //Update config
+    advance_offset(conf, taus.len());
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
-- 
2.43.0


From f016306169014698eab7034377e08fb87a0c8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 18/26] fix: a profile is written from the records there are,
 instead of waiting for ever for the rest

---
 src/obs.rs     | 29 ++++++++++++++++++++---------
 src/writers.rs | 17 ++++++++---------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 4fab4e1..4f51c3f 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1139,14 +1139,14 @@ pub fn run_dyn_profile(conf: &mut Config) {
     let (tx_3000, rx_3000) = mpsc::channel();
     let (tx_3500, rx_3500) = mpsc::channel();
     let (tx_4000, rx_4000) = mpsc::channel();
-    let writing_thread_500 = profile_in_bg(file_500, rx_500, conf.hsize as usize, num);
-    let writing_thread_1000 = profile_in_bg(file_1000, rx_1000, conf.hsize as usize, num);
-    let writing_thread_1500 = profile_in_bg(file_1500, rx_1500, conf.hsize as usize, num);
-    let writing_thread_2000 = profile_in_bg(file_2000, rx_2000, conf.hsize as usize, num);
-    let writing_thread_2500 = profile_in_bg(file_2500, rx_2500, conf.hsize as usize, num);
-    let writing_thread_3000 = profile_in_bg(file_3000, rx_3000, conf.hsize as usize, num);
-    let writing_thread_3500 = profile_in_bg(file_3500, rx_3500, conf.hsize as usize, num);
-    let writing_thread_4000 = profile_in_bg(file_4000, rx_4000, conf.hsize as usize, num);
+    let writing_thread_500 = profile_in_bg(file_500, rx_500, conf.hsize as usize);
+    let writing_thread_1000 = profile_in_bg(file_1000, rx_1000, conf.hsize as usize);
+    let writing_thread_1500 = profile_in_bg(file_1500, rx_1500, conf.hsize as usize);
+    let writing_thread_2000 = profile_in_bg(file_2000, rx_2000, conf.hsize as usize);
+    let writing_thread_2500 = profile_in_bg(file_2500, rx_2500, conf.hsize as usize);
+    let writing_thread_3000 = profile_in_bg(file_3000, rx_3000, conf.hsize as usize);
+    let writing_thread_3500 = profile_in_bg(file_3500, rx_3500, conf.hsize as usize);
+    let writing_thread_4000 = profile_in_bg(file_4000, rx_4000, conf.hsize as usize);
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -1274,6 +1274,15 @@ pub fn run_dyn_profile(conf: &mut Config) {
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    // Close the channels, so that the writing threads finish
+    drop(tx_500);
+    drop(tx_1000);
+    drop(tx_1500);
+    drop(tx_2000);
+    drop(tx_2500);
+    drop(tx_3000);
+    drop(tx_3500);
+    drop(tx_4000);
     writing_thread_500.join().unwrap();
     writing_thread_1000.join().unwrap();
     writing_thread_1500.join().unwrap();
@@ -1649,7 +1658,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    let writing_thread = profile_in_bg(file, rx, conf.hsize as usize, points);
+    let writing_thread = profile_in_bg(file, rx, conf.hsize as usize);
 
     // Create storage for the points
     /*
@@ -1733,6 +1742,8 @@ pub fn run_mc_profile(conf: &mut Config) {
     }
     m.join().unwrap();
     println!("Joined m threads");
+    // Close the channel, so that the writing thread finishes
+    drop(tx);
     writing_thread.join().unwrap();
 }
 
diff --git a/src/writers.rs b/src/writers.rs
index 688cb4c..0b5cf86 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -15,17 +15,15 @@ pub fn profile_in_bg(
     file: File,
     rx: std::sync::mpsc::Receiver<String>,
     size: usize,
-    pts: usize,
 ) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         let mut e_vec_mu: Vec<f64> = vec![0.0; size];
         let mut mx_vec_mu: Vec<f64> = vec![0.0; size];
         let mut my_vec_mu: Vec<f64> = vec![0.0; size];
         let mut mz_vec_mu: Vec<f64> = vec![0.0; size];
-        // Issues with hanging to join threads: how to fix?
-        //        for received in rx {
-        for _ in 0..(size * pts) {
-            let received = rx.recv().unwrap();
+        let mut num_vec: Vec<f64> = vec![0.0; size];
+        // The records end when every sender has been dropped, however many there were
+        for received in rx {
             let v: Vec<&str> = received.split(' ').collect();
             //            println!("{:?}",v);
             let index: usize = v[0].parse::<usize>().unwrap();
@@ -34,6 +32,7 @@ pub fn profile_in_bg(
             let sy: f64 = v[3].parse::<f64>().unwrap();
             let sz: f64 = v[4].parse::<f64>().unwrap();
 
+            num_vec[index] += 1.0;
             e_vec_mu[index] += e;
             mx_vec_mu[index] += sx;
             my_vec_mu[index] += sy;
@@ -41,10 +40,10 @@ pub fn profile_in_bg(
         }
         println!("Now writing data");
         for i in 0..size {
-            let mu_e: f64 = e_vec_mu[i] / (pts as f64);
-            let mu_x: f64 = mx_vec_mu[i] / (pts as f64);
-            let mu_y: f64 = my_vec_mu[i] / (pts as f64);
-            let mu_z: f64 = mz_vec_mu[i] / (pts as f64);
+            let mu_e: f64 = e_vec_mu[i] / num_vec[i];
+            let mu_x: f64 = mx_vec_mu[i] / num_vec[i];
+            let mu_y: f64 = my_vec_mu[i] / num_vec[i];
+            let mu_z: f64 = mz_vec_mu[i] / num_vec[i];
             writeln!(&file, "{} {} {} {} {}", i, mu_e, mu_x, mu_y, mu_z).unwrap();
         }
     })
-- 
2.43.0


From c8d2456013f8f9716c2bf576d38452c401055198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 19/26] fix: beta is set before the first mode runs, not after
 half of them

---
 src/main.rs    | 14 +++++++-------
 src/writers.rs |  5 +----
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 66cfb01..553c0e3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -147,6 +147,13 @@ fn main() {
         conf.tau = tau;
     }
 
+    if let Some(beta) = args.beta {
+        //        println!("Overriding to: {}", b);
+        conf.beta = beta;
+    } else {
+        conf.beta = SpinChain::solve_beta(conf.ednsty);
+    }
+
     match args.config_desc {
         false => {}
         true => {
@@ -378,13 +385,6 @@ fn main() {
         default = false;
     }
 
-    if let Some(beta) = args.beta {
-        //        println!("Overriding to: {}", b);
-        conf.beta = beta;
-    } else {
-        conf.beta = SpinChain::solve_beta(conf.ednsty);
-    }
-
     if let Some(points) = args.hist {
         let points = points.unwrap_or(8000_usize);
 
diff --git a/src/writers.rs b/src/writers.rs
index 0b5cf86..b9938f2 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,9 +1,6 @@
 use super::*;
 
-pub fn write_in_bg(
-    file: File,
-    rx: std::sync::mpsc::Receiver<String>,
-) -> thread::JoinHandle<()> {
+pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
-- 
2.43.0


From 066964cb9827bd510963321d3dddf48492538752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 20/26] fix: --n-steps takes the comma-separated list, and
 --magnus-fit the negative energy density, of the usage

---
 src/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 553c0e3..5da5ac9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -77,7 +77,12 @@ struct Args {
     config_desc: bool,
 
     ///Generate single-shot time-evolution at different drive periods tau
-    #[clap(long = "n-steps", short, value_name = "TAU1,TAU2,...")]
+    #[clap(
+        long = "n-steps",
+        short,
+        value_delimiter = ',',
+        value_name = "TAU1,TAU2,..."
+    )]
     n_steps_taus: Option<Vec<f64>>,
 
     ///Find adiabatic ensemble H-\\omega S^z
@@ -102,7 +107,12 @@ struct Args {
     ext: bool,
 
     /// Fit temperature of Monte-Carlo ensemble with energy density E in lab frame, leading Magnus
-    #[clap(short = 'E', long = "magnus-fit", value_name = "E")]
+    #[clap(
+        short = 'E',
+        long = "magnus-fit",
+        value_name = "E",
+        allow_hyphen_values = true
+    )]
     maglab: Option<f64>, //E
 
     //Set step limit when doing n-steps
-- 
2.43.0


From 3892ec4e3669aec5d2e53c4dfe414170a4a34100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 21/26] fix: measured lab-frame Magnus energy is that of its
 sampler

mc_system_energy_maglab added the rotating-frame anisotropy correction, which
its own sampler's energy change (and the lab-frame expansion) does not have.
---
 src/spinchain.rs | 58 ------------------------------------------------
 1 file changed, 58 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 3d229bc..001d699 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1494,64 +1494,6 @@ impl SpinChain {
             e += -self.spins[i].dir[2] / (2.0 * om);
         }
 
-        let mut mg: f64 = 0.0;
-        // Now for correction term
-        for index in 0..h {
-            let s_c: &Spin = &self.spins[index];
-            let s_l: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 1],
-                _ => &self.spins[index - 1],
-            };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
-
-            let s_r: &Spin = match index {
-                _ if index == h - 1 => &self.spins[0],
-                _ => &self.spins[index + 1],
-            };
-
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
-            let j_l: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 1],
-            };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
-
-            let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
-
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
-            mg += (j_l[1] - j_l[0])
-                * (j_r[1] - j_r[0])
-                * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
-        }
-
-        e -= mg / (16.0 * om);
-
         e / (h as f64)
     }
 
-- 
2.43.0


From e8316afd0922e3b5a9263fd4a1511ca9acdc2917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 22/26] fix: measured rotating-frame Magnus energy counts each
 bond and triple once

mc_system_energy_rot summed the terms of three neighbouring triples at every
site, so bonds counted twice and triples three times, while the energy change
of its sampler counts each once.
---
 src/spinchain.rs | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 001d699..5c6a6e9 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1537,59 +1537,28 @@ impl SpinChain {
         }
 
         let mut mg: f64 = 0.0;
-        // Now for correction term
+        // Now for correction term: each bond and each triple of neighbours once
         for index in 0..h {
             let s_c: &Spin = &self.spins[index];
             let s_l: &Spin = match index {
                 _ if index == 0 => &self.spins[h - 1],
                 _ => &self.spins[index - 1],
             };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
-
             let s_r: &Spin = match index {
                 _ if index == h - 1 => &self.spins[0],
                 _ => &self.spins[index + 1],
             };
 
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
             let j_l: &[f64; 3] = match index {
                 _ if index == 0 => &self.j_couple[h - 1],
                 _ => &self.j_couple[index - 1],
             };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
-
             let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
-
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
             mg += (j_l[1] - j_l[0])
                 * (j_r[1] - j_r[0])
                 * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
         }
 
         e -= mg / (16.0 * om);
-- 
2.43.0


From 59d3f1356450a066d3d5412a5f300de01fdda873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 23/26] fix: modes after --ext number their logs after those it
 wrote

---
 src/main.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5da5ac9..8eab905 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -173,7 +173,6 @@ fn main() {
     }
     if args.ext {
         println!("Generating ext");
-        let mut conf = conf.clone();
         run_ext(&mut conf);
         default = false;
     }
-- 
2.43.0


From 2650ac4a2ec71413fe958d5ac69b80ae88da740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:11 +0000
Subject: [PATCH 24/26] fix: first-order Magnus moves weigh every driven site's
 term which the spin is part of

A flip of the spin next to the driven part changes the correction of the
driven spin at its edge, but was accepted without it (and on a fully driven
chain, the ends likewise), so moves on the two sides of the edge had no common
energy and broke detailed balance.
---
 src/spinchain.rs          | 100 +++++++++++++++++++++-----------------
 src/spinchain_langevin.rs | 100 +++++++++++++++++++++-----------------
 2 files changed, 110 insertions(+), 90 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 5c6a6e9..c67ee4e 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1002,29 +1002,35 @@ impl SpinChain {
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
+        // But each of them is there only if the field is non-zero at its own site
+        let driven: usize = self.vars.ssize as usize;
+        let left: usize = (index + s - 1) % s;
+        let right: usize = (index + 1) % s;
+        if index < driven || left < driven || right < driven {
             ei -= self.vars.tau / (4.0 * PI)
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+                * (match index {
+                    _ if index >= driven => 0.0,
+                    _ => {
+                        s_j.dir[2]
+                            + 2.0
+                                * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
+                                    - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0])
+                                        * s_j.dir[2])
+                    }
+                } + 2.0
+                    * (match index {
+                        _ if left >= driven => 0.0,
+                        _ => {
+                            (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                                - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]
+                        }
+                    } + match index {
+                        _ if right >= driven => 0.0,
+                        _ => {
+                            (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                                - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]
+                        }
+                    }));
         }
 
         // Select random angles
@@ -1039,30 +1045,34 @@ impl SpinChain {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
+        if index < driven || left < driven || right < driven {
             de -= self.vars.tau / (4.0 * PI)
-                * (new_spin.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+                * (match index {
+                    _ if index >= driven => 0.0,
+                    _ => {
+                        new_spin.dir[2]
+                            + 2.0
+                                * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2])
+                                    * new_spin.dir[0]
+                                    - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0])
+                                        * new_spin.dir[2])
+                    }
+                } + 2.0
+                    * (match index {
+                        _ if left >= driven => 0.0,
+                        _ => {
+                            (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                                - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
+                                    * s_jm1.dir[2]
+                        }
+                    } + match index {
+                        _ if right >= driven => 0.0,
+                        _ => {
+                            (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                                - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
+                                    * s_jp1.dir[2]
+                        }
+                    }));
         }
         // Evaluate energy difference
         // Metropolis-Hastings acceptance/rejection:
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index b16e78a..0a77fdd 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -343,29 +343,35 @@ impl SpinChainLangevin {
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
+        // But each of them is there only if the field is non-zero at its own site
+        let driven: usize = self.vars.ssize as usize;
+        let left: usize = (index + s - 1) % s;
+        let right: usize = (index + 1) % s;
+        if index < driven || left < driven || right < driven {
             ei -= self.vars.tau / (4.0 * PI)
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+                * (match index {
+                    _ if index >= driven => 0.0,
+                    _ => {
+                        s_j.dir[2]
+                            + 2.0
+                                * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
+                                    - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0])
+                                        * s_j.dir[2])
+                    }
+                } + 2.0
+                    * (match index {
+                        _ if left >= driven => 0.0,
+                        _ => {
+                            (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                                - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]
+                        }
+                    } + match index {
+                        _ if right >= driven => 0.0,
+                        _ => {
+                            (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                                - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]
+                        }
+                    }));
         }
 
         // Select random angles
@@ -380,30 +386,34 @@ impl SpinChainLangevin {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
+        if index < driven || left < driven || right < driven {
             de -= self.vars.tau / (4.0 * PI)
-                * (new_spin.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+                * (match index {
+                    _ if index >= driven => 0.0,
+                    _ => {
+                        new_spin.dir[2]
+                            + 2.0
+                                * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2])
+                                    * new_spin.dir[0]
+                                    - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0])
+                                        * new_spin.dir[2])
+                    }
+                } + 2.0
+                    * (match index {
+                        _ if left >= driven => 0.0,
+                        _ => {
+                            (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                                - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
+                                    * s_jm1.dir[2]
+                        }
+                    } + match index {
+                        _ if right >= driven => 0.0,
+                        _ => {
+                            (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                                - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
+                                    * s_jp1.dir[2]
+                        }
+                    }));
         }
         // Evaluate energy difference
 
-- 
2.43.0


From fac988c985e9d594758ecf4ea13f9530e321110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:17 +0000
Subject: [PATCH 25/26] fix: initial states at infinite temperature are no
 longer NaN (zero divided by zero)

---
 src/spinchain.rs          | 11 ++++++++---
 src/spinchain_langevin.rs | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index c67ee4e..838c8b7 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -155,9 +155,14 @@ impl SpinChain {
                 ];
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
-
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                // which is flat in \cos\theta at infinite temperature
+
+                let u: f64 = unif.sample(&mut r);
+                let rot_angle: f64 = if beta_eff == 0.0 {
+                    (1.0 - 2.0 * u).acos()
+                } else {
+                    ((b_e - u * (b_e - b_ei)).ln() / beta_eff).acos()
+                };
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 0a77fdd..ea7284c 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -146,9 +146,14 @@ impl SpinChainLangevin {
                 ];
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
-
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                // which is flat in \cos\theta at infinite temperature
+
+                let u: f64 = unif.sample(&mut r);
+                let rot_angle: f64 = if beta_eff == 0.0 {
+                    (1.0 - 2.0 * u).acos()
+                } else {
+                    ((b_e - u * (b_e - b_ei)).ln() / beta_eff).acos()
+                };
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
-- 
2.43.0


From 00f4e564e6604e85b55b36e1adc297f7065c8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:14 +0000
Subject: [PATCH 26/26] fix: start states at inverse temperatures beyond 709
 are no longer NaN (overflow)

---
 src/spinchain.rs          | 8 +++++---
 src/spinchain_langevin.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 838c8b7..be2e176 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -133,8 +133,10 @@ impl SpinChain {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
+        // The weight of the direction opposite to the last spin relative to that along it (at
+        // negative temperatures the other way round), which never overflows
+        let b_abs: f64 = beta_eff.abs();
+        let b_e: f64 = (-2.0 * b_abs).exp();
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -161,7 +163,7 @@ impl SpinChain {
                 let rot_angle: f64 = if beta_eff == 0.0 {
                     (1.0 - 2.0 * u).acos()
                 } else {
-                    ((b_e - u * (b_e - b_ei)).ln() / beta_eff).acos()
+                    (beta_eff.signum() * (1.0 + (1.0 - u * (1.0 - b_e)).ln() / b_abs)).acos()
                 };
 
                 // Rotate by \theta about random direction
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index ea7284c..16690a2 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -124,8 +124,10 @@ impl SpinChainLangevin {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
+        // The weight of the direction opposite to the last spin relative to that along it (at
+        // negative temperatures the other way round), which never overflows
+        let b_abs: f64 = beta_eff.abs();
+        let b_e: f64 = (-2.0 * b_abs).exp();
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -152,7 +154,7 @@ impl SpinChainLangevin {
                 let rot_angle: f64 = if beta_eff == 0.0 {
                     (1.0 - 2.0 * u).acos()
                 } else {
-                    ((b_e - u * (b_e - b_ei)).ln() / beta_eff).acos()
+                    (beta_eff.signum() * (1.0 + (1.0 - u * (1.0 - b_e)).ln() / b_abs)).acos()
                 };
 
                 // Rotate by \theta about random direction
-- 
2.43.0

