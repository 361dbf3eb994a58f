From 512c832eea32f0bc21fea3cd784887dc8eca5941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 01/22] fix: square the out-of-plane component in the net
 acceleration load

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 3aab595..ba94969 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2092,7 +2092,7 @@ class Vehicle:
 		acc_w = self.a_wvectorized(rc, thetac, phic, vc, delta)
 
 		acc_net = np.zeros(index)
-		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]*2.0)
+		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]**2.0)
 		acc_net_g = acc_net / self.planetObj.EARTHG
 
 		return acc_net_g
-- 
2.43.0


From f8dae0a098a6a3da117765a1d3d8a21e12687fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 02/22] fix: use float() in computeMachScalar, np.float no
 longer exists

---
 AMAT/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index ba94969..a95d039 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2233,9 +2233,9 @@ class Vehicle:
 			Mach no.
 		
 		"""
-		stat_pres = np.float(self.planetObj.pressure_int(r - self.planetObj.RP))
-		stat_temp = np.float(self.planetObj.temp_int(r - self.planetObj.RP))
-		sonic_spd = np.float(self.planetObj.sonic_int(r - self.planetObj.RP))
+		stat_pres = float(self.planetObj.pressure_int(r - self.planetObj.RP))
+		stat_temp = float(self.planetObj.temp_int(r - self.planetObj.RP))
+		sonic_spd = float(self.planetObj.sonic_int(r - self.planetObj.RP))
 		mach = v/sonic_spd
 
 		return mach
-- 
2.43.0


From e00e24b4ef8d2735a3848f36d858d3eb28c0c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 03/22] fix: take the specific heat ratio from the planet in
 computeStagTemp

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index a95d039..6ab76f5 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2263,7 +2263,7 @@ class Vehicle:
 		sonic_spd = self.planetObj.sonicvectorized(rc)
 		mach[:] = vc[:]/sonic_spd[:]
 		stag_temp = np.zeros(len(rc))
-		stag_temp[:] = stat_temp[:]*(1+0.5*(self.CPCV-1)*mach[:]**2.0)
+		stag_temp[:] = stat_temp[:]*(1+0.5*(self.planetObj.CPCV-1)*mach[:]**2.0)
 
 		return stag_temp
 
-- 
2.43.0


From 38370ee403c9320c2f017011ed01ef07b3c915a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:19 +0000
Subject: [PATCH 04/22] fix: accumulate the stagnation-point heat load from its
 initial value

cumulative_trapezoid inserts `initial` as the first sample instead of adding it
(and recent SciPy rejects a non-zero value), so continuing a trajectory with a
non-zero heat load raised ValueError or restarted the load from zero.
---
 AMAT/vehicle.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 6ab76f5..9626b1c 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2512,7 +2512,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
+		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=0) + self.heatLoad0
 
 	def propogateEntry2(self, t_sec, dt, delta_deg):
 		"""
@@ -2599,7 +2599,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=self.heatLoad0)
+		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=0) + self.heatLoad0
 
 	def dummyVehicle(self, density_mes_int):
 		"""
@@ -2779,7 +2779,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total , tc, initial=heatLoad0)
+		heatload = cumulative_trapezoid(q_stag_total , tc, initial=0) + heatLoad0
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -2936,7 +2936,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, initial=heatLoad0)
+		heatload = cumulative_trapezoid(q_stag_total, tc, initial=0) + heatLoad0
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -6686,7 +6686,7 @@ class Vehicle:
 		q_stag_total    = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
 		heatload        = cumulative_trapezoid(q_stag_total , tc, \
-			initial=0)
+			initial=0) + heatLoad0
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 			   gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -6858,7 +6858,7 @@ class Vehicle:
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
 		heatload = cumulative_trapezoid(q_stag_total, tc, \
-							initial=heatLoad0)
+							initial=0) + heatLoad0
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 			   gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
-- 
2.43.0


From 2ad5ed8a4fb297b81e4e12b65d8de5ea4733b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:19 +0000
Subject: [PATCH 05/22] fix: carry the accumulated heat load between exit phase
 steps

---
 AMAT/vehicle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 9626b1c..bd03547 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5317,6 +5317,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]        # Entry heading angle
 			gamma0_deg = gamma_deg[-1]      # Entry flight path angle
 			drange0_km = drange_km[-1]      # Downrange
+			Ji = heatload[-1]                # Heat load at the start of this step
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -5506,6 +5507,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]  # Entry heading angle
 			gamma0_deg = gamma_deg[-1]  # Entry flight path angle
 			drange0_km = drange_km[-1]  # Downrange
+			Ji = heatload[-1]                # Heat load at the start of this step
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -6931,6 +6933,7 @@ class Vehicle:
 			psi0_deg    = psi_deg[-1]        # Entry heading angle 
 			gamma0_deg  = gamma_deg[-1]      # Entry flight path angle 
 			drange0_km  = drange_km[-1]      # Downrange
+			Ji = heatload[-1]                # Heat load at the start of this step
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -7124,6 +7127,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]  # Entry heading angle
 			gamma0_deg = gamma_deg[-1]  # Entry flight path angle
 			drange0_km = drange_km[-1]  # Downrange
+			Ji = heatload[-1]                # Heat load at the start of this step
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
-- 
2.43.0


From ebfa909e31c56181b39c9d338dcb8fb521c0236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:19 +0000
Subject: [PATCH 06/22] fix: reach commanded bank angles that are within the
 roll rate limit

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index bd03547..1462bf7 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4568,7 +4568,7 @@ class Vehicle:
 			# so as to achieve the desired bank angle at the 
 			# end of the guidance cycle.
 			bankRate = np.abs(DeltaCMD_deg_command - Delta_deg_ini) / timestep
-			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*self.maxRollRate*timestep
+			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*bankRate*timestep
 			Delta_deg_ini = DeltaCMD_deg
 
 		return DeltaCMD_deg, Delta_deg_ini
-- 
2.43.0


From 9c463ba2b8c4dc243d3ebb9e1649255ad22d02ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 07/22] fix: update the current speed that ends the entry
 phases at v_switch

---
 AMAT/vehicle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 1462bf7..59dbaf8 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4992,7 +4992,7 @@ class Vehicle:
 			counter+=1
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -5226,7 +5226,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6164,7 +6164,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6376,7 +6376,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
-- 
2.43.0


From d67802cd465fe889b2d4b365105defd2e2d490ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 08/22] fix: predict apoapsis with the same solver in
 propogateEquilibriumGlide2

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 59dbaf8..4c35a87 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5208,7 +5208,7 @@ class Vehicle:
 
 			if hdoti > self.hdot_threshold:
 				terminal_apoapsis_km = \
-					self.predictApoapsisAltitudeKm_withLiftUp(h_km[-1],
+					self.predictApoapsisAltitudeKm_withLiftUp2(h_km[-1],
 															  theta_deg[-1], phi_deg[-1], v_kms[-1], gamma_deg[-1],
 															  psi_deg[-1], drange_km[-1], heatload[-1], maxTimeSecs, dt,
 															  0.0, self.density_mes_int)
-- 
2.43.0


From ef2ac3d7d8a650984014af97ae37bb87c2d9c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 09/22] fix: fly the dispersed L/D in the lift modulation Monte
 Carlo runs

The sampled L/D was printed and saved as the L/D of the run, but the run
itself kept the nominal lift coefficient.
---
 AMAT/vehicle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 4c35a87..0b73f88 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5778,6 +5778,8 @@ class Vehicle:
 			selected_efpa = np.random.normal(self.nominalEFPA, self.EFPA_1sigma_value)
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
+			self.LD = selected_LD
+			self.CL = self.LD * self.CD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(selected_atmfile, self.heightCol,
@@ -5882,6 +5884,8 @@ class Vehicle:
 			# selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
+			self.LD = selected_LD
+			self.CL = self.LD * self.CD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
-- 
2.43.0


From 659a13453c39bff34810bd4ebbb3f60a47523451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 10/22] fix: disperse beta1 in the drag modulation Monte Carlo
 runs

nominalbeta1 and beta1_1sigma_value were stored but never sampled.
---
 AMAT/vehicle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 0b73f88..bb0ac9c 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -7496,6 +7496,8 @@ class Vehicle:
 			#selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0,1)
 
+			self.beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
+
 			selected_LD       = 0.0
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
@@ -7602,6 +7604,8 @@ class Vehicle:
 			# selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0, 1)
 
+			self.beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
+
 			selected_LD = 0.0
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
@@ -7717,6 +7721,8 @@ class Vehicle:
 			#selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0,1)
 
+			self.beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
+
 			selected_LD       = 0.0
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
-- 
2.43.0


From 526e45ea64a2e679b4c8ef8cdd6f2249890576e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:10 +0000
Subject: [PATCH 11/22] fix: fly the drag modulation entry limits without lift

findEFPALimitD sets the L/D to zero, but lift comes from CL, which is computed
from L/D once at construction, so the search was still flown with lift.
---
 AMAT/vehicle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index bb0ac9c..81a8173 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3794,10 +3794,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3853,6 +3855,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
@@ -3894,10 +3897,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis2(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3953,6 +3958,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
-- 
2.43.0


From 695eef5ed406de5a7805bd905aea45def7f20b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:02 +0000
Subject: [PATCH 12/22] fix: use the receive antenna diameter for the receive
 antenna

---
 AMAT/telecom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index 9e3ccaa..c10ed4e 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -142,7 +142,7 @@ class Link:
 		# if Dr and eta_r are provided, compute receiver gain using these values,
 		# else if Gr_dBi is provided, use this value directly for receiver gain
 		if Dr and eta_r:
-			self.Dr = Dt
+			self.Dr = Dr
 			self.Ar = 0.25 * np.pi * self.Dr * self.Dr
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
-- 
2.43.0


From e2e20dfdd3dc5434c90835abdf323a6ded03c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:02 +0000
Subject: [PATCH 13/22] fix: accept an antenna gain of 0 dBi in Link

---
 AMAT/telecom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index c10ed4e..afe07f4 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -133,7 +133,7 @@ class Link:
 			self.eta_t = eta_t
 			self.Gt = self.compute_antenna_gain(self.eta_t, self.Dt, self.wavelength)
 			self.Gt_dBi = self.compute_dB(self.Gt)
-		elif Gt_dBi:
+		elif Gt_dBi is not None:
 			self.Dt = None
 			self.At = None
 			self.eta_t = None
@@ -147,7 +147,7 @@ class Link:
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
 			self.Gr_dBi = self.compute_dB(self.Gr)
-		elif Gr_dBi:
+		elif Gr_dBi is not None:
 			self.Dr = None
 			self.Ar = None
 			self.eta_r = None
-- 
2.43.0


From 7b9d1b2ef39c71c0cf5185ba81dd072eea6c29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:02 +0000
Subject: [PATCH 14/22] fix: let time run forward for landers on retrograde
 planets

---
 AMAT/visibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index 97fae40..ee2e3cf 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -191,8 +191,8 @@ class LanderToPlanet(Visibility):
 		# Convert observer to target unit vector in ICRF to observer planet BI frame
 		self.obs_tar_pos_vec_bi_unit = self.ICRF_to_BI(self.obs_tar_pos_vec_icrf_unit)
 
-		self.longitude_array = np.linspace(0, 360, num_points)  # body inertial longitude array
-		self.t_array = np.linspace(0, 2*np.pi/(self.planetObj.OMEGA), num_points)  # time array
+		self.longitude_array = np.linspace(0, 360*np.sign(self.planetObj.OMEGA), num_points)  # body inertial longitude array
+		self.t_array = np.linspace(0, 2*np.pi/abs(self.planetObj.OMEGA), num_points)  # time array
 		self.beta_array = np.array([])  # beta angle array
 		self.elevation_array = np.array([])  # elevation angle array
 		self.visible_array = np.array([], dtype=bool)
-- 
2.43.0


From 21c4d76f4eb564708c34c9052ef1e83218a38daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:02 +0000
Subject: [PATCH 15/22] fix: resolve the quadrant of the entry longitude

---
 AMAT/approach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 0d897fd..6f75f42 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -266,9 +266,9 @@ class Approach:
 											  np.arccos(np.dot(self.r_vec_entry_bi_unit, self.v_vec_entry_bi_unit))
 
 			self.latitude_entry_bi = np.arcsin(self.r_vec_entry_bi_unit[2])
-			self.longitude_entry_bi = np.arctan(self.r_vec_entry_bi_unit[1] / self.r_vec_entry_bi_unit[0])
+			self.longitude_entry_bi = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 
-			self.xi_1 = np.arctan(self.r_vec_entry_bi_unit[1]/self.r_vec_entry_bi_unit[0])
+			self.xi_1 = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 			self.latitude_entry_bi_analytic = np.arctan(self.r_vec_entry_bi_unit[2]/
 														(self.r_vec_entry_bi_unit[0]*np.cos(self.xi_1) + self.r_vec_entry_bi_unit[1]*np.sin(self.xi_1)))
 
-- 
2.43.0


From 98ccb9609dbee5656b1ee0c9f61828e04858b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:02 +0000
Subject: [PATCH 16/22] fix: sign of the flight path angle on the outbound leg
 of the approach

---
 AMAT/approach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 6f75f42..9a73e5f 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -477,7 +477,7 @@ class Approach:
 
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt((self.v_inf_mag)**2 + 2*self.planetObj.GM/r_mag_bi)
-		gamma = -1*np.arccos(self.h/(r_mag_bi*v_mag_bi))
+		gamma = np.arctan2(self.e*np.sin(theta_star), 1 + self.e*np.cos(theta_star))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 1046e38ef8cf41a87114a3aa3bc55b32af41faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:02 +0000
Subject: [PATCH 17/22] fix: sign of the flight path angle on both legs of the
 orbit

---
 AMAT/orbiter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 5d9d944..b47b384 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -493,7 +493,7 @@ class Orbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -531,7 +531,7 @@ class Orbiter:
 		r_mag_bi = np.linalg.norm(self.pos_vec_bi_probe(theta_star))
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a_probe_orbit))
 
-		gamma = -1*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -963,7 +963,7 @@ class PropulsiveOrbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.approach.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 6bd3c8cab7a8a8cb5db1ced1a534521a43432d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:02 +0000
Subject: [PATCH 18/22] fix: resolve the quadrant of the probe entry longitude

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index b47b384..b5208b2 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -737,7 +737,7 @@ class Orbiter:
 			self.gamma_inertial_probe_entry = -1 * np.arccos(self.h_probe_orbit / (self.r_EI * self.v_bi_mag_probe_entry))
 
 			self.latitude_probe_entry_bi = np.arcsin(self.r_vec_bi_probe_entry_unit[2])
-			self.longitude_probe_entry_bi = np.arctan(self.r_vec_bi_probe_entry_unit[1] / self.r_vec_bi_probe_entry_unit[0])
+			self.longitude_probe_entry_bi = np.arctan2(self.r_vec_bi_probe_entry_unit[1], self.r_vec_bi_probe_entry_unit[0])
 
 			self.v_vec_probe_entry_atm = self.vel_vec_probe_entry_atm()
 			self.v_mag_probe_entry_atm = np.linalg.norm(self.v_vec_probe_entry_atm)
-- 
2.43.0


From 8859cde07ace04e6dcea7e1a4fc10886059dc6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:02 +0000
Subject: [PATCH 19/22] fix: misspelled bbox_inches in plot_launch_mass_vs_TOF

---
 AMAT/interplanetary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/interplanetary.py b/AMAT/interplanetary.py
index 0a71a41..b334ff4 100644
--- a/AMAT/interplanetary.py
+++ b/AMAT/interplanetary.py
@@ -337,7 +337,7 @@ class Interplanetary:
 		for axis in ['top', 'bottom', 'left', 'right']:
 			ax.spines[axis].set_linewidth(2)
 
-		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.png', dpi=300, box_inches='tight')
+		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.png', dpi=300, bbox_inches='tight')
 		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.pdf', dpi=300, bbox_inches='tight')
 		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.eps', dpi=300, bbox_inches='tight')
 
-- 
2.43.0


From bdbc717dc5548413de4cb5bde47cba083b43c9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:14 +0000
Subject: [PATCH 20/22] fix: orbiter position after the deflection manoeuvre
 uses that orbit's argument of periapsis

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index b5208b2..4962d98 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -465,7 +465,7 @@ class Orbiter:
 		"""
 
 		r = (self.h_orbiter_defl**2 / self.vehicle.planetObj.GM) / (1 + self.e_orbiter_defl*np.cos(theta_star))
-		theta = theta_star + self.omega
+		theta = theta_star + self.omega_orbiter_defl
 
 		rx_unit = np.cos(self.OMEGA_orbiter_defl)*np.cos(theta) - np.sin(self.OMEGA_orbiter_defl)*np.cos(self.i_orbiter_defl)*np.sin(theta)
 		ry_unit = np.sin(self.OMEGA_orbiter_defl)*np.cos(theta) + np.cos(self.OMEGA_orbiter_defl)*np.cos(self.i_orbiter_defl)*np.sin(theta)
-- 
2.43.0


From c853e4668b00248d6a3eeddf6e7c88c46527a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 21/22] fix: the printed link budget lists the DSN losses that
 enter Eb/N0

---
 AMAT/telecom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index afe07f4..4668e52 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -242,6 +242,7 @@ class Link:
 		print(f"Free Space Loss, dB:    -{round(self.Ls_dB,2)}")
 		print(f"Atmospheric Loss, dB:   -{self.La_dB}")
 		print(f"Other Losses, dB:       -{self.L_other_dB}")
+		print(f"DSN Losses, dB:         -{self.L_DSN_dB}")
 		print(f"Boltzmann's const, dB:  +{round(-self.Ka_dB,2)}")
 		print(f"Data rate, kbps:         {self.R/1E3}")
 		print(f"Data rate, dBhz:        -{round(self.R_dBHz,2)}")
-- 
2.43.0


From 71ebb4364efe35819e4fe76fd583c59373c4cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 22/22] fix: record the acceleration once per guidance cycle
 (acc_step_array had two entries per cycle, out of step with t_step_array)

---
 AMAT/vehicle.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 81a8173..ddd42ce 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4972,7 +4972,6 @@ class Vehicle:
 			q_stag_total = np.concatenate((q_stag_total, q_stag_total_c), axis=0)
 			heatload = np.concatenate((heatload, heatload_c), axis=0)
 
-			self.acc_step_array = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes = 2*self.mass*acc_drag_g[-1]*self.planetObj.EARTHG / (self.CD*self.A*(0.5*(vi+v_kms[-1]*1E3))**2.0)
 			self.density_mes_array = np.append(self.density_mes_array, density_mes)
 
@@ -5202,7 +5201,6 @@ class Vehicle:
 			q_stag_total = np.concatenate((q_stag_total, q_stag_total_c), axis=0)
 			heatload = np.concatenate((heatload, heatload_c), axis=0)
 
-			self.acc_step_array = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes = 2 * self.mass * acc_drag_g[-1] * self.planetObj.EARTHG / (self.CD * self.A * (0.5 * (vi + v_kms[-1] * 1E3)) ** 2.0)
 			self.density_mes_array = np.append(self.density_mes_array, density_mes)
 
@@ -6148,7 +6146,6 @@ class Vehicle:
 			q_stag_total = np.concatenate((q_stag_total, q_stag_total_c), axis=0)
 			heatload     = np.concatenate((heatload, heatload_c), axis=0)
 
-			self.acc_step_array           = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes                   = 2*self.mass*acc_drag_g[-1]*\
 											self.planetObj.EARTHG / \
 											(self.CD*self.A*(0.5*(vi+v_kms[-1]*1E3))**2.0)
@@ -6359,7 +6356,6 @@ class Vehicle:
 			q_stag_total = np.concatenate((q_stag_total, q_stag_total_c), axis=0)
 			heatload = np.concatenate((heatload, heatload_c), axis=0)
 
-			self.acc_step_array = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes = 2 * self.mass * acc_drag_g[-1] * \
 						  self.planetObj.EARTHG / \
 						  (self.CD * self.A * (0.5 * (vi + v_kms[-1] * 1E3)) ** 2.0)
-- 
2.43.0

