From 2182b21c8c104d26cd3b4c12244cd00be6872c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:25 +0000
Subject: [PATCH 1/6] fix: IMRPhenomPv2 coalescence time shifts the waveform by
 tc seconds

The tc phase was exp(-i f M_s tc): it carried a spurious factor of the total
mass in seconds and lacked the 2 pi, so tc had essentially no effect.
---
 src/ripplegw/waveforms/IMRPhenomPv2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index d103328..2a6f123 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -243,8 +243,7 @@ def gen_IMRPhenomPv2(
     # )
     t0 = jax.grad(phi_IIb)(f_RD) / (2 * jnp.pi)
     phase_corr = jnp.cos(2 * jnp.pi * fs * (t0)) - 1j * jnp.sin(2 * jnp.pi * fs * (t0))
-    M_s = (m1 + m2) * gt
-    phase_corr_tc = jnp.exp(-1j * fs * M_s * tc)
+    phase_corr_tc = jnp.exp(-2j * jnp.pi * fs * tc)
     hp *= phase_corr * phase_corr_tc
     hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From 74ba91447f692665eb7ef7da8f69904ce13d775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:25 +0000
Subject: [PATCH 2/6] fix: IMRPhenomXAS tc and phic follow the convention of
 the other models

The XAS strain is A exp(+i Psi), so the terms copied from the A exp(-i Psi)
models shifted the signal by -tc, and phic entered with the wrong sign and
without the factor 2 of the (2,2) mode (LALSimulation: exp(2 i phiRef)).
---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index b9b8c95..80619a1 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1356,7 +1356,7 @@ def _gen_IMRPhenomXAS(
         + PI / 4.0
         + PI
     )
-    ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - theta_extrinsic[2]
+    ext_phase_contrib = -2.0 * PI * f * theta_extrinsic[1] + 2 * theta_extrinsic[2]
     Psi = Psi + (linb * fM_s) + lina + phifRef - 2 * PI + ext_phase_contrib
 
     A = Amp(f, theta_intrinsic, amp_coeffs, D=theta_extrinsic[0])
-- 
2.43.0


From 47ca37187e129639c2dff48f688e1145e5a9aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:25 +0000
Subject: [PATCH 3/6] fix: IMRPhenomD cutoff index no longer wraps to the last
 frequency

When the whole grid lies above the cutoff, argmin() - 1 is -1 and f[-1] was
used as the cutoff, so a non-zero strain was returned above it.
---
 src/ripplegw/waveforms/IMRPhenomD.py           | 6 +++---
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index efcf84f..2620260 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -495,7 +495,7 @@ def Amp(
 
     # And now we can combine them by multiplying by a set of heaviside functions
     fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
+    fcut_below = lambda f: f[jnp.maximum(jnp.abs(f - (fM_CUT / M_s)).argmin() - 1, 0)]
     fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
     Amp = (
         Amp_Ins * jnp.heaviside(f3 - f, 0.5)
@@ -537,9 +537,9 @@ def _gen_IMRPhenomD(
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
     fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
+    fcut_below = lambda f: f[jnp.maximum(jnp.abs(f - (fM_CUT / M_s)).argmin() - 1, 0)]
     fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
-    # fcut_true = f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
+    # fcut_true = f[jnp.maximum(jnp.abs(f - (fM_CUT / M_s)).argmin() - 1, 0)]
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 1f45180..2a9cfde 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -444,7 +444,7 @@ def gen_IMRPhenomD_NRTidalv2(
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
     fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
+    fcut_below = lambda f: f[jnp.maximum(jnp.abs(f - (fM_CUT / M_s)).argmin() - 1, 0)]
     fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
-- 
2.43.0


From ba84d89ee4aa7a78ce3e4f9a95c4eb5bc0da903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:25 +0000
Subject: [PATCH 4/6] fix: get_tidal_amplitude does not rescale the caller's
 distance array in place

---
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 2a9cfde..58e02f4 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -118,7 +118,7 @@ def get_tidal_amplitude(x: Array, theta: Array, kappa: float, distance: float =
     M = m1 + m2
 
     # Convert distance to meters
-    distance *= m_per_Mpc
+    distance = distance * m_per_Mpc
 
     # Pade approximant
     n1 = 4.157407407407407
-- 
2.43.0


From 4ae0ca863e1264c31dd7f156e1a02f0d3051d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:25 +0000
Subject: [PATCH 5/6] fix: clightGpc is in gigaparsecs per second, as
 documented

The divisor was a megaparsec (and mistyped in the seventh digit).
---
 src/ripplegw/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/constants.py b/src/ripplegw/constants.py
index 6307f91..1526629 100644
--- a/src/ripplegw/constants.py
+++ b/src/ripplegw/constants.py
@@ -31,7 +31,7 @@ m_per_Mpc = 3.085677581491367278913937957796471611e22
 Meters per Mpc.
 """
 
-clightGpc = C / 3.0856778570831e22
+clightGpc = C / (1e3 * m_per_Mpc)
 """
 Speed of light in vacuum (:math:`c`), in gigaparsecs per second
 """
-- 
2.43.0


From 8ca86513a6cae23db38601d8a3042b532aeb3cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:09 +0000
Subject: [PATCH 6/6] fix: IMRPhenomXAS gradient is not NaN when the ringdown
 peak has no turning point

---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index 80619a1..19db9e1 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1239,12 +1239,11 @@ def get_mergerringdown_Amp(
             amp_coeffs[5, amp_uneqspin_indx:], eta, StotR, chia
         )
     )
+    # keep the argument of the unselected sqrt positive, its gradient is NaN otherwise
+    gamma2_arg = jnp.where(gamma2 <= 1.0, 1.0 - gamma2 * gamma2, 1.0)
     fMs_AmpRDMin = jnp.where(
         gamma2 <= 1.0,
-        jnp.fabs(
-            fMs_RD
-            + fMs_damp * gamma3 * (jnp.sqrt(1.0 - gamma2 * gamma2) - 1.0) / gamma2
-        ),
+        jnp.fabs(fMs_RD + fMs_damp * gamma3 * (jnp.sqrt(gamma2_arg) - 1.0) / gamma2),
         jnp.fabs(fMs_RD + fMs_damp * (-1.0) * gamma3 / gamma2),
     )
     v1RD = (
-- 
2.43.0

