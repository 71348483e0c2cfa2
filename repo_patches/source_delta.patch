From da03a5743a6a8c68afd639f35222239a888bbb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 001/116] fix: nodal angles of msk6 and snk6 follow their
 parents (M2 + K2)

---
 pyTMD/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 8897342..5c09820 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1051,14 +1051,14 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]**3
             u[:,i] = utmp[:,0] + 3.0*utmp[:,1]
             continue
-        elif c in ('mk4','nk4','mks2'):
+        elif c in ('mk4','nk4','mks2','msk6','snk6'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('msk2','2smk4','msk6','snk6'):
+        elif c in ('msk2','2smk4'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From aea35f719717493b5c7749849dda22487c329e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 002/116] fix: nodal corrections match whole constituent IDs
 and not substrings

---
 pyTMD/arguments.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 5c09820..70eb866 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -772,7 +772,7 @@ def nodal(
             # Linear 3rd degree terms
             term1 = 0.1705*sinn - 0.0035*sin2n - 0.0176*sin2p
             term2 = 1.0 + 0.1705*cosn - 0.0035*cos2n - 0.0176*cos2p
-        elif c in ("l2'"):
+        elif c in ("l2'",):
             # Linear 3rd degree terms
             term1 = -0.2495*sinn
             term2 = 1.0 + 0.1315*cosn
@@ -809,42 +809,42 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('2k2'):
+        elif c in ('2k2',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('tk1'):
+        elif c in ('tk1',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]
             u[:,i] = -utmp[:,0]
             continue
-        elif c in ('2oop1'):
+        elif c in ('2oop1',):
             # compound tides calculated using recursion
             parents = ['oo1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('oq2'):
+        elif c in ('oq2',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('2oq1'):
+        elif c in ('2oq1',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2 * ftmp[:,1]
             u[:,i] = 2.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('ko2'):
+        elif c in ('ko2',):
             # compound tides calculated using recursion
             parents = ['o1','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -872,7 +872,7 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('kjq1'):
+        elif c in ('kjq1',):
             # compound tides calculated using recursion
             parents = ['k1','j1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From a5559f1accc8b8eaf5c54998049496a18b5b6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 003/116] fix: denominator of the 2Q1 nodal angle for minor
 constituents

---
 pyTMD/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 70eb866..7ebbc2e 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -256,7 +256,7 @@ def minor_arguments(
     # nodal angle corrections for minor constituents
     u = np.zeros((nt, 20))
     u[:,0] = np.arctan2(0.189*sinn - 0.0058*sin2n,
-        1.0 + 0.189*cosn - 0.0058*sin2n)# 2Q1
+        1.0 + 0.189*cosn - 0.0058*cos2n)# 2Q1
     u[:,1] = u[:,0]# sigma1
     u[:,2] = u[:,0]# rho1
     u[:,3] = np.arctan2( 0.185*sinn, 1.0 + 0.185*cosn)# M12
-- 
2.43.0


From bb5e8d9e2a9a6c3032fc7108423c2c005e916b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 004/116] fix: Doodson coefficients of 2MNS4, NSK5, 2MN6, 3MN8
 and 4MSN8 are the sums of their parents

---
 pyTMD/data/doodson.json | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/data/doodson.json b/pyTMD/data/doodson.json
index aca114f..5192ae1 100644
--- a/pyTMD/data/doodson.json
+++ b/pyTMD/data/doodson.json
@@ -267,7 +267,7 @@
     "4m2s4": [4.0, -4.0, 4.0, 0.0, 0.0, 0.0, 0.0],
     "2mnk4": [4.0, -3.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "moq4": [4.0, -3.0, 0.0, 1.0, 0.0, 0.0, 2.0],
-    "2mns4": [4.0, -3.0, 4.0, -1.0, 0.0, 0.0, 0.0],
+    "2mns4": [4.0, -3.0, 2.0, 1.0, 0.0, 0.0, 0.0],
     "2mnus4": [4.0, -3.0, 4.0, -1.0, 0.0, 0.0, 0.0],
     "3mk4": [4.0, -2.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     "2om4": [4.0, -2.0, 0.0, 0.0, 0.0, 0.0, 2.0],
@@ -329,7 +329,7 @@
     "2ms5": [5.0, 1.0, -1.0, 0.0, 0.0, 0.0, 2.0],
     "2mk5": [5.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0],
     "nks5": [5.0, 2.0, -1.0, 1.0, 0.0, 0.0, 2.0],
-    "nsk5": [5.0, 2.0, -2.0, -1.0, 0.0, 0.0, 1.0],
+    "nsk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, 1.0],
     "msm5": [5.0, 2.0, -2.0, 0.0, 0.0, 0.0, 2.0],
     "snk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, -1.0],
     "3mq5": [5.0, 2.0, 0.0, -1.0, 0.0, 0.0, 1.0],
@@ -361,7 +361,7 @@
     "2mnls6": [6.0, -2.0, 2.0, 0.0, 0.0, 0.0, 2.0],
     "2nmks6": [6.0, -2.0, 2.0, 2.0, 0.0, 0.0, 0.0],
     "2msnk6": [6.0, -1.0, -2.0, 1.0, 0.0, 0.0, 0.0],
-    "2mn6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
+    "2mn6": [6.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "2mnu6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
     "3mls6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 2.0],
     "2mno6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
@@ -428,7 +428,7 @@
     "2mn8": [8.0, -2.0, 0.0, 2.0, 0.0, 0.0, 0.0],
     "2(mn)8": [8.0, -2.0, 0.0, 2.0, 0.0, 0.0, 0.0],
     "5ms8": [8.0, -2.0, 2.0, 0.0, 0.0, 0.0, 0.0],
-    "3mn8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
+    "3mn8": [8.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "3mnu8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
     "4mls8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 2.0],
     "ma8": [8.0, 0.0, -1.0, 0.0, 0.0, 0.0, 0.0],
@@ -443,7 +443,7 @@
     "2smn8": [8.0, 3.0, -4.0, 1.0, 0.0, 0.0, 0.0],
     "2msl8": [8.0, 3.0, -2.0, -1.0, 0.0, 0.0, 2.0],
     "msnk8": [8.0, 3.0, -2.0, 1.0, 0.0, 0.0, 0.0],
-    "4msn8": [8.0, 3.0, 0.0, -1.0, 0.0, 0.0, 0.0],
+    "4msn8": [8.0, 3.0, -2.0, -1.0, 0.0, 0.0, 0.0],
     "2(ms)8": [8.0, 4.0, -4.0, 0.0, 0.0, 0.0, 0.0],
     "2msk8": [8.0, 4.0, -2.0, 0.0, 0.0, 0.0, 0.0],
     "2(mk)8": [8.0, 4.0, 0.0, 0.0, 0.0, 0.0, 0.0],
-- 
2.43.0


From 619250e69c89c9223eee79b8842365b1c116a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 005/116] fix: infer the first minor constituent of a group
 when it is the only one

---
 pyTMD/predict.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 9ee04ac..e276222 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -416,7 +416,7 @@ def _infer_short_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No short-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -564,7 +564,7 @@ def _infer_semi_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No semi-diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -725,7 +725,7 @@ def _infer_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -878,7 +878,7 @@ def _infer_long_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No long-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
-- 
2.43.0


From deb90d7bce45cd408fa0e20018addb45fe7195fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 006/116] fix: refuse extended Doodson numbers for coefficients
 outside of -8 to 15

---
 pyTMD/arguments.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 7ebbc2e..a570d20 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1588,14 +1588,23 @@ def _to_extended_doodson(coef: list | np.ndarray, **kwargs):
     ----------
     coef: list or np.ndarray
         Doodson coefficients (Cartwright numbers) for constituent
+    raise_error: bool, default True
+        Raise exception if constituent is unsupported
 
     Returns
     -------
     XDO: string
         Extended Doodson number for constituent
     """
+    # default keyword arguments
+    kwargs.setdefault('raise_error', True)
     # assert length and verify array
     coef = np.array(coef).astype(int)
+    # check for unsupported constituents
+    if (np.any(coef < -8) or np.any(coef > 15)) and kwargs['raise_error']:
+        raise ValueError('Unsupported constituent')
+    elif (np.any(coef < -8) or np.any(coef > 15)):
+        return None
     # digits for UKHO Extended Doodson number
     # Z = 0
     # A - P = 1 to 15
-- 
2.43.0


From d058898ecd8a1bcea01ead3e4af9d4e10a15829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 007/116] fix: convert the equation of the equinoxes from
 radians to days

---
 pyTMD/astro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 41369f8..e9f100f 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -661,7 +661,8 @@ def gast(T: float | np.ndarray):
     # traditional equation of the equinoxes
     c = _eqeq_complement(T)
     eqeq = dpsi*np.cos(epsilon + deps) + c
-    return np.mod(ts.st + eqeq/24.0, 1.0)
+    # convert from radians to fractions of a day
+    return np.mod(ts.st + eqeq/ts.tau, 1.0)
 
 def itrs(T: float | np.ndarray):
     """
-- 
2.43.0


From 0a18bcd16074a6487457408af46989ba85fa3913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 008/116] fix: order of the rotations from the celestial to the
 terrestrial frame

---
 pyTMD/astro.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index e9f100f..25da7a8 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -692,15 +692,15 @@ def itrs(T: float | np.ndarray):
     M3 = _frame_bias_matrix()
     M4 = _polar_motion_matrix(ts.T)
     # calculate the combined rotation matrix for
+    # M3: frame bias
     # M1: precession
     # M2: nutation
-    # M3: frame bias
-    # M4: polar motion
-    M = np.einsum('ijt...,jkt...,kl...,lmt...->imt...', M1, M2, M3, M4)
+    M = np.einsum('ijt...,jkt...,kl...->ilt...', M2, M1, M3)
     # compute the Greenwich Apparent Sidereal Time
     # use UT1 time as input to gast function
     GAST = rotate(ts.tau*gast(T), 'z')
-    R = np.einsum('ijt...,jkt->ikt...', GAST, M)
+    # rotate to the terrestrial frame and apply polar motion (M4)
+    R = np.einsum('ijt...,jkt...,klt...->ilt...', M4, GAST, M)
     # return the combined rotation matrix
     return R
 
-- 
2.43.0


From 45ab972bc1ac5b96daf289c5dc97a9bc72dea3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 009/116] fix: sign of the polar motion rotation to the
 terrestrial frame

---
 pyTMD/astro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 25da7a8..a0b4506 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -884,9 +884,9 @@ def _polar_motion_matrix(T: float | np.ndarray):
     sprime = -4.7e-5*T
     px, py = timescale.eop.iers_polar_motion(MJD)
     # calculate the rotation matrices
-    M1 = rotate(py*atr,'x')
-    M2 = rotate(px*atr,'y')
-    M3 = rotate(-sprime*atr,'z')
+    M1 = rotate(-py*atr,'x')
+    M2 = rotate(-px*atr,'y')
+    M3 = rotate(sprime*atr,'z')
     # calculate the combined rotation matrix
     return np.einsum('ij...,jk...,kl...->il...', M1, M2, M3)
 
-- 
2.43.0


From 4c4f1ea5853078a602daf1ff8fea52db3780d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 010/116] fix: apply UT1-UTC only once in the rotation of the
 JPL ephemerides

---
 pyTMD/astro.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index a0b4506..5369673 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -482,7 +482,9 @@ def solar_ephemerides(MJD: np.ndarray, **kwargs):
     x, y, z = 1e3*(SSB_to_Sun.compute(ts.tt) - SSB_to_EMB.compute(ts.tt) -
         EMB_to_Earth.compute(ts.tt))
     # rotate to cartesian (ECEF) coordinates
-    rot_z = itrs((ts.ut1 - _jd_j2000)/ts.century)
+    # use UTC time as input to itrs rotation function
+    # (UT1-UTC is applied when computing the sidereal time)
+    rot_z = itrs((ts.MJD - _mjd_j2000)/ts.century)
     X = rot_z[0,0,:]*x + rot_z[0,1,:]*y + rot_z[0,2,:]*z
     Y = rot_z[1,0,:]*x + rot_z[1,1,:]*y + rot_z[1,2,:]*z
     Z = rot_z[2,0,:]*x + rot_z[2,1,:]*y + rot_z[2,2,:]*z
@@ -633,8 +635,9 @@ def lunar_ephemerides(MJD: np.ndarray, **kwargs):
     #               = -EMB_to_Earth + EMB_to_Moon
     x, y, z = 1e3*(EMB_to_Moon.compute(ts.tt) - EMB_to_Earth.compute(ts.tt))
     # rotate to cartesian (ECEF) coordinates
-    # use UT1 time as input to itrs rotation function
-    rot_z = itrs((ts.ut1 - _jd_j2000)/ts.century)
+    # use UTC time as input to itrs rotation function
+    # (UT1-UTC is applied when computing the sidereal time)
+    rot_z = itrs((ts.MJD - _mjd_j2000)/ts.century)
     X = rot_z[0,0,:]*x + rot_z[0,1,:]*y + rot_z[0,2,:]*z
     Y = rot_z[1,0,:]*x + rot_z[1,1,:]*y + rot_z[1,2,:]*z
     Z = rot_z[2,0,:]*x + rot_z[2,1,:]*y + rot_z[2,2,:]*z
@@ -697,7 +700,6 @@ def itrs(T: float | np.ndarray):
     # M2: nutation
     M = np.einsum('ijt...,jkt...,kl...->ilt...', M2, M1, M3)
     # compute the Greenwich Apparent Sidereal Time
-    # use UT1 time as input to gast function
     GAST = rotate(ts.tau*gast(T), 'z')
     # rotate to the terrestrial frame and apply polar motion (M4)
     R = np.einsum('ijt...,jkt...,klt...->ilt...', M4, GAST, M)
-- 
2.43.0


From 6546edffb43db5642a84420fc9b2c1d2512899d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 011/116] fix: sign of the l - l' term in the approximate
 longitude of the moon

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 5369673..bce4e02 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -565,7 +565,7 @@ def lunar_approximate(MJD, **kwargs):
         4586.0*np.sin(l - 2.0*D) + 2370.0*np.sin(2.0*D) -
         668.0*np.sin(M) - 412.0*np.sin(2.0*F) -
         212.0*np.sin(2.0*l - 2.0*D) - 206.0*np.sin(l + M - 2.0*D) +
-        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) -
+        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) +
         148.0*np.sin(l - M) - 125.0*np.sin(D) -
         110.0*np.sin(l + M) - 55.0*np.sin(2.0*F - 2.0*D)
     )
-- 
2.43.0


From f9aa41588fb18f50cf2cb4f83b6df9210d8a4a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 012/116] fix: cubic coefficient of the mean obliquity of the
 ecliptic

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index bce4e02..925248d 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -366,7 +366,7 @@ def mean_obliquity(MJD: np.ndarray):
     T = (MJD - _mjd_j2000)/_century
     # mean obliquity of the ecliptic (arcseconds)
     epsilon0 = np.array([84381.406, -46.836769, -1.831e-4,
-        2.00340e-4, -5.76e-07, -4.34e-08])
+        2.00340e-3, -5.76e-07, -4.34e-08])
     return atr*polynomial_sum(epsilon0, T)
 
 # PURPOSE: compute coordinates of the sun in an ECEF frame
-- 
2.43.0


From 0132265238efe0d1effef768643980f553134683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 013/116] fix: wrap longitudes to the range of the ocean pole
 tide map

---
 pyTMD/io/IERS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 1758510..69bf6a5 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -110,6 +110,8 @@ def extract_coefficients(
     # read ocean pole tide map from Desai (2002)
     Umap = {}
     Umap['R'], Umap['N'], Umap['E'], ilon, ilat = read_binary_file(**kwargs)
+    # adjust longitudinal convention of coordinates to that of the map
+    lon = ilon[0] + np.mod(np.asarray(lon) - ilon[0], 360.0)
     # interpolate ocean pole tide map from Desai (2002)
     Uint = {}
     if (kwargs['method'] == 'spline'):
-- 
2.43.0


From 0e82c84c0f4b1a27c475ff070f208375716cea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 014/116] fix: bilinear interpolation of the ocean pole tide
 map

---
 pyTMD/io/IERS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 69bf6a5..9e23c02 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -92,6 +92,7 @@ def extract_coefficients(
 
             - ``'spline'``: scipy bivariate spline interpolation
             - ``'linear'``, ``'nearest'``: scipy regular grid interpolations
+            - ``'bilinear'``: same as ``'linear'``
 
     Returns
     -------
@@ -105,6 +106,9 @@ def extract_coefficients(
     # default keyword arguments
     kwargs.setdefault('model_file', _ocean_pole_tide_file)
     kwargs.setdefault('method', 'spline')
+    # linear interpolation over the regular grid is bilinear
+    if (kwargs['method'] == 'bilinear'):
+        kwargs['method'] = 'linear'
     # number of points
     npts = len(np.atleast_1d(lat))
     # read ocean pole tide map from Desai (2002)
-- 
2.43.0


From 4ae5787b5d74a7ec74ea1dae1c0d49965442257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 015/116] fix: bilinear interpolation of points on the limits
 of the grid

---
 pyTMD/interpolate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index e3e9640..f135d5e 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -72,7 +72,7 @@ def bilinear(
         idata.mask = np.zeros_like(idata, dtype=bool)
     # find valid points (within bounds)
     valid, = np.nonzero((lon >= ilon.min()) & (lon <= ilon.max()) &
-        (lat > ilat.min()) & (lat < ilat.max()))
+        (lat >= ilat.min()) & (lat <= ilat.max()))
     # interpolate gridded data values to data
     npts = len(lon)
     # allocate to output interpolated data array
@@ -83,8 +83,9 @@ def bilinear(
     # for each valid point
     for i in valid:
         # calculating the indices for the original grid
-        ix, = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] > lon[i]))
-        iy, = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] > lat[i]))
+        # (points on the upper limits are within the last grid cell)
+        ix = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] >= lon[i]))[0][-1:]
+        iy = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] >= lat[i]))[0][-1:]
         # corner data values for adjacent grid cells
         IM = np.ma.zeros((4), fill_value=fill_value, dtype=dtype)
         IM.mask = np.ones((4), dtype=bool)
-- 
2.43.0


From 9421af4ed23b1bc84f4967a64b578ddfcd7ff922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 016/116] fix: adjust each longitude to the range of the
 extended model grid

---
 pyTMD/interpolate.py | 30 ++++++++++++++++++++++++++++++
 pyTMD/io/ATLAS.py    | 20 +++-----------------
 pyTMD/io/FES.py      | 20 +++-----------------
 pyTMD/io/GOT.py      | 20 +++-----------------
 pyTMD/io/OTIS.py     | 21 ++++++++-------------
 5 files changed, 47 insertions(+), 64 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index f135d5e..b42014f 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -28,6 +28,7 @@ __all__ = [
     "spline",
     "regulargrid",
     "extrapolate",
+    "_wrap_longitudes",
     "_distance"
 ]
 
@@ -420,6 +421,35 @@ def extrapolate(
     # return extrapolated values
     return data
 
+# PURPOSE: adjust longitudes to the convention of a model grid
+def _wrap_longitudes(
+        ilon: np.ndarray,
+        lon: np.ndarray
+    ):
+    """
+    Adjusts each longitude to the range of a model grid
+
+    Parameters
+    ----------
+    ilon: np.ndarray
+        longitude of tidal model
+    lon: np.ndarray
+        output longitude
+
+    Returns
+    -------
+    lon: np.ndarray
+        output longitude in the convention of the tidal model
+    """
+    lon = np.array(lon, dtype=np.float64)
+    # input points convention (-180:180)
+    # tide model convention (0:360)
+    lon[lon < np.min(ilon)] += 360.0
+    # input points convention (0:360)
+    # tide model convention (-180:180)
+    lon[lon > np.max(ilon)] -= 360.0
+    return lon
+
 # PURPOSE: calculate Euclidean distances between points
 def _distance(c1: np.ndarray, c2: np.ndarray):
     """
diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ab6aba7..fc5e0cc 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -245,21 +245,12 @@ def extract_constants(
     is_global = False
 
     # crop bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mlon, mlat = np.copy(lon), np.copy(lat)
         bathymetry, lon, lat = _crop(bathymetry, mlon, mlat,
             bounds=bounds,
             buffer=buffer
         )
-    elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
 
     # replace original values with extend arrays/matrices
     if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
@@ -269,6 +260,8 @@ def extract_constants(
         is_global = True
     # create masks
     bathymetry.mask = (bathymetry.data == 0)
+    # adjust longitudinal convention of input points to fit tide model
+    ilon = pyTMD.interpolate._wrap_longitudes(lon, ilon)
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
@@ -565,14 +558,7 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
+    ilon = pyTMD.interpolate._wrap_longitudes(lon, ilon)
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 8a5b66c..acf0a2d 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -262,25 +262,18 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
 
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of input points to fit tide model
+        ilon = pyTMD.interpolate._wrap_longitudes(lon, ilon)
         # determine if any input points are outside of the model bounds
         invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
                   (ilat < lat.min()) | (ilat > lat.max())
@@ -498,14 +491,7 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    ilon = pyTMD.interpolate._wrap_longitudes(lon, ilon)
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 7ce8eab..df6d630 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -239,24 +239,17 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of input points to fit tide model
+        ilon = pyTMD.interpolate._wrap_longitudes(lon, ilon)
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -447,14 +440,7 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    ilon = pyTMD.interpolate._wrap_longitudes(lon, ilon)
     # number of points
     npts = len(ilon)
     # number of constituents
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index b3717cd..299b0e5 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -300,21 +300,12 @@ def extract_constants(
     buffer = kwargs['buffer'] or 4*dx
 
     # crop mask and bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mx, my = np.copy(xi), np.copy(yi)
         mz, xi, yi = _crop(mz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
         hz, xi, yi = _crop(hz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
-    elif (np.min(x) < np.min(xi)) & is_geographic:
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        x[x > 180] -= 360.0
 
     # if global: extend limits
     is_global = False
@@ -324,6 +315,9 @@ def extract_constants(
         # set global grid flag
         is_global = True
 
+    # adjust longitudinal convention of input points to fit tide model
+    if is_geographic:
+        x = pyTMD.interpolate._wrap_longitudes(xi, x)
     # determine if any input points are outside of the model bounds
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
@@ -366,6 +360,9 @@ def extract_constants(
         bathymetry = np.ma.array(hv, mask=mask)
         # y-coordinates for v transports
         yi -= dy/2.0
+    # adjust longitudes to the extended nodes if global
+    if is_global:
+        x = pyTMD.interpolate._wrap_longitudes(xi, x)
 
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
@@ -802,10 +799,8 @@ def interpolate_constants(
     is_geographic = constituents.crs.is_geographic
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(x) < np.min(xi)) & is_geographic:
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        x[x > 180] -= 360.0
+    if is_geographic:
+        x = pyTMD.interpolate._wrap_longitudes(xi, x)
     # determine if any input points are outside of the model bounds
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
-- 
2.43.0


From 0395b973dc6b2ef845cb5c41cc88e60940ba5db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 017/116] fix: crop model grids across the limits of their
 longitudinal convention

---
 pyTMD/io/ATLAS.py | 34 +++++++++++++++++++++++-----------
 pyTMD/io/FES.py   | 34 +++++++++++++++++++++++-----------
 pyTMD/io/GOT.py   | 34 +++++++++++++++++++++++-----------
 pyTMD/io/OTIS.py  | 34 +++++++++++++++++++++++-----------
 4 files changed, 92 insertions(+), 44 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index fc5e0cc..2cf98de 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1276,27 +1276,39 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # columns of the tide model and their x-coordinates
+    nx = len(ilon)
+    cols = np.arange(nx)
+    # check if the tide model is global in terms of longitude
+    # (possibly with a repeated meridian)
+    is_cyclic = np.isclose(ilon[-1] - ilon[0], 360.0)
+    is_global = is_cyclic | (np.isclose(ilon[-1] - ilon[0],
+        360.0 - np.abs(ilon[1] - ilon[0])))
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    if is_global:
+        # remove repeated meridian of cyclic grids
+        nx -= int(is_cyclic)
+        # repeat the model columns for each longitudinal convention
+        ilon = np.concatenate([ilon[:nx] + k for k in (-360.0, 0.0, 360.0)])
+        cols = np.tile(cols[:nx], 3)
+        xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    else:
+        # find columns within bounds for each longitudinal convention
+        shift = (-360.0, 0.0, 360.0)
+        within = [(ilon + k >= xmin) & (ilon + k <= xmax) for k in shift]
+        xind = np.flatnonzero(np.any(within, axis=0))
     # slices for cropping axes
     rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    columns = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
+    temp = input_matrix[rows, cols[columns]]
+    lon = ilon[columns]
     lat = ilat[rows]
     # return cropped data
     return (temp, lon, lat)
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index acf0a2d..5c8fd36 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -945,27 +945,39 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # columns of the tide model and their x-coordinates
+    nx = len(ilon)
+    cols = np.arange(nx)
+    # check if the tide model is global in terms of longitude
+    # (possibly with a repeated meridian)
+    is_cyclic = np.isclose(ilon[-1] - ilon[0], 360.0)
+    is_global = is_cyclic | (np.isclose(ilon[-1] - ilon[0],
+        360.0 - np.abs(ilon[1] - ilon[0])))
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    if is_global:
+        # remove repeated meridian of cyclic grids
+        nx -= int(is_cyclic)
+        # repeat the model columns for each longitudinal convention
+        ilon = np.concatenate([ilon[:nx] + k for k in (-360.0, 0.0, 360.0)])
+        cols = np.tile(cols[:nx], 3)
+        xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    else:
+        # find columns within bounds for each longitudinal convention
+        shift = (-360.0, 0.0, 360.0)
+        within = [(ilon + k >= xmin) & (ilon + k <= xmax) for k in shift]
+        xind = np.flatnonzero(np.any(within, axis=0))
     # slices for cropping axes
     rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    columns = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
+    temp = input_matrix[rows, cols[columns]]
+    lon = ilon[columns]
     lat = ilat[rows]
     # return cropped data
     return (temp, lon, lat)
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index df6d630..3c9a0e3 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -831,27 +831,39 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # columns of the tide model and their x-coordinates
+    nx = len(ilon)
+    cols = np.arange(nx)
+    # check if the tide model is global in terms of longitude
+    # (possibly with a repeated meridian)
+    is_cyclic = np.isclose(ilon[-1] - ilon[0], 360.0)
+    is_global = is_cyclic | (np.isclose(ilon[-1] - ilon[0],
+        360.0 - np.abs(ilon[1] - ilon[0])))
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    if is_global:
+        # remove repeated meridian of cyclic grids
+        nx -= int(is_cyclic)
+        # repeat the model columns for each longitudinal convention
+        ilon = np.concatenate([ilon[:nx] + k for k in (-360.0, 0.0, 360.0)])
+        cols = np.tile(cols[:nx], 3)
+        xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    else:
+        # find columns within bounds for each longitudinal convention
+        shift = (-360.0, 0.0, 360.0)
+        within = [(ilon + k >= xmin) & (ilon + k <= xmax) for k in shift]
+        xind = np.flatnonzero(np.any(within, axis=0))
     # slices for cropping axes
     rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    columns = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
+    temp = input_matrix[rows, cols[columns]]
+    lon = ilon[columns]
     lat = ilat[rows]
     # return cropped data
     return (temp, lon, lat)
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 299b0e5..0fd2ea8 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2004,27 +2004,39 @@ def _crop(
     y: np.ndarray
         cropped y-coordinates
     """
-    # adjust longitudinal convention of tide model
-    if is_geographic & (np.min(bounds[:2]) < 0.0) & (np.max(ix) > 180.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=180.0, cyclic=360.0, direction='west')
-    elif is_geographic & (np.max(bounds[:2]) > 180.0) & (np.min(ix) < 0.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # columns of the tide model and their x-coordinates
+    nx = len(ix)
+    cols = np.arange(nx)
+    # check if the tide model is global in terms of longitude
+    # (possibly with a repeated meridian)
+    is_cyclic = is_geographic & np.isclose(ix[-1] - ix[0], 360.0)
+    is_global = is_cyclic | (is_geographic & np.isclose(ix[-1] - ix[0],
+        360.0 - np.abs(ix[1] - ix[0])))
     # find indices for cropping
     yind = np.flatnonzero((iy >= ymin) & (iy <= ymax))
-    xind = np.flatnonzero((ix >= xmin) & (ix <= xmax))
+    if is_global:
+        # remove repeated meridian of cyclic grids
+        nx -= int(is_cyclic)
+        # repeat the model columns for each longitudinal convention
+        ix = np.concatenate([ix[:nx] + k for k in (-360.0, 0.0, 360.0)])
+        cols = np.tile(cols[:nx], 3)
+        xind = np.flatnonzero((ix >= xmin) & (ix <= xmax))
+    else:
+        # find columns within bounds for each longitudinal convention
+        shift = (-360.0, 0.0, 360.0) if is_geographic else (0.0,)
+        within = [(ix + k >= xmin) & (ix + k <= xmax) for k in shift]
+        xind = np.flatnonzero(np.any(within, axis=0))
     # slices for cropping axes
     rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    columns = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    x = ix[cols]
+    temp = input_matrix[rows, cols[columns]]
+    x = ix[columns]
     y = iy[rows]
     # return cropped data
     return (temp, x, y)
-- 
2.43.0


From 43cfc1cf4f85780e331ad4c1180abb826116294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 018/116] fix: keep the mask of interpolated OTIS constituents

---
 pyTMD/io/OTIS.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 0fd2ea8..c28ee14 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -485,7 +485,7 @@ def extract_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
@@ -805,12 +805,18 @@ def interpolate_constants(
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
     # input model bathymetry
-    bathymetry = np.ma.array(constituents.bathymetry)
+    bathymetry = np.ma.array(constituents.bathymetry, copy=True)
     bathymetry.mask = np.copy(constituents.mask)
     # interpolate depth and mask to output points
     if (kwargs['method'] == 'bilinear'):
+        # replace invalid values with nan
+        bathymetry.data[bathymetry.mask] = np.nan
         # use quick bilinear to interpolate values
-        D = pyTMD.interpolate.bilinear(xi, yi, bathymetry, x, y)
+        D = pyTMD.interpolate.bilinear(xi, yi, bathymetry, x, y,
+            fill_value=np.ma.default_fill_value(np.dtype(float)))
+        # replace nan values with fill_value
+        D.mask[:] |= np.isnan(D.data)
+        D.data[D.mask] = D.fill_value
     elif (kwargs['method'] == 'spline'):
         # use scipy bivariate splines to interpolate values
         D = pyTMD.interpolate.spline(xi, yi, bathymetry, x, y,
@@ -860,11 +866,11 @@ def interpolate_constants(
                 reducer=np.ceil,
                 kx=1, ky=1)
             # replace zero values with fill_value
-            hci.mask = D.mask
+            hci.mask |= D.mask
             hci.data[hci.mask] = hci.fill_value
         else:
-            # replace zero values with fill value
-            hc.data[(hc.data == 0) | hc.mask] = fill_value
+            # replace invalid values with fill value
+            hc.data[hc.mask] = fill_value
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(xi, yi, hc, x, y,
                 fill_value=fill_value,
@@ -873,7 +879,7 @@ def interpolate_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
-- 
2.43.0


From 2f224d61b9c71d0de4252c88910d73b87b542562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 019/116] fix: bathymetry of regional C-grids does not wrap
 around in longitude

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index c28ee14..c7473f9 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2164,7 +2164,7 @@ def _interpolate_zeta(hz: np.ndarray, is_global: bool = True):
     # shape of input data
     ny, nx = np.shape(hz)
     # get masks for u and v nodes
-    mu, mv = _mask_nodes(hz)
+    mu, mv = _mask_nodes(hz, is_global=is_global)
     # initialize data for u and v grids
     hu = np.zeros((ny, nx), dtype=hz.dtype)
     hv = np.zeros((ny, nx), dtype=hz.dtype)
-- 
2.43.0


From 2c4e78f9ff8f3b09ce335fa54f4ad89d8eb371bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 020/116] fix: tolerance when checking if an OTIS grid is
 global

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index c7473f9..25a5f97 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -611,7 +611,7 @@ def read_constants(
             buffer=kwargs['buffer'], is_geographic=is_geographic)
 
     # replace original values with extend arrays/matrices
-    if ((xi[-1] - xi[0]) == (360.0 - dx)) & is_geographic:
+    if np.isclose(xi[-1] - xi[0], 360.0 - dx) & is_geographic:
         xi = _extend_array(xi, dx)
         # set global grid flag
         is_global = True
-- 
2.43.0


From 82aa30a13f3d016ab6070970da5f1109e94402dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 021/116] fix: default type when interpolating OTIS
 constituents

---
 pyTMD/io/OTIS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 25a5f97..17ca53a 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -782,6 +782,7 @@ def interpolate_constants(
         bathymetry of tide model
     """
     # set default keyword arguments
+    kwargs.setdefault('type', 'z')
     kwargs.setdefault('method', 'spline')
     kwargs.setdefault('extrapolate', False)
     kwargs.setdefault('cutoff', 10.0)
-- 
2.43.0


From 4ed9fec8612b9669578302dd118be393f1e75e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 022/116] fix: depth for converting extrapolated OTIS
 transports to velocities

---
 pyTMD/io/OTIS.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 17ca53a..91d1876 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -385,7 +385,14 @@ def extract_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        depth = D.copy()
+        # extrapolate bathymetry using nearest-neighbors
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+                x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -829,7 +836,14 @@ def interpolate_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        depth = D.copy()
+        # extrapolate bathymetry using nearest-neighbors
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+                x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
-- 
2.43.0


From 0cd209ba96aea23bdfb58da396de3f71c8553557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 023/116] fix: interpolating ATLAS constituents leaves their
 bathymetry as it was

---
 pyTMD/io/ATLAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 2cf98de..e24da35 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -567,7 +567,7 @@ def interpolate_constants(
     npts = len(ilon)
     # create masked array of model bathymetry
     bathymetry = np.ma.array(constituents.bathymetry,
-        mask=constituents.mask, fill_value=0.0)
+        mask=constituents.mask, fill_value=0.0, copy=True)
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
         # replace invalid values with nan
-- 
2.43.0


From a1e25c6458af7d21dac324033425eb8eaeabf5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 024/116] fix: depth for converting extrapolated ATLAS
 transports to velocities

---
 pyTMD/io/ATLAS.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index e24da35..f269bcf 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -289,7 +289,13 @@ def extract_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        depth = D.copy()
+        # extrapolate bathymetry using nearest-neighbors
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+                ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -589,7 +595,13 @@ def interpolate_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        depth = D.copy()
+        # extrapolate bathymetry using nearest-neighbors
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+                ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
-- 
2.43.0


From 05fc4b1a78ba4bfe3f4a309b72c7fe6db522b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 025/116] fix: read compressed FES ascii files

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 5c8fd36..68183e5 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -609,7 +609,7 @@ def read_ascii_file(
     if kwargs['compressed']:
         # read gzipped ascii file
         with gzip.open(input_file, 'rb') as f:
-            file_contents = f.read(input_file).splitlines()
+            file_contents = f.read().decode('utf8').splitlines()
     else:
         with open(input_file, mode="r", encoding='utf8') as f:
             file_contents = f.read().splitlines()
-- 
2.43.0


From 76580a0e44a3ac2a4b0d23bb4f1d41eee675760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 026/116] fix: read FES ascii grids of any number of longitudes

---
 pyTMD/io/FES.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 68183e5..004d716 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -637,21 +637,14 @@ def read_ascii_file(
     i1 = 5
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//30):
-            j1 = j*30
+        # for each line of (up to) 30 tidal variables
+        for j1 in range(0, nlon, 30):
+            j2 = np.minimum(j1 + 30, nlon)
             amplitude_data = file_contents[i1].split()
-            amp.data[i,j1:j1+30] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[i1+1].split()
-            ph.data[i,j1:j1+30] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32)
             i1 += 2
-        # add last tidal variables
-        j1 = (j+1)*30
-        j2 = nlon % 30
-        amplitude_data = file_contents[i1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[i1+1].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        i1 += 2
     # calculate complex form of constituent oscillation
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     hc = np.ma.array(amp*np.exp(-1j*ph*np.pi/180.0), mask=mask,
-- 
2.43.0


From 2482a26dc00aac8e82fcde93f93c6d727228a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 027/116] fix: read GOT ascii grids of any number of longitudes

---
 pyTMD/io/GOT.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 3c9a0e3..9607628 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -577,25 +577,18 @@ def read_ascii_file(
     ph.mask = np.zeros((nlat,nlon),dtype=bool)
     # starting lines to fill amplitude and phase variables
     l1 = 7
-    l2 = 14 + int(nlon//11)*nlat + nlat
+    l2 = 14 + int(np.ceil(nlon/11))*nlat
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//11):
-            j1 = j*11
+        # for each line of (up to) 11 tidal variables
+        for j1 in range(0, nlon, 11):
+            j2 = np.minimum(j1 + 11, nlon)
             amplitude_data = file_contents[l1].split()
-            amp.data[i,j1:j1+11] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[l2].split()
-            ph.data[i,j1:j1+11] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32)
             l1 += 1
             l2 += 1
-        # add last tidal variables
-        j1 = (j+1)*11; j2 = nlon % 11
-        amplitude_data = file_contents[l1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[l2].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        l1 += 1
-        l2 += 1
     # set masks
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     # calculate complex form of constituent oscillation
-- 
2.43.0


From ae9ee7af8cb96e56e9fafebeaaf0181d8ba8021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 028/116] fix: mask points outside of the domain of GOT models

---
 pyTMD/io/GOT.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 9607628..8a0fc55 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -250,6 +250,9 @@ def extract_constants(
             hc = _extend_matrix(hc)
         # adjust longitudinal convention of input points to fit tide model
         ilon = pyTMD.interpolate._wrap_longitudes(lon, ilon)
+        # determine if any input points are outside of the model bounds
+        invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+                  (ilat < lat.min()) | (ilat > lat.max())
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -292,6 +295,9 @@ def extract_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
@@ -441,6 +447,9 @@ def interpolate_constants(
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
     ilon = pyTMD.interpolate._wrap_longitudes(lon, ilon)
+    # determine if any input points are outside of the model bounds
+    invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+              (ilat < lat.min()) | (ilat > lat.max())
     # number of points
     npts = len(ilon)
     # number of constituents
@@ -510,6 +519,9 @@ def interpolate_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
-- 
2.43.0


From e5cb77eb05f6cb1917a1414badf590ea215cd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 029/116] fix: write FES currents to the amplitude variable of
 their type

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 004d716..fa671c6 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -812,7 +812,7 @@ def output_netcdf_file(
     # filling the NetCDF variables
     nc['lon'][:] = lon[:]
     nc['lat'][:] = lat[:]
-    nc['amplitude'][:] = amp[:]
+    nc[amp_key][:] = amp[:]
     nc[phase_key][:] = ph[:]
     # set variable attributes for coordinates
     nc['lon'].setncattr('axis', 'X')
-- 
2.43.0


From 57f39dc009008439c5629fcbf9b6b1f4a95271d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 030/116] fix: read constituent IDs of ATLAS files that note
 their encoding

---
 pyTMD/io/ATLAS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index f269bcf..1f00705 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -833,7 +833,8 @@ def read_netcdf_elevation(
         fileID = netCDF4.Dataset(uuid.uuid4().hex, 'r', memory=f.read())
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
-    # constituent name
+    # constituent name (as characters if encoding is an attribute)
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
@@ -892,7 +893,8 @@ def read_netcdf_transport(
         fileID = netCDF4.Dataset(uuid.uuid4().hex, 'r', memory=f.read())
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
-    # constituent name
+    # constituent name (as characters if encoding is an attribute)
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
-- 
2.43.0


From 36ced53ee05d126e1bfa4aceb747baaea94abbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 031/116] fix: write OTIS files in big-endian and the
 bathymetry once

---
 pyTMD/io/OTIS.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 91d1876..e228846 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1798,8 +1798,8 @@ def output_otis_grid(
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.array(ylim, dtype='>f4').tofile(fid)
+    np.array(xlim, dtype='>f4').tofile(fid)
     fid.write(struct.pack('>f',dt))
     fid.write(struct.pack('>i',nob))
     fid.write(struct.pack('>i',reclen))
@@ -1810,18 +1810,15 @@ def output_otis_grid(
     else:
         reclen = 8*nob
         fid.write(struct.pack('>i',reclen))
-        iob.tofile(fid,format='>i4')
+        np.array(iob, dtype='>i4').tofile(fid)
         fid.write(struct.pack('>i',reclen))
     reclen = 4*nx*ny
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
-    hz.tofile(fid,format='>f4')
-    for m in range(ny):
-        hz[m,:].tofile(fid,format='>f4')
+    np.array(hz, dtype='>f4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',reclen))
-    for m in range(ny):
-        mz[m,:].tofile(fid,format='>i4')
+    np.array(mz, dtype='>i4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     # close the output OTIS file
     fid.close()
@@ -1861,8 +1858,8 @@ def output_otis_elevation(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.array(ylim, dtype='>f4').tofile(fid)
+    np.array(xlim, dtype='>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1917,8 +1914,8 @@ def output_otis_transport(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.array(ylim, dtype='>f4').tofile(fid)
+    np.array(xlim, dtype='>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
-- 
2.43.0


From 5dc346f1377fab9dab8d09a66baba318132562ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 032/116] fix: cropped OTIS coordinates are copied before
 moving to the u and v nodes

---
 pyTMD/io/OTIS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index e228846..55f0545 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2053,9 +2053,10 @@ def _crop(
     rows = slice(yind[0], yind[-1]+1)
     columns = slice(xind[0], xind[-1]+1)
     # crop matrix
+    # (copied as coordinates can be later moved to the u and v nodes)
     temp = input_matrix[rows, cols[columns]]
-    x = ix[columns]
-    y = iy[rows]
+    x = np.copy(ix[columns])
+    y = np.copy(iy[rows])
     # return cropped data
     return (temp, x, y)
 
-- 
2.43.0


From 930c8cf87ad6a4b4a73c9c10ec8919f7b8be196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 033/116] fix: time of the solid Earth tide for grids was a day
 late

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index bf54ce0..e9bc214 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -1462,7 +1462,7 @@ def SET_displacements(
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i]*np.ones((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From 0a11847070543162c00d9cb3389b2cc4dbafd8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 034/116] fix: input data types are case-insensitive for all
 corrections

---
 pyTMD/compute.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index e9bc214..caaa36a 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -878,15 +878,15 @@ def LPET_elevations(
     tide_time = ts.tide + ts.tt_ut1
 
     # predict long-period equilibrium tides at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_lpe = np.zeros((ny,nx,nt))
         for i in range(nt):
             lpet = pyTMD.predict.equilibrium_tide(tide_time[i], lat)
             tide_lpe[:,:,i] = np.reshape(lpet,(ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         tide_lpe = pyTMD.predict.equilibrium_tide(tide_time, lat)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_lpe = np.zeros((nstation,nt))
         for s in range(nstation):
@@ -1031,7 +1031,7 @@ def LPT_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Srad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1051,7 +1051,7 @@ def LPT_displacements(
             # reshape to output dimensions
             Srad.data[:,:,i] = np.reshape(S[:,2], (ny,nx))
             Srad.mask[:,:,i] = np.isnan(Srad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate load pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.load_pole_tide(ts.tide, XYZ,
@@ -1068,7 +1068,7 @@ def LPT_displacements(
         Srad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Srad.data[:] = S[:,2].copy()
         Srad.mask = np.isnan(Srad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Srad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1253,7 +1253,7 @@ def OPT_displacements(
     UXYZ = np.einsum('ti...,tji...->tj...', np.c_[un, ue, ur], R)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Urad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1275,7 +1275,7 @@ def OPT_displacements(
             # reshape to output dimensions
             Urad.data[:,:,i] = np.reshape(U[:,2], (ny,nx))
             Urad.mask[:,:,i] = np.isnan(Urad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate ocean pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.ocean_pole_tide(ts.tide, XYZ, UXYZ,
@@ -1294,7 +1294,7 @@ def OPT_displacements(
         Urad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Urad.data[:] = U[:,2].copy()
         Urad.mask = np.isnan(Urad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Urad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1455,7 +1455,7 @@ def SET_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_se = np.zeros((ny,nx,nt))
         # convert coordinates to column arrays
@@ -1474,7 +1474,7 @@ def SET_displacements(
             SE = np.einsum('ti...,tji...->tj...', dxi, R)
             # reshape to output dimensions
             tide_se[:,:,i] = np.reshape(SE[:,2], (ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # convert coordinates to column arrays
         XYZ = np.c_[X, Y, Z]
         SXYZ = np.c_[SX, SY, SZ]
@@ -1487,7 +1487,7 @@ def SET_displacements(
         SE = np.einsum('ti...,tji...->tj...', dxi, R)
         # reshape to output dimensions
         tide_se = SE[:,2].copy()
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_se = np.zeros((nstation,nt))
         # convert coordinates to column arrays
-- 
2.43.0


From 9be9918ed760796797a659931b8878d1a78ee685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 035/116] fix: parameters of the GRS80 ellipsoid

---
 pyTMD/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index 3e3ba55..ea1c565 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -321,8 +321,8 @@ class datum:
         elif self.name in ('GRS80', 'NAD83'):
             # Geodetic Reference System 1980
             # North American Datum 1983
-            self.a_axis = 6378135.0# [m] semimajor axis of the ellipsoid
-            self.flat = 1.0/298.26# flattening of the ellipsoid
+            self.a_axis = 6378137.0# [m] semimajor axis of the ellipsoid
+            self.flat = 1.0/298.257222101# flattening of the ellipsoid
             self.GM = 3.986005e14# [m^3/s^2] Geocentric Gravitational Constant
 
         elif (self.name == 'GRS67'):
-- 
2.43.0


From 1f1e89c5505974dd839ccea032dcf92922e135b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 036/116] fix: inferring minor constituents from too few majors
 returns an array of zeros

---
 pyTMD/predict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index e276222..26d56d8 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -324,8 +324,12 @@ def infer_minor(
     kwargs.setdefault('raise_exception', False)
     # list of minor constituents
     kwargs.setdefault('minor', None)
+    # number of data points to calculate if running time series/drift/map
+    npts, nc = np.shape(np.ma.atleast_2d(zmajor))
+    nt = len(np.atleast_1d(t))
+    n = nt if ((npts == 1) & (nt > 1)) else npts
     # infer the minor tidal constituents
-    dh = 0.0
+    dh = np.ma.zeros((n))
     # infer short-period tides for minor constituents
     if kwargs['corrections'] in ('GOT',):
         dh += _infer_semi_diurnal(t, zmajor, constituents, **kwargs)
-- 
2.43.0


From f34fa87abd5d182903c28eed3252f52f69cbedf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 037/116] fix: constituents of OTIS models given as a list of
 one file

---
 pyTMD/io/OTIS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 55f0545..6e3743f 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -398,6 +398,9 @@ def extract_constants(
     elif kwargs['type'] in ('z','V','U'):
         unit_conv = 1.0
 
+    # single file case (may contain multiple constituents)
+    if isinstance(model_file,list) and (len(model_file) == 1):
+        model_file, = model_file
     # read and interpolate each constituent
     if isinstance(model_file,list):
         constituents = [read_constituents(m)[0].pop() for m in model_file]
@@ -669,6 +672,9 @@ def read_constants(
     lon, lat = crs.transform(gridx, gridy, direction='INVERSE')
 
     # read each constituent
+    if isinstance(model_file, list) and (len(model_file) == 1):
+        # single file case (may contain multiple constituents)
+        model_file, = model_file
     if isinstance(model_file, list):
         cons = [read_constituents(m)[0].pop() for m in model_file]
     else:
-- 
2.43.0


From a8bc7dcc83651b3882dba74d9c0181437971e918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 038/116] fix: definition files of OTIS currents in a single
 file

---
 pyTMD/io/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index ce00fd7..f481e9e 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -733,8 +733,12 @@ class model:
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    if isinstance(model_file, str):
+                        # fully defined single file case
+                        temp.model_file[key] = pathlib.Path(model_file).expanduser()
+                    else:
+                        temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
+                            model_file]
             elif (temp.type == 'z') and isinstance(temp.model_file, list):
                 # resolve paths to model files
                 temp.model_file = [pathlib.Path(f).expanduser() for f in
-- 
2.43.0


From f9e81909d81fad63c2738bb8dc546a5ea5a4b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 039/116] fix: extract currents from FES models

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index f481e9e..8a10139 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1041,7 +1041,7 @@ class model:
                 model_file = self.model_file
             # extract tidal constants for model type
             amp,ph = FES.extract_constants(lon, lat,
-                self.model_file, version=self.version,
+                model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
             c = self.constituents
-- 
2.43.0


From 00bbcdd0af4750671b730d071f04120625635ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 040/116] fix: appending the node tide leaves the constituents
 of FES models as they were

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 8a10139..05817a2 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1044,7 +1044,7 @@ class model:
                 model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
-            c = self.constituents
+            c = copy.copy(self.constituents)
         # append node equilibrium tide if not in constituents list
         if kwargs['append_node'] and ('node' not in c):
             # calculate node equilibrium tide
-- 
2.43.0


From 2da7926ed6a677e8bfdf063d3f43a87e54105a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 041/116] fix: FES-ascii is a known format of model definition
 files

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 05817a2..99e187a 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -458,7 +458,8 @@ class model:
         # load the database of model parameters
         parameters = load_database()
         # extract all known formats
-        format_list = []
+        # include supported formats without models in the database
+        format_list = ['FES-ascii']
         for variable, models in parameters.items():
             for model, val in models.items():
                 format_list.append(val['format'])
-- 
2.43.0


From 87a8011ca223e63c381af2e2e3f949057e8c3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 042/116] fix: order of the model files found with glob strings

---
 pyTMD/io/model.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 99e187a..a66ecc8 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -713,24 +713,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
@@ -761,24 +761,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
                 #     raise FileNotFoundError(message) from exc
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
@@ -797,24 +797,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-- 
2.43.0


From a299652e6b7abc49439c407b2ddd87b0a414c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 043/116] fix: additional databases keep the models of the
 pyTMD database

---
 pyTMD/io/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index a66ecc8..7bcef83 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -126,7 +126,10 @@ def load_database(extra_databases: list = []):
     # load any additional databases
     for db in extra_databases:
         with open(db, 'r', encoding='utf-8') as fid:
-            parameters.update(json.load(fid))
+            extra = json.load(fid)
+        # add the models of each variable to the database
+        for key, val in extra.items():
+            parameters.setdefault(key, {}).update(val)
     # return parameters
     return DataBase(**parameters)
 
-- 
2.43.0


From 63d2dcb900617ad71b10116d9ee46ce4afb55af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 044/116] fix: complete the path of models given as pathlib
 objects

---
 pyTMD/io/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 7bcef83..729f8e5 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -621,9 +621,9 @@ class model:
         if isinstance(model_file, list):
             output_file = [self.pathfinder(f) for f in model_file]
             valid = all([f.exists() for f in output_file])
-        elif isinstance(model_file, str):
+        elif isinstance(model_file, (str, pathlib.Path)):
             output_file = self.directory.joinpath(
-                ''.join([model_file, self.gzip]))
+                ''.join([str(model_file), self.gzip]))
             valid = output_file.exists()
         # check that (all) output files exist
         if self.verify and not valid:
-- 
2.43.0


From 56bbfa6a3443f9f8438419312eb3412fbd630f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 045/116] fix: read model definitions from open files

---
 pyTMD/io/model.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 729f8e5..c6325e6 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -646,8 +646,13 @@ class model:
         # set default keyword arguments
         kwargs.setdefault('format', 'json')
         # Opening definition file and assigning file ID number
-        if isinstance(definition_file, io.IOBase):
-            fid = copy.copy(definition_file)
+        is_open = isinstance(definition_file, io.IOBase)
+        if is_open and definition_file.seekable():
+            # keep the position of the open definition file
+            position = definition_file.tell()
+            fid = definition_file
+        elif is_open:
+            fid = definition_file
         else:
             definition_file = pathlib.Path(definition_file).expanduser()
             fid = definition_file.open(mode='r', encoding='utf8')
@@ -656,8 +661,11 @@ class model:
             raise ValueError('ascii definition format no longer supported')
         else:
             self._parse_file(fid)
-        # close the definition file
-        fid.close()
+        # close the definition file or return to its initial position
+        if is_open and definition_file.seekable():
+            definition_file.seek(position)
+        elif not is_open:
+            fid.close()
         # return the model object
         return self
 
-- 
2.43.0


From ccc4ea515a78b03b98fceb3b98351798e2f94e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 046/116] fix: equilibrium node tide for a single latitude

---
 pyTMD/io/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index c6325e6..443de68 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1207,6 +1207,8 @@ class model:
         phase: np.ndarray
             Tidal phase in degrees
         """
+        # verify that latitudes are an array
+        lat = np.atleast_1d(lat)
         # Cartwright and Edden potential amplitude
         amajor = 0.027929# node
         # Love numbers for long-period tides (Wahr, 1981)
-- 
2.43.0


From 6ce1cbb4c8327e6cce4001a428640d34806e3df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 047/116] fix: cartesian coordinates of arrays with a single
 longitude

---
 pyTMD/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c39225b..50f5da7 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1654,7 +1654,8 @@ def to_cartesian(
         for spherical coordinates set to 0
     """
     # verify axes and copy to not modify inputs
-    singular_values = (np.ndim(lon) == 0)
+    singular_values = (np.ndim(lon) == 0) and (np.ndim(lat) == 0) and \
+        (np.ndim(h) == 0)
     lon = np.atleast_1d(np.copy(lon)).astype(np.float64)
     lat = np.atleast_1d(np.copy(lat)).astype(np.float64)
     # fix coordinates to be 0:360
-- 
2.43.0


From 3756f9387c7c77bf15304348aa8e8f92bca311dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 048/116] fix: latitude and height of points on the polar axis
 (Bowring)

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 50f5da7..41a4ee4 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1895,7 +1895,7 @@ def _bowring_iterative(
     u = np.arctan(a_axis*z/(b_axis*p))
     # initial estimated value for latitude
     phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-        (p - e12*a_axis*np.cos(u)**3))
+        np.maximum(p - e12*a_axis*np.cos(u)**3, 0.0))
     phi0 = np.inf*np.ones_like(lon)
     # iterate to tolerance or to maximum number of iterations
     i = 0
@@ -1906,7 +1906,7 @@ def _bowring_iterative(
         u = np.arctan(b_axis*np.tan(phi)/a_axis)
         # estimate new value of latitude
         phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-            (p - e12*a_axis*np.cos(u)**3))
+            np.maximum(p - e12*a_axis*np.cos(u)**3, 0.0))
         # add to iterator
         i += 1
     # calculate final radius of curvature
-- 
2.43.0


From 27718d765f6a35e5d4c5d1ad4f87e459377c66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 049/116] fix: heights of points on the polar axis (Moritz)

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 41a4ee4..3f23229 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1840,7 +1840,7 @@ def _moritz_iterative(
         # calculate radius of curvature
         N = a_axis/np.sqrt(1.0 - ecc1**2 * np.sin(phi)**2)
         # estimate new value of height
-        h = p/np.cos(phi) - N
+        h = p*np.cos(phi) + (z + ecc1**2*N*np.sin(phi))*np.sin(phi) - N
         # estimate new value for latitude using heights
         phi = np.arctan(z/(p*(1.0 - ecc1**2*N/(N + h))))
         # add to iterator
-- 
2.43.0


From c5d272fe19256911eaf5d3c91879c8219a30b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 050/116] fix: closed-form geodetic coordinates for any set of
 points

---
 pyTMD/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 3f23229..08a7fff 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1960,7 +1960,7 @@ def _zhu_closed_form(
         ind, = np.nonzero(w == 0)
         h[ind] = np.sign(z[ind])*z[ind] - b_axis
         lat[ind] = 90.0*np.sign(z[ind])
-    else:
+    if np.any(w != 0):
         # all other cases
         ind, = np.nonzero(w != 0)
         l = e12/2.0
@@ -1972,12 +1972,12 @@ def _zhu_closed_form(
         D = np.sqrt((2.0*q - m*n*l**2)*m*n*l**2)
         B = i/3.0 - (q + D)**(1.0/3.0) - (q - D)**(1.0/3.0)
         t = np.sqrt(np.sqrt(B**2-k) - (B + i)/2.0) - \
-            np.sign(m - n)*np.sqrt((B - i)/2.0)
-        wi = w/(t + l)
+            np.sign(m - n)*np.sqrt(np.maximum((B - i)/2.0, 0.0))
+        wi = w[ind]/(t + l)
         zi = (1.0 - e12)*z[ind]/(t - l)
         # calculate latitude and height
         lat[ind] = np.arctan2(zi, ((1.0 - e12)*wi))/dtr
-        h[ind] = np.sign(t-1.0+l)*np.sqrt((w-wi)**2.0 + (z[ind]-zi)**2.0)
+        h[ind] = np.sign(t-1.0+l)*np.sqrt((w[ind]-wi)**2.0 + (z[ind]-zi)**2.0)
     # return longitude, latitude and height
     return (lon, lat, h)
 
-- 
2.43.0


From f0f8df1ab5b8714169ab53c51b5e13faf485d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 051/116] fix: East-North-Up coordinates with arrays of
 reference points

---
 pyTMD/spatial.py | 50 +++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 08a7fff..cd607ec 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -2026,25 +2026,20 @@ def to_ENU(
     # degrees to radians
     dtr = np.pi/180.0
     # verify axes and copy to not modify inputs
-    singular_values = (np.ndim(x) == 0)
+    singular_values = (np.ndim(x) == 0) and (np.ndim(lon0) == 0)
     x = np.atleast_1d(np.copy(x)).astype(np.float64)
     y = np.atleast_1d(np.copy(y)).astype(np.float64)
     z = np.atleast_1d(np.copy(z)).astype(np.float64)
     # convert latitude and longitude to ECEF
     X0, Y0, Z0 = to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
-    # calculate the rotation matrix
-    R = np.zeros((3, 3))
-    R[0,0] = -np.sin(dtr*lon0)
-    R[0,1] = np.cos(dtr*lon0)
-    R[0,2] = 0.0
-    R[1,0] = -np.sin(dtr*lat0)*np.cos(dtr*lon0)
-    R[1,1] = -np.sin(dtr*lat0)*np.sin(dtr*lon0)
-    R[1,2] = np.cos(dtr*lat0)
-    R[2,0] = np.cos(dtr*lat0)*np.cos(dtr*lon0)
-    R[2,1] = np.cos(dtr*lat0)*np.sin(dtr*lon0)
-    R[2,2] = np.sin(dtr*lat0)
-    # calculate the ENU coordinates
-    E, N, U = np.dot(R, np.vstack((x - X0, y - Y0, z - Z0)))
+    # sines and cosines of the reference coordinates
+    slon, clon = np.sin(dtr*lon0), np.cos(dtr*lon0)
+    slat, clat = np.sin(dtr*lat0), np.cos(dtr*lat0)
+    # rotate to calculate the ENU coordinates
+    dx, dy, dz = (x - X0, y - Y0, z - Z0)
+    E = -slon*dx + clon*dy
+    N = -slat*clon*dx - slat*slon*dy + clat*dz
+    U = clat*clon*dx + clat*slon*dy + slat*dz
     # return the ENU coordinates
     # flattened to singular values if necessary
     if singular_values:
@@ -2097,29 +2092,20 @@ def from_ENU(
     # degrees to radians
     dtr = np.pi/180.0
     # verify axes and copy to not modify inputs
-    singular_values = (np.ndim(E) == 0)
+    singular_values = (np.ndim(E) == 0) and (np.ndim(lon0) == 0)
     E = np.atleast_1d(np.copy(E)).astype(np.float64)
     N = np.atleast_1d(np.copy(N)).astype(np.float64)
     U = np.atleast_1d(np.copy(U)).astype(np.float64)
     # convert latitude and longitude to ECEF
     X0, Y0, Z0 = to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
-    # calculate the rotation matrix
-    R = np.zeros((3, 3))
-    R[0,0] = -np.sin(dtr*lon0)
-    R[1,0] = np.cos(dtr*lon0)
-    R[2,0] = 0.0
-    R[0,1] = -np.sin(dtr*lat0)*np.cos(dtr*lon0)
-    R[1,1] = -np.sin(dtr*lat0)*np.sin(dtr*lon0)
-    R[2,1] = np.cos(dtr*lat0)
-    R[0,2] = np.cos(dtr*lat0)*np.cos(dtr*lon0)
-    R[1,2] = np.cos(dtr*lat0)*np.sin(dtr*lon0)
-    R[2,2] = np.sin(dtr*lat0)
-    # calculate the ECEF coordinates
-    x, y, z = np.dot(R, np.vstack((E, N, U)))
-    # add reference coordinates
-    x += X0
-    y += Y0
-    z += Z0
+    # sines and cosines of the reference coordinates
+    slon, clon = np.sin(dtr*lon0), np.cos(dtr*lon0)
+    slat, clat = np.sin(dtr*lat0), np.cos(dtr*lat0)
+    # rotate to calculate the ECEF coordinates
+    # and add reference coordinates
+    x = -slon*E - slat*clon*N + clat*clon*U + X0
+    y = clon*E - slat*slon*N + clat*slon*U + Y0
+    z = clat*N + slat*U + Z0
     # return the ECEF coordinates
     # flattened to singular values if necessary
     if singular_values:
-- 
2.43.0


From b1e16491c0141fbdc3fde110ea3d8299b1428c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 052/116] fix: angles below one degree from degrees, minutes
 and seconds

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index cd607ec..97a2e25 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1619,7 +1619,7 @@ def from_dms(
     d: np.ndarray
         decimal degrees
     """
-    sign = np.sign(degree)
+    sign = np.copysign(1.0, degree)
     d = np.abs(degree) + minute/60.0 + second/3600.0
     return sign*d
 
-- 
2.43.0


From 835756d6e6bc92ae0d24c0c5a7bd1b2355a2d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 053/116] fix: changing ellipsoids does not modify the
 latitudes given

---
 pyTMD/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 97a2e25..6dc7938 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1416,6 +1416,8 @@ def convert_ellipsoid(
     # semiminor axis of input and output ellipsoid
     b1 = (1.0 - f1)*a1
     b2 = (1.0 - f2)*a2
+    # copy to not modify inputs
+    phi1 = np.copy(phi1)
     # initialize output arrays
     npts = len(phi1)
     phi2 = np.zeros((npts))
-- 
2.43.0


From 129eb86e3595a091648dbc7f999de869e0ad78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 054/116] fix: East-North-Up coordinates of a point from arrays
 of references

---
 pyTMD/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 6dc7938..335f5b9 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -2028,12 +2028,13 @@ def to_ENU(
     # degrees to radians
     dtr = np.pi/180.0
     # verify axes and copy to not modify inputs
-    singular_values = (np.ndim(x) == 0) and (np.ndim(lon0) == 0)
+    singular_values = (np.ndim(x) == 0)
     x = np.atleast_1d(np.copy(x)).astype(np.float64)
     y = np.atleast_1d(np.copy(y)).astype(np.float64)
     z = np.atleast_1d(np.copy(z)).astype(np.float64)
     # convert latitude and longitude to ECEF
     X0, Y0, Z0 = to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
+    singular_values &= (np.ndim(X0) == 0)
     # sines and cosines of the reference coordinates
     slon, clon = np.sin(dtr*lon0), np.cos(dtr*lon0)
     slat, clat = np.sin(dtr*lat0), np.cos(dtr*lat0)
@@ -2094,12 +2095,13 @@ def from_ENU(
     # degrees to radians
     dtr = np.pi/180.0
     # verify axes and copy to not modify inputs
-    singular_values = (np.ndim(E) == 0) and (np.ndim(lon0) == 0)
+    singular_values = (np.ndim(E) == 0)
     E = np.atleast_1d(np.copy(E)).astype(np.float64)
     N = np.atleast_1d(np.copy(N)).astype(np.float64)
     U = np.atleast_1d(np.copy(U)).astype(np.float64)
     # convert latitude and longitude to ECEF
     X0, Y0, Z0 = to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
+    singular_values &= (np.ndim(X0) == 0)
     # sines and cosines of the reference coordinates
     slon, clon = np.sin(dtr*lon0), np.cos(dtr*lon0)
     slat, clat = np.sin(dtr*lat0), np.cos(dtr*lat0)
-- 
2.43.0


From 60900281793973d16927d74c36eb32e65548d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 055/116] fix: ratio between gravity at the pole and at the
 equator

---
 pyTMD/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index ea1c565..aba0ce1 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -580,7 +580,7 @@ class datum:
     def dk(self) -> float:
         """Ratio between gravity at pole versus gravity at equator
         """
-        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_b) - 1.0
+        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_a) - 1.0
 
     # Normal potential at the ellipsoid
     # p. 68, Eqn.(2-123)
-- 
2.43.0


From 500e274cead0a812f41ae2cddf691e9da973af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 056/116] fix: spherical harmonics were multiplied by the sine
 of the colatitude

---
 pyTMD/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 3967821..19b610f 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -280,7 +280,7 @@ def sph_harm(
     Plm = norm*legendre(l, np.cos(theta), m=m)
     # spherical harmonics of degree l and order m
     dfactor = np.sqrt((2.0*l + 1.0)/(4.0*np.pi))
-    Ylm = dfactor*Plm*np.sin(theta)*np.exp(1j*m*phi)
+    Ylm = dfactor*Plm*np.exp(1j*m*phi)
     # return values
     if singular_values:
         return Ylm[0]
-- 
2.43.0


From bd01b8b62051193f97cdd872dfc053f9255d906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 057/116] fix: associated Legendre polynomials of degree zero

---
 pyTMD/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 19b610f..51fc90d 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -223,8 +223,9 @@ def assoc_legendre(lmax, x):
     Plm = np.zeros((lmax+1,lmax+1,nx))
     # initial polynomials for the recursion
     Plm[0,0,:] = 1.0
-    Plm[1,0,:] = np.sqrt(3.0)*x
-    Plm[1,1,:] = np.sqrt(3.0)*u
+    if (lmax > 0):
+        Plm[1,0,:] = np.sqrt(3.0)*x
+        Plm[1,1,:] = np.sqrt(3.0)*u
     for l in range(2, lmax+1):
         # normalization factor
         norm = np.sqrt(2.0*l+1.0)
-- 
2.43.0


From 5276acb47b34350b49afa20a3b43da25e64c5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 058/116] fix: raise an invalid projection as a CRSError

---
 pyTMD/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index aba0ce1..b3940b9 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -141,7 +141,7 @@ class crs:
         else:
             return self
         # projection not found or available
-        raise pyproj.exceptions.CRSError
+        raise pyproj.exceptions.CRSError(f'Unknown projection: {PROJ}')
 
     def transform(self,
             i1: np.ndarray,
@@ -212,7 +212,7 @@ class crs:
         else:
             return CRS
         # no projection can be made
-        raise pyproj.exceptions.CRSError
+        raise pyproj.exceptions.CRSError(f'Unknown projection: {PROJECTION}')
 
     @property
     def direction(self):
-- 
2.43.0


From e5b4503d67692415b9b52d1020eb83c7ee1229c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 059/116] fix: Unix times do not depend on the local time zone

---
 pyTMD/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 0a3ce57..a4842ed 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -68,6 +68,7 @@ import posixpath
 import subprocess
 import lxml.etree
 import calendar, time
+import datetime
 import dateutil.parser
 if sys.version_info[0] == 2:
     from urllib import quote_plus
@@ -409,6 +410,9 @@ def get_unix_time(
     except (TypeError, ValueError):
         return None
     else:
+        # times without a time zone are in UTC
+        if parsed_time.tzinfo is None:
+            parsed_time = parsed_time.replace(tzinfo=datetime.timezone.utc)
         return parsed_time.timestamp()
 
 # PURPOSE: output a time string in isoformat
-- 
2.43.0


From a91d02b312c96a474b2fa1ba0aa2cb8e9c73f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 060/116] fix: incomplete downloads are not stored as if
 complete

---
 pyTMD/utilities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index a4842ed..9ffdd43 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -883,6 +883,9 @@ def from_http(
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
         remote_buffer.seek(0)
+        # verify that the complete file was received
+        if getattr(response, 'length', None):
+            raise Exception('Incomplete download from {0}'.format(posixpath.join(*HOST)))
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
         # generate checksum hash for remote file
@@ -1449,6 +1452,9 @@ def from_cddis(
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
         remote_buffer.seek(0)
+        # verify that the complete file was received
+        if getattr(response, 'length', None):
+            raise Exception('Incomplete download from {0}'.format(posixpath.join(*HOST)))
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
         # generate checksum hash for remote file
-- 
2.43.0


From 063b10894a36e8b3725c6f82bed3dae23006419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 061/116] fix: search for filenames by their complete name

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 335f5b9..b520451 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -177,7 +177,7 @@ def case_insensitive_filename(filename: str | pathlib.Path):
     if not filename.exists():
         # search for filename without case dependence
         f = [f.name for f in filename.parent.iterdir() if
-            re.match(filename.name, f.name, re.I)]
+            (f.name.lower() == filename.name.lower())]
         # raise error if no file found
         if not f:
             raise FileNotFoundError(str(filename))
-- 
2.43.0


From 128f4bb31d5e0b99639d0c4e58c11f4424881282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 062/116] fix: read ascii data from file objects in bytes

---
 pyTMD/spatial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index b520451..246acfc 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -285,7 +285,10 @@ def from_ascii(filename: str, **kwargs):
             file_contents = f.read().decode('ISO-8859-1').splitlines()
     elif (kwargs['compression'] == 'bytes'):
         # read input file object and split lines
-        file_contents = filename.read().splitlines()
+        file_contents = filename.read()
+        if isinstance(file_contents, bytes):
+            file_contents = file_contents.decode('ISO-8859-1')
+        file_contents = file_contents.splitlines()
     else:
         # read input ascii file (.txt, .asc) and split lines
         filename = case_insensitive_filename(filename)
-- 
2.43.0


From 1027c545578a2ae54f8391e3078120e062d51de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 063/116] fix: month names in the dates of ascii files

---
 pyTMD/spatial.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 246acfc..447336b 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -345,17 +345,15 @@ def from_ascii(filename: str, **kwargs):
         # extract columns of interest and assign to dict
         # convert fortran exponentials if applicable
         if kwargs['delimiter']:
-            column = {c:l.replace('D', 'E') for c, l in
-                zip(columns, line.split(kwargs['delimiter']))}
+            column = dict(zip(columns, line.split(kwargs['delimiter'])))
         else:
-            column = {c:r.replace('D', 'E') for c, r in
-                zip(columns, rx.findall(line))}
+            column = dict(zip(columns, rx.findall(line)))
         # copy variables from column dict to output dictionary
         for c in columns:
             if (c == 'time') and kwargs['parse_dates']:
                 dinput[c][i] = timescale.time.parse(column[c])
             else:
-                dinput[c][i] = np.float64(column[c])
+                dinput[c][i] = np.float64(column[c].replace('D', 'E'))
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
-- 
2.43.0


From 6765251837165b7c92ff149d7bdd8d5fb8e48412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 064/116] fix: fill values in the headers of ascii files

---
 pyTMD/spatial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 447336b..34de491 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -357,8 +357,13 @@ def from_ascii(filename: str, **kwargs):
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
+        # attributes in YAML headers are strings
+        dinput['data'].fill_value = np.float64(
+            dinput['attributes']['data']['_FillValue'])
         dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        # mask invalid values if fill value is NaN
+        if np.isnan(dinput['data'].fill_value):
+            dinput['data'].mask |= np.isnan(dinput['data'].data)
     # return the spatial variables
     return dinput
 
-- 
2.43.0


From 7848c562e633447e3068798d251889dd577f711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 065/116] fix: keep the masks of packed netCDF4 variables

---
 pyTMD/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 34de491..5f44997 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -469,9 +469,11 @@ def from_netCDF4(filename: str, **kwargs):
         dinput['attributes']['projection'] = srs.ExportToProj4()
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
+        # keep the mask of packed or invalid data
+        mask = np.ma.getmaskarray(dinput['data'])
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask = mask | (dinput['data'].data == dinput['data'].fill_value)
     # Closing the NetCDF file
     fileID.close()
     # return the spatial variables
-- 
2.43.0


From d8b57528e65b8ac3f33687d58d8d8292ba71d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 066/116] fix: attributes of netCDF4 files were lost if others
 start with their names

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 5f44997..97e8ac6 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -420,7 +420,7 @@ def from_netCDF4(filename: str, **kwargs):
     for attr in ['title', 'description', 'projection']:
         # try getting the attribute
         try:
-            ncattr, = [s for s in fileID.ncattrs() if re.match(attr, s, re.I)]
+            ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
             dinput['attributes'][attr] = fileID.getncattr(ncattr)
         except (ValueError, AttributeError):
             pass
@@ -447,7 +447,7 @@ def from_netCDF4(filename: str, **kwargs):
             # try getting the attribute
             try:
                 ncattr, = [s for s in group.variables[nc].ncattrs()
-                    if re.match(attr, s, re.I)]
+                    if re.fullmatch(attr, s, re.I)]
                 dinput['attributes'][key][attr] = \
                     group.variables[nc].getncattr(ncattr)
             except (ValueError, AttributeError):
-- 
2.43.0


From 56b3c81be8fc6a86df295d97f4e87ebfc0a206a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 067/116] fix: read compressed HDF5 files from string paths

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 97e8ac6..89f667a 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -517,7 +517,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         with gzip.open(case_insensitive_filename(filename), 'r') as f:
             fid = io.BytesIO(f.read())
         # set filename of BytesIO object
-        fid.filename = filename.name
+        fid.filename = pathlib.Path(filename).name
         # rewind to start of file
         fid.seek(0)
         # read as in-memory (diskless) HDF5 dataset from BytesIO object
-- 
2.43.0


From 05458c70b406cde1a72b94dda4fe4ed07669e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 068/116] fix: fill values, scalars and existing variables of
 HDF5 files

---
 pyTMD/spatial.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 89f667a..b1023d5 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -557,7 +557,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     # for each variable
     for key, h5 in kwargs['field_mapping'].items():
         # Getting the data from each HDF5 variable
-        dinput[key] = np.copy(group[h5][:])
+        dinput[key] = np.copy(group[h5][...])
         # get attributes for the included variables
         dinput['attributes'][key] = {}
         for attr in attributes_list:
@@ -585,6 +585,9 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
         dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        # mask invalid values if fill value is NaN
+        if np.isnan(dinput['data'].fill_value):
+            dinput['data'].mask |= np.isnan(dinput['data'].data)
     # Closing the HDF5 file
     fileID.close()
     # return the spatial variables
@@ -1097,18 +1100,21 @@ def to_HDF5(
     # Defining the HDF5 dataset variables
     h5 = {}
     for key, val in output.items():
+        # replace invalid values if there is a fill value
+        if '_FillValue' in attributes[key].keys():
+            val = np.ma.filled(val, attributes[key]['_FillValue'])
         if key in fileID:
-            fileID[key][...] = val[:]
+            h5[key] = fileID[key]
+            h5[key][...] = val
         elif '_FillValue' in attributes[key].keys():
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
                 compression='gzip')
-            attributes[key].pop('_FillValue')
         elif val.shape:
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
         else:
-            h5[key] = fileID.create_dataset(key, val.shape,
+            h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype)
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-- 
2.43.0


From 8ee1ac0a8de265d394e09a57a8550528346edd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 069/116] fix: writing netCDF4 files does not modify the
 attributes given

---
 pyTMD/spatial.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index b1023d5..f9c5c7f 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -966,7 +966,6 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('time',),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif val.shape:
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
         else:
@@ -975,7 +974,9 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill values are set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
@@ -1008,7 +1009,6 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 3):
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
         elif (val.ndim == 2):
@@ -1025,7 +1025,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill values are set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
@@ -1057,7 +1059,6 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 2):
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
         elif val.shape and (len(val) == nt):
@@ -1070,7 +1071,9 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill values are set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def to_HDF5(
         output: dict,
-- 
2.43.0


From d969247f77c736eb4c44add8de8e657bb5d54d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 070/116] fix: append variables to existing netCDF4 files

---
 pyTMD/spatial.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f9c5c7f..6a6042e 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -957,7 +957,8 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
 
     # Defining the NetCDF dimensions
-    fileID.createDimension('time', len(np.atleast_1d(output['time'])))
+    if 'time' not in fileID.dimensions:
+        fileID.createDimension('time', len(np.atleast_1d(output['time'])))
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
@@ -998,9 +999,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 3]
     ny, nx, nt = output[reference_fields[0]].shape
-    fileID.createDimension('y', ny)
-    fileID.createDimension('x', nx)
-    fileID.createDimension('time', nt)
+    for dim, size in zip(('y', 'x', 'time'), (ny, nx, nt)):
+        if dim not in fileID.dimensions:
+            fileID.createDimension(dim, size)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
@@ -1049,8 +1050,9 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 2]
     nstation, nt = output[reference_fields[0]].shape
-    fileID.createDimension('station', nstation)
-    fileID.createDimension('time', nt)
+    for dim, size in zip(('station', 'time'), (nstation, nt)):
+        if dim not in fileID.dimensions:
+            fileID.createDimension(dim, size)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
-- 
2.43.0


From d350be6b43c20bb922cad6a23a8044d54d818f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 071/116] fix: write fill values for invalid data in ascii
 files

---
 pyTMD/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 6a6042e..6f3af2e 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -849,7 +849,9 @@ def to_ascii(
     # open the output file
     fid = filename.open(mode='w', encoding='utf8')
     # create a column stack arranging data in column order
-    data_stack = np.c_[[output[col] for col in columns]]
+    # replace invalid values if there is a fill value
+    data_stack = np.c_[[np.ma.filled(output[col],
+        attributes.get(col, {}).get('_FillValue')) for col in columns]]
     ncol, nrow = np.shape(data_stack)
     # print YAML header to top of file
     if kwargs['header']:
-- 
2.43.0


From e682ad86dc7e90504f68ecc9495fd7cdf115476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 072/116] fix: mask invalid values of geotiff files with fill
 values of zero or NaN

---
 pyTMD/spatial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 6f3af2e..207fd97 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -681,11 +681,14 @@ def from_geotiff(filename: str, **kwargs):
     # check if image has fill values
     dinput['data'] = np.ma.asarray(dinput['data'])
     dinput['data'].mask = np.zeros_like(dinput['data'], dtype=bool)
-    if ds.GetRasterBand(1).GetNoDataValue():
+    if ds.GetRasterBand(1).GetNoDataValue() is not None:
         # mask invalid values
         dinput['data'].fill_value = ds.GetRasterBand(1).GetNoDataValue()
         # create mask array for bad values
         dinput['data'].mask[:] = (dinput['data'].data == dinput['data'].fill_value)
+        # mask invalid values if fill value is NaN
+        if np.isnan(dinput['data'].fill_value):
+            dinput['data'].mask[:] |= np.isnan(dinput['data'].data)
         # set attribute for fill value
         dinput['attributes']['data']['_FillValue'] = dinput['data'].fill_value
     # close the dataset
-- 
2.43.0


From 0c285eb09d3f9df95bdf2df55856a73f996711e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 073/116] fix: write cloud optimized geotiff files and their
 fill values

---
 pyTMD/spatial.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 207fd97..e144efb 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1181,15 +1181,21 @@ def to_geotiff(
     kwargs.setdefault('options', ['COMPRESS=LZW'])
     varname = copy.copy(kwargs['varname'])
     # verify grid dimensions to be iterable
-    output = expand_dims(output, varname=varname)
+    # (copy to not modify inputs)
+    output = expand_dims(copy.copy(output), varname=varname)
     # grid shape
     ny, nx, nband = np.shape(output[varname])
     # output as geotiff or specified driver
     driver = osgeo.gdal.GetDriverByName(kwargs['driver'])
     # set up the dataset with creation options
     filename = pathlib.Path(filename).expanduser().absolute()
-    ds = driver.Create(str(filename), nx, ny, nband,
-        kwargs['dtype'], kwargs['options'])
+    if (kwargs['driver'].lower() == 'cog'):
+        # cloud optimized geotiffs can only be copied from other datasets
+        ds = osgeo.gdal.GetDriverByName('MEM').Create('', nx, ny, nband,
+            kwargs['dtype'])
+    else:
+        ds = driver.Create(str(filename), nx, ny, nband,
+            kwargs['dtype'], kwargs['options'])
     # top left x, w-e pixel resolution, rotation
     # top left y, rotation, n-s pixel resolution
     xmin, xmax, ymin, ymax = attributes['extent']
@@ -1203,14 +1209,19 @@ def to_geotiff(
     ds.SetProjection( srs.ExportToWkt() )
     # for each band
     for band in range(nband):
+        data = output[varname][:, :, band]
         # set fill value for band
         if '_FillValue' in attributes[varname].keys():
             fill_value = attributes[varname]['_FillValue']
             ds.GetRasterBand(band+1).SetNoDataValue(fill_value)
+            data = np.ma.filled(data, fill_value)
         # write band to geotiff array
-        ds.GetRasterBand(band+1).WriteArray(output[varname][:, :, band])
+        ds.GetRasterBand(band+1).WriteArray(data)
     # print filename if verbose
     logging.info(str(filename))
+    # create output from dataset
+    if (kwargs['driver'].lower() == 'cog'):
+        driver.CreateCopy(str(filename), ds, options=kwargs['options'])
     # close dataset
     ds.FlushCache()
 
-- 
2.43.0


From 7c6ea80f192beb92f6c5cd61548d94ed05c3b1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 074/116] fix: parquet files without a coordinate reference
 system

---
 pyTMD/spatial.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index e144efb..8b002a0 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -742,19 +742,16 @@ def from_parquet(filename: str, **kwargs):
     if 'geo' in attr.keys():
         # extract crs and encoding from geoparquet metadata
         primary_column = attr['geo']['primary_column']
-        crs_metadata = attr['geo']['columns'][primary_column]['crs']
+        crs_metadata = attr['geo']['columns'][primary_column].get('crs')
         encoding = attr['geo']['columns'][primary_column]['encoding']
         attr['geometry_encoding'] = encoding
-        # create spatial reference object from PROJJSON
-        osgeo.osr.UseExceptions()
-        srs = osgeo.osr.SpatialReference()
-        srs.SetFromUserInput(json.dumps(crs_metadata))
-        # add projection information to attributes
-        attr['projection'] = srs.ExportToProj4()
-        attr['wkt'] = srs.ExportToWkt()
     elif 'pyTMD' in attr.keys():
         # extract crs from pyTMD metadata
-        crs_metadata = attr['pyTMD']['crs']
+        crs_metadata = attr['pyTMD'].get('crs')
+    else:
+        crs_metadata = None
+    # if there is coordinate reference system metadata
+    if crs_metadata is not None:
         # create spatial reference object from PROJJSON
         osgeo.osr.UseExceptions()
         srs = osgeo.osr.SpatialReference()
@@ -1263,6 +1260,8 @@ def to_parquet(
     kwargs.setdefault('geoparquet', False)
     kwargs.setdefault('geometry_encoding', 'WKB')
     kwargs.setdefault('primary_column', 'geometry')
+    # copy attributes to not modify inputs
+    attributes = copy.copy(attributes)
     # convert to pandas dataframe
     df = pd.DataFrame(output)
     attrs = df.attrs.copy()
@@ -1301,7 +1300,7 @@ def to_parquet(
         attrs[b"geo"]["primary_column"] = primary_column
         attrs[b"geo"]["columns"] = {primary_column: {
                 "encoding": 'WKB',
-                "crs": json.loads(srs.ExportToPROJJSON()),
+                "crs": attributes.get('crs'),
                 "bbox": bbox,
                 "covering": {
                     "bbox": collections.OrderedDict(
-- 
2.43.0


From 0ebd76fe19f1be36e7f8048cafe3dbcc26009d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 075/116] fix: fill values of any type for geotiff files

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 8b002a0..7d2cbfa 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1210,7 +1210,7 @@ def to_geotiff(
         # set fill value for band
         if '_FillValue' in attributes[varname].keys():
             fill_value = attributes[varname]['_FillValue']
-            ds.GetRasterBand(band+1).SetNoDataValue(fill_value)
+            ds.GetRasterBand(band+1).SetNoDataValue(float(fill_value))
             data = np.ma.filled(data, fill_value)
         # write band to geotiff array
         ds.GetRasterBand(band+1).WriteArray(data)
-- 
2.43.0


From f35d6a07bcc555358e2d09292413b8fd7d79cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 076/116] fix: read all pixels of geotiff files within the
 bounds

---
 pyTMD/spatial.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 7d2cbfa..2f7fffb 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -655,8 +655,15 @@ def from_geotiff(filename: str, **kwargs):
         # Specify offset and rows and columns to read
         xoffset = int((xlimits[0] - xmin)/info_geotiff[1])
         yoffset = int((ymax - ylimits[1])/np.abs(info_geotiff[5]))
-        xcount = int((xlimits[1] - xlimits[0])/info_geotiff[1]) + 1
-        ycount = int((ylimits[1] - ylimits[0])/np.abs(info_geotiff[5])) + 1
+        # clip offsets to the image
+        xoffset = np.maximum(xoffset, 0)
+        yoffset = np.maximum(yoffset, 0)
+        # include the pixels of the upper limits
+        xcount = int((xlimits[1] - xmin)/info_geotiff[1]) + 1 - xoffset
+        ycount = int((ymax - ylimits[0])/np.abs(info_geotiff[5])) + 1 - yoffset
+        # clip counts to the image
+        xcount = int(np.minimum(xcount, xsize - xoffset))
+        ycount = int(np.minimum(ycount, ysize - yoffset))
         # reduced x and y pixel center coordinates
         dinput['x'] = x[slice(xoffset, xoffset + xcount, None)]
         dinput['y'] = y[slice(yoffset, yoffset + ycount, None)]
-- 
2.43.0


From d13cc3867f103bf8ff16c44cf6a8051d2b7fc8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 077/116] fix: read parquet files with an index and a time
 column

---
 pyTMD/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 2f7fffb..47ce9bc 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -730,7 +730,9 @@ def from_parquet(filename: str, **kwargs):
     dinput = pd.read_parquet(filename)
     # reset the dataframe index if not a range index
     if not isinstance(dinput.index, pd.RangeIndex):
-        dinput.reset_index(inplace=True, names=kwargs['index'])
+        # (not if a column already has the name of the index)
+        drop = kwargs['index'] in dinput.keys()
+        dinput.reset_index(inplace=True, drop=drop, names=kwargs['index'])
     # output parquet file information
     attr = {}
     # get parquet file metadata
-- 
2.43.0


From aa4da95b68cf933530e5600a07bd21d01d7e3f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 078/116] fix: read the masks of all model formats

---
 pyTMD/compute.py | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index caaa36a..b52d6ad 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -726,9 +726,21 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
 
     # read tidal constants and interpolate to grid points
     if model.format in ('OTIS','ATLAS-compact','TMD3'):
-        # if reading a single OTIS solution
-        xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(
-            pathlib.Path(model.grid_file).expanduser())
+        grid_file = pathlib.Path(model.grid_file).expanduser()
+        if (model.format == 'ATLAS-compact'):
+            # if reading a global solution with localized solutions
+            x0, y0, h0, m0, iob, dt, pmask, local = \
+                pyTMD.io.OTIS.read_atlas_grid(grid_file)
+            xi, yi, hz = pyTMD.io.OTIS.combine_atlas_model(x0, y0, h0,
+                pmask, local, variable='depth')
+            mz = pyTMD.io.OTIS.create_atlas_mask(x0, y0, m0,
+                local, variable='depth').data
+        elif (model.format == 'TMD3'):
+            # if reading a single TMD3 netCDF4 solution
+            xi, yi, hz, mz, sf = pyTMD.io.OTIS.read_netcdf_grid(grid_file)
+        else:
+            # if reading a single OTIS solution
+            xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(grid_file)
         # invert model mask
         mz = np.logical_not(mz)
         # adjust dimensions of input coordinates to be iterable
@@ -740,30 +752,38 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
             pathlib.Path(model.grid_file).expanduser(),
             compressed=model.compressed, type=model.type)
         # copy bathymetry mask
-        mz = np.copy(hz.mask)
+        mz = np.copy(np.ma.getmaskarray(hz))
         # copy latitude and longitude and adjust longitudes
         X,Y = np.copy([lon,lat]).astype(np.float64)
         lt0, = np.nonzero(X < 0)
         X[lt0] += 360.0
     elif model.format in ('GOT-ascii', 'GOT-netcdf'):
         # if reading a NASA GOT solution
-        hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(
+        if (model.format == 'GOT-ascii'):
+            reader = pyTMD.io.GOT.read_ascii_file
+        else:
+            reader = pyTMD.io.GOT.read_netcdf_file
+        hc, xi, yi, c = reader(
             pathlib.Path(model.model_file[0]).expanduser(),
             compressed=model.compressed)
         # copy tidal constituent mask
-        mz = np.copy(hc.mask)
+        mz = np.copy(np.ma.getmaskarray(hc))
         # copy latitude and longitude and adjust longitudes
         X, Y = np.copy([lon,lat]).astype(np.float64)
         lt0, = np.nonzero(X < 0)
         X[lt0] += 360.0
-    elif (model.format == 'FES-netcdf'):
-        # if reading a FES netCDF solution
-        hc, xi, yi = pyTMD.io.FES.read_netcdf_file(
+    elif model.format in ('FES-ascii', 'FES-netcdf'):
+        # if reading a FES solution
+        if (model.format == 'FES-ascii'):
+            reader = pyTMD.io.FES.read_ascii_file
+        else:
+            reader = pyTMD.io.FES.read_netcdf_file
+        hc, xi, yi = reader(
             pathlib.Path(model.model_file[0]).expanduser(),
             compressed=model.compressed, type=model.type,
             version=model.version)
         # copy tidal constituent mask
-        mz = np.copy(hc.mask)
+        mz = np.copy(np.ma.getmaskarray(hc))
         # copy latitude and longitude and adjust longitudes
         X, Y = np.copy([lon,lat]).astype(np.float64)
         lt0, = np.nonzero(X < 0)
-- 
2.43.0


From eea562dd495b20ab27f524ee518a66cc17606b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 079/116] fix: longitudes of points when checking the model
 domain

---
 pyTMD/compute.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index b52d6ad..9791015 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -746,6 +746,7 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         # adjust dimensions of input coordinates to be iterable
         # run wrapper function to convert coordinate systems of input lat/lon
         X, Y = pyTMD.crs().convert(lon, lat, model.projection, 'F')
+        is_geographic = pyTMD.crs().get(model.projection).is_geographic
     elif (model.format == 'ATLAS-netcdf'):
         # if reading a netCDF OTIS atlas solution
         xi, yi, hz = pyTMD.io.ATLAS.read_netcdf_grid(
@@ -753,10 +754,9 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
             compressed=model.compressed, type=model.type)
         # copy bathymetry mask
         mz = np.copy(np.ma.getmaskarray(hz))
-        # copy latitude and longitude and adjust longitudes
-        X,Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
+        # copy latitude and longitude
+        X, Y = np.copy([lon,lat]).astype(np.float64)
+        is_geographic = True
     elif model.format in ('GOT-ascii', 'GOT-netcdf'):
         # if reading a NASA GOT solution
         if (model.format == 'GOT-ascii'):
@@ -768,10 +768,9 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
             compressed=model.compressed)
         # copy tidal constituent mask
         mz = np.copy(np.ma.getmaskarray(hc))
-        # copy latitude and longitude and adjust longitudes
+        # copy latitude and longitude
         X, Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
+        is_geographic = True
     elif model.format in ('FES-ascii', 'FES-netcdf'):
         # if reading a FES solution
         if (model.format == 'FES-ascii'):
@@ -784,10 +783,18 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
             version=model.version)
         # copy tidal constituent mask
         mz = np.copy(np.ma.getmaskarray(hc))
-        # copy latitude and longitude and adjust longitudes
+        # copy latitude and longitude
         X, Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
+        is_geographic = True
+
+    # adjust longitudes to the convention of the model
+    if is_geographic:
+        dx = xi[1] - xi[0]
+        # if global: extend limits
+        if np.isclose(xi[-1] - xi[0], 360.0 - dx):
+            xi = np.concatenate([[xi[0] - dx], xi, [xi[-1] + dx]])
+            mz = np.concatenate([mz[:,-1:], mz, mz[:,:1]], axis=1)
+        X = pyTMD.interpolate._wrap_longitudes(xi, X)
 
     # interpolate masks
     if (METHOD == 'bilinear'):
-- 
2.43.0


From 97ff8177b7b985aed36a14e603fa2533eaa4940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 080/116] fix: interpolate masks to points in the projection of
 the model

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 9791015..729885e 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -809,7 +809,7 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         # use scipy regular grid to interpolate values
         r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
             method=METHOD, bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[y, x])).astype(mz.dtype)
+        mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
 
     # reshape to original dimensions
     valid = np.logical_not(mask).reshape(idim).astype(mz.dtype)
-- 
2.43.0


From 648078cf73b0c2766e9b076d8341cdc0c02f5713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 081/116] fix: shape of the mask of points within a model
 domain

---
 pyTMD/compute.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 729885e..6d08d91 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -811,13 +811,13 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
             method=METHOD, bounds_error=False, fill_value=1)
         mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
 
-    # reshape to original dimensions
-    valid = np.logical_not(mask).reshape(idim).astype(mz.dtype)
+    # points with valid data
+    valid = np.logical_not(np.ma.getdata(mask))
     # replace points outside model domain with invalid
     valid &= (X >= xi.min()) & (X <= xi.max())
     valid &= (Y >= yi.min()) & (Y <= yi.max())
-    # return the valid mask
-    return valid
+    # reshape to original dimensions and return the valid mask
+    return valid.reshape(idim)
 
 # PURPOSE: compute long-period equilibrium tidal elevations
 def LPET_elevations(
-- 
2.43.0


From c709cdf6fbe1ae4011dfcb849a8d7b7f83249393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 082/116] fix: read the grid files of ATLAS netCDF4 models for
 masks

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 6d08d91..62606bb 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -751,7 +751,7 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         # if reading a netCDF OTIS atlas solution
         xi, yi, hz = pyTMD.io.ATLAS.read_netcdf_grid(
             pathlib.Path(model.grid_file).expanduser(),
-            compressed=model.compressed, type=model.type)
+            variable=model.type, compressed=model.compressed)
         # copy bathymetry mask
         mz = np.copy(np.ma.getmaskarray(hz))
         # copy latitude and longitude
-- 
2.43.0


From cf94888de08b55d5366648d115fca158dccf9ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 083/116] fix: points surrounded by land when rounding
 interpolated masks

---
 pyTMD/compute.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 62606bb..41e3c1c 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -800,19 +800,20 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
     if (METHOD == 'bilinear'):
         # replace invalid values with nan
         mz1 = pyTMD.interpolate.bilinear(xi, yi, mz, X, Y)
-        mask = np.floor(mz1).astype(mz.dtype)
+        mask = np.floor(np.around(mz1, decimals=8))
     elif (METHOD == 'spline'):
         f1 = scipy.interpolate.RectBivariateSpline(xi, yi, mz.T,
             kx=1, ky=1)
-        mask = np.floor(f1.ev(X, Y)).astype(mz.dtype)
+        mask = np.floor(np.around(f1.ev(X, Y), decimals=8))
     else:
         # use scipy regular grid to interpolate values
         r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
             method=METHOD, bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
+        mask = np.floor(np.around(r1.__call__(np.c_[Y, X]), decimals=8))
 
     # points with valid data
-    valid = np.logical_not(np.ma.getdata(mask))
+    # (points without values are outside the model domain)
+    valid = (np.ma.filled(mask, 1) == 0)
     # replace points outside model domain with invalid
     valid &= (X >= xi.min()) & (X <= xi.max())
     valid &= (Y >= yi.min()) & (Y <= yi.max())
-- 
2.43.0


From e5f5cd1d452a50cc5a311d9138812d3733574465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 084/116] fix: interpolate masked arrays without invalid values

---
 pyTMD/interpolate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index b42014f..b040f3a 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -68,7 +68,7 @@ def bilinear(
         interpolated data
     """
     # verify that input data is masked array
-    if not isinstance(idata, np.ma.MaskedArray):
+    if not isinstance(idata, np.ma.MaskedArray) or not np.ndim(idata.mask):
         idata = np.ma.array(idata)
         idata.mask = np.zeros_like(idata, dtype=bool)
     # find valid points (within bounds)
@@ -170,7 +170,7 @@ def spline(
     kwargs.setdefault('kx', 1)
     kwargs.setdefault('ky', 1)
     # verify that input data is masked array
-    if not isinstance(idata, np.ma.MaskedArray):
+    if not isinstance(idata, np.ma.MaskedArray) or not np.ndim(idata.mask):
         idata = np.ma.array(idata)
         idata.mask = np.zeros_like(idata, dtype=bool)
     # interpolate gridded data values to data
@@ -258,7 +258,7 @@ def regulargrid(
     kwargs.setdefault('bounds_error', False)
     kwargs.setdefault('method', 'linear')
     # verify that input data is masked array
-    if not isinstance(idata, np.ma.MaskedArray):
+    if not isinstance(idata, np.ma.MaskedArray) or not np.ndim(idata.mask):
         idata = np.ma.array(idata)
         idata.mask = np.zeros_like(idata, dtype=bool)
     # interpolate gridded data values to data
-- 
2.43.0


From 38a05ad896224b1a9604366213cf550a15a6a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 085/116] fix: nested iteration over constituents

---
 pyTMD/io/constituents.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/constituents.py b/pyTMD/io/constituents.py
index e8308f7..1d7fcc0 100644
--- a/pyTMD/io/constituents.py
+++ b/pyTMD/io/constituents.py
@@ -288,8 +288,10 @@ class constituents:
     def __iter__(self):
         """Iterate over constituents
         """
+        # restart the index for the next function
         self.__index__ = 0
-        return self
+        # iterators are independent to allow for nested loops
+        return iter([(f, getattr(self, f)) for f in self.fields])
 
     def __next__(self):
         """Get the next constituent
-- 
2.43.0


From d513926f871eba08e94186a4beb2d59aceeab194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 086/116] fix: update only the constituents of a container

---
 pyTMD/io/constituents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/constituents.py b/pyTMD/io/constituents.py
index 1d7fcc0..746c6f0 100644
--- a/pyTMD/io/constituents.py
+++ b/pyTMD/io/constituents.py
@@ -115,7 +115,7 @@ class constituents:
             Tide model constituent (complex form)
         """
         # raise exception if field not in list
-        if not hasattr(self, field):
+        if field not in self.fields:
             raise KeyError(f'Constituent {field}')
         # update the constituent
         setattr(self, field, constituent)
-- 
2.43.0


From e876bc9cae02e1fba12a931e4a8d143f52385a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 087/116] fix: serialize models with empty lists

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 443de68..db81f50 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -920,7 +920,8 @@ class model:
             val = copy.copy(d[key])
             if isinstance(val, pathlib.Path):
                 d[key] = str(val)
-            elif isinstance(val, (list, tuple)) and isinstance(val[0], pathlib.Path):
+            elif isinstance(val, (list, tuple)) and any(
+                    isinstance(v, pathlib.Path) for v in val):
                 d[key] = [str(v) for v in val]
             elif isinstance(val, dict):
                 d[key] = self.serialize(val)
-- 
2.43.0


From 7fca17d7e9df09b9ffe6a7dabb52321f4ec1593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 088/116] fix: interpolate the constituents of the type asked
 for

---
 pyTMD/io/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index db81f50..48672cd 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1140,6 +1140,8 @@ class model:
             c.append('node', hc)
         # return the tidal constituents
         self._constituents = c
+        # keep the type of the constituents
+        self._constituents_type = copy.copy(kwargs['type'])
         return c
 
     def interpolate_constants(self,
@@ -1169,10 +1171,12 @@ class model:
         # import tide model functions
         from pyTMD.io import OTIS, ATLAS, GOT, FES
         # set default keyword arguments
-        kwargs.setdefault('type', self.type)
+        # (default type is that of the constituents which have been read)
+        TYPE = getattr(self, '_constituents_type', self.type)
+        kwargs.setdefault('type', TYPE)
         kwargs.setdefault('scale', self.scale)
-        # verify constituents have been read
-        if not hasattr(self, '_constituents'):
+        # verify constituents have been read for the model type
+        if not hasattr(self, '_constituents') or (kwargs['type'] != TYPE):
             self.read_constants(**kwargs)
         # interpolate tidal constants to grid points
         if self.format in ('OTIS','ATLAS-compact','TMD3'):
-- 
2.43.0


From c31f40023b278c3989dfd7ba8c4250dcbe90608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 089/116] fix: csv files with columns of latitude and longitude

---
 scripts/compute_LPET_elevations.py   | 5 ++++-
 scripts/compute_LPT_displacements.py | 5 ++++-
 scripts/compute_OPT_displacements.py | 5 ++++-
 scripts/compute_SET_displacements.py | 5 ++++-
 scripts/compute_tidal_currents.py    | 5 ++++-
 scripts/compute_tidal_elevations.py  | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/scripts/compute_LPET_elevations.py b/scripts/compute_LPET_elevations.py
index ecf28eb..ff762b7 100644
--- a/scripts/compute_LPET_elevations.py
+++ b/scripts/compute_LPET_elevations.py
@@ -160,7 +160,10 @@ def compute_LPET_elevations(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of the spatial coordinates
+        remap = dict(lat='y', latitude='y', lon='x', longitude='x')
+        columns = [remap.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_LPT_displacements.py b/scripts/compute_LPT_displacements.py
index 3ffc1ff..d117849 100644
--- a/scripts/compute_LPT_displacements.py
+++ b/scripts/compute_LPT_displacements.py
@@ -184,7 +184,10 @@ def compute_LPT_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of the spatial coordinates
+        remap = dict(lat='y', latitude='y', lon='x', longitude='x')
+        columns = [remap.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_OPT_displacements.py b/scripts/compute_OPT_displacements.py
index bcf6b89..69ae1ce 100644
--- a/scripts/compute_OPT_displacements.py
+++ b/scripts/compute_OPT_displacements.py
@@ -204,7 +204,10 @@ def compute_OPT_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of the spatial coordinates
+        remap = dict(lat='y', latitude='y', lon='x', longitude='x')
+        columns = [remap.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 2998f85..deb5ef2 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -182,7 +182,10 @@ def compute_SET_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of the spatial coordinates
+        remap = dict(lat='y', latitude='y', lon='x', longitude='x')
+        columns = [remap.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 8b00373..7122c29 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -251,7 +251,10 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of the spatial coordinates
+        remap = dict(lat='y', latitude='y', lon='x', longitude='x')
+        columns = [remap.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 7c7bd6d..23f34f8 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -259,7 +259,10 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of the spatial coordinates
+        remap = dict(lat='y', latitude='y', lon='x', longitude='x')
+        columns = [remap.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
-- 
2.43.0


From ed7194f21b7283a953b38ec7abada2d780bf08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 090/116] fix: solid Earth tides of gridded files raised

---
 scripts/compute_SET_displacements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index deb5ef2..12df479 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -248,7 +248,7 @@ def compute_SET_displacements(input_file, output_file,
     units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
 
     # convert input coordinates to cartesian
-    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat,
+    X, Y, Z = pyTMD.spatial.to_cartesian(np.ravel(lon), np.ravel(lat),
         a_axis=units.a_axis, flat=units.flat)
     # compute ephemerides for lunisolar coordinates
     SX, SY, SZ = pyTMD.astro.solar_ecef(ts.MJD, ephemerides=EPHEMERIDES)
-- 
2.43.0


From 5c8a6bcd837cfb665fa5a1b90174ef6c7d0102e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 091/116] fix: solid Earth tides of gridded files were computed
 a day late

---
 scripts/compute_SET_displacements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 12df479..f1a5ccf 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -279,7 +279,7 @@ def compute_SET_displacements(input_file, output_file,
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i]*np.ones((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From 6d10fd3546e51836f1e0229eeadac0549f2f0891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 092/116] fix: tides of models without a reference could not be
 written

---
 scripts/compute_tidal_currents.py   | 4 ++++
 scripts/compute_tidal_elevations.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 7122c29..7945d6c 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -418,6 +418,10 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     attrib['time']['long_name'] = 'Time'
     attrib['time']['calendar'] = 'standard'
 
+    # remove attributes that are not set for the model
+    attrib = {key: {att_name: att_val for att_name, att_val in val.items()
+        if att_val is not None} for key, val in attrib.items()}
+
     # output data dictionary
     output = {'lon':lon, 'lat':lat, **tide}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 23f34f8..2c227f1 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -416,6 +416,10 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     attrib['time']['long_name'] = 'Time'
     attrib['time']['calendar'] = 'standard'
 
+    # remove attributes that are not set for the model
+    attrib = {key: {att_name: att_val for att_name, att_val in val.items()
+        if att_val is not None} for key, val in attrib.items()}
+
     # output data dictionary
     output = {'lon':lon, 'lat':lat, output_variable:tide}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
-- 
2.43.0


From b939d44b0f78a0f942dcbb7033c9e7681f3c60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 093/116] fix: tides of models without a variable name could
 not be written

---
 scripts/compute_tidal_elevations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 2c227f1..2758498 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -403,7 +403,7 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     attrib['lon']['long_name'] = 'Longitude'
     attrib['lon']['units'] = 'Degrees_East'
     # tides
-    output_variable = model.variable
+    output_variable = model.variable or 'tide'
     attrib[output_variable] = {}
     attrib[output_variable]['description'] = model.description
     attrib[output_variable]['reference'] = model.reference
-- 
2.43.0


From c72f4bb6dee0f960abb7af7e86f54ce8a5cfb9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 094/116] fix: times of parquet files with an index and renamed
 columns

---
 pyTMD/spatial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 47ce9bc..cab6161 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -731,7 +731,10 @@ def from_parquet(filename: str, **kwargs):
     # reset the dataframe index if not a range index
     if not isinstance(dinput.index, pd.RangeIndex):
         # (not if a column already has the name of the index)
-        drop = kwargs['index'] in dinput.keys()
+        # (or will be renamed to it)
+        names = default_field_mapping(kwargs['columns'] or [])
+        drop = (kwargs['index'] in dinput.keys()) or \
+            (names.get(kwargs['index']) in dinput.keys())
         dinput.reset_index(inplace=True, drop=drop, names=kwargs['index'])
     # output parquet file information
     attr = {}
-- 
2.43.0


From 5c79b011e5f0c8041f8350db359895a28149f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 095/116] fix: values next to invalid nodes of FES and GOT
 models marked with NaN

---
 pyTMD/io/FES.py | 4 ++++
 pyTMD/io/GOT.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index fa671c6..0296f08 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -289,6 +289,8 @@ def extract_constants(
             hci.mask[:] |= np.isnan(hci.data)
             hci.data[hci.mask] = hci.fill_value
         elif (kwargs['method'] == 'spline'):
+            # replace invalid values with fill value
+            hc.data[hc.mask] = hc.fill_value
             # interpolate complex form of the constituent
             # use scipy splines to interpolate values
             hci = pyTMD.interpolate.spline(lon, lat, hc, ilon, ilat,
@@ -298,6 +300,8 @@ def extract_constants(
             # replace invalid values with fill_value
             hci.data[hci.mask] = hci.fill_value
         else:
+            # replace invalid values with fill value
+            hc.data[hc.mask] = hc.fill_value
             # interpolate complex form of the constituent
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(lon, lat, hc, ilon, ilat,
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 8a0fc55..0ade203 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -264,6 +264,8 @@ def extract_constants(
             hci.mask[:] |= np.isnan(hci.data)
             hci.data[hci.mask] = hci.fill_value
         elif (kwargs['method'] == 'spline'):
+            # replace invalid values with fill value
+            hc.data[hc.mask] = hc.fill_value
             # interpolate complex form of the constituent
             # use scipy splines to interpolate values
             hci = pyTMD.interpolate.spline(lon, lat, hc, ilon, ilat,
@@ -271,6 +273,8 @@ def extract_constants(
             # replace invalid values with fill_value
             hci.data[hci.mask] = hci.fill_value
         else:
+            # replace invalid values with fill value
+            hc.data[hc.mask] = hc.fill_value
             # interpolate complex form of the constituent
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(lon, lat, hc, ilon, ilat,
-- 
2.43.0


From b515c20391604481b12fac22af0a6ef5a7e55992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 096/116] fix: download the currents of FES2014

---
 scripts/aviso_fes_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 41f6933..3dc80d2 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -206,8 +206,8 @@ def aviso_fes_tar(MODEL, f, logger,
         FES['FES2014'].append([subdir,'readme_fes2014_currents_v1.2.txt'])
         FES['FES2014'].append([subdir,'eastward_velocity.tar.xz'])
         FES['FES2014'].append([subdir,'northward_velocity.tar.xz'])
-        TAR['FES2014'].extend(['r'])
-        FLATTEN['FES2014'].extend([False])
+        TAR['FES2014'].extend([None,'r','r'])
+        FLATTEN['FES2014'].extend([None,False,False])
 
     # for each file for a model
     for remotepath,tarmode,flatten in zip(FES[MODEL],TAR[MODEL],FLATTEN[MODEL]):
-- 
2.43.0


From 82042cf2c4f528e41d48c781f75daf0cb1bb0f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 097/116] fix: interrupted downloads of FES models are not kept
 as if complete

---
 scripts/aviso_fes_tides.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 3dc80d2..614eed4 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -320,12 +320,15 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             # recursively create output directory if non-existent
             local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
             # extract file to local directory
-            with tar.extractfile(m) as fi,opener(local_file, 'wb') as fo:
+            temp_file = local_file.with_name(f'{local_file.name}.part')
+            with tar.extractfile(m) as fi,opener(temp_file, 'wb') as fo:
                 shutil.copyfileobj(fi, fo)
             # get last modified date of remote file within tar file
             # keep remote modification time of file and local access time
-            os.utime(local_file, (local_file.stat().st_atime, m.mtime))
-            local_file.chmod(mode=MODE)
+            os.utime(temp_file, (temp_file.stat().st_atime, m.mtime))
+            temp_file.chmod(mode=MODE)
+            # only keep complete files in the local directory
+            os.replace(temp_file, local_file)
     elif LZMA:
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
@@ -350,12 +353,15 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         ftp.retrbinary(f'RETR {remote_file}', fileobj.write, blocksize=CHUNK)
         fileobj.seek(0)
         # decompress lzma file and extract contents to local directory
-        with lzma.open(fileobj) as fi,opener(local_file, 'wb') as fo:
+        temp_file = local_file.with_name(f'{local_file.name}.part')
+        with lzma.open(fileobj) as fi,opener(temp_file, 'wb') as fo:
             shutil.copyfileobj(fi, fo)
         # get last modified date of remote file within tar file
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, mtime))
-        local_file.chmod(mode=MODE)
+        os.utime(temp_file, (temp_file.stat().st_atime, mtime))
+        temp_file.chmod(mode=MODE)
+        # only keep complete files in the local directory
+        os.replace(temp_file, local_file)
     else:
         # copy readme and uncompressed files directly
         stem = posixpath.basename(remote_file)
@@ -376,11 +382,14 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         # recursively create output directory if non-existent
         local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
         # copy remote file contents to local file
-        with opener(local_file, 'wb') as f:
+        temp_file = local_file.with_name(f'{local_file.name}.part')
+        with opener(temp_file, 'wb') as f:
             ftp.retrbinary(f'RETR {remote_file}', f.write, blocksize=CHUNK)
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, mtime))
-        local_file.chmod(mode=MODE)
+        os.utime(temp_file, (temp_file.stat().st_atime, mtime))
+        temp_file.chmod(mode=MODE)
+        # only keep complete files in the local directory
+        os.replace(temp_file, local_file)
 
 # PURPOSE: compare the modification time of two files
 def newer(t1: int, t2: int) -> bool:
-- 
2.43.0


From f26e3dd05bec6e8586a8f419c63f0849c4fb8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 098/116] fix: interrupted downloads of GOT models are not kept
 as if complete

---
 scripts/gsfc_got_tides.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 72b42b6..173706a 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -118,12 +118,15 @@ def gsfc_got_tides(MODEL: str,
         # recursively create output directory if non-existent
         local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
         # extract file to local directory
-        with tar.extractfile(m) as fi,opener(local_file, 'wb') as fo:
+        temp_file = local_file.with_name(f'{local_file.name}.part')
+        with tar.extractfile(m) as fi,opener(temp_file, 'wb') as fo:
             shutil.copyfileobj(fi, fo)
         # get last modified date of remote file within tar file
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, m.mtime))
-        local_file.chmod(mode=MODE)
+        os.utime(temp_file, (temp_file.stat().st_atime, m.mtime))
+        temp_file.chmod(mode=MODE)
+        # only keep complete files in the local directory
+        os.replace(temp_file, local_file)
 
 # PURPOSE: compare the modification time of two files
 def newer(t1: int, t2: int) -> bool:
-- 
2.43.0


From a9dc9af649e271a87dc80e2d4531f9cf282349b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 099/116] fix: only skip the hidden files in the archives of
 GOT models

---
 scripts/gsfc_got_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 173706a..46af5c7 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -101,9 +101,9 @@ def gsfc_got_tides(MODEL: str,
             continue
         elif (sfx == '.d') and (FORMAT == 'netcdf'):
             continue
-        elif re.match(r'^.DS', posixpath.basename(m.name)):
+        elif re.match(r'^\.DS', posixpath.basename(m.name)):
             continue
-        elif re.match(r'^._', posixpath.basename(m.name)):
+        elif re.match(r'^\._', posixpath.basename(m.name)):
             continue
         # output file name
         output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
-- 
2.43.0


From 45bbeb7ef69645f81cc59b3d4785cc0e8ada1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 100/116] fix: Unix times of dates with an offset from UTC in
 their format

---
 pyTMD/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 9ffdd43..f6d9fc5 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -403,7 +403,8 @@ def get_unix_time(
     except (TypeError, ValueError):
         pass
     else:
-        return calendar.timegm(parsed_time)
+        # convert to UTC if the string has an offset (%z)
+        return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-- 
2.43.0


From 28117cf386b5686ede421d5f705f41bbac52550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 101/116] fix: only compress the tide files of GOT models

---
 scripts/gsfc_got_tides.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 46af5c7..fbf2aa6 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -60,8 +60,6 @@ def gsfc_got_tides(MODEL: str,
 
     # create logger for verbosity level
     logger = pyTMD.utilities.build_logger(__name__,level=logging.INFO)
-    # if compressing the output files
-    opener = gzip.open if GZIP else open
 
     # url for each tide model tarfile
     PATH = {}
@@ -105,8 +103,11 @@ def gsfc_got_tides(MODEL: str,
             continue
         elif re.match(r'^\._', posixpath.basename(m.name)):
             continue
+        # if compressing the output file
+        compress = GZIP and sfx in ('.d','.nc')
+        opener = gzip.open if compress else open
         # output file name
-        output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
+        output = f'{m.name}.gz' if compress else m.name
         local_file = DIRECTORY.joinpath(*posixpath.split(output))
         # check if the local file exists
         if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
-- 
2.43.0


From d9744d13d69d7c1dc3bcae8060d18e3721377da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 102/116] fix: only compress the tide files of FES models

---
 scripts/aviso_fes_tides.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 614eed4..dcd6cfd 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -289,8 +289,6 @@ def ftp_download(logger, ftp, remote_path, local_dir,
     ):
     # remote and local directory for data product
     remote_file = posixpath.join('auxiliary','tide_model',*remote_path)
-    # if compressing the output file
-    opener = gzip.open if GZIP else open
 
     # Printing files transferred
     remote_ftp_url = posixpath.join('ftp://', ftp.host, remote_file)
@@ -307,8 +305,11 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         for m in member_files:
             member = posixpath.basename(m.name) if FLATTEN else m.name
             base, sfx = posixpath.splitext(m.name)
+            # if compressing the output file
+            compress = GZIP and sfx in ('.asc','.nc')
+            opener = gzip.open if compress else open
             # extract file contents to new file
-            output = f'{member}.gz' if sfx in ('.asc','.nc') and GZIP else member
+            output = f'{member}.gz' if compress else member
             local_file = local_dir.joinpath(*posixpath.split(output))
             # check if the local file exists
             if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
@@ -336,8 +337,11 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         # output file name for compressed and uncompressed cases
         stem = posixpath.basename(posixpath.splitext(remote_file)[0])
         base, sfx = posixpath.splitext(stem)
+        # if compressing the output file
+        compress = GZIP and sfx in ('.asc','.nc')
+        opener = gzip.open if compress else open
         # extract file contents to new file
-        output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        output = f'{stem}.gz' if compress else stem
         local_file = local_dir.joinpath(output)
         # check if the local file exists
         if local_file.exists() and newer(mtime,local_file.stat().st_mtime):
@@ -366,8 +370,11 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         # copy readme and uncompressed files directly
         stem = posixpath.basename(remote_file)
         base, sfx = posixpath.splitext(stem)
+        # if compressing the output file
+        compress = GZIP and sfx in ('.asc','.nc')
+        opener = gzip.open if compress else open
         # output file name for compressed and uncompressed cases
-        output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        output = f'{stem}.gz' if compress else stem
         local_file = local_dir.joinpath(output)
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
-- 
2.43.0


From 14924dce6383a64f2ab5243e3abba1d869c20012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 103/116] fix: log files of FES downloads to new directories

---
 scripts/aviso_fes_tides.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index dcd6cfd..9c814fe 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -103,6 +103,8 @@ def aviso_fes_tides(MODEL: str,
     if LOG:
         # format: AVISO_FES_tides_2002-04-01.log
         today = time.strftime('%Y-%m-%d',time.localtime())
+        DIRECTORY = pathlib.Path(DIRECTORY).expanduser().absolute()
+        DIRECTORY.mkdir(MODE, parents=True, exist_ok=True)
         LOGFILE = DIRECTORY.joinpath(f'AVISO_FES_tides_{today}.log')
         fid = LOGFILE.open(mode='w', encoding='utf8')
         logger = pyTMD.utilities.build_logger(__name__,stream=fid,
-- 
2.43.0


From 8c16151aeef5d63387c3a842160284ff7b8a1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 104/116] fix: adjacent constituents with four letters in OTIS
 files

---
 pyTMD/io/OTIS.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 6e3743f..2808096 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1186,7 +1186,8 @@ def read_constituents(
         ll, = np.fromfile(fid, dtype=np.dtype('>i4'), count=1)
         nx,ny,nc = np.fromfile(fid, dtype=np.dtype('>i4'), count=3)
         fid.seek(16,1)
-        constituents = [c.decode("utf8").rstrip() for c in fid.read(nc*4).split()]
+        # each constituent ID is 4 characters
+        constituents = [fid.read(4).decode("utf8").strip() for i in range(nc)]
         fid.close()
     return (constituents, nc)
 
@@ -1306,7 +1307,7 @@ def read_atlas_elevation(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        cons = [fid.read(4).decode("utf8").strip() for j in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
@@ -1471,7 +1472,7 @@ def read_atlas_transport(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        cons = [fid.read(4).decode("utf8").strip() for j in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
-- 
2.43.0


From 07e49050631fef37a2c8bbbdf58bb2ca08eca0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 105/116] fix: reduce OTIS models to regional subsets

---
 scripts/reduce_OTIS_files.py | 61 +++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index 0ccfa48..a9ad956 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -84,14 +84,27 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
         PROJECTION='4326',
         MODE=0o775
     ):
-    # get parameters for tide model grid
+    # get parameters for tide model grid and the input files
+    # the elevations or the currents of a model may not be available
+    model_file = {}
     try:
         model = pyTMD.io.model(directory=tide_dir).elevation(TIDE_MODEL)
     except Exception as exc:
-        model = pyTMD.io.model(directory=tide_dir).current(TIDE_MODEL)
-    # directionaries with input and output files
-    model_file = {}
-    new_model_file = {}
+        pass
+    else:
+        model_file['z'] = model.model_file
+    try:
+        current = pyTMD.io.model(directory=tide_dir).current(TIDE_MODEL)
+    except Exception as exc:
+        # raise the exception if there are no files for the model
+        if 'z' not in model_file:
+            raise
+    else:
+        model_file['u'] = current.model_file['u']
+        model = current if ('z' not in model_file) else model
+    # convert to lists if there is a single file
+    for key, val in model_file.items():
+        model_file[key] = val if isinstance(val, list) else [val]
 
     # read the OTIS-format tide grid file
     if (model.format == 'ATLAS-compact'):
@@ -141,65 +154,55 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
 
     # combine ATLAS sub-grids into single output grid
     # reduce elevation files to bounds
-    try:
-        # get parameters for tide model
-        model = model.elevation(TIDE_MODEL)
-    except Exception as exc:
-        pass
-    else:
+    for f in model_file.get('z', []):
         # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['z'])
+        constituents,nc = pyTMD.io.OTIS.read_constituents(f)
         z1 = np.zeros((ny,nx,nc),dtype=np.complex64)
         for i,c in enumerate(constituents):
             # read constituent from elevation file
             if (model.format == 'ATLAS-compact'):
                 z0,zlocal = pyTMD.io.OTIS.read_atlas_elevation(
-                    model_file['z'], i, c)
+                    f, i, c)
                 xi,yi,z=pyTMD.io.OTIS.combine_atlas_model(x0, y0, z0, pmask,
                     zlocal, variable='z')
             else:
-                z = pyTMD.io.OTIS.read_otis_elevation(model_file['z'], i)
+                z = pyTMD.io.OTIS.read_otis_elevation(f, i)
             # reduce elevation to new bounds
             z1[:,:,i] = z[indy,indx].reshape(ny,nx)
         # output reduced elevation components
-        new_model_file['z'] = create_unique_filename(model_file['z'])
-        pyTMD.io.OTIS.output_otis_elevation(new_model_file['z'], z1,
+        new_model_file = create_unique_filename(f)
+        pyTMD.io.OTIS.output_otis_elevation(new_model_file, z1,
             xlim, ylim, constituents)
         # change the permissions level to MODE
-        new_model_file['z'].chmod(mode=MODE)
+        new_model_file.chmod(mode=MODE)
 
     # combine ATLAS sub-grids into single output grid
     # reduce transport files to bounds
-    try:
-        # get parameters for tide model
-        model = model.current(TIDE_MODEL)
-    except Exception as exc:
-        pass
-    else:
+    for f in model_file.get('u', []):
         # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['u'])
+        constituents,nc = pyTMD.io.OTIS.read_constituents(f)
         u1 = np.zeros((ny,nx,nc),dtype=np.complex64)
         v1 = np.zeros((ny,nx,nc),dtype=np.complex64)
         for i,c in enumerate(constituents):
             # read constituent from transport file
             if (model.format == 'ATLAS-compact'):
                 u0,v0,uvlocal = pyTMD.io.OTIS.read_atlas_transport(
-                    model_file['u'], i, c)
+                    f, i, c)
                 xi,yi,u = pyTMD.io.OTIS.combine_atlas_model(x0, y0, u0, pmask,
                     uvlocal, variable='u')
                 xi,yi,v = pyTMD.io.OTIS.combine_atlas_model(x0, y0, v0, pmask,
                     uvlocal, variable='v')
             else:
-                u,v = pyTMD.io.OTIS.read_otis_transport(model_file['u'],i)
+                u,v = pyTMD.io.OTIS.read_otis_transport(f, i)
             # reduce transport components to new bounds
             u1[:,:,i] = u[indy,indx].reshape(ny,nx)
             v1[:,:,i] = v[indy,indx].reshape(ny,nx)
         # output reduced transport components
-        new_model_file['uv'] = create_unique_filename(model_file['u'])
-        pyTMD.io.OTIS.output_otis_transport(new_model_file['u'], u1, v1,
+        new_model_file = create_unique_filename(f)
+        pyTMD.io.OTIS.output_otis_transport(new_model_file, u1, v1,
             xlim, ylim, constituents)
         # change the permissions level to MODE
-        new_model_file['u'].chmod(mode=MODE)
+        new_model_file.chmod(mode=MODE)
 
 # PURPOSE: create a unique filename adding a numerical instance if existing
 def create_unique_filename(filename):
-- 
2.43.0


From d6bfe3e8392b52291ffb99809a874141b9db7b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 106/116] fix: directory of the TPXO9.1 currents is that of the
 elevations

---
 providers/TPXO.json      | 4 ++--
 pyTMD/data/database.json | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/providers/TPXO.json b/providers/TPXO.json
index 1c906b5..086ac2b 100644
--- a/providers/TPXO.json
+++ b/providers/TPXO.json
@@ -494,9 +494,9 @@
         },
         "TPXO9.1": {
             "format": "OTIS",
-            "grid_file": "TPXO9.1/grid_tpxo9",
+            "grid_file": "TPXO9.1/DATA/grid_tpxo9",
             "model_file": {
-                "u": "TPXO9.1/u_tpxo9.v1"
+                "u": "TPXO9.1/DATA/u_tpxo9.v1"
             },
             "name": "TPXO9.1",
             "projection": "EPSG:4326",
diff --git a/pyTMD/data/database.json b/pyTMD/data/database.json
index ba5f6a6..ecd0d1c 100644
--- a/pyTMD/data/database.json
+++ b/pyTMD/data/database.json
@@ -821,9 +821,9 @@
         },
         "TPXO9.1": {
             "format": "OTIS",
-            "grid_file": "TPXO9.1/grid_tpxo9",
+            "grid_file": "TPXO9.1/DATA/grid_tpxo9",
             "model_file": {
-                "u": "TPXO9.1/u_tpxo9.v1"
+                "u": "TPXO9.1/DATA/u_tpxo9.v1"
             },
             "name": "TPXO9.1",
             "projection": "EPSG:4326",
-- 
2.43.0


From dacd7cd641c0d3e515018d52e274604232779d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:14 +0000
Subject: [PATCH 107/116] fix: invalid nodes of OTIS models in regional subsets

---
 scripts/reduce_OTIS_files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index a9ad956..96154df 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -168,7 +168,7 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
             else:
                 z = pyTMD.io.OTIS.read_otis_elevation(f, i)
             # reduce elevation to new bounds
-            z1[:,:,i] = z[indy,indx].reshape(ny,nx)
+            z1[:,:,i] = np.ma.filled(z, np.nan)[indy,indx].reshape(ny,nx)
         # output reduced elevation components
         new_model_file = create_unique_filename(f)
         pyTMD.io.OTIS.output_otis_elevation(new_model_file, z1,
@@ -195,8 +195,8 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
             else:
                 u,v = pyTMD.io.OTIS.read_otis_transport(f, i)
             # reduce transport components to new bounds
-            u1[:,:,i] = u[indy,indx].reshape(ny,nx)
-            v1[:,:,i] = v[indy,indx].reshape(ny,nx)
+            u1[:,:,i] = np.ma.filled(u, np.nan)[indy,indx].reshape(ny,nx)
+            v1[:,:,i] = np.ma.filled(v, np.nan)[indy,indx].reshape(ny,nx)
         # output reduced transport components
         new_model_file = create_unique_filename(f)
         pyTMD.io.OTIS.output_otis_transport(new_model_file, u1, v1,
-- 
2.43.0


From 9105ad81eee684633876acf783136a8ed1c4aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 108/116] fix: functions of the deprecated time module

---
 pyTMD/time.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pyTMD/time.py b/pyTMD/time.py
index c5400b0..26323fb 100644
--- a/pyTMD/time.py
+++ b/pyTMD/time.py
@@ -55,6 +55,9 @@ import warnings
 import numpy as np
 import timescale.time
 
+# timescale package: the class of this module has the same name
+_timescale = timescale
+
 __all__ = [
     "parse",
     "parse_date_string",
@@ -109,7 +112,7 @@ def parse(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse",
         DeprecationWarning)
-    return timescale.time.parse(date_string)
+    return _timescale.time.parse(date_string)
 
 # PURPOSE: parse a date string into epoch and units scale
 def parse_date_string(date_string: str):
@@ -133,7 +136,7 @@ def parse_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse_date_string",
         DeprecationWarning)
-    return timescale.time.parse_date_string(date_string)
+    return _timescale.time.parse_date_string(date_string)
 
 # PURPOSE: split a date string into units and epoch
 def split_date_string(date_string: str):
@@ -147,7 +150,7 @@ def split_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.split_date_string",
         DeprecationWarning)
-    return timescale.time.split_date_string(date_string)
+    return _timescale.time.split_date_string(date_string)
 
 # PURPOSE: convert a datetime object into a list
 def datetime_to_list(date):
@@ -166,7 +169,7 @@ def datetime_to_list(date):
     """
     warnings.warn("Deprecated. Please use timescale.time.datetime_to_list",
         DeprecationWarning)
-    return timescale.time.datetime_to_list(date)
+    return _timescale.time.datetime_to_list(date)
 
 # days per month in a leap and a standard year
 # only difference is February (29 vs. 28)
@@ -190,7 +193,7 @@ def calendar_days(year: int | float | np.ndarray) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.calendar_days",
         DeprecationWarning)
-    return timescale.time.calendar_days(year)
+    return _timescale.time.calendar_days(year)
 
 # PURPOSE: convert a numpy datetime array to delta times since an epoch
 def convert_datetime(*args, **kwargs):
@@ -211,7 +214,7 @@ def convert_datetime(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_datetime",
         DeprecationWarning)
-    return timescale.time.convert_datetime(*args, **kwargs)
+    return _timescale.time.convert_datetime(*args, **kwargs)
 
 # PURPOSE: convert times from seconds since epoch1 to time since epoch2
 def convert_delta_time(*args, **kwargs):
@@ -231,7 +234,7 @@ def convert_delta_time(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_delta_time",
         DeprecationWarning)
-    return timescale.time.convert_delta_time(*args, **kwargs)
+    return _timescale.time.convert_delta_time(*args, **kwargs)
 
 # PURPOSE: calculate the delta time from calendar date
 # http://scienceworld.wolfram.com/astronomy/JulianDate.html
@@ -265,7 +268,7 @@ def convert_calendar_dates(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_dates",
         DeprecationWarning)
-    return timescale.time.convert_calendar_dates(*args, **kwargs)
+    return _timescale.time.convert_calendar_dates(*args, **kwargs)
 
 # PURPOSE: Converts from calendar dates into decimal years
 def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
@@ -297,7 +300,7 @@ def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_calendar_decimal(*args, **kwargs)
+    return _timescale.time.convert_calendar_decimal(*args, **kwargs)
 
 # PURPOSE: Converts from Julian day to calendar date and time
 def convert_julian(*args, **kwargs):
@@ -335,12 +338,12 @@ def convert_julian(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_julian(*args, **kwargs)
+    return _timescale.time.convert_julian(*args, **kwargs)
 
 # delta time (TT - UT1) file
-_delta_file = timescale.utilities.get_data_path(['data','merged_deltat.data'])
+_delta_file = _timescale.utilities.get_data_path(['data','merged_deltat.data'])
 
-class timescale(timescale.time.Timescale):
+class timescale(_timescale.time.Timescale):
     """
     Class for converting between time scales
 
-- 
2.43.0


From b176cf01e0d44b47026fdaeb58af6f23364f640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 109/116] fix: close netCDF4 files when reading or writing
 fails

---
 pyTMD/spatial.py | 172 +++++++++++++++++++++++------------------------
 1 file changed, 86 insertions(+), 86 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index cab6161..fb33b57 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -410,72 +410,72 @@ def from_netCDF4(filename: str, **kwargs):
     else:
         # read netCDF4 dataset
         fileID = netCDF4.Dataset(case_insensitive_filename(filename), 'r')
-    # Output NetCDF file information
-    logging.info(fileID.filepath())
-    logging.info(list(fileID.variables.keys()))
-    # create python dictionary for output variables and attributes
-    dinput = {}
-    dinput['attributes'] = {}
-    # get attributes for the file
-    for attr in ['title', 'description', 'projection']:
-        # try getting the attribute
-        try:
-            ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
-            dinput['attributes'][attr] = fileID.getncattr(ncattr)
-        except (ValueError, AttributeError):
-            pass
-    # list of attributes to attempt to retrieve from included variables
-    attributes_list = ['description', 'units', 'long_name', 'calendar',
-        'standard_name', 'grid_mapping', '_FillValue']
-    # mapping between netCDF4 variable names and output names
-    if not kwargs['field_mapping']:
-        kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
-        kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
-        if kwargs['varname'] is not None:
-            kwargs['field_mapping']['data'] = copy.copy(kwargs['varname'])
-        if kwargs['timename'] is not None:
-            kwargs['field_mapping']['time'] = copy.copy(kwargs['timename'])
-    # check if reading from root group or sub-group
-    group = fileID.groups[kwargs['group']] if kwargs['group'] else fileID
-    # for each variable
-    for key, nc in kwargs['field_mapping'].items():
-        # Getting the data from each NetCDF variable
-        dinput[key] = group.variables[nc][:]
-        # get attributes for the included variables
-        dinput['attributes'][key] = {}
-        for attr in attributes_list:
+    # close the NetCDF file when finished (or if there is an exception)
+    with fileID:
+        # Output NetCDF file information
+        logging.info(fileID.filepath())
+        logging.info(list(fileID.variables.keys()))
+        # create python dictionary for output variables and attributes
+        dinput = {}
+        dinput['attributes'] = {}
+        # get attributes for the file
+        for attr in ['title', 'description', 'projection']:
             # try getting the attribute
             try:
-                ncattr, = [s for s in group.variables[nc].ncattrs()
-                    if re.fullmatch(attr, s, re.I)]
-                dinput['attributes'][key][attr] = \
-                    group.variables[nc].getncattr(ncattr)
+                ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
+                dinput['attributes'][attr] = fileID.getncattr(ncattr)
             except (ValueError, AttributeError):
                 pass
-    # get projection information if there is a grid_mapping attribute
-    if 'data' in dinput.keys() and 'grid_mapping' in dinput['attributes']['data'].keys():
-        # try getting the attribute
-        grid_mapping = dinput['attributes']['data']['grid_mapping']
-        # get coordinate reference system attributes
-        dinput['attributes']['crs'] = {}
-        for att_name in group[grid_mapping].ncattrs():
-            dinput['attributes']['crs'][att_name] = \
-                group.variables[grid_mapping].getncattr(att_name)
-        # get the spatial projection reference information from wkt
-        # and overwrite the file-level projection attribute (if existing)
-        osgeo.osr.UseExceptions()
-        srs = osgeo.osr.SpatialReference()
-        srs.ImportFromWkt(dinput['attributes']['crs']['crs_wkt'])
-        dinput['attributes']['projection'] = srs.ExportToProj4()
-    # convert to masked array if fill values
-    if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        # keep the mask of packed or invalid data
-        mask = np.ma.getmaskarray(dinput['data'])
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = mask | (dinput['data'].data == dinput['data'].fill_value)
-    # Closing the NetCDF file
-    fileID.close()
+        # list of attributes to attempt to retrieve from included variables
+        attributes_list = ['description', 'units', 'long_name', 'calendar',
+            'standard_name', 'grid_mapping', '_FillValue']
+        # mapping between netCDF4 variable names and output names
+        if not kwargs['field_mapping']:
+            kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
+            kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
+            if kwargs['varname'] is not None:
+                kwargs['field_mapping']['data'] = copy.copy(kwargs['varname'])
+            if kwargs['timename'] is not None:
+                kwargs['field_mapping']['time'] = copy.copy(kwargs['timename'])
+        # check if reading from root group or sub-group
+        group = fileID.groups[kwargs['group']] if kwargs['group'] else fileID
+        # for each variable
+        for key, nc in kwargs['field_mapping'].items():
+            # Getting the data from each NetCDF variable
+            dinput[key] = group.variables[nc][:]
+            # get attributes for the included variables
+            dinput['attributes'][key] = {}
+            for attr in attributes_list:
+                # try getting the attribute
+                try:
+                    ncattr, = [s for s in group.variables[nc].ncattrs()
+                        if re.fullmatch(attr, s, re.I)]
+                    dinput['attributes'][key][attr] = \
+                        group.variables[nc].getncattr(ncattr)
+                except (ValueError, AttributeError):
+                    pass
+        # get projection information if there is a grid_mapping attribute
+        if 'data' in dinput.keys() and 'grid_mapping' in dinput['attributes']['data'].keys():
+            # try getting the attribute
+            grid_mapping = dinput['attributes']['data']['grid_mapping']
+            # get coordinate reference system attributes
+            dinput['attributes']['crs'] = {}
+            for att_name in group[grid_mapping].ncattrs():
+                dinput['attributes']['crs'][att_name] = \
+                    group.variables[grid_mapping].getncattr(att_name)
+            # get the spatial projection reference information from wkt
+            # and overwrite the file-level projection attribute (if existing)
+            osgeo.osr.UseExceptions()
+            srs = osgeo.osr.SpatialReference()
+            srs.ImportFromWkt(dinput['attributes']['crs']['crs_wkt'])
+            dinput['attributes']['projection'] = srs.ExportToProj4()
+        # convert to masked array if fill values
+        if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
+            # keep the mask of packed or invalid data
+            mask = np.ma.getmaskarray(dinput['data'])
+            dinput['data'] = np.ma.asarray(dinput['data'])
+            dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
+            dinput['data'].mask = mask | (dinput['data'].data == dinput['data'].fill_value)
     # return the spatial variables
     return dinput
 
@@ -931,30 +931,30 @@ def to_netCDF4(
     # opening NetCDF file for writing
     filename = pathlib.Path(filename).expanduser().absolute()
     fileID = netCDF4.Dataset(filename, kwargs['mode'], format="NETCDF4")
-    if kwargs['data_type'] in ('drift',):
-        kwargs.pop('data_type')
-        _drift_netCDF4(fileID, output, attributes, **kwargs)
-    elif kwargs['data_type'] in ('grid',):
-        kwargs.pop('data_type')
-        _grid_netCDF4(fileID, output, attributes, **kwargs)
-    elif kwargs['data_type'] in ('time series',):
-        kwargs.pop('data_type')
-        _time_series_netCDF4(fileID, output, attributes, **kwargs)
-    # add attribute for date created
-    fileID.date_created = datetime.datetime.now().isoformat()
-    # add attributes for software information
-    fileID.software_reference = pyTMD.version.project_name
-    fileID.software_version = pyTMD.version.full_version
-    # add file-level attributes if applicable
-    if 'ROOT' in attributes.keys():
-        # Defining attributes for file
-        for att_name, att_val in attributes['ROOT'].items():
-            fileID.setncattr(att_name, att_val)
-    # Output NetCDF structure information
-    logging.info(str(filename))
-    logging.info(list(fileID.variables.keys()))
-    # Closing the NetCDF file
-    fileID.close()
+    # close the NetCDF file when finished (or if there is an exception)
+    with fileID:
+        if kwargs['data_type'] in ('drift',):
+            kwargs.pop('data_type')
+            _drift_netCDF4(fileID, output, attributes, **kwargs)
+        elif kwargs['data_type'] in ('grid',):
+            kwargs.pop('data_type')
+            _grid_netCDF4(fileID, output, attributes, **kwargs)
+        elif kwargs['data_type'] in ('time series',):
+            kwargs.pop('data_type')
+            _time_series_netCDF4(fileID, output, attributes, **kwargs)
+        # add attribute for date created
+        fileID.date_created = datetime.datetime.now().isoformat()
+        # add attributes for software information
+        fileID.software_reference = pyTMD.version.project_name
+        fileID.software_version = pyTMD.version.full_version
+        # add file-level attributes if applicable
+        if 'ROOT' in attributes.keys():
+            # Defining attributes for file
+            for att_name, att_val in attributes['ROOT'].items():
+                fileID.setncattr(att_name, att_val)
+        # Output NetCDF structure information
+        logging.info(str(filename))
+        logging.info(list(fileID.variables.keys()))
 
 def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
-- 
2.43.0


From 23483100029fa1c89efd26dd146efebaf164fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:46 +0000
Subject: [PATCH 110/116] fix: prompt for a password after a refused Earthdata
 login

---
 pyTMD/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index f6d9fc5..bff895c 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -1028,6 +1028,7 @@ def attempt_login(
             return opener
         # reattempt login
         username = builtins.input(f'Username for {urs}: ')
+        prompt = f'Password for {username}@{urs}: '
         password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
-- 
2.43.0


From d962f5bc197dc4cb3542e0f2649ff463402a7f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:08 +0000
Subject: [PATCH 111/116] fix: do not shift negative x-coordinates of projected
 OTIS grids

---
 pyTMD/compute.py             |  3 ++-
 pyTMD/io/OTIS.py             | 15 +++++++++++----
 scripts/reduce_OTIS_files.py |  3 ++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 41e3c1c..53b0227 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -740,7 +740,8 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
             xi, yi, hz, mz, sf = pyTMD.io.OTIS.read_netcdf_grid(grid_file)
         else:
             # if reading a single OTIS solution
-            xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(grid_file)
+            xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(grid_file,
+                is_geographic=pyTMD.crs().get(model.projection).is_geographic)
         # invert model mask
         mz = np.logical_not(mz)
         # adjust dimensions of input coordinates to be iterable
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 2808096..12e8337 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -278,7 +278,8 @@ def extract_constants(
         xi,yi,hz,mz,sf = read_netcdf_grid(grid_file)
     else:
         # if reading a single OTIS solution
-        xi,yi,hz,mz,iob,dt = read_otis_grid(grid_file)
+        xi,yi,hz,mz,iob,dt = read_otis_grid(grid_file,
+            is_geographic=pyTMD.crs().get(projection).is_geographic)
     # invert tide mask to be True for invalid points
     mz = np.logical_not(mz).astype(mz.dtype)
 
@@ -597,7 +598,8 @@ def read_constants(
         xi,yi,hz,mz,sf = read_netcdf_grid(grid_file)
     else:
         # if reading a single OTIS solution
-        xi,yi,hz,mz,iob,dt = read_otis_grid(grid_file)
+        xi,yi,hz,mz,iob,dt = read_otis_grid(grid_file,
+            is_geographic=pyTMD.crs().get(projection).is_geographic)
     # invert tide mask to be True for invalid points
     mz = np.logical_not(mz).astype(mz.dtype)
     # grid step size of tide model
@@ -933,7 +935,10 @@ def interpolate_constants(
     return (amplitude, phase, D)
 
 # PURPOSE: read tide grid file
-def read_otis_grid(input_file: str | pathlib.Path):
+def read_otis_grid(
+        input_file: str | pathlib.Path,
+        is_geographic: bool = True
+    ):
     """
     Read grid file to extract model coordinates, bathymetry, masks and indices
 
@@ -941,6 +946,8 @@ def read_otis_grid(input_file: str | pathlib.Path):
     ----------
     input_file: str or pathlib.Path
         input grid file
+    is_geographic: bool, default True
+        x-coordinates of the grid are longitudes
 
     Returns
     -------
@@ -970,7 +977,7 @@ def read_otis_grid(input_file: str | pathlib.Path):
     xlim = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
     dt, = np.fromfile(fid, dtype=np.dtype('>f4'), count=1)
     # convert longitudinal limits (if x == longitude)
-    if (xlim[0] < 0) & (xlim[1] < 0) & (dt > 0):
+    if is_geographic and (xlim[0] < 0) & (xlim[1] < 0) & (dt > 0):
         xlim += 360.0
     # create x and y arrays arrays (these could be lon and lat values)
     dx = (xlim[1] - xlim[0])/nx
diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index 96154df..b41b0a4 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -117,7 +117,8 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
             local, variable='depth')
     else:
         # if reading a pure global solution
-        xi,yi,hz,mz,iob,dt = pyTMD.io.OTIS.read_otis_grid(model.grid_file)
+        xi,yi,hz,mz,iob,dt = pyTMD.io.OTIS.read_otis_grid(model.grid_file,
+            is_geographic=pyTMD.crs().get(model.projection).is_geographic)
 
     # converting bounds x,y from projection to latitude/longitude
     crs1 = pyTMD.crs().from_input(PROJECTION)
-- 
2.43.0


From 7fb39fd43998ca0e274aff3c9ac005755fa7fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 112/116] fix: nodal corrections of compounds with parentheses
 in their names

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index a570d20..02db293 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -924,7 +924,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn):8','3msn10',
+        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn)8','2(mn):8','3msn10',
                 '4ms10','2(mn)S10','4m2s12'):
             # compound tides calculated using recursion
             parents = ['m2']
@@ -1037,7 +1037,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('4mk9','3mnk9','2m2nk9','2(mn):k9','3nmk9','4msk11'):
+        elif c in ('4mk9','3mnk9','2m2nk9','2(mn)k9','2(mn):k9','3nmk9','4msk11'):
             # compound tides calculated using recursion
             parents = ['m2','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -1100,7 +1100,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('m2(ks):2',):
+        elif c in ('m2(ks)2','m2(ks):2'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 4067c6d9b426b0dd4a8ca1d5ca516a8fedcdff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:23 +0000
Subject: [PATCH 113/116] fix: short-period minor tides inferred from masked
 constants are masked

---
 pyTMD/predict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 26d56d8..ab5f921 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -425,7 +425,7 @@ def _infer_short_period(
         return 0.0
 
     # relationship between major and minor constituent amplitude and phase
-    zmin = np.zeros((n, 20), dtype=np.complex64)
+    zmin = np.ma.zeros((n, 20), dtype=np.complex64)
     zmin[:,0] = 0.263*z[:,0] - 0.0252*z[:,1]# 2Q1
     zmin[:,1] = 0.297*z[:,0] - 0.0264*z[:,1]# sigma1
     zmin[:,2] = 0.164*z[:,0] + 0.0048*z[:,1]# rho1
-- 
2.43.0


From 5a05d125bb0fc98fac34a8fe9e32d7418724d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:23 +0000
Subject: [PATCH 114/116] fix: bounds for cropping models can be given as
 arrays

---
 pyTMD/io/ATLAS.py | 3 ++-
 pyTMD/io/FES.py   | 3 ++-
 pyTMD/io/GOT.py   | 3 ++-
 pyTMD/io/OTIS.py  | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 1f00705..9ec20a2 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -236,7 +236,8 @@ def extract_constants(
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
-    bounds = kwargs['bounds'] or [xmin, xmax, ymin, ymax]
+    bounds = kwargs['bounds'] if np.any(kwargs['bounds']) else \
+        [xmin, xmax, ymin, ymax]
     # grid step size of tide model
     dlon = lon[1] - lon[0]
     # default buffer if cropping data
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 0296f08..9704d8f 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -233,7 +233,8 @@ def extract_constants(
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
-    bounds = kwargs['bounds'] or [xmin, xmax, ymin, ymax]
+    bounds = kwargs['bounds'] if np.any(kwargs['bounds']) else \
+        [xmin, xmax, ymin, ymax]
     # number of points
     npts = len(ilon)
     # number of constituents
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 0ade203..619b549 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -206,7 +206,8 @@ def extract_constants(
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
-    bounds = kwargs['bounds'] or [xmin, xmax, ymin, ymax]
+    bounds = kwargs['bounds'] if np.any(kwargs['bounds']) else \
+        [xmin, xmax, ymin, ymax]
     # number of points
     npts = len(ilon)
     # number of constituents
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 12e8337..f561e1a 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -296,7 +296,8 @@ def extract_constants(
     # default bounds if cropping data
     xmin, xmax = np.min(x), np.max(x)
     ymin, ymax = np.min(y), np.max(y)
-    bounds = kwargs['bounds'] or [xmin, xmax, ymin, ymax]
+    bounds = kwargs['bounds'] if np.any(kwargs['bounds']) else \
+        [xmin, xmax, ymin, ymax]
     # default buffer if cropping data
     buffer = kwargs['buffer'] or 4*dx
 
-- 
2.43.0


From b4bc786c8803ab89b560de84e4a94f954591000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:23 +0000
Subject: [PATCH 115/116] fix: write constituent IDs that are longer than four
 characters

---
 pyTMD/io/ATLAS.py | 4 ++--
 pyTMD/io/FES.py   | 2 +-
 pyTMD/io/OTIS.py  | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 9ec20a2..da2e687 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1046,7 +1046,7 @@ def output_netcdf_elevation(
     ny, nx = np.shape(h)
     fileID.createDimension('nx', nx)
     fileID.createDimension('ny', ny)
-    fileID.createDimension('nct', 4)
+    fileID.createDimension('nct', max(4, len(constituent)))
     # defining the NetCDF variables
     nc = {}
     nc['lon_z'] = fileID.createVariable('lon_z', lon_z.dtype, ('nx',))
@@ -1139,7 +1139,7 @@ def output_netcdf_transport(
     ny, nx = np.shape(u)
     fileID.createDimension('nx', nx)
     fileID.createDimension('ny', ny)
-    fileID.createDimension('nct', 4)
+    fileID.createDimension('nct', max(4, len(constituent)))
     # defining the NetCDF variables
     nc = {}
     nc['lon_u'] = fileID.createVariable('lon_u', lon_u.dtype, ('nx',))
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 9704d8f..cf50aa2 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -782,7 +782,7 @@ def output_netcdf_file(
     # define the NetCDF dimensions
     fileID.createDimension('lon', len(lon))
     fileID.createDimension('lat', len(lat))
-    fileID.createDimension('nct', 4)
+    fileID.createDimension('nct', max(4, len(constituent)))
     # calculate amplitude and phase
     amp = np.abs(hc)
     ph = 180.0*np.arctan2(-np.imag(hc), np.real(hc))/np.pi
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index f561e1a..0ba55ba 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1864,6 +1864,9 @@ def output_otis_elevation(
     """
     # tilde-expand output file
     FILE = pathlib.Path(FILE).expanduser()
+    # constituent IDs are stored as 4 character strings
+    if any((len(c) > 4) for c in constituents):
+        raise ValueError('Constituent IDs are limited to 4 characters')
     # open output file
     fid = FILE.open(mode='wb')
     ny, nx, nc = np.shape(h)
@@ -1920,6 +1923,9 @@ def output_otis_transport(
     """
     # tilde-expand output file
     FILE = pathlib.Path(FILE).expanduser()
+    # constituent IDs are stored as 4 character strings
+    if any((len(c) > 4) for c in constituents):
+        raise ValueError('Constituent IDs are limited to 4 characters')
     # open output file
     fid = FILE.open(mode='wb')
     ny, nx, nc = np.shape(u)
-- 
2.43.0


From 0d9c2c71beb1d82bfe31b519b3216824ffca67c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 116/116] fix: interactive maps can be made without stating
 marker_control

---
 pyTMD/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/tools.py b/pyTMD/tools.py
index 9616eb6..a265077 100644
--- a/pyTMD/tools.py
+++ b/pyTMD/tools.py
@@ -191,6 +191,7 @@ class leaflet:
         kwargs.setdefault('scale_control',False)
         kwargs.setdefault('cursor_control',True)
         kwargs.setdefault('layer_control',True)
+        kwargs.setdefault('marker_control',False)
         kwargs.setdefault('center',(39,-108))
         # create basemap in projection
         if (projection == 'Global'):
-- 
2.43.0

