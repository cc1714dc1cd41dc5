From eb2f22579dd933c2b48426ba187036b72daea6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 01/60] fix: ADC mean angle is stable when both ADC angles are
 equal up to rounding

---
 py/desimeter/transform/tan2fp/raytracefit.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/py/desimeter/transform/tan2fp/raytracefit.py b/py/desimeter/transform/tan2fp/raytracefit.py
index 6c04c3a..e119b57 100644
--- a/py/desimeter/transform/tan2fp/raytracefit.py
+++ b/py/desimeter/transform/tan2fp/raytracefit.py
@@ -8,7 +8,7 @@ import numpy as np
 from scipy.interpolate import interp1d
 
 from desimeter.transform.zhaoburge import getZhaoBurgeXY, transform, fitZhaoBurge
-from desimeter.trig import average_angles_deg, put360
+from desimeter.trig import put360
 
 
 def average_angles_adc(adc1, adc2):
@@ -19,13 +19,12 @@ def average_angles_adc(adc1, adc2):
     correctly averages the "skinny ends" of the ADCs, so that the mean angle
     is halfway between the two skinny ends.
 
-    (adc1 - adc2) % 360 == 0 is special cased.  Here we define the average
-    angle to be adc1 in that case.  average_angles_deg would return
-    arctan2(0, 0) in that case, which isn't helpful.
+    When (adc1 - adc2) % 360 == 0, the average angle is adc1.
     """
-    if ((adc1 - adc2) % 360) == 0:
-        return adc1 % 360
-    return average_angles_deg(adc1+90, adc2-90)
+    # adc1 + delta/2 is the midpoint of adc1+90 and adc2-90.  It stays well
+    # defined when the two angles are equal up to rounding, where the
+    # midpoint of two nearly opposite directions is only rounding noise.
+    return put360(adc1 + delta_angles_adc(adc1, adc2)/2.)
 
 
 def delta_angles_adc(adc1, adc2):
-- 
2.43.0


From 294e1a83ed2e009e008ace99ce7c3ac5946e199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 02/60] fix: SimpleCorr and TanCorr can read back the JSON they
 write

---
 py/desimeter/fieldmodel.py | 2 +-
 py/desimeter/simplecorr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6fce584..443a752 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -338,7 +338,7 @@ class TanCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Tangent Plane Correction"
         assert params['version'] == '1'
         tx.dha = params['dha']
         tx.ddec = params['ddec']
diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 64f9c01..73f1bf1 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -36,7 +36,7 @@ class SimpleCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Simple Correction"
         assert params['version'] == '1'
         tx.dx = params['dx']
         tx.dy = params['dy']
-- 
2.43.0


From d02541a2bd189bc5cd7958ac2821f462b144a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 03/60] fix: SimpleCorr and TanCorr fits are valid for
 rotations of 0, 90, 180, 270 degrees

---
 py/desimeter/fieldmodel.py |  8 +++++---
 py/desimeter/simplecorr.py | 17 +++++++----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 443a752..6d7fbd8 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -423,9 +423,11 @@ class TanCorr(object):
 
         self.rot_deg = arctan2d(sa,ca)
 
-        sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-        sxx =(ax[1]-sxy*sa)/ca
-        syy = (ay[1]-sxy*ca)/sa
+        # |sxx sxy|=|ax1 ax2| |ca   sa|
+        # |sxy syy| |ay1 ay2|*|-sa  ca|
+        sxx = ax[1]*ca - ax[2]*sa
+        sxy = ax[1]*sa + ax[2]*ca
+        syy = ay[1]*sa + ay[2]*ca
 
         self.sxx = sxx
         self.syy = syy
diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 73f1bf1..cb79467 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -135,16 +135,13 @@ class SimpleCorr(object):
         sa=(ay[1]-ax[2])/sxx_p_syy
         ca=(ax[1]+ay[2])/sxx_p_syy
 
-        if sa != 0 :
-            self.rot_deg = arctan2d(sa,ca)
-
-            sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-            sxx =(ax[1]-sxy*sa)/ca
-            syy = (ay[1]-sxy*ca)/sa
-        else :
-            sxx = ax[1]
-            syy = ay[2]
-            sxy = ax[2]
+        self.rot_deg = arctan2d(sa,ca)
+
+        # |sxx sxy|=|ax1 ax2| |ca   sa|
+        # |sxy syy| |ay1 ay2|*|-sa  ca|
+        sxx = ax[1]*ca - ax[2]*sa
+        sxy = ax[1]*sa + ax[2]*ca
+        syy = ay[1]*sa + ay[2]*ca
         self.sxx = sxx
         self.syy = syy
         self.sxy = sxy
-- 
2.43.0


From 8c189aa3cc1c90c8b12d358ed87b1f3224a9e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 04/60] fix: TanCorr.apply_inverse undoes the pointing offset
 of TanCorr.apply

---
 py/desimeter/fieldmodel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6d7fbd8..f4538fa 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -445,10 +445,9 @@ class TanCorr(object):
         det = self.sxx*self.syy - self.sxy**2
         scale_matrix = np.array([[self.syy,-self.sxy],[-self.sxy,self.sxx]])/det
         rot_matrix = rot2deg(-self.rot_deg)
-        ha,dec  = xy2hadec(x,y,0,0)
-        x1t,y1t = hadec2xy(ha,dec,self.dha,self.ddec)
-        xy=rot_matrix.dot(scale_matrix.dot(np.array([x1t,y1t])))
-        return xy[0],xy[1]
+        xy=rot_matrix.dot(scale_matrix.dot(np.array([x,y])))
+        ha,dec  = xy2hadec(xy[0],xy[1],self.dha,self.ddec)
+        return hadec2xy(ha,dec,0,0)
 
 def fieldrot(ra,dec,mjd,lst_deg,hexrot_deg=0) :
     """
-- 
2.43.0


From b7bd8e7155db18892ad597c44a42718097f57ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 05/60] fix: load_nominal_positioner_locations no longer uses
 the undefined resource_filename

---
 py/desimeter/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py/desimeter/io.py b/py/desimeter/io.py
index a19013c..8bc2e4d 100644
--- a/py/desimeter/io.py
+++ b/py/desimeter/io.py
@@ -68,9 +68,8 @@ def fvc_bias_filename():
     return os.path.join(desimeter_data_dir(),'bias.fits')
 
 def load_nominal_positioner_locations():
-    directory = resource_filename('desimeter', 'data')
     filename = 'positioner_locations_0530v18.csv'
-    path = os.path.join(directory, filename)
+    path = os.path.join(desimeter_data_dir(), filename)
     table = Table.read(path)
 
     # so that we can use identical copy as in svn plate_control/petal, but with
-- 
2.43.0


From db8fe146b0b4c9ec5e0e25d120ddba8989ccac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 06/60] fix: undo_refraction does not modify the caller's
 altitudes

---
 py/desimeter/transform/radec2tan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/radec2tan.py b/py/desimeter/transform/radec2tan.py
index e1db337..c9f1d27 100644
--- a/py/desimeter/transform/radec2tan.py
+++ b/py/desimeter/transform/radec2tan.py
@@ -311,7 +311,7 @@ def undo_refraction(alt) :
     for _ in range(2) :
         da   = apply_refraction(alt) - alt
         dda  = da-daprev
-        alt -= dda
+        alt = alt - dda
         daprev = da
     return alt
 
-- 
2.43.0


From cfe9a60fbd79b278a85d2f2381ef33b4ed1ecdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 07/60] fix: z2r and z2s interpolate with increasing Z instead
 of returning NaN

---
 py/desimeter/transform/rszn_lookups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/rszn_lookups.py b/py/desimeter/transform/rszn_lookups.py
index 9edd713..06cc471 100644
--- a/py/desimeter/transform/rszn_lookups.py
+++ b/py/desimeter/transform/rszn_lookups.py
@@ -47,7 +47,7 @@ def r2z(r):
 
 def z2r(z):
     '''Convert z (mm) to r (mm) on a nominal Echo22 focal surface.'''
-    return np.interp(z, Z, R, left=oob, right=oob)
+    return np.interp(z, Z[::-1], R[::-1], left=oob, right=oob) # Z decreases with R
 
 def r2n(r):
     '''Convert r (mm) to n (deg) on a nominal Echo22 focal surface.'''
-- 
2.43.0


From c85e8f3e3371c96d945014ffab296751290afd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 08/60] fix: field rotation rate of arrays of Dec or LST with a
 scalar RA is not truncated to one value

---
 py/desimeter/fieldmodel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index f4538fa..42953c9 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -514,10 +514,9 @@ def dfieldrotdt_empirical_model(ra,dec,lst_deg) :
     # based on the output of the script desi_fit_field_rotation_rate.
     # Result of fit on data/guide_data_20200415.csv + guide_20201215_with_hexrot.csv
 
-    scalar = np.isscalar(ra)
-    if scalar :
-        ra  = np.atleast_1d(ra)
-        dec = np.atleast_1d(dec)
+    scalar = np.isscalar(ra) and np.isscalar(dec) and np.isscalar(lst_deg)
+    ra  = np.atleast_1d(ra)
+    dec = np.atleast_1d(dec)
 
     if np.any(np.abs(dec)>90.) :
         raise ValueError("Unphysical Dec in degrees: {}".format(dec))
-- 
2.43.0


From 4617952601120ac90eca2419d303eca9f49b9afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 09/60] fix: delta_angle accepts any mix of scalar and vector
 arguments, as documented

---
 py/desimeter/transform/pos2ptl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index f25dfad..c4c5654 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -290,9 +290,9 @@ def delta_angle(u_start, u_final, direction=0):
     '''
     u_start = _to_numpy(u_start)
     u_final = _to_numpy(u_final)
-    direction = np.ones(np.shape(u_start)) * _to_numpy(direction)
-    direction = np.sign(direction) # ensure vals are only +1, 0, or -1
-    natural_delta = u_final - u_start
+    direction = _to_numpy(direction)
+    natural_delta = u_final - u_start + np.zeros(direction.shape)
+    direction = np.sign(direction + np.zeros(natural_delta.shape)) # ensure vals are only +1, 0, or -1
     zero_dir = direction == 0
     direction[zero_dir] = np.sign(natural_delta)[zero_dir]
     opposites = direction != np.sign(natural_delta)
-- 
2.43.0


From 222af34f291df14c8f40777aa49bf8dfb0c0357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 10/60] fix: pos2ptl conversions accept tuples of length one,
 as documented

---
 py/desimeter/transform/pos2ptl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index c4c5654..7ee2056 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -359,7 +359,7 @@ def ptl2int(x_ptl, y_ptl, r1, r2, t_offset, p_offset, x_offset, y_offset,
 
 def _to_numpy(u):
     '''Internal function to cast values to consistent numpy vectors.'''
-    if isinstance(u, list):
+    if isinstance(u, (list, tuple)):
         return np.array(u)
     if np.size(u) == 1:
         return np.array([float(u)])
@@ -369,8 +369,8 @@ def _to_numpy(u):
 
 def _to_list(u):
     '''Internal function to cast values to consistent python list vectors.'''
-    if isinstance(u, list):
-        return u
+    if isinstance(u, (list, tuple)):
+        return list(u)
     if np.size(u) == 1:
         if u == None:
             return [None]
-- 
2.43.0


From 3c81121e68eb7ac614f438fecabb25a4b08946dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 11/60] fix: robust_fit_circle rejects more than one outlier

---
 py/desimeter/circles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/circles.py b/py/desimeter/circles.py
index 6306858..475a18b 100644
--- a/py/desimeter/circles.py
+++ b/py/desimeter/circles.py
@@ -126,7 +126,7 @@ def robust_fit_circle(x, y, nsig=4., minerr=0.1):
         radii = np.hypot(x-xc, y-yc)
         res = np.abs(radii-r)
         rms = 1.483*np.median(res)
-        worst = np.argmax(res)
+        worst = np.argmax(np.where(ok, res, -1.)) # among the points not already rejected
         if (res[worst] < nsig*rms) or (res[worst] < minerr) :
             break
         ok[worst]=False
-- 
2.43.0


From 4cd58ae2c4d2a877d271efc01f6dfa66e0b7c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 12/60] fix: average_coordinates returns a new table instead of
 modifying the first input

---
 py/desimeter/averagecoord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/averagecoord.py b/py/desimeter/averagecoord.py
index 225791f..7eebe91 100644
--- a/py/desimeter/averagecoord.py
+++ b/py/desimeter/averagecoord.py
@@ -22,7 +22,7 @@ def average_coordinates(tables,xkey,ykey) :
         x2=np.array(table[xkey])
         y2=np.array(table[ykey])
         if x1 is None :
-            table1=table
+            table1=table.copy() # do not modify the input table
             x1=x2
             y1=y2
             indices=np.arange(len(x1),dtype=int)
-- 
2.43.0


From 1f594ed5ddceebe7ae9e93591231f9ec89dc3735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 13/60] fix: save the correction switches of the field model

FieldModel.tojson dropped precession, aberration and polar_misalignment,
so that a model fitted with one of them off was reloaded as another model.
---
 py/desimeter/fieldmodel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 42953c9..f4a8fe9 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -51,6 +51,10 @@ class FieldModel(object):
         params['adc1'] = self.adc1
         params['adc2'] = self.adc2
 
+        params['precession'] = self.precession
+        params['aberration'] = self.aberration
+        params['polar_misalignment'] = self.polar_misalignment
+
         params['sxx'] = self.sxx
         params['syy'] = self.syy
         params['sxy'] = self.sxy
@@ -75,6 +79,11 @@ class FieldModel(object):
         tx.adc1 = params['adc1']
         tx.adc2 = params['adc2']
 
+        # the switches are missing in older files, keep the default
+        for key in ['precession', 'aberration', 'polar_misalignment'] :
+            if key in params :
+                setattr(tx, key, params[key])
+
         tx.sxx = params['sxx']
         tx.syy = params['syy']
         tx.sxy = params['sxy']
-- 
2.43.0


From ce97350ba0e71c32d36a1e971a6f9a1be3d82576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 14/60] fix: pointing offset of the tangent plane correction
 fit with rotation

TanCorr.apply moves the pointing before the rotation and dilatation, but
fit took the offset measured after them. With stars that are not centred
on the pointing (guide cameras missing on one side) the difference is up
to a fraction of an arcsecond for a field rotation of half a degree, and
iterating the pointing in FieldModel.fit_tancorr did not remove it.
---
 py/desimeter/fieldmodel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index f4a8fe9..5796562 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -412,8 +412,10 @@ class TanCorr(object):
         # increasing gaia stars x means telescope is more to the left so tel_ha should be decreased
         # increasing gaia stars y means telescope is more to the bottom so tel_dec should be decreased
         # tangent plane coordinates are in rad
-        ddha  = -np.rad2deg(ax[0])
-        dddec = -np.rad2deg(ay[0])
+        # the pointing offset is applied before the rotation and dilatation
+        dx,dy = np.linalg.solve(np.array([[ax[1],ax[2]],[ay[1],ay[2]]]),np.array([ax[0],ay[0]]))
+        ddha  = -np.rad2deg(dx)
+        dddec = -np.rad2deg(dy)
 
         self.dha  += ddha
         self.ddec += dddec
-- 
2.43.0


From b7595e0eb5c4932491fc6c5e9fe372fec0a8ba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 15/60] fix: use guide stars without proper motion

NaN values are masked when reading a fits table with astropy, so that the
proper motions were not set to zero and the stars were dropped.
---
 py/desimeter/fieldmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 5796562..6855664 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -119,9 +119,10 @@ class FieldModel(object):
                 raise RuntimeError("Cannot compute proper motion correction because mjd=None")
 
             # if proper motions and reference epochs are there
-            pmra = catalog['pmra']
-            pmdec = catalog['pmdec']
             # if unknown, zero out the pms
+            # (NaN in a fits table are masked when read)
+            pmra = np.ma.filled(catalog['pmra'],0.)
+            pmdec = np.ma.filled(catalog['pmdec'],0.)
             pmra[~np.isfinite(pmra)] = 0
             pmdec[~np.isfinite(pmdec)] = 0
 
-- 
2.43.0


From fc03c8d5e4d2130c85b0718715ad96e4358270ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 16/60] fix: match guide stars on both sides of RA=0

---
 py/desimeter/fieldmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6855664..ddcadac 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -145,7 +145,8 @@ class FieldModel(object):
             dec_column = 'dec_gaia'
             log.warning("No proper motion info in catalog")
 
-        match_dra  = (catalog["ra"]-catalog[ra_column])*cosd(catalog[dec_column]) * 3600. # arcsec
+        match_dra  = (catalog["ra"]-catalog[ra_column]+180.)%360.-180. # deg, RA can wrap
+        match_dra *= cosd(catalog[dec_column]) * 3600. # arcsec
         match_ddec = (catalog["dec"]-catalog[dec_column]) * 3600. # arcsec
 
         dr = np.hypot(match_dra, match_ddec)
-- 
2.43.0


From 1acb426aa10d33dd60daa8cd7f8344a210954e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 17/60] fix: measure the field rotation in one system in
 fiberassign and its inverse

fiberassign_radec2xy_cs5 measures the field rotation with the platemaker
coordinates and rotates those, but the inverse measured and rotated the
desimeter coordinates. The targets came back with errors of 0.1 to
0.4 arcsec when the field has few targets.
---
 py/desimeter/fiberassign.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/py/desimeter/fiberassign.py b/py/desimeter/fiberassign.py
index 1fa0db5..5b35ec0 100644
--- a/py/desimeter/fiberassign.py
+++ b/py/desimeter/fiberassign.py
@@ -233,16 +233,19 @@ def fiberassign_cs5_xy2radec(xfp,yfp,tile_ra,tile_dec,tile_mjd,tile_ha,tile_fiel
         tel_ra += dra
         tel_dec += ddec
 
-    if from_platemaker :
-        # apply tranformation from desimeter to platemater
-        dm2pm = DM2PM.read(dm2pm_filename())
-        xfp,yfp = dm2pm.pm2dm(xfp,yfp)
+    dm2pm = DM2PM.read(dm2pm_filename()) if from_platemaker else None
 
-    xtan,ytan = fp2tan(xfp,yfp,adc1,adc2)
-    tmp_ra,tmp_dec    = tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
+    def xy2radec(x,y) :
+        if from_platemaker :
+            # apply tranformation from platemaker to desimeter
+            x,y = dm2pm.pm2dm(x,y)
+        xtan,ytan = fp2tan(x,y,adc1,adc2)
+        return tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
+
+    tmp_ra,tmp_dec = xy2radec(xfp,yfp)
 
     # need to deal with field rotation
-    # measure field rotation
+    # measure field rotation, in the same coordinate system as in fiberassign_radec2xy_cs5
     tmp_fieldrot = _measure_fieldrot_deg(-tmp_ra,tmp_dec,-tile_ra,tile_dec,xfp,yfp)
 
     # apply field rotation to match request
@@ -251,8 +254,7 @@ def fiberassign_cs5_xy2radec(xfp,yfp,tile_ra,tile_dec,tile_mjd,tile_ha,tile_fiel
     tmp_xfp = c * xfp + s * yfp
     tmp_yfp = -s * xfp + c * yfp
 
-    xtan,ytan      = fp2tan(tmp_xfp,tmp_yfp,adc1,adc2)
-    ra,dec = tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
+    ra,dec = xy2radec(tmp_xfp,tmp_yfp)
 
     # verify
     realised_fieldrot = _measure_fieldrot_deg(-ra,dec,-tile_ra,tile_dec,xfp,yfp)
-- 
2.43.0


From d4d0b06ffc4100fa86e69c13921d6ae9eb9ee707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 18/60] fix: detect spots next to the edges of the image

The stamp of a spot less than 3 pixels from the first row or column was
empty (negative index), which failed the detection of the whole image
with a singular matrix. Next to the last row or column, the stamp was cut
and its middle was not the peak any more, giving a position wrong by a pixel.
---
 py/desimeter/detectspots.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index b121d18..72f80ea 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -62,16 +62,21 @@ def dpsfdyc(i0,i1,xc,yc,sigma):
     a=1/(np.sqrt(2)*sigma)
     return -a*0.25*2/np.sqrt(np.pi)*(erf(a*(i1+0.5-xc))-erf(a*(i1-0.5-xc)))*(np.exp(-(a*(i0+0.5-yc))**2)-np.exp(-(a*(i0-0.5-yc))**2))
 
-def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
+def fitcentroid_gaussian(stamp,sigma=1.,noise=10.,center=None):
     """
     fit the centroid of a 2D image square stamp of size (2*hw+1,2*hw+1)
     in a coordinate system centered on the stamp, i.e. the central pixel has coordinates = (0,0)
+
+    center: optional, indices (axis 0, axis 1) of the pixel used as origin and starting point
+     instead of the central pixel, for a stamp that is cut by the edge of the image
     """
     # iterative gauss-newton fit
     n0=stamp.shape[0]
     n1=stamp.shape[1]
-    xc=float(n1//2)
-    yc=float(n0//2)
+    if center is None:
+        center=(n0//2,n1//2)
+    xc=float(center[1])
+    yc=float(center[0])
     flux=np.sum(stamp)
     #print(flux,xc,yc)
     mod    = np.zeros(stamp.shape)
@@ -101,8 +106,8 @@ def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
         if np.abs(delta[1])<0.001 and np.abs(delta[2])<0.001: break
 
     # coordinates should be zero at center of stamp
-    xc -= float(n1//2)
-    yc -= float(n0//2)
+    xc -= float(center[1])
+    yc -= float(center[0])
 
     xe = noise * np.sqrt(Ai[1,1])
     ye = noise * np.sqrt(Ai[2,2])
@@ -111,13 +116,13 @@ def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
     #sys.exit(12)
 
 
-def fitcentroid(stamp,noise=10.):
+def fitcentroid(stamp,noise=10.,center=None):
     """
     fit the centroid of a 2D image square stamp of size (2*hw+1,2*hw+1)
     in a coordinate system centered on the stamp, i.e. the central pixel has coordinates = (0,0)
     """
 
-    return fitcentroid_gaussian(stamp,sigma=1,noise=noise)
+    return fitcentroid_gaussian(stamp,sigma=1,noise=noise,center=center)
     #return fitcentroid_barycenter(stamp)
 
 
@@ -215,7 +220,9 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         i0=index//n1
         i1=index%n1
         if 1: #try :
-            x,y,ex,ey,c=fitcentroid(fvcimage[i0-hw:i0+hw+1,i1-hw:i1+hw+1],noise=fvcimage_rms)
+            b0=max(0,i0-hw) # the stamp is cut at the edge of the image
+            b1=max(0,i1-hw)
+            x,y,ex,ey,c=fitcentroid(fvcimage[b0:i0+hw+1,b1:i1+hw+1],noise=fvcimage_rms,center=(i0-b0,i1-b1))
             xpix[j] = x + i1 + xoffset #  x is along axis=1 in python , also adding offset (definition of pixel coordinates)
             ypix[j] = y + i0 + yoffset #  y is along axis=0 in python , also adding offset (definition of pixel coordinates)
             xerr[j] = ex
-- 
2.43.0


From af7b03e7eea8724c2d889a86583dabef04ab8fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 19/60] fix: findfiducials used the pixel coordinates of the
 first input transform for all later calls

---
 py/desimeter/findfiducials.py | 44 +++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 6ddd75b..2d7ee84 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -11,14 +11,12 @@ from desimeter.transform.fvc2fp import FVC2FP
 from desimeter.match import match_same_system,match_arbitrary_translation_dilatation
 from desimeter.simplecorr import SimpleCorr
 
-metrology_pinholes_table = None
-metrology_fiducials_table = None
+cached_pinholes_table = None
 
 
 def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
 
-    global metrology_pinholes_table
-    global metrology_fiducials_table
+    global cached_pinholes_table
     log = get_logger()
 
     log.debug("load input tranformation we will use to go from FP to FVC pixels")
@@ -35,26 +33,28 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     pinhole_max_separation_pixels = pinhole_max_separation_mm/pixel2fp
     log.info("with pixel2fp = {:4.3f} mm, pinhole max separation = {:4.3f} pixels ".format(pixel2fp,pinhole_max_separation_pixels))
 
-    if metrology_pinholes_table is None :
+    if cached_pinholes_table is None :
         metrology_table = load_metrology()
 
         log.debug("keep only the pinholes")
-        metrology_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
-
-        # use input transform to convert X_FP,Y_FP to XPIX,YPIX
-        xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
-        metrology_pinholes_table["XPIX"]=xpix
-        metrology_pinholes_table["YPIX"]=ypix
-
-        log.debug("define fiducial location as the most central dot")
-        central_pinholes=[]
-        for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
-            ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
-            mx=np.mean(metrology_pinholes_table["XPIX"][ii])
-            my=np.mean(metrology_pinholes_table["YPIX"][ii])
-            k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
-            central_pinholes.append(ii[k])
-        metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
+        cached_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
+
+    # use input transform to convert X_FP,Y_FP to XPIX,YPIX
+    # (in a copy because the input transform can differ from one call to the next)
+    metrology_pinholes_table = cached_pinholes_table.copy()
+    xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
+    metrology_pinholes_table["XPIX"]=xpix
+    metrology_pinholes_table["YPIX"]=ypix
+
+    log.debug("define fiducial location as the most central dot")
+    central_pinholes=[]
+    for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
+        ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
+        mx=np.mean(metrology_pinholes_table["XPIX"][ii])
+        my=np.mean(metrology_pinholes_table["YPIX"][ii])
+        k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
+        central_pinholes.append(ii[k])
+    metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
 
     # find fiducials candidates
     log.info("select spots with at least two close neighbors (in pixel units)")
@@ -65,7 +65,7 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     measured_spots_distances,measured_spots_indices = tree.query(xy,k=4,distance_upper_bound=pinhole_max_separation_pixels)
     number_of_neighbors = np.sum( measured_spots_distances<pinhole_max_separation_pixels,axis=1)
     fiducials_candidates_indices = np.where(number_of_neighbors>=4)[0]  # including self, so at least 3 pinholes
-    log.debug("number of fiducials=",fiducials_candidates_indices.size)
+    log.debug("number of fiducials={}".format(fiducials_candidates_indices.size))
 
     # match candidates to fiducials from metrology
     log.info("first match {} fiducials candidates to metrology ({}) with iterative fit".format(fiducials_candidates_indices.size,len(metrology_fiducials_table)))
-- 
2.43.0


From cb3ade5b32803fcebfc909b549fa26f57c7c1cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 20/60] fix: triangle matching confused mirror images and could
 match an entry twice

---
 py/desimeter/match.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/match.py b/py/desimeter/match.py
index 366b159..d98966a 100644
--- a/py/desimeter/match.py
+++ b/py/desimeter/match.py
@@ -70,7 +70,7 @@ def compute_triangles_with_fixed_orientation(x,y) :
     nn=len(x)
     ntri=(nn*(nn-1)*(nn-2))//6
     tk=np.zeros((ntri,3),dtype=int) # indices
-    txyz=np.zeros((ntri,3),dtype=float) # properties of the shape and orientation of triangles
+    txyz=np.zeros((ntri,4),dtype=float) # properties of the shape and orientation of triangles
 
     # I can do this ordering once, outside of the loop on triangles, to got faster
     ordering = np.argsort(x)
@@ -93,9 +93,10 @@ def compute_triangles_with_fixed_orientation(x,y) :
                 length2=np.array([(tx[1]-tx[0])**2+(ty[1]-ty[0])**2,(tx[2]-tx[1])**2+(ty[2]-ty[1])**2,(tx[0]-tx[2])**2+(ty[0]-ty[2])**2])
                 #r=np.sqrt(np.max(length2)/np.min(length2)) # ratio of longest to shortest side
                 tk[triangle_index]=ordering[[i,j,k]]
-                txyz[triangle_index,0]=np.sqrt(np.max(length2)/np.min(length2)) # ratio of longest to shortest side
-                txyz[triangle_index,1]=((tx[1]-tx[0])*(tx[2]-tx[0])+(ty[1]-ty[0])*(ty[2]-ty[0]))/np.sqrt( ((tx[1]-tx[0])**2+(ty[1]-ty[0])**2)*((tx[2]-tx[0])**2+(ty[2]-ty[0])**2)) # cos of angle of first vertex
-                txyz[triangle_index,2]=(tx[1]-tx[0])/np.sqrt((tx[1]-tx[0])**2+(ty[1]-ty[0])**2) # cos of angle of first side
+                lmax=np.sqrt(np.max(length2)) # longest side
+                # first and last side in units of the longest one.
+                # it has to include their sign because otherwise a triangle and its mirror image are the same
+                txyz[triangle_index]=np.array([tx[1]-tx[0],ty[1]-ty[0],tx[2]-tx[0],ty[2]-ty[0]])/lmax
                 triangle_index += 1
     return tk,txyz
 
@@ -185,6 +186,12 @@ def match_arbitrary_translation_dilatation(x1,y1,x2,y2) :
         if np.any((indices_2[k1]>=0)&(indices_2[k1]!=k2)) :
             log.warning("skip {} <=> {}".format(k1,k2))
             continue
+
+        # check not already matched to another entry
+        if np.any((indices_2[k1]<0)&np.isin(k2,indices_2)) :
+            log.warning("skip {} <=> {}".format(k1,k2))
+            continue
+
         indices_2[k1]=k2
         distances[k1]=triangle_distances[p]
         all_matched = (np.sum(indices_2>=0)==x1.size)
-- 
2.43.0


From 7902bd1128a4376b72b63a0d916f07cbc8a28099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 21/60] fix: triangle matching failed for points at about the
 same x

---
 py/desimeter/match.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/desimeter/match.py b/py/desimeter/match.py
index d98966a..5b7627b 100644
--- a/py/desimeter/match.py
+++ b/py/desimeter/match.py
@@ -3,6 +3,7 @@ Utility functions to match two catalogs of 2D coordinates
 """
 
 
+from itertools import permutations
 import numpy as np
 from scipy.spatial import cKDTree as KDTree
 from desimeter.log import get_logger
@@ -164,6 +165,14 @@ def match_arbitrary_translation_dilatation(x1,y1,x2,y2) :
     tk1,txyz1 = compute_triangles_with_fixed_orientation(x1,y1)
     tk2,txyz2 = compute_triangles_with_fixed_orientation(x2,y2)
 
+    # the order along x of two vertices with about the same x can differ in the two catalogs,
+    # so compare with all possible orders of the vertices in the second one
+    zero=np.zeros((len(tk2),2))
+    vertices2=[zero,txyz2[:,0:2],txyz2[:,2:4]]
+    orders=list(permutations(range(3)))
+    tk2=np.vstack([tk2[:,o] for o in orders])
+    txyz2=np.vstack([np.hstack([vertices2[o[1]]-vertices2[o[0]],vertices2[o[2]]-vertices2[o[0]]]) for o in orders])
+
     log.debug("match triangles")
     # match with kdtree triangles with same shape and orientation
     tree2=KDTree(txyz2)
-- 
2.43.0


From 8954583e47c3f83efe13b5350b48bc73b0cb57f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 22/60] fix: spotmatch runs shared (and left) files in the
 temporary directory

---
 py/desimeter/spotmatch.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/spotmatch.py b/py/desimeter/spotmatch.py
index 2350598..a763e62 100644
--- a/py/desimeter/spotmatch.py
+++ b/py/desimeter/spotmatch.py
@@ -268,6 +268,14 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
     if shutil.which("match_positions") is None :
         raise RuntimeError("match_positions is not in PATH. You need to install spotmatch first. It's in https://desi.lbl.gov/trac/browser/code/online/FVC/spotmatch.")
 
+    # use a private directory to not mix the files of concurrent or previous runs
+    with tempfile.TemporaryDirectory(prefix="desimeter_spotmatch_") as tmp_dir :
+        return _run_spotmatch(tmp_dir,xpix,ypix,expected_x_fp,expected_y_fp,expected_location,verbose,match_radius_pixels,fvc2fp)
+
+def _run_spotmatch(tmp_dir,xpix,ypix,expected_x_fp,expected_y_fp,expected_location,verbose,match_radius_pixels,fvc2fp) :
+    """
+    Same as spotmatch, with all of the input and output files of match_positions in tmp_dir
+    """
 
     image_rows=6000
     image_cols=6000
@@ -278,8 +286,6 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
     fid_x_dir=-1
     fid_y_dir=1
 
-    tmp_dir=tempfile.gettempdir()
-
     if fvc2fp is None :
         fvc2fp = FVC2FP.read(fvc2fp_filename())
     exp_pixel_scale = _compute_pixel_scale(fvc2fp)
-- 
2.43.0


From 4b17ed0a6b6ffa218132afc564c786c59a886109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 23/60] fix: spotmatch pinholes of a fiducial without center
 were given the id of positioners

---
 py/desimeter/spotmatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/spotmatch.py b/py/desimeter/spotmatch.py
index a763e62..0013cb8 100644
--- a/py/desimeter/spotmatch.py
+++ b/py/desimeter/spotmatch.py
@@ -417,7 +417,8 @@ def _run_spotmatch(tmp_dir,xpix,ypix,expected_x_fp,expected_y_fp,expected_locati
 
     # dummy pinhole numbers. 99 for center, 10,11,12,13 for pinholes
     res["PINHOLE_ID"][fiducials] = 99
-    for loc in np.unique(res["LOCATION"][fiducials]) :
+    pinholes=(res["SPOTMATCH_DEVICE_TYPE"]=="pinhole")&(res["LOCATION"]>=0)
+    for loc in np.unique(res["LOCATION"][pinholes]) :
         ii = (res["LOCATION"]==loc)&(res["SPOTMATCH_DEVICE_TYPE"]=="pinhole")
         res["PINHOLE_ID"][ii] = 10+np.arange(np.sum(ii))
 
-- 
2.43.0


From a76da2d1d96db753613cd60b73f5a74c6dcbb1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 24/60] fix: desi_fvc_proc --make-directory did not make the
 directory of the output transform

---
 py/desimeter/processfvc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 595250b..807f48c 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -110,7 +110,7 @@ def preproc(args):
             if not os.path.exists(directory):
                 os.makedirs(directory)
         if args.output_transform is not None:
-            directory, _ = os.path.split(args.outfile)
+            directory, _ = os.path.split(args.output_transform)
             if directory != '':
                 if not os.path.exists(directory):
                     os.makedirs(directory)
-- 
2.43.0


From efd3c399b4e0bde1afc28bd55351a70a4ca6ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 25/60] fix: findfiducials raised a singular matrix error when
 there are fewer than three fiducials

---
 py/desimeter/findfiducials.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 2d7ee84..fefd209 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -85,6 +85,9 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
             maxdistance = 10 # pixel
         selection = np.where((indices_2>=0)&(distances<maxdistance))[0]
         log.info("iter #{} median_dist={} max_dist={} matches={}".format(loop,mdist,maxdistance,selection.size))
+        if selection.size < 3 :
+            log.error("only {} matched fiducials, not enough to fit a correction".format(selection.size))
+            break
         corr21 = SimpleCorr()
         corr21.fit(x2[indices_2[selection]],y2[indices_2[selection]],x1[selection],y1[selection])
         x2,y2 = corr21.apply(x2,y2)
-- 
2.43.0


From 9d43e3c906dc725cb53a0b87f8a4b0c568341123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 26/60] fix: one bad image of a sequence made desi_fvc_proc
 drop the images after it

---
 py/desimeter/processfvc.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 807f48c..f85375f 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -151,7 +151,12 @@ def get_spots_list(args, log):
                 image = fx[extname].read().astype(float)
                 if args.bias is not None :
                     image -= args.bias
-                spots_list.append( detectspots(image,min_counts_per_pixel=args.min_counts_per_pixel,min_counts_per_spot=args.min_counts,nsig=7,psf_sigma=args.fvc_psf_sigma) )
+                try :
+                    spots = detectspots(image,min_counts_per_pixel=args.min_counts_per_pixel,min_counts_per_spot=args.min_counts,nsig=7,psf_sigma=args.fvc_psf_sigma)
+                except RuntimeError :
+                    if not args.sequence : raise
+                    spots = None # do not lose the other images of the sequence
+                spots_list.append(spots)
 
     elif filename.find(".csv")>0 :
         log.info("read CSV spots table")
@@ -215,6 +220,11 @@ def fvc_proc(args, log):
 
     for seqid,spots in enumerate(spots_list) :
 
+        if spots is None :
+            log.error("no spots found in image {}".format(extnames[seqid]))
+            errcode = 13
+            continue
+
         if args.min_spots is not None :
             if len(spots) < args.min_spots :
                 log.error("not enough spots, exiting")
@@ -247,8 +257,9 @@ def fvc_proc(args, log):
             n_matched_fiducials = np.sum(spots['PINHOLE_ID'] == 4)
 
         if n_matched_fiducials < 3:
-            log.error('Fewer than three matched fiducials; exiting early.')
-            return 13
+            log.error('Fewer than three matched fiducials; no output for this image.')
+            errcode = 13
+            continue
 
         tx = FVC2FP.read_jsonfile(fvc2fp_filename())
 
@@ -387,7 +398,7 @@ def fvc_proc(args, log):
         spots.write(outfile,format="csv",overwrite=True)
         print("wrote {}".format(outfile))
 
-    return 0
+    return errcode
 
 
 def get_parser():
-- 
2.43.0


From 84f3655e80907bce839cc39dcf1f82547362bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 27/60] fix: match_positioners paired spots with positioners
 that cannot reach them

---
 py/desimeter/match_positioners.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/match_positioners.py b/py/desimeter/match_positioners.py
index ff68367..7130b09 100644
--- a/py/desimeter/match_positioners.py
+++ b/py/desimeter/match_positioners.py
@@ -199,6 +199,9 @@ def match_positioners(fvc, metr, calib, countthresh=80000,
 def solve_assignment(score_matrix):
     from scipy.optimize import linear_sum_assignment
     assignment = linear_sum_assignment(-score_matrix)
+    # the solver pairs as many as it can: leave out the pairs that are not possible
+    possible = score_matrix[assignment] > 0
+    assignment = tuple(ind[possible] for ind in assignment)
     score = np.sum([score_matrix[i, j] for (i, j) in zip(*assignment)])
     return assignment + (score,)
 
-- 
2.43.0


From 084ad07731df14e4d48ef3731b96917aec670602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 28/60] fix: match_positioners failed when no spot is in reach
 of a positioner

---
 py/desimeter/match_positioners.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py/desimeter/match_positioners.py b/py/desimeter/match_positioners.py
index 7130b09..2ac9a29 100644
--- a/py/desimeter/match_positioners.py
+++ b/py/desimeter/match_positioners.py
@@ -129,8 +129,7 @@ def match_positioners(fvc, metr, calib, countthresh=80000,
     mm, mf, dmf = match2d(metr['X_FP'].data, metr['Y_FP'].data,
                           fvc['X_FP'].data, fvc['Y_FP'].data,
                           np.max(metrarmlen)+0.1)
-    okdistance = np.array([d0 < a0
-                           for (d0, a0) in zip(dmf, metrarmlen[mm])])
+    okdistance = dmf < metrarmlen[mm]
     mm = mm[okdistance]
     mf = mf[okdistance]
     dmf = dmf[okdistance]
-- 
2.43.0


From 69f173d56b328b0326ac40dffe6626218bdae0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 29/60] fix: correct_using_stationary failed when a stationary
 fiber has no position

---
 py/desimeter/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index a1554b9..b1e3da4 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -398,14 +398,14 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             np.isfinite(data['dx']) & np.isfinite(data['dy']))
     data = data[mask]
     if clip_resid > 0:
-        tmask = mask.copy()
+        tmask = np.ones(len(data), dtype=bool)
         for c in (data['dx'], data['dy']):
             med = np.median(c)
             sd = mad_std(c)
             tmask &= (c > med - 5*sd) & (c < med + 5*sd)
         if np.any(tmask):
             data = data[tmask]
-            mask = mask & tmask
+            mask[mask] = tmask
         # here using only stationary positioners
         xturb, yturb, _ = solve_independent(
             data, nuse=500, excludeself=False,
-- 
2.43.0


From 8b9474a300c8faf65898ef7262318343008edce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 30/60] fix: correct_using_stationary ignored the value of
 clip_resid

---
 py/desimeter/turbulence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index b1e3da4..b24a28a 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -412,13 +412,13 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             method='powell', fix_covar=True,
             scale_covar=scale_covar)
         offset = np.hypot(data['dx'] - xturb, data['dy'] - yturb)
-        tmask = offset < 0.01  # 10 microns
+        tmask = offset < clip_resid
         data = data[tmask]
         mask[mask] &= tmask
         if np.sum(~mask) > 0:
             log.info('Excluding %d stationary positioners with turbulence '
-                     'corrected offsets larger than 10 microns or 4 sigma '
-                     'away from rest.' % np.sum(~mask))
+                     'corrected offsets larger than %g microns or 5 sigma '
+                     'away from rest.' % (np.sum(~mask), clip_resid*1000))
 
     xturb, yturb, _ = solve_independent(
         data, nuse=500, excludeself=False,
-- 
2.43.0


From d6dfd54107bd6df77a967380b4c9b30d21f94684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 31/60] fix: empirical_covariance returned arrays of different
 lengths for pairs beyond the last edge

---
 py/desimeter/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index b24a28a..568f3c2 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -622,7 +622,7 @@ def empirical_covariance(data, bins=10, edges=None):
     else:
         edges = np.linspace(np.min(dist), np.max(dist)+0.1, bins+1)
     ind = np.searchsorted(edges, dist, side='right')-1
-    m = ind >= 0
+    m = (ind >= 0) & (ind < bins)
     ncount = np.bincount(ind[m], minlength=bins)
     ncount = ncount + (ncount == 0)
     dx1dx2 = np.bincount(ind[m], weights=dx1dx2[m], minlength=bins)
-- 
2.43.0


From a66cd4fb6e6073b40cd3c78ca24704f21e624c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 32/60] fix: solve_gradwavefront(excludeself=True) used the
 other component of the excluded fiber

---
 py/desimeter/turbulence.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 568f3c2..030c9ab 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -599,9 +599,15 @@ def solve_gradwavefront(data, excludeself=False, predict_at=None,
             xturb, yturb = turb[:len(data)], turb[len(data):]
     else:
         # Rasmussen & Williams 5.12
+        # with the x & y of a fiber left out together
         kinv = np.linalg.inv(covar)
-        turb = dvec - kinv.dot(dvec)/np.diag(kinv)
-        xturb, yturb = turb[:len(data)], turb[len(data):]
+        n = len(data)
+        ii = np.arange(n)
+        blocks = np.array([[kinv[ii, ii], kinv[ii, n+ii]],
+                           [kinv[n+ii, ii], kinv[n+ii, n+ii]]])
+        resid = np.linalg.solve(np.moveaxis(blocks, 2, 0),
+                                kinv.dot(dvec).reshape(2, n).T[:, :, None])
+        xturb, yturb = dvec.reshape(2, n) - resid[:, :, 0].T
     return xturb, yturb, res
 
 
-- 
2.43.0


From f41e568fd387fe34a632a5f5e244be9c7c89dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 33/60] fix: fit_params changed the nominals and bounds it is
 given, so a fit depended on the fits before

---
 py/desimeter/posparams/fitter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index b1bead3..40b14b0 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -116,10 +116,9 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         covariance_dict ... dict of covariances of parameters
         rms_of_residuals   ... rms of residuals
     '''
-    if nominals is None:
-        nominals = default_values
-    if bounds is None:
-        bounds = default_bounds
+    # copies, because entries are set below
+    nominals = dict(default_values if nominals is None else nominals)
+    bounds = dict(default_bounds if bounds is None else bounds)
     if keep_fixed is None:
         keep_fixed = []
     # arg checking
-- 
2.43.0


From 97334e7fd1fe3053709885d3bffc8b328ed2e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 34/60] fix: fit_params raised KeyError when too few points are
 left after outlier rejection

---
 py/desimeter/posparams/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 40b14b0..82c959c 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -382,7 +382,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         if npts<npar :
             message="ERROR: not enough remaining points ({} points) to fit calibration ({} params)".format(npts,npar)
             print(message)
-            flags |= movemask['FIT_FAILED']
+            flags |= movemask['FAILED_FIT']
             best_params = {"FLAGS": flags}
             covariance_dict = dict()
             rms_of_residuals = 0.
-- 
2.43.0


From a64245dfa4c7559658e34e513b6f56f3deb3a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 35/60] fix: fit_params divided by the number of points before
 outlier rejection in the rms

---
 py/desimeter/posparams/fitter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 82c959c..45f3365 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -182,7 +182,6 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         yerr_ptl = np.array(ptlYerr)
 
     # pre-calculate any one-time coordinate transforms
-    n_pts = len(posintT)
     x_flat, y_flat = pos2ptl.ptl2flat(x_ptl, y_ptl)
 
     # compute numeric derivatives for error propagation
@@ -205,8 +204,6 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
                 bounds[k]=(-200.,200)
 
     if mode == 'dynamic':
-        n_pts -= 1 # since in dynamic mode we are using delta values
-
         # Note how measured_int0 depends on having been fed good "static" param
         # values. Also note extraction of only theta and phi from the tuple
         # returned by loc2int. The 2nd element is the "unreachable" boolean
@@ -309,7 +306,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         err_x = x_exp - x_flat
         err_y = y_exp - y_flat
         sumsq = np.sum(err_x**2 + err_y**2)
-        return (sumsq / n_pts)**0.5
+        return (sumsq / x_flat.size)**0.5 # outliers are not counted
 
     def compute_chi2(params):
         x_exp, y_exp = expected_xy(params)
-- 
2.43.0


From c87ed7c631ed39df39ef8de0c35e9ce2ba64ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 36/60] fix: calibration fit of a positioner failed when a
 later data window has new sequences

---
 py/desimeter/posparams/fithandler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 5cb6e72..0d4ebb3 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -403,9 +403,8 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
             if key not in fitted_keys and key.find("EPSILON")>=0 :
                 #print("warning adding key={} which was not in fitted_keys={}".format(key,fitted_keys))
                 fitted_keys.append(key)
-                if key not in output.keys() :
-                    output[key] = list()
-                    output_keys[key]=True
+                output[key] = [0.]*(len(output['FLAGS'])-1) # not in the cases before
+                output_keys[key]=True
 
         for i1,key1 in enumerate(fitted_keys):
             if key1 in params.keys() :
-- 
2.43.0


From 21cc1a98960963d0439759177057d9076fc4b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 37/60] fix: the calibration fit got stuck at the bound of
 OFFSET_T when the true value is on the other side of the circle

---
 py/desimeter/posparams/fitter.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 45f3365..fa470e5 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -343,6 +343,24 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
                                                    x0=initial_params,
                                                    bounds=bounds_vector)
 
+        # an angle offset that ran into one of its bounds may have been on its
+        # way to a value on the other side of the circle, so try from there
+        for key in params_to_fit :
+            if not key.startswith(('OFFSET_T','OFFSET_P','EPSILON')) : continue
+            idx = param_idx[key]
+            val = optimizer_result.x[idx]
+            if val == bounds[key][0] : val += 360.
+            elif val == bounds[key][1] : val -= 360.
+            else : continue
+            if val < bounds[key][0] or val > bounds[key][1] : continue
+            other_params = np.array(initial_params,dtype=float)
+            other_params[idx] = val
+            other_result = scipy.optimize.minimize(fun=compute_chi2,
+                                                   x0=other_params,
+                                                   bounds=bounds_vector)
+            if other_result.fun < optimizer_result.fun :
+                optimizer_result = other_result
+
         x_exp, y_exp = expected_xy(optimizer_result.x)
         dist = np.sqrt( (x_exp - x_flat)**2 + (y_exp - y_flat)**2 )
         meddist = np.median(dist)
-- 
2.43.0


From 8d7644c42984a2ae445f1435a128c527bf4a9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 38/60] fix: columns of EPSILON_T_10 and higher were mistaken
 for EPSILON_T_1 in the fit results

---
 py/desimeter/posparams/fithandler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 0d4ebb3..9a4e4eb 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -465,12 +465,11 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 table[ekey]=np.sqrt(table[ekey])
 
     if True :  # adding _STATIC or _DYNAMIC to the parameters and covariance
-        for key in output_keys :
-            if output_keys[key] :
-                for key2 in table.dtype.names :
-                    if key2.find(key)>=0 :
-                        key2_xxx=key2.replace(key,key + _mode_suffix(mode))
-                        table.rename_column(key2,key2_xxx)
+        # column names are KEY, ERR.KEY or COV.KEY1.KEY2; compare entire keys because
+        # some are the beginning of others, like EPSILON_T_1 and EPSILON_T_10
+        for name in table.dtype.names :
+            keys=[key + _mode_suffix(mode) if output_keys.get(key) else key for key in name.split(".")]
+            table.rename_column(name,".".join(keys))
 
     return table
 
-- 
2.43.0


From 69254a4f0d9f2dc99660b5cd76fc76673daa25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 39/60] fix: fit_params raised KeyError when one of the dynamic
 parameters is kept fixed

---
 py/desimeter/posparams/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index fa470e5..3cec407 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -283,8 +283,8 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
             t_int_expected = t_int
             p_int_expected = p_int
         else:
-            dt_int_scaled = dt_int * params[param_idx['SCALE_T']]
-            dp_int_scaled = dp_int * params[param_idx['SCALE_P']]
+            dt_int_scaled = dt_int * p0['SCALE_T']
+            dp_int_scaled = dp_int * p0['SCALE_P']
             t_int_expected = measured_t_int_0 + dt_int_scaled
             p_int_expected = measured_p_int_0 + dp_int_scaled
 
-- 
2.43.0


From 774ad7bb666843ba1faa666a5cfe871aea55d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 40/60] fix: calibration fit stopped in a local minimum with
 parameters at their bounds for some orientations of the positioner

---
 py/desimeter/posparams/fitter.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 3cec407..a251dd0 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -343,23 +343,22 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
                                                    x0=initial_params,
                                                    bounds=bounds_vector)
 
-        # an angle offset that ran into one of its bounds may have been on its
-        # way to a value on the other side of the circle, so try from there
+        # the fit of the angles may be stuck in a local minimum, usually with a parameter at
+        # one of its bounds (for instance because the best value is on the other side of the
+        # circle), so try from other angles
         for key in params_to_fit :
-            if not key.startswith(('OFFSET_T','OFFSET_P','EPSILON')) : continue
-            idx = param_idx[key]
-            val = optimizer_result.x[idx]
-            if val == bounds[key][0] : val += 360.
-            elif val == bounds[key][1] : val -= 360.
-            else : continue
-            if val < bounds[key][0] or val > bounds[key][1] : continue
-            other_params = np.array(initial_params,dtype=float)
-            other_params[idx] = val
-            other_result = scipy.optimize.minimize(fun=compute_chi2,
-                                                   x0=other_params,
-                                                   bounds=bounds_vector)
-            if other_result.fun < optimizer_result.fun :
-                optimizer_result = other_result
+            if not key.startswith(('OFFSET_T','EPSILON_T')) : continue
+            at_bound = [val in bound for val,bound in zip(optimizer_result.x,bounds_vector)]
+            if not np.any(at_bound) : break
+            for val in initial_params[param_idx[key]] + np.array([-270.,-180.,-90.,90.,180.,270.]) :
+                if val < bounds[key][0] or val > bounds[key][1] : continue
+                other_params = np.array(initial_params,dtype=float)
+                other_params[param_idx[key]] = val
+                other_result = scipy.optimize.minimize(fun=compute_chi2,
+                                                       x0=other_params,
+                                                       bounds=bounds_vector)
+                if other_result.fun < optimizer_result.fun :
+                    optimizer_result = other_result
 
         x_exp, y_exp = expected_xy(optimizer_result.x)
         dist = np.sqrt( (x_exp - x_flat)**2 + (y_exp - y_flat)**2 )
-- 
2.43.0


From d93d3f533472d44372c10bee133c725f9cc9b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 41/60] fix: detect_phi_arm failed for fibers close to the edge
 of the image

---
 py/desimeter/brightimage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/brightimage.py b/py/desimeter/brightimage.py
index 618de0c..68d402e 100644
--- a/py/desimeter/brightimage.py
+++ b/py/desimeter/brightimage.py
@@ -25,7 +25,10 @@ def detect_phi_arm(x,y,image,template,ang_step=1.,plot=False) :
 
     curx = int(np.round(x))
     cury = int(np.round(y))
-    stamp = image[cury-pad : cury+pad+1, curx-pad : curx+pad+1 ].copy()
+    # closest pixels for the part of the stamp beyond the edges of the image
+    rows = np.clip(np.arange(cury-pad, cury+pad+1), 0, image.shape[0]-1)
+    cols = np.clip(np.arange(curx-pad, curx+pad+1), 0, image.shape[1]-1)
+    stamp = image[np.ix_(rows, cols)].astype(float)
     mean_image = np.mean(stamp)
 
     stamp -= np.median(stamp)
-- 
2.43.0


From 4bd842563a4ff56c93445fe447f76b970a30c418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 42/60] fix: detect_phi_arm changed the template it is given

---
 py/desimeter/brightimage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/brightimage.py b/py/desimeter/brightimage.py
index 68d402e..dc106bb 100644
--- a/py/desimeter/brightimage.py
+++ b/py/desimeter/brightimage.py
@@ -37,7 +37,7 @@ def detect_phi_arm(x,y,image,template,ang_step=1.,plot=False) :
     xgrid, ygrid = np.mgrid[-pad:pad+1,-pad:pad+1]
     mask = ((xgrid**2 + ygrid**2) < pad**2)
 
-    template *= mask
+    template = template*mask
     template /=np.sqrt(np.sum(template**2))
 
     best_angle = []
-- 
2.43.0


From 337ccb94df03733effb492530afa2a37571b7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 43/60] fix: detectspots results depended on (and advanced) the
 global random state

---
 py/desimeter/detectspots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index 72f80ea..1db69d2 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -150,8 +150,10 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     # measure pedestal and rms
     # look the values of a random subsample of the image
     nrand=20000
-    ii0=(np.random.uniform(size=nrand)*n0).astype(int)
-    ii1=(np.random.uniform(size=nrand)*n1).astype(int)
+    # (always the same one, and without touching the global random state of the caller)
+    rng=np.random.RandomState(0)
+    ii0=(rng.uniform(size=nrand)*n0).astype(int)
+    ii1=(rng.uniform(size=nrand)*n1).astype(int)
     vals=convolved_image[ii0,ii1].ravel()
     mval=np.median(vals)
     #- normalized median absolute deviation as robust version of RMS
-- 
2.43.0


From de98dd370449d754e2578c7b9020b2b0d9709621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 44/60] fix: --extname last ignored the images after a gap in
 the sequence

---
 py/desimeter/processfvc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index f85375f..c64d85f 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -140,7 +140,7 @@ def get_spots_list(args, log):
                 tmp_extnames = [k for k in fx.hdu_map.keys() if isinstance(k, str)]
                 tmp_extnames = [e.lower() for e in tmp_extnames]
                 extname = None
-                for i in range(len(tmp_extnames)):
+                for i in range(10000): # some images of the sequence can be missing
                     extname0 = f'f{i:04d}'
                     if extname0 in tmp_extnames:
                         extname = extname0
-- 
2.43.0


From 7884b3e7a3f47e3a420b21c485015c4835ba2d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 45/60] fix: with --use-spotmatch, the expected positions were
 replaced by the positioner centers and the metrology of the fiducial centers
 was that of their last pinhole

---
 py/desimeter/processfvc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index c64d85f..9aeb774 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -300,8 +300,9 @@ def fvc_proc(args, log):
 
             spots["X_FP"],spots["Y_FP"] = tx.fvc2fp(spots["XPIX"],spots["YPIX"])
 
-            is_matched = (spots["LOCATION"]>=0)
-            loc2i = {loc:i for i,loc in enumerate(spots["LOCATION"])}
+            # positioners and centers of fiducials (the pinholes are not identified)
+            is_matched = (spots["LOCATION"]>=0)&((spots["PINHOLE_ID"]==0)|(spots["PINHOLE_ID"]==99))
+            loc2i = {spots["LOCATION"][i]:i for i in np.where(is_matched)[0]}
 
             ii=[]
             jj=[]
@@ -312,7 +313,6 @@ def fvc_proc(args, log):
             spots["X_FP_EXP"][ii]=expected_pos["X_FP"][jj]
             spots["Y_FP_EXP"][ii]=expected_pos["Y_FP"][jj]
 
-            metrology = load_metrology()
             ii=[]
             jj=[]
             for j,loc in enumerate(metrology["LOCATION"]) :
@@ -369,10 +369,10 @@ def fvc_proc(args, log):
             spots["Y_FP"][selection] = new_y
 
         if "X_FP_METRO" in spots.dtype.names :
-            # for spots with metrology X_FP_EXP=X_FP_METRO
-            selection = (spots["X_FP_METRO"]!=0)
+            # for fiducials with metrology X_FP_EXP=X_FP_METRO
+            selection = (spots["X_FP_METRO"]!=0)&(spots["PINHOLE_ID"]>0)
             spots["X_FP_EXP"][selection]=spots["X_FP_METRO"][selection]
-            selection = (spots["Y_FP_METRO"]!=0)
+            selection = (spots["Y_FP_METRO"]!=0)&(spots["PINHOLE_ID"]>0)
             spots["Y_FP_EXP"][selection]=spots["Y_FP_METRO"][selection]
 
         # write transfo
-- 
2.43.0


From 00470f21b1c296bfe5e515fe6272d0236ab4780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 46/60] fix: dynamic fit used EPSILON=0 when the best static
 fits had no data of that sequence

---
 py/desimeter/posparams/fithandler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 9a4e4eb..a1d5ba3 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -140,6 +140,14 @@ def run_best_fits(posid, path, period_days, data_window, savedir,
     quantile = np.percentile(errors, static_quantile * 100)
     selection = static_out[errors <= quantile]
     these_best = {key:np.median(selection[key + _mode_suffix('static')]) for key in best_static}
+    # EPSILONs are 0 in the cases without data from their sequence, so choose among the cases with data
+    for key in these_best :
+        if key.find("EPSILON")<0 : continue
+        with_data = static_out[static_out[key + _mode_suffix('static')]!=0]
+        if len(with_data)==0 : continue
+        errors = with_data['FIT_ERROR_STATIC']
+        quantile = np.percentile(errors, static_quantile * 100)
+        these_best[key] = np.median(with_data[key + _mode_suffix('static')][errors <= quantile])
     best_static.update(these_best)
     printf(f'{posid}: Selected best static params = {_dict_str(best_static)}')
 
-- 
2.43.0


From 282c9c1d7c4b021ace1955af51b8b41e836f4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 47/60] fix: get_posparams ended with an error code after
 writing its table

---
 bin/get_posparams | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/bin/get_posparams b/bin/get_posparams
index c2a19f9..6a5881b 100755
--- a/bin/get_posparams
+++ b/bin/get_posparams
@@ -95,6 +95,3 @@ for name in results.keys() :
     table[name]=results[name]
 table.write(args.outfile,overwrite=True)
 print("wrote",args.outfile)
-
-
-sys.exit(12)
-- 
2.43.0


From 6357ffc148cb17086a84cf8a1384547028d82a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 48/60] fix: get_posmoves_with_fvc_data --pos-ids overwrote the
 moves of a positioner with an empty table for each other petal

---
 bin/get_posmoves_with_fvc_data | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/get_posmoves_with_fvc_data b/bin/get_posmoves_with_fvc_data
index 3f086ac..438dc98 100755
--- a/bin/get_posmoves_with_fvc_data
+++ b/bin/get_posmoves_with_fvc_data
@@ -164,6 +164,10 @@ for petalid in petalids :
             cmd += " and exposure_iter in ({})".format(args.exposure_iters)
         posmoves=dbquery(comm,cmd)
 
+        if len(posmoves["pos_id"])==0 :
+            print("no moves for {} in petal {}".format(posid,petalid))
+            continue # for instance because this positioner is in another petal
+
         # add petal loc
         posmoves["PETAL_LOC"] = np.repeat(petal_loc,len(posmoves["petal_id"]))
 
-- 
2.43.0


From dcf05f21853e508da55088d88d1b3aecd13dcf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 49/60] fix: get_poscoords used for each positioner the
 calibration at the time of the last row

---
 bin/get_poscoords | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/get_poscoords b/bin/get_poscoords
index 3d2c70d..e5a8276 100755
--- a/bin/get_poscoords
+++ b/bin/get_poscoords
@@ -91,11 +91,11 @@ for petalid in petalids :
             if k not in posmoves :
                 posmoves[k]=np.zeros(npos)
 
-        for t in tstamp_posmovedb :
-            j=np.where(tstamp_calib<t)[0][-1]
-            for k in calib.keys() :
-                if k == 'time_recorded' : continue
-                posmoves[k][postableindex] = calib[k][j]
+        t = tstamp_posmovedb[postableindex]
+        j=np.where(tstamp_calib<t)[0][-1]
+        for k in calib.keys() :
+            if k == 'time_recorded' : continue
+            posmoves[k][postableindex] = calib[k][j]
 
     # by default convert keys to upper case,
     # but with special cases (of course),
-- 
2.43.0


From 52f6a7ca6ceaedc64d6e3789d278136c83f2844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 50/60] fix: merge_posparams ignored positions in disagreement
 with the metrology

---
 bin/merge_posparams | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/merge_posparams b/bin/merge_posparams
index e96a59d..a458fe8 100755
--- a/bin/merge_posparams
+++ b/bin/merge_posparams
@@ -110,7 +110,7 @@ if not args.no_check and not args.no_metrology :
         for k in ["DEVICE_LOC","LOCATION","PETAL_LOC","PETAL_ID"] :
             if posparams[k][j] != metrology[k][i] :
                 log.error("for {}={} {}={} != {} from metrology".format(device_id_key,pid,k,posparams[k][j],metrology[k][i]))
-                has_errors = True
+                has_error = True
     if has_error :
         sys.exit(12)
 
-- 
2.43.0


From bf51844b732c1893da29cc08970ca71b52d77261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 51/60] fix: get_posmoves_with_fvc_data_using_dates matched the
 petals after the first one to scrambled image dates

---
 bin/get_posmoves_with_fvc_data_using_dates | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/get_posmoves_with_fvc_data_using_dates b/bin/get_posmoves_with_fvc_data_using_dates
index 45164da..fa6e734 100755
--- a/bin/get_posmoves_with_fvc_data_using_dates
+++ b/bin/get_posmoves_with_fvc_data_using_dates
@@ -111,8 +111,8 @@ for petalid in petalids :
             #dmt_deltat[i]=tstamp_fvc[j[0]]-tstamp[i]
         else :
             dmt_index[i]=len(dmt)-1
-    tstamp_fvc=tstamp_fvc[dmt_index]
-    dmt_deltat=tstamp_fvc+args.clock_offset-tstamp_posmovedb
+    tstamp_dmt=tstamp_fvc[dmt_index]
+    dmt_deltat=tstamp_dmt+args.clock_offset-tstamp_posmovedb
     selection = np.where((dmt_deltat>=0)&(dmt_deltat<=args.deltat_max))[0] # FVC image less than n seconds after move
     print("number of matched FVC images= {}".format(len(selection)))
     #selected_date=date[selection]
@@ -144,7 +144,7 @@ for petalid in petalids :
                 kk=np.where(dmt_xytable["LOCATION"]==loc)[0]
                 if kk.size>0 :
                     posid_tstamp_posmovedb[posid].append(tstamp_posmovedb[i])
-                    posid_tstamp_fvc[posid].append(tstamp_fvc[i])
+                    posid_tstamp_fvc[posid].append(tstamp_dmt[i])
                     posid_deltat[posid].append(dmt_deltat[i])
                     posid_x_dmt[posid].append(dmt_xytable["X_FP"][kk[0]])
                     posid_y_dmt[posid].append(dmt_xytable["Y_FP"][kk[0]])
@@ -197,7 +197,7 @@ for petalid in petalids :
         x_dmt = posid_x_dmt[posid][jj]
         y_dmt = posid_y_dmt[posid][jj]
         deltat = posid_deltat[posid][jj]
-        tstamp_fvc = posid_tstamp_fvc[posid][jj]
+        tstamp_dmt = posid_tstamp_fvc[posid][jj]
 
         if not args.nocalib :
 
@@ -243,7 +243,7 @@ for petalid in petalids :
         ot["Y_FP"]  = y_dmt[jj]
         ot["DELTAT"]  = deltat[jj]
         ot["TSTAMP_POSMOVE"]  = tstamp_posmovedb[jj]
-        ot["TSTAMP_FVC"]  = tstamp_fvc[jj]
+        ot["TSTAMP_FVC"]  = tstamp_dmt[jj]
 
         if not os.path.isdir(args.outdir) :
             os.makedirs(args.outdir)
-- 
2.43.0


From 802220b5afedeb3057d6c0d75d71cfc2113fdc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 52/60] fix: get_posmoves --pos-ids movers selected no
 positioner

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index f9c8036..d6b4776 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -75,7 +75,7 @@ if args.enabled_history:
 else:
     desired_fields = {'moves': '*', 'calib': '*'}
 
-if args.pos_ids is not None :
+if args.pos_ids is not None and args.pos_ids != 'movers' :
     only_posids = args.pos_ids.split(",")
 else :
     only_posids = None
-- 
2.43.0


From d52dd82465472616732f5b49fd2454525acbd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 53/60] fix: get_posmoves --enabled-history failed because the
 positions are not in the table

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index d6b4776..5448622 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -212,7 +212,7 @@ for petalid in petalids :
             otable = otable[selection]
 
         # remove non measured entries
-        if not args.tp_updates:
+        if not args.tp_updates and not args.enabled_history:
             ok=(otable["X_FP"] != None)
             otable=otable[ok]
 
-- 
2.43.0


From d1f38a63f40137c6cee03291da457e05a70aee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 54/60] fix: prepare_posparams_for_instr failed on tables
 without missing values

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index b7d78e2..ab6eb23 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -247,7 +247,7 @@ required_keys = {'POS_ID', 'FLAGS', 'DEVICE_LOC', 'NUM_POINTS', 'DATA_END_DATE',
 required_keys |= set(fitter.static_keys)
 if uargs.allow_scale:
     required_keys |= {'FIT_ERROR_DYNAMIC', 'NUM_POINTS_IN_FIT_DYNAMIC'}
-mask_table = new_table.mask
+mask_table = Table(new_table, masked=True).mask  # new_table.mask is None if no value is missing
 masked_list = mask_table['POS_ID']
 for key in required_keys:
     masked_list |= mask_table[key]
-- 
2.43.0


From e60c739a8ceb09f42eb9fcdc28e4f28af57197d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 55/60] fix: prepare_posparams_for_instr kept the wrong row, or
 failed, when choosing among several rows of a positioner

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index ab6eb23..a4f9542 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -415,7 +415,7 @@ def check_uniqueness(table):
                 logger.info(f'All {len(row_idxs)} rows for {posid} skipped (removed from table)')
                 retry = False
             elif user_input in {str(i) for i in options.keys()}:
-                delete_idxs = row_idxs[row_idxs != int(user_input)]
+                delete_idxs = np.delete(row_idxs, int(user_input))
                 new.remove_rows(delete_idxs)
                 logger.info(f'{len(delete_idxs)} rows for {posid} removed')
                 n_remaining = len(get_row_idxs(new, posid))
-- 
2.43.0


From 895defa0e207b753b2beff4ca2ee4e8fd65fca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 56/60] fix: desi_fit_fvc2fp_using_theta_centers fitted centers
 missing from the other metrology to the origin

---
 bin/desi_fit_fvc2fp_using_theta_centers | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/desi_fit_fvc2fp_using_theta_centers b/bin/desi_fit_fvc2fp_using_theta_centers
index 7e8c757..0f669b4 100755
--- a/bin/desi_fit_fvc2fp_using_theta_centers
+++ b/bin/desi_fit_fvc2fp_using_theta_centers
@@ -44,8 +44,6 @@ for filename in args.infile :
     print(filename)
     if not os.path.isfile(filename) : continue
     t=Table.read(filename)
-    x1.append(t["X_FP"])
-    y1.append(t["Y_FP"])
 
     if other_metrology is not None :
         print("matching to other metrology...")
@@ -55,16 +53,18 @@ for filename in args.infile :
         eloc=(np.array(t["LOCATION"])*10+np.array(t["PINHOLE_ID"])).astype(int)
         meloc=(np.array(other_metrology["LOCATION"])*10+np.array(other_metrology["PINHOLE_ID"])).astype(int)
         l2i={l:i for i,l in enumerate(meloc)}
+        matched=np.zeros(len(t),dtype=bool)
         for j in range(t["X_FP"].size):
             if eloc[j] in l2i :
                 i=l2i[eloc[j]]
                 t["X_FP_METRO"][j]=other_metrology["X_FP"][i]
                 t["Y_FP_METRO"][j]=other_metrology["Y_FP"][i]
-            else :
-                t["X_FP_METRO"][j]=0.
-                t["Y_FP_METRO"][j]=0.
+                matched[j]=True
+        t=t[matched] # ignore the spots that are not in the other metrology
         print("match to other metrology is done")
 
+    x1.append(t["X_FP"])
+    y1.append(t["Y_FP"])
     x2.append(t["X_FP_METRO"])
     y2.append(t["Y_FP_METRO"])
 
-- 
2.43.0


From 2549ce12a63f2d757ca27a1014afca14ecc9738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 57/60] fix: desi_predict_fieldrot ignored the hexapod rotation
 of headers with FOCUS and without HEXPOS

---
 bin/desi_predict_fieldrot | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/desi_predict_fieldrot b/bin/desi_predict_fieldrot
index 195d195..27b7be2 100755
--- a/bin/desi_predict_fieldrot
+++ b/bin/desi_predict_fieldrot
@@ -59,7 +59,7 @@ if args.fits_header is not None :
     else :
         lst = mjd2lst(mjd)
 
-    if "HEXPOS" in header :
+    if "FOCUS" in header : # keyword used in read_hexrot_deg
          hexrot_deg = read_hexrot_deg(header)
 
 else :
-- 
2.43.0


From 89344b8646c51926fb693b6ae0a825ed2ef1eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 58/60] fix: the default ray tracing table of
 fit_raytrace_tan2fp does not exist

---
 bin/fit_raytrace_tan2fp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/fit_raytrace_tan2fp b/bin/fit_raytrace_tan2fp
index 52dc89d..4cf2b42 100755
--- a/bin/fit_raytrace_tan2fp
+++ b/bin/fit_raytrace_tan2fp
@@ -20,7 +20,7 @@ from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
 parser = argparse.ArgumentParser(formatter_class=argparse.ArgumentDefaultsHelpFormatter,
                                      description="""Fit ray tracing data to model the tan2fp transform with corrector distortions.""")
 
-parser.add_argument('-i','--infile', type = str, default = None, required = False, help = 'trace tracing data, default is data/raytrace-tan2fp-4957-v17.csv')
+parser.add_argument('-i','--infile', type = str, default = None, required = False, help = 'trace tracing data, default is data/raytrace-tan2fp-4957-v18.csv')
 parser.add_argument('-o','--outfile', type = str, default = None, required = True, help = 'output json file with fitted transfo.')
 parser.add_argument('--plot',action="store_true",help="test and plot the transfo results.")
 parser.add_argument('--test',action="store_true",help="test (but dont plot).")
@@ -30,7 +30,7 @@ args = parser.parse_args()
 if args.infile :
     ifilename = args.infile
 else :
-    ifilename = resource_filename("desimeter","data/raytrace-tan2fp-4957-v17.csv")
+    ifilename = resource_filename("desimeter","data/raytrace-tan2fp-4957-v18.csv")
 
 print("reading {}".format(ifilename))
 table = Table.read(ifilename,format="csv")		
-- 
2.43.0


From 023a1292cf8b1de46ff3828498cd950909954c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 59/60] fix: write_fvc_image_processing_scripts made an input
 image executable instead of the job script

---
 bin/write_fvc_image_processing_scripts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/write_fvc_image_processing_scripts b/bin/write_fvc_image_processing_scripts
index ddaf38f..199dca8 100755
--- a/bin/write_fvc_image_processing_scripts
+++ b/bin/write_fvc_image_processing_scripts
@@ -50,7 +50,7 @@ for line in ifile.readlines() :
     #print(filename)
     if count >= args.ntasks_per_job :
         jobfile.close()
-        subprocess.call(['chmod', '+x', filename])
+        subprocess.call(['chmod', '+x', jobfilename])
         print("wrote",jobfilename)
         jobid += 1
         jobfilename=os.path.join(args.jobdir,"job-%03d.sh"%jobid)
@@ -118,7 +118,7 @@ for line in ifile.readlines() :
     #if count>20 : break
 
 jobfile.close()
-subprocess.call(['chmod', '+x', filename])
+subprocess.call(['chmod', '+x', jobfilename])
 print("wrote",jobfilename)
 
 t=Table()
-- 
2.43.0


From b43ca4a7f8df1e6fa6e8849706b4562424ceeb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 60/60] fix: write_fvc_image_processing_scripts failed when the
 table of files existed

---
 bin/write_fvc_image_processing_scripts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/write_fvc_image_processing_scripts b/bin/write_fvc_image_processing_scripts
index 199dca8..51d01b5 100755
--- a/bin/write_fvc_image_processing_scripts
+++ b/bin/write_fvc_image_processing_scripts
@@ -125,5 +125,5 @@ t=Table()
 t["DATE"]=dates
 t["FILE"]=filenames
 ofilename=os.path.join(args.outdir,"fvc-desimeter-and-dates.csv")
-t.write(ofilename,format="csv")
+t.write(ofilename,format="csv",overwrite=True)
 print("wrote",ofilename)
-- 
2.43.0

