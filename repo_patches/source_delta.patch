From 68ce6d88b83788f713d4d02abda891fc992c2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 001/257] fix: flip the mask together with the values when
 importing descending axes

---
 IMTreatment/core/scalarfield.py | 2 ++
 IMTreatment/core/vectorfield.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 541c3f5..e81a011 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -503,9 +503,11 @@ class ScalarField(fld.Field):
         if axe_x[0] > axe_x[-1]:
             axe_x = axe_x[::-1]
             values = values[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             values = values[:, ::-1]
+            mask = mask[:, ::-1]
         # storing datas
         self.axe_x = axe_x
         self.axe_y = axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f567e4e..78f86f2 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -557,10 +557,12 @@ class VectorField(field.Field):
             axe_x = axe_x[::-1]
             comp_x = comp_x[::-1]
             comp_y = comp_y[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             comp_x = comp_x[:, ::-1]
             comp_y = comp_y[:, ::-1]
+            mask = mask[:, ::-1]
         # Store data
         self.axe_x = axe_x
         self.axe_y = axe_y
-- 
2.43.0


From 305c0216dc0cac505e77806082499773cdd9487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:56 +0000
Subject: [PATCH 002/257] fix: keep the mask of masked arrays when importing a
 field

---
 IMTreatment/core/scalarfield.py | 4 ++++
 IMTreatment/core/vectorfield.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e81a011..060b2f0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -456,6 +456,7 @@ class ScalarField(fld.Field):
         self._values_dtype = dtype
         axe_x = np.array(axe_x, dtype=float)
         axe_y = np.array(axe_y, dtype=float)
+        values_mask = np.ma.getmaskarray(values)
         values = np.array(values, dtype=self._values_dtype)
         if mask is None:
             mask = np.zeros(values.shape, dtype=bool)
@@ -465,6 +466,9 @@ class ScalarField(fld.Field):
             mask = nmask
         else:
             mask = np.array(mask, dtype=bool)
+        # Keep the mask of masked arrays
+        if np.any(values_mask):
+            mask = np.logical_or(mask, values_mask)
         # Be sure nan values are masked
         if not dontchecknans:
             if np.isnan(np.sum(values)):
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 78f86f2..7c63000 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -514,10 +514,14 @@ class VectorField(field.Field):
         # Use numpy arrays
         axe_x = np.array(axe_x, dtype=float)
         axe_y = np.array(axe_y, dtype=float)
+        comps_mask = np.logical_or(np.ma.getmaskarray(comp_x),
+                                   np.ma.getmaskarray(comp_y))
         comp_x = np.array(comp_x, dtype=dtype)
         comp_y = np.array(comp_y, dtype=dtype)
         if mask is not None and not isinstance(mask, bool):
             mask = np.array(mask, dtype=bool)
+        # Keep the mask of masked arrays
+        mask = np.logical_or(mask, comps_mask)
         # Be sure nan values are masked
         mask = np.logical_or(mask, np.isnan(comp_x))
         mask = np.logical_or(mask, np.isnan(comp_y))
-- 
2.43.0


From 1741f0eac9be3c25a7974bcffe743b1f95290ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 003/257] fix: keep a pure unit when multiplying a ScalarField
 by a quantity

---
 IMTreatment/core/scalarfield.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 060b2f0..7c871b0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -250,8 +250,9 @@ class ScalarField(fld.Field):
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
-            tmpsf.values *= obj.asNumber()
-            tmpsf.unit_values *= obj/obj.asNumber()
+            unit_values = tmpsf.unit_values*obj
+            tmpsf.values *= unit_values.asNumber()
+            tmpsf.unit_values = unit_values/unit_values.asNumber()
             tmpsf.mask = self.mask
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
-- 
2.43.0


From 052a0102f7fdeb8bf94b671fc3884e6c6a49e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 004/257] fix: dividing an array by a ScalarField masks the
 zeros of the field and inverts its unit

---
 IMTreatment/core/scalarfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 7c871b0..a51bbf3 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -219,10 +219,11 @@ class ScalarField(fld.Field):
             if not obj.shape == self.shape:
                 raise ValueError()
             tmpsf = self.copy()
-            mask = np.logical_or(self.mask, obj == 0)
+            mask = np.logical_or(self.mask, self.values == 0)
             not_mask = np.logical_not(mask)
             tmpsf.values[not_mask] = obj[not_mask] / tmpsf.values[not_mask]
             tmpsf.mask = mask
+            tmpsf.unit_values = 1/tmpsf.unit_values
             return tmpsf
         elif isinstance(obj, ScalarField):
             if np.any(self.axe_x != obj.axe_x)\
-- 
2.43.0


From 84ce0c8402005868322b9b044634b20dfc1920af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 005/257] fix: reject adding a quantity of another dimension to
 a VectorField

---
 IMTreatment/core/vectorfield.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 7c63000..8488e23 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -139,6 +139,11 @@ class VectorField(field.Field):
                 raise ValueError()
         elif isinstance(other, unum.Unum):
             tmpvf = self.copy()
+            try:
+                self.unit_values + other
+            except:
+                raise ValueError("Given number have to be consistent with"
+                                 "the vector field (same units)")
             fact = (other / self.unit_values).asNumber()
             tmpvf.comp_x = self.comp_x + fact
             tmpvf.comp_y = self.comp_y + fact
-- 
2.43.0


From a8c84798f3c2f751e45cd4ef8431348578c4789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 006/257] fix: account for the unit of the ScalarField
 multiplying a VectorField

---
 IMTreatment/core/vectorfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 8488e23..e2fecd8 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -236,8 +236,11 @@ class VectorField(field.Field):
             if other.shape != self.shape:
                 raise ValueError()
             tmpvf = self.copy()
-            tmpvf.comp_x *= other.values
-            tmpvf.comp_y *= other.values
+            new_unit = self.unit_values*other.unit_values
+            scale = new_unit.asNumber()
+            tmpvf.unit_values = new_unit/scale
+            tmpvf.comp_x *= other.values*scale
+            tmpvf.comp_y *= other.values*scale
             tmpvf.mask = np.logical_or(other.mask, self.mask)
             return tmpvf
         else:
-- 
2.43.0


From 6631b42819a5d3c80ebea3130eed7529b5e6c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 007/257] fix: keep the points at coordinate zero when adding
 vector fields on partially shared axes

---
 IMTreatment/core/vectorfield.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index e2fecd8..6072383 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -76,16 +76,16 @@ class VectorField(field.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <
+                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_x])
-                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <
+                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_y])
-                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <
+                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_x])
-                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <
+                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_y])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
-- 
2.43.0


From cb081af284d7ae3729a01c9899999a5acd3cf2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 008/257] fix: accept units whose coefficient is one up to
 rounding on vector fields

---
 IMTreatment/core/vectorfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 6072383..0697c5e 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -402,7 +402,7 @@ class VectorField(field.Field):
     @unit_values.setter
     def unit_values(self, new_unit_values):
         if isinstance(new_unit_values, unum.Unum):
-            if new_unit_values.asNumber() == 1:
+            if np.isclose(new_unit_values.asNumber(), 1):
                 self.__unit_values = new_unit_values
             else:
                 raise ValueError()
-- 
2.43.0


From 27c25d6ae7b803abce14be014f6cc36437bedf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 009/257] fix: refuse a values unit with a coefficient smaller
 than one

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index a51bbf3..1e99dc9 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -392,7 +392,7 @@ class ScalarField(fld.Field):
     @unit_values.setter
     def unit_values(self, new_unit_values):
         if isinstance(new_unit_values, unum.Unum):
-            if (new_unit_values.asNumber() - 1.) < 1e-10:
+            if abs(new_unit_values.asNumber() - 1.) < 1e-10:
                 self.__unit_values = new_unit_values
             else:
                 raise ValueError()
-- 
2.43.0


From 379d5fc8bc5924d06d828401fb446819ae7da78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 010/257] fix: reverse the mask too when scaling a VectorField
 by a negative factor

---
 IMTreatment/core/vectorfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 0697c5e..b4a9145 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -741,6 +741,10 @@ class VectorField(field.Field):
             tmp_f.comp_y *= fact
         else:
             raise TypeError()
+        if revx:
+            tmp_f.__mask = tmp_f.__mask[::-1, :]
+        if revy:
+            tmp_f.__mask = tmp_f.__mask[:, ::-1]
         if revx and revy:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[::-1, ::-1]
-- 
2.43.0


From f0f5bc6e890ea5e144c5485afe7af28034110b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 011/257] fix: a cropped copy of a field does not share its
 data with the field

---
 IMTreatment/core/field.py       | 4 ++--
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 2e7c8d7..e616fe1 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -568,8 +568,8 @@ class Field(object):
                 return indmin_x, indmax_x, indmin_y, indmax_y
         else:
             cropfield = self.copy()
-            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1]
-            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1]
+            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1].copy()
+            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1].copy()
             if full_output:
                 return indmin_x, indmax_x, indmin_y, indmax_y, cropfield
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 1e99dc9..1168856 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1420,9 +1420,9 @@ class ScalarField(fld.Field):
                 fld.Field.crop(self, intervx=intervx, intervy=intervy,
                                full_output=True, ind=ind, inplace=False)
             cropfield.__values = self.values[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def extend(self, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0, value=None,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index b4a9145..b7fcb0f 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1015,11 +1015,11 @@ class VectorField(field.Field):
                 field.Field.crop(self, intervx=intervx, intervy=intervy,
                                  full_output=True, ind=ind)
             cropfield.__comp_x = self.comp_x[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__comp_y = self.comp_y[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def crop_masked_border(self, hard=False, inplace=False):
-- 
2.43.0


From 78b86734c5aef22ac090dabd26c8e82f35de9bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 012/257] fix: the values and the mask given to a ScalarField
 are copied

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 1168856..8aff82c 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -330,7 +330,7 @@ class ScalarField(fld.Field):
     def values(self, new_values):
         if not isinstance(new_values, ARRAYTYPES):
             raise TypeError()
-        new_values = np.asarray(new_values)
+        new_values = np.array(new_values)
         if self.shape == new_values.shape:
             # adapting mask to 'nan' values
             self.__mask = np.isnan(new_values)
@@ -357,7 +357,7 @@ class ScalarField(fld.Field):
             new_mask = np.empty(self.shape, dtype=bool)
             new_mask.fill(fill_value)
         elif isinstance(new_mask, ARRAYTYPES):
-            new_mask = np.asarray(new_mask, dtype=bool)
+            new_mask = np.array(new_mask, dtype=bool)
         else:
             raise TypeError("'mask' should be an array or a boolean,"
                             " not a {}".format(type(new_mask)))
-- 
2.43.0


From 0d640aa257052ff25bb81d9f0592bf80051c9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 013/257] fix: refuse a cropping window holding no point of the
 field

---
 IMTreatment/core/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index e616fe1..c25046f 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -558,6 +558,9 @@ class Field(object):
                 indmax_y = len(axe_y) - 1
             else:
                 indmax_y = self.get_indice_on_axe(2, intervy[1])[0]
+        # checking that something is left
+        if indmin_x > indmax_x or indmin_y > indmax_y:
+            raise ValueError("Invalid cropping window")
         # cropping the field
         if inplace:
             axe_x = self.axe_x[indmin_x:indmax_x + 1]
-- 
2.43.0


From 99df4a8605f48928ed6dd891629f174b0b5afd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 014/257] fix: ScalarField.extend returns the extended field
 when not inplace

---
 IMTreatment/core/scalarfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 8aff82c..099cfb4 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1498,9 +1498,9 @@ class ScalarField(fld.Field):
                                     unit_y=tmpsf.unit_y,
                                     unit_values=tmpsf.unit_values)
         else:
-            new_field.values = new_values
-            new_field.mask = new_mask
-            return new_field
+            tmpsf.values = new_values
+            tmpsf.mask = new_mask
+            return tmpsf
 
     def mirroring(self, direction, position, inds_to_mirror='all',
                   mir_coef=1, interp=None, value=0, inplace=False):
-- 
2.43.0


From edb8491c6f685e73e8cbce2780e3f10d2f4fd204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 015/257] fix: extending a field adds the asked number of
 points whatever the rounding

---
 IMTreatment/core/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index c25046f..b22f581 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -600,22 +600,22 @@ class Field(object):
         if nmb_left != 0:
             dx = self.axe_x[1] - self.axe_x[0]
             x0 = self.axe_x[0]
-            new_xs = np.arange(x0-dx*nmb_left, x0, dx)
+            new_xs = x0 - dx*np.arange(nmb_left, 0, -1)
             new_axe_x = np.concatenate((new_xs, new_axe_x))
         if nmb_right != 0:
             dx = self.axe_x[-1] - self.axe_x[-2]
             x0 = self.axe_x[-1]
-            new_xs = np.arange(x0 + dx, x0+dx*(nmb_right + 1), dx)
+            new_xs = x0 + dx*np.arange(1, nmb_right + 1)
             new_axe_x = np.concatenate((new_axe_x, new_xs))
         if nmb_down != 0:
             dy = self.axe_y[1] - self.axe_y[0]
             y0 = self.axe_y[0]
-            new_ys = np.arange(y0-dy*nmb_down, y0, dy)
+            new_ys = y0 - dy*np.arange(nmb_down, 0, -1)
             new_axe_y = np.concatenate((new_ys, new_axe_y))
         if nmb_up != 0:
             dy = self.axe_y[-1] - self.axe_y[-2]
             y0 = self.axe_y[-1]
-            new_ys = np.arange(y0 + dy, y0+dy*(nmb_up + 1), dy)
+            new_ys = y0 + dy*np.arange(1, nmb_up + 1)
             new_axe_y = np.concatenate((new_axe_y, new_ys))
         if inplace:
             self.__axe_x = new_axe_x
-- 
2.43.0


From 2820772a1d2557055dbf50dc9387379a7cac8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 016/257] fix: crop_masked_border returns the field when there
 is nothing to crop

---
 IMTreatment/core/scalarfield.py | 2 +-
 IMTreatment/core/vectorfield.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 099cfb4..dbb91d1 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1749,7 +1749,7 @@ class ScalarField(fld.Field):
         # checking masked values presence
         mask = tmp_vf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_vf
         # hard cropping
         if hard:
             # remove trivial borders
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index b7fcb0f..cae3b16 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1039,7 +1039,7 @@ class VectorField(field.Field):
         # checking masked values presence
         mask = tmp_sf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_sf
         # hard cropping
         if hard:
             # remove trivial borders
-- 
2.43.0


From da313879f1848671ab5d9c34fe273a3163d5c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 017/257] fix: rotating a field with a single row or column
 turns its coordinate

---
 IMTreatment/core/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index b22f581..afe9602 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -416,9 +416,9 @@ class Field(object):
         else:
             raise Exception()
         # correction non-crescent axis
-        if tmp_field.axe_x[-1] < tmp_field.axe_x[0]:
+        if angle in [90, 180]:
             tmp_field.__axe_x = -tmp_field.axe_x
-        if tmp_field.axe_y[-1] < tmp_field.axe_y[0]:
+        if angle in [180, 270]:
             tmp_field.__axe_y = -tmp_field.axe_y
         # returning
         if not inplace:
-- 
2.43.0


From 56a307b71aeaaa6efc6e399c58a67dfab7fb68fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:43 +0000
Subject: [PATCH 018/257] fix: the time unit of temporal sets can be set with a
 string

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bdaf115..431392d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -265,7 +265,7 @@ class TemporalFields(flds.Fields, fld.Field):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a495f81..125cbb5 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -107,7 +107,7 @@ class TemporalPoints(object):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
-- 
2.43.0


From d6b3a5ab9b89c1227e6f152567b32b0a1e8be32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:43 +0000
Subject: [PATCH 019/257] fix: convert the time of a field added with another
 time unit the right way

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 431392d..94d93d6 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1134,7 +1134,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         flds.Fields.add_field(self, field, copy=copy)
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 125cbb5..a324a24 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -218,7 +218,7 @@ class TemporalPoints(object):
         # if not
         else:
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         self.point_sets.append(pt)
-- 
2.43.0


From bf2ca94e4b7c4028cdb37504950c90ab2174fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:43 +0000
Subject: [PATCH 020/257] fix: refuse fields with other axes in a temporal set
 whatever the axis that differs

---
 IMTreatment/core/temporalfields.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 94d93d6..96e6be7 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -92,8 +92,8 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.all(self.axe_x == other.axe_x) and
+                    np.all(self.axe_y == other.axe_y)):
                 raise Exception()
             if not np.all(self.times == other.times):
                 raise Exception()
@@ -116,8 +116,8 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.all(self.axe_x == other.axe_x) and
+                    np.all(self.axe_y == other.axe_y)):
                 raise Exception()
             if not np.all(self.times == other.times):
                 raise Exception()
@@ -126,8 +126,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 vfs.add_field(self.fields[i]/other.fields[i])
             return vfs
         elif isinstance(other, self.fields[0].__class__):
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.all(self.axe_x == other.axe_x) and
+                    np.all(self.axe_y == other.axe_y)):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
@@ -1130,7 +1130,7 @@ class TemporalFields(flds.Fields, fld.Field):
             # checking axis
             axe_x, axe_y = self.axe_x, self.axe_y
             vaxe_x, vaxe_y = field.axe_x, field.axe_y
-            if not np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y):
+            if not (np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y)):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-- 
2.43.0


From 6b0332046bf79b5819ea2d55bc30321b96a86de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 021/257] fix: removing several fields at once removes the
 asked ones

---
 IMTreatment/core/fields.py         | 3 +--
 IMTreatment/core/temporalfields.py | 3 +--
 IMTreatment/core/temporalpoints.py | 6 +++---
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index e8dc468..a7cdcb9 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -148,8 +148,7 @@ class Fields(object):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.fields = np.delete(self.fields, nmb)
+        self.fields = np.delete(self.fields, fieldnumbers)
 
     def set_origin(self, x=None, y=None):
         """
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 96e6be7..3ab0312 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1152,8 +1152,7 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.__times = np.delete(self.times, nmb)
+        self.__times = np.delete(self.times, fieldnumbers)
         flds.Fields.remove_field(self, fieldnumbers)
 
     def reduce_spatial_resolution(self, fact, inplace=False, verbose=False):
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a324a24..6576638 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -236,9 +236,9 @@ class TemporalPoints(object):
         """
         if isinstance(indice, INTEGERTYPES):
             indice = [indice]
-        for i in indice:
-            self.__times = np.delete(self.times, i)
-            self.point_sets = np.delete(self.point_sets, i)
+        self.__times = np.delete(self.times, indice)
+        inds = np.delete(np.arange(len(self.point_sets)), indice)
+        self.point_sets = [self.point_sets[i] for i in inds]
 
     def crop(self, intervx=None, intervy=None, intervv=None, intervt=None,
              full_output=False, ind=False, inplace=False):
-- 
2.43.0


From 1236656e54b655026c6ef4041db113f0d7835428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 022/257] fix: keep the times in the arithmetic of temporal
 fields

---
 IMTreatment/core/temporalfields.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 3ab0312..ea182e3 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -99,12 +99,14 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]*other.fields[i])
+                vfs.add_field(self.fields[i]*other.fields[i],
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field*other)
+            for i, field in enumerate(self.fields):
+                final_vfs.add_field(field*other, time=self.times[i],
+                                    unit_times=self.unit_times)
             return final_vfs
         else:
             raise TypeError("You can only multiply a temporal velocity field "
@@ -123,7 +125,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other.fields[i])
+                vfs.add_field(self.fields[i]/other.fields[i],
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, self.fields[0].__class__):
             if not (np.all(self.axe_x == other.axe_x) and
@@ -131,7 +134,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other)
+                vfs.add_field(self.fields[i]/other,
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
@@ -149,8 +153,9 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("You only can use a number for the power "
                             "on a Vectorfield")
         final_vfs = self.__class__()
-        for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+        for i, field in enumerate(self.fields):
+            final_vfs.add_field(field**number, time=self.times[i],
+                                unit_times=self.unit_times)
         return final_vfs
 
     def __iter__(self):
-- 
2.43.0


From 89ceea84634cb9bd5b0d62f8b285671a0a67eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 023/257] fix: dividing temporal fields by a number divides the
 fields

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index ea182e3..fadf774 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -140,7 +140,7 @@ class TemporalFields(flds.Fields, fld.Field):
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
             for i, field in enumerate(self.fields):
-                final_vfs.add_field(other, time=self.times[i],
+                final_vfs.add_field(field/other, time=self.times[i],
                                     unit_times=self.unit_times)
             return final_vfs
         else:
-- 
2.43.0


From 502a4b8cfce8e31ce19190b70b1b6a4fbaab7847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 024/257] fix: concatenating temporal fields keeps the times of
 both

---
 IMTreatment/core/temporalfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index fadf774..5268fae 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -68,7 +68,8 @@ class TemporalFields(flds.Fields, fld.Field):
                     tmp_tf.fields[i] += other.fields[i]
             else:
                 for i in np.arange(len(other.fields)):
-                    tmp_tf.add_field(other.fields[i])
+                    tmp_tf.add_field(other.fields[i], time=other.times[i],
+                                     unit_times=other.unit_times)
             return tmp_tf
         else:
             tmp_TF = self.copy()
-- 
2.43.0


From d84f2e169041c6ca44bb04f01761867a097b4f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 025/257] fix: the times of temporal sets are stored as an
 array of their own

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5268fae..1a594d3 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -249,7 +249,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.fields)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 6576638..873456d 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -82,7 +82,7 @@ class TemporalPoints(object):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.point_sets)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
-- 
2.43.0


From d29d829557b994379c99e59c450ed1a675f63670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 026/257] fix: scaling temporal fields by a negative factor
 reverses the fields too

---
 IMTreatment/core/temporalfields.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 1a594d3..be59036 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1013,10 +1013,10 @@ class TemporalFields(flds.Fields, fld.Field):
         for field in self.fields:
             if not hasattr(field, "xy_scale"):
                 field.xy_scale = self.xy_scale
+        flds.Fields.scale(tmp_f, scalex=scalex, scaley=scaley,
+                          scalev=scalev, inplace=True)
         fld.Field.scale(tmp_f, scalex=scalex, scaley=scaley,
                         inplace=True)
-        # scale the values
-        flds.Fields.scale(tmp_f, scalev=scalev, inplace=True)
         # scale the time
         if scalet is None:
             pass
@@ -1030,6 +1030,7 @@ class TemporalFields(flds.Fields, fld.Field):
             tmp_f.times *= fact
         else:
             raise TypeError()
+        tmp_f.__sort_field_by_time()
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From 3f10008de03eabfb6edda90c3220d2da651184b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:36 +0000
Subject: [PATCH 027/257] fix: accept time units whose coefficient is one up to
 rounding

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index be59036..0929bf3 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -266,7 +266,7 @@ class TemporalFields(flds.Fields, fld.Field):
     @unit_times.setter
     def unit_times(self, new_unit_times):
         if isinstance(new_unit_times, unum.Unum):
-            if new_unit_times.asNumber() == 1:
+            if np.isclose(new_unit_times.asNumber(), 1):
                 self.__unit_times = new_unit_times
             else:
                 raise ValueError()
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 873456d..34f8371 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -102,7 +102,7 @@ class TemporalPoints(object):
     @unit_times.setter
     def unit_times(self, new_unit_times):
         if isinstance(new_unit_times, unum.Unum):
-            if new_unit_times.asNumber() == 1:
+            if np.isclose(new_unit_times.asNumber(), 1):
                 self.__unit_times = new_unit_times
             else:
                 raise ValueError()
-- 
2.43.0


From dcf6ce6ed66d7b9287fffc89de55fd792ee7663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:32 +0000
Subject: [PATCH 028/257] fix: crop_masked_border of temporal fields returns
 the fields when there is nothing to crop

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 0929bf3..5b9f9ac 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1308,7 +1308,7 @@ class TemporalFields(flds.Fields, fld.Field):
         mask_cum = self.mask_cum
         # checking masked values presence
         if not np.any(mask_cum):
-            return None
+            return None if inplace else self.copy()
         # hard cropping
         if hard:
             if inplace:
@@ -1357,7 +1357,7 @@ class TemporalFields(flds.Fields, fld.Field):
             axe_x_m = ~np.all(mask_cum, axis=1)
             # skip if nothing to do
             if not np.any(axe_y_m) or not np.any(axe_x_m):
-                return None
+                return None if inplace else self.copy()
             # getting indices where we need to cut
             axe_x_min = np.where(axe_x_m)[0][0]
             axe_x_max = np.where(axe_x_m)[0][-1]
-- 
2.43.0


From d9b9d9d3abaa609d8e86ff2479711853d7d469be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:32 +0000
Subject: [PATCH 029/257] fix: mirroring temporal fields updates their axes

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5b9f9ac..30c0c95 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1416,8 +1416,8 @@ class TemporalFields(flds.Fields, fld.Field):
                                        mir_coef=mir_coef, inplace=True,
                                        interp=interp, value=value)
         # update field
-        tmp_tf.__axe_x = self.fields[0].axe_x
-        tmp_tf.__axe_y = self.fields[0].axe_y
+        tmp_tf.axe_x = tmp_tf.fields[0].axe_x
+        tmp_tf.axe_y = tmp_tf.fields[0].axe_y
         # return
         if not inplace:
             return tmp_tf
-- 
2.43.0


From d9d097c6e07e7355f5880ade07cf156b205097e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:10 +0000
Subject: [PATCH 030/257] fix: hard border cropping of temporal fields stops at
 a single row or column

---
 IMTreatment/core/temporalfields.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 30c0c95..73aac7e 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1328,10 +1328,15 @@ class TemporalFields(flds.Fields, fld.Field):
                 bd2 = np.sum(mask[-1, :])
                 bd3 = np.sum(mask[:, 0])
                 bd4 = np.sum(mask[:, -1])
+                # a last row or column is not a border
+                if mask.shape[0] == 1:
+                    bd1, bd2 = -1, -1
+                if mask.shape[1] == 1:
+                    bd3, bd4 = -1, -1
                 # getting more masked border
                 more_masked = np.argmax([bd1, bd2, bd3, bd4])
                 # check remaining masked values
-                if [bd1, bd2, bd3, bd4][more_masked] == 0:
+                if [bd1, bd2, bd3, bd4][more_masked] <= 0:
                     break
                 # deleting more masked border
                 if more_masked == 0:
-- 
2.43.0


From 66d6ff6cd14c00cc6123fbde8b798edfc56eb668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:29 +0000
Subject: [PATCH 031/257] fix: accept a cropping window holding only the first
 index

---
 IMTreatment/core/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index afe9602..aa2fad9 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -527,8 +527,8 @@ class Field(object):
             raise ValueError("'intervy' values must be crescent")
         # checking crooping windows
         if ind:
-            if intervx[0] < 0 or intervx[1] == 0 or \
-                    intervy[0] < 0 or intervy[1] == 0:
+            if intervx[0] < 0 or intervx[1] < 0 or \
+                    intervy[0] < 0 or intervy[1] < 0:
                 raise ValueError("Invalid cropping window")
         else:
             if np.all(intervx < axe_x[0]) or np.all(intervx > axe_x[-1])\
-- 
2.43.0


From fae8ba28a316430783b8178c2f1036f941b1580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:03 +0000
Subject: [PATCH 032/257] fix: a value interpolated between points is masked
 when any of them is

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index dbb91d1..0677f6b 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -579,7 +579,7 @@ class ScalarField(fld.Field):
             inds_x = self.get_indice_on_axe(1, x)
             inds_y = self.get_indice_on_axe(2, y)
             # if something masked
-            if np.sum(self.mask[inds_x, inds_y]) != 0:
+            if np.any(self.mask[np.ix_(inds_x, inds_y)]):
                 res = np.NaN
             # if we are on a grid point
             elif inds_x[0] == inds_x[1] and inds_y[0] == inds_y[1]:
-- 
2.43.0


From 980d7030c7f82523721005a8db221857724d8977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:03 +0000
Subject: [PATCH 033/257] fix: get_zones_centers does not change the given
 bounds

---
 IMTreatment/core/scalarfield.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 0677f6b..4ba82b9 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -650,14 +650,13 @@ class ScalarField(fld.Field):
         pts : pts.Points object
             Contening the centers coordinates
         """
-        # correcting python's problem with egality...
-        bornes[0] -= 0.00001*abs(bornes[0])
-        bornes[1] += 0.00001*abs(bornes[1])
         # checking parameters coherence
         if not isinstance(bornes, ARRAYTYPES):
             raise TypeError("'bornes' must be an array")
-        if not isinstance(bornes, np.ndarray):
-            bornes = np.array(bornes, dtype=float)
+        bornes = np.array(bornes, dtype=float)
+        # correcting python's problem with egality...
+        bornes[0] -= 0.00001*abs(bornes[0])
+        bornes[1] += 0.00001*abs(bornes[1])
         if not bornes.shape == (2,):
             raise ValueError("'bornes' must be a 2x1 array")
         if bornes[0] == bornes[1]:
-- 
2.43.0


From 5e5752066bbfbdde7320697f41bfcf71533cbd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:03 +0000
Subject: [PATCH 034/257] fix: get_profile accepts an interval of indices

---
 IMTreatment/core/scalarfield.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 4ba82b9..741880e 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -863,6 +863,7 @@ class ScalarField(fld.Field):
                np.max(position) > len(axe) - 1:
                 raise ValueError("'position' must be included in"
                                  " the choosen axis values")
+            position = [int(pos) for pos in position]
         elif isinstance(position, NUMBERTYPES) and not ind:
             if position > axe.max() or position < axe.min():
                 raise ValueError("'position' must be included in the choosen"
-- 
2.43.0


From d82a2bfdc6c7fd14536437063d99bb4c14464dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:03 +0000
Subject: [PATCH 035/257] fix: histogram of masked fields, on the centers of
 the bins

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 741880e..f1fceb3 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -963,11 +963,11 @@ class ScalarField(fld.Field):
         """
         if bins is None:
             bins = 10
-        hist, xs = np.histogram(self.values.flatten(),
+        hist, xs = np.histogram(self.values[~self.mask],
                                 bins=bins,
                                 range=range,
                                 density=normalized)
-        xs = xs[0:-1] + np.mean(xs[0:2])
+        xs = (xs[0:-1] + xs[1:])/2.
         if cum:
             hist = np.cumsum(hist)
 
-- 
2.43.0


From db47660d383c9a11183b9f9a3b82e6b2ae6ec941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:50 +0000
Subject: [PATCH 036/257] fix: comparing objects of different sizes or
 dimensions tells they differ

---
 IMTreatment/core/points.py         | 12 ++++++------
 IMTreatment/core/profile.py        |  8 +++++---
 IMTreatment/core/scalarfield.py    | 10 ++++++----
 IMTreatment/core/temporalfields.py | 14 ++++++++------
 IMTreatment/core/vectorfield.py    |  8 ++++----
 IMTreatment/utils/__init__.py      |  2 +-
 IMTreatment/utils/units.py         | 11 +++++++++++
 7 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e0c7ec7..05a2ab1 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -29,7 +29,7 @@ import copy
 from scipy import stats
 from scipy import ndimage
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 
 
 class Points(object):
@@ -147,15 +147,15 @@ class Points(object):
     def __eq__(self, obj):
         if not isinstance(obj, Points):
             return False
-        if not np.all(self.xy == obj.xy):
+        if not np.array_equal(self.xy, obj.xy):
             return False
-        if not np.all(self.v == obj.v):
+        if not np.array_equal(self.v, obj.v):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_units(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_units(self.unit_y, obj.unit_y):
             return False
-        if not self.unit_v == obj.unit_v:
+        if not same_units(self.unit_v, obj.unit_v):
             return False
         return True
 
diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 98e773a..954c452 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -30,7 +30,7 @@ import scipy.interpolate as spinterp
 from scipy import ndimage
 import scipy.optimize as spopt
 import scipy.signal as spsign
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 from .. import plotlib as pplt
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from .scalarfield import ScalarField
@@ -227,15 +227,17 @@ class Profile(object):
     def __eq__(self, obj):
         if not isinstance(obj, Profile):
             return False
+        if not len(self.x) == len(obj.x):
+            return False
         if not np.all(self.mask == obj.mask):
             return False
         if not np.all(self.x[~self.mask] == obj.x[~obj.mask]):
             return False
         if not np.all(self.y[~self.mask] == obj.y[~obj.mask]):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_units(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_units(self.unit_y, obj.unit_y):
             return False
         return True
 
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index f1fceb3..2106261 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -33,7 +33,7 @@ from scipy import ndimage
 
 from .. import plotlib as pplt
 from . import field as fld, profile as prof, points as pts
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -53,6 +53,8 @@ class ScalarField(fld.Field):
     def __eq__(self, another):
         if not isinstance(another, ScalarField):
             return False
+        if not self.shape == another.shape:
+            return False
         if not np.allclose(self.axe_x, another.axe_x):
             return False
         if not np.allclose(self.axe_y, another.axe_y):
@@ -62,11 +64,11 @@ class ScalarField(fld.Field):
         if not np.allclose(self.values[~self.mask],
                       another.values[~another.mask]):
             return False
-        if not np.all(self.unit_x == another.unit_x):
+        if not same_units(self.unit_x, another.unit_x):
             return False
-        if not np.all(self.unit_y == another.unit_y):
+        if not same_units(self.unit_y, another.unit_y):
             return False
-        if not np.all(self.unit_values == another.unit_values):
+        if not same_units(self.unit_values, another.unit_values):
             return False
         return True
 
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 73aac7e..89b51c3 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -26,7 +26,7 @@ from .. import plotlib as pplt
 import numpy as np
 import unum
 import copy
-from ..utils import make_unit, ProgressCounter
+from ..utils import make_unit, same_units, ProgressCounter
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from . import field as fld
 from . import fields as flds
@@ -171,12 +171,14 @@ class TemporalFields(flds.Fields, fld.Field):
         if not flds.Fields.__eq__(self, obj):
             return False
         for attr in ['fields', 'times', 'axe_x', 'axe_y']:
-            if not np.all(self.__getattribute__(attr) ==
-                          obj.__getattribute__(attr)):
+            if not np.array_equal(self.__getattribute__(attr),
+                                  obj.__getattribute__(attr)):
                 return False
-        for attr in ['field_type', 'unit_x', 'unit_y', 'unit_times']:
-            if not (self.__getattribute__(attr) ==
-                    obj.__getattribute__(attr)):
+        if not self.field_type == obj.field_type:
+            return False
+        for attr in ['unit_x', 'unit_y', 'unit_times']:
+            if not same_units(self.__getattribute__(attr),
+                              obj.__getattribute__(attr)):
                 return False
         return True
 
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index cae3b16..1249068 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -31,7 +31,7 @@ from scipy import ndimage
 from .. import plotlib as pplt
 import unum
 from . import field, scalarfield as sf
-from ..utils import make_unit
+from ..utils import make_unit, same_units
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -290,11 +290,11 @@ class VectorField(field.Field):
             return False
         if not np.all(self.comp_y[~self.mask] == obj.comp_y[~self.mask]):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_units(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_units(self.unit_y, obj.unit_y):
             return False
-        if not self.unit_values == obj.unit_values:
+        if not same_units(self.unit_values, obj.unit_values):
             return False
         return True
 
diff --git a/IMTreatment/utils/__init__.py b/IMTreatment/utils/__init__.py
index 7e2dc48..dc1aad5 100644
--- a/IMTreatment/utils/__init__.py
+++ b/IMTreatment/utils/__init__.py
@@ -24,7 +24,7 @@
 Utlities used by IMTreatment modules
 """
 
-from .units import make_unit
+from .units import make_unit, same_units
 from .types import  ARRAYTYPES, INTEGERTYPES, STRINGTYPES, NUMBERTYPES
 from .files import Files, remove_files_in_dirs
 from .progresscounter import ProgressCounter
diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index 5031bc4..ed46d46 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -73,6 +73,17 @@ def make_unit(string):
     return env['res']
 
 
+def same_units(unit1, unit2):
+    """
+    Return True if the two given units are the same (units that cannot be
+    converted into each other are different).
+    """
+    try:
+        return bool(unit1 == unit2)
+    except unum.IncompatibleUnitsError:
+        return False
+
+
 def make_unit_old(string):
     """
     Function helping for the creation of units. For more details, see the
-- 
2.43.0


From 35524b1909f8b772ce57929e3b00cd136372e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:33 +0000
Subject: [PATCH 037/257] fix: fill fields whose masked points are surrounded
 by aligned points

---
 IMTreatment/core/scalarfield.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 2106261..1f54bfd 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1853,6 +1853,13 @@ class ScalarField(fld.Field):
             values_good = values[filt]
         else:
             pass
+        # triangulations need points that are not aligned
+        if kind in ['linear', 'cubic'] and np.any(mask):
+            if self.__are_aligned(xy_good):
+                xy_good = xy[filt.flatten()]
+                values_good = values[filt]
+            if self.__are_aligned(xy_good):
+                kind = 'nearest'
         # if there is nothing to do...
         if not np.any(mask):
             pass
@@ -1889,6 +1896,18 @@ class ScalarField(fld.Field):
                                   unit_values=self.unit_values)
             return sf
 
+    @staticmethod
+    def __are_aligned(xy):
+        """
+        Return True if all the given points are on a same line.
+        """
+        if len(xy) < 3:
+            return True
+        dxy = xy - xy[0]
+        scale = np.max(np.abs(dxy), axis=0)
+        scale[scale == 0] = 1.
+        return np.linalg.matrix_rank(dxy/scale, tol=1e-9*len(xy)) < 2
+
     def smooth(self, tos='uniform', size=None, inplace=False, **kw):
         """
         Smooth the scalarfield in place.
-- 
2.43.0


From 03a3dfd210ba8e56cf437a750188d82a5e335c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:33 +0000
Subject: [PATCH 038/257] fix: filling a copy of a field with cropping does not
 crop the field

---
 IMTreatment/core/scalarfield.py | 5 +++++
 IMTreatment/core/vectorfield.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 1f54bfd..d97d679 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1829,6 +1829,11 @@ class ScalarField(fld.Field):
         if not isinstance(value, NUMBERTYPES):
             raise TypeError("'value' must be a number")
         if crop:
+            if not inplace:
+                tmp_f = self.crop_masked_border(hard=False, inplace=False)
+                tmp_f.fill(kind=kind, value=value, inplace=True,
+                           reduce_tri=reduce_tri)
+                return tmp_f
             self.crop_masked_border(hard=False, inplace=True)
         # getting data
         x, y = self.axe_x, self.axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 1249068..9c6431c 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -960,6 +960,11 @@ class VectorField(field.Field):
         if not value.shape == (2,):
             raise ValueError()
         if crop:
+            if not inplace:
+                tmp_f = self.crop_masked_border(hard=False, inplace=False)
+                tmp_f.fill(kind=kind, value=value, inplace=True,
+                           reduce_tri=reduce_tri)
+                return tmp_f
             self.crop_masked_border(hard=False, inplace=True)
         # filling components
         comp_x = self.comp_x_as_sf
-- 
2.43.0


From a6134721d284317ef55b6da8ce807125209d3f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:33 +0000
Subject: [PATCH 039/257] fix: make_evenly_spaced keeps the smallest spacing of
 the field

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index d97d679..cf3b625 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1985,9 +1985,9 @@ class ScalarField(fld.Field):
         #
         interp = self.get_interpolator(interp=interp)
         # new_x = np.arange(axex[0], axex[-1] + .1*dx, dx)
-        new_x = np.linspace(axex[0], axex[-1], int(Dx/dx))
+        new_x = np.linspace(axex[0], axex[-1], int(Dx/dx + 1e-6) + 1)
         # new_y = np.arange(axey[0], axey[-1] + .1*dy, dy)
-        new_y = np.linspace(axey[0], axey[-1], int(Dy/dy))
+        new_y = np.linspace(axey[0], axey[-1], int(Dy/dy + 1e-6) + 1)
         new_values = interp(new_x, new_y)
         # store
         self.import_from_arrays(new_x, new_y, new_values.transpose(),
-- 
2.43.0


From 5fc7e7bb97a73dc68021b253aacef5360773efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:33 +0000
Subject: [PATCH 040/257] fix: reduce the spatial resolution of a field by an
 odd factor

---
 IMTreatment/core/scalarfield.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index cf3b625..fdcf1d4 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2062,16 +2062,16 @@ class ScalarField(fld.Field):
                                                    [~mask[intervx, intervy]])
 
         else:
-            inds_x = np.arange((fact - 1)/2, len(axe_x) - (fact - 1)/2, fact)
-            inds_y = np.arange((fact - 1)/2, len(axe_y) - (fact - 1)/2, fact)
+            inds_x = np.arange((fact - 1)//2, len(axe_x) - (fact - 1)//2, fact)
+            inds_y = np.arange((fact - 1)//2, len(axe_y) - (fact - 1)//2, fact)
             new_values = np.zeros((len(inds_x), len(inds_y)))
             new_mask = np.zeros((len(inds_x), len(inds_y)))
             for i in np.arange(len(inds_x)):
-                intervx = slice(inds_x[i] - (fact - 1)/2,
-                                inds_x[i] + (fact - 1)/2 + 1)
+                intervx = slice(inds_x[i] - (fact - 1)//2,
+                                inds_x[i] + (fact - 1)//2 + 1)
                 for j in np.arange(len(inds_y)):
-                    intervy = slice(inds_y[j] - (fact - 1)/2,
-                                    inds_y[j] + (fact - 1)/2 + 1)
+                    intervy = slice(inds_y[j] - (fact - 1)//2,
+                                    inds_y[j] + (fact - 1)//2 + 1)
                     if np.all(mask[intervx, intervy]):
                         new_mask[i, j] = True
                         new_values[i, j] = 0.
-- 
2.43.0


From 2c4df8ba514898ac2eb0f2ad026e710ba262863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:33 +0000
Subject: [PATCH 041/257] fix: reducing the resolution of a field inplace keeps
 its units

---
 IMTreatment/core/scalarfield.py | 3 +--
 IMTreatment/core/vectorfield.py | 1 -
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index fdcf1d4..99f79a3 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2012,7 +2012,7 @@ class ScalarField(fld.Field):
             raise ValueError()
         if fact == 1:
             if inplace:
-                pass
+                return None
             else:
                 return self.copy()
         if fact % 2 == 0:
@@ -2082,7 +2082,6 @@ class ScalarField(fld.Field):
         new_values = np.array(new_values, dtype=self._values_dtype)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(new_axe_x, new_axe_y, new_values,
                                     mask=new_mask,
                                     unit_x=self.unit_x, unit_y=self.unit_y,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 9c6431c..1962f2e 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1226,7 +1226,6 @@ class VectorField(field.Field):
         Vy.reduce_spatial_resolution(fact, inplace=True)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values,
                                     Vy.values,
                                     mask=Vx.mask, unit_x=self.unit_x,
-- 
2.43.0


From 405c55290edbc86e73d664b58e705c0b7451f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:58 +0000
Subject: [PATCH 042/257] fix: reducing the spatial resolution of temporal
 fields updates the axes of the right object

---
 IMTreatment/core/temporalfields.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 89b51c3..70227b7 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1189,9 +1189,10 @@ class TemporalFields(flds.Fields, fld.Field):
             if verbose:
                 pg.print_progress()
         #
-        self.axe_x = self.fields[0].axe_x
-        self.axe_y = self.fields[0].axe_y
-        return tmpfs
+        tmpfs.axe_x = tmpfs.fields[0].axe_x
+        tmpfs.axe_y = tmpfs.fields[0].axe_y
+        if not inplace:
+            return tmpfs
 
     def reduce_temporal_resolution(self, nmb_in_interval, mean=True,
                                    inplace=False):
-- 
2.43.0


From a37614b39c06c53a6459753ee05662fcae7873f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:58 +0000
Subject: [PATCH 043/257] fix: filling temporal fields in time fills the right
 points of the right object

---
 IMTreatment/core/temporalscalarfields.py | 32 ++++++++++--------------
 IMTreatment/core/temporalvectorfields.py | 30 +++++++++-------------
 2 files changed, 25 insertions(+), 37 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index efa27e4..58d5275 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -355,20 +355,25 @@ class TemporalScalarFields(tf.TemporalFields):
             raise TypeError()
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
+        if inplace:
+            tmp_tsf = self
+        else:
+            tmp_tsf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tsf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tsf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting datas
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tsf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
-                prof = self.get_time_profile('values', i, j, ind=True)
+                prof = tmp_tsf.get_time_profile('values', pt=[i, j], ind=True)
                 # creating interpolation function
                 if kind == 'value':
                     def interp(x):
@@ -388,32 +393,21 @@ class TemporalScalarFields(tf.TemporalFields):
                                                kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all profile masked points
-                for ind_masked in prof.mask:
+                for ind_masked in np.where(prof.mask)[0]:
                     try:
-                        interp_val = interp(prof.x[prof.mask])
+                        interp_val = interp(prof.x[ind_masked])
                     except ValueError:
                         continue
                     # putting interpolated value in the field
-                    fields[prof.mask].values[i, j] = interp_val
-                    fields[prof.mask].mask[i, j] = False
+                    fields[ind_masked].values[i, j] = interp_val
+                    fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tsf = self.copy()
-                fields = tmp_tsf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tsf = self.copy()
-            tmp_tsf.fields = fields
+        if not inplace:
             return tmp_tsf
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 79348a5..b10b825 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -288,23 +288,28 @@ class TemporalVectorFields(tf.TemporalFields):
         elif not isinstance(value, ARRAYTYPES):
             raise TypeError()
         value = np.array(value)
+        if inplace:
+            tmp_tvf = self
+        else:
+            tmp_tvf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tvf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tvf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tvf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
                 # get time profiles
-                prof_x = self.get_time_profile(component='comp_x', pt=[i, j],
-                                               ind=True)
-                prof_y = self.get_time_profile(component='comp_y', pt=[i, j],
-                                               ind=True)
+                prof_x = tmp_tvf.get_time_profile(component='comp_x',
+                                                  pt=[i, j], ind=True)
+                prof_y = tmp_tvf.get_time_profile(component='comp_y',
+                                                  pt=[i, j], ind=True)
                 # getting masked position on profile
                 inds_masked_x = np.where(prof_x.mask)[0]
                 inds_masked_y = np.where(prof_y.mask)[0]
@@ -336,8 +341,6 @@ class TemporalVectorFields(tf.TemporalFields):
                                                  kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all x profile masked points
                 for ind_masked in inds_masked_x:
                     try:
@@ -358,19 +361,10 @@ class TemporalVectorFields(tf.TemporalFields):
                     fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tvf = self.copy()
-                fields = tmp_tvf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tvf = self.copy()
-            tmp_tvf.fields = fields
+        if not inplace:
             return tmp_tvf
-- 
2.43.0


From a833bad0bb5fc28e1f16bc2a0dad4cdc82d6b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:51 +0000
Subject: [PATCH 044/257] fix: Profile constructor ignored 'mask=True' and the
 mask of masked arrays

---
 IMTreatment/core/profile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 954c452..f7c0fad 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -65,10 +65,14 @@ class Profile(object):
         if not isinstance(y, np.ma.MaskedArray):
             y = np.array(y, dtype=float)
         if isinstance(mask, bool):
+            mask_value = mask
             mask = np.empty(x.shape, dtype=bool)
-            mask.fill(False)
+            mask.fill(mask_value)
         if not isinstance(mask, ARRAYTYPES):
             raise TypeError("'mask' must be an array")
+        if isinstance(y, np.ma.MaskedArray):
+            mask = np.logical_or(mask, np.ma.getmaskarray(y))
+            y = np.array(y.data, dtype=float)
         if not isinstance(mask, (np.ndarray, np.ma.MaskedArray)):
             mask = np.array(mask, dtype=bool)
         if not isinstance(name, STRINGTYPES):
-- 
2.43.0


From 92cff1138d11cd1cc102c3d6d2e19da343ee444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:08 +0000
Subject: [PATCH 045/257] fix: Profile addition used the inverse unit
 conversion factor

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index f7c0fad..d837ed3 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -119,7 +119,7 @@ class Profile(object):
                 raise ValueError("Profiles have not the same length")
             if not all(self.x == otherone.x):
                 raise ValueError("Profiles have not the same x axis")
-            y = self.y + (self.unit_y/otherone.unit_y*otherone.y).asNumber()
+            y = self.y + otherone.y*(otherone.unit_y/self.unit_y).asNumber()
             name = ""
             mask = np.logical_or(self.mask, otherone.mask)
         else:
-- 
2.43.0


From f57b79f53ccdc3301f0dae5464175d7234e4a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:23 +0000
Subject: [PATCH 046/257] fix: Profile + Unum accepted quantities of another
 dimension

---
 IMTreatment/core/profile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index d837ed3..e30fe8d 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -106,6 +106,10 @@ class Profile(object):
             name = self.name
             mask = self.mask
         elif isinstance(otherone, unum.Unum):
+            try:
+                self.unit_y + otherone
+            except unum.IncompatibleUnitsError:
+                raise ValueError("Given value has not the profile unit system")
             y = self.y + (otherone/self.unit_y).asNumber()
             name = self.name
             mask = self.mask
-- 
2.43.0


From fa3f0defa7363b6656fd1ae9ec61d860e3451230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:37 +0000
Subject: [PATCH 047/257] fix: Profile product only noticed x axis differences
 of one sign

---
 IMTreatment/core/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index e30fe8d..b0a1290 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -149,7 +149,8 @@ class Profile(object):
             y = self.y*new_unit_y.asNumber()
             new_unit_y = new_unit_y/new_unit_y.asNumber()
         elif isinstance(otherone, Profile):
-            if np.any(otherone.x - self.x > 1e-6*np.mean(abs(self.x))):
+            if np.any(np.abs(otherone.x - self.x)
+                      > 1e-6*np.mean(abs(self.x))):
                 raise ValueError("Given profiles does'nt share the same"
                                  " x axis")
             if not otherone.unit_x == self.unit_x:
-- 
2.43.0


From fb9d4dc91534a36d074e11e6d540777482f9080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:51 +0000
Subject: [PATCH 048/257] fix: dividing by a Profile replaced the zeros of the
 divisor by ones

---
 IMTreatment/core/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index b0a1290..96dbf3b 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -211,8 +211,9 @@ class Profile(object):
                 tmp_unit = self.unit_y/otherone.unit_y
                 y_tmp = self.y.copy()
                 y_tmp[otherone.y == 0] = np.NaN
-                otherone.y[otherone.y == 0] = 1
-                y = y_tmp/otherone.y*tmp_unit.asNumber()
+                y_other = otherone.y.copy()
+                y_other[y_other == 0] = 1
+                y = y_tmp/y_other*tmp_unit.asNumber()
                 name = ""
                 unit_y = tmp_unit/tmp_unit.asNumber()
         else:
-- 
2.43.0


From 01ce24a757e09fae4329865157a1db946b0a11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:06 +0000
Subject: [PATCH 049/257] fix: Profile ** 0 unmasked the masked points

---
 IMTreatment/core/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 96dbf3b..ef739fb 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -228,8 +228,8 @@ class Profile(object):
                             "on a Profile")
         y = np.power(self.y, number)
         unit_y = np.power(self.unit_y, number)
-        return Profile(x=self.x, y=y, unit_x=self.unit_x, unit_y=unit_y,
-                       name=self.name)
+        return Profile(x=self.x, y=y, mask=self.mask, unit_x=self.unit_x,
+                       unit_y=unit_y, name=self.name)
 
     def __len__(self):
         return len(self.x)
-- 
2.43.0


From 4be2c2da062a2e183509bf26ac5866f06258e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:22 +0000
Subject: [PATCH 050/257] fix: Profile.fill(kind='value') replaced the valid
 points instead of the masked ones

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index ef739fb..f31bc47 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1601,7 +1601,7 @@ class Profile(object):
         # check fill type
         if kind == 'value':
             new_y = copy.copy(self.y)
-            new_y[filt] = fill_value
+            new_y[mask] = fill_value
         else:
             # making interpolation on existent values
             x = self.x[filt]
-- 
2.43.0


From 6504e0054818e38bdcceaa4815076a6b35cd006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:38 +0000
Subject: [PATCH 051/257] fix: Profile.fill(crop=True) always failed and
 cropped the original

---
 IMTreatment/core/profile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index f31bc47..05a1204 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1592,7 +1592,10 @@ class Profile(object):
             return self.copy()
         # crop if asked
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            if not inplace:
+                return self.crop_masked_border().fill(kind=kind,
+                                                      fill_value=fill_value)
+            self.crop_masked_border(inplace=True)
         # get mask
         mask = self.mask
         filt = np.logical_not(mask)
-- 
2.43.0


From 6384c15081fab2280a7eb71d47be8082b147b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 052/257] fix: Profile.crop failed when cropping along x and y
 together

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 05a1204..8514208 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1463,7 +1463,7 @@ class Profile(object):
             new_mask = new_mask[indices[0]:indices[1]]
         # treat intervy with ind=False
         if not ind and intervy is not None:
-            filt = np.logical_and(self.y > intervy[0], self.y < intervy[1])
+            filt = np.logical_and(new_y > intervy[0], new_y < intervy[1])
             new_x = new_x[filt]
             new_y = new_y[filt]
             new_mask = new_mask[filt]
-- 
2.43.0


From a6a111baa4e38f939e52a9bd15554f02afbeb509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:21 +0000
Subject: [PATCH 053/257] fix: Profile.crop lost the profile name

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8514208..7a8b2f8 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1486,7 +1486,7 @@ class Profile(object):
             return None
         else:
             tmp_prof = Profile(new_x, new_y, new_mask, self.unit_x,
-                               self.unit_y)
+                               self.unit_y, name=self.name)
             return tmp_prof
 
     def scale(self, scalex=1., scaley=1., inplace=False):
-- 
2.43.0


From 4c09858ec83b83cc193a43f748328e9f8da3dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:23 +0000
Subject: [PATCH 054/257] fix: Profile.crop dropped the last point when the
 interval reaches beyond it

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 7a8b2f8..5900c39 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1443,7 +1443,7 @@ class Profile(object):
                     or all(intervx > np.max(self.x)):
                 raise ValueError("'intervx' values are out of profile")
             ind1 = 0
-            ind2 = -1
+            ind2 = len(new_x)
             for i in np.arange(len(new_x)-1, 0, -1):
                 if new_x[i] == intervx[0]:
                     ind1 = i
-- 
2.43.0


From aeddaeef67820bbd5b21afc084e14bf86982ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:37 +0000
Subject: [PATCH 055/257] fix: Profile.get_value_position only returned the
 first position and unmasked points

---
 IMTreatment/core/profile.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 5900c39..627e173 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -628,38 +628,29 @@ class Profile(object):
         # check parameters
         if not isinstance(value, NUMBERTYPES):
             raise TypeError()
-        # if the asked value is present
-        if np.any(self.y == value):
-            ind_0 = np.argwhere(self.y == value)[0]
-            if ind:
-                return ind_0
-            else:
-                pos_0 = [self.x[i] for i in ind_0]
-                return pos_0
         # search for positions
-        y = self.y
+        y = self.y.copy()
         y[self.mask] = 0
         y = y - value
-        x = self.x
-        sign = y > 0
-        chang = np.abs(np.logical_xor(sign[1::], sign[0:-1:]))
+        if ind:
+            x = np.arange(len(y), dtype=float)
+        else:
+            x = self.x
+        # exact matches
+        exact = np.logical_and(y == 0, np.logical_not(self.mask))
+        # sign changes
+        chang = y[1::]*y[0:-1:] < 0
         mask_chang = np.logical_or(self.mask[1::], self.mask[0:-1:])
         chang[mask_chang] = False
         ind_0 = np.argwhere(chang).flatten()
         # get interpolated 0-value position
         val_1 = np.abs(y[ind_0])
         val_2 = np.abs(y[ind_0 + 1])
-        ind_0 = np.asarray(ind_0, dtype=float)
-        if ind:
-            x_1 = ind_0
-            x_2 = ind_0 + 1
-        else:
-            ind_0 = np.asarray(ind_0, dtype=int)
-            x_1 = x[ind_0]
-            x_2 = x[ind_0 + 1]
+        x_1 = x[ind_0]
+        x_2 = x[ind_0 + 1]
         pos_0 = x_1 + val_1/(val_1 + val_2)*(x_2 - x_1)
         # returning
-        return pos_0
+        return np.sort(np.concatenate((x[exact], pos_0)))
 
     def get_integral(self):
         """
-- 
2.43.0


From f9f95cd4abbce8a0a4b7b3cf4096d93c20f5be1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:51 +0000
Subject: [PATCH 056/257] fix: Profile.get_spectrum ignored 'wanted_x'

---
 IMTreatment/core/profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 627e173..ee5d49c 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -755,6 +755,9 @@ class Profile(object):
         from scipy.signal import periodogram, welch
         from scipy.signal import detrend as spdetrend
         tmp_prof = self.copy()
+        # keep only the wanted interval
+        if wanted_x is not None:
+            tmp_prof.crop(intervx=wanted_x, inplace=True)
         # fill if asked (and if necessary)
         if isinstance(fill, NUMBERTYPES):
             tmp_prof.fill(kind='value', fill_value=fill, inplace=True)
-- 
2.43.0


From 2cf1d26f31c638a94b090bb56c576978b95615e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:04 +0000
Subject: [PATCH 057/257] fix: Profile auto-correlation failed when rounding
 added a point to its x axis

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index ee5d49c..515a341 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -957,7 +957,7 @@ class Profile(object):
             return corr
         else:
             dx = self.x[1] - self.x[0]
-            x = np.arange(0, dx*len(corr), dx)
+            x = np.arange(len(corr))*dx
             return Profile(x, corr, unit_x=self.unit_x, unit_y=make_unit(''))
 
     def get_fitting(self, func, p0=None, output_param=False):
-- 
2.43.0


From 6c100a15848be0c2665f9447a541d63890e8b57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:19 +0000
Subject: [PATCH 058/257] fix: Profile convolution failed when rounding added a
 point to its x axis

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 515a341..3892ec6 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1195,7 +1195,7 @@ class Profile(object):
         # get convolution
         conv = np.convolve(self.y, other_prof.y, mode=mode)
         # store in a profile
-        conv_prof = Profile(np.arange(0, dx*len(conv), dx),
+        conv_prof = Profile(np.arange(len(conv))*dx,
                             conv, unit_x=self.unit_x,
                             unit_y=self.unit_y*other_prof.unit_y)
         # return
-- 
2.43.0


From e02a7e5e61ad83c717ba599acd1175263db17785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:33 +0000
Subject: [PATCH 059/257] fix: Profile convolution of difference axis could
 lose its last point to rounding

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 3892ec6..b55bc1a 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1282,7 +1282,7 @@ class Profile(object):
             diffs.append(diff)
         # compute x axis
         dx = x[1] - x[0]
-        x = np.arange(0, len(diffs)*dx, dx)[0:len(diffs)]
+        x = np.arange(len(diffs))*dx
         x -= (x[-1] + x[0])/2.
         delta_x = ((other_profile.x[0] + other_profile.x[-1])/2. -
                    (self.x[0] + self.x[-1])/2.)
-- 
2.43.0


From 5a5745d5369109e506157d6dba497c7c44c91a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:49 +0000
Subject: [PATCH 060/257] fix: Profile.get_convolution rejected evenly spaced
 profiles and accepted uneven ones

---
 IMTreatment/core/profile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index b55bc1a..6380c5e 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1180,14 +1180,14 @@ class Profile(object):
             raise TypeError()
         if mode not in ['full', 'same', 'valid']:
             raise ValueError()
-        if not np.all(self.x[1:] - self.x[0:-1] - (self.x[1] - self.x[0]) <
-                      self.x[-1]*1e-10):
+        dxs = self.x[1:] - self.x[0:-1]
+        if not np.all(np.abs(dxs - dxs[0]) < 1e-6*np.max(dxs)):
             raise Exception("Profiles should have orthogonal x axis")
-        if not np.all(other_prof.x[1:] - other_prof.x[0:-1] -
-                      other_prof.x[1] - other_prof.x[0] <
-                      1e-6*np.mean(other_prof.x)):
+        other_dxs = other_prof.x[1:] - other_prof.x[0:-1]
+        if not np.all(np.abs(other_dxs - other_dxs[0]) <
+                      1e-6*np.max(other_dxs)):
             raise Exception("Profiles should have orthogonal x axis")
-        if not self.x[1] - self.x[0] == other_prof.x[1] - other_prof.x[0]:
+        if not np.abs(dxs[0] - other_dxs[0]) < 1e-6*np.abs(dxs[0]):
             raise Exception("Profiles should have same x discretization step")
         if not self.unit_x == other_prof.unit_x:
             raise Exception("Profiles should have the same x unit")
-- 
2.43.0


From fa024b755cf9445fb5d47668c91892329d45e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:02 +0000
Subject: [PATCH 061/257] fix: Profile.evenly_space ignored the asked step on
 profiles already evenly spaced

---
 IMTreatment/core/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 6380c5e..c62a806 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1735,8 +1735,8 @@ class Profile(object):
         # checking if evenly spaced
         dxs = self.x[1::] - self.x[:-1:]
         dxi = self.x[1] - self.x[0]
-        if np.all(np.abs(dxs - dxi) < 1e-6*np.max(dxs)):
-            return self.copy()
+        if dx is None and np.all(np.abs(dxs - dxi) < 1e-6*np.max(dxs)):
+            return tmpp
         # getting data
         mask = self.mask
         filt = np.logical_not(mask)
-- 
2.43.0


From 67c125046007afd9065fe1f621dd134560caae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:14 +0000
Subject: [PATCH 062/257] fix: Profile.evenly_space lost an interval to
 rounding

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index c62a806..b4a7298 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1748,7 +1748,7 @@ class Profile(object):
             mean_dx = dx
         min_x = np.min(self.x)
         max_x = np.max(self.x)
-        nmb_interv = np.int((max_x - min_x)/mean_dx)
+        nmb_interv = max(1, int(round((max_x - min_x)/mean_dx)))
         # creating new evenly spaced x axis
         new_x = np.linspace(min_x, max_x, nmb_interv + 1)
         # interpolate to obtain y values
-- 
2.43.0


From 0325d69918a7a075baf464bb96b7e8eaa876c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:55 +0000
Subject: [PATCH 063/257] fix: setting Profile.y from a masked array failed
 without mask and shared its data

---
 IMTreatment/core/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index b4a7298..02eb2d6 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -298,8 +298,9 @@ class Profile(object):
     @y.setter
     def y(self, values):
         if isinstance(values, np.ma.MaskedArray):
-            self.__y = values.data
-            self.mask = values.mask
+            self.__y = np.array(values.data, dtype=float)
+            self.mask = np.logical_or(np.ma.getmaskarray(values),
+                                      np.isnan(self.__y))
         elif isinstance(values, ARRAYTYPES):
             self.__y = np.array(values)*1.
             self.mask = np.isnan(values)
-- 
2.43.0


From c376b96719e544878e729454da0d0dd566d278f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:10 +0000
Subject: [PATCH 064/257] fix: rejected assignment to Profile.x left the
 profile inconsistent

---
 IMTreatment/core/profile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 02eb2d6..50bd445 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -273,13 +273,12 @@ class Profile(object):
 
     @x.setter
     def x(self, values):
-        if isinstance(values, ARRAYTYPES):
-            self.__x = np.array(values, dtype=float)
-        else:
+        if not isinstance(values, ARRAYTYPES):
             raise Exception("'x' should be an array, not {}"
                             .format(type(values)))
         if len(values) != len(self.__y):
             raise Exception("Please set 'y' before 'x'")
+        self.__x = np.array(values, dtype=float)
         if len(self.__x) > 1:
             ind_sort = np.argsort(self.__x)
             self.__x = self.__x[ind_sort]
-- 
2.43.0


From 82d7843fc5b9af9aaa4a6847b4f496e0b5b675d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:23 +0000
Subject: [PATCH 065/257] fix: Profile.get_pdf ignored 'bw_method'

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 50bd445..3e918c7 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -905,7 +905,7 @@ class Profile(object):
         y_max = np.max(y)
         # get kernel
         import scipy.stats.kde as spkde
-        kernel = spkde.gaussian_kde(y)
+        kernel = spkde.gaussian_kde(y, bw_method=bw_method)
         # get values
         pdf_x = np.linspace(y_min, y_max, resolution)
         pdf_y = kernel(pdf_x)
-- 
2.43.0


From fe8c6c691b85ad1aa8c9d06afc5a786ec998ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:43 +0000
Subject: [PATCH 066/257] fix: Profile.spectral_filtering failed for the
 documented lowpass and highpass filters

---
 IMTreatment/core/profile.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 3e918c7..638b3bd 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1315,9 +1315,16 @@ class Profile(object):
         # define butterworth filter
         fs = len(tmp_prof.x)/(tmp_prof.x[-1] - tmp_prof.x[0])
         nyq = 0.5 * fs
-        low = fmin / nyq
-        high = fmax / nyq
-        b, a = spsign.butter(order, [low, high], btype='band')
+        if fmin is None and fmax is None:
+            raise ValueError("Need at least 'fmin' or 'fmax'")
+        elif fmin is None:
+            b, a = spsign.butter(order, fmax / nyq, btype='low')
+        elif fmax is None:
+            b, a = spsign.butter(order, fmin / nyq, btype='high')
+        else:
+            low = fmin / nyq
+            high = fmax / nyq
+            b, a = spsign.butter(order, [low, high], btype='band')
         # Apply filter to data
         y = spsign.lfilter(b, a, tmp_prof.y)
         # Readd average
-- 
2.43.0


From 6373f25c917a8a105f3eea619c93956502c47163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:55 +0000
Subject: [PATCH 067/257] fix: Profile.crop missed the upper bound when it is
 the first point or in the gap of the lower one

---
 IMTreatment/core/profile.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 638b3bd..8c89525 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1444,20 +1444,14 @@ class Profile(object):
                     or all(intervx > np.max(self.x)):
                 raise ValueError("'intervx' values are out of profile")
             ind1 = 0
-            ind2 = len(new_x)
+            ind2 = np.searchsorted(new_x, intervx[1], side='right')
             for i in np.arange(len(new_x)-1, 0, -1):
                 if new_x[i] == intervx[0]:
                     ind1 = i
-                elif new_x[i] == intervx[1]:
-                    ind2 = i + 1
                 elif (new_x[i] > intervx[0] and new_x[i-1] < intervx[0]) \
                         or (new_x[i] < intervx[0] and
                             new_x[i-1] > intervx[0]):
                     ind1 = i + 1
-                elif (new_x[i] > intervx[1] and new_x[i-1] < intervx[1]) \
-                        or (new_x[i] < intervx[1] and
-                            new_x[i-1] > intervx[1]):
-                    ind2 = i
             indices = [ind1, ind2]
             new_x = new_x[indices[0]:indices[1]]
             new_y = new_y[indices[0]:indices[1]]
-- 
2.43.0


From 2d50bdad4603dd70fe61b0ff129c5c2b1f018df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:24 +0000
Subject: [PATCH 068/257] fix: Points shared its coordinates with the array
 they were given as

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 05a2ab1..f476c15 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -165,7 +165,7 @@ class Points(object):
 
     @xy.setter
     def xy(self, values):
-        values = np.asarray(values, dtype=float)
+        values = np.array(values, dtype=float)
         if len(values != 0):
             if not values.ndim == 2:
                 raise ValueError("ndim of xy is {} and should be 2"
-- 
2.43.0


From 1b4d1c0ff6a4a307b47f6c8e2abdcef9ea1ecc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:40 +0000
Subject: [PATCH 069/257] fix: setting the values of Points to None had no
 effect

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index f476c15..f5d0cfe 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -187,7 +187,7 @@ class Points(object):
     @v.setter
     def v(self, values):
         if values is None:
-            self__v = None
+            self.__v = np.array([])
         else:
             values = np.array(values, subok=True)
             if not values.ndim == 1:
-- 
2.43.0


From 02459ce517f685578176604d52cd047cc4f5d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:52 +0000
Subject: [PATCH 070/257] fix: integer values of Points could not be scaled or
 converted

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index f5d0cfe..a152033 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -189,7 +189,7 @@ class Points(object):
         if values is None:
             self.__v = np.array([])
         else:
-            values = np.array(values, subok=True)
+            values = np.array(values, dtype=float, subok=True)
             if not values.ndim == 1:
                 raise ValueError()
             if not len(values) in [0, len(self.__xy)]:
-- 
2.43.0


From d54fbda9cdcd9bb3dd4f21a9269b82b6acacb852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:07 +0000
Subject: [PATCH 071/257] fix: adding Points modified the second operand and
 inverted unit conversions

---
 IMTreatment/core/points.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index a152033..39968da 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -101,16 +101,16 @@ class Points(object):
             if another.xy.shape == (0,):
                 new_xy = self.xy
             elif self.xy.shape == (0,):
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = xy
             elif another.xy.shape == (0,) and self.xy.shape == (0,):
                 new_xy = np.array([[]])
             else:
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = np.append(self.xy, xy, axis=0)
             # testing v presence
             v_presence = True
@@ -126,11 +126,11 @@ class Points(object):
                 if self.v is None and another.v is None:
                     v = np.array([])
                 elif self.v is None:
-                    v = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v = another.v*(another.unit_v/self.unit_v).asNumber()
                 elif another.v is None:
                     v = self.v
                 else:
-                    v_tmp = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v_tmp = another.v*(another.unit_v/self.unit_v).asNumber()
                     v = np.append(self.v, v_tmp)
                 return Points(new_xy, v,
                               unit_x=self.unit_x,
-- 
2.43.0


From 8b42cd6a0190420910814dca938ce3df5fcd0f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:21 +0000
Subject: [PATCH 072/257] fix: Points.add could leave points and values of
 different lengths

---
 IMTreatment/core/points.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 39968da..5088b85 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -891,10 +891,12 @@ class Points(object):
         if v is not None:
             if not isinstance(v, NUMBERTYPES):
                 raise TypeError()
-        # store new data
-        self.__xy = np.append(self.xy, [pt], axis=0)
         if v is None and self.v.shape[0] != 0:
             raise ValueError('You should specify an associated value : v')
+        if v is not None and len(self.v) != len(self.xy):
+            raise ValueError('Other points have no associated value')
+        # store new data
+        self.__xy = np.append(self.xy, [pt], axis=0)
         if v is not None:
             self.__v = np.append(self.v, v)
 
-- 
2.43.0


From ea048e50271e9b83edc23c33ead5491d52297268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:34 +0000
Subject: [PATCH 073/257] fix: Points.remove dropped the values of the
 remaining points

---
 IMTreatment/core/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 5088b85..ecc7d29 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -919,8 +919,9 @@ class Points(object):
         else:
             raise TypeError("'ind' must be an integer or an array of integer")
         tmp_v = self.v.copy()
+        has_v = len(self.v) == len(self.xy)
         self.xy = np.delete(self.xy, ind, axis=0)
-        if len(self.v) == len(self.xy) + 1:
+        if has_v:
             self.v = np.delete(tmp_v, ind, axis=0)
 
     def change_unit(self, axe, new_unit):
-- 
2.43.0


From aada840c09271afdbcfa9d8ed723f88006784d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:50 +0000
Subject: [PATCH 074/257] fix: Points.remove rejected numpy arrays of integers

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index ecc7d29..48d048d 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -912,7 +912,7 @@ class Points(object):
         if isinstance(ind, INTEGERTYPES):
             ind = [ind]
         elif isinstance(ind, ARRAYTYPES):
-            if not np.all([isinstance(val, int) for val in ind]):
+            if not np.all([isinstance(val, INTEGERTYPES) for val in ind]):
                 raise TypeError("'ind' must be an integer or an array of"
                                 " integer")
             ind = np.array(ind)
-- 
2.43.0


From 80d7978e873f06a913b0f0b5203d98fb29b1f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:05 +0000
Subject: [PATCH 075/257] fix: Points.cut dropped the values of the remaining
 points

---
 IMTreatment/core/points.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 48d048d..f579635 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1063,9 +1063,10 @@ class Points(object):
             out_zone = np.logical_and(self.xy[:, 1] > intervy[0],
                                       self.xy[:, 1] < intervy[1])
             mask = np.logical_and(mask, out_zone)
+        tmp_v = tmp_pts.v
         tmp_pts.xy = tmp_pts.xy[~mask, :]
-        if len(tmp_pts.v) != 0:
-            tmp_pts.v = tmp_pts.v[~mask]
+        if len(tmp_v) != 0:
+            tmp_pts.v = tmp_v[~mask]
         return tmp_pts
 
     def scale(self, scalex=1., scaley=1., scalev=1., inplace=False):
-- 
2.43.0


From 8799bfc5ede33cccda2e97f3b5de81337450ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:20 +0000
Subject: [PATCH 076/257] fix: Points.remove_nans failed on points without
 values

---
 IMTreatment/core/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index f579635..ea1c17e 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1299,7 +1299,8 @@ class Points(object):
         # get indices to remove
         inds = np.logical_or(np.isnan(tmp_pts.xy[:, 0]),
                              np.isnan(tmp_pts.xy[:, 1]))
-        inds = np.logical_or(inds, np.isnan(tmp_pts.v))
+        if len(tmp_pts.v) != 0:
+            inds = np.logical_or(inds, np.isnan(tmp_pts.v))
         # remove
         for ind in np.where(inds)[0][::-1]:
             tmp_pts.remove(ind)
-- 
2.43.0


From 4c726e8c207596b9eca323be8d8cec3e5675c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:35 +0000
Subject: [PATCH 077/257] fix: Points.get_evolution_on_sf always failed
 (Profile imported too late)

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index ea1c17e..6f7a88d 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -731,10 +731,10 @@ class Points(object):
         """
         # check parameters
         from .scalarfield import ScalarField
+        from .profile import Profile
         if not isinstance(SF, ScalarField):
             raise TypeError()
         if len(self.xy) == 0:
-            from .profile import Profile
             return Profile()
         if axe_x is None:
             if len(self.v) == len(self.xy):
-- 
2.43.0


From a3bf38dd745ae22925f99c52f2c6a1a696802613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:50 +0000
Subject: [PATCH 078/257] fix: Points.reverse did not swap the units of the
 swapped axes

---
 IMTreatment/core/points.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 6f7a88d..a5a1892 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1192,6 +1192,8 @@ class Points(object):
         xy_tmp[:, 0] = tmp_pt.xy[:, 1]
         xy_tmp[:, 1] = tmp_pt.xy[:, 0]
         tmp_pt.xy = xy_tmp
+        tmp_pt.unit_x = self.unit_y
+        tmp_pt.unit_y = self.unit_x
         return tmp_pt
 
     def decompose(self):
-- 
2.43.0


From a1ed870ab8b1a2a1fe1f5dec5bcf78c14447e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:04 +0000
Subject: [PATCH 079/257] fix: Points.get_velocity gave a time unit to profiles
 along x or y

---
 IMTreatment/core/points.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index a5a1892..e7e53eb 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -695,21 +695,24 @@ class Points(object):
         # getting xaxis
         if xaxis == 'time':
             x_prof = times[:-1] + dt/2.
+            unit_xaxis = self.unit_v
         elif xaxis == 'x':
             x_prof = x[:-1] + dx/2.
+            unit_xaxis = self.unit_x
         elif xaxis == 'y':
             x_prof = y[:-1] + dy/2.
+            unit_xaxis = self.unit_y
         # returning profiles
         from .profile import Profile
         unit_Vx = self.unit_x/self.unit_v
         Vx *= unit_Vx.asNumber()
         unit_Vx /= unit_Vx.asNumber()
-        prof_x = Profile(x_prof, Vx, mask=False, unit_x=self.unit_v,
+        prof_x = Profile(x_prof, Vx, mask=False, unit_x=unit_xaxis,
                          unit_y=unit_Vx)
         unit_Vy = self.unit_y/self.unit_v
         Vy *= unit_Vy.asNumber()
         unit_Vy /= unit_Vy.asNumber()
-        prof_y = Profile(x_prof, Vy, mask=False, unit_x=self.unit_v,
+        prof_y = Profile(x_prof, Vy, mask=False, unit_x=unit_xaxis,
                          unit_y=unit_Vy)
         return prof_x, prof_y
 
-- 
2.43.0


From 8553beeb0d0b436dae145ecf1be38fb28ac1c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:20 +0000
Subject: [PATCH 080/257] fix: iterating on OrientedPoints always gave the
 first point

---
 IMTreatment/core/orientedpoints.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index ad292db..0e7cce3 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -77,9 +77,7 @@ class OrientedPoints(pts.Points):
         self.orientations = orientations
 
     def __iter__(self):
-        for i in np.arange(len(self.xy)):
-            pts_iter = pts.Points.__iter__(self)
-            pts_value = next(pts_iter)
+        for i, pts_value in enumerate(pts.Points.__iter__(self)):
             if type(pts_value) is tuple:
                 yield pts_value + (self.orientations[i],)
             else:
-- 
2.43.0


From f8b4fdae63a7edfc66506b82749ba33954e80788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:33 +0000
Subject: [PATCH 081/257] fix: sorting, cutting, rotating or reversing
 OrientedPoints left the orientations behind

---
 IMTreatment/core/orientedpoints.py | 45 ++++++++++++++++++++++++++++++
 IMTreatment/core/points.py         | 27 ++++++++++--------
 2 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 0e7cce3..b2545ed 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -315,6 +315,51 @@ class OrientedPoints(pts.Points):
         if not inplace:
             return tmp_pts
 
+    def cut(self, intervx=None, intervy=None):
+        """
+        Return a point cloud where the given area has been removed
+        (see 'Points.cut').
+        """
+        inds = pts.Points(self.xy, np.arange(len(self.xy)))
+        inds = np.array(inds.cut(intervx=intervx, intervy=intervy).v,
+                        dtype=int)
+        tmp_pts = super(OrientedPoints, self).cut(intervx=intervx,
+                                                  intervy=intervy)
+        tmp_pts.orientations = self.orientations[inds]
+        return tmp_pts
+
+    def sort(self, ref='x', inplace=False):
+        """
+        Sort the points according to the reference (see 'Points.sort').
+        """
+        tmp_pts = self if inplace else self.copy()
+        orientations = tmp_pts.orientations
+        order = np.arange(len(self.xy))
+        if not isinstance(ref, STRINGTYPES) or ref in ['x', 'y', 'v']:
+            order = self._get_order(ref)
+        super(OrientedPoints, tmp_pts).sort(ref=ref, inplace=True)
+        tmp_pts.orientations = orientations[order]
+        if not inplace:
+            return tmp_pts
+
+    def rotate(self, angle, inplace=False):
+        """
+        Rotate the point set and its orientations (see 'Points.rotate').
+        """
+        tmp_pts = super(OrientedPoints, self).rotate(angle, inplace=inplace)
+        rot = np.array([[np.cos(angle), np.sin(angle)],
+                        [-np.sin(angle), np.cos(angle)]])
+        tmp_pts.orientations = np.dot(tmp_pts.orientations, rot)
+        return tmp_pts
+
+    def reverse(self):
+        """
+        Return an OrientedPoints object where x and y axis are swaped.
+        """
+        tmp_pts = super(OrientedPoints, self).reverse()
+        tmp_pts.orientations = tmp_pts.orientations[:, :, ::-1]
+        return tmp_pts
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e7e53eb..a727e6e 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1057,7 +1057,7 @@ class Points(object):
             Cutted version of the point cloud.
         """
         tmp_pts = self.copy()
-        mask = np.ones(len(self.xy))
+        mask = np.ones(len(self.xy), dtype=bool)
         if intervx is not None:
             out_zone = np.logical_and(self.xy[:, 0] > intervx[0],
                                       self.xy[:, 0] < intervx[1])
@@ -1238,16 +1238,7 @@ class Points(object):
         if not isinstance(inplace, bool):
             raise TypeError()
         # get order
-        if ref == 'x':
-            order = np.argsort(self.xy[:, 0])
-        elif ref == 'y':
-            order = np.argsort(self.xy[:, 1])
-        elif ref == 'v':
-            if len(self.v) == 0:
-                raise ValueError()
-            order = np.argsort(self.v)
-        else:
-            order = ref
+        order = self._get_order(ref)
         # reordering
         if inplace:
             tmp_pt = self
@@ -1260,6 +1251,20 @@ class Points(object):
         if not inplace:
             return tmp_pt
 
+    def _get_order(self, ref):
+        """
+        Return the indices sorting the points (see 'sort').
+        """
+        if not isinstance(ref, STRINGTYPES):
+            return np.array(ref, dtype=int)
+        elif ref == 'x':
+            return np.argsort(self.xy[:, 0])
+        elif ref == 'y':
+            return np.argsort(self.xy[:, 1])
+        elif len(self.v) == 0:
+            raise ValueError()
+        return np.argsort(self.v)
+
     def order_on_line(self, inplace=False):
         """
         Re-order the set of points to try to create a line.
-- 
2.43.0


From ba69b9698a57152d68a9bfbd0eaa084e06d98e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:53 +0000
Subject: [PATCH 082/257] fix: get_mean_field: use points having exactly
 'nmb_min' values

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 70227b7..61a3864 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -321,7 +321,7 @@ class TemporalFields(flds.Fields, fld.Field):
             added_field.fill(kind='value', value=0., inplace=True)
             result_f += added_field
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = mask_cum < max(nmb_min, 1)
         result_f.mask = mask
         result_f.change_dtype(dtype)
         fact = mask_cum
-- 
2.43.0


From 22ff08d27b658f8927a0f1223d56ec7fe121dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:06 +0000
Subject: [PATCH 083/257] fix: get_min_field: take only the valid values into
 account

---
 IMTreatment/core/temporalscalarfields.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 58d5275..958dae8 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -64,11 +64,12 @@ class TemporalScalarFields(tf.TemporalFields):
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_min_mask = np.logical_and(field.values < result_f.values,
-                                          np.logical_not(field.mask))
+            new_min_mask = np.logical_and(
+                np.logical_or(field.values < result_f.values, mask_cum == 0),
+                np.logical_not(field.mask))
             result_f.values[new_min_mask] = field.values[new_min_mask]
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = mask_cum < max(nmb_min, 1)
         result_f.mask = mask
         return result_f
 
-- 
2.43.0


From cd5e8f018312505fe300f52845d864a70a09494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:19 +0000
Subject: [PATCH 084/257] fix: get_max_field: take only the valid values into
 account

---
 IMTreatment/core/temporalscalarfields.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 958dae8..02b356d 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -89,11 +89,12 @@ class TemporalScalarFields(tf.TemporalFields):
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_max_mask = np.logical_and(field.values > result_f.values,
-                                          np.logical_not(field.mask))
+            new_max_mask = np.logical_and(
+                np.logical_or(field.values > result_f.values, mask_cum == 0),
+                np.logical_not(field.mask))
             result_f.values[new_max_mask] = field.values[new_max_mask]
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = mask_cum < max(nmb_min, 1)
         result_f.mask = mask
         return result_f
 
-- 
2.43.0


From e61109ab61296d2f3f5d319439c3a212090cf888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:33 +0000
Subject: [PATCH 085/257] fix: get_reynolds_stress: use points having exactly
 'nmb_val_min' values

---
 IMTreatment/core/temporalvectorfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index b10b825..e74360b 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -189,7 +189,7 @@ class TemporalVectorFields(tf.TemporalFields):
                         rs_xx[i, j] += u_p[n][i, j]**2
                         rs_xy[i, j] += u_p[n][i, j]*v_p[n][i, j]
                         nmb_val += 1
-                if nmb_val > nmb_val_min:
+                if nmb_val >= max(nmb_val_min, 1):
                     rs_xx[i, j] /= nmb_val
                     rs_yy[i, j] /= nmb_val
                     rs_xy[i, j] /= nmb_val
-- 
2.43.0


From 15025eee5d945f6ff972a054e27b2340635d57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:48 +0000
Subject: [PATCH 086/257] fix: get_interpolated_field: do not return the stored
 field itself

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 61a3864..5d2dcd8 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -340,7 +340,7 @@ class TemporalFields(flds.Fields, fld.Field):
         assert time <= self.times[-1]
         # if time is in self.times
         if np.any(self.times == time):
-            return self.fields[self.times == time][0]
+            return self.fields[self.times == time][0].copy()
         # else, get the surrounding fields
         ind_time = np.argwhere(self.times > time)[0][0]
         denom = self.times[ind_time] - self.times[ind_time - 1]
-- 
2.43.0


From ad318ed0cefb280fe2a493d4636c2ef153e152ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:04 +0000
Subject: [PATCH 087/257] fix: augment_temporal_resolution: keep the fields in
 an array

---
 IMTreatment/core/temporalfields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5d2dcd8..a286e5d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1285,9 +1285,9 @@ class TemporalFields(flds.Fields, fld.Field):
         new_times = np.array(new_times).flatten()
         new_times = np.append(new_times, tf.times[-1])
         # loop on new times
-        new_fields = []
-        for time in new_times:
-            new_fields.append(tf.get_interpolated_field(time))
+        new_fields = np.empty(len(new_times), dtype=object)
+        for i, time in enumerate(new_times):
+            new_fields[i] = tf.get_interpolated_field(time)
         # store
         tf.fields = new_fields
         tf.times = new_times
-- 
2.43.0


From f4705ad841d99b1474c5caa1375b0a767f458be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:20 +0000
Subject: [PATCH 088/257] fix: reduce_temporal_resolution: do not drop the last
 whole interval

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index a286e5d..3c4e03f 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1241,7 +1241,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 time /= nmb_in_interval
             tmp_TFS.add_field(tmp_f, time, self.unit_times)
             i += nmb_in_interval
-            if i + nmb_in_interval >= len(self):
+            if i + nmb_in_interval > len(self):
                 break
         # returning
         if inplace:
-- 
2.43.0


From 1bb8a717b7f5f191639547d2428f9f5094848f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:35 +0000
Subject: [PATCH 089/257] fix: reduce_temporal_resolution: honour 'inplace' for
 intervals of one field

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 3c4e03f..55f5d6b 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1221,7 +1221,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("'nmb_in_interval' must be a positive integer")
 
         if nmb_in_interval == 1:
-            return self.copy()
+            return None if inplace else self.copy()
         if nmb_in_interval >= len(self):
             raise ValueError("'nmb_in_interval' is too big")
         if not isinstance(mean, bool):
-- 
2.43.0


From 234b32c41440c7812a024ce877ac3a00c8644d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:49 +0000
Subject: [PATCH 090/257] fix: remove_weird_fields: do not look for neighbours
 out of the fields

---
 IMTreatment/core/temporalfields.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 55f5d6b..9ea260d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1471,15 +1471,17 @@ class TemporalFields(flds.Fields, fld.Field):
         if treatment == 'interpolate':
             # replace weird fields with interpolations
             for weird_ind in weird_inds:
-                eps = 1
-                while True:
-                    if (weird_ind + eps in weird_inds or
-                            weird_ind - eps in weird_inds):
-                        eps += 1
-                    else:
+                for eps in range(1, len(tmp_tf)):
+                    neighs = [ind for ind in [weird_ind + eps, weird_ind - eps]
+                              if 0 <= ind < len(tmp_tf)]
+                    if not any(ind in weird_inds for ind in neighs):
                         break
-                tmp_tf.fields[weird_ind] = (tmp_tf.fields[weird_ind + eps] +
-                                            tmp_tf.fields[weird_ind - eps])/2
+                else:
+                    raise ValueError("Not enough fields to interpolate")
+                new_field = tmp_tf.fields[neighs[0]].copy()
+                if len(neighs) == 2:
+                    new_field = (new_field + tmp_tf.fields[neighs[1]])/2
+                tmp_tf.fields[weird_ind] = new_field
         elif treatment == 'remove':
             tmp_tf.remove_fields(weird_inds)
         else:
-- 
2.43.0


From 6e0376cdeef8eb7867a5d18f173cbeed81d46c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:05 +0000
Subject: [PATCH 091/257] fix: remove_weird_fields: accept scalar fields

---
 IMTreatment/core/temporalfields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 9ea260d..05adc6b 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1461,7 +1461,11 @@ class TemporalFields(flds.Fields, fld.Field):
         # get weird fields indices
         mean_magn = []
         for field in tmp_tf.fields:
-            mean_magn.append(np.sum(field.magnitude[~field.mask]))
+            if self.field_type == vf.VectorField:
+                magnitude = field.magnitude
+            else:
+                magnitude = np.abs(field.values)
+            mean_magn.append(np.sum(magnitude[~field.mask]))
         mean = np.mean(mean_magn)
         mean_eps = np.std(mean_magn)*std_coef
         filt = np.logical_or(mean_magn < mean - mean_eps,
-- 
2.43.0


From e6db36ea81bce5a7df6d60b6b916c7a510b8723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:20 +0000
Subject: [PATCH 092/257] fix: get_time_profile: use the position of the point
 associated with each time

---
 IMTreatment/core/temporalfields.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 05adc6b..bbf7359 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -495,9 +495,12 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(pt, pts.Points):
             mask_times = [time not in pt.v for time in self.times]
             mask_times = np.array(mask_times, dtype=bool)
-            pt = [[self.get_indice_on_axe(1, pt.xy[i, 0], kind='nearest'),
-                   self.get_indice_on_axe(2, pt.xy[i, 1], kind='nearest')]
-                  for i in range(len(pt.xy))]
+            # position associated with each time
+            xys = [pt.xy[np.where(pt.v == time)[0][0]] if time in pt.v
+                   else pt.xy[0] for time in self.times]
+            pt = [[self.get_indice_on_axe(1, x, kind='nearest'),
+                   self.get_indice_on_axe(2, y, kind='nearest')]
+                  for x, y in xys]
             pt = np.array(pt, dtype=int)
         if wanted_times is not None:
             if wanted_times[-1] <= wanted_times[0]:
@@ -513,7 +516,7 @@ class TemporalFields(flds.Fields, fld.Field):
         compo = np.empty(dim, dtype=float)
         masks = np.empty(dim, dtype=float)
         for i, time_ind in enumerate(w_times_ind):
-            ind_x, ind_y = pt[i]
+            ind_x, ind_y = pt[time_ind]
             compo[i] = self.fields[time_ind].__getattribute__(component)[ind_x,
                                                                          ind_y]
             masks[i] = self.fields[time_ind].mask[ind_x, ind_y]
-- 
2.43.0


From 6f92a154117ef4636772c9451a50da42d10c87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:36 +0000
Subject: [PATCH 093/257] fix: inject_time_profile: accept Points objects

---
 IMTreatment/core/temporalfields.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bbf7359..ddb4a34 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -564,15 +564,21 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(pt, pts.Points):
             mask_times = [time not in pt.v for time in self.times]
             mask_times = np.array(mask_times, dtype=bool)
-            pt = [[self.get_indice_on_axe(1, pt.xy[i, 0], kind='nearest'),
-                   self.get_indice_on_axe(2, pt.xy[i, 1], kind='nearest')]
-                  for i in range(len(pt.xy))]
+            # position associated with each time
+            xys = [pt.xy[np.where(pt.v == time)[0][0]] if time in pt.v
+                   else pt.xy[0] for time in self.times]
+            pt = [[self.get_indice_on_axe(1, x, kind='nearest'),
+                   self.get_indice_on_axe(2, y, kind='nearest')]
+                  for x, y in xys]
             pt = np.array(pt, dtype=int)
-        if len(prof) != len(self):
+        w_times_ind = np.arange(len(self.times))[~mask_times]
+        if len(prof) != len(w_times_ind):
             raise ValueError()
         # do it
-        for i in range(len(prof)):
-            self.fields[i].__getattribute__(comp)[ind_x, ind_y] = prof.y[i]
+        for i, time_ind in enumerate(w_times_ind):
+            ind_x, ind_y = pt[time_ind]
+            self.fields[time_ind].__getattribute__(comp)[ind_x,
+                                                         ind_y] = prof.y[i]
 
     def get_temporal_spectrum(self, component, pt, ind=False,
                               wanted_times=None, welch_seglen=None,
-- 
2.43.0


From b4bfe3bb5fd9dde3c2aa1e04501963b9aa1ff40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:53 +0000
Subject: [PATCH 094/257] fix: get_spectrum_map: give the frequencies map a
 frequency unit

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index ddb4a34..2e2f48f 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -841,7 +841,7 @@ class TemporalFields(flds.Fields, fld.Field):
                                            mask=map_freq_mask,
                                            unit_x=self.unit_x,
                                            unit_y=self.unit_y,
-                                           unit_values=spec.unit_y)
+                                           unit_values=spec.unit_x)
             map_freq_quality_sf = sf.ScalarField()
             map_freq_quality_sf.import_from_arrays(axe_x=self.axe_x,
                                                    axe_y=self.axe_y,
-- 
2.43.0


From a946fc399677de63aa175163a42e8944216ddf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:07 +0000
Subject: [PATCH 095/257] fix: TemporalScalarFields.get_spectral_filtering: do
 not modify the original

---
 IMTreatment/core/temporalscalarfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 02b356d..e7338cc 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -313,8 +313,8 @@ class TemporalScalarFields(tf.TemporalFields):
         else:
             tsf = self.copy()
         # make spectral filtering on values
-        ftsf = self._get_comp_spectral_filtering('values', fmin=fmin,
-                                                 fmax=fmax, order=order)
+        ftsf = tsf._get_comp_spectral_filtering('values', fmin=fmin,
+                                                fmax=fmax, order=order)
         tsf.fields = ftsf.fields
         # return
         if not inplace:
-- 
2.43.0


From 8e0cb0987529a18438ebefc1adaaadb8d798a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:21 +0000
Subject: [PATCH 096/257] fix: get_phase_map: do not transpose the maps

---
 IMTreatment/core/temporalscalarfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index e7338cc..830f2b0 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -278,14 +278,14 @@ class TemporalScalarFields(tf.TemporalFields):
         norm = sf.ScalarField()
         norm.import_from_arrays(axe_x=self.axe_x,
                                 axe_y=self.axe_y,
-                                values=norms.transpose(),
+                                values=norms,
                                 unit_x=self.unit_x,
                                 unit_y=self.unit_y,
                                 unit_values="")
         phase = sf.ScalarField()
         phase.import_from_arrays(axe_x=self.axe_x,
                                  axe_y=self.axe_y,
-                                 values=phases.transpose(),
+                                 values=phases,
                                  unit_x=self.unit_x,
                                  unit_y=self.unit_y,
                                  unit_values="rad")
-- 
2.43.0


From 9706e26c03f26ab0aa00bd69cff3d6e8a4e16a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:34 +0000
Subject: [PATCH 097/257] fix: get_phase_map: read 'tf' as an indice, as
 documented

---
 IMTreatment/core/temporalscalarfields.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 830f2b0..bc03783 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -232,7 +232,8 @@ class TemporalScalarFields(tf.TemporalFields):
         norms = np.zeros(self.shape, dtype=float)
         compo = "values"
         if tf is None:
-            tf = len(self.fields)
+            tf = len(self.fields) - 1
+        wanted_times = [self.times[0], self.times[tf]]
         # select spectrum to display
         if check_spec is not None:
             check_spec_inds = np.random.choice(range(self.shape[0] *
@@ -249,7 +250,7 @@ class TemporalScalarFields(tf.TemporalFields):
                     pg.print_progress()
                 # get profile
                 profile = self.get_time_profile(compo, (x, y),
-                                                wanted_times=[0, tf])
+                                                wanted_times=wanted_times)
                 prof = profile.y
                 dx = profile.x[1] - profile.x[0]
                 # get fft
-- 
2.43.0


From 4b01c50c59d2025e3b621246c268432cf9e26dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:48 +0000
Subject: [PATCH 098/257] fix: get_background: do not discard all the values of
 a constant pixel

---
 IMTreatment/core/temporalscalarfields.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index bc03783..c0761d5 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -134,8 +134,11 @@ class TemporalScalarFields(tf.TemporalFields):
             old_std = 0
             mean = np.mean(vals, dtype=float)
             while True:
-                vals = vals[np.logical_and(vals > mean - std,
-                                           vals < mean + std)]
+                new_vals = vals[np.logical_and(vals >= mean - std,
+                                               vals <= mean + std)]
+                if len(new_vals) == 0:
+                    break
+                vals = new_vals
                 old_std = std
                 std = np.std(vals)
                 mean = np.mean(vals)
-- 
2.43.0


From fc6b8036cad4a2da1d3783e31f664e61256854d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:02 +0000
Subject: [PATCH 099/257] fix: get_background: keep the values unit

---
 IMTreatment/core/temporalscalarfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index c0761d5..f533068 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -152,7 +152,8 @@ class TemporalScalarFields(tf.TemporalFields):
                               axe_y=self.axe_y,
                               values=values,
                               unit_x=self.unit_x,
-                              unit_y=self.unit_y)
+                              unit_y=self.unit_y,
+                              unit_values=self.unit_values)
         return bg
 
     def substract_background(self, bg, noise_level=10,
-- 
2.43.0


From 8e494c15339145f463af81928487da46cb13fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:17 +0000
Subject: [PATCH 100/257] fix: TemporalFields addition: do not pair the fields
 of different times units

---
 IMTreatment/core/temporalfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 2e2f48f..8eb6afb 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -63,7 +63,8 @@ class TemporalFields(flds.Fields, fld.Field):
             return tmp_TF
         elif isinstance(other, self.__class__):
             tmp_tf = self.copy()
-            if np.all(self.times == other.times):
+            if (np.array_equal(self.times, other.times) and
+                    same_units(self.unit_times, other.unit_times)):
                 for i in np.arange(len(self.fields)):
                     tmp_tf.fields[i] += other.fields[i]
             else:
-- 
2.43.0


From 7becf0f80a01d354acb127000e21d1cf33b8c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:55 +0000
Subject: [PATCH 101/257] fix: points densities failed for axes in different
 units

---
 IMTreatment/core/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index a727e6e..07a8740 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -406,7 +406,8 @@ class Points(object):
             unit_values = make_unit('')
         elif output_format == "concentration":
             unit_values = 1/self.unit_x/self.unit_y
-            values = values*len(self.xy)
+            values = values*len(self.xy)*unit_values.asNumber()
+            unit_values /= unit_values.asNumber()
         else:
             raise ValueError()
         # return
@@ -526,6 +527,8 @@ class Points(object):
                 unit_values = self.unit_v/self.unit_x/self.unit_y
             else:
                 unit_values = 1/self.unit_x/self.unit_y
+            values = values*unit_values.asNumber()
+            unit_values = unit_values/unit_values.asNumber()
             sf.import_from_arrays(axe_x, axe_y, values, mask=False,
                                   unit_x=self.unit_x, unit_y=self.unit_y,
                                   unit_values=unit_values)
-- 
2.43.0


From f88997c615455a45b4bebc67427a46e7b4cc5f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:14 +0000
Subject: [PATCH 102/257] fix: get_min_field, get_max_field: unmask the points
 valid in later fields

---
 IMTreatment/core/temporalscalarfields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index f533068..8b86187 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -67,6 +67,7 @@ class TemporalScalarFields(tf.TemporalFields):
             new_min_mask = np.logical_and(
                 np.logical_or(field.values < result_f.values, mask_cum == 0),
                 np.logical_not(field.mask))
+            result_f.mask[new_min_mask] = False
             result_f.values[new_min_mask] = field.values[new_min_mask]
             mask_cum[np.logical_not(field.mask)] += 1
         mask = mask_cum < max(nmb_min, 1)
@@ -92,6 +93,7 @@ class TemporalScalarFields(tf.TemporalFields):
             new_max_mask = np.logical_and(
                 np.logical_or(field.values > result_f.values, mask_cum == 0),
                 np.logical_not(field.mask))
+            result_f.mask[new_max_mask] = False
             result_f.values[new_max_mask] = field.values[new_max_mask]
             mask_cum[np.logical_not(field.mask)] += 1
         mask = mask_cum < max(nmb_min, 1)
-- 
2.43.0


From 7805602ca1a9471cefb7108322097e485ac67cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:23 +0000
Subject: [PATCH 103/257] fix: get_spectrum_map: find the maximum on the
 spectrum points

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 8eb6afb..e4dc825 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -822,8 +822,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 # get maximale frequences
                 for n in range(nmb_pic):
                     spec_max = spec.max
-                    max_pos_ind = spec.get_value_position(spec_max,
-                                                          ind=True)[0]
+                    max_pos_ind = np.where(
+                        np.logical_and(spec.y == spec_max, ~spec.mask))[0][0]
                     map_freq[n][i, j] = spec.x[max_pos_ind]
                     # get spectrum 'quality'
                     filt = np.logical_not(spec.mask)
-- 
2.43.0


From 5335a67e91c89e898cba20a59744dac690d84f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:30 +0000
Subject: [PATCH 104/257] fix: spatial spectra could not be computed on
 temporal scalar fields

---
 IMTreatment/core/scalarfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 99f79a3..9766719 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -347,6 +347,10 @@ class ScalarField(fld.Field):
     def values(self):
         raise Exception("Nope, can't do that")
 
+    @property
+    def values_as_sf(self):
+        return self.copy()
+
     @property
     def mask(self):
         return self.__mask
-- 
2.43.0


From f754510eee269775851aac59d46aa2a959f96e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:45 +0000
Subject: [PATCH 105/257] fix: unknown component names gave an unrelated
 TypeError

---
 IMTreatment/core/temporalfields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index e4dc825..d160ff3 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -415,7 +415,7 @@ class TemporalFields(flds.Fields, fld.Field):
         # check parameters
         try:
             self[0].__getattribute__('{}_as_sf'.format(component))
-        except AttributeError():
+        except AttributeError:
             raise ValueError()
         if not isinstance(direction, STRINGTYPES):
             raise TypeError()
@@ -790,7 +790,7 @@ class TemporalFields(flds.Fields, fld.Field):
         # check
         try:
             self.fields[0].__getattribute__(comp)
-        except AttributeError():
+        except AttributeError:
             raise ValueError()
         # prepare
         map_freq = []
@@ -878,7 +878,7 @@ class TemporalFields(flds.Fields, fld.Field):
         # check
         try:
             tf = self.__getattribute__("{}_as_sf".format(comp))
-        except AttributeError():
+        except AttributeError:
             raise ValueError()
         # loop on space
         xys = [[x, y]
-- 
2.43.0


From 69314701e07eb466608acfbb2b2d499122b548c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:36 +0000
Subject: [PATCH 106/257] fix: TemporalPoints.add_pts stores its own copy of
 the points

---
 IMTreatment/core/temporalpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 34f8371..24ca9b1 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -221,7 +221,7 @@ class TemporalPoints(object):
             time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
-        self.point_sets.append(pt)
+        self.point_sets.append(pt.copy())
         # sorting the field with time
         self.__sort_field_by_time()
 
-- 
2.43.0


From 73394e34e9920b52f70eca16390f51246402e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:51 +0000
Subject: [PATCH 107/257] fix: TemporalPoints.scale works with a part of the
 scales and updates units and order

---
 IMTreatment/core/temporalpoints.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 24ca9b1..0b05b27 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -131,11 +131,17 @@ class TemporalPoints(object):
             tmp_ps = self
         else:
             tmp_ps = self.copy()
+        scalex = 1. if scalex is None else scalex
+        scaley = 1. if scaley is None else scaley
+        scalev = 1. if scalev is None else scalev
         for i in range(len(self.point_sets)):
             tmp_ps.point_sets[i].scale(scalex=scalex,
                                        scaley=scaley,
                                        scalev=scalev,
                                        inplace=True)
+        if len(tmp_ps.point_sets) != 0:
+            tmp_ps.__unit_x = tmp_ps.point_sets[0].unit_x
+            tmp_ps.__unit_y = tmp_ps.point_sets[0].unit_y
         # scale the time
         if scalet is None:
             pass
@@ -149,6 +155,7 @@ class TemporalPoints(object):
             tmp_ps.times *= fact
         else:
             raise TypeError()
+        tmp_ps.__sort_field_by_time()
         # returning
         return tmp_ps
 
-- 
2.43.0


From e839be10512fba7e656871a3f92e3c6044a5e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:05 +0000
Subject: [PATCH 108/257] fix: TemporalPoints.change_unit accepts 'values' and
 updates the common units

---
 IMTreatment/core/temporalpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 0b05b27..274fb82 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -181,7 +181,10 @@ class TemporalPoints(object):
             raise TypeError()
         if axe in ['x', 'y', 'values']:
             for pt in self.point_sets:
-                pt.change_unit(axe, new_unit)
+                pt.change_unit('v' if axe == 'values' else axe, new_unit)
+            if len(self.point_sets) != 0:
+                self.__unit_x = self.point_sets[0].unit_x
+                self.__unit_y = self.point_sets[0].unit_y
         elif axe == 'time':
             old_unit = self.unit_times
             new_unit = old_unit.asUnit(new_unit)
-- 
2.43.0


From c9d1400b65db68919469b9773bdde3f51ee9a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:21 +0000
Subject: [PATCH 109/257] fix: TemporalPoints.crop leaves the original
 untouched and accepts indices

---
 IMTreatment/core/temporalpoints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 274fb82..5abfafb 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -277,6 +277,8 @@ class TemporalPoints(object):
             intervt = np.array(intervt, dtype=float)
             if intervt.shape != (2, ):
                 raise ValueError()
+            if ind:
+                intervt = intervt.astype(int)
         # get wanted times
         if intervt is not None:
             if not ind:
@@ -303,7 +305,7 @@ class TemporalPoints(object):
             croppts.point_sets = croppts.point_sets[intervt[0]:intervt[1] + 1]
             croppts.times = croppts.times[intervt[0]:intervt[1] + 1]
         # spatial
-        for pt in self.point_sets:
+        for pt in croppts.point_sets:
             pt.crop(intervx=intervx, intervy=intervy, intervv=intervv,
                     inplace=True)
         # returning
-- 
2.43.0


From a35dbeee8493432dc491d6051a4f53674c7916d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:34 +0000
Subject: [PATCH 110/257] fix: SpatialFields.add_field leaves the given field
 untouched

---
 IMTreatment/core/spatialfields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 9a62c72..cafa9f5 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -154,6 +154,8 @@ class SpatialFields(flds.Fields):
         # check
         if not isinstance(field, self.fields_type):
             raise TypeError()
+        if copy:
+            field = field.copy()
         # first field
         if len(self.fields) == 0:
             self.unit_x = field.unit_x
@@ -170,7 +172,7 @@ class SpatialFields(flds.Fields):
         # crop fields
         field.crop_masked_border(hard=False, inplace=True)
         # add field
-        flds.Fields.add_field(self, field, copy=copy)
+        flds.Fields.add_field(self, field, copy=False)
 
     def get_value(self, x, y, unit=False, error=True):
         """
-- 
2.43.0


From e381b43b06741840f955305da4f431fe84f3f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:47 +0000
Subject: [PATCH 111/257] fix: empty SpatialScalarFields and
 SpatialVectorFields have units

---
 IMTreatment/core/spatialfields.py       | 1 +
 IMTreatment/core/spatialscalarfields.py | 2 +-
 IMTreatment/core/spatialvectorfields.py | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index cafa9f5..918d1fd 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -38,6 +38,7 @@ class SpatialFields(flds.Fields):
     """
 
     def __init__(self):
+        flds.Fields.__init__(self)
         self.unit_x = make_unit('')
         self.unit_y = make_unit('')
         self.unit_values = make_unit('')
diff --git a/IMTreatment/core/spatialscalarfields.py b/IMTreatment/core/spatialscalarfields.py
index 03f247d..e95ab93 100644
--- a/IMTreatment/core/spatialscalarfields.py
+++ b/IMTreatment/core/spatialscalarfields.py
@@ -30,7 +30,7 @@ from . import fields as flds
 class SpatialScalarFields(sfs.SpatialFields):
 
     def __init__(self):
-        flds.Fields.__init__(self)
+        sfs.SpatialFields.__init__(self)
         self.fields_type = sf.ScalarField
 
     @property
diff --git a/IMTreatment/core/spatialvectorfields.py b/IMTreatment/core/spatialvectorfields.py
index 11c8a1c..1a5428a 100644
--- a/IMTreatment/core/spatialvectorfields.py
+++ b/IMTreatment/core/spatialvectorfields.py
@@ -31,7 +31,7 @@ class SpatialVectorFields(SpatialFields):
     """
 
     def __init__(self):
-        Fields.__init__(self)
+        SpatialFields.__init__(self)
         self.fields_type = VectorField
 
     @property
-- 
2.43.0


From d1e5b4654e3564905e32b23c2e21494ee4d071d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:02 +0000
Subject: [PATCH 112/257] fix: division and power of SpatialFields

---
 IMTreatment/core/spatialfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 918d1fd..4e0b3db 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -64,7 +64,7 @@ class SpatialFields(flds.Fields):
 
     def __truediv__(self, other):
         if isinstance(other, (NUMBERTYPES, unum.Unum)):
-            final_vfs = self.__class__.__init__()
+            final_vfs = self.__class__()
             for field in self.fields:
                 final_vfs.add_field(field/other)
             return final_vfs
@@ -80,7 +80,7 @@ class SpatialFields(flds.Fields):
                             "on a Vectorfield")
         final_vfs = self.__class__()
         for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+            final_vfs.add_field(field**number)
         return final_vfs
 
     def __iter__(self):
-- 
2.43.0


From daabcdf32a3ef6606ee5bda9b2e8a01eada99977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:15 +0000
Subject: [PATCH 113/257] fix: iterating over SpatialFields gives the fields

---
 IMTreatment/core/spatialfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 4e0b3db..ecd4782 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -85,7 +85,7 @@ class SpatialFields(flds.Fields):
 
     def __iter__(self):
         for i in np.arange(len(self.fields)):
-            yield self.times[i], self.fields[i]
+            yield self.fields[i]
 
     @property
     def mask(self):
-- 
2.43.0


From 5d28901c97444ce24d6cf4afe29d1fec1b2cbb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:29 +0000
Subject: [PATCH 114/257] fix: SpatialFields.get_value includes the fields
 borders and returns the unit if asked

---
 IMTreatment/core/spatialfields.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index ecd4782..e5aa42f 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -192,8 +192,8 @@ class SpatialFields(flds.Fields):
         # get interesting fields
         inter_ind = []
         for i, field in enumerate(self.fields):
-            if (x > field.axe_x[0] and x < field.axe_x[-1] and
-                    y > field.axe_y[0] and y < field.axe_y[-1]):
+            if (x >= field.axe_x[0] and x <= field.axe_x[-1] and
+                    y >= field.axe_y[0] and y <= field.axe_y[-1]):
                 inter_ind.append(i)
         # get values (mean over fields if necessary)
         if len(inter_ind) == 0:
@@ -210,6 +210,8 @@ class SpatialFields(flds.Fields):
             for field in self.fields[inter_ind][1::]:
                 values += field.get_value(x, y, ind=False, unit=False)
             values /= len(inter_ind)
+        if unit:
+            values = values*self.unit_values
         return values
 
     def get_values_on_grid(self, axe_x, axe_y):
-- 
2.43.0


From 3d3aa7a53fcdfc130e6aa3a204905ffd5695812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:44 +0000
Subject: [PATCH 115/257] fix: SpatialFields.get_values_on_grid with scalar
 fields

---
 IMTreatment/core/spatialfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index e5aa42f..9f429d2 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -241,7 +241,7 @@ class SpatialFields(flds.Fields):
                         mask[i, j] = True
                     else:
                         values[i, j] = val
-            tmp_f = sf.ScalarField
+            tmp_f = sf.ScalarField()
             tmp_f.import_from_arrays(axe_x, axe_y, values, mask=mask,
                                      unit_x=self.unit_x, unit_y=self.unit_y,
                                      unit_values=self.unit_values)
-- 
2.43.0


From 2424a82f3545350f5b51571b7dc22190f6a3acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:57 +0000
Subject: [PATCH 116/257] fix: SpatialFields.get_profile

---
 IMTreatment/core/spatialfields.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 9f429d2..286a106 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -290,11 +290,10 @@ class SpatialFields(flds.Fields):
         if self.fields_type == vf.VectorField:
             if component is None:
                 component = 'magnitude'
-            else:
-                try:
-                    comp = self.__getattribute__("{}_as_sf".format(component))
-                except AttributeError:
-                    raise ValueError()
+            try:
+                comp = self.__getattribute__("{}_as_sf".format(component))
+            except AttributeError:
+                raise ValueError()
         elif self.fields_type == sf.ScalarField:
             if component is None:
                 component = "values"
@@ -304,32 +303,37 @@ class SpatialFields(flds.Fields):
                 raise ValueError()
         # get fields of interest
         inter_ind = []
+        pos = np.array(position)
         if direction == 1:
+            sf_direction = 'x'
             for i, field in enumerate(self.fields):
-                if np.any(position < field.axe_x[-1]) and \
-                   np.any(position > field.axe_x[0]):
+                if np.any(pos <= field.axe_x[-1]) and \
+                   np.any(pos >= field.axe_x[0]):
                     inter_ind.append(i)
         elif direction == 2:
+            sf_direction = 'y'
             for i, field in enumerate(self.fields):
-                if np.any(position < field.axe_y[-1]) and \
-                   np.any(position > field.axe_y[0]):
+                if np.any(pos <= field.axe_y[-1]) and \
+                   np.any(pos >= field.axe_y[0]):
                     inter_ind.append(i)
+        else:
+            raise ValueError("'direction' must be 1 or 2")
         # get profiles
         if len(inter_ind) == 0:
             return None
         elif len(inter_ind) == 1:
-            return comp[inter_ind[0]].get_profile(direction=direction,
+            return comp[inter_ind[0]].get_profile(direction=sf_direction,
                                                   position=position,
-                                                  ind=False)[0]
+                                                  ind=False)
         else:
             # get profiles
             x = np.array([])
             y = np.array([])
             for ind in inter_ind:
                 tmp_comp = comp[ind]
-                tmp_prof = tmp_comp.get_profile(direction=direction,
+                tmp_prof = tmp_comp.get_profile(direction=sf_direction,
                                                 position=position,
-                                                ind=False)[0]
+                                                ind=False)
                 x = np.concatenate((x, tmp_prof.x))
                 y = np.concatenate((y, tmp_prof.y))
             # recreate profile object
-- 
2.43.0


From b5287a18b12b29bda91c1854a4fdfd81c6ff1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:11 +0000
Subject: [PATCH 117/257] fix: make_unit evaluates unit expressions only

---
 IMTreatment/utils/units.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index ed46d46..2aaf16b 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -21,6 +21,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 
+import ast
 import numpy as np
 import re
 import unum
@@ -57,20 +58,24 @@ def make_unit(string):
     """
     if string == "":
         return unum.Unum({})
-    # Safe check
-    forbidden = ['import', '=', '\n', ';', ':', '"', "'", "open"]
-    forbidden += [key for key in globals().keys()]
-    for f in forbidden:
-        if f in string:
-            raise Exception("Unauthorized string: {}".format(f))
-    if re.match("[a-zA-Z]+\(.*\)", string):
-        raise Exception("No call allowed here")
     # Replace '^' by '**'
-    string = string.replace('^', '**')
-    # exec
-    env = {}
-    exec("from unum.units import *;res = {}".format(string), env)
-    return env['res']
+    tree = ast.parse(string.replace('^', '**').strip(), mode='eval')
+    # Safe check (only units, numbers and arithmetic are allowed)
+    allowed = (ast.Expression, ast.BinOp, ast.UnaryOp, ast.Mult, ast.Div,
+               ast.Pow, ast.Add, ast.Sub, ast.UAdd, ast.USub, ast.Load)
+    env = {'__builtins__': {}}
+    for node in ast.walk(tree):
+        if isinstance(node, ast.Name):
+            unit = getattr(units, node.id, None)
+            if not isinstance(unit, unum.Unum):
+                raise ValueError("Unknown unit: {}".format(node.id))
+            env[node.id] = unit
+        elif isinstance(node, ast.Constant):
+            if not isinstance(node.value, NUMBERTYPES):
+                raise ValueError("Unauthorized value: {}".format(node.value))
+        elif not isinstance(node, allowed):
+            raise ValueError("Unauthorized expression: {}".format(string))
+    return eval(compile(tree, '<unit>', 'eval'), env)
 
 
 def same_units(unit1, unit2):
-- 
2.43.0


From d46f8374d90f002acc405c6c5987898f76465fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:58 +0000
Subject: [PATCH 118/257] fix: SpatialFields.add_field does not convert fields
 already in the right unit

---
 IMTreatment/core/spatialfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 286a106..52469b4 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -167,7 +167,8 @@ class SpatialFields(flds.Fields):
             try:
                 field.change_unit('x', self.unit_x)
                 field.change_unit('y', self.unit_y)
-                field.change_unit('values', self.unit_values)
+                if field.unit_values != self.unit_values:
+                    field.change_unit('values', self.unit_values)
             except unum.IncompatibleUnitsError:
                 raise ValueError("Inconsistent unit system")
         # crop fields
-- 
2.43.0


From a1ced1326dd045149c4126447a609a47eb26688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:11 +0000
Subject: [PATCH 119/257] fix: find_file_in_path: folders without files
 inherited the result of the previous folder

---
 IMTreatment/file_operation/file_operation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7c55a1e..500c359 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -137,6 +137,7 @@ def find_file_in_path(regs, dirpath, ask=False):
     dir_paths = []
     # recursive loop on folders
     for root, dirs, files in os.walk(dirpath):
+        match = False
         for f in files:
             match = np.any([re.match(reg, f) for reg in regs])
             if match:
-- 
2.43.0


From 86b46ddb7a26a42ca9c585ce09767abb3dfa097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:24 +0000
Subject: [PATCH 120/257] fix: imts_to_imt: concatenate the files in the order
 of their names

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 500c359..eceaf6e 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -386,7 +386,7 @@ def imts_to_imt(imts_path, imt_path, kind):
     if not isinstance(kind, STRINGTYPES):
         raise TypeError()
     # getting paths
-    paths = glob(imts_path + "/*")
+    paths = sorted(glob(imts_path + "/*"))
     # getting data type
     if kind == 'TSF':
         imts_type = 'SF'
-- 
2.43.0


From 0a94640c545629a4b8db53e7ddc2985eaef55fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:37 +0000
Subject: [PATCH 121/257] fix: matlab export and import of compound units,
 single points and units of points values

---
 IMTreatment/file_operation/file_operation.py | 54 ++++++++++++--------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index eceaf6e..5327ab1 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -161,6 +161,20 @@ def find_file_in_path(regs, dirpath, ask=False):
     return dir_paths
 
 
+def _unit_to_str(unit):
+    """
+    Return a string representing the unit that 'make_unit' can read.
+    """
+    powers = sorted(unit._unit.items())
+    num = [n if p == 1 else "{}**{}".format(n, p)
+           for n, p in powers if p > 0]
+    den = ["/" + (n if p == -1 else "{}**{}".format(n, -p))
+           for n, p in powers if p < 0]
+    if len(num) == 0 and len(den) != 0:
+        num = ["1"]
+    return "*".join(num) + "".join(den)
+
+
 def matlab_parser(obj, name):
     classic_types = (int, float, str, bool)
     array_types = (list, float)
@@ -184,17 +198,17 @@ def matlab_parser(obj, name):
         xy = [list(comp) for comp in xy]
         dic = matlab_parser(list(obj.v), 'v')
         dic.update(matlab_parser(xy, 'xy'))
-        dic.update(matlab_parser(obj.unit_x.strUnit()[1:-1], 'unit_x'))
-        dic.update(matlab_parser(obj.unit_y.strUnit()[1:-1], 'unit_y'))
-        dic.update(matlab_parser(obj.unit_v.strUnit()[1:-1], 'unit_v'))
+        dic.update(matlab_parser(_unit_to_str(obj.unit_x), 'unit_x'))
+        dic.update(matlab_parser(_unit_to_str(obj.unit_y), 'unit_y'))
+        dic.update(matlab_parser(_unit_to_str(obj.unit_v), 'unit_v'))
         return {name: dic}
     elif isinstance(obj, Profile):
         mask = [int(val) for val in obj.mask]
         dic = matlab_parser(list(obj.x), 'x')
         dic.update(matlab_parser(list(obj.y), 'y'))
         dic.update(matlab_parser(mask, 'mask'))
-        dic.update(matlab_parser(obj.unit_x.strUnit()[1:-1], 'unit_x'))
-        dic.update(matlab_parser(obj.unit_y.strUnit()[1:-1], 'unit_y'))
+        dic.update(matlab_parser(_unit_to_str(obj.unit_x), 'unit_x'))
+        dic.update(matlab_parser(_unit_to_str(obj.unit_y), 'unit_y'))
         return {name: dic}
     elif isinstance(obj, VectorField):
         x = obj.axe_x
@@ -215,9 +229,9 @@ def matlab_parser(obj, name):
         dic.update(matlab_parser(comp_x, 'comp_x'))
         dic.update(matlab_parser(comp_y, 'comp_y'))
         dic.update(matlab_parser(mask, 'mask'))
-        dic.update(matlab_parser(obj.unit_x.strUnit()[1:-1], 'unit_x'))
-        dic.update(matlab_parser(obj.unit_y.strUnit()[1:-1], 'unit_y'))
-        dic.update(matlab_parser(obj.unit_values.strUnit()[1:-1],
+        dic.update(matlab_parser(_unit_to_str(obj.unit_x), 'unit_x'))
+        dic.update(matlab_parser(_unit_to_str(obj.unit_y), 'unit_y'))
+        dic.update(matlab_parser(_unit_to_str(obj.unit_values),
                                  'unit_values'))
         return {name: dic}
     elif isinstance(obj, ScalarField):
@@ -236,9 +250,9 @@ def matlab_parser(obj, name):
         dic.update(matlab_parser(list(Y), 'Y'))
         dic.update(matlab_parser(values, 'values'))
         dic.update(matlab_parser(mask, 'mask'))
-        dic.update(matlab_parser(obj.unit_x.strUnit()[1:-1], 'unit_x'))
-        dic.update(matlab_parser(obj.unit_y.strUnit()[1:-1], 'unit_y'))
-        dic.update(matlab_parser(obj.unit_values.strUnit()[1:-1],
+        dic.update(matlab_parser(_unit_to_str(obj.unit_x), 'unit_x'))
+        dic.update(matlab_parser(_unit_to_str(obj.unit_y), 'unit_y'))
+        dic.update(matlab_parser(_unit_to_str(obj.unit_values),
                                  'unit_values'))
         return {name: dic}
     elif isinstance(obj, CritPoints):
@@ -505,25 +519,23 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
     for key, entry in kwargs.items():
         if entry in keys:
             tdata = data[entry]
-            while not isinstance(tdata, str) and len(tdata) == 1:
+            while not isinstance(tdata, str) and np.ndim(tdata) > 0 \
+                    and len(tdata) == 1:
                 tdata = tdata[0]
-            print(tdata)
-            if key in ['unit_x', 'unit_y', 'unit_values']:
+            if key in ['unit_x', 'unit_y', 'unit_values', 'unit_v']:
                 if isinstance(tdata, str):
                     build_dic[key] = tdata
                 else:
                     build_dic[key] = ''.join(chr(n) for n in tdata)
+            elif key in ['axe_x', 'axe_y', 'x', 'y', 'v'] or \
+                    (key == 'mask' and obj == 'Profile'):
+                build_dic[key] = np.array(tdata).flatten()
+            elif key == 'xy':
+                build_dic[key] = np.array(tdata).reshape(-1, 2)
             else:
                 build_dic[key] = np.array(tdata)
     if is_h5py and dataf is not None:
         dataf.close()
-    # Fix unities
-    for key, item in build_dic.items():
-        try:
-            if len(item) == 1:
-                build_dic[key] = build_dic[key][0]
-        except TypeError:
-            pass
     # Fill the object
     if obj in ['ScalarField', 'VectorField']:
         ress = res()
-- 
2.43.0


From 28e6a8a7eadcb5cf4dd238118faa679ef1b9262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:52 +0000
Subject: [PATCH 122/257] fix: vtk export: write the values in the order of the
 vtk points

---
 IMTreatment/file_operation/file_operation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 5327ab1..8b9a84d 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -675,7 +675,9 @@ def __export_sf_to_vtk(obj, filepath, axis=None):
         raise ValueError("'axis' strings must be 'x', 'y' or 'z'")
     if axis[0] == axis[1]:
         raise ValueError("'axis' strings must be different")
-    V = obj.values.flatten()
+    # (vtk order: first axis is the fastest)
+    order = 'F' if axis[0] < axis[1] else 'C'
+    V = obj.values.flatten(order)
     x = obj.axe_x
     y = obj.axe_y
     point_data = pyvtk.PointData(pyvtk.Scalars(V, 'Scalar Field'))
@@ -728,8 +730,10 @@ def __export_vf_to_vtk(obj, filepath, axis=None):
     if axis[0] == axis[1]:
         raise ValueError("'axis' strings must be different")
     Vx, Vy = obj.comp_x, obj.comp_y
-    Vx = Vx.flatten()
-    Vy = Vy.flatten()
+    # (vtk order: first axis is the fastest)
+    order = 'F' if axis[0] < axis[1] else 'C'
+    Vx = Vx.flatten(order)
+    Vy = Vy.flatten(order)
     x, y = obj.axe_x, obj.axe_y
     x_vtk = 0.
     y_vtk = 0.
-- 
2.43.0


From 3d89ade3cb6543831862254f6686ed30c264eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:04 +0000
Subject: [PATCH 123/257] fix: vtk export of points: use the given axis, values
 are optional, link all the points

---
 IMTreatment/file_operation/file_operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 8b9a84d..6fe897b 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -573,7 +573,7 @@ def export_to_vtk(obj, filepath, axis=None, **kw):
     elif isinstance(obj, VectorField):
         __export_vf_to_vtk(obj, filepath, axis)
     elif isinstance(obj, Points):
-        __export_pts_to_vtk(obj, filepath, **kw)
+        __export_pts_to_vtk(obj, filepath, axis, **kw)
     else:
         raise TypeError("Cannot (yet) export this kind of object to vtk")
 
@@ -619,7 +619,7 @@ def __export_pts_to_vtk(pts, filepath, axis=None, line=False):
     v = pts.v
     x = pts.xy[:, 0]
     y = pts.xy[:, 1]
-    if v is None:
+    if v is None or len(v) == 0:
         v = np.zeros(pts.xy.shape[0])
     point_data = pyvtk.PointData(pyvtk.Scalars(v, 'Points values'))
     x_vtk = np.zeros(pts.xy.shape[0])
@@ -640,7 +640,7 @@ def __export_pts_to_vtk(pts, filepath, axis=None, line=False):
     pts = list(zip(x_vtk, y_vtk, z_vtk))
     vertex = np.arange(x_vtk.shape[0])
     if line:
-        grid = pyvtk.UnstructuredGrid(pts, line=vertex)
+        grid = pyvtk.UnstructuredGrid(pts, poly_line=vertex)
     else:
         grid = pyvtk.UnstructuredGrid(pts, vertex=vertex)
     data = pyvtk.VtkData(grid, 'Scalar Field from python', point_data)
-- 
2.43.0


From c062b9c5af641f8f07f4bcee5f7e88edfb7de5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:18 +0000
Subject: [PATCH 124/257] fix: picture export: new files could not be created,
 lists were exported transposed

---
 IMTreatment/file_operation/file_operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 6fe897b..577b6b4 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1502,7 +1502,7 @@ def export_to_picture(SF, filepath):
     filepath : string
         Path to the picture file.
     """
-    filepath = check_path(filepath)
+    filepath = check_path(filepath, newfile=True)
     values = SF.values[:, ::-1].transpose()
     imageio.imwrite(filepath, values)
 
@@ -1525,7 +1525,7 @@ def export_to_pictures(SFs, filepath):
     values = []
     if isinstance(SFs, ARRAYTYPES):
         for i in np.arange(len(SFs)):
-            values.append(SFs[i].values)
+            values.append(SFs[i].values[:, ::-1].transpose())
     elif isinstance(SFs, (SpatialScalarFields, TemporalScalarFields)):
         for i in np.arange(len(SFs.fields)):
             values.append(SFs.fields[i].values[:, ::-1].transpose())
-- 
2.43.0


From 6ad88ad6dc6d704a646dbb18c6a7af007b23ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:30 +0000
Subject: [PATCH 125/257] fix: import_from_pictures changed the given interval

---
 IMTreatment/file_operation/file_operation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 577b6b4..429649f 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1375,10 +1375,8 @@ def import_from_pictures(filepath, axe_x=None, axe_y=None, unit_x='',
     else:
         if fieldnumbers[0] < 0:
             raise ValueError()
-        if fieldnumbers[1] > len(paths):
-            fieldnumbers[1] = len(paths)
         start = fieldnumbers[0]
-        end = fieldnumbers[1]
+        end = min(fieldnumbers[1], len(paths))
     if verbose:
         pg = ProgressCounter(init_mess="Importing pictures",
                              nmb_max=int((end - start + 1)/incr),
-- 
2.43.0


From 9c97381e46e5688c954e6ab528f12c734bc22005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:43 +0000
Subject: [PATCH 126/257] fix: import_sf_from_ascii: put each value at its
 place whatever the order of the lines

---
 IMTreatment/file_operation/file_operation.py | 36 +++-----------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 429649f..d572aa2 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1708,38 +1708,10 @@ def import_sf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     y_org = np.sort(np.unique(y))
     vx = data[:, vx_col-1]
 
-    # check if structured or not
-    X1 = x.reshape(len(x_org), len(y_org))
-    X2 = x.reshape(len(y_org), len(x_org))
-    if np.allclose(np.mean(X1, axis=1), x_org):
-        vx_org = vx.reshape(len(x_org), len(y_org))
-        mask = np.isnan(vx_org)
-    elif np.allclose(np.mean(X2, axis=0), x_org):
-        vx_org = vx.reshape(len(y_org), len(x_org)).transpose()
-        vx_org = np.fliplr(vx_org)
-        mask = np.isnan(vx_org)
-    else:
-        # Masking all the initial fields (to handle missing values)
-        vx_org = np.zeros((y_org.shape[0], x_org.shape[0]))
-        vx_org_mask = np.ones(vx_org.shape)
-        vx_org = np.ma.masked_array(vx_org, vx_org_mask)
-        #loop on all 'v' values
-        x_ind = 0
-        y_ind = 0
-        for i in np.arange(vx.shape[0]):
-            x_tmp = x[i]
-            y_tmp = y[i]
-            vx_tmp = vx[i]
-            #find x index
-            if x_org[x_ind] != x_tmp:
-                x_ind = np.where(x_tmp == x_org)[0][0]
-            #find y index
-            if y_org[y_ind] != y_tmp:
-                y_ind = np.where(y_tmp == y_org)[0][0]
-            #put the value at its place
-            vx_org[y_ind, x_ind] = vx_tmp
-        # Treating 'nan' values
-        mask = np.logical_or(vx_org.mask, np.isnan(vx_org.data))
+    # put the values at their places (missing values are masked)
+    vx_org = np.full((len(x_org), len(y_org)), np.nan)
+    vx_org[np.searchsorted(x_org, x), np.searchsorted(y_org, y)] = vx
+    mask = np.isnan(vx_org)
 
     #store field in attributes
     tmpsf = ScalarField()
-- 
2.43.0


From dc7b315b62437be2b300cbab8b25fca5f4037867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:58 +0000
Subject: [PATCH 127/257] fix: ascii import of a single point

---
 IMTreatment/file_operation/file_operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index d572aa2..ca836cf 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1611,7 +1611,7 @@ def import_profile_from_ascii(filepath, x_col=1, y_col=2,
         if 'names' in kwargs:
             kwargs.pop('names')
         # extract data from file
-        data = np.genfromtxt(filepath, **kwargs)
+        data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
         # get axes
         x = data[:, x_col-1]
         y = data[:, y_col-1]
@@ -1654,7 +1654,7 @@ def import_pts_from_ascii(filepath, x_col=1, y_col=2, v_col=None,
         if 'names' in kwargs:
             kwargs.pop('names')
         # extract data from file
-        data = np.genfromtxt(filepath, **kwargs)
+        data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
         # get axes
         x = data[:, x_col-1]
         y = data[:, y_col-1]
-- 
2.43.0


From 302792efba82005ab9f8665f252e3db48fee6476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:12 +0000
Subject: [PATCH 128/257] fix: import_vf_from_ascii: mask the points where any
 component is missing

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index ca836cf..badb8ab 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1799,7 +1799,7 @@ def import_vf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     #store field in attributes
     tmpvf = VectorField()
     tmpvf.import_from_arrays(x_org, y_org, vx_org, vy_org,
-                             mask=vx_org.mask,
+                             mask=np.logical_or(vx_org.mask, vy_org.mask),
                              unit_x=unit_x, unit_y=unit_y,
                              unit_values=unit_values)
     return tmpvf
-- 
2.43.0


From 5ed1715da92c94a11719c4f6574f1ae3a978e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:24 +0000
Subject: [PATCH 129/257] fix: import_vfs_from_ascii

---
 IMTreatment/file_operation/file_operation.py | 23 ++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index badb8ab..52154ae 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1855,13 +1855,14 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
             raise ValueError("'interval' must be a 2x1 array")
         if interval[0] > interval[1]:
             interval = [interval[1], interval[0]]
-    filepath = check_path(filepath)
-    paths = glob.glob(filepath)
+    paths = sorted(glob(filepath))
+    if len(paths) == 0:
+        raise FileNotFoundError("No file matching '{}'".format(filepath))
     if interval is None:
         interval = [0, len(paths)-1]
-    if interval[0] < 0 or interval[1] > len(paths):
+    if interval[0] < 0 or interval[1] > len(paths) - 1:
         raise ValueError("'interval' is out of bounds")
-    if times == []:
+    if len(times) == 0:
         times = np.arange(len(paths))
     if len(paths) != len(times):
         raise ValueError("Not enough values in 'times'")
@@ -1873,15 +1874,15 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
     else:
         raise ValueError()
     for i in np.arange(interval[0], interval[1] + 1, incr):
-        path = paths[i]
-        if len(path) != ref_path_len:
+        if len(paths[i]) != ref_path_len:
             raise Warning("You should check your files names,"
                           "i may have taken them in the wrong order.")
-        tmp_vf = VectorField()
-        tmp_vf.import_from_ascii(path, x_col, y_col, vx_col, vy_col,
-                                 unit_x, unit_y, unit_values, times[i],
-                                 unit_time, **kwargs)
-        fields.add_field(tmp_vf)
+        tmp_vf = import_vf_from_ascii(paths[i], x_col, y_col, vx_col, vy_col,
+                                      unit_x, unit_y, unit_values, **kwargs)
+        if kind == 'TVF':
+            fields.add_field(tmp_vf, times[i], unit_time)
+        else:
+            fields.add_field(tmp_vf)
     return fields
 
 
-- 
2.43.0


From d89e039578626f951043a44df04fc54d9f95d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:38 +0000
Subject: [PATCH 130/257] fix: import of DaVis files: integer pictures, units
 in brackets, additional fields

---
 IMTreatment/file_operation/file_operation.py | 33 ++++++--------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 52154ae..1f4e0d2 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -817,17 +817,12 @@ def import_from_IM7(filename, infos=False):
     scale_i = atts['_SCALE_I']
     scale_i = scale_i.split("\n")
     scale_val = scale_i[0].split(' ')
-    unit_values = scale_i[1]
-    try:
-        values *= int(scale_val[0])
-        values += int(scale_val[1])
-    except ValueError:
-        values *= float(scale_val[0])
-        values += float(scale_val[1])
+    unit_values = scale_i[1].strip('[]')
+    values = values*float(scale_val[0]) + float(scale_val[1])
     # X
     scale_x = atts['_SCALE_X']
     scale_x = scale_x.split("\n")
-    unit_x = scale_x[1]
+    unit_x = scale_x[1].strip('[]')
     scale_val = scale_x[0].split(' ')
     x_init = float(scale_val[1])
     dx = float(scale_val[0])
@@ -841,7 +836,7 @@ def import_from_IM7(filename, infos=False):
     # Y
     scale_y = atts['_SCALE_Y']
     scale_y = scale_y.split("\n")
-    unit_y = scale_y[1]
+    unit_y = scale_y[1].strip('[]')
     scale_val = scale_y[0].split(' ')
     y_init = float(scale_val[1])
     dy = float(scale_val[0])
@@ -989,26 +984,18 @@ def import_from_VC7(filename, infos=False, add_fields=False):
     if add_fields and fmt in [1, 3]:
         suppl_fields = []
         for i in np.arange(4, v_array.shape[0]):
-            suppl_fields.append(np.transpose(np.array(v_array[i])))
+            suppl_fields.append(np.array(v_array[i]))
     # Get and apply scale on values
     scale_i = atts['_SCALE_I']
     scale_i = scale_i.split("\n")
-    unit_values = scale_i[1]
+    unit_values = scale_i[1].strip('[]')
     scale_val = scale_i[0].split(' ')
-    try:
-        Vx *= int(scale_val[0])
-        Vx += int(scale_val[1])
-        Vy *= int(scale_val[0])
-        Vy += int(scale_val[1])
-    except ValueError:
-        Vx *= float(scale_val[0])
-        Vx += float(scale_val[1])
-        Vy *= float(scale_val[0])
-        Vy += float(scale_val[1])
+    Vx = Vx*float(scale_val[0]) + float(scale_val[1])
+    Vy = Vy*float(scale_val[0]) + float(scale_val[1])
     # Get and apply scale on X
     scale_x = atts['_SCALE_X']
     scale_x = scale_x.split("\n")
-    unit_x = scale_x[1]
+    unit_x = scale_x[1].strip('[]')
     scale_val = scale_x[0].split(' ')
     x_init = float(scale_val[1])
     dx = float(scale_val[0])*vectorGrid
@@ -1026,7 +1013,7 @@ def import_from_VC7(filename, infos=False, add_fields=False):
     # Get and apply scale on Y
     scale_y = atts['_SCALE_Y']
     scale_y = scale_y.split("\n")
-    unit_y = scale_y[1]
+    unit_y = scale_y[1].strip('[]')
     scale_val = scale_y[0].split(' ')
     y_init = float(scale_val[1])
     dy = float(scale_val[0])*vectorGrid
-- 
2.43.0


From 39ddc353b656a78485f95f73668d24909bfebe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:50 +0000
Subject: [PATCH 131/257] fix: import_from_VC7s could not create spatial
 fields, VC7_to_imt could not import single files

---
 IMTreatment/file_operation/file_operation.py | 22 +++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 1f4e0d2..56e9ade 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1147,7 +1147,10 @@ def import_from_VC7s(fieldspath, kind='TVF', fieldnumbers=None, incr=1,
             unit_time = make_unit(dt[1])
             dt = float(dt[0])
             t += dt*incr
-            fields.add_field(tmp_vf, t, unit_time)
+            if kind == 'TVF':
+                fields.add_field(tmp_vf, t, unit_time)
+            else:
+                fields.add_field(tmp_vf)
             for i, f in enumerate(add_fields):
                 suppl_fields[i].add_field(f, t, unit_time)
         else:
@@ -1160,7 +1163,10 @@ def import_from_VC7s(fieldspath, kind='TVF', fieldnumbers=None, incr=1,
                 dt = 1.
                 unit_time = make_unit("")
             t += dt*incr
-            fields.add_field(tmp_vf, t, unit_time)
+            if kind == 'TVF':
+                fields.add_field(tmp_vf, t, unit_time)
+            else:
+                fields.add_field(tmp_vf)
     # return
     if add_fields:
         return fields, suppl_fields
@@ -1195,7 +1201,7 @@ def IM7_to_imt(im7_path, imt_path, kind='SF', compressed=True, **kwargs):
     if path.isdir(im7_path):
         if kind in ['SSF', 'TSF']:
             ST_SF = import_from_IM7s(im7_path, kind=kind, **kwargs)
-            export_to_file(ST_SF, imt_path)
+            export_to_file(ST_SF, imt_path, compressed=compressed)
         elif kind in ['SF']:
             paths = glob(im7_path + "/*")
             for tmp_path in paths:
@@ -1208,7 +1214,7 @@ def IM7_to_imt(im7_path, imt_path, kind='SF', compressed=True, **kwargs):
                                compressed=compressed)
     elif path.isfile(im7_path):
         SF = import_from_IM7(im7_path, **kwargs)
-        export_to_file(SF, imt_path)
+        export_to_file(SF, imt_path, compressed=compressed)
     else:
         raise ValueError()
 
@@ -1234,12 +1240,12 @@ def VC7_to_imt(vc7_path, imt_path, kind='VF', compressed=True, **kwargs):
     """
     # checking parameters
     vc7_path = check_path(vc7_path)
-    imt_path = check_path(imt_path)
+    imt_path = check_path(imt_path, newfile=True)
     # checking if file or directory
     if path.isdir(vc7_path):
         if kind in ['SVF', 'TVF']:
             ST_VF = import_from_VC7s(vc7_path, kind=kind, **kwargs)
-            export_to_file(ST_VF, imt_path)
+            export_to_file(ST_VF, imt_path, compressed=compressed)
         elif kind in ['VF']:
             paths = glob(vc7_path + "/*")
             for tmp_path in paths:
@@ -1251,8 +1257,8 @@ def VC7_to_imt(vc7_path, imt_path, kind='VF', compressed=True, **kwargs):
                 export_to_file(VF, imt_path + "/{}".format(name),
                                compressed=compressed)
     elif path.isfile(vc7_path):
-        SF = import_from_IM7(vc7_path, **kwargs)
-        export_to_file(SF, imt_path)
+        VF = import_from_VC7(vc7_path, **kwargs)
+        export_to_file(VF, imt_path, compressed=compressed)
     else:
         raise ValueError()
 
-- 
2.43.0


From 478bddb79641d37ef86d3e4612071641bf8c6655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:04 +0000
Subject: [PATCH 132/257] fix: Files.remove_files with regular expressions and
 several indices

---
 IMTreatment/utils/files.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 68daf5b..b2889ae 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -28,7 +28,7 @@ import os
 from os.path import join
 import copy
 import re
-from ..utils.types import ARRAYTYPES
+from ..utils.types import ARRAYTYPES, INTEGERTYPES
 from ..utils.progresscounter import ProgressCounter
 
 try:
@@ -178,14 +178,20 @@ class Files(object):
             del self.exist[ind]
             del self.isdir[ind]
         elif isinstance(arg, ARRAYTYPES):
+            # (indices of the other files change at each removal)
+            inds = [thing % len(self.paths) for thing in arg
+                    if isinstance(thing, INTEGERTYPES)]
+            for ind in sorted(set(inds), reverse=True):
+                self.remove_files(int(ind))
             for thing in arg:
-                self.remove_files(thing)
+                if not isinstance(thing, INTEGERTYPES):
+                    self.remove_files(thing)
         elif isinstance(arg, str):
             for i in np.arange(len(self.paths) - 1, -1, -1):
                 res = re.match(arg, self.paths[i])
                 if res is not None:
                     print("remove {}".format(self.paths[i]))
-                    self.remove_files(i)
+                    self.remove_files(int(i))
         else:
             raise TypeError()
 
-- 
2.43.0


From 4e6883b9b074b510a70e892fcfa5b045ceb47b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:15 +0000
Subject: [PATCH 133/257] fix: Files.load_files_from_regex stopped at the first
 too deep folder

---
 IMTreatment/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index b2889ae..133056c 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -216,7 +216,7 @@ class Files(object):
                 tmp_depth = (root[len(rootpath) + len(os.path.sep):]
                              .count(os.path.sep))
                 if depth < tmp_depth:
-                    break
+                    continue
             # load direcories
             if load_dirs:
                 for d in dirs:
-- 
2.43.0


From e4cc8684ca3ff519251ac08516b688dc061167e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:30 +0000
Subject: [PATCH 134/257] fix: Files.delete_existing_files with non empty
 folders

---
 IMTreatment/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 133056c..41c00f9 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -306,7 +306,7 @@ class Files(object):
                         # else, check if each folder is empty
                         try:
                             os.rmdir(p)
-                        except WindowsError:
+                        except OSError:
                             print("+++ Following folder is not empty\n"
                                   "{}".format(p))
                             while True:
-- 
2.43.0


From 3ed317a08ff2e5623cdfa2abc27c41e40fd0a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:50 +0000
Subject: [PATCH 135/257] fix: get_gradients: use the real spacing of uneven
 grids

---
 .../field_treatment/field_treatment.py        | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index e70619a..364c0f5 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -32,6 +32,21 @@ from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 from ..utils import RemoveFortranOutput
 
 ### Gradients based operation
+def _get_spacings(field):
+    """
+    Return the spacings along x and y, as expected by 'np.gradient': a number
+    if the axis is evenly spaced, the axis itself if not.
+    """
+    spacings = []
+    for axe in [field.axe_x, field.axe_y]:
+        steps = axe[1:] - axe[:-1]
+        if np.allclose(steps, steps[0], rtol=1e-6, atol=0):
+            spacings.append(steps[0])
+        else:
+            spacings.append(axe)
+    return spacings
+
+
 def get_gradients(field, raw=False):
     """
     Return gradients along x and y.
@@ -54,8 +69,7 @@ def get_gradients(field, raw=False):
         for Profile input : dy/dx.
     """
     if isinstance(field, ScalarField):
-        dx = field.axe_x[1] - field.axe_x[0]
-        dy = field.axe_y[1] - field.axe_y[0]
+        dx, dy = _get_spacings(field)
         grad_x, grad_y = np.gradient(np.ma.masked_array(field.values,
                                                         field.mask),
                                      dx, dy)
@@ -89,8 +103,7 @@ def get_gradients(field, raw=False):
                                      unit_values=unit_values_y)
             return gradx, grady
     elif isinstance(field, VectorField):
-        dx = field.axe_x[1] - field.axe_x[0]
-        dy = field.axe_y[1] - field.axe_y[0]
+        dx, dy = _get_spacings(field)
         Vx_dx, Vx_dy = np.gradient(np.ma.masked_array(field.comp_x,
                                                       field.mask),
                                    dx, dy)
-- 
2.43.0


From 68cde6db827563155fa421f11ad6e3e59e8d8262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:45 +0000
Subject: [PATCH 136/257] fix: get_shear_stress: use the spacing of uneven
 grids

---
 IMTreatment/field_treatment/field_treatment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 364c0f5..147e91b 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -1063,8 +1063,7 @@ def get_shear_stress(vf, raw=False):
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
     mask = tmp_vf.mask
-    dx = axe_x[1] - axe_x[0]
-    dy = axe_y[1] - axe_y[0]
+    dx, dy = _get_spacings(tmp_vf)
     du_dx, du_dy = np.gradient(comp_x, dx, dy)
     dv_dx, dv_dy = np.gradient(comp_y, dx, dy)
     # swirling vectors matrix
-- 
2.43.0


From de89dfbb43792b3709e3900b8a3a19362eff9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:31 +0000
Subject: [PATCH 137/257] fix: get_grad_field changed the field it is given

---
 IMTreatment/field_treatment/field_treatment.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 147e91b..bb674fb 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -577,8 +577,6 @@ def get_grad_field(field, direction='x'):
     if not direction in ['x', 'y']:
         raise ValueError()
     # getting gradients
-    field.comp_x = field.comp_x
-    field.comp_y = field.comp_y
     grads = get_gradients(field)
     # returning
     if direction == 'x':
-- 
2.43.0


From f98031bf4b8a09b6e4e431083c45186617306700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:46 +0000
Subject: [PATCH 138/257] fix: reconstruct_from_gradients: gradients with
 different length units

---
 IMTreatment/field_treatment/field_treatment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index bb674fb..c304dc3 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -242,9 +242,10 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
         dx = axe_x[1] - axe_x[0]
         dy = axe_y[1] - axe_y[0]
         du_dx = field_dx.values
-        du_dy = field_dy.values
         unit_values = field_dx.unit_values*field_dx.unit_x
         fact_unit_values = unit_values.asNumber()
+        unit_values_y = field_dy.unit_values*field_dy.unit_y
+        du_dy = field_dy.values*(unit_values_y/unit_values).asNumber()
         unit_values /= unit_values.asNumber()
 
         ###  Getting borders
-- 
2.43.0


From 0385198805c1a5ac9772ce968dd5bdd41ccbf6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:00 +0000
Subject: [PATCH 139/257] fix: reconstruct_from_gradients: the four
 reconstructions are centered on the corners

---
 IMTreatment/field_treatment/field_treatment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index c304dc3..ec80e73 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -338,11 +338,11 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
                                            + du_dy[i, j])/2.
                 u4[i, j] = (est_a + est_b)/2.
         # normalize
-        filt_corn = np.zeros(u.shape, dtype=int)
-        filt_corn[0, 0] = 1
-        filt_corn[0, -1] = 1
-        filt_corn[-1, 0] = 1
-        filt_corn[-1, -1] = 1
+        filt_corn = np.zeros(u.shape, dtype=bool)
+        filt_corn[0, 0] = True
+        filt_corn[0, -1] = True
+        filt_corn[-1, 0] = True
+        filt_corn[-1, -1] = True
         u1 -= np.mean(u1[filt_corn])
         u2 -= np.mean(u2[filt_corn])
         u3 -= np.mean(u3[filt_corn])
-- 
2.43.0


From 204f46cdb042b682c2c1ca73d76a16729830de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:17 +0000
Subject: [PATCH 140/257] fix: reconstruct_from_gradients: maxiter for vector
 fields

---
 IMTreatment/field_treatment/field_treatment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index ec80e73..5eca472 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -226,8 +226,10 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
             raise TypeError()
     ### recursive loop for VF
     if kind == 'VF':
-        Vx = reconstruct_from_gradients(field_dx, field_dy, ols=ols)
-        Vy = reconstruct_from_gradients(field2_dx, field2_dy, ols=ols)
+        Vx = reconstruct_from_gradients(field_dx, field_dy, ols=ols,
+                                        maxiter=maxiter)
+        Vy = reconstruct_from_gradients(field2_dx, field2_dy, ols=ols,
+                                        maxiter=maxiter)
         mask = np.logical_or(Vx.mask, Vy.mask)
         V = VectorField()
         V.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values, Vy.values,
-- 
2.43.0


From 83d5ac1a89d018951785f367e391c08c166e427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:31 +0000
Subject: [PATCH 141/257] fix: get_jacobian_eigenproperties: unit of the
 eigenvalues

---
 .../field_treatment/field_treatment.py        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 5eca472..6fc4f86 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -460,6 +460,9 @@ def get_jacobian_eigenproperties(field, raw=False, eig_val=True,
     eig2_r = np.real(eig2)
     eig2_i = np.imag(eig2)
     # returning
+    unit_eig = field.unit_values/field.unit_x
+    fact = unit_eig.asNumber()
+    unit_eig = unit_eig/fact
     if raw:
         ret = ()
         if eig_val:
@@ -471,25 +474,25 @@ def get_jacobian_eigenproperties(field, raw=False, eig_val=True,
         ret = ()
         if eig_val:
             eig1_re_sf = ScalarField()
-            eig1_re_sf.import_from_arrays(field.axe_x, field.axe_y, eig1_r,
+            eig1_re_sf.import_from_arrays(field.axe_x, field.axe_y, eig1_r*fact,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_eig)
             eig1_im_sf = ScalarField()
-            eig1_im_sf.import_from_arrays(field.axe_x, field.axe_y, eig1_i,
+            eig1_im_sf.import_from_arrays(field.axe_x, field.axe_y, eig1_i*fact,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_eig)
             eig2_re_sf = ScalarField()
-            eig2_re_sf.import_from_arrays(field.axe_x, field.axe_y, eig2_r,
+            eig2_re_sf.import_from_arrays(field.axe_x, field.axe_y, eig2_r*fact,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_eig)
             eig2_im_sf = ScalarField()
-            eig2_im_sf.import_from_arrays(field.axe_x, field.axe_y, eig2_i,
+            eig2_im_sf.import_from_arrays(field.axe_x, field.axe_y, eig2_i*fact,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_eig)
             ret += (eig1_re_sf, eig1_im_sf, eig2_re_sf, eig2_im_sf)
         if eig_vect:
             eig1_vf = VectorField()
-- 
2.43.0


From 2d05f2ca5b7725aa5113ad6a653b1f3885d50c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:50 +0000
Subject: [PATCH 142/257] fix: extrapolate_until_wall: walls on the top were
 too far

---
 IMTreatment/field_treatment/field_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 6fc4f86..0e64733 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -1204,7 +1204,7 @@ def extrapolate_until_wall(field, direction='x', position=0.,
             ext_field.extend(nmb_down=np.int((axe_y[0] - position)/dy),
                              inplace=True)
         else:
-            ext_field.extend(nmb_up=np.int((position - axe_y[1])/dy),
+            ext_field.extend(nmb_up=np.int((position - axe_y[-1])/dy),
                              inplace=True)
     # ScalarField
     if isinstance(field, ScalarField):
-- 
2.43.0


From 5bfbf6830a1066e6b3ac03813521dbf0ae6215d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 143/257] fix: get_angle_deviation: local treatment used the
 wrong velocity component

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 726c37d..408052e 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -124,7 +124,7 @@ def get_angle_deviation(vectorfield, radius=None, ind=False, mask=None,
             tmp_Vx = vectorfield.comp_x[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vy = vectorfield.comp_y[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vx -= vectorfield.comp_x[ind_x, ind_y]
-            tmp_Vy -= vectorfield.comp_x[ind_x, ind_y]
+            tmp_Vy -= vectorfield.comp_y[ind_x, ind_y]
             angles = _get_angles(tmp_Vx, tmp_Vy)
         # getting neightbour angles repartition
         angles = np.sort(angles)
-- 
2.43.0


From ca5734ef4ae9dbeff61aee25f1822c856c67a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:13 +0000
Subject: [PATCH 144/257] fix: non-local criteria: same neighbours whatever the
 way the radius is given

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 408052e..89e83a7 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -665,7 +665,7 @@ def get_enstrophy(vectorfield, radius=None, ind=False, mask=None,
         # getting neighbour points
         indsaround = motif + inds
         # Loop on neighbouring points
-        loc_enstrophy = 0.
+        loc_enstrophy = vort2[ind_x, ind_y]
         for i, indaround in enumerate(indsaround):
             loc_enstrophy += vort2[indaround[0], indaround[1]]
         # storing computed gamma value
@@ -700,11 +700,12 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
     if ind:
         motif = vectorfield.get_points_around(indcentral, radius, ind)
         motif = motif - indcentral
-        motif = np.delete(motif, int(len(motif)/2), axis=0)
     else:
         ptcentral = [axe_x[indcentral[0]], axe_y[indcentral[1]]]
         motif = vectorfield.get_points_around(ptcentral, radius, ind)
         motif = motif - indcentral
+    # (without the central point)
+    motif = np.delete(motif, int(len(motif)/2), axis=0)
     nmbpts = len(motif)
     # Generating masks
     # creating surrounding masked point zone mask
-- 
2.43.0


From c2b6bdd4761c0554f1ec5f7c78c2ee52d44215b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:28 +0000
Subject: [PATCH 145/257] fix: non-local criteria: points whose neighbours are
 outside the field

---
 .../vortex_criterions/vortex_criterions.py    | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 89e83a7..688cc43 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -719,23 +719,13 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
                 continue
             mask_surr[i, j] = True
     # creating near-border zone mask
-    if ind:
-        indx = np.arange(len(axe_x))
-        indy = np.arange(len(axe_y))
-        border_x = np.logical_or(indx <= indx[0] + (int(radius) - 1),
-                                 indx >= indx[-1] - (int(radius) - 1))
-        border_y = np.logical_or(indy <= indy[0] + (int(radius) - 1),
-                                 indy >= indy[-1] - (int(radius) - 1))
-        border_x, border_y = np.meshgrid(border_x, border_y)
-        mask_border = np.transpose(np.logical_or(border_x, border_y))
-    else:
-        delta = (axe_x[1] - axe_x[0] + axe_y[1] - axe_y[0])/2
-        border_x = np.logical_or(axe_x <= axe_x[0] + (radius - delta),
-                                 axe_x >= axe_x[-1] - (radius - delta))
-        border_y = np.logical_or(axe_y <= axe_y[0] + (radius - delta),
-                                 axe_y >= axe_y[-1] - (radius - delta))
-        border_x, border_y = np.meshgrid(border_x, border_y)
-        mask_border = np.transpose(np.logical_or(border_x, border_y))
+    width = int(np.max(np.abs(motif))) if nmbpts != 0 else 0
+    indx = np.arange(len(axe_x))
+    indy = np.arange(len(axe_y))
+    border_x = np.logical_or(indx < width, indx > indx[-1] - width)
+    border_y = np.logical_or(indy < width, indy > indy[-1] - width)
+    border_x, border_y = np.meshgrid(border_x, border_y)
+    mask_border = np.transpose(np.logical_or(border_x, border_y))
     # creating dev mask
     mask_dev = np.zeros(vectorfield.shape)
     if dev_pass:
-- 
2.43.0


From a84341b6edc22f4416b3ab22f9eb4aa82a91d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:45 +0000
Subject: [PATCH 146/257] fix: get_kappa: kappa2 uses the mean velocity of the
 neighbours

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 688cc43..3e60925 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -491,8 +491,8 @@ def get_kappa(vectorfield, radius=None, ind=False, kind='kappa1', mask=None,
         if kind == 'kappa2':
             nmbpts = len(indsaround)
             for indaround in indsaround:
-                v_mean[0] += Vx[ind_x, ind_y]
-                v_mean[1] += Vy[ind_x, ind_y]
+                v_mean[0] += Vx[indaround[0], indaround[1]]
+                v_mean[1] += Vy[indaround[0], indaround[1]]
             v_mean[0] /= nmbpts
             v_mean[1] /= nmbpts
         # Loop on neighbouring points
-- 
2.43.0


From cb022b4daf16ecdbfaefd7c9488eef8377cc29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:02 +0000
Subject: [PATCH 147/257] fix: get_iota: take the given mask into account

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 3e60925..26e1142 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -591,7 +591,7 @@ def get_iota(vectorfield, mask=None, radius=None, ind=False, raw=False):
     theta_y[filty] = theta2_y[filty]
     iota = 1/2.*np.sqrt(theta_x**2 + theta_y**2)
     # getting mask
-    maskf = np.logical_or(vectorfield.mask, np.isnan(iota))
+    maskf = np.logical_or(mask, np.isnan(iota))
     # returning
     if raw:
         return np.ma.masked_array(iota, maskf)
-- 
2.43.0


From 963478c190b723446fb1684d144314e24f58c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:19 +0000
Subject: [PATCH 148/257] fix: get_stokes_vorticity: divide the circulation by
 the area of the window

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 26e1142..0353e24 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -935,7 +935,7 @@ def get_stokes_vorticity(vf, window_size=2, raw=False):
             bord_vec = -Vx[i:i + window_size, j + window_size - 1].copy()
             tmp_vort += np.trapz(bord_vec, dx=dx)
             # adding coefficients
-            tmp_vort *= 1./(dx*dy*window_size**2)
+            tmp_vort *= 1./(dx*dy*(window_size - 1)**2)
             # storing
             vort[i, j] = tmp_vort
     # returning
-- 
2.43.0


From 49e97f3e40c81150bdccd06798fef7d9b8ff67b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:34 +0000
Subject: [PATCH 149/257] fix: swirling strengths: field with masked values,
 unit

---
 .../vortex_criterions/vortex_criterions.py    | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 0353e24..cef319c 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -974,12 +974,11 @@ def get_swirling_strength(vf, raw=False):
     """
     if not isinstance(vf, VectorField):
         raise TypeError()
-    tmp_vf = vf.copy()
-    tmp_vf.fill()
+    tmp_vf = vf.fill(inplace=False)
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     mask = tmp_vf.mask
-    du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    du_dx, du_dy, dv_dx, dv_dy = get_gradients(tmp_vf, raw=True)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
     # loop on  points
@@ -996,8 +995,9 @@ def get_swirling_strength(vf, raw=False):
         return swst
     else:
         unit_x, unit_y = tmp_vf.unit_x, tmp_vf.unit_y
-        # TODO: Implement unities
-        unit_values = ""
+        unit_values = vf.unit_values/vf.unit_x
+        swst *= unit_values.asNumber()
+        unit_values /= unit_values.asNumber()
         tmp_sf = ScalarField()
         tmp_sf.import_from_arrays(axe_x, axe_y, swst, mask=mask,
                                   unit_x=unit_x, unit_y=unit_y,
@@ -1026,16 +1026,11 @@ def get_improved_swirling_strength(vf, raw=False):
     """
     if not isinstance(vf, VectorField):
         raise TypeError()
-    tmp_vf = vf.copy()
-    tmp_vf.fill()
+    tmp_vf = vf.fill(inplace=False)
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-    comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
-    mask = tmp_vf.mask
-    dx = axe_x[1] - axe_x[0]
-    dy = axe_y[1] - axe_y[0]
-    du_dx, du_dy = np.gradient(comp_x, dx, dy)
-    dv_dx, dv_dy = np.gradient(comp_y, dx, dy)
+    mask = np.array(tmp_vf.mask)
+    du_dx, du_dy, dv_dx, dv_dy = get_gradients(tmp_vf, raw=True)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
     # loop on  points
@@ -1049,6 +1044,7 @@ def get_improved_swirling_strength(vf, raw=False):
                 lambci = np.abs(np.imag(eigvals[0]))
                 if lambci == 0:
                     mask[i, j] = True
+                    continue
                 swst[i, j] = lambcr/lambci
     mask = np.logical_or(mask, np.isnan(swst))
     # creating ScalarField object
-- 
2.43.0


From 536521b1f5d545e71514aa71b6c92ce102541f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:49 +0000
Subject: [PATCH 150/257] fix: Q and Delta criteria: definition of Q

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index cef319c..e307475 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1091,7 +1091,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    qcrit = .5*(norm_rot2) - norm_shear2
+    qcrit = .5*(norm_rot2 - norm_shear2)
     unit_values = (vectorfield.unit_values/vectorfield.unit_x)**2
     scale = unit_values.asNumber()
     qcrit *= scale
@@ -1191,7 +1191,7 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     # calcul de Q
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    Q = .5*(norm_rot2) - norm_shear2
+    Q = .5*(norm_rot2 - norm_shear2)
     # calcul de R
     R = np.zeros(Exx.shape)
     for i in np.arange(Exx.shape[0]):
-- 
2.43.0


From f2132011df601c9a70e3533f8aa9d03a7a0b8b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:05 +0000
Subject: [PATCH 151/257] fix: get_lambda2: raw values, unit

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index e307475..12cdd50 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1270,14 +1270,17 @@ def get_lambda2(vectorfield, mask=None, raw=False):
             lambda2[i, j] = l2
     # returning
     if raw:
-        return np.ma.masked_array(l2, mask)
+        return np.ma.masked_array(lambda2, mask)
     else:
         lambd_sf = ScalarField()
         axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
         unit_x, unit_y = vectorfield.unit_x, vectorfield.unit_y
+        unit_values = (vectorfield.unit_values/vectorfield.unit_x)**2
+        lambda2 *= unit_values.asNumber()
+        unit_values /= unit_values.asNumber()
         lambd_sf.import_from_arrays(axe_x, axe_y, lambda2, mask,
                                     unit_x=unit_x, unit_y=unit_y,
-                                    unit_values=make_unit(''))
+                                    unit_values=unit_values)
         return lambd_sf
 
 
-- 
2.43.0


From 36614d6db3299a630398e027be186710849fca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:23 +0000
Subject: [PATCH 152/257] fix: vorticity and divergence: use the spacing of
 uneven grids

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 12cdd50..5259123 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -785,10 +785,8 @@ def get_divergence(vf, raw=False):
         axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
-        dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
-        Exx, _ = np.gradient(comp_x, dx, dy)
-        _, Eyy = np.gradient(comp_y, dx, dy)
+        Exx, _, _, Eyy = get_gradients(tmp_vf, raw=True)
+        Exx, Eyy = Exx.data, Eyy.data
         div = Exx + Eyy
         if raw:
             return div
@@ -841,10 +839,8 @@ def get_vorticity(vf, raw=False):
         axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
-        dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
-        _, Exy = np.gradient(comp_x, dx, dy)
-        Eyx, _ = np.gradient(comp_y, dx, dy)
+        _, Exy, Eyx, _ = get_gradients(tmp_vf, raw=True)
+        Exy, Eyx = Exy.data, Eyx.data
         vort = (Eyx - Exy)/2.
         if raw:
             return vort
-- 
2.43.0


From 897e2d25f01985b9400c0f8d34702b25aa65cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:18 +0000
Subject: [PATCH 153/257] fix: residual and shear vorticities: use the spacing
 of uneven grids

---
 .../vortex_criterions/vortex_criterions.py        | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 5259123..8e1ae8f 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1298,13 +1298,10 @@ def get_residual_vorticity(vf, raw=False):
         tmp_vf = vf.copy()
         tmp_vf.fill(inplace=True, reduce_tri=True)
         axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-        comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
-        dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
         # getting gradients
-        Exx, Exy = np.gradient(comp_x, dx, dy)
-        Eyx, Eyy = np.gradient(comp_y, dx, dy)
+        Exx, Exy, Eyx, Eyy = [grad.data for grad
+                              in get_gradients(tmp_vf, raw=True)]
         # getting principal rate of strain (s)
         s = np.sqrt(4*Exx**2 + (Exy + Eyx)**2)/2.
         # getting the vorticity-tensor component
@@ -1362,16 +1359,12 @@ def get_shear_vorticity(vf, raw=False):
     if isinstance(vf, VectorField):
         # getting data
         tmp_vf = vf.copy()
-        tmp_vf.crop_masked_border()
         tmp_vf.fill(inplace=True, reduce_tri=True)
         axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-        comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
-        dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
         # getting gradients
-        Exx, Exy = np.gradient(comp_x, dx, dy)
-        Eyx, Eyy = np.gradient(comp_y, dx, dy)
+        Exx, Exy, Eyx, Eyy = [grad.data for grad
+                              in get_gradients(tmp_vf, raw=True)]
         # getting principal rate of strain (s)
         s = np.sqrt(4*Exx**2 + (Exy + Eyx)**2)/2.
         # getting the vorticity-tensor component
-- 
2.43.0


From 224c1a87d6f1de5710d61ee9859f5d316790c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:26 +0000
Subject: [PATCH 154/257] fix: get_delta_criterion: masked gradients

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 8e1ae8f..d3611ea 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1190,8 +1190,13 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     Q = .5*(norm_rot2 - norm_shear2)
     # calcul de R
     R = np.zeros(Exx.shape)
+    for grad in [Exx, Exy, Eyx, Eyy]:
+        mask = np.logical_or(mask, np.ma.getmaskarray(grad))
+        mask = np.logical_or(mask, np.isnan(np.ma.getdata(grad)))
     for i in np.arange(Exx.shape[0]):
         for j in np.arange(Exx.shape[1]):
+            if mask[i, j]:
+                continue
             Jac = [[Exx[i, j], Exy[i, j]], [Eyx[i, j], Eyy[i, j]]]
             eigval, eigvect = np.linalg.eig(Jac)
             if np.all(np.imag(eigval) == 0):
-- 
2.43.0


From caaf237e5fa696882cc7a37bda378150a561443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:39 +0000
Subject: [PATCH 155/257] fix: get_gamma: gamma2b without mean velocity

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index d3611ea..ed49ac6 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -259,8 +259,9 @@ def get_gamma(vectorfield, radius=None, ind=False, kind='gamma1', mask=None,
                                  v_mean[0])**2)
             v_mean2[1] = np.mean((Vy[indsaround[:, 0], indsaround[:, 1]] -
                                  v_mean[1])**2)
-            fact = np.sqrt(v_mean2[0] + v_mean2[1]) / \
-                np.sqrt(v_mean[0]**2 + v_mean[1]**2)
+            if v_mean[0] != 0 or v_mean[1] != 0:
+                fact = np.sqrt(v_mean2[0] + v_mean2[1]) / \
+                    np.sqrt(v_mean[0]**2 + v_mean[1]**2)
             if np.abs(fact) > 1:
                 fact = 1.
         # Loop on neighbouring points
-- 
2.43.0


From d4ce936b376bcd10b66409eaf08d52056367e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:56 +0000
Subject: [PATCH 156/257] fix: crop_modal_base: modes to remove, eigenvectors,
 order of the modes

---
 IMTreatment/pod/pod.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 1220be9..1a37fac 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -176,12 +176,12 @@ class ModalFields(Field):
             modes_to_keep = np.array(modes_to_keep, dtype=int)
         else:
             if isinstance(modes_to_remove, int):
-                modes_to_remove = np.arrange(len(self.modes) - modes_to_remove,
-                                             len(self.modes))
+                modes_to_remove = np.arange(len(self.modes) - modes_to_remove,
+                                            len(self.modes))
             if not isinstance(modes_to_remove, ARRAYTYPES):
                 raise TypeError()
             modes_to_remove = np.array(modes_to_remove, dtype=int)
-            modes_to_keep = np.arrange(len(self.modes))
+            modes_to_keep = np.arange(len(self.modes))
             modes_to_keep = np.delete(modes_to_keep, modes_to_remove)
         # get data
         if inplace:
@@ -192,9 +192,11 @@ class ModalFields(Field):
         new_modes = []
         new_temp_evo = []
         if self.decomp_type == 'pod':
-            new_eigvals = Profile(unit_x=self.eigvals.unit_x,
+            new_eigvals = Profile(self.eigvals.x[modes_to_keep],
+                                  self.eigvals.y[modes_to_keep], mask=False,
+                                  unit_x=self.eigvals.unit_x,
                                   unit_y=self.eigvals.unit_y)
-            new_eigvects = []
+            new_eigvects = self.eigvects[:, modes_to_keep]
         elif self.decomp_type == "dmd":
             new_growth_rate = Profile(unit_x=self.eigvals.unit_x,
                                       unit_y=self.eigvals.unit_y)
@@ -210,13 +212,6 @@ class ModalFields(Field):
         for ind in modes_to_keep:
             new_modes.append(tmp_pod.modes[ind])
             new_temp_evo.append(tmp_pod.temp_evo[ind])
-            if self.decomp_type == 'pod':
-                new_eigvals.add_point(tmp_pod.eigvals.x[ind],
-                                      tmp_pod.eigvals.y[ind])
-                tmp_vect = []
-                for ind2 in modes_to_keep:
-                    tmp_vect.append(tmp_pod.eigvects[ind, ind2])
-                new_eigvects.append(tmp_vect)
             if self.decomp_type == "dmd":
                 new_growth_rate.add_point(tmp_pod.growth_rate.x[ind],
                                           tmp_pod.growth_rate.y[ind])
-- 
2.43.0


From b92e75fff9c2340e5b59bdb0489ff09dcd7be621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:11 +0000
Subject: [PATCH 157/257] fix: smooth_spatial_evolutions: not in place

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 1a37fac..20e2946 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -383,7 +383,7 @@ class ModalFields(Field):
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
-                tmp_MF.mdes[n].smooth(tos=tos, size=size, inplace=True)
+                tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
-- 
2.43.0


From 328bb642624e027db1b0da2a9b49927f9e7cfcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:25 +0000
Subject: [PATCH 158/257] fix: ModalFields.reconstruct: refuse a mode that does
 not exist

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 20e2946..7cd1afb 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -473,7 +473,7 @@ class ModalFields(Field):
             wanted_modes = np.array(wanted_modes)
             if not isinstance(wanted_modes[0], NUMBERTYPES):
                 raise TypeError()
-            if wanted_modes.max() > len(self.modes):
+            if wanted_modes.max() >= len(self.modes):
                 raise ValueError()
         else:
             raise TypeError()
-- 
2.43.0


From 7161918138b055ed1f953ae10ab68900f74f22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:37 +0000
Subject: [PATCH 159/257] fix: get_spatial_coherence: keep the modes

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 7cd1afb..d893e6b 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -706,7 +706,7 @@ class ModalFields(Field):
             center_y = np.int(len(axe_y)/2.)
 
             def get_field_spec_std(data):
-                data -= np.mean(data)
+                data = data - np.mean(data)
                 spec = np.abs(np.real(np.fft.rfft2(data)))
                 spec = np.fft.fftshift(spec)
                 spec /= spint.simps(spint.simps(spec))
-- 
2.43.0


From c002610580709bffb1e2ced22d970d995768e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:54 +0000
Subject: [PATCH 160/257] fix: ModalFields: coherences of modified modes

---
 IMTreatment/pod/pod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index d893e6b..9b49b3f 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -302,6 +302,7 @@ class ModalFields(Field):
             for mode in tmp_mf.modes:
                 mode.crop(intervx=intervx, intervy=intervy,
                           ind=ind, inplace=True)
+            tmp_mf._ModalFields__spat_coh = None
         # return
         if not inplace:
             return tmp_mf
@@ -357,10 +358,12 @@ class ModalFields(Field):
         if inplace:
             for n in np.arange(len(self.modes)):
                 self.temp_evo[n].smooth(tos=tos, size=size, inplace=True)
+            self.__temp_coh = None
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
                 tmp_MF.temp_evo[n].smooth(tos=tos, size=size, inplace=True)
+            tmp_MF.__temp_coh = None
             return tmp_MF
 
     def smooth_spatial_evolutions(self, tos='uniform', size=None, inplace=True):
@@ -380,10 +383,12 @@ class ModalFields(Field):
         if inplace:
             for n in np.arange(len(self.modes)):
                 self.modes[n].smooth(tos=tos, size=size, inplace=True)
+            self.__spat_coh = None
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
                 tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
+            tmp_MF.__spat_coh = None
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
-- 
2.43.0


From 4e029422b95b8073bb3e25f586847ebba72219a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:10 +0000
Subject: [PATCH 161/257] fix: ModalFields.crop: keep the first time of the
 interval

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 9b49b3f..737502e 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -276,7 +276,7 @@ class ModalFields(Field):
                 elif intervt[0] >= times[-1]:
                     raise ValueError()
                 else:
-                    ind_1 = np.where(times > intervt[0])[0][0]
+                    ind_1 = np.where(times >= intervt[0])[0][0]
                 if intervt[1] >= times[-1]:
                     ind_2 = len(times)
                 elif intervt[1] <= times[0]:
-- 
2.43.0


From d267e5a6223c96f7cf320ddfa19a86a9c51fff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:44 +0000
Subject: [PATCH 162/257] fix: crop_modal_base: eigenvalues of reordered modes

---
 IMTreatment/pod/pod.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 737502e..8f114f9 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -192,8 +192,11 @@ class ModalFields(Field):
         new_modes = []
         new_temp_evo = []
         if self.decomp_type == 'pod':
-            new_eigvals = Profile(self.eigvals.x[modes_to_keep],
-                                  self.eigvals.y[modes_to_keep], mask=False,
+            # (profiles are sorted by mode number)
+            inds = np.searchsorted(self.eigvals.x,
+                                   self.modes_nmb[modes_to_keep])
+            new_eigvals = Profile(self.eigvals.x[inds],
+                                  self.eigvals.y[inds], mask=False,
                                   unit_x=self.eigvals.unit_x,
                                   unit_y=self.eigvals.unit_y)
             new_eigvects = self.eigvects[:, modes_to_keep]
-- 
2.43.0


From 34f326abd2352468e20806f32601bd5d93ea93b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:50 +0000
Subject: [PATCH 163/257] fix: get_streamlines: positions given as integers

---
 IMTreatment/field_treatment/field_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 0e64733..5fdf2f1 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -808,7 +808,7 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
         masked_values = False
     if not isinstance(xys, ARRAYTYPES):
         raise TypeError()
-    xys = np.array(xys)
+    xys = np.array(xys, dtype=float)
     if xys.shape == (2,):
         xys = np.array([xys], subok=True, dtype=float)
     if xys.ndim != 2:
-- 
2.43.0


From 4cb3b54e18823a86dafa937ae0cfc4c2d0c54de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:05 +0000
Subject: [PATCH 164/257] fix: get_tracklines: upstream tracklines

---
 IMTreatment/field_treatment/field_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 5fdf2f1..15104d1 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -1041,7 +1041,7 @@ def get_tracklines(VF, xys, reverse=False, rel_err=1.e-8,
     """
     # get the track field
     track_field = get_track_field(VF)
-    return get_streamlines(track_field, xys, rel_err=rel_err,
+    return get_streamlines(track_field, xys, reverse=reverse, rel_err=rel_err,
                            max_steps=max_steps, resolution=resolution,
                            resolution_kind=resolution_kind,
                            boundary_tr=boundary_tr)
-- 
2.43.0


From 33829051e070715a77bbd2b526bb4c4f9ffbd993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:18 +0000
Subject: [PATCH 165/257] fix: get_streamlines_fast: field with masked values

---
 IMTreatment/field_treatment/field_treatment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 15104d1..3016867 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -685,9 +685,9 @@ def get_streamlines_fast(vf, xy, delta=.25, interp='linear',
         raise ValueError("Unknown interpolation method")
     # getting datas
     tmpvf = vf.copy()
-    tmpvf.fill()
+    tmpvf.fill(inplace=True)
     unit_x, unit_y = vf.unit_x, vf.unit_y
-    Vx, Vy = vf.comp_x, vf.comp_y
+    Vx, Vy = tmpvf.comp_x, tmpvf.comp_y
     deltaabs = delta * ((axe_x[-1]-axe_x[0])/len(axe_x)
                         + (axe_y[-1]-axe_y[0])/len(axe_y))/2.
     deltaabs2 = deltaabs**2
-- 
2.43.0


From 6f03b9663cf3e0f5a61dbe03390dd181ccbdc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:30 +0000
Subject: [PATCH 166/257] fix: get_streamlines: masked values of uneven grids

---
 IMTreatment/field_treatment/field_treatment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 3016867..1766c3b 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -858,8 +858,8 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
             if is_outside(axe_x, axe_y, xy):
                 raise ValueError()
             if masked_values:
-                ind_x = int(round(xy[0]/dx))
-                ind_y = int(round(xy[1]/dy))
+                ind_x = np.argmin(np.abs(axe_x - xy[0]))
+                ind_y = np.argmin(np.abs(axe_y - xy[1]))
                 if mask[ind_x, ind_y]:
                     raise ValueError()
             return -np.array([Vx_tor(*xy)[0][0],
@@ -869,8 +869,8 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
             if is_outside(axe_x, axe_y, xy):
                 raise ValueError()
             if masked_values:
-                ind_x = int(round(xy[0]/dx))
-                ind_y = int(round(xy[1]/dy))
+                ind_x = np.argmin(np.abs(axe_x - xy[0]))
+                ind_y = np.argmin(np.abs(axe_y - xy[1]))
                 if mask[ind_x, ind_y]:
                     raise ValueError()
             return np.array([Vx_tor(*xy)[0][0],
-- 
2.43.0


From 0f07aa52e90da3d53075df366925323c89874508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:43 +0000
Subject: [PATCH 167/257] fix: OrientedPoints.get_streamlines: import and
 arguments

---
 IMTreatment/core/orientedpoints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index b2545ed..f65ce2b 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -140,13 +140,14 @@ class OrientedPoints(pts.Points):
             Each Points object represent a streamline
         """
         # check parameters
-        from .field_treatment import get_streamlines
+        from ..field_treatment import get_streamlines_fast
         from . import vectorfield as vfp
         if not isinstance(vf, vfp.VectorField):
             raise TypeError()
         # getting streamlines
-        streams = get_streamlines(vf, self.xy, delta=delta, interp=interp,
-                                  reverse_direction=reverse_direction)
+        streams = get_streamlines_fast(vf, self.xy, delta=delta,
+                                       interp=interp,
+                                       reverse=reverse_direction)
         return streams
 
     def get_streamlines_from_orientations(self, vf, delta=.25, interp='linear',
-- 
2.43.0


From 2333e1d9b830bfa3137dbb02d70f1473ff016933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:55 +0000
Subject: [PATCH 168/257] fix: get_streamlines_from_orientations: offset along
 y

---
 IMTreatment/core/orientedpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index f65ce2b..9897698 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -193,7 +193,7 @@ class OrientedPoints(pts.Points):
             raise ValueError()
         # get coef
         coefx = (vf.axe_x[1] - vf.axe_x[0])*.25
-        coefy = (vf.axe_x[1] - vf.axe_x[0])*.25
+        coefy = (vf.axe_y[1] - vf.axe_y[0])*.25
         # get streamlines
         streams = []
         # for each points and each directions
-- 
2.43.0


From 767ffab015fae499b0c382a42dce467ca0aad15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 169/257] fix: get_streamlines: stop at the boundaries with
 time steps

---
 IMTreatment/field_treatment/field_treatment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 1766c3b..9db1e2f 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -923,10 +923,11 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
             nmb_it = 0
             while ODE.successful():
                 try:
+                    velocity = fun(res[-1])
                     if resolution_kind == "time":
                         rk_dt = resolution
                     else:
-                        rk_dt = dxy/np.linalg.norm(fun(res[-1]))*resolution
+                        rk_dt = dxy/np.linalg.norm(velocity)*resolution
                 except (ValueError, RuntimeWarning):
                     break
                 try:
-- 
2.43.0


From 4712e984f286a24b446df05ba3008738c03bc82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:07 +0000
Subject: [PATCH 170/257] fix: LambChaplyginVortex: radial velocity outside,
 and center

---
 IMTreatment/vortex_creation/vortex_creation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 9c13636..24dfc66 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -465,10 +465,12 @@ class LambChaplyginVortex(Vortex):
         # compute stream function
         if r < self.rv:
             J1_p = (jn(2, k*r) - jn(0, k*r))/(-2)
-            Vr = -2*self.U/(r*k*jn(0, k*self.rv))*jn(1, k*r)*np.cos(theta)
+            # (J1(kr)/(kr) tends to 1/2 at the center)
+            ratio = jn(1, k*r)/(k*r) if r != 0 else .5
+            Vr = -2*self.U/jn(0, k*self.rv)*ratio*np.cos(theta)
             Vphi = 2*self.U/(jn(0, k*self.rv))*np.sin(theta)*J1_p
         else:
-            Vr = -self.U*(r - self.rv**2/r)*np.cos(theta)
+            Vr = -self.U*(1 - self.rv**2/r**2)*np.cos(theta)
             Vphi = +self.U*(1 + self.rv**2/r**2)*np.sin(theta)
         # get velocity in the cartesian refenrentiel
         Vx, Vy = self._cyl_to_cart(theta, Vr, Vphi)
-- 
2.43.0


From b999a6d5e03e9f52712b44b75430f8bb4c7ac0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 171/257] fix: VortexSystem.add_custom_field: keep the given
 object

---
 IMTreatment/vortex_creation/vortex_creation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 24dfc66..1501c5e 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -734,6 +734,7 @@ class VortexSystem(object):
         """
         if not isinstance(custfield, CustomField):
             raise TypeError()
+        custfield = custfield.copy()
         custfield.id = self.curr_cf_id
         self.curr_cf_id += 1
         self.custfields.append(custfield)
-- 
2.43.0


From 98a124fa5366cdeb36f7361ea04711b5000ac5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 172/257] fix: VortexSystem.remove_vortex: number of vortex

---
 IMTreatment/vortex_creation/vortex_creation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 1501c5e..031f118 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -767,6 +767,7 @@ class VortexSystem(object):
                 self.im_vortex[i].id -= 1
         # adapt current id
         self.curr_id -= 1
+        self.nmb_vortex -= 1
 
     def display(self):
         """
-- 
2.43.0


From 734b37447fca2e646e74091dda2f80e7d2bb578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:47 +0000
Subject: [PATCH 173/257] fix: VortexSystem.get_compounded_vector: refresh
 imaginary vortex

---
 IMTreatment/vortex_creation/vortex_creation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 031f118..86ec5c0 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -896,6 +896,9 @@ class VortexSystem(object):
         cf_ids : Mx1 array of integer
             Associated id
         """
+        # refresh if necessary
+        if self.to_refresh:
+            self.refresh_imaginary_vortex()
         vects = []
         vects_cf = []
         if detailed:
-- 
2.43.0


From 6ed56fc2766700c3efd7c033187809d9ea24ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:46 +0000
Subject: [PATCH 174/257] fix: get_critical_points: cell dimensions in the type
 of the points

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index bb42f88..f21068c 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -158,7 +158,8 @@ class VF(object):
                 if tmp_vf.pbi_x[1] == -1:
                     cp_types.append(0)
                 else:
-                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy)
+                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy,
+                                               delta_x, delta_y)
                     eigvals, eigvects = np.linalg.eig(jac)
                     tau = np.real(eigvals[0])
                     mu = np.sum(np.abs(np.imag(eigvals)))
-- 
2.43.0


From d82bb41b3be52fa70d63ddf37a5df8797d21cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 175/257] fix: get_critical_points: null velocities in the
 cells

---
 .../vortex_detection/vortex_detection.py      | 22 +++++--------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index f21068c..f951229 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -234,28 +234,16 @@ class VF(object):
                 res_pos = pos
                 return pos
             # check if null values
-            nmb_zeros = np.sum(Vx_bl + Vy_bl == 0)
+            zeros = np.logical_and(Vx_bl == 0, Vy_bl == 0)
+            nmb_zeros = np.sum(zeros)
             if nmb_zeros == 1:
-                inds = np.array(np.where(Vx_bl + Vy_bl == 0)).reshape(2)
-                res_pos = np.array([axe_x[ind_x + inds[0]],
-                                    axe_y[ind_y + inds[1]]])
+                inds = np.argwhere(zeros)[0]
+                res_pos = np.array([axe_x[ind_x + inds[1]],
+                                    axe_y[ind_y + inds[0]]])
                 return res_pos
             elif nmb_zeros > 1:
                 res_pos = pos
                 return res_pos
-            # check if zero values
-            if np.any(Vx_bl == 0) or np.any(Vy_bl == 0):
-                # if only one point
-                filt = np.logical_and(Vx_bl == 0, Vy_bl == 0)
-                if np.sum(filt) == 1:
-                    tmp_inds = np.argwhere(filt)
-                    return np.array([tmp_inds[0] + axe_x[ind_x],
-                                     tmp_inds[1] + axe_y[ind_y]])
-                # else raise warning
-                warnings.warn("There is a point with zero velocity, it's"
-                              "a particular case not implemented yet. "
-                              "Skipping this cell (there will be missing CP).")
-                return np.array([np.nan, np.nan])
             # solve to get the zero velocity point
             tmp_dic = {'Vx_1': Vx_bl[0, 0], 'Vx_2': Vx_bl[0, 1],
                        'Vx_3': Vx_bl[1, 0], 'Vx_4': Vx_bl[1, 1],
-- 
2.43.0


From d68bdc0744f01d2afea6c0d433846efc3b3e8543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:00 +0000
Subject: [PATCH 176/257] fix: get_critical_points: cell dimensions on uneven
 grids

---
 .../vortex_detection/vortex_detection.py      | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index f951229..a0ccad9 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -57,6 +57,16 @@ def velocityfield_to_vf(vectorfield, time):
     return vf
 
 
+def _get_cell_sizes(axe):
+    """
+    Return the size of each cell along an axis.
+    """
+    deltas = np.diff(axe)
+    if np.allclose(deltas, deltas[0], rtol=1e-6, atol=0.):
+        deltas[:] = deltas[0]
+    return deltas
+
+
 class VF(object):
 
     def __init__(self, vx, vy, axe_x, axe_y, mask, theta, time):
@@ -106,8 +116,8 @@ class VF(object):
             ====   ===============
         """
         # get axe data
-        delta_x = self.axe_x[1] - self.axe_x[0]
-        delta_y = self.axe_y[1] - self.axe_y[0]
+        deltas_x = _get_cell_sizes(self.axe_x)
+        deltas_y = _get_cell_sizes(self.axe_y)
         vx_sup_0 = np.array(self.vx > 0, dtype=int)
         vy_sup_0 = np.array(self.vy > 0, dtype=int)
         # check if any masks
@@ -136,6 +146,7 @@ class VF(object):
         Is, Js = I[filt], J[filt]
         for n in np.arange(len(Is)):
             i, j = Is[n], Js[n]
+            delta_x, delta_y = deltas_x[j], deltas_y[i]
             # create tmp_vf object
             tmp_vx = self.vx[i:i + 2, j:j + 2]
             tmp_vy = self.vy[i:i + 2, j:j + 2]
@@ -211,8 +222,8 @@ class VF(object):
         Vx = self.vx
         Vy = self.vy
         mask = self.mask
-        real_dx = axe_x[1] - axe_x[0]
-        real_dy = axe_y[1] - axe_y[0]
+        deltas_x = _get_cell_sizes(axe_x)
+        deltas_y = _get_cell_sizes(axe_y)
         # import linear interpolation levelset solutions (computed with sympy)
         from .levelset_data import get_sol
         sol = get_sol()
@@ -225,6 +236,7 @@ class VF(object):
             # get the cell indices
             ind_x = np.where(tmp_x < axe_x)[0][0] - 1
             ind_y = np.where(tmp_y < axe_y)[0][0] - 1
+            real_dx, real_dy = deltas_x[ind_x], deltas_y[ind_y]
             # get data
             Vx_bl = Vx[ind_y:ind_y + 2, ind_x:ind_x + 2]
             Vy_bl = Vy[ind_y:ind_y + 2, ind_x:ind_x + 2]
-- 
2.43.0


From 20bb840f81d819b2f22c10221c0a9fef2b15a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:14 +0000
Subject: [PATCH 177/257] fix: get_critical_points: position in cells with
 linear velocities

---
 .../vortex_detection/vortex_detection.py      | 56 +++++++++++++++++--
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index a0ccad9..8639398 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -67,6 +67,44 @@ def _get_cell_sizes(axe):
     return deltas
 
 
+def _get_bilinear_residual(Vx, Vy, x, y):
+    """
+    Return the velocity at a position in a cell (from 0 to 1 along x and y).
+    """
+    V = [comp[0, 0]*(1 - x)*(1 - y) + comp[0, 1]*x*(1 - y) +
+         comp[1, 0]*(1 - x)*y + comp[1, 1]*x*y for comp in (Vx, Vy)]
+    return max(abs(V[0]), abs(V[1]))
+
+
+def _get_bilinear_zeros(Vx, Vy):
+    """
+    Return the positions where the velocity is null in a cell
+    (from 0 to 1 along x and y).
+    """
+    # V = a + b*x + c*y + d*x*y
+    V = np.array([Vx, Vy], dtype=float)
+    a = V[:, 0, 0]
+    b = V[:, 0, 1] - a
+    c = V[:, 1, 0] - a
+    d = V[:, 1, 1] - a - b - c
+    # (a + b*x) and (c + d*x) have to be colinear
+    c2 = b[0]*d[1] - b[1]*d[0]
+    c1 = a[0]*d[1] - a[1]*d[0] + b[0]*c[1] - b[1]*c[0]
+    c0 = a[0]*c[1] - a[1]*c[0]
+    delta = max(c1**2 - 4*c2*c0, 0.)
+    q = -(c1 + np.copysign(delta**.5, c1))/2.
+    x = []
+    if c2 != 0:
+        x.append(q/c2)
+    if q != 0:
+        x.append(c0/q)
+    x = np.array(x, dtype=float)
+    num = np.array([-np.dot(a + b*xi, c + d*xi) for xi in x])
+    denom = np.array([np.dot(c + d*xi, c + d*xi) for xi in x])
+    filt = denom != 0
+    return x[filt], num[filt]/denom[filt]
+
+
 class VF(object):
 
     def __init__(self, vx, vy, axe_x, axe_y, mask, theta, time):
@@ -278,15 +316,21 @@ class VF(object):
                     x_sols.append(real_dx/2.)
                     y_sols.append(real_dy/2.)
 
+            # those solutions are not accurate if the velocity is almost
+            # linear along x and y, solve differently in this case
+            V_max = max(np.max(np.abs(Vx_bl)), np.max(np.abs(Vy_bl)))
+            filt = [_get_bilinear_residual(Vx_bl, Vy_bl, x_sols[j]/real_dx,
+                                           y_sols[j]/real_dy) < 1e-6*V_max
+                    for j in np.arange(len(x_sols))]
+            if not np.any(filt):
+                x_sols, y_sols = _get_bilinear_zeros(Vx_bl, Vy_bl)
+                x_sols = x_sols*real_dx
+                y_sols = y_sols*real_dy
             # delete the points outside the cell
             tmp_sol = []
             for j in np.arange(len(x_sols)):
-                if np.iscomplex(x_sols[j]):
-                    x_sols[j] = x_sols[j].as_real_imag()[0]
-                if np.iscomplex(y_sols[j]):
-                    y_sols[j] = y_sols[j].as_real_imag()[0]
-                if (x_sols[j] < 0 or x_sols[j] > real_dx or
-                        y_sols[j] < 0 or y_sols[j] > real_dy):
+                if not (x_sols[j] >= 0 and x_sols[j] <= real_dx and
+                        y_sols[j] >= 0 and y_sols[j] <= real_dy):
                     continue
                 tmp_sol.append([x_sols[j], y_sols[j]])
             # if no more points
-- 
2.43.0


From ffd8541238da86c31c0d5ee114da89a455668ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:30 +0000
Subject: [PATCH 178/257] fix: get_critical_points: do not smooth the given
 field

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 8639398..f95acb8 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2762,7 +2762,8 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
             tmp_vf = obj
         # smoothing if necessary
         if smoothing_size != 0:
-            tmp_vf.smooth(tos='gaussian', size=smoothing_size, inplace=True)
+            tmp_vf = tmp_vf.smooth(tos='gaussian', size=smoothing_size,
+                                   inplace=False)
         # get cp positions
         if kind == 'pbi':
             res = _get_cp_pbi_on_VF(tmp_vf, time=time, unit_time=unit_time,
-- 
2.43.0


From 2b4a411172ce91fa7535c15ed4690989744eaff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:45 +0000
Subject: [PATCH 179/257] fix: get_critical_points: interpolation of the
 mirrored fields of a series

---
 IMTreatment/vortex_detection/vortex_detection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index f95acb8..f151330 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2820,6 +2820,7 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
                                       unit_time=obj.unit_times,
                                       window_size=window_size,
                                       kind=kind, mirroring=mirroring,
+                                      mirror_interp=mirror_interp,
                                       smoothing_size=smoothing_size,
                                       thread=1)
             return res
-- 
2.43.0


From 19498190100a1fb87c085a48559c5dcef132711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:00 +0000
Subject: [PATCH 180/257] fix: get_critical_points, get_vortex_position: units
 of fields without vortex

---
 IMTreatment/vortex_detection/vortex_detection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index f151330..fd600d3 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2876,10 +2876,14 @@ def get_vortex_position(obj, criterion=get_residual_vorticity,
             threshold=threshold,
             rel=rel)
         cp = CritPoints(unit_time='')
+        cp.unit_x = obj.unit_x
+        cp.unit_y = obj.unit_y
         cp.add_point(foc=vort, foc_c=vort_c, time=0)
         return cp
     elif isinstance(obj, TemporalVectorFields):
         cp = CritPoints(unit_time=obj.unit_times)
+        cp.unit_x = obj.unit_x
+        cp.unit_y = obj.unit_y
         # loop on fields
         for i, field in enumerate(obj.fields):
             tmp_vort_c, tmp_vort = _get_vortex_position_on_VF(
@@ -3325,6 +3329,8 @@ def _get_gamma2_vortex_center_on_VF(vectorfield, time=0,
     centers_cv = gamma.get_zones_centers(bornes=[2/np.pi, 1.], rel=False)
     # return
     pts = CritPoints(unit_time=unit_time)
+    pts.unit_x = vectorfield.unit_x
+    pts.unit_y = vectorfield.unit_y
     pts.add_point(foc=centers_cv, foc_c=centers_c, time=time)
     return pts
 
-- 
2.43.0


From ce85131f55e722b6e17eb9852bcf12ce0062742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 181/257] fix: get_critical_points: solutions inside of the
 cells

---
 .../vortex_detection/vortex_detection.py      | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index fd600d3..204600a 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -319,20 +319,22 @@ class VF(object):
             # those solutions are not accurate if the velocity is almost
             # linear along x and y, solve differently in this case
             V_max = max(np.max(np.abs(Vx_bl)), np.max(np.abs(Vy_bl)))
-            filt = [_get_bilinear_residual(Vx_bl, Vy_bl, x_sols[j]/real_dx,
-                                           y_sols[j]/real_dy) < 1e-6*V_max
-                    for j in np.arange(len(x_sols))]
-            if not np.any(filt):
-                x_sols, y_sols = _get_bilinear_zeros(Vx_bl, Vy_bl)
-                x_sols = x_sols*real_dx
-                y_sols = y_sols*real_dy
-            # delete the points outside the cell
             tmp_sol = []
             for j in np.arange(len(x_sols)):
+                # delete the points outside the cell
                 if not (x_sols[j] >= 0 and x_sols[j] <= real_dx and
                         y_sols[j] >= 0 and y_sols[j] <= real_dy):
                     continue
-                tmp_sol.append([x_sols[j], y_sols[j]])
+                res = _get_bilinear_residual(Vx_bl, Vy_bl, x_sols[j]/real_dx,
+                                             y_sols[j]/real_dy)
+                if res < 1e-6*V_max:
+                    tmp_sol.append([x_sols[j], y_sols[j]])
+            if len(tmp_sol) == 0:
+                x_sols, y_sols = _get_bilinear_zeros(Vx_bl, Vy_bl)
+                for j in np.arange(len(x_sols)):
+                    if (x_sols[j] >= 0 and x_sols[j] <= 1 and
+                            y_sols[j] >= 0 and y_sols[j] <= 1):
+                        tmp_sol.append([x_sols[j]*real_dx, y_sols[j]*real_dy])
             # if no more points
             if len(tmp_sol) == 0:
                 res_pos = np.array([tmp_x, tmp_y])
-- 
2.43.0


From 1f15ae1c656c2d9cb7f13672114e9c50960593d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:11 +0000
Subject: [PATCH 182/257] fix: get_critical_points: saddle orientations on
 uneven grids

---
 IMTreatment/vortex_detection/vortex_detection.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 204600a..83c02f7 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -3419,8 +3419,6 @@ def _get_saddle_orientations(vectorfield, pt):
     # vectorfield = vectorfield.smooth(tos='gaussian', size=1, inplace=False)
     # get data
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
-    dx = vectorfield.axe_x[1] - vectorfield.axe_x[0]
-    dy = vectorfield.axe_y[1] - vectorfield.axe_y[0]
     Vx = vectorfield.comp_x
     Vy = vectorfield.comp_y
     # get surrounding points
@@ -3432,6 +3430,11 @@ def _get_saddle_orientations(vectorfield, pt):
     if (np.any(inds_x_2 > len(axe_x) - 1) or np.any(inds_x_2 < 0) or
             np.any(inds_y_2 > len(axe_y) - 1) or np.any(inds_y_2 < 0)):
         return [[0, 0], [0, 0]]
+    dx = _get_cell_sizes(axe_x[inds_x_2])
+    dy = _get_cell_sizes(axe_y[inds_y_2])
+    # use the positions if the grid is uneven
+    dx = dx[0] if np.all(dx == dx[0]) else axe_x[inds_x_2]
+    dy = dy[0] if np.all(dy == dy[0]) else axe_y[inds_y_2]
     # get surounding gradients
     inds_X_2, inds_Y_2 = np.meshgrid(inds_x_2, inds_y_2)
     local_Vx = Vx[inds_X_2, inds_Y_2]
@@ -3464,10 +3467,6 @@ def _get_jacobian_matrix(Vx, Vy, dx=1., dy=1, pt=None):
     # compute gradients
     Vx_dx, Vx_dy = np.gradient(Vx.transpose(), dx, dy)
     Vy_dx, Vy_dy = np.gradient(Vy.transpose(), dx, dy)
-    axe_x = np.arange(0, Vx.shape[0]*dx, dx)
-    axe_y = np.arange(0, Vx.shape[1]*dy, dy)
-    if pt is None:
-        pt = [np.mean(axe_x), np.mean(axe_y)]
     # get interpolated gradient at the point
     Vx_dx2 = np.mean(Vx_dx)
     Vx_dy2 = np.mean(Vx_dy)
-- 
2.43.0


From 9d76efb9f2701d172d8dd2d31b8c5c2ebd761e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:28 +0000
Subject: [PATCH 183/257] fix: ScalarField.mirroring: linear interpolation
 along x

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 9766719..bb085af 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1656,7 +1656,7 @@ class ScalarField(fld.Field):
             # direction x
             if side in ['right', 'left']:
                 # get last column
-                ind_last = np.where(mask[:, 0])[0][0] - 1
+                ind_last = np.where(mask[:, 0])[0][0]
                 # get number of missing values
                 nmb_masked = np.sum(mask[:, 0])
                 # loop on lines
-- 
2.43.0


From a42155467ae5e7790fd03e6e2583a32f4b1c0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:59 +0000
Subject: [PATCH 184/257] fix: CritPoints: remove the obsolete trajectories

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 83c02f7..0ae5c10 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1603,8 +1603,8 @@ class CritPoints(object):
         This method is called when some points are modified (deleted or added).
         """
         self.current_epsilon = None
-        for i in range(len(self.iter_traj)):
-            self.iter_traj[i] = None
+        for cp_type in self.cp_types:
+            self.__setattr__("{}_traj".format(cp_type), None)
 
     def _remove_void_trajectories(self):
         """
-- 
2.43.0


From 4fa09aae54d5b9edd9782e914a4c0efb656c3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:17 +0000
Subject: [PATCH 185/257] fix: CritPoints.compute_traj: epsilon is a distance

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 0ae5c10..4bc752b 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1783,7 +1783,7 @@ class CritPoints(object):
                         = np.unravel_index(np.argmin(dist2_mat),
                                            dist2_mat.shape)
                     # if dist to big or nothing remaining, we stop
-                    if (dist2_mat[indmin_pt, indmin_line] > epsilon or
+                    if (dist2_mat[indmin_pt, indmin_line] > self.epsilon2 or
                             dist2_mat[indmin_pt, indmin_line] == np.inf):
                         break
                     # append pt to Line
-- 
2.43.0


From 8bb5ceccddfb216f7a9abbcb3a12210180140195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:29 +0000
Subject: [PATCH 186/257] fix: CritPoints.crop: trajectories

---
 .../vortex_detection/vortex_detection.py      | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 4bc752b..4d7ff75 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1381,10 +1381,15 @@ class CritPoints(object):
             tmp_cp.sadd = tmp_cp.sadd[filt]
             tmp_cp.node_i = tmp_cp.node_i[filt]
             tmp_cp.node_o = tmp_cp.node_o[filt]
-            for traj_type in self.iter_traj:
-                [traj.crop(intervv=intervt, ind=ind, inplace=True)
-                 for traj in traj_type]
-            self._remove_void_trajectories()
+            for traj_type in tmp_cp.iter_traj:
+                if traj_type is None:
+                    continue
+                for traj in traj_type:
+                    filt = np.in1d(traj.v, tmp_cp.times)
+                    v = traj.v[filt]
+                    traj.xy = traj.xy[filt]
+                    traj.v = v
+            tmp_cp._remove_void_trajectories()
         # spatial cropping
         if intervx is not None or intervy is not None:
             for kind in tmp_cp.iter:
@@ -1613,8 +1618,10 @@ class CritPoints(object):
         for traj_type in self.cp_types:
             traj_type = "{}_traj".format(traj_type)
             trajs = self.__getattribute__(traj_type)
-            filt = np.array([len(traj) != 0 for traj in trajs])
-            self.__setattr__(traj_type, trajs[filt])
+            if trajs is None:
+                continue
+            self.__setattr__(traj_type,
+                             [traj for traj in trajs if len(traj) != 0])
 
     def _sort_by_time(self):
         """
-- 
2.43.0


From e55000d9e487306a1b535ec5533c6224bdefbec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:44 +0000
Subject: [PATCH 187/257] fix: CritPoints.set_origin, change_unit: without
 trajectories

---
 IMTreatment/vortex_detection/vortex_detection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 4d7ff75..85e09f5 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1251,6 +1251,8 @@ class CritPoints(object):
             for pt in pts:
                 pt.set_origin(x=x, y=y)
         for trajs in self.iter_traj:
+            if trajs is None:
+                continue
             for traj in trajs:
                 traj.set_origin(x=x, y=y)
 
@@ -1290,8 +1292,9 @@ class CritPoints(object):
                 for pt in kind:
                     pt.change_unit('v', new_unit)
             for kind in self.iter_traj:
-                for pt in kind:
-                    pt.change_unit('v', new_unit)
+                if kind is not None:
+                    for pt in kind:
+                        pt.change_unit('v', new_unit)
             old_unit = self.unit_time
             new_unit = old_unit.asUnit(new_unit)
             fact = new_unit.asNumber()
-- 
2.43.0


From 1078c97ace758fdd4f0332d57d066a7e69dd58b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:59 +0000
Subject: [PATCH 188/257] fix: CritPoints.__add__: do not share the points

---
 IMTreatment/vortex_detection/vortex_detection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 85e09f5..0544c97 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -516,9 +516,9 @@ class CritPoints(object):
     def __add__(self, obj):
         if isinstance(obj, CritPoints):
             if len(obj.times) == 0:
-                return self
+                return self.copy()
             if len(self.times) == 0:
-                return obj
+                return obj.copy()
             if not self.unit_time == obj.unit_time:
                 raise ValueError()
             if not self.unit_x == obj.unit_x:
@@ -535,6 +535,7 @@ class CritPoints(object):
             tmp_CP.node_o = np.append(self.node_o, obj.node_o)
             tmp_CP.sadd = np.append(self.sadd, obj.sadd)
             tmp_CP.times = np.append(self.times, obj.times)
+            tmp_CP = tmp_CP.copy()
             tmp_CP._sort_by_time()
             # test if there is double
             for i, t in enumerate(tmp_CP.times[0:-1]):
-- 
2.43.0


From 6288e7dc0963ec53b7f16450e9608722dc650061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:14 +0000
Subject: [PATCH 189/257] fix: CritPoints.topo_simplify

---
 IMTreatment/vortex_detection/vortex_detection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 0544c97..dc0f697 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1500,7 +1500,7 @@ class CritPoints(object):
         simpl_CP = CritPoints(unit_time=self.unit_time)
         for i in np.arange(len(self.times)):
             TP = TopoPoints()
-            TP.import_from_CP(self, i)
+            TP.import_from_CP(self, int(i))
             TP = TP.simplify(dist_min, kind=kind)
             xy = TP.xy[TP.types == 1]
             foc = Points(xy=xy, v=[self.times[i]]*len(xy),
@@ -2211,6 +2211,8 @@ class TopoPoints(object):
         # check parameters
         try:
             xy = np.array(xy, dtype=float)
+            if xy.size == 0:
+                xy = xy.reshape((0, 2))
             types = np.array(types, dtype=int)
         except ValueError:
             raise TypeError()
@@ -2302,7 +2304,7 @@ class TopoPoints(object):
         types = [[typ] for typ in types]
         pbis = self.pbis.copy()
         # simplication loop
-        while True:
+        while self.dim > 0:
             # get min position
             amin = np.argmin(dist2)
             ind_1 = int(amin/self.dim)
-- 
2.43.0


From 42269d0023e5c0f543a6a815462bede5a4bfb33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:30 +0000
Subject: [PATCH 190/257] fix: CritPoints.refine_cp_position: keep an array of
 points

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index dc0f697..218e357 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1586,6 +1586,9 @@ class CritPoints(object):
                                                       extrema=extrema)
             new_cp_pts.append(new_pt)
         # store new positions
+        tmp_pts = np.empty(len(new_cp_pts), dtype=object)
+        tmp_pts[:] = new_cp_pts
+        new_cp_pts = tmp_pts
         if inplace:
             tmp_traj = self
         else:
-- 
2.43.0


From 4b3b07a0afaf0cae21b1b34fac830a5349acab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:35 +0000
Subject: [PATCH 191/257] fix: CritPoints.compute_traj: epsilon in another unit

---
 IMTreatment/vortex_detection/vortex_detection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 218e357..ee12bef 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -660,11 +660,10 @@ class CritPoints(object):
         elif isinstance(epsilon, NUMBERTYPES):
             pass
         elif isinstance(epsilon, unum.Unum):
-            fact = epsilon/self.unit_x
-            unit_fact = fact.strUnit()
-            if unit_fact != '[]':
+            try:
+                epsilon = epsilon.asNumber(self.unit_x)
+            except unum.IncompatibleUnitsError:
                 raise ValueError()
-            epsilon = fact.asNumber()
         else:
             raise TypeError()
         self.current_epsilon = epsilon
-- 
2.43.0


From 2520ac2541603bf920e91d385ba3d83a0a81dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:18 +0000
Subject: [PATCH 192/257] fix: SpatialFields.rotate

---
 IMTreatment/core/fields.py        |  3 ++-
 IMTreatment/core/spatialfields.py | 13 +++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index a7cdcb9..4bd2c2e 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -112,7 +112,8 @@ class Fields(object):
         # normalize angle
         angle = angle % 360
         # rotate the parent
-        field.Field.rotate(tmp_field, angle, inplace=True)
+        if isinstance(tmp_field, field.Field):
+            field.Field.rotate(tmp_field, angle, inplace=True)
         # rotate fields
         for i in np.arange(len(tmp_field.fields)):
             tmp_field.fields[i].rotate(angle=angle, inplace=True)
diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 52469b4..92e78ad 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -176,6 +176,19 @@ class SpatialFields(flds.Fields):
         # add field
         flds.Fields.add_field(self, field, copy=False)
 
+    def rotate(self, angle, inplace=False):
+        """
+        Rotate the fields (see 'Fields.rotate').
+        """
+        tmp_fields = self if inplace else self.copy()
+        flds.Fields.rotate(tmp_fields, angle, inplace=True)
+        if len(tmp_fields.fields) != 0:
+            tmp_fields.unit_x = tmp_fields.fields[0].unit_x
+            tmp_fields.unit_y = tmp_fields.fields[0].unit_y
+        # returning
+        if not inplace:
+            return tmp_fields
+
     def get_value(self, x, y, unit=False, error=True):
         """
         Return the field component(s) on the point (x, y).
-- 
2.43.0


From 089c977c4e35a7d1c1e096ee7eee51159a149782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:00 +0000
Subject: [PATCH 193/257] fix: Profile.fill: in place, with cropping and
 nothing left to fill

---
 IMTreatment/core/profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8c89525..27dbc70 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1591,6 +1591,8 @@ class Profile(object):
                 return self.crop_masked_border().fill(kind=kind,
                                                       fill_value=fill_value)
             self.crop_masked_border(inplace=True)
+            if not np.any(self.mask):
+                return None
         # get mask
         mask = self.mask
         filt = np.logical_not(mask)
-- 
2.43.0


From 5aac8f328261a80f63b152bc52fc449129382dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:28 +0000
Subject: [PATCH 194/257] fix: BlasiusBL.get_profile: start from the wall
 whatever the asked positions

---
 IMTreatment/boundary_layer/boundary_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ae9be9a..513ec94 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -234,7 +234,8 @@ class BlasiusBL(object):
             else:
                 theta = y/(np.sqrt(x)*np.sqrt(self.nu/self.Uinf))
             # solving with scipy ode solver
-            sol = odeint(f_deriv, f0, theta)
+            # (the initial values hold at the wall)
+            sol = odeint(f_deriv, f0, np.append([0], theta))[1:]
             # getting adimensionnale velocity
             u_over_U = sol[:, 1]
             # getting dimensionnal values
-- 
2.43.0


From ef04985b8440416a1c248fc0cd89e376e5eafa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:55 +0000
Subject: [PATCH 195/257] fix: BlasiusBL.get_profile: turbulent case

---
 IMTreatment/boundary_layer/boundary_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 513ec94..dc71c52 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -242,12 +242,12 @@ class BlasiusBL(object):
             u = u_over_U*self.Uinf
         # Turbulent case
         else:
-            delta, _, _ = self.get_thickness(x, allTurbulent=True)
+            delta = self.get_BL_properties(x, allTurbulent=True)[0][0]
             if y is None:
                 theta = np.linspace(0, 10, 200)
-                y = theta*delta.y[0]
+                y = theta*delta
             else:
-                theta = y/delta.y[0]
+                theta = np.asarray(y)/delta
             u_over_U = np.power(theta, 1./7.)
             u_over_U[theta > 1] = 1.
             u = u_over_U*self.Uinf
-- 
2.43.0


From 578aad3034bfe88983ecfcb35b01ec212afd96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:13 +0000
Subject: [PATCH 196/257] fix: BlasiusBL.get_x_from_delta: same coefficient as
 the thickness

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index dc71c52..3248711 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -292,7 +292,7 @@ class BlasiusBL(object):
         Return a the x value that give the wanted delta.
         """
         # getting the laminar value of x
-        xpos = (delta**2*self.Uinf)/(4.92**2*self.nu)
+        xpos = (delta**2*self.Uinf)/(4.91**2*self.nu)
         # checking if turbulent
         Re_x = self.get_Rex(xpos)
         if Re_x > 5e5 or allTurbulent:
-- 
2.43.0


From 1c9898bcaa924e2ac6f3e9ad46ac8892daac4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:30 +0000
Subject: [PATCH 197/257] fix: BlasiusBL.get_profile_with_confinement:
 turbulent case

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 3248711..1e013da 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -283,7 +283,7 @@ class BlasiusBL(object):
         # get
         delta = self.get_thickness_with_confinement(x, h,
                                                     allTurbulent=allTurbulent)
-        eq_x = self.get_x_from_delta(delta.y[0])
+        eq_x = self.get_x_from_delta(delta.y[0], allTurbulent=allTurbulent)
         # return
         return self.get_profile(eq_x, y=y, allTurbulent=allTurbulent)
 
-- 
2.43.0


From bf14fc978d78357fd37edf38d7814bb733aae73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:47 +0000
Subject: [PATCH 198/257] fix: FalknerSkanBL.get_mu: inverse of get_y

---
 IMTreatment/boundary_layer/boundary_layer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 1e013da..a147de2 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -330,8 +330,7 @@ class FalknerSkanBL(object):
         """
         return the \mu parameter at the position '(x, y)'.
         """
-        return y*(self.c0*(self.m + 1)/(2*self.nu*self.L))**.5 * \
-            (x/self.L)**((self.m - 1)/2.)
+        return y/(self.nu*x/self.get_u_e(x))**.5
 
     def get_y(self, x, mu):
         """
-- 
2.43.0


From 817329ee72a3ef95881bb743a439b25f3500075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:06 +0000
Subject: [PATCH 199/257] fix: ThwaitesBL.get_BL_properties: gradient along x

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index a147de2..a1ebc7d 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -602,7 +602,7 @@ class ThwaitesBL(object):
         """
         # get u_e and grad u_e
         u_e = np.array([self.u_e(xi) for xi in x])
-        d_u_e = np.gradient(u_e)
+        d_u_e = np.gradient(u_e, np.asarray(x, dtype=float))
         # get delta2
         delta2 = self.get_momentum_thikness(x)
         # get lambda
-- 
2.43.0


From 43e4d1e7284feb1f275177380a4779148e3b29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:22 +0000
Subject: [PATCH 200/257] fix: WallLaw.get_profile: accept lists

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index a1ebc7d..19faf89 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -716,11 +716,11 @@ class WallLaw(object):
         """
         if not isinstance(y, ARRAYTYPES):
             raise TypeError("'y' has to be an array")
+        y = np.array(y)
         if any(y < 0):
             raise ValueError("'y' has to be an array of positive number")
         if any(y > self.h):
             raise ValueError("'y' has to be smaller than the water depth")
-        y = np.array(y)
         yplus = y*self.Utau/self.visc_c
         ylimscv = 11.63
         ylimlog = 450.
-- 
2.43.0


From 5c9c6cab6c3bc5221c78027e4399f846b25aff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 201/257] fix: get_bl_thickness: scalar fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 19faf89..acaaa10 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -843,12 +843,12 @@ def get_bl_thickness(obj, direction=1, perc=0.95):
         return value[0]
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_bl_thickness(prof, perc=perc) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
     else:
         raise TypeError("Can't compute (yet ?) BL thickness on this kind of"
                         " data : {}".format(type(obj)))
-- 
2.43.0


From bb4df0948dfd66a0716d267a6ed8cd3a90e860aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:32 +0000
Subject: [PATCH 202/257] fix: get_displ_thickness: scalar fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index acaaa10..44df0ff 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -949,12 +949,12 @@ def get_displ_thickness(obj, direction=1):
         return delta
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_displ_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
     else:
         raise TypeError("Can't compute (yet ?) BL displacement thickness on"
                         "this kind of data : {}".format(type(obj)))
-- 
2.43.0


From b1a4c891e1538b32beacb002123c9f37c83cda32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:49 +0000
Subject: [PATCH 203/257] fix: get_momentum_thickness: scalar fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 44df0ff..3aef50d 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1006,12 +1006,12 @@ def get_momentum_thickness(obj, direction=1):
         return delta
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_momentum_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
     else:
         raise TypeError("Can't compute (yet ?) BL momentum thickness on"
                         "this kind of data")
-- 
2.43.0


From 7c5c01a38b36350ad0bb1cb18dd8c7a1759e7c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:06 +0000
Subject: [PATCH 204/257] fix: get_clauser_thickness: scalar fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 3aef50d..5e2224f 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -893,14 +893,14 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
     # if obj is a scalarField
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
-                                        nu=nu)
-                  for prof, _ in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+                                        nu=nu, tau=tau)
+                  for prof in profiles]
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
 
 
 def get_displ_thickness(obj, direction=1):
-- 
2.43.0


From 95486a8ce5397c1e973a3b916eb7033b589a2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:24 +0000
Subject: [PATCH 205/257] fix: get_displ_thickness: leave masked points out

---
 IMTreatment/boundary_layer/boundary_layer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 5e2224f..12f029d 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -929,10 +929,9 @@ def get_displ_thickness(obj, direction=1):
             return 0
         obj = obj.crop([0, bl_thick])
         # removing negative and masked points
-        if isinstance(obj.y, np.ma.MaskedArray):
-            mask = np.logical_and(obj.y.mask, obj.x < 0)
-            obj.x = obj.x[~mask]
-            obj.y = obj.y._data[~mask]
+        keep = np.logical_and(~obj.mask, obj.x >= 0)
+        obj = Profile(obj.x[keep], obj.y[keep], unit_x=obj.unit_x,
+                      unit_y=obj.unit_y)
         # if there is no more value in the profile (all masked)
         if len(obj.x) == 0:
             return 0
-- 
2.43.0


From 05ef588de0857fcfa1965064bf0d4d75d43af3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:44 +0000
Subject: [PATCH 206/257] fix: get_momentum_thickness: leave masked points out

---
 IMTreatment/boundary_layer/boundary_layer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 12f029d..00af3d1 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -985,10 +985,9 @@ def get_momentum_thickness(obj, direction=1):
             return 0
         obj = obj.crop([0, bl_thick])
         # removing negative and masked points
-        if isinstance(obj.y, np.ma.MaskedArray):
-            mask = np.logical_and(obj.y.mask, obj.x < 0)
-            obj.x = obj.x[~mask]
-            obj.y = obj.y._data[~mask]
+        keep = np.logical_and(~obj.mask, obj.x >= 0)
+        obj = Profile(obj.x[keep], obj.y[keep], unit_x=obj.unit_x,
+                      unit_y=obj.unit_y)
         # if there is no more profile (all masked)
         if len(obj.x) == 0:
             return 0
-- 
2.43.0


From b9f473b447fe2ff14d318ded2bc505ee68be5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:08 +0000
Subject: [PATCH 207/257] fix: get_shear_stress: scalar fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 22 +++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 00af3d1..4bcda93 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1138,24 +1138,26 @@ def get_shear_stress(obj, direction=1, method='simple',
         else:
             axe = obj.axe_y
         # get profiles
-        profiles = [obj.get_profile(direction, pos_ind, ind=True)
+        profiles = [obj.get_profile('xy'[direction - 1], pos_ind, ind=True)
                     for pos_ind in range(len(axe))]
         # get shear stresses
         values = np.zeros(obj.shape)
         for i in range(len(profiles)):
             if direction == 1:
-                values[i, :] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                tau = get_shear_stress(profiles[i], direction=1,
+                                       method=method, respace=False,
+                                       tau_w_guess=tau_w_guess,
+                                       rho=rho, nu=nu)
+                values[i, :] = tau.y
             else:
-                values[:, i] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                tau = get_shear_stress(profiles[i], direction=1,
+                                       method=method, respace=False,
+                                       tau_w_guess=tau_w_guess,
+                                       rho=rho, nu=nu)
+                values[:, i] = tau.y
         # returning
         mask = np.isnan(values)
-        unit_values = profiles[0].unit_y
+        unit_values = tau.unit_y
         tau_w = ScalarField()
         tau_w.import_from_arrays(obj.axe_x, obj.axe_y, values, mask=mask,
                                  unit_x=obj.unit_x, unit_y=obj.unit_y,
-- 
2.43.0


From 8b8f151d7f812474d65dfcdaa3f0e61e463dee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:32 +0000
Subject: [PATCH 208/257] fix: get_separation_position: lines around the wall

---
 IMTreatment/boundary_layer/boundary_layer.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 4bcda93..40c1025 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1257,23 +1257,20 @@ def get_separation_position(obj, wall_direction, wall_position,
     if wall_position < axe[0]:
         lines_pos = axe[0:nmb_lines]
     elif wall_position > axe[-1]:
-        lines_pos = axe[-nmb_lines-1:-1]
+        lines_pos = axe[-nmb_lines:]
     else:
         inds = V.get_indice_on_axe(wall_direction, wall_position)
         if len(inds) == 1:
             inds = [inds[0], inds[0] + 1]
-        if inds[0] - nmb_lines/2 < 0:
-            lines_pos = axe[0:nmb_lines]
-        elif inds[-1] + nmb_lines/2 > len(axe):
-            lines_pos = axe[-nmb_lines-1:-1]
-        else:
-            lines_pos = axe[inds[0] - nmb_lines/2:inds[1] + nmb_lines/2]
+        start = min(inds[1] - nmb_lines//2, len(axe) - nmb_lines)
+        start = max(start, 0)
+        lines_pos = axe[start:start + nmb_lines]
     # Getting separation points on surrounding lines
     seps = np.array([])
     new_lines_pos = np.array([])
     for lp in lines_pos:
         # extraction one line
-        tmp_profile = V.get_profile(wall_direction, lp)
+        tmp_profile = V.get_profile('xy'[wall_direction - 1], lp)
         # getting the velocity sign changment on the line
         values = tmp_profile.get_interpolated_values(y=0)
         values = np.array(values)
@@ -1294,7 +1291,7 @@ def get_separation_position(obj, wall_direction, wall_position,
     if np.any(np.isnan(seps)):
         warnings.warn("I can't find a separation points on one (or more)"
                       " line(s). You may want to change 'interval' values")
-        seps = seps[~np.isnan(seps)]
         lines_pos = lines_pos[~np.isnan(seps)]
+        seps = seps[~np.isnan(seps)]
     interp = UnivariateSpline(lines_pos, seps, k=1)
     return float(interp(wall_position))
-- 
2.43.0


From a57d4dc75206f2b6316f86155de49d085a3fa9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:50 +0000
Subject: [PATCH 209/257] fix: get_separation_position: number of lines for
 series of fields

---
 IMTreatment/boundary_layer/boundary_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 40c1025..307abe9 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1246,7 +1246,8 @@ def get_separation_position(obj, wall_direction, wall_position,
             pts.append(get_separation_position(field,
                                                wall_direction=wall_direction,
                                                wall_position=wall_position,
-                                               interval=interval))
+                                               interval=interval,
+                                               nmb_lines=nmb_lines))
         return Profile(times, pts, unit_x=obj.unit_times,
                        unit_y=unit_axe)
     else:
-- 
2.43.0


From 8ee591d8ddea8d811a4ff37af532be3d07dfccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:29 +0000
Subject: [PATCH 210/257] fix: FalknerSkanBL.get_f_function: leave the warning
 filters as they were

---
 IMTreatment/boundary_layer/boundary_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 307abe9..1a0e588 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -368,8 +368,6 @@ class FalknerSkanBL(object):
             Runge-Kutta or Vode cannot take care of the :math:`f'(\\infty)=0`.
             This ODE system is so solved with a shooting method.
         """
-        import warnings
-        warnings.filterwarnings('error')
         # Set mu values
         mu = np.linspace(0, 10, 100)
 
@@ -401,7 +399,9 @@ class FalknerSkanBL(object):
         for tmpY3 in tmp_Y3s:
             ODE.set_initial_value([0, 0, tmpY3])
             try:
-                prof = ODE.integrate(mu[-1])
+                with warnings.catch_warnings():
+                    warnings.simplefilter('error')
+                    prof = ODE.integrate(mu[-1])
             except RuntimeWarning:
                 tmp_Y1ps.append(np.nan)
                 tmp_Y2ps.append(np.nan)
-- 
2.43.0


From 4c2d4010064fc9b15b9cadcefb70d78b9ee0b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:11 +0000
Subject: [PATCH 211/257] fix: FalknerSkanBL.get_f_function: no pressure
 gradient

---
 IMTreatment/boundary_layer/boundary_layer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 1a0e588..799ccb8 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -419,9 +419,7 @@ class FalknerSkanBL(object):
             tmp_neg = resid[:-1]*resid[1::]
             ind1 = np.where(tmp_neg < 0)[0]
             ind2 = np.where(tmp_Y2ps[:-1]*tmp_Y2ps[1:] < 0)[0]
-            ind = [ind1[i]
-                   for i in np.arange(len(ind1))
-                   if ind1[i] == ind2[i]][0]
+            ind = np.append(np.intersect1d(ind1, ind2), ind1)[0]
             interval_Y1p = [tmp_Y1ps[ind], tmp_Y1ps[ind + 1]]
             interval_Y3 = [tmp_Y3s[ind], tmp_Y3s[ind + 1]]
         # check if we get a lesser cool interval
-- 
2.43.0


From 5ad3ac51af6c83c7fbfa6b03dd28415ce7983a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:41 +0000
Subject: [PATCH 212/257] fix: FalknerSkanBL.get_f_function: discard the
 guesses the integrator cannot follow

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 799ccb8..a6ec951 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -402,7 +402,7 @@ class FalknerSkanBL(object):
                 with warnings.catch_warnings():
                     warnings.simplefilter('error')
                     prof = ODE.integrate(mu[-1])
-            except RuntimeWarning:
+            except (RuntimeWarning, UserWarning):
                 tmp_Y1ps.append(np.nan)
                 tmp_Y2ps.append(np.nan)
             else:
-- 
2.43.0


From 62daa56965eec70d58f985636bb6a687575d788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:13 +0000
Subject: [PATCH 213/257] fix: get_shear_stress: fields with any units

---
 IMTreatment/boundary_layer/boundary_layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index a6ec951..1b5874b 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1155,7 +1155,9 @@ def get_shear_stress(obj, direction=1, method='simple',
                 values[:, i] = tau.y
         # returning
         mask = np.isnan(values)
-        unit_values = tau.unit_y
+        scale = tau.unit_y.asNumber()
+        values *= scale
+        unit_values = tau.unit_y/scale
         tau_w = ScalarField()
         tau_w.import_from_arrays(obj.axe_x, obj.axe_y, values, mask=mask,
                                  unit_x=obj.unit_x, unit_y=obj.unit_y,
-- 
2.43.0


From 814c6446ade79630f94019954bd534d14a754be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:20 +0000
Subject: [PATCH 214/257] fix: get_vortex_radius: vortices rotating clockwise

---
 IMTreatment/vortex_properties/vortex_properties.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 573888c..8f11052 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -76,14 +76,15 @@ def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
     # getting the ~initial maximum vorticity of the zone
     ind_x = VF.get_indice_on_axe(1, vort_center[0], kind='nearest')
     ind_y = VF.get_indice_on_axe(2, vort_center[1], kind='nearest')
-    max_vort = vort.values[ind_x, ind_y]
+    values = vort.values*np.sign(vort.values[ind_x, ind_y])
+    max_vort = values[ind_x, ind_y]
     # getting zone around point
-    zones, nmb_zones = msr.label(vort.values > eps_detection*max_vort)
+    zones, nmb_zones = msr.label(values > eps_detection*max_vort)
     zone_number = zones[ind_x, ind_y]
     # getting the real maximum vorticity
-    max_vort = np.max(vort.values[zones == zone_number])
+    max_vort = np.max(values[zones == zone_number])
     # getting the real zones
-    zones, nmb_zones = msr.label(vort.values > eps_detection*max_vort)
+    zones, nmb_zones = msr.label(values > eps_detection*max_vort)
     zone_number = zones[ind_x, ind_y]
     # getting the zone area and radius
     area = np.sum(zones == zone_number)*dx*dy
-- 
2.43.0


From f237e1cc626574f3a0d428f12bb3eafb9f6d0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:37 +0000
Subject: [PATCH 215/257] fix: get_vortex_radius: no vortex at the given
 position

---
 IMTreatment/vortex_properties/vortex_properties.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 8f11052..cbe46bc 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -87,10 +87,15 @@ def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
     zones, nmb_zones = msr.label(values > eps_detection*max_vort)
     zone_number = zones[ind_x, ind_y]
     # getting the zone area and radius
-    area = np.sum(zones == zone_number)*dx*dy
+    if zone_number == 0:
+        area = 0.
+    else:
+        area = np.sum(zones == zone_number)*dx*dy
     radius = (area/np.pi)**.5
     # getting the new center
-    if output_center:
+    if output_center and zone_number == 0:
+        center = np.array(vort_center, dtype=float)
+    elif output_center:
         center = np.array(msr.center_of_mass(np.abs(vort.values),
                                              zones == zone_number))
         center[0] = VF.axe_x[0] + center[0]*dx
-- 
2.43.0


From cd27079d70a8d5204d2b82730cd3777b4d5f9713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:54 +0000
Subject: [PATCH 216/257] fix: get_vortex_radius: unit

---
 IMTreatment/vortex_properties/vortex_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index cbe46bc..5062642 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -102,7 +102,7 @@ def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
         center[1] = VF.axe_y[0] + center[1]*dy
     # optional computed unit
     if output_unit:
-        unit_radius = (VF.unit_x**2 + VF.unit_y**2)**.5
+        unit_radius = (VF.unit_x*VF.unit_y)**.5
     # return
     if not output_unit and not output_center:
         return radius
-- 
2.43.0


From 6a3bed339e88418b119a10362c78fcf70a07c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:11 +0000
Subject: [PATCH 217/257] fix: get_vortex_property: accept centers at rest

---
 IMTreatment/vortex_properties/vortex_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 5062642..1918478 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -255,8 +255,8 @@ def get_vortex_property(VF, vort_center, size_crit=None, size_crit_lim=0.1,
     ind_x = VF.get_indice_on_axe(1, vort_center[0], kind='nearest')
     ind_y = VF.get_indice_on_axe(2, vort_center[1], kind='nearest')
     unit_int = prop_crit.unit_values*prop_crit.unit_x*prop_crit.unit_y
-    # check if value is positive at the vortex center
-    if VF.magnitude[ind_x, ind_y] <= 0:
+    # check if there is a value at the vortex center
+    if not size_crit.values[ind_x, ind_y] >= 0:
         raise ValueError()
     # get first guess vortex zone (use value at center as a predica of
     #    the maxima)
-- 
2.43.0


From 3c80c51d54224aa94fbda2263f5bd80b69b3504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:27 +0000
Subject: [PATCH 218/257] fix: get_vortex_property: center outside of the
 vortex

---
 IMTreatment/vortex_properties/vortex_properties.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 1918478..cf2cc23 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -275,6 +275,12 @@ def get_vortex_property(VF, vort_center, size_crit=None, size_crit_lim=0.1,
     vort_zones = size_crit.values > size_crit_maxi*size_crit_lim
     vort_zones_labs, _ = msr.label(vort_zones)
     lab = vort_zones_labs[ind_x, ind_y]
+    # if the center is finally outside
+    if lab == 0:
+        if output_unit:
+            return 0, unit_int
+        else:
+            return 0
     # get prop_crit integral along zone
     tmp_prop_crit = prop_crit.values.copy()
     tmp_prop_crit[lab != vort_zones_labs] = 0.
-- 
2.43.0


From 40403ce81ce68cc2c9afa492035c8b85fc63f473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:36 +0000
Subject: [PATCH 219/257] fix: object_1D.refine: leave open boundaries open

---
 IMTreatment/potential_flow/potential_flow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index d6b753a..283a133 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -430,9 +430,9 @@ class object_1D(object):
                 continue
             new_x += list(np.linspace(x[i], x[i + 1], tmp_nmb + 1)[:-1])
             new_y += list(np.linspace(y[i], y[i + 1], tmp_nmb + 1)[:-1])
-        # closing
-        new_x += [x[0]]
-        new_y += [y[0]]
+        # adding the last point
+        new_x += [x[-1]]
+        new_y += [y[-1]]
         new_x = np.array(new_x, dtype=float)
         new_y = np.array(new_y, dtype=float)
         # storing new values
-- 
2.43.0


From ceaf69180b0c9eb95d1e5d159df663fdd0969270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:50 +0000
Subject: [PATCH 220/257] fix: System.compute_velocity_on_line: positions on
 lines of any direction

---
 IMTreatment/potential_flow/potential_flow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index 283a133..57b0750 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -257,9 +257,9 @@ class System(object):
         if raw:
             return vx, vy
         else:
-            x = x - np.min(x)
-            y = y - np.min(y)
-            new_x = np.sqrt(x**2 + y**2) - np.sqrt(x[0]**2 + y[0]**2)
+            new_x = np.sqrt((x - xa)**2 + (y - ya)**2)
+            if xb <= xa and yb <= ya:
+                new_x = -new_x
             prof_vx = Profile(new_x, vx, mask=mask, unit_x='m',
                               unit_y='m/s')
             prof_vy = Profile(new_x, vy, mask=mask, unit_x='m',
-- 
2.43.0


From d9cbb9fc356997094adc13327a143db7f8463856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:04 +0000
Subject: [PATCH 221/257] fix: Panel.on_panel: nothing beyond the ends of the
 panel

---
 IMTreatment/potential_flow/potential_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index 57b0750..531c1b1 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -577,7 +577,7 @@ class Panel(object):
         """
         # check if around the point c
         dist_c = (self.xc - x)**2 + (self.yc - y)**2
-        if dist_c > self.length2/2.:
+        if dist_c > (self.length/2. + eps_abs)**2:
             return False
         # check if on the panle line
         if self.vertical:
-- 
2.43.0


From d83056627ee27ca4c5033f18901a660a3d779dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:38 +0000
Subject: [PATCH 222/257] fix: Points.get_envelope and order_on_line with
 current scipy, shapely and networkx; order_on_line keeps every point and its
 value

---
 IMTreatment/core/points.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 07a8740..1253020 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -589,7 +589,7 @@ class Points(object):
         try:
             from shapely.geometry import mapping
             from shapely.geometry import MultiLineString
-            from shapely.ops import polygonize, cascaded_union
+            from shapely.ops import polygonize, unary_union
         except ImportError:
             raise Exception("This functionnality need 'shapely' module")
         if alpha is None:
@@ -610,7 +610,7 @@ class Points(object):
             edges.add((i, j))
             edge_points.append(points[[i, j]])
         points = np.array(points)
-        for ia, ib, ic in tri.vertices:
+        for ia, ib, ic in tri.simplices:
             pa = points[ia]
             pb = points[ib]
             pc = points[ic]
@@ -632,7 +632,7 @@ class Points(object):
         # concatenate polygons
         m = MultiLineString(edge_points)
         triangles = list(polygonize(m))
-        hull = mapping(cascaded_union(triangles))['coordinates'][0]
+        hull = mapping(unary_union(triangles))['coordinates'][0]
         hull = np.array(hull, dtype=float)
         if hull.ndim == 3:
             hull = hull[0]
@@ -1281,9 +1281,13 @@ class Points(object):
         clf = NearestNeighbors(2).fit(self.xy)
         G = clf.kneighbors_graph()
         import networkx as nx
-        T = nx.from_scipy_sparse_matrix(G)
-        order = list(nx.dfs_preorder_nodes(T, 0))
+        T = nx.from_scipy_sparse_array(G)
         paths = [list(nx.dfs_preorder_nodes(T, i)) for i in range(len(self.xy))]
+        # the neighbours graph is not always connected
+        for path in paths:
+            for i in range(len(self.xy)):
+                if i not in path:
+                    path += list(nx.dfs_preorder_nodes(T, i))
         mindist = np.inf
         minidx = 0
         for i in range(len(self.xy)):
@@ -1299,6 +1303,8 @@ class Points(object):
         new_y = self.xy[:, 1][opt_order]
         # return
         tmp_pts.xy = np.array(list(zip(new_x, new_y)))
+        if len(tmp_pts.v) != 0:
+            tmp_pts.v = tmp_pts.v[opt_order]
         return tmp_pts
 
     def remove_nans(self, inplace=False):
-- 
2.43.0


From 81751d99c7b2fa598eb9a1891acca3585bcc8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:15 +0000
Subject: [PATCH 223/257] fix: CritPoints.get_points_density without any field
 does not use an undefined flag

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index ee12bef..0da9ef7 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -772,7 +772,7 @@ class CritPoints(object):
         for pt in pts:
             tot += pt
         # getting density map
-            absolute = False
+        absolute = False
         if output_format == 'absolute':
             absolute = True
             output_format = 'normalized'
-- 
2.43.0


From 2e4bd283cbfa90cbf0601b40f20b221625fc5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:29 +0000
Subject: [PATCH 224/257] fix: get_traj_direction_changement picks the
 trajectories of the wanted type

---
 IMTreatment/vortex_detection/vortex_detection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 0da9ef7..c2d4775 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -833,12 +833,12 @@ class CritPoints(object):
         if cp_type not in self.cp_types:
             raise ValueError()
         # get trajectories
-        trajs = np.array(self.iter_traj)[cp_type == np.array(self.cp_types)][0]
+        trajs = self.iter_traj[list(self.cp_types).index(cp_type)]
         # get changement points
-        res_min = Points(unit_x=trajs[0].unit_x, unit_y=trajs[0].unit_y,
-                         unit_v=trajs[0].unit_v)
-        res_max = Points(unit_x=trajs[0].unit_x, unit_y=trajs[0].unit_y,
-                         unit_v=trajs[0].unit_v)
+        res_min = Points(unit_x=self.unit_x, unit_y=self.unit_y,
+                         unit_v=self.unit_time)
+        res_max = Points(unit_x=self.unit_x, unit_y=self.unit_y,
+                         unit_v=self.unit_time)
         for traj in trajs:
             # skip too short trajs
             if len(traj) <= 2:
-- 
2.43.0


From 1eda52dbd765de7582032432f37709049e24a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:50 +0000
Subject: [PATCH 225/257] fix: get_mean_trajectory does not shift a trajectory
 by a whole step because of rounding

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index c2d4775..676ffe4 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1059,7 +1059,7 @@ class CritPoints(object):
                     shift = tmp_conv.x[min(list(range(len(tmp_conv))),
                                            key=lambda i: tmp_conv.y[i])]
                     dx = tmp_x.x[1] - tmp_x.x[0]
-                    shift = np.floor(shift/dx)*dx   # not allow quarter-dx
+                    shift = np.floor(shift/dx + 1e-6)*dx   # not allow quarter-dx
                     tmp_x.x += shift
                     tmp_y.x += shift
                     tmp_t.x += shift
-- 
2.43.0


From 6d0c14d3ac8c89ee11e0d23065f3e300f4e158fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:17 +0000
Subject: [PATCH 226/257] fix: get_mean_trajectory finds the points of a time
 in spite of the rounding of remove_doublons

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 676ffe4..f9603d8 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1085,7 +1085,7 @@ class CritPoints(object):
             assoc_std_x = []
             assoc_std_y = []
             for t in tmp_av_x.x:
-                filt = abs(av_x.x - t)/av_x_norm < 1e-6
+                filt = abs(av_x.x - t)/av_x_norm < 2e-6
                 if np.sum(filt) < min_nmb_to_avg:
                     continue
                 new_x.append(np.mean(av_x.y[filt]))
-- 
2.43.0


From c166c4f9ee5f2b23fe31c22aee940922766376bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:05 +0000
Subject: [PATCH 227/257] fix: get_mean_trajectory ignores the undefined
 differences when it looks for the best shift

---
 IMTreatment/vortex_detection/vortex_detection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index f9603d8..64062ca 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1053,11 +1053,13 @@ class CritPoints(object):
                         tmp_y_base,
                         normalized=True)
                     tmp_conv = (tmp_conv_x*tmp_conv_y)**.5
-                    if tmp_conv.min > rel_diff_epsilon:
+                    if np.all(tmp_conv.mask) or \
+                            tmp_conv.min > rel_diff_epsilon:
                         continue
                     # else, shift the trajectory and add it to the set
-                    shift = tmp_conv.x[min(list(range(len(tmp_conv))),
-                                           key=lambda i: tmp_conv.y[i])]
+                    shift = tmp_conv.x[np.nanargmin(np.where(tmp_conv.mask,
+                                                             np.nan,
+                                                             tmp_conv.y))]
                     dx = tmp_x.x[1] - tmp_x.x[0]
                     shift = np.floor(shift/dx + 1e-6)*dx   # not allow quarter-dx
                     tmp_x.x += shift
-- 
2.43.0


From 88cabc5d23468cb0face239f3830bd0343e39155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:50 +0000
Subject: [PATCH 228/257] fix: CritPoints.get_points_density('absolute') of too
 few points gives None, as the other formats

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 64062ca..aff7268 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -779,7 +779,7 @@ class CritPoints(object):
         dens = tot.get_points_density(bw_method=bw_method,
                                       resolution=resolution,
                                       output_format=output_format, raw=False)
-        if absolute:
+        if absolute and dens is not None:
             nmb_pts = np.sum([len(pt.xy) for pt in pts])*1.
             nmb_tot_pts = np.sum([np.sum([len(pt.xy) for pt in ptsb])
                                   for ptsb in self.iter])*1.
-- 
2.43.0


From 5d437d14ce99434a6768fd5d14df01bd47211b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:10 +0000
Subject: [PATCH 229/257] fix: order_on_line names the number of neighbours, as
 scikit-learn wants

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 1253020..3f5fd2f 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1278,7 +1278,7 @@ class Points(object):
             tmp_pts = self.copy()
         #
         from sklearn.neighbors import NearestNeighbors
-        clf = NearestNeighbors(2).fit(self.xy)
+        clf = NearestNeighbors(n_neighbors=2).fit(self.xy)
         G = clf.kneighbors_graph()
         import networkx as nx
         T = nx.from_scipy_sparse_array(G)
-- 
2.43.0


From 7b919aa6d95213f77dc53fd0385043c2022ec7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:52 +0000
Subject: [PATCH 230/257] fix: displays of series set the colorbar norm through
 its mappable, as matplotlib wants

---
 IMTreatment/plotlib/plotlib.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index d25b995..3818f59 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -440,8 +440,6 @@ class ButtonManager(object):
             self.cb_norm = cb_norm
             self.cb = mpl.colorbar.ColorbarBase(self.cbax, norm=self.cb_norm,
                                                 cmap=cmap)
-            self.cb.set_norm(self.cb_norm)
-            self.cb.draw_all()
         # update with initial data
         self.update()
         # set texts and rescale
@@ -749,8 +747,7 @@ class ButtonManager(object):
                        rescale=False)
         if self.is_cb and not self.sharecb:
             norm = self.displ_cb.get_norm(self.ind)
-            self.cb.set_norm(norm)
-            self.cb.draw_all()
+            self.cb.mappable.set_norm(norm)
         # update linked graphs
         self._update_linked_graphs()
         # reactivate buttons
-- 
2.43.0


From 3373d1dce6e4ae77e7a311eca7843bc233281064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 231/257] fix: Displayer.get_norm goes from the minimum to the
 maximum of the unmasked values

---
 IMTreatment/plotlib/plotlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 3818f59..458abbc 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1094,8 +1094,8 @@ class Displayer(object):
         return dic
 
     def get_norm(self, i):
-        vmin = np.min(self.colors[i])
-        vmax = np.min(self.colors[i])
+        vmin = np.nanmin(self.colors[i])
+        vmax = np.nanmax(self.colors[i])
         return mpl.colors.Normalize(vmin=vmin, vmax=vmax)
 
     def get_global_norm(self):
-- 
2.43.0


From 7780acbceeb56fb424e39675e6dbf83d9e6095ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:28 +0000
Subject: [PATCH 232/257] fix: Displayer shows again drawings it removed,
 streamplots and contours included

---
 IMTreatment/plotlib/plotlib.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 458abbc..413e503 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1127,10 +1127,11 @@ class Displayer(object):
         # Remove or add obj according to its type
         # Classic type
         if isinstance(obj, (mpl.lines.Line2D, mpl.image.AxesImage,
-                            mpl.collections.Collection)):
+                            mpl.collections.Collection,
+                            mpl.patches.FancyArrowPatch)):
             try:
                 obj.remove()
-            except ValueError:
+            except (ValueError, NotImplementedError):
                 self.ax.add_artist(obj)
         # Contour type
         elif isinstance(obj, mpl.contour.QuadContourSet):
@@ -1142,16 +1143,9 @@ class Displayer(object):
                     self.ax.add_artist(tmp_obj)
         # Streamplot type
         elif isinstance(obj, mpl.streamplot.StreamplotSet):
-            try:
-                obj.lines.remove()
-                if not hasattr(obj.arrows, 'patches'):
-                    obj.arrows.patches = self.ax.patches
-                # TODO : memory leak
-                #       (because arrows removing is not implemented)
-                self.ax.patches = []
-            except ValueError:
-                self.ax.add_artist(obj.lines)
-                self.ax.patches = obj.arrows.patches
+            self._toggle_visibility(obj.lines)
+            for arrow in obj.arrow_patches:
+                self._toggle_visibility(arrow)
         else:
             raise ValueError("{}".format(obj))
 
@@ -1306,8 +1300,12 @@ class Displayer(object):
             # plot
             Vx = tmp_values[0].transpose()
             Vy = tmp_values[1].transpose()
+            old_patches = list(ax.patches)
             plot = ax.streamplot(tmp_x, tmp_y, Vx, Vy, color=tmp_colors,
                                  linewidth=tmp_lw, **dargs)
+            # arrows are not in 'plot', but are needed to remove it
+            plot.arrow_patches = [patch for patch in ax.patches
+                                  if patch not in old_patches]
         else:
             raise Exception("Unknown kind of plot : {}".format(kind))
         if aspect is not None:
-- 
2.43.0


From 542782b4a4a883aa305b90e1a1437da278ae54a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:49 +0000
Subject: [PATCH 233/257] fix: Displayer removes the current drawing whatever
 the size of the buffer

---
 IMTreatment/plotlib/plotlib.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 413e503..f0a1050 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -969,6 +969,7 @@ class Displayer(object):
         # place to store the drawings
         self.draws = [None]*self.length
         self.curr_draw = None
+        self.curr_plot = None
         self.displ_saved_inds = np.zeros(self.length, dtype=int)
         self.displ_saved_curr_ind = 1
         if buffer_size is None:
@@ -1163,10 +1164,8 @@ class Displayer(object):
         if i is None:
             i = 0
         # remove current draw
-        if (self.curr_draw is not None and
-                self.draws[self.curr_draw] is not None and
-                remove_current):
-            self._toggle_visibility(self.draws[self.curr_draw])
+        if self.curr_plot is not None and remove_current:
+            self._toggle_visibility(self.curr_plot)
         if self.use_buffer:
             # if draw already computed
             if self.draws[i] is not None:
@@ -1177,6 +1176,7 @@ class Displayer(object):
                 self.curr_draw = i
                 self.draws[i] = self.draw_new(i=i, ax=ax, cb=cb,
                                               rescale=rescale)
+            self.curr_plot = self.draws[i]
             # keep trace of saved displ
             # (deleting first ones if too much of them)
             self.displ_saved_inds[i] = self.displ_saved_curr_ind
@@ -1190,10 +1190,11 @@ class Displayer(object):
                     self.draws[ind] = None
                     self.displ_saved_inds[ind] = 0.
             # returning
-            return self.draws[i]
+            return self.curr_plot
         else:
+            self.curr_plot = self.draw_new(i=i, ax=ax, cb=cb, rescale=rescale)
             # returning
-            return self.draw_new(i=i, ax=ax, cb=cb, rescale=rescale)
+            return self.curr_plot
 
     def draw_new(self, i=None, ax=None, cb=False, rescale=True):
         # check data
-- 
2.43.0


From aa4c2c38ad78cd8c0b7a606ec49e8e9c977ca93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:11 +0000
Subject: [PATCH 234/257] fix: goto and play reach the last frame, and frames
 out of the series are refused

---
 IMTreatment/plotlib/plotlib.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index f0a1050..8158d4b 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -576,24 +576,22 @@ class ButtonManager(object):
 
     def timer_play(self):
         # check if lims are set
-        if self.ind_lims[1] is not None:
-            ind1, ind2 = self.ind_lims
+        if self.ind_lims[0] is not None and self.ind_lims[1] is not None:
+            ind1, ind2 = sorted(self.ind_lims)
         else:
             ind1 = 0
-            ind2 = self.ind_max + 1
+            ind2 = self.ind_max
         # update the display
         self.ind += self.incr
-        if self.ind >= ind2:
+        if self.ind > ind2:
             self.ind = ind1
-        elif self.ind >= self.ind_max:
-            self.ind = 0
         self.update()
 
     def goto(self):
         key_number = self._get_key_number()
         if key_number is None:
             return None
-        if key_number > self.ind_max or key_number < 1:
+        if key_number > self.ind_max + 1 or key_number < 1:
             return None
         self.ind = key_number - 1
         self.update()
@@ -602,7 +600,7 @@ class ButtonManager(object):
         key_number = self._get_key_number()
         if key_number is None:
             key_number = self.ind_max + 1
-        if key_number > self.ind_max + 1:
+        if key_number > self.ind_max + 1 or key_number < 1:
             return None
         self.ind = key_number - 1
         self.update()
@@ -611,7 +609,7 @@ class ButtonManager(object):
         key_number = self._get_key_number()
         if key_number is None:
             key_number = 1
-        if key_number > self.ind_max + 1:
+        if key_number > self.ind_max + 1 or key_number < 1:
             return None
         self.ind = key_number - 1
         self.update()
-- 
2.43.0


From 67f323ed3f4aec1f15b4dbfdfaed86266411758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:34 +0000
Subject: [PATCH 235/257] fix: colored_plot asks for a whole number of colors

---
 IMTreatment/plotlib/plotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 8158d4b..4a8e251 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -302,7 +302,7 @@ def colored_plot(x, y, z=None, log='plot', min_colors=1000, colorbar=False,
         interp_x = spinterp.interp1d(np.linspace(0, 1, length), x)
         interp_y = spinterp.interp1d(np.linspace(0, 1, length), y)
         interp_z = spinterp.interp1d(np.linspace(0, 1, length), z)
-        fact = np.ceil(min_colors/(length*1.))
+        fact = int(np.ceil(min_colors/(length*1.)))
         nmb_colors = length*fact
         x = interp_x(np.linspace(0., 1., nmb_colors))
         y = interp_y(np.linspace(0., 1., nmb_colors))
-- 
2.43.0


From 9b5adfd7ff2686353f78f74a2b3f9777d563cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:56 +0000
Subject: [PATCH 236/257] fix: save_animation records every frame, the first
 one included

---
 IMTreatment/plotlib/plotlib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 4a8e251..6efecd5 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -879,11 +879,10 @@ class ButtonManager(object):
                         codec=codec)
         # write
         backup_ind = self.ind
-        self.ind = fields[0]
-        self.update()
         with writer.saving(self.fig, animpath, dpi):
-            for i in range(fields[1] - fields[0]):
-                self.nextf(None)
+            for i in range(fields[0], fields[1] + 1):
+                self.ind = i
+                self.update()
                 writer.grab_frame()
         # restore
         self.ind = backup_ind
-- 
2.43.0


From dfde18139174794138432f0e1be254bf4ddac383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:21 +0000
Subject: [PATCH 237/257] fix: display_multiple shares a colorbar between
 masked fields

---
 IMTreatment/plotlib/plotlib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 6efecd5..6742443 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1347,11 +1347,13 @@ class Displayer(object):
         if sharecb:
             if 'norm' not in list(self.dargs.keys()):
                 if "vmin" not in list(self.dargs.keys()):
-                    vmin = np.min([np.min(self.colors[ind]) for ind in inds])
+                    vmin = np.nanmin([np.nanmin(self.colors[ind])
+                                      for ind in inds])
                 else:
                     vmin = self.dargs.pop('vmin')
                 if "vmax" not in list(self.dargs.keys()):
-                    vmax = np.max([np.max(self.colors[ind]) for ind in inds])
+                    vmax = np.nanmax([np.nanmax(self.colors[ind])
+                                      for ind in inds])
                 else:
                     vmax = self.dargs.pop('vmax')
                 norm = plt.Normalize(vmin=vmin, vmax=vmax)
-- 
2.43.0


From 60e8e0beb9f1f2372c764ad48b1415fe8cb7e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:40 +0000
Subject: [PATCH 238/257] fix: loglog profiles drop the values that have no
 logarithm along both axes

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 27dbc70..87cef68 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1995,7 +1995,7 @@ class Profile(object):
         ind_to_del = np.zeros(len(x), dtype=bool)
         if kind in ['semilogx', 'loglog'] and np.any(x <= 0):
             ind_to_del = np.logical_or(ind_to_del, x <= 0)
-        elif kind in ['semilogy', 'loglog'] and np.any(y <= 0):
+        if kind in ['semilogy', 'loglog'] and np.any(y <= 0):
             ind_to_del = np.logical_or(ind_to_del, y <= 0)
         ind_to_keep = np.logical_not(ind_to_del)
         x = x[ind_to_keep]
-- 
2.43.0


From 74f45f9634648a8546743b651bcb624bb751977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:57 +0000
Subject: [PATCH 239/257] fix: profiles can be displayed with an array of
 colors

---
 IMTreatment/core/profile.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 87cef68..99d2a93 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1989,7 +1989,6 @@ class Profile(object):
                     plot = pplt.colored_plot(x, y, z=color, log=kind,
                                              color_label=color_label,
                                              **plotargs)
-                    pplt.DataCursorPoints(plot, x, y)
                     return plot
         # check log error
         ind_to_del = np.zeros(len(x), dtype=bool)
-- 
2.43.0


From cb0739afbe975f45ba1de48dd02755ab34ebb119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:12 +0000
Subject: [PATCH 240/257] fix: points without values can be plotted, and 3D
 displays work with matplotlib 3

---
 IMTreatment/core/points.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 3f5fd2f..4e9dc1a 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1490,10 +1490,11 @@ class Points(object):
         else:
             raise ValueError()
         # check c and color
-        if 'c' in plotargs.keys():
-            plotargs['color'] = None
-        if 'color' in plotargs.keys():
-            plotargs['c'] = None
+        if kind not in ['plot', 'colored_plot']:
+            if 'c' in plotargs.keys():
+                plotargs['color'] = None
+            if 'color' in plotargs.keys():
+                plotargs['c'] = None
         # display
         dp = pplt.Displayer(x=x_values, y=y_values, values=color_values,
                             kind=kind, **plotargs)
@@ -1589,7 +1590,10 @@ class Points(object):
             Additional parameters feeded to matplotlib
         """
         # create 3D plot
-        ax = plt.gca(projection='3d')
+        ax = plt.gcf().gca()
+        if ax.name != '3d':
+            ax.remove()
+            ax = plt.gcf().add_subplot(projection='3d')
         # display data
         if kind == 'plot':
             ax.plot(self.xy[:, 0], self.xy[:, 1], self.v, **plotargs)
-- 
2.43.0


From 173300b98a6a3e59b08c3b1abbe49498225aecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:28 +0000
Subject: [PATCH 241/257] fix: oriented points take their colors where
 matplotlib 3 stores them

---
 IMTreatment/core/orientedpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 9897698..4dbe6ab 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -386,7 +386,7 @@ class OrientedPoints(pts.Points):
         if 'color' in list(plotargs.keys()):
             colors = [plotargs.pop('color')]
         else:
-            colors = mpl.rcParams['axes.color_cycle']
+            colors = mpl.rcParams['axes.prop_cycle'].by_key()['color']
         # displaying orientation lines
         x_range = plt.xlim()
         Dx = x_range[1] - x_range[0]
-- 
2.43.0


From 2d2075487e07298edb56625992b9504f75426367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:45 +0000
Subject: [PATCH 242/257] fix: mosaics give what they drew to their colorbar

---
 IMTreatment/core/spatialfields.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 92e78ad..484a041 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -402,14 +402,15 @@ class SpatialFields(flds.Fields):
             plotargs['density'] = plotargs['density']/(len(self.fields))**.5
         # display
         for field in comp:
-            field._display(**plotargs)
+            plot = field._display(**plotargs)
         plt.xlim(self.x_min, self.x_max)
         plt.ylim(self.y_min, self.y_max)
+        return plot
 
     def display(self, compo=None, **plotargs):
-        self._display(compo=compo, **plotargs)
+        plot = self._display(compo=compo, **plotargs)
         plt.axis('image')
-        cb = plt.colorbar()
+        cb = plt.colorbar(getattr(plot, 'lines', plot))
         cb.set_label(self.unit_values.strUnit())
         plt.tight_layout()
 
-- 
2.43.0


From 0880d30d449c1ca9f78d3d5c5834e151c1b6b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:54 +0000
Subject: [PATCH 243/257] fix: the data cursor copes with masked values

---
 IMTreatment/plotlib/plotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 6742443..1e8d936 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1413,7 +1413,7 @@ class DataCursorTextDisplayer(object):
             return number
         except AttributeError:
             pass
-        if int(number) == number:
+        if np.isfinite(number) and int(number) == number:
             return "{}".format(int(number))
         else:
             return "{:.4g}".format(number)
-- 
2.43.0


From 3eab889a4f597de98c05ae689f1c41a9ff2d5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:15 +0000
Subject: [PATCH 244/257] fix: fields can be displayed with the documented kind
 'imshow'

---
 IMTreatment/plotlib/plotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 1e8d936..1be38bc 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1253,7 +1253,7 @@ class Displayer(object):
             tmp_filt = np.logical_or(tmp_filt, tmp_y < 0)
             tmp_y[~tmp_filt] = np.nan
             plot = ax.loglog(tmp_x, tmp_y, **dargs)
-        elif kind == 'matrix':
+        elif kind in ['matrix', 'imshow']:
             delta_x = tmp_x[1] - tmp_x[0]
             delta_y = tmp_y[1] - tmp_y[0]
             plot = ax.imshow(tmp_values.transpose(),
-- 
2.43.0


From 5e696eceb4cd3e7b8f1a289f0004454a3d25ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:37 +0000
Subject: [PATCH 245/257] fix: colored plots do not replace the plot method of
 the axes

---
 IMTreatment/plotlib/plotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index 1be38bc..a03e2d2 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1234,7 +1234,7 @@ class Displayer(object):
         elif kind == 'plot':
             plot = ax.plot(tmp_x, tmp_y, **dargs)
         elif kind == 'colored_plot':
-            plot = ax.plot = colored_plot(tmp_x, tmp_y, z=tmp_values, **dargs)
+            plot = colored_plot(tmp_x, tmp_y, z=tmp_values, **dargs)
         elif kind == 'semilogx':
             tmp_filt = ~np.isnan(tmp_x)
             tmp_filt = np.logical_or(tmp_filt, tmp_x < 0)
-- 
2.43.0


From cbbc4006d74a10f7caab4d4ae91e6b850828e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:55 +0000
Subject: [PATCH 246/257] fix: limits of the played frames stay in the series
 and in order

---
 IMTreatment/plotlib/plotlib.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index a03e2d2..faa9ccc 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -645,11 +645,12 @@ class ButtonManager(object):
                     text = self.axslid.text(x=lim2+0.5, y=1.1, ha='center',
                                             s="{}".format(lim2 + 1))
                     self.ind_lims_texts[1] = text
-                    # sort if necessary
-                    if self.ind_lims[1] < self.ind_lims[0]:
-                        self.ind_lims = self.ind_lims[::-1]
-                        self.ind_lims_faces = self.ind_lims_faces[::-1]
-                        self.ind_lims_texts = self.ind_lims_texts[::-1]
+            # sort if necessary
+            if (None not in self.ind_lims and
+                    self.ind_lims[1] < self.ind_lims[0]):
+                self.ind_lims = self.ind_lims[::-1]
+                self.ind_lims_faces = self.ind_lims_faces[::-1]
+                self.ind_lims_texts = self.ind_lims_texts[::-1]
             return None
         # get ind
         key_nmb = self._get_key_number()
@@ -657,6 +658,8 @@ class ButtonManager(object):
             key_nmb = self.ind
         else:
             key_nmb -= 1
+            if key_nmb < 0 or key_nmb > self.ind_max:
+                return None
         # If ind is already a limite, remove it
         if key_nmb in self.ind_lims:
             if key_nmb == self.ind_lims[0]:
-- 
2.43.0


From f2e06eaacfeaf3db87cd0c1c2ab9e306a97919e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:31 +0000
Subject: [PATCH 247/257] fix: displays of vector fields do not show the masked
 vectors

---
 IMTreatment/core/temporalfields.py |  8 ++++++++
 IMTreatment/core/vectorfield.py    | 15 +++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index d160ff3..a3118a6 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1624,6 +1624,10 @@ class TemporalFields(flds.Fields, fld.Field):
         else:
             values = [self.fields[ind].__getattribute__(component)
                       for ind in inds]
+        # do not show masked values
+        if component != 'mask':
+            values = [np.where(self.fields[ind].mask, np.nan, val)
+                      for ind, val in zip(inds, values)]
         # display
         if sharex or sharey:
             plotargs['adjustable'] = 'datalim'
@@ -1679,6 +1683,10 @@ class TemporalFields(flds.Fields, fld.Field):
         else:
             values = np.asarray([field.__getattribute__(compo)
                                  for field in self.fields])
+        # do not show masked values
+        if compo != 'mask':
+            values = np.asarray([np.where(field.mask, np.nan, val)
+                                 for field, val in zip(self.fields, values)])
         # check arguments for colorbar drawning
         if 'norm' in list(plotargs.keys()):
             sharecb = True
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 1962f2e..08971dd 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1243,18 +1243,21 @@ class VectorField(field.Field):
         self.__init__()
 
     def _display(self, component=None, kind=None, axis='image', **plotargs):
+        # do not show masked values
+        comp_x = np.where(self.mask, np.nan, self.comp_x)
+        comp_y = np.where(self.mask, np.nan, self.comp_y)
         # adapt xy scale if streamplot is needed
         if kind == "stream" and self.xy_scale.asNumber() != 1.:
             magn = self.magnitude
-            new_comp_x = self.comp_x*self.xy_scale.asNumber()
-            new_magn = (new_comp_x**2 + self.comp_y**2)**.5
-            values = [new_comp_x/new_magn*magn, self.comp_y/new_magn*magn]
+            new_comp_x = comp_x*self.xy_scale.asNumber()
+            new_magn = (new_comp_x**2 + comp_y**2)**.5
+            values = [new_comp_x/new_magn*magn, comp_y/new_magn*magn]
         elif component in [None, 'V']:
-            values = [self.comp_x, self.comp_y]
+            values = [comp_x, comp_y]
         elif component in ['comp_x', 'x']:
-            values = self.comp_x
+            values = comp_x
         elif component in ['comp_y', 'y']:
-            values = self.comp_y
+            values = comp_y
         else:
             values = self.__getattribute__(component)
         dp = pplt.Displayer(x=self.axe_x, y=self.axe_y, values=values,
-- 
2.43.0


From 00953364bc8b3d5e40ea0c904a4817cd2b600ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:54 +0000
Subject: [PATCH 248/257] fix: colorbars of colored plots go in the axes of the
 plot

---
 IMTreatment/plotlib/plotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index faa9ccc..c082ba1 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -335,7 +335,7 @@ def colored_plot(x, y, z=None, log='plot', min_colors=1000, colorbar=False,
         sm = plt.cm.ScalarMappable(cmap=cmap, norm=norm)
         # fake up the array of the scalar mappable. Urgh...
         sm._A = []
-        cb = plt.colorbar(sm)
+        cb = plt.colorbar(sm, ax=ax)
         cb.set_label(color_label)
     return lc
 
-- 
2.43.0


From bc6c308b63f54107a9a1649509c7b938d6d732c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:14 +0000
Subject: [PATCH 249/257] fix: display_multiple can share both axes

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index a3118a6..72a38d9 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1629,7 +1629,7 @@ class TemporalFields(flds.Fields, fld.Field):
             values = [np.where(self.fields[ind].mask, np.nan, val)
                       for ind, val in zip(inds, values)]
         # display
-        if sharex or sharey:
+        if sharex != sharey:
             plotargs['adjustable'] = 'datalim'
         db = pplt.Displayer(x=[self.axe_x]*nmb_fields,
                             y=[self.axe_y]*nmb_fields,
-- 
2.43.0


From abb667dff90c2338960c56baf10fe79a38ccec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:42 +0000
Subject: [PATCH 250/257] fix: Points.display compares the kind of plot by
 value

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 4e9dc1a..63dcb16 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1542,7 +1542,7 @@ class Points(object):
         # display the values
         plot = self._display(kind, axe_x=axe_x, axe_y=axe_y,
                              axe_color=axe_color, **plotargs)
-        if len(self.v) != 0 and kind is not 'plot':
+        if len(self.v) != 0 and kind != 'plot':
             cb = plt.colorbar(plot)
             cb.set_label(self.unit_v.strUnit())
             # cb label
-- 
2.43.0


From b6b8b94d60c93eca09daa65a4a35aa2eb30fcdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:00 +0000
Subject: [PATCH 251/257] fix: display_multiple can show a single field

---
 IMTreatment/plotlib/plotlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/plotlib/plotlib.py b/IMTreatment/plotlib/plotlib.py
index c082ba1..ac3d8a8 100644
--- a/IMTreatment/plotlib/plotlib.py
+++ b/IMTreatment/plotlib/plotlib.py
@@ -1343,6 +1343,7 @@ class Displayer(object):
             # creating axes
             fig, axs = plt.subplots(nrows=nrow, ncols=ncol, sharex=sharex,
                                     sharey=sharey)
+            axs = np.atleast_1d(axs)
         elif len(fig.axes) == len(inds):
             # reuse the current axes
             axs = np.array(fig.axes)
-- 
2.43.0


From 69c68764741d3b3e4063e6f36d5da3446977f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 252/257] fix: CritPoints displays leave the given drawing
 arguments alone

---
 IMTreatment/vortex_detection/vortex_detection.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index aff7268..d834d35 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1945,6 +1945,8 @@ class CritPoints(object):
             if not isinstance(field, VectorField):
                 raise TypeError()
         # Set default params
+        cpkw = cpkw.copy()
+        lnkw = lnkw.copy()
         if 'color' in list(cpkw.keys()):
             colors = [cpkw.pop('color')]*len(self.colors)
         else:
@@ -1997,6 +1999,8 @@ class CritPoints(object):
                     raise TypeError()
                 fields = fields.fields
         # Set default params
+        cpkw = cpkw.copy()
+        lnkw = lnkw.copy()
         if 'color' in list(cpkw.keys()):
             colors = [cpkw.pop('color')]*len(self.colors)
         else:
@@ -2044,8 +2048,9 @@ class CritPoints(object):
                 v = opts.v[0]
                 tmp_stream = opts.get_streamlines_from_orientations(
                     field, reverse_direction=[False, True], interp='cubic')
-                if "color" in list(lnkw.keys()):
-                    tmp_color = lnkw.pop('color')
+                tmp_lnkw = lnkw.copy()
+                if "color" in list(tmp_lnkw.keys()):
+                    tmp_color = tmp_lnkw.pop('color')
                 else:
                     tmp_color = colors[2]
                 for st in tmp_stream:
@@ -2057,7 +2062,7 @@ class CritPoints(object):
                     tmp_db = pplt.Displayer(data_streamx,
                                             data_streamy,
                                             color=tmp_color, kind='plot',
-                                            **lnkw)
+                                            **tmp_lnkw)
                     dbs.append(tmp_db)
         # display points
         for i, pt in enumerate(self.iter):
-- 
2.43.0


From 54104e9e2e6ebefb4d69bc6b488add838e9ef8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:29 +0000
Subject: [PATCH 253/257] fix: ModalFields.display sets its limits as
 matplotlib 3 wants

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 8f114f9..0cecab5 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -793,7 +793,7 @@ class ModalFields(Field):
                                marker='o', mfc='k', ls='none')
         bm = pplt.ButtonManager(plot4)
         cum_nrj.display(color='k', ls='-', marker=None)
-        plt.xlim(xmin=0)
+        plt.xlim(left=0)
         plt.ylim(0, 1)
         plot4.button_manager.link_to_other_graph(plot2)
         plt.title('Modes cumulative energy')
-- 
2.43.0


From 2c9dbd2404520cf9fc2d42b1ff8b19276e146c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:36 +0000
Subject: [PATCH 254/257] fix: display_traj_len_repartition copes with types of
 different numbers of trajectories

---
 IMTreatment/vortex_detection/vortex_detection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index d834d35..a94c38d 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -801,8 +801,9 @@ class CritPoints(object):
             typ_lens.append(lens)
         # display
         fig = plt.figure()
-        plt.hist(typ_lens, bins=np.arange(np.min(np.min(typ_lens)) - 0.5,
-                                          np.max(np.max(typ_lens)) + 1.5, 1),
+        all_lens = np.concatenate(typ_lens)
+        plt.hist(typ_lens, bins=np.arange(np.min(all_lens) - 0.5,
+                                          np.max(all_lens) + 1.5, 1),
                  stacked=True, histtype='barstacked',
                  color=self.colors[0:5],
                  label=self.cp_types)
-- 
2.43.0


From d55459bc2a8d24624cde30a8851b63e0f0b28916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:07 +0000
Subject: [PATCH 255/257] fix: a memoization file cut by a crash prevented any
 later use, a result that cannot be stored left the garbage collector off

---
 IMTreatment/utils/memoization.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/utils/memoization.py b/IMTreatment/utils/memoization.py
index dcc8be3..2513cd2 100644
--- a/IMTreatment/utils/memoization.py
+++ b/IMTreatment/utils/memoization.py
@@ -24,6 +24,7 @@
 import gc
 import gzip
 import pickle
+import zlib
 
 
 def memoize_to_file(file_name):
@@ -34,7 +35,8 @@ def memoize_to_file(file_name):
         try:
             with gzip.open(file_name, 'rb') as f:
                 cache = pickle.load(f)
-        except (IOError, ValueError):
+        except (IOError, ValueError, EOFError, zlib.error,
+                pickle.UnpicklingError):
             cache = {}
         gc.enable()
 
@@ -43,9 +45,11 @@ def memoize_to_file(file_name):
             if key not in cache:
                 cache[key] = original_func(*args, **kwargs)
                 gc.disable()
-                with gzip.open(file_name, 'wb') as f:
-                    pickle.dump(cache, f, protocol=-1)
-                gc.enable()
+                try:
+                    with gzip.open(file_name, 'wb') as f:
+                        pickle.dump(cache, f, protocol=-1)
+                finally:
+                    gc.enable()
             return cache[key]
 
         return new_func
-- 
2.43.0


From 5faf95246a1295486cd8eda33238b6528c8c465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:22 +0000
Subject: [PATCH 256/257] fix: RemoveFortranOutput left two files open at each
 use

---
 IMTreatment/utils/codeinteraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/utils/codeinteraction.py b/IMTreatment/utils/codeinteraction.py
index 95ae4ce..6fef15c 100644
--- a/IMTreatment/utils/codeinteraction.py
+++ b/IMTreatment/utils/codeinteraction.py
@@ -45,5 +45,5 @@ class RemoveFortranOutput(object):
     def __exit__(self, type, value, traceback):
         os.dup2(self.save[0], 1)
         os.dup2(self.save[1], 2)
-        os.close(self.null_fds[0])
-        os.close(self.null_fds[1])
+        for fd in list(self.null_fds) + list(self.save):
+            os.close(fd)
-- 
2.43.0


From 5cfdbdcffb1981e9ca8ddfa7730935bf180bb759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:37 +0000
Subject: [PATCH 257/257] fix: number of days in the progress counter

---
 IMTreatment/utils/progresscounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/progresscounter.py b/IMTreatment/utils/progresscounter.py
index b822c18..294a8bc 100644
--- a/IMTreatment/utils/progresscounter.py
+++ b/IMTreatment/utils/progresscounter.py
@@ -167,5 +167,5 @@ class ProgressCounter(object):
         if h != 0:
             repr_time = '{:d}h'.format(h) + repr_time
         if j != 0:
-            repr_time = '{:d}j'.format(m) + repr_time
+            repr_time = '{:d}j'.format(j) + repr_time
         return repr_time
-- 
2.43.0

