From 25706894986e7c48d0534196dbc66a2c76e6b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 01/76] fix: keep units (and dtype) on empty and partial
 coordinates

---
 dascore/core/coords.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 5e494e6..b2f8294 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -763,7 +763,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             for ind in iterate(axes):
                 new_shape[ind] = 0
         data = np.empty(tuple(new_shape), dtype=self.dtype)
-        return get_coord(data=data)
+        return get_coord(data=data, units=self.units)
 
     def index(self, indexer, axis: int | None = None) -> Self:
         """
@@ -1045,7 +1045,7 @@ class CoordPartial(BaseCoord):
         # We init a temporary array just to get numpy to do the
         # indexing. There is probably a faster way but this is robust.
         dummy = np.empty(self.shape)[item]
-        return self.__class__(shape=dummy.shape)
+        return self.__class__(shape=dummy.shape, units=self.units, dtype=self.dtype)
 
     def _max(self):
         """Dummy funct to do nothing but raise."""
@@ -1135,7 +1135,7 @@ class CoordPartial(BaseCoord):
             max=np.nan,
             step=np.nan,
             dtype=self.dtype,
-            units=None,
+            units=self.units,
         )
 
 
-- 
2.43.0


From e5f90d3584249f08a3d4185248c09dcc41f469a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 02/76] fix: exact nanosecond selection on reverse-sorted time
 coordinates

---
 dascore/core/coords.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index b2f8294..6e52cd5 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -129,6 +129,14 @@ def _reduce_time_like(func, data):
     return np.atleast_1d(out)
 
 
+def _negate(value):
+    """Negate values. Time-like values (can't be negated) use exact integers."""
+    value = np.asarray(value)
+    if dtype_time_like(value.dtype):
+        value = value.astype(f"{value.dtype.kind}8[ns]").astype(np.int64)
+    return -value
+
+
 def _validate_new_length(length) -> int:
     """Ensure a requested coordinate length is a non-negative integer."""
     # bool is an int subclass; True/False are never a sensible length.
@@ -321,10 +329,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             inds = self._get_value_index(coord_array, values_to_find)
             return self[inds], inds
         if self.reverse_sorted:
-            # Need to_float here because datetime can't be multiplied by -1.
-            inds = self._get_value_index(
-                -to_float(coord_array), -to_float(values_to_find)
-            )
+            inds = self._get_value_index(_negate(coord_array), _negate(values_to_find))
             return self[inds], inds
         # Sort the array, then find insertion points, and map
         # back to pre-sorted indices.
@@ -1595,8 +1600,8 @@ class CoordMonotonicArray(CoordArray):
         # since search sorted only works on ascending monotonic arrays we
         # negative descending arrays to get the same effect.
         if self.reverse_sorted:
-            values = to_float(values) * -1
-            new_value = to_float(new_value) * -1
+            values = _negate(values)
+            new_value = _negate(new_value)
         # side = "right" if forward else "left"
         # out = np.atleast_1d(np.searchsorted(values, new_value, side=side))
         # Search values. Ensure the returned index is in bounds (eg values GT
-- 
2.43.0


From 6f7be679fa83398787f8d2f382f344b42e109efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:56 +0000
Subject: [PATCH 03/76] fix: missing values only equal other missing values in
 coordinate equality

---
 dascore/core/coords.py |  6 +++++-
 dascore/utils/misc.py  | 10 ++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 6e52cd5..fcb5b76 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -815,7 +815,11 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         out = self
         info = self.model_dump()
         update_fields = {
-            i: v for i, v in kwargs.items() if not all_close(v, info.get(i))
+            i: v
+            for i, v in kwargs.items()
+            # A missing scalar (eg NaN step) means there is nothing to update.
+            if not (np.ndim(v) == 0 and v is not None and pd.isnull(v))
+            and not all_close(v, info.get(i))
         }
         units = update_fields.pop("units", None)
         _ = update_fields.pop("dtype", None)
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index f5f0b36..aba295e 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -135,14 +135,12 @@ def all_close(ar1, ar2):
     ar1, ar2 = np.asarray(ar1), np.asarray(ar2)
     if not ar1.shape == ar2.shape:
         return False
-    ar1_null = pd.isnull(ar1)
-    ar2_null = pd.isnull(ar2)
+    # Missing values are only equal to other missing values.
+    both_null = pd.isnull(ar1) & pd.isnull(ar2)
     try:
-        close = np.isclose(ar1, ar2)
-        bools = close | ar1_null | ar2_null
-        return np.all(bools)
+        return np.all(np.isclose(ar1, ar2) | both_null)
     except TypeError:
-        return np.all(ar1 == ar2)
+        return np.all((ar1 == ar2) | both_null)
 
 
 def _all_null(maybe_ar):
-- 
2.43.0


From 19bfeed3c7f1d38ec4ae9b154b6d02ee35ab4176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 04/76] fix: judge even sampling with a purely relative
 tolerance

---
 dascore/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index aba295e..3b8fa94 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -329,7 +329,8 @@ def all_diffs_close_enough(diffs):
     med = np.median(diffs)
     # Note: The rtol parameter here is a bit arbitrary; it was set
     # based on experience but there is probably a better way to do this.
-    return np.allclose(diffs, med, rtol=0.001)
+    # The tolerance must be purely relative to work for small magnitudes.
+    return np.allclose(diffs, med, rtol=0.001, atol=0)
 
 
 def unbyte(byte_or_str: bytes | str) -> str:
-- 
2.43.0


From 54786d646dae0c7abeb321b6d4f0f4eaad6696f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 05/76] fix: update the min/max of reverse-sorted range
 coordinates

---
 dascore/core/coords.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index fcb5b76..66bdb4c 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1352,15 +1352,19 @@ class CoordRange(BaseCoord):
             out = out.new(stop=new_stop, step=step)
         if min is not None:
             min = get_compatible_values(min, self.dtype)
-            diff = min - out.start
-            new_stop = out.stop + diff
-            out = out.new(start=min, stop=new_stop)
+            diff = min - out.min()
+            # The start of a reverse sorted coord is its max, not its min.
+            new_start = min if out.sorted else out.start + diff
+            out = out.new(start=new_start, stop=out.stop + diff)
         if max is not None:
             max = get_compatible_values(max, self.dtype)
-            translation = (max + out.step) - out.stop
-            new_start = self.start + translation
-            # we add step so the new range is inclusive of stop.
-            out = out.new(start=new_start, stop=max + out.step)
+            if out.reverse_sorted:
+                out = out.new(start=max, stop=out.stop + (max - out.max()))
+            else:
+                translation = (max + out.step) - out.stop
+                new_start = self.start + translation
+                # we add step so the new range is inclusive of stop.
+                out = out.new(start=new_start, stop=max + out.step)
         return out.new(**kwargs)
 
     @property
-- 
2.43.0


From 4c235d59ee833bb70d924a424532c3d52548ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 06/76] fix: get_next_index of the first label of monotonic
 coordinates

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 66bdb4c..28ab908 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1618,7 +1618,7 @@ class CoordMonotonicArray(CoordArray):
         right = np.searchsorted(values, new_value, side="right")
         # right_ok = (right < len(self)) & (right < 0)
         left = np.searchsorted(values, new_value, side="left")
-        left_ok = (left < len(self)) & (left > 0)
+        left_ok = left < len(self)
         eq = left_ok & (values.take(left, mode="clip") == new_value)
         out = right if forward else left
         # where equal it should also be left values. This makes the function
-- 
2.43.0


From 5b18ea2e6615869f524170f64ef6c741b81d6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:38 +0000
Subject: [PATCH 07/76] fix: get_next_index rounds out-of-bounds values up like
 in-bounds ones

---
 dascore/core/coords.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 28ab908..3749a60 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -941,8 +941,9 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 return array if input_array_like else array[0]
             # For absolute mode with evenly sampled coords, compute index from value
             if hasattr(self, "step") and self.step is not None:
-                # Calculate index: (value - min) / step
-                indices = ((array - min_val) / self.step).astype(np.int64)
+                # Calculate index: (value - min) / step, rounded as in _get_index.
+                ratio = np.round((array - min_val) / self.step, decimals=10)
+                indices = np.ceil(ratio).astype(np.int64)
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
-- 
2.43.0


From e4ebe78b16b2b629d7d5cbc4e782e4cf046d92b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:38 +0000
Subject: [PATCH 08/76] fix: flip coordinates shared by several flipped
 dimensions along all of them

---
 dascore/core/coordmanager.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 87dabbf..a50d551 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -1173,10 +1173,13 @@ class CoordManager(DascoreBaseModel):
                 # Don't flip dimensional coords twice!
                 if associated == name:
                     continue
-                associated_coord = self.get_coord(associated)
-                dims = dim_map[associated]
-                axis = dims.index(name)
-                out[associated] = (dims, _flip_coord(associated_coord, axis))
+                coord_dims = dim_map[associated]
+                # It may already be flipped along another of its dimensions.
+                _, associated_coord = out.get(
+                    associated, (coord_dims, self.get_coord(associated))
+                )
+                axis = coord_dims.index(name)
+                out[associated] = (coord_dims, _flip_coord(associated_coord, axis))
 
         return self.update(**out)
 
-- 
2.43.0


From 6b6abc62e5592d88c21a4d3b9c45bdcd66b0b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:38 +0000
Subject: [PATCH 09/76] fix: roll every coordinate of the dimension when
 update_coord is set

---
 dascore/proc/basic.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index d41888d..1d4d730 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -17,7 +17,7 @@ from dascore.core.coordmanager import CoordManager, get_coord_manager
 from dascore.core.coords import get_coord
 from dascore.exceptions import ParameterError
 from dascore.utils.array import _apply_binary_ufunc
-from dascore.utils.misc import _get_nullish
+from dascore.utils.misc import _get_nullish, broadcast_for_index
 from dascore.utils.models import ArrayLike
 from dascore.utils.patch import (
     align_patch_coords,
@@ -700,13 +700,18 @@ def roll(patch, samples=False, update_coord=False, **kwargs):
 
     roll_arr = np.roll(arr, value, axis=axis)
 
-    # update coords if True
+    # update coords if True; all coords on the dimension roll with the data.
+    coords = patch.coords
     if update_coord:
-        roll_coord_arr = np.roll(coord.values, value)
-        new_coord = coord.update(values=roll_coord_arr)
-        patch = patch.update_coords(**{dim: new_coord})
-
-    return patch.new(data=roll_arr)
+        inds = np.roll(np.arange(len(coord)), value)
+        new_coords = {}
+        for name in coords.dim_to_coord_map[dim]:
+            coord_dims, old_coord = coords.dim_map[name], coords.coord_map[name]
+            index = broadcast_for_index(old_coord.ndim, coord_dims.index(dim), inds)
+            new_coords[name] = (coord_dims, old_coord[index])
+        coords = coords.update(**new_coords)
+
+    return patch.new(data=roll_arr, coords=coords)
 
 
 @patch_function()
-- 
2.43.0


From e99a6f021210f87a0d50e08686dc4febcd5a4400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:37 +0000
Subject: [PATCH 10/76] fix: rename coordinates simultaneously and refuse name
 collisions

---
 dascore/core/coordmanager.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index a50d551..d1f9a6e 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -928,29 +928,18 @@ class CoordManager(DascoreBaseModel):
             Used to rename coord {old_coord_name: new_coord_name}
         """
 
-        def _adjust_dim_map_to_new_dim(dim_map, old_name, new_name):
-            """Get the updated dim map."""
-            out = dim_map
-            # replace all mentions of
-            for key, value in out.items():
-                if old_name not in value:
-                    continue
-                new_value = tuple(x if x != old_name else new_name for x in value)
-                out[key] = new_value
-
-            return out
-
-        dims, coord_map = list(self.dims), dict(self.coord_map)
-        dim_map = dict(self.dim_map)
-        for old_name, new_name in kwargs.items():
-            if old_name == new_name:
-                continue
-            if old_name in dims:  # only
-                dims[dims.index(old_name)] = new_name
-                dim_map = _adjust_dim_map_to_new_dim(dim_map, old_name, new_name)
-            coord_map[new_name] = coord_map.pop(old_name)
-            dim_map[new_name] = dim_map.pop(old_name)
-
+        if missing := set(kwargs) - set(self.coord_map):
+            raise KeyError(*sorted(missing))
+        # All names change at once so coordinates can, for example, be swapped.
+        names = {x: kwargs.get(x, x) for x in self.coord_map}
+        if len(set(names.values())) != len(names):
+            msg = f"Renaming {kwargs} would leave coordinates with the same name."
+            raise CoordError(msg)
+        dims = tuple(names[x] for x in self.dims)
+        coord_map = {names[i]: v for i, v in self.coord_map.items()}
+        dim_map = {
+            names[i]: tuple(names[x] for x in v) for i, v in self.dim_map.items()
+        }
         out = dict(dims=dims, coord_map=coord_map, dim_map=dim_map)
         return self.__class__(**out)
 
-- 
2.43.0


From 0e40a1969fb1d6c85286f1bed600cacc25ac77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:37 +0000
Subject: [PATCH 11/76] fix: renaming a coordinate leaves no stale attributes
 behind

---
 dascore/proc/coords.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dascore/proc/coords.py b/dascore/proc/coords.py
index e64748c..0965f26 100644
--- a/dascore/proc/coords.py
+++ b/dascore/proc/coords.py
@@ -226,8 +226,7 @@ def rename_coords(self: PatchType, **kwargs) -> PatchType:
     >>> assert 'fragrance' in pa2.dims
     """
     new_coord = self.coords.rename_coord(**kwargs)
-    attrs = self.attrs.rename_dimension(**kwargs)
-    return self.new(coords=new_coord, dims=new_coord.dims, attrs=attrs)
+    return self.new(coords=new_coord, dims=new_coord.dims)
 
 
 @patch_function()
-- 
2.43.0


From 22c1b46c684e4ddaa9ff23a11ecd8241beb3105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:18 +0000
Subject: [PATCH 12/76] fix: apply limit updates of a coordinate together, in a
 fixed order

---
 dascore/core/coordmanager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index d1f9a6e..4e0f345 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -307,10 +307,14 @@ class CoordManager(DascoreBaseModel):
         out = coords._get_dim_array_dict(keep_coord=True)
         out.update({i: v for i, v in kwargs.items() if i not in coord_to_drop})
         # update based on keywords
+        limit_updates = defaultdict(dict)
         for item, value in coord_updates.items():
-            coord_name, attr = item.split("_")
+            coord_name, attr = item.rsplit("_", maxsplit=1)
+            limit_updates[coord_name][attr] = value
+        # each coord must be updated once as the order of updates matters.
+        for coord_name, updates in limit_updates.items():
             new = list(out[coord_name])
-            new[1] = new[1].update(**{attr: value})
+            new[1] = new[1].update(**updates)
             out[coord_name] = tuple(new)
 
         dims = tuple(x for x in dims if x not in coord_to_drop)
-- 
2.43.0


From ee96a0c5a05c4bced7f83fdca33b42d929dc92a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:18 +0000
Subject: [PATCH 13/76] fix: setting coordinate units keeps the data units

---
 dascore/proc/units.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index a254ffa..7f3dba8 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -8,6 +8,9 @@ from dascore.units import Quantity, Unit, get_factor_and_unit
 from dascore.units import convert_units as u_covert_units
 from dascore.utils.patch import patch_function
 
+# Sentinel to indicate the data units shouldn't change.
+_KEEP = object()
+
 
 def _update_attrs_coord_units(patch: dc.Patch, data_units, coords):
     """Update attributes with new units."""
@@ -22,7 +25,7 @@ def _update_attrs_coord_units(patch: dc.Patch, data_units, coords):
 
 @patch_function()
 def set_units(
-    patch: PatchType, data_units: str | Quantity | Unit | None = None, **kwargs
+    patch: PatchType, data_units: str | Quantity | Unit | None = _KEEP, **kwargs
 ) -> PatchType:
     """
     Set the units of a patch's data or coordinates.
@@ -33,6 +36,7 @@ def set_units(
         The input patch.
     data_units
         New units for the patch data. Accepts both unit and quantity strings.
+        If not provided, the data units are unchanged. Use None to remove them.
     **kwargs
         Used to specify new units for any of the patch's coordinates.
 
@@ -56,6 +60,7 @@ def set_units(
     >>> patch_removed_units = patch_with_units.set_units(None)
     """
     new_coords = patch.coords.set_units(**kwargs)
+    data_units = patch.attrs.data_units if data_units is _KEEP else data_units
     new_attrs = _update_attrs_coord_units(patch, data_units, new_coords)
     return patch.new(attrs=new_attrs, coords=new_coords)
 
-- 
2.43.0


From 58d2e862d348257b6b94ccb8251a6262c2523b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:53 +0000
Subject: [PATCH 14/76] fix: single-sample range coordinates return values of
 their own dtype

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 3749a60..1d7fb58 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1373,7 +1373,7 @@ class CoordRange(BaseCoord):
     def values(self) -> ArrayLike:
         """Return the values of the coordinate as an array."""
         if len(self) == 1:
-            return np.asarray([self.start])
+            return np.asarray([self.start], dtype=self.dtype)
         # note: linspace works better for floats that might have slightly
         # uneven spacing. It ensures the length of the output array is robust
         # to small deviations in spacing. However, this doesnt work for datetimes.
-- 
2.43.0


From ee130983a3a4af91b434f2b9cd2a54cff86258b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 15/76] fix: coordinate labels compare relative to their
 spacing and with units

Neighbouring labels with a large offset (or tiny spacing) compared equal, equal
numbers in different units compared equal, and labels differing only by
round-off were lost when aligning a coordinate with a trimmed copy of itself.
---
 dascore/core/coords.py  | 18 +++++++++-----
 dascore/utils/misc.py   | 54 +++++++++++++++++++++++++++++++++++++++++
 dascore/utils/models.py |  4 +--
 3 files changed, 68 insertions(+), 8 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 1d7fb58..f76dbba 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -40,11 +40,12 @@ from dascore.utils.misc import (
     _maybe_array_to_slice,
     _to_slice,
     _validate_sample_values,
-    all_close,
     all_diffs_close_enough,
     cached_method,
     iterate,
+    labels_close,
     sanitize_range_param,
+    snap_labels,
 )
 from dascore.utils.models import (
     ArrayLike,
@@ -455,10 +456,13 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if isinstance(self, CoordPartial) or isinstance(other, CoordPartial):
             valid_non_coord(self, other)
             return self, other, slice(None), slice(None)
-        data1, data2 = self.data, other.data
+        # Float labels can differ by round-off, eg if only one coord was trimmed.
+        data1, data2 = self.data, snap_labels(other.data, self.data)
         intersection = np.intersect1d(data1, data2)
         coord1, slice1 = self.order(intersection)
-        coord2, slice2 = other.order(intersection)
+        coord2, slice2 = other.order(np.unique(other.data[np.isin(data2, data1)]))
+        if coord1.shape == coord2.shape and self.units == other.units:
+            coord2 = coord1
         return coord1, coord2, slice1, slice2
 
     @abc.abstractmethod
@@ -656,7 +660,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if data is None and values is None:
             return self
         data = values if data is None else data
-        units = kwargs.get("units")
+        units = kwargs.get("units", self.units)
         return get_coord(data=data, units=units)
 
     def new(self, **kwargs):
@@ -819,7 +823,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             for i, v in kwargs.items()
             # A missing scalar (eg NaN step) means there is nothing to update.
             if not (np.ndim(v) == 0 and v is not None and pd.isnull(v))
-            and not all_close(v, info.get(i))
+            and not labels_close(v, info.get(i))
         }
         units = update_fields.pop("units", None)
         _ = update_fields.pop("dtype", None)
@@ -975,7 +979,9 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             return self == other
         if any(non_coords):
             return False
-        return all_close(self.values, other.values)
+        if self.units != other.units:
+            return False
+        return labels_close(self.values, other.values)
 
     def change_length(self, length: int) -> Self:
         """
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index 3b8fa94..b3381db 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -143,6 +143,60 @@ def all_close(ar1, ar2):
         return np.all((ar1 == ar2) | both_null)
 
 
+def _get_label_tolerance(labels):
+    """Get the largest difference at which two float labels are still the same."""
+    labels = np.sort(labels[np.isfinite(labels)], axis=None).astype(np.float64)
+    largest = np.max(np.abs(labels), initial=0)
+    round_off = 16 * np.finfo(np.float64).eps * largest
+    spacing = np.diff(labels)
+    spacing = spacing[spacing > round_off]
+    if not len(spacing):  # There is no spacing to compare with.
+        return 1e-9 * largest
+    return max(1e-3 * np.min(spacing), round_off)
+
+
+def _are_float_labels(*labels):
+    """Return True if the label arrays are numeric and at least one is float."""
+    kinds = {x.dtype.kind for x in labels}
+    return "f" in kinds and kinds <= {"f", "i", "u"}
+
+
+def labels_close(ar1, ar2):
+    """
+    Return True if two arrays of coordinate labels are the same.
+
+    Float labels may differ by a small fraction of their spacing. Contrary to
+    [`all_close`](`dascore.utils.misc.all_close`), the tolerance does not grow
+    with the offset of the labels, so neighboring labels are never equal.
+    """
+    ar1, ar2 = np.asarray(ar1), np.asarray(ar2)
+    if ar1.shape != ar2.shape:
+        return False
+    equal = pd.isnull(ar1) & pd.isnull(ar2)
+    if _are_float_labels(ar1, ar2):
+        equal |= np.abs(ar1 - ar2) <= _get_label_tolerance(ar1)
+    # Different time-like types, or times and numbers, are never equal.
+    elif ar1.dtype.kind == ar2.dtype.kind or not {*"mM"} & {
+        ar1.dtype.kind,
+        ar2.dtype.kind,
+    }:
+        equal |= ar1 == ar2
+    return bool(np.all(equal))
+
+
+def snap_labels(labels, reference):
+    """Replace float labels by the reference labels they are the same as."""
+    if not _are_float_labels(labels, reference) or not len(reference):
+        return labels
+    ref = np.sort(reference)
+    right = np.clip(np.searchsorted(ref, labels), 0, len(ref) - 1)
+    left = np.maximum(right - 1, 0)
+    use_left = np.abs(labels - ref[left]) < np.abs(labels - ref[right])
+    nearest = np.where(use_left, ref[left], ref[right])
+    close = np.abs(labels - nearest) <= _get_label_tolerance(reference)
+    return np.where(close, nearest, labels)
+
+
 def _all_null(maybe_ar):
     """Return True if values is nullish, or all sub-values nullish if sequence."""
     out = pd.isnull(maybe_ar)
diff --git a/dascore/utils/models.py b/dascore/utils/models.py
index 68f4a88..2ae58e6 100644
--- a/dascore/utils/models.py
+++ b/dascore/utils/models.py
@@ -14,7 +14,7 @@ from typing_extensions import Self
 from dascore.compat import array, is_array_like
 from dascore.units import Quantity, get_quantity, get_quantity_str
 from dascore.utils.mapping import FrozenDict
-from dascore.utils.misc import _all_null, all_close, to_str, unbyte
+from dascore.utils.misc import _all_null, labels_close, to_str, unbyte
 from dascore.utils.time import to_datetime64, to_timedelta64
 
 # --- A list of custom types with appropriate serialization/deserialization
@@ -77,7 +77,7 @@ def sensible_model_equals(
         # skip any private attributes.
         val1, val2 = d1[name], d2[name]
         if is_array_like(val1):
-            if not all_close(val1, val2):
+            if not labels_close(val1, val2):
                 return False
         else:
             if val1 != val2 and not (_all_null(val1) and _all_null(val2)):
-- 
2.43.0


From 31d059267ac37ae71925748cfc8f7e139309b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 16/76] fix: align patches with differently ordered dims and
 reordered labels

Patches with equal coordinates but different dimension order were not
transposed, and coordinates attached to a reordered dimension were left behind.
---
 dascore/utils/patch.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index b1abfd7..37a9d37 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -937,6 +937,17 @@ def _get_dx_or_spacing_and_axes(
     return tuple(out), tuple(axes)
 
 
+def _index_dims(cm, new_dim_coords, indexers):
+    """Set new, indexed dimension coords and index coords associated with them."""
+    for dim, coord in new_dim_coords.items():
+        new_coords = cm.get_coord_tuple_map()
+        new_coords[dim] = ((dim,), coord)
+        index = indexers[cm.dims.index(dim)]
+        dc.core.coordmanager._indirect_coord_updates(cm, dim, dim, index, new_coords)
+        cm = cm.update(**new_coords)
+    return cm
+
+
 def align_patch_coords(
     patch1: PatchType, patch2: PatchType
 ) -> tuple[PatchType, PatchType]:
@@ -951,7 +962,7 @@ def align_patch_coords(
         The second patch.
     """
     # Fast path for no alignment needed
-    if patch1.coords == patch2.coords:
+    if patch1.dims == patch2.dims and patch1.coords == patch2.coords:
         return patch1, patch2
     shared_dims = set(patch1.dims) & set(patch2.dims)
     if not shared_dims:
@@ -981,8 +992,8 @@ def align_patch_coords(
     if not (new_coords_1 or new_coords_2):
         return patch1, patch2
     # Update coordinate managers and reshape arrays, return new patches.
-    coord1 = patch1.coords.update(**new_coords_1)
-    coord2 = patch2.coords.update(**new_coords_2)
+    coord1 = _index_dims(patch1.coords, new_coords_1, align_1)
+    coord2 = _index_dims(patch2.coords, new_coords_2, align_2)
     array1 = _apply_union_indexers(tuple(align_1), patch1.data)
     array2 = _apply_union_indexers(tuple(align_2), patch2.data)
     out1 = patch1.new(data=array1, coords=coord1)
-- 
2.43.0


From 889d90cdf85ed29f42b9b005ed856249be485f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:23 +0000
Subject: [PATCH 17/76] fix: label reductions of integer coordinates keep the
 value as a label

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index f76dbba..73ad165 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1030,7 +1030,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             if dtype_time_like(coord_data):
                 result = _reduce_time_like(func, coord_data)
             else:
-                result = func(self.data)
+                result = np.atleast_1d(func(self.data))
             new_coord = self.update(data=result)
         else:
             msg = "dim_reduce must be 'empty', 'squeeze' or valid aggregator."
-- 
2.43.0


From 4316f33a96be4f175171aa2dfdd16f556e4e2c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:23 +0000
Subject: [PATCH 18/76] fix: numpy reductions of patches accept keepdims and
 several dims

---
 dascore/utils/array.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/array.py b/dascore/utils/array.py
index c7fd41c..dc59a1a 100644
--- a/dascore/utils/array.py
+++ b/dascore/utils/array.py
@@ -401,8 +401,9 @@ def _reassemble_patch(result, patch, func, args, kwargs):
 
     if "axis" in sig.parameters:
         dims, inds = _get_dims_and_inds_from_signature(patch, sig, args, kwargs)
-        # re-expand array.
-        result = result[inds]
+        # re-expand array, unless keepdims already did.
+        if result.ndim != patch.ndim:
+            result = result[inds]
         new_coords = {x: patch.get_coord(x).reduce_coord() for x in dims}
         cm = patch.coords.update(**new_coords)
         return patch.new(data=result, coords=cm)
@@ -426,6 +427,9 @@ def apply_array_func(func, *args, **kwargs):
 
     # Convert dim to axis for numpy functions
     converted_kwargs = swap_kwargs_dim_to_axis(first_patch, kwargs)
+    # ufunc methods only accept tuples of axes.
+    if isinstance(converted_kwargs.get("axis"), list):
+        converted_kwargs = {**converted_kwargs, "axis": tuple(converted_kwargs["axis"])}
     converted_args = args
 
     _args = tuple(_strip_data_from_patch(a) for a in converted_args)
-- 
2.43.0


From 388188d1d84afb9a4831cdb4034d1cadcaf2d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 19/76] fix: sample counts of reversed coordinates and of exact
 multiples of the step

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 73ad165..dafc236 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -864,13 +864,14 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         else:
             compat_val = self._get_compatible_value(value, relative=True)
             duration = compat_val - self.min()
-            ratio = duration / self.step
+            ratio = duration / abs(self.step)
             if np.issubdtype(self.dtype, np.floating):
                 nearest = np.round(ratio)
                 # Adding a relative float value to coord.min() and subtracting
                 # it back can introduce a small cancellation error. Snap only
                 # those float-coordinate ratios that fall within that drift.
                 tol = 10 * abs(np.spacing(self.min()) / self.step)
+                tol += 10 * np.spacing(abs(ratio))
                 if abs(ratio - nearest) <= tol:
                     ratio = nearest
             samples = int(np.ceil(ratio))
-- 
2.43.0


From e90e01a88e47f1a408a72e9b76e5f3e684613967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 20/76] fix: rolling engines agree for centred strided windows,
 std, complex and flat patches

---
 dascore/proc/rolling.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/dascore/proc/rolling.py b/dascore/proc/rolling.py
index 30b9af6..2783445 100644
--- a/dascore/proc/rolling.py
+++ b/dascore/proc/rolling.py
@@ -104,30 +104,32 @@ class _NumpyPatchRoller(_PatchRollerInfo):
 
         This only applies for numpy engine.
         """
-        wsize = self.window - 1
-        out = np.ceil(wsize / self.step) * self.step - wsize
+        lag = self._get_label_lag()
+        out = np.ceil(lag / self.step) * self.step - lag
         return int(out)
 
+    def _get_label_lag(self):
+        """Get the number of samples from a window's start to its label."""
+        wsize = self.window - 1
+        # Same convention as pandas for windows of even length.
+        return wsize - wsize // 2 if self.center else wsize
+
     def _pad_roll_array(self, data):
         """
         Pad the reduced array with NaNs and align it to the output coordinate.
 
-        The NaNs go at the start of the axis, except when centering, which
-        moves `num_nans // 2` of them to the end. This is done with a single
-        allocation rather than a pad followed by a roll.
+        The NaNs go before the first label whose window is complete and,
+        when centering, after the last one.
         """
-        num_nans = 1 + (self.window - 2) // self.step
-        if not num_nans:  # window of one sample; nothing to pad.
+        if self.window == 1:  # window of one sample; nothing to pad.
             return data
         shape = list(data.shape)
-        shape[self.axis] += num_nans
+        shape[self.axis] = int(np.ceil(self.patch.shape[self.axis] / self.step))
         out = np.full(shape, np.nan, dtype=data.dtype)
-        start = num_nans - num_nans // 2 if self.center else num_nans
+        start = int(np.ceil(self._get_label_lag() / self.step))
         slicer = [slice(None, None)] * len(shape)
         slicer[self.axis] = slice(start, start + data.shape[self.axis])
         out[tuple(slicer)] = data
-        if self.step == 1:
-            assert out.shape == self.patch.data.shape
         return out
 
     @compose_docstring(apply_description=rolling_apply_description)
@@ -155,7 +157,8 @@ class _NumpyPatchRoller(_PatchRollerInfo):
         # apply function, then pad with NaNs and roll
         trimmed_slide_view = slide_view[tuple(step_slice)]
         raw = function(trimmed_slide_view, *args, axis=-1, **kwargs)
-        out = self._pad_roll_array(np.asarray(raw, dtype=np.float64))
+        dtype = np.result_type(raw, np.float64)  # at least float to hold NaNs
+        out = self._pad_roll_array(np.asarray(raw, dtype=dtype))
         return self._new_patch(out, function)
 
     def mean(self):
@@ -211,7 +214,7 @@ class _PandasPatchRoller(_PatchRollerInfo):
         data = df.values if not self.axis else df.T.values
         # get rid of extra dims if original data doesn't have them.
         if len(data.shape) != len(self.patch.data.shape):
-            data = np.squeeze(data)
+            data = data[..., 0]
         return self._new_patch(data, func_or_str)
 
     def _call_rolling_func(self, name, *args, **kwargs):
@@ -246,7 +249,8 @@ class _PandasPatchRoller(_PatchRollerInfo):
 
     def std(self):
         """Apply standard deviation to moving window."""
-        return self._call_rolling_func(name="std")
+        # Use the same normalization as the numpy engine (and Patch.std).
+        return self._call_rolling_func(name="std", ddof=0)
 
     def sum(self):
         """Apply sum to moving window."""
@@ -394,7 +398,9 @@ def rolling(
         engines = {"numpy": _NumpyPatchRoller, "pandas": _PandasPatchRoller}
         if cls := engines.get(engine):
             return cls
-        if step < 10 and len(patch.squeeze().dims) < 2:
+        # The pandas engine only supports up to two dimensions.
+        non_flat = sum(x > 1 for x in patch.shape)
+        if step < 10 and non_flat < 2 and patch.ndim <= 2:
             return _PandasPatchRoller
         return _NumpyPatchRoller
 
-- 
2.43.0


From cef14fced1362ce40b1e7089cd9aa6cd9bdcc6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:53 +0000
Subject: [PATCH 21/76] fix: selecting from an empty coordinate stays empty

---
 dascore/core/coords.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index dafc236..7198211 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1109,8 +1109,11 @@ class CoordPartial(BaseCoord):
         """
         Select new values inside coord.
 
-        For partial, samples==True or raise.
+        For partial, samples==True or raise, unless the coord is empty.
         """
+        # There is nothing to select from an empty coord.
+        if not samples and 0 in self.shape:
+            return self, slice(None)
         # Need to ensure relative is used OR the select has no effect.
         try:
             self._check_order_and_select(relative, samples)
-- 
2.43.0


From 3f401ffc799342edb28551fd32395175fb78eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:20 +0000
Subject: [PATCH 22/76] fix: time coordinates starting at the epoch get their
 units

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 7198211..a4fc20f 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -288,7 +288,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if isinstance(data, dict):
             # This handles the coord range case.
             is_timey = False
-            if start := data.get("start"):
+            if (start := data.get("start")) is not None:
                 is_timey = is_timedelta64(start) or is_datetime64(start)
             elif (values := data.get("values")) is not None:
                 is_timey = dtype_time_like(values)
-- 
2.43.0


From 97cb4295546f2b0bce5fa5f0d573245236134a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 23/76] fix: only contiguous rows of the same group are chunked
 together

A gap in one group of patches was bridged when patches of another group
covered it, so patches were merged across the gap with wrong labels.
---
 dascore/utils/chunk.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 25ad36f..c5679e5 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -432,9 +432,9 @@ class ChunkManager:
         col_g = cont_g * 0 if not columns else df.groupby(columns).ngroup()
         return col_g
 
-    def _get_final_group(self, samp_g, col_g, cont_g):
+    def _get_final_group(self, *groups):
         """Combine grouping components into final group labels."""
-        group_series = [x.astype(str) for x in [samp_g, col_g, cont_g]]
+        group_series = [x.astype(str) for x in groups]
         return reduce(lambda x, y: x + "_" + y, group_series)
 
     def _groups_merge_default_groups(self, group, default_cont_g) -> bool:
@@ -455,16 +455,28 @@ class ChunkManager:
         Get the group designation for df. This accounts for both time intervals
         being consistent and group columns matching.
         """
-        cont_g = self._get_continuity_group_number(start, stop, step)
         samp_g = self._get_sampling_group_num(step)
-        col_g = self._get_col_group(df, cont_g)
-        group = self._get_final_group(samp_g, col_g, cont_g)
+        col_g = self._get_col_group(df, samp_g)
+        # Only rows of the same group can be contiguous with each other.
+        base_g = self._get_final_group(samp_g, col_g)
+
+        def _get_continuity(tolerance=None):
+            """Get the continuity groups within each base group."""
+            out = [
+                self._get_continuity_group_number(
+                    start[ind], stop[ind], step[ind], tolerance=tolerance
+                )
+                for ind in base_g.groupby(base_g).groups.values()
+            ]
+            return pd.concat(out)[start.index]
+
+        group = self._get_final_group(base_g, _get_continuity())
 
         # Check for final merges that only occur because of a non-default
         # tolerance. See #662.
         if self._tolerance > _DEFAULT_TOLERANCE:
-            default_cont_g = self._get_continuity_group_number(
-                start, stop, step, tolerance=_DEFAULT_TOLERANCE
+            default_cont_g = self._get_final_group(
+                base_g, _get_continuity(tolerance=_DEFAULT_TOLERANCE)
             )
             if self._groups_merge_default_groups(group, default_cont_g):
                 msg = (
-- 
2.43.0


From 776481d8633d9df766498825606eafdc9cfeeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 24/76] fix: array indexing, slicing and splitting of spools
 keep their patches

Repeated rows, slices of chunked spools and out of range negative indices
broke or duplicated the patches; split(count) returned fewer spools.
---
 dascore/core/spool.py | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 406c426..c157c6a 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -445,8 +445,22 @@ class DataFrameSpool(BaseSpool):
         else:
             msg = "Only bool or int dtypes are supported for spool array selection."
             raise ValueError(msg)
-        source = self._source_df
         inst = self._instruction_df
+        if df.index.is_unique:
+            inst = inst[inst["current_index"].isin(df.index)]
+        else:  # Rows are repeated; each needs its own index and instructions.
+            mapper = df.index.to_frame(index=False, name="current_index")
+            df = df.reset_index(drop=True)
+            mapper["_new_index"] = df.index
+            inst = (
+                inst.reset_index(names="source_index")
+                .merge(mapper, on="current_index")
+                .drop(columns="current_index")
+                .rename(columns={"_new_index": "current_index"})
+                .set_index("source_index")
+                .sort_values("current_index", kind="stable")
+            )
+        source = self._source_df.loc[inst.index.unique()]
         select_kwargs, merge_kwargs = self._select_kwargs, self._merge_kwargs
         new = self.new_from_df(
             df,
@@ -462,7 +476,8 @@ class DataFrameSpool(BaseSpool):
             new_df = self._df.iloc[item]
             inst, source = self._instruction_df, self._source_df
             new_inst = inst[inst["current_index"].isin(new_df.index)]
-            new_source = source.loc[new_inst.index]
+            # Several output patches can come from the same source.
+            new_source = source.loc[new_inst.index.unique()]
             out = self.new_from_df(
                 df=new_df,
                 instruction_df=new_inst,
@@ -497,9 +512,11 @@ class DataFrameSpool(BaseSpool):
         source = self._source_df
         instruction = self._instruction_df
         # handle negative index.
-        df_ind = df_ind if df_ind >= 0 else len(self._df) + df_ind
+        pos_ind = df_ind if df_ind >= 0 else len(self._df) + df_ind
         try:
-            inds = self._df.index[df_ind]
+            if pos_ind < 0:
+                raise IndexError
+            inds = self._df.index[pos_ind]
         except IndexError:
             msg = f"index of [{df_ind}] is out of bounds for spool."
             raise IndexError(msg) from None
@@ -748,7 +765,9 @@ class DataFrameSpool(BaseSpool):
             **kwargs,
         ).loc[lambda x: x["current_index"].isin(filtered_df.index)]
         source = adjust_segments(
-            self._source_df.loc[inst.index], ignore_bad_kwargs=True, **kwargs
+            self._source_df.loc[inst.index.unique()],
+            ignore_bad_kwargs=True,
+            **kwargs,
         )
         out = self.new_from_df(
             filtered_df,
@@ -800,9 +819,15 @@ class DataFrameSpool(BaseSpool):
         if not ((count is not None) ^ (size is not None)):
             msg = "Spool.split requires either spool_count or spool_size."
             raise ParameterError(msg)
+        if count is not None:
+            # Spread the patches as evenly as possible over the spools.
+            base, extra = divmod(len(self), count)
+            sizes = [base + (num < extra) for num in range(min(count, len(self)))]
+        else:
+            size = int(np.ceil(size))
+            sizes = [size] * int(np.ceil(len(self) / size))
         start = 0
-        step = int(np.ceil(len(self) / count if count else size))
-        while start < len(self):
+        for step in sizes:
             yield self[start : start + step]
             start += step
 
-- 
2.43.0


From 22d15b03ea0bd5ebf3136ad22a7253d3be45b034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:56 +0000
Subject: [PATCH 25/76] fix: equality of file and directory spools ignores
 which patches were loaded

---
 dascore/clients/dirspool.py |  7 ++++++
 dascore/core/spool.py       | 50 +++++++++++++++++++++----------------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index a4ba73e..50d32b9 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -92,6 +92,13 @@ class DirectorySpool(DataFrameSpool):
         """Return a dataframe of sources in spool."""
         return self.indexer(**self._select_kwargs).reset_index(drop=True)
 
+    def _eq_dict(self) -> dict:
+        """Get a dict for equality checks, ignoring the indexer's caches."""
+        out = super()._eq_dict()
+        indexer = out["indexer"]
+        out["indexer"] = (indexer.path, getattr(indexer, "index_path", None))
+        return out
+
     @property
     def spool_path(self):
         """Return the path in which the spool contents are found."""
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index c157c6a..22c292a 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -436,6 +436,30 @@ class DataFrameSpool(BaseSpool):
         self._select_kwargs = {} if select_kwargs is None else select_kwargs
         self._merge_kwargs = {} if merge_kwargs is None else merge_kwargs
 
+    def __eq__(self, other) -> bool:
+        """
+        Equality check which ignores the state of the lazy dataframes.
+
+        The managed dataframes are built and compared directly so that
+        equality does not depend on whether they were constructed yet.
+        """
+        if self is other:
+            return True
+        if not isinstance(other, DataFrameSpool):
+            return super().__eq__(other)
+        return deep_equality_check(self._eq_dict(), other._eq_dict())
+
+    def _eq_dict(self) -> dict:
+        """Get a dict for equality checks, normalizing lazy state."""
+        out = dict(self.__dict__)
+        # Build (if needed) and compare the dataframes.
+        out["_cache"] = {
+            "_df": self._df,
+            "_source_df": self._source_df,
+            "_instruction_df": self._instruction_df,
+        }
+        return out
+
     def _select_from_array(self, array) -> Self:
         """Create new spool with contents changed from array input."""
         if np.issubdtype(array.dtype, np.bool_):  # boolean select
@@ -819,6 +843,8 @@ class DataFrameSpool(BaseSpool):
         if not ((count is not None) ^ (size is not None)):
             msg = "Spool.split requires either spool_count or spool_size."
             raise ParameterError(msg)
+        if not len(self):
+            return
         if count is not None:
             # Spread the patches as evenly as possible over the spools.
             base, extra = divmod(len(self), count)
@@ -912,29 +938,11 @@ class MemorySpool(DataFrameSpool):
         else:
             yield from super().__iter__()
 
-    def __eq__(self, other) -> bool:
-        """
-        Equality check which ignores the state of the lazy dataframes.
-
-        The managed dataframes are built and compared directly so that
-        equality does not depend on whether they were constructed yet.
-        """
-        if self is other:
-            return True
-        if not isinstance(other, MemorySpool):
-            return super().__eq__(other)
-        return deep_equality_check(self._eq_dict(), other._eq_dict())
-
     def _eq_dict(self) -> dict:
         """Get a dict for equality checks, normalizing lazy state."""
-        out = dict(self.__dict__)
-        # Build (if needed) and compare the dataframes; drop the inputs
-        # they were built from, whose form can differ for equal contents.
-        out["_cache"] = {
-            "_df": self._df,
-            "_source_df": self._source_df,
-            "_instruction_df": self._instruction_df,
-        }
+        out = super()._eq_dict()
+        # Drop the inputs the dataframes were built from, whose form can
+        # differ for equal contents.
         out.pop("_patches", None)
         out.pop("_data", None)
         return out
-- 
2.43.0


From 1a38000cf998266a5341a0c790326be59ea185ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:56 +0000
Subject: [PATCH 26/76] fix: file spools return the patch of the row when
 several overlap in the file

---
 dascore/clients/filespool.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dascore/clients/filespool.py b/dascore/clients/filespool.py
index 3cc4d38..e811a2d 100644
--- a/dascore/clients/filespool.py
+++ b/dascore/clients/filespool.py
@@ -64,9 +64,20 @@ class FileSpool(DataFrameSpool):
         out = base + Text(f" Path: {self._path}")
         return out
 
+    def _df_to_dict_list(self, df):
+        """Also keep track of the position of the patches in the file."""
+        return super()._df_to_dict_list(df.assign(_position=df.index))
+
     def _load_patch(self, kwargs) -> Self:
         """Given a row from the managed dataframe, return a patch."""
+        position = kwargs.pop("_position")
         patches = list(dc.read(**kwargs))
+        if len(patches) > 1:
+            # Several patches have data in the range (and match the metadata);
+            # get the one which was scanned. It is trimmed later, if needed.
+            keys = ("path", "file_format", "file_version")
+            patches = list(dc.read(**{x: kwargs[x] for x in keys}))
+            return patches[position]
         if not patches:
             # Iteration skips these with a warning, see #583.
             msg = (
-- 
2.43.0


From abfff609c5726245ca498521501192da712a9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:56 +0000
Subject: [PATCH 27/76] fix: chunks share and skip no samples when lengths or
 overlaps are irregular

Chunk lengths that are not multiples of the step lost samples between the
segments, and sources inside of others gave samples wrong labels.
---
 dascore/utils/chunk.py | 59 ++++++++++++++++++++++++++----------------
 dascore/utils/pd.py    | 41 +++++++++++++++--------------
 2 files changed, 57 insertions(+), 43 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index c5679e5..4521dd1 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -33,6 +33,13 @@ from dascore.utils.time import (
 _DEFAULT_TOLERANCE = 1.5
 
 
+def _count_steps(interval, step):
+    """Get the number of steps needed to cover the intervals (rounded up)."""
+    if np.asarray(step).dtype.kind in "mi":
+        return -((-interval) // step)
+    return np.ceil(np.round(interval / step, 6))
+
+
 def get_intervals(
     start,
     stop,
@@ -85,36 +92,41 @@ def get_intervals(
     # get variable and perform checks
     overlap = length * 0 if not overlap else overlap
     step = length * 0 if pd.isnull(step) else step
+    if isinstance(length, np.timedelta64):
+        overlap, step = to_timedelta64(overlap), to_timedelta64(step)
     # Check for errors
     if overlap > length:
         msg = "Cant chunk when overlap is greater than chunk size"
         raise ParameterError(msg)
     # If the step is known, we need to account for it in the total duration
     # See 474.
-    _raw_duration = stop - start
-    duration = _raw_duration + step if step is not None else _raw_duration
-    if duration < length and not keep_partials:
+    has_step = bool(step != step * 0)
+    # Tolerate round-off when comparing floats.
+    eps = np.abs(step) * 1e-6 if isinstance(step, float | np.floating) else step * 0
+    duration = stop - start + step
+    if duration + eps < length and not keep_partials:
         msg = "Cant chunk when data interval is less than chunk size. "
         raise ChunkError(msg)
     # reference with no overlap
     new_step = length - overlap
-    reference = np.arange(start, stop + new_step, step=new_step)
-    # Since we just add to get stop values we need to remove anything
-    # that is within a sample of stopping value (otherwise that segment
-    # will have no data).
-    reference = reference[(reference + step) <= stop]
-    # we subtract step to avoid overlaps in segments. This can mean segments
-    # are ~ one sample shorter than those requested.
-    ends = reference + length - step
-    starts = reference
-    # trim end to not surpass stop
-    bad_ends = ends > stop
-    if bad_ends.any():
-        if not keep_partials:
-            ends_filt = ends <= stop
-            ends, starts = ends[ends_filt], starts[ends_filt]
-        else:
-            ends[bad_ends] = stop
+    count = int(np.floor((stop - start + eps) / new_step)) + 1
+    starts = start + new_step * np.arange(count)
+    # The first sample which belongs to the next segment (without overlap).
+    ends = starts + length
+    if has_step:
+        # Limit the segments to the samples they contain, so that neighboring
+        # segments neither share nor skip samples.
+        starts, ends = (
+            start + _count_steps(x - start, step) * step for x in (starts, ends)
+        )
+        ends = ends - step
+        keep = (starts <= stop + eps) & (ends >= starts - eps)
+        starts, ends = starts[keep], ends[keep]
+    # trim end to not surpass stop. A single remaining sample isn't kept.
+    keep = ends <= stop + eps
+    if keep_partials:
+        keep |= starts + step <= stop + eps
+    starts, ends = starts[keep], np.minimum(ends[keep], stop)
     return np.stack([starts, ends]).T
 
 
@@ -320,8 +332,8 @@ class ChunkManager:
         """Get an index mapping from source to chunk."""
         chunk_starts = np.searchsorted(src1, chu1, side="right") - 1
         chunk_ends = np.searchsorted(src2, chu2, side="left")
-        # Ensure no chunks run off the end of the source.
-        assert np.all(chunk_ends < len(src1)), "Invalid chunk range found"
+        # The end of a chunk can be less than a step after the last source.
+        chunk_ends = np.minimum(chunk_ends, len(src1) - 1)
         # add 1 to end so it is an exclusive end range
         return np.stack([chunk_starts, chunk_ends + 1], axis=1)
 
@@ -390,7 +402,8 @@ class ChunkManager:
             if col in out.columns:
                 continue
             out[col] = sub_source[col].values[source_inds]
-        out = out.sort_index()
+        # A source that ends before the chunk starts has no samples for it.
+        out = out[out[min_name] <= out[max_name]].sort_index()
         out["_modified"] = _instructions_modified(out, sub_source)
         return out
 
diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 07238f4..10c422c 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -478,32 +478,33 @@ def _remove_overlaps(df, name):
 
     Assumes df is sorted.
     """
-
-    def _get_step_values(df, step_name):
-        array = np.roll(df[step_name].values, 1)
-        isna = pd.isnull(array)
-        zeros = np.zeros_like(array, dtype=array.dtype)
-        return np.where(~isna, array, zeros)
-
-    def _get_correct_starts(start, stop, df, step_name):
-        step = _get_step_values(df, step_name)
-        stop_roll = np.roll(stop, 1)
-        start_lt_stop = start <= stop_roll
-        start_lt_stop[0] = False  # remove roll artifact; [0] should be start[0]
-        adjusted = stop_roll + step
-        return np.where(start_lt_stop, adjusted, start)
-
     min_name, max_name, step_name = f"{name}_min", f"{name}_max", f"{name}_step"
     assert df[min_name].is_monotonic_increasing, "df must be sorted"
     start = df[min_name].values
     stop = df[max_name].values
-    # Add step to stop roll so we don't get 1 sample of overlap
-    corrected_starts = _get_correct_starts(start, stop, df, step_name)
-    # wrap around in roll gives wrong start value, correct it.
-    corrected_starts[0] = start[0]
+    if not len(df):
+        return df
+    # The end of everything before each row, and the step at that end.
+    last = np.zeros(len(df), dtype=np.int64)
+    for num in range(1, len(df)):
+        prev = last[num - 1]
+        last[num] = num - 1 if stop[num - 1] > stop[prev] else prev
+    last_stop, step = stop[last], df[step_name].values[last]
+    step = np.where(pd.isnull(step), np.zeros_like(step), step)
+    # Tolerate round-off when comparing floats.
+    is_float = np.issubdtype(start.dtype, np.floating)
+    eps = np.abs(step) * 1e-6 if is_float else np.zeros_like(step)
+    # Add step to the stop so we don't get 1 sample of overlap.
+    overlaps = start <= last_stop + eps
+    overlaps[0] = False
+    new_starts = last_stop + step
+    new_starts = np.where(np.abs(new_starts - stop) <= eps, stop, new_starts)
+    corrected_starts = np.where(overlaps, new_starts, start)
     old_modified = _column_or_value(df, "_modified", False)
     _modified = old_modified | (corrected_starts != start)
-    return df.assign(**{min_name: corrected_starts, "_modified": _modified})
+    out = df.assign(**{min_name: corrected_starts, "_modified": _modified})
+    # Rows inside of previous ones have nothing to add.
+    return out[corrected_starts <= stop]
 
 
 def _column_or_value(df, col, value):
-- 
2.43.0


From fa185dbda9a5c8c98e5a3c0e6765804f6855834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:56 +0000
Subject: [PATCH 28/76] fix: DASDAE files keep patches whose names are the
 same, also when indexed

Patches within the same second replaced each other, names depended on the
other patches written, and scanning an indexed file gave no valid path.
---
 dascore/io/dasdae/core.py  | 51 ++++++++++++++++++++++++--------------
 dascore/io/dasdae/utils.py | 39 +++++++++++++++++++----------
 dascore/utils/hdf5.py      | 10 +++-----
 dascore/utils/patch.py     |  3 +++
 4 files changed, 64 insertions(+), 39 deletions(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index 475da97..d389d5d 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -15,6 +15,7 @@ from dascore.utils.hdf5 import (
     NodeError,
     PyTablesReader,
     PyTablesWriter,
+    open_hdf5_file,
 )
 from dascore.utils.misc import unbyte
 from dascore.utils.patch import get_patch_names
@@ -87,26 +88,30 @@ class DASDAEV1(FiberIO):
             resource.create_group(resource.root, "waveforms")
         waveforms = resource.get_node("/waveforms")
         # write new patches to file
-        patch_names = get_patch_names(patches).values
-        for patch, name in zip(patches, patch_names):
-            _save_patch(patch, waveforms, resource, name)
+        groups = {}
+        for patch in patches:
+            name = get_patch_names(patch).iloc[0]
+            group = _save_patch(patch, waveforms, resource, name, written=groups)
+            groups[group._v_name] = group
         indexer = HDFPatchIndexManager(resource)
-        if index or indexer.has_index:
-            df = self._get_patch_summary(patches)
+        has_index = indexer.has_index
+        if index or has_index:
+            # The first time, the patches already in the file are also indexed.
+            df = self._get_patch_summary(
+                resource, groups.values() if has_index else None
+            )
             indexer.write_update(df)
 
-    def _get_patch_summary(self, patches) -> pd.DataFrame:
-        """Get a patch summary to put into index."""
-        df = (
-            dc.scan_to_df(patches)
-            .assign(
-                path=lambda x: get_patch_names(x),
-                file_format=self.name,
-                file_version=self.version,
-            )
-            .dropna(subset=["time_min", "time_max", "distance_min", "distance_max"])
+    def _get_patch_summary(self, resource, groups=None) -> pd.DataFrame:
+        """Get a summary of the patch groups (default is all) to put into index."""
+        groups = list(resource.iter_nodes("/waveforms") if groups is None else groups)
+        contents = _get_contents_from_patch_groups(
+            resource, self.version, self.name, groups=groups
+        )
+        # The paths in the index are the names of the groups.
+        return pd.DataFrame([x.flat_dump() for x in contents]).assign(
+            path=[x._v_name for x in groups]
         )
-        return df
 
     def get_format(self, resource: H5Reader, **kwargs) -> tuple[str, str] | bool:
         """Return the format from a dasdae file."""
@@ -151,8 +156,15 @@ class DASDAEV1(FiberIO):
         indexer = HDFPatchIndexManager(resource.filename)
         if indexer.has_index:
             # We need to change the path back to the file rather than internal
-            # HDF5 path so it works with FileSpool and such.
-            records = indexer.get_index().assign(path=str(resource)).to_dict("records")
+            # HDF5 path so it works with FileSpool and such. Patches that were
+            # written again have several rows; use the order of reading.
+            df = (
+                indexer.get_index()
+                .drop_duplicates("path", keep="last")
+                .sort_values("path")
+                .assign(path=resource.filename)
+            )
+            records = df.to_dict("records")
             return [dc.PatchAttrs(**x) for x in records]
         else:
             file_format = self.name
@@ -163,5 +175,6 @@ class DASDAEV1(FiberIO):
         """Index the dasdae file."""
         indexer = HDFPatchIndexManager(path)
         if not indexer.has_index:
-            df = dc.scan_to_df(path)
+            with open_hdf5_file(path) as resource:
+                df = self._get_patch_summary(resource)
             indexer.write_update(df)
diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 1cde1e1..ce91fa9 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -21,15 +21,6 @@ _KWARG_NON_KEYS = {"file_version", "file_format", "path", "_modified"}
 # --- Functions for writing DASDAE format
 
 
-def _create_or_get_group(h5, group, name):
-    """Create a new group or get existing."""
-    try:
-        group = h5.create_group(group, name)
-    except NodeError:
-        group = getattr(group, name)
-    return group
-
-
 def _create_or_squash_array(h5, group, name, data):
     """Create a new array, if it exists delete and re-create."""
     try:
@@ -85,14 +76,34 @@ def _save_coords(patch, patch_group, h5):
         patch_group._v_attrs[save_name] = ",".join(dims)
 
 
-def _save_patch(patch, wave_group, h5, name):
+def _get_new_patch_group(patch, wave_group, h5, name, written=()):
+    """
+    Create an empty group for the patch.
+
+    The group of a patch with the same metadata is replaced (unless it was
+    just written), but different patches whose names are the same (eg because
+    their names only have a precision of one second) need their own group.
+    """
+    name, base, count = name.replace("/", "_"), name.replace("/", "_"), 0
+    while name in wave_group:
+        old_group = wave_group._f_get_child(name)
+        if name not in written and _get_attrs(old_group) == patch.attrs:
+            h5.remove_node(old_group, recursive=True)
+            break
+        count += 1
+        name = f"{base}__{count}"
+    return h5.create_group(wave_group, name)
+
+
+def _save_patch(patch, wave_group, h5, name, written=()):
     """Save the patch to disk."""
-    patch_group = _create_or_get_group(h5, wave_group, name)
+    patch_group = _get_new_patch_group(patch, wave_group, h5, name, written)
     _save_attrs_and_dims(patch, patch_group)
     _save_coords(patch, patch_group, h5)
     # add data
     if patch.data.shape:
         _create_or_squash_array(h5, patch_group, "data", patch.data)
+    return patch_group
 
 
 # --- Functions for reading
@@ -198,10 +209,12 @@ def _read_patch(patch_group, attrs=None, **kwargs):
     return dc.Patch(data=data, coords=coords, dims=dims, attrs=attrs)
 
 
-def _get_contents_from_patch_groups(h5, file_version, file_format="DASDAE"):
+def _get_contents_from_patch_groups(
+    h5, file_version, file_format="DASDAE", groups=None
+):
     """Get the contents from each patch group."""
     out = []
-    for group in h5.iter_nodes("/waveforms"):
+    for group in h5.iter_nodes("/waveforms") if groups is None else groups:
         contents = _get_patch_content_from_group(group)
         # populate file info
         contents["file_version"] = file_version
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 5c6930f..503c029 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -21,6 +21,7 @@ import tables
 from h5py import File as H5pyFile
 from packaging.version import parse as get_version
 from pandas.io.common import stringify_path
+from pandas.io.pytables import _tables
 from tables import ClosedNodeError
 from tables import File as PyTablesFile
 
@@ -77,6 +78,7 @@ class _HDF5Store(pd.HDFStore):
         self._fletcher32 = fletcher32
         self._filters = None
         if isinstance(path, tables.File):
+            _tables()  # ensures pandas' lazy import of pytables has happened.
             self._handle = path
         else:
             self.open(mode)
@@ -133,18 +135,12 @@ def _get_kernel_query(starttime: int, endtime: int, buffer: int):
     """
     Create a HDF5 kernel query based on start and end times.
 
-    This is necessary because hdf5 doesn't accept inverted conditions.
     A slight buffer is applied to the ranges to make sure no edge files
     are excluded.
     """
     t1 = starttime - buffer
     t2 = endtime + buffer
-    con = (
-        f"(time_min>{t1:d} & time_min<{t2:d}) | "
-        f"((time_max>{t1:d} & time_max<{t2:d}) | "
-        f"(time_min<{t1:d} & time_max>{t2:d}))"
-    )
-    return con
+    return f"(time_min<={t2:d}) & (time_max>={t1:d})"
 
 
 class HDFPatchIndexManager:
diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 37a9d37..43b1013 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -535,6 +535,9 @@ def get_patch_names(
 
     def _format_time_column(ser):
         """Format the time column."""
+        if np.issubdtype(ser.dtype, np.datetime64):
+            # Unlike astype(str), always includes the time of day.
+            ser = ser.dt.strftime("%Y-%m-%dT%H:%M:%S").fillna("NaT")
         ser = ser.astype(str).str.split(".", expand=True)[0]
         chars_to_replace = (":", "-")
         for char in chars_to_replace:
-- 
2.43.0


From 750304ffd11704f00f3af407852f00a778e34a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:34 +0000
Subject: [PATCH 29/76] fix: empty coordinates have values of their own dtype

---
 dascore/core/coords.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index a4fc20f..7fd8ea2 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1090,6 +1090,8 @@ class CoordPartial(BaseCoord):
     @property
     def values(self):
         """Return the internal data. Same as values attribute."""
+        if 0 in self.shape:  # No missing values are needed.
+            return np.empty(self.shape, dtype=self.dtype)
         null_val = np.asarray(_get_nullish(self.dtype))
         data = np.broadcast_to(null_val, self.shape)
         return data
-- 
2.43.0


From 3e4db72d2797463e89c35dbf45df3f022124fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:34 +0000
Subject: [PATCH 30/76] fix: spools of files don't lose missing values or
 patches with odd attributes

---
 dascore/clients/dirspool.py  |  3 ++-
 dascore/clients/filespool.py | 25 +++++++++++++++++++++----
 dascore/core/spool.py        | 14 ++++++++++++--
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index 50d32b9..33d7837 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -125,7 +125,8 @@ class DirectorySpool(DataFrameSpool):
 
         This is significantly faster than iterating rows.
         """
-        df = df.copy(deep=False).replace("", None)
+        # Object columns are needed for the empty strings to become None (not NaN).
+        df = df.astype(object).replace("", None)
         # note: need to add extra / here since we no longer store it in db.
         df["path"] = (str(self.spool_path) + "/") + df["path"]
         return super()._df_to_dict_list(df)
diff --git a/dascore/clients/filespool.py b/dascore/clients/filespool.py
index e811a2d..8c9eb5a 100644
--- a/dascore/clients/filespool.py
+++ b/dascore/clients/filespool.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import copy
 from pathlib import Path
 
+import pandas as pd
 from rich.text import Text
 from typing_extensions import Self
 
@@ -68,15 +69,31 @@ class FileSpool(DataFrameSpool):
         """Also keep track of the position of the patches in the file."""
         return super()._df_to_dict_list(df.assign(_position=df.index))
 
+    def _is_query(self, name, row):
+        """
+        Return True if a value of a row can also be used as a query.
+
+        Empty strings may just not be known (eg not part of the file's index)
+        and collections and wildcards have other meanings in queries. Limits
+        of coords which may have missing values would remove these values.
+        """
+        value = row[name]
+        if isinstance(value, str):
+            return bool(value) and not set(value) & set("*?[")
+        has_limits = f"{name}_min" in self._df.columns
+        return has_limits and not pd.isnull(row.get(f"{name}_step"))
+
     def _load_patch(self, kwargs) -> Self:
         """Given a row from the managed dataframe, return a patch."""
-        position = kwargs.pop("_position")
-        patches = list(dc.read(**kwargs))
+        position = kwargs.get("_position", 0)
+        keys = ("path", "file_format", "file_version")
+        source = {x: kwargs[x] for x in keys if x in kwargs}
+        query = {i: v for i, v in kwargs.items() if self._is_query(i, kwargs)}
+        patches = list(dc.read(**{**query, **source}))
         if len(patches) > 1:
             # Several patches have data in the range (and match the metadata);
             # get the one which was scanned. It is trimmed later, if needed.
-            keys = ("path", "file_format", "file_version")
-            patches = list(dc.read(**{x: kwargs[x] for x in keys}))
+            patches = list(dc.read(**source))
             return patches[position]
         if not patches:
             # Iteration skips these with a warning, see #583.
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 22c292a..94a4ce7 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -66,6 +66,14 @@ from dascore.utils.pd import (
 T = TypeVar("T")
 
 
+def _range_contains_coord(limits, coord) -> bool:
+    """Return True if all (not missing) values of the coord are in the limits."""
+    low, high = limits
+    if not len(coord) or pd.isnull(low) or pd.isnull(high):
+        return False
+    return bool(low <= coord.min() and coord.max() <= high)
+
+
 def _get_varying_dim(df) -> str | None:
     """
     Get the single dimension whose range varies across rows of df.
@@ -598,12 +606,14 @@ class DataFrameSpool(BaseSpool):
         patch = self._load_patch(kwargs)
         # If the limits of the source patch were not modified, we can just
         # use the select kwargs. This is important for missing coordinates
-        # (NaN values) to not get trimmed out.
+        # (NaN values) to not get trimmed out. The same is true for the coords
+        # which are entirely within their limits.
         if kwargs.get("_modified"):
             select_kwargs = {
                 i: v
                 for i, v in kwargs.items()
-                if i in patch.dims or i in patch.coords.coord_map
+                if i in patch.coords.coord_map
+                and not _range_contains_coord(v, patch.coords.coord_map[i])
             }
         else:
             select_kwargs = self._select_kwargs
-- 
2.43.0


From 7512591b667c21ac08130e40543cad306d7811d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:34 +0000
Subject: [PATCH 31/76] fix: pickles return all the patches written to them and
 honor queries

---
 dascore/io/pickle/core.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/dascore/io/pickle/core.py b/dascore/io/pickle/core.py
index 80f62b5..fb46f6d 100644
--- a/dascore/io/pickle/core.py
+++ b/dascore/io/pickle/core.py
@@ -49,9 +49,33 @@ class PickleIO(FiberIO):
 
     def read(self, resource: BinaryReader, **kwargs):
         """Read a Patch/Spool from disk."""
-        out = pickle.load(resource)
+        spools = [dascore.spool(pickle.load(resource))]
+        # Writing to an existing file appends another pickle.
+        while True:
+            try:
+                spools.append(dascore.spool(pickle.load(resource)))
+            except EOFError:
+                break
+        out = spools[0] if len(spools) == 1 else [p for s in spools for p in s]
+        if any(x is not None for x in kwargs.values()):
+            out = self._select(out, **kwargs)
         return dascore.spool(out)
 
+    def _select(self, spool, **kwargs):
+        """Apply the queries on (1D) coordinates, drop patches without data."""
+        out = []
+        for patch in spool:
+            dim_map = patch.coords.dim_map
+            sub = {
+                name: value
+                for name, value in kwargs.items()
+                if value is not None and len(dim_map.get(name, ())) == 1
+            }
+            new = patch.select(**sub)
+            if new.data.size or not sub:
+                out.append(new)
+        return out
+
     def write(self, patch, resource: BinaryWriter, **kwargs):
         """Write a Patch/Spool to disk."""
         pickle.dump(patch, resource)
-- 
2.43.0


From 7e56521a70fa62e4f187ea245b1f8f6bc3d7fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:34 +0000
Subject: [PATCH 32/76] fix: DASDAE files store flipped data, units of any
 coord, and scan only attributes

---
 dascore/io/dasdae/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index ce91fa9..84b4c4e 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -23,6 +23,10 @@ _KWARG_NON_KEYS = {"file_version", "file_format", "path", "_modified"}
 
 def _create_or_squash_array(h5, group, name, data):
     """Create a new array, if it exists delete and re-create."""
+    # Pytables writes garbage for arrays which are contiguous but have unusual
+    # strides, eg flipped or broadcasted arrays with a single value on one axis.
+    if 1 in data.shape or any(x <= 0 for x in data.strides):
+        data = np.array(data, order="C", copy=True)
     try:
         array = h5.create_array(group, name, data)
     except NodeError:
@@ -141,10 +145,12 @@ def _get_coords(patch_group, dims, attrs2):
     for coord in [x for x in patch_group if x.name.startswith("_coord_")]:
         name = coord.name.replace("_coord_", "")
         array = _read_array(coord)
+        # Note: the name may have underscores, so attrs2.{name}_units can't be used.
+        summary = attrs2.coords.get(name)
         coord = get_coord(
             data=array,
-            units=getattr(attrs2, f"{name}_units", None),
-            step=getattr(attrs2, f"{name}_step", None),
+            units=getattr(summary, "units", None),
+            step=getattr(summary, "step", None),
         )
         coord_dict[name] = coord
     # associates coordinates with dimensions
@@ -242,6 +248,9 @@ def _get_patch_content_from_group(group):
     attrs = group._v_attrs
     out = {}
     for key in attrs._f_list():
+        # Only the patch attributes (not, eg, coord dimensions) are contents.
+        if not key.startswith("_attrs_") and key != "_dims":
+            continue
         value = getattr(attrs, key)
         new_key = key.replace("_attrs_", "")
         # need to unpack 0 dim arrays.
-- 
2.43.0


From b0679dac6d3862f63aecfd3511109b0492008a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:01 +0000
Subject: [PATCH 33/76] fix: time conversions are exact for every unit, width
 and container

---
 dascore/utils/time.py | 53 ++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 13abc71..2128a0f 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -22,8 +22,11 @@ _NAT_TIMEDELTA64 = np.timedelta64("NaT", "ns")
 
 
 def _float_array_to_ns(array):
-    """Convert seconds as floats to signed integer nanoseconds."""
-    return np.rint(array * 1_000_000_000).astype(np.int64)
+    """Convert seconds as numbers to signed integer nanoseconds."""
+    # Narrow types would overflow or lose precision.
+    if array.dtype.kind in "iu":
+        return array.astype(np.int64) * 1_000_000_000
+    return np.rint(array.astype(np.float64) * 1_000_000_000).astype(np.int64)
 
 
 @singledispatch
@@ -87,6 +90,8 @@ def _float_to_datetime(num: float | int) -> np.datetime64:
 def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
     """Convert an array of floating point timestamps to an array of np.datatime64."""
     array = np.asarray(array)
+    if not array.shape:  # dealing with degenerate (0-D) array
+        return to_datetime64(array[()])
     nans = pd.isnull(array)
     # dealing with objects
     if np.issubdtype(array.dtype, np.dtype(object)):
@@ -96,14 +101,16 @@ def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
         array = array.astype("datetime64[ns]")
     # dealing with an array of datetime64 or empty array
     if np.issubdtype(array.dtype, np.datetime64) or len(array) == 0:
-        if not array.shape:  # dealing with degenerate (0-D( array
-            out = np.datetime64(array)
-        else:
-            out = array.astype("datetime64[ns]")
+        out = array.astype("datetime64[ns]")
+    # dealing with offsets from 1970
+    elif np.issubdtype(array.dtype, np.timedelta64):
+        out = array.astype("timedelta64[ns]").view("datetime64[ns]")
     # dealing with numerical data
-    elif np.issubdtype(array.dtype, np.timedelta64) or np.isreal(array[0]):
+    elif np.isreal(array[0]):
         with np.errstate(divide="ignore", invalid="ignore"):
-            array = to_float(np.array(array))  # need to make copy to write
+            # Integers are kept to not lose precision; need to copy to write.
+            is_int = array.dtype.kind in "iu"
+            array = np.array(array) if is_int else np.array(to_float(array))
             nans = nans | ~np.isfinite(array)
             array[nans] = 0  # temporary replace NaNs
             out = _float_array_to_ns(array).astype("datetime64[ns]")
@@ -144,7 +151,7 @@ def _datetime_to_datetime64(dt: datetime):
 
 @to_datetime64.register(pd.Timestamp)
 def _pandas_timestamp(datetime: pd.Timestamp):
-    return datetime.to_datetime64()
+    return np.datetime64(datetime.to_datetime64(), "ns")
 
 
 @singledispatch
@@ -204,17 +211,17 @@ def _pass_time_delta(time_delta):
 def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
     """Convert an array of floating point timestamps to an array of np.datatime64."""
     array = np.asarray(array)
-    # convert pure object arrays into float so sign casting works.
-    if np.issubdtype(array.dtype, np.dtype(object)):
-        array = array.astype(np.float64)
+    if not array.shape:  # unpack degenerate array
+        return to_timedelta64(array[()])
+    # dealing with objects or strings.
+    if np.issubdtype(array.dtype, np.dtype(object)) or array.dtype.kind in "US":
+        out = [to_timedelta64(x) for x in array]
+        return np.asarray(out).astype("timedelta64[ns]")
     if np.issubdtype(array.dtype, np.timedelta64) or len(array) == 0:
-        if not array.shape:  # unpack degenerate array
-            return np.timedelta64(array)
-        else:
-            return array.astype("timedelta64[ns]")
+        return array.astype("timedelta64[ns]")
     # Need to just get the ns form datetime64
     elif np.issubdtype(array.dtype, np.datetime64):
-        int_array = array.view(np.int64)
+        int_array = array.astype("datetime64[ns]").view(np.int64)
         return np.array(int_array).astype("timedelta64[ns]")
 
     assert np.isreal(array[0])
@@ -248,7 +255,7 @@ def _string_array_to_timedelta64(arr: pd.arrays.StringArray):
 @to_timedelta64.register(pd.Timedelta)
 def _unpack_pandas_time_delta(time_delta: pd.Timedelta):
     """Simply return the time delta."""
-    return time_delta.to_numpy()
+    return np.timedelta64(time_delta.to_numpy(), "ns")
 
 
 @to_timedelta64.register(timedelta)
@@ -266,7 +273,7 @@ def _time_delta_from_str(time_delta_str: str):
             if units[-1] == "s":
                 units = units[:-1]
             new_unit = NUMPY_TIME_UNIT_MAPPING[units]
-            return np.timedelta64(int(val), new_unit)
+            return np.timedelta64(np.timedelta64(int(val), new_unit), "ns")
         case [val] if val.lower() == "nat" or val.lower() == "":
             return _NAT_TIMEDELTA64
         case _:
@@ -328,12 +335,16 @@ def _return_number_null(null):
 
 
 @to_int.register(np.timedelta64)
+@to_int.register(timedelta)
+@to_int.register(pd.Timedelta)
 def _time_delta_to_number(time_delta: np.timedelta64):
     return to_int([to_timedelta64(time_delta)])[0]
 
 
 @to_int.register(pd.Series)
 def _pandas_timestamp_to_num(ser: pd.Series):
+    if is_datetime64(ser) or is_timedelta64(ser):
+        return pd.Series(to_int(ser.values), index=ser.index)
     return ser.astype(np.int64)
 
 
@@ -451,8 +462,8 @@ def get_max_min_times(kwarg_time=None):
     # get defaults if starttime or endtime is none
     time_min = None if pd.isnull(time_min) else time_min
     time_max = None if pd.isnull(time_max) else time_max
-    time_min = to_datetime64(time_min or SMALLDT64)
-    time_max = to_datetime64(time_max or LARGEDT64)
+    time_min = to_datetime64(SMALLDT64 if time_min is None else time_min)
+    time_max = to_datetime64(LARGEDT64 if time_max is None else time_max)
     if time_min is not None and time_max is not None:
         if time_min > time_max:
             msg = "time_min cannot be greater than time_max."
-- 
2.43.0


From e4c54c41030db782f0b1349d7c6842e878c93753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:53 +0000
Subject: [PATCH 34/76] fix: simplify units with offsets and dimensionless
 units

simplify_units ignored offsets (eg degC) of data units, and failed for
coordinates with dimensionless units such as strain, because dimensionless
units are equal to an empty string.
---
 dascore/proc/units.py | 10 +++++++---
 dascore/units.py      | 14 ++++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index 7f3dba8..5abbe8b 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import dascore as dc
 from dascore.constants import PatchType
-from dascore.units import Quantity, Unit, get_factor_and_unit
+from dascore.units import Quantity, Unit, get_factor_and_unit, get_quantity
 from dascore.units import convert_units as u_covert_units
 from dascore.utils.patch import patch_function
 
@@ -142,8 +142,12 @@ def simplify_units(
     """
     # get data and data units
     attrs = patch.attrs
-    d_factor, d_units = get_factor_and_unit(attrs.get("data_units"), simplify=True)
-    data = patch.data * d_factor if d_factor != 1 else patch.data
+    old_units = attrs.get("data_units")
+    _, d_units = get_factor_and_unit(old_units, simplify=True)
+    data = patch.data
+    # Note: a factor alone is not enough; some units also have an offset.
+    if get_quantity(old_units) != get_quantity(d_units):
+        data = u_covert_units(data, d_units, old_units)
     # update coords and coord units in attrs
     coords = patch.coords.simplify_units()
     new_attrs = attrs.update(data_units=d_units, coords=coords.to_summary_dict())
diff --git a/dascore/units.py b/dascore/units.py
index 8ce1e35..c038803 100644
--- a/dascore/units.py
+++ b/dascore/units.py
@@ -87,7 +87,7 @@ def get_unit(value) -> Unit:
 def _str_to_quant(qunat_str):
     """Get quantity from a string; cache output."""
     if isinstance(qunat_str, Unit):
-        qunat_str = str(qunat_str)  # ensure unit is converted to quantity
+        qunat_str = _unit_to_str(qunat_str)  # ensure unit is converted to quantity
     ureg = get_registry()
     return ureg.Quantity(qunat_str)
 
@@ -111,7 +111,8 @@ def get_quantity(value: str_or_none) -> Quantity | None:
     >>> many_seconds = dc.get_quantity(dc.to_timedelta64(200))
     """
     value = unbyte(value)
-    if value is None or value is ... or value == "":
+    # Note: dimensionless quantities and units are also equal to "".
+    if value is None or value is ... or (isinstance(value, str) and value == ""):
         return None
     if isinstance(value, Quantity):
         return value
@@ -217,7 +218,8 @@ def _unit_to_str(unit: Unit) -> str:
     Unit equality/hashing is exact (e.g. m != cm) so, unlike Quantity,
     Unit is safe to use as a cache key.
     """
-    return str(unit)
+    # The string of dimensionless units is empty, which means no units.
+    return str(unit) or "dimensionless"
 
 
 def get_quantity_str(quant_value: str | Quantity | None) -> str | None:
@@ -236,9 +238,11 @@ def get_quantity_str(quant_value: str | Quantity | None) -> str | None:
     # common paths need to stay cheap (hence _validate_quantity_str and
     # _unit_to_str caches).
     quant_value = unbyte(quant_value)
-    if quant_value is None or quant_value == "":
+    if quant_value is None:
         return None
     if isinstance(quant_value, str):
+        if not quant_value:
+            return None
         _validate_quantity_str(quant_value)
         return quant_value
     if isinstance(quant_value, Quantity):
@@ -248,6 +252,8 @@ def get_quantity_str(quant_value: str | Quantity | None) -> str | None:
     # Any other type (eg a pint Unit): validate by conversion, then use
     # the string of the original input.
     get_quantity(quant_value)
+    if isinstance(quant_value, Unit):
+        return _unit_to_str(quant_value)
     return str(quant_value)
 
 
-- 
2.43.0


From 229e7215657a8a78d371d7970ba039317ddf30b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:37 +0000
Subject: [PATCH 35/76] fix: get_next_index returns an integer for scalar
 quantities

Scalar quantities were treated as arrays, so taper_range failed with them.
---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 7fd8ea2..4b20a35 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -918,7 +918,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if not self.sorted:
             msg = f"Coords must be sorted to use get_next_index, {self} is not."
             raise CoordError(msg)
-        input_array_like = isinstance(value, Sized)
+        # Note: Quantities always have a __len__, even if they are scalars.
+        input_array_like = np.ndim(getattr(value, "magnitude", value)) > 0
         array = np.atleast_1d(value)
 
         # handle samples
-- 
2.43.0


From 41e9e38cb7c0fc2047d58c7efbb787d80f3a1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:15 +0000
Subject: [PATCH 36/76] fix: converting units of small integer arrays no longer
 overflows

---
 dascore/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/units.py b/dascore/units.py
index c038803..8c315c3 100644
--- a/dascore/units.py
+++ b/dascore/units.py
@@ -141,7 +141,9 @@ def _get_conversion_factors(from_quant, to_quant) -> tuple[float, float, float]:
     from_delta = (1 * from_quant.units) - (from_quant.units * 0)
     to_delta = (1 * to_quant.units) - (to_quant.units * 0)
     mult_mag1 = from_delta.to(to_delta).magnitude
-    return mult_mag1 * from_quant.magnitude, add_mag, 1 / to_quant.magnitude
+    # The factor must be a float, an int could overflow small integer arrays.
+    mult1 = float(mult_mag1 * from_quant.magnitude)
+    return mult1, add_mag, 1 / to_quant.magnitude
 
 
 def convert_units(
-- 
2.43.0


From e991d8871c5f49c3a3de3907ac2de8366c1dfb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 37/76] fix: pad reverse sorted coordinates

---
 dascore/proc/basic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 1d4d730..9e972d7 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -626,11 +626,12 @@ def pad(
     def _get_new_coord(coord, pad_tuple, expand_coords):
         """Get the new coordinate along the expanded axis."""
         if expand_coords and coord.evenly_sampled:
-            new_start = coord.min() - pad_tuple[0] * coord.step
-            new_end = coord.max() + (pad_tuple[1] + 1) * coord.step
-            assert coord.evenly_sampled, "expand_coords requires evenly sampled."
+            # Note: start is the first value, also of reverse sorted coords.
             new_coord = get_coord(
-                start=new_start, stop=new_end, step=coord.step, units=coord.units
+                start=coord.start - pad_tuple[0] * coord.step,
+                step=coord.step,
+                shape=len(coord) + sum(pad_tuple),
+                units=coord.units,
             )
         else:
             old_values = coord.values
-- 
2.43.0


From 0f1474968991c436188ca5886856ce59c87cf95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 38/76] fix: dft/idft of scaled units, reversed, length-1 and
 partly inverted dimensions

Spectral outputs of data with scaled units (eg 10 V) moved the scale to the
data. Inverting one of several dimensions lost the padding/data type of the
others, and was wrong for a real dimension; complex dimensions of length 1 or
reversed ones of length 2 were taken as real ones. Dropped coordinates left
attributes such as lat_min, and istft failed with coords without dimensions.
---
 dascore/transform/fourier.py | 54 ++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 164d891..7ac2938 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -126,12 +126,15 @@ def _get_dft_new_coords(patch, dxs, dims, axes, real, original_cm=None):
 def _get_dft_attrs(patch, dims, new_coords, pad=False, output="FFT"):
     """Get new attributes for transformed patch."""
     new = dict(patch.attrs)
+    # Coords are set by the patch, else those dropped would leave attributes.
+    new.pop("coords", None)
     new["dims"] = new_coords.dims
     new["data_units"] = _get_dft_data_units(patch, dims)
-    new["_pre_dft_data_type"] = new.get("data_type")
+    # If other dimensions were transformed before, keep the original type.
+    new.setdefault("_pre_dft_data_type", new.get("data_type"))
     new["data_type"] = "fourier_transform"
     new["_dft_output"] = output
-    new["_dft_padded"] = pad
+    new["_dft_padded"] = pad or new.get("_dft_padded", False)
     return PatchAttrs(**new)
 
 
@@ -150,23 +153,21 @@ def _get_untransformed_dims(patch, dims):
 def _get_transformed_domain_extent(patch, dims):
     """Get the transformed-domain extent from the DFT bin spacing."""
     extent = 1
-    preserve_units = patch.attrs.data_units is not None
     for dim in iterate(dims):
         ft_coord = patch.get_coord(f"ft_{dim}")
         # df = 1 / (n * dx), so 1 / df is the original-domain extent.
         # For multi-axis DFTs, the total extent is the product over axes.
-        step = abs(ft_coord.step)
-        if preserve_units and ft_coord.units is not None:
-            step = step * ft_coord.units
-        extent = extent / step
+        extent = extent / abs(ft_coord.step)
     return extent
 
 
 def _convert_dft_spectral_amplitudes(patch, output, dims, real, db):
     """Convert the FFT output to spectral amplitude representations."""
-    amp = patch.abs()
-    extent = _get_transformed_domain_extent(amp, dims)
     data_units = _get_dft_data_units(patch, dims, output)
+    # The units are known so work on plain numbers; dividing by quantities
+    # would move the scale of units such as "10 V" to the data.
+    amp = patch.abs().update_attrs(data_units=None)
+    extent = _get_transformed_domain_extent(amp, dims)
     if output == "AS":
         # Convert DASCore's dx-scaled Fourier coefficients to harmonic
         # amplitude.
@@ -336,7 +337,8 @@ def _get_idft_dims_steps_axis(patch, dim):
     dims = [x if x in current_dims else ft.rename_dims(x)[0] for x in iterate(dim)]
     patch.check_coords(dims=dims)
     coords = [patch.get_coord(x, require_evenly_sampled=True) for x in dims]
-    is_real = [1 if to_float(x.min()) == 0 else 0 for x in coords]
+    # Coords of real transforms start at 0 (and can be reverse sorted).
+    is_real = [1 if len(x) > 1 and to_float(x.values[0]) == 0 else 0 for x in coords]
     real_sum = sum(is_real)
     assert real_sum <= 1, "only one real axis allowed."
     has_real = bool(real_sum)
@@ -351,7 +353,6 @@ def _get_idft_dims_steps_axis(patch, dim):
 def _get_idft_coords_and_sizes(patch, dims, new_dims, axes, real):
     """Get the new coords for the idft and expected sizes to pass to numpy."""
     shapes = patch.shape
-    padded = patch.attrs.get("_dft_padded", False)
     coord_map = patch.coords.disassociate_coord(*dims).get_coord_tuple_map()
     sizes = []
     padding = {}
@@ -368,9 +369,10 @@ def _get_idft_coords_and_sizes(patch, dims, new_dims, axes, real):
         if (len(potential_coord) == ax_len) or (real and old_dim == dims[-1]):
             sizes.append(len(potential_coord))
         coord_map[new_dim] = (new_dim, potential_coord)
-        if not padded:  # No padding, go to next dim.
+        unpadded = coord_map.pop(f"_{new_dim}_unpadded", None)
+        if unpadded is None:  # No padding, go to next dim.
             continue
-        old_len = len(coord_map.pop(f"_{new_dim}_unpadded")[1])
+        old_len = len(unpadded[1])
         diff = old_len - len(coord_map[new_dim][1])
         if diff < 0:
             padding[new_dim] = (0, diff)
@@ -381,6 +383,17 @@ def _get_idft_coords_and_sizes(patch, dims, new_dims, axes, real):
     return cm, out_size, padding
 
 
+def _get_transformed_axes(patch, coords, axes):
+    """Get axes of transformed dimensions which aren't included in axes."""
+    inds = set(range(patch.ndim)) - set(axes)
+    names = {x: patch.dims[x] for x in inds}
+    return tuple(
+        x
+        for x, name in names.items()
+        if name.startswith("ft_") and name[len("ft_") :] in coords.coord_map
+    )
+
+
 def _get_idft_attrs(patch, dims, new_coords):
     """Get new attributes for transformed patch."""
     # add all {dim}_min to new coords to ensure reverse ft can restore dims.
@@ -388,6 +401,10 @@ def _get_idft_attrs(patch, dims, new_coords):
     new.pop("coords", None)
     new["dims"] = new_coords.dims
     new["data_units"] = _get_data_units_from_dims(patch, dims, mul)
+    # Some dimensions may still be transformed.
+    names = {x[len("ft_") :] for x in new_coords.dims if x.startswith("ft_")}
+    if names & set(new_coords.coord_map):
+        return PatchAttrs(**new)
     # Restore the pre-dft datatype.
     if "_pre_dft_data_type" in new:
         new["data_type"] = new.pop("_pre_dft_data_type", None)
@@ -459,7 +476,14 @@ def idft(patch: PatchType, dim: str | None | Sequence[str] = None) -> PatchType:
     ax_slice = slice(None, -1) if real else slice(None)
     scale_factor = np.prod([to_float(coords.coord_map[x].step) for x in new_dims])
     _preped = nft.ifftshift(patch.data / scale_factor, axes=axes[ax_slice])
+    # A real axis can only be inverted after all other transformed axes since
+    # the symmetry it relies on spans all of them. These are restored below.
+    others = _get_transformed_axes(patch, coords, axes) if real else ()
+    if others:
+        _preped = nft.ifftn(nft.ifftshift(_preped, axes=others), axes=others)
     data = func(_preped, s=sizes, axes=axes)
+    if others:
+        data = nft.fftshift(nft.fftn(data, axes=others), axes=others)
     attrs = _get_idft_attrs(patch, dims, coords)
     out = patch.new(data=data, attrs=attrs, coords=coords)
     if padding:
@@ -636,9 +660,9 @@ def _get_istft_coord(coords, frequency_axis, time_axis):
     """
     dims = coords.dims
     # Create new time coordinate.
-    coord_map = dict(coords.coord_map)
+    coord_map = coords.get_coord_tuple_map()
     coord_map.pop("_stft_window")
-    time = coord_map.pop("_stft_old_coord")
+    time = coord_map.pop("_stft_old_coord")[1]
     coord_map.pop(coords.dims[frequency_axis])
     coord_map[dims[time_axis]] = time
     # Get new dimensions
-- 
2.43.0


From 96a7575a824524002642b53960c0b01ae4898fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:50 +0000
Subject: [PATCH 39/76] fix: integrals and derivatives of integers, uneven and
 reversed coordinates

Running integrals and strided derivatives of integer data were truncated,
running integrals failed for uneven coordinates not on the last axis, times
lost precision, findiff stencils failed for reversed coordinates, and units
of coordinates were lost by definite integrals and edgeless strain rates.
---
 dascore/transform/differentiate.py | 10 ++++++++--
 dascore/transform/integrate.py     | 32 ++++++++++++++++++++----------
 dascore/transform/strain.py        |  5 ++++-
 dascore/utils/patch.py             |  3 +++
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/dascore/transform/differentiate.py b/dascore/transform/differentiate.py
index c758e6a..ee77511 100644
--- a/dascore/transform/differentiate.py
+++ b/dascore/transform/differentiate.py
@@ -30,13 +30,16 @@ def _findiff_diff(data, axis, order, dx):
     """Use findiff to get differences along specified dimensions."""
     # If more than one axis, need to make tuples.
     findiff = optional_import("findiff")
+    # findiff needs positive spacing, but that of reversed coords is negative.
+    sign = np.prod([1 if is_array(x) else np.sign(x) for x in dx])
+    dx = [x if is_array(x) else np.abs(x) for x in dx]
     if len(axis) > 1:
         orders = [1] * len(axis)  # always first order (first derivative).
         tuples = [tuple(x) for x in zip(axis, dx, orders)]
         func = findiff.FinDiff(*tuples, acc=order)
     else:
         func = findiff.FinDiff(axis[0], dx[0], 1, acc=order)
-    out = func(data)
+    out = func(data) * sign
     return out
 
 
@@ -54,7 +57,10 @@ def _strided_diff(order, patch, axes, dx_or_spacing, step):
     if len(axes) > 1:
         msg = "Step in patch.differentiate can only be used along one axis."
         raise ParameterError(msg)
-    new_data = np.empty_like(patch.data)
+    # Derivatives of integers are not integers.
+    is_inexact = np.issubdtype(patch.data.dtype, np.inexact)
+    dtype = patch.data.dtype if is_inexact else np.float64
+    new_data = np.empty(patch.data.shape, dtype=dtype)
     dx_or_space = dx_or_spacing[0]
     for step_ in range(step):
         current_slice = slice(step_, None, step)
diff --git a/dascore/transform/integrate.py b/dascore/transform/integrate.py
index 30cab68..b1d86f5 100644
--- a/dascore/transform/integrate.py
+++ b/dascore/transform/integrate.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from dascore.compat import is_array
 from dascore.constants import PatchType
+from dascore.core.coords import get_coord
 from dascore.utils.misc import broadcast_for_index, iterate
 from dascore.utils.patch import (
     _get_data_units_from_dims,
@@ -23,7 +24,9 @@ def _quasi_mean(array):
     """Get a quasi mean value from an array. Works with datetimes."""
     dtype = array.dtype
     if np.issubdtype(dtype, np.datetime64) or np.issubdtype(dtype, np.timedelta64):
-        out = array.view("i8").mean().astype(array.dtype)
+        # use offsets since floats can't resolve the nanoseconds of datetimes.
+        offset = (array - array[0]).view("i8").mean().astype(np.int64)
+        out = array[0] + offset.astype("timedelta64[ns]")
     else:
         out = np.mean(array)
     return np.asarray([out], dtype=array.dtype)
@@ -34,12 +37,17 @@ def _get_definite_integral(patch, dxs_or_vals, dims, axes):
 
     def _get_new_coords_and_array(patch, array, dims):
         """Get new coordinates with smashed (or not) coordinates."""
-        new_coords = {x: _quasi_mean(patch.get_coord(x).data) for x in dims}
-        # also add related coords indicating start/stop
+        new_coords = {}
         for name in dims:
-            coord = patch.get_coord(name).data
-            new_coords[f"pre_integrate_{name}_min"] = (name, np.asarray([coord.min()]))
-            new_coords[f"pre_integrate_{name}_max"] = (name, np.asarray([coord.max()]))
+            coord = patch.get_coord(name)
+            new_coords[name] = get_coord(
+                data=_quasi_mean(coord.data), units=coord.units
+            )
+            # also add related coords indicating start/stop
+            for func in ("min", "max"):
+                limit = np.asarray([getattr(coord.data, func)()])
+                new_coord = get_coord(data=limit, units=coord.units)
+                new_coords[f"pre_integrate_{name}_{func}"] = (name, new_coord)
         cm = patch.coords.update(**new_coords)
         return array, cm
 
@@ -65,11 +73,15 @@ def _get_indefinite_integral(patch, dxs_or_vals, axes):
     """
     array = patch.data
     for dx_or_val, ax in zip(dxs_or_vals, axes):
-        out = np.zeros_like(array)
-        # if coordinate values are provided need to get diffs.
-        if is_array(dx_or_val):
-            dx_or_val = dx_or_val[1:] - dx_or_val[:-1]
+        # Integrals of integers are not integers.
+        is_inexact = np.issubdtype(array.dtype, np.inexact)
+        out = np.zeros(array.shape, dtype=array.dtype if is_inexact else np.float64)
         ndim = len(out.shape)
+        # if coordinate values are provided need to get diffs, which must
+        # broadcast along the axis.
+        if is_array(dx_or_val):
+            dx_indexer = broadcast_for_index(ndim, ax, slice(None), fill=None)
+            dx_or_val = (dx_or_val[1:] - dx_or_val[:-1])[dx_indexer]
         # get diffs along dimension
         stop_indexer = broadcast_for_index(ndim, ax, slice(1, None), fill=slice(None))
         start_indexer = broadcast_for_index(ndim, ax, slice(None, -1), fill=slice(None))
diff --git a/dascore/transform/strain.py b/dascore/transform/strain.py
index e23bcb1..55af14f 100644
--- a/dascore/transform/strain.py
+++ b/dascore/transform/strain.py
@@ -8,6 +8,7 @@ import numpy as np
 
 import dascore as dc
 from dascore.constants import PatchType
+from dascore.core.coords import get_coord
 from dascore.exceptions import ParameterError, UnitError
 from dascore.transform.differentiate import differentiate
 from dascore.units import convert_units, get_factor_and_unit, get_unit
@@ -193,7 +194,9 @@ def velocity_to_strain_rate_edgeless(
     # Need to get distance values between current ones.
     dists = patch.get_array("distance")
     new_dist = (dists[step_multiple:] + dists[:-step_multiple]) / 2
-    new_coords = patch.coords.update(distance=new_dist)
+    new_coords = patch.coords.update(
+        distance=get_coord(data=new_dist, units=coord.units)
+    )
 
     # Handle unit conversions.
     new_data_units = None
diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 43b1013..bc8145a 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -933,6 +933,9 @@ def _get_dx_or_spacing_and_axes(
             val = coord.step
         else:
             val = coord.data
+            # Only differences matter; floats can't resolve those of datetimes.
+            if np.issubdtype(val.dtype, np.datetime64) and len(val):
+                val = val - val[0]
         # need to convert val to float so datetimes work
         out.append(to_float(val))
         axes.append(patch.get_axis(dim_))
-- 
2.43.0


From 61296d743e71430621b9b7054c4bacfe424583a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:17 +0000
Subject: [PATCH 40/76] fix: filters of reverse sorted coordinates

---
 dascore/utils/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index bc8145a..84b60d8 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -709,7 +709,8 @@ def get_dim_sampling_rate(patch: PatchType, dim: str) -> float:
             f"Patch.extrapolate. "
         )
         raise CoordDataError(msg)
-    return 1.0 / d_dim
+    # The step of a reverse sorted coordinate is negative; the rate is not.
+    return 1.0 / abs(d_dim)
 
 
 def get_patch_window_size(
-- 
2.43.0


From 3f735febbe5c3f20c7f43ef73c29a4dd58217c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:17 +0000
Subject: [PATCH 41/76] fix: savgol_filter over several dimensions only applied
 the last one

---
 dascore/proc/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index 51c9508..fd732e5 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -391,7 +391,7 @@ def savgol_filter(
     size, axes = _create_size_and_axes(patch, kwargs, samples)
     for ax in axes:
         data = np_savgol_filter(
-            x=patch.data,
+            x=data,
             window_length=size[ax],
             polyorder=polyorder,
             mode=mode,
-- 
2.43.0


From 5b8b275d617b464a185bed49bcc0c86aec1e36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:17 +0000
Subject: [PATCH 42/76] fix: keep patch attributes in fbe and kurtosis

---
 dascore/transform/fbe.py      | 8 ++++----
 dascore/transform/kurtosis.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dascore/transform/fbe.py b/dascore/transform/fbe.py
index 48ffaf9..03a057e 100644
--- a/dascore/transform/fbe.py
+++ b/dascore/transform/fbe.py
@@ -88,13 +88,13 @@ def fbe(
 
     patch = patch.pass_filter(**kwargs)
 
-    fbe = ((patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5).update(
-        attrs={"data_type": "frequency_band_energy"}
+    fbe = ((patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5).update_attrs(
+        data_type="frequency_band_energy"
     )
 
     if db:
-        fbe = (20 * fbe.log10()).update(
-            attrs={"data_type": "frequency_band_energy", "data_units": "dB"}
+        fbe = (20 * fbe.log10()).update_attrs(
+            data_type="frequency_band_energy", data_units="dB"
         )
 
     return fbe
diff --git a/dascore/transform/kurtosis.py b/dascore/transform/kurtosis.py
index 8ee822b..94ddabf 100644
--- a/dascore/transform/kurtosis.py
+++ b/dascore/transform/kurtosis.py
@@ -240,5 +240,5 @@ def kurtosis(
     return (
         patch_t.new(data=out)
         .transpose(*orig_dims)
-        .update(attrs={"data_type": "kurtosis", "data_units": ""})
+        .update_attrs(data_type="kurtosis", data_units="")
     )
-- 
2.43.0


From 07c1b25ff4e705bdacd84ca2a8821af6f47de1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:29 +0000
Subject: [PATCH 43/76] fix: dropna lost coordinates associated with its
 dimension

---
 dascore/proc/basic.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 9e972d7..d732e19 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -501,14 +501,11 @@ def dropna(
     to_keep = ~to_drop
     assert len(to_keep.shape) == 1
     assert to_keep.shape[0] == patch.data.shape[axis]
-    # get slices for trimming data.
-    slices = [slice(None)] * len(patch.dims)
-    slices[axis] = to_keep
-    new_data = patch.data[tuple(slices)]
-    coord = patch.get_coord(dim)
-    cm = patch.coords.update(**{dim: coord[to_keep]})
-    attrs = patch.attrs.update(coords={})
-    return patch.new(data=new_data, coords=cm, attrs=attrs)
+    # Select the labels so coordinates associated with dim are also trimmed.
+    cm, new_data = patch.coords.select(
+        array=patch.data, samples=True, **{dim: np.flatnonzero(to_keep)}
+    )
+    return patch.new(data=new_data, coords=cm)
 
 
 @patch_function()
-- 
2.43.0


From d55eb479a71f9774b31400187cbf45697d12e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:29 +0000
Subject: [PATCH 44/76] fix: padding uneven timedelta coordinates turned them
 into floats

---
 dascore/proc/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index d732e19..7ce6ec3 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -632,8 +632,8 @@ def pad(
             )
         else:
             old_values = coord.values
-            # Need to convert ints to float so NaN can be used.
-            if np.issubdtype(old_values.dtype, np.integer):
+            # Need to convert ints (not timedeltas) to float so NaN can be used.
+            if old_values.dtype.kind in "iu":
                 old_values = old_values.astype(np.float64)
             null_value = _get_nullish(old_values.dtype)
             added_nan_values = np.pad(
-- 
2.43.0


From 8e624423ea3fadc577545cac10666110b560d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:29 +0000
Subject: [PATCH 45/76] fix: line_mute used the wrong coordinates and
 slope_mute left reversed patches alone

---
 dascore/proc/mute.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dascore/proc/mute.py b/dascore/proc/mute.py
index 6aaf8fa..d3d8ec4 100644
--- a/dascore/proc/mute.py
+++ b/dascore/proc/mute.py
@@ -248,7 +248,6 @@ class _MuteGeometry2D(_MuteGeometry):
         ifill_index = -1
 
         for ind, (coord, row) in enumerate(zip(coords, value_list, strict=True)):
-            coord = patch.get_coord(patch.dims[ind])
             # We iterate each pair because it might be an implicit value.
             for pair_ind, pair in enumerate(row):
                 is_sized = isinstance(pair, Sized)
@@ -612,9 +611,10 @@ def slope_mute(
     # Get the coordinate information
     coord_x, coord_y = (patch.get_coord(x, require_sorted=True) for x in dims)
     origin = (dc.to_float(coord_x[0]), dc.to_float(coord_y[0]))
-    # Here we take the full range as to allow it to be negative if the
-    # coord is reversed sorted.
+    # The lines leave the origin, in the direction each coordinate is sorted.
     range_x = dc.to_float(coord_x[-1] - coord_x[0])
+    sign_x = -1 if coord_x.reverse_sorted else 1
+    sign_y = -1 if coord_y.reverse_sorted else 1
     # Calculate endpoints for lines defined by each slope
     dim0_vals = [[origin[0], origin[0] + range_x], [origin[0], origin[0] + range_x]]
     dim1_vals = [[origin[1], None], [origin[1], None]]
@@ -622,13 +622,13 @@ def slope_mute(
         # Special case for 0 and inf velocities
         if np.isclose(slope, 0):
             dim0_vals[num][1] = origin[0]
-            dim1_vals[num][1] = origin[1] + 1
+            dim1_vals[num][1] = origin[1] + sign_y
         elif np.isinf(slope):
-            dim0_vals[num][1] = origin[0] + 1
+            dim0_vals[num][1] = origin[0] + sign_x
             dim1_vals[num][1] = origin[1]
         else:
             # Slope is rise over run (e.g., distance/time for velocity)
-            dim1_vals[num][1] = origin[1] + range_x / slope
+            dim1_vals[num][1] = origin[1] + sign_y * abs(range_x) / slope
     mute_kwargs = {
         dims[0]: dim0_vals,
         dims[1]: dim1_vals,
-- 
2.43.0


From dba5fe3be0e701bf6541d6311b9d2e19aa748622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:29 +0000
Subject: [PATCH 46/76] fix: tapers of integers, of reversed and of uneven
 coordinates, inverted ranges without a plateau

---
 dascore/proc/taper.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dascore/proc/taper.py b/dascore/proc/taper.py
index 7edf936..93ec338 100644
--- a/dascore/proc/taper.py
+++ b/dascore/proc/taper.py
@@ -37,6 +37,8 @@ def _get_taper_slices(patch, kwargs):
     stop = -stop if stop is not None else stop
     _, inds_1 = coord.select((None, start), relative=True)
     _, inds_2 = coord.select((stop, None), relative=True)
+    if coord.reverse_sorted:  # the coord's start is at the end of the array.
+        return axis, (stop, start), inds_2, inds_1
     return axis, (start, stop), inds_1, inds_2
 
 
@@ -114,6 +116,8 @@ def taper(
     func = _get_window_function(window_type)
     # get taper values in samples.
     out = np.array(patch.data)  # Need to make a copy here.
+    if not np.issubdtype(out.dtype, np.inexact):
+        out = out.astype(np.float64)  # ints can't hold tapered values.
     shape = out.shape
     n_dims = len(out.shape)
     axis, samps, start_slice, end_slice = _get_taper_slices(patch, kwargs)
@@ -169,14 +173,12 @@ def _get_taper_curve(coord, ind_1, ind_2, window_type, reverse=False):
     taper = func(samps * 2 + 1)[:samps]
     if reverse:
         taper = taper[::-1]
-    # Need to extrapolate to get correct values for non evenly sampled coords.
-    if not coord.evenly_sampled:
-        # The current window represents the snapped (evenly sampled) coords
-        old_coord = coord.select((ind_1, ind_2), samples=True)[0]
-        new_coord = old_coord.snap().change_length(len(old_coord))
-        old_x, new_x = to_float(old_coord.values), to_float(new_coord.values)
-        assert len(old_x) == len(new_x) == len(taper)
-        taper = np.interp(new_x, old_x, taper)
+    # Need to interpolate to get correct values for non evenly sampled coords.
+    if not coord.evenly_sampled and samps > 1:
+        values = coord.values[ind_1:ind_2]
+        # The window is known at evenly spaced positions, used at the actual ones.
+        x = to_float(values - values[0])
+        taper = np.interp(x, np.linspace(0, x[-1], samps), taper)
     return taper
 
 
@@ -192,7 +194,8 @@ def _get_range_envelope(coord, inds, window_type, invert):
         out[i3:i4] += right_taper
         out[i2:i3] += 1
     if invert:
-        out = np.abs(out - np.max(out))
+        # Samples outside of all ranges are left alone.
+        out = 1 - np.minimum(out, 1)
 
     return out
 
-- 
2.43.0


From 2263fe2b70bed8f943f41547ad518b4923116a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:30 +0000
Subject: [PATCH 47/76] fix: resampling and interpolation keep units, exact
 time labels and direction

---
 dascore/proc/resample.py | 57 +++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index 0de7973..9d297ee 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -14,10 +14,9 @@ from dascore.units import get_filter_units
 from dascore.utils.imports import lazy_import
 from dascore.utils.patch import (
     get_dim_axis_value,
-    get_start_stop_step,
     patch_function,
 )
-from dascore.utils.time import to_int, to_timedelta64
+from dascore.utils.time import to_datetime64, to_int, to_timedelta64
 
 scipy_decimate = lazy_import("scipy.signal", "decimate")
 
@@ -142,19 +141,45 @@ def interpolate(patch: PatchType, kind: str | int = "linear", **kwargs) -> Patch
         samples = coord.snap().values
     # we need to make sure only real numbers are used, interp1d doesn't support
     # datetime64 yet.
-    coord_num = to_int(patch.coords.get_array(dim))
-    samples_num = to_int(samples)
+    array = patch.coords.get_array(dim)
+    if np.issubdtype(array.dtype, np.datetime64):
+        # Use offsets from the start; floats can't represent absolute times to
+        # the nanosecond.
+        start = array.min()
+        coord_num = to_int(array - start)
+        samples_num = to_int(to_datetime64(samples) - start)
+    else:
+        coord_num, samples_num = to_int(array), to_int(samples)
     func = compat.interp1d(
         coord_num, patch.data, axis=axis, kind=kind, fill_value="extrapolate"
     )
     out = func(samples_num)
     cm = patch.coords
     associated_dims = cm.dim_map[dim]
-    coord_new = dc.core.get_coord(data=samples)
+    units = patch.get_coord(dim).units
+    coord_new = dc.core.get_coord(data=samples, units=units)
     cm_new = cm.update(**{dim: (associated_dims, coord_new)})
     return patch.new(data=out, coords=cm_new)
 
 
+def _get_resampled_coord(coord, num, step=None):
+    """
+    Get the coordinate with num samples spanning the same range as coord.
+
+    If step is provided it is used as-is, otherwise it is determined by the
+    span of the coordinate.
+    """
+    start, length, units = coord.values[0], len(coord), coord.units
+    if step is None and isinstance(coord.step, np.timedelta64):
+        # Integer arithmetic avoids both overflows and loss of precision.
+        whole, rest = divmod(int(to_int(coord.step)) * length, num)
+        index = np.arange(num)
+        offset = (index * whole + index * rest // num).astype("timedelta64[ns]")
+        return dc.core.get_coord(data=start + offset, units=units)
+    step = coord.step * length / num if step is None else step
+    return dc.core.get_coord(start=start, step=step, shape=num, units=units)
+
+
 @patch_function()
 def resample(
     patch: PatchType,
@@ -232,18 +257,26 @@ def resample(
         if isinstance(step, np.timedelta64):
             new_step = to_timedelta64(new_step)
         current_sig_len = patch.data.shape[axis]
+        # The new labels go in the same direction as the old ones.
+        new_step = abs(new_step) * (-1 if coord.reverse_sorted else 1)
         new_len = current_sig_len * (step / new_step)
     else:
         new_len = value
     # do the resampling
-    data, new_coord = compat.resample(
-        patch.data, int(np.round(new_len)), t=coord, axis=axis, window=window
-    )
+    num = int(np.round(new_len))
+    data = compat.resample(patch.data, num, axis=axis, window=window)
+    # The resampling is exact if it is off by much less than one sample.
+    exact = not samples and np.abs(new_len - num) < 1e-6
+    new_coord = _get_resampled_coord(coord, num, step=new_step if exact else None)
     cm = patch.coords.update(**{dim: new_coord})
     out = patch.new(data=data, coords=cm)
     # Interpolate if new sampling rate is not very close to desired sampling rate.
-    if not samples and not np.isclose(new_len, np.round(new_len)):
-        start, stop, step = get_start_stop_step(out, dim)
-        new_coord = np.arange(start, stop, new_step)
-        out = interpolate(out, kind=interp_kind, **{dim: new_coord})
+    if not samples and not exact:
+        values = new_coord.values
+        labels = np.arange(values[0], values[-1], new_step)
+        new_coord = dc.core.get_coord(
+            start=values[0], step=new_step, shape=len(labels), units=coord.units
+        )
+        out = interpolate(out, kind=interp_kind, **{dim: new_coord.values})
+        out = out.update_coords(**{dim: new_coord})
     return out
-- 
2.43.0


From 312683f51db7957d6f06769949d53b1b533279b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 48/76] fix: correlate keeps the units of its sources and
 leaves source arrays alone

---
 dascore/core/coords.py    |  1 +
 dascore/proc/correlate.py | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 4b20a35..a795393 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -953,6 +953,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
+        array = np.array(array)  # don't change (possibly read-only) inputs.
         array[is_gt] = max_val
         array[is_lt] = min_val
         # samples should already have the answer, just return
diff --git a/dascore/proc/correlate.py b/dascore/proc/correlate.py
index 0d63fec..2dd84ae 100644
--- a/dascore/proc/correlate.py
+++ b/dascore/proc/correlate.py
@@ -9,6 +9,7 @@ import numpy as np
 import dascore as dc
 from dascore.constants import PatchType
 from dascore.exceptions import ParameterError
+from dascore.units import convert_units
 from dascore.utils.patch import (
     get_dim_axis_value,
     patch_function,
@@ -35,6 +36,15 @@ def _get_source_fft(patch, dim, source, source_axis, samples):
     return out
 
 
+def _get_source_coord(coord, source, samples):
+    """Get the coordinate of the sources, in the units of the source dimension."""
+    if samples:
+        return dc.get_coord(values=np.array(source, ndmin=1))
+    if isinstance(source, dc.units.Quantity):
+        source = convert_units(source.magnitude, coord.units, source.units)
+    return dc.get_coord(values=np.array(source, ndmin=1), units=coord.units)
+
+
 @patch_function(data_type="correlation")
 def correlate_shift(
     patch: PatchType, dim: str, undo_weighting: bool = True
@@ -212,14 +222,14 @@ def correlate(
         padded = patch.pad.func(patch, **{fft_dim: "correlate"})
         patch = padded.dft.func(padded, fft_dim, real=fft_dim if is_real else None)
     # Get the sources.
-    source = patch.get_coord(dim).values if source is None else source
+    if source is None:
+        samples, source = False, patch.get_coord(dim).values
     source_fft = _get_source_fft(patch, dim, source, source_axis, samples)
     # Need to insert new axis so the arrays broadcast correctly.
     fft_patch_array = patch.data[..., None]
     fft_prod = fft_patch_array * np.conj(source_fft)
     # Create frequency domain patch with results
-    source = getattr(source, "magnitude", source)  # strips units
-    new_coord = dc.get_coord(values=np.atleast_1d(source))
+    new_coord = _get_source_coord(patch.get_coord(dim), source, samples)
     dim_name = f"source_{dim}"
     cm = patch.coords.update(**{dim_name: (dim_name, new_coord)})
     out = patch.update(data=fft_prod, coords=cm)
-- 
2.43.0


From 2a66649ac1471e88d7f026f998d18cf26c68cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:40 +0000
Subject: [PATCH 49/76] fix: incompatible patches were stacked or concatenated
 anyway; concatenate lost units

Patches with other dimensions or units of the joined dimension are now treated as
incompatible, the units of the joined dimension are kept, concatenate appends only
one history entry, and dimensions of any type can vary when stacking.
---
 dascore/utils/patch.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 84b60d8..9808dcb 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -1032,7 +1032,6 @@ def check_dims(
         to be equal.
     """
     dims1, dims2 = patch1.dims, patch2.dims
-    dims_ok = True
     if not intersection and patch1.dims == patch2.dims:
         return True
     dset1, dset2 = set(dims1), set(dims2)
@@ -1043,7 +1042,7 @@ def check_dims(
         f" Patch1 dims: {dims1}, Patch2 dims: {dims2}"
     )
     warn_or_raise(msg, exception=IncompatiblePatchError, behavior=check_behavior)
-    return dims_ok
+    return False
 
 
 def check_coords(
@@ -1084,7 +1083,7 @@ def check_coords(
         if coord1 == coord2:
             # Straightforward case, coords are identical.
             continue
-        elif coord == dim_to_ignore:
+        elif coord == dim_to_ignore and coord1.units == coord2.units:
             # If dimension that's ok to ignore value differences,
             # check whether shape is the same.
             if coord1.shape == coord2.shape:
@@ -1096,7 +1095,7 @@ def check_coords(
     if not_equal_coords and len(shared):
         msg = (
             f"Patches are not compatible. The following shared coordinates "
-            f"are not equal: {coord}"
+            f"are not equal: {', '.join(not_equal_coords)}"
         )
         warn_or_raise(msg, exception=IncompatiblePatchError, behavior=check_behavior)
         return False
@@ -1302,7 +1301,8 @@ def concatenate_patches(
     def get_compatible_patches(patches, dim, check_behavior):
         """Get the patches which can be concatenated, dim names, and new dim."""
         # We need to drop private coords for dft concats to work.
-        patches = list(x.drop_private_coords() for x in patches)
+        # Note: we use .func here to avoid getting this added to the history.
+        patches = list(x.drop_private_coords.func(x) for x in patches)
         first_patch = patches[0]
         compat_patches = []
         # Ensure patch dimensions are compatible.
@@ -1342,7 +1342,9 @@ def concatenate_patches(
         else:
             array_list = [x.get_array(dim) for x in patch_list]
             array = np.concatenate(array_list, axis=0)
-            coords = coords.update(**{dim: array})
+            units = coords.coord_map[dim].units
+            coord = dc.get_coord(data=array, units=units)
+            coords = coords.update(**{dim: coord})
         return coords
 
     dim, val = _get_dim_and_value(kwargs)
@@ -1402,7 +1404,8 @@ def stack_patches(
     stack_coords = init_patch.coords
     if dim_vary:  # adjust dim_vary to start at 0 for junk dimension indicator
         coord_to_change = stack_coords.coord_map[dim_vary]
-        new_dim = coord_to_change.update_limits(min=0)
+        zero = np.zeros_like(coord_to_change.min())[()]
+        new_dim = coord_to_change.update_limits(min=zero)
         stack_coords = stack_coords.update_coords(**{dim_vary: new_dim})
     return dc.Patch(stack_arr, stack_coords, init_patch.dims, stack_attrs)
 
-- 
2.43.0


From b1aa28d3a51bc98fbe48ce4a461f30e752d7a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 50/76] fix: merge associated coordinates with their own
 values, dimensions and units

---
 dascore/core/spool.py         |  4 ++--
 dascore/utils/coordmanager.py | 16 +++++++++-------
 dascore/utils/patch.py        |  4 ++--
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 94a4ce7..456998c 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -692,8 +692,8 @@ class DataFrameSpool(BaseSpool):
         new_coord = _get_merged_coord(
             summary_df, merge_dim, coords, drop_conflicting, snap=snap
         )
-        coord = new_coord.coord_map[merge_dim]
-        new_attrs = combine_patch_attrs(attrs, merge_dim, coord=coord, **merge_kwargs)
+        # The coords were merged above; they determine the summaries in the attrs.
+        new_attrs = combine_patch_attrs(attrs, drop_attrs=("coords",), **merge_kwargs)
         return dc.Patch(data=buffer, coords=new_coord, attrs=new_attrs, dims=list(dims))
 
     def _get_dummy_dataframes(self, current):
diff --git a/dascore/utils/coordmanager.py b/dascore/utils/coordmanager.py
index 4e6ef04..1a850ca 100644
--- a/dascore/utils/coordmanager.py
+++ b/dascore/utils/coordmanager.py
@@ -112,8 +112,9 @@ def merge_coord_managers(
         """Get the merged coordinates."""
         out = {}
         for coord_name in coords_to_merge:
-            merge_coords = [x.coord_map[dim] for x in managers]
-            axis = managers[0].dim_map[coord_name].index(dim)
+            merge_coords = [x.coord_map[coord_name] for x in managers]
+            dims = managers[0].dim_map[coord_name]
+            axis = dims.index(dim)
             if len(units := {x.units for x in merge_coords}) != 1:
                 # TODO: we might try to convert all the units to a common
                 # unit in the future.
@@ -122,11 +123,12 @@ def merge_coord_managers(
                     f"share the same units. Units found are: {set(units)}"
                 )
                 raise CoordMergeError(msg)
-            snap_coords = _snap_coords(merge_coords)
-            data = [x.data for x in snap_coords]
-            dims = managers[0].dim_map[dim]
-            new_data = np.concatenate(data, axis=axis)
-            out[coord_name] = (dims, new_data)
+            # Only the coordinate of the dimension should be contiguous.
+            if coord_name == dim:
+                merge_coords = _snap_coords(merge_coords)
+            new_data = np.concatenate([x.data for x in merge_coords], axis=axis)
+            coord = dc.get_coord(data=new_data, units=merge_coords[0].units)
+            out[coord_name] = (dims, coord)
         return out
 
     def _get_new_coords(managers) -> dict[str, tuple[tuple[str, ...], ArrayLike]]:
diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 9808dcb..119aa28 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -458,8 +458,8 @@ def _force_patch_merge(patch_dict_list, merge_kwargs, **kwargs):
     conf = merge_kwargs.get("conflicts", None)
     drop_conf_coords = True if conf in {"drop", "keep_first"} else False
     new_coord = _get_merged_coord(df, merge_dim, coords, drop_conf_coords, snap=snap)
-    coord = new_coord.coord_map[merge_dim] if merge_dim in dims else None
-    new_attrs = combine_patch_attrs(attrs, merge_dim, coord=coord, **merge_kwargs)
+    # The coords were merged above; they determine the summaries in the attrs.
+    new_attrs = combine_patch_attrs(attrs, drop_attrs=("coords",), **merge_kwargs)
     patch = dc.Patch(data=new_data, coords=new_coord, attrs=new_attrs, dims=dims)
     new_dict = {"patch": patch}
     return [new_dict]
-- 
2.43.0


From 3605707d274f353980942cfb92a21cf0c9d7a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 51/76] fix: tolerate round-off and varying associated
 coordinates when chunking

---
 dascore/utils/chunk.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 4521dd1..4e25db4 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -35,7 +35,7 @@ _DEFAULT_TOLERANCE = 1.5
 
 def _count_steps(interval, step):
     """Get the number of steps needed to cover the intervals (rounded up)."""
-    if np.asarray(step).dtype.kind in "mi":
+    if np.asarray(interval).dtype.kind in "mi":
         return -((-interval) // step)
     return np.ceil(np.round(interval / step, 6))
 
@@ -303,6 +303,10 @@ class ChunkManager:
         # get dims to determine which columns are still compared. Some test
         # dfs don't have dims though, so it should still work without dims col.
         dims = set(df.iloc[0].get("dims", "").split(","))
+        # Coordinates which aren't dimensions can vary along the chunked dimension,
+        # they are checked when the patches are merged.
+        coords = set(get_dim_names_from_columns(df)) - dims - {name}
+        coord_cols = set(get_column_names_from_dim(coords))
         # We exclude private columns for considering if merge can happen.
         for col in set(x for x in merger.columns if not x.startswith("_")):
             prefix = col.split("_")[0]
@@ -311,6 +315,8 @@ class ChunkManager:
             if self._attr_conflict != "raise" and prefix not in dims:
                 continue
             vals = merger[col].unique()
+            if len(vals) > 1 and col in coord_cols:
+                continue
             if len(vals) > 1:
                 msg = (
                     f"Cannot merge on dim {self._name} because all values for "
@@ -370,7 +376,7 @@ class ChunkManager:
         # need to make sure we don't have overlaps in source df. This implicitly
         # handles merging.
         sub_source = _remove_overlaps(sub_source, self._name)
-        src1, src2, _src_step = get_interval_columns(
+        src1, src2, src_step = get_interval_columns(
             sub_source, self._name, arrays=True
         )
         chu1, chu2, _chu_step = get_interval_columns(sub_chunk, self._name, arrays=True)
@@ -390,6 +396,11 @@ class ChunkManager:
         ends = np.stack([src2[source_inds], chu2[chunk_inds]], axis=1)
         end_values = np.min(ends, axis=1)
         start_values = np.max(starts, axis=1)
+        # Tolerate round-off of floats in pieces which have only one sample.
+        if np.issubdtype(start_values.dtype, np.floating):
+            eps = np.nan_to_num(np.abs(src_step[source_inds])) * 1e-6
+            close = np.abs(start_values - end_values) <= eps
+            end_values = np.where(close, start_values, end_values)
         data_dict = {
             min_name: start_values,
             max_name: end_values,
-- 
2.43.0


From 9c5a84cb9b1c9a98b90166302601f381d5a7e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 52/76] fix: record exactly one truthful history entry per step
 and compare metadata values null- and array-aware

---
 dascore/proc/basic.py           | 15 ++++-----------
 dascore/proc/filter.py          |  4 +++-
 dascore/proc/resample.py        |  5 +++--
 dascore/proc/rolling.py         |  8 ++++++--
 dascore/proc/units.py           |  7 ++-----
 dascore/proc/whiten.py          |  7 ++++---
 dascore/transform/dispersion.py |  2 +-
 dascore/transform/fbe.py        |  4 +++-
 dascore/transform/fourier.py    |  2 ++
 dascore/transform/stalta.py     |  3 ++-
 dascore/transform/taup.py       |  2 +-
 dascore/utils/array.py          |  3 ++-
 dascore/utils/attrs.py          | 25 +++++--------------------
 dascore/utils/misc.py           | 32 ++++++++++++++++++++++++++++----
 dascore/utils/patch.py          | 19 ++++++++++++++-----
 15 files changed, 80 insertions(+), 58 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 7ce6ec3..d1b728c 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -17,7 +17,7 @@ from dascore.core.coordmanager import CoordManager, get_coord_manager
 from dascore.core.coords import get_coord
 from dascore.exceptions import ParameterError
 from dascore.utils.array import _apply_binary_ufunc
-from dascore.utils.misc import _get_nullish, broadcast_for_index
+from dascore.utils.misc import _get_nullish, _values_equal, broadcast_for_index
 from dascore.utils.models import ArrayLike
 from dascore.utils.patch import (
     align_patch_coords,
@@ -180,16 +180,9 @@ def equals(self: PatchType, other: Any, only_required_attrs=True, close=False) -
         attrs2 = other.attrs.model_dump(exclude=["coords"])
     if set(attrs1) != set(attrs2):  # attrs don't have same keys; not equal
         return False
-    if attrs1 != attrs2:
-        # see if some values are NaNs, these should be counted equal
-        not_equal = {
-            x
-            for x in attrs1
-            if attrs1[x] != attrs2[x]
-            and not (pd.isnull(attrs1[x]) and pd.isnull(attrs2[x]))
-        }
-        if not_equal:
-            return False
+    # null values are counted as equal
+    if not _values_equal(attrs1, attrs2):
+        return False
     # Test data equality or proximity.
     if close and not np.allclose(self.data, other.data):
         return False
diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index fd732e5..32325c7 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -636,5 +636,7 @@ def slope_filter(
     new_data = dft_patch.data * mask
     out = dft_patch.update(data=new_data)
     if transformed:
-        out = out.idft().real()
+        # Note: func is used to avoid adding these to the history.
+        out = out.idft.func(out)
+        out = out.real.func(out)
     return out
diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index 9d297ee..dbc562c 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -277,6 +277,7 @@ def resample(
         new_coord = dc.core.get_coord(
             start=values[0], step=new_step, shape=len(labels), units=coord.units
         )
-        out = interpolate(out, kind=interp_kind, **{dim: new_coord.values})
-        out = out.update_coords(**{dim: new_coord})
+        # Note: func is used to avoid adding these to the history.
+        out = interpolate.func(out, kind=interp_kind, **{dim: new_coord.values})
+        out = out.update_coords.func(out, **{dim: new_coord})
     return out
diff --git a/dascore/proc/rolling.py b/dascore/proc/rolling.py
index 2783445..e3133de 100644
--- a/dascore/proc/rolling.py
+++ b/dascore/proc/rolling.py
@@ -12,7 +12,11 @@ import dascore as dc
 from dascore.constants import samples_arg_description
 from dascore.exceptions import ParameterError
 from dascore.utils.docs import compose_docstring
-from dascore.utils.patch import get_dim_axis_value, get_window_axis_step
+from dascore.utils.patch import (
+    _get_history_list,
+    get_dim_axis_value,
+    get_window_axis_step,
+)
 from dascore.utils.pd import rolling_df
 
 rolling_apply_description = """
@@ -76,7 +80,7 @@ class _PatchRollerInfo:
         else:
             hist_str = f"{self.roll_hist}.{func_or_str}()"
         # Must be a tuple; model_copy below does no type coercion.
-        history = (*self.patch.attrs.history, hist_str)
+        history = (*_get_history_list(self.patch.attrs), hist_str)
         if coords is self.patch.coords:
             # The coords didn't change, so their summaries still hold.
             return self.patch.attrs.model_copy(update={"history": history})
diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index 5abbe8b..4997470 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -8,9 +8,6 @@ from dascore.units import Quantity, Unit, get_factor_and_unit, get_quantity
 from dascore.units import convert_units as u_covert_units
 from dascore.utils.patch import patch_function
 
-# Sentinel to indicate the data units shouldn't change.
-_KEEP = object()
-
 
 def _update_attrs_coord_units(patch: dc.Patch, data_units, coords):
     """Update attributes with new units."""
@@ -25,7 +22,7 @@ def _update_attrs_coord_units(patch: dc.Patch, data_units, coords):
 
 @patch_function()
 def set_units(
-    patch: PatchType, data_units: str | Quantity | Unit | None = _KEEP, **kwargs
+    patch: PatchType, data_units: str | Quantity | Unit | None = ..., **kwargs
 ) -> PatchType:
     """
     Set the units of a patch's data or coordinates.
@@ -60,7 +57,7 @@ def set_units(
     >>> patch_removed_units = patch_with_units.set_units(None)
     """
     new_coords = patch.coords.set_units(**kwargs)
-    data_units = patch.attrs.data_units if data_units is _KEEP else data_units
+    data_units = patch.attrs.data_units if data_units is ... else data_units
     new_attrs = _update_attrs_coord_units(patch, data_units, new_coords)
     return patch.new(attrs=new_attrs, coords=new_coords)
 
diff --git a/dascore/proc/whiten.py b/dascore/proc/whiten.py
index 34ca43c..b8376f9 100644
--- a/dascore/proc/whiten.py
+++ b/dascore/proc/whiten.py
@@ -139,8 +139,9 @@ def whiten(
     """
     dim, freq_range = _get_dim_freq_range_from_kwargs(patch, kwargs)
     fft_dim = FourierTransformatter().rename_dims(dim)[0]
-    # Get frequency domain patch
-    fft_patch = patch.dft(dim, real=np.isrealobj(patch.data))
+    # Get frequency domain patch. Note: func is used to avoid adding the
+    # intermediate steps to the history.
+    fft_patch = patch.dft.func(patch, dim, real=np.isrealobj(patch.data))
     input_patch_fft = fft_patch is patch  # if input patch had fft
     fft_coord = fft_patch.get_coord(fft_dim)
     # Get amplitude spectra if smoothing, otherwise use ones.
@@ -159,5 +160,5 @@ def whiten(
         out = out.taper_range.func(out, **{fft_dim: freq_range})
     # Convert back to time domain if input was in time-domain.
     if not input_patch_fft:
-        out = out.idft()
+        out = out.idft.func(out)
     return out
diff --git a/dascore/transform/dispersion.py b/dascore/transform/dispersion.py
index 80e2c15..b951697 100644
--- a/dascore/transform/dispersion.py
+++ b/dascore/transform/dispersion.py
@@ -165,4 +165,4 @@ def dispersion_phase_shift(
     disp_patch = patch.new(
         data=fc / nchan, coords=coords, attrs=attrs, dims=["velocity", "frequency"]
     )
-    return disp_patch.set_units(velocity="m/s", frequency="Hz")
+    return disp_patch.set_units.func(disp_patch, velocity="m/s", frequency="Hz")
diff --git a/dascore/transform/fbe.py b/dascore/transform/fbe.py
index 03a057e..1fa8ccc 100644
--- a/dascore/transform/fbe.py
+++ b/dascore/transform/fbe.py
@@ -86,6 +86,7 @@ def fbe(
     if step is None:
         step = to_float(1 / sample_rate)
 
+    history = patch.attrs.history
     patch = patch.pass_filter(**kwargs)
 
     fbe = ((patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5).update_attrs(
@@ -97,4 +98,5 @@ def fbe(
             data_type="frequency_band_energy", data_units="dB"
         )
 
-    return fbe
+    # The steps used above are internal; they don't belong in the history.
+    return fbe.update_attrs(history=history)
diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 7ac2938..042b684 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -189,6 +189,8 @@ def _convert_dft_spectral_amplitudes(patch, output, dims, real, db):
     return out.update_attrs(
         data_type=DFT_OUTPUT_DATA_TYPE_MAP[output],
         data_units=data_units,
+        # The steps used above are internal; they don't belong in the history.
+        history=patch.attrs.history,
     )
 
 
diff --git a/dascore/transform/stalta.py b/dascore/transform/stalta.py
index 3998fb6..3332557 100644
--- a/dascore/transform/stalta.py
+++ b/dascore/transform/stalta.py
@@ -60,4 +60,5 @@ def stalta(
     sta_data = patch.rolling(**{dim: sta}, samples=samples).mean()
     lta_data = patch.rolling(**{dim: lta}, samples=samples).mean()
 
-    return sta_data / lta_data
+    # The rolling steps are internal; they don't belong in the history.
+    return (sta_data / lta_data).update_attrs(history=patch.attrs.history)
diff --git a/dascore/transform/taup.py b/dascore/transform/taup.py
index 12a7d13..6398e8d 100644
--- a/dascore/transform/taup.py
+++ b/dascore/transform/taup.py
@@ -151,4 +151,4 @@ def tau_p(
     tau_p_patch = patch.new(
         data=tau_p_data, coords=coords, attrs=attrs, dims=["slowness", "time"]
     )
-    return tau_p_patch.set_units(slowness="s/m", time="s")
+    return tau_p_patch.set_units.func(tau_p_patch, slowness="s/m", time="s")
diff --git a/dascore/utils/array.py b/dascore/utils/array.py
index dc59a1a..adc3dd9 100644
--- a/dascore/utils/array.py
+++ b/dascore/utils/array.py
@@ -141,7 +141,8 @@ def _apply_binary_ufunc(
         if (patch_ndims := patch.ndim) < (array_ndims := other.ndim):
             msg = f"Cannot broadcast patch/array {patch_ndims=} {array_ndims=}"
             raise PatchBroadcastError(msg)
-        patch = patch.make_broadcastable_to(other.shape)
+        # Note: func is used to avoid adding this to the history.
+        patch = patch.make_broadcastable_to.func(patch, other.shape)
         return patch
 
     def _apply_op(array1, array2, operator, reversed=False):
diff --git a/dascore/utils/attrs.py b/dascore/utils/attrs.py
index dfc1fb9..563af8f 100644
--- a/dascore/utils/attrs.py
+++ b/dascore/utils/attrs.py
@@ -10,14 +10,13 @@ from collections.abc import Sequence
 from functools import reduce
 from typing import Literal
 
-import pandas as pd
-
 import dascore as dc
 from dascore.constants import attr_conflict_description
 from dascore.exceptions import AttributeMergeError, ParameterError
 from dascore.utils.docs import compose_docstring
 from dascore.utils.misc import (
     _dict_list_diffs,
+    _values_equal,
     all_diffs_close_enough,
     get_middle_value,
     is_valid_coord_str,
@@ -137,23 +136,11 @@ def combine_patch_attrs(
                 mod["coords"][coord_name] = new_coord
         return model_dicts
 
-    def _replace_null_with_none(mod_dict_list):
-        """Because NaN != NaN we need to replace those values so == works."""
-        out = []
-        for mod in mod_dict_list:
-            out.append(
-                {
-                    i: (v if (isinstance(v, Sequence) or not pd.isnull(v)) else None)
-                    for i, v in mod.items()
-                }
-            )
-        return out
-
     def _keep_eq(d1, d2):
         """Keep only the values that are equal between d1/d2."""
         out = {}
         for i in set(d1) & set(d2):
-            if not d1[i] == d2[i]:
+            if not _values_equal(d1[i], d2[i]):
                 continue
             out[i] = d1[i]
         return out
@@ -162,13 +149,11 @@ def combine_patch_attrs(
         """Check the other attributes and handle based on conflicts param."""
         if conflicts == "keep_first":
             return [dict(ChainMap(*mod_dict_list))]
-        no_null_ = _replace_null_with_none(mod_dict_list)
-        all_eq = all(no_null_[0] == x for x in no_null_[1:])
-        if all_eq:
+        # determine which keys are not equal, also to help debug.
+        uneq_keys = _dict_list_diffs(mod_dict_list)
+        if not uneq_keys:
             return mod_dict_list
         if conflicts == "raise":
-            # determine which keys are not equal to help debug.
-            uneq_keys = _dict_list_diffs(mod_dict_list)
             msg = (
                 "Cannot merge models, the following non-dim attrs are not "
                 f"equal: {uneq_keys}. Consider setting the `conflict` or "
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index b3381db..3a5d2c8 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -600,19 +600,43 @@ def _spool_map(spool, func, size=None, client=None, progress=True, **kwargs):
     return [x for y in client.map(new_func, spools) for x in y]
 
 
+def _is_null(value) -> bool:
+    """Return True if value is a scalar null (None, NaN, NaT)."""
+    out = pd.isnull(value)
+    return isinstance(out, bool | np.bool_) and bool(out)
+
+
+def _values_equal(value1, value2) -> bool:
+    """
+    Return True if two (metadata) values are equal.
+
+    Nulls are considered equal to each other and arrays may be used.
+    """
+    if value1 is value2 or (_is_null(value1) and _is_null(value2)):
+        return True
+    if isinstance(value1, Mapping) and isinstance(value2, Mapping):
+        same_keys = set(value1) == set(value2)
+        return same_keys and all(_values_equal(value1[k], value2[k]) for k in value1)
+    if isinstance(value1, np.ndarray) or isinstance(value2, np.ndarray):
+        array1, array2 = np.asarray(value1), np.asarray(value2)
+        if array1.shape != array2.shape:
+            return False
+        null = pd.isnull(array1) & pd.isnull(array2)
+        return bool(np.all((array1 == array2) | null))
+    return bool(value1 == value2)
+
+
 def _dict_list_diffs(dict_list):
     """Return the keys which are not equal dicts in a list."""
     out = set()
-    first = dict_list[0]
+    first = dict_list[0] if dict_list else {}
     first_keys = set(first)
     for other in dict_list[1:]:
-        if other == first:
-            continue
         other_keys = set(other)
         out |= (other_keys - first_keys) | (first_keys - other_keys)
         common_keys = other_keys & first_keys
         for key in common_keys:
-            if first[key] != other[key]:
+            if not _values_equal(first[key], other[key]):
                 out.add(key)
     return sorted(out)
 
diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 119aa28..d109d8c 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -41,6 +41,7 @@ from dascore.utils.mapping import FrozenDict
 from dascore.utils.misc import (
     _apply_union_indexers,
     _merge_tuples,
+    _values_equal,
     all_diffs_close_enough,
     get_middle_value,
     iterate,
@@ -77,6 +78,8 @@ def _format_values(val):
 
 def _func_and_kwargs_str(func: Callable, patch, *args, **kwargs) -> str:
     """Get a str rep of the function and input args."""
+    # Decorated functions hide the signature; use the function they wrap.
+    func = inspect.unwrap(getattr(func, "raw_function", func))
     callargs = inspect.getcallargs(func, patch, *args, **kwargs)
     callargs.pop("patch", None)
     callargs.pop("self", None)
@@ -95,6 +98,12 @@ def _func_and_kwargs_str(func: Callable, patch, *args, **kwargs) -> str:
     return out + ")"
 
 
+def _get_history_list(attrs) -> list[str]:
+    """Get a new list of the history entries; a string is a single entry."""
+    history = attrs.history
+    return [history] if isinstance(history, str) and history else list(history)
+
+
 def _get_history_str(patch: PatchType, func, *args, _history="full", **kwargs) -> str:
     """
     Log history of a function being called on a Patch object.
@@ -287,7 +296,7 @@ def patch_function(
                     patch, func, *args, _history=history, **kwargs
                 )
                 if hist_str:
-                    hist = list(out.attrs.history)
+                    hist = _get_history_list(out.attrs)
                     hist.append(hist_str)
                     attr_updates["history"] = hist
             if attr_updates and hasattr(out, "attrs"):
@@ -1126,9 +1135,9 @@ def _merge_aligned_coords(cm1, cm2):
 def _merge_models(attrs1, attrs2, coord=None, attrs_to_ignore=DEFAULT_ATTRS_TO_IGNORE):
     """Ensure models are equal in the right ways, merge together."""
     no_comp_keys = set(attrs_to_ignore)
-    if attrs1 == attrs2:
-        return attrs1
     dict1, dict2 = dict(attrs1), dict(attrs2)
+    if _values_equal(dict1, dict2):
+        return attrs1
     if coord is not None:
         new_coords = coord.to_summary_dict()
         dict1["coords"], dict2["coords"] = new_coords, new_coords
@@ -1139,7 +1148,7 @@ def _merge_models(attrs1, attrs2, coord=None, attrs_to_ignore=DEFAULT_ATTRS_TO_I
     for key in common_keys:
         if key in no_comp_keys:
             continue
-        if dict2[key] != dict1[key]:
+        if not _values_equal(dict2[key], dict1[key]):
             ne_attrs.append(key)
     if ne_attrs:
         msg = (
@@ -1217,7 +1226,7 @@ def merge_compatible_coords_attrs(
 
 def _add_history_str(attrs, hist_str):
     """Add a single string to the history attribute in attrs."""
-    new_history = list(attrs.history)
+    new_history = _get_history_list(attrs)
     new_history.append(hist_str)
     return attrs.update(history=new_history)
 
-- 
2.43.0


From eb9c2dda414f8e669da18e8d1e23307bc5cc6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 53/76] fix: chunk and merge patches which have only one sample
 (and no step)

---
 dascore/core/spool.py         |  3 +++
 dascore/utils/chunk.py        | 28 +++++++++++++++++++++++++---
 dascore/utils/coordmanager.py | 14 +++++++++++++-
 dascore/utils/patch.py        | 12 +++++-------
 dascore/utils/pd.py           |  2 +-
 5 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 456998c..38ca389 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -756,6 +756,9 @@ class DataFrameSpool(BaseSpool):
             instructions = None
         else:
             instructions = chunker.get_instruction_df(in_df, out_df)
+            if not out_df.empty:
+                # Without a known step some chunks may fall between samples.
+                out_df = out_df[out_df.index.isin(instructions["current_index"])]
         return self.new_from_df(
             out_df,
             source_df=self._source_df,
diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 4e25db4..30e8c2d 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -396,9 +396,14 @@ class ChunkManager:
         ends = np.stack([src2[source_inds], chu2[chunk_inds]], axis=1)
         end_values = np.min(ends, axis=1)
         start_values = np.max(starts, axis=1)
-        # Tolerate round-off of floats in pieces which have only one sample.
+        # Tolerate round-off of floats, mainly for pieces with only one sample.
         if np.issubdtype(start_values.dtype, np.floating):
             eps = np.nan_to_num(np.abs(src_step[source_inds])) * 1e-6
+            src_starts, src_ends = starts[:, 0], ends[:, 0]
+            close = np.abs(start_values - src_starts) <= eps
+            start_values = np.where(close, src_starts, start_values)
+            close = np.abs(end_values - src_ends) <= eps
+            end_values = np.where(close, src_ends, end_values)
             close = np.abs(start_values - end_values) <= eps
             end_values = np.where(close, start_values, end_values)
         data_dict = {
@@ -536,8 +541,23 @@ class ChunkManager:
             out.append(sub_new_df)
         return out
 
-    def _filter_nan_dfs(self, df, start, stop):
-        """Filter NaN out of dataframe if they occur in start/stop."""
+    def _fill_unknown_steps(self, df):
+        """
+        Fill the steps of rows which have only one sample.
+
+        Whether such rows are contiguous with, or sampled like, others can't be
+        determined without a step, so use the step of the row before (or after)
+        it in the same column group.
+        """
+        name = f"{self._name}_step"
+        if not (unknown := pd.isnull(df[name])).any() or unknown.all():
+            return df
+        col_g = self._get_col_group(df, pd.Series(0, index=df.index))
+        ordered = df[name].iloc[np.argsort(df[f"{self._name}_min"].to_numpy())]
+        grouper = col_g[ordered.index].to_numpy()
+        filled = ordered.groupby(grouper).ffill()
+        filled = filled.groupby(grouper).bfill()
+        return df.assign(**{name: filled[df.index]})
 
     def chunk(
         self,
@@ -569,6 +589,8 @@ class ChunkManager:
         df, start, stop, step = df[keep], start[keep], stop[keep], step[keep]
         if df.empty:  # Need to check again since NaN can wipe out df.
             return df.assign(_group=None), df.assign(_group=None)
+        df = self._fill_unknown_steps(df)
+        step = df[f"{self._name}_step"]
         dur, overlap = self._get_duration_overlap(self._value, start, step)
         # get group numbers
         group = self._get_group(df, start, stop, step)
diff --git a/dascore/utils/coordmanager.py b/dascore/utils/coordmanager.py
index 1a850ca..eab51e2 100644
--- a/dascore/utils/coordmanager.py
+++ b/dascore/utils/coordmanager.py
@@ -63,12 +63,24 @@ def merge_coord_managers(
         coords_to_drop = [x[0] for x in drop_coords]
         return [x.drop_coords(*coords_to_drop)[0] for x in managers]
 
+    def _same_coord(coord1, coord2):
+        """Determine if coords are equal, or only one knows its single value's step."""
+        if coord1 == coord2:
+            return True
+        # Whether a coord with one value has a step depends on how it was made.
+        return (
+            coord1.shape == coord2.shape == (1,)
+            and coord1.units == coord2.units
+            and coord1.dtype == coord2.dtype
+            and coord1.values[0] == coord2.values[0]
+        )
+
     def _get_non_merge_coords(managers, non_merger_names):
         """Ensure all non-merge coords are equal."""
         out = {}
         for coord_name in non_merger_names:
             first = managers[0].coord_map[coord_name]
-            if all([first == x.coord_map[coord_name] for x in managers]):
+            if all([_same_coord(first, x.coord_map[coord_name]) for x in managers]):
                 dims = managers[0].dim_map[coord_name]
                 out[coord_name] = (dims, first)
                 continue
diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index d109d8c..1ceff8e 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -405,12 +405,9 @@ def _get_merge_dim(df) -> str | None:
     dims = dims[0].split(",")
     dims_vary = pd.Series({x: False for x in dims})
     for dim in dims:
-        cols = [f"{dim}_min", f"{dim}_max", f"{dim}_step"]
-        vals = df[cols].values
-        vals_eq = vals == vals[[0], :]
-        vals_null = pd.isnull(vals)
-        columns_equal = (vals_eq | vals_null).all(axis=1)
-        dims_vary[dim] = not np.all(columns_equal)
+        # Null values (eg the step of a single value) don't count as different.
+        cols = [df[f"{dim}_{x}"].dropna() for x in ("min", "max", "step")]
+        dims_vary[dim] = any((col != col.iloc[0]).any() for col in cols if len(col))
     assert dims_vary.sum() <= 1, "Only one dimension can vary for forced merge"
     if not dims_vary.any():  # the case of complete overlap.
         return None
@@ -419,7 +416,8 @@ def _get_merge_dim(df) -> str | None:
 
 def _maybe_expected_step(df, dim):
     """Get the expected step if all steps are close, else None."""
-    col = df[f"{dim}_step"].values
+    # Coordinates with a single value have no step.
+    col = df[f"{dim}_step"].dropna().infer_objects().values
     if all_diffs_close_enough(col):
         return get_middle_value(col)
     return None
diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 10c422c..ceed0f1 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -504,7 +504,7 @@ def _remove_overlaps(df, name):
     _modified = old_modified | (corrected_starts != start)
     out = df.assign(**{min_name: corrected_starts, "_modified": _modified})
     # Rows inside of previous ones have nothing to add.
-    return out[corrected_starts <= stop]
+    return out[(corrected_starts <= stop) & ~(overlaps & (stop <= last_stop))]
 
 
 def _column_or_value(df, col, value):
-- 
2.43.0


From 91c2546edc6efbbe83b78fe292e3c85614bd7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 54/76] fix: limits of spool contents after select are those of
 the selected samples

---
 dascore/core/spool.py |  3 +++
 dascore/utils/pd.py   | 35 ++++++++++++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 38ca389..4646405 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -801,6 +801,9 @@ class DataFrameSpool(BaseSpool):
             ignore_bad_kwargs=True,
             **kwargs,
         ).loc[lambda x: x["current_index"].isin(filtered_df.index)]
+        # Without a known step, the limits may not include any of the sources.
+        if not filtered_df.empty:
+            filtered_df = filtered_df[filtered_df.index.isin(inst["current_index"])]
         source = adjust_segments(
             self._source_df.loc[inst.index.unique()],
             ignore_bad_kwargs=True,
diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index ceed0f1..b16c2cf 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -289,6 +289,29 @@ def yield_range_tuple_from_kwargs(df, kwargs) -> tuple[str, slice]:
         yield name, out
 
 
+def _snap_limits_to_samples(limit, start, step, func):
+    """
+    Move new limits to the samples (spaced by step from start) they include.
+
+    Rows with an unknown step simply use the limit. func is either np.ceil, for
+    lower limits, or np.floor for upper limits.
+    """
+    limits = pd.Series(limit, index=start.index)
+    known = (pd.notnull(step) & (step != step * 0)).to_numpy()
+    if not known.any():
+        return limits
+    start, step = start[known], step[known].abs()
+    num = (limits[known] - start) / step
+    # Limits which are on a sample, but for round-off, should include it.
+    close = (num - num.round()).abs() < 1e-6
+    if isinstance(limit, np.datetime64 | np.timedelta64 | pd.Timestamp | pd.Timedelta):
+        close = start + num.round() * step == limit
+    count = num.round().where(close, func(num))
+    snapped = limits.copy()
+    snapped[known] = (start + count * step).where(~close, limits[known])
+    return snapped
+
+
 def adjust_segments(df, ignore_bad_kwargs=False, **kwargs):
     """
     Filter a dataframe and adjust its limits.
@@ -309,14 +332,20 @@ def adjust_segments(df, ignore_bad_kwargs=False, **kwargs):
     # find slice kwargs, get series corresponding to interval columns
     for name, range_tuple in yield_range_tuple_from_kwargs(out, kwargs):
         val_min, val_max = order_range_tuple(range_tuple)
-        start, stop, _ = get_interval_columns(out, name)
+        start, stop, step = get_interval_columns(out, name)
         min_val = val_min if val_min is not None else start.min()
         max_val = val_max if val_max is not None else stop.max()
         too_small = start < min_val
         too_large = stop > max_val
-        out.loc[too_large, too_large.name] = max_val
-        out.loc[too_small, too_small.name] = min_val
+        # The limits of a segment are those of its first and last sample.
+        new_min = _snap_limits_to_samples(min_val, start, step, np.ceil)
+        new_max = _snap_limits_to_samples(max_val, start, step, np.floor)
+        out.loc[too_large, too_large.name] = new_max[too_large]
+        out.loc[too_small, too_small.name] = new_min[too_small]
         not_modified &= ~(too_small.values | too_large.values)
+        # Drop the segments which have no samples between the limits.
+        keep = ~(out[start.name] > out[stop.name])
+        out, not_modified = out[keep], not_modified[keep]
     return out.assign(_modified=~not_modified)
 
 
-- 
2.43.0


From 304888949827300de4746e9d8b359091e89d8f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 55/76] fix: successive selects on a coordinate the index does
 not store all apply

---
 dascore/core/spool.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 4646405..a57494f 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -41,6 +41,7 @@ from dascore.utils.misc import (
     _spool_map,
     broadcast_for_index,
     deep_equality_check,
+    order_range_tuple,
 )
 from dascore.utils.namespace import NamespaceOwner
 from dascore.utils.patch import (
@@ -62,6 +63,7 @@ from dascore.utils.pd import (
     get_dim_names_from_columns,
     split_df_query,
 )
+from dascore.utils.time import is_datetime64, is_timedelta64
 
 T = TypeVar("T")
 
@@ -116,6 +118,31 @@ def _estimate_merge_samples(df, dim) -> int | None:
     return int(counts.sum())
 
 
+def _combine_selects(old, new):
+    """Combine select kwargs so ranges of both old and new apply."""
+    out = {**old, **new}
+    for name in set(old) & set(new):
+        ranges = old[name], new[name]
+        if not all(isinstance(x, tuple | list) and len(x) == 2 for x in ranges):
+            continue
+        limits = [
+            order_range_tuple([None if x is ... or pd.isnull(x) else x for x in pair])
+            for pair in ranges
+        ]
+        low, high = ([x for x in bound if x is not None] for bound in zip(*limits))
+        low, high = max(low, default=None), min(high, default=None)
+        if low is not None and high is not None and low > high:
+            # The ranges are disjoint, so use limits which contain nothing.
+            if isinstance(low, str) or is_datetime64(low):
+                low = high = np.datetime64("2262-04-11", "ns")
+            elif is_timedelta64(low):
+                low = high = np.timedelta64(2**62, "ns")
+            else:
+                low = high = np.inf
+        out[name] = (low, high)
+    return out
+
+
 class BaseSpool(NamespaceOwner, abc.ABC):
     """Spool Abstract Base Class (ABC) for defining Spool interface."""
 
@@ -785,8 +812,7 @@ class DataFrameSpool(BaseSpool):
         new._instruction_df = instruction_df
         # Discard stale instruction indices (eg from copied caches).
         new._cache.pop("_instruction_indices", None)
-        new._select_kwargs = dict(self._select_kwargs)
-        new._select_kwargs.update(select_kwargs or {})
+        new._select_kwargs = _combine_selects(self._select_kwargs, select_kwargs or {})
         new._merge_kwargs = dict(self._merge_kwargs)
         new._merge_kwargs.update(merge_kwargs or {})
         return new
-- 
2.43.0


From 7fa31c31df85d392b3b3630f72774f5a90abb993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:04 +0000
Subject: [PATCH 56/76] fix: directory updates find files which were moved in
 with an old mtime

---
 dascore/utils/misc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index 3a5d2c8..074cbaf 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -213,6 +213,13 @@ def _get_nullish(dtype=np.floating):
     return np.nan
 
 
+def _get_change_time(entry: os.DirEntry) -> float:
+    """Get the last time a file was written, or put where it is."""
+    # Files keep their old mtime when they are moved, but not their ctime.
+    stat = entry.stat()
+    return max(stat.st_mtime, stat.st_ctime)
+
+
 def _iter_filesystem(
     paths: str | Path | Iterable[str | Path],
     ext: str | None = None,
@@ -233,7 +240,7 @@ def _iter_filesystem(
     ext : str or None
         The extensions of files to return.
     timestamp : int or float
-        Time stamp indicating the minimum mtime to scan.
+        Time stamp indicating the minimum mtime (or ctime) to scan.
     skip_hidden : bool
         If True skip files or folders (they begin with a '.')
     include_directories
@@ -255,7 +262,7 @@ def _iter_filesystem(
     try:  # a single path was passed
         for entry in os.scandir(paths):
             if entry.is_file() and (ext is None or entry.name.endswith(ext)):
-                if timestamp is None or entry.stat().st_mtime >= timestamp:
+                if timestamp is None or _get_change_time(entry) >= timestamp:
                     if entry.name[0] != "." or not skip_hidden:
                         yield entry.path
             elif entry.is_dir() and not (skip_hidden and entry.name[0] == "."):
-- 
2.43.0


From bd17b15ce98d3f5f31278634b41f20286c688c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:23 +0000
Subject: [PATCH 57/76] fix: index directories which mix files with and without
 a format version

---
 dascore/utils/pd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index b16c2cf..23094c3 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -448,7 +448,7 @@ def fill_defaults_from_pydantic(df, base_model: type[BaseModel]):
     """
     Fill missing columns in dataframe with defaults from base_model.
 
-    If the missing column has no default value, raise ValueError.
+    Null values are also filled in columns which default to strings. If the missing column has no default value, raise ValueError.
 
     Parameters
     ----------
@@ -464,6 +464,11 @@ def fill_defaults_from_pydantic(df, base_model: type[BaseModel]):
         msg = f"Missing required value: {required}"
         raise ValueError(msg)
     fill = {x: fields[x].default for x in missing}
+    # Rows from different sources can lack some values (eg the file version).
+    for name in set(fields) & set(df.columns):
+        default = fields[name].default
+        if isinstance(default, str) and (null := df[name].isnull()).any():
+            fill[name] = df[name].astype(object).where(~null, default)
     return df.assign(**fill)
 
 
-- 
2.43.0


From 2e389acdaa6a149e2ecf681f8c8f35b8a224c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:23 +0000
Subject: [PATCH 58/76] fix: directory spools include patches without time

---
 dascore/io/indexer.py | 11 ++++++++---
 dascore/utils/hdf5.py | 14 +++++++-------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index c4157dc..c02766c 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -21,7 +21,7 @@ from dascore.exceptions import InvalidIndexVersionError
 from dascore.utils.hdf5 import HDFPatchIndexManager
 from dascore.utils.misc import iterate
 from dascore.utils.pd import filter_df
-from dascore.utils.time import get_max_min_times, to_timedelta64
+from dascore.utils.time import get_max_min_times, to_datetime64, to_timedelta64
 
 # supported read_hdf5 kwargs
 READ_HDF5_KWARGS = frozenset(
@@ -179,7 +179,8 @@ class DirectoryIndexer(AbstractIndexer):
         # empty df.
         if not self.index_path.exists():
             return pd.DataFrame(columns=self._index_table.index_columns)
-        time_min, time_max = get_max_min_times(kwargs.pop("time", None))
+        time_range = kwargs.pop("time", None)
+        time_min, time_max = get_max_min_times(time_range)
         hdf5_kwargs, kwargs = self._separate_hdf5_kwargs(kwargs)
         buffer = to_timedelta64(buffer)
         # find out if the query falls within one cached times
@@ -196,6 +197,10 @@ class DirectoryIndexer(AbstractIndexer):
             self._set_cache(index, time_min, time_max, hdf5_kwargs)
         else:
             index = cached_index.iloc[0]["cindex"]
+        # Without a time query, keep everything (including patches without time).
+        no_limits = all(x is None or x is ... for x in time_range or ())
+        if no_limits:
+            return index[filter_df(index, ignore_bad_kwargs=True, **kwargs)]
         # trim down index
         con1 = index["time_min"] >= (time_max + buffer)
         con2 = index["time_max"] <= (time_min - buffer)
@@ -337,7 +342,7 @@ class DirectoryIndexer(AbstractIndexer):
             # guarantee all spools will be sorted but we can make sure most are
             # by sorting the contents before dumping to index.
             if "time_min" in df.columns:
-                df = df.sort_values("time_min").reset_index(drop=True)
+                df = df.sort_values("time_min", key=to_datetime64).reset_index(drop=True)
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
             self._index_table.write_update(df, update_time, base_path=self.path)
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 503c029..51edc93 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -218,15 +218,11 @@ class HDFPatchIndexManager:
         """Encode the table for writing to hdf5."""
         # apply column encoders, make paths relative to reference path
         # and drop any non-index columns.
-        cols = set(df.columns)
+        df = fill_defaults_from_pydantic(df, self._base_model)
         for col, func in self._column_encoders.items():
-            if col not in cols:
-                continue
             df[col] = func(df[col])
-        out = (
-            df.pipe(fill_defaults_from_pydantic, self._base_model)
-            .loc[:, list(self.index_columns)]
-            .assign(path=lambda x: _remove_base_path(x["path"], path))
+        out = df.loc[:, list(self.index_columns)].assign(
+            path=lambda x: _remove_base_path(x["path"], path)
         )
         # there shouldn't be any null values in index now
         assert not out.isnull().any().any(), "null values found in index"
@@ -267,7 +263,11 @@ class HDFPatchIndexManager:
             else:
                 return df
 
+        lowest, highest = get_max_min_times()
         time_min, time_max = get_max_min_times((time_min, time_max))
+        if time_min <= lowest and time_max >= highest:
+            # No limits; also get the patches without a (valid) time.
+            return self.decode_table(_get_index(None, **kwargs))
         where = _get_kernel_query(
             time_min.view(np.int64),
             time_max.view(np.int64),
-- 
2.43.0


From 96a2cb2f73825a1701f86a93bc5cfbd3fb60c8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:23 +0000
Subject: [PATCH 59/76] fix: updating the index replaces rows of rewritten
 files and allows long paths

---
 dascore/utils/hdf5.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 51edc93..0b853c8 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -287,20 +287,39 @@ class HDFPatchIndexManager:
         update_time = update_time or time.time()
         df = self.encode_table(update_df.copy(), path=base_path)
         with _HDF5Store(self.path) as store:
+            self._remove_stale_rows(store, df["path"])
             try:
                 nrows = store.get_storer(self._index_node).nrows
             except (AttributeError, KeyError):
-                store.append(
-                    self._index_node,
-                    df,
-                    min_itemsize=self._min_itemsize,
-                    **self.hdf_kwargs,
-                )
+                self._create_table(store, df)
             else:
                 df.index += nrows
-                store.append(self._index_node, df, append=True, **self.hdf_kwargs)
+                try:
+                    store.append(self._index_node, df, append=True, **self.hdf_kwargs)
+                except ValueError:
+                    # A string doesn't fit in its column, make a wider table.
+                    df = pd.concat([store.select(self._index_node), df])
+                    store.remove(self._index_node)
+                    self._create_table(store, df.reset_index(drop=True))
             self._update_metadata(store, update_time)
 
+    def _create_table(self, store, df):
+        """Create the index table; strings can be longer than the minimum size."""
+        store.append(
+            self._index_node, df, min_itemsize=self._min_itemsize, **self.hdf_kwargs
+        )
+
+    def _remove_stale_rows(self, store, paths):
+        """Remove rows from the index describing the old contents of paths."""
+        if self._index_node not in store:
+            return
+        old = store.select(self._index_node, columns=["path"])["path"]
+        stale = np.flatnonzero(old.isin(paths))
+        if len(stale) and len(stale) == len(old):
+            store.remove(self._index_node)
+        elif len(stale):
+            store.remove(self._index_node, where=pd.Index(stale))
+
     def _update_metadata(self, store, update_time):
         # update timestamp
         update_time = time.time() if update_time is None else update_time
-- 
2.43.0


From 3a638be81e36e3ff7f4b8e91b2c74e6a96df3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:07 +0000
Subject: [PATCH 60/76] fix: coordinates without units keep their dtype when
 units are set, length-1 ranges their exact limits

---
 dascore/core/coords.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index a795393..e65903d 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1281,6 +1281,9 @@ class CoordRange(BaseCoord):
         # cant convert time units
         if dtype_time_like(self.dtype):
             return self
+        # Without units there is nothing to convert; the values don't change.
+        if self.units is None:
+            return self.set_units(units)
         out = dict(units=units)
         start = convert_units(self.start, to_units=units, from_units=self.units)
         stop = convert_units(self.stop, to_units=units, from_units=self.units)
@@ -1403,12 +1406,16 @@ class CoordRange(BaseCoord):
 
     def _min(self):
         """Return min value."""
+        if len(self) == 1:  # avoid round-off, the start is the only value.
+            return self.start
         return np.min([self.start, self.stop - self.step])
 
     def _max(self):
         """Return max value in range."""
         # like range, coord range is exclusive of final value.
         # the min/max are needed for reverse sorted coord.
+        if len(self) == 1:
+            return self.start
         return np.max([self.stop - self.step, self.start])
 
     @compose_docstring(doc=BaseCoord.change_length.__doc__)
-- 
2.43.0


From 9ba5bf8867475dcb21c57a5b49a48109f0cc0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 61/76] fix: conversions to/from obspy, xarray and dataframes
 keep exact times and clean attributes

---
 dascore/utils/io.py | 41 +++++++++++++++++++++++++++++++++++------
 dascore/utils/pd.py |  5 ++++-
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index 543e1b6..294075d 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -170,10 +170,14 @@ def patch_to_xarray(patch: PatchType):
     patch_dims = patch.dims
     coords = {}
     for name, coord in patch.coords.coord_map.items():
-        if coord._partial:
-            continue
         dims = patch.coords.dim_map[name]
+        # data arrays can't have coords without values or (for arrays) dims.
+        if coord._partial or len(dims) != coord.ndim:
+            continue
         coords[name] = (dims, coord.values)
+    # The attrs shouldn't describe coords, not tied to a dim, which were skipped.
+    loose = {i for i, dims in patch.coords.dim_map.items() if not dims} - set(coords)
+    attrs["coords"] = {i: v for i, v in attrs["coords"].items() if i not in loose}
     # Need to exclude non-coords
     return xr.DataArray(patch.data, attrs=attrs, dims=patch_dims, coords=coords)
 
@@ -209,9 +213,18 @@ def patch_to_obspy(patch: PatchType):
         """Ensure the patch can be converted to a stream else raise."""
         is_2d = len(patch.dims) == 2
         has_time = "time" in patch.dims
-        if not has_time and is_2d:
+        if not (has_time and is_2d):
             msg = "Can only convert 2d patches with a time dimension to stream."
             raise PatchConversionError(msg)
+        # Traces only have a (absolute) start time and a sampling rate.
+        coord = patch.get_coord("time")
+        is_datetime = np.issubdtype(coord.dtype, np.datetime64)
+        if not is_datetime or coord.step is None or not to_float(coord.step) > 0:
+            msg = (
+                "Can only convert patches whose time coordinate has evenly "
+                "sampled, increasing datetimes to stream."
+            )
+            raise PatchConversionError(msg)
 
     def _get_time_stats(patch):
         """Get stats dict with time values."""
@@ -221,8 +234,8 @@ def patch_to_obspy(patch: PatchType):
         dt = np.timedelta64(1, "s") / coord.step
 
         time_stats = {
-            "starttime": obspy.UTCDateTime(str(tmin)),
-            "endtime": obspy.UTCDateTime(str(tmax)),
+            "starttime": obspy.UTCDateTime(ns=int(tmin.astype(np.int64))),
+            "endtime": obspy.UTCDateTime(ns=int(tmax.astype(np.int64))),
             "sampling_rate": to_float(dt),
         }
         return time_stats
@@ -270,11 +283,27 @@ def obspy_to_patch(stream, dim="distance") -> PatchType:
                 f"dicts {dim} or with traces of different lengths to a Patch"
             )
             raise PatchConversionError(msg)
+        # a patch has one time coordinate, so the times of traces must agree.
+        first = stream[0].stats
+        max_ns = first.delta * 100_000_000
+        for stats in (x.stats for x in stream):
+            same_start = abs(stats.starttime.ns - first.starttime.ns) <= max_ns
+            same_end = abs(stats.endtime.ns - first.endtime.ns) <= max_ns
+            if not (same_start and same_end):
+                msg = "Cannot convert stream with traces of different times to a Patch"
+                raise PatchConversionError(msg)
+
+    def _get_time_array(tr):
+        """Get the times of a trace with ns precision."""
+        offset = np.rint(np.arange(len(tr.data)) * tr.stats.delta * 1_000_000_000)
+        start = np.datetime64(tr.stats.starttime.ns, "ns")
+        return start + offset.astype("timedelta64[ns]")
 
     def _get_attrs(tr):
         """Get stats from one of the traces."""
         # these are mainly obspy-specific things.
         to_remove = {"starttime", "endtime", "sampling_rate", "delta", "npts", "calib"}
+        to_remove.add(dim)  # it is in the coordinates.
         attrs = {i: v for i, v in tr.stats.items() if i not in to_remove}
         return attrs
 
@@ -291,7 +320,7 @@ def obspy_to_patch(stream, dim="distance") -> PatchType:
     dims = (dim, "time")
     coords = {
         dim: ((dim,), np.asarray(new_dim)),
-        "time": (("time",), dc.to_datetime64(tr.times("timestamp"))),
+        "time": (("time",), _get_time_array(stream[0])),
     }
     attrs = _get_attrs(tr)
     patch = dc.Patch(
diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 23094c3..475bc08 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -598,6 +598,8 @@ def patch_to_dataframe(patch: PatchType) -> pd.DataFrame:
     df = pd.DataFrame(patch.data, index=index_values, columns=col_values)
     # assign index names and attrs
     df.attrs = patch.attrs.model_dump()
+    # Only the coordinates of the dimensions are in the dataframe.
+    df.attrs["coords"] = {i: v for i, v in df.attrs["coords"].items() if i in dims}
     df.index.name = dims[0]
     df.columns.name = dims[1]
     return df
@@ -625,7 +627,8 @@ def dataframe_to_patch(
         dims = (df.index.name, df.columns.name)
         invalid_df_dims = any(x is None or x == "" for x in dims)
         if attrs is not None and invalid_df_dims:
-            dims = attrs.get("dims", (None, None))
+            dims = attrs.get("dims") or (None, None)
+            dims = tuple(dims.split(",")) if isinstance(dims, str) else tuple(dims)
         if any(x is None or x == "" for x in dims):
             msg = (
                 "Dimension names not found. Both columns and index must have "
-- 
2.43.0


From 8cae49f943c6e03bca5184eedf8c632736436460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 62/76] fix: selecting nothing from an unsorted coordinate
 works for stored arrays

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index e65903d..2202cd1 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1497,8 +1497,9 @@ class CoordArray(BaseCoord):
             out = out & (values >= val1)
         if val2 is not None:
             out = out & (values <= val2)
+        # Boolean arrays don't work on all arrays (eg of pytables), slices do.
         if not np.any(out):
-            return self.empty(), out
+            return self.empty(), slice(0, 0)
         if np.all(out):
             return self, slice(None, None)
         # Convert boolean to int indexes because these are supported for
-- 
2.43.0


From 634c705f9aeeb5e42e4a1537d13c211fb51e928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 63/76] fix: scanning skips corrupt files whatever error they
 cause, default scans report the version

---
 dascore/io/core.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index c80b96d..31e93fd 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -510,6 +510,7 @@ class FiberIO:
         for pa in spool:
             new = pa.attrs.update(
                 file_format=self.name,
+                file_version=self.version,
                 path=str(resource),
             )
             out.append(new)
@@ -760,8 +761,12 @@ def _get_fiber_io_and_req_type(
         format=file_format_, version=file_version_
     )
     req_type = getattr(fiber_io_hint.scan, "_required_type", None)
-    resource = manager.get_resource(req_type)
     # this will get the required resource type to pass to scan.
+    try:
+        resource = manager.get_resource(req_type)
+    except Exception as exc:
+        msg = f"Failed to open {manager.source}: {exc}"
+        raise InvalidFiberFileError(msg) from exc
     return fiber_io_hint, resource
 
 
@@ -879,6 +884,9 @@ def scan(
                     )
                 except UnknownFiberFormatError:  # skip bad entities
                     continue
+                except InvalidFiberFileError:  # the file can't be opened.
+                    warnings.warn(f"Failed to scan {patch_source}", UserWarning)
+                    continue
                 # Cache this fiber io to given preferential treatment next
                 # iteration. This speeds up the common case of many files
                 # with the same format.
@@ -898,13 +906,14 @@ def scan(
                 else:
                     try:
                         source = fiber_io.scan(resource, _pre_cast=True)
-                    # This happens if the file is corrupt see #346.
-                    except (OSError, InvalidFiberFileError, ValueError, TypeError):
-                        warnings.warn(f"Failed to scan {resource}", UserWarning)
-                        continue
                     except MissingOptionalDependencyError as ex:
                         missing_optional_deps[ex.msg.split(" ")[0]] += 1
                         continue
+                    # This happens if the file is corrupt see #346. The errors
+                    # depend on the format and the libraries it uses.
+                    except Exception:
+                        warnings.warn(f"Failed to scan {man.source}", UserWarning)
+                        continue
                 for attr in source:
                     out.append(dc.PatchAttrs.from_dict(attr))
     # Ensure ctl + c exists scan.
-- 
2.43.0


From da18a283d1f0876bb6bfcfc2fb879c8e281f59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 64/76] fix: write rsf files of single samples or without
 units, refuse uneven coordinates

---
 dascore/io/rsf/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dascore/io/rsf/core.py b/dascore/io/rsf/core.py
index 5e9de15..36e8b72 100644
--- a/dascore/io/rsf/core.py
+++ b/dascore/io/rsf/core.py
@@ -8,6 +8,7 @@ from pathlib import Path
 import numpy as np
 
 import dascore as dc
+from dascore.exceptions import PatchError
 from dascore.io.core import FiberIO
 from dascore.utils.time import to_float
 
@@ -58,10 +59,15 @@ class RSFV1(FiberIO):
         assert len(spool) == 1
         patch = spool[0]
         axis_lengs = patch.shape
-        axis_origs = [to_float(patch.get_coord(x).start) for x in patch.dims]
-        axis_steps = [to_float(patch.get_coord(x).step) for x in patch.dims]
+        coords = [patch.get_coord(x) for x in patch.dims]
+        if not all(len(x) == 1 or x.evenly_sampled for x in coords):
+            msg = "Only patches with evenly sampled dimensions can be written to rsf."
+            raise PatchError(msg)
+        axis_origs = [to_float(x.values[0]) for x in coords]
+        # A single sample has no step.
+        axis_steps = [1.0 if x.step is None else to_float(x.step) for x in coords]
         axis_names = patch.dims
-        axis_units = [patch.get_coord(x).units.units for x in patch.dims]
+        axis_units = ["" if x.units is None else x.units.units for x in coords]
 
         data = patch.data
         dtype = np.dtype(data.dtype)
-- 
2.43.0


From ef2869e14ab775c897ac98dfe3136a6c2b2ff0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 65/76] fix: segy files of one channel are written, unsuitable
 sampling refused, corrupt files reported

---
 dascore/io/segy/core.py  |  5 +++--
 dascore/io/segy/utils.py | 30 ++++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/dascore/io/segy/core.py b/dascore/io/segy/core.py
index bec9dc6..17da028 100644
--- a/dascore/io/segy/core.py
+++ b/dascore/io/segy/core.py
@@ -12,6 +12,7 @@ from .utils import (
     _get_coords,
     _get_filtered_data_and_coords,
     _get_segy_version,
+    _open_segy,
     _write_segy,
 )
 
@@ -41,7 +42,7 @@ class SegyV1_0(FiberIO):  # noqa
         be implemented as well.
         """
         segyio = optional_import(self._package_name)
-        with segyio.open(path, ignore_geometry=True) as fi:
+        with _open_segy(segyio, path) as fi:
             coords = _get_coords(fi)
             attrs = _get_attrs(fi, coords, path, self)
             data, coords = _get_filtered_data_and_coords(
@@ -63,7 +64,7 @@ class SegyV1_0(FiberIO):  # noqa
         format-specific subclass.
         """
         segyio = optional_import(self._package_name)
-        with segyio.open(path, ignore_geometry=True) as fi:
+        with _open_segy(segyio, path) as fi:
             coords = _get_coords(fi)
             attrs = _get_attrs(fi, coords, path, self)
         return [attrs]
diff --git a/dascore/io/segy/utils.py b/dascore/io/segy/utils.py
index 8306694..d661ec1 100644
--- a/dascore/io/segy/utils.py
+++ b/dascore/io/segy/utils.py
@@ -13,7 +13,7 @@ import pandas as pd
 import dascore as dc
 from dascore import to_float
 from dascore.core import get_coord_manager
-from dascore.exceptions import InvalidSpoolError, PatchError
+from dascore.exceptions import InvalidFiberFileError, InvalidSpoolError, PatchError
 from dascore.utils.misc import optional_import
 
 
@@ -70,6 +70,20 @@ def _get_segy_version(fp):
         return False
 
 
+def _open_segy(segyio, path):
+    """Open a segy file, raise InvalidFiberFileError if it is corrupt."""
+    try:
+        out = segyio.open(path, ignore_geometry=True)
+    except (RuntimeError, IndexError) as exc:
+        msg = f"{path} is not a valid segy file: {exc}"
+        raise InvalidFiberFileError(msg) from exc
+    if not out.tracecount:
+        out.close()
+        msg = f"The segy file {path} has no traces."
+        raise InvalidFiberFileError(msg)
+    return out
+
+
 def _get_filtered_data_and_coords(segy_fi, coords, time=None, channel=None):
     """
     Read data from segy_file, possibly reading only subsections.
@@ -196,6 +210,9 @@ def _get_segy_compatible_patch(spool, round_error_max=3e-9):
     # Currently we only support channels not distance dimension.
     if "channel" not in dims:
         patch = _get_patch_with_channel_coord(patch)
+    if pd.isnull(patch.get_coord("time").step):
+        msg = "Can only save patches with evenly sampled times to SEGY."
+        raise PatchError(msg)
     # Ensure there will be no loss in the time sampling.
     # segy supports us precision
     time_step = dc.to_float(patch.get_coord("time").step)
@@ -209,6 +226,14 @@ def _get_segy_compatible_patch(spool, round_error_max=3e-9):
             "patch.update_coords or resample the time axis with patch.resample"
         )
         raise PatchError(msg)
+    # The sampling interval and number of samples are 16 bit integers.
+    max_int = np.iinfo(np.int16).max
+    if len(patch.get_coord("time")) > max_int or new_samp * 1_000_000 > max_int:
+        msg = (
+            f"The segy format supports at most {max_int} samples in time, and "
+            f"sampling intervals of at most {max_int} us."
+        )
+        raise PatchError(msg)
     return patch.transpose("channel", "time")
 
 
@@ -238,7 +263,8 @@ def _write_segy(spool, resource, version, segyio):
     """
     patch = _get_segy_compatible_patch(spool)
     time, channel = patch.get_coord("time"), patch.get_coord("channel")
-    channel_step = channel.step
+    # A single channel has no step.
+    channel_step = 0 if pd.isnull(channel.step) else channel.step
 
     time_dict = _make_time_header_dict(time)
     bin_field = segyio.BinField
-- 
2.43.0


From 8a7b6248846f6360a85ff9ee0502e14cf9be15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 66/76] fix: time-range reads of Febus files no longer shift by
 a sample, and combine with distance

---
 dascore/io/febus/a1utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dascore/io/febus/a1utils.py b/dascore/io/febus/a1utils.py
index 5788db0..969d222 100644
--- a/dascore/io/febus/a1utils.py
+++ b/dascore/io/febus/a1utils.py
@@ -309,9 +309,7 @@ def _get_data_new_cm(cm, febus, distance=None, time=None):
         """Get a 2d array where columns are start/end times for each block."""
         block_count = data_shape[0]
         block_duration = total_time_rows * time_coord.step
-        start = (
-            np.arange(block_count) * block_duration + time_coord.step
-        ) + time_coord.min()
+        start = np.arange(block_count) * block_duration + time_coord.min()
         end = start + block_duration
         return np.stack([start, end], axis=-1)
 
@@ -331,7 +329,9 @@ def _get_data_new_cm(cm, febus, distance=None, time=None):
         stop = np.argmax(np.cumsum(in_time)) + (1 if len(times) else 0)
         total_slice[0] = slice(start, stop)
         # load data from disk.
-        data_2d = data[tuple(total_slice)].reshape(-1, data.shape[-1])
+        data_3d = data[tuple(total_slice)]
+        block_count, block_size, dist_count = data_3d.shape
+        data_2d = data_3d.reshape(block_count * block_size, dist_count)
         # Bail out early, no size on array.
         if not data_2d.size:
             return data_2d, time_coord.empty()
-- 
2.43.0


From dec6e8b762442aac5345d7306a59c77749873280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 67/76] fix: TDMS files of several chunks and segments are read
 in order and completely

---
 dascore/io/tdms/utils.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/dascore/io/tdms/utils.py b/dascore/io/tdms/utils.py
index 51f39ee..5417ce5 100644
--- a/dascore/io/tdms/utils.py
+++ b/dascore/io/tdms/utils.py
@@ -169,6 +169,23 @@ def _get_distance_coord(attr):
     return d_coord
 
 
+def _get_sample_count(tdms_file, fileinfo, lead_in_length=28):
+    """Get the number of samples of each channel in all the file's segments."""
+    position = tdms_file.tell()
+    file_size = fileinfo["file_size"]
+    sample_size = fileinfo["n_channels"] * np.dtype(fileinfo["data_type"]).itemsize
+    start, stop = fileinfo["raw_data_offset"], fileinfo["next_segment_offset"]
+    out = (stop - start) // sample_size
+    while stop < file_size:
+        tdms_file.seek(stop + 12, 0)
+        next_offset, raw_offset = struct.unpack("<QQ", tdms_file.read(16))
+        start = min(file_size, stop + lead_in_length + raw_offset)
+        stop = min(file_size, stop + lead_in_length + next_offset)
+        out += (stop - start) // sample_size
+    tdms_file.seek(position, 0)
+    return out
+
+
 def _get_all_attrs(tdms_file, lead_in_length=28):
     """Return all the attributes which can be fetched from attributes."""
     # read leadin information into fileinfo
@@ -219,13 +236,7 @@ def _get_all_attrs(tdms_file, lead_in_length=28):
     fileinfo["data_type"] = TDS_DATA_TYPE.get(struct.unpack("<i", tdms_file.read(4))[0])
     if fileinfo["data_type"] not in ("int16", "float32"):
         raise Exception("Unsupported TDMS data type: " + fileinfo["data_type"])
-    # get number of samples by dividing amount of unread data by the
-    # size of data per channel
-    numofsamples = (
-        (fileinfo["file_size"] - fileinfo["raw_data_offset"])
-        / n_channels
-        / np.dtype(fileinfo["data_type"]).itemsize
-    )
+    numofsamples = _get_sample_count(tdms_file, fileinfo, lead_in_length)
     t_coord = _get_time_coord(out, numofsamples)
     out["coords"] = {"time": t_coord, "distance": d_coord}
     out.update(t_coord.get_attrs_dict("time"))
@@ -265,8 +276,8 @@ def _get_data(tdms_file, lead_in_length=28):
             buffer=dmap,
             offset=rdo,
         )
-        # Rotate the axes to [chunk_size, nblk, nch]
-        raw_data = np.rollaxis(raw_data, 2)
+        # Rotate the axes to [nblk, chunk_size, nch]
+        raw_data = np.rollaxis(raw_data, 2, 1)
         data_node = np.reshape(raw_data, (n_complete_blk * fileinfo["chunk_size"], nch))
         if n_complete_blk != seg_length / fileinfo["chunk_size"]:
             # If the last chunk isn't full there is some data left
@@ -290,7 +301,7 @@ def _get_data(tdms_file, lead_in_length=28):
             # Rotate the axes to [samples, nch]
             raw_last_chunk = np.rollaxis(raw_last_chunk, 1)
             data_node = np.append(data_node, raw_last_chunk, axis=0)
-            return data_node, channel_length
+        return data_node, channel_length
 
     fileinfo, attrs = _get_fileinfo(tdms_file)
 
@@ -313,11 +324,11 @@ def _get_data(tdms_file, lead_in_length=28):
             flag = 1
         else:
             tdms_file.seek(nso + 12, 0)
-            (next_seg_nso, next_seg_rdo) = struct.unpack("<qq", tdms_file.read(2 * 8))
+            (next_seg_nso, next_seg_rdo) = struct.unpack("<QQ", tdms_file.read(2 * 8))
             rdo = min(fileinfo["file_size"], nso + lead_in_length + next_seg_rdo)
             nso = min(fileinfo["file_size"], nso + lead_in_length + next_seg_nso)
         try:
-            data_node = np.append(data_node, cdata_node, axis=1)
+            data_node = np.append(data_node, cdata_node, axis=0)
             channel_length += cchannel_length
         except NameError:
             data_node = cdata_node
-- 
2.43.0


From 7d1890ddd7077064a3027e0b27d53fb0991e6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 68/76] fix: xml_binary patches keep the units and attributes
 of the file

---
 dascore/io/xml_binary/core.py  | 1 -
 dascore/io/xml_binary/utils.py | 8 ++++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dascore/io/xml_binary/core.py b/dascore/io/xml_binary/core.py
index c93be02..6cec6fb 100644
--- a/dascore/io/xml_binary/core.py
+++ b/dascore/io/xml_binary/core.py
@@ -21,7 +21,6 @@ class BinaryPatchAttrs(dc.PatchAttrs):
     pulse_width_ns: float = np.nan
     gauge_length: float = np.nan
     instrument_id: UTF8Str = ""
-    distance_units: UTF8Str = ""
     zone_name: UTF8Str = ""
 
 
diff --git a/dascore/io/xml_binary/utils.py b/dascore/io/xml_binary/utils.py
index a9dc9b5..4d34308 100644
--- a/dascore/io/xml_binary/utils.py
+++ b/dascore/io/xml_binary/utils.py
@@ -151,10 +151,10 @@ def _paths_to_df(paths, metadata, attr_cls):
     return _model_list_to_df(attrs)
 
 
-def _read_single_file(path, metadata, time, distance):
+def _read_single_file(path, metadata, time, distance, attr_cls=dc.PatchAttrs):
     """Read a single file into a patch."""
     assert not metadata.transposed_data, "Cant handle data transposition yet."
-    attr = _paths_to_attrs(path, metadata, summarize=False)[0]
+    attr = _paths_to_attrs(path, metadata, summarize=False, attr_cls=attr_cls)[0]
     time_coord = attr.coords["time"].to_coord()
     distance_coord = attr.coords["distance"].to_coord()
     cm = get_coord_manager(
@@ -169,7 +169,7 @@ def _read_single_file(path, metadata, time, distance):
         data=data,
         dims=attr.dim_tuple,
         coords=cm,
-        attrs=attr.update(coord=None),
+        attrs=attr,
     )
     return patch.select(time=time, distance=distance)
 
@@ -178,7 +178,7 @@ def _load_patches(paths, metadata, time, distance, attr_cls):
     """Load the data file or file into a patch."""
     # Fast case for single file.
     if isinstance(paths, Path) and paths.is_file():
-        return _read_single_file(paths, metadata, time, distance)
+        return _read_single_file(paths, metadata, time, distance, attr_cls)
     # Since there could be **MANY** files, we have to create a mini-index
     # here to determine which files to read. Under normal circumstances
     # this isn't required as a spool can manage it.
-- 
2.43.0


From 19e6aefdf2e3b0e35b7f2bb54d724617cf67ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 69/76] fix: Neubrex scans and reads keep the declared fields
 and exact time stamps

---
 dascore/io/neubrex/core.py      | 10 +++++-----
 dascore/io/neubrex/utils_rfs.py |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dascore/io/neubrex/core.py b/dascore/io/neubrex/core.py
index d9b7fb5..1d44ed7 100644
--- a/dascore/io/neubrex/core.py
+++ b/dascore/io/neubrex/core.py
@@ -18,7 +18,7 @@ class NeubrexRFSPatchAttrs(dc.PatchAttrs):
     """Patch attrs for Neubrex files."""
 
     api: str | None = None
-    filed_name: str = ""
+    field_name: str = ""
     well_id: str = ""
     well_name: str = ""
     well_bore_id: str = ""
@@ -29,7 +29,7 @@ class NeubrexDASPatchAttrs(dc.PatchAttrs):
 
     gauge_length: float = 0
     gauge_length_units: str = ""
-    index_of_reflection: float = 1.46
+    index_of_refraction: float = 1.46
     triggered_time: np.datetime64 | None = None
     phase_to_strain: float | None = None
     instrument_model: str = ""
@@ -84,7 +84,7 @@ class NeubrexRFSV1(FiberIO):
         attrs["path"] = resource.filename
         attrs["file_format"] = self.name
         attrs["file_version"] = self.version
-        return [dc.PatchAttrs(**attrs)]
+        return [NeubrexRFSPatchAttrs(**attrs)]
 
 
 class NeubrexDASV1(FiberIO):
@@ -120,7 +120,7 @@ class NeubrexDASV1(FiberIO):
             cm, data = das_utils._maybe_trim_data(cm, data, **kwargs)
         if not data.size:
             return dc.spool([])
-        attrs = NeubrexRFSPatchAttrs(**attr_dict)
+        attrs = NeubrexDASPatchAttrs(**attr_dict)
         patch = dc.Patch(coords=cm, data=data[:], attrs=attrs)
         return dc.spool([patch])
 
@@ -131,4 +131,4 @@ class NeubrexDASV1(FiberIO):
         attrs["path"] = resource.filename
         attrs["file_format"] = self.name
         attrs["file_version"] = self.version
-        return [dc.PatchAttrs(**attrs)]
+        return [NeubrexDASPatchAttrs(**attrs)]
diff --git a/dascore/io/neubrex/utils_rfs.py b/dascore/io/neubrex/utils_rfs.py
index 9fcb37b..78210e7 100644
--- a/dascore/io/neubrex/utils_rfs.py
+++ b/dascore/io/neubrex/utils_rfs.py
@@ -22,7 +22,8 @@ def _get_coord_manager(h5fi, snap=True):
     def _get_time_coord(h5fi, snap):
         """Get the time coordinate."""
         # Unix stamps are in us for test files, not sure if always true.
-        unix_stamps = dc.to_datetime64(h5fi["stamps_unix"][:] / 1_000_000)
+        stamps = h5fi["stamps_unix"][:].astype("int64").astype("datetime64[us]")
+        unix_stamps = dc.to_datetime64(stamps)
         time_coord = dc.get_coord(values=unix_stamps)
         if snap:
             time_coord = time_coord.snap()
-- 
2.43.0


From 585af628b0d124f05d8610c7ac4d73ce6755adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 70/76] fix: segy reads which select no channel return an empty
 patch section

---
 dascore/io/segy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/io/segy/utils.py b/dascore/io/segy/utils.py
index d661ec1..23041ee 100644
--- a/dascore/io/segy/utils.py
+++ b/dascore/io/segy/utils.py
@@ -109,6 +109,9 @@ def _get_filtered_data_and_coords(segy_fi, coords, time=None, channel=None):
 
     # filter channels
     data_list = [traces[x][time_slice] for x in traces_inds_to_read]
+    if not data_list:  # no channel has been selected
+        shape = tuple(len(coords.coord_map[x]) for x in coords.dims)
+        return np.empty(shape, dtype=traces.dtype), coords
     return np.stack(data_list, axis=-1), coords
 
 
-- 
2.43.0


From 7a06b160254cb2c408fe059d258921e9d172bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 71/76] fix: vendor HDF5 files with one sample are read and
 scanned

---
 dascore/io/gdr/core.py       | 3 ++-
 dascore/io/gdr/utils_das.py  | 2 ++
 dascore/io/h5simple/utils.py | 2 +-
 dascore/io/prodml/utils.py   | 2 ++
 dascore/io/terra15/utils.py  | 8 ++++++--
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dascore/io/gdr/core.py b/dascore/io/gdr/core.py
index 7bf5957..96c54d2 100644
--- a/dascore/io/gdr/core.py
+++ b/dascore/io/gdr/core.py
@@ -66,7 +66,8 @@ class GDR_V1(FiberIO):  # noqa
         """Get the attributes of a resource belong to this type."""
         attrs, cm, data = _get_attrs_coords_and_data(resource, snap)
         attrs["coords"] = cm.to_summary_dict()
+        attrs["dims"] = cm.dims
         attrs["path"] = resource.filename
         attrs["file_format"] = self.name
         attrs["file_version"] = self.version
-        return [dc.PatchAttrs(**attrs)]
+        return [GDRPatchAttrs(**attrs)]
diff --git a/dascore/io/gdr/utils_das.py b/dascore/io/gdr/utils_das.py
index b278ce2..e7e6b3f 100644
--- a/dascore/io/gdr/utils_das.py
+++ b/dascore/io/gdr/utils_das.py
@@ -65,6 +65,8 @@ def _get_coord_manager(resource, snap=True):
         if not snap:
             return get_coord(data=np.array(time).astype("datetime64[ns]"))
         t1 = np.int64(time[0]).astype("datetime64[ns]")
+        if len(time) == 1:  # there is no step for a single sample.
+            return get_coord(data=np.array([t1]))
         t2 = np.int64(time[-1]).astype("datetime64[ns]")
         step = (t2 - t1) / (len(time) - 1)
         return get_coord(start=t1, stop=t2, step=step).change_length(len(time))
diff --git a/dascore/io/h5simple/utils.py b/dascore/io/h5simple/utils.py
index 177c5d9..0f88ac8 100644
--- a/dascore/io/h5simple/utils.py
+++ b/dascore/io/h5simple/utils.py
@@ -37,7 +37,7 @@ def _get_attrs_coords_and_data(h5, snap, fiber_io):
 
 def _get_coord(v, snap, name):
     """Get the coord values from a node."""
-    if snap:
+    if snap and len(v) > 1:
         start = v[0] if name != "time" else dc.to_datetime64(v[0])
         stop = v[-1] if name != "time" else dc.to_datetime64(v[-1])
         duration = stop - start
diff --git a/dascore/io/prodml/utils.py b/dascore/io/prodml/utils.py
index ca2272d..d47c4e0 100644
--- a/dascore/io/prodml/utils.py
+++ b/dascore/io/prodml/utils.py
@@ -138,6 +138,8 @@ def _get_time_coord(node):
     time_attrs = time_array.attrs
     start_str = unbyte(time_attrs["PartStartTime"]).split("+")[0]
     start = dc.to_datetime64(start_str.rstrip("Z"))
+    if array_len == 1:  # a single sample has no step.
+        return get_coord(values=np.array([start]), units="s")
     end_str = unbyte(time_attrs["PartEndTime"]).split("+")[0]
     end = dc.to_datetime64(end_str.rstrip("Z"))
     step = (end - start) / (array_len - 1)
diff --git a/dascore/io/terra15/utils.py b/dascore/io/terra15/utils.py
index 85e8327..c6d7c88 100644
--- a/dascore/io/terra15/utils.py
+++ b/dascore/io/terra15/utils.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+import numpy as np
+
 import dascore as dc
 from dascore.constants import timeable_types
 from dascore.core import Patch
@@ -59,7 +61,7 @@ def _get_scanned_time_info(data_node):
         tmin, tmax = time_filtered[0], time_filtered[-1]
     # surprisingly, using gps time column, dt is much different than dt
     # reported in data attrs so we calculate it this way.
-    dt = (tmax - tmin) / (t_len - 1)
+    dt = (tmax - tmin) / max(t_len - 1, 1)
     starttime = to_datetime64(tmin)
     time_step = to_timedelta64(dt)
     endtime = starttime + time_step * (t_len - 1)
@@ -167,7 +169,9 @@ def _get_default_attrs(root_node_attrs):
 def _get_time_coord(data_node, snap_dims=True):
     """Get the time coordinate."""
     t_min, t_max, time_len, d_time = _get_scanned_time_info(data_node)
-    if snap_dims:
+    if time_len == 1:  # a single sample has no step.
+        time_coord = get_coord(values=np.array([t_min]), units="s")
+    elif snap_dims:
         kwargs = dict(start=t_min, stop=t_max + d_time, step=d_time, units="s")
         time_coord = get_coord(**kwargs)
     else:
-- 
2.43.0


From c49e3b26d377902048208a970f970afa3e7a256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 72/76] fix: headers of DAS-HDF5, AP Sensing, OptoDAS and
 Sintela files are kept as declared

---
 dascore/io/ap_sensing/utils.py     | 2 +-
 dascore/io/dashdf5/utils.py        | 6 +++---
 dascore/io/optodas/utils.py        | 2 +-
 dascore/io/sintela_binary/utils.py | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dascore/io/ap_sensing/utils.py b/dascore/io/ap_sensing/utils.py
index 9946b67..8b471e7 100644
--- a/dascore/io/ap_sensing/utils.py
+++ b/dascore/io/ap_sensing/utils.py
@@ -80,7 +80,7 @@ def _get_attrs_dict(resource):
     out = dict(
         coords=_get_coords(resource),
         data_category="DAS",
-        instrumet_id=unbyte(_maybe_unpack(daq["SerialNumber"])),
+        instrument_id=unbyte(_maybe_unpack(daq["SerialNumber"])),
         gauge_length=_maybe_unpack(pserver["GaugeLength"]),
         radians_to_nano_strain=_maybe_unpack(pserver["RadiansToNanoStrain"]),
     )
diff --git a/dascore/io/dashdf5/utils.py b/dascore/io/dashdf5/utils.py
index f8220e8..8395294 100644
--- a/dascore/io/dashdf5/utils.py
+++ b/dascore/io/dashdf5/utils.py
@@ -80,9 +80,9 @@ def _get_cf_attrs(hdf_fi, coords=None, extras=None):
     out = {"coords": coords or _get_cf_coords(hdf_fi)}
     out.update(extras or {})
     for n1, n2 in _ROOT_ATTR_MAPPING.items():
-        out[n1] = hdf_fi.attrs.get(n2)
+        out[n2] = hdf_fi.attrs.get(n1)
     for n1, n2 in _DAS_ATTR_MAPPING.items():
-        out[n1] = getattr(hdf_fi.get("das", {}), "attrs", {}).get(n2)
+        out[n2] = getattr(hdf_fi.get("das", {}), "attrs", {}).get(n1)
     for n1, n2 in _CRS_MAPPING.items():
-        out[n1] = getattr(hdf_fi.get("crs", {}), "attrs", {}).get(n2)
+        out[n2] = getattr(hdf_fi.get("crs", {}), "attrs", {}).get(n1)
     return dc.PatchAttrs(**out)
diff --git a/dascore/io/optodas/utils.py b/dascore/io/optodas/utils.py
index ebb56e7..101603a 100644
--- a/dascore/io/optodas/utils.py
+++ b/dascore/io/optodas/utils.py
@@ -47,7 +47,7 @@ def _get_coord_manager(fi):
         else:  # and distance
             # The channels are ints so we multiply by step to get distance.
             distance = fi["/header/channels"][:] * step
-            coord = get_coord(values=distance)
+            coord = get_coord(values=distance, units=unit)
         coords[dim] = coord
     out = dascore.core.get_coord_manager(coords=coords, dims=dims)
     return out
diff --git a/dascore/io/sintela_binary/utils.py b/dascore/io/sintela_binary/utils.py
index 1a35021..987b0bb 100644
--- a/dascore/io/sintela_binary/utils.py
+++ b/dascore/io/sintela_binary/utils.py
@@ -145,7 +145,7 @@ def _get_complete_header(rid):
 def _get_time_coord(header):
     """Get the time coordinate."""
     starttime = np.asarray(header["start_time_ns"]).astype("datetime64[ns]")[()]
-    timestep = dc.to_timedelta64(1 / header["sample_rate"])
+    timestep = dc.to_timedelta64(1 / float(header["sample_rate"]))
     total_len = header["num_packets"] * header["num_samples"]
     end_time = starttime + timestep * total_len
     time = get_coord(start=starttime, step=timestep, stop=end_time)
-- 
2.43.0


From 82bc53cf3d1aa4962c7fbe87d802a08ff2c24518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 73/76] fix: spool selection with whole-number limits or limits
 which meet in a sample

---
 dascore/utils/pd.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 475bc08..c9fd0eb 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -300,6 +300,9 @@ def _snap_limits_to_samples(limit, start, step, func):
     known = (pd.notnull(step) & (step != step * 0)).to_numpy()
     if not known.any():
         return limits
+    # Integer limits have to be able to hold the samples of float coordinates.
+    if limits.dtype.kind in "iu" and start.dtype.kind == "f":
+        limits = limits.astype(start.dtype)
     start, step = start[known], step[known].abs()
     num = (limits[known] - start) / step
     # Limits which are on a sample, but for round-off, should include it.
@@ -344,7 +347,14 @@ def adjust_segments(df, ignore_bad_kwargs=False, **kwargs):
         out.loc[too_small, too_small.name] = new_min[too_small]
         not_modified &= ~(too_small.values | too_large.values)
         # Drop the segments which have no samples between the limits.
-        keep = ~(out[start.name] > out[stop.name])
+        lower, upper = out[start.name], out[stop.name]
+        excess = lower - upper
+        empty = lower > upper
+        # But the two limits of a single sample may differ by round-off.
+        same = empty & pd.notnull(step)
+        same[same] = excess[same] < step[same].abs() * 1e-6
+        out.loc[same, start.name] = upper[same]
+        keep = ~empty | same
         out, not_modified = out[keep], not_modified[keep]
     return out.assign(_modified=~not_modified)
 
-- 
2.43.0


From 8ff2d0faa5087444aa5e018ab9f68b096c391e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 74/76] fix: spool patches trimmed to a single sample are not
 emptied by round-off of the limits

---
 dascore/core/spool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index a57494f..2ccec76 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -73,6 +73,10 @@ def _range_contains_coord(limits, coord) -> bool:
     low, high = limits
     if not len(coord) or pd.isnull(low) or pd.isnull(high):
         return False
+    # The last digits of float limits depend on how they were determined.
+    if isinstance(low, float | np.floating) and isinstance(high, float | np.floating):
+        tol = 4 * np.spacing(max(abs(low), abs(high)))
+        low, high = low - tol, high + tol
     return bool(low <= coord.min() and coord.max() <= high)
 
 
-- 
2.43.0


From 6bcaaa94c4b404e79995f748cabe7e1a7fe431f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 75/76] fix: tau-p of time-first patches, dispersion frequency
 labels, spectrograms of reversed coordinates

---
 dascore/transform/dispersion.py |  7 ++++---
 dascore/transform/spectro.py    | 15 +++++++++++----
 dascore/transform/taup.py       |  4 ++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/dascore/transform/dispersion.py b/dascore/transform/dispersion.py
index b951697..6edb197 100644
--- a/dascore/transform/dispersion.py
+++ b/dascore/transform/dispersion.py
@@ -125,10 +125,11 @@ def dispersion_phase_shift(
 
     fs = 1 / dt
     if approx_resolution is not None:
-        approxnf = int(nt * (fs / (nt)) / approx_resolution)
-        f = np.arange(approxnf) * fs / (approxnf - 1)
+        # The points 0 to fs are one more than the frequencies of the transform.
+        approxnf = max(int(nt * (fs / (nt)) / approx_resolution) - 1, 1)
+        f = np.arange(approxnf) * fs / approxnf
     else:
-        f = np.arange(nt) * fs / (nt - 1)
+        f = np.arange(nt) * fs / nt
 
     nf = np.size(f)
 
diff --git a/dascore/transform/spectro.py b/dascore/transform/spectro.py
index ea9bc70..015c7fb 100644
--- a/dascore/transform/spectro.py
+++ b/dascore/transform/spectro.py
@@ -26,11 +26,13 @@ scipy_spectrogram = lazy_import("scipy.signal", "spectrogram")
 def _get_new_original_coord(old_coord, array):
     """Get a new coordinate for original axis (eg time)."""
     # determine what dtype the data
-    old_min = get_compatible_values(old_coord.min(), array.dtype)
+    # The windows are relative to the first label, which reversed coords have max.
+    first = old_coord.max() if old_coord.reverse_sorted else old_coord.min()
+    array = -array if old_coord.reverse_sorted else array
     is_dt = np.issubdtype(old_coord.dtype, np.datetime64)
     val_dtype = np.timedelta64 if is_dt else old_coord.dtype
     vals = get_compatible_values(array, val_dtype)
-    return get_coord(data=old_min + vals, units=old_coord.units)
+    return get_coord(data=first + vals, units=old_coord.units)
 
 
 def _get_transformed_coord(coord, freqs):
@@ -98,11 +100,16 @@ def spectrogram(patch: PatchType, dim: str = "time", **kwargs) -> PatchType:
     coord = patch.get_coord(dim)
     dxs, axes = _get_dx_or_spacing_and_axes(patch, dim, require_evenly_spaced=True)
     new_coord_name = FourierTransformatter().rename_dims(dim)[0]
-    out_coords = patch.coords._get_dim_array_dict()
+    # coords attached to the transformed dimension can't describe its windows.
+    out_coords = {
+        name: (dims, coord)
+        for name, (dims, coord) in patch.coords._get_dim_array_dict(True).items()
+        if dim not in dims
+    }
     # returns frequency, new values for original dimension (eg time) and spectrogram
     freqs, original, spec = scipy_spectrogram(
         patch.data,
-        fs=1 / dxs[0],  # sample *frequency* is requested, not spacing
+        fs=1 / abs(dxs[0]),  # sample *frequency* is requested, not spacing
         axis=axes[0],
         **kwargs,
     )
diff --git a/dascore/transform/taup.py b/dascore/transform/taup.py
index 6398e8d..326a11f 100644
--- a/dascore/transform/taup.py
+++ b/dascore/transform/taup.py
@@ -63,7 +63,7 @@ def _jit_taup_general(data, distance, dt, p_vals):
                 samp_val_neg = (
                     tau + p * (mod_distance[-1] - mod_distance[nx - 1 - ix]) / dt
                 )
-                ind_neg = int(samp_val_pos)
+                ind_neg = int(samp_val_neg)
                 if ind_pos + 1 < nt:
                     taup[ip + n_slo, tau] += (1.0 + ind_pos - samp_val_pos) * data[
                         ix, ind_pos
@@ -143,7 +143,7 @@ def tau_p(
         func = _jit_taup_general
         dist_val = dist.values
 
-    slowness, tau_p_data = func(patch.data, dist_val, dt, 1.0 / velocities)
+    slowness, tau_p_data = func(patch_cop.data, dist_val, dt, 1.0 / velocities)
 
     attrs = patch.attrs.update(category="taup")
     coords = dict(slowness=slowness, time=time)
-- 
2.43.0


From 5a813ca86b4070e3fff0eacf1dbc0a65451484cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:13 +0000
Subject: [PATCH 76/76] fix: plots of reversed coordinates and axis labels of
 map_fiber

---
 dascore/viz/map_fiber.py | 12 ++++++------
 dascore/viz/waterfall.py |  5 ++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/dascore/viz/map_fiber.py b/dascore/viz/map_fiber.py
index 98bbca4..c79d01b 100644
--- a/dascore/viz/map_fiber.py
+++ b/dascore/viz/map_fiber.py
@@ -32,7 +32,7 @@ def _set_scale(im, scale, scale_type, color_coords):
     if scale_type == "relative":
         modifier = 0.5 * (np.nanmax(color_coords) - np.nanmin(color_coords))
         # only one scale parameter provided, center around mean
-    if isinstance(scale, float):
+    if isinstance(scale, float | int):
         mean = np.nanmean(color_coords)
         scale = np.array([mean - scale * modifier, mean + scale * modifier])
     im.set_clim(scale)
@@ -91,18 +91,18 @@ def map_fiber(
     >>> patch = patch.set_units(latitude="m", longitude="m")
     >>> _ = patch.viz.map_fiber("latitude", "longitude", "distance")
     """
-    dims = []
+    dims = {}
     if isinstance(x, str):
         if x not in patch.coords:
             msg = f"{x} not found in patch coordinates"
             raise ParameterError(msg)
-        dims.append(x)
+        dims["x"] = x
         x = patch.coords.get_array(x)
     if isinstance(y, str):
         if y not in patch.coords:
             msg = f"{y} not found in patch coordinates"
             raise ParameterError(msg)
-        dims.append(y)
+        dims["y"] = y
         y = patch.coords.get_array(y)
     if isinstance(color, str):
         if color not in patch.coords:
@@ -125,8 +125,8 @@ def map_fiber(
         _set_scale(im, scale, scale_type, color)
 
     # set axis labels
-    for dim, x in zip(dims, ["x", "y"]):
-        getattr(ax, f"set_{x}label")(_get_dim_label(patch, dim))
+    for axis_name, dim in dims.items():
+        getattr(ax, f"set_{axis_name}label")(_get_dim_label(patch, dim))
 
     # add color bar with title
     if cmap is not None:
diff --git a/dascore/viz/waterfall.py b/dascore/viz/waterfall.py
index bf11965..1abd8e1 100644
--- a/dascore/viz/waterfall.py
+++ b/dascore/viz/waterfall.py
@@ -368,9 +368,12 @@ def waterfall(
     use_image = all(coord.evenly_sampled for coord in dim_coords.values())
     if use_image or not all(is_monotonic_and_finite(x) for x in coords.values()):
         extents = _get_extents(dims_r, coords)
+        # The extents are ascending so the image of reversed coords must be too.
+        rev_axes = [i for i, d in enumerate(dims) if dim_coords[d].reverse_sorted]
+        image = np.flip(data, axis=rev_axes) if rev_axes else data
         with mpl.rc_context({"image.resample": True}):
             im = ax.imshow(
-                data,
+                image,
                 extent=extents,
                 aspect="auto",
                 cmap=cmap,
-- 
2.43.0

