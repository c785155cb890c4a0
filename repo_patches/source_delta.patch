From 153ddd288c8069776e87b8cd39fc379f9bcb29b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 01/50] fix: re-read aggregated timeseries when child
 parameters have changed

---
 openscm/core/views.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index be0af3b..eacf462 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -346,7 +346,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
-        elif self._version != self._parameter.version:
+        elif self._parameter.children or self._version != self._parameter.version:
+            # the children's data can change without this parameter's version changing
             np.copyto(self._data, self._get_values())
             self._version = self._parameter.version
 
-- 
2.43.0


From 5f15ee97fdfc108580d6ebc4b871d0aea654003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 02/50] fix: do not add parameters below a parameter that has
 been read in an aggregated way

---
 openscm/core/parameters.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 09d199b..821a455 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -184,8 +184,8 @@ class _Parameter:
         Raises
         ------
         ParameterReadError
-            If the child parameter would need to be added, but this parameter has
-            already been read from. In this case a child parameter cannot be added.
+            If the child parameter would need to be added, but this parameter (or one
+            of the parameters above it) has already been read from. In this case a child parameter cannot be added.
         ParameterWrittenError
             If the child parameter would need to be added, but this parameter has
             already been written to. In this case a child parameter cannot be added.
@@ -194,8 +194,11 @@ class _Parameter:
         if res is None:
             if self.has_been_written_to:
                 raise ParameterWrittenError
-            if self.has_been_read_from:
-                raise ParameterReadError
+            ancestor: Optional["_Parameter"] = self
+            while ancestor is not None:
+                if ancestor.has_been_read_from:
+                    raise ParameterReadError
+                ancestor = ancestor.parent
             res = _Parameter(name, self.region)
             res.parent = self
             self.children[name] = res
-- 
2.43.0


From cba3b8c754251efe2dca9ca8c389031ae95e4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 03/50] fix: refuse to aggregate child parameters of another
 type or incompatible unit

---
 openscm/core/parameters.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 821a455..aff6805 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -3,7 +3,7 @@ Parameter handling.
 """
 
 from enum import Enum
-from typing import TYPE_CHECKING, Dict, Optional, Sequence, Tuple, Union
+from typing import TYPE_CHECKING, Dict, Optional, Sequence, Tuple, Union, cast
 
 import numpy as np
 
@@ -15,6 +15,7 @@ from ..errors import (
     ParameterTypeError,
     ParameterWrittenError,
 )
+from .units import UnitConverter
 
 if TYPE_CHECKING:  # pragma: no cover
     from . import regions  # pylint: disable=cyclic-import
@@ -254,12 +255,14 @@ class _Parameter:
         ParameterTypeError
             If parameter has already been read from or written to in a different type
         ParameterAggregationError
-            If parameter has child parameters which cannot be aggregated (for boolean
-            and string parameters)
+            If parameter has child parameters which cannot be aggregated (because they
+            are of a different type or for boolean and string parameters)
         """
         if self.parameter_type is not None and self.parameter_type != parameter_type:
             raise ParameterTypeError
         if self.parameter_type is None:
+            if self.children and parameter_type != ParameterType.GENERIC:
+                self._check_aggregation(parameter_type, unit)
             self.unit = unit
             self.parameter_type = parameter_type
             if parameter_type == ParameterType.SCALAR:
@@ -280,6 +283,34 @@ class _Parameter:
                 self.time_points = np.array(time_points, copy=True)
         self.has_been_read_from = True
 
+    def _check_aggregation(
+        self, parameter_type: ParameterType, unit: Optional[str]
+    ) -> None:
+        """
+        Check that the child parameters can be aggregated.
+
+        Parameters
+        ----------
+        parameter_type
+            Parameter type to be read
+        unit
+            Unit to be read
+
+        Raises
+        ------
+        ParameterAggregationError
+            If a child parameter is of a different type
+        pint.errors.DimensionalityError
+            If the unit of a child parameter cannot be converted to :obj:`unit`
+        """
+        for child in self.children.values():
+            if child.children:
+                child._check_aggregation(parameter_type, unit)
+            else:
+                if child.parameter_type != parameter_type:
+                    raise ParameterAggregationError
+                UnitConverter(cast(str, child.unit), cast(str, unit))
+
     def attempt_write(
         self,
         parameter_type: ParameterType,
-- 
2.43.0


From 4abef8648a0b891ca4c5e1977c87f41bdfa9a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 04/50] fix: check the unit before creating a parameter

---
 openscm/core/parameterset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index 6dd69a7..f153eb9 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -14,6 +14,7 @@ from .parameters import (
 )
 from .regions import _Region
 from .time import ExtrapolationType, InterpolationType
+from .units import UnitConverter
 from .views import GenericView, ScalarView, TimeseriesView
 
 
@@ -164,6 +165,7 @@ class ParameterSet:
         ValueError
             Name not given or invalid region
         """
+        UnitConverter(unit, unit)  # fail before anything is created if unit is unknown
         parameter = self._get_or_create_parameter(
             name, self._get_or_create_region(region)
         )
@@ -218,6 +220,7 @@ class ParameterSet:
         timeseries_type = ParameterType.from_timeseries_type(timeseries_type)
         interpolation = InterpolationType.from_interpolation_type(interpolation)
         extrapolation = ExtrapolationType.from_extrapolation_type(extrapolation)
+        UnitConverter(unit, unit)  # fail before anything is created if unit is unknown
         parameter = self._get_or_create_parameter(
             name, self._get_or_create_region(region)
         )
-- 
2.43.0


From 7688dd5ba5d327daf0fcda1d20319db505790ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:15 +0000
Subject: [PATCH 05/50] fix: do not mark scalar parameter as written when the
 value cannot be converted

---
 openscm/core/views.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index eacf462..c53f492 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -220,12 +220,13 @@ class ScalarView(ParameterInfo):
         """
         Value of scalar parameter
         """
+        data = self._unit_converter.convert_to(v)
         if not self._writable:
             self._parameter.attempt_write(
                 ParameterType.SCALAR, self._unit_converter.target
             )
             self._writable = True
-        self._parameter.data = self._unit_converter.convert_to(v)
+        self._parameter.data = data
         self._parameter.version += 1
 
     @property
-- 
2.43.0


From 23d36285cb3da150d3f06e953c3c041c35a736ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 06/50] fix: always refresh a timeseries object before it is
 used

---
 openscm/core/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index c53f492..f181043 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -58,8 +58,9 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     @classmethod
     def _create_arithmetic_method(cls, op):
         def arithmetic_method(self, other):
+            self.__read__()
             if isinstance(other, cls):
-                other = other._ndarray
+                other = other.__read__()._ndarray
 
             with np.errstate(all="ignore"):
                 return op(self._ndarray, other)
@@ -103,6 +104,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
+        self.__read__()
         self._ndarray[key] = val
         self.__write__()
 
@@ -112,9 +114,11 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             yield i
 
     def __repr__(self):
+        self.__read__()
         return "timeseries({})".format(repr(self._ndarray))
 
     def __array__(self, dtype=None):
+        self.__read__()
         return np.asarray(self._ndarray, dtype=dtype)
 
     def __len__(self):
-- 
2.43.0


From 32571d307765cea7bff1f1e940d1e76c3e01c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:56 +0000
Subject: [PATCH 07/50] fix: refuse to write single elements of an aggregated
 timeseries

---
 openscm/core/views.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index f181043..7aa0b19 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -10,7 +10,11 @@ import numpy as np
 from numpy.lib.mixins import NDArrayOperatorsMixin
 from pandas.core.arrays.base import ExtensionOpsMixin
 
-from ..errors import ParameterEmptyError, TimeseriesPointsValuesMismatchError
+from ..errors import (
+    ParameterEmptyError,
+    ParameterReadonlyError,
+    TimeseriesPointsValuesMismatchError,
+)
 from .parameters import ParameterInfo, ParameterType, _Parameter
 from .time import ExtrapolationType, InterpolationType, TimeseriesConverter
 from .units import UnitConverter
@@ -33,6 +37,9 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         ]
         outputs = kwargs.pop("out", None)
         if outputs:
+            for output in outputs:
+                if isinstance(output, type(self)):
+                    output.__prepare_write__()
             kwargs["out"] = tuple(
                 i._ndarray if isinstance(i, type(self)) else i for i in outputs
             )
@@ -92,6 +99,11 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         self._parameter_view._read()
         return self
 
+    def __prepare_write__(self):
+        self._parameter_view._check_readonly()
+        self._parameter_view._read()
+        return self
+
     def __write__(self):
         self._parameter_view._write()
         return self
@@ -104,7 +116,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
-        self.__read__()
+        self.__prepare_write__()
         self._ndarray[key] = val
         self.__write__()
 
@@ -356,6 +368,10 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             np.copyto(self._data, self._get_values())
             self._version = self._parameter.version
 
+    def _check_readonly(self):
+        if self._parameter.children:
+            raise ParameterReadonlyError
+
     def _check_write(self):
         if not self._writable:
             self._parameter.attempt_write(
-- 
2.43.0


From e3ee76774eb9d4407f9d57bc850985b2e9391acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:43 +0000
Subject: [PATCH 08/50] fix: leave timeseries parameter and view unchanged when
 a write is rejected

---
 openscm/core/views.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 7aa0b19..8e0d1fd 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -381,14 +381,32 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             )
             self._writable = True
 
-    def _write(self):
+    def _write(self, data: Optional[np.ndarray] = None):
         if not self._locked:
-            self._parameter.data = self._timeseries_converter.convert_to(
-                self._unit_converter.convert_to(self._data)
-            )
+            if data is None:
+                try:
+                    data = self._convert_to_parameter(self._data)
+                except Exception:
+                    self._discard_cache()  # as the write is rejected
+                    raise
+            self._check_write()
+            self._parameter.data = data
             self._parameter.version += 1
             self._version = self._parameter.version
 
+    def _convert_to_parameter(self, values: np.ndarray) -> np.ndarray:
+        return self._timeseries_converter.convert_to(
+            self._unit_converter.convert_to(values)
+        )
+
+    def _discard_cache(self):
+        if self.empty:
+            self._data = None
+            self._timeseries = None
+        else:
+            np.copyto(self._data, self._get_values())
+            self._version = self._parameter.version
+
     def _get_values(self) -> np.ndarray:
         if self._parameter.children:
             return cast(
@@ -433,15 +451,17 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Value of the full timeseries
         """
-        self._check_write()
+        self._check_readonly()
         if len(v) != self._timeseries_converter.target_length:
             raise TimeseriesPointsValuesMismatchError
+        # convert first so nothing is changed if the values are rejected
+        data = None if self._locked else self._convert_to_parameter(np.asarray(v))
         if self._data is None:
             self._data = np.asarray(v).copy()
             self._timeseries = _Timeseries(self._data, self)
         else:
             np.copyto(self._data, np.asarray(v))
-        self._write()
+        self._write(data)
 
     @property
     def unit(self) -> Optional[str]:
-- 
2.43.0


From 2e3cfa860167ca62e12764d3dd5f5ab1523ccd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 09/50] fix: allow writing floats to a timeseries view which
 holds integers

---
 openscm/core/views.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 8e0d1fd..b3c2d97 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -117,6 +117,8 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     def __setitem__(self, key, val):
         self.__prepare_write__()
+        if self._ndarray is self._parameter_view._data:
+            self._parameter_view._adapt_cache_type(np.asarray(val))
         self._ndarray[key] = val
         self.__write__()
 
@@ -365,9 +367,23 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._version = self._parameter.version
         elif self._parameter.children or self._version != self._parameter.version:
             # the children's data can change without this parameter's version changing
-            np.copyto(self._data, self._get_values())
+            self._update_cache(self._get_values())
             self._version = self._parameter.version
 
+    def _update_cache(self, values: np.ndarray):
+        self._adapt_cache_type(values)
+        np.copyto(self._data, values)
+
+    def _adapt_cache_type(self, values: np.ndarray):
+        if not np.issubdtype(values.dtype, np.number):
+            return
+        dtype = np.result_type(self._data, values)
+        if not np.can_cast(dtype, self._data.dtype, "same_kind"):
+            # e.g. integer values have been written before
+            self._data = self._data.astype(dtype)
+            if self._timeseries is not None:
+                self._timeseries._ndarray = self._data
+
     def _check_readonly(self):
         if self._parameter.children:
             raise ParameterReadonlyError
@@ -404,7 +420,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._data = None
             self._timeseries = None
         else:
-            np.copyto(self._data, self._get_values())
+            self._update_cache(self._get_values())
             self._version = self._parameter.version
 
     def _get_values(self) -> np.ndarray:
@@ -460,7 +476,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._data = np.asarray(v).copy()
             self._timeseries = _Timeseries(self._data, self)
         else:
-            np.copyto(self._data, np.asarray(v))
+            self._update_cache(np.asarray(v))
         self._write(data)
 
     @property
-- 
2.43.0


From 1f52134493e554bb55fec9a7700ea16b60d74d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 10/50] fix: unlock publishes exactly what was written while a
 timeseries view was locked

---
 openscm/core/views.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index b3c2d97..9306e50 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -278,6 +278,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     write)?
     """
 
+    _modified: bool
+    """Has this view been written to while being locked?"""
+
     _timeseries: Optional[_Timeseries]
     """Time series handler"""
 
@@ -331,6 +334,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
         self._data = None
         self._locked = False
+        self._modified = False
         self._timeseries = None
         self._writable = False
 
@@ -362,6 +366,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             )
 
     def _read(self):
+        if self._modified:
+            return  # do not drop data that has been written while being locked
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
@@ -398,7 +404,10 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._writable = True
 
     def _write(self, data: Optional[np.ndarray] = None):
-        if not self._locked:
+        if self._locked:
+            self._modified = True
+        else:
+            self._modified = False
             if data is None:
                 try:
                     data = self._convert_to_parameter(self._data)
@@ -509,10 +518,12 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Unlock this view (i.e., update the underlying parameter on every write).
 
-        Updates the underlying parameter.
+        Updates the underlying parameter if this view has been written to while being
+        locked.
         """
         self._locked = False
-        self._write()
+        if self._modified:
+            self._write()
 
 
 class GenericView(ParameterInfo):
-- 
2.43.0


From 3b4ac4a7d8381a6d9023281ba19fe5a989131c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:32 +0000
Subject: [PATCH 11/50] fix: always refuse to convert beyond the source time
 range without extrapolation

---
 openscm/core/time.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b872cae..efae99b 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -541,13 +541,19 @@ class TimeseriesConverter:
         if len(values) < 3:
             raise InsufficientDataError
 
+        error_msg = (
+            "Target time points are outside the source time points, use an "
+            "extrapolation type other than None"
+        )
+        if self._extrapolation_type == ExtrapolationType.NONE and (
+            np.min(target_time_points) < np.min(source_time_points)
+            or np.max(target_time_points) > np.max(source_time_points)
+        ):
+            raise InsufficientDataError(error_msg)
+
         try:
             return self._convert_unsafe(values, source_time_points, target_time_points)
         except ValueError:
-            error_msg = (
-                "Target time points are outside the source time points, use an "
-                "extrapolation type other than None"
-            )
             raise InsufficientDataError(error_msg)
 
     def _convert_unsafe(
-- 
2.43.0


From c9e5616562e411cb2385276dff93681faf7f9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:57 +0000
Subject: [PATCH 12/50] fix: do not expose uninitialised memory in DICE output
 before it is computed

---
 openscm/adapters/dice.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index 1fbb530..d0f3d09 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -235,18 +235,18 @@ class DICE(Adapter):
         v.b32 = v.b23.value * v.mueq.value / v.mleq.value
         v.b33 = 1 - v.b32
 
-        v.mat.values = np.empty(self._timestep_count)
+        v.mat.values = np.zeros(self._timestep_count)
         v.mat.values[0] = v.mat0.value
-        v.ml.values = np.empty(self._timestep_count)
+        v.ml.values = np.zeros(self._timestep_count)
         v.ml.values[0] = v.ml0.value
-        v.mu.values = np.empty(self._timestep_count)
+        v.mu.values = np.zeros(self._timestep_count)
         v.mu.values[0] = v.mu0.value
-        v.tatm.values = np.empty(self._timestep_count)
+        v.tatm.values = np.zeros(self._timestep_count)
         v.tatm.values[0] = v.tatm0.value
-        v.tocean.values = np.empty(self._timestep_count)
+        v.tocean.values = np.zeros(self._timestep_count)
         v.tocean.values[0] = v.tocean0.value
 
-        v.forc.values = np.empty(self._timestep_count)
+        v.forc.values = np.zeros(self._timestep_count)
         v.forc.values[0] = (
             v.fco22x.value * log2(v.mat0.value / v.mateq.value) + v.fex0.value
         )
-- 
2.43.0


From eb4e285998954048be3b3954d16e0ead800087a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:20 +0000
Subject: [PATCH 13/50] fix: match all characters but the wildcard literally
 when filtering

---
 openscm/scmdataframe/filters.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 32ea694..369d797 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -169,16 +169,8 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
 
     for s in _values:
         if isinstance(s, str):
-            _regexp = (
-                str(s)
-                .replace("|", "\\|")
-                .replace(".", r"\.")  # `.` has to be replaced before `*`
-                .replace("*", ".*")
-                .replace("+", r"\+")
-                .replace("(", r"\(")
-                .replace(")", r"\)")
-                .replace("$", "\\$")
-            ) + "$"
+            # all characters but `*` are to be matched literally
+            _regexp = re.escape(str(s)).replace(r"\*", ".*") + "$"
             pattern = re.compile(_regexp if not regexp else str(s))
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
-- 
2.43.0


From 20538aa372fcba6bed16156859b411550187eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 14/50] fix: support several ranges when filtering by month or
 day and leave the input list unchanged

---
 openscm/scmdataframe/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 369d797..52caefd 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -377,8 +377,8 @@ def time_match(
                 to_append += [j for j in range(ints[0], ints[1] + 1)]
                 to_delete.append(i)
 
-        for i in to_delete:
-            del times_list[i]
+        # do not touch the input list
+        times_list = [t for i, t in enumerate(times_list) if i not in to_delete]
 
         times_list = conv_strs(times_list, conv_codes, name)
         times_list += to_append
-- 
2.43.0


From a08bcb25d33b3e1c4c5a0a45c563efe06574a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 15/50] fix: interpolate data frames with both average and
 point timeseries

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4beb8ce..30bcc53 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1008,13 +1008,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for parameter_type, grp in res._meta.groupby("parameter_type"):
             p_type = ParameterType.from_timeseries_type(parameter_type)
             time_points = self.time_points
+            target_time_points = target_times
 
             if p_type == ParameterType.AVERAGE_TIMESERIES:
                 # With an average time series we are making the assumption that the last value is the
                 # average value between t[-1] and (t[-1] - t[-2]). This will ensure that both the
                 # point and average timeseries can use the same time grid.
                 delta_t = target_times[-1] - target_times[-2]
-                target_times = np.concatenate(
+                target_time_points = np.concatenate(
                     (target_times, [target_times[-1] + delta_t])
                 )
 
@@ -1023,7 +1024,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             timeseries_converter = TimeseriesConverter(
                 time_points,
-                target_times,
+                target_time_points,
                 p_type,
                 InterpolationType.from_interpolation_type(interpolation_type),
                 ExtrapolationType.from_extrapolation_type(extrapolation_type),
-- 
2.43.0


From 0c556e2e7de5f30de7cc7c6656ef0a7651f8c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 16/50] fix: use the guessed parameter types when interpolating
 data frames

---
 openscm/scmdataframe/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 30bcc53..c10a871 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -987,19 +987,19 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             res._sort_meta_cols()
 
         def guess(r):
-            if r.parameter_type is None:
+            if pd.isnull(r.parameter_type):
                 warnings.warn(
                     "`parameter_type` metadata not available. Guessing parameter types where unavailable."
                 )
                 parameter_type = guess_parameter_type(r.variable, r.unit)
-                r.parameter_type = (
+                return (
                     "average"
                     if parameter_type == ParameterType.AVERAGE_TIMESERIES
                     else "point"
                 )
-            return r
+            return r.parameter_type
 
-        res._meta.apply(guess, axis=1)
+        res._meta["parameter_type"] = [guess(r) for _, r in res._meta.iterrows()]
 
         # Resize dataframe to new index length
         old_data = res._data
-- 
2.43.0


From cf80836be66b33db7a5f8b44efd4724150b5a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:13 +0000
Subject: [PATCH 17/50] fix: keep data and metadata aligned when setting
 metadata by index

---
 openscm/scmdataframe/base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index c10a871..53e94a0 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -923,12 +923,22 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             raise ValueError("index cannot be coerced to pd.MultiIndex")
 
         meta = pd.Series(meta, index=index, name=name)
+        if isinstance(index, pd.MultiIndex) and index.nlevels == 1:
+            meta.index = index.get_level_values(0)
 
         df = self.meta.reset_index()
         if all(index.names):
             df = df.set_index(index.names)
+        # keep the order of the timeseries so that meta and data stay aligned
         self._meta = (
-            pd.merge(df, meta, left_index=True, right_index=True, how="outer")
+            pd.merge(
+                df,
+                meta,
+                left_index=True,
+                right_index=True,
+                how="left",
+                validate="many_to_one",
+            )
             .reset_index()
             .set_index("index")
         )
-- 
2.43.0


From fad36867af5166f861663964fcfd8901a045dbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:24 +0000
Subject: [PATCH 18/50] fix: overwrite an existing metadata column when setting
 metadata by index

---
 openscm/scmdataframe/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 53e94a0..08bd73c 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -926,7 +926,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         if isinstance(index, pd.MultiIndex) and index.nlevels == 1:
             meta.index = index.get_level_values(0)
 
-        df = self.meta.reset_index()
+        old = self._meta.get(name)
+        df = self.meta.drop(name, axis=1, errors="ignore").reset_index()
         if all(index.names):
             df = df.set_index(index.names)
         # keep the order of the timeseries so that meta and data stay aligned
@@ -945,6 +946,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         # Edge case of using a different index on meta
         if "level_0" in self._meta:
             self._meta.drop("level_0", axis=1, inplace=True)
+        if old is not None:
+            # other timeseries keep their metadata
+            self._meta[name] = self._meta[name].combine_first(old)
         self._sort_meta_cols()
 
     def interpolate(  # pylint: disable=too-many-locals
-- 
2.43.0


From ae7269e0a6b2fe5cb98832a071f3bf6c7f29653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 19/50] fix: leave data frame unchanged when renaming in place
 fails

---
 openscm/scmdataframe/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 08bd73c..ecc73d9 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -853,16 +853,17 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         ValueError
             Column is not in meta or renaming will cause non-unique metadata
         """
-        ret = copy.deepcopy(self) if not inplace else self
+        new_meta = self.meta
         for col, _mapping in mapping.items():
             if col not in self.meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            ret._meta[col] = ret._meta[col].replace(  # pylint: disable=protected-access
-                _mapping
-            )
-            if ret._meta.duplicated().any():  # pylint: disable=protected-access
+            new_meta[col] = new_meta[col].replace(_mapping)
+            if new_meta.duplicated().any():
                 raise ValueError("Renaming to non-unique metadata for {}!".format(col))
 
+        ret = copy.deepcopy(self) if not inplace else self
+        ret._meta = new_meta  # pylint: disable=protected-access
+
         if not inplace:
             return ret
 
-- 
2.43.0


From 91f0157d2ef0a6ae95a677f8c2191fcfd19ce1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 20/50] fix: leave data frame unchanged when converting units
 in place fails

---
 openscm/scmdataframe/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index ecc73d9..63ee8ff 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1268,7 +1268,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             with the converted units.
         """
         # pylint: disable=protected-access
-        ret = self if inplace else self.copy()
+        ret = self.copy()
 
         if "unit_context" not in ret._meta:
             ret._meta["unit_context"] = None
@@ -1285,6 +1285,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         if not inplace:
             return ret
+
+        # only update once everything has been converted
+        self._data, self._meta = ret._data, ret._meta
         return None
 
     def relative_to_ref_period_mean(
-- 
2.43.0


From eed8e02f09dc4a4ece938bf16f3a0a5da949ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 21/50] fix: filter by metadata columns which contain None

---
 openscm/scmdataframe/filters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 52caefd..422af62 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -164,7 +164,10 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
     _meta_col = meta_col.copy()
     if has_nan:
         _meta_col.loc[
-            [np.isnan(i) if not isinstance(i, str) else False for i in _meta_col]
+            [
+                i is None or (np.isnan(i) if not isinstance(i, str) else False)
+                for i in _meta_col
+            ]
         ] = ""
 
     for s in _values:
-- 
2.43.0


From 462589b30f8207c5fce75d7e20c2d12afb611025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 22/50] fix: convert parameters of all subregions of a
 parameter set to a data frame

---
 openscm/scmdataframe/__init__.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/__init__.py b/openscm/scmdataframe/__init__.py
index f032309..158b456 100644
--- a/openscm/scmdataframe/__init__.py
+++ b/openscm/scmdataframe/__init__.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from ..core.parameters import ParameterInfo, ParameterType, _Parameter
 from ..core.parameterset import ParameterSet
+from ..core.regions import _Region
 from .base import ScmDataFrameBase, df_append  # noqa: F401
 
 
@@ -108,17 +109,14 @@ def convert_openscm_to_scmdataframe(  # pylint: disable=too-many-locals
     data = []
 
     root_params: Dict[Tuple, ParameterInfo] = {}
-    for (
-        _,
-        value,
-    ) in parameterset._root._parameters.items():  # pylint: disable=protected-access
-        root_params.update(walk_parameters(value))
-    for (
-        _,
-        r,
-    ) in parameterset._root._children.items():  # pylint: disable=protected-access
-        for _, value in r._parameters.items():  # pylint: disable=protected-access
+
+    def walk_regions(region: _Region) -> None:
+        for value in region._parameters.values():  # pylint: disable=protected-access
             root_params.update(walk_parameters(value))
+        for subregion in region._children.values():  # pylint: disable=protected-access
+            walk_regions(subregion)
+
+    walk_regions(parameterset._root)  # pylint: disable=protected-access
 
     for (param_name, region), p_info in root_params.items():
         # All meta values are stored as generic value (AKA no units)
-- 
2.43.0


From af2f04a7342d6b4b94ba5534b517da7400a9d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 23/50] fix: treat timeseries from a data frame with duplicate
 index labels separately

---
 openscm/scmdataframe/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 63ee8ff..578b6d3 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -387,6 +387,10 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             (_df, _meta) = _read_file(data, **kwargs)
 
+        if _df.columns.has_duplicates:
+            # every timeseries needs its own label
+            _df.columns = _meta.index = pd.RangeIndex(len(_meta))
+
         self._time_points = TimePoints(_df.index.values)
         _df.index = self._time_points.to_index()
         _df = _df.astype(float)
-- 
2.43.0


From a6c6bc7130882ca5d3b115ef091a2bcb3c788004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 24/50] fix: leave no trace of a timeseries request with
 invalid or uncovered time points

---
 openscm/core/parameterset.py | 37 +++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index f153eb9..ae5efe1 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -13,7 +13,7 @@ from .parameters import (
     _Parameter,
 )
 from .regions import _Region
-from .time import ExtrapolationType, InterpolationType
+from .time import ExtrapolationType, InterpolationType, TimeseriesConverter
 from .units import UnitConverter
 from .views import GenericView, ScalarView, TimeseriesView
 
@@ -220,15 +220,34 @@ class ParameterSet:
         timeseries_type = ParameterType.from_timeseries_type(timeseries_type)
         interpolation = InterpolationType.from_interpolation_type(interpolation)
         extrapolation = ExtrapolationType.from_extrapolation_type(extrapolation)
-        UnitConverter(unit, unit)  # fail before anything is created if unit is unknown
-        parameter = self._get_or_create_parameter(
-            name, self._get_or_create_region(region)
-        )
-
+        # fail before anything is created if unit is unknown or time points are invalid
+        UnitConverter(unit, unit)
+        region_ = self._get_or_create_region(region)
+        if region_.get_parameter(name) is None:
+            TimeseriesConverter(
+                time_points, time_points, timeseries_type, interpolation, extrapolation
+            )
+        parameter = self._get_or_create_parameter(name, region_)
+
+        previous_type = parameter.parameter_type
+        previous_read = parameter.has_been_read_from
         parameter.attempt_read(timeseries_type, unit, time_points)
-        return TimeseriesView(
-            parameter, unit, time_points, timeseries_type, interpolation, extrapolation
-        )  # TimeseriesView
+        try:
+            return TimeseriesView(
+                parameter,
+                unit,
+                time_points,
+                timeseries_type,
+                interpolation,
+                extrapolation,
+            )
+        except Exception:
+            # e.g. time points are not covered by a child parameter
+            parameter.has_been_read_from = previous_read
+            if previous_type is None:
+                parameter.parameter_type = None
+                parameter.unit = None
+            raise
 
     def generic(
         self, name: HierarchicalName, region: HierarchicalName = ("World",)
-- 
2.43.0


From 85c45bae11befa3b25aa30282cf24218fbb9a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 25/50] fix: convert time points of any datetime64 resolution
 to seconds

---
 openscm/core/time.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index efae99b..f346ced 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -366,6 +366,26 @@ def _calc_integral_preserving_linear_interpolation(values: np.ndarray) -> np.nda
     )
 
 
+def _to_seconds(time_points: np.ndarray) -> np.ndarray:
+    """
+    Convert time points to seconds.
+
+    Parameters
+    ----------
+    time_points
+        Time points; if given as :class:`np.datetime64` these can be of any resolution
+
+    Returns
+    -------
+    np.ndarray
+        Time points as (integer) seconds
+    """
+    time_points = np.array(time_points)
+    if time_points.dtype.kind == "M":
+        time_points = time_points.astype("datetime64[s]")
+    return time_points.astype(_TARGET_TYPE, copy=True)
+
+
 class TimeseriesConverter:
     """
     Converts timeseries and their points between two timeseriess (each defined by a time
@@ -416,8 +436,8 @@ class TimeseriesConverter:
         InsufficientDataError
             Timeseries too short to extrapolate
         """
-        self._source = np.array(source_time_points).astype(_TARGET_TYPE, copy=True)
-        self._target = np.array(target_time_points).astype(_TARGET_TYPE, copy=True)
+        self._source = _to_seconds(source_time_points)
+        self._target = _to_seconds(target_time_points)
         self._timeseries_type = timeseries_type
         self._interpolation_type = interpolation_type
         self._extrapolation_type = extrapolation_type
-- 
2.43.0


From bc17cc2776a01e3d4b2934d1a4fbea23aa0ba33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 26/50] fix: always discard data of a timeseries view whose
 write has been rejected

---
 openscm/core/views.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 9306e50..6f89903 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -425,12 +425,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
 
     def _discard_cache(self):
-        if self.empty:
-            self._data = None
-            self._timeseries = None
-        else:
-            self._update_cache(self._get_values())
-            self._version = self._parameter.version
+        self._version = -1  # forces the next read to get the parameter's data
 
     def _get_values(self) -> np.ndarray:
         if self._parameter.children:
-- 
2.43.0


From 2d07665c6b95469edc37c40c1be3605c4a1e94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 27/50] fix: do not miss short periods when averaging
 timeseries over longer ones

---
 openscm/core/time.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index f346ced..631ada9 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -314,9 +314,16 @@ def _calc_interval_averages(
     # TODO: numerical integration here could be very expensive
     # TODO: update to include caching and/or analytic solutions depending on interpolation choice
     int_averages = [np.nan] * len(target_intervals[:-1])
+    # integrate between the kinks of the continuous function: the numerical integration
+    # does not resolve features that are short compared to the target interval
+    kinks = np.asarray(getattr(continuous_representation, "x", []))
     for i, l in enumerate(target_intervals[:-1]):
         u = target_intervals[i + 1]
-        y, _ = integrate.quad(continuous_representation, l, u)
+        points = [l, *kinks[(kinks > l) & (kinks < u)], u]
+        y = sum(
+            integrate.quad(continuous_representation, a, b)[0]
+            for a, b in zip(points[:-1], points[1:])
+        )
         int_averages[i] = y / (u - l)
 
     return np.array(int_averages)
-- 
2.43.0


From dfe4e65a3d780da1cadf621d5d9a79eb050193ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 28/50] fix: define sulfur as a base unit so that S, SO2 and
 SOx can be used

---
 openscm/core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 6d23e2d..3f01a78 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -136,7 +136,7 @@ _standard_gases = {
     "NOx": "NOx",
     "nox": ["NOx"],
     "NH3": ["14/17 * N", "ammonia"],
-    "S": ["sulfur"],
+    "S": "sulfur",
     "SO2": ["32/64 * S", "sulfur_dioxide"],
     "SOx": ["SO2"],
     "BC": "black_carbon",
-- 
2.43.0


From 3ffdaca164c65761669c424ac0eb2f0e9da234c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 29/50] fix: make degreeC and degreeF aliases of degC and degF
 including their offsets

---
 openscm/core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 3f01a78..bf5d70c 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -261,8 +261,8 @@ class ScmUnitRegistry(pint.UnitRegistry):  # type: ignore
         self.define("a = 1 * year = annum = yr")
         self.define("h = hour")
         self.define("d = day")
-        self.define("degreeC = degC")
-        self.define("degreeF = degF")
+        self.define("@alias degC = degreeC")
+        self.define("@alias degF = degreeF")
         self.define("kt = 1000 * t")  # since kt is used for "knot" in the defaults
 
         self.define("ppt = [concentrations]")
-- 
2.43.0


From 95b15ef03ca0413f5486d5d262da20773a847cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 30/50] fix: do not depend on today's date when parsing time
 strings without day or month

---
 openscm/core/time.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 631ada9..0088d7d 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -108,7 +108,14 @@ def _float_year_to_datetime(inp: float) -> np.datetime64:
 
 
 _ufunc_float_year_to_datetime = np.frompyfunc(_float_year_to_datetime, 1, 1)
-_ufunc_str_to_datetime = np.frompyfunc(parser.parse, 1, 1)
+
+
+def _str_to_datetime(inp: str) -> datetime.datetime:
+    # parts not given (e.g. the day) default to the earliest, not to those of today
+    return parser.parse(inp, default=datetime.datetime(1, 1, 1))
+
+
+_ufunc_str_to_datetime = np.frompyfunc(_str_to_datetime, 1, 1)
 
 
 def _parse_datetime(inp: np.ndarray) -> np.ndarray:
-- 
2.43.0


From b1eae19e1c1425ac9e0610ac848abe3eb4f70cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 31/50] fix: support year 9999 given as float or string

---
 openscm/core/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 0088d7d..2ef6c60 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -99,7 +99,9 @@ def _float_year_to_datetime(inp: float) -> np.datetime64:
     ) + np.timedelta64(  # pylint: disable=too-many-function-args
         int(
             (
-                datetime.datetime(year + 1, 1, 1) - datetime.datetime(year, 1, 1)
+                datetime.datetime(year, 12, 31)
+                - datetime.datetime(year, 1, 1)
+                + datetime.timedelta(days=1)
             ).total_seconds()
             * fractional_part
         ),
-- 
2.43.0


From 69c5017fe19d700f96c88a6ca6aff240e3407486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 32/50] fix: support years given as unsigned integers

---
 openscm/core/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 2ef6c60..0f557fb 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -157,7 +157,8 @@ def _format_datetime(dts: np.ndarray) -> np.ndarray:
     if issubclass(dtype, np.floating):
         return _ufunc_float_year_to_datetime(dts).astype("datetime64[s]")
     if issubclass(dtype, np.integer):
-        return (np.asarray(dts) - 1970).astype("datetime64[Y]").astype("datetime64[s]")
+        years = np.asarray(dts).astype(_TARGET_TYPE)  # signed, as offset can be negative
+        return (years - 1970).astype("datetime64[Y]").astype("datetime64[s]")
     if issubclass(dtype, str):
         return _parse_datetime(dts).astype("datetime64[s]")
     return np.asarray(dts, dtype="datetime64[s]")
-- 
2.43.0


From 1b7697f734ab82e9cac911853f6844742955333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:38 +0000
Subject: [PATCH 33/50] fix: do not round the interpolated forcing of other
 greenhouse gases in DICE

---
 openscm/adapters/dice.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index d0f3d09..aff1e21 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -338,9 +338,11 @@ class DICE(Adapter):
         ):
             forcoth = v.fex1.value
         else:
+            # divide the time spans first, multiplying them by a float would round them
             forcoth = v.fex0.value + (v.fex1.value - v.fex0.value) * (
-                v.period_length.value * self._timestep
-            ) / (v.forcoth_saturation_time.value - v.start_time.value)
+                (v.period_length.value * self._timestep)
+                / (v.forcoth_saturation_time.value - v.start_time.value)
+            )
 
         # Original: "Increase in radiative forcing (watts per m2 from 1900)"
         v.forc.values[self._timestep] = (
-- 
2.43.0


From bd5e89809cd5812b0f8c96700414bcc80726eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:04 +0000
Subject: [PATCH 34/50] fix: keep the order of timeseries when setting metadata
 by index

---
 openscm/scmdataframe/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 578b6d3..4cf2bac 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -947,6 +947,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             )
             .reset_index()
             .set_index("index")
+            .loc[self._meta.index]
         )
         # Edge case of using a different index on meta
         if "level_0" in self._meta:
-- 
2.43.0


From de1f98cdbb41fb3ef85618c5ed676f823d705e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:25 +0000
Subject: [PATCH 35/50] fix: do not share the time points of a data frame with
 the caller

---
 openscm/core/time.py         | 2 +-
 openscm/scmdataframe/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 0f557fb..92fd9b2 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -181,7 +181,7 @@ class TimePoints:  # TODO: track type of timeseries
         values
             Time points array to handle
         """
-        self._values = _format_datetime(np.asarray(values))
+        self._values = _format_datetime(np.array(values))
 
     @property
     def values(self) -> np.ndarray:
diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4cf2bac..1528cf9 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -542,7 +542,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         Time points of the data
         """
-        return self._time_points.values
+        return self._time_points.values.copy()
 
     def timeseries(self, meta: Optional[List[str]] = None) -> pd.DataFrame:
         """
-- 
2.43.0


From e42ff823216296e1e22282c16048693d114f8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 36/50] fix: leave data and index passed to a data frame
 together with columns unchanged

---
 openscm/scmdataframe/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 1528cf9..23b7b64 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -231,8 +231,8 @@ def _from_ts(
     ValueError
         Not all required columns are present
     """
-    if not isinstance(df, pd.DataFrame):
-        df = pd.DataFrame(df)
+    # do not touch the data and index passed in
+    df = pd.DataFrame(df).copy()
     if index is not None:
         if isinstance(index, np.ndarray):
             df.index = TimePoints(index).to_index()
@@ -244,7 +244,7 @@ def _from_ts(
         missing = list(set(REQUIRED_COLS) - set(columns.keys()))
         raise ValueError("missing required columns `{}`!".format(missing))
 
-    df.index.name = "time"
+    df.index = df.index.rename("time")
 
     num_ts = len(df.columns)
     for c_name, col in columns.items():
-- 
2.43.0


From 1a769b5087d6f497b66c93e59d7a6a90f920a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:07 +0000
Subject: [PATCH 37/50] fix: support filtering data frames which are empty by
 time

---
 openscm/core/time.py            | 12 +++++++-----
 openscm/scmdataframe/base.py    |  4 ++--
 openscm/scmdataframe/filters.py |  6 +++---
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 92fd9b2..e5218c4 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -211,7 +211,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Year of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "year")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "year")
 
     def months(self) -> np.ndarray:
         """
@@ -222,7 +222,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Month of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "month")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "month")
 
     def days(self) -> np.ndarray:
         """
@@ -233,7 +233,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "day")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "day")
 
     def hours(self) -> np.ndarray:
         """
@@ -244,7 +244,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Hour of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "hour")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "hour")
 
     def weekdays(self) -> np.ndarray:
         """
@@ -255,7 +255,9 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of the week of each time point
         """
-        return np.vectorize(datetime.datetime.weekday)(self._values.astype(object))
+        return np.vectorize(datetime.datetime.weekday, otypes=[int])(
+            self._values.astype(object)
+        )
 
 
 def create_time_points(  # TODO: replace by simpler function
diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 23b7b64..6e85076 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -716,8 +716,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             Filtering cannot be performed on requested column
         """
         regexp = filters.pop("regexp", False)
-        keep_ts = np.array([True] * len(self._data))
-        keep_meta = np.array([True] * len(self.meta))
+        keep_ts = np.array([True] * len(self._data), dtype=bool)
+        keep_meta = np.array([True] * len(self.meta), dtype=bool)
 
         # filter by columns and list of values
         for col, values in filters.items():
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 422af62..63fe760 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -34,7 +34,7 @@ def is_in(vals: List, items: List) -> np.ndarray:
         Array of the same length as :obj:`vals` where the element is ``True`` if the
         corresponding element of :obj:`vals` is in :obj:`items` and False otherwise
     """
-    return np.array([v in items for v in vals])
+    return np.array([v in items for v in vals], dtype=bool)
 
 
 def find_depth(
@@ -101,7 +101,7 @@ def find_depth(
     def apply_test(val):
         return test(len(pipe.findall(val.replace(regexp, ""))))
 
-    return np.array([b for b in [apply_test(m) for m in meta_col]])
+    return np.array([b for b in [apply_test(m) for m in meta_col]], dtype=bool)
 
 
 def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
@@ -151,7 +151,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
         Filtering is performed on a string metadata column which contains
         :class:`np.nan` and :obj:`has_nan` is ``False``
     """
-    matches = np.array([False] * len(meta_col))
+    matches = np.array([False] * len(meta_col), dtype=bool)
     _values = (
         [values]
         if not isinstance(values, Iterable) or isinstance(values, str)
-- 
2.43.0


From dc23182269fc3c290123b92517a2deebe474a6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 38/50] fix: leave data frame unchanged when setting times of
 the wrong length

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 6e85076..e2a25f9 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -449,8 +449,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Provides direct access to set "time" as well as the columns in :attr:`meta`.
         """
         if key == "time":
-            self._time_points = TimePoints(value)
-            self._data.index = self._time_points.to_index()
+            time_points = TimePoints(value)
+            self._data.index = time_points.to_index()
+            self._time_points = time_points
             return value
         return self.set_meta(value, name=key)
 
-- 
2.43.0


From 72df457deca655143ce7896412279524bb5b59c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:39 +0000
Subject: [PATCH 39/50] fix: offsets roll and step over datetimes beyond
 pandas' limits

---
 openscm/scmdataframe/offsets.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 93b2f94..37e5585 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -18,6 +18,7 @@ from pandas.tseries.offsets import (
     BusinessMixin,
     DateOffset,
     NaT,
+    Tick,
     as_datetime,
     conversion,
     normalize_date,
@@ -59,6 +60,22 @@ def apply_dt(func, self):
     return wrapper
 
 
+def wrap_apply(offset):
+    """
+    Make ``apply`` of an offset return datetimes, also outside panda's limited time
+    range.
+    """
+    if isinstance(offset, Tick):
+        # pandas adds fixed lengths of time to :class:`pd.Timestamp` only
+        delta = offset.delta.to_pytimedelta()
+        func = apply_dt(lambda _, other: other + delta, offset)
+    else:
+        func = apply_dt(type(offset).apply.__wrapped__, offset)
+    object.__setattr__(offset, "apply", func)
+
+    return offset
+
+
 def apply_rollforward(obj):
     """
     Roll provided date forward to next offset, only if not on offset.
@@ -67,7 +84,8 @@ def apply_rollforward(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt + obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            step = wrap_apply(obj.__class__(1, normalize=obj.normalize, **obj.kwds))
+            dt = step.apply(dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -81,7 +99,8 @@ def apply_rollback(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt - obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            step = wrap_apply(obj.__class__(-1, normalize=obj.normalize, **obj.kwds))
+            dt = step.apply(dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -119,15 +138,7 @@ def to_offset(rule: str) -> DateOffset:
             "Invalid rule for offset - Business related offsets are not supported"
         )
 
-    def wrap_funcs(fname):
-        # Checks if the function has been wrapped and replace with `apply_dt` wrapper
-        func = getattr(offset, fname)
-
-        if hasattr(func, "__wrapped__"):  # pragma: no cover
-            orig_func = func.__wrapped__
-            object.__setattr__(offset, fname, apply_dt(orig_func, offset))
-
-    wrap_funcs("apply")
+    wrap_apply(offset)
     object.__setattr__(offset, "rollforward", apply_rollforward(offset))
     object.__setattr__(offset, "rollback", apply_rollback(offset))
 
-- 
2.43.0


From 4b455114f0da593cd6982b04f5eb98168c1d309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 40/50] fix: offset ranges cover the end of the requested span

---
 openscm/scmdataframe/offsets.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 37e5585..88d789d 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -246,15 +246,13 @@ def generate_range(
      datetime.datetime(2005, 4, 1, 0, 0),
      datetime.datetime(2005, 7, 1, 0, 0)]
     """
-    # Get the bounds
-    start = offset.rollback(start)
-    end = offset.rollforward(end)
-
-    # Iterate to find all the required timesteps
-    current = start
-    while current <= end:
-        yield current
+    # Get the lower bound
+    current = offset.rollback(start)
+    yield current
 
+    # Iterate to find all the required timesteps, the last one must not be before end
+    # (whatever its time of day and however many steps are taken at once)
+    while current < end:
         next_current = offset.apply(current)
         if next_current <= current:
             raise ValueError(  # pragma: no cover  # emergency valve
@@ -262,3 +260,4 @@ def generate_range(
             )
 
         current = next_current
+        yield current
-- 
2.43.0


From 7402ce5b05b2c1ec17245661acd405469ed2637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:41 +0000
Subject: [PATCH 41/50] fix: process_over keeps groups with missing metadata

---
 openscm/scmdataframe/base.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index e2a25f9..e9950f6 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1224,16 +1224,33 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         cols = [cols] if isinstance(cols, str) else cols
         ts = self.timeseries()
         group_cols = list(set(ts.index.names) - set(cols))
+
+        # pandas drops groups with missing metadata, see
+        # https://github.com/pandas-dev/pandas/issues/3729
+        na_fill_value = "<missing>"
+        meta = ts.index.to_frame()
+        has_missing = meta.isnull().values.any()
+        if has_missing:
+            ts.index = pd.MultiIndex.from_frame(meta.fillna(na_fill_value))
+
         grouper = ts.groupby(group_cols)
 
         if operation == "median":
-            return grouper.median(**kwargs)
-        if operation == "mean":
-            return grouper.mean(**kwargs)
-        if operation == "quantile":
-            return grouper.quantile(**kwargs)
+            res = grouper.median(**kwargs)
+        elif operation == "mean":
+            res = grouper.mean(**kwargs)
+        elif operation == "quantile":
+            res = grouper.quantile(**kwargs)
+        else:
+            raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
 
-        raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
+        if has_missing:
+            meta = res.index.to_frame().replace(na_fill_value, np.nan)
+            res.index = pd.MultiIndex.from_frame(
+                meta.infer_objects(), names=res.index.names
+            )
+
+        return res
 
     def convert_unit(
         self,
-- 
2.43.0


From 218b6b870d9d9da6c11cc87cbd521a070f48ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 42/50] fix: relative_to_ref_period_mean with missing metadata

---
 openscm/scmdataframe/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index e9950f6..b7538f5 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1340,11 +1340,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         ts = self.timeseries()
         # mypy confused by `inplace` default
-        ref_period_mean = (
-            self.filter(**kwargs).timeseries().mean(axis="columns")  # type: ignore
-        )
+        ref_period = self.filter(**kwargs)._data  # type: ignore
+        # pandas cannot align on missing metadata
+        ref_period_mean = ref_period.astype(float).mean().reindex(self._data.columns)
 
-        res = ts.sub(ref_period_mean, axis="rows")
+        res = ts.sub(ref_period_mean.values, axis="rows")
         res.reset_index(inplace=True)
 
         if append_str is None:
-- 
2.43.0


From f0e69f188c55d781a8c73b9f4908a9da9e0ee7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:11 +0000
Subject: [PATCH 43/50] fix: sort table data by time rather than by the text of
 the times

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index b7538f5..e93f7e4 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -152,8 +152,9 @@ def _format_data(  # pylint: disable=missing-return-doc
     else:
         df, meta = _format_wide_data(df)
 
-    # sort data
-    df.sort_index(inplace=True)
+    # sort data by time (the index may still be e.g. strings)
+    order = np.argsort(TimePoints(df.index.values).values, kind="mergesort")
+    df = df.iloc[order]
 
     return df, meta
 
-- 
2.43.0


From 4ef40bad3d195fcfca0f697e9e68bc4f5b15d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:33 +0000
Subject: [PATCH 44/50] fix: interpolate onto target times given as years

---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index e93f7e4..d2ecbfc 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -993,7 +993,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         # pylint: disable=protected-access
 
-        target_times = np.asarray(target_times, dtype="datetime64[s]")
+        target_times = TimePoints(target_times).values
 
         # Need to keep an object index or pandas will not be able to handle a wide
         # time range
-- 
2.43.0


From 316913a4d3a910a6bc3febbe87cfc558f474b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 45/50] fix: mixed lists of times read each entry by its own
 type

---
 openscm/core/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index e5218c4..2b47164 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -151,6 +151,8 @@ def _format_datetime(dts: np.ndarray) -> np.ndarray:
 
     dtype = dts.dtype.type
     if dts.dtype.kind == "O":
+        if len({type(v) for v in dts}) > 1:  # each entry is to be read by its own type
+            return np.concatenate([_format_datetime(np.array([v])) for v in dts])
         dtype = np.dtype(type(dts[0])).type
     if issubclass(dtype, np.datetime64):
         return np.asarray(dts, dtype="datetime64[s]")
-- 
2.43.0


From 7aa27da773c090a88f31ac89f315dfc685c6057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:57 +0000
Subject: [PATCH 46/50] fix: write what ufunc.at changes in a timeseries view
 to its parameter

---
 openscm/core/views.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 6f89903..ac88eab 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -53,6 +53,12 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
                 for result, output in zip(results, outputs)
             )
             return results[0] if len(results) == 1 else results
+        if method == "at" and isinstance(inputs[0], type(self)):
+            # the only method which changes its first input
+            inputs[0].__prepare_write__()
+            self._ndarray.__array_ufunc__(ufunc, method, *args, **kwargs)
+            inputs[0].__write__()
+            return None
         return self._ndarray.__array_ufunc__(ufunc, method, *args, **kwargs)
 
     @property
-- 
2.43.0


From 9cb33d7c902ddd122fa0ad4e441557a4358e324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:57 +0000
Subject: [PATCH 47/50] fix: do not hand out the data of a timeseries view when
 converting it to an array

---
 openscm/core/views.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index ac88eab..15ba47c 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -139,7 +139,8 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     def __array__(self, dtype=None):
         self.__read__()
-        return np.asarray(self._ndarray, dtype=dtype)
+        # changes of the array are not written so it must not be the view's own
+        return np.array(self._ndarray, dtype=dtype)
 
     def __len__(self):
         return len(self._ndarray)
-- 
2.43.0


From a45334018d680ce90cdcfd6c5c77cd05c6e80e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:40 +0000
Subject: [PATCH 48/50] fix: metadata given as arrays, tuples or pandas objects
 of length 1 or n are taken as values

---
 openscm/scmdataframe/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index d2ecbfc..21c0d21 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -254,6 +254,7 @@ def _from_ts(
         )
 
         if len(col_list) == num_ts:
+            columns[c_name] = list(col_list)
             continue
         if len(col_list) != 1:
             error_msg = (
@@ -261,7 +262,7 @@ def _from_ts(
                 "1 or {}".format(c_name, num_ts)
             )
             raise ValueError(error_msg)
-        columns[c_name] = col_list * num_ts
+        columns[c_name] = list(col_list) * num_ts
 
     meta = pd.DataFrame(columns, index=df.columns)
 
-- 
2.43.0


From 82944c866d51123eb70f20d0a0d6cf07d379dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:51 +0000
Subject: [PATCH 49/50] fix: set_meta with an index works with metadata named
 index or level_0

---
 openscm/scmdataframe/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 21c0d21..0459335 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -935,7 +935,10 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             meta.index = index.get_level_values(0)
 
         old = self._meta.get(name)
-        df = self.meta.drop(name, axis=1, errors="ignore").reset_index()
+        df = self.meta.drop(name, axis=1, errors="ignore")
+        # a name no metadata has
+        position = "_".join(["position", *map(str, df.columns)])
+        df = df.rename_axis(position).reset_index()
         if all(index.names):
             df = df.set_index(index.names)
         # keep the order of the timeseries so that meta and data stay aligned
@@ -948,13 +951,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                 how="left",
                 validate="many_to_one",
             )
-            .reset_index()
-            .set_index("index")
+            .reset_index(drop=not all(index.names))
+            .set_index(position)
             .loc[self._meta.index]
+            .rename_axis(self._meta.index.name)
         )
-        # Edge case of using a different index on meta
-        if "level_0" in self._meta:
-            self._meta.drop("level_0", axis=1, inplace=True)
         if old is not None:
             # other timeseries keep their metadata
             self._meta[name] = self._meta[name].combine_first(old)
-- 
2.43.0


From 0563701a8faf7abd5535258474eeb731624d8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:46 +0000
Subject: [PATCH 50/50] fix: filters take values given as series, sets or
 tuples

---
 openscm/scmdataframe/base.py    | 7 ++++---
 openscm/scmdataframe/filters.py | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 0459335..ba690eb 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -777,10 +777,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
     def _day_match(self, values):
         if isinstance(values, str):
             wday = True
-        elif isinstance(values, list) and isinstance(values[0], str):
-            wday = True
-        else:
+        elif isinstance(values, int):
             wday = False
+        else:  # any kind of list
+            values = list(values)
+            wday = isinstance(values[0], str)
 
         if wday:
             days = self._time_points.weekdays()
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 63fe760..8ecb355 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -34,6 +34,8 @@ def is_in(vals: List, items: List) -> np.ndarray:
         Array of the same length as :obj:`vals` where the element is ``True`` if the
         corresponding element of :obj:`vals` is in :obj:`items` and False otherwise
     """
+    # ``in`` looks at the index of a :class:`pd.Series`, not at its values
+    items = list(items)
     return np.array([v in items for v in vals], dtype=bool)
 
 
@@ -341,7 +343,7 @@ def time_match(
         increasing integers (i.e. "Nov-Feb" will not work, one must use ["Nov-Dec",
         "Jan-Feb"] instead)
     """
-    times_list = [times] if isinstance(times, (int, str)) else times
+    times_list = [times] if isinstance(times, (int, str)) else list(times)
 
     def conv_strs(strs_to_convert, conv_codes, name):
         res = None
-- 
2.43.0

