From e805937faae00fcfc4b5f1556c9d9fac9c81e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 01/22] fix: pass keyword arguments of to_excel on to pandas by
 name

---
 portfolyo/core/shared/excelclipboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/excelclipboard.py b/portfolyo/core/shared/excelclipboard.py
index 80d77ad..d72068d 100644
--- a/portfolyo/core/shared/excelclipboard.py
+++ b/portfolyo/core/shared/excelclipboard.py
@@ -23,4 +23,4 @@ class ExcelClipboardOutput:  # for both PfLine and PfState
 
     @functools.wraps(pd.DataFrame.to_excel)
     def to_excel(self: NDFrameLike, *args, **kwargs) -> None:
-        prepare_df(self).to_excel(*args, *kwargs)
+        prepare_df(self).to_excel(*args, **kwargs)
-- 
2.43.0


From d909de3d010b432fc45eb4e29893d37915d433b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 02/22] fix: order of children in sum of nested portfolio lines
 no longer depends on hash seed

---
 portfolyo/core/pfline/arithmatic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 7acea4f..299800c 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -238,7 +238,7 @@ class Add:
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
     def two_nestedpflines(pfl1: NestedPfLine, pfl2: NestedPfLine) -> NestedPfLine:
         newchildren = {}  # collect children and add those with same name
-        for name in set([*pfl1, *pfl2]):
+        for name in dict.fromkeys([*pfl1, *pfl2]):  # unique names, in fixed order
             if name in pfl1 and name in pfl2:
                 newchildren[name] = pfl1[name] + pfl2[name]
             elif name in pfl1:
-- 
2.43.0


From ec034a34019c36ce1a2d345d5ab0c2f4d61dc653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 03/22] fix: export of dataframe without units

---
 portfolyo/core/pfline/dataframeexport.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/dataframeexport.py b/portfolyo/core/pfline/dataframeexport.py
index bd6ee9a..288cbcc 100644
--- a/portfolyo/core/pfline/dataframeexport.py
+++ b/portfolyo/core/pfline/dataframeexport.py
@@ -36,8 +36,9 @@ class Flat:
         """
         cols = cols or "wqpr"  # in case nothing was specified.
         cols = [col for col in cols if col in "wqpr" and col in self.kind.available]
-        df = pd.DataFrame({col: self.df[col] for col in cols})
-        return df if has_units else df.pint.m
+        if has_units:
+            return pd.DataFrame({col: self.df[col] for col in cols})
+        return pd.DataFrame({col: self.df[col].pint.m for col in cols})
 
 
 class Nested:
-- 
2.43.0


From 608f0ef8f8c7c993ccc1ee661f15cb638b2e2e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 04/22] fix: copying of nested portfolio line no longer causes
 infinite recursion

---
 portfolyo/core/pfline/children.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/children.py b/portfolyo/core/pfline/children.py
index c118f34..7c69501 100644
--- a/portfolyo/core/pfline/children.py
+++ b/portfolyo/core/pfline/children.py
@@ -75,6 +75,7 @@ class ChildFunctionality(Mapping):
     def __getattr__(
         self: NestedPfLine, name: str
     ):  # allow access to children by attribute
-        if name not in self.children:
+        # NB: 'children' is not set yet while instance is being copied or unpickled.
+        if name == "children" or name not in self.children:
             raise AttributeError(f"No such attribute '{name}'.")
         return self.children[name]
-- 
2.43.0


From ce1067d9391763ed07f11e1d8955785eaefbfc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 05/22] fix: reindexing of nested portfolio line

---
 portfolyo/core/pfline/nested_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index ee30c05..10e4da4 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -55,8 +55,8 @@ def slice(self: NestedPfLine) -> SliceIndexer:
 
 
 def reindex(self: NestedPfLine, index: pd.DatetimeIndex) -> NestedPfLine:
-    newchildren = {name: child.reindex(index) for name, child in self.pfl.items()}
-    return self.pfl.__class__(newchildren)
+    newchildren = {name: child.reindex(index) for name, child in self.items()}
+    return self.__class__(newchildren)
 
 
 class LocIndexer:
-- 
2.43.0


From db3b75ce7322c8e8afcea59746d0b12b07f71de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 06/22] fix: peak function keeps own copy of the weekdays

---
 portfolyo/tools/peakfn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 802874b..d23b6b2 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -57,6 +57,7 @@ def factory(
         peak_right = MIDNIGHT
     if isoweekdays is None:
         isoweekdays = [1, 2, 3, 4, 5]
+    isoweekdays = tuple(isoweekdays)  # also if caller later changes the original
 
     # Characterize the input.
     must_check_time = not (peak_left == MIDNIGHT and peak_right == MIDNIGHT)
-- 
2.43.0


From 280068944313fd836796ad7c4484d5b3757acb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 07/22] fix: changing timeseries obtained from portfolio line
 no longer changes the portfolio line

---
 portfolyo/core/pfline/classes.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/portfolyo/core/pfline/classes.py b/portfolyo/core/pfline/classes.py
index a2c1586..c92f685 100644
--- a/portfolyo/core/pfline/classes.py
+++ b/portfolyo/core/pfline/classes.py
@@ -234,10 +234,14 @@ class PfLine(
         ...
 
 
+# The series are returned as copies, so that changing them does not change the (immutable)
+# portfolio line.
+
+
 class VolumePfLine:
     kind = Kind.VOLUME
-    w = property(lambda self: self.df["w"])
-    q = property(lambda self: self.df["q"])
+    w = property(lambda self: self.df["w"].copy())
+    q = property(lambda self: self.df["q"].copy())
     p = series_property_raising_typeerror("price")
     r = series_property_raising_typeerror("revenue")
     volume = property(lambda self: self)
@@ -249,7 +253,7 @@ class PricePfLine:
     kind = Kind.PRICE
     w = series_property_raising_typeerror("volume")
     q = series_property_raising_typeerror("volume")
-    p = property(lambda self: self.df["p"])
+    p = property(lambda self: self.df["p"].copy())
     r = series_property_raising_typeerror("revenue")
     volume = series_property_raising_typeerror("volume")
     price = property(lambda self: self)
@@ -261,7 +265,7 @@ class RevenuePfLine:
     w = series_property_raising_typeerror("volume")
     q = series_property_raising_typeerror("volume")
     p = series_property_raising_typeerror("price")
-    r = property(lambda self: self.df["r"])
+    r = property(lambda self: self.df["r"].copy())
     volume = series_property_raising_typeerror("volume")
     price = series_property_raising_typeerror("price")
     revenue = property(lambda self: self)
@@ -269,10 +273,10 @@ class RevenuePfLine:
 
 class CompletePfLine:
     kind = Kind.COMPLETE
-    w = property(lambda self: self.df["w"])
-    q = property(lambda self: self.df["q"])
-    p = property(lambda self: self.df["p"])
-    r = property(lambda self: self.df["r"])
+    w = property(lambda self: self.df["w"].copy())
+    q = property(lambda self: self.df["q"].copy())
+    p = property(lambda self: self.df["p"].copy())
+    r = property(lambda self: self.df["r"].copy())
     # volume => on child clasess
     # price => on child clasess
     # revenue => on child classes
-- 
2.43.0


From da0e7af5d29783a2d2f0da62e1b289c2c85331f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 08/22] fix: seed value 0 is no longer ignored when creating
 sample data

---
 portfolyo/dev/develop.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/portfolyo/dev/develop.py b/portfolyo/dev/develop.py
index efe7af0..0a9251e 100644
--- a/portfolyo/dev/develop.py
+++ b/portfolyo/dev/develop.py
@@ -29,18 +29,18 @@ def get_index(
 ) -> pd.DatetimeIndex:
     """Get index."""
     # Prepare values.
-    if _seed:
+    if _seed is not None:
         np.random.seed(_seed)
     if not periods:
         standard_len = INDEX_LEN.get(freq, 10)
         periods = np.random.randint(standard_len // 2, standard_len * 2)
     if not startdate:
         a, m, d = 2016, 1, 1  # earliest possible
-        a += np.random.randint(0, 8) if _seed else (periods % 8)
+        a += np.random.randint(0, 8) if _seed is not None else (periods % 8)
         if tools.freq.up_or_down(freq, "MS") <= 0:
-            m += np.random.randint(0, 12) if _seed else (periods % 12)
+            m += np.random.randint(0, 12) if _seed is not None else (periods % 12)
         if tools.freq.up_or_down(freq, "D") <= 0:
-            d += np.random.randint(0, 28) if _seed else (periods % 28)
+            d += np.random.randint(0, 28) if _seed is not None else (periods % 28)
         startdate = f"{a}-{m}-{d}"
     if not start_of_day:
         start_of_day = dt.time(hour=0, minute=0)
@@ -70,7 +70,7 @@ def get_value(
     name: str = None, has_unit: bool = True, magn: float = None, *, _seed: int = None
 ) -> float | tools.unit.Q_:
     """Get a single value."""
-    if _seed:
+    if _seed is not None:
         np.random.seed(_seed)
     if magn is None:
         magn = np.random.random() * 200
@@ -94,7 +94,7 @@ def get_series(
         i = get_index(_seed=_seed)
     i.name = "ts_left"
 
-    if _seed:
+    if _seed is not None:
         np.random.seed(_seed)
 
     if name == "w":
@@ -223,7 +223,7 @@ def get_pfline(
     # Gather information.
     if i is None:
         i = get_index(_seed=_seed)
-    if _seed:
+    if _seed is not None:
         np.random.seed(_seed)
     # Create flat pfline.
     if nlevels == 1:
@@ -290,7 +290,7 @@ def get_randompfline(
     # Gather information.
     if i is None:
         i = get_index(_seed=_seed)
-    if _seed:
+    if _seed is not None:
         np.random.seed(_seed)
     nlevels = np.random.randint(1, max_nlevels + 1)
     # Create flat PfLine.
@@ -322,7 +322,7 @@ def get_pfstate(i: pd.DatetimeIndex = None, avg=None, *, _seed: int = None) -> P
     """Get portfolio state."""
     if i is None:
         i = get_index(_seed=_seed)
-    if _seed:
+    if _seed is not None:
         np.random.seed(_seed)
     if avg is None:
         avg = 200 ** np.random.rand()  # between 1 and 200
-- 
2.43.0


From 1897af9bd91dbd1bbf3976af39dd898e1a6767b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 09/22] fix: sum of nested portfolio lines with unequal
 delivery periods keeps only common period

---
 portfolyo/core/pfline/arithmatic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 299800c..bc32b2a 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -237,6 +237,13 @@ class Add:
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
     def two_nestedpflines(pfl1: NestedPfLine, pfl2: NestedPfLine) -> NestedPfLine:
+        # Keep only common rows, also for children that are in only one of the operands.
+        idx = tools.intersect.indices(pfl1.index, pfl2.index)
+        if len(idx) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
+        pfl1, pfl2 = pfl1.loc[idx], pfl2.loc[idx]
         newchildren = {}  # collect children and add those with same name
         for name in dict.fromkeys([*pfl1, *pfl2]):  # unique names, in fixed order
             if name in pfl1 and name in pfl2:
-- 
2.43.0


From 9d002ccff215bcc317439a0b4a389d4969a34dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 10/22] fix: multiplying portfolio lines without overlap raises
 error instead of returning empty portfolio line

---
 portfolyo/core/pfline/arithmatic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index bc32b2a..59d5122 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -268,6 +268,10 @@ class Multiply:
             )
         q, p = (pfl2.q, pfl1.p) if pfl1.kind is Kind.PRICE else (pfl1.q, pfl2.p)
         q, p = tools.intersect.frames(q, p)
+        if len(q.index) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
         r = (q * p).pint.to_base_units()
         constructor = classes.constructor(Structure.FLAT, Kind.REVENUE)
         return constructor(pd.DataFrame({"r": r}))
-- 
2.43.0


From 4984628eade117f32d1e0d3c8e005ac913a036f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 11/22] fix: hedging without any full delivery period raises
 error instead of returning empty portfolio line

---
 portfolyo/core/pfline/flat_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/portfolyo/core/pfline/flat_methods.py b/portfolyo/core/pfline/flat_methods.py
index f74eb35..7f4d8c0 100644
--- a/portfolyo/core/pfline/flat_methods.py
+++ b/portfolyo/core/pfline/flat_methods.py
@@ -62,6 +62,10 @@ def hedge_with(
         )
 
     wout, pout = tools.hedge.hedge(self.w, prices.p, how, peak_fn, freq)
+    if len(wout) == 0:
+        raise ValueError(
+            f"There are no full delivery periods available to hedge with frequency {freq}."
+        )
     df = pd.DataFrame({"w": wout, "p": pout})
     df["q"] = df["w"] * tools.duration.index(df.index)
     df["r"] = df["p"] * df["q"]
-- 
2.43.0


From c7f62249373ae6adb313fdbce9f673b7ea6d7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 12/22] fix: intersecting with ignore_start_of_day works if
 start-of-day is equal

---
 portfolyo/tools/intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index c953d38..3d6c20c 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -171,7 +171,7 @@ def indices_flex(
         end = max(values)
         end = tools_right.stamp(end, longest_freq)
 
-        if ignore_start_of_day is True:
+        if ignore_start_of_day is True and len(distinct_sod) != 1:
             start = datetime.combine(pd.to_datetime(start).date(), start_of_day[i])
             end = datetime.combine(pd.to_datetime(end).date(), start_of_day[i])
             # inclusive = "left"
-- 
2.43.0


From f8628b504544d1d3601af0f57e655bbc284592ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:16 +0000
Subject: [PATCH 13/22] fix: default delivery period for UTC and other
 timezones that are not from pytz

---
 portfolyo/tools/leftandright.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/leftandright.py b/portfolyo/tools/leftandright.py
index d89e3d3..60265ab 100644
--- a/portfolyo/tools/leftandright.py
+++ b/portfolyo/tools/leftandright.py
@@ -66,7 +66,7 @@ def stamps(
         left = tools_floor.stamp(right, "YS", back, start_of_day)
 
     # if we land here, we know left and right.
-    zones = [None if ts.tz is None else ts.tz.zone for ts in [left, right]]
+    zones = [None if ts.tz is None else str(ts.tz) for ts in [left, right]]
     if len(set(zones)) == 2:  # distinct timezones
         raise ValueError(
             f"The timestamps have distinct timezones: {left.tz} and {right.tz}."
-- 
2.43.0


From 767af220a90a892ed9560878b382b4cced99ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 14/22] fix: portfolio lines have default units also after
 resampling and adding

The power of a resampled line had unit MWh/h, and the price of the sum of complete lines
could have unit Eur/h/MW, also in exported tables.
---
 portfolyo/core/pfline/classes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/portfolyo/core/pfline/classes.py b/portfolyo/core/pfline/classes.py
index c92f685..7827fd9 100644
--- a/portfolyo/core/pfline/classes.py
+++ b/portfolyo/core/pfline/classes.py
@@ -80,6 +80,15 @@ class PfLine(
         err = f"Expected columns {self.kind.available}, received {self.df.columns}."
         assert set(self.df.columns) == set(self.kind.available), err
 
+        # Ensure default units; calculations may give equivalent ones (e.g. MWh/h or Eur/h/MW).
+        dtypes = {}
+        for col in self.df.columns:
+            unit = tools.unit.from_name(col)
+            if str(self.df[col].pint.units) != str(unit):
+                dtypes[col] = f"pint[{unit:P}]"
+        if dtypes:
+            object.__setattr__(self, "df", self.df.astype(dtypes))
+
     @property
     @abc.abstractmethod
     def kind(self) -> Kind:
-- 
2.43.0


From 49f3e7581c963981510e29ab6cf388c24d10eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 15/22] fix: price of sum is revenue / volume, also after
 adding opposite volumes

After adding two complete portfolio lines with opposite volumes at distinct prices, the
price was undefined; adding a third gave its price, ignoring the remaining revenue.
---
 portfolyo/core/pfline/arithmatic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 59d5122..5d8d370 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -233,6 +233,9 @@ class Add:
             values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})
             weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})
             newdf["p"] = tools.wavg.dataframe(values, weights, axis=1)
+            # But: if an operand has r!=0 at q==0, only r/q is correct.
+            mask = newdf["q"].pint.magnitude != 0
+            newdf.loc[mask, "p"] = (newdf["r"] / newdf["q"])[mask]
         return pfl1.__class__(newdf)
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
-- 
2.43.0


From 576a17acaf416bda3442d7dde2547ad98cf35b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:10 +0000
Subject: [PATCH 16/22] fix: flexible intersection returns one index for each
 input, also if an input is empty or alone

---
 portfolyo/tools/intersect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index 3d6c20c..94c8ed8 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -99,7 +99,7 @@ def indices_flex(
         raise ValueError("Must specify at least one index.")
 
     if len(idxs) == 1:
-        return idxs[0]
+        return (idxs[0],)
     # convert tuple object into a list
     idxs = list(idxs)
 
@@ -114,7 +114,7 @@ def indices_flex(
 
     empty_idx = [len(i) == 0 for i in idxs]
     if any(empty_idx):
-        return pd.DatetimeIndex([])
+        return tuple([pd.DatetimeIndex([]) for _ in idxs])
 
     # If we land here, we have at least 2 indices, all are not empty.
 
-- 
2.43.0


From 778661b524b7f5d9cc12138fedb55d3dd07c23ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:10 +0000
Subject: [PATCH 17/22] fix: concatenating pieces that meet at a DST transition

---
 portfolyo/tools2/concat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index ff13e1b..5dab640 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -107,6 +107,8 @@ def concat_pflines(pfls: Iterable[PfLine]) -> PfLine:
         # concatenate dataframes into one
         concat_data = pd.concat(dataframes_flat, axis=0)
         try:
+            # Set frequency explicitly; it is lost if pieces meet at a DST transition
+            concat_data = tools.freq.set_to_frame(concat_data, pfls[0].index.freq)
             # Call create.flatpfline() and catch any ValueError
             return create.flatpfline(concat_data)
         except ValueError as e:
-- 
2.43.0


From 57b81759c8566a8ad5fb85d1981d32afce47928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:46 +0000
Subject: [PATCH 18/22] fix: price of sum has unit, also if volume is zero in
 all delivery periods

---
 portfolyo/core/pfline/arithmatic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 5d8d370..d0fbc9a 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -232,7 +232,8 @@ class Add:
             # Calculate price from wavg instead of r/q, to handle edge case p1==p2, q==0.
             values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})
             weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})
-            newdf["p"] = tools.wavg.dataframe(values, weights, axis=1)
+            p = tools.wavg.dataframe(values, weights, axis=1)  # without unit if all NaN
+            newdf["p"] = p.astype(f"pint[{tools.unit.from_name('p'):P}]")
             # But: if an operand has r!=0 at q==0, only r/q is correct.
             mask = newdf["q"].pint.magnitude != 0
             newdf.loc[mask, "p"] = (newdf["r"] / newdf["q"])[mask]
-- 
2.43.0


From 1aeea53fa68fc25cf684446710648513746584ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:57 +0000
Subject: [PATCH 19/22] fix: refused plot leaves axes unchanged; plot
 timeseries with unit without standard name

---
 portfolyo/tools/visualize/plot.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 1ca427b..724a4c3 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -7,6 +7,7 @@ from typing import Callable
 import matplotlib as mpl
 import pandas as pd
 from matplotlib import pyplot as plt
+from pint import UndefinedUnitError
 
 from .. import freq as tools_freq
 from .. import unit as tools_unit
@@ -98,8 +99,8 @@ def plot_timeseries_as_bar(
         raise ContinuousValuesNotSupported(
             "This plot is not compatible with continous values"
         )
-    check_ax_s_compatible(ax, s)
     s = prepare_ax_and_s(ax, s)  # ensure unit compatibility (if possible)
+    check_ax_s_compatible(ax, s)
 
     categories = Categories(s)
     ax.bar(categories.x(), categories.y(), width=width, **kwargs)
@@ -123,8 +124,8 @@ def plot_timeseries_as_area(
         raise CategoricalValuesNotSupported(
             "This plot is not compatible with categorical values"
         )
-    check_ax_s_compatible(ax, s)
     s = prepare_ax_and_s(ax, s)  # ensure unit compatibility (if possible)
+    check_ax_s_compatible(ax, s)
 
     splot = s.copy()  # modified with additional (repeated) datapoint
     splot[splot.index.right[-1]] = splot.values[-1]
@@ -155,8 +156,8 @@ def plot_timeseries_as_step(
         raise CategoricalValuesNotSupported(
             "This plot is not compatible with categorical values"
         )
-    check_ax_s_compatible(ax, s)
     s = prepare_ax_and_s(ax, s)  # ensure unit compatibility (if possible)
+    check_ax_s_compatible(ax, s)
 
     splot = s.copy()  # modified with additional (repeated) datapoint
     splot[splot.index.right[-1]] = splot.values[-1]
@@ -177,8 +178,8 @@ def plot_timeseries_as_hline(
         raise ContinuousValuesNotSupported(
             "This plot is not compatible with continous time axis"
         )
-    check_ax_s_compatible(ax, s)
     s = prepare_ax_and_s(ax, s)  # ensure unit compatibility (if possible)
+    check_ax_s_compatible(ax, s)
     categories = Categories(s)
     # Center around x-tick:
     ax.hlines(
@@ -254,15 +255,11 @@ def prepare_ax_and_s(ax: plt.Axes, s: pd.Series, unit=None) -> pd.Series:
             raise ValueError(
                 f"Cannot convert series with units {s.pint.units} to units {unit}."
             )
-        s = s.astype(unit)
-        set_portfolyo_attr(ax, "unit", unit)
+        s = s.astype(f"pint[{unit}]")
     else:
         # No custom unit provided. Convert series to base units.
         s = s.pint.to_base_units()
-        set_portfolyo_attr(ax, "unit", s.pint.units)
-    # Get unit attribute
-    unit = get_portfolyo_attr(ax, "unit")
-    name_unit = tools_unit.to_name(unit)
+        unit = s.pint.units
     # Define color mapping based on 'Wqpr' class attributes
     unit_colors = {
         "w": Colors.Wqpr.w,
@@ -270,10 +267,15 @@ def prepare_ax_and_s(ax: plt.Axes, s: pd.Series, unit=None) -> pd.Series:
         "r": Colors.Wqpr.r,
         "p": Colors.Wqpr.p,
     }
-    # Set default color if name_unit not found
-    default_color = "white"
+    # Set default color if no (color for) standard name of unit
+    default_color = Colors.General.WHITE.value
+    try:
+        name_unit = tools_unit.to_name(unit)
+    except UndefinedUnitError:
+        name_unit = None
     # Get background color based on name_unit
     background_color = unit_colors.get(name_unit, default_color)
+    set_portfolyo_attr(ax, "unit", unit)
     ax.set_ylabel(f"{unit:~P}", backgroundcolor=background_color.lighten(0.3))
     return s
 
-- 
2.43.0


From 857e97192edd02b98baa58ec1a280785bbe23d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 20/22] fix: hedging groups by delivery period, also if
 start-of-day is not midnight

---
 portfolyo/tools/peakconvert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 67f32fa..f70ff78 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -8,6 +8,7 @@ from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
 from . import peakfn as tools_peakfn
+from . import startofday as tools_startofday
 from . import trim as tools_trim
 from . import wavg as tools_wavg
 
@@ -18,12 +19,13 @@ def group_index(
     i: pd.DatetimeIndex, peak_fn: tools_peakfn.PeakFunction, freq: str
 ) -> pd.MultiIndex:
     """Multiindex, that is the same for all rows that belong to same delivery period."""
-    # Grouping due to delivery period.
-    groups = [i.year]
+    # Grouping due to delivery period. (Which may not start at midnight.)
+    days = i.tz_localize(None) - tools_startofday.get(i, "timedelta")
+    groups = [days.year]
     if freq == "MS":
-        groups.append(i.month)
+        groups.append(days.month)
     elif freq == "QS":
-        groups.append(i.quarter)
+        groups.append(days.quarter)
     elif freq == "YS":
         pass
     else:
-- 
2.43.0


From 276f7a7ced87d90765b4d70a4014f92a59e6662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 21/22] fix: hedging with daily products

---
 portfolyo/tools/peakconvert.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index f70ff78..58fc025 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -22,7 +22,9 @@ def group_index(
     # Grouping due to delivery period. (Which may not start at midnight.)
     days = i.tz_localize(None) - tools_startofday.get(i, "timedelta")
     groups = [days.year]
-    if freq == "MS":
+    if freq == "D":
+        groups.extend([days.month, days.day])
+    elif freq == "MS":
         groups.append(days.month)
     elif freq == "QS":
         groups.append(days.quarter)
@@ -30,7 +32,7 @@ def group_index(
         pass
     else:
         raise ValueError(
-            f"Parameter ``freq`` must be one of 'MS', 'QS', 'YS'; got '{freq}'."
+            f"Parameter ``freq`` must be one of 'D', 'MS', 'QS', 'YS'; got '{freq}'."
         )
 
     # Add grouping due to peak.
-- 
2.43.0


From 03b4c875c17e53e868683fa27848772d3374706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 22/22] fix: conversion to UTC gives the same timezone object
 as pandas, so that results can be combined

---
 portfolyo/tools/tzone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index 32c2df5..624f936 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -1,7 +1,6 @@
 """Tools to deal with timezones."""
 
 import pandas as pd
-import pytz
 
 from . import freq as tools_freq
 from .types import Series_or_DataFrame
@@ -194,7 +193,8 @@ def force_agnostic(fr: Series_or_DataFrame) -> Series_or_DataFrame:
 
 def _A_to_A(fr: Series_or_DataFrame, *, tz: str, floating: bool) -> Series_or_DataFrame:
     if isinstance(tz, str):  # convert to make comparison (below) possible
-        tz = pytz.timezone(tz)
+        # (use same timezone object as pandas)
+        tz = pd.DatetimeIndex([], tz=tz).tz
 
     if fr.index.tz == tz:
         # input already has wanted tz; no conversion necessary
-- 
2.43.0

