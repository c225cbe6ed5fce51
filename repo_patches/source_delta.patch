From 1a784faf6f118115475b1b82e31c8e62a91d09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 01/35] fix: do not append the tail factor to the caller's sel
 Series

---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 4d42209..8647377 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -103,7 +103,8 @@ class BaseChainLadder:
                             )
                         )
 
-                # Append tail factor to sel.
+                # Append tail factor to a copy of sel, leaving the caller's object as is.
+                sel = sel.copy(deep=True)
                 increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
                 sel.loc[sel.index.max() + increment] = tail
 
-- 
2.43.0


From 03794cc7dc09272a364917a97bd8a3ebf92f68eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 02/35] fix: hist() no longer adds a column to the published
 reserve_dist

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3eccf34..e608410 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1327,7 +1327,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         # data1 = data0.groupby("sim", as_index=False)[["reserve"]].sum()
         # data1["origin"] ="total"
         # data = pd.concat([data0, data1])
-        data = self.reserve_dist
+        data = self.reserve_dist.copy(deep=True)
 
         # Get mean, min and max ultimate and reserve by origin.
         med_data = data.groupby("origin", as_index=False)[["reserve"]].median().rename(
-- 
2.43.0


From b226fae883be9ca19ab4d12911fc3c6f86576927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 03/35] fix: bootstrap recognises the first development period
 whatever its label

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index e608410..a93e1ae 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -597,7 +597,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             columns={"cum_final": "samp_cum"})
         dfsqrd = pd.concat([dffcst, dfacts], sort=True).sort_values(
             by=["sim", "origin", "dev"])
-        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == 1) * 1
+        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == dfsqrd["dev"].values.min()) * 1
         dfsqrd["_incr_dev1"] = dfsqrd["_dev1_ind"].values * dfsqrd["samp_cum"].values
         dfsqrd["_incr_dev2"] = dfsqrd.groupby(["sim", "origin"])["samp_cum"].diff(periods=1)
         dfsqrd["_incr_dev2"] = np.where(
-- 
2.43.0


From 8251a9731c0f259ebe534a2b8c78403b8948dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 04/35] fix: triangle cells no longer depend on record order or
 duplicates, and constructors leave data alone

---
 trikit/triangle.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8a0ba2a..4dc24ff 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -46,10 +46,10 @@ class _BaseTriangle(pd.DataFrame):
         value_ = "value" if value is None else value
 
         # data2 = data.copy(deep=True)
-        data2 = self._neg_handler(data, dev_, value_)
-        data2 = data2[[origin_, dev_, value_]]
+        data2 = data[[origin_, dev_, value_]]
         data2 = data2.groupby([origin_, dev_], as_index=False).sum()
         data2 = data2.sort_values(by=[origin_, dev_])
+        data2 = self._neg_handler(data2, dev_, value_)
         tri = data2.pivot(index=origin_, columns=dev_).rename_axis(None)
         tri.columns = tri.columns.droplevel(0)
 
@@ -461,10 +461,15 @@ class _BaseCumTriangle(_BaseTriangle):
     """
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
-        # Replace NaN values with 1.0 in value column.
-        data["cumval"] = data.groupby([origin], as_index=False)[value].cumsum()
-        data = data.drop(value, axis=1)
-        data = data.rename(columns={"cumval": value})
+        self._validate(data, origin=origin, dev=dev, value=value)
+        origin = "origin" if origin is None else origin
+        dev = "dev" if dev is None else dev
+        value = "value" if value is None else value
+
+        # Aggregate by cell and order by development period prior to cumulating.
+        data = data.groupby([origin, dev], as_index=False)[[value]].sum(min_count=1)
+        data = data.sort_values(by=[origin, dev]).reset_index(drop=True)
+        data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
 
         # Properties.
@@ -1374,10 +1379,10 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-            df = data.rename({value: "cum"}, axis=1)
-            df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
-            df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
-            df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
+            df = data.groupby([origin, dev], as_index=False)[[value]].sum(min_count=1)
+            df = df.sort_values(by=[origin, dev]).reset_index(drop=True)
+            incr = df.groupby([origin])[value].diff(periods=1)
+            df[value] = np.where(np.isnan(incr), df[value], incr)
         else:
             df = data
     else:
-- 
2.43.0


From d49bf2571b232ca9531423a2a2fd4bb3f399f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 05/35] fix: triangles built with custom column or index names
 support every operation

---
 trikit/estimators/bootstrap.py |  3 ++-
 trikit/triangle.py             | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index a93e1ae..2a4cc4b 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -483,7 +483,8 @@ class BootstrapChainLadder(BaseRangeEstimator):
             1., dfm["value"].values
             )
 
-        dfi = self.tri.to_tbl(dropna=False).drop("value", axis=1)
+        dfi = self.tri.to_tbl(dropna=False).drop(self.tri.value, axis=1).rename(
+            {self.tri.origin: "origin", self.tri.dev: "dev"}, axis=1)
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
diff --git a/trikit/triangle.py b/trikit/triangle.py
index 4dc24ff..f395b53 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -210,9 +210,9 @@ class _BaseTriangle(pd.DataFrame):
         if self._latest is None:
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
             dflindx = lindx.to_frame().reset_index(drop=False).rename(
-                {0: "dev", "index": self.origin}, axis=1)
+                {0: self.dev, "index": self.origin}, axis=1)
             self._latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
-                {self.value: "latest"}, axis=1)
+                {self.origin: "origin", self.dev: "dev", self.value: "latest"}, axis=1)
             self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
         return(self._latest)
 
@@ -347,7 +347,7 @@ class _BaseTriangle(pd.DataFrame):
         -------
         pd.DataFrame
         """
-        tri = self.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+        tri = self.reset_index(drop=False).rename({"index": self.origin}, axis=1)
         df = pd.melt(tri, id_vars=[self.origin], var_name=self.dev, value_name=self.value)
         if dropna:
             df = df[~np.isnan(df[self.value])]
@@ -432,7 +432,7 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin="origin", dev="dev", value="value"))
+        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
 
 
 
@@ -970,7 +970,8 @@ class CumTriangle(_BaseCumTriangle):
         if kwargs:
             pltkwargs.update(kwargs)
 
-        data = self.to_tbl()
+        data = self.to_tbl().rename(
+            {self.origin: "origin", self.dev: "dev", self.value: "value"}, axis=1)
         grps = data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.origins]
         xticks = np.sort(data.dev.unique())
@@ -1054,7 +1055,8 @@ class CumTriangle(_BaseCumTriangle):
             pltkwargs.update(kwargs)
 
         sns.set_context(context)
-        data = self.to_tbl()
+        data = self.to_tbl().rename(
+            {self.origin: "origin", self.dev: "dev", self.value: "value"}, axis=1)
 
         with sns.axes_style(axes_style):
 
@@ -1359,14 +1361,14 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         if data_format.lower().strip().startswith("i"):
             # data is in incremental triangle format (but not typed as such).
-            incrtri = data.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+            incrtri = data.rename_axis("origin", axis=0).reset_index(drop=False)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
             incrtri = data.diff(axis=1)
             incrtri.iloc[:, 0] = data.iloc[:, 0]
-            incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+            incrtri = incrtri.rename_axis("origin", axis=0).reset_index(drop=False)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
 
@@ -1376,6 +1378,9 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
         df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
         df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
 
+        # origin, dev and value are ignored for triangle-shaped data.
+        origin, dev, value = "origin", "dev", "value"
+
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-- 
2.43.0


From c006b7a3bff9c38b0f888503b681392757f0424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 06/35] fix: MackChainLadderResult.diagnostics referenced a
 nonexistent column

---
 trikit/estimators/mack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 81a3e20..38ed19a 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -976,7 +976,8 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         dfdens = dfdens_all[(dfdens_all.origin == "total")]
         dfresid0 = self._residuals_by_devp()
         dfresid1 = self._residuals_by_origin()
-        cl_data = pd.melt(self.trisqrd, var_name="dev", ignore_index=False).reset_index(
+        cl_data = pd.melt(
+            self.trisqrd.drop("ultimate", axis=1), var_name="devp", ignore_index=False).reset_index(
             drop=False).rename({"index": "origin"}, axis=1)
         grps = cl_data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.tri.origins]
-- 
2.43.0


From 50d98832045838e9f94439eb5107eaddab6bb176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 07/35] fix: MackChainLadderResult.plot draws the reserve
 distributions

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 38ed19a..1d56a7a 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -904,7 +904,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        data = self._data_transform()
+        data = self._mack_data_transform()
 
         with sns.axes_style(axes_style):
             qtls, qtlhdrs = self._qtls_formatter(q)
-- 
2.43.0


From 9dd1a0811df86245de203d337fbf04feb39576a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 08/35] fix: BaseChainLadderResult.plot draws the data and
 honours hue_kws

---
 trikit/estimators/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 8647377..d911ac1 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -526,8 +526,8 @@ class BaseChainLadderResult:
                 )
 
             if hue_kws is not None:
-                # Determine whether the length of each element of hue_kws is 4.
-                if all(len(hue_kws[i]) == 4 for i in hue_kws):
+                # Determine whether the length of each element of hue_kws is 2.
+                if all(len(hue_kws[i]) == 2 for i in hue_kws):
                     huekwargs.update(hue_kws)
                 else:
                     warnings.warn("hue_kws overrides not correct length - Ignoring.")
@@ -538,6 +538,7 @@ class BaseChainLadderResult:
                 sharey=False, hue_order=["forecast", "actual"]
                 )
 
+            grid.map(plt.plot, "dev", "loss", **kwargs)
             devp_xticks = np.sort(data.dev.unique())
             devp_xticks_str = [
                 str(ii) if ii != devp_xticks.max() else "ult" for ii in devp_xticks
-- 
2.43.0


From df89bb82f156cb842a64758331c40adaf5472924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 09/35] fix: residuals_detail works when stats.mode returns a
 scalar

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 2a4cc4b..d35a842 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -944,7 +944,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 unscaled_max = unscaled.max(axis=0)
                 unscaled_mean = unscaled.mean(axis=0)
                 unscaled_skew = stats.skew(unscaled, axis=0, nan_policy="omit")
-                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode[0]
+                unscaled_mode = np.atleast_1d(stats.mode(unscaled, axis=0, nan_policy="omit").mode)[0]
                 unscaled_cvar = stats.variation(unscaled, axis=0, nan_policy="omit")
                 unscaled_kurt = stats.kurtosis(unscaled, axis=0, nan_policy="omit")
                 unscaled_var = unscaled.var(ddof=1, axis=0)
@@ -957,7 +957,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 adjusted_max = adjusted.max(axis=0)
                 adjusted_mean = adjusted.mean(axis=0)
                 adjusted_skew = stats.skew(adjusted, axis=0, nan_policy="omit")
-                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode[0]
+                adjusted_mode = np.atleast_1d(stats.mode(adjusted, axis=0, nan_policy="omit").mode)[0]
                 adjusted_cvar = stats.variation(adjusted, axis=0, nan_policy="omit")
                 adjusted_kurt = stats.kurtosis(adjusted, axis=0, nan_policy="omit")
                 adjusted_var = adjusted.var(ddof=1, axis=0)
-- 
2.43.0


From ce68f18116a2c705ad135493614356a01f946bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 10/35] fix: accept any integer type as bootstrap seed

---
 trikit/estimators/bootstrap.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index d35a842..fad57a8 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -463,13 +463,10 @@ class BootstrapChainLadder(BaseRangeEstimator):
         -------
         pd.DataFrame
         """
-        if random_state is not None:
-            if isinstance(random_state, int):
-                prng = RandomState(random_state)
-            elif isinstance(random_state, RandomState):
-                prng = random_state
+        if isinstance(random_state, RandomState):
+            prng = random_state
         else:
-            prng = RandomState()
+            prng = RandomState(random_state)
 
         sampling_dist = sampling_dist.flatten()
         fti = fitted_tri_incr.reset_index(drop=False).rename({"index": "origin"}, axis=1)
@@ -653,13 +650,10 @@ class BootstrapChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         # Initialize pseudo random number generator.
-        if random_state is not None:
-            if isinstance(random_state, int):
-                prng = RandomState(random_state)
-            elif isinstance(random_state, RandomState):
-                prng = random_state
+        if isinstance(random_state, RandomState):
+            prng = random_state
         else:
-            prng = RandomState()
+            prng = RandomState(random_state)
 
         # Parameterize distribution for the incorporation of process variance.
         if procdist.strip().lower() == "gamma":
-- 
2.43.0


From 27e2ec73a630e4f13a5d77c04703cbe8bbebb835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 11/35] fix: totri rejects unknown tri_type and data_format

---
 trikit/triangle.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index f395b53..06bcb86 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1373,7 +1373,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
 
         else:
-            raise NameError("Invalid data_format argument: `{}`.".format(tri_type))
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
 
         df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
         df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
@@ -1388,8 +1388,12 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
             df = df.sort_values(by=[origin, dev]).reset_index(drop=True)
             incr = df.groupby([origin])[value].diff(periods=1)
             df[value] = np.where(np.isnan(incr), df[value], incr)
-        else:
+
+        elif data_format.lower().strip().startswith("i"):
             df = data
+
+        else:
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
     else:
         raise NameError("Invalid data_shape argument: `{}`.".format(data_shape))
 
@@ -1414,4 +1418,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
                 if triind_val == 0:
                     if np.isnan(tri.iat[origin_indx, devp_indx]):
                         tri.iat[origin_indx, devp_indx] = tri.iat[origin_indx, (devp_indx - 1)]
+
+    else:
+        raise NameError("Invalid tri_type argument: `{}`.".format(tri_type))
     return(tri)
-- 
2.43.0


From 3d2051753d64b0bf10d31cb8de31f74c2e0115bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 12/35] fix: load() accepts only the names listed by
 get_datasets()

---
 trikit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/utils.py b/trikit/utils.py
index 6d32b49..80d2069 100644
--- a/trikit/utils.py
+++ b/trikit/utils.py
@@ -30,7 +30,7 @@ def _load(dataset, tri_type=None, dataref=None):
     -------
     Either pd.DataFrame, trikit.triangle.IncrTriangle or trikit.triangle.CumTriangle.
     """
-    if dataset not in dataref.keys():
+    if dataset not in _get_datasets(dataref):
         raise KeyError("Specified dataset does not exist: `{}`".format(dataset))
     else:
         data_path = dataref[dataset]
-- 
2.43.0


From 62ae60fe9f0f187d3210b91b8f7ab21602f11ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 13/35] fix: link ratio exclusions affect volume-weighted
 averages and can be set at any time

---
 trikit/triangle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 06bcb86..06857d4 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -699,7 +699,7 @@ class _BaseCumTriangle(_BaseTriangle):
             1989  1  0  0  0  0  0  0  0  0
         """
         indx, column, value = update_spec
-        self._a2aind.at[indx, column] = value
+        self.a2aind.at[indx, column] = value
 
 
     @property
@@ -828,8 +828,10 @@ class _BaseCumTriangle(_BaseTriangle):
                             (final_cell_indx - duration) >= 0 else 0
 
                     # Divide sum of t_ic_2 by t_ic_1.
-                    sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
-                    sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
+                    # Excluded link ratios carry no weight.
+                    ind = self.a2aind.iloc[:, col].reindex(self.index, fill_value=0)
+                    sum_ic_2 = (t_ic_2 * ind)[first_cell_indx:final_cell_indx].sum()
+                    sum_ic_1 = (t_ic_1 * ind)[first_cell_indx:final_cell_indx].sum()
 
                     try:
                         iteravg = (sum_ic_2 / sum_ic_1)
-- 
2.43.0


From 54395af73ffcd4bda71ce9b6261249f8b24c1c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 14/35] fix: a reused Mack estimator picks up changed link
 ratio exclusions

---
 trikit/estimators/mack.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 1d56a7a..92ca68a 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -51,7 +51,6 @@ class MackChainLadder(BaseRangeEstimator):
         super().__init__(cumtri)
 
         # Properties.
-        self._mod_a2aind = None
         self._mod_tri = None
 
 
@@ -242,9 +241,8 @@ class MackChainLadder(BaseRangeEstimator):
         -------
         pd.DataFrame
         """
-        if self._mod_a2aind is None:
-            self._mod_a2aind = self.tri.a2aind.replace(0, np.NaN)
-        return(self._mod_a2aind)
+        # Not cached, since tri.a2aind can be updated at any time.
+        return(self.tri.a2aind.replace(0, np.NaN))
 
 
     def _ldfs(self, alpha=1, tail=1.0):
-- 
2.43.0


From 3c818203072b9d4097eed96bd86b0f7a840dc9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 15/35] fix: Mack process and total error use the variance
 assumption implied by alpha

---
 trikit/estimators/mack.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 92ca68a..3f0b8c0 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -120,7 +120,7 @@ class MackChainLadder(BaseRangeEstimator):
         devpvar = self._devp_variance(ldfs=ldfs, alpha=alpha)
         ldfvar = self._ldf_variance(devpvar=devpvar, alpha=alpha)
         proc_error = pd.Series(
-            self._process_error(ldfs=ldfs, devpvar=devpvar).iloc[:, -1].replace(np.NaN, 0),
+            self._process_error(ldfs=ldfs, devpvar=devpvar, alpha=alpha).iloc[:, -1].replace(np.NaN, 0),
             name="process_error", dtype=float
             )
         param_error = pd.Series(
@@ -169,7 +169,7 @@ class MackChainLadder(BaseRangeEstimator):
             mse_ii, ult_ii = mse[ii], ultimates[ii]
             ults_sum = ultimates[ultimates.index > ii].dropna().sum()
             rh_sum = sum(
-                quotient[jj] / sum(trisqrd.loc[mm, jj]
+                quotient[jj] / sum(trisqrd.loc[mm, jj]**alpha
                     for mm in range(1, (n - jj) + 1)) for jj in range(n + 1 - indx, n)
                     )
             mse_total[ii] = mse_ii + 2 * ult_ii * ults_sum * rh_sum
@@ -332,7 +332,7 @@ class MackChainLadder(BaseRangeEstimator):
         return(devpvar)
 
 
-    def _process_error(self, ldfs, devpvar):
+    def _process_error(self, ldfs, devpvar, alpha=1):
         """
         Return a triangle-shaped DataFrame containing elementwise process
         error. To obtain the process error for a given origin period,
@@ -374,10 +374,10 @@ class MackChainLadder(BaseRangeEstimator):
             latest_devp = latest[latest["origin"] == ii]["dev"].item()
             latest_cum = trisqrd.at[ii, latest_devp]
             kk0 = n + 2 - ii
-            dfpe.at[ii, kk0] = latest_cum * devpvar.iloc[kk0 - 2]
+            dfpe.at[ii, kk0] = latest_cum**(2 - alpha) * devpvar.iloc[kk0 - 2]
             for kk in range(kk0 + 1, n + 1):
                 term0 = (ldfs.iloc[kk - 2]**2) * dfpe.at[ii, kk - 1]
-                term1 = trisqrd.at[ii, kk - 1] * devpvar.iloc[kk - 2]
+                term1 = trisqrd.at[ii, kk - 1]**(2 - alpha) * devpvar.iloc[kk - 2]
                 dfpe.at[ii, kk] = term0 + term1
 
         # Re-index dfpe to match self.tri.
-- 
2.43.0


From 0014caf62469a0b736cac25fd283fcb0479aefa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 16/35] fix: operator precedence in the residual standard
 deviation

---
 trikit/estimators/mack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 3f0b8c0..d585637 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -567,7 +567,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             yact = yact_init[comp_indices]
             yhat = self.tri.loc[comp_indices, x] * self.ldfs.get(x)
             dfresid = pd.Series(yhat - yact, name="residuals").to_frame()
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = x
             resids_list.append(dfresid)
@@ -589,7 +589,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             dfresid = dfresid.dropna(how="any")
             dfresid["residuals"] = dfresid["yhat"] - dfresid["yact"]
             n = dfresid.shape[0]
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = origin
             resids_list.append(dfresid)
-- 
2.43.0


From c96b8530a25bca5648010fc269d468aa1138e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 17/35] fix: develop each origin with the cumulative factor for
 its own age

---
 trikit/estimators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index d911ac1..abf57d3 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -220,7 +220,7 @@ class BaseChainLadder:
         pd.Series
         """
         ultimates = pd.Series(
-            data=self.tri.latest_by_origin.values * cldfs.values[::-1],
+            data=self.tri.latest_by_origin * self.tri.maturity.map(cldfs),
             index=self.tri.index, name="ultimate"
             )
         return(ultimates.astype(float).sort_index())
-- 
2.43.0


From c9026ec31b6128b595ff009368f8177196fd9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 18/35] fix: BootstrapChainLadderResult.plot can compute its
 two-sided bounds

---
 trikit/estimators/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index abf57d3..c2c0416 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -659,7 +659,7 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
 
 
 
-    def _qtls_formatter(self, q):
+    def _qtls_formatter(self, q, two_sided=False):
         """
         Return array_like of actual and formatted quantiles.
 
@@ -669,13 +669,20 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             Quantile or sequence of quantiles to compute, which must be
             between 0 and 1 inclusive.
 
+        two_sided: bool
+            Whether to expand each element of ``q`` into the bounds of the
+            central interval with that probability. Defaults to False.
+
         Returns
         -------
         tuple of list
         """
         qtls = np.asarray([q] if isinstance(q, (float, int)) else q)
         if np.all(np.logical_and(qtls <= 1, qtls >= 0)):
-            qtls = np.sort(np.unique(qtls))
+            if two_sided:
+                qtls = np.sort(np.unique(np.append((1 - qtls) / 2., (1 + qtls) / 2.)))
+            else:
+                qtls = np.sort(np.unique(qtls))
         else:
             raise ValueError("Values for quantiles must fall between [0, 1].")
 
-- 
2.43.0


From bfb8fce3cec194b92beb3f46d3833b36b0ee86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 19/35] fix: ordinal suffix of the 11th, 12th and 13th
 percentile labels

---
 trikit/estimators/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index c2c0416..169680c 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -690,7 +690,8 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             "{:.5f}".format(ii).rstrip("0").rstrip(".") for ii in 100 * qtls
             ]
         qtlhdrs = [
-            ii + "th" if "." in ii else ii + self.dsuffix[ii[-1]] for ii in qtlhdrs
+            ii + "th" if "." in ii or ii[-2:] in ("11", "12", "13") else ii + self.dsuffix[ii[-1]]
+                for ii in qtlhdrs
             ]
         return(qtls.tolist(), qtlhdrs)
 
-- 
2.43.0


From f47fe4e570421e4b49490b475ce3bf08d4f61834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 20/35] fix: faceted triangle plot no longer parses formatted
 tick labels

---
 trikit/triangle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 06857d4..21b816b 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1085,9 +1085,7 @@ class CumTriangle(_BaseCumTriangle):
             for ii, _ in enumerate(g.axes):
                 ax_ = g.axes[ii]
 
-                ylabelss = [jj.get_text() for jj in list(ax_.get_yticklabels())]
-                ylabelsn = [float(jj.replace(u"\u2212", "-")) for jj in ylabelss]
-                ylabelsn = [jj for jj in ylabelsn if jj >= 0]
+                ylabelsn = [jj for jj in ax_.get_yticks() if jj >= 0]
                 ylabels = ["{:,.0f}".format(jj) for jj in ylabelsn]
                 if (len(ylabels) > 0):
                     ax_.set(yticks=ylabelsn)
-- 
2.43.0


From 1beaa463f734c15b7ed27011c80027d9fe6d5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 21/35] fix: devp_corr_test no longer draws from the global
 random state

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index d585637..3f8b5de 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -694,7 +694,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             return(norm.cdf(x) - norm.cdf(-x) - p)
 
         f = functools.partial(fnorm, p=p)
-        z = root(f, np.random.rand()).x.item()
+        z = root(f, .50).x.item()
         s = np.sqrt(self._devp_corr_test_var())
         return((-z / s, z / s), self._spearman_corr_total())
 
-- 
2.43.0


From 02d8e641d8f66ccbf25448f1b5a2143df2f2fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 22/35] fix: resample around negative fitted increments with
 sqrt(|m|)

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index fad57a8..f2829dd 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -485,7 +485,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
-        dfp["incr_sqrt"] = np.sqrt(dfp["incr"].values)
+        dfp["incr_sqrt"] = np.sqrt(np.abs(dfp["incr"].values))
         dfrtypes = {"origin": int, "dev": int, "incr": float,
                    "incr_sqrt": float, "rectype": str}
         dfrcols = ["origin", "dev", "incr", "rectype", "incr_sqrt"]
-- 
2.43.0


From 209432c8bf49424840f0bcbfc3f7c8546d12b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 23/35] fix: bootstrap development factors and projections no
 longer shift across simulations

---
 trikit/estimators/bootstrap.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index f2829dd..49a8f7a 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -535,8 +535,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         df["_aggdev2"] = np.where(df["origin"].values == df["last_origin"].values, 0, df["samp_cum"].values)
         df2 = df.groupby(["sim", "dev"], as_index=False)[["samp_cum", "_aggdev2"]].sum().rename(
             {"samp_cum": "_aggdev1"}, axis=1)
-        df2["_aggdev2"] = df2["_aggdev2"].shift(periods=1)
-        df2["dev"] = df2["dev"].shift(periods=1)
+        df2[["_aggdev2", "dev"]] = df2.groupby(["sim"])[["_aggdev2", "dev"]].shift(periods=1)
         dfldfs = df2[df2["_aggdev2"] != 0].dropna(how="any")
         dfldfs["dev"] = dfldfs["dev"].astype(int)
         dfldfs["ldf"] = dfldfs["_aggdev1"] / dfldfs["_aggdev2"]
@@ -580,8 +579,8 @@ class BootstrapChainLadder(BaseRangeEstimator):
         dffcst["_l_act_indx"] = dffcst.groupby(["sim", "origin"])["_l_init_indx"].transform("min")
         l_act_cum = dffcst.loc[dffcst["_l_act_indx"], "samp_cum"].values
         dffcst["l_act_cum"] = l_act_cum
-        dffcst["_cum_ldf"] = dffcst.groupby(["sim", "origin"])["ldf"].transform(
-            "cumprod").shift(periods=1)
+        dffcst["_cum_ldf"] = dffcst.groupby(["sim", "origin"])["ldf"].cumprod()
+        dffcst["_cum_ldf"] = dffcst.groupby(["sim", "origin"])["_cum_ldf"].shift(periods=1)
         dffcst["_samp_cum2"] = dffcst["l_act_cum"].values * dffcst["_cum_ldf"].values
         dffcst["_samp_cum2"] = np.where(
             np.isnan(dffcst["_samp_cum2"].values), 0, dffcst["_samp_cum2"].values
-- 
2.43.0


From b2cb6fa1c2b66d29deed1f755d925a3ede9c5039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 24/35] fix: log-normal location of reserves below one currency
 unit

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 3f8b5de..1be7d8e 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -186,7 +186,7 @@ class MackChainLadder(BaseRangeEstimator):
         elif dist == "lognorm":
             with np.errstate(divide="ignore"):
                 std_params = np.sqrt(np.log(1 + (dfsumm["std_error"] / dfsumm["reserve"])**2)).replace(np.NaN, 0)
-                mean_params = np.clip(np.log(dfsumm["reserve"]), a_min=0, a_max=None) - .50 * std_params**2
+                mean_params = np.log(dfsumm["reserve"]).replace(-np.inf, 0) - .50 * std_params**2
                 rv_list = [lognorm(scale=np.exp(ii), s=jj) for ii, jj in zip(mean_params, std_params)]
         else:
             raise ValueError(
-- 
2.43.0


From 8519ca5efe8593e70366c9deb0fd2ebaa343e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 25/35] fix: a bootstrap result no longer aliases the caller's
 or the default quantile list

---
 trikit/estimators/bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 49a8f7a..f071789 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -227,7 +227,8 @@ class BootstrapChainLadder(BaseRangeEstimator):
             adjusted_residuals=adjust_residuals,
             sampling_dist=None if parametric else sampling_dist,
             fitted_tri_cum=tri_fit_cum, fitted_tri_incr=tri_fit_incr, sims=sims,
-            procdist=procdist, parametric=parametric, q=q, interpolation=interpolation
+            procdist=procdist, parametric=parametric,
+            q=q if np.isscalar(q) else list(q), interpolation=interpolation
             )
 
         return(bcl_result)
-- 
2.43.0


From da748aa2b729461861f9e7ac8e2993d5b45772e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 26/35] fix: MackChainLadderResult.diagnostics uses the column
 it creates

---
 trikit/estimators/mack.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 1be7d8e..29681b7 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -974,8 +974,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         dfdens = dfdens_all[(dfdens_all.origin == "total")]
         dfresid0 = self._residuals_by_devp()
         dfresid1 = self._residuals_by_origin()
-        cl_data = pd.melt(
-            self.trisqrd.drop("ultimate", axis=1), var_name="devp", ignore_index=False).reset_index(
+        cl_data = pd.melt(self.trisqrd, var_name="devp", ignore_index=False).reset_index(
             drop=False).rename({"index": "origin"}, axis=1)
         grps = cl_data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.tri.origins]
-- 
2.43.0


From c269fe79d2ae2c7e66e89a2d60e1720ee5de6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 27/35] fix: quantiles by development period use the groupby
 quantile signature

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index f071789..76b0323 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1064,11 +1064,11 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         dflist = []
         for ii, jj in zip(qtls, qtlhdrs):
             dfqtl = dfsims.groupby(["origin", "dev"], as_index=False).aggregate(
-                "quantile", q=ii, method="linear").rename(
+                "quantile", q=ii, interpolation="linear").rename(
                 {"ultimate": jj}, axis=1
                 )
             dftotal_qtl = dftotal.aggregate(
-                "quantile", q=ii, method="linear").rename({"ultimate": jj},
+                "quantile", q=ii, interpolation="linear").rename({"ultimate": jj},
                 axis=1
                 )
             dflist.append(pd.concat([dfqtl, dftotal_qtl]))
-- 
2.43.0


From 812aa008ad4dd4398499597fdbde25eb6f720d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 28/35] fix: scope seaborn's plotting context to the exhibit
 being drawn

---
 trikit/estimators/base.py      | 3 +--
 trikit/estimators/bootstrap.py | 6 ++----
 trikit/estimators/mack.py      | 3 +--
 trikit/triangle.py             | 3 +--
 4 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 169680c..21fa2c0 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -510,11 +510,10 @@ class BaseChainLadderResult:
         """
         import matplotlib.pyplot as plt
         import seaborn as sns
-        sns.set_context(context)
 
         data = self._data_transform()
 
-        with sns.axes_style(axes_style):
+        with sns.axes_style(axes_style), sns.plotting_context(context):
 
             huekwargs = dict(
                 marker=["o", "o"], markersize=[6, 6],
diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 76b0323..24142e2 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1192,12 +1192,11 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         import matplotlib
         import matplotlib.pyplot as plt
         import seaborn as sns
-        sns.set_context(context)
 
         qtls, qtlhdrs = self._qtls_formatter(q=q, two_sided=True)
         data = self._bs_data_transform(qtls, qtlhdrs).dropna(how="any", subset=["loss"])
 
-        with sns.axes_style(axes_style):
+        with sns.axes_style(axes_style), sns.plotting_context(context):
             huekwargs = dict(
                 marker=["o", "o", None, None], markersize=[6, 6, None, None],
                 color=["#000000", "#000000", "#000000", "#000000"],
@@ -1312,7 +1311,6 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         """
         import matplotlib.pyplot as plt
         import seaborn as sns
-        sns.set_context(context)
 
         # data0 = self.sims_data[["sim", "origin", "dev", "rectype", "latest", "reserve",]]
         # data0 = data0[(data0["dev"]==data0["dev"].max()) & (data0["rectype"]=="forecast")].reset_index(drop=True)
@@ -1334,7 +1332,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         dfmetrics = functools.reduce(lambda df1, df2: df1.join(df2), (med_data, min_data, max_data))
         dfmetrics = dfmetrics.map(lambda v: 0 if v < 0 else v).reset_index(drop=False)
 
-        with sns.axes_style(axes_style):
+        with sns.axes_style(axes_style), sns.plotting_context(context):
 
             pltkwargs = {"color": color, "bins": 20, "edgecolor": "#484848",
                          "alpha": 1., "linewidth": .45}
diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 29681b7..cfcc0b2 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -900,11 +900,10 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         """
         import matplotlib.pyplot as plt
         import seaborn as sns
-        sns.set_context(context)
 
         data = self._mack_data_transform()
 
-        with sns.axes_style(axes_style):
+        with sns.axes_style(axes_style), sns.plotting_context(context):
             qtls, qtlhdrs = self._qtls_formatter(q)
             grid = sns.FacetGrid(
                 data, col="origin", col_wrap=col_wrap, margin_titles=False,
diff --git a/trikit/triangle.py b/trikit/triangle.py
index 21b816b..1830c87 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1056,11 +1056,10 @@ class CumTriangle(_BaseCumTriangle):
         if kwargs:
             pltkwargs.update(kwargs)
 
-        sns.set_context(context)
         data = self.to_tbl().rename(
             {self.origin: "origin", self.dev: "dev", self.value: "value"}, axis=1)
 
-        with sns.axes_style(axes_style):
+        with sns.axes_style(axes_style), sns.plotting_context(context):
 
             pltkwargs = dict(
                 marker="o", markersize=7, alpha=1, markeredgecolor="#000000",
-- 
2.43.0


From 45c29307b0927db835930003ef1eea08b976cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 29/35] fix: excluded link ratios carry no weight in Mack's
 total standard error

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index cfcc0b2..bd77399 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -169,7 +169,7 @@ class MackChainLadder(BaseRangeEstimator):
             mse_ii, ult_ii = mse[ii], ultimates[ii]
             ults_sum = ultimates[ultimates.index > ii].dropna().sum()
             rh_sum = sum(
-                quotient[jj] / sum(trisqrd.loc[mm, jj]**alpha
+                quotient[jj] / sum(self.tri.a2aind.iat[mm - 1, jj - 1] * trisqrd.loc[mm, jj]**alpha
                     for mm in range(1, (n - jj) + 1)) for jj in range(n + 1 - indx, n)
                     )
             mse_total[ii] = mse_ii + 2 * ult_ii * ults_sum * rh_sum
-- 
2.43.0


From 72a90feff9d3dc6af5b4c7b54eaa732d9f6ce6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 30/35] fix: keep the increment that follows a gap of a
 cumulative triangle

---
 trikit/triangle.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 1830c87..112332b 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -892,8 +892,8 @@ class CumTriangle(_BaseCumTriangle):
             In [4]: type(incrtri)
             Out[4]: triangle.IncrTriangle
         """
-        incrtri = pd.DataFrame(self).diff(axis=1)
-        incrtri.iloc[:, 0] = self.iloc[:, 0]
+        cumtri = pd.DataFrame(self)
+        incrtri = cumtri - cumtri.ffill(axis=1).shift(periods=1, axis=1).fillna(0)
         incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
         df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
         df = df[~np.isnan(df["value"])].astype({"origin": int, "dev": int, "value": float})
@@ -1365,8 +1365,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         elif data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
-            incrtri = data.diff(axis=1)
-            incrtri.iloc[:, 0] = data.iloc[:, 0]
+            incrtri = data - data.ffill(axis=1).shift(periods=1, axis=1).fillna(0)
             incrtri = incrtri.rename_axis("origin", axis=0).reset_index(drop=False)
             df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
             df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
-- 
2.43.0


From b4c01a85fcf701e9d27dc83a0d482e1acb0d0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 31/35] fix: a record without an amount is not an observed zero

---
 trikit/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 112332b..53421b6 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -47,7 +47,7 @@ class _BaseTriangle(pd.DataFrame):
 
         # data2 = data.copy(deep=True)
         data2 = data[[origin_, dev_, value_]]
-        data2 = data2.groupby([origin_, dev_], as_index=False).sum()
+        data2 = data2.groupby([origin_, dev_], as_index=False).sum(min_count=1)
         data2 = data2.sort_values(by=[origin_, dev_])
         data2 = self._neg_handler(data2, dev_, value_)
         tri = data2.pivot(index=origin_, columns=dev_).rename_axis(None)
@@ -1383,7 +1383,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
 
         if data_format.lower().strip().startswith("c"):
             df = data.groupby([origin, dev], as_index=False)[[value]].sum(min_count=1)
-            df = df.sort_values(by=[origin, dev]).reset_index(drop=True)
+            df = df.dropna(subset=[value]).sort_values(by=[origin, dev]).reset_index(drop=True)
             incr = df.groupby([origin])[value].diff(periods=1)
             df[value] = np.where(np.isnan(incr), df[value], incr)
 
-- 
2.43.0


From e1a2dca27cb95cc041cb824bbf8d908827295e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 32/35] fix: completing first periods no longer leaves a stale
 indicator behind

totri computed triind/clvi for the first origin before the missing first
period amounts of later origins were filled in, so the remembered tables did
not describe the finished triangle.
---
 trikit/triangle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 53421b6..1c4ff86 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1411,6 +1411,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
             if np.isnan(origin_init_val):
                 tri.iat[origin_indx, 0] = 1.
 
+        for origin_ in tri.index:
+            origin_indx = tri.index.get_loc(origin_)
             for devp_indx, devp_ in enumerate(tri.columns[1:], start=1):
                 triind_val = tri.triind.iat[origin_indx, devp_indx]
                 if triind_val == 0:
-- 
2.43.0


From d67e591ab7f9788c0e1dacb35280c6a049e7149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 33/35] fix: the medial average of no link ratios is NaN, as
 for the other averages

---
 trikit/triangle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 1c4ff86..1adfcd1 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -555,7 +555,10 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Return first element of arr_all if all array elements are the same.
         arr_all = np.sort(np.asarray(vals, dtype=float))
-        if np.all(arr_all == arr_all[0]):
+        if arr_all.shape[0] == 0:
+            avg = np.NaN
+
+        elif np.all(arr_all == arr_all[0]):
             avg = arr_all[0]
 
         elif arr_all.shape[0] == 1:
-- 
2.43.0


From a4a2a027ddefbb690dd59db55de70c9281e547f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:37 +0000
Subject: [PATCH 34/35] fix: averages use the link ratios up to the last
 available one of each period

---
 trikit/triangle.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 1adfcd1..d06e779 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -820,10 +820,8 @@ class _BaseCumTriangle(_BaseTriangle):
                 if avgtype == 'weighted':
 
                     t_ic_1, t_ic_2 = self.iloc[:, col], self.iloc[:, (col + 1)]
-                    # Find first NaN value in t_ic_2.
-                    first_nan_year = t_ic_2.index[t_ic_2.count():][0]
-                    first_nan_indx = t_ic_2.index.searchsorted(first_nan_year)
-                    final_cell_indx = first_nan_indx
+                    # Link ratios end with the last observed value of t_ic_2.
+                    final_cell_indx = t_ic_2.index.get_loc(t_ic_2.last_valid_index()) + 1
                     if duration == 0:
                         first_cell_indx = 0
                     else:
@@ -842,21 +840,13 @@ class _BaseCumTriangle(_BaseTriangle):
                         iteravg = np.NaN
 
                 else:
-                    # Find index of first row with NaN.
-                    if any(itercol.map(lambda x: np.isnan(x))):
-                        first_nan_year = itercol.index[itercol.apply(lambda x: np.isnan(x))][0]
-                        first_nan_indx = itercol.index.searchsorted(first_nan_year)
-                        final_cell_indx = first_nan_indx
-                        if duration == 0:
-                            first_cell_indx = 0
-                        else:
-                            first_cell_indx = (final_cell_indx - duration) if \
-                                              (final_cell_indx - duration) >= 0 else 0
-
+                    # Link ratios end with the last available one.
+                    final_cell_indx = itercol.index.get_loc(itercol.last_valid_index()) + 1
+                    if duration == 0:
+                        first_cell_indx = 0
                     else:
-                        # itercol has 0 NaN's.
-                        final_cell_indx = len(itercol)
-                        first_cell_indx = 0 if duration == 0 else (final_cell_indx - duration)
+                        first_cell_indx = (final_cell_indx - duration) if \
+                                          (final_cell_indx - duration) >= 0 else 0
                     try:
                         link_ratios = itercol[first_cell_indx:final_cell_indx]
                         iteravg = iterfunc(link_ratios[link_ratios > 0])
-- 
2.43.0


From 07581718eccfca8e8e955b49d3c4bc123274f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 35/35] fix: link ratios are only equal to their median up to
 rounding

---
 trikit/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index d06e779..74fc041 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -772,7 +772,7 @@ class _BaseCumTriangle(_BaseTriangle):
                 for r_indx, a2a in enumerate(self.a2a[devp]):
                     origin = self.a2a.index[r_indx]
                     if not np.isnan(a2a):
-                        if np.allclose(a2a, devp_median):
+                        if np.allclose(a2a, devp_median, rtol=1e-12, atol=0):
                             self._a2a_assignment.at[origin, devp] = 0
                         elif a2a > devp_median:
                             self._a2a_assignment.at[origin, devp] = 1
-- 
2.43.0

