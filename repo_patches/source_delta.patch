From 9da00671ea8028ba0c5e8c18c86e935bbba1eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 001/105] fix: multinomial inverse transform no longer
 overwrites the uniform sample

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 22e743f..2883d03 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2469,6 +2469,9 @@ class MultinomialRandomVariable(RandomVariable):
         """
         p_cum = np.cumsum(self.theta)[:-1]
 
+        # work on a copy to preserve the controlling uniform sample
+        values = values.copy()
+
         for i, p_i in enumerate(p_cum):
             values[values < p_i] = 10 + i
         values[values <= 1.0] = 10 + len(p_cum)
-- 
2.43.0


From 0e307f3e54fdbec1d4d9c11f932cbab85ba4b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 002/105] fix: Normal_COV with a negative mean uses a positive
 standard deviation

---
 pelicun/uq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 2883d03..6d1f292 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1695,7 +1695,8 @@ class Normal_COV(NormalRandomVariable):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
-        std = mean * cov
+        # the coefficient of variation is relative to the magnitude of the mean
+        std = np.abs(mean) * cov
         theta = np.array([mean, std])
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
-- 
2.43.0


From 9e82905a8cd1b9a5d8f66140f3b9ab2bee5abec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 003/105] fix: Uniform truncation with one limit or limits
 wider than the support

---
 pelicun/uq.py | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 6d1f292..3555429 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1860,6 +1860,32 @@ class UniformRandomVariable(RandomVariable):
             )
             raise ValueError(msg)
 
+    def _bounds(self) -> tuple[float, float]:
+        """
+        Return the bounds of the distribution, considering truncation.
+
+        Returns
+        -------
+        tuple
+          Lower and upper bound of the values that can be realized.
+
+        """
+        a, b = self.theta[:2]
+
+        if np.isnan(a):
+            a = -np.inf
+        if np.isnan(b):
+            b = np.inf
+
+        if np.any(~np.isnan(self.truncation_limits)):
+            # truncation can only narrow the support, and a missing limit
+            # leaves that side as it is
+            tr_a, tr_b = self.truncation_limits
+            a, b = np.fmax(a, tr_a), np.fmin(b, tr_b)
+            self._ensure_positive_probability_difference(b, a)
+
+        return a, b
+
     def cdf(self, values: np.ndarray) -> np.ndarray:
         """
         Return the CDF at the given values.
@@ -1875,15 +1901,7 @@ class UniformRandomVariable(RandomVariable):
           1D float ndarray containing CDF values
 
         """
-        a, b = self.theta[:2]
-
-        if np.isnan(a):
-            a = -np.inf
-        if np.isnan(b):
-            b = np.inf
-
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        a, b = self._bounds()
 
         return uniform.cdf(values, loc=a, scale=(b - a))
 
@@ -1905,15 +1923,7 @@ class UniformRandomVariable(RandomVariable):
           Inverse CDF values
 
         """
-        a, b = self.theta[:2]
-
-        if np.isnan(a):
-            a = -np.inf
-        if np.isnan(b):
-            b = np.inf
-
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        a, b = self._bounds()
 
         return uniform.ppf(values, loc=a, scale=(b - a))
 
-- 
2.43.0


From ad8416d2a31be1d0f0be418477289b7f873b03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 004/105] fix: Lognormal cdf accepts non-positive lower
 truncation limits

---
 pelicun/uq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 3555429..c76be23 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1751,6 +1751,7 @@ class LogNormalRandomVariable(RandomVariable):
 
             # Replace NaN values
             a = np.nan_to_num(a, nan=FIRST_POSITIVE_NUMBER)
+            a[a <= 0] = FIRST_POSITIVE_NUMBER
             b = np.nan_to_num(b, nan=np.inf)
 
             p_a, p_b = (
-- 
2.43.0


From 564fecba524c099816f25ad2643ec9c5c4afaf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 005/105] fix: fit_distribution_to_sample no longer overwrites
 the caller's limits

---
 pelicun/uq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index c76be23..7be879d 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -775,8 +775,9 @@ def fit_distribution_to_sample(  # noqa: C901
 
     """
     samples = np.atleast_2d(raw_sample)
-    tr_limits = np.atleast_2d(truncation_limits)
-    det_limits = np.atleast_2d(detection_limits)
+    # work on copies, the log transformation below is done in-place
+    tr_limits = np.array(truncation_limits, dtype=float, ndmin=2)
+    det_limits = np.array(detection_limits, dtype=float, ndmin=2)
     dist_list = np.atleast_1d(distribution)
     n_dims, n_samples = samples.shape
 
-- 
2.43.0


From 1e6a993ca5bfe1ab83e1c458799af72ab7a572ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 006/105] fix: mvn_orthotope_density no longer overwrites the
 caller's limits

---
 pelicun/uq.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 7be879d..0aa7f09 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -196,18 +196,16 @@ def mvn_orthotope_density(
     if np.all(np.isnan(lower)):
         lower = -np.ones(ndim) * np.inf
     else:
-        lower = np.atleast_1d(lower)
+        lower = np.array(lower, dtype=np.float64, ndmin=1)
 
     if np.all(np.isnan(upper)):
         upper = np.ones(ndim) * np.inf
     else:
-        upper = np.atleast_1d(upper)
+        upper = np.array(upper, dtype=np.float64, ndmin=1)
 
     # replace None with np.inf
     lower[np.where(np.isnan(lower))[0]] = -np.inf
-    lower = lower.astype(np.float64)
     upper[np.where(np.isnan(upper))[0]] = np.inf
-    upper = upper.astype(np.float64)
 
     # standardize the truncation limits
     lower = (lower - mu) / sig
-- 
2.43.0


From 2a4340574f4a191440dd64055ad4bd805c3baaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 007/105] fix: multinomial p values that sum up to 1.0 are not
 rejected due to round-off

---
 pelicun/uq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 0aa7f09..4f8fc9e 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2448,7 +2448,8 @@ class MultinomialRandomVariable(RandomVariable):
             msg = f'{self.distribution} RVs do not support truncation'
             raise NotImplementedError(msg)
         self.distribution = 'multinomial'
-        if np.sum(theta) > 1.00:
+        # allow for the round-off error in the sum of decimal p values
+        if np.sum(theta) > 1.00 + 1e-8:
             msg = (
                 f'The set of p values provided for a multinomial '
                 f'distribution shall sum up to less than or equal to 1.0. '
-- 
2.43.0


From 05de471fbb320371bb273e40ef82000b4c0e2dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 008/105] fix: Normal_COV and Normal_STD support variable
 parameters

---
 pelicun/uq.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 4f8fc9e..9b4e92f 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1654,8 +1654,9 @@ class Normal_STD(NormalRandomVariable):
         anchor: BaseRandomVariable | None = None,
     ) -> None:
         """Instantiate a Normal_STD random variable."""
-        mean, std = theta[:2]
-        theta = np.array([mean, std])
+        # each row of a 2D theta has the parameters of one realization
+        mean, std = np.asarray(theta).T[:2]
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
@@ -1687,16 +1688,17 @@ class Normal_COV(NormalRandomVariable):
           If the specified mean is zero.
 
         """
-        mean, cov = theta[:2]
+        # each row of a 2D theta has the parameters of one realization
+        mean, cov = np.asarray(theta).T[:2]
 
         almost_zero = 1e-40
-        if np.abs(mean) < almost_zero:
+        if np.any(np.abs(mean) < almost_zero):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
         # the coefficient of variation is relative to the magnitude of the mean
         std = np.abs(mean) * cov
-        theta = np.array([mean, std])
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
-- 
2.43.0


From 8ab88a98e41df7f5a6be0bb90a6eb22bdbc4f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 009/105] fix: deterministic random variables support variable
 parameters

---
 pelicun/uq.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 9b4e92f..f8c4ce4 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2410,6 +2410,16 @@ class DeterministicRandomVariable(UtilityRandomVariable):
           Sample array containing the deterministic value.
 
         """
+        # each row of a 2D theta has the value for one realization
+        if self.theta.ndim > 1:
+            if len(self.theta) != sample_size:
+                msg = (
+                    'Number of rows of the parameter attribute `theta` '
+                    'should match the sample size.'
+                )
+                raise ValueError(msg)
+            return self.theta[:, 0].copy()
+
         return np.full(sample_size, self.theta[0])
 
 
-- 
2.43.0


From a37c4c4878fb974e8013a5b2b508c2f6c31ff483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 010/105] fix: multilinear_CDF fragilities with more than one
 block

---
 pelicun/model/damage_model.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 73ccac9..433afc1 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1511,6 +1511,21 @@ class DamageModel_DS(DamageModel_Base):
                         ]
                     )
 
+                    # parse theta values for multilinear_CDF
+                    if family == 'multilinear_CDF':
+                        theta = np.column_stack(  # type: ignore
+                            (
+                                np.array(
+                                    theta[0].split('|')[0].split(','),
+                                    dtype=float,
+                                ),
+                                np.array(
+                                    theta[0].split('|')[1].split(','),
+                                    dtype=float,
+                                ),
+                            )
+                        )
+
                     for block_i, _ in enumerate(blocks):
                         frg_rv_tag = (
                             'FRG-'
@@ -1540,21 +1555,6 @@ class DamageModel_DS(DamageModel_Base):
                         else:
                             anchor = anchor_rvs[block_i]
 
-                        # parse theta values for multilinear_CDF
-                        if family == 'multilinear_CDF':
-                            theta = np.column_stack(  # type: ignore
-                                (
-                                    np.array(
-                                        theta[0].split('|')[0].split(','),
-                                        dtype=float,
-                                    ),
-                                    np.array(
-                                        theta[0].split('|')[1].split(','),
-                                        dtype=float,
-                                    ),
-                                )
-                            )
-
                         rv = uq.rv_class_map(family)(  # type: ignore
                             name=frg_rv_tag,
                             theta=theta,
-- 
2.43.0


From f3ad12b385fadc0f36dac77e2a44ce3bcc0052a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 011/105] fix: save_to_csv converts numeric columns when
 variables are along the rows

---
 pelicun/file_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 518758a..5978904 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -187,7 +187,9 @@ def save_to_csv(  # noqa: C901
 
         # if the orientation is 1, we might not need to scale all columns
         if orientation == 1:
-            cols_to_scale_bool = [dt in {float, int} for dt in data.dtypes]
+            cols_to_scale_bool = [
+                pd.api.types.is_numeric_dtype(dt) for dt in data.dtypes
+            ]
             cols_to_scale = data.columns[cols_to_scale_bool]
 
         labels_to_keep = []
-- 
2.43.0


From 21b08620756af21a08b40369cfd9254be9631fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 012/105] fix: components with and without a demand expression
 can be mixed

---
 pelicun/model/demand_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f100010..07edbfb 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1290,6 +1290,10 @@ def _get_required_demand_type(
         # Utility Demand: if there is an `Expression`, then load the
         # rest of the demand types.
         expression = model_parameters.loc[cmp, :].get(('Demand', 'Expression'))
+        if pd.isna(expression):
+            # components without an expression have NaN in this column if
+            # it is defined for another component
+            expression = None
         if expression is not None:
             # get the number of variables in the expression using
             # the numexpr library
-- 
2.43.0


From 7634747ddfa020433f4a4f4edf53a8ba086ac50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 013/105] fix: demand expressions can refer to the same demand
 more than once

---
 pelicun/model/demand_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 07edbfb..23bafb9 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1440,7 +1440,7 @@ def _assemble_required_demand_data(
     demand_dict = {}
 
     for edps, expression in required_edps:
-        edp_values = {}
+        edp_values = []
 
         for edp in edps:
             edp_type, location, direction = edp.split('-')
@@ -1476,13 +1476,13 @@ def _assemble_required_demand_data(
                 # directional
                 demand = demand_sample[edp_type, location, direction].to_numpy()
 
-            edp_values[edp] = demand
+            edp_values.append(demand)
 
         # evaluate expression
         if expression is not None:
             # build a dict of values
             value_dict = {}
-            for i, edp_value in enumerate(edp_values.values()):
+            for i, edp_value in enumerate(edp_values):
                 value_dict[f'X{i + 1}'] = edp_value
             demand = ne.evaluate(
                 _clean_up_expression(expression), local_dict=value_dict
-- 
2.43.0


From ef7012be2c9c68ec6431a97259856c0623ebffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 014/105] fix: clone_demands assigns units by demand label
 rather than by position

---
 pelicun/model/demand_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 23bafb9..ebd6126 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1117,14 +1117,17 @@ class DemandModel(PelicunModel):
                 new_column_values = demand_cloning[column]
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
+        # align the units with the columns of the sample
+        assert self.user_units is not None
+        units = self.user_units.reindex(self.sample.columns)
         # copy the columns
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
         self.sample.columns = pd.MultiIndex.from_tuples(column_values)
         # update units
-        self.user_units = self.user_units.iloc[column_index]  # type: ignore
-        assert self.user_units is not None
+        self.user_units = units.iloc[column_index]
         self.user_units.index = self.sample.columns
+        self.user_units = self.user_units.dropna()
 
     def generate_sample(self, config: dict) -> None:
         """
-- 
2.43.0


From 267e2089a00c84005c5f8d3f47fa1e42d8ce19e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 015/105] fix: demand calibration limits are scaled only with
 the unit they were defined in

---
 pelicun/model/demand_model.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index ebd6126..9d1281b 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -582,6 +582,9 @@ class DemandModel(PelicunModel):
             # load the distribution family
             cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
 
+            # get the scale factor for the censor and truncation limits
+            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
+
             # load limits
             for lim in (
                 'CensorLower',
@@ -592,18 +595,7 @@ class DemandModel(PelicunModel):
                 if lim in settings:
                     val = parse_str_to_float(settings[lim], lim)
                     if not pd.isna(val):
-                        cal_df.loc[list(cols), lim] = val
-
-            # scale the censor and truncation limits, if needed
-            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
-
-            rows_to_scale = [
-                'CensorLower',
-                'CensorUpper',
-                'TruncateLower',
-                'TruncateUpper',
-            ]
-            cal_df.loc[idx[cols, :, :], rows_to_scale] *= scale_factor  # type: ignore
+                        cal_df.loc[list(cols), lim] = val * scale_factor
 
             # load the prescribed additional uncertainty
             if 'AddUncertainty' in settings:
-- 
2.43.0


From c343e5f457489102b8383e51c2fb17865dca823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 016/105] fix: AddUncertainty is scaled for normal_std and not
 for CoV-based normal demands

---
 pelicun/model/demand_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 9d1281b..5b1ce7c 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -603,8 +603,9 @@ class DemandModel(PelicunModel):
                     settings['AddUncertainty'], 'AddUncertainty'
                 )
 
-                # scale the sig value if the target distribution family is normal
-                if settings['DistributionFamily'] == 'normal':
+                # scale the sig value if the second parameter of the target
+                # distribution family is a standard deviation
+                if settings['DistributionFamily'] == 'normal_std':
                     sig_increase *= scale_factor
 
                 cal_df.loc[list(cols), 'SigIncrease'] = sig_increase
-- 
2.43.0


From 953225a5f86a789f85e95962ebc160c65092957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 017/105] fix: DemandModel.load_model uses the empirical data
 provided in a dictionary

---
 pelicun/model/demand_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 5b1ce7c..f3196b8 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -886,8 +886,8 @@ class DemandModel(PelicunModel):
 
         if empirical_data_source is not None:
             if (
-                isinstance(empirical_data_source, str)
-                and Path(empirical_data_source).exists()
+                isinstance(empirical_data_source, pd.DataFrame)
+                or Path(empirical_data_source).exists()
             ):
                 empirical_data = file_io.load_data(
                     empirical_data_source,
-- 
2.43.0


From fa9f57e2d44683b20673572854bebfb3895f630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 018/105] fix: a demand model without correlation can be saved
 and loaded

---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f3196b8..7db2f44 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -880,6 +880,9 @@ class DemandModel(PelicunModel):
             marginal_data_source = data_source + '_marginals.csv'
             empirical_data_source = data_source + '_empirical.csv'
             correlation_data_source = data_source + '_correlation.csv'
+            # save_model does not create this file for uncorrelated demands
+            if not Path(correlation_data_source).exists():
+                correlation_data_source = None
         else:
             msg = f'Invalid data_source type: {type(data_source)}.'
             raise TypeError(msg)
-- 
2.43.0


From 7d288ab074ff730e67ed4d67dddd513622fb49c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 019/105] fix: Options no longer writes the defaults into the
 caller's configuration

---
 pelicun/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 7a00ec0..e3044af 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -43,6 +43,7 @@
 from __future__ import annotations
 
 import argparse
+import copy
 import json
 import pprint
 import sys
@@ -194,7 +195,10 @@ class Options:
         self.sampling_method: str | None = None
         self.list_all_ds: bool | None = None
 
-        merged_config_options = merge_default_config(user_config_options)
+        # work on a copy to leave the user's config unchanged
+        merged_config_options = merge_default_config(
+            copy.deepcopy(user_config_options)
+        )
 
         self.seed = merged_config_options['Seed']
         self.sampling_method = merged_config_options['Sampling']['SamplingMethod']
-- 
2.43.0


From 0214fd977701fa8282306967c4ac93977793e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 020/105] fix: load_cmp_model uses the unit of each row of a
 component

---
 pelicun/model/asset_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 7fafa8c..18ab66d 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -333,7 +333,9 @@ class AssetModel(PelicunModel):
         # group units by cmp id to avoid redundant entries
         self.cmp_units = units.copy().groupby(level=0).first()
 
-        marginal_params = pd.concat([marginal_params, units], axis=1)
+        marginal_params = pd.concat(
+            [marginal_params, units.rename('Units')], axis=1
+        )
 
         cmp_marginal_param_dct: dict[str, list[Any]] = {
             'Family': [],
@@ -362,7 +364,7 @@ class AssetModel(PelicunModel):
                         * num_vals
                     )
                 elif col == 'Units':
-                    cmp_marginal_param.extend([self.cmp_units[row.Index]] * num_vals)
+                    cmp_marginal_param.extend([row.Units] * num_vals)
                 elif col == 'Family':
                     cmp_marginal_param.extend([getattr(row, col, np.nan)] * num_vals)
                 else:
-- 
2.43.0


From fbe5e9747f2673704ff9e6181a696f62856c91fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 021/105] fix: components without a direction are assigned to
 direction 1

---
 pelicun/model/asset_model.py   | 4 +++-
 pelicun/model/pelicun_model.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 18ab66d..969258e 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -350,7 +350,9 @@ class AssetModel(PelicunModel):
         index_list = []
         for row in marginal_params.itertuples():
             locs = self._get_locations(str(row.Location))
-            dirs = self._get_directions(str(row.Direction))
+            dirs = self._get_directions(
+                None if pd.isna(row.Direction) else str(row.Direction)
+            )
             indices = list(product((row.Index,), locs, dirs))
             num_vals = len(indices)
             for col, cmp_marginal_param in cmp_marginal_param_dct.items():
diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 767a8e1..3e5e08b 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -404,7 +404,7 @@ class PelicunModel:
 
         """
         if pd.isna(dir_str):
-            return np.ones(1).astype(str)
+            return np.ones(1, dtype=int).astype(str)
 
         try:
             res = str(int(float(dir_str)))  # type: ignore
-- 
2.43.0


From 9bcb8cffa838ffe17299e7e64a4370091988e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 022/105] fix: tables with a lower-case units label can be
 saved after loading

---
 pelicun/file_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 5978904..4553d0d 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -482,6 +482,7 @@ def load_data(  # noqa: C901
 
     if units_key is not None:
         units = data[units_key] if orientation == 1 else data.loc[units_key]
+        units = units.rename('Units')
         data = data.drop([units_key], axis=orientation)  # type: ignore
         data = base.convert_dtypes(data)
 
-- 
2.43.0


From 44e6b3bf2292d7c877be509015cf066cf6089cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 023/105] fix: convert_units no longer converts between lengths
 and areas

---
 pelicun/settings/default_units.json | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/settings/default_units.json b/pelicun/settings/default_units.json
index 3931968..0f8ca17 100644
--- a/pelicun/settings/default_units.json
+++ b/pelicun/settings/default_units.json
@@ -13,7 +13,9 @@
     "in": 0.0254,
     "inch": 0.0254,
     "ft": 0.3048,
-    "mile": 1609.344,
+    "mile": 1609.344
+  },
+  "area": {
     "m2": 1.0,
     "mm2": 1e-06,
     "cm2": 0.0001,
-- 
2.43.0


From 7f7b24d36e75311e683e62cb72730768e7213da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 024/105] fix: residual drifts are estimated in base units
 whatever the unit of the drifts

---
 pelicun/model/demand_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 7db2f44..33a12f5 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -464,7 +464,8 @@ class DemandModel(PelicunModel):
         demand_sample, demand_units = sample_tuple
         assert isinstance(demand_sample, pd.DataFrame)
         assert isinstance(demand_units, pd.Series)
-        pid = demand_sample['PID']
+        # the drifts are evaluated in base units, regardless of the user's units
+        pid = self.sample.sort_index(axis=1)['PID'].set_axis(demand_sample.index)
         rid = self.estimate_RID(pid, params, method)
         rid_units = pd.Series('unitless', index=rid.columns)
         demand_sample_ext = pd.concat([demand_sample, rid], axis=1)
-- 
2.43.0


From bf97b9393e09dadc595dbfc9eddcd16c831793c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 025/105] fix: limit states are evaluated in increasing order
 when some components skip one

---
 pelicun/model/damage_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 433afc1..2e6ca45 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1123,7 +1123,8 @@ class DamageModel_DS(DamageModel_Base):
         )
 
         # get a list of limit state ids among all components in the damage model
-        ls_list = dmg_eval.columns.get_level_values(5).unique()
+        # (in increasing order, regardless of which component has which)
+        ls_list = sorted(dmg_eval.columns.get_level_values(5).unique(), key=int)
 
         # for each consecutive limit state...
         for ls_id in ls_list:
@@ -1442,6 +1443,7 @@ class DamageModel_DS(DamageModel_Base):
                 for val in frg_params.index.get_level_values(0).unique():
                     if 'LS' in val:
                         limit_states.append(val[2:])  # noqa: PERF401
+                limit_states.sort(key=int)
 
                 ds_id = 0
 
-- 
2.43.0


From 8dde1257b27191e584f4cb26482dff063729cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 026/105] fix: cloned demand samples keep the level names
 damage calculations rely on

---
 pelicun/model/demand_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 33a12f5..452be6b 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1120,7 +1120,9 @@ class DemandModel(PelicunModel):
         # copy the columns
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
-        self.sample.columns = pd.MultiIndex.from_tuples(column_values)
+        self.sample.columns = pd.MultiIndex.from_tuples(
+            column_values, names=self.sample.columns.names
+        )
         # update units
         self.user_units = units.iloc[column_index]
         self.user_units.index = self.sample.columns
-- 
2.43.0


From 92dd2a26efdf653c0308ec66e79a232d0cfe0fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 027/105] fix: listing all damage states works for fragilities
 without damage state weights

---
 pelicun/model/damage_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 2e6ca45..08a8578 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1982,14 +1982,13 @@ class DamageModel_DS(DamageModel_Base):
                 # check if the given limit state is defined
                 if not pd.isna(cmp_data[ls, 'Theta_0']):
                     # check if there is only one damage state
-                    if pd.isna(cmp_data[ls, 'DamageStateWeights']):
+                    ds_weights = cmp_data.get((ls, 'DamageStateWeights'))
+                    if pd.isna(ds_weights):
                         ds_count += 1
 
                     else:
                         # or if there are more than one, how many
-                        ds_count += len(
-                            cmp_data[ls, 'DamageStateWeights'].split('|')
-                        )
+                        ds_count += len(ds_weights.split('|'))
 
             # get the list of valid cmp-loc-dir-uid sets
             if cmp_id not in damaged_components:
-- 
2.43.0


From 9866d7174922435f21418601ffa6511edcc1b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 028/105] fix: damage process tasks are performed in the order
 of their numbers

---
 pelicun/model/damage_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 08a8578..b0a27b1 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -308,8 +308,14 @@ class DamageModel(PelicunModel):
         if dmg_process is not None:
             self.log.msg('Applying damage processes.')
 
-            # Sort the damage processes tasks
-            dmg_process = {key: dmg_process[key] for key in sorted(dmg_process)}
+            # Sort the damage processes tasks by the number they start with
+            def task_order(key: str) -> tuple:
+                number = key.split('_')[0]
+                return (int(number) if number.isdecimal() else np.inf, key)
+
+            dmg_process = {
+                key: dmg_process[key] for key in sorted(dmg_process, key=task_order)
+            }
 
             # Perform damage tasks in the sorted order
             for task in dmg_process.items():
-- 
2.43.0


From 0e2f805ff36408493fde2a4e8b5e783cbd10e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 029/105] fix: demand samples without units are loaded in base
 units as documented

---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 452be6b..943aaf6 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -276,6 +276,9 @@ class DemandModel(PelicunModel):
             log=self._asmnt.log,
         )
         assert isinstance(demand_data, pd.DataFrame)
+        if units is None:
+            # no units are specified: the values are in base units
+            units = pd.Series('unitless', index=demand_data.columns, name='Units')
         assert isinstance(units, pd.Series)
 
         parsed_data = demand_data.copy()
-- 
2.43.0


From 4d867ccb5a4925a5e6d62b3936c3c987d2a4d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 030/105] fix: joint fits of censored, perfectly correlated
 samples no longer fail

---
 pelicun/uq.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index f8c4ce4..bf71a7a 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -669,7 +669,12 @@ def _neg_log_likelihood(  # noqa: C901
         cen_likelihood = 1.0
 
     # take the product of likelihoods calculated in each dimension
-    scale = _mvn_scale(std_samples.T, rho_hat)
+    try:
+        scale = _mvn_scale(std_samples.T, rho_hat)
+    except np.linalg.LinAlgError:
+        # the joint density is not defined if the samples are perfectly
+        # correlated, discourage the optimization from going there
+        return 1e10
     # TODO(AZ): We can almost surely replace the product of likelihoods
     # with a call to mvn()
     likelihoods = np.prod(likelihoods, axis=0) * scale
-- 
2.43.0


From 103bbe59c3d52bde8b8252a2b5ad11ba83ed5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 031/105] fix: reading the combined loss sample no longer
 changes the loss function sample

---
 pelicun/model/loss_model.py | 42 +++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 062fcab..c5920cc 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -119,31 +119,51 @@ class LossModel(PelicunModel):
             The combined loss sample.
 
         """
-        # Handle `None` cases
+        return self._combine_samples(self.ds_model.sample, self.lf_model.sample)
 
-        if self.ds_model.sample is None and self.lf_model.sample is None:
-            return None
+    @staticmethod
+    def _combine_samples(
+        ds_sample: pd.DataFrame | None, lf_sample: pd.DataFrame | None
+    ) -> pd.DataFrame | None:
+        """
+        Combine samples of the ds_model and lf_model sub-models.
+
+        Parameters
+        ----------
+        ds_sample: pd.DataFrame or None
+            Sample of the ds_model.
+        lf_sample: pd.DataFrame or None
+            Sample of the lf_model.
+
+        Returns
+        -------
+        pd.DataFrame
+            The combined loss sample. The arguments are not modified.
 
-        if self.ds_model.sample is None:
-            return self.lf_model.sample
+        """
+        # Handle `None` cases
+
+        if ds_sample is None:
+            return lf_sample
 
-        if self.lf_model.sample is None:
-            return self.ds_model.sample
+        if lf_sample is None:
+            return ds_sample
 
         # If both are not None, combine
 
-        ds_model_levels = self.ds_model.sample.columns.names
+        ds_model_levels = ds_sample.columns.names
 
         # add a `ds` level to the lf_model sample
-        new_index = self.lf_model.sample.columns.to_frame(index=False)
+        new_index = lf_sample.columns.to_frame(index=False)
         # add
         new_index['ds'] = 'N/A'
         # reorder
         new_index = new_index[ds_model_levels]
         new_multiindex = pd.MultiIndex.from_frame(new_index)
-        self.lf_model.sample.columns = new_multiindex
 
-        return pd.concat((self.ds_model.sample, self.lf_model.sample), axis=1)
+        return pd.concat(
+            (ds_sample, lf_sample.set_axis(new_multiindex, axis=1)), axis=1
+        )
 
     @property
     def loss_params(self) -> pd.DataFrame | None:
-- 
2.43.0


From f678196c4d4f63bbad4890f5a530eb9db513d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:15 +0000
Subject: [PATCH 032/105] fix: aggregate_losses ignores other losses in
 realizations with replacement

The exclusive samples were computed on copies that were then discarded.
---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index c5920cc..fb251d3 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -938,7 +938,8 @@ class LossModel(PelicunModel):
 
         # levels to preserve (this aggregates `ds` for the ds_model)
         column_levels = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
-        combined_sample = self.sample
+        combined_sample = self._combine_samples(ds_sample, lf_sample)
+        assert combined_sample is not None
         sample = (
             combined_sample.T.groupby(level=column_levels).sum().T.sort_index(axis=1)
         )
-- 
2.43.0


From 1a3539df5a21f05cf50cdb387d26c824d583782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 033/105] fix: loss combination uses the order of the
 components and all matching groups

The columns to combine were taken in the arbitrary order of a set that could
include other components, and only the first group of locations containing
the components was processed.
---
 pelicun/model/loss_model.py | 47 +++++++++++++------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index fb251d3..d2658c6 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1164,11 +1164,6 @@ class LossModel(PelicunModel):
         # decision variable.
         potential_groups = self._identify_potential_groups(dsample)
 
-        # cache already defined interpolation functions. This obviates
-        # the need to define all of them and we can just define them
-        # on the spot when needed, and reuse them if available.
-        interpolation_function_cache: dict = {}
-
         for (
             decision_variable,
             combination_data,
@@ -1177,37 +1172,27 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_parameters,
             ) in combination_data.items():
-                # determine if the components to combine are part of
-                # an available group
-                target_group: dict | None = None
-                for available_group in potential_groups[decision_variable]:
-                    # check if `components_to_combine` is a subset of
-                    # that available group
-                    if frozenset(components_to_combine) <= available_group:
-                        target_group = available_group
-                        break
-                assert target_group is not None
+                # identify all `loc`-`dir`-`uid`s where all of the
+                # components to combine are available
+                loc_dir_uids = [
+                    loc_dir_uid
+                    for available_group, group_loc_dir_uids in potential_groups[
+                        decision_variable
+                    ].items()
+                    if frozenset(components_to_combine) <= available_group
+                    for loc_dir_uid in group_loc_dir_uids
+                ]
+                assert loc_dir_uids
+                # define the interpolation function
+                domains, reference_values = combination_parameters
+                interp_func = RegularGridInterpolator(domains, reference_values)
                 # construct relevant loss sample columns
-                for loc_dir_uid in potential_groups[decision_variable][target_group]:
+                for loc_dir_uid in loc_dir_uids:
                     cols = [
                         (decision_variable, dmg_to_loss[x], x, *loc_dir_uid)
-                        for x in target_group
+                        for x in components_to_combine
                     ]
                     values = np.column_stack([dsample[col] for col in cols])
-                    # define/get interpolation function
-                    if (
-                        interpolation_function_cache.get(components_to_combine)
-                        is not None
-                    ):
-                        interp_func = interpolation_function_cache.get(
-                            components_to_combine
-                        )
-                    else:
-                        domains, reference_values = combination_parameters
-                        interp_func = RegularGridInterpolator(
-                            domains, reference_values
-                        )
-                    assert interp_func is not None
                     combined_loss = interp_func(values)
                     combined_loss_col = (
                         decision_variable,
-- 
2.43.0


From 8b58d0aa3f3ebc909115a6631cd95b4b75093eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:19 +0000
Subject: [PATCH 034/105] fix: loss combination arrays can have more than two
 dimensions as documented

---
 pelicun/model/loss_model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index d2658c6..1b805fe 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1304,9 +1304,13 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_array,
             ) in combination_data.items():
-                combination_index = (
-                    combination_array[:, 0],
-                    combination_array[0, :],
+                # the values along each axis where the index of the
+                # remaining axes is zero
+                combination_index = tuple(
+                    np.moveaxis(combination_array, axis, 0).reshape(
+                        combination_array.shape[axis], -1
+                    )[:, 0]
+                    for axis in range(combination_array.ndim)
                 )
                 loss_combination_converted[decision_variable][
                     components_to_combine
-- 
2.43.0


From 9b304aee55ab75da5603e9c24654af120d40da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 035/105] fix: replacement thresholds can be limited to some
 decision variables

A threshold is documented as optional for each decision variable, but a
missing one or a decision variable without losses raised a KeyError.
---
 pelicun/model/loss_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 1b805fe..9fe51a8 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1417,6 +1417,13 @@ class LossModel(PelicunModel):
 
         sample_dvs = replacement_consequence_rv_reg.RV.keys()
         for sample_dv in sample_dvs:
+            # Decision variables without a threshold or losses can't
+            # trigger replacement.
+            if (
+                sample_dv not in replacement_ratios
+                or sample_dv not in sample.columns.get_level_values('dv')
+            ):
+                continue
             sub_sample = sample.loc[:, sample_dv]
             if 'replacement' in sub_sample.columns.get_level_values('loss'):
                 # If `replacement` already exists as a consequence,
-- 
2.43.0


From c148436244c26a77d3a91e66a4bb8ced6c30a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 036/105] fix: all economies of scale settings are supported

Quantities grouped by floor were arranged with locations and damage states
swapped, and aggregating across damage states failed for damage states that
were not observed and counted undamaged quantities.
---
 pelicun/model/loss_model.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 9fe51a8..c9a07f9 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1959,10 +1959,12 @@ class RepairModel_DS(RepairModel_Base):
             eco_columns = ['cmp', 'loc']
 
         else:
-            eco_levels = [0, 1, 4]
-            eco_columns = ['cmp', 'loc', 'ds']
+            eco_levels = [0, 4, 1]
+            eco_columns = ['cmp', 'ds', 'loc']
 
-        eco_group = dmg_quantities.T.groupby(level=eco_levels)
+        # undamaged quantities have no consequences
+        damaged = dmg_quantities.columns.get_level_values('ds') != '0'
+        eco_group = dmg_quantities.loc[:, damaged].T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
         assert eco_qnt.columns.names == eco_columns
 
@@ -2056,6 +2058,10 @@ class RepairModel_DS(RepairModel_Base):
                     .loc[:, component]
                     .columns.unique(level=0)
                 ):
+                    # check if there is damage in the damage state
+                    if (component, ds) not in dmg_quantities.columns:
+                        continue
+
                     loc_list = []
 
                     for loc_id, loc in enumerate(
@@ -2503,7 +2509,7 @@ class RepairModel_DS(RepairModel_Base):
                     result.columns = result.columns.droplevel('del')
 
                 # name the remaining column header levels
-                if eco_qnt.columns.names == ['cmp', 'ds', 'loc']:
+                if 'loc' in eco_qnt.columns.names:
                     result.columns.names = ['cmp', 'ds', 'loc']
                 else:
                     result.columns.names = ['cmp', 'ds']
-- 
2.43.0


From f08c3d3893b555b8c12f4e1180b08bd9fcfc356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 037/105] fix: deterministic consequences with a family no
 longer raise an error

---
 pelicun/model/loss_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index c9a07f9..ccfeb30 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2316,7 +2316,11 @@ class RepairModel_DS(RepairModel_Base):
                                     f'{ds}-{loc}-{direction}-{uid}'
                                 ),
                                 theta=np.array(ds_theta),
-                                truncation_limits=np.array([0.0, np.nan]),
+                                truncation_limits=(
+                                    None
+                                    if ds_family == 'deterministic'
+                                    else np.array([0.0, np.nan])
+                                ),
                             )
                         )
                         rv_count += 1
@@ -2882,7 +2886,11 @@ class RepairModel_LF(RepairModel_Base):
                         f'{component}-{location}-{direction}-{uid}-{block}'
                     ),
                     theta=np.array(theta),
-                    truncation_limits=np.array([0.0, np.nan]),
+                    truncation_limits=(
+                        None
+                        if family == 'deterministic'
+                        else np.array([0.0, np.nan])
+                    ),
                 )
             )
             rv_count += 1
-- 
2.43.0


From 816d671e9d73e2971df5d5a45b849720187ab13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 038/105] fix: consequences with and without uncertainty can be
 mixed in a component

---
 pelicun/model/loss_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ccfeb30..dd57388 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2036,9 +2036,11 @@ class RepairModel_DS(RepairModel_Base):
         for decision_variable in self.decision_variables:  # noqa: PLR1702
             if decision_variable in std_dvs:
                 assert isinstance(std_sample, pd.DataFrame)
-                prob_cmp_list = std_sample[decision_variable].columns.unique(level=0)
+                prob_cmp_ds = {
+                    (x[0], x[1]) for x in std_sample[decision_variable].columns
+                }
             else:
-                prob_cmp_list = []
+                prob_cmp_ds = set()
 
             cmp_list: list[tuple[Any, ...]] = []
 
@@ -2082,7 +2084,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_ds:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
@@ -2103,7 +2105,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds, loc)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_ds:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
-- 
2.43.0


From 53b53163ac7a00cd85ecbf4919091be825a4be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 039/105] fix: loss calculation without any consequence for the
 damage no longer fails

---
 pelicun/model/loss_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index dd57388..738117a 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2151,6 +2151,15 @@ class RepairModel_DS(RepairModel_Base):
                     for loss_cmp_i, dmg_cmp_i, ds, loc in cmp_list
                 ]
 
+        # If none of the damage has consequences there are no losses
+        if not res_list:
+            self.sample = None
+            self.log.msg(
+                'There are no consequences---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
-- 
2.43.0


From 116cf602f05a62f433f19317229e23c0b2ca92dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 040/105] fix: components with damage whose consequences are
 loss functions are skipped by the damage state loss model

---
 pelicun/model/loss_model.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 738117a..6cd4e6d 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2284,8 +2284,11 @@ class RepairModel_DS(RepairModel_Base):
                 # If loss parameters are missing for that consequence,
                 # for this particular loss model, they will exist in
                 # the other(s).
-                assert self.loss_params is not None
-                if (consequence, decision_variable) not in self.loss_params.index:
+                if (
+                    self.loss_params is None
+                    or (consequence, decision_variable)
+                    not in self.loss_params.index
+                ):
                     continue
 
                 # load the corresponding parameters
@@ -2419,10 +2422,18 @@ class RepairModel_DS(RepairModel_Base):
                 if loss_cmp_id not in eco_qnt.columns.get_level_values(0).unique():
                     continue
 
+                # loss parameters that are not in this loss model exist
+                # in the other(s).
+                if (
+                    self.loss_params is None
+                    or (loss_cmp_name, decision_variable)
+                    not in self.loss_params.index
+                ):
+                    continue
+
                 ds_list = []
                 sub_medians = []
 
-                assert self.loss_params is not None
                 for ds in self.loss_params.columns.get_level_values(0).unique():
                     if not ds.startswith('DS'):
                         continue
-- 
2.43.0


From 6217191068a05bafe6bc1cca28e1852691fbca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 041/105] fix: loss functions can be mapped to components with
 a different name

The parameters were looked up by the component in some places and by the
consequence in others, and by decision variables defined in the damage
state loss model only.
---
 pelicun/model/loss_model.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 6cd4e6d..5428222 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2606,7 +2606,12 @@ class RepairModel_LF(RepairModel_Base):
         performance_group_dict = {}
         for (component, location, direction, uid), num_blocks in blocks.items():
             for decision_variable in self.decision_variables:
-                if (component, decision_variable) in self.missing:
+                # loss parameters that are not in this loss model are
+                # either missing or exist in the other(s).
+                if (
+                    loss_map[component],
+                    decision_variable,
+                ) not in self.loss_params.index:
                     continue
                 performance_group_dict[
                     (component, decision_variable), location, direction, uid
@@ -2626,9 +2631,19 @@ class RepairModel_LF(RepairModel_Base):
         )
         performance_group.index.names = ['cmp', 'loc', 'dir', 'uid']
 
+        # loss parameters assigned to each component
+        component_index = performance_group.index.unique(level='cmp')
+        component_params = self.loss_params.loc[
+            [
+                (loss_map[component], decision_variable)
+                for component, decision_variable in component_index
+            ]
+        ]
+        component_params.index = pd.MultiIndex.from_tuples(component_index)
+
         required_edps = base.invert_mapping(
             _get_required_demand_type(
-                self.loss_params, performance_group, demand_offset
+                component_params, performance_group, demand_offset
             )
         )
 
@@ -2800,12 +2815,12 @@ class RepairModel_LF(RepairModel_Base):
         ), blocks in performance_group['Blocks'].items():
             consequence = loss_map[component]
             edp = required_edps[
-                (consequence, decision_variable), location, direction, uid
+                (component, decision_variable), location, direction, uid
             ]
             edp_values = demand_dict[edp]
             assert self.loss_params is not None
             loss_function_str = self.loss_params.loc[
-                (component, decision_variable), ('LossFunction', 'Theta_0')
+                (consequence, decision_variable), ('LossFunction', 'Theta_0')
             ]
             assert isinstance(loss_function_str, str)
             try:
-- 
2.43.0


From c44a36498521f529c17755cf2770d8df8351fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 042/105] fix: the first source that defines a consequence
 provides all of its parameters

Empty cells (e.g. no distribution family) were filled with the values of
sources that come later.
---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5428222..9f4806f 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1672,7 +1672,9 @@ class RepairModel_Base(PelicunModel):
 
         # drop redefinitions of components
         data = (
-            data.groupby(level=[0, 1]).first().transform(lambda x: x.fillna(np.nan))
+            data.groupby(level=[0, 1])
+            .first(skipna=False)
+            .transform(lambda x: x.fillna(np.nan))
         )
         # note: .groupby introduces None entries. We replace them with
         # NaN for consistency.
-- 
2.43.0


From b521f31bd9515cd6f9e7771cb871bdf0d6e360db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 043/105] fix: losses of decision variables with any name can
 be aggregated

---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 9f4806f..2e2b712 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1366,7 +1366,8 @@ class LossModel(PelicunModel):
             for x in df_agg.columns.get_level_values(0)
         ]
         assert self.dv_units is not None
-        column_units = [self.dv_units[x.title()] for x in column_measures]
+        dv_names = {x.lower(): x for x in self.decision_variables}
+        column_units = [self.dv_units[dv_names[x]] for x in column_measures]
         dv_units = pd.Series(column_units, index=df_agg.columns, name='Units')
         res = file_io.save_to_csv(
             df_agg,
-- 
2.43.0


From a8d3b9c5a4da02088db9715b73fad9a9c1124a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 044/105] fix: aggregate_losses returns the losses of each
 realization when there are none

It returned a single row and, with future=True, no second table.
---
 pelicun/model/loss_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 2e2b712..f1acbec 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -921,7 +921,14 @@ class LossModel(PelicunModel):
 
         if ds_sample is None and lf_sample is None:
             self.log.msg('There are no losses.')
-            return pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            demand_sample = self._asmnt.demand.sample
+            sample_size = 1 if demand_sample is None else len(demand_sample)
+            df_agg = pd.DataFrame(
+                0.00, index=list(range(sample_size)), columns=_construct_columns()
+            )
+            if not future:
+                return df_agg
+            return df_agg, pd.DataFrame(index=df_agg.index, dtype=bool)
 
         #
         #  handle `replacement`, regardless of whether
-- 
2.43.0


From 17eb9db8c522a8d3e14f53d19727da9c504a501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 045/105] fix: cost and time are correlated for components with
 Cost in their name

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index f1acbec..48b34ea 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2360,7 +2360,7 @@ class RepairModel_DS(RepairModel_Base):
                 loc = rv_tag.split('-')[3]
                 direction = rv_tag.split('-')[4]
                 uid = rv_tag.split('-')[5]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
@@ -2955,7 +2955,7 @@ class RepairModel_LF(RepairModel_Base):
                 direction = split[4]
                 uid = split[5]
                 block = split[6]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
-- 
2.43.0


From 11eff478faa2aaf9dd93069fdb0815c7069fb51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 046/105] fix: loss samples can be saved when a consequence is
 missing for some decision variables

---
 pelicun/model/loss_model.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 48b34ea..4f4af8b 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -761,11 +761,8 @@ class LossModel(PelicunModel):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
-
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in dv_units.index:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
@@ -1826,11 +1823,8 @@ class RepairModel_DS(RepairModel_Base):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
-
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in dv_units.index:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
-- 
2.43.0


From a893aed531114359891a65b6e9108929bf1528ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 047/105] fix: unknown units in input data raise an error

---
 pelicun/file_io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 4553d0d..b079cab 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -498,11 +498,16 @@ def load_data(  # noqa: C901
             if log:
                 log.msg('Converting units...', prepend_timestamp=False)
 
+            unknown_units = sorted(
+                {str(x) for x in units.dropna() if x not in unit_conversion_factors}
+            )
+            if unknown_units:
+                msg = f'Unknown unit(s) in input data: {", ".join(unknown_units)}'
+                raise KeyError(msg)
+
             conversion_factors = units.map(
                 lambda unit: (
-                    1.00
-                    if pd.isna(unit)
-                    else unit_conversion_factors.get(unit, 1.00)
+                    1.00 if pd.isna(unit) else unit_conversion_factors[unit]
                 )
             )
 
-- 
2.43.0


From 9b0565e93b559e527085a0d745d3f42da4316437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 048/105] fix: a saved demand model can be loaded when all
 demands are empirical

---
 pelicun/model/demand_model.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 943aaf6..58055b1 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -821,12 +821,21 @@ class DemandModel(PelicunModel):
         self.log.div()
         self.log.msg('Saving demand model...')
 
-        # save the correlation and empirical data
-        file_io.save_to_csv(self.correlation, Path(file_prefix + '_correlation.csv'))
-        if self.empirical_data is not None:
+        # save the correlation and empirical data, and remove leftovers
+        # of a model saved earlier under the same prefix
+        correlation_path = Path(file_prefix + '_correlation.csv')
+        if self.correlation is None or self.correlation.empty:
+            correlation_path.unlink(missing_ok=True)
+        else:
+            file_io.save_to_csv(self.correlation, correlation_path)
+
+        empirical_path = Path(file_prefix + '_empirical.csv')
+        if self.empirical_data is None:
+            empirical_path.unlink(missing_ok=True)
+        else:
             file_io.save_to_csv(
                 self.empirical_data,
-                Path(file_prefix + '_empirical.csv'),
+                empirical_path,
                 units=self.user_units,
                 unit_conversion_factors=self._asmnt.unit_conversion_factors,
                 log=self._asmnt.log,
-- 
2.43.0


From 3205fb9dea878363239c521091c24f1d29deb9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 049/105] fix: loss samples are always floats

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 4f4af8b..bfa9868 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2167,7 +2167,7 @@ class RepairModel_DS(RepairModel_Base):
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
-        dv_sample = dv_sample.fillna(0).convert_dtypes()
+        dv_sample = dv_sample.fillna(0).astype(float)
 
         self.log.msg('Successfully obtained DV sample.', prepend_timestamp=False)
         self.sample = dv_sample
-- 
2.43.0


From 0caebf260f054bb825969ac3befc03b92e1a6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 050/105] fix: integer distribution parameters can be scaled

---
 pelicun/uq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index bf71a7a..eb107d7 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -115,7 +115,8 @@ def scale_distribution(
     if pd.isna(family):
         family = 'deterministic'
 
-    theta_new = np.full_like(theta, np.nan)
+    # integer parameters cannot store missing values
+    theta_new = np.full_like(theta, np.nan, dtype=np.result_type(theta, float))
     if family == 'normal_std':
         theta_new[0] = theta[0] * scale_factor  # mean
         theta_new[1] = theta[1] * scale_factor  # STD
-- 
2.43.0


From 0bf286e8042ca2298e3109a55a3d5a3e671c8081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 051/105] fix: is_unspecified accepts lists

---
 pelicun/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index e3044af..d0b4814 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -1850,11 +1850,9 @@ def is_unspecified(d: dict[str, Any], path: str) -> bool:
     value = get(d, path, default=None)
     if value is None:
         return True
-    if pd.isna(value):
-        return True
-    if value == {}:
-        return True
-    return value == []
+    if isinstance(value, (dict, list)):
+        return len(value) == 0
+    return bool(pd.api.types.is_scalar(value) and pd.isna(value))
 
 
 def is_specified(d: dict[str, Any], path: str) -> bool:
-- 
2.43.0


From 6b297d142db8130f4fbccb6ec1d651b86532eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 052/105] fix: labels of empty tables can be converted

---
 pelicun/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/base.py b/pelicun/base.py
index d0b4814..f71c7fb 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -848,6 +848,10 @@ def convert_to_MultiIndex(  # noqa: N802
         msg = f'Invalid axis parameter: {axis}'
         raise ValueError(msg)
 
+    # there is nothing to convert in an empty table
+    if not index_labels:
+        return data
+
     max_lbl_len = np.max([len(labels) for labels in index_labels])
 
     for l_i, labels in enumerate(index_labels):
-- 
2.43.0


From 2ed1d49ce05b8ccd2f90dc1ff245bbca6b492cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 053/105] fix: tables with multi-level row labels can be saved
 with units

---
 pelicun/file_io.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index b079cab..13df5e1 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -215,9 +215,7 @@ def save_to_csv(  # noqa: C901
                         active_labels.append(label)  # noqa: PERF401
 
                 if len(active_labels) > 0:
-                    data.loc[np.array(active_labels), np.array(cols_to_scale)] *= (
-                        unit_factor
-                    )
+                    data.loc[active_labels, list(cols_to_scale)] *= unit_factor
 
             labels_to_keep += active_labels
 
-- 
2.43.0


From 0309bcb633b1d7aabd3e2fcb4a31130d6a93d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 054/105] fix: warnings are stored in full in the warnings file

---
 pelicun/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index f71c7fb..8584532 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -461,10 +461,12 @@ class Logger:
                 warnings.warn(message, PelicunWarning, stacklevel=3)
                 if self.warning_file is not None:
                     with Path(self.warning_file).open('a', encoding='utf-8') as f:
+                        # only remove the formatting, leave the text as is
+                        prefix = self.spaces + Fore.RED
                         f.write(
-                            message.replace(Fore.RED, '')
-                            .replace(Style.RESET_ALL, '')
-                            .replace(self.spaces, '')
+                            message.replace('\n' + prefix, '\n').replace(
+                                Style.RESET_ALL + '\n', '\n'
+                            )
                         )
 
         self.emitted = self.emitted.union(set(self.warning_stack))
-- 
2.43.0


From 84370886f13b0fca517cc54c4365a462e42ff724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 055/105] fix: InconsistentUnitsError can name a file

---
 pelicun/pelicun_warnings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/pelicun_warnings.py b/pelicun/pelicun_warnings.py
index 399f32a..e0c8009 100644
--- a/pelicun/pelicun_warnings.py
+++ b/pelicun/pelicun_warnings.py
@@ -77,7 +77,7 @@ class InconsistentUnitsError(Exception):
         self.message: str
 
         if file:
-            self.message = f'{self.message}\n' f'File: {file}'
+            self.message = f'{message}\n' f'File: {file}'
         else:
             self.message = message
         super().__init__(self.message)
-- 
2.43.0


From 07a63f4279eb47e2591c894fef3cf9c5524ad4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 056/105] fix: joint densities in three or more dimensions are
 reproducible

---
 pelicun/uq.py | 89 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 89 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index eb107d7..00c519b 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -226,11 +226,100 @@ def mvn_orthotope_density(
     correl = np.array([0.0]) if ndim == 1 else corr[np.tril_indices(ndim, -1)]
 
     # estimate the density
+    max_exact_dim = 2
+    if ndim > max_exact_dim:
+        return _mvn_orthotope_density_qmc(lower, upper, corr)
+
     eps_alpha, alpha, _ = mvndst(lower, upper, infin, correl)
 
     return alpha, eps_alpha
 
 
+def _mvn_orthotope_density_qmc(
+    lower: np.ndarray,
+    upper: np.ndarray,
+    corr: np.ndarray,
+    n_points: int = 1000,
+    n_shifts: int = 8,
+) -> tuple[float, float]:
+    """
+    Estimate an orthotope density with a fixed set of integration points.
+
+    Uses the method of Alan Genz (1992) with a randomly shifted lattice
+    that is the same in every call. This makes the estimate reproducible
+    and a smooth function of the inputs, which is essential when it is
+    part of an objective function.
+
+    Parameters
+    ----------
+    lower: float ndarray
+        Standardized lower bounds.
+    upper: float ndarray
+        Standardized upper bounds.
+    corr: float 2D ndarray
+        Correlation matrix. It can be singular.
+    n_points: int
+        Number of lattice points.
+    n_shifts: int
+        Number of random shifts applied to the lattice.
+
+    Returns
+    -------
+    tuple
+        alpha: float
+            Estimate of the probability density within the hyperrectangle.
+        eps_alpha: float
+            Estimate of the error in the calculated probability density.
+
+    """
+    ndim = len(lower)
+
+    # Cholesky factors; zero pivots belong to dimensions that are fully
+    # determined by the preceding ones
+    chol = np.zeros((ndim, ndim))
+    for i in range(ndim):
+        for j in range(i):
+            if chol[j, j] > 0.0:
+                chol[i, j] = (corr[i, j] - chol[i, :j] @ chol[j, :j]) / chol[j, j]
+        residual = 1.0 - chol[i, :i] @ chol[i, :i]
+        chol[i, i] = np.sqrt(residual) if residual > 1e-10 else 0.0  # noqa: PLR2004
+
+    # lattice generated with the square roots of primes
+    primes: list[int] = []
+    candidate = 2
+    while len(primes) < ndim:
+        if all(candidate % prime for prime in primes):
+            primes.append(candidate)
+        candidate += 1
+    shifts = np.random.default_rng(0).random((ndim, n_shifts, 1))
+    points = np.sqrt(primes)[:, None] * np.arange(1, n_points + 1)
+    points = np.abs(2.0 * ((points[:, None, :] + shifts) % 1.0) - 1.0)
+    points = points.reshape(ndim, -1)
+
+    probs = np.ones(points.shape[1])
+    y = np.zeros_like(points)
+    for i in range(ndim):
+        shift = chol[i, :i] @ y[:i]
+        if chol[i, i] > 0.0:
+            p_lower = norm.cdf((lower[i] - shift) / chol[i, i])
+            p_upper = norm.cdf((upper[i] - shift) / chol[i, i])
+            probs *= np.maximum(p_upper - p_lower, 0.0)
+            y[i] = norm.ppf(
+                np.clip(
+                    p_lower + points[i] * (p_upper - p_lower), 1e-300, 1.0 - 1e-16
+                )
+            )
+        else:
+            probs *= (shift >= lower[i]) & (shift <= upper[i])
+
+    estimates = probs.reshape(n_shifts, -1).mean(axis=1)
+
+    return (
+        float(np.mean(estimates)),
+        float(3.0 * np.std(estimates, ddof=1) / np.sqrt(n_shifts)),
+    )
+
+
 def _get_theta(
     params: np.ndarray, inits: np.ndarray, dist_list: np.ndarray
 ) -> np.ndarray:
-- 
2.43.0


From a3b6695a7658dbf22c9878bcd48d9bd9f16ea2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 057/105] fix: joint fits reject indefinite correlation
 matrices instead of failing

---
 pelicun/uq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 00c519b..5e10ccb 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -761,9 +761,10 @@ def _neg_log_likelihood(  # noqa: C901
     # take the product of likelihoods calculated in each dimension
     try:
         scale = _mvn_scale(std_samples.T, rho_hat)
-    except np.linalg.LinAlgError:
+    except ValueError:
         # the joint density is not defined if the samples are perfectly
-        # correlated, discourage the optimization from going there
+        # correlated or the estimated correlation matrix is not positive
+        # semidefinite, discourage the optimization from going there
         return 1e10
     # TODO(AZ): We can almost surely replace the product of likelihoods
     # with a call to mvn()
-- 
2.43.0


From 625e9d52f7e43e55380cff029a8fd46d34738f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 058/105] fix: joint fits discard parameters that rule out the
 data

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 5e10ccb..1b4fec9 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -712,6 +712,9 @@ def _neg_log_likelihood(  # noqa: C901
 
     # if the problem is more than one dimensional, get the correlation matrix
     if n_dims > 1:
+        # samples at a probability of zero or one rule out these parameters
+        if not np.isfinite(std_samples).all():
+            return 1e10
         rho_hat = _get_std_corr_matrix(std_samples)
         if rho_hat is None:
             return 1e10
-- 
2.43.0


From 2fdcfb1d080ba276907d8b802a1fb8845cea9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 059/105] fix: auto-population scripts use the helper modules
 of their own folder

---
 pelicun/auto.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/pelicun/auto.py b/pelicun/auto.py
index e0e5b2e..0de2165 100644
--- a/pelicun/auto.py
+++ b/pelicun/auto.py
@@ -125,17 +125,32 @@ def auto_populate(
 
     # load the auto population module
     asp = Path(auto_script_path).resolve()
-    sys.path.insert(0, str(asp.parent) + '/')
-    spec = importlib.util.spec_from_file_location(f'auto_script_{unique_id}', asp)
-    module = importlib.util.module_from_spec(spec)
-    spec.loader.exec_module(module)
-    auto_populate_ext = module.auto_populate
-
-    # auto_script = importlib.__import__(asp.name[:-3], globals(), locals(), [], 0)
-    # auto_populate_ext = auto_script.auto_populate
-
-    # generate the DL input data
-    aim_ap, dl_ap, comp = auto_populate_ext(aim=config_autopopulated)
+    script_dir = str(asp.parent) + '/'
+    loaded_modules = set(sys.modules)
+    sys.path.insert(0, script_dir)
+    try:
+        spec = importlib.util.spec_from_file_location(
+            f'auto_script_{unique_id}', asp
+        )
+        module = importlib.util.module_from_spec(spec)
+        spec.loader.exec_module(module)
+        auto_populate_ext = module.auto_populate
+
+        # auto_script = importlib.__import__(asp.name[:-3], globals(), locals(), [], 0)
+        # auto_populate_ext = auto_script.auto_populate
+
+        # generate the DL input data
+        aim_ap, dl_ap, comp = auto_populate_ext(aim=config_autopopulated)
+
+    finally:
+        # forget the modules in the folder of the script so that scripts in
+        # other folders can use their own modules with the same names
+        if script_dir in sys.path:
+            sys.path.remove(script_dir)
+        for name in set(sys.modules) - loaded_modules:
+            module_file = getattr(sys.modules[name], '__file__', None)
+            if module_file and Path(module_file).is_relative_to(asp.parent):
+                del sys.modules[name]
 
     # assemble the extended config
     config_autopopulated['GeneralInformation'].update(aim_ap)
-- 
2.43.0


From effd01fc33cab5dae1436d592c11356309d67f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 060/105] fix: intensity measures in regional simulations keep
 their labels

---
 pelicun/tools/regional_sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 7c85eef..1126d86 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -485,11 +485,14 @@ def process_buildings_chunk(
 
     grid_point_locations = grid_points[['Longitude', 'Latitude']].to_numpy()
 
-    grid_data_sorted = grid_data.sort_index(axis=1)
+    # keep the features in the order they are labeled in below
+    grid_data_sorted = grid_data[
+        [(point, im_type) for point in grid_points.index for im_type in im_list]
+    ]
 
     n_realizations = grid_data_sorted.shape[0]
-    n_sources = grid_data_sorted.columns.unique(level=0).size
-    n_features = grid_data_sorted.columns.unique(level=1).size
+    n_sources = len(grid_points.index)
+    n_features = len(im_list)
 
     grid_point_intensity_measures = grid_data_sorted.to_numpy().T.reshape(
         n_sources, n_features, n_realizations
-- 
2.43.0


From 04314925f184409c995d7baff4074c4d5e6cbb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 061/105] fix: buildings in regional simulations can have
 different component quantities

---
 pelicun/tools/regional_sim.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 1126d86..051a9ba 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -584,13 +584,13 @@ def process_buildings_chunk(
 
     cmp_marginals_raw = cmp_marginals.copy()
 
-    cmp_marginals = cmp_marginals_raw.groupby(cmp_marginals_raw.index).agg(
-        {
-            'Units': unique_list,
-            'Location': unique_list,
-            'Direction': unique_list,
-            'Theta_0': unique_list,
-        }
+    # buildings with different quantities of a component are kept separate
+    quantity_cols = ['Units', 'Direction', 'Theta_0']
+    cmp_marginals = (
+        cmp_marginals_raw.rename_axis(index='cmp')
+        .groupby(['cmp', *quantity_cols])
+        .agg({'Location': unique_list})
+        .reset_index(quantity_cols)[['Units', 'Location', 'Direction', 'Theta_0']]
     )
 
     # 5 Calculate Damage
-- 
2.43.0


From 2c3e59600b0df2f15239da2ed05a7fe2b38192db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 062/105] fix: buildings without damage have zero losses in
 regional simulations

---
 pelicun/tools/regional_sim.py | 118 +++++++++++++++-------------------
 1 file changed, 53 insertions(+), 65 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 051a9ba..0ca509e 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -203,6 +203,47 @@ def tqdm_joblib(tqdm_object: tqdm) -> contextlib.Generator[None, None, None]:
         tqdm_object.close()
 
 
+def _get_building_losses(
+    assessment: Assessment, decision_variable: str, building_ids: list[int]
+) -> pd.DataFrame:
+    """
+    Get the losses of each building from a finished loss calculation.
+
+    The loss sample has no results for buildings that are not damaged in
+    any of the realizations. The losses of those buildings are zero.
+
+    Parameters
+    ----------
+    assessment : Assessment
+        Pelicun Assessment object with losses already calculated
+    decision_variable : str
+        The decision variable to get the losses for
+    building_ids : list[int]
+        IDs of the buildings
+
+    Returns
+    -------
+    pd.DataFrame
+        Losses with buildings in columns and realizations in rows
+    """
+    losses = pd.DataFrame(index=assessment.damage.save_sample().index)
+
+    if assessment.loss.sample is not None:
+        repair_sample = assessment.loss.save_sample()
+
+        if decision_variable in repair_sample.columns.get_level_values('dv'):
+            # aggregate across everything but the location; all other levels
+            # have a single value per location, so they do not provide
+            # additional information
+            repair_groupby = repair_sample[decision_variable].T.groupby(level='loc')
+            losses = (
+                repair_groupby.sum().mask(repair_groupby.count() == 0, np.nan).T
+            )
+            losses.columns = losses.columns.astype(int)
+
+    return losses.reindex(columns=building_ids, fill_value=0.0)
+
+
 def _calculate_losses_hazus_eq(
     assessment: Assessment, dl_method: str, bldg_df_chunk: pd.DataFrame
 ) -> (pd.DataFrame, pd.DataFrame):
@@ -305,39 +346,12 @@ def _calculate_losses_hazus_eq(
 
         assessment.loss.calculate()
 
-        repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
-
-        # aggregate across uid
-        # this is trivial since we don't have multiple identical components at the same location
-        repair_units = repair_units.groupby(
-            level=['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
-        ).first()
-
-        repair_groupby_uid = repair_sample.T.groupby(
-            level=['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
-        )
-
-        repair_sample = (
-            repair_groupby_uid.sum().mask(repair_groupby_uid.count() == 0, np.nan).T
-        )
-
-        # now aggregate across loss, dmg, damage state, and direction
-        # all of those are only one value per location, so they do not provide additional information
-        repair_groupby = repair_sample.T.groupby(level=['dv', 'loc'])
-
-        repair_units = repair_units.groupby(level=['dv', 'loc']).first()
-
-        grp_repair = repair_groupby.sum().mask(repair_groupby.count() == 0, np.nan).T
-
-        # - - - -
-
         # append the results to the main dict
+        # we did not preserve the units for now; we can add them here if needed
         for DV_type in ['Cost', 'Time']:  # noqa: N806
-            grp_repair_dv = grp_repair[DV_type].copy()
-            grp_repair_dv.columns = grp_repair_dv.columns.astype(int)
-
-            # we did not preserve the units for now; we can add them here if needed
-            loss_results[DV_type].append(grp_repair_dv.loc[:, building_ids])
+            loss_results[DV_type].append(
+                _get_building_losses(assessment, DV_type, building_ids)
+            )
 
     repair_costs = pd.concat(loss_results['Cost'], axis=1).sort_index(axis=1).T
     repair_times = pd.concat(loss_results['Time'], axis=1).sort_index(axis=1).T
@@ -383,43 +397,17 @@ def _calculate_losses_general(
 
     assessment.loss.calculate()
 
-    repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
-
-    # aggregate across uid
-    # this is trivial since we don't have multiple identical components at
-    # the same location
-    repair_units = repair_units.groupby(
-        level=['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
-    ).first()
-
-    repair_groupby_uid = repair_sample.T.groupby(
-        level=['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
-    )
-
-    repair_sample = (
-        repair_groupby_uid.sum().mask(repair_groupby_uid.count() == 0, np.nan).T
-    )
-
-    # now aggregate across loss, dmg, damage state, and direction
-    # all of those are only one value per location, so they do not provide
-    # additional information
-    repair_groupby = repair_sample.T.groupby(level=['dv', 'loc'])
-
-    repair_units = repair_units.groupby(level=['dv', 'loc']).first()
-
-    grp_repair = repair_groupby.sum().mask(repair_groupby.count() == 0, np.nan).T
-
-    # - - - -
-
     # prepare the output
-    repair_costs = grp_repair['Cost']
-    repair_costs.columns = repair_costs.columns.astype(int)
-    repair_costs = repair_costs.T
+    building_ids = sorted(
+        assessment.damage.save_sample()
+        .columns.get_level_values('loc')
+        .astype(int)
+        .unique()
+    )
+    repair_costs = _get_building_losses(assessment, 'Cost', building_ids).T
 
     if 'Time' in decision_variables:
-        repair_times = grp_repair['Time']
-        repair_times.columns = repair_times.columns.astype(int)
-        repair_times = repair_times.T
+        repair_times = _get_building_losses(assessment, 'Time', building_ids).T
     else:
         repair_times = None
 
-- 
2.43.0


From 899681f11656cb66118810442e0e5af9952f8d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 063/105] fix: collapse limits can be integers

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 8de1988..63f9017 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -659,7 +659,7 @@ class DLCalculationAssessment(AssessmentBase):
 
             for dem_type, limit in collapse_limits.items():
                 assert isinstance(dem_type, str)
-                assert isinstance(limit, (str, float))
+                assert isinstance(limit, (str, float, int))
                 nlevels_with_event_id = 4
                 if raw_demands.columns.nlevels == nlevels_with_event_id:
                     dem_to_drop += raw_demands.loc[
-- 
2.43.0


From 882b4cd309160d6dfdcb1431e533a2d89b5121be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 064/105] fix: collapse fragilities apply to floor demands at
 their own floor

---
 pelicun/assessment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 63f9017..d3fe0ea 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1040,6 +1040,12 @@ class DLCalculationAssessment(AssessmentBase):
             else:
                 coll_dem_spec = None
 
+            # the component is placed at the locations of the demands, so
+            # the default offset of the demand type does not apply to it
+            adf.loc[coll_cmp_name, ('Demand', 'Offset')] = (
+                -self.options.demand_offset.get(coll_dem, 0)
+            )
+
             coll_dem_name = None
             for demand_name, demand_short in EDP_to_demand_type.items():
                 if demand_short == coll_dem:
-- 
2.43.0


From 3f50b0ce9a0ae783fe90136cbb09bc430ad16e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 065/105] fix: calculations do not change the default output
 settings

---
 pelicun/tools/DL_calculation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 463c3c6..a8b2c5e 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -42,6 +42,7 @@
 from __future__ import annotations
 
 import argparse
+import copy
 import json
 import os
 import sys
@@ -791,9 +792,9 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
         # if detailed results are not requested, add a lean output config
         if detailed_results is False:
-            update(config_ap, 'DL/Outputs', regional_out_config)
+            update(config_ap, 'DL/Outputs', copy.deepcopy(regional_out_config))
         else:
-            update(config_ap, 'DL/Outputs', full_out_config)
+            update(config_ap, 'DL/Outputs', copy.deepcopy(full_out_config))
             # add output settings from regional output config
             if is_unspecified(config_ap, 'DL/Outputs/Settings'):
                 update(config_ap, 'DL/Outputs/Settings', {})
@@ -833,7 +834,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # provide all outputs if the files are not specified
     if is_unspecified(config, 'DL/Outputs'):
-        update(config, 'DL/Outputs', full_out_config)
+        update(config, 'DL/Outputs', copy.deepcopy(full_out_config))
 
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
@@ -853,7 +854,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # add empty Settings to output config to simplify code below
     if is_unspecified(config, 'DL/Outputs/Settings'):
-        update(config, 'DL/Outputs/Settings', pbe_settings)
+        update(config, 'DL/Outputs/Settings', copy.deepcopy(pbe_settings))
 
     if is_unspecified(config, 'DL/Demands'):
         msg = 'Demand configuration missing.'
-- 
2.43.0


From cfc526a0a083e89c63cd0c21e90f52d96cde585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 066/105] fix: JSON outputs of earlier runs are removed from
 the output folder

---
 pelicun/tools/DL_calculation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index a8b2c5e..e3da43c 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1559,9 +1559,16 @@ def _remove_existing_files(output_path: Path, known_output_files: list[str]) ->
     """
     # Initialize the output folder - i.e., remove existing output files from
     # there
+    # The JSON version of each output file is also an output file
+    known_files = {
+        name
+        for filename in known_output_files
+        for name in (filename, filename[:-3] + 'json')
+    }
+
     files = os.listdir(output_path)
     for filename in files:
-        if filename in known_output_files:
+        if filename in known_files:
             try:
                 (output_path / filename).unlink()
             except OSError as exc:
-- 
2.43.0


From 044fea51388fbcaa3c651974e8f13f8f3a225f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 067/105] fix: statistics in JSON outputs are numbers

---
 pelicun/tools/DL_calculation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index e3da43c..35ba4e4 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1059,6 +1059,9 @@ def _create_json_files_if_requested(
 
             data = data.drop(units_key, axis=0)
 
+            # the row of units made every column an object column
+            data = data.astype(float)
+
             out_dict = convert_df_to_dict(data)
 
             out_dict.update(
-- 
2.43.0


From a52f355f3150b5ba135ad1bdb31470f99bdc5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 068/105] fix: calculations without losses save their results

---
 pelicun/tools/DL_calculation.py | 36 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 35ba4e4..4389a5c 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1439,25 +1439,31 @@ def _loss_save(  # noqa: C901
         Whether to aggregate colocated components. Default is False.
 
     """
-    out = assessment.loss.save_sample(save_units=True)
-    assert isinstance(out, tuple)
-    repair_sample, repair_units_series = out
-    repair_units = repair_units_series.to_frame().T
+    out_reqs = _parse_requested_output_file_names(output_config)
 
-    if aggregate_colocated:
-        if 'ds' in repair_units.columns.names:
-            uid_levels = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
-        else:
-            uid_levels = ['dv', 'loss', 'dmg', 'loc', 'dir']
+    if assessment.loss.sample is None:
+        # without losses, only the aggregate results are available
+        assessment.log.msg('There are no component losses to save.')
+        out_reqs &= {'AggregateSample', 'AggregateStatistics'}
 
-        repair_units = repair_units.T.groupby(level=uid_levels).first().T
-        repair_groupby_uid = repair_sample.T.groupby(level=uid_levels)
+    else:
+        out = assessment.loss.save_sample(save_units=True)
+        assert isinstance(out, tuple)
+        repair_sample, repair_units_series = out
+        repair_units = repair_units_series.to_frame().T
+
+        if aggregate_colocated:
+            if 'ds' in repair_units.columns.names:
+                uid_levels = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
+            else:
+                uid_levels = ['dv', 'loss', 'dmg', 'loc', 'dir']
 
-        repair_sample = (
-            repair_groupby_uid.sum().mask(repair_groupby_uid.count() == 0, np.nan).T
-        )
+            repair_units = repair_units.T.groupby(level=uid_levels).first().T
+            repair_groupby_uid = repair_sample.T.groupby(level=uid_levels)
 
-    out_reqs = _parse_requested_output_file_names(output_config)
+            repair_sample = (
+                repair_groupby_uid.sum().mask(repair_groupby_uid.count() == 0, np.nan).T
+            )
 
     if 'Sample' in out_reqs:
         repair_sample_s = repair_sample.copy()
-- 
2.43.0


From 2df4c09dd26c99fe45e4c2904762973bd24d2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 069/105] fix: default demand file next to the configuration

---
 pelicun/tools/DL_calculation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 4389a5c..eb9999e 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -633,6 +633,11 @@ def _parse_config_file(  # noqa: C901, PLR0912
     ) as f:
         schema = json.load(f)
 
+    # if the demand file location is not specified, assume there is a
+    # `response.csv` file next to the config file.
+    if demand_file is None:
+        demand_file = str(config_path.parent / 'response.csv')
+
     # add the demand file to the DL if needed
     if is_specified(config, 'DL'):
         if is_unspecified(config, 'DL/Demands/DemandFilePath'):
-- 
2.43.0


From 3f8dbe950634694043507f921840975cf6d8d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 070/105] fix: component sample files are valid asset
 configurations

---
 pelicun/settings/input_schema.json | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pelicun/settings/input_schema.json b/pelicun/settings/input_schema.json
index 346a9b0..819c605 100644
--- a/pelicun/settings/input_schema.json
+++ b/pelicun/settings/input_schema.json
@@ -169,8 +169,17 @@
               "type": "string"
             }
           },
-          "required": [
-            "ComponentAssignmentFile"
+          "anyOf": [
+            {
+              "required": [
+                "ComponentAssignmentFile"
+              ]
+            },
+            {
+              "required": [
+                "ComponentSampleFile"
+              ]
+            }
           ]
         },
         "Damage": {
-- 
2.43.0


From 5eb18d085c4941cb1c91cb74566dc75565147f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 071/105] fix: user-defined loss map entries of collapse and
 irreparable are kept

---
 pelicun/assessment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index d3fe0ea..52cba4c 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1421,9 +1421,9 @@ class DLCalculationAssessment(AssessmentBase):
             raise ValueError(msg)
 
         # prepare additional loss map entries, if needed
-        if 'DMG-collapse' not in loss_map.index:
-            loss_map.loc['collapse', 'Repair'] = 'replacement'
-            loss_map.loc['irreparable', 'Repair'] = 'replacement'
+        for component in ('collapse', 'irreparable'):
+            if component not in loss_map.index:
+                loss_map.loc[component, 'Repair'] = 'replacement'
 
         if decision_variables:
             self.loss.decision_variables = decision_variables
-- 
2.43.0


From f58b9d4aa6f3e93a11fb1c430526dc4ef3e99084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 072/105] fix: --coupled_EDP without a value turns on coupled
 demands

---
 pelicun/tools/DL_calculation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index eb9999e..8dc5154 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1633,7 +1633,7 @@ def main() -> None:
         default=False,
         type=str2bool,
         nargs='?',
-        const=False,
+        const=True,
         help=(
             'Consider coupled Engineering Demand Parameters (EDPs) '
             'in calculations (True/False). Defaults to False.'
-- 
2.43.0


From 1720c9e67a7aa52c0c331d0d1b1243505da9a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 073/105] fix: assessment options of the configuration without
 auto-populated options

---
 pelicun/tools/DL_calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 8dc5154..68654f5 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -764,6 +764,8 @@ def _parse_config_file(  # noqa: C901, PLR0912
             # extend options defined via the auto-population script to
             # include those in the original `config`
             config_ap['Applications']['DL']['ApplicationData'].pop('Options')
+            if is_unspecified(config_ap, 'DL/Options'):
+                update(config_ap, 'DL/Options', {})
             update_vals(
                 config_ap['DL']['Options'],
                 assessment_options,
-- 
2.43.0


From b4d550d0851c9c2925335ed68307cdd96c8a5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 074/105] fix: residual drift settings are not modified

---
 pelicun/assessment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 52cba4c..46aa4cf 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -731,6 +731,7 @@ class DLCalculationAssessment(AssessmentBase):
         if residual_drift_inference:
             # `method` is guaranteed to exist because it is confirmed when
             # parsing the configuration file.
+            residual_drift_inference = residual_drift_inference.copy()
             rid_inference_method = residual_drift_inference.pop('method')
 
             if rid_inference_method == 'FEMA P-58':
-- 
2.43.0


From 895e332f704e3eee3f93b0a1c9afcbc6e26078c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 075/105] fix: combination of wind and flood losses follows the
 order of the databases

---
 pelicun/assessment.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 46aa4cf..0d1876a 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1454,7 +1454,17 @@ class DLCalculationAssessment(AssessmentBase):
             # get the component names
             # assume that the first and second component in the loss map
             # are the wind and flood components, respectively
-            wind_comp, flood_comp = loss_map.index.to_numpy()[[0, 1]]
+            components = loss_map
+            if loss_map_approach == 'Automatic':
+                # such a loss map lists the components in alphabetical
+                # order; use the order of the consequence databases
+                components = loss_map[loss_map['Repair'] != 'replacement']
+                db_order = conseq_df.index.unique(level=0).get_indexer(
+                    components['Repair']
+                )
+                components = components.iloc[np.argsort(db_order, kind='stable')]
+
+            wind_comp, flood_comp = components.index.to_numpy()[[0, 1]]
 
             loss_combination = {
                 'Cost': {
-- 
2.43.0


From ecede20450ebcfb78251158b775c827bd009297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 076/105] fix: do not leave partial model library files behind

---
 pelicun/tools/dlml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 013b228..c140cc7 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -536,8 +536,12 @@ def _download_file(url: str, local_path: Union[str, Path]) -> None:  # noqa: UP0
         response = requests.get(url, stream=True, timeout=(10, 60))
         response.raise_for_status()
 
+        # receive everything before touching the local file, so that an
+        # interrupted transfer does not leave a partial file behind
+        chunks = list(response.iter_content(chunk_size=8192))
+
         with path.open('wb') as f:
-            for chunk in response.iter_content(chunk_size=8192):
+            for chunk in chunks:
                 f.write(chunk)
 
     except requests.exceptions.RequestException as e:
-- 
2.43.0


From 6e815583483f2a19aad3c34c07d83d733aa31599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 077/105] fix: download all model library files when the list
 of changes is incomplete

---
 pelicun/tools/dlml.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index c140cc7..900158f 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -193,6 +193,13 @@ def _get_changed_files(
 
         compare_data = response.json()
 
+        # The list of files is only complete when one of the commits is an
+        # ancestor of the other one.
+        if compare_data.get('status') == 'diverged':
+            logger.warning('The commits belong to diverged histories.')
+            logger.warning('Will proceed by re-downloading all necessary files.')
+            return None
+
         # Check the status. 'behind' means we are downgrading.
         if compare_data.get('status') == 'behind':
             # If we're downgrading, the diff is empty in this direction.
@@ -206,7 +213,15 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        return {file_info['filename'] for file_info in compare_data.get('files', [])}
+        files = compare_data.get('files', [])
+
+        # GitHub does not list more than 300 files.
+        if len(files) >= 300:  # noqa: PLR2004
+            logger.warning('The list of changed files might be incomplete.')
+            logger.warning('Will proceed by re-downloading all necessary files.')
+            return None
+
+        return {file_info['filename'] for file_info in files}
 
     except requests.exceptions.RequestException as e:
         logger.warning(f'Could not get commit comparison from GitHub API: {e}')
-- 
2.43.0


From 603e4905c8dc8d43cd964f71af191590459558d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 078/105] fix: ignore every kind of damaged model library cache

---
 pelicun/tools/dlml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 900158f..de13e89 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -247,10 +247,12 @@ def load_cache(cache_file: Union[str, Path]) -> Dict[str, Any]:  # noqa: UP007,
     if path.exists():
         try:
             with path.open('r') as f:
-                return json.load(f)
-        except (OSError, json.JSONDecodeError):
+                cache_data = json.load(f)
+        except (OSError, ValueError):
             # If the cache file is corrupted, return an empty cache
             return {}
+        if isinstance(cache_data, dict):
+            return cache_data
     return {}
 
 
-- 
2.43.0


From 219b38b51bad2cef8f599c7c062b809063f2452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 079/105] fix: never let the version check stop pelicun

---
 pelicun/tools/dlml.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index de13e89..e514833 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -376,7 +376,13 @@ def check_dlml_version() -> Dict[str, Union[bool, str, None]]:  # noqa: UP007, U
 
     except requests.exceptions.RequestException as e:
         result['error'] = f'Failed to check for updates: {e}'
-    except (ValueError, TypeError, KeyError, json.JSONDecodeError) as e:
+    except (
+        ValueError,
+        TypeError,
+        KeyError,
+        AttributeError,
+        json.JSONDecodeError,
+    ) as e:
         result['error'] = f'Version check error: {e}'
 
     # Update cache with version check results
@@ -829,6 +835,8 @@ def check_dlml_data() -> None:
             ValueError,
             TypeError,
             KeyError,
+            AttributeError,
+            OSError,
             json.JSONDecodeError,
         ) as e:
             # Version check failed, but don't prevent import
-- 
2.43.0


From ef0e4c938c87a5d76957184396ce305d0408f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 080/105] fix: record the version of a model library download
 without cache

---
 pelicun/tools/dlml.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index e514833..6a631b2 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -666,8 +666,10 @@ def download_data_files(  # noqa: C901
 
     file_download_base_url = f'{get_raw_repo_url()}/{commit_sha}'
 
-    # Initialize cache for this commit if using caching
-    if use_cache:
+    # Initialize cache for this commit if using caching. A cache that describes
+    # the previous files has to be replaced without caching, too.
+    record_files = use_cache or cache_file.exists()
+    if record_files:
         # Keep track of files that should exist
         new_cache = {
             'commit_sha': commit_sha,
@@ -719,13 +721,13 @@ def download_data_files(  # noqa: C901
             remote_url = f'{file_download_base_url}/{file_path}'
             _download_file(remote_url, str(local_path))
 
-            if use_cache:
+            if record_files:
                 new_cache['files'][file_path] = get_file_hash(str(local_path))
 
             pbar.update(1)
 
     # Save the new cache
-    if use_cache:
+    if record_files:
         save_cache(str(cache_file), new_cache)
 
     logger.info(
-- 
2.43.0


From 581ed3cad9d8f773f9c6e06e09f596ea22aa814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 081/105] fix: check the files before skipping a model library
 update

---
 pelicun/tools/dlml.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 6a631b2..7085541 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -625,8 +625,20 @@ def download_data_files(  # noqa: C901
 
         # Check if we already have the latest data
         if old_commit_sha == commit_sha:
-            logger.info(f'Already have the latest data for commit {commit_sha[:7]}.')
-            return
+            expected_files = ['model_files.txt', *cache_data.get('files', {})]
+            if all(
+                get_file_hash(str(target_data_abs_dir / file_path)) is not None
+                for file_path in expected_files
+            ):
+                logger.info(
+                    f'Already have the latest data for commit {commit_sha[:7]}.'
+                )
+                # The same commit can have more than one name
+                if cache_data.get('version') != cache_meta['version']:
+                    cache_data.update(cache_meta)
+                    cache_data.pop('last_version_check', None)
+                    save_cache(str(cache_file), cache_data)
+                return
 
         # Determine which files have changed if we are updating
         if old_commit_sha:
-- 
2.43.0


From 1bb1d26d418aa35c10365abef4d2337d09eb767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 082/105] fix: remove the model library files that are gone
 upstream

---
 pelicun/tools/dlml.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 7085541..05c05d6 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -603,7 +603,8 @@ def download_data_files(  # noqa: C901
     cache_file = target_data_abs_dir / '.dlml_cache.json'
 
     # Load cache if using caching
-    cache_data = load_cache(str(cache_file)) if use_cache else {}
+    old_cache = load_cache(str(cache_file))
+    cache_data = old_cache if use_cache else {}
 
     headers = {'Accept': 'application/vnd.github.v3+json'}
     # Check for the GITHUB_TOKEN environment variable
@@ -738,6 +739,14 @@ def download_data_files(  # noqa: C901
 
             pbar.update(1)
 
+    # Remove the files of the previous version that are not available anymore,
+    # unless they have been edited locally
+    for file_path, old_hash in old_cache.get('files', {}).items():
+        if file_path not in files_to_download:
+            local_path = target_data_abs_dir / file_path
+            if old_hash and get_file_hash(str(local_path)) == old_hash:
+                local_path.unlink()
+
     # Save the new cache
     if record_files:
         save_cache(str(cache_file), new_cache)
-- 
2.43.0


From 0cddf02dbad2ac234379699b6537974bd466adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 083/105] fix: do not take an unfinished model library download
 for a complete one

---
 pelicun/tools/dlml.py | 54 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 05c05d6..79e4968 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -651,25 +651,31 @@ def download_data_files(  # noqa: C901
     # Get the model file list
     model_file_list_url = f'{get_raw_repo_url()}/{commit_sha}/model_files.txt'
 
+    # The list gets its final name after all files have been downloaded, because
+    # it is the sign of a valid installation.
     model_file_local_path = target_data_abs_dir / 'model_files.txt'
-    _download_file(model_file_list_url, str(model_file_local_path))
+    new_list_path = target_data_abs_dir / '.model_files.new.txt'
+    _download_file(model_file_list_url, str(new_list_path))
 
     logger.info('Successfully downloaded model file list.')
 
     # Read the model list and download model files
     try:
-        with model_file_local_path.open('r') as f:
-            files_to_download = [
-                line.strip()
-                for line in f
-                if line.strip() and not line.startswith('#')
-            ]
+        with new_list_path.open('r', newline='') as f:
+            model_file_list = f.read()
+        files_to_download = [
+            line.strip()
+            for line in model_file_list.split('\n')
+            if line.strip() and not line.startswith('#')
+        ]
     except FileNotFoundError as e:
         msg = f'Model file list not found at {model_file_local_path}'
         raise RuntimeError(msg) from e
     except Exception as e:
         msg = f'Error reading model file list: {e}'
         raise RuntimeError(msg) from e
+    finally:
+        new_list_path.unlink(missing_ok=True)
 
     if changed_files is not None:
         relevant_changed_files = {
@@ -681,7 +687,9 @@ def download_data_files(  # noqa: C901
 
     # Initialize cache for this commit if using caching. A cache that describes
     # the previous files has to be replaced without caching, too.
-    record_files = use_cache or cache_file.exists()
+    record_files = (
+        use_cache or cache_file.exists() or model_file_local_path.exists()
+    )
     if record_files:
         # Keep track of files that should exist
         new_cache = {
@@ -694,6 +702,16 @@ def download_data_files(  # noqa: C901
         new_cache['version'] = cache_meta['version']
         new_cache['download_type'] = cache_meta['download_type']
 
+    # Until everything is downloaded, the folder holds a mix of two versions:
+    # do not record either of them. The files without a hash might be there.
+    if record_files:
+        incomplete_files = dict.fromkeys(files_to_download)
+        incomplete_files.update(old_cache.get('files', {}))
+        save_cache(
+            str(cache_file),
+            {'download_incomplete': True, 'files': incomplete_files},
+        )
+
     # Count total files for progress reporting
     total_files = len(files_to_download)
     logger.info(f'Checking {total_files} files for updates.')
@@ -744,9 +762,15 @@ def download_data_files(  # noqa: C901
     for file_path, old_hash in old_cache.get('files', {}).items():
         if file_path not in files_to_download:
             local_path = target_data_abs_dir / file_path
-            if old_hash and get_file_hash(str(local_path)) == old_hash:
+            local_hash = get_file_hash(str(local_path))
+            unfinished = old_hash is None and local_hash is not None
+            if unfinished or (old_hash and local_hash == old_hash):
                 local_path.unlink()
 
+    # The library is complete
+    with model_file_local_path.open('w', newline='') as f:
+        f.write(model_file_list)
+
     # Save the new cache
     if record_files:
         save_cache(str(cache_file), new_cache)
@@ -833,6 +857,18 @@ def check_dlml_data() -> None:
             )
             raise RuntimeError(final_msg) from e
     else:
+        # Warn if the last update was not finished
+        if load_cache(target_data_abs_dir / '.dlml_cache.json').get(
+            'download_incomplete'
+        ):
+            warnings.warn(
+                f'The last update of the DLML data was not completed. The data '
+                f'can be a mix of two versions. Run the update again '
+                f'with: {update_command}',
+                PelicunWarning,
+                stacklevel=2,
+            )
+
         # Data exists, perform version check
         try:
             version_info = check_dlml_version()
-- 
2.43.0


From 39694453595ab21e6abfc916371870f840dca19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 084/105] fix: keep model library downloads inside the data
 folder

---
 pelicun/tools/dlml.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 79e4968..e9cdb4f 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -683,6 +683,13 @@ def download_data_files(  # noqa: C901
         }
         logger.info(f'Found {len(relevant_changed_files)} relevant file changes.')
 
+    # Do not let the list write outside of the data folder
+    data_root = target_data_abs_dir.resolve()
+    for file_path in files_to_download:
+        if not (data_root / file_path).resolve().is_relative_to(data_root):
+            msg = f'Invalid path in the model file list: {file_path}'
+            raise RuntimeError(msg)
+
     file_download_base_url = f'{get_raw_repo_url()}/{commit_sha}'
 
     # Initialize cache for this commit if using caching. A cache that describes
-- 
2.43.0


From 6d5659ba67bc37711c9a889e158e68c1613d07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 085/105] fix: do not rely on an unexpected commit comparison

---
 pelicun/tools/dlml.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index e9cdb4f..aa7b043 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -193,13 +193,6 @@ def _get_changed_files(
 
         compare_data = response.json()
 
-        # The list of files is only complete when one of the commits is an
-        # ancestor of the other one.
-        if compare_data.get('status') == 'diverged':
-            logger.warning('The commits belong to diverged histories.')
-            logger.warning('Will proceed by re-downloading all necessary files.')
-            return None
-
         # Check the status. 'behind' means we are downgrading.
         if compare_data.get('status') == 'behind':
             # If we're downgrading, the diff is empty in this direction.
@@ -213,10 +206,15 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        files = compare_data.get('files', [])
+        files = compare_data.get('files')
 
-        # GitHub does not list more than 300 files.
-        if len(files) >= 300:  # noqa: PLR2004
+        # The list of files is only complete when one of the commits is an
+        # ancestor of the other one. GitHub does not list more than 300 files.
+        if (
+            compare_data.get('status') not in {'ahead', 'identical'}
+            or files is None
+            or len(files) >= 300  # noqa: PLR2004
+        ):
             logger.warning('The list of changed files might be incomplete.')
             logger.warning('Will proceed by re-downloading all necessary files.')
             return None
-- 
2.43.0


From 7fae5666c909251b73568b06d1e9a37acc28e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 086/105] fix: infer residual drifts from drifts in base units

---
 pelicun/assessment.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 0d1876a..9fb0c8f 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -736,9 +736,11 @@ class DLCalculationAssessment(AssessmentBase):
 
             if rid_inference_method == 'FEMA P-58':
                 rid_list: list[pd.DataFrame] = []
-                pid = demand_sample['PID'].copy()
-                pid = pid.drop('Units')
-                pid = pid.astype(float)
+                # the drifts are evaluated in base units, regardless of the
+                # units of the input
+                assert self.demand.sample is not None
+                pid = self.demand.sample.sort_index(axis=1)['PID'].copy()
+                pid.index = demand_sample.index.drop('Units')
 
                 for direction, delta_yield in residual_drift_inference.items():
                     pids = pid.loc[:, idx[:, direction]]  # type: ignore
-- 
2.43.0


From 9cea557f4c8feefae08fd68e10022829d112be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 087/105] fix: use the location and direction of the collapse
 fragility configuration

---
 pelicun/assessment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 9fb0c8f..957c7c8 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -461,6 +461,8 @@ class Assessment(AssessmentBase):
                 collapse_fragility_configuration['label'],
                 collapse_fragility_configuration['value'],
                 collapse_fragility_configuration['unit'],
+                collapse_fragility_configuration.get('location', '0'),
+                collapse_fragility_configuration.get('direction', '1'),
             )
 
         self.stories = num_stories
-- 
2.43.0


From 520399ffac1c36b49bd520d9519f14891aa61529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 088/105] fix: make the residual drift method of
 calculate_damage optional as documented

---
 pelicun/assessment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 957c7c8..d036808 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -420,7 +420,7 @@ class Assessment(AssessmentBase):
             subtraction, '*' for multiplication, and '/' for division.
         residual_drift_configuration: dict
             Dictionary containing the following keys-values:
-            - params: dict
+            - parameters: dict
             A dictionary containing parameters required for the
             estimation method, such as 'yield_drift', which is the
             drift at which yielding is expected to occur.
@@ -453,7 +453,7 @@ class Assessment(AssessmentBase):
         if residual_drift_configuration:
             self.demand.estimate_RID_and_adjust_sample(
                 residual_drift_configuration['parameters'],
-                residual_drift_configuration['method'],
+                residual_drift_configuration.get('method', 'FEMA P58'),
             )
 
         if collapse_fragility_configuration:
-- 
2.43.0


From d6c4c49cd187277f8f94ebd641f82e48b3bbfc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:02 +0000
Subject: [PATCH 089/105] fix: legacy names of Hazus water and power models
 refer to existing methods

---
 pelicun/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 13df5e1..17b5cf0 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -86,8 +86,8 @@ legacy_names = {
     'damage_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
     'damage_DB_Hazus_EQ_story': 'Hazus Earthquake - Stories',
     'damage_DB_Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation',
-    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Water',
-    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Power',
+    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Potable Water',
+    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Electric Power',
     'damage_DB_SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind',
     'loss_repair_DB_FEMA_P58_2nd': 'FEMA P-58',
     'loss_repair_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
-- 
2.43.0


From 8c57bacc3f504c6b86ff905c8f0b77ea1184305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 090/105] fix: resolve fragility_DB and bldg_repair_DB legacy
 references

---
 pelicun/file_io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 17b5cf0..a6b1258 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -363,7 +363,14 @@ def substitute_default_path(
                             'documentation for more details.'
                         )
 
-                    method_name = legacy_names[file_name.split('.')[0]]
+                    # `fragility_DB` and `bldg_repair_DB` are the earlier
+                    # versions of `damage_DB` and `loss_repair_DB`
+                    legacy_name = (
+                        file_name.split('.')[0]
+                        .replace('fragility_DB', 'damage_DB', 1)
+                        .replace('bldg_repair_DB', 'loss_repair_DB', 1)
+                    )
+                    method_name = legacy_names[legacy_name]
                     if file_name.startswith(('fragility', 'damage')):
                         data_type = 'fragility'
                     else:
-- 
2.43.0


From 10c3e4911d28fbd70b5f13e315f93bf510e12159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 091/105] fix: do not rename user files that contain
 bldg_repair_DB in their path

---
 pelicun/model/loss_model.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index bfa9868..ee61631 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -439,13 +439,6 @@ class LossModel(PelicunModel):
         self._ensure_loss_parameter_availability()
 
     def _load_from_data_path(self, data_path: str | pd.DataFrame) -> None:
-        if 'bldg_repair_DB' in data_path:
-            data_path = data_path.replace('bldg_repair_DB', 'loss_repair_DB')
-            self.log.warning(
-                '`bldg_repair_DB` is deprecated and will '
-                'be dropped in future versions of pelicun. '
-                'Please use `loss_repair_DB` instead.'
-            )
         data = file_io.load_data(
             data_path, None, orientation=1, reindex=False, log=self._asmnt.log
         )
-- 
2.43.0


From f40aa904a5eea1bd9d0b3ef72f4ac5dc0995e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 092/105] fix: convert the units of loss model parameters only
 once

---
 pelicun/model/loss_model.py | 71 +++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ee61631..76da87f 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -368,6 +368,9 @@ class LossModel(PelicunModel):
         # replace `PelicunDefault/` flag with default data path
         data_paths = file_io.substitute_default_path(data_paths, log=self.log)
 
+        # the units of parameters loaded earlier are already converted
+        converted = [loss_model.get_available() for loss_model in self._loss_models]
+
         #
         # load loss parameter data into the models
         #
@@ -424,8 +427,8 @@ class LossModel(PelicunModel):
         self.log.msg(
             'Converting loss model parameter units.', prepend_timestamp=False
         )
-        for loss_model in self._loss_models:
-            loss_model.convert_loss_parameter_units()
+        for loss_model, already_converted in zip(self._loss_models, converted):
+            loss_model.convert_loss_parameter_units(already_converted)
 
         #
         # verify loss parameter availability
@@ -1760,9 +1763,21 @@ class RepairModel_Base(PelicunModel):
         return set()
 
     @abstractmethod
-    def convert_loss_parameter_units(self) -> None:
+    def convert_loss_parameter_units(
+        self, already_converted: set | None = None
+    ) -> None:
         """Convert previously loaded loss parameters to base units."""
 
+    def _get_unconverted_params(
+        self, already_converted: set | None
+    ) -> np.ndarray:
+        """Get a mask of the loss parameters that are in user units."""
+        assert self.loss_params is not None
+        return np.array(
+            [key not in (already_converted or ()) for key in self.loss_params.index],
+            dtype=bool,
+        )
+
 
 class RepairModel_DS(RepairModel_Base):
     """Repair consequences for components with damage states."""
@@ -2165,18 +2180,31 @@ class RepairModel_DS(RepairModel_Base):
         self.log.msg('Successfully obtained DV sample.', prepend_timestamp=False)
         self.sample = dv_sample
 
-    def convert_loss_parameter_units(self) -> None:
-        """Convert previously loaded loss parameters to base units."""
+    def convert_loss_parameter_units(
+        self, already_converted: set | None = None
+    ) -> None:
+        """
+        Convert previously loaded loss parameters to base units.
+
+        Parameters
+        ----------
+        already_converted: set, optional
+            Index values of the parameters that are in base units.
+
+        """
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
-        arg_units = self.loss_params['Quantity', 'Unit']
+        mask = self._get_unconverted_params(already_converted)
+        if not mask.any():
+            return
+        units = self.loss_params.loc[mask, ('DV', 'Unit')]
+        arg_units = self.loss_params.loc[mask, ('Quantity', 'Unit')]
         for column in self.loss_params.columns.unique(level=0):
             if not column.startswith('DS'):
                 continue
-            params = self.loss_params.loc[:, column].copy()
+            params = self.loss_params.loc[mask, column].copy()
             assert isinstance(params, pd.DataFrame)
-            self.loss_params.loc[:, column] = self._convert_marginal_params(
+            self.loss_params.loc[mask, column] = self._convert_marginal_params(
                 params, units, arg_units
             ).to_numpy()
 
@@ -2728,16 +2756,29 @@ class RepairModel_LF(RepairModel_Base):
 
         return
 
-    def convert_loss_parameter_units(self) -> None:
-        """Convert previously loaded loss parameters to base units."""
+    def convert_loss_parameter_units(
+        self, already_converted: set | None = None
+    ) -> None:
+        """
+        Convert previously loaded loss parameters to base units.
+
+        Parameters
+        ----------
+        already_converted: set, optional
+            Index values of the parameters that are in base units.
+
+        """
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
-        arg_units = self.loss_params['Demand', 'Unit']
+        mask = self._get_unconverted_params(already_converted)
+        if not mask.any():
+            return
+        units = self.loss_params.loc[mask, ('DV', 'Unit')]
+        arg_units = self.loss_params.loc[mask, ('Demand', 'Unit')]
         column = 'LossFunction'
-        params = self.loss_params[column].copy()
+        params = self.loss_params.loc[mask, column].copy()
         assert isinstance(params, pd.DataFrame)
-        self.loss_params.loc[:, column] = self._convert_marginal_params(
+        self.loss_params.loc[mask, column] = self._convert_marginal_params(
             params,
             units,
             arg_units,
-- 
2.43.0


From 5d97d315cf62a8e1051b876324ac3fa26f9cf391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 093/105] fix: discard earlier loss function losses when no
 component has any

---
 pelicun/model/loss_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 76da87f..2785e70 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2647,6 +2647,7 @@ class RepairModel_LF(RepairModel_Base):
                 'No loss function-driven components---LF sample is set to None.',
                 prepend_timestamp=False,
             )
+            self.sample = None
             return
 
         performance_group = pd.DataFrame(  # type: ignore
-- 
2.43.0


From e5bc37ed58096021598b16f4e4dae84fe0b59704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:53 +0000
Subject: [PATCH 094/105] fix: fill loss maps in the order of the components

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 2785e70..333e843 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -261,7 +261,7 @@ class LossModel(PelicunModel):
             raise ValueError(msg)
 
         # get a list of unique component IDs
-        cmp_set = set(self._asmnt.asset.list_unique_component_ids())
+        cmp_list = self._asmnt.asset.list_unique_component_ids()
 
         if loss_map_path is not None:
             self.log.msg('Loss map is provided.', prepend_timestamp=False)
@@ -292,7 +292,7 @@ class LossModel(PelicunModel):
 
         if loss_map_policy in {'fill', 'fill_all'}:
             # Populate missing rows with cmp_id -> cmp_id
-            for component in cmp_set:
+            for component in cmp_list:
                 if component not in loss_map.index:
                     if loss_map_policy == 'fill' and component == 'excessiveRID':
                         continue
-- 
2.43.0


From c1452520b5fac3c205399450ccd34967496e85c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:23 +0000
Subject: [PATCH 095/105] fix: keep the damage parameters when loading others
 fails

---
 pelicun/model/damage_model.py | 43 +++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index b0a27b1..9871838 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -178,6 +178,34 @@ class DamageModel(PelicunModel):
         # replace default flag with default data path
         data_paths = file_io.substitute_default_path(data_paths, log=self.log)
 
+        # parameters that cannot be used should not stay behind: they
+        # would take precedence over the ones loaded afterwards
+        previous_params = [model.damage_params for model in self._damage_models]
+        try:
+            self._load_and_convert_parameters(data_paths, cmp_set)
+        except Exception:
+            for damage_model, params in zip(self._damage_models, previous_params):
+                damage_model.damage_params = params
+            raise
+
+        #
+        # verify damage parameter availability
+        #
+
+        self.log.msg(
+            'Checking damage model parameter '
+            'availability for all components in the asset model.',
+            prepend_timestamp=False,
+        )
+        missing_components = self._ensure_damage_parameter_availability(
+            cmp_set, warn_missing=warn_missing
+        )
+
+        self.missing_components = missing_components
+
+    def _load_and_convert_parameters(
+        self, data_paths: list[str | pd.DataFrame], cmp_set: set[str]
+    ) -> None:
         #
         # load damage parameter data into the models
         #
@@ -223,21 +251,6 @@ class DamageModel(PelicunModel):
         for damage_model in self._damage_models:
             damage_model.convert_damage_parameter_units()
 
-        #
-        # verify damage parameter availability
-        #
-
-        self.log.msg(
-            'Checking damage model parameter '
-            'availability for all components in the asset model.',
-            prepend_timestamp=False,
-        )
-        missing_components = self._ensure_damage_parameter_availability(
-            cmp_set, warn_missing=warn_missing
-        )
-
-        self.missing_components = missing_components
-
     def calculate(
         self,
         dmg_process: dict | None = None,
-- 
2.43.0


From 1f65be5d7545d4f74553950f451f002de4ff3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 096/105] fix: keep the loss parameters when loading others
 fails

---
 pelicun/model/loss_model.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 333e843..b5340a8 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -368,6 +368,32 @@ class LossModel(PelicunModel):
         # replace `PelicunDefault/` flag with default data path
         data_paths = file_io.substitute_default_path(data_paths, log=self.log)
 
+        # parameters that cannot be used should not stay behind: they
+        # would take precedence over the ones loaded afterwards
+        previous_params = [model.loss_params for model in self._loss_models]
+        previous_dv_units = self.dv_units
+        try:
+            self._load_and_convert_parameters(data_paths)
+        except Exception:
+            for loss_model, params in zip(self._loss_models, previous_params):
+                loss_model.loss_params = params
+            self.dv_units = previous_dv_units
+            raise
+
+        #
+        # verify loss parameter availability
+        #
+
+        self.log.msg(
+            'Checking loss model parameter '
+            'availability for all components in the asset model.',
+            prepend_timestamp=False,
+        )
+        self._ensure_loss_parameter_availability()
+
+    def _load_and_convert_parameters(
+        self, data_paths: list[str | pd.DataFrame]
+    ) -> None:
         # the units of parameters loaded earlier are already converted
         converted = [loss_model.get_available() for loss_model in self._loss_models]
 
@@ -430,17 +456,6 @@ class LossModel(PelicunModel):
         for loss_model, already_converted in zip(self._loss_models, converted):
             loss_model.convert_loss_parameter_units(already_converted)
 
-        #
-        # verify loss parameter availability
-        #
-
-        self.log.msg(
-            'Checking loss model parameter '
-            'availability for all components in the asset model.',
-            prepend_timestamp=False,
-        )
-        self._ensure_loss_parameter_availability()
-
     def _load_from_data_path(self, data_path: str | pd.DataFrame) -> None:
         data = file_io.load_data(
             data_path, None, orientation=1, reindex=False, log=self._asmnt.log
-- 
2.43.0


From da30e23f20ff49911e2b21ec550c82ba54b23ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:51 +0000
Subject: [PATCH 097/105] fix: keep the component units when loading a
 component model fails

---
 pelicun/model/asset_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 969258e..f40a22c 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -330,9 +330,6 @@ class AssetModel(PelicunModel):
         assert isinstance(marginal_params, pd.DataFrame)
         assert isinstance(units, pd.Series)
 
-        # group units by cmp id to avoid redundant entries
-        self.cmp_units = units.copy().groupby(level=0).first()
-
         marginal_params = pd.concat(
             [marginal_params, units.rename('Units')], axis=1
         )
@@ -421,6 +418,9 @@ class AssetModel(PelicunModel):
             cmp_marginal_params, cmp_marginal_params['Units']
         )
 
+        # group units by cmp id to avoid redundant entries
+        self.cmp_units = units.copy().groupby(level=0).first()
+
         self.cmp_marginal_params = cmp_marginal_params.drop('Units', axis=1)
 
         self.log.msg(
-- 
2.43.0


From 5b1bd4d2e19a74c1ff989887fa8426267f1a8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 098/105] fix: recognize the legacy DMG flag in loss maps only
 as a label of its own

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index b5340a8..f4351ce 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -275,7 +275,7 @@ class LossModel(PelicunModel):
             )
             assert isinstance(loss_map, pd.DataFrame)
             # <backwards compatibility>
-            if np.any(['DMG' in x for x in loss_map.index]):  # type: ignore
+            if loss_map.index.nlevels > 1 and 'DMG' in loss_map.index.unique(level=0):
                 self.log.warning(
                     'The `DMG-` flag in the loss_map index is deprecated '
                     'and no longer necessary. '
-- 
2.43.0


From 6d8aaf9be19ece3f0d8abae0326cd4c57ad1b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:17 +0000
Subject: [PATCH 099/105] fix: load loss samples that have no uid level

---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index f4351ce..54a2d0e 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1909,7 +1909,8 @@ class RepairModel_DS(RepairModel_Base):
         )
         assert isinstance(sample, pd.DataFrame)
         assert isinstance(units, pd.Series)
-        units.index.names = names
+        # the `uid` level is optional
+        units.index.names = names[: units.index.nlevels]
         # Obtain the DV units
         # Note: we don't need to check for consistency (all rows
         # having the same unit) since the units are extracted from a
-- 
2.43.0


From 2ec9d9ef71c61693c2967262d0557d4b6456b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 100/105] fix: accept BldgRepair loss maps without loss
 parameters

---
 pelicun/model/loss_model.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 54a2d0e..7452ddc 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -283,6 +283,14 @@ class LossModel(PelicunModel):
                     'names in the loss map.'
                 )
                 loss_map.index = pd.Index([x[1] for x in loss_map.index])
+            if 'BldgRepair' in loss_map.columns:
+                loss_map['Repair'] = loss_map['BldgRepair']
+                loss_map = loss_map.drop('BldgRepair', axis=1)
+                self.log.warning(
+                    '`BldgRepair` as a loss map column name is '
+                    'deprecated and will be dropped in '
+                    'future versions of pelicun. Please use `Repair` instead.'
+                )
 
         else:
             self.log.msg('Using default loss map.', prepend_timestamp=False)
@@ -1716,16 +1724,6 @@ class RepairModel_Base(PelicunModel):
         if self.loss_params is None:
             return
 
-        # <backwards compatibility>
-        if 'BldgRepair' in loss_map.columns:
-            loss_map['Repair'] = loss_map['BldgRepair']
-            loss_map = loss_map.drop('BldgRepair', axis=1)
-            self.log.warning(
-                '`BldgRepair` as a loss map column name is '
-                'deprecated and will be dropped in '
-                'future versions of pelicun. Please use `Repair` instead.'
-            )
-
         # get a list of unique component IDs
         cmp_set = set(loss_map['Repair'].unique())
 
-- 
2.43.0


From ff62e280a47d21684fc3096bffff9d119aa382af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 101/105] fix: keep the units of the demand model apart from
 those of the sample

---
 pelicun/model/demand_model.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 58055b1..734bf0c 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -99,6 +99,7 @@ class DemandModel(PelicunModel):
         'correlation',
         'empirical_data',
         'marginal_params',
+        'marginal_units',
         'sample',
         'user_units',
     ]
@@ -116,6 +117,7 @@ class DemandModel(PelicunModel):
         super().__init__(assessment)
 
         self.marginal_params: pd.DataFrame | None = None
+        self.marginal_units: pd.Series | None = None
         self.correlation: pd.DataFrame | None = None
         self.empirical_data: pd.DataFrame | None = None
         self.user_units: pd.Series | None = None
@@ -797,6 +799,10 @@ class DemandModel(PelicunModel):
 
         self.marginal_params = model_params
 
+        # the units of the sample change when columns are cloned or added
+        if self.user_units is not None:
+            self.marginal_units = self.user_units.reindex(model_params.index)
+
         self.log.msg(
             '\nCalibrated demand model marginal distributions:\n'
             + str(model_params),
@@ -821,6 +827,11 @@ class DemandModel(PelicunModel):
         self.log.div()
         self.log.msg('Saving demand model...')
 
+        # the demands of the sample can differ from those of the model
+        units = (
+            self.user_units if self.marginal_units is None else self.marginal_units
+        )
+
         # save the correlation and empirical data, and remove leftovers
         # of a model saved earlier under the same prefix
         correlation_path = Path(file_prefix + '_correlation.csv')
@@ -836,7 +847,7 @@ class DemandModel(PelicunModel):
             file_io.save_to_csv(
                 self.empirical_data,
                 empirical_path,
-                units=self.user_units,
+                units=units,
                 unit_conversion_factors=self._asmnt.unit_conversion_factors,
                 log=self._asmnt.log,
             )
@@ -845,11 +856,11 @@ class DemandModel(PelicunModel):
         # treatment, so we can't rely on file_io's universal unit
         # conversion functionality. We do it manually here instead.
         assert isinstance(self.marginal_params, pd.DataFrame)
-        assert isinstance(self.user_units, pd.Series)
+        assert isinstance(units, pd.Series)
         marginal_params_user_units = self._convert_marginal_params(
-            self.marginal_params.copy(), self.user_units, inverse_conversion=True
+            self.marginal_params.copy(), units, inverse_conversion=True
         )
-        marginal_params_user_units['Units'] = self.user_units
+        marginal_params_user_units['Units'] = units
 
         file_io.save_to_csv(
             marginal_params_user_units,
@@ -955,6 +966,7 @@ class DemandModel(PelicunModel):
         )
 
         self.marginal_params = marginal_params
+        self.marginal_units = units
         self.user_units = units
 
         self.log.msg('Demand model successfully loaded.', prepend_timestamp=False)
@@ -1227,6 +1239,8 @@ class DemandModel(PelicunModel):
 
         sample.columns.names = ['type', 'loc', 'dir']
         self.sample = sample
+        if self.marginal_units is not None:
+            self.user_units = self.marginal_units
 
         if config.get('DemandCloning', False):
             self.clone_demands(config['DemandCloning'])
-- 
2.43.0


From 1aec1aa2c82a3bf2f32b545926033c149859bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 102/105] fix: drop the empirical data of an earlier demand
 model

---
 pelicun/model/demand_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 734bf0c..e692cd0 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -733,6 +733,8 @@ class DemandModel(PelicunModel):
         assert isinstance(demand_sample, pd.DataFrame)
         if empirical_edps:
             self.empirical_data = demand_sample.loc[:, empirical_edps].copy()
+        else:
+            self.empirical_data = None
 
         # remove the empirical demands from the samples used for calibration
         demand_sample = demand_sample.drop(empirical_edps, axis=1)
@@ -924,6 +926,8 @@ class DemandModel(PelicunModel):
                 assert isinstance(empirical_data, pd.DataFrame)
                 self.empirical_data = empirical_data
                 self.empirical_data.columns.names = ['type', 'loc', 'dir']
+            else:
+                self.empirical_data = None
         else:
             self.empirical_data = None
 
-- 
2.43.0


From abd46cbe44051084b96a001f21cc31a3a05069d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 103/105] fix: name the levels of the units of a loaded demand
 model

---
 pelicun/model/demand_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index e692cd0..97a2cc1 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -965,6 +965,7 @@ class DemandModel(PelicunModel):
             ['type', 'loc', 'dir']
         )
 
+        units.index = units.index.set_names(['type', 'loc', 'dir'])
         marginal_params = self._convert_marginal_params(
             marginal_params.copy(), units
         )
-- 
2.43.0


From e165b2f809b52dac563718f88bab630cd93fb07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 104/105] fix: load consequence libraries given by their
 earlier file names

---
 pelicun/assessment.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index d036808..c137469 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1547,7 +1547,13 @@ class DLCalculationAssessment(AssessmentBase):
                     conseq_df = pd.concat(
                         [
                             conseq_df,
-                            self.get_default_data(method_name, 'consequence_repair'),
+                            file_io.load_data(
+                                consequence_db_path,
+                                unit_conversion_factors=None,
+                                orientation=1,
+                                reindex=False,
+                                log=self.log,
+                            ),
                         ]
                     )
                     assert isinstance(conseq_df, pd.DataFrame)
-- 
2.43.0


From 7f48b4a82fdeb6bc625486658a81910a1a8c09d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:32 +0000
Subject: [PATCH 105/105] fix: keep the digits of consequence functions when
 they are restated

---
 pelicun/model/pelicun_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 3e5e08b..2c76b46 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -242,7 +242,7 @@ class PelicunModel:
                     if len(arg) > 0:
                         theta[a_i] = '|'.join(
                             [
-                                ','.join([f'{val:g}' for val in vals])
+                                ','.join([f'{val:.15g}' for val in vals])
                                 for vals in (theta[a_i], arg)
                             ]
                         )
-- 
2.43.0

