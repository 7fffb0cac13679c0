From 64c38c208233330b3cdfd979a65af59cd70ab698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 01/39] fix: copies of a triangle no longer share their virtual
 columns

The registry of virtual columns was handed by reference to every copy, so
adding or replacing a virtual column on one triangle changed the others.
---
 chainladder/core/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 9eb22bd..0801ea3 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -329,7 +329,7 @@ class Iat(Ilocation):
 class VirtualColumns:
     def __init__(self, triangle, columns=None):
         self.triangle = triangle
-        self.columns = {} if not columns else columns
+        self.columns = {} if not columns else dict(columns)
 
     def __getitem__(self, value):
         return self.columns[value](self.triangle).rename("columns", [value])
-- 
2.43.0


From 10962ff1b39632608c4def7c88dbad7b025a4ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 02/39] fix: deep backend conversion leaves other triangles'
 attributes alone

set_backend(deep=True) converted ldf_, sigma_ etc. in place although copies
of the triangle hold the same objects, so the original was changed as well.
---
 chainladder/core/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 54296a2..fd4fc4a 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -187,9 +187,11 @@ class Common:
                         self.values
                     )
                 if deep:
-                    for k, v in vars(self).items():
+                    for k, v in list(vars(self).items()):
                         if isinstance(v, Common):
-                            v.set_backend(backend, inplace=True, deep=True)
+                            # Attributes may be shared with copies of self
+                            setattr(self, k, v.set_backend(
+                                backend, inplace=not hasattr(v, "copy"), deep=True))
                 if hasattr(self, "array_backend"):
                     self.array_backend = backend
             else:
-- 
2.43.0


From 29335db923f8968bc475ca2b9437bc0fc5c4419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 03/39] fix: MunichAdjustment.transform no longer sets and
 deletes state on the fitted estimator

---
 chainladder/development/munich.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/chainladder/development/munich.py b/chainladder/development/munich.py
index fa1ad73..e526054 100644
--- a/chainladder/development/munich.py
+++ b/chainladder/development/munich.py
@@ -82,7 +82,6 @@ class MunichAdjustment(DevelopmentBase):
         else:
             obj = X.copy()
         xp = obj.get_array_module()
-        self.xp = xp
         missing = xp.nan_to_num(obj.values) * obj.nan_triangle == 0
         self.rho_ = obj[obj.origin == obj.origin.min()]
         if len(xp.where(missing)[0]) > 0:
@@ -138,10 +137,8 @@ class MunichAdjustment(DevelopmentBase):
         else:
             X_new = X.copy()
         xp = X_new.get_array_module()
-        self.xp = xp
         if "ldf_" not in X_new:
             X_new = Development().fit_transform(X_new)
-        self.xp = X_new.get_array_module()
         X_new.p_to_i_X_ = self._get_p_to_i_object(X_new)
         X_new.p_to_i_ldf_ = self._get_p_to_i_object(X_new.ldf_)
         X_new.p_to_i_sigma_ = self._get_p_to_i_object(X_new.sigma_)
@@ -157,7 +154,6 @@ class MunichAdjustment(DevelopmentBase):
         X_new.ldf_ = self._set_ldf(
             X_new, self._get_mcl_cdf(X_new, X_new.munich_full_triangle_)
         )
-        del self.xp
         triangles = ["rho_", "lambda_", "lambda_coef_"]
         for item in triangles:
             setattr(X_new, item, getattr(self, item))
@@ -270,7 +266,7 @@ class MunichAdjustment(DevelopmentBase):
     def _get_munich_full_triangle_(
         self, p_to_i_X_, p_to_i_ldf_, p_to_i_sigma_, lambda_coef_, rho_sigma_, q_f_
     ):
-        xp = self.xp if hasattr(self, "xp") else self.ldf_.get_array_module()
+        xp = self.rho_.get_array_module(p_to_i_X_)
         full_paid = xp.nan_to_num(p_to_i_X_[0][..., 0:1])
         full_incurred = p_to_i_X_[1][..., 0:1]
         for i in range(p_to_i_X_[0].shape[-1] - 1):
@@ -353,7 +349,7 @@ class MunichAdjustment(DevelopmentBase):
         return obj
 
     def _reshape(self, measure):
-        xp = self.xp if hasattr(self, "xp") else self.ldf_.get_array_module()
+        xp = self.rho_.get_array_module(getattr(self, measure))
         map = self._map
         return xp.concatenate(
             [
-- 
2.43.0


From d52b68999c3af2cbc750ec76f741fcd5b29af621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 04/39] fix: BootstrapODPSample.transform returns a copy of its
 resampled triangles

---
 chainladder/adjustments/bootstrap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index 1ad6b09..11c3761 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -245,8 +245,7 @@ class BootstrapODPSample(DevelopmentBase):
         -------
             X_new: New triangle with transformed attributes.
         """
-        X_new = X.copy()
-        X_new = self.resampled_triangles_
+        X_new = self.resampled_triangles_.copy()
         X_new.scale_ = self.scale_
         X_new.random_state = self.random_state
         X_new._get_process_variance = types.MethodType(_get_process_variance, X_new)
-- 
2.43.0


From ce855865e85a3269a21fe1f8e6c30d083165c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 05/39] fix: bootstrap hat matrix no longer reads uninitialised
 memory

---
 chainladder/adjustments/bootstrap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index 11c3761..e1c0079 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -213,7 +213,13 @@ class BootstrapODPSample(DevelopmentBase):
             ),
             weight_matrix,
         )
-        hat = xp.diagonal(xp.sqrt(xp.divide(1, abs(1 - hat), where=(1 - hat) != 0)))
+        hat = xp.diagonal(
+            xp.sqrt(
+                xp.divide(
+                    1, abs(1 - hat), out=xp.zeros_like(hat), where=(1 - hat) != 0
+                )
+            )
+        )
         total_length = X.nan_triangle.shape[0]
         reshaped_hat = xp.reshape(hat[:total_length], (1, total_length))
         indices = xp.nansum(X.nan_triangle, axis=0).cumsum().astype(int)
-- 
2.43.0


From 76ffda37ee595e1bf027093466d9b731546211ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 06/39] fix: CaseOutstanding.transform leaves the fitted case
 and paid triangles alone

---
 chainladder/development/outstanding.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/chainladder/development/outstanding.py b/chainladder/development/outstanding.py
index ffaa552..b5ce212 100644
--- a/chainladder/development/outstanding.py
+++ b/chainladder/development/outstanding.py
@@ -96,7 +96,8 @@ class CaseOutstanding(DevelopmentBase):
         self.paid_ldf_ = self.paid_to_prior_case_.mean(2)  # this has the wrong value
         self.paid_ldf_.values = paid_to_prior_case_naned.mean(axis=2).values
 
-        self.ldf_ = self._set_ldf(self.X_).set_backend(backend)
+        ldf_, self.case, self.paid = self._set_ldf(self.X_)
+        self.ldf_ = ldf_.set_backend(backend)
 
         return self
 
@@ -174,9 +175,7 @@ class CaseOutstanding(DevelopmentBase):
         dev.is_pattern = True
         dev.is_cumulative = True
 
-        self.case = case_tri
-        self.paid = paid
-        return dev.cum_to_incr()
+        return dev.cum_to_incr(), case_tri, paid
 
     @property
     def case_to_prior_case_(self):
@@ -229,7 +228,7 @@ class CaseOutstanding(DevelopmentBase):
             X_new : New triangle with transformed attributes.
         """
         X_new = X.copy()
-        X_new.ldf_ = self._set_ldf(X_new).set_backend(self.ldf_.array_backend)
+        X_new.ldf_ = self._set_ldf(X_new)[0].set_backend(self.ldf_.array_backend)
         X_new._set_slicers()
         X_new.paid_ldf_ = self.paid_ldf_
         X_new.case_ldf_ = self.case_ldf_
-- 
2.43.0


From 4532197ca6feac256402805ef7105ea9c3423a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 07/39] fix: fitting a tail no longer blanks zeros in the
 std_err_ of the triangle it is given

---
 chainladder/tails/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index 6243aeb..52d1087 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -118,7 +118,7 @@ class TailBase(DevelopmentBase):
             xp = X.sigma_.get_array_module()
             reg = WeightedRegression(axis=3, xp=xp).fit(None, xp.log(X.sigma_.values), None)
             sigma_ = xp.exp(time_pd * reg.slope_ + reg.intercept_)
-            y = X.std_err_.values
+            y = X.std_err_.values.copy()
             y = num_to_nan(y)
             reg = WeightedRegression(axis=3, xp=xp).fit(None, xp.log(y), None)
             std_err_ = xp.exp(time_pd * reg.slope_ + reg.intercept_)
-- 
2.43.0


From bdfbb2d7355356c0855204e4e1337eb4a3c7fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 08/39] fix: incr_to_cum(inplace=True) stores its result and
 its flag together

A failure after the accumulated values were stored but before is_cumulative
was set left a triangle that a second call accumulated again.
---
 chainladder/core/triangle.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 55303c3..d4bfbd6 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -452,10 +452,9 @@ class Triangle(TriangleBase):
                         values = num_to_value(values, 1)
                         values = xp.cumprod(values, -1)[..., ::-1]
                         self.values = values * self.nan_triangle
-                        values = num_to_value(values, self.get_array_module(values).nan)
                 else:
                     if self.array_backend not in ["sparse", "dask"]:
-                        self.values = (
+                        values = (
                             xp.cumsum(xp.nan_to_num(self.values), 3)
                             * self.nan_triangle[None, None, ...]
                         )
@@ -471,8 +470,8 @@ class Triangle(TriangleBase):
                             out = bag.compute(scheduler="threads")
                         else:
                             out = [l3(i) for i in range(self.shape[-1])]
-                        self.values = xp.concatenate(out, axis=3)
-                    self.values = num_to_nan(self.values)
+                        values = xp.concatenate(out, axis=3)
+                    self.values = num_to_nan(values)
                 self.is_cumulative = True
             return self
         else:
-- 
2.43.0


From 679b4e1d805912e5c6e3c7d0df7d9c777a41d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 09/39] fix: set_backend(inplace=True) changes values and
 array_backend together

With deep=True a failure while converting an attribute left sparse values
labelled numpy (or the other way round), which every later use misread.
---
 chainladder/core/common.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index fd4fc4a..fea5ad0 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -182,18 +182,21 @@ class Common:
                         "sparse": lambda x: dp.from_array(x, **kwargs),
                     },
                 }
+                converted = {}
                 if hasattr(self, "values"):
-                    self.values = lookup[backend].get(old_backend, lambda x: x)(
-                        self.values
-                    )
+                    converted["values"] = lookup[backend].get(
+                        old_backend, lambda x: x)(self.values)
                 if deep:
                     for k, v in list(vars(self).items()):
                         if isinstance(v, Common):
                             # Attributes may be shared with copies of self
-                            setattr(self, k, v.set_backend(
-                                backend, inplace=not hasattr(v, "copy"), deep=True))
+                            converted[k] = v.set_backend(
+                                backend, inplace=not hasattr(v, "copy"), deep=True)
                 if hasattr(self, "array_backend"):
-                    self.array_backend = backend
+                    converted["array_backend"] = backend
+                # values and array_backend change together or not at all
+                for k, v in converted.items():
+                    setattr(self, k, v)
             else:
                 raise AttributeError(backend, "backend is not supported.")
             return self
-- 
2.43.0


From 9f9335007e6e96f2ed35db38524a6bd4492d1e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 10/39] fix: interrupts and failed allocations are no longer
 taken for unreadable input

The bare except clauses around date inference, index alignment and display
treated KeyboardInterrupt and MemoryError as 'try the next thing', which
built or displayed a different triangle instead of failing.
---
 chainladder/core/base.py    | 4 +++-
 chainladder/core/display.py | 4 ++--
 chainladder/core/dunders.py | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index 122e878..534a5cd 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -250,7 +250,9 @@ class TriangleBase(
                 try:
                     arr = dict(zip(datetime_arg, pd.to_datetime(**item)))
                     break
-                except:
+                except MemoryError:
+                    raise
+                except Exception:
                     pass
 
             target = target_field.map(arr)
diff --git a/chainladder/core/display.py b/chainladder/core/display.py
index 1725739..5ee2134 100644
--- a/chainladder/core/display.py
+++ b/chainladder/core/display.py
@@ -15,7 +15,7 @@ class TriangleDisplay:
     def __repr__(self):
         try:
             self.values
-        except:
+        except AttributeError:
             return "Empty Triangle."
 
         if (self.values.shape[0], self.values.shape[1]) == (1, 1):
@@ -42,7 +42,7 @@ class TriangleDisplay:
         """Jupyter/Ipython HTML representation"""
         try:
             self.values
-        except:
+        except AttributeError:
             return "Triangle is empty."
 
         if (self.values.shape[0], self.values.shape[1]) == (1, 1):
diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 137f1dd..3e47be8 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -88,7 +88,9 @@ class TriangleDunders:
                 x = x.sort_index()
                 try:
                     y = y.loc[x.index]
-                except:
+                except MemoryError:
+                    raise
+                except Exception:
                     x = x.groupby(list(common))
                     y = y.groupby(list(common))
             return x, y
-- 
2.43.0


From 3c6d0fcf4175246451a63cd1c77e94b627bc779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 11/39] fix: assigning a column on sparse storage leaves the
 assigned triangle alone

__setitem__ renumbered the column coordinates of the value's own array.
---
 chainladder/core/slice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 0801ea3..33b3db5 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -223,8 +223,9 @@ class TriangleSlicer:
                 before = self.drop(key).values
                 bc = before.coords[1, :]
                 before.coords[1] = np.where(bc >= i, bc + 1, bc,)
-                value.values.coords[1] = i
-                coords = np.concatenate((before.coords, value.values.coords), axis=1)
+                vc = value.values.coords.copy()
+                vc[1] = i
+                coords = np.concatenate((before.coords, vc), axis=1)
                 data = np.concatenate((before.data, value.values.data))
                 self.values = xp(
                     coords, data, shape=self.shape, prune=True, fill_value=xp.nan
-- 
2.43.0


From 5f05fdfc7d98ce113bbcb393b7f330107fe40ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 12/39] fix: a column assignment that fails leaves no label
 without values behind

---
 chainladder/core/slice.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 33b3db5..2677b65 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -235,13 +235,18 @@ class TriangleSlicer:
                     value = value.values
                 self.values[:, i : i + 1] = value
         else:
-            self.vdims = self.vdims if key in self.vdims else np.append(self.vdims, key)
+            vdims = self.vdims if key in self.vdims else np.append(self.vdims, key)
             try:
-                self.values = xp.concatenate((self.values, value.values), axis=1)
-            except:
+                values = xp.concatenate((self.values, value.values), axis=1)
+            except MemoryError:
+                raise
+            except Exception:
                 # For misaligned triangle support
                 conc = (self.values, (self.iloc[:, 0] * 0 + value).values)
-                self.values = xp.concatenate(conc, axis=1)
+                values = xp.concatenate(conc, axis=1)
+            # a value that does not fit leaves no label without values behind
+            self.vdims = vdims
+            self.values = values
 
     def _slice_valuation(self, key):
         """ private method for handling of valuation slicing """
-- 
2.43.0


From 883a2cc857c1979a7ab0555457b11178009c8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 13/39] fix: bootstrap fit no longer takes an interrupt or a
 failed allocation for a singular hat matrix

---
 chainladder/adjustments/bootstrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index e1c0079..fe28b30 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -108,7 +108,9 @@ class BootstrapODPSample(DevelopmentBase):
             if self.hat_adj:
                 try:
                     self.hat_ = self._get_hat(X, exp_incr_triangle)
-                except:
+                except MemoryError:
+                    raise
+                except Exception:
                     warn("Could not compute hat matrix.  Setting hat_adj to False")
                     self.had_adj = False
                     self.hat_ = None
-- 
2.43.0


From b3fd4cc111b4aeccb9c3a91951352175bbca9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 14/39] fix: VotingChainladder.fit no longer overwrites its
 default_weighting parameter

---
 chainladder/workflow/voting.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 896b838..af51d49 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -47,10 +47,15 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
     Warning: This class should not be used directly. Use derived classes
     instead.
     """
+    def _default_weighting(self):
+        if self.default_weighting is None:
+            return (1, ) * len(self.estimators)
+        return self.default_weighting
+
     def _assum_vector_is_none(self, X, assum_vector):
         # return np.ones(X.shape[:3] + (len(self.estimators), ))
         return np.repeat(
-            np.array(self.default_weighting)[np.newaxis, :],
+            np.array(self._default_weighting())[np.newaxis, :],
             repeats=X.shape[-1],
             axis=0
             )
@@ -69,7 +74,7 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
 
     def _assum_vector_is_dict(self, X, assum_vector):
         mapping_dict = {X.origin[X.origin == k][0]: v for k, v in assum_vector.items()}
-        missing = {k: self.default_weighting for k in X.origin[~X.origin.isin(mapping_dict.keys())]}
+        missing = {k: self._default_weighting() for k in X.origin[~X.origin.isin(mapping_dict.keys())]}
         assum_vector_ = np.array([*self.X_.origin.map({**mapping_dict, **missing})])
         return assum_vector_
 
@@ -105,8 +110,6 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
     def fit(self, X, y, sample_weight=None):
         """Get common fit operations."""
         names, clfs = self._validate_estimators()
-        if self.default_weighting is None:
-            self.default_weighting = (1, ) * len(self.estimators)
         self.weights_ = self._coerce_assum_vector_to_array(X, self.weights)
         self.weights_ = self.weights_[..., np.newaxis]
         if self.weights_.shape[-3] != X.shape[2]:
-- 
2.43.0


From 61ecf991bcc5e2f316162720b59bb369eb053a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 15/39] fix: VotingChainladder default weights have one row per
 origin, not per development period

---
 chainladder/workflow/voting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index af51d49..7dfba24 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -56,7 +56,7 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
         # return np.ones(X.shape[:3] + (len(self.estimators), ))
         return np.repeat(
             np.array(self._default_weighting())[np.newaxis, :],
-            repeats=X.shape[-1],
+            repeats=X.shape[2],
             axis=0
             )
 
-- 
2.43.0


From 0353876be30868d678142691f3a21f01763af94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 16/39] fix: VotingChainladder applies each weight to its own
 estimator when others are dropped

---
 chainladder/workflow/voting.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 7dfba24..9e83cc7 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -341,6 +341,11 @@ class VotingChainladder(_BaseChainladderVoting, MethodBase):
                                  f' and {X.shape[1]} for X.')
             weights = self.weights_
 
+        # estimators_ holds no dropped estimators, weights_ does
+        weights = weights[..., [
+            i for i, est in enumerate(self.named_estimators_.values())
+            if not isinstance(est, str)
+        ], :]
         ultimate = sum([
                 est.predict(X, sample_weight).ultimate_ * weights[..., i, :]
                 for i, est in enumerate(self.estimators_)
-- 
2.43.0


From e1c4d00331ffcef4bced91aff5c38cbdd2d53e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 17/39] fix: GridSearch fits copies of the estimators in its
 grid, not the grid's own objects

---
 chainladder/workflow/gridsearch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/workflow/gridsearch.py b/chainladder/workflow/gridsearch.py
index 227a84f..2765c66 100644
--- a/chainladder/workflow/gridsearch.py
+++ b/chainladder/workflow/gridsearch.py
@@ -88,7 +88,9 @@ class GridSearch(BaseEstimator):
         grid = list(ParameterGrid(self.param_grid))
 
         def _fit_single_estimator(estimator, fit_params, X, y, scoring, item):
-            est = clone(estimator).set_params(**item)
+            # estimators in the grid are shared by several grid points
+            est = clone(estimator).set_params(
+                **{k: clone(v, safe=False) for k, v in item.items()})
             model = est.fit(X, y, **fit_params)
             for score in scoring.keys():
                 item[score] = scoring[score](model)
-- 
2.43.0


From 2762a7f7b5028d4dafd8a53bbe3f7bf16c8e914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 18/39] fix: random_state means what it is documented to mean:
 zero is a seed, a generator is accepted, none is numpy's own

---
 chainladder/adjustments/bootstrap.py   | 11 +++++++----
 chainladder/methods/benktander.py      |  4 +++-
 chainladder/utils/utility_functions.py | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index fe28b30..bcaf887 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -4,6 +4,8 @@
 
 from chainladder.methods.chainladder import Chainladder
 from chainladder.development import DevelopmentBase, Development
+from chainladder.utils.utility_functions import get_random_state
+import numbers
 import numpy as np
 import pandas as pd
 from warnings import warn
@@ -154,7 +156,7 @@ class BootstrapODPSample(DevelopmentBase):
         # Suggestions from Using the ODP Bootstrap Model: A Practitioners Guide
         adj_resid_dist = adj_resid_dist[adj_resid_dist != 0]
         adj_resid_dist = adj_resid_dist - xp.mean(adj_resid_dist)
-        random_state = xp.random.RandomState(self.random_state)
+        random_state = get_random_state(self.random_state, xp)
         resampled_residual = [
             (
                 random_state.choice(
@@ -266,9 +268,10 @@ def _get_process_variance(self, full_triangle):
     #    process_triangle = np.nan_to_num(np.array([random_state.poisson(lam=abs(item))*np.sign(np.nan_to_num(item))for item in sim_exp_incr_triangle]))
     xp = full_triangle.get_array_module()
     lower_tri = full_triangle.cum_to_incr() - self.cum_to_incr()
-    random_state = xp.random.RandomState(
-        None if not self.random_state else self.random_state + 1
-    )
+    seed = self.random_state
+    if isinstance(seed, numbers.Integral):
+        seed = (seed + 1) % 2 ** 32
+    random_state = get_random_state(seed, xp)
     lower_tri.values = random_state.gamma(
         shape=abs(lower_tri.values) / self.scale_, scale=self.scale_
     ) * xp.sign(xp.nan_to_num(lower_tri.values))
diff --git a/chainladder/methods/benktander.py b/chainladder/methods/benktander.py
index 36de2b4..53ba015 100644
--- a/chainladder/methods/benktander.py
+++ b/chainladder/methods/benktander.py
@@ -92,8 +92,10 @@ class Benktander(MethodBase):
     def _get_benktander_aprioris(self, X, sample_weight):
         """Private method to establish Benktander Apriori"""
         xp = X.get_array_module()
+        from chainladder.utils.utility_functions import get_random_state
+
         if self.apriori_sigma != 0:
-            random_state = xp.random.RandomState(self.random_state)
+            random_state = get_random_state(self.random_state, xp)
             apriori = random_state.normal(self.apriori, self.apriori_sigma, X.shape[0])
             apriori = apriori.reshape(X.shape[0], -1)[..., None, None]
             apriori = sample_weight * apriori
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 249ad45..afe3faa 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -7,14 +7,28 @@ from chainladder.utils.cupy import cp
 from chainladder.utils.sparse import sp
 import dill
 import json
+import numbers
 import os
 import copy
 from patsy import dmatrix
 from sklearn.base import BaseEstimator, TransformerMixin
+from sklearn.utils import check_random_state
 from typing import Iterable, Union
 from io import StringIO
 
 
+def get_random_state(random_state, xp=np):
+    """ The random number generator meant by an estimator's random_state: a new
+    one seeded with it if int, itself if RandomState instance, and the one used
+    by np.random if None."""
+    random = getattr(xp, "random", np.random)
+    if isinstance(random_state, numbers.Integral):
+        return random.RandomState(random_state)
+    if random_state is None and hasattr(random, "get_random_state"):
+        return random.get_random_state()  # cupy
+    return check_random_state(random_state)
+
+
 def load_sample(key: str, *args, **kwargs):
     """Function to load datasets included in the chainladder package.
 
-- 
2.43.0


From f55b5c86ef759fbfafc66ebf944e3a8661b0e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 19/39] fix: estimator JSON keeps tuples, number-keyed
 dictionaries and nested estimators, so that what is read back can be fitted

---
 chainladder/core/io.py                 | 36 +++++++++++++++++++++++---
 chainladder/utils/utility_functions.py |  5 ++--
 chainladder/workflow/gridsearch.py     |  4 +--
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index 127c1f7..cad418e 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -8,6 +8,38 @@ import joblib
 import dill
 
 
+def _encode(value):
+    """ JSON has no tuples, no dictionary keys other than text and no estimators """
+    if isinstance(value, BaseEstimator):
+        return {"__estimator__": value.to_json()}
+    if isinstance(value, tuple):
+        return {"__tuple__": [_encode(v) for v in value]}
+    if isinstance(value, list):
+        return [_encode(v) for v in value]
+    if isinstance(value, dict):
+        if all(isinstance(k, str) for k in value):
+            return {k: _encode(v) for k, v in value.items()}
+        return {"__dict__": [[_encode(k), _encode(v)] for k, v in value.items()]}
+    return value
+
+
+def _decode(value):
+    """ Inverse of _encode """
+    if isinstance(value, list):
+        return [_decode(v) for v in value]
+    if isinstance(value, dict):
+        if list(value) == ["__estimator__"]:
+            from chainladder.utils.utility_functions import read_json
+
+            return read_json(value["__estimator__"])
+        if list(value) == ["__tuple__"]:
+            return tuple(_decode(v) for v in value["__tuple__"])
+        if list(value) == ["__dict__"]:
+            return {_decode(k): _decode(v) for k, v in value["__dict__"]}
+        return {k: _decode(v) for k, v in value.items()}
+    return value
+
+
 class TriangleIO:
     def to_pickle(self, path, protocol=None):
         """ Serializes triangle object to pickle.
@@ -76,7 +108,5 @@ class EstimatorIO:
         -------
             string representation of object in json format
         """
-        params = self.get_params(deep=False)
-        j = lambda v: v.to_json() if isinstance(v, BaseEstimator) else v
-        params = {k: j(v) for k, v in params.items()}
+        params = _encode(self.get_params(deep=False))
         return json.dumps({"params": params, "__class__": self.__class__.__name__})
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index afe3faa..3382027 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -104,6 +104,7 @@ def read_pickle(path):
 
 def read_json(json_str, array_backend=None):
     from chainladder import Triangle
+    from chainladder.core.io import _decode
     from chainladder.workflow import Pipeline
 
     if array_backend is None:
@@ -118,7 +119,7 @@ def read_json(json_str, array_backend=None):
             steps=[
                 (
                     item["name"],
-                    cl.__dict__[item["__class__"]]().set_params(**item["params"]),
+                    cl.__dict__[item["__class__"]](**_decode(item["params"])),
                 )
                 for item in json_dict
             ]
@@ -163,7 +164,7 @@ def read_json(json_str, array_backend=None):
     else:
         import chainladder as cl
 
-        return cl.__dict__[json_dict["__class__"]]().set_params(**json_dict["params"])
+        return cl.__dict__[json_dict["__class__"]](**_decode(json_dict["params"]))
 
 
 def parallelogram_olf(
diff --git a/chainladder/workflow/gridsearch.py b/chainladder/workflow/gridsearch.py
index 2765c66..91d1513 100644
--- a/chainladder/workflow/gridsearch.py
+++ b/chainladder/workflow/gridsearch.py
@@ -5,7 +5,7 @@ from sklearn.model_selection import ParameterGrid
 from sklearn.base import BaseEstimator
 from sklearn.pipeline import Pipeline as PipelineSL
 from sklearn.base import clone
-from chainladder.core.io import EstimatorIO
+from chainladder.core.io import EstimatorIO, _encode
 from joblib import Parallel, delayed
 import pandas as pd
 import json
@@ -165,7 +165,7 @@ class Pipeline(PipelineSL, EstimatorIO):
             [
                 {
                     "name": item[0],
-                    "params": item[1].get_params(),
+                    "params": _encode(item[1].get_params(deep=False)),
                     "__class__": item[1].__class__.__name__,
                 }
                 for item in self.steps
-- 
2.43.0


From 717fbc2ad233f2de7678a41cbfbe437794487a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 20/39] fix: val_to_dev of a pattern with more than one index
 row

---
 chainladder/core/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index d4bfbd6..77597b5 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -629,7 +629,7 @@ class Triangle(TriangleBase):
         lag_0 = (val_0.year - origin_0.year) * 12 + val_0.month - origin_0.month + 1
         scale = self._dstep()["M"][obj.development_grain]
         obj.ddims = np.arange(obj.values.shape[-1]) * scale + lag_0
-        prune = obj[obj.origin == obj.origin.max()]
+        prune = obj[np.asarray(obj.origin == obj.origin.max())]
         if self.is_ultimate and self.shape[-1] > 1:
             obj = obj.iloc[..., : (prune.valuation <= prune.valuation_date).sum()]
             obj = concat((obj, ultimate), -1)
-- 
2.43.0


From 3914bd42846dc027bcfcfd5151858c19a40a996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 21/39] fix: dropna of a pattern with more than one index row,
 so that its JSON can be read

---
 chainladder/core/pandas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index abe87a3..1691215 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -179,8 +179,8 @@ class TrianglePandas:
                 (self.development >= ddim.min()) & (
                     self.development <= ddim.max())
             ]
-            return obj[(self.origin >= min_odim) & (self.origin <= max_odim)]
-        obj = self[(self.origin >= min_odim) & (self.origin <= max_odim)]
+            return obj[np.asarray((self.origin >= min_odim) & (self.origin <= max_odim))]
+        obj = self[np.asarray((self.origin >= min_odim) & (self.origin <= max_odim))]
         return obj
 
     def fillna(self, value=None, inplace=False):
-- 
2.43.0


From a48b759464550e11e5fdfdd5add85570f240d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 22/39] fix: triangle JSON holds the values virtual columns
 have, instead of failing or holding others

---
 chainladder/core/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index cad418e..c77aab2 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -68,7 +68,13 @@ class TriangleIO:
             "is_pattern": self.is_pattern,
             "columns": list(self.columns),
         }
-        out = self.cum_to_incr().dev_to_val().to_frame(
+        obj = self
+        if len(self.virtual_columns.columns) > 0:
+            # JSON holds no functions, so it holds the values they have here
+            obj = self.copy()
+            for column in list(self.virtual_columns.columns):
+                obj[column] = self[column]
+        out = obj.cum_to_incr().dev_to_val().to_frame(
             keepdims=True, origin_as_datetime=True).fillna(0)
         x = out.reset_index().to_json(orient="split", date_unit="ns")
         json_dict = {"metadata": json.dumps(metadata), "data": x}
-- 
2.43.0


From 4730a60aba5dbac9ddacee2ba5c095a639c165db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 23/39] fix: fitted GLM estimators can be pickled and copied

---
 chainladder/utils/utility_functions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 3382027..400b377 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -432,9 +432,21 @@ class PatsyFormula(BaseEstimator, TransformerMixin):
 
     def fit(self, X, y=None, sample_weight=None):
         self._check_X(X)
+        self._X = X
         self.design_info_ = dmatrix(self.formula, X).design_info
         return self
 
+    def __getstate__(self):
+        """ patsy does not support pickling of its design_info """
+        state = dict(super().__getstate__())
+        state.pop("design_info_", None)
+        return state
+
+    def __setstate__(self, state):
+        super().__setstate__(state)
+        if "_X" in state:
+            self.design_info_ = dmatrix(self.formula, self._X).design_info
+
     def transform(self, X):
         self._check_X(X)
         return dmatrix(self.design_info_, X)
-- 
2.43.0


From 96cb462f4f30705405c62012deaad2013c01c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 24/39] fix: triangle JSON keeps the grains and the valuation
 date, which the cells alone do not always tell

---
 chainladder/core/io.py                 |  3 +++
 chainladder/utils/utility_functions.py | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index c77aab2..a7522f0 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -67,6 +67,9 @@ class TriangleIO:
             "is_cumulative": self.is_cumulative,
             "is_pattern": self.is_pattern,
             "columns": list(self.columns),
+            "origin_grain": self.origin_grain,
+            "development_grain": self.development_grain,
+            "valuation_date": str(self.valuation_date),
         }
         obj = self
         if len(self.virtual_columns.columns) > 0:
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 400b377..a5662f7 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -146,11 +146,19 @@ def read_json(json_str, array_backend=None):
         if json.loads(j["metadata"])["is_cumulative"]:
             tri = tri.incr_to_cum()
         tri = tri[json.loads(j["metadata"])["columns"]].sort_index()
+        for k in ["origin_grain", "development_grain", "valuation_date"]:
+            # not always what the data alone would suggest, e.g. for patterns
+            if k in json.loads(j["metadata"]).keys():
+                v = json.loads(j["metadata"])[k]
+                setattr(tri, k, pd.to_datetime(v) if k == "valuation_date" else v)
         if "sub_tris" in json_dict.keys():
             for k, v in json_dict["sub_tris"].items():
                 setattr(tri, k, read_json(v, array_backend))
-                setattr(getattr(tri, k), "origin_grain", tri.origin_grain)
-                setattr(getattr(tri, k), "development_grain", tri.development_grain)
+                if "origin_grain" not in json.loads(json.loads(v)["metadata"]):
+                    setattr(getattr(tri, k), "origin_grain", tri.origin_grain)
+                    setattr(
+                        getattr(tri, k), "development_grain", tri.development_grain
+                    )
         if "dfs" in json_dict.keys():
             for k, v in json_dict["dfs"].items():
                 df = pd.read_json(v)
-- 
2.43.0


From 3b361f3b89b14eddffe0058ebf44afa532c0d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 25/39] fix: to_frame computes virtual columns in the order of
 their definition, not in hash order

---
 chainladder/core/pandas.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index 1691215..3e59bdb 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -63,7 +63,8 @@ class TrianglePandas:
             obj = self.val_to_dev().set_backend("sparse")
             out = pd.DataFrame(obj.index.iloc[obj.values.coords[0]])
             out["columns"] = obj.columns[obj.values.coords[1]]
-            missing_cols = list(set(self.columns) - set(out['columns']))
+            present_cols = set(out['columns'])
+            missing_cols = [col for col in self.columns if col not in present_cols]
             if origin_as_datetime:
                 out["origin"] = obj.odims[obj.values.coords[2]]
             else:
@@ -101,9 +102,11 @@ class TrianglePandas:
                     col_order = ['origin', 'valuation'] + col_order
                 else:
                     col_order = ['origin', 'development'] + col_order
-            for col in set(missing_cols) - self.virtual_columns.columns.keys():
+            virtual_cols = self.virtual_columns.columns.keys()
+            for col in [col for col in missing_cols if col not in virtual_cols]:
                 out[col] = np.nan
-            for col in set(missing_cols).intersection(self.virtual_columns.columns.keys()):
+            # in order of definition as virtual columns may depend on earlier ones
+            for col in [col for col in virtual_cols if col in missing_cols]:
                 out[col] = out.fillna(0).apply(self.virtual_columns.columns[col], 1)
                 out.loc[out[col] == 0, col] = np.nan
 
-- 
2.43.0


From a1cbfa22c30e054c9069b0a2c67530b216ec7b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 26/39] fix: ParallelogramOLF orders its index by the
 triangle's keys, not in hash order

---
 chainladder/adjustments/parallelogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/adjustments/parallelogram.py b/chainladder/adjustments/parallelogram.py
index 4bf6bed..d3d5b1a 100644
--- a/chainladder/adjustments/parallelogram.py
+++ b/chainladder/adjustments/parallelogram.py
@@ -71,7 +71,7 @@ class ParallelogramOLF(BaseEstimator, TransformerMixin, EstimatorIO):
         else:
             obj = X.copy()
 
-        groups = list(set(X.key_labels).intersection(self.rate_history.columns))
+        groups = [k for k in X.key_labels if k in self.rate_history.columns]
 
         if len(groups) == 0:
             idx = obj
-- 
2.43.0


From a4574a7fdeb7d40c2044a4af17ac2ff4f0839dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 27/39] fix: MackChainladder can be fitted on sparse triangles
 when they turn dense on the way

---
 chainladder/methods/mack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 09bf479..e841431 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -128,7 +128,9 @@ class MackChainladder(Chainladder):
             future_std_err = (
                 X._full_triangle_ - X[X.valuation < X.valuation_date]
             ).iloc[:, :, :, : X.shape[3]] * X.std_err_.values
-            t1_t = xp.nan_to_num(future_std_err.sum("origin").values)
+            # the sum may change the backend when AUTO_SPARSE is on
+            t1_t = future_std_err.sum("origin").set_backend(obj.array_backend)
+            t1_t = xp.nan_to_num(t1_t.values)
             obj.odims = obj.odims[0:1]
         else:
             nans = xp.nan_to_num(X.nan_triangle[None, None])
-- 
2.43.0


From 8fd624d763cc1916b995d7593837e8d0b7798dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 28/39] fix: CaseOutstanding can be fitted on sparse triangles

---
 chainladder/development/outstanding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/development/outstanding.py b/chainladder/development/outstanding.py
index b5ce212..49cd2d7 100644
--- a/chainladder/development/outstanding.py
+++ b/chainladder/development/outstanding.py
@@ -75,7 +75,8 @@ class CaseOutstanding(DevelopmentBase):
             Returns the instance itself.
         """
         backend = "cupy" if X.array_backend == "cupy" else "numpy"
-        self.X_ = X.copy()
+        # The pattern calculations need dense arrays
+        self.X_ = X.set_backend(backend)
 
         self.paid_w_ = (
             Development(n_periods=self.paid_n_periods).fit(self.X_.sum(0).sum(1)).w_
@@ -102,6 +103,7 @@ class CaseOutstanding(DevelopmentBase):
         return self
 
     def _set_ldf(self, X):
+        X = X.set_backend("cupy" if X.array_backend == "cupy" else "numpy")
         paid_tri = X[self.paid_to_incurred[0]]
         incurred_tri = X[self.paid_to_incurred[1]]
         case_tri = incurred_tri - paid_tri
-- 
2.43.0


From 49f69b7634a222437c52a330ff3a65d7992eb16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 29/39] fix: concat of sparse triangles with different fill
 values, or with dense ones

---
 chainladder/utils/utility_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index a5662f7..3b4c31f 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -360,7 +360,12 @@ def concat(
             else:
                 assert len(new_axis) == len(set(new_axis))
     out = copy.deepcopy(objs[0])
-    out.values = xp.concatenate([obj.values for obj in objs], axis=axis)
+    values = [obj.values for obj in objs]
+    if out.array_backend == "sparse" and len({str(v.fill_value) for v in values}) > 1:
+        # sparse arrays only concatenate when their fill values agree
+        values = [num_to_nan(value) for value in values]
+    xp = out.get_array_module()
+    out.values = xp.concatenate(values, axis=axis)
     setattr(out, mapper[axis], new_axis)
     if ignore_index and axis == 0:
         out.key_labels = ["Index"]
-- 
2.43.0


From b2e2a6daa52e43425f62791dbcace948b5178cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 30/39] fix: zeros replaced in sparse arrays take the value
 asked for, without altering the array given

---
 chainladder/core/triangle.py           | 3 +--
 chainladder/utils/utility_functions.py | 7 +++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 77597b5..fab951b 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -495,8 +495,7 @@ class Triangle(TriangleBase):
             if self.is_cumulative or self.is_cumulative is None:
                 if self.is_pattern:
                     xp = self.get_array_module()
-                    self.values = xp.nan_to_num(self.values)
-                    values = num_to_value(self.values, 1)
+                    self.values = num_to_value(xp.nan_to_num(self.values), 1)
                     diff = self.iloc[..., :-1] / self.iloc[..., 1:].values
                     self = concat(
                         (
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 3b4c31f..74ed938 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -384,11 +384,10 @@ def num_to_value(arr, value):
     backend = arr.__class__.__module__.split(".")[0]
     if backend == "sparse":
         if arr.fill_value == 0 or sp.isnan(arr.fill_value):
-            arr.coords = arr.coords[:, arr.data != 0]
-            arr.data = arr.data[arr.data != 0]
-
+            keep = arr.data != 0
             arr = sp(
-                coords=arr.coords, data=arr.data, fill_value=sp.nan, shape=arr.shape
+                coords=arr.coords[:, keep], data=arr.data[keep],
+                fill_value=value, shape=arr.shape
             )
         else:
             arr = sp(num_to_nan(np.nan_to_num(arr.todense())), fill_value=value)
-- 
2.43.0


From 3fed58707918f1acf94e0a14a6d16f3bd736cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 31/39] fix: concat leaves the list it is given alone

---
 chainladder/utils/utility_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 74ed938..b7608c9 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -322,8 +322,8 @@ def concat(
     """
     if type(objs) not in (list, tuple):
         raise TypeError("objects to be concatenated must be in a list or tuple")
-    if type(objs) is tuple:
-        objs = list(objs)
+    # a new list, as its elements may be replaced
+    objs = list(objs)
     if len(objs) == 0:
         raise ValueError("objs must contain at least one element")
     xp = objs[0].get_array_module()
-- 
2.43.0


From 1de9d3e703a0328375a368bc3434aa54cc30fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 32/39] fix: sparse triangles take every development factor of
 their latest diagonal, also when all earlier cells lie in one origin or age

---
 chainladder/methods/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index 26bf84f..ea58336 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -30,7 +30,10 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
         a = X.iloc[0, 0] * 0
         a = a + a.nan_triangle
         if X.array_backend == "sparse":
-            a = a - a[a.valuation < a.valuation_date]
+            # keep only the latest diagonal
+            latest = np.where(a.valuation == a.valuation_date, 1.0, np.nan)
+            latest = latest.reshape(a.shape[-2:], order="F")
+            a.values = a.values * a.get_array_module().array(latest)
         if sample_weight:
             X = X * a + sample_weight * a
         else:
-- 
2.43.0


From 2932bbea5daa34283cbd89132ececc88b43c08f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 33/39] fix: sparse triangle arithmetic broadcasts axes of
 length one when origins or ages differ, as dense arithmetic does

---
 chainladder/core/dunders.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 3e47be8..6ce3cb0 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -194,7 +194,11 @@ class TriangleDunders:
                 obj_arr[:] = xp.nan
                 obj_arr[:, :, lol:loh, ldl:ldh] = obj.values
             else:
-                obj_arr, other_arr = obj.values.copy(), other.values.copy()
+                # axes of length one broadcast as they do for dense arrays
+                obj_arr = obj.values.broadcast_to(
+                    (*obj.values.shape[:2], loh - lol, ldh - ldl)).copy()
+                other_arr = other.values.broadcast_to(
+                    (*other.values.shape[:2], roh - rol, rdh - rdl)).copy()
                 other_arr.coords[2] = other_arr.coords[2] + rol
                 other_arr.coords[3] = other_arr.coords[3] + rdl
                 obj_arr.coords[2] = obj_arr.coords[2] + lol
-- 
2.43.0


From 5427b05a041410ca8e2d821e6a723395f09973fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 34/39] fix: Mack recursion keeps to the backend of the
 triangle

---
 chainladder/methods/mack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index e841431..3b35ebb 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -60,7 +60,8 @@ class MackChainladder(Chainladder):
         if "sigma_" not in self.X_:
             raise ValueError("Triangle not compatible with MackChainladder")
         # Caching full_triangle_ for fit as it is called a lot
-        self.X_._full_triangle_ = self.full_triangle_
+        self.X_._full_triangle_ = self.full_triangle_.set_backend(
+            self.X_.array_backend)
         self.parameter_risk_ = self._mack_recursion("parameter_risk_", self.X_)
         self.process_risk_ = self._mack_recursion("process_risk_", self.X_)
         self.total_parameter_risk_ = self._mack_recursion(
@@ -76,7 +77,8 @@ class MackChainladder(Chainladder):
         X_new.std_err_ = getattr(X_new, "std_err_", self.X_.std_err_)
         X_new.average_ = getattr(X_new, "average_", self.X_.average_)
         X_new.w_ = getattr(X_new, "w_", self.X_.w_)
-        X_new._full_triangle_ = X_new.full_triangle_
+        X_new._full_triangle_ = X_new.full_triangle_.set_backend(
+            X_new.array_backend)
         X_new.parameter_risk_ = self._mack_recursion("parameter_risk_", X_new)
         X_new.process_risk_ = self._mack_recursion("process_risk_", X_new)
         X_new.total_process_risk_ = (X_new.process_risk_ ** 2).sum(axis="origin").sqrt()
-- 
2.43.0


From 6a254db6ff6c8b90820bd1ae243b9ac036f0bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 35/39] fix: CapeCod keeps trend and on-level factors in one
 backend

---
 chainladder/methods/capecod.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/chainladder/methods/capecod.py b/chainladder/methods/capecod.py
index 8678566..773390f 100644
--- a/chainladder/methods/capecod.py
+++ b/chainladder/methods/capecod.py
@@ -106,9 +106,12 @@ class CapeCod(Benktander):
         if self.groupby is not None:
             latest = latest.groupby(self.groupby).sum()
             reported_exposure = reported_exposure.groupby(self.groupby).sum()
-        trend_array = self._trend(X.iloc[0] * 0 + 1)
-        X_olf_array = self._onlevel(X)
-        sw_olf_array = self._onlevel(sample_weight)
+        # all factors need the backend of the exposure they are applied to
+        backend = reported_exposure.array_backend
+        latest = latest.set_backend(backend)
+        trend_array = self._trend(X.iloc[0] * 0 + 1, backend)
+        X_olf_array = self._onlevel(X, backend)
+        sw_olf_array = self._onlevel(sample_weight, backend)
         xp = reported_exposure.get_array_module()
         decay_matrix = self.decay ** xp.abs(
             xp.arange(len_orig)[None].T - xp.arange(len_orig)[None]
@@ -158,17 +161,17 @@ class CapeCod(Benktander):
         X_new.detrended_apriori_ = detrended_apriori_
         return X_new
 
-    def _trend(self, X):
+    def _trend(self, X, backend):
         if self.groupby is None:
             if hasattr(X, "trend_"):
                 if self.trend != 0:
                     warnings.warn(
                         "CapeCod Trend assumption is ignored when X has a trend_ property."
                     )
-                trend_array = X.trend_.latest_diagonal.values
+                trend_array = X.trend_.latest_diagonal
 
             else:
-                trend_array = (X.trend(self.trend) / X).latest_diagonal.values
+                trend_array = (X.trend(self.trend) / X).latest_diagonal
 
         else:
             if hasattr(X, "trend_"):
@@ -177,24 +180,25 @@ class CapeCod(Benktander):
                         "CapeCod Trend assumption is ignored when X has a trend_ property."
                     )
                 trend_array = (
-                    X.trend_.groupby(self.groupby).latest_diagonal.sum().values
+                    X.trend_.groupby(self.groupby).latest_diagonal.sum()
                 )
             else:
                 trend_array = (
                     X.groupby(self.groupby).sum().trend(self.trend)
                     / X.groupby(self.groupby).sum()
-                ).latest_diagonal.values
-        return trend_array
+                ).latest_diagonal
+        return trend_array.set_backend(backend).values
 
-    def _onlevel(self, X):
+    def _onlevel(self, X, backend):
         if self.groupby is None:
             if hasattr(X, "olf_"):
-                olf_array = X.olf_.values
+                olf_array = X.olf_.set_backend(backend).values
             else:
                 olf_array = 1.0
         else:
             if hasattr(X, "olf_"):
-                olf_array = (X.olf_ * X).groupby(self.groupby).sum().values
+                olf_array = (X.olf_ * X).groupby(self.groupby).sum()
+                olf_array = olf_array.set_backend(backend).values
             else:
                 olf_array = 1.0
         return olf_array
-- 
2.43.0


From 08cc34c3902eed48584967cb41d7d2e9d0716c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 36/39] fix: pipelines with a removed step can be fitted with a
 sample_weight

---
 chainladder/workflow/gridsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/workflow/gridsearch.py b/chainladder/workflow/gridsearch.py
index 91d1513..2bde327 100644
--- a/chainladder/workflow/gridsearch.py
+++ b/chainladder/workflow/gridsearch.py
@@ -146,7 +146,7 @@ class Pipeline(PipelineSL, EstimatorIO):
     def fit(self, X, y=None, sample_weight=None, **fit_params):
         if sample_weight:
             fit_params = {} if not fit_params else fit_params
-            for step in self.steps:
+            for step in [s for s in self.steps if s[1] is not None]:
                 fit_params[step[0] + "__sample_weight"] = sample_weight
         return super().fit(X, y, **fit_params)
 
-- 
2.43.0


From 173e4644fb98bc8a4a4e2ab97d34651a642cf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 37/39] fix: Pipeline.fit_predict uses fit parameters to fit
 only

---
 chainladder/workflow/gridsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/workflow/gridsearch.py b/chainladder/workflow/gridsearch.py
index 2bde327..e1cd01e 100644
--- a/chainladder/workflow/gridsearch.py
+++ b/chainladder/workflow/gridsearch.py
@@ -158,7 +158,7 @@ class Pipeline(PipelineSL, EstimatorIO):
 
     def fit_predict(self, X, y=None, sample_weight=None, **fit_params):
         self.fit(X, y, sample_weight, **fit_params)
-        return self.predict(X, sample_weight, **fit_params)
+        return self.predict(X, sample_weight)
 
     def to_json(self):
         return json.dumps(
-- 
2.43.0


From 46649a3dfe775b3f31f513208539b1783accd4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 38/39] fix: fit a tail curve with a list as fit_period on
 sparse triangles too

---
 chainladder/tails/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/tails/curve.py b/chainladder/tails/curve.py
index b05ee43..7d36ee2 100644
--- a/chainladder/tails/curve.py
+++ b/chainladder/tails/curve.py
@@ -114,7 +114,7 @@ class TailCurve(TailBase):
             )
             fit_period = self.fit_period
         elif type(self.fit_period) is list:
-            fit_period = xp.array(self.fit_period)[None, None, None, :]
+            fit_period = self.fit_period
         else:
             grain = {"Y": 12, "S": 6, "Q": 3, "M": 1}[X.development_grain]
             start = (
@@ -135,7 +135,7 @@ class TailCurve(TailBase):
         if type(fit_period) is slice:
             _w[..., fit_period] = 1.0
         else:
-            _w = (_w + 1) * fit_period
+            _w = (_w + 1) * xp.array(fit_period)[None, None, None, :]
         if self.reg_threshold[0] is None:
             warnings.warn(
                 "Lower threshold for ldfs not set. Lower threshold will be set to 1.0 to ensure"
-- 
2.43.0


From 699efd392fd101558376669714bea12d1e535a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:07 +0000
Subject: [PATCH 39/39] fix: silence numpy's warnings without changing the
 filters all threads share

---
 chainladder/adjustments/berqsherm.py     |  4 +---
 chainladder/utils/weighted_regression.py | 17 +++++++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/chainladder/adjustments/berqsherm.py b/chainladder/adjustments/berqsherm.py
index a86bbb4..d9f7ee6 100644
--- a/chainladder/adjustments/berqsherm.py
+++ b/chainladder/adjustments/berqsherm.py
@@ -6,7 +6,6 @@ from chainladder.methods.chainladder import Chainladder
 from sklearn.base import BaseEstimator, TransformerMixin
 import numpy as np
 import copy
-import warnings
 from chainladder.core.io import EstimatorIO
 
 
@@ -122,8 +121,7 @@ class BerquistSherman(BaseEstimator, TransformerMixin, EstimatorIO):
         a = np.exp((y0 + y1) / 2 - b * (x0 + x1) / 2)
 
         # Need to Ignore warnings for NaN cells
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             lookup = (
                 np.maximum(
                     xp.concatenate(
diff --git a/chainladder/utils/weighted_regression.py b/chainladder/utils/weighted_regression.py
index aec67d2..d4344d2 100644
--- a/chainladder/utils/weighted_regression.py
+++ b/chainladder/utils/weighted_regression.py
@@ -4,7 +4,6 @@
 import numpy as np
 from chainladder.utils.sparse import sp
 from sklearn.base import BaseEstimator
-import warnings
 
 
 class WeightedRegression(BaseEstimator):
@@ -56,16 +55,22 @@ class WeightedRegression(BaseEstimator):
             w2 = sp(data=w2.data, coords=w2.coords, fill_value=sp.nan, shape=w2.shape)
             x, y = x * w2, y * w2
 
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", category=RuntimeWarning)
+        def mean(a):
+            if xp == sp:
+                return xp.nanmean(a, axis)
+            # nanmean without its warning on an empty slice: silencing one through
+            # the warnings module changes state that all threads share.
+            return xp.nansum(a, axis) / xp.nansum(~xp.isnan(a), axis)
+
+        with np.errstate(all="ignore"):
             slope = num_to_nan(
                 xp.nansum(w * x * y, axis)
-                - xp.nansum(x * w, axis) * xp.nanmean(y, axis)
+                - xp.nansum(x * w, axis) * mean(y)
             ) / num_to_nan(
                 xp.nansum(w * x * x, axis)
-                - xp.nanmean(x, axis) * xp.nansum(w * x, axis)
+                - mean(x) * xp.nansum(w * x, axis)
             )
-            intercept = xp.nanmean(y, axis) - slope * xp.nanmean(x, axis)
+            intercept = mean(y) - slope * mean(x)
 
         self.slope_ = slope[..., None]
         self.intercept_ = intercept[..., None]
-- 
2.43.0

