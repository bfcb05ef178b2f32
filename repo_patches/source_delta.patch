From 33f046301142794aca63801b8e9d6df9712f579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:53 +0000
Subject: [PATCH 01/24] fix: a stated precision selects an exponent fine enough
 for it

The sign of the exponent is the opposite of phe's here, so precision=1e-3 gave exponent -3
(unit 4096) and encoded 0.5 as 0.
---
 ml/secureprotol/fixedpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index f411d72..06e0e61 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -73,7 +73,7 @@ class FixedPointNumber(object):
                 raise TypeError("Don't know the precision of type %s."
                                 % type(scalar))
         else:
-            exponent = math.floor(math.log(precision, cls.BASE))        
+            exponent = -math.floor(math.log(precision, cls.BASE))
         
         if max_exponent is not None:
             exponent = max(max_exponent, exponent)
-- 
2.43.0


From b3d18ef4c40a0b2d4b2cca112bdf9903db56b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:21 +0000
Subject: [PATCH 02/24] fix: fixed-point arithmetic stays in the modulus of its
 operands

Addition, multiplication and operations with plain numbers reduced modulo the default Q and
labelled the result with it, whatever modulus the operands were encoded with.
---
 ml/secureprotol/fixedpoint.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 06e0e61..b99abc9 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -127,7 +127,7 @@ class FixedPointNumber(object):
 
     def __truncate(self, a):
         scalar = a.decode()
-        return FixedPointNumber.encode(scalar)    
+        return FixedPointNumber.encode(scalar, self.n, self.max_int)
 
     def __add__(self, other):       
         if isinstance(other, FixedPointNumber):
@@ -148,7 +148,7 @@ class FixedPointNumber(object):
     def __rsub__(self, other):
         x = self.__sub__(other)
         x = -1 * x.decode()
-        return self.encode(x)
+        return self.encode(x, self.n, self.max_int)
     
     def __rmul__(self, other):
         return self.__mul__(other)
@@ -169,7 +169,7 @@ class FixedPointNumber(object):
    
     def __rtruediv__(self, other):
         res = 1.0 / self.__truediv__(other).decode() 
-        return FixedPointNumber.encode(res)
+        return FixedPointNumber.encode(res, self.n, self.max_int)
  
     def __lt__(self, other):
         x = self.decode()
@@ -240,11 +240,11 @@ class FixedPointNumber(object):
   
     def __add_fixpointnumber(self, other):        
         x, y = self.__align_exponent(self, other)
-        encoding = (x.encoding + y.encoding) % self.Q        
-        return FixedPointNumber(encoding, x.exponent)
+        encoding = (x.encoding + y.encoding) % self.n
+        return FixedPointNumber(encoding, x.exponent, self.n, self.max_int)
  
     def __add_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__add_fixpointnumber(encoded)
   
     def __sub_fixpointnumber(self, other):        
@@ -256,12 +256,12 @@ class FixedPointNumber(object):
         return self.__add_scalar(scalar)    
   
     def __mul_fixpointnumber(self, other):     
-        encoding = (self.encoding * other.encoding) % self.Q
+        encoding = (self.encoding * other.encoding) % self.n
         exponet = self.exponent + other.exponent
-        mul_fixedpoint = FixedPointNumber(encoding, exponet)            
+        mul_fixedpoint = FixedPointNumber(encoding, exponet, self.n, self.max_int)
         truncate_mul_fixedpoint= self.__truncate(mul_fixedpoint)        
         return truncate_mul_fixedpoint
    
     def __mul_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__mul_fixpointnumber(encoded)
-- 
2.43.0


From 3d4d34e0401e064b03fc20951dafbafcad825dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:21 +0000
Subject: [PATCH 03/24] fix: the difference of two fixed-point numbers is exact

It went through decode (a float) and a fresh encoding, so encodings with more than 53 significant
bits lost their low bits: (2**70+1 at exponent 2) - (2**70 at exponent 2) was 0.
---
 ml/secureprotol/fixedpoint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index b99abc9..faff948 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -248,8 +248,9 @@ class FixedPointNumber(object):
         return self.__add_fixpointnumber(encoded)
   
     def __sub_fixpointnumber(self, other):        
-        scalar = -1 * other.decode()
-        return self.__add_scalar(scalar)
+        x, y = self.__align_exponent(self, other)
+        encoding = (x.encoding - y.encoding) % self.n
+        return FixedPointNumber(encoding, x.exponent, self.n, self.max_int)
     
     def __sub_scalar(self, scalar):
         scalar = -1 * scalar
-- 
2.43.0


From 80adc7e461c62d243b320689680b3f80a6743137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:44 +0000
Subject: [PATCH 04/24] fix: encryption modes remember copies of the rows they
 encrypted

In fast and balance mode a caller that updates its rows in place got the previous ciphertexts
back: the remembered rows were the same objects, so every difference was zero.
---
 ml/secureprotol/encrypt_mode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml/secureprotol/encrypt_mode.py b/ml/secureprotol/encrypt_mode.py
index ca0ae05..930ebcf 100644
--- a/ml/secureprotol/encrypt_mode.py
+++ b/ml/secureprotol/encrypt_mode.py
@@ -15,6 +15,7 @@
 #
 
 from collections.abc import Iterable
+from copy import copy
 from ml.statistic.data_overview import rubbish_clear 
 from ml.utils import consts
 import numpy as np
@@ -88,8 +89,8 @@ class EncryptModeCalculator(object):
         rubbish_clear(rubbish_list)
         """temporary code, clear unused table end"""
 
-        self.prev_data = input_data.mapValues(lambda val: val)
-        self.prev_encrypted_data = new_data.mapValues(lambda val: val)
+        self.prev_data = input_data.mapValues(copy)
+        self.prev_encrypted_data = new_data.mapValues(copy)
 
         return new_data
 
-- 
2.43.0


From 13196cf84be49281157d576d241ddeb05451b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:44 +0000
Subject: [PATCH 05/24] fix: fast and balance encryption keep rows that are new
 since the last call

They were dropped by the join with the previous table.
---
 ml/secureprotol/encrypt_mode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/secureprotol/encrypt_mode.py b/ml/secureprotol/encrypt_mode.py
index 930ebcf..60e21ac 100644
--- a/ml/secureprotol/encrypt_mode.py
+++ b/ml/secureprotol/encrypt_mode.py
@@ -76,6 +76,8 @@ class EncryptModeCalculator(object):
         else:
             diff_data = input_data.join(self.prev_data, self.get_differance) 
             new_data = diff_data.join(self.prev_encrypted_data, self.add_differance)
+            # rows that were not in the previous call have nothing to differ from
+            new_data = new_data.union(input_data.subtractByKey(self.prev_data).mapValues(self.encrypt_row))
             
             """temporary code, clear unused table begin"""
             rubbish_list = [diff_data]
-- 
2.43.0


From 513ab63f6141ac5a2b0419084da667529f8e2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:44 +0000
Subject: [PATCH 06/24] fix: powmod of one modulo one is zero

---
 ml/secureprotol/gmpy_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/gmpy_math.py b/ml/secureprotol/gmpy_math.py
index 5944269..8ee12ed 100644
--- a/ml/secureprotol/gmpy_math.py
+++ b/ml/secureprotol/gmpy_math.py
@@ -26,7 +26,7 @@ def powmod(a, b, c):
     """
     
     if a == 1:
-        return 1
+        return 1 % c
     
     if max(a, b, c) < POWMOD_GMP_SIZE:
         return pow(a, b, c)
-- 
2.43.0


From b73d54e21a59f2516afb5e16978886c66c0bbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:45 +0000
Subject: [PATCH 07/24] fix: numpy scalars of a narrow type are encoded without
 overflow

---
 ml/secureprotol/fixedpoint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index faff948..3037c3a 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -78,6 +78,10 @@ class FixedPointNumber(object):
         if max_exponent is not None:
             exponent = max(max_exponent, exponent)
             
+        # numpy scalars of a narrow type overflow when they are scaled
+        if isinstance(scalar, np.generic):
+            scalar = scalar.item()
+
         int_fixpoint = int(round(scalar * pow(cls.BASE, exponent)))
 
         if abs(int_fixpoint) > max_int:
-- 
2.43.0


From 393bfa98b55e73983c95f80bec0f223c6e81df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:12 +0000
Subject: [PATCH 08/24] fix: flushing a quantile summary keeps the retained
 values above the new ones

---
 ml/feature/quantile_summaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 39d4763..abe2244 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -97,6 +97,7 @@ class QuantileSummaries(object):
             new_stats = Stats(current_sample, 1, delta)
             new_sampled.append(new_stats)
             ops_idx += 1
+        new_sampled += self.sampled[sample_idx:]
         self.sampled = new_sampled
         self.head_sampled = []
         self.count = current_count
-- 
2.43.0


From 29c9f7d23ee113d941a7a59080b275d84ebfd32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:51 +0000
Subject: [PATCH 09/24] fix: merging quantile summaries keeps their rank bounds

---
 ml/feature/quantile_summaries.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index abe2244..cf21fcc 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -134,15 +134,22 @@ class QuantileSummaries(object):
             return
 
         # merge two sorted array
+        # The rank of a sample among the values of the other summary is only known up to the
+        # uncertainty of that summary, which adds to the delta of the sample
+        self_delta = math.floor(2 * self.error * self.count)
+        other_delta = math.floor(2 * other.error * other.count)
         new_sample = []
         i, j = 0, 0
         while i < len(self.sampled) and j < len(other.sampled):
             if self.sampled[i].value < other.sampled[j].value:
-                new_sample.append(self.sampled[i])
+                sample = self.sampled[i]
+                delta = sample.delta + other_delta if j > 0 else sample.delta
                 i += 1
             else:
-                new_sample.append(other.sampled[j])
+                sample = other.sampled[j]
+                delta = sample.delta + self_delta if i > 0 else sample.delta
                 j += 1
+            new_sample.append(Stats(sample.value, sample.g, delta))
         new_sample += self.sampled[i:]
         new_sample += other.sampled[j:]
 
-- 
2.43.0


From 35f05a3e25bea278a4b9870f47731b4ca2beeb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 10/24] fix: compressing a quantile summary leaves summaries
 merged into it alone

---
 ml/feature/quantile_summaries.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index cf21fcc..443c2ae 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -17,6 +17,7 @@
 #  limitations under the License.
 #
 
+import copy
 import math
 
 from ml.utils import consts
@@ -208,7 +209,8 @@ class QuantileSummaries(object):
         res = []
 
         # Start from the last element
-        head = self.sampled[-1]
+        # (on copies: a summary that was merged into this one still holds the same samples)
+        head = copy.copy(self.sampled[-1])
         i = len(self.sampled) - 2  # Do not merge the last element
 
         while i >= 1:
@@ -217,7 +219,7 @@ class QuantileSummaries(object):
                 head.g = head.g + this_sample.g
             else:
                 res.append(head)
-                head = this_sample
+                head = copy.copy(this_sample)
             i -= 1
         res.append(head)
 
-- 
2.43.0


From 23769b5fda05bc20709894a528657cc36999523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 11/24] fix: converting features to bins leaves the caller's
 rows alone

---
 ml/feature/binning/base_binning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index c433b9d..b0b515e 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import math
 
@@ -133,12 +134,13 @@ class Binning:
                 sparse_value.append(col_value)
 
         sparse_vector = SparseVector(indice, sparse_value, data_shape)
+        instances = copy.copy(instances)
         instances.features = sparse_vector
         return instances
 
     @staticmethod
     def _convert_dense_data(instances, transform_cols_idx, split_points_dict, header):
-        features = instances.features
+        features = copy.copy(instances.features)
         for col_idx, col_value in enumerate(features):
             if col_idx in transform_cols_idx:
                 col_name = header[col_idx]
@@ -146,6 +148,7 @@ class Binning:
                 bin_num = Binning.get_bin_num(col_value, split_points)
                 features[col_idx] = bin_num
 
+        instances = copy.copy(instances)
         instances.features = features
         return instances
 
-- 
2.43.0


From fd21fd7d97dacd639c5234d78784a269e74b41c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:35 +0000
Subject: [PATCH 12/24] fix: split points of a column are in increasing order

---
 ml/feature/binning/quantile_binning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 3c50679..8612234 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -65,7 +65,8 @@ class QuantileBinning(Binning):
                 s_p = summary.query(percentile_rate)
                 if s_p not in split_point:
                     split_point.append(s_p)
-            split_points[col_name] = split_point
+            # approximate quantiles need not come in order
+            split_points[col_name] = sorted(split_point)
         self.split_points = split_points
 
     @staticmethod
-- 
2.43.0


From bc9446605f1acd5a93a9449c2209b48f7f1869e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:58 +0000
Subject: [PATCH 13/24] fix: binning selected columns of sparse rows skips the
 others

---
 ml/feature/binning/quantile_binning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 8612234..15f6b42 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -146,6 +146,8 @@ class QuantileBinning(Binning):
                 data_generator = instance.features.get_all_data()
                 for col_idx, col_value in data_generator:
                     col_name = header[col_idx]
+                    if col_name not in summary_dict:
+                        continue
                     summary = summary_dict[col_name]
                     summary.insert(col_value)
 
-- 
2.43.0


From 9e60c06aba063dbe1b52a401c76fb93337a9bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:37 +0000
Subject: [PATCH 14/24] fix: column statistics reduce over partitions and
 medians use the fitted split points

---
 ml/statistic/statics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 35ed40e..63775c1 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -200,7 +200,7 @@ class MultivariateStatisticalSummary(object):
                 stat_obj = summary_statistic_dict[col_name]
                 stat_obj.add_value(value)
 
-        return summary_statistic_dict
+        return [summary_statistic_dict]
 
     @staticmethod
     def static_summaries_in_partition(data_instances, cols_dict, abnormal_list):
@@ -238,7 +238,7 @@ class MultivariateStatisticalSummary(object):
                 summary_obj = summary_dict[col_name]
                 summary_obj.insert(value)
 
-        return summary_dict
+        return [summary_dict]
 
     @staticmethod
     def aggregate_statics(s_dict1, s_dict2):
@@ -328,7 +328,8 @@ class MultivariateStatisticalSummary(object):
         cols_index = self._get_cols_index()
         bin_param = FeatureBinningParam(bin_num=2, cols=cols_index)
         binning_obj = QuantileBinning(bin_param, abnormal_list=self.abnormal_list)
-        split_points = binning_obj.fit_split_points(self.data_instances)
+        binning_obj.fit_split_points(self.data_instances)
+        split_points = binning_obj.split_points
         medians = {}
         for col_name, split_point in split_points.items():
             medians[col_name] = split_point[0]
-- 
2.43.0


From d28cafdf1bddc8c4010770663a31cc9b4fbc6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:37 +0000
Subject: [PATCH 15/24] fix: the absolute error's gradient is zero at the kink

---
 ml/loss/regression_loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 450c8db..30d7926 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -76,7 +76,7 @@ class LeastAbsoluteErrorLoss(object):
         if type(y).__name__ == "ndarray" or type(y_pred).__name__ == "ndarray":
             diff = y_pred - y
             diff[diff > consts.FLOAT_ZERO] = 1
-            diff[diff < consts.FLOAT_ZERO] = -1
+            diff[diff < -consts.FLOAT_ZERO] = -1
             diff[np.abs(diff) <= consts.FLOAT_ZERO] = 0
 
             return diff
@@ -84,7 +84,7 @@ class LeastAbsoluteErrorLoss(object):
             diff = y_pred - y
             if diff > consts.FLOAT_ZERO:
                 return 1
-            elif diff < consts.FLOAT_ZERO:
+            elif diff < -consts.FLOAT_ZERO:
                 return -1
             else:
                 return 0
-- 
2.43.0


From 98d89704b6024b32925e8af3459f43d318b2f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:37 +0000
Subject: [PATCH 16/24] fix: the fair loss has its default constant

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 30d7926..4bff219 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -146,7 +146,7 @@ class FairLoss(object):
 
     def __init__(self, c):
         if c is None:
-            self.c = const.FLOAT_ZERO
+            self.c = consts.FLOAT_ZERO
         else:
             self.c = c
 
-- 
2.43.0


From 2d658ab63feec4c73a15151f5ba556c555360fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:37 +0000
Subject: [PATCH 17/24] fix: the log-cosh loss starts from the mean of the
 labels

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 4bff219..1ef933e 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -179,7 +179,7 @@ class LogCoshLoss(object):
         y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
         y_inst.schema = {"header": ["label"]}
         statistics = MultivariateStatisticalSummary(y_inst, -1)
-        mean = statistics.get_mean()
+        mean = statistics.get_mean()["label"]
         return y.mapValues(lambda x: np.asarray([mean])), np.asarray([mean])
 
     @staticmethod
-- 
2.43.0


From 6b933580ef6cc45d40bacf5fd3c9af45bf0a667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:05 +0000
Subject: [PATCH 18/24] fix: the tree sent to the hosts carries no leaf weights
 or gradient sums

---
 ml/tree/hetero_decision_tree_guest.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ml/tree/hetero_decision_tree_guest.py b/ml/tree/hetero_decision_tree_guest.py
index ac1e371..6fd4654 100644
--- a/ml/tree/hetero_decision_tree_guest.py
+++ b/ml/tree/hetero_decision_tree_guest.py
@@ -306,7 +306,13 @@ class HeteroDecisionTreeGuest(DecisionTree):
     def sync_tree(self):
         self.logger.info("sync tree to host")
 
-        self.transfer_inst.send_data_to_hosts(self.tree_, -1)
+        mask_tree = copy.deepcopy(self.tree_)
+        for node in mask_tree:
+            node.weight = 0
+            node.sum_grad = None
+            node.sum_hess = None
+
+        self.transfer_inst.send_data_to_hosts(mask_tree, -1)
 
         # federation.remote(obj=self.tree_,
         #                   name=self.transfer_inst.tree.name,
-- 
2.43.0


From 3cd09276e0cc716a0b09e065b2e2e381f3e9f323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:05 +0000
Subject: [PATCH 19/24] fix: training and prediction leave the caller's rows
 dense

---
 ml/tree/boosting_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/tree/boosting_tree.py b/ml/tree/boosting_tree.py
index 7e00998..929828b 100644
--- a/ml/tree/boosting_tree.py
+++ b/ml/tree/boosting_tree.py
@@ -1,4 +1,5 @@
 
+import copy
 from computing.d_table import DTable
 import numpy as np
 from ml.param.boosting_tree_param import BoostingTreeParam
@@ -62,6 +63,7 @@ class BoostingTree(ModelBase):
                 indices.append(i)
                 data.append(row.features[i])
 
+            row = copy.copy(row)
             row.features = SparseVector(indices, data, feature_shape)
 
         return row
-- 
2.43.0


From 36e4ecfef8faf97fc8c779d0669905aa50085e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:20 +0000
Subject: [PATCH 20/24] fix: a message header cut by the network and a closed
 connection are handled

---
 federation/transfer_inst.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/federation/transfer_inst.py b/federation/transfer_inst.py
index 0d1d7b0..19c9ed5 100644
--- a/federation/transfer_inst.py
+++ b/federation/transfer_inst.py
@@ -20,6 +20,18 @@ class TransferInst:
 
         cs.sendall(byteStream)
     
+    @staticmethod
+    def recv_exactly(cs, length):
+        full_msg = b''
+        nowsize = len(full_msg)
+        while nowsize < length:
+            more = cs.recv(length - nowsize)
+            if len(more) == 0:
+                raise ConnectionError('the connection is closed in the middle of a message')
+            full_msg = full_msg + more
+            nowsize += len(more)
+        return full_msg
+
     @staticmethod
     def recv_data(cs):
         # msg = cs.recv(1024)
@@ -33,15 +45,10 @@ class TransferInst:
         #     full_msg = full_msg + more
         #     nowsize += len(more)
 
-        msg = cs.recv(16)
+        msg = TransferInst.recv_exactly(cs, 16)
         length = int(msg[:16])
         # LOGGER.debug('len of recv_msg is {}'.format(length))
-        full_msg = b''
-        nowsize = len(full_msg)
-        while nowsize < length:
-            more = cs.recv(length - nowsize)
-            full_msg = full_msg + more
-            nowsize += len(more)
+        full_msg = TransferInst.recv_exactly(cs, length)
 
         # LOGGER.debug('true len of recv_msg is {}'.format(length))
         return pickle.loads(full_msg)
-- 
2.43.0


From 7c2c409110ba1dd8525e964d92d19656927f067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:10 +0000
Subject: [PATCH 21/24] fix: the documented transform types pass validation

---
 ml/param/feature_binning_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index fb516b5..bdd2d8f 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -27,7 +27,7 @@ class TransformParam(BaseParam):
         descr = "Transform Param's "
         if self.transform_cols is not None and self.transform_cols != -1:
             self.check_defined_type(self.transform_cols, descr, ['list'])
-        self.check_defined_type(self.transform_type, descr, ['bin_num', None])
+        self.check_valid_value(self.transform_type, descr, ['bin_num', None])
         
 
 class FeatureBinningParam(BaseParam):
-- 
2.43.0


From 0f108f9a7531d14dcd155144ef51eafcbb0cee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:10 +0000
Subject: [PATCH 22/24] fix: a binning error of one is refused as documented

---
 ml/param/feature_binning_param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index bdd2d8f..827b242 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -99,6 +99,8 @@ class FeatureBinningParam(BaseParam):
         self.check_positive_integer(self.compress_thres, descr)
         self.check_positive_integer(self.head_size, descr)
         self.check_decimal_float(self.error, descr)
+        if self.error >= 1:
+            raise ValueError(descr + " error {} not supported, should be less than 1".format(self.error))
         self.check_positive_integer(self.bin_num, descr)
         self.check_defined_type(self.cols, descr, ['list', 'int', 'RepeatedScalarContainer'])
         self.check_open_unit_interval(self.adjustment_factor, descr)
-- 
2.43.0


From 9c1488e03d69dff1cc1d95ef9db547eed691a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:10 +0000
Subject: [PATCH 23/24] fix: validating boosting parameters validates the
 encryption mode

---
 ml/param/boosting_tree_param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index a66117e..7dbabce 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -252,6 +252,8 @@ class BoostingTreeParam(BaseParam):
 
         self.encrypt_param.check()
 
+        self.encrypted_mode_calculator_param.check()
+
         if type(self.bin_num).__name__ not in ["int", "long"] or self.bin_num < 2:
             raise ValueError(
                 "boosting tree param's bin_num {} not supported, should be positive integer greater than 1".format(
-- 
2.43.0


From d99da2bbe43619d4d30220462fa1f00cdcfcb41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 24/24] fix: histograms complete sparse rows when all features
 are selected

---
 ml/tree/feateur_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/tree/feateur_histogram.py b/ml/tree/feateur_histogram.py
index ca875c5..a529987 100644
--- a/ml/tree/feateur_histogram.py
+++ b/ml/tree/feateur_histogram.py
@@ -148,7 +148,7 @@ class FeatureHistogram(object):
 
         for nid in range(node_num):
             for fid in range(bin_split_points.shape[0]):
-                if valid_features is not None and valid_features[fid] is True:
+                if valid_features is None or valid_features[fid] is True:
                     sparse_point = bin_sparse_points[fid]
                     node_histograms[nid][fid][sparse_point][0] += zero_opt_node_sum[nid][0] - zero_optim[nid][fid][0]
                     node_histograms[nid][fid][sparse_point][1] += zero_opt_node_sum[nid][1] - zero_optim[nid][fid][1]
-- 
2.43.0

