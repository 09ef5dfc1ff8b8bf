From c8f987d1bcd79de4abc7392bcbefa0575ad9464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:48 +0000
Subject: [PATCH 01/27] fix: restore variable settings from their JSON
 representation

---
 src/jpt/variables.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 875b3b4..bac42dc 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -250,13 +250,14 @@ class NumericVariable(Variable):
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'NumericVariable':
         domain = Distribution.from_json(data['domain'])
+        settings = data.get('settings', data)
         return NumericVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT),
-            max_std=data.get(NumericVariable.MAX_STDEV),
-            precision=data.get(NumericVariable.PRECISION),
-            blur=data.get(NumericVariable.BLUR)
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            max_std=settings.get(NumericVariable.MAX_STDEV),
+            precision=settings.get(NumericVariable.PRECISION),
+            blur=settings.get(NumericVariable.BLUR)
         )
 
     @property
@@ -383,7 +384,7 @@ class IntegerVariable(Variable):
         return IntegerVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT)
+            min_impurity_improvement=data.get('settings', data).get(Variable.MIN_IMPURITY_IMPROVEMENT)
         )
 
     def to_json(self) -> Dict[str, Any]:
@@ -423,9 +424,12 @@ class SymbolicVariable(Variable):
 
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'SymbolicVariable':
+        settings = data.get('settings', data)
         return SymbolicVariable(
             name=data['name'],
-            domain=Distribution.from_json(data['domain'])
+            domain=Distribution.from_json(data['domain']),
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            invert_impurity=settings.get(INVERT_IMPURITY)
         )
 
     def to_json(self) -> Dict[str, Any]:
-- 
2.43.0


From 3f44ddec1d22d38083f8e539b12b903327d68595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:25 +0000
Subject: [PATCH 02/27] fix: serialize all intervals of a RealSet

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 196b5a6..edd7cd3 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -220,7 +220,7 @@ cdef class RealSet(NumberSet):
 
     def to_json(self) -> Dict[str, Any]:
         return {
-            'intervals': i.to_json() for i in self.intervals
+            'intervals': [i.to_json() for i in self.intervals]
         }
 
     @staticmethod
-- 
2.43.0


From 6e8975df6620f80e8c130208e642e8031d5ad7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:21 +0000
Subject: [PATCH 03/27] fix: assign leaf marginals to their own time step in
 SequentialJPT

---
 src/jpt/sequential_trees.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index bec2550..4530971 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -1,5 +1,4 @@
 import datetime
-from operator import itemgetter
 from typing import List, Dict
 
 import numpy as np
@@ -323,14 +322,11 @@ class SequentialJPT:
         )
 
         # transform trees
-        for ((tree_name, distribution), tree) in zip(
-            sorted(leaf_distribution.items(), key=itemgetter(0)),
-            altered_jpts
-        ):
+        for t, tree in enumerate(altered_jpts):
             prior = dict(
                 zip(
-                    sorted(self.template_tree.leaves.keys()),
-                    distribution
+                    self.template_tree.leaves.keys(),
+                    leaf_distribution["t%s" % t]
                 )
             )
 
-- 
2.43.0


From 6a3f2b311b93bb88d726552af2e95e98b3292e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:31 +0000
Subject: [PATCH 04/27] fix: cropping a numeric distribution to a point leaves
 the distribution unchanged

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 25ca797..79f5fc9 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -394,7 +394,7 @@ class Numeric(Distribution):
                 )
 
         elif isinstance(restriction, numbers.Number):
-            return self.create_dirac_impulse(restriction)
+            return type(self)(**self.settings).create_dirac_impulse(restriction)
 
         else:
             raise ValueError(
-- 
2.43.0


From b6d480c8a54ce29cae64b4a654c87ad28768bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:31 +0000
Subject: [PATCH 05/27] fix: RealSet.simplify does not modify the intervals of
 the set

---
 src/jpt/base/intervals.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index edd7cd3..0169da1 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -479,13 +479,13 @@ cdef class RealSet(NumberSet):
         if not intervals:
             return EMPTY
         head, tail = first(chop(sorted(intervals, key=attrgetter('upper'))))
-        intervals = [head]
+        intervals = [head.copy()]
         for subset in tail:
             if intervals[-1].contiguous(subset):
                 intervals[-1].upper = subset.upper
                 intervals[-1].right = subset.right
             else:
-                intervals.append(subset)
+                intervals.append(subset.copy())
         if len(intervals) == 1:
             return first(intervals)
         return RealSet(intervals)
-- 
2.43.0


From ccbed0788dbd1a7f8c8346dd436fb6b4c5124d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:31 +0000
Subject: [PATCH 06/27] fix: posterior respects evidence on variables that a
 leaf path does not restrict

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1bd8661..0ca8f8d 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1171,7 +1171,7 @@ class JPT:
                 if evidence_set is not None:
                     if var in leaf.path:
                         evidence_set = evidence_set.intersection(leaf.path[var])
-                        distribution = distribution._crop(evidence_set)
+                    distribution = distribution._crop(evidence_set)
                 distributions[var].append(distribution)
 
         weights = [l * p for l, p in zip(likelihoods, priors)]
-- 
2.43.0


From 1ee0f8bf59d411afeda4cdc6111a2380c9823a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:18 +0000
Subject: [PATCH 07/27] fix: infer accounts for evidence on the queried
 variables once

---
 src/jpt/trees.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 0ca8f8d..05af652 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1076,11 +1076,14 @@ class JPT:
             p_e += p_m
 
             if leaf.applies(query_):
-                for var in set(query_.keys()):
-                    query_val = query_[var]
+                p_m = w
+                for var in set(query_.keys()) | set(evidence_.keys()):
+                    val = query_[var] if var in query_ else evidence_[var]
+                    if var in query_ and var in evidence_:
+                        val = val.intersection(evidence_[var])
                     if var in leaf.path:
-                        query_val = query_val.intersection(leaf.path[var])
-                    p_m *= leaf.distributions[var]._p(query_val)
+                        val = val.intersection(leaf.path[var])
+                    p_m *= leaf.distributions[var]._p(val)
                 p_q += p_m
 
         if p_e == 0:
-- 
2.43.0


From 344136ce3cac7195cfc59b88f7602cf99b4455cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:12 +0000
Subject: [PATCH 08/27] fix: conditional_jpt rejects variables that are not
 instances of the model, like every other query

---
 src/jpt/trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 05af652..a98e485 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2204,6 +2204,8 @@ class JPT:
         else:
             evidence_ = evidence
 
+        self._check_variable_assignment(evidence_)
+
         # the new jpt that acts as conditional joint probability distribution
         conditional_jpt: JPT = self.copy()
 
-- 
2.43.0


From a755ce946b924a6b8473106f46e96c9100bea550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:13 +0000
Subject: [PATCH 09/27] fix: arfftocsv closes the file that it reads

---
 src/jpt/base/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 2a50a74..9a5840d 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -416,7 +416,8 @@ def convert(k, v):
 
 def arfftocsv(arffpath, csvpath):
     print(f'Loading arff file: {arffpath}\n')
-    data = arff.load(open(arffpath, 'r'), encode_nominal=True)
+    with open(arffpath, 'r') as arfffile:
+        data = arff.load(arfffile, encode_nominal=True)
 
     print(f'Writing to csv file: {csvpath}\n')
     with open(csvpath, 'w', newline='') as csvfile:
-- 
2.43.0


From 3b51e817697aa7599dc931635819cc5ad40e7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:29 +0000
Subject: [PATCH 10/27] fix: models that differ in their features are not equal

---
 src/jpt/trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index a98e485..a981cf2 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -948,6 +948,7 @@ class JPT:
             self.min_samples_leaf == o.min_samples_leaf,
             self.min_impurity_improvement == o.min_impurity_improvement,
             self.targets == o.targets,
+            self.features == o.features,
             self.variables == o.variables,
             self.max_depth == o.max_depth,
             self.max_leaves == o.max_leaves,
-- 
2.43.0


From a7e192bb9bc9bd769bd753185740ec6089b55e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:29 +0000
Subject: [PATCH 11/27] fix: OrderedDictProxy: a prefix of a mapping is not
 equal to it

---
 src/jpt/distributions/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/utils.py b/src/jpt/distributions/utils.py
index af41384..6bb0ba0 100644
--- a/src/jpt/distributions/utils.py
+++ b/src/jpt/distributions/utils.py
@@ -204,6 +204,8 @@ class OrderedDictProxy:
     def __eq__(self, other):
         if not isinstance(other, OrderedDictProxy):
             return False
+        if len(self) != len(other):
+            return False
         for self_, other_ in zip(self._dict.items(), other._dict.items()):
             if self_[0] != other_[0] or self_[1] != other_[1]:
                 return False
-- 
2.43.0


From 4cd34830a83e8213340c2e61e3f71b87b15b1c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:29 +0000
Subject: [PATCH 12/27] fix: PiecewiseFunction: a prefix of a function is not
 equal to it

---
 src/jpt/base/functions.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 370a61c..8a24c7b 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -936,6 +936,8 @@ cdef class PiecewiseFunction(Function):
                 'An object of type "PiecewiseFunction" '
                 'is required, but got "%s".' % type(other).__name__
             )
+        if len(self.intervals) != len(other.intervals):
+            return False
         for i1, f1, i2, f2 in zip(self.intervals, self.functions, other.intervals, other.functions):
             if i1 != i2 or f1 != f2:
                 return False
-- 
2.43.0


From 5f3c93e7b89f48381285b4a056d8826506f97bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:29 +0000
Subject: [PATCH 13/27] fix: QuantileDistribution: equal distributions have
 equal hashes

---
 src/jpt/distributions/quantile/quantiles.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index da44c3c..c865be2 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -55,7 +55,6 @@ cdef class QuantileDistribution:
     def __hash__(self):
         return hash((QuantileDistribution,
                      self.epsilon,
-                     self.verbose,
                      self.min_samples_mars,
                      self._cdf))
 
-- 
2.43.0


From 01c7da8334f722caea4aa367e23e33976974c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:45 +0000
Subject: [PATCH 14/27] fix: unsatisfiable evidence is reported in value space:
 formatting labels as values raised KeyError

---
 src/jpt/trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index a981cf2..e9dd861 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1090,7 +1090,7 @@ class JPT:
         if p_e == 0:
             if fail_on_unsatisfiability:
                 raise ValueError(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
             else:
                 return None
@@ -1184,7 +1184,7 @@ class JPT:
         except ValueError:
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Evidence %s is unsatisfiable.' % format_path(evidence),
+                    'Evidence %s is unsatisfiable.' % format_path(evidence_),
                     reasons=inconsistencies
                 )
             return None
@@ -1240,7 +1240,7 @@ class JPT:
 
         if posteriors is None:
             if fail_on_unsatisfiability:
-                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence))
+                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_))
             else:
                 return None
 
@@ -2283,7 +2283,7 @@ class JPT:
             # raise an error if wanted
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
 
             # return None if error is not wanted
-- 
2.43.0


From 0bfe48a97b72ca391e1e3d30a881f7f10ebaa9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:45 +0000
Subject: [PATCH 15/27] fix: label2value: the error message names the unknown
 label

---
 src/jpt/distributions/univariate/integer.py     | 2 +-
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index a6aa223..d1c0eda 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -205,7 +205,7 @@ class Integer(Distribution):
         ):
             raise ValueError(
                 '%s not among the labels of domain %s.' % (
-                    first([l for l in label_ if l not in cls.labels]),
+                    first([l for l in label_ if l not in cls.values]),
                     cls.__qualname__
                 )
             )
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 5830481..cbf3edb 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -86,7 +86,7 @@ class Multinomial(Distribution):
         ):
             raise ValueError(
                 '%s not among the labels of domain %s.' % (
-                    first([l for l in label_ if l not in cls.labels]),
+                    first([l for l in label_ if l not in cls.values]),
                     cls.__qualname__
                 )
             )
-- 
2.43.0


From 840c803d74177284b8f83d03c103b026f9fefaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:45 +0000
Subject: [PATCH 16/27] fix: Numeric.quantile: return a label, not a value

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 79f5fc9..44e3aac 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -171,7 +171,7 @@ class Numeric(Distribution):
         return self.moment(2, self.expectation())
 
     def quantile(self, gamma: numbers.Real) -> numbers.Real:
-        return self.ppf.eval(gamma)
+        return self.value2label(self.ppf.eval(gamma))
 
     def create_dirac_impulse(self, value):
         """Create a dirac impulse at the given value aus quantile distribution."""
-- 
2.43.0


From bd7ea2c4538c353c48276d85e3af8fc7c8fb668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:46 +0000
Subject: [PATCH 17/27] fix: moments of Dirac distributions: transform and
 center the value

---
 src/jpt/distributions/univariate/numeric.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 44e3aac..b50b4ff 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -556,10 +556,7 @@ class Numeric(Distribution):
         # We have to catch the special case in which the
         # PDF is an impulse function
         if self.is_dirac_impulse():
-            if order == 1:
-                return self.pdf.gt(0).min
-            elif order >= 2:
-                return 0
+            return pow(value_transform(self.pdf.gt(0).min) - center, order)
         result = 0
         for interval, function in zip(self.pdf.intervals[1:-1], self.pdf.functions[1:-1]):
             interval_ = value_transform(interval)
-- 
2.43.0


From 745c605378e098415bec686432ea2d75687f568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:46 +0000
Subject: [PATCH 18/27] fix: JPT.pdf: look up symbolic and integer values as
 values

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index e9dd861..779d412 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1005,7 +1005,7 @@ class JPT:
 
         pdf = 0
         for leaf in self.apply(values_sets):
-            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
+            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value) if var.numeric else leaf.distributions[var]._pdf(value)
                                       for var, value in values_scalars.items()) if values_scalars else 1)
         return pdf
 
-- 
2.43.0


From 495e6727934a357bbd4d983cb6e4d44aefe3653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:46 +0000
Subject: [PATCH 19/27] fix: blurred evidence: keep labels, values and
 quantiles apart

---
 src/jpt/trees.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 779d412..c5244ed 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1414,25 +1414,28 @@ class JPT:
                     # Apply a "blur" to single value evidences, if any blur is set
                     elif var.blur:
                         prior = self.priors[var.name]
-                        transformer = var.domain.label2value if space == 'labels' else var.domain.value2label
+                        # The prior is about values, the query may be about labels
+                        to_value = var.domain.label2value if space == 'labels' else lambda v: v
+                        from_value = var.domain.value2label if space == 'labels' else lambda v: v
+                        value = to_value(val)
                         quantile = prior.cdf.functions[
                             max(
                                 1,
                                 min(
                                     len(prior.cdf) - 2,
-                                    prior.cdf.idx_at(transformer(val))
+                                    prior.cdf.idx_at(value)
                                 )
                             )
-                        ].eval(val)
-                        lower = transformer(quantile - var.blur / 2)
-                        upper = transformer(quantile + var.blur / 2)
+                        ].eval(value)
+                        lower = quantile - var.blur / 2
+                        upper = quantile + var.blur / 2
                         query_[var] = ContinuousSet(
-                            transformer(
+                            from_value(
                                 prior.ppf.functions[max(1, min(len(prior.cdf) - 2, prior.ppf.idx_at(lower)))].eval(
                                     lower
                                 )
                             ),
-                            transformer(
+                            from_value(
                                 prior.ppf.functions[min(len(prior.ppf) - 2, max(1, prior.ppf.idx_at(upper)))].eval(
                                     upper
                                 )
-- 
2.43.0


From 9765cac2e9942e0473d84c1204126fae111894e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:46 +0000
Subject: [PATCH 20/27] fix: JPT.moment: centers are labels, as the moments are

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index c5244ed..a2b0121 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2552,9 +2552,9 @@ class JPT:
         posteriors = self.posterior([v for v in self.variables if v.numeric or v.integer], evidence,
                                     fail_on_unsatisfiability)
 
-        # Convert c, if necessary, labels to internal value representations
-        if isinstance(center, LabelAssignment):
-            center = center.value_assignment()
+        # The moments are computed in label space, so convert c, if necessary, to labels
+        if isinstance(center, ValueAssignment):
+            center = center.label_assignment()
 
         if posteriors is None:
             return None
-- 
2.43.0


From 400c0831adeedbfabdadbd449e6116cef26458fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:52 +0000
Subject: [PATCH 21/27] fix: Numeric._p reports the type of the argument it was
 given

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index b50b4ff..beaae94 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -268,7 +268,7 @@ class Numeric(Distribution):
         if not isinstance(value, (NumberSet, numbers.Number)):
             raise TypeError(
                 'Argument must be numbers.Number or '
-                'jpt.base.intervals.NumberSet (got %s).' % type(labels)
+                'jpt.base.intervals.NumberSet (got %s).' % type(value)
             )
         if isinstance(value, numbers.Number):
             value = ContinuousSet(value, value)
-- 
2.43.0


From 1c43d5ff75b384612c555880573e20f471055824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:53 +0000
Subject: [PATCH 22/27] fix: QuadraticFunction.mul raises the TypeError it
 makes

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 8a24c7b..b123c40 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -761,8 +761,8 @@ cdef class QuadraticFunction(Function):
         if isinstance(f, ConstantFunction):
             return QuadraticFunction(self.a * f.value, self.b * f.value, self.c * f.value).simplify()
         else:
-            TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
-                                                                             type(f).__name__))
+            raise TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
+                                                                                   type(f).__name__))
 
     cpdef Function add(self, Function f):
         if isinstance(f, ConstantFunction):
-- 
2.43.0


From b77e04f1c85e9a2acc404fb8f5e5419a982d426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:53 +0000
Subject: [PATCH 23/27] fix: distributions.multivariate imports modules that
 exist

---
 src/jpt/distributions/multivariate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/multivariate.py b/src/jpt/distributions/multivariate.py
index c0eed26..a9b3567 100644
--- a/src/jpt/distributions/multivariate.py
+++ b/src/jpt/distributions/multivariate.py
@@ -13,13 +13,15 @@ from .univariate import Gaussian
 
 try:
     from ..base.intervals import __module__
-    from ..base.quantiles import __module__
+    from ..base.functions import __module__
+    from .quantile.quantiles import __module__
 except ModuleNotFoundError:
     import pyximport
     pyximport.install()
 finally:
     from ..base.intervals import R, ContinuousSet
-    from ..base.quantiles import QuantileDistribution, LinearFunction
+    from ..base.functions import LinearFunction
+    from .quantile.quantiles import QuantileDistribution
 
 
 # ----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From c6d97412df0758d440ad353f19a3d9107d64c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:53 +0000
Subject: [PATCH 24/27] fix: mlflow Schema raises the ValueError it makes

---
 src/jpt/mlflow_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/mlflow_wrapper.py b/src/jpt/mlflow_wrapper.py
index 876c41d..2eb614f 100644
--- a/src/jpt/mlflow_wrapper.py
+++ b/src/jpt/mlflow_wrapper.py
@@ -56,7 +56,7 @@ class Schema(mlflow.types.Schema):
             elif variable.integer:
                 type_ = "int"
             else:
-                ValueError(f"mlflow interface does not support variable of type {type(variable)} yet.")
+                raise ValueError(f"mlflow interface does not support variable of type {type(variable)} yet.")
 
             spec = mlflow.types.ColSpec(type_, variable.name)
             inputs.append(spec)
-- 
2.43.0


From fc8b889cf50fdbe42d674ea8d1decef106726a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:19 +0000
Subject: [PATCH 25/27] fix: refitting a sequence model drops the leaves of the
 earlier fit

SequentialJPT.fit() added the new leaves to those that an earlier fit had left in the template tree.
---
 src/jpt/sequential_trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index 4530971..4f70e37 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -85,6 +85,7 @@ class SequentialJPT:
         # create template tree from learnt joint tree
         self.template_tree.root = expanded_template_tree.root
         self.template_tree.innernodes = expanded_template_tree.innernodes
+        self.template_tree.leaves = {}
         for idx, leaf in expanded_template_tree.leaves.items():
             leaf.distributions = VariableMap([(v, d) for v, d in leaf.distributions.items()
                                              if v.name in self.template_tree.varnames.keys()])
-- 
2.43.0


From 1aca95e3e72a6c201f74b4af1159cdb3ef9deffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:19 +0000
Subject: [PATCH 26/27] fix: refitting a CDFRegressor drops the support points
 of the earlier fit

The deques kept the indices of the earlier data, which index the new data out of bounds.
---
 src/jpt/distributions/quantile/cdfreg.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jpt/distributions/quantile/cdfreg.pyx b/src/jpt/distributions/quantile/cdfreg.pyx
index b461e30..a26998c 100644
--- a/src/jpt/distributions/quantile/cdfreg.pyx
+++ b/src/jpt/distributions/quantile/cdfreg.pyx
@@ -29,6 +29,11 @@ cdef class CDFRegressor:
         self.data = data
         cdef SIZE_t n_samples = self.data.shape[1]
 
+        self.points.clear()
+        self._queue.clear()
+        while self._points.size():
+            self._points.pop()
+
         self._points.push(0)
         cdef (SIZE_t, SIZE_t, DTYPE_t, SIZE_t) args
 
-- 
2.43.0


From 742a2677ce21d9aa63dbe45ea56462ba8aafaf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:02 +0000
Subject: [PATCH 27/27] fix: hash piecewise functions by their segments, not by
 the address of a generator

PiecewiseFunction.__hash__ hashed a generator object: equal functions (and quantile distributions) had different hashes, and the hash of one
function changed over time. QuadraticFunction, which can be a segment, gets the hash that goes with its equality.
---
 src/jpt/base/functions.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index b123c40..65c8d99 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -751,6 +751,9 @@ cdef class QuadraticFunction(Function):
     def __eq__(self, other):
         return isinstance(other, QuadraticFunction) and (self.a, self.b, self.c) == (other.a, other.b, other.c)
 
+    def __hash__(self):
+        return hash((QuadraticFunction, self.a, self.b, self.c))
+
     cpdef Function set(self, Function f):
         self.a = f.a
         self.b = f.b
@@ -920,7 +923,7 @@ cdef class PiecewiseFunction(Function):
         self.intervals: List[ContinuousSet] = []
 
     def __hash__(self):
-        return hash((PiecewiseFunction, ((i, f) for i, f in self.iter())))
+        return hash((PiecewiseFunction, tuple(self.iter())))
 
     def append(self, interval: ContinuousSet, f: Function) -> None:
         self.intervals.append(interval)
-- 
2.43.0

