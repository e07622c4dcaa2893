From 43118a243c970a8097f2f23e7aab1c36d80d9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 01/84] fix: WeightedSamples.var(list, where) ignored the
 sample filter

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1a8507c..d06c9a9 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -677,7 +677,7 @@ class WeightedSamples:
         :return: parameter variance
         """
         if isinstance(paramVec, (list, tuple)):
-            return np.array([self.var(p) for p in paramVec])
+            return np.array([self.var(p, where) for p in paramVec])
         if where is not None:
             return np.dot(self.mean_diff(paramVec, where) ** 2, self.weights[where]) / self.get_norm(where)
         else:
-- 
2.43.0


From 150cc4817de679a3687e7591debff477fdbdd05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:28 +0000
Subject: [PATCH 02/84] fix: ignore_rows of plain Chains and WeightedSamples
 failed for arrays and fractions

---
 python/getdist/chains.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index d06c9a9..bc91f85 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -228,20 +228,24 @@ class WeightedSamples:
 
         self.precision = '%.8e'
         self.min_weight_ratio = min_weight_ratio
+        # whole rows are skipped on input, a fraction of the rows is removed after loading
+        skip_rows = int(ignore_rows)
         if filename:
-            cols = loadNumpyTxt(filename, skiprows=ignore_rows)
+            cols = loadNumpyTxt(filename, skiprows=skip_rows)
             if not len(cols):
                 raise WeightedSampleError('Empty chain: %s' % filename)
             self.setColData(cols, are_chains=files_are_chains)
             self.name_tag = name_tag or os.path.basename(filename)
         else:
-            self.setSamples(slice_or_none(samples, ignore_rows),
-                            slice_or_none(weights, ignore_rows),
-                            slice_or_none(loglikes, ignore_rows))
+            self.setSamples(slice_or_none(samples, skip_rows),
+                            slice_or_none(weights, skip_rows),
+                            slice_or_none(loglikes, skip_rows))
             self.name_tag = name_tag
-            if samples is not None and int(ignore_rows):
+            if samples is not None and skip_rows:
                 if print_load_details:
-                    print('Removed %s lines as burn in' % ignore_rows)
+                    print('Removed %s lines as burn in' % skip_rows)
+        if 0 < ignore_rows < 1 and self.samples is not None:
+            self.removeBurn(ignore_rows)
         self.label = label
         self.needs_update = True
 
@@ -1374,9 +1378,12 @@ class Chains(WeightedSamples):
             dim = array_dimension(files_or_samples)
             if dim in [1, 2]:
                 self.chains = None
-                self.setSamples(slice_or_none(files_or_samples, ignore_lines),
-                                slice_or_none(weights, ignore_lines),
-                                slice_or_none(loglikes, ignore_lines), self.min_weight_ratio)
+                skip_rows = int(ignore_lines)
+                self.setSamples(slice_or_none(files_or_samples, skip_rows),
+                                slice_or_none(weights, skip_rows),
+                                slice_or_none(loglikes, skip_rows), self.min_weight_ratio)
+                if 0 < ignore_lines < 1:
+                    self.removeBurn(ignore_lines)
                 if self.paramNames is None:
                     self.paramNames = ParamNames(default=self.n)
                 nchains = 1
-- 
2.43.0


From 183577d374e004e5518847908d4103627354906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:15 +0000
Subject: [PATCH 03/84] fix: getSeparateChains failed for combined chains
 without likelihoods

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index bc91f85..f2b929b 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1475,7 +1475,7 @@ class Chains(WeightedSamples):
         else:
             for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
                 chainlist.append(WeightedSamples(samples=self.samples[off1:off2], weights=self.weights[off1:off2],
-                                                 loglikes=self.loglikes[off1:off2]))
+                                                 loglikes=slice_or_none(self.loglikes, off1, off2)))
         return chainlist
 
     def removeBurnFraction(self, ignore_frac):
-- 
2.43.0


From 52968475a72c48cb733c86d7a9cd6b3fffd3bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:15 +0000
Subject: [PATCH 04/84] fix: filtering combined chains by a list of row indices
 lost the chain boundaries

---
 python/getdist/chains.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index f2b929b..3d10fcc 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1145,8 +1145,12 @@ class Chains(WeightedSamples):
             if self.chain_offsets is not None:
                 # must update chain_offsets to be able to correctly split back into separate filtered chains if needed
                 lens = [0]
+                mask = np.asarray(where)
                 for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
-                    lens.append(np.count_nonzero(where[off1:off2]))
+                    if mask.dtype == bool:
+                        lens.append(np.count_nonzero(mask[off1:off2]))
+                    else:
+                        lens.append(np.count_nonzero((mask >= off1) & (mask < off2)))
                 self.chain_offsets = np.cumsum(np.array(lens))
             super().filter(where)
         else:
-- 
2.43.0


From 9bbcfde440fab1d95e46bbbd192b9b62b7d9c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:15 +0000
Subject: [PATCH 05/84] fix: removing burn in from combined chains left the
 chain boundaries unchanged

---
 python/getdist/chains.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 3d10fcc..a12ec84 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1019,16 +1019,19 @@ class WeightedSamples:
         self.changeSamples(np.delete(self.samples, fixed, 1))
         return fixed, values
 
+    def _burnRows(self, remove):
+        if remove >= 1:
+            return int(remove)
+        else:
+            return int(round(self.numrows * remove))
+
     def removeBurn(self, remove=0.3):
         """
         removes burn in from the start of the samples
 
         :param remove: fraction of samples to remove, or if int >1, the number of sample rows to remove
         """
-        if remove >= 1:
-            ix = int(remove)
-        else:
-            ix = int(round(self.numrows * remove))
+        ix = self._burnRows(remove)
         if self.weights is not None:
             self.weights = self.weights[ix:]
         if self.loglikes is not None:
@@ -1482,6 +1485,16 @@ class Chains(WeightedSamples):
                                                  loglikes=slice_or_none(self.loglikes, off1, off2)))
         return chainlist
 
+    def removeBurn(self, remove=0.3):
+        """
+        removes burn in from the start of the (combined) samples
+
+        :param remove: fraction of samples to remove, or if int >1, the number of sample rows to remove
+        """
+        if self.chain_offsets is not None:
+            self.chain_offsets = np.maximum(self.chain_offsets - self._burnRows(remove), 0)
+        super().removeBurn(remove)
+
     def removeBurnFraction(self, ignore_frac):
         """
         Remove a fraction of the samples as burn in
-- 
2.43.0


From 8a44967cd23c706248671f9f69f2fcd8060c936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:15 +0000
Subject: [PATCH 06/84] fix: thinning combined chains left the chain boundaries
 unchanged

---
 python/getdist/chains.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index a12ec84..407d976 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1159,6 +1159,16 @@ class Chains(WeightedSamples):
         else:
             raise ValueError('chains are separated, makeSingle first or call filter on individual chains')
 
+    def thin(self, factor: int):
+        """
+        Thin the samples by the given factor, giving set of samples with unit weight
+
+        :param factor: The factor to thin by
+        """
+        if self.chain_offsets is not None:
+            self.chain_offsets = np.searchsorted(self.thin_indices(factor), self.chain_offsets)
+        super().thin(factor)
+
     def weighted_thin(self, factor: int):
         """
         Thin the samples by the given factor, giving (in general) non-unit integer weights.
-- 
2.43.0


From 35c004c58755c6c0d67dfe8fd4e65de31ff276a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:15 +0000
Subject: [PATCH 07/84] fix: a parameter constant in the first chain only was
 deleted as fixed from all chains

---
 python/getdist/chains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 407d976..a469701 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1528,8 +1528,9 @@ class Chains(WeightedSamples):
             fixed, values = super().deleteFixedParams()
             self.chains = None
         else:
-            fixed, values = self.chains[0].deleteFixedParams()
-            for chain in self.chains[1:]:
+            all_samples = np.vstack([chain.samples for chain in self.chains])
+            fixed, values = WeightedSamples(samples=all_samples).deleteFixedParams()
+            for chain in self.chains:
                 chain.changeSamples(np.delete(chain.samples, fixed, 1))
         if hasattr(self, 'ranges'):
             for ix, value in zip(fixed, values):
-- 
2.43.0


From 0a151040dc7ecb4be6a93872c15bf287b72ff880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:11 +0000
Subject: [PATCH 08/84] fix: marginalized and likelihood statistics and
 covariance were stale after the samples changed

---
 python/getdist/mcsamples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 78da13a..355388e 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -579,7 +579,7 @@ class MCSamples(Chains):
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
         nparamNonDerived = self.paramNames.numNonDerived()
-        return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
+        return covmat.CovMat(matrix=self.getCov(nparamNonDerived),
                              paramNames=self.paramNames.list()[:nparamNonDerived])
 
     def writeCovMatrix(self, filename=None):
@@ -2114,6 +2114,8 @@ class MCSamples(Chains):
         :param include_bestfit: if True, set best fit values by loading from root_name.minimum file (assuming it exists)
         :return: A :class:`~.types.MargeStats` instance
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         self._setDensitiesandMarge1D()
         m = types.MargeStats()
         m.hasBestFit = False
@@ -2131,6 +2133,8 @@ class MCSamples(Chains):
                  result.names[i].ND_limit_top, result.names[i].ND_limit_bot, and best-fit sample value
                  in result.names[i].bestfit_sample
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         return self.likeStats or self._setLikeStats()
 
     def getTable(self, columns=1, include_bestfit=False, **kwargs):
-- 
2.43.0


From ea627099d3fce073f94d7020023d2c9631629c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:14 +0000
Subject: [PATCH 09/84] fix: best-sample parameter dictionary ignored
 want_derived and want_fixed

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 355388e..4ef5613 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2349,7 +2349,7 @@ class MCSamples(Chains):
         if best_sample:
             if not max_posterior:
                 raise ValueError('best_fit_sample is only maximum posterior')
-            return self.getParamSampleDict(np.argmin(self.loglikes))
+            return self.getParamSampleDict(np.argmin(self.loglikes), want_derived=want_derived, want_fixed=want_fixed)
         else:
             res = self.getBestFit(max_posterior=max_posterior).getParamDict(include_derived=want_derived)
         if want_fixed:
-- 
2.43.0


From b0cc80896b86226743c747e57a28a56e02808104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:14 +0000
Subject: [PATCH 10/84] fix: a refused duplicate derived parameter still
 changed the range of the existing one

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 4ef5613..9849502 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2326,9 +2326,10 @@ class MCSamples(Chains):
         :return: The added parameter's :class:`~.paramnames.ParamInfo` object
         """
 
+        par = super().addDerived(paramVec, name, label=label, comment=comment)
         if range is not None:
             self.ranges.setRange(name, range)
-        return super().addDerived(paramVec, name, label=label, comment=comment)
+        return par
 
     def getParamBestFitDict(self, best_sample=False, want_derived=True, want_fixed=True, max_posterior=True):
         """
-- 
2.43.0


From 80d9e92c1a1b5ca122ef481da98d6f2ec5236778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:14 +0000
Subject: [PATCH 11/84] fix: combining samples failed for parameter names
 containing dots

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 9849502..57b5344 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2395,9 +2395,7 @@ class MCSamples(Chains):
         else:
             fac = np.sum(self.weights) / np.sum(samps2.weights)
         weights = np.concatenate([self.weights * sample_weights[0], samps2.weights * sample_weights[1] * fac])
-        p1 = self.getParams()
-        p2 = samps2.getParams()
-        samples = np.array([np.concatenate([getattr(p1, name), getattr(p2, name)]) for name in params.list()]).T
+        samples = np.array([np.concatenate([self[name], samps2[name]]) for name in params.list()]).T
         samps = MCSamples(samples=samples, weights=weights, loglikes=loglikes, paramNamesFile=params, ignore_rows=0,
                           ranges=self.ranges, settings=copy.deepcopy(self.ini.params))
         return samps
-- 
2.43.0


From ff58f890c8513c927cf59a47c712ee903b0791c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:14 +0000
Subject: [PATCH 12/84] fix: setting a parameter range to unbounded kept the
 previous bound

---
 python/getdist/parampriors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/getdist/parampriors.py b/python/getdist/parampriors.py
index bfcf959..816ee48 100644
--- a/python/getdist/parampriors.py
+++ b/python/getdist/parampriors.py
@@ -77,8 +77,12 @@ class ParamBounds:
         self._check_name(name)
         if strings[0] != 'N' and strings[0] is not None and strings[0] != -np.inf:
             self.lower[name] = float(strings[0])
+        else:
+            self.lower.pop(name, None)
         if strings[1] != 'N' and strings[1] is not None and strings[1] != np.inf:
             self.upper[name] = float(strings[1])
+        else:
+            self.upper.pop(name, None)
         if name not in self.names:
             self.names.append(name)
 
-- 
2.43.0


From f0d413e919e295d3ffac806b9fe78cfbd7222ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:14 +0000
Subject: [PATCH 13/84] fix: ParamInfo.nameEquals compared the name with itself

---
 python/getdist/paramnames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index b25ba5e..730b384 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -90,9 +90,9 @@ class ParamInfo:
 
     def nameEquals(self, name):
         if isinstance(name, ParamInfo):
-            return name.name == name
+            return name.name == self.name
         else:
-            return name == name
+            return name == self.name
 
     def setFromString(self, line):
         items = line.split(None, 1)
-- 
2.43.0


From 51284f3c6eefe2ebffdddc192624f1c34989fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:48 +0000
Subject: [PATCH 14/84] fix: parameter limits were stale or missing after
 changing ranges or adding parameters

---
 python/getdist/mcsamples.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 57b5344..b46c90a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2058,6 +2058,8 @@ class MCSamples(Chains):
 
         :return: a :class:`~.parampriors.ParamBounds` instance
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
         for par in self.paramNames.names:
@@ -2074,6 +2076,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The upper limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmax', None)
@@ -2086,6 +2090,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The lower limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmin', None)
-- 
2.43.0


From f15bae19da2ef4c4fe6b7a48f13c6020c7158a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:52 +0000
Subject: [PATCH 15/84] fix: loading an ini file with INCLUDE or DEFAULT made
 saveFile overwrite the included file

---
 python/getdist/inifile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7d38a7e..ba4c082 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -117,6 +117,7 @@ class IniFile:
                         self.readFile(ffile, if_not_defined=True)
                     else:
                         self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=True)
+                self.original_filename = filename
 
             return self.params
         except:
-- 
2.43.0


From b564e8b37144eb58d72ecfb051de3333d5813f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:53 +0000
Subject: [PATCH 16/84] fix: merging renames lost groups whose members are all
 keys of one dictionary

---
 python/getdist/paramnames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index 730b384..d816044 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -58,7 +58,7 @@ def mergeRenames(*dicts, **kwargs):
     for params in out:
         for dic in dicts:
             p = set(dic).intersection(params)
-            if p and (params != p or keep_names_1st):
+            if p and (len(params) > 1 or keep_names_1st):
                 key = p.pop()
                 params.remove(key)
                 merged[key] = list(params)
-- 
2.43.0


From 617f8a79ce968401dfece1cbc75cc007a57a36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:53 +0000
Subject: [PATCH 17/84] fix: parameter renames given as tuples raised TypeError

---
 python/getdist/paramnames.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index d816044..9a20c90 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -38,7 +38,7 @@ def mergeRenames(*dicts, **kwargs):
     keep_names_1st = kwargs.pop("keep_names_1st", False)
     if kwargs:
         raise ValueError("kwargs not recognized: %r" % kwargs)
-    sets = list(chain(*[[set([k] + (makeList(v or [])))
+    sets = list(chain(*[[set([k] + list(makeList(v or [])))
                          for k, v in dic.items()] for dic in dicts]))
     # If two sets have elements in common, join them.
     something_changed = True
@@ -84,7 +84,7 @@ class ParamInfo:
         self.comment = comment
         self.filenameLoadedFrom = ''
         self.number = number
-        self.renames = makeList(renames or [])
+        self.renames = list(makeList(renames or []))
         if line is not None:
             self.setFromString(line)
 
@@ -236,8 +236,8 @@ class ParamList:
         if renames:
             given_names.update(makeList(renames.get(name, [])))
         for par in self.names:
-            known_names = set([par.name] + makeList(getattr(par, 'renames', [])) +
-                              (makeList(renames.get(par.name, [])) if renames else []))
+            known_names = set([par.name] + list(makeList(getattr(par, 'renames', []))) +
+                              (list(makeList(renames.get(par.name, []))) if renames else []))
             if known_names.intersection(given_names):
                 return par
         if error:
-- 
2.43.0


From e8322bc4f125ddd606a2e04eb1d8290b317d37f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:17 +0000
Subject: [PATCH 18/84] fix: parameter lists with wildcards were truncated to
 the number of patterns

---
 python/getdist/plots.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 60b0ec0..8fdd444 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1795,10 +1795,11 @@ class GetDistPlotter(_BaseObject):
                 renames = mergeRenames(renames, renames_from_param_info)
             else:
                 renames = renames_from_param_info
-            params_names = [getattr(param, "name", param) for param in params]
-            old = [(old if isinstance(old, ParamInfo) else ParamInfo(old)) for old in params]
-            return [new or old for new, old in zip(names.parsWithNames(params_names,
-                                                                       error=error, renames=renames), old)]
+            res = []
+            for param, err in zip(params, error):
+                name = getattr(param, "name", param)
+                res += [new or param for new in names.parsWithNames([name], error=err, renames=renames)]
+            return res
 
     def _check_param(self, root, param, renames=None):
         """
-- 
2.43.0


From eecd4c90f7395d410613d1a3b895848afc54fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:32 +0000
Subject: [PATCH 19/84] fix: covariance of non-derived parameters was wrong
 with derived parameters in between, and shared with the samples

---
 python/getdist/mcsamples.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index b46c90a..6d1c691 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -578,9 +578,8 @@ class MCSamples(Chains):
 
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
-        nparamNonDerived = self.paramNames.numNonDerived()
-        return covmat.CovMat(matrix=self.getCov(nparamNonDerived),
-                             paramNames=self.paramNames.list()[:nparamNonDerived])
+        pars = [i for i, par in enumerate(self.paramNames.names) if not par.isDerived]
+        return covmat.CovMat(matrix=self.getCov(pars=pars), paramNames=self.paramNames.getRunningNames())
 
     def writeCovMatrix(self, filename=None):
         """
-- 
2.43.0


From ff5f2d91442c72809ca9ff064db1c6bcc3603852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:32 +0000
Subject: [PATCH 20/84] fix: loading the covariance matrix of one parameter
 gave a scalar

---
 python/getdist/covmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index d4a4e99..926a3cd 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -36,7 +36,7 @@ class CovMat:
             else:
                 raise Exception('.covmat must now have parameter names header')
             # noinspection PyTypeChecker
-            self.matrix = np.loadtxt(f)
+            self.matrix = np.loadtxt(f, ndmin=2)
 
     def saveToFile(self, filename):
         """
-- 
2.43.0


From 1614f2618771469e5e781cc4a6c8898967642575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:32 +0000
Subject: [PATCH 21/84] fix: correlation matrix of merged covariances was not
 normalized

---
 python/getdist/covmat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index 926a3cd..ca263c8 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -75,6 +75,7 @@ class CovMat:
         l1 = len(params1)
         l2 = len(params2)
         length = len(C.paramNames)
+        C.size = length
 
         map1 = dict(list(zip(params1, list(range(0, l1)))))
         map2 = dict(list(zip(params2, list(range(0, l2)))))
-- 
2.43.0


From 2c324c52113cb440e9a1d1e41a41ff824f2ae0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:32 +0000
Subject: [PATCH 22/84] fix: Density2D.Prob returned nothing

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 3dd213a..deff9cd 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -287,7 +287,7 @@ class Density2D(GridDensity):
         :param y: y value or array
         :param grid: whether to make a grid, see :class:`~scipy:scipy.interpolate.RectBivariateSpline`. Default False.
         """
-        self.__call__(x, y, grid=grid)
+        return self.__call__(x, y, grid=grid)
 
     def __call__(self, *args, **kwargs):
         if self.spl is None:
-- 
2.43.0


From df47e51b02f010c1458f28c4ff11e1ddad888a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:32 +0000
Subject: [PATCH 23/84] fix: integral of DensityND used the wrong dimension and
 ignored the grid spacing

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index deff9cd..1544dfa 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -330,7 +330,7 @@ class DensityND(GridDensity):
 
     def integrate(self, P):
 
-        ndim = len(P)
+        ndim = P.ndim
 
         multinorm = np.zeros(ndim + 1)
 
@@ -357,7 +357,7 @@ class DensityND(GridDensity):
 
             norm += multinorm[i] / 2 ** i
 
-        return norm
+        return norm * self.spacing
 
     def norm_integral(self):
         return self.integrate(self.P)
-- 
2.43.0


From f5f94401dc0ebc4181410870e5f43d46cc3c57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:32 +0000
Subject: [PATCH 24/84] fix: equal-density limits interpolated towards the
 wrong neighbouring density

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 1544dfa..4fe430f 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -223,7 +223,7 @@ class Density1D(GridDensity):
             if ix > 0:
                 d = g.cumsum[ix] - g.cumsum[ix - 1]
                 frac = (g.cumsum[ix] - target) / d
-                trial = (1 - frac) * trial + frac * g.sortgrid[ix + 1]
+                trial = (1 - frac) * trial + frac * g.sortgrid[ix - 1]
 
             finespace = self.spacing / g.factor
             lim_bot = (g.grid[0] >= trial)
-- 
2.43.0


From 9ba202b596a7d9bb4a0436005f662a76d52980c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:32 +0000
Subject: [PATCH 25/84] fix: contour levels at edge bins used the half-weighted
 bin instead of the density

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 4fe430f..5b3299e 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -43,8 +43,8 @@ def getContourLevels(inbins, contours=defaultContours, missing_norm=0, half_edge
     targets = (1 - np.array(contours)) * norm - missing_norm
     bins = abins.reshape(-1)
     indexes = inbins.reshape(-1).argsort()
-    sortgrid = bins[indexes]
-    cumsum = np.cumsum(sortgrid)
+    sortgrid = inbins.reshape(-1)[indexes]
+    cumsum = np.cumsum(bins[indexes])
     ixs = np.searchsorted(cumsum, targets)
     for i, ix in enumerate(ixs):
         if ix == 0:
-- 
2.43.0


From a9eaca67b5d75dc1ffff5f8443239bf101ec3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:45 +0000
Subject: [PATCH 26/84] fix: equal-density limits of a list of fractions only
 returned the first

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 5b3299e..7f76a26 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -241,7 +241,7 @@ class Density1D(GridDensity):
                 i = g.bign - np.argmax(g.grid[::-1] > trial) - 1
                 d = (g.grid[i] - trial) / (g.grid[i] - g.grid[i + 1])
                 mx = self.x[0] + (i + d) * finespace
-            if parr is not p:
+            if np.ndim(p) == 0:
                 return mn, mx, lim_bot, lim_top
             results.append((mn, mx, lim_bot, lim_top))
         return results
-- 
2.43.0


From 4c6c1646148ca192402cf38fdd365333fac5a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:19 +0000
Subject: [PATCH 27/84] fix: saving samples to a file name ending in .txt wrote
 name..txt and misnamed metadata

---
 python/getdist/chains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index a469701..6128059 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1054,7 +1054,7 @@ class WeightedSamples:
         if make_dirs and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
-            root = root[:-3]
+            root = root[:-4]
         # noinspection PyTypeChecker
         np.savetxt(root + ('' if chain_index is None else '_' + str(chain_index + 1)) + '.txt',
                    np.hstack((self.weights.reshape(-1, 1), loglikes.reshape(-1, 1), self.samples)),
@@ -1549,7 +1549,7 @@ class Chains(WeightedSamples):
         """
         super().saveAsText(root, chain_index, make_dirs)
         if not chain_index:
-            self.saveTextMetadata(root)
+            self.saveTextMetadata(root[:-4] if root.endswith('.txt') else root)
 
     def saveTextMetadata(self, root):
         """
-- 
2.43.0


From 611f5beefd08334af4491d84274564551a342967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:19 +0000
Subject: [PATCH 28/84] fix: sampler type was lost when samples were saved to
 text files

---
 python/getdist/mcsamples.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 6d1c691..b72c3b3 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2415,7 +2415,7 @@ class MCSamples(Chains):
         super().saveTextMetadata(root)
         self.ranges.saveToFile(root + '.ranges')
         ini_name = root + '.properties.ini'
-        if properties or self.properties and self.properties.params or self.label:
+        if properties or self.properties and self.properties.params or self.label or self.sampler != 'mcmc':
             if os.path.exists(ini_name):
                 ini = IniFile(ini_name)
             else:
@@ -2424,6 +2424,8 @@ class MCSamples(Chains):
                 ini.params.update(self.properties.params)
             if self.label:
                 ini.params.update({'label': self.label})
+            if self.sampler != 'mcmc':
+                ini.params['sampler'] = self.sampler
             ini.params.update(properties or {})
             ini.saveFile(ini_name)
         elif os.path.exists(ini_name):
-- 
2.43.0


From 78f6f551aa43172b73ad151925a300b282fc3572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:19 +0000
Subject: [PATCH 29/84] fix: order of loaded chains depended on the order of
 the directory listing

---
 python/getdist/chains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 6128059..62eb5d1 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -105,8 +105,8 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
             if (chain_indices is None or index in chain_indices) \
                     and (chain_exclude is None or index not in chain_exclude) \
                     and index >= first_chain and (last_chain < 0 or index <= last_chain):
-                files.append(os.path.join(folder, f))
-    return files
+                files.append((index, os.path.join(folder, f)))
+    return [f for _, f in sorted(files)]
 
 
 def hasChainFiles(file_root, ext='.txt'):
-- 
2.43.0


From 4d607cbd42cf1701a05c4cd37c5c5eadf5738cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:19 +0000
Subject: [PATCH 30/84] fix: chains in the current directory could not be found
 by root name

---
 python/getdist/chains.py    | 2 +-
 python/getdist/mcsamples.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 62eb5d1..9f583c1 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -98,7 +98,7 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
         basename = os.path.basename(root)
         reg_exp = re.compile(re.escape(basename) + '(' + re.escape(separator) + '(?P<num>[0-9]+))?' + re.escape(ext))
     files = []
-    for f in os.listdir(folder):
+    for f in os.listdir(folder or '.'):
         match = reg_exp.fullmatch(f)
         if match:
             index = int(match.group("num") or 0)
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index b72c3b3..c246b0c 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -70,7 +70,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         path = cache_dir
     else:
         cache_name = name
-    if not os.path.exists(path):
+    if path and not os.path.exists(path):
         os.mkdir(path)
     cachefile = os.path.join(path, cache_name) + '.py_mcsamples'
     samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
-- 
2.43.0


From 6b235acd9ecbab276f49d3dc7d002dac304d1494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:36 +0000
Subject: [PATCH 31/84] fix: saving with make_dirs failed for a root in the
 current directory

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 9f583c1..e077f2f 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1051,7 +1051,7 @@ class WeightedSamples:
             loglikes = self.loglikes
         else:
             loglikes = np.zeros(self.numrows)
-        if make_dirs and not os.path.exists(os.path.dirname(root)):
+        if make_dirs and os.path.dirname(root) and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
             root = root[:-4]
-- 
2.43.0


From 6b7d0a0b07085466209844436acf675e76deeba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 32/84] fix: searching for a chain root with leading
 directories failed where the directories do not exist

---
 python/getdist/chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index e077f2f..0a761f5 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -110,6 +110,8 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
 
 
 def hasChainFiles(file_root, ext='.txt'):
+    if not os.path.isdir(os.path.dirname(file_root) or '.'):
+        return False
     return any(chainFiles(file_root, ext=ext, separator=sep, last_chain=1) for sep in ['_', '.'])
 
 
-- 
2.43.0


From e2c02e52645e5b2950bf4c02b7b2b582f082bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 33/84] fix: jobGroup ignored its name, parameters and
 importance runs when data sets were given

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index d36129f..b312af7 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -181,10 +181,10 @@ class jobGroup(object):
             params = [[]]
         if datasets is None:
             datasets = []
-            self.params = params
-            self.groupName = name
-            self.importanceRuns = importanceRuns
-            self.datasets = datasets
+        self.params = params
+        self.groupName = name
+        self.importanceRuns = importanceRuns
+        self.datasets = datasets
         self.extra_options = {}
 
 
-- 
2.43.0


From baa177a8989822c4122cd03b154b4a0c3adadd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 34/84] fix: chain names of a given number of chains were
 numbered from zero

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index b312af7..8fb2f76 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -336,7 +336,7 @@ class jobItem(propertiesItem):
 
     def chainNames(self, num_chains=None):
         if num_chains:
-            return [self.chainName(i) for i in range(num_chains)]
+            return [self.chainName(i + 1) for i in range(num_chains)]
         else:
             i = 1
             chains = []
-- 
2.43.0


From 029c83e0ee46badb63e33d400fce0aa3a80b13ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 35/84] fix: importance sampling jobs lost the base tag of
 their parent

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 8fb2f76..e12d616 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -258,7 +258,7 @@ class jobItem(propertiesItem):
                 print('importance job duplicating parent data set: %s with %s' % (self.name, impRun.names))
                 continue
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
-            job = jobItem(self.batchPath, self.param_set, data, minimize=impRun.want_minimize)
+            job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
             job.importanceSettings = impRun.inis
             if not '_post_' in self.name:
-- 
2.43.0


From 44dfd844804b5af765b169f2b13168906a6a9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 36/84] fix: adding to a data set modified the lists and
 settings it was made from

---
 python/paramgrid/batchjob.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index e12d616..ee6c400 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -88,10 +88,12 @@ class dataSet(object):
         if not dist_settings:
             dist_settings = {}
         if isinstance(names, six.string_types): names = [names]
+        names = list(names)
         if params is None:
             params = [(name + '.ini') for name in names]
         else:
             params = self.standardizeParams(params)
+        dist_settings = dict(dist_settings)
         if covmat is not None: self.covmat = covmat
         self.names = names
         self.params = params  # can be an array of items, either ini file name or dictionaries of parameters
@@ -133,6 +135,7 @@ class dataSet(object):
 
     def standardizeParams(self, params):
         if isinstance(params, dict) or isinstance(params, six.string_types): params = [params]
+        params = list(params)
         for i in range(len(params)):
             if isinstance(params[i], six.string_types) and not '.ini' in params[i]: params[i] += '.ini'
         return params
-- 
2.43.0


From 457ea947e196d8011894f76678a63b25e15cf43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 37/84] fix: deleting a job from the job index dropped or
 failed on entries of newer jobs of the same name

---
 python/paramgrid/jobqueue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 6d316be..bee7808 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -151,9 +151,9 @@ class jobIndex(object):
             j = self.jobSettings.get(jobId)
             if j is not None:
                 for rootname in j.names:
-                    del (self.rootNames[rootname])
+                    if self.rootNames.get(rootname) == jobId: del (self.rootNames[rootname])
                 del (self.jobSettings[jobId])
-                del (self.jobNames[j.jobName])
+                if self.jobNames.get(j.jobName) == jobId: del (self.jobNames[j.jobName])
                 self.jobSequence = [s for s in self.jobSequence if s != jobId]
 
 
-- 
2.43.0


From 3bd04c8f6c8c18cf86961bb5ef59ecf64626add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 38/84] fix: job index was lost if interrupted while saving

---
 python/paramgrid/jobqueue.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index bee7808..307f9f5 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -174,8 +174,7 @@ def saveJobIndex(obj, batchPath=None):
     with open(fname + '_tmp', 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
     # try to prevent corruption from error mid-write
-    if os.path.exists(fname): os.remove(fname)
-    shutil.move(fname + '_tmp', fname)
+    os.replace(fname + '_tmp', fname)
 
 
 def addJobIndex(batchPath, j):
-- 
2.43.0


From 7f37026a2c1bb67abc766d62cc81cf417f113288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 39/84] fix: environment variable named by ext_env was not used

---
 python/paramgrid/jobqueue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 307f9f5..25c9fb6 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -54,7 +54,7 @@ def getDefaulted(key_name, default=None, tp=str, template=None, ext_env=None, **
     if val is None and template is not None:
         val = extractValue(template, 'DEFAULT_' + key_name)
     if val is None: val = os.environ.get('COSMOMC_' + key_name, None)
-    if val is None and ext_env: val = os.environ.get('ext_env', None)
+    if val is None and ext_env: val = os.environ.get(ext_env, None)
     if val is None: val = default
     if val is None: return None
     return tp(val)
-- 
2.43.0


From 3f970b4dd7a6fbb481aac698ab17a4afe490cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 40/84] fix: output of the queue commands was not decoded, so
 job ids and queue lists were wrong

---
 python/paramgrid/jobqueue.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 25c9fb6..d2fc669 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -306,7 +306,7 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
         if len(paramFiles) > 1:
             open(scriptRoot + '.batch', 'w').write("\n".join(paramFiles))
         if not kwargs.get('no_sub', False):
-            res = str(subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True)).strip()
+            res = subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True).decode().strip()
             if not res:
                 print('No qsub output')
             else:
@@ -329,11 +329,11 @@ def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=Tr
         print('No existing job index found')
         return []
     if spawn.find_executable("showq") is not None:
-        res = str(subprocess.check_output('showq -U $USER', shell=True)).strip()
+        res = subprocess.check_output('showq -U $USER', shell=True).decode().strip()
         runningTxt = ' Running '
     else:
         # e.g. Sun Grid Engine/OGS
-        res = str(subprocess.check_output('qstat -u $USER', shell=True)).strip()
+        res = subprocess.check_output('qstat -u $USER', shell=True).decode().strip()
         runningTxt = ' r '
     res = res.split("\n")
     names = []
-- 
2.43.0


From 54fd4ede1e6119c34c8979f5038874329d7d24e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 41/84] fix: deleting an id range of jobs also deleted all
 other jobs of the grid

---
 python/deleteJobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index 4629ade..e83d3fd 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -20,7 +20,7 @@ Opts.parser.add_argument('--confirm', action='store_true')
 if batch:
     if args.delete_id_range is not None:
         jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm)
-    if args.delete_id_min is not None:
+    elif args.delete_id_min is not None:
         jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
     elif args.delete_ids is not None:
         jobqueue.deleteJobs(args.batchPath, args.delete_ids, confirm=args.confirm)
-- 
2.43.0


From d0064426d3d2e400b5fb130bcade93c3c8acfb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 42/84] fix: deleting jobs by integer id never matched

---
 python/paramgrid/jobqueue.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index d2fc669..f8b7269 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -208,6 +208,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
         raise Exception('No existing job index found')
     if jobIds is None: jobIds = []
     if isinstance(jobIds, six.string_types): jobIds = [jobIds]
+    jobIds = [str(jobId) for jobId in jobIds]
     if rootNames is not None:
         if isinstance(rootNames, six.string_types): rootNames = [rootNames]
         for name in rootNames:
-- 
2.43.0


From ec7f14f34d2d9834b7a102c9748f1de782df8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 43/84] fix: long combined job names failed (md5 of unencoded
 text)

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index 6b2213d..effe07f 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -74,7 +74,7 @@ def jobName():
     if len(iniFiles) < 2 or len(s) < 70: return s
     base = os.path.basename(iniFiles[0])
     if len(base) > 70: base = base[:70]
-    return base + '__' + hashlib.md5(s).hexdigest()[:16]
+    return base + '__' + hashlib.md5(s.encode('utf-8')).hexdigest()[:16]
 
 
 def submitJob(ini):
-- 
2.43.0


From 0859c7c8a39d4121bd3f4ba9a4693a125cc9a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 44/84] fix: cleanup of a run also deleted files of importance
 sampling runs derived from it

---
 python/cleanup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/cleanup.py b/python/cleanup.py
index d5af6a4..0d4687d 100644
--- a/python/cleanup.py
+++ b/python/cleanup.py
@@ -27,7 +27,7 @@ def fsizestr(fname):
 
 if args.chainnum is not None:
     args.ext = ['_' + args.chainnum + '.' + ext for ext in args.ext]
-else: args.ext = ['.' + ext for ext in args.ext] + ['_*.' + ext for ext in args.ext]
+else: args.ext = ['.' + ext for ext in args.ext] + ['_[0-9]*.' + ext for ext in args.ext]
 
 for jobItem in Opts.filteredBatchItems():
     if (args.converge == 0 or not jobItem.hasConvergeBetterThan(args.converge, returnNotExist=True)) and os.path.exists(jobItem.chainPath):
-- 
2.43.0


From a1a2c2fc795fe3d3db5aeec0ea3ef0569676a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 45/84] fix: renaming parameters failed on best-fit files,
 could join a long name with its label, and did not use labels of new names

---
 python/renameParam.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/renameParam.py b/python/renameParam.py
index 6214da6..71bfc3d 100644
--- a/python/renameParam.py
+++ b/python/renameParam.py
@@ -71,13 +71,15 @@ for jobItem in Opts.filteredBatchItems():
                 if new:
                     newname, lab = new
                     items[5] = newname
-                    items[6] = ' ' * (len(items[6]) + len(name) - len(newname))
+                    items[6] = ' ' * max(1, len(items[6]) + len(name) - len(newname))
                     has = has or newname != name
+                    name = newname
                 if labels:
                     plab = labels.parWithName(name)
                     if plab: lab = plab.label
                 if lab is not None:
-                    if len(items) < 7:
+                    if len(items) < 8:
+                        items[6] = items[6] or ' '
                         items.append(lab)
                         has = True
                     else:
@@ -87,7 +89,9 @@ for jobItem in Opts.filteredBatchItems():
                 lines[i] = "".join(items) + "\n"
             if has:
                 print(bestfit)
-                if args.confirm: open(bestfit).write("".join(lines))
+                if args.confirm:
+                    with open(bestfit, 'w') as f:
+                        f.write("".join(lines))
 
 if args.confirm:
     print('Done. Re-run getdist to update getdist outputs.')
-- 
2.43.0


From 6eaec7b651ca95d559ad789cf696ac51fd5b5848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 46/84] fix: chain index argument of chainPeek was ignored

---
 python/chainPeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/chainPeek.py b/python/chainPeek.py
index 86641f8..b96ece2 100644
--- a/python/chainPeek.py
+++ b/python/chainPeek.py
@@ -15,7 +15,7 @@ if len(sys.argv) < 3:
 chain = os.path.abspath(sys.argv[1])
 param = sys.argv[2]
 index = 1
-if len(sys.argv) > 4: index = int(sys.argv[3])
+if len(sys.argv) > 3: index = int(sys.argv[3])
 
 d = np.loadtxt(chain + '_' + str(index) + '.txt')
 names = paramnames.ParamNames(chain + '.paramnames')
-- 
2.43.0


From 66fbd5cc0fabe4af086a02bc74bd837d20448c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 47/84] fix: options of plotting scripts used a parameter list
 option that does not exist

---
 python/paramgrid/batchjob_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 6e15be5..5c20abc 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -69,7 +69,7 @@ class batchArgs(object):
                                      help='directory/ies containing getdist output plot_data')
             self.parser.add_argument('--paramNameFile', default='clik_latex.paramnames',
                                      help=".paramnames file for custom labels for parameters")
-            self.parser.add_argument('--param_list', default=None,
+            self.parser.add_argument('--param_list', dest='paramList', default=None,
                                      help=".paramnames file listing specific parameters to include (only)")
             self.parser.add_argument('--size_inch', type=float, default=None, help='output subplot size in inches')
             self.parser.add_argument('--nx', default=None, help='number of plots per row')
-- 
2.43.0


From c737bfa08c5a62556feb9db1640ed90db301b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 48/84] fix: listing a grid ignored notexist and converge

---
 python/listGrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/listGrid.py b/python/listGrid.py
index 34ea87f..59d3b0c 100644
--- a/python/listGrid.py
+++ b/python/listGrid.py
@@ -12,6 +12,8 @@ items = Opts.sortedParamtagDict(chainExist=args.exists)
 
 for paramtag, parambatch in items:
     for jobItem in parambatch:
+        if args.notexist and jobItem.chainExists(): continue
+        if args.converge and not jobItem.hasConvergeBetterThan(args.converge): continue
         if hasattr(jobItem, 'group'):
             tag = '(%s)' % jobItem.group
         else:
-- 
2.43.0


From 15ff50f8e8799c1b18f7af29a6989dc85a942c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:00 +0000
Subject: [PATCH 49/84] fix: copying grid chains removed burn in again from
 chains where it had been removed

---
 python/copyGridFiles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 909466d..728dc48 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -114,14 +114,15 @@ for jobItem in Opts.filteredBatchItems():
         doneProperties = False
         outdir = jobItem.relativePath
         if not args.zip: batchjob.makePath(target_dir + outdir)
+        hasBurn = not jobItem.isImportanceJob and not jobItem.isBurnRemoved()
         if args.chains and jobItem.chainExists() and (not args.max_age_days or datetime.fromtimestamp(jobItem.chainFileDate()) > max_age):
             i = 1
             while os.path.exists(jobItem.chainRoot + '_%d.txt' % i):
                 f = jobItem.name + '_%d.txt' % i
                 chainfiles += 1
-                doCopy(jobItem.chainPath, outdir, f, not jobItem.isImportanceJob)
+                doCopy(jobItem.chainPath, outdir, f, hasBurn)
                 i += 1
-            if not jobItem.isImportanceJob and args.remove_burn_fraction:
+            if hasBurn and args.remove_burn_fraction:
                 props = jobItem.propertiesIni()
                 props.params['burn_removed'] = True
                 writeIni(jobItem.name + '.properties.ini', props)
-- 
2.43.0


From 88c0a119adeec870d4e9f48681052823e6d53393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:00 +0000
Subject: [PATCH 50/84] fix: copying grid chains copied the whole file if no
 rows are left after burn in removal

---
 python/copyGridFiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 728dc48..f083e14 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -72,13 +72,13 @@ def doCopy(source, dest, f, hasBurn=False):
             lines = None
         destf = dest + f
         if args.zip:
-            if lines:
+            if lines is not None:
                 zipper.writestr(destf, "".join(lines))
 
             else:
                 zipper.write(source + f, destf)
         else:
-            if lines:
+            if lines is not None:
                 open(target_dir + destf, 'w').writelines(lines)
             else:
                 if args.sym_link:
-- 
2.43.0


From 3ad5f56e3fa31c24f770c5075975bbf0ec205409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:10 +0000
Subject: [PATCH 51/84] fix: making a grid failed if the cache directory does
 not exist yet

---
 python/paramgrid/batchjob.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index ee6c400..8f6f4bc 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -548,6 +548,7 @@ class batchJob(propertiesItem):
         return self.normed_name_item(root, True, True)
 
     def save(self, filename=''):
+        if filename == '': getdist.make_cache_dir()
         saveobject(self, (grid_cache_file(self.batchPath), filename)[filename != ''])
 
     def makeDirectories(self, setting_file=None):
-- 
2.43.0


From 33d7aa7541b34ed1a25ed1b8aabc601e21a89ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 52/84] fix: reading the range of a Cobaya parameter changed
 its prior in the info

---
 python/getdist/cobaya_interface.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 7cb5f02..f44cc73 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -163,21 +163,22 @@ def get_info_params(info):
 def get_range(param_info):
     # Sampled
     if is_sampled_param(param_info):
-        if isinstance(param_info[_prior], Sequence) and len(param_info[_prior]) == 2:
-            param_info[_prior] = \
-                {lim: n for lim, n in zip(["min", "max"], param_info[_prior])}
-        elif not isinstance(param_info[_prior], Mapping):
+        prior = param_info[_prior]
+        if isinstance(prior, Sequence) and len(prior) == 2:
+            prior = {lim: n for lim, n in zip(["min", "max"], prior)}
+        elif not isinstance(prior, Mapping):
             raise ValueError(
-                "Format of prior not recognised: %r. " % param_info[_prior] +
+                "Format of prior not recognised: %r. " % prior +
                 "Use '[min, max]' or a dictionary following Cobaya's documentation.")
-        info_lims = dict((tag, param_info[_prior].get(tag))
+        prior = dict(prior)
+        info_lims = dict((tag, prior.get(tag))
                          for tag in ["min", "max", "loc", "scale"])
         if info_lims["min"] is not None or info_lims["max"] is not None:
-            lims = [param_info[_prior].get("min"), param_info[_prior].get("max")]
+            lims = [prior.get("min"), prior.get("max")]
         elif info_lims["loc"] is not None or info_lims["scale"] is not None:
-            dist = param_info[_prior].pop(_p_dist, "uniform")
+            dist = prior.pop(_p_dist, "uniform")
             pdf_dist = getattr(import_module("scipy.stats", dist), dist)
-            lims = pdf_dist.interval(1, **param_info[_prior])
+            lims = pdf_dist.interval(1, **prior)
     # Derived
     elif is_derived_param(param_info):
         lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(param_info or {})
-- 
2.43.0


From 8a77d4828cbc6f924bc240d6cb389051980721f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 53/84] fix: burn-in already removed in Cobaya post-processing
 was not recognised

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index f44cc73..f6019c2 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -261,6 +261,6 @@ def get_sample_label(filename_or_info):
 
 
 def get_burn_removed(filename_or_info):
-    info = get_info_params(filename_or_info)
+    info = yaml_file_or_dict(filename_or_info)
     # if skip burn in *has already been done*
     return info.get(_post, {}).get("skip", 0)
-- 
2.43.0


From f641756a87026d0ecefb12dba02698a6498bfd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 54/84] fix: parameters added in Cobaya post-processing were
 merged into the original info

---
 python/getdist/cobaya_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index f6019c2..6865fa0 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -142,8 +142,8 @@ def get_info_params(info):
     add = info.get(_post, {}).get("add", {})
     # Adding derived params and updating 1d priors
     for param, pinfo in add.get(_params, {}).items():
-        pinfo_old = info_params_full.get(param, {})
-        pinfo_old.update(pinfo)
+        pinfo_old = dict(info_params_full.get(param) or {})
+        pinfo_old.update(pinfo or {})
         info_params_full[param] = pinfo_old
     likes += list(add.get(_likelihood, []))
     priors += list(add.get(_prior, []))
-- 
2.43.0


From 61414bac8f2461496ba29a6cb224be513fd429d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 55/84] fix: Cobaya samples with a parameter without settings
 or a fixed function value could not be loaded

---
 python/getdist/cobaya_interface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 6865fa0..4ec5d36 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -98,10 +98,10 @@ def MCSamplesFromCobaya(info, collections, name_tag=None,
     # We need to use *collection* sorting, not info sorting!
     names = [p + ("*" if is_derived_param(info_params[p]) else "")
              for p in columns[2:]]
-    labels = [(info_params[p] or {}).get(_p_label, p) for p in columns[2:]]
+    labels = [(info_params[p] if isinstance(info_params[p], Mapping) else {}).get(_p_label, p) for p in columns[2:]]
     ranges = {p: get_range(info_params[p]) for p in
               info_params}  # include fixed parameters not in columns
-    renames = {p: info_params.get(p, {}).get(_p_renames, []) for p in columns[2:]}
+    renames = {p: (info_params[p] if isinstance(info_params[p], Mapping) else {}).get(_p_renames, []) for p in columns[2:]}
     samples = [c[c.data.columns[2:]].values for c in collections]
     weights = [c[_weight].values for c in collections]
     loglikes = [c[_minuslogpost].values for c in collections]
@@ -187,10 +187,10 @@ def get_range(param_info):
         value = fixed_value(param_info)
         try:
             value = float(value)
-        except ValueError:
+        except (ValueError, TypeError):
             # e.g. lambda function values
             lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(
-                param_info or {})
+                param_info if isinstance(param_info, Mapping) else {})
         else:
             lims = (value, value)
     return lims[0] if lims[0] != -np.inf else None, lims[1] if lims[1] != np.inf else None
-- 
2.43.0


From 0af5188a94fa6770205fdda58e132726a9059741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:11 +0000
Subject: [PATCH 56/84] fix: Cobaya parameters given just as a function could
 not be loaded

---
 python/getdist/cobaya_interface.py |  3 ++-
 python/getdist/paramnames.py       | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 4ec5d36..384519a 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -181,7 +181,8 @@ def get_range(param_info):
             lims = pdf_dist.interval(1, **prior)
     # Derived
     elif is_derived_param(param_info):
-        lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(param_info or {})
+        lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(
+            param_info if isinstance(param_info, Mapping) else {})
     # Fixed
     else:
         value = fixed_value(param_info)
diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index 9a20c90..c305d3b 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -434,11 +434,14 @@ class ParamNames(ParamList):
             self.info_dict = yaml_tools.yaml_load_file(fileName)
             info_params = get_info_params(self.info_dict)
             # first sampled, then derived
-            self.names = [ParamInfo(name=param, label=(info or {}).get(_p_label, param),
-                                    renames=(info or {}).get(_p_renames))
+            def setting(info, key, default=None):
+                return info.get(key, default) if isinstance(info, dict) else default
+
+            self.names = [ParamInfo(name=param, label=setting(info, _p_label, param),
+                                    renames=setting(info, _p_renames))
                           for param, info in info_params.items() if is_sampled_param(info)]
-            self.names += [ParamInfo(name=param, label=(info or {}).get(_p_label, param),
-                                     renames=(info or {}).get(_p_renames), derived=True)
+            self.names += [ParamInfo(name=param, label=setting(info, _p_label, param),
+                                     renames=setting(info, _p_renames), derived=True)
                            for param, info in info_params.items() if is_derived_param(info)]
         else:
             raise ValueError('ParanNames must be loaded from .paramnames or .yaml/.yml file, '
-- 
2.43.0


From 2de718472a4a46939c08e686880153096a591b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:38 +0000
Subject: [PATCH 57/84] fix: header lines of a chain file counted as rows to
 ignore

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 0a761f5..18c621f 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -233,7 +233,7 @@ class WeightedSamples:
         # whole rows are skipped on input, a fraction of the rows is removed after loading
         skip_rows = int(ignore_rows)
         if filename:
-            cols = loadNumpyTxt(filename, skiprows=skip_rows)
+            cols = loadNumpyTxt(filename)[skip_rows:]  # comment lines are not rows
             if not len(cols):
                 raise WeightedSampleError('Empty chain: %s' % filename)
             self.setColData(cols, are_chains=files_are_chains)
-- 
2.43.0


From 633fc9c091f7a484ec5b3e5a32af7c5dfd30f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:35 +0000
Subject: [PATCH 58/84] fix: default range of auto-correlations was the number
 of parameters

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 18c621f..42f9f7a 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -442,7 +442,7 @@ class WeightedSamples:
         :return: zero-based array giving auto-correlations
         """
         if maxOff is None:
-            maxOff = self.n - 1
+            maxOff = self.numrows - 1
         d = self.mean_diff(paramVec) * self.weights
         corr = autoConvolve(d, n=maxOff + 1, normalize=True)
         if normalized:
-- 
2.43.0


From 6824f182ed0a0daee361117c4773591a77b5c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:36 +0000
Subject: [PATCH 59/84] fix: correlation length ignored all correlations when
 none falls below the threshold

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 42f9f7a..48203e2 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -467,7 +467,8 @@ class WeightedSamples:
         """
         if corr is None:
             corr = self.getAutocorrelation(j, self.numrows // 10, weight_units=weight_units)
-        ix = np.argmin(corr > min_corr * corr[0])
+        below = np.nonzero(corr <= min_corr * corr[0])[0]
+        ix = below[0] if len(below) else len(corr)
         N = corr[0] + 2 * np.sum(corr[1:ix])
         return N
 
-- 
2.43.0


From 30283fc5ca66b80822a385efde19d24a5ce9d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:36 +0000
Subject: [PATCH 60/84] fix: convolveGaussianDCT failed without a cache

---
 python/getdist/convolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/convolve.py b/python/getdist/convolve.py
index 78c9a0d..6c8475e 100644
--- a/python/getdist/convolve.py
+++ b/python/getdist/convolve.py
@@ -165,7 +165,8 @@ def convolveGaussianDCT(x, sigma, pad_sigma=4, mode='same', cache=None):
     gauss = cache.get((s, hnorm)) if cache is not None else None
     if gauss is None:
         gauss = np.exp(-(np.arange(0, s) * (np.pi * hnorm)) ** 2 / 2.)
-        cache[(s, hnorm)] = gauss
+        if cache is not None:
+            cache[(s, hnorm)] = gauss
     res = fftpack.idct(fftpack.dct(padded_x, overwrite_x=fill > 0) * gauss, overwrite_x=fill > 0) / (2 * s)
     if fill == 0:
         return res
-- 
2.43.0


From 335167972a745cb424a8db6c8a1b8d172e66346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:11 +0000
Subject: [PATCH 61/84] fix: likelihood statistics failed when the best sample
 holds most of the weight

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index c246b0c..8c56bf7 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2024,7 +2024,7 @@ class MCSamples(Chains):
         # get N-dimensional confidence region
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
-        m.ND_cont1, m.ND_cont2 = np.searchsorted(cumsum, self.norm * self.contours[0:2])
+        m.ND_cont1, m.ND_cont2 = np.maximum(np.searchsorted(cumsum, self.norm * self.contours[0:2]), 1)
         for j, par in enumerate(self.paramNames.names):
             region1 = self.samples[indexes[:m.ND_cont1], j]
             region2 = self.samples[indexes[:m.ND_cont2], j]
-- 
2.43.0


From 8a4da4597653893d5dc82459b020cd1267c1e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:54 +0000
Subject: [PATCH 62/84] fix: likelihood statistics failed with a single contour

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 8c56bf7..a9a3bbb 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2024,7 +2024,8 @@ class MCSamples(Chains):
         # get N-dimensional confidence region
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
-        m.ND_cont1, m.ND_cont2 = np.maximum(np.searchsorted(cumsum, self.norm * self.contours[0:2]), 1)
+        conts = np.maximum(np.searchsorted(cumsum, self.norm * self.contours[0:2]), 1)
+        m.ND_cont1, m.ND_cont2 = conts[0], conts[-1]
         for j, par in enumerate(self.paramNames.names):
             region1 = self.samples[indexes[:m.ND_cont1], j]
             region2 = self.samples[indexes[:m.ND_cont2], j]
-- 
2.43.0


From 6e03bff947b6b90e333f2becca1ae31a23d0dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:54 +0000
Subject: [PATCH 63/84] fix: tables of best fits failed

---
 python/getdist/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index c777e18..e1f5278 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -497,7 +497,7 @@ class BestFit(ParamResults):
         if setParamNameFile is not None:
             self.setLabelsFromParamNames(setParamNameFile)
 
-    def getColumnLabels(self, **kwargs):
+    def getColumnLabels(self, *args, **kwargs):
         return ['Best fit']
 
     def loadFromFile(self, filename, want_fixed=False):
@@ -565,7 +565,7 @@ class BestFit(ParamResults):
                 return val.chisq
         return None
 
-    def texValues(self, formatter, p, **kwargs):
+    def texValues(self, formatter, p, *args, **kwargs):
         param = self.parWithName(p.name)
         if param is not None:
             return [formatter.numberFormatter.formatNumber(param.best_fit)]
-- 
2.43.0


From 71ee5ac6c1869318aeb25f598e53e271382989a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:54 +0000
Subject: [PATCH 64/84] fix: number formatter given to a table was not used

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index e1f5278..466fa0f 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -296,7 +296,7 @@ class ResultTable:
         if paramList is not None:
             self.tableParamNames = self.tableParamNames.filteredCopy(paramList)
         if numFormatter is not None:
-            self.format.numFormatter = numFormatter
+            self.format.numberFormatter = numFormatter
 
         self.results = results
         self.boldBaseParameters = True
-- 
2.43.0


From b52fb6f657ce1fcff327be418ddfbdb54a24d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 65/84] fix: line break instead of sigma in tables of parameter
 shifts

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 466fa0f..1862b6c 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -815,7 +815,7 @@ class MargeStats(ParamResults):
                             res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
                         res += ')'
                     else:
-                        res += r'\quad(%+.1f \\sigma)' % (delta / refVal.err)
+                        res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
             if self.hasBestFit:  # add best fit too
                 rangew = (lim.upper - lim.lower) / 10
                 bestfit, _, _, exponent = formatter.numberFormatter.namesigFigs(param.best_fit, rangew, -rangew,
-- 
2.43.0


From 07fd46125482cad553bf46b1906ac054d5c429ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 66/84] fix: results of parameters without label could not be
 loaded

---
 python/getdist/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 1862b6c..5a5a816 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -546,7 +546,7 @@ class BestFit(ParamResults):
                 param = ParamInfo()
                 param.isFixed = isFixed
                 param.isDerived = isDerived
-                (param.number, param.best_fit, param.name, param.label) = [s.strip() for s in line.split(None, 3)]
+                (param.number, param.best_fit, param.name, param.label) = [s.strip() for s in (line.split(None, 3) + [''])[:4]]
                 param.number = int(param.number)
                 param.best_fit = float(param.best_fit)
                 self.names.append(param)
@@ -690,7 +690,7 @@ class MargeStats(ParamResults):
                 param.name = param.name[:-1]
             param.mean = float(items[1])
             param.err = float(items[2])
-            param.label = items[-1]
+            param.label = items[-1] if len(items) > len(self.limits) * 3 + 3 else ''
             param.limits = []
             for i in range(len(self.limits)):
                 param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + i * 3]))
-- 
2.43.0


From 32603a3efc7cd7006dde1994dd8d89c6b230b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 67/84] fix: table of a single result failed

---
 python/getdist/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 5a5a816..8451f4d 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -284,6 +284,8 @@ class ResultTable:
         """
         # results is a margeStats or bestFit table
         self.lines = []
+        if isinstance(results, ParamResults):
+            results = [results]
         if formatter is None:
             self.format = NoLineTableFormatter()
         else:
-- 
2.43.0


From a25d244882de4f10c2a8ed7e47a6e9cb078dc0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 68/84] fix: parameter values of a sample without likelihoods
 could not be read

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 48203e2..f8063df 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1291,7 +1291,8 @@ class Chains(WeightedSamples):
         """
         res = dict()
         res['weight'] = self.weights[ix]
-        res['loglike'] = self.loglikes[ix]
+        if self.loglikes is not None:
+            res['loglike'] = self.loglikes[ix]
         for i, name in enumerate(self.paramNames.names):
             if want_derived or not name.isDerived:
                 res[name.name] = self.samples[ix, i]
-- 
2.43.0


From 129dcbb0d6797872ad8415bebbc46515ce37b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:29 +0000
Subject: [PATCH 69/84] fix: best-fit parts without a kind had a list as name

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 8451f4d..018ddb3 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -534,7 +534,7 @@ class BestFit(ParamResults):
                             if len(name) > 1:
                                 (kind, name) = name
                             else:
-                                kind = ''
+                                kind, name = '', name[0]
                             chi2 = LikelihoodChi2()
                             if '=' in name:
                                 chi2.tag, chi2.name = [s.strip() for s in name.split('=')]
-- 
2.43.0


From 00dbbec8517dc499fa2aa7090cf03d6d06b4bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:12 +0000
Subject: [PATCH 70/84] fix: shifts for independent data started with a comma

---
 python/getdist/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 018ddb3..940feb6 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -814,7 +814,9 @@ class MargeStats(ParamResults):
                         if shiftSigma_indep:
                             # give mean shift in sigma units for independent data
                             indep_sigma = np.sqrt(param.err ** 2 + refVal.err ** 2)
-                            res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
+                            if shiftSigma_subset:
+                                res += ', '
+                            res += '%+.1f \\sigma_i' % (delta / indep_sigma)
                         res += ')'
                     else:
                         res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
-- 
2.43.0


From 935ad4ed40ac140ef8ecc18db3f322f054cf1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 71/84] fix: empty cells of parameters missing from results
 with best fit were not separated

---
 python/getdist/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 940feb6..0114f04 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -379,7 +379,8 @@ class ResultTable:
             txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
             return txt
         else:
-            return self.format.textAsColumn('') * len(result.getColumnLabels(self.limit))
+            return self.format.colSeparator.join(
+                [self.format.textAsColumn('')] * len(result.getColumnLabels(self.limit)))
 
     def paramLabelColumn(self, param):
         return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)
-- 
2.43.0


From f2858cd8e996850f840f7614abb3e649abf9f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 72/84] fix: split tests were reported with another limit than
 they used

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index a9a3bbb..11efdb9 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -925,7 +925,7 @@ class MCSamples(Chains):
             # Return the rms ([change in upper/lower quantile]/[standard deviation])
             # when data split into 2, 3,.. sets
             lines += "Split tests: rms_n([delta(upper/lower quantile)]/sd) n={2,3,4}, limit=%.0f%%:\n" % (
-                    100 * self.converge_test_limit)
+                    100 * test_confidence)
             lines += "i.e. mean sample splitting change in the quantiles in units of the st. dev.\n"
             lines += "\n"
 
-- 
2.43.0


From 046af54edfaa9d88e3945217b468825d4fe81267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 73/84] fix: correlation lengths of converge tests ignored all
 correlations when none falls below the threshold

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 11efdb9..07eaa87 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -869,7 +869,8 @@ class MCSamples(Chains):
                 for chain in chainlist:
                     corr += chain.getAutocorrelation(j, maxoff, normalized=False) * chain.norm
                 corr /= self.norm * self.vars[j]
-                ix = np.argmin(corr > 0.05 * corr[0])
+                below = np.nonzero(corr <= 0.05 * corr[0])[0]
+                ix = below[0] if len(below) else len(corr)
                 N = corr[0] + 2 * np.sum(corr[1:ix])
                 maxN = max(N, maxN)
                 form = '%15.2E'
-- 
2.43.0


From 5f75383cc033925d48f6a7c85557822070306ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 74/84] fix: total covariance of Gaussian mixtures mixed
 components and dimensions

---
 python/getdist/gaussian_mixtures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 1c642f7..a51e870 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -43,8 +43,8 @@ class MixtureND:
         self.label = label
         self.total_mean = np.atleast_1d(np.dot(self.weights, self.means))
         self.total_cov = np.zeros((self.dim, self.dim))
-        for mean, cov, weight, totmean in zip(self.means, self.covs, self.weights, self.total_mean):
-            self.total_cov += weight * (cov + np.outer(mean - totmean, mean - totmean))
+        for mean, cov, weight in zip(self.means, self.covs, self.weights):
+            self.total_cov += weight * (cov + np.outer(mean - self.total_mean, mean - self.total_mean))
 
     def sim(self, size, random_state=None):
         """
-- 
2.43.0


From 1a5f65380422de838fdd2ce2101ede6fab06efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 75/84] fix: getLower of Gaussian mixtures returned the upper
 limit

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index a51e870..f96028a 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -319,7 +319,7 @@ class MixtureND:
     def getLower(self, name):
         if self.lims is None:
             return None
-        return self.lims[self.names.index(name)][1]
+        return self.lims[self.names.index(name)][0]
 
 
 class Mixture2D(MixtureND):
-- 
2.43.0


From 1cff20bdd32e7948be2c6403b1489906943faf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 76/84] fix: density1D of Gaussian mixtures ignored
 no_limit_marge

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index f96028a..f50e54d 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -184,7 +184,7 @@ class MixtureND:
             self.checkNoLimits([index])
         mn, mx = self.autoRanges(sigma_max)[index]
         x = np.linspace(mn, mx, num_points)
-        like = self.pdf_marged(index, x)
+        like = self.pdf_marged(index, x, no_limit_marge)
         return Density1D(x, like)
 
     def density2D(self, params=None, num_points=1024, xmin=None, xmax=None, ymin=None, ymax=None, sigma_max=5):
-- 
2.43.0


From e2c974462b8d5d21737becc4eaa06713b2fffdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 77/84] fix: weights of conditional Gaussian mixtures

---
 python/getdist/gaussian_mixtures.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index f50e54d..b685adb 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -282,14 +282,10 @@ class MixtureND:
             deltas = np.asarray(fixed_param_values) - mean[fixed_params]
             new_cov = np.linalg.inv(invcov[np.ix_(keep_params, keep_params)])
             new_mean = mean[keep_params] - new_cov.dot(invcov[np.ix_(keep_params, fixed_params)].dot(deltas))
-            if len(self.weights) == 1 and False:
-                logw = 0
-            else:
-                logw = invcov[np.ix_(fixed_params, fixed_params)].dot(deltas).dot(deltas) \
-                       + np.log(np.linalg.det(cov[np.ix_(fixed_params, fixed_params)]
-                                              - cov[np.ix_(fixed_params, keep_params)]
-                                              .dot(np.linalg.inv(cov[np.ix_(keep_params, keep_params)])
-                                                   .dot(cov[np.ix_(keep_params, fixed_params)]))))
+            # -2 log of weight times marginalized density at the fixed values
+            fixed_cov = cov[np.ix_(fixed_params, fixed_params)]
+            logw = np.linalg.inv(fixed_cov).dot(deltas).dot(deltas) \
+                   + np.log(np.linalg.det(fixed_cov)) - 2 * np.log(weight)
             new_weights.append(logw)
             new_means.append(new_mean)
             new_covs.append(new_cov)
-- 
2.43.0


From 2c2a1693c696f1ca32f3f2c5f6d0619fc6be129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:58 +0000
Subject: [PATCH 78/84] fix: log likelihoods of samples of one-dimensional
 mixtures had the wrong shape

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index b685adb..d758b72 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -94,7 +94,7 @@ class MixtureND:
         """
         samples = self.sim(size, random_state=random_state)
         if logLikes:
-            loglikes = -np.log(self.pdf(samples))
+            loglikes = -np.log(self.pdf(samples)).reshape(-1)
         else:
             loglikes = None
         return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=copy.deepcopy(self.paramNames),
-- 
2.43.0


From ef4e032d185dbcee422d700ec149ba60c50a1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 79/84] fix: likelihood codes used numpy type aliases that no
 longer exist

---
 python/CMBlikes.py           |  4 ++--
 python/planck/CMB_CamSpec.py | 14 +++++++-------
 python/planck/DES.py         | 26 +++++++++++++-------------
 python/planck/SN.py          |  2 +-
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index defb1dd..8d27eca 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -52,7 +52,7 @@ class ClsArray(object):
     def __init__(self, filename=None, camb_results=None, cols=None, field_names=['T', 'E', 'B', 'P'], rescale=None,
                  lmax=None):
         self.field_names = field_names
-        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=np.object)
+        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=object)
         self.cls_array[:, :] = None
         self.lmax = 0
         self.lmin = 0
@@ -83,7 +83,7 @@ class ClsArray(object):
             dat = np.loadtxt(filename)
             if isinstance(cols, six.string_types): cols = cols.split()
         Lix = cols.index('L')
-        L = dat[:, Lix].astype(np.int)
+        L = dat[:, Lix].astype(int)
         lmin = L[0]
         lmax = L[-1]
         if not add_only:
diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index df333b0..60bc609 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -65,11 +65,11 @@ class CamSpec_likelihood(object):
             lines = f.readlines()
             while not lines[-1].strip(): lines = lines[:-1]
             self.Nspec = len(lines)
-            lmin = np.zeros(self.Nspec, dtype=np.int)
-            lmax = np.zeros(self.Nspec, dtype=np.int)
+            lmin = np.zeros(self.Nspec, dtype=int)
+            lmax = np.zeros(self.Nspec, dtype=int)
             self.cl_names = []
-            self.ell_ranges = np.empty(self.Nspec, dtype=np.object)
-            self.used_sizes = np.zeros(self.Nspec, dtype=np.int)
+            self.ell_ranges = np.empty(self.Nspec, dtype=object)
+            self.used_sizes = np.zeros(self.Nspec, dtype=int)
             for i, line in enumerate(lines):
                 items = line.split()
                 tp = items[0]
@@ -85,7 +85,7 @@ class CamSpec_likelihood(object):
                             else:
                                 ells = used_ell
                             self.ell_ranges[i] = np.array([L for L in range(lmin[i], lmax[i] + 1) if L in ells],
-                                                          dtype=np.int)
+                                                          dtype=int)
                             used_indices.append(self.ell_ranges[i] + (nX - lmin[i]))
                         else:
                             used_indices.append(range(nX, nX + n))
@@ -248,7 +248,7 @@ class CamSpec_likelihood(object):
         lmin = np.min([min(r) for r in self.ell_ranges[:4]])
         lmax = np.max([max(r) for r in self.ell_ranges[:4]])
         n_p = lmax - lmin + 1
-        LS = np.zeros(delta_vector.shape, dtype=np.int)
+        LS = np.zeros(delta_vector.shape, dtype=int)
         ix = 0
         for i, (cal, n) in enumerate(zip(cals[:4], self.used_sizes[:4])):
             if n > 0:
@@ -262,7 +262,7 @@ class CamSpec_likelihood(object):
         ix1 = 0
         Loffsets = [LS - lmin for LS in self.ell_ranges[:4]]
         contiguous = not np.any(
-            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=np.int)) for LS in self.ell_ranges[:4]])
+            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=int)) for LS in self.ell_ranges[:4]])
         for i, (cal, LS, n) in enumerate(zip(cals[:4], Loffsets, self.used_sizes[:4])):
             dL[LS] += d[ix1:ix1 + n] / cal
             ix = 0
diff --git a/python/planck/DES.py b/python/planck/DES.py
index 034fc71..45b4796 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -147,10 +147,10 @@ class DES_like(object):
         self.thetas = []
         for i, tp in enumerate(self.data_types):
             xi = np.loadtxt(ini.relativeFileName('measurements[%s]' % tp))
-            bin1 = xi[:, 0].astype(np.int) - 1
-            bin2 = xi[:, 1].astype(np.int) - 1
-            tbin = xi[:, 2].astype(np.int) - 1
-            corr = np.empty((maxbin, maxbin), dtype=np.object)
+            bin1 = xi[:, 0].astype(int) - 1
+            bin2 = xi[:, 1].astype(int) - 1
+            tbin = xi[:, 2].astype(int) - 1
+            corr = np.empty((maxbin, maxbin), dtype=object)
             corr[:, :] = None
             self.data_arrays.append(corr)
             self.bin_pairs.append([])
@@ -214,9 +214,9 @@ class DES_like(object):
                 cov_ix += 1
 
         self.nzbins = 4  # for lensing sources
-        corrs_p = np.empty((self.nzbins, self.nzbins), dtype=np.object)
+        corrs_p = np.empty((self.nzbins, self.nzbins), dtype=object)
         corrs_p[:, :] = None
-        corrs_m = np.empty((self.nzbins, self.nzbins), dtype=np.object)
+        corrs_m = np.empty((self.nzbins, self.nzbins), dtype=object)
         corrs_m[:, :] = None
         ntheta = 20
         self.theta_bins = np.empty(ntheta)
@@ -229,7 +229,7 @@ class DES_like(object):
                 corrs[f1, f2][ix] = dat
 
         self.nwbins = 5  # for galaxies
-        corrs_w = np.empty((self.nwbins, self.nwbins), dtype=np.object)
+        corrs_w = np.empty((self.nwbins, self.nwbins), dtype=object)
         for f1 in range(self.nwbins):
             corrs_w[f1, f1] = np.empty(ntheta)
         wdata = hdulist['wtheta'].data
@@ -239,7 +239,7 @@ class DES_like(object):
             assert (np.abs(self.theta_bins[ix] / theta - 1) < 2e-3)
             corrs_w[f1, f2][ix] = dat
 
-        corrs_t = np.empty((self.nwbins, self.nwbins), dtype=np.object)
+        corrs_t = np.empty((self.nwbins, self.nwbins), dtype=object)
         corrs_t[:, :] = None
         tdata = hdulist['gammat'].data
         for f1, f2, ix, dat, theta in zip(tdata.field(0) - 1, tdata.field(1) - 1, tdata.field(2), tdata.field(3),
@@ -416,7 +416,7 @@ class DES_like(object):
             # Approximate bessel integral as binned smooth C_L against integrals of bessel in each bin.
             # Here we crudely precompute an approximation to the bessel integral by brute force
             dls = np.diff(np.unique((np.exp(np.linspace(np.log(1.), np.log(self.lmax), int(500 * acc)))).astype(
-                np.int)))
+                int)))
             groups = []
             ell = 2  # ell_min
             self.ls_bessel = np.zeros(dls.size)
@@ -552,10 +552,10 @@ class DES_like(object):
         else:
             tmplens = tmp
 
-        corrs_th_p = np.empty((self.nzbins, self.nzbins), dtype=np.object)
-        corrs_th_m = np.empty((self.nzbins, self.nzbins), dtype=np.object)
-        corrs_th_w = np.empty((self.nwbins, self.nwbins), dtype=np.object)
-        corrs_th_t = np.empty((self.nwbins, self.nzbins), dtype=np.object)
+        corrs_th_p = np.empty((self.nzbins, self.nzbins), dtype=object)
+        corrs_th_m = np.empty((self.nzbins, self.nzbins), dtype=object)
+        corrs_th_w = np.empty((self.nwbins, self.nwbins), dtype=object)
+        corrs_th_t = np.empty((self.nwbins, self.nzbins), dtype=object)
         if self.use_hankel:
             # Note that the absolute value of the correlation depends on what you do about L_min (e.g. 1 vs 2 vs 0 makes a difference).
             if 'xip' in self.used_types or 'xim' in self.used_types:
diff --git a/python/planck/SN.py b/python/planck/SN.py
index 006ee81..ae4c593 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -175,7 +175,7 @@ class SN_likelihood(object):
             self.int_points = _int_points
             self.alpha_grid = self.alpha_grid[:_int_points]
             self.beta_grid = self.beta_grid[:_int_points]
-            self.invcovs = np.empty(_int_points, dtype=np.object)
+            self.invcovs = np.empty(_int_points, dtype=object)
             if precompute_covmats:
                 for i, (alpha, beta) in enumerate(zip(self.alpha_grid, self.beta_grid)):
                     self.invcovs[i] = self.inverse_covariance_matrix(alpha, beta)
-- 
2.43.0


From ed7a1258819dca760863a13e739507c61e4a119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 80/84] fix: noise was added to the theory of Gaussian
 bandpower likelihoods that had it removed from the data

---
 python/CMBlikes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 8d27eca..5cef9ce 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -440,6 +440,7 @@ class DatasetLikelihood(object):
                 self.bandpowers += self.cl_noise
             elif self.like_approx == 'gaussian':
                 self.bandpowers -= self.cl_noise
+                self.cl_noise = None  # theory is compared without noise
 
         self.cl_lmax = np.zeros((self.tot_theory_fields, self.tot_theory_fields))
         for i in range(self.tot_theory_fields):
-- 
2.43.0


From a5af1113c4b2c1357c3d2a58d11d852d96733bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 81/84] fix: write_likelihood_data failed with an invalid
 format

---
 python/CMBlikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 5cef9ce..869717d 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -639,7 +639,7 @@ class DatasetLikelihood(object):
                 for i in range(self.nmaps_required):
                     for j in range(i + 1):
                         c.append(cls[i, j].CL[b - self.pcl_lmin])
-                f.write(("%I5 " + "%17.8e " * len(cols)) % tuple(c))
+                f.write(("%6u" + " %17.8e" * len(cols) + "\n") % tuple(c))
 
     def transform(self, C, Chat, Cfhalf):
         # HL transformation of the matrices
-- 
2.43.0


From 7c02fc64ad8a99ca4175636b8fa2fa761f0537f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 82/84] fix: bandpower likelihoods failed if the windows do not
 give every spectrum

---
 python/CMBlikes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 869717d..fea472b 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -115,13 +115,14 @@ class ClsArray(object):
 
 
 class BinWindows(object):
-    def __init__(self, lmin, lmax, nbins):
+    def __init__(self, lmin, lmax, nbins, ncl):
         self.lmin = lmin
         self.lmax = lmax
         self.nbins = nbins
+        self.ncl = ncl  # number of output spectra
 
     def bin(self, TheoryCls, cls=None):
-        if cls is None: cls = np.zeros((self.nbins, max([x for x in self.cols_out if x >= 0]) + 1))
+        if cls is None: cls = np.zeros((self.nbins, self.ncl))
         for i, ((x, y), ix_out) in enumerate(zip(self.cols_in.T, self.cols_out)):
             cl = TheoryCls[x, y]
             if cl is not None and ix_out >= 0:
@@ -275,7 +276,7 @@ class DatasetLikelihood(object):
             return cl
 
     def readBinWindows(self, ini, file_stem):
-        bins = BinWindows(self.pcl_lmin, self.pcl_lmax, self.nbins_used)
+        bins = BinWindows(self.pcl_lmin, self.pcl_lmax, self.nbins_used, self.ncl)
         in_cl = ini.split(file_stem + '_in_order')
         out_cl = ini.split(file_stem + '_out_order', in_cl)
         bins.cols_in = self.UseString_to_Cl_i_j(in_cl, self.map_required_index)
-- 
2.43.0


From 893972b24fa6f6fe599cae317d8487106f2183b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 83/84] fix: maps required only for corrections were used in
 the likelihood if maps_use is set

---
 python/CMBlikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index fea472b..69a0b9b 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -359,7 +359,7 @@ class DatasetLikelihood(object):
 
         # Bandpowers can depend on more fields than are actually used in likelihood
         # e.g. for correcting leakage or other linear corrections
-        self.require_map = self.use_map[:]
+        self.require_map = list(self.use_map)
         if self.has_map_names:
             if ini.hasKey('fields_required'):
                 raise Exception('CMBLikes: use maps_required not fields_required')
-- 
2.43.0


From 1cc37899de231a2199a76d570ec7ae90343ff9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 84/84] fix: an empty chain file stopped the loading of all
 chains instead of being left out

---
 python/getdist/chains.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index f8063df..61b6454 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -129,8 +129,11 @@ def loadNumpyTxt(fname, skiprows=None):
     """
     try:
         if pandas:
-            return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
-                                   skiprows=skiprows, comment='#').values
+            try:
+                return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
+                                       skiprows=skiprows, comment='#').values
+            except pandas.errors.EmptyDataError:
+                return np.empty((0, 0))
         else:
             global _pandas_suggestion
             if _pandas_suggestion:
-- 
2.43.0

