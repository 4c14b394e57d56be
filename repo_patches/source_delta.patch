From c54a6fd27f7a1d66948210e5491338e6662d2268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:30 +0000
Subject: [PATCH 01/63] fix: do not modify a user-supplied prior array during
 inference

---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a84b573..aa24c6e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -207,6 +207,7 @@ class Study(object):
         # check whether correctly shaped numpy array is provided
         if isinstance(prior, np.ndarray):
             if np.all(prior.shape == self.grid[0].shape):
+                prior = np.array(prior, dtype=float)  # copy, to leave the user-supplied array unchanged
                 norm = np.sum(prior)
                 if norm != 1.:
                     prior /= norm
-- 
2.43.0


From 90c7464684bd76c0d7f6c9f19556e5cf7aa7a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:35 +0000
Subject: [PATCH 02/63] fix: treat a prior that sums to one like any other
 prior (convert to density)

---
 bayesloop/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index aa24c6e..b5b4675 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -209,9 +209,9 @@ class Study(object):
             if np.all(prior.shape == self.grid[0].shape):
                 prior = np.array(prior, dtype=float)  # copy, to leave the user-supplied array unchanged
                 norm = np.sum(prior)
+                prior /= norm
+                prior /= np.prod(self.latticeConstant)  # convert to prob. density
                 if norm != 1.:
-                    prior /= norm
-                    prior /= np.prod(self.latticeConstant)
                     if not silent:
                         print('    + Set prior (numpy array). Values have been re-normalized.')
                 else:
@@ -225,9 +225,9 @@ class Study(object):
         if hasattr(prior, '__call__'):
             values = prior(*self.grid)*np.ones(self.gridSize)  # last factor for cases like lambda x: 1.
             norm = np.sum(values)
+            values /= norm
+            values /= np.prod(self.latticeConstant)  # convert to prob. density
             if norm != 1.:
-                values /= norm
-                values /= np.prod(self.latticeConstant)
                 if not silent:
                     print('    + Set prior (function): {}. Values have been re-normalized.'.format(prior.__name__))
             else:
-- 
2.43.0


From 0878a9512ce044b7a389fe94dc77cd77fa84794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:38 +0000
Subject: [PATCH 03/63] fix: do not modify a user-supplied hyper-prior array;
 accept lists and integers

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b5b4675..9e87676 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1193,7 +1193,7 @@ class HyperStudy(Study):
 
             elif hasattr(prior, '__call__'):  # prior specified by function
                 try:
-                    priorValues = np.array([prior(value) for value in values])
+                    priorValues = np.array([prior(value) for value in values], dtype=float)
                     norm = np.sum(priorValues)
                     priorValues /= norm
                     priorValues /= gridConst
@@ -1208,7 +1208,7 @@ class HyperStudy(Study):
             elif isinstance(prior, Iterable):  # prior specified by list/array
                 if len(prior) != len(values):
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from list/array.'.format(name))
-                priorValues = prior
+                priorValues = np.array(prior, dtype=float)  # copy, to leave the user-supplied array unchanged
                 norm = np.sum(priorValues)
                 priorValues /= norm
                 priorValues /= gridConst
-- 
2.43.0


From 0d7b8930f0cd066b1b253b3387c6022ca9e55787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:04 +0000
Subject: [PATCH 04/63] fix: reset to the prior of the observation model (also
 SymPy and scalar-valued priors) at change-points

---
 bayesloop/transitionModels.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f8f494a..655cf0d 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -298,13 +298,8 @@ class ChangePoint(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t == self.hyperParameterValues[0]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # same prior as in the first time step
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
@@ -347,13 +342,8 @@ class Independent(TransitionModel):
         Returns:
             ndarray: Prior parameter distribution for subsequent time step
         """
-        # check if custom prior is used by observation model
-        if hasattr(self.study.observationModel.prior, '__call__'):
-            prior = self.study.observationModel.prior(*self.study.grid)
-        elif isinstance(self.study.observationModel.prior, np.ndarray):
-            prior = deepcopy(self.study.observationModel.prior)
-        else:
-            prior = np.ones(self.study.gridSize)  # flat prior
+        # same prior as in the first time step
+        prior = self.study._computePrior(silent=True)
 
         # normalize prior (necessary in case an improper prior is used)
         prior /= np.sum(prior)
@@ -799,13 +789,8 @@ class SerialTransitionModel(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t in np.array(self.hyperParameterValues)[self.changePointMask]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # same prior as in the first time step
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
-- 
2.43.0


From e5464abbf1e0bd08afb9e43c71b31abc0c568324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:27 +0000
Subject: [PATCH 05/63] fix: do not count the prior twice in smoothed
 posteriors before a parameter reset

---
 bayesloop/transitionModels.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 655cf0d..da5cf82 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -309,7 +309,11 @@ class ChangePoint(TransitionModel):
             return posterior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        if t - 1 == self.hyperParameterValues[0]:
+            # parameter values before the change-point do not depend on subsequent data points
+            return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
+        else:
+            return posterior
 
 
 class Independent(TransitionModel):
@@ -350,7 +354,8 @@ class Independent(TransitionModel):
         return prior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        # parameter values do not depend on subsequent data points
+        return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
 
 
 class RegimeSwitch(TransitionModel):
-- 
2.43.0


From 0106d661bcc1a756ffcc95e4e629993b9ad5fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 06/63] fix: use the time stamp of the preceding time step in
 the backward pass

---
 bayesloop/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 9e87676..26cfe09 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -464,11 +464,13 @@ class Study(object):
                     self.localEvidence[i] = 1./(np.sum(self.posteriorSequence[i]/likelihood) *
                                                 np.prod(self.latticeConstant))  # integration, not only sum
 
-                # compute beta for next iteration
-                beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i])
+                # compute beta for next iteration (undo the transition that started at the previous time stamp)
+                if i > 0:
+                    beta = self.transitionModel.computeBackwardPrior(beta*likelihood,
+                                                                     self.formattedTimestamps[i-1] + 1)
 
-                # normalize beta (for numerical stability)
-                beta /= np.sum(beta)
+                    # normalize beta (for numerical stability)
+                    beta /= np.sum(beta)
 
             if not silent:
                 enum.close()  # remove progressbar correctly
-- 
2.43.0


From 689f11c2ea9e3169c631902755e7d17d0d1d0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:06 +0000
Subject: [PATCH 07/63] fix: fall back to default timestamps if the supplied
 ones do not match the data

---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 26cfe09..773cc71 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -115,6 +115,7 @@ class Study(object):
             else:
                 if not silent:
                     print('! WARNING: Number of timestamps does not match number of data points. Omitting timestamps.')
+                self.rawTimestamps = np.arange(len(self.rawData))
         else:  # set default timestamps (integer range)
             self.rawTimestamps = np.arange(len(self.rawData))
 
-- 
2.43.0


From f06c821735a8dcf4a6d1d59b8b1089f893c14ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:11 +0000
Subject: [PATCH 08/63] fix: do not expose uninitialized memory if inference is
 stopped early

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 773cc71..75b2df2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -355,11 +355,11 @@ class Study(object):
 
         # initialize array for posterior distributions
         if not evidenceOnly:
-            self.posteriorSequence = np.empty([len(self.formattedData)]+self.gridSize)
+            self.posteriorSequence = np.zeros([len(self.formattedData)]+self.gridSize)
 
         # initialize array for computed evidence (marginal likelihood)
         self.logEvidence = 0
-        self.localEvidence = np.empty(len(self.formattedData))
+        self.localEvidence = np.zeros(len(self.formattedData))
 
         # set prior distribution for forward-pass
         alpha = self._computePrior(silent=silent)
-- 
2.43.0


From 217b52c34316c44f4c1473f773c7b1e95ead1f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:15 +0000
Subject: [PATCH 09/63] fix: scale of local evidence values

---
 bayesloop/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 75b2df2..0d33452 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -403,7 +403,9 @@ class Study(object):
 
             # update log-evidence and compute local evidence
             self.logEvidence += np.log(norm)
-            self.localEvidence[i] = norm * np.prod(self.latticeConstant)  # integration yields evidence, not only sum
+            self.localEvidence[i] = norm
+            if i == 0:  # prior is given as a density, integration yields evidence, not only sum
+                self.localEvidence[i] *= np.prod(self.latticeConstant)
 
             # alphas are stored as preliminary posterior distributions
             if not evidenceOnly:
@@ -462,8 +464,7 @@ class Study(object):
 
                 # compute local evidence
                 with np.errstate(invalid='ignore'):
-                    self.localEvidence[i] = 1./(np.sum(self.posteriorSequence[i]/likelihood) *
-                                                np.prod(self.latticeConstant))  # integration, not only sum
+                    self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
 
                 # compute beta for next iteration (undo the transition that started at the previous time stamp)
                 if i > 0:
-- 
2.43.0


From afe82568d5a091eec2edf7e66e4974ebd6769720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:42 +0000
Subject: [PATCH 10/63] fix: keep 'all' as the value of a change/break-point
 after fitting

---
 bayesloop/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 0d33452..9e62931 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1269,6 +1269,9 @@ class HyperStudy(Study):
         """
         self.fitWarningCounter = 0
 
+        # store hyper-parameter values as set by the user (individual values are set during fitting)
+        userDefinedHyperParameters = self._unpackAllHyperParameters()
+
         # format data/timestamps once, so number of data segments is known and _createGrid() works properly
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
         self.formattedTimestamps = self.rawTimestamps[self.observationModel.segmentLength - 1:]
@@ -1430,7 +1433,7 @@ class HyperStudy(Study):
             self.localEvidenceList = []
 
             # restore hyper-parameter values (individual values have been set during fitting)
-            self._setAllHyperParameters(self.flatHyperParameters)
+            self._setAllHyperParameters(userDefinedHyperParameters)
 
             if not silent:
                 print('+ Finished fit.')
-- 
2.43.0


From 37996f2dac013be4e29ca8e34f2a87e7905b6a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:01 +0000
Subject: [PATCH 11/63] fix: hyper-study fits with a single valid (or no valid)
 combination of hyper-parameter values

---
 bayesloop/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 9e62931..766a075 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1446,8 +1446,16 @@ class HyperStudy(Study):
                 if len(self.hyperGridValues) == 0:
                     print('+ Transition model contains no hyper-parameters, switching to standard fit method.')
 
+            # set the only valid combination of hyper-parameter values and restore original values afterwards
+            if len(self.hyperGridValues) == 1:
+                self._setAllHyperParameters(self.hyperGridValues[0])
+                self.hyperParameterDistribution = np.ones(1)/np.prod(self.hyperGridConstant)  # probability density
+
             Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
 
+            if len(self.hyperGridValues) == 1:
+                self._setAllHyperParameters(userDefinedHyperParameters)
+
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
         """
         This method is called by the fit method of the HyperStudy class. It creates a copy of the current class
@@ -1838,6 +1846,10 @@ class ChangepointStudy(HyperStudy):
         self.hyperGridValues = self.allHyperGridValues[self.mask]
         self.flatHyperPriorValues = self.allHyperPriorValues[self.mask]
 
+        if not np.any(self.mask):
+            raise ConfigurationError('No valid (i.e. ordered) combination of change/break-point values found. Check '
+                                     'transition model and number of data points.')
+
         # correct prior values to ensure correct normalization after sorting out combinations
         self.flatHyperPriorValues *= np.sum(self.allHyperPriorValues)/np.sum(self.allHyperPriorValues[self.mask])
 
-- 
2.43.0


From da345ef6f5e61ccecc0b77954261c722f65a60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:32 +0000
Subject: [PATCH 12/63] fix: accept list of correlation values in
 BivariateRandomWalk

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index da5cf82..6a6883d 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -845,7 +845,7 @@ class BivariateRandomWalk(TransitionModel):
         if isinstance(value2, (list, tuple)):
             value2 = np.array(value2)
         if isinstance(value3, (list, tuple)):
-            value2 = np.array(value3)
+            value3 = np.array(value3)
 
         self.study = None
         self.latticeConstant = None
-- 
2.43.0


From e9c5d81d20135b3b219a192838fde5b59c822bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:36 +0000
Subject: [PATCH 13/63] fix: set list of hyper-priors in Deterministic
 transition model

---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 6a6883d..6b76cef 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -533,6 +533,7 @@ class Deterministic(TransitionModel):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
                                              .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                self.prior = prior
             # if single prior is defined, pack it in a list
             else:
                 self.prior = [prior]
-- 
2.43.0


From f453e8998652b0e3a2ccf357fb3c27ce0ef75058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:40 +0000
Subject: [PATCH 14/63] fix: alpha-stable kernel for parameter grids with an
 odd number of values

---
 bayesloop/transitionModels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 6b76cef..f427601 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -222,9 +222,9 @@ class AlphaStableRandomWalk(TransitionModel):
         else:
             raise ConfigurationError('Parameter grid must either be 1- or 2-dimensional.')
 
-        kernel_fft = np.exp(-np.abs(c*np.linspace(0, np.pi, int(3*l1/2+1)))**alpha)
-        kernel = np.fft.irfft(kernel_fft)
-        kernel = np.roll(kernel, int(3*l1/2-1))
+        kernel_fft = np.exp(-np.abs(c*2.*np.pi*np.fft.rfftfreq(3*l1))**alpha)
+        kernel = np.fft.irfft(kernel_fft, 3*l1)
+        kernel = np.roll(kernel, (3*l1-1)//2)
 
         if len(gs) == 2:
             kernel = np.array([kernel]*(3*l2))
-- 
2.43.0


From 49b46b78810e4993562313f0bd4bd36cf451e706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:03 +0000
Subject: [PATCH 15/63] fix: renew cached convolution kernels when the
 parameter grid changes

---
 bayesloop/transitionModels.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f427601..38a44cc 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -167,8 +167,10 @@ class AlphaStableRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values or the parameter grid have changed, a new convolution kernel needs to be created
+        kernelParameters = [list(self.hyperParameterValues), list(self.latticeConstant), list(self.study.gridSize),
+                            list(self.study.observationModel.parameterNames)]
+        if not self.kernelParameters == kernelParameters:
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
@@ -184,7 +186,7 @@ class AlphaStableRandomWalk(TransitionModel):
                 self.kernel *= self.createKernel(c, a, i+1)
 
             self.kernel = self.kernel.T
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
         newPrior /= np.sum(newPrior)
@@ -872,13 +874,15 @@ class BivariateRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values or the parameter grid have changed, a new convolution kernel needs to be created
+        kernelParameters = [list(self.hyperParameterValues), list(self.latticeConstant), list(self.study.gridSize),
+                            list(self.study.observationModel.parameterNames)]
+        if not self.kernelParameters == kernelParameters:
             normedSigma1 = self.hyperParameterValues[0] / self.latticeConstant[0]
             normedSigma2 = self.hyperParameterValues[1] / self.latticeConstant[1]
 
             self.kernel = self.createKernel(normedSigma1, normedSigma2, self.hyperParameterValues[2])
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = convolve2d(posterior, self.kernel, mode='same')
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 5cdc497ae0285a54fe1036812c5962cb117056d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:07 +0000
Subject: [PATCH 16/63] fix: prevent negative probability values from
 interpolation and band-limited kernels

---
 bayesloop/transitionModels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 38a44cc..948f79d 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -189,6 +189,7 @@ class AlphaStableRandomWalk(TransitionModel):
             self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
+        newPrior[newPrior < 0.] = 0.  # probability values cannot be negative (finite band-width of kernel)
         newPrior /= np.sum(newPrior)
         return newPrior
 
@@ -572,6 +573,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # spline interpolation may result in negative values
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
@@ -597,6 +599,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # spline interpolation may result in negative values
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From aced2256170f60e6e3cfcca81b0ca13d1752a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 17/63] fix: Bernoulli likelihood is zero outside of the
 interval [0, 1] and leaves the parameter grid unchanged

---
 bayesloop/observationModels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 10277c7..67b9644 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -427,15 +427,15 @@ class Bernoulli(ObservationModel):
         Returns:
             ndarray: Discretized Bernoulli pdf (with same shape as grid)
         """
-        temp = grid[0][:]  # make copy of parameter grid
-        temp[temp > 1.] = 0.  # p < 1
-        temp[temp < 0.] = 0.  # p > 0
+        temp = grid[0].copy()  # make copy of parameter grid
+        invalid = (temp > 1.) | (temp < 0.)  # parameter values are restricted to the interval [0, 1]
 
         if dataSegment[0]:
             pass  # pdf = p
         else:
             temp = 1. - temp  # pdf = 1 - p
 
+        temp[invalid] = 0.
         return temp
 
     def estimateParameterValues(self, name, rawData):
-- 
2.43.0


From 1d420cfdf09c5aadac350c9940cc57b4f356ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:31 +0000
Subject: [PATCH 18/63] fix: estimated parameter values of the Bernoulli model
 are compatible with its default prior

---
 bayesloop/observationModels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 67b9644..9623570 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -453,7 +453,8 @@ class Bernoulli(ObservationModel):
 
         if name == self.parameterNames[0]:
             # The parameter of the Bernoulli model is naturally constrained to the [0, 1] interval
-            return cint(0, 1, 1000)
+            # (boundaries are excluded as Jeffreys prior diverges there)
+            return oint(0, 1, 1000)
         else:
             raise ConfigurationError('Bernoulli model does not contain a parameter "{}".'.format(name))
 
-- 
2.43.0


From 80bbac616ae5199eea9a847abceadac06d20b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:35 +0000
Subject: [PATCH 19/63] fix: Poisson likelihood for float-typed data (e.g.
 lists, missing data) and large numbers of events

---
 bayesloop/observationModels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 9623570..90569f2 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -12,7 +12,7 @@ import sympy.abc as abc
 from sympy import lambdify
 from sympy.stats import density
 from .jeffreys import getJeffreysPrior
-from scipy.special import iv, factorial
+from scipy.special import iv, factorial, gammaln, xlogy
 from .exceptions import ConfigurationError, PostProcessingError
 from .helper import cint, oint, freeSymbols
 import warnings
@@ -500,7 +500,8 @@ class Poisson(ObservationModel):
         Returns:
             ndarray: Discretized Poisson pdf (with same shape as grid)
         """
-        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / (np.math.factorial(dataSegment[0]))
+        # computed in log-space to avoid overflow for large numbers of events
+        return np.exp(xlogy(dataSegment[0], grid[0]) - grid[0] - gammaln(dataSegment[0] + 1.))
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From 97139bbad3d38f90fbe8cd9b4a828644d9a164ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:04 +0000
Subject: [PATCH 20/63] fix: pass time stamp of the preceding time step to
 time-dependent transition models in OnlineStudy

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 766a075..4caa5e8 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2184,7 +2184,7 @@ class OnlineStudy(HyperStudy):
                     alphai = prior*likelihood
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
-                                                                      len(self.formattedData)-1)*likelihood
+                                                                      self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
                 # update log-evidence list
-- 
2.43.0


From e0ac1d4ee17d6034dbafacf7906b61029c5661bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:08 +0000
Subject: [PATCH 21/63] fix: OnlineStudy.getParameterMeanValue and density
 keyword of OnlineStudy.getPD

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 4caa5e8..ede6a62 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2283,7 +2283,7 @@ class OnlineStudy(HyperStudy):
         """
         See :meth:`.OnlineStudy.getParameterDistribution`.
         """
-        return self.getParameterDistribution(t, name, plot=plot, **kwargs)
+        return self.getParameterDistribution(t, name, plot=plot, density=density, **kwargs)
 
     def getCurrentParameterDistribution(self, name, plot=False, density=True, **kwargs):
         """
@@ -2559,7 +2559,7 @@ class OnlineStudy(HyperStudy):
 
         parameterDistribution = self.posteriorSequence[timeIndex]
 
-        mean = np.sum(parameterDistribution[t] * self.grid[paramIndex])
+        mean = np.sum(parameterDistribution * self.grid[paramIndex])
         return mean
 
     def getParameterMeanValues(self, name):
-- 
2.43.0


From 44cdff6508000a4e6b5a179bf46ebf89a433b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:11 +0000
Subject: [PATCH 22/63] fix: OnlineStudy hyper-parameter distributions return
 probabilities for past and averaged time steps

---
 bayesloop/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index ede6a62..55f4fcd 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2701,7 +2701,8 @@ class OnlineStudy(HyperStudy):
         # access hyper-parameter distribution
         if t == 'avg':
             # compute time-averaged distribution
-            hyperParameterDistribution = np.sum(self.hyperParameterSequence, axis=0)/len(self.hyperParameterSequence)
+            hyperParameterDistribution = [np.mean([x[i] for x in self.hyperParameterSequence], axis=0)
+                                          for i in range(len(self.transitionModels))]
         else:
             # try to access distribution of specified time step
             if t not in self.formattedTimestamps:
@@ -2715,9 +2716,10 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])  # prob., not density
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
@@ -2773,10 +2775,10 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])  # prob., not density
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From 247886998b1ed05aef69067b071e2af521d361f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 23/63] fix: hyper-parameter distributions are not altered by
 accessing them repeatedly

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 55f4fcd..fa2d6eb 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1582,7 +1582,7 @@ class HyperStudy(Study):
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)  # convert to prob. (from density)
 
         x = self.flatHyperParameters[paramIndex]
         if plot:
@@ -1658,7 +1658,7 @@ class HyperStudy(Study):
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)  # convert to prob. (from density)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
         if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
-- 
2.43.0


From 40c7984dbb7c548c03368728f3552e8acd1bf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:07 +0000
Subject: [PATCH 24/63] fix: transition model distribution returned to the user
 is not overwritten by subsequent steps

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index fa2d6eb..7e2ecc2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2414,9 +2414,9 @@ class OnlineStudy(HyperStudy):
             ndarray, ndarray: Arrays of transition model names and normalized probabilities.
         """
         if local:
-            return np.array(self.transitionModelNames), self.localTransitionModelDistribution
+            return np.array(self.transitionModelNames), self.localTransitionModelDistribution.copy()
         else:
-            return np.array(self.transitionModelNames), self.transitionModelDistribution
+            return np.array(self.transitionModelNames), self.transitionModelDistribution.copy()
 
     def getCTMD(self, local=False):
         """
-- 
2.43.0


From a4738ee40783013a9245bece9d61b8cc029bff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:12 +0000
Subject: [PATCH 25/63] fix: OnlineStudy remains usable after a failed request
 for parameter distributions

---
 bayesloop/core.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7e2ecc2..181bd90 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2272,11 +2272,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPD(self, t, name, plot=False, density=True, **kwargs):
@@ -2363,11 +2364,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPDs(self, name, plot=False, density=True, **kwargs):
@@ -2396,12 +2398,13 @@ class OnlineStudy(HyperStudy):
         self.posteriorMeanValues = np.array(self.posteriorMeanValues).T
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorMeanValues = list(self.posteriorMeanValues.T)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorMeanValues = list(self.posteriorMeanValues.T)
+            self.posteriorSequence = list(self.posteriorSequence)
 
     def getCurrentTransitionModelDistribution(self, local=False):
         """
-- 
2.43.0


From c7d7b02142086d93aceeb9473cee04a8ded6a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:46 +0000
Subject: [PATCH 26/63] fix: sequence of parameter distributions for a single
 time step; plotting does not alter results

---
 bayesloop/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 181bd90..d399860 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -957,7 +957,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if not np.all(dt == dt[:1]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -981,8 +981,7 @@ class Study(object):
 
         x = self.marginalGrid[paramIndex]
         dx = self.latticeConstant[paramIndex]
-        marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize))
 
         if density:
             marginalPosteriorSequence /= dx
@@ -1026,7 +1025,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if not np.all(dt == dt[:1]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -1047,7 +1046,7 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize))
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize))
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From fe717343b938bec37876a930a2a98f17fdf6f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:51 +0000
Subject: [PATCH 27/63] fix: detect equally spaced (hyper-)parameter values
 independent of their scale

---
 bayesloop/core.py   |  7 +++----
 bayesloop/helper.py | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d399860..48e5c01 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -23,7 +23,7 @@ from copy import copy, deepcopy
 from collections import OrderedDict
 from collections.abc import Iterable
 from tqdm.auto import tqdm
-from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols
+from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols, isEquallySpaced
 from .preprocessing import movingWindow
 from .observationModels import ObservationModel
 from .transitionModels import TransitionModel, CombinedTransitionModel, SerialTransitionModel
@@ -159,7 +159,7 @@ class Study(object):
             self.boundaries.append([v[0], v[-1]])
 
             # check if parameter values are equally spaced
-            if np.any(np.abs(np.diff(np.diff(v))) > 10 ** -10):
+            if not isEquallySpaced(v):
                 print('! WARNING: Supplied parameter values for "{}" are not equally spaced. Assuming categorical '
                       'parameter.'.format(n))
                 self.latticeConstant.append(1.)
@@ -1174,8 +1174,7 @@ class HyperStudy(Study):
             if isinstance(values, Iterable) and len(values) > 1:
                 a = np.array(values)
                 d = a[1:] - a[:-1]
-                dd = d[1:] - d[:-1]
-                if np.all(np.abs(dd) < 10 ** -10):  # for equally spaced values, set difference as grid-constant
+                if isEquallySpaced(a):  # for equally spaced values, set difference as grid-constant
                     self.hyperGridConstant.append(np.abs(d[0]))
                 else:  # for irregularly spaced values (e.g. categorical), set grid-constant to 1
                     self.hyperGridConstant.append(1)
diff --git a/bayesloop/helper.py b/bayesloop/helper.py
index f9fa49a..c5d3e3f 100644
--- a/bayesloop/helper.py
+++ b/bayesloop/helper.py
@@ -119,6 +119,23 @@ def cint(start, stop, num):
     """
     return np.linspace(start, stop, num)
 
+
+def isEquallySpaced(values):
+    """
+    Checks whether (hyper-)parameter values form a regular grid, up to floating point precision (relative to the scale
+    of the supplied values).
+
+    Args:
+        values(ndarray): (hyper-)parameter values
+
+    Returns:
+        bool: True, if values are equally spaced
+    """
+    values = np.array(values, dtype=float)
+    tolerance = 10**-10*np.ptp(values) + 8*np.finfo(float).eps*np.amax(np.abs(values))
+    return bool(np.all(np.abs(np.diff(values, n=2)) <= tolerance))
+
+
 def freeSymbols(rv):
     """
     Extracts the free symbols/parameters of a probability distribution from a SymPy random variable, independent of the
-- 
2.43.0


From b387848218f6db26c7691eb2b349339269bcc00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:23 +0000
Subject: [PATCH 28/63] fix: do not silently ignore parts of a query that
 cannot be parsed

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index dfb3fe8..b4c1f77 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -384,7 +384,7 @@ class Parser:
                                      'or none to obtain derived distribution.')
 
         # evaluate left side
-        parsedString = self.expr.parseString(reducedQuery).asList()[0]
+        parsedString = self.expr.parseString(reducedQuery, parseAll=True).asList()[0]
         derivedParameter = self._evaluate(parsedString)
 
         # if no relational operator in query, compute derived distribution
-- 
2.43.0


From a28442284d6b7795b832629d157bbb00cbf6ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:27 +0000
Subject: [PATCH 29/63] fix: parser looks up time stamps in the respective
 study

---
 bayesloop/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index b4c1f77..9bb1e2a 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -284,10 +284,10 @@ class Parser:
                                                          time=study.formattedTimestamps[-1],
                                                          study=study))
         else:
-            # compute index of timestamp
-            timeIndex = list(self.studies[0].formattedTimestamps).index(t)
-
             for study in self.studies:
+                # compute index of timestamp
+                timeIndex = list(study.formattedTimestamps).index(t)
+
                 names = study.observationModel.parameterNames
                 for i, name in enumerate(names):
                     index = study.observationModel.parameterNames.index(name)
@@ -332,7 +332,7 @@ class Parser:
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
-                                timeIndex = list(self.studies[0].formattedTimestamps).index(t)
+                                timeIndex = list(study.formattedTimestamps).index(t)
 
                                 dist = study.hyperParameterSequence[timeIndex][j] / \
                                        np.sum(study.hyperParameterSequence[timeIndex][j])
-- 
2.43.0


From 6513979511834b75e20a03f11372fe98173070ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:32 +0000
Subject: [PATCH 30/63] fix: parser combines (hyper-)parameters at different
 time steps as independent variables

---
 bayesloop/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 9bb1e2a..05b84d4 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -236,9 +236,10 @@ class Parser:
             # compute compound distribution of two (hyper-)parameters
             if (type(a) == Parameter and type(b) == Parameter and (not (a.study is b.study) or
                                                                        (a.study is None and b.study is None) or
-                                                                       (a.name == b.name and not (a.time == b.time)))) or \
+                                                                       not (a.time == b.time))) or \
                     (type(a) == HyperParameter and type(b) == HyperParameter and (not (a.study is b.study) or
-                                                                                      (a.study is None and b.study is None))) or \
+                                                                                      (a.study is None and b.study is None) or
+                                                                                      not (a.time == b.time))) or \
                     ((type(a) == HyperParameter) and (type(b) == Parameter) or
                              (type(b) == HyperParameter) and (type(a) == Parameter)):
 
-- 
2.43.0


From fb8c8a95bef97237c5378cf8a3ae0ecd0736255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:36 +0000
Subject: [PATCH 31/63] fix: evaluate queries that consist of a single
 parameter, function or sign; remove debug output

---
 bayesloop/parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 05b84d4..1f4db4d 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -137,6 +137,14 @@ class Parser:
         Returns:
             Derived Parameter instance
         """
+        # query consists of a single (hyper-)parameter or number
+        if isinstance(parsedString, str):
+            return self._convert(parsedString)
+
+        # query consists of a single unary operation or function
+        if len(parsedString) == 2:
+            return self._evaluate(['1', '*', parsedString])
+
         # cases like "3*3*2" are split into "(3*3)*2"
         if len(parsedString) > 3:
             while len(parsedString) > 3:
@@ -395,9 +403,6 @@ class Parser:
             dmax = np.nanmax(derivedParameter)
 
             # bin size is chosen as maximal difference between two derived values
-            print(f"dmax {dmax}")
-            print(f"dmin {dmin}")
-            print(np.diff(np.sort(derivedParameter)))
             nBins = int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter)))))
             bins = np.linspace(dmin, dmax, nBins)
             binnedValues = bins[:-1] + (bins[1]-bins[0])
-- 
2.43.0


From 263e69624c25839f1ea7deb1ef0a6f11d755f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:41 +0000
Subject: [PATCH 32/63] fix: derived distributions include the largest value
 and are reported at bin centers

---
 bayesloop/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 1f4db4d..0ef3d2b 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -405,7 +405,7 @@ class Parser:
             # bin size is chosen as maximal difference between two derived values
             nBins = int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter)))))
             bins = np.linspace(dmin, dmax, nBins)
-            binnedValues = bins[:-1] + (bins[1]-bins[0])
+            binnedValues = bins[:-1] + (bins[1]-bins[0])/2.  # bin centers
             binnedProbs = []
 
             if not silent:
@@ -415,7 +415,10 @@ class Parser:
                 it = zip(bins[:-1], bins[1:])
 
             for lower, upper in it:
-                binnedProbs.append(np.sum(derivedParameter.prob[(derivedParameter >= lower) * (derivedParameter < upper)]))
+                inBin = (derivedParameter >= lower) * (derivedParameter < upper)
+                if upper == bins[-1]:  # last bin includes upper boundary
+                    inBin += (derivedParameter == upper)
+                binnedProbs.append(np.sum(derivedParameter.prob[inBin]))
             binnedProbs = np.array(binnedProbs)
 
             return binnedValues, binnedProbs
-- 
2.43.0


From a2276b07671c1a56d9da4ab1072f40d43298d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 33/63] fix: accept integer weights as transition model prior

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 48e5c01..5a4c5f3 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2068,7 +2068,7 @@ class OnlineStudy(HyperStudy):
             raise ConfigurationError('Length of transition model prior ({}) does not fit number of transition models '
                                      '({})'.format(len(transitionModelPrior), len(self.transitionModels)))
 
-        self.transitionModelPrior = np.array(transitionModelPrior)
+        self.transitionModelPrior = np.array(transitionModelPrior, dtype=float)
 
         if not np.sum(transitionModelPrior) == 1.:
             print('+ WARNING: Transition model prior does not sum up to one. Will re-normalize.')
-- 
2.43.0


From 3511438b840dfe29cc4b2284e8c8468dc1eba701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:04 +0000
Subject: [PATCH 34/63] fix: not-equal model handles flat parameter
 distributions

---
 bayesloop/transitionModels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 948f79d..07d5b04 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -460,7 +460,9 @@ class NotEqual(TransitionModel):
         limit = (10**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
-        newPrior /= np.sum(newPrior)
+        norm = np.sum(newPrior)
+        if norm > 0.:  # the inverse of a flat distribution is flat again (set by minimal probability below)
+            newPrior /= norm
         newPrior[newPrior < limit] = limit
 
         # transformation above violates proper normalization; re-normalization needed
-- 
2.43.0


From 1b94dd84415a0e2b665e66e5d8d31b1ac6daf33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:31 +0000
Subject: [PATCH 35/63] fix: SymPy observation models may contain a parameter
 called x

---
 bayesloop/jeffreys.py          | 5 ++---
 bayesloop/observationModels.py | 7 +++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/bayesloop/jeffreys.py b/bayesloop/jeffreys.py
index 457ba23..a2e27fc 100644
--- a/bayesloop/jeffreys.py
+++ b/bayesloop/jeffreys.py
@@ -6,9 +6,8 @@ distribution defined within SymPy.
 
 from __future__ import division, print_function
 import numpy as np
-import sympy.abc as abc
 from sympy.stats import density
-from sympy import Symbol, Matrix, simplify, diff, integrate, summation, lambdify
+from sympy import Dummy, Symbol, Matrix, simplify, diff, integrate, summation, lambdify
 from sympy import ln, sqrt
 from .helper import freeSymbols
 from .exceptions import ConfigurationError, PostProcessingError
@@ -40,7 +39,7 @@ def getJeffreysPrior(rv):
 
     # get list of free parameters
     parameters = freeSymbols(rv)
-    x = abc.x
+    x = Dummy('x')  # dummy symbol cannot be mixed up with any parameter
 
     # symbolic probability density function
     symPDF = density(rv)(x)
diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 90569f2..6fc971d 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -8,8 +8,7 @@ how the time-varying parameter change over time.
 
 from __future__ import division, print_function
 import numpy as np
-import sympy.abc as abc
-from sympy import lambdify
+from sympy import Dummy, lambdify
 from sympy.stats import density
 from .jeffreys import getJeffreysPrior
 from scipy.special import iv, factorial, gammaln, xlogy
@@ -371,8 +370,8 @@ class SymPy(ObservationModel):
             else:
                 self.prior = None
 
-        # provide lambda function for probability density
-        x = abc.x
+        # provide lambda function for probability density (dummy symbol cannot be mixed up with any parameter)
+        x = Dummy('x')
         symDensity = density(rv)(x)
         self.density = lambdify([x]+rvParamsSorted, symDensity,
                                 modules=['numpy', {'factorial': factorial, 'besseli': iv}])
-- 
2.43.0


From 6fbe57a48729bf38575461e4c04d027e4998071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:13 +0000
Subject: [PATCH 36/63] fix: SymPy observation models with gamma functions
 (Gamma, Beta, Student-t, ...)

---
 bayesloop/observationModels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 6fc971d..e87f45a 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -11,7 +11,7 @@ import numpy as np
 from sympy import Dummy, lambdify
 from sympy.stats import density
 from .jeffreys import getJeffreysPrior
-from scipy.special import iv, factorial, gammaln, xlogy
+from scipy.special import iv, factorial, gamma, gammaln, xlogy
 from .exceptions import ConfigurationError, PostProcessingError
 from .helper import cint, oint, freeSymbols
 import warnings
@@ -374,7 +374,7 @@ class SymPy(ObservationModel):
         x = Dummy('x')
         symDensity = density(rv)(x)
         self.density = lambdify([x]+rvParamsSorted, symDensity,
-                                modules=['numpy', {'factorial': factorial, 'besseli': iv}])
+                                modules=[{'factorial': factorial, 'besseli': iv, 'gamma': gamma}, 'numpy'])
 
     def pdf(self, grid, dataSegment):
         """
-- 
2.43.0


From 86818bee34b63618a06337990b9ea454c88a77dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:28 +0000
Subject: [PATCH 37/63] fix: not-equal model accepts arrays of integer
 hyper-parameter values

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 07d5b04..1d8911b 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -457,7 +457,7 @@ class NotEqual(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         newPrior = posterior.copy()
-        limit = (10**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
+        limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
         norm = np.sum(newPrior)
-- 
2.43.0


From 36cdb04d70e23a39c3ed7d65207c1c2ec9a57655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:23 +0000
Subject: [PATCH 38/63] fix: (joint) distributions of hyper-parameters with a
 single value

---
 bayesloop/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5a4c5f3..f09b009 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1579,10 +1579,10 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.sum(distribution, axis=tuple(axesToMarginalize))
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)  # convert to prob. (from density)
 
-        x = self.flatHyperParameters[paramIndex]
+        x = np.atleast_1d(self.flatHyperParameters[paramIndex])
         if plot:
             # check if categorical
             if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
@@ -1655,10 +1655,10 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.sum(distribution, axis=tuple(axesToMarginalize))
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)  # convert to prob. (from density)
 
-        x, y = [self.flatHyperParameters[i] for i in paramIndices]
+        x, y = [np.atleast_1d(self.flatHyperParameters[i]) for i in paramIndices]
         if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
             x2 = np.tile(np.arange(len(x)), (len(y), 1)).T
         else:
-- 
2.43.0


From 76f8beb58be9b5385467aacca8f40459d6737534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:26 +0000
Subject: [PATCH 39/63] fix: duration distribution for more than two
 change-points

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f09b009..78b469c 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1923,7 +1923,7 @@ class ChangepointStudy(HyperStudy):
 
         # loop over all hyper-grid points and collect probabilities for different durations
         for i, values in enumerate(self.allHyperGridValues[:, paramIndices]):
-            if values[1] > values[0]:
+            if self.mask[i] and values[1] > values[0]:  # consider valid combinations only
                 # get matching index in duration (rounding needed because of finite precision)
                 idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
                 durationDistribution[idx] += self.hyperParameterDistribution[i]
-- 
2.43.0


From 5c055c16a6a23f762d2be379e7ec4762fb6ddba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:50 +0000
Subject: [PATCH 40/63] fix: distributions of hyper-parameters with a single
 value in OnlineStudy

---
 bayesloop/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 78b469c..c4b4222 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2719,10 +2719,10 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.sum(distribution, axis=tuple(axesToMarginalize))
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])  # prob., not density
 
-        x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
+        x = np.atleast_1d(self.allFlatHyperParameterValues[tmIndex][hpIndex])
         if plot:
             # check if categorical
             if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
@@ -2778,10 +2778,10 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.sum(distribution, axis=tuple(axesToMarginalize))
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])  # prob., not density
 
-        x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
+        x = np.atleast_1d(self.allFlatHyperParameterValues[tmIndex][hpIndex])
         if plot:
             # check if categorical
             if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
-- 
2.43.0


From 27b4045fec5d224a5d4f41881229aeff1114afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:41 +0000
Subject: [PATCH 41/63] fix: parameter names that begin with the name of a
 function in queries

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 0ef3d2b..7335672 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -109,7 +109,7 @@ class Parser:
                 pass
 
         # initialize operators for parsing
-        funcop = pp.oneOf(self.functions)
+        funcop = pp.oneOf(self.functions, asKeyword=True)  # must not match the beginning of parameter names
         atop = pp.Literal('@')
         expop = pp.Literal('^')
         signop = pp.oneOf('+ -')
-- 
2.43.0


From 3b0bb3fd4e50cf32b45c4ccd4f3b45233cbbc84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:24 +0000
Subject: [PATCH 42/63] fix: left side of (in-)equality is evaluated as a unit
 in queries

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 7335672..9f786c9 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -387,7 +387,7 @@ class Parser:
         elif len(splitQuery) == 2:
             # last arithmetic may be omitted in some cases if right side is appended to the left, needs to come first
             #reducedQuery = '-'.join(splitQuery)
-            reducedQuery = '-1*('+splitQuery[1]+')+'+splitQuery[0]
+            reducedQuery = '-1*('+splitQuery[1]+')+('+splitQuery[0]+')'
         else:
             raise ConfigurationError('Use exactly one operator out of (<, >, <=, >=, ==) to obtain probability value, '
                                      'or none to obtain derived distribution.')
-- 
2.43.0


From eda75eb0aa395f3bff8f6623a1bc28b53d5173ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:24 +0000
Subject: [PATCH 43/63] fix: optimization does not select change-points if
 there are no other hyper-parameters

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c4b4222..53f28b8 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -528,8 +528,8 @@ class Study(object):
                      list(flatten(self._unpackBreakpointNames(self.transitionModel)))
             self.selectedHyperParameters = [x for x in allHyperParameters if x not in points]
 
-        # create parameter list to set start values for optimization
-        x0 = self._unpackSelectedHyperParameters()
+        # create parameter list to set start values for optimization (empty, if there are only change/break-points)
+        x0 = self._unpackSelectedHyperParameters() if self.selectedHyperParameters else []
 
         # check if valid parameter names were entered
         if len(x0) == 0:
-- 
2.43.0


From 938f1e5ec24236801980f83ec459b4e183aa4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:05 +0000
Subject: [PATCH 44/63] fix: simulation of observations that consist of several
 values (GaussianMean)

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 53f28b8..b250b55 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -599,7 +599,7 @@ class Study(object):
             post = self.posteriorSequence[timeIndex]
 
         # compute distribution of observations/data at the given points x
-        prob = np.array([np.sum(self.observationModel.pdf(self.grid, [xi]) * post) for xi in x])
+        prob = np.array([np.sum(self.observationModel.pdf(self.grid, np.array([xi])) * post) for xi in x])
 
         if not density:
             prob /= np.sum(prob)
-- 
2.43.0


From 4ce1ad2a35386242681f2d617fcb9e6babd23b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:16 +0000
Subject: [PATCH 45/63] fix: transition model instances that are shared between
 studies

---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b250b55..37339a0 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -345,6 +345,10 @@ class Study(object):
         """
         self._checkConsistency()
 
+        # transition model may also have been set in another study in the meantime
+        self.transitionModel.study = self
+        self.transitionModel.latticeConstant = self.latticeConstant
+
         if not silent:
             print('+ Started new fit:')
 
-- 
2.43.0


From 9c4914701829029860c6359a29c05dfea0d03e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:41 +0000
Subject: [PATCH 46/63] fix: OnlineStudy does not overwrite the hyper-parameter
 values of transition models

---
 bayesloop/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 37339a0..5c2adab 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2171,6 +2171,9 @@ class OnlineStudy(HyperStudy):
         for i, (tm, hpv) in enumerate(zip(self.transitionModels, self.hyperParameterValues)):
             self.setTransitionModel(tm, silent=True)  # set current transition model
 
+            # store hyper-parameter values as set by the user (individual values are set below)
+            userDefinedHyperParameters = self._unpackAllHyperParameters()
+
             # account for transition models with no hyper-parameters
             if len(hpv) == 0:
                 hpv = [None]
@@ -2196,6 +2199,9 @@ class OnlineStudy(HyperStudy):
                 # store parameter posterior
                 self.parameterPosterior[i][j] = alphai/ni
 
+            # restore hyper-parameter values
+            self._setAllHyperParameters(userDefinedHyperParameters)
+
             # marginalize model evidence wrt hyper-parameters, for all past data points and only for the current one
             oldHyperEvidence = self.hyperLogEvidenceList[i]
             self.hyperLogEvidenceList[i] = logsumexp(self.logEvidenceList[i] + np.log(self.hyperPriorValues[i]))
-- 
2.43.0


From 2d70eec5e84c971c2eac5b008b7b036bb6c0fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:47 +0000
Subject: [PATCH 47/63] fix: hyper-parameter values are restored if fit of
 hyper-study fails

---
 bayesloop/core.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5c2adab..8a01626 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1359,8 +1359,12 @@ class HyperStudy(Study):
                 for i, hyperParamValues in enum:
                     self._setSelectedHyperParameters(hyperParamValues)
 
-                    # call fit method from parent class
-                    Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
+                    # call fit method from parent class (restore hyper-parameter values if fit fails or is interrupted)
+                    try:
+                        Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
+                    except BaseException:
+                        self._setAllHyperParameters(userDefinedHyperParameters)
+                        raise
 
                     self.logEvidenceList.append(self.logEvidence)
                     self.localEvidenceList.append(self.localEvidence)
@@ -1453,10 +1457,11 @@ class HyperStudy(Study):
                 self._setAllHyperParameters(self.hyperGridValues[0])
                 self.hyperParameterDistribution = np.ones(1)/np.prod(self.hyperGridConstant)  # probability density
 
-            Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
-
-            if len(self.hyperGridValues) == 1:
-                self._setAllHyperParameters(userDefinedHyperParameters)
+            try:
+                Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
+            finally:
+                if len(self.hyperGridValues) == 1:
+                    self._setAllHyperParameters(userDefinedHyperParameters)
 
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
         """
-- 
2.43.0


From 48ea5f00055b5afd13f9bb5636d1a9c9b204b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:36 +0000
Subject: [PATCH 48/63] fix: study keeps its observation model if parameter
 values of a new one cannot be estimated

---
 bayesloop/core.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 8a01626..cb0272e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -136,24 +136,27 @@ class Study(object):
             L: Observation model class (see observationModels.py)
             silent(bool): If set to True, no output is generated by this method.
         """
-        self.observationModel = L
-
-        # prepare parameter grid
-        self.marginalGrid = []
-        self.gridSize = []
-        self.boundaries = []
-        self.latticeConstant = []
-        for v, n in zip(self.observationModel.parameterValues, self.observationModel.parameterNames):
+        # determine parameter values (before changing the study, in case they cannot be estimated)
+        parameterValues = []
+        for v, n in zip(L.parameterValues, L.parameterNames):
             if v is None:  # if user has not specified parameter values, we try to estimate them
                 try:
-                    v = self.observationModel.estimateParameterValues(n, self.rawData)
+                    v = L.estimateParameterValues(n, self.rawData)
                     print('+ Estimated parameter interval for "{}": [{}, {}] ({} values).'
                           .format(n, v[0], v[-1], len(v)))
                 except:
                     raise ConfigurationError('Could not estimate parameter values for "{}".'.format(n))
 
-            v = np.array(v, dtype=float)  # inference algorithm needs floats
+            parameterValues.append(np.array(v, dtype=float))  # inference algorithm needs floats
 
+        self.observationModel = L
+
+        # prepare parameter grid
+        self.marginalGrid = []
+        self.gridSize = []
+        self.boundaries = []
+        self.latticeConstant = []
+        for v, n in zip(parameterValues, L.parameterNames):
             self.marginalGrid.append(v)
             self.gridSize.append(len(v))
             self.boundaries.append([v[0], v[-1]])
-- 
2.43.0


From 19c073ab8e86b12dd116120a444b849bc0adf2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:43 +0000
Subject: [PATCH 49/63] fix: set() checks all arguments before changing the
 study

---
 bayesloop/core.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index cb0272e..a360f21 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -312,26 +312,30 @@ class Study(object):
         # For Python 2 compatibility (no argument with default value after *args)
         silent = kwargs.pop('silent', False)
 
-        om = False
-        tm = False
+        # check all arguments before changing the study
+        observationModels = []
+        transitionModels = []
 
         for model in args:
             if ObservationModel in model.__class__.__bases__:
-                if om:
+                if len(observationModels) > 0:
                     raise ConfigurationError('More than one observation model supplied.')
-                om = True
-                self.setObservationModel(model, silent=silent)
+                observationModels.append(model)
 
             elif TransitionModel in model.__class__.__bases__:
-                if tm:
+                if len(transitionModels) > 0:
                     raise ConfigurationError('More than one transition model supplied.')
-
-                tm = True
-                self.setTransitionModel(model, silent=silent)
+                transitionModels.append(model)
 
             else:
                 raise ConfigurationError('Expected observation model or transition model instance as first argument.')
 
+        for model in args:
+            if model in observationModels:
+                self.setObservationModel(model, silent=silent)
+            else:
+                self.setTransitionModel(model, silent=silent)
+
     def fit(self, forwardOnly=False, evidenceOnly=False, silent=False):
         """
         Computes the sequence of posterior distributions and evidence for each time step. Evidence is also computed for
-- 
2.43.0


From 8781fb62478385ad69dd2f3acfafb82372322173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:37 +0000
Subject: [PATCH 50/63] fix: OnlineStudy does not keep data points that cannot
 be processed

---
 bayesloop/core.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a360f21..7640974 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2097,6 +2097,21 @@ class OnlineStudy(HyperStudy):
         """
         Update the current parameter distribution by adding a new data point to the data set.
 
+        Args:
+            dataPoint(float, int, ndarray): Float, int, or 1D-array of those (for multidimensional data).
+        """
+        # if the data point cannot be processed (e.g. because of an invalid prior), it is not added to the data set
+        data = self.rawData, self.rawTimestamps, copy(self.formattedTimestamps)
+        try:
+            self._processDataPoint(dataPoint)
+        except Exception:
+            self.rawData, self.rawTimestamps, self.formattedTimestamps = data
+            raise
+
+    def _processDataPoint(self, dataPoint):
+        """
+        This method is called by the step method.
+
         Args:
             dataPoint(float, int, ndarray): Float, int, or 1D-array of those (for multidimensional data).
         """
-- 
2.43.0


From 472a636222001ab983d935b101587643786f6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:57 +0000
Subject: [PATCH 51/63] fix: HyperStudy and ChangepointStudy check for missing
 data and models first

---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7640974..b29befd 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1276,6 +1276,7 @@ class HyperStudy(Study):
             customHyperGrid(bool): If set to true, the method "_createHyperGrid" is not called before starting the fit.
                 This is used by the class "ChangepointStudy", which employs a custom version of "_createHyperGrid".
         """
+        self._checkConsistency()
         self.fitWarningCounter = 0
 
         # store hyper-parameter values as set by the user (individual values are set during fitting)
@@ -1303,8 +1304,6 @@ class HyperStudy(Study):
                                                  'overlapping value intervals. Use "ChangepointStudy" instead of '
                                                  '"HyperStudy" for such cases.')
 
-        self._checkConsistency()
-
         if not evidenceOnly:
             # The average posterior distribution is stored in log-space for numerical stability. This way, it can be
             # updated iteratively without storing all individual posterior distributions (after the iteration over all
@@ -1809,6 +1808,8 @@ class ChangepointStudy(HyperStudy):
             silent(bool): If set to True, reduced output is generated by the fitting method.
             nJobs(int): Number of processes to employ. Multiprocessing is based on the 'pathos' module.
         """
+        self._checkConsistency()
+
         # format data/timestamps once, so number of data segments is known
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
         self.formattedTimestamps = self.rawTimestamps[self.observationModel.segmentLength - 1:]
-- 
2.43.0


From e2239142cac0df630170d3c8fa4eb7873840ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:12 +0000
Subject: [PATCH 52/63] fix: deterministic transition models without
 keyword-arguments

---
 bayesloop/transitionModels.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 1d8911b..dd7bc33 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -512,9 +512,10 @@ class Deterministic(TransitionModel):
 
         # create ordered dictionary of hyper-parameters from keyword-arguments of function
         argspec = getargspec(self.function)
+        defaults = argspec.defaults or ()  # None, if there are no keyword-arguments
 
         # only keyword arguments are allowed
-        if not len(argspec.args) == len(argspec.defaults)+1:
+        if not len(argspec.args) == len(defaults)+1:
             raise ConfigurationError('Function to define deterministic transition model can only contain one '
                                      'non-keyword argument (time; first argument) and keyword-arguments '
                                      '(hyper-parameters) with default values.')
@@ -522,7 +523,7 @@ class Deterministic(TransitionModel):
         # define hyper-parameters of transition model
         self.hyperParameterNames = []
         self.hyperParameterValues = []
-        for arg, default in zip(argspec.args[1:], argspec.defaults):
+        for arg, default in zip(argspec.args[1:], defaults):
             if isinstance(default, (list, tuple)):
                 default = np.array(default)
             self.hyperParameterNames.append(arg)
@@ -530,14 +531,14 @@ class Deterministic(TransitionModel):
 
         if prior is None:
             # provide as many "None"-priors as there are hyper-parameters
-            self.prior = [None]*len(argspec.defaults)
+            self.prior = [None]*len(defaults)
         else:
             # if list of priors is supplied, check length
             if isinstance(prior, Iterable):
-                if not len(prior) == len(argspec.defaults):
+                if not len(prior) == len(defaults):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
-                                             .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                                             .format(len(prior), self.function.__name__, len(defaults)))
                 self.prior = prior
             # if single prior is defined, pack it in a list
             else:
-- 
2.43.0


From fbb3026d7007718b5a57fbcef52306fd1b5e3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:25 +0000
Subject: [PATCH 53/63] fix: Jeffreys prior for AR1 processes (number of data
 points, parametrisation of ScaledAR1)

---
 bayesloop/jeffreys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayesloop/jeffreys.py b/bayesloop/jeffreys.py
index a2e27fc..e61590f 100644
--- a/bayesloop/jeffreys.py
+++ b/bayesloop/jeffreys.py
@@ -83,9 +83,11 @@ def computeJeffreysPriorAR1(study, t=1):
     """
     if str(study.observationModel) == 'Autoregressive process of first order (AR1)':
         r, s = study.grid
+        scaling = 1.
     elif str(study.observationModel) == 'Scaled autoregressive process of first order (AR1)':
         r, s = study.grid
         s = s*np.sqrt(1 - r**2.)
+        scaling = np.sqrt(1 - r**2.)  # derivative of AR1 noise amplitude with respect to parameter of ScaledAR1 model
     else:
         raise ConfigurationError('Jeffreys prior for autoregressive process can only be used with AR1 and ScaledAR1 '
                                  'models.')
@@ -102,6 +104,7 @@ def computeJeffreysPriorAR1(study, t=1):
     d0 = study.rawData[t-1]  # first observation is accounted for in the prior
     n = len(study.rawData)  # number of data points
 
-    prior = (1/s**2.)*np.exp(-d0**2.*(1-r**2.)/(2*s**2.))*(4*(r**2.)/(1-r**2.)+2*(n+1))**.5
+    prior = (1/s**2.)*np.exp(-d0**2.*(1-r**2.)/(2*s**2.))*(4*(r**2.)/(1-r**2.)+2*n)**.5
+    prior *= scaling
     prior /= np.sum(prior)
     return prior
-- 
2.43.0


From eea92ce67e8093cb8fb9e87ed6d499c23b802a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:12 +0000
Subject: [PATCH 54/63] fix: transition models re-used after being part of a
 serial transition model start at time zero

---
 bayesloop/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b29befd..cd12fdf 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -285,6 +285,7 @@ class Study(object):
         self.transitionModel = T
         self.transitionModel.study = self
         self.transitionModel.latticeConstant = self.latticeConstant
+        self.transitionModel.tOffset = 0  # may be set if the model has been part of a serial transition model before
         if not silent:
             print('+ Transition model: {}. Hyper-Parameter(s): {}'
                   .format(T, self._unpackAllHyperParameters(values=False)))
@@ -355,6 +356,7 @@ class Study(object):
         # transition model may also have been set in another study in the meantime
         self.transitionModel.study = self
         self.transitionModel.latticeConstant = self.latticeConstant
+        self.transitionModel.tOffset = 0  # may be set if the model has been part of a serial transition model before
 
         if not silent:
             print('+ Started new fit:')
-- 
2.43.0


From 290d3f40fc6fcbaf357f751d850b31f1bae6f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:40 +0000
Subject: [PATCH 55/63] fix: local evidence of the average model depends on the
 spacing of hyper-parameter values

---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index cd12fdf..d8d9473 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1430,6 +1430,7 @@ class HyperStudy(Study):
 
             # compute local evidence of average model
             self.localEvidence = np.sum((np.array(self.localEvidenceList).T*self.flatHyperPriorValues).T, axis=0)
+            self.localEvidence *= np.prod(self.hyperGridConstant)  # hyper-prior values are probability densities
 
             if not silent:
                 print('    + Computed local evidence of average model')
-- 
2.43.0


From 82428bc4d931220a17380f11d00b2f5f5977e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 56/63] fix: queries for the distribution of integer
 hyper-parameters (change-point times) raised an error

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 9f786c9..2cd84f5 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -21,7 +21,7 @@ class Parameter(np.ndarray):
     the grid of parameter values while keeping track of the corresponding probability grid and the parameter's origin.
     """
     def __new__(cls, values, prob, name=None, time=None, study=None):
-        obj = np.asarray(values).view(cls)
+        obj = np.asarray(values, dtype=float).view(cls)  # e.g. change-point times may be integers
         obj.prob = prob
         obj.name = name
         obj.time = time
-- 
2.43.0


From 18c16da51b0a5a0c4a02ff04bcc7fcec036da337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:27 +0000
Subject: [PATCH 57/63] fix: distribution queries of quantities with one or two
 distinct values failed

---
 bayesloop/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 2cd84f5..1b96e97 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -402,8 +402,10 @@ class Parser:
             dmin = np.nanmin(derivedParameter)
             dmax = np.nanmax(derivedParameter)
 
-            # bin size is chosen as maximal difference between two derived values
-            nBins = int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter)))))
+            # bin size is chosen as maximal difference between two derived values (there is at least one bin)
+            nBins = 2  # number of bin edges
+            if dmax > dmin:
+                nBins = max(nBins, int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter))))))
             bins = np.linspace(dmin, dmax, nBins)
             binnedValues = bins[:-1] + (bins[1]-bins[0])/2.  # bin centers
             binnedProbs = []
-- 
2.43.0


From 744361bb32afcf7eefdcce8e3761e5631a395ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:39 +0000
Subject: [PATCH 58/63] fix: OnlineStudy distributions became NaN if data is
 impossible for one of the models or hyper-parameter values

---
 bayesloop/core.py   | 33 +++++++++++++++++----------------
 bayesloop/helper.py | 17 +++++++++++++++++
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d8d9473..3ac4041 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -23,7 +23,8 @@ from copy import copy, deepcopy
 from collections import OrderedDict
 from collections.abc import Iterable
 from tqdm.auto import tqdm
-from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols, isEquallySpaced
+from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols, \
+    isEquallySpaced, normalizeLogProbabilities
 from .preprocessing import movingWindow
 from .observationModels import ObservationModel
 from .transitionModels import TransitionModel, CombinedTransitionModel, SerialTransitionModel
@@ -2218,17 +2219,19 @@ class OnlineStudy(HyperStudy):
                 # compute alpha_i
                 if self.firstStep:  # first time step, so use predefined prior
                     alphai = prior*likelihood
+                elif self.logEvidenceList[i][j] == -np.inf:  # hypothesis is already ruled out by past data points
+                    alphai = np.zeros(self.gridSize)
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
                                                                       self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
                 # update log-evidence list
-                self.logEvidenceList[i][j] += np.log(ni)
+                self.logEvidenceList[i][j] += np.log(ni) if ni > 0. else -np.inf
                 self.hyperParameterDistribution[i][j] = self.logEvidenceList[i][j] + np.log(self.hyperPriorValues[i][j])
 
-                # store parameter posterior
-                self.parameterPosterior[i][j] = alphai/ni
+                # store parameter posterior (normalization is not possible, if data has zero probability)
+                self.parameterPosterior[i][j] = alphai/ni if ni > 0. else 0.
 
             # restore hyper-parameter values
             self._setAllHyperParameters(userDefinedHyperParameters)
@@ -2237,13 +2240,14 @@ class OnlineStudy(HyperStudy):
             oldHyperEvidence = self.hyperLogEvidenceList[i]
             self.hyperLogEvidenceList[i] = logsumexp(self.logEvidenceList[i] + np.log(self.hyperPriorValues[i]))
             self.transitionModelDistribution[i] = self.hyperLogEvidenceList[i]
-            self.localTransitionModelDistribution[i] = self.hyperLogEvidenceList[i] - oldHyperEvidence + \
-                                                       np.log(self.transitionModelPrior[i])
+            if self.hyperLogEvidenceList[i] > -np.inf:
+                self.localTransitionModelDistribution[i] = self.hyperLogEvidenceList[i] - oldHyperEvidence + \
+                                                           np.log(self.transitionModelPrior[i])
+            else:
+                self.localTransitionModelDistribution[i] = -np.inf
 
             # normalize hyper-parameter distribution of current transition model
-            self.hyperParameterDistribution[i] -= np.amax(self.hyperParameterDistribution[i])
-            self.hyperParameterDistribution[i] = np.exp(self.hyperParameterDistribution[i])
-            self.hyperParameterDistribution[i] /= np.sum(self.hyperParameterDistribution[i])
+            self.hyperParameterDistribution[i] = normalizeLogProbabilities(self.hyperParameterDistribution[i])
             if len(self.hyperGridConstants[i]) > 0:
                 self.hyperParameterDistribution[i] /= np.prod(self.hyperGridConstants[i])
 
@@ -2256,13 +2260,8 @@ class OnlineStudy(HyperStudy):
                                                       np.prod(self.hyperGridConstants[i]), axis=0)
 
         # normalize (local) transition model distribution (and transform to linear space)
-        self.transitionModelDistribution -= np.amax(self.transitionModelDistribution)
-        self.transitionModelDistribution = np.exp(self.transitionModelDistribution)
-        self.transitionModelDistribution /= np.sum(self.transitionModelDistribution)
-
-        self.localTransitionModelDistribution -= np.amax(self.localTransitionModelDistribution)
-        self.localTransitionModelDistribution = np.exp(self.localTransitionModelDistribution)
-        self.localTransitionModelDistribution /= np.sum(self.localTransitionModelDistribution)
+        self.transitionModelDistribution = normalizeLogProbabilities(self.transitionModelDistribution)
+        self.localTransitionModelDistribution = normalizeLogProbabilities(self.localTransitionModelDistribution)
 
         # normalize marginalized parameter posterior
         tmd = deepcopy(self.transitionModelDistribution)
@@ -2272,6 +2271,8 @@ class OnlineStudy(HyperStudy):
 
         # compute log-evidence value marginalized over different transition models
         self.logEvidence = logsumexp(self.hyperLogEvidenceList + np.log(self.transitionModelPrior))
+        if self.logEvidence == -np.inf:
+            print('    ! WARNING: Data has zero probability for all transition models, check parameter boundaries!')
 
         # store results for future plotting
         if self.storeHistory:
diff --git a/bayesloop/helper.py b/bayesloop/helper.py
index c5d3e3f..e4b20f4 100644
--- a/bayesloop/helper.py
+++ b/bayesloop/helper.py
@@ -136,6 +136,23 @@ def isEquallySpaced(values):
     return bool(np.all(np.abs(np.diff(values, n=2)) <= tolerance))
 
 
+def normalizeLogProbabilities(logValues):
+    """
+    Transforms (un-normalized) log-probability values into normalized probability values.
+
+    Args:
+        logValues(ndarray): log-probability values
+
+    Returns:
+        ndarray: probability values (all zero, if all log-probability values are minus infinity)
+    """
+    if np.amax(logValues) == -np.inf:
+        return np.zeros(len(logValues))
+
+    values = np.exp(logValues - np.amax(logValues))  # we prefer underflows rather than overflows
+    return values/np.sum(values)
+
+
 def freeSymbols(rv):
     """
     Extracts the free symbols/parameters of a probability distribution from a SymPy random variable, independent of the
-- 
2.43.0


From 06c2e108e7ef06f668b1e6b42571d74339852b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:16 +0000
Subject: [PATCH 59/63] fix: (hyper-)priors defined by callable objects without
 a name (e.g. functools.partial) failed

---
 bayesloop/core.py   | 12 ++++++------
 bayesloop/helper.py | 13 +++++++++++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3ac4041..d45bd41 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -24,7 +24,7 @@ from collections import OrderedDict
 from collections.abc import Iterable
 from tqdm.auto import tqdm
 from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols, \
-    isEquallySpaced, normalizeLogProbabilities
+    isEquallySpaced, normalizeLogProbabilities, functionName
 from .preprocessing import movingWindow
 from .observationModels import ObservationModel
 from .transitionModels import TransitionModel, CombinedTransitionModel, SerialTransitionModel
@@ -234,10 +234,10 @@ class Study(object):
             values /= np.prod(self.latticeConstant)  # convert to prob. density
             if norm != 1.:
                 if not silent:
-                    print('    + Set prior (function): {}. Values have been re-normalized.'.format(prior.__name__))
+                    print('    + Set prior (function): {}. Values have been re-normalized.'.format(functionName(prior)))
             else:
                 if not silent:
-                    print('    + Set prior (function): {}'.format(prior.__name__))
+                    print('    + Set prior (function): {}'.format(functionName(prior)))
             return values
 
         # check whether single random variable is provided
@@ -1215,11 +1215,11 @@ class HyperStudy(Study):
                     priorValues /= gridConst
                 except:
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from function "{}".'
-                                             .format(name, prior.__name__))
+                                             .format(name, functionName(prior)))
                 if norm != 1.:
-                    priorNamesList.append(prior.__name__ + ' (re-normalized)')
+                    priorNamesList.append(functionName(prior) + ' (re-normalized)')
                 else:
-                    priorNamesList.append(prior.__name__)
+                    priorNamesList.append(functionName(prior))
 
             elif isinstance(prior, Iterable):  # prior specified by list/array
                 if len(prior) != len(values):
diff --git a/bayesloop/helper.py b/bayesloop/helper.py
index e4b20f4..0d7100e 100644
--- a/bayesloop/helper.py
+++ b/bayesloop/helper.py
@@ -136,6 +136,19 @@ def isEquallySpaced(values):
     return bool(np.all(np.abs(np.diff(values, n=2)) <= tolerance))
 
 
+def functionName(function):
+    """
+    Name of a function, also for callable objects without a name (e.g. functools.partial).
+
+    Args:
+        function: function or callable object
+
+    Returns:
+        str: name of the function, or of the type of the callable object
+    """
+    return getattr(function, '__name__', type(function).__name__)
+
+
 def normalizeLogProbabilities(logValues):
     """
     Transforms (un-normalized) log-probability values into normalized probability values.
-- 
2.43.0


From da773956e65fe5411d7fced0c42e46f607151881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:47 +0000
Subject: [PATCH 60/63] fix: local evidence of a full fit was NaN if data is
 impossible for some of the parameter values

---
 bayesloop/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d45bd41..dfb9bbf 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -477,8 +477,17 @@ class Study(object):
                     likelihood = likelihood.astype(float)
 
                 # compute local evidence
-                with np.errstate(invalid='ignore'):
+                if np.all(likelihood > 0.):
                     self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
+                else:
+                    # the posterior cannot be divided by likelihood values of zero; predict parameter distribution from
+                    # all other data points instead
+                    if i > 0:
+                        prediction = self.transitionModel.computeForwardPrior(self.posteriorSequence[i-1],
+                                                                              self.formattedTimestamps[i-1])*beta
+                    else:
+                        prediction = self._computePrior(silent=True)*beta
+                    self.localEvidence[i] = np.sum(prediction*likelihood)/np.sum(prediction)
 
                 # compute beta for next iteration (undo the transition that started at the previous time stamp)
                 if i > 0:
-- 
2.43.0


From 5e2269c35b241b6432a643afad939a6a6f0ebaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 61/63] fix: dictionary of parameters for SymPy models could
 not be used with transition models of a parameter

---
 bayesloop/observationModels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index e87f45a..a69e10b 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -321,8 +321,8 @@ class SymPy(ObservationModel):
                           "future version. Pass parameter names and values as successive arguments.",
                           DeprecationWarning)
             valueDict = args[0]
-            self.parameterNames = valueDict.keys()
-            self.parameterValues = valueDict.values()
+            self.parameterNames = list(valueDict.keys())
+            self.parameterValues = list(valueDict.values())
         else:
             self.parameterNames = args[::2]
             self.parameterValues = args[1::2]
-- 
2.43.0


From 5a36af5b233b6920779fc4ec211112c8af9e1c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 62/63] fix: structural breaks were not recognized in the
 backward pass for time stamps subject to rounding errors

---
 bayesloop/transitionModels.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index dd7bc33..f647391 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -29,6 +29,26 @@ class TransitionModel:
     Parent class for transition models. All transition models inherit from this class. It is currently only used to
     identify transition models as such.
     """
+    def _precedingTimestamp(self, t):
+        """
+        Time stamp that precedes t by one unit. Subtracting one from t may not exactly result in the corresponding time
+        stamp of the data (finite precision of floating point numbers).
+
+        Args:
+            t(int, float): time stamp (integer time index by default)
+
+        Returns:
+            int, float: preceding time stamp
+        """
+        previous = t - 1
+        timestamps = self.study.formattedTimestamps
+        if previous in timestamps:
+            return previous
+
+        nearest = timestamps[np.argmin(np.abs(timestamps - previous))]
+        if np.abs(nearest - previous) <= 4.*np.finfo(float).eps*max(1., np.abs(t)):
+            return nearest
+        return previous
 
 
 class Static(TransitionModel):
@@ -312,7 +332,7 @@ class ChangePoint(TransitionModel):
             return posterior
 
     def computeBackwardPrior(self, posterior, t):
-        if t - 1 == self.hyperParameterValues[0]:
+        if self._precedingTimestamp(t) == self.hyperParameterValues[0]:
             # parameter values before the change-point do not depend on subsequent data points
             return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
         else:
@@ -780,7 +800,7 @@ class SerialTransitionModel(TransitionModel):
 
     def computeBackwardPrior(self, posterior, t):
         # the index of the model to choose at time t is given by the number of break times <= t
-        modelIndex = np.sum(np.array(self.hyperParameterValues) <= t-1)
+        modelIndex = np.sum(np.array(self.hyperParameterValues) <= self._precedingTimestamp(t))
 
         self.models[modelIndex].latticeConstant = self.latticeConstant  # latticeConstant needs to be propagated
         self.models[modelIndex].study = self.study  # study needs to be propagated
@@ -814,7 +834,7 @@ class SerialTransitionModel(TransitionModel):
             return posterior
 
     def _backwardChangePointCheck(self, posterior, t):
-        return self._forwardChangePointCheck(posterior, t - 1)
+        return self._forwardChangePointCheck(posterior, self._precedingTimestamp(t))
 
 
 class BreakPoint(TransitionModel):
-- 
2.43.0


From 4eea41d3254002764557e9fc55bc7994773dd92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 63/63] fix: durations between change-points that are equal up
 to rounding errors were listed separately

---
 bayesloop/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index dfb9bbf..509c0c5 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1949,13 +1949,16 @@ class ChangepointStudy(HyperStudy):
 
         values = self.hyperGridValues[:, paramIndices].T
         duration = np.unique(values[1] - values[0])  # get all possible differences between time points
+        # equal durations may differ slightly because of finite precision
+        tolerance = 32.*np.finfo(float).eps*np.amax(np.abs(values), initial=0.)
+        duration = duration[np.diff(duration, prepend=-np.inf) > tolerance]
         durationDistribution = np.zeros(len(duration))  # initialize array for distribution
 
         # loop over all hyper-grid points and collect probabilities for different durations
         for i, values in enumerate(self.allHyperGridValues[:, paramIndices]):
             if self.mask[i] and values[1] > values[0]:  # consider valid combinations only
-                # get matching index in duration (rounding needed because of finite precision)
-                idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
+                # get matching index in duration (finite precision)
+                idx = np.argmin(np.abs(duration - (values[1]-values[0])))
                 durationDistribution[idx] += self.hyperParameterDistribution[i]
 
         # properly normalize duration distribution
-- 
2.43.0

