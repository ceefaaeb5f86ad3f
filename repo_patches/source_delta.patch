From 2bd196e2bc3d2a0122e39af9e09262f8d30e36f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:21 +0000
Subject: [PATCH 01/57] fix: do not overwrite a user-supplied prior array
 during the fit

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a84b573..59be6e2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -208,8 +208,8 @@ class Study(object):
         if isinstance(prior, np.ndarray):
             if np.all(prior.shape == self.grid[0].shape):
                 norm = np.sum(prior)
+                prior = prior/norm  # do not alter the array that is provided by the user
                 if norm != 1.:
-                    prior /= norm
                     prior /= np.prod(self.latticeConstant)
                     if not silent:
                         print('    + Set prior (numpy array). Values have been re-normalized.')
-- 
2.43.0


From 3a6a84ccecc1d48b6600ad77e7ae382929239c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:24 +0000
Subject: [PATCH 02/57] fix: convert priors that sum to one to probability
 densities, too

---
 bayesloop/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 59be6e2..448d665 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -209,8 +209,8 @@ class Study(object):
             if np.all(prior.shape == self.grid[0].shape):
                 norm = np.sum(prior)
                 prior = prior/norm  # do not alter the array that is provided by the user
+                prior /= np.prod(self.latticeConstant)  # convert to prob. density
                 if norm != 1.:
-                    prior /= np.prod(self.latticeConstant)
                     if not silent:
                         print('    + Set prior (numpy array). Values have been re-normalized.')
                 else:
@@ -224,9 +224,9 @@ class Study(object):
         if hasattr(prior, '__call__'):
             values = prior(*self.grid)*np.ones(self.gridSize)  # last factor for cases like lambda x: 1.
             norm = np.sum(values)
+            values /= norm
+            values /= np.prod(self.latticeConstant)  # convert to prob. density
             if norm != 1.:
-                values /= norm
-                values /= np.prod(self.latticeConstant)
                 if not silent:
                     print('    + Set prior (function): {}. Values have been re-normalized.'.format(prior.__name__))
             else:
-- 
2.43.0


From dbdf3cebb41f65f47838bc6271a63250ef0d948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:46 +0000
Subject: [PATCH 03/57] fix: restore the actual prior (incl. SymPy and scalar
 function priors) at change-points

---
 bayesloop/transitionModels.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f8f494a..ea387b7 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -298,13 +298,8 @@ class ChangePoint(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t == self.hyperParameterValues[0]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # prior distribution as used by the first time step (flat, or custom prior of the observation model)
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
@@ -347,13 +342,8 @@ class Independent(TransitionModel):
         Returns:
             ndarray: Prior parameter distribution for subsequent time step
         """
-        # check if custom prior is used by observation model
-        if hasattr(self.study.observationModel.prior, '__call__'):
-            prior = self.study.observationModel.prior(*self.study.grid)
-        elif isinstance(self.study.observationModel.prior, np.ndarray):
-            prior = deepcopy(self.study.observationModel.prior)
-        else:
-            prior = np.ones(self.study.gridSize)  # flat prior
+        # prior distribution as used by the first time step (flat, or custom prior of the observation model)
+        prior = self.study._computePrior(silent=True)
 
         # normalize prior (necessary in case an improper prior is used)
         prior /= np.sum(prior)
@@ -799,13 +789,8 @@ class SerialTransitionModel(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t in np.array(self.hyperParameterValues)[self.changePointMask]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # prior distribution as used by the first time step (flat, or custom prior of the observation model)
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
-- 
2.43.0


From 81dfdad30d0b9eae9fb877fa4fbbe03d5bd9a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:23 +0000
Subject: [PATCH 04/57] fix: do not count the prior twice in smoothed
 posteriors before a change-point

---
 bayesloop/transitionModels.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index ea387b7..f9e6adc 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -309,7 +309,11 @@ class ChangePoint(TransitionModel):
             return posterior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        if t - 1 == self.hyperParameterValues[0]:
+            # parameter values before the change-point are independent of all data points after the change-point
+            return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
+        else:
+            return posterior
 
 
 class Independent(TransitionModel):
@@ -350,7 +354,8 @@ class Independent(TransitionModel):
         return prior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        # parameter values are independent of all data points in subsequent time steps
+        return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
 
 
 class RegimeSwitch(TransitionModel):
-- 
2.43.0


From a92868dbd09176a6d6db664c6d2a6a8780b4fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 05/57] fix: reading or plotting distributions must not alter
 the stored results

---
 bayesloop/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 448d665..76143a1 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1042,7 +1042,8 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize))
+        marginalPosteriorSequence = np.squeeze(
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
@@ -1565,7 +1566,7 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x = self.flatHyperParameters[paramIndex]
@@ -1641,7 +1642,7 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
@@ -2755,7 +2756,7 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
-- 
2.43.0


From 7b7669f8328865b068e5db7bf387ea5efe67d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:05 +0000
Subject: [PATCH 06/57] fix: Poisson observation model fails for data of type
 float

---
 bayesloop/observationModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 10277c7..4e98153 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -499,7 +499,7 @@ class Poisson(ObservationModel):
         Returns:
             ndarray: Discretized Poisson pdf (with same shape as grid)
         """
-        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / (np.math.factorial(dataSegment[0]))
+        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / factorial(dataSegment[0])
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From 0e2a2889a744095016dedb5628496d75f8d700ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:09 +0000
Subject: [PATCH 07/57] fix: Bernoulli likelihood altered the parameter grid
 and allowed p outside of [0, 1]

---
 bayesloop/observationModels.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 4e98153..38df3f3 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -427,15 +427,16 @@ class Bernoulli(ObservationModel):
         Returns:
             ndarray: Discretized Bernoulli pdf (with same shape as grid)
         """
-        temp = grid[0][:]  # make copy of parameter grid
-        temp[temp > 1.] = 0.  # p < 1
-        temp[temp < 0.] = 0.  # p > 0
+        temp = grid[0].copy()  # make copy of parameter grid
 
         if dataSegment[0]:
             pass  # pdf = p
         else:
             temp = 1. - temp  # pdf = 1 - p
 
+        temp[grid[0] > 1.] = 0.  # p < 1
+        temp[grid[0] < 0.] = 0.  # p > 0
+
         return temp
 
     def estimateParameterValues(self, name, rawData):
-- 
2.43.0


From eaa9bb9f08c11aeee1d2abf7fe6078f1139c6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 08/57] fix: alpha-stable kernel does not fit parameter grids
 with an odd number of values

---
 bayesloop/transitionModels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f9e6adc..fd48abe 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -222,9 +222,9 @@ class AlphaStableRandomWalk(TransitionModel):
         else:
             raise ConfigurationError('Parameter grid must either be 1- or 2-dimensional.')
 
-        kernel_fft = np.exp(-np.abs(c*np.linspace(0, np.pi, int(3*l1/2+1)))**alpha)
-        kernel = np.fft.irfft(kernel_fft)
-        kernel = np.roll(kernel, int(3*l1/2-1))
+        kernel_fft = np.exp(-np.abs(c*2*np.pi*np.fft.rfftfreq(3*l1))**alpha)
+        kernel = np.fft.irfft(kernel_fft, 3*l1)
+        kernel = np.roll(kernel, (3*l1-1)//2)
 
         if len(gs) == 2:
             kernel = np.array([kernel]*(3*l2))
-- 
2.43.0


From ad6b3dbac9b9017de7c72395a562c50c6d7fbd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:39 +0000
Subject: [PATCH 09/57] fix: outdated convolution kernels were used after a
 change of the parameter grid

---
 bayesloop/transitionModels.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index fd48abe..4501a32 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -167,8 +167,9 @@ class AlphaStableRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values (or the parameter grid) have changed, a new convolution kernel needs to be created
+        kernelParameters = [list(self.hyperParameterValues), list(self.latticeConstant), list(self.study.gridSize)]
+        if not self.kernelParameters == kernelParameters:
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
@@ -184,7 +185,7 @@ class AlphaStableRandomWalk(TransitionModel):
                 self.kernel *= self.createKernel(c, a, i+1)
 
             self.kernel = self.kernel.T
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
         newPrior /= np.sum(newPrior)
@@ -871,13 +872,14 @@ class BivariateRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values (or the parameter grid) have changed, a new convolution kernel needs to be created
+        kernelParameters = [list(self.hyperParameterValues), list(self.latticeConstant)]
+        if not self.kernelParameters == kernelParameters:
             normedSigma1 = self.hyperParameterValues[0] / self.latticeConstant[0]
             normedSigma2 = self.hyperParameterValues[1] / self.latticeConstant[1]
 
             self.kernel = self.createKernel(normedSigma1, normedSigma2, self.hyperParameterValues[2])
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = convolve2d(posterior, self.kernel, mode='same')
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 6ff8b6176788a5dadbdd545965717fdb896bfdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:00 +0000
Subject: [PATCH 10/57] fix: online study did not pass the time step to
 transition models

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 76143a1..e89a238 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2165,7 +2165,7 @@ class OnlineStudy(HyperStudy):
                     alphai = prior*likelihood
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
-                                                                      len(self.formattedData)-1)*likelihood
+                                                                      self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
                 # update log-evidence list
-- 
2.43.0


From 50bae793e35b67441ff2c666ae214ec77315a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 11/57] fix: list of hyper-priors was ignored by the
 deterministic transition model

---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 4501a32..799ce5b 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -534,6 +534,7 @@ class Deterministic(TransitionModel):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
                                              .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                self.prior = list(prior)
             # if single prior is defined, pack it in a list
             else:
                 self.prior = [prior]
-- 
2.43.0


From 08359eae7661121d150b38381878a50a1ee81cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 12/57] fix: list of correlation values overwrote second
 standard deviation of bivariate random walk

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 799ce5b..b8f1152 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -847,7 +847,7 @@ class BivariateRandomWalk(TransitionModel):
         if isinstance(value2, (list, tuple)):
             value2 = np.array(value2)
         if isinstance(value3, (list, tuple)):
-            value2 = np.array(value3)
+            value3 = np.array(value3)
 
         self.study = None
         self.latticeConstant = None
-- 
2.43.0


From 7f8eb110b5c398b23f8739f6e7c0058ae8a1a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 13/57] fix: wrong values returned by getParameterMeanValue and
 getPD of online study

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index e89a238..fbb7b92 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2264,7 +2264,7 @@ class OnlineStudy(HyperStudy):
         """
         See :meth:`.OnlineStudy.getParameterDistribution`.
         """
-        return self.getParameterDistribution(t, name, plot=plot, **kwargs)
+        return self.getParameterDistribution(t, name, plot=plot, density=density, **kwargs)
 
     def getCurrentParameterDistribution(self, name, plot=False, density=True, **kwargs):
         """
@@ -2540,7 +2540,7 @@ class OnlineStudy(HyperStudy):
 
         parameterDistribution = self.posteriorSequence[timeIndex]
 
-        mean = np.sum(parameterDistribution[t] * self.grid[paramIndex])
+        mean = np.sum(parameterDistribution * self.grid[paramIndex])
         return mean
 
     def getParameterMeanValues(self, name):
-- 
2.43.0


From 71d4233e7ce331acbf1c3b611d55806d3feb792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 14/57] fix: set default timestamps if number of supplied
 timestamps does not match the data

---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index fbb7b92..7d3246f 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -115,6 +115,7 @@ class Study(object):
             else:
                 if not silent:
                     print('! WARNING: Number of timestamps does not match number of data points. Omitting timestamps.')
+                self.rawTimestamps = np.arange(len(self.rawData))
         else:  # set default timestamps (integer range)
             self.rawTimestamps = np.arange(len(self.rawData))
 
-- 
2.43.0


From c60709c62982ad458762056d668262305abb7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 15/57] fix: keep the value 'all' of change-points after a fit

---
 bayesloop/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7d3246f..67381b2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1270,6 +1270,9 @@ class HyperStudy(Study):
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
         self.formattedTimestamps = self.rawTimestamps[self.observationModel.segmentLength - 1:]
 
+        # hyper-parameter values as set by the user (these are restored after fitting)
+        userHyperParameters = self._unpackAllHyperParameters()
+
         # create hyper-parameter grid
         if not customHyperGrid:
             self._createHyperGrid(silent=silent)
@@ -1427,7 +1430,7 @@ class HyperStudy(Study):
             self.localEvidenceList = []
 
             # restore hyper-parameter values (individual values have been set during fitting)
-            self._setAllHyperParameters(self.flatHyperParameters)
+            self._setAllHyperParameters(userHyperParameters)
 
             if not silent:
                 print('+ Finished fit.')
-- 
2.43.0


From 724cfa51148e646102d9f601e39a9590ef286c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 16/57] fix: change-point studies with only one possible
 combination of change-points

---
 bayesloop/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 67381b2..e5ac5ef 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1443,8 +1443,17 @@ class HyperStudy(Study):
                 if len(self.hyperGridValues) == 0:
                     print('+ Transition model contains no hyper-parameters, switching to standard fit method.')
 
+            # set the only possible value for each hyper-parameter (e.g. if 'all' refers to a single time step)
+            if len(self.hyperGridValues) == 1:
+                self._setAllHyperParameters(self.hyperGridValues[0])
+
             Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
 
+            # the only combination of hyper-parameter values is assigned a probability of one
+            if len(self.hyperGridValues) == 1:
+                self.hyperParameterDistribution = np.array([1./np.prod(self.hyperGridConstant)])
+                self._setAllHyperParameters(userHyperParameters)
+
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
         """
         This method is called by the fit method of the HyperStudy class. It creates a copy of the current class
-- 
2.43.0


From 99046e1ff789ad00c197d634a3912498bbfe3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:30 +0000
Subject: [PATCH 17/57] fix: do not overwrite user-supplied hyper-prior arrays

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index e5ac5ef..320112a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1209,7 +1209,7 @@ class HyperStudy(Study):
             elif isinstance(prior, Iterable):  # prior specified by list/array
                 if len(prior) != len(values):
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from list/array.'.format(name))
-                priorValues = prior
+                priorValues = np.array(prior, dtype=float)  # copy, as the user-supplied prior must not be altered
                 norm = np.sum(priorValues)
                 priorValues /= norm
                 priorValues /= gridConst
-- 
2.43.0


From 3e65da6a801e7588b27dfa20c64b9f9f29ce8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:33 +0000
Subject: [PATCH 18/57] fix: getHyperParameterDistribution of online study
 returns probabilities, also for 'avg'

---
 bayesloop/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 320112a..b99b9ec 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2695,23 +2695,24 @@ class OnlineStudy(HyperStudy):
         # access hyper-parameter distribution
         if t == 'avg':
             # compute time-averaged distribution
-            hyperParameterDistribution = np.sum(self.hyperParameterSequence, axis=0)/len(self.hyperParameterSequence)
+            hyperParameterDistribution = np.sum([x[tmIndex] for x in self.hyperParameterSequence], axis=0) / \
+                                         len(self.hyperParameterSequence)
         else:
             # try to access distribution of specified time step
             if t not in self.formattedTimestamps:
                 raise PostProcessingError('Supplied time ({}) does not exist in data or is out of range.'.format(t))
             timeIndex = list(self.formattedTimestamps).index(t)  # to select corresponding posterior distribution
 
-            hyperParameterDistribution = self.hyperParameterSequence[timeIndex]
+            hyperParameterDistribution = self.hyperParameterSequence[timeIndex][tmIndex]
 
-        hyperParameterDistribution = hyperParameterDistribution[tmIndex]
         axesToMarginalize = list(range(len(self.hyperParameterNames[tmIndex])))
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From df224dfc02f7728d34096c3181b3f6fec5efc5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:36 +0000
Subject: [PATCH 19/57] fix: hyper-parameters with a single value in
 hyper-parameter distributions of online study

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b99b9ec..2e1a921 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2709,7 +2709,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
@@ -2768,7 +2768,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
-- 
2.43.0


From eb4e63e7a69770e22ad0d2207e9dabde895c2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:12 +0000
Subject: [PATCH 20/57] fix: parser must not mix up parameters of the same
 study at different time steps

---
 bayesloop/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index dfb3fe8..8ac7ffc 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -236,9 +236,10 @@ class Parser:
             # compute compound distribution of two (hyper-)parameters
             if (type(a) == Parameter and type(b) == Parameter and (not (a.study is b.study) or
                                                                        (a.study is None and b.study is None) or
-                                                                       (a.name == b.name and not (a.time == b.time)))) or \
+                                                                       not (a.time == b.time))) or \
                     (type(a) == HyperParameter and type(b) == HyperParameter and (not (a.study is b.study) or
-                                                                                      (a.study is None and b.study is None))) or \
+                                                                                      (a.study is None and b.study is None) or
+                                                                                      not (a.time == b.time))) or \
                     ((type(a) == HyperParameter) and (type(b) == Parameter) or
                              (type(b) == HyperParameter) and (type(a) == Parameter)):
 
-- 
2.43.0


From 6e342b21d2f1869c7b41a9b77a136d4ac3234f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:15 +0000
Subject: [PATCH 21/57] fix: parser used time index of first study for all
 studies

---
 bayesloop/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 8ac7ffc..6296bcb 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -285,10 +285,10 @@ class Parser:
                                                          time=study.formattedTimestamps[-1],
                                                          study=study))
         else:
-            # compute index of timestamp
-            timeIndex = list(self.studies[0].formattedTimestamps).index(t)
-
             for study in self.studies:
+                # compute index of timestamp
+                timeIndex = list(study.formattedTimestamps).index(t)
+
                 names = study.observationModel.parameterNames
                 for i, name in enumerate(names):
                     index = study.observationModel.parameterNames.index(name)
@@ -333,7 +333,7 @@ class Parser:
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
-                                timeIndex = list(self.studies[0].formattedTimestamps).index(t)
+                                timeIndex = list(study.formattedTimestamps).index(t)
 
                                 dist = study.hyperParameterSequence[timeIndex][j] / \
                                        np.sum(study.hyperParameterSequence[timeIndex][j])
-- 
2.43.0


From bc1b488d67ed8bfb6002a05f8a1a55165176ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:42 +0000
Subject: [PATCH 22/57] fix: derived distributions of the parser lacked the
 probability of the largest value

---
 bayesloop/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 6296bcb..07d8300 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -412,6 +412,7 @@ class Parser:
             for lower, upper in it:
                 binnedProbs.append(np.sum(derivedParameter.prob[(derivedParameter >= lower) * (derivedParameter < upper)]))
             binnedProbs = np.array(binnedProbs)
+            binnedProbs[-1] += np.sum(derivedParameter.prob[derivedParameter == bins[-1]])  # last bin is a closed interval
 
             return binnedValues, binnedProbs
 
-- 
2.43.0


From 4689533e49242bef5c649d91c92f06a15a22e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:03 +0000
Subject: [PATCH 23/57] fix: local evidence values of different time steps and
 fit modes were scaled differently

---
 bayesloop/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 2e1a921..c08562d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -402,7 +402,9 @@ class Study(object):
 
             # update log-evidence and compute local evidence
             self.logEvidence += np.log(norm)
-            self.localEvidence[i] = norm * np.prod(self.latticeConstant)  # integration yields evidence, not only sum
+            self.localEvidence[i] = norm
+            if i == 0:  # prior is a prob. density (in contrast to later time steps): integration yields evidence
+                self.localEvidence[i] *= np.prod(self.latticeConstant)
 
             # alphas are stored as preliminary posterior distributions
             if not evidenceOnly:
@@ -461,8 +463,7 @@ class Study(object):
 
                 # compute local evidence
                 with np.errstate(invalid='ignore'):
-                    self.localEvidence[i] = 1./(np.sum(self.posteriorSequence[i]/likelihood) *
-                                                np.prod(self.latticeConstant))  # integration, not only sum
+                    self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
 
                 # compute beta for next iteration
                 beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i])
-- 
2.43.0


From fcdfb5419ed56f288cbea65e0570143051833586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:21 +0000
Subject: [PATCH 24/57] fix: no uninitialized or outdated results after a fit
 to impossible data

---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c08562d..d9fe101 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -354,11 +354,12 @@ class Study(object):
 
         # initialize array for posterior distributions
         if not evidenceOnly:
-            self.posteriorSequence = np.empty([len(self.formattedData)]+self.gridSize)
+            self.posteriorSequence = np.zeros([len(self.formattedData)]+self.gridSize)
 
         # initialize array for computed evidence (marginal likelihood)
         self.logEvidence = 0
-        self.localEvidence = np.empty(len(self.formattedData))
+        self.localEvidence = np.zeros(len(self.formattedData))
+        self.posteriorMeanValues = []
 
         # set prior distribution for forward-pass
         alpha = self._computePrior(silent=silent)
-- 
2.43.0


From 93e7b986278acfa9860001b4b23717ad8cff25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:54 +0000
Subject: [PATCH 25/57] fix: rejected query for a parameter distribution
 prevents further steps of an online study

---
 bayesloop/core.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d9fe101..789931a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2268,11 +2268,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPD(self, t, name, plot=False, density=True, **kwargs):
@@ -2359,11 +2360,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPDs(self, name, plot=False, density=True, **kwargs):
@@ -2392,12 +2394,13 @@ class OnlineStudy(HyperStudy):
         self.posteriorMeanValues = np.array(self.posteriorMeanValues).T
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorMeanValues = list(self.posteriorMeanValues.T)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorMeanValues = list(self.posteriorMeanValues.T)
+            self.posteriorSequence = list(self.posteriorSequence)
 
     def getCurrentTransitionModelDistribution(self, local=False):
         """
-- 
2.43.0


From 87b6992a910e040d12d34533ed41d5d48c0188dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 26/57] fix: transition model prior given as a list of integers
 could not be re-normalized

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 789931a..ce21edb 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2066,7 +2066,7 @@ class OnlineStudy(HyperStudy):
             raise ConfigurationError('Length of transition model prior ({}) does not fit number of transition models '
                                      '({})'.format(len(transitionModelPrior), len(self.transitionModels)))
 
-        self.transitionModelPrior = np.array(transitionModelPrior)
+        self.transitionModelPrior = np.array(transitionModelPrior, dtype=float)
 
         if not np.sum(transitionModelPrior) == 1.:
             print('+ WARNING: Transition model prior does not sum up to one. Will re-normalize.')
-- 
2.43.0


From 10c4a266885a80fcd82dfe4d3d5ad06b08ba39bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:55 +0000
Subject: [PATCH 27/57] fix: deterministic transition model creates negative
 probabilities

---
 bayesloop/transitionModels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index b8f1152..df8658a 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -571,6 +571,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # spline interpolation may overshoot, but probabilities must not be negative
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
@@ -596,6 +597,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # spline interpolation may overshoot, but probabilities must not be negative
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 9917c36f9e2a5953f733c4cf1c0d4983e5787d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 28/57] fix: alpha-stable random walk creates negative
 probabilities

---
 bayesloop/transitionModels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index df8658a..357532a 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -188,6 +188,7 @@ class AlphaStableRandomWalk(TransitionModel):
             self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
+        newPrior[newPrior < 0.] = 0.  # finite precision of the Fourier transform may result in negative values
         newPrior /= np.sum(newPrior)
         return newPrior
 
@@ -225,6 +226,7 @@ class AlphaStableRandomWalk(TransitionModel):
 
         kernel_fft = np.exp(-np.abs(c*2*np.pi*np.fft.rfftfreq(3*l1))**alpha)
         kernel = np.fft.irfft(kernel_fft, 3*l1)
+        kernel[kernel < 0.] = 0.  # finite number of frequencies may cause ringing, but probabilities must not be negative
         kernel = np.roll(kernel, (3*l1-1)//2)
 
         if len(gs) == 2:
-- 
2.43.0


From 6e370476f4245e303f6ccf99e1bdf140b8a7e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:29 +0000
Subject: [PATCH 29/57] fix: Not-Equal model returns NaN for a flat parameter
 distribution

---
 bayesloop/transitionModels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 357532a..82f3388 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -460,7 +460,9 @@ class NotEqual(TransitionModel):
         limit = (10**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
-        newPrior /= np.sum(newPrior)
+        norm = np.sum(newPrior)
+        if norm > 0.:  # zero for a flat distribution, which remains flat
+            newPrior /= norm
         newPrior[newPrior < limit] = limit
 
         # transformation above violates proper normalization; re-normalization needed
-- 
2.43.0


From 548a91e9c3a63ca9bbdbc82169d7796a4fdfed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:47 +0000
Subject: [PATCH 30/57] fix: backward pass misses change-points and
 break-points for irregular time stamps

---
 bayesloop/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index ce21edb..f7dd02f 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -466,11 +466,13 @@ class Study(object):
                 with np.errstate(invalid='ignore'):
                     self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
 
-                # compute beta for next iteration
-                beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i])
+                # compute beta for next iteration (invert the transition that follows the previous time stamp; time stamps
+                # do not have to be separated by one)
+                if i > 0:
+                    beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i-1] + 1)
 
-                # normalize beta (for numerical stability)
-                beta /= np.sum(beta)
+                    # normalize beta (for numerical stability)
+                    beta /= np.sum(beta)
 
             if not silent:
                 enum.close()  # remove progressbar correctly
-- 
2.43.0


From 00e714ce016abd7ea0a55c2eb20900414e265a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:27 +0000
Subject: [PATCH 31/57] fix: duration distribution fails for more than two
 change-points

---
 bayesloop/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f7dd02f..92277c5 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1921,12 +1921,12 @@ class ChangepointStudy(HyperStudy):
         duration = np.unique(values[1] - values[0])  # get all possible differences between time points
         durationDistribution = np.zeros(len(duration))  # initialize array for distribution
 
-        # loop over all hyper-grid points and collect probabilities for different durations
-        for i, values in enumerate(self.allHyperGridValues[:, paramIndices]):
-            if values[1] > values[0]:
-                # get matching index in duration (rounding needed because of finite precision)
-                idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
-                durationDistribution[idx] += self.hyperParameterDistribution[i]
+        # loop over all valid hyper-grid points and collect probabilities for different durations
+        for values, probability in zip(self.allHyperGridValues[self.mask][:, paramIndices],
+                                       self.hyperParameterDistribution[self.mask]):
+            # get matching index in duration (rounding needed because of finite precision)
+            idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
+            durationDistribution[idx] += probability
 
         # properly normalize duration distribution
         durationDistribution /= np.sum(durationDistribution)
-- 
2.43.0


From 1b258ffd99ebbf20f0b5440d6834ca179d1f9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:37 +0000
Subject: [PATCH 32/57] fix: returned transition model distribution is
 overwritten by the next step of an online study

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 92277c5..98ecfcf 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2415,9 +2415,9 @@ class OnlineStudy(HyperStudy):
             ndarray, ndarray: Arrays of transition model names and normalized probabilities.
         """
         if local:
-            return np.array(self.transitionModelNames), self.localTransitionModelDistribution
+            return np.array(self.transitionModelNames), self.localTransitionModelDistribution.copy()
         else:
-            return np.array(self.transitionModelNames), self.transitionModelDistribution
+            return np.array(self.transitionModelNames), self.transitionModelDistribution.copy()
 
     def getCTMD(self, local=False):
         """
-- 
2.43.0


From 0f50d7ce6493308d17c87d98af97d01086cffbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:33 +0000
Subject: [PATCH 33/57] fix: duration distribution lists the same duration more
 than once for non-integer time stamps

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 98ecfcf..f0cf65d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1918,7 +1918,8 @@ class ChangepointStudy(HyperStudy):
             paramIndices = paramIndices[::-1]
 
         values = self.hyperGridValues[:, paramIndices].T
-        duration = np.unique(values[1] - values[0])  # get all possible differences between time points
+        # get all possible differences between time points (rounding needed because of finite precision)
+        duration = np.unique((values[1] - values[0]).round(10))
         durationDistribution = np.zeros(len(duration))  # initialize array for distribution
 
         # loop over all valid hyper-grid points and collect probabilities for different durations
-- 
2.43.0


From 6a338eb6181ad592b8ff0c732e486893823d1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:45 +0000
Subject: [PATCH 34/57] fix: parser silently ignores the part of a query that
 cannot be parsed

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 07d8300..d476886 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -385,7 +385,7 @@ class Parser:
                                      'or none to obtain derived distribution.')
 
         # evaluate left side
-        parsedString = self.expr.parseString(reducedQuery).asList()[0]
+        parsedString = self.expr.parseString(reducedQuery, parseAll=True).asList()[0]
         derivedParameter = self._evaluate(parsedString)
 
         # if no relational operator in query, compute derived distribution
-- 
2.43.0


From 5483a279370be99f3697814bf9b1fde3ec6ddbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:51 +0000
Subject: [PATCH 35/57] fix: derived distribution fails if one gap between
 values exceeds half of their range

---
 bayesloop/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index d476886..7753be0 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -399,6 +399,7 @@ class Parser:
             print(f"dmin {dmin}")
             print(np.diff(np.sort(derivedParameter)))
             nBins = int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter)))))
+            nBins = max(nBins, 2)  # at least one bin
             bins = np.linspace(dmin, dmax, nBins)
             binnedValues = bins[:-1] + (bins[1]-bins[0])
             binnedProbs = []
-- 
2.43.0


From 9525aba3659ff7b787f0e9d217e192016d79cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:43 +0000
Subject: [PATCH 36/57] fix: distribution of a single parameter or function
 cannot be computed by the parser

---
 bayesloop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 7753be0..6a1a066 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -375,7 +375,8 @@ class Parser:
         # reduce equation
         splitQuery = re.split('>=|<=|==|>|<', query)
         if len(splitQuery) == 1:
-            reducedQuery = query
+            # single parameters and functions need an arithmetic operation, too
+            reducedQuery = '1*('+query+')'
         elif len(splitQuery) == 2:
             # last arithmetic may be omitted in some cases if right side is appended to the left, needs to come first
             #reducedQuery = '-'.join(splitQuery)
-- 
2.43.0


From bc75d2da6b8e13bc25fcaf6ffcb1bdcd290f1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:28 +0000
Subject: [PATCH 37/57] fix: transition model shared by two studies uses the
 parameter grid of the other study

---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f0cf65d..05cbc0d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -344,6 +344,10 @@ class Study(object):
         """
         self._checkConsistency()
 
+        # the transition model instance may have been assigned to another study in the meantime
+        self.transitionModel.study = self
+        self.transitionModel.latticeConstant = self.latticeConstant
+
         if not silent:
             print('+ Started new fit:')
 
-- 
2.43.0


From 281b720072afe58a97c241617a638ad67037d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:32 +0000
Subject: [PATCH 38/57] fix: interrupted hyper-study leaves a single
 hyper-parameter value in the transition model

---
 bayesloop/core.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 05cbc0d..f02022a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1362,8 +1362,12 @@ class HyperStudy(Study):
                 for i, hyperParamValues in enum:
                     self._setSelectedHyperParameters(hyperParamValues)
 
-                    # call fit method from parent class
-                    Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
+                    # call fit method from parent class; the hyper-parameter values set by the user are restored in any
+                    # case (e.g. if the fit is interrupted)
+                    try:
+                        Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
+                    finally:
+                        self._setAllHyperParameters(userHyperParameters)
 
                     self.logEvidenceList.append(self.logEvidence)
                     self.localEvidenceList.append(self.localEvidence)
@@ -1437,9 +1441,6 @@ class HyperStudy(Study):
             # clear localEvidenceList (to keep file size small for stored studies)
             self.localEvidenceList = []
 
-            # restore hyper-parameter values (individual values have been set during fitting)
-            self._setAllHyperParameters(userHyperParameters)
-
             if not silent:
                 print('+ Finished fit.')
 
@@ -1455,12 +1456,14 @@ class HyperStudy(Study):
             if len(self.hyperGridValues) == 1:
                 self._setAllHyperParameters(self.hyperGridValues[0])
 
-            Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
+            try:
+                Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
+            finally:
+                self._setAllHyperParameters(userHyperParameters)
 
             # the only combination of hyper-parameter values is assigned a probability of one
             if len(self.hyperGridValues) == 1:
                 self.hyperParameterDistribution = np.array([1./np.prod(self.hyperGridConstant)])
-                self._setAllHyperParameters(userHyperParameters)
 
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
         """
-- 
2.43.0


From 38c98e07409467cae95c5249e9a892972ab63790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:35 +0000
Subject: [PATCH 39/57] fix: alpha-stable random walk keeps its kernel if the
 order of the parameters changes

---
 bayesloop/transitionModels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 82f3388..856d431 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -168,14 +168,15 @@ class AlphaStableRandomWalk(TransitionModel):
         """
 
         # if hyper-parameter values (or the parameter grid) have changed, a new convolution kernel needs to be created
-        kernelParameters = [list(self.hyperParameterValues), list(self.latticeConstant), list(self.study.gridSize)]
+        axisToTransform = self.study.observationModel.parameterNames.index(self.selectedParameter)
+        kernelParameters = [list(self.hyperParameterValues), list(self.latticeConstant), list(self.study.gridSize),
+                            axisToTransform]
         if not self.kernelParameters == kernelParameters:
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
             alpha = [self.hyperParameterValues[1]] * len(normedC)
 
-            axisToTransform = self.study.observationModel.parameterNames.index(self.selectedParameter)
             selectedC = normedC[axisToTransform]
             normedC = [0.]*len(normedC)
             normedC[axisToTransform] = selectedC
-- 
2.43.0


From 2dd9caacfd8a0c4bf8ca2a5490a30af2b0543152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:38 +0000
Subject: [PATCH 40/57] fix: data point that cannot be evaluated stays in the
 data set of an online study

---
 bayesloop/core.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f02022a..3c2059b 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2113,7 +2113,11 @@ class OnlineStudy(HyperStudy):
 
             # check the model consistency the first time that 'step' is called
             self.rawData = np.array(dataPoint)
-            Study._checkConsistency(self)
+            try:
+                Study._checkConsistency(self)
+            except ConfigurationError:
+                self.rawData = np.array([])  # start again with the next data point
+                raise
 
             self.rawTimestamps = np.array([0])
             self.formattedTimestamps = []
@@ -2126,12 +2130,25 @@ class OnlineStudy(HyperStudy):
             print('+ Not enough data points to start analysis. Will wait for more data.')
             return
 
-        self.formattedTimestamps.append(self.rawTimestamps[-1])
+        # select data segment
+        dataSegment = self.rawData[-self.observationModel.segmentLength:]
 
-        if self.firstStep:
+        try:
             # initialize parameter prior distribution
-            prior = self._computePrior(silent=False)
+            if self.firstStep:
+                prior = self._computePrior(silent=False)
+
+            # compute current likelihood only once
+            likelihood = self.observationModel.processedPdf(self.grid, dataSegment)
+        except BaseException:
+            # a data point that cannot be evaluated is not added to the data set
+            self.rawData = self.rawData[:-len(dataPoint)]
+            self.rawTimestamps = self.rawTimestamps[:-1]
+            raise
 
+        self.formattedTimestamps.append(self.rawTimestamps[-1])
+
+        if self.firstStep:
             # initialize hyper-prior as flat
             if self.hyperPrior is None:
                 self.hyperPrior = 'flat hyper-prior'
@@ -2165,12 +2182,6 @@ class OnlineStudy(HyperStudy):
             # initialize marginalized posterior
             self.marginalizedPosterior = np.zeros(self.gridSize)
 
-        # select data segment
-        dataSegment = self.rawData[-self.observationModel.segmentLength:]
-
-        # compute current likelihood only once
-        likelihood = self.observationModel.processedPdf(self.grid, dataSegment)
-
         # loop over all hypotheses/transition models
         for i, (tm, hpv) in enumerate(zip(self.transitionModels, self.hyperParameterValues)):
             self.setTransitionModel(tm, silent=True)  # set current transition model
-- 
2.43.0


From aadf84930d10fbdc281106bca241406566ed83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:42 +0000
Subject: [PATCH 41/57] fix: online study leaves a single hyper-parameter value
 in the transition model

---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3c2059b..146715e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2186,6 +2186,8 @@ class OnlineStudy(HyperStudy):
         for i, (tm, hpv) in enumerate(zip(self.transitionModels, self.hyperParameterValues)):
             self.setTransitionModel(tm, silent=True)  # set current transition model
 
+            userHyperParameters = self._unpackAllHyperParameters()  # are restored after this time step
+
             # account for transition models with no hyper-parameters
             if len(hpv) == 0:
                 hpv = [None]
@@ -2211,6 +2213,8 @@ class OnlineStudy(HyperStudy):
                 # store parameter posterior
                 self.parameterPosterior[i][j] = alphai/ni
 
+            self._setAllHyperParameters(userHyperParameters)
+
             # marginalize model evidence wrt hyper-parameters, for all past data points and only for the current one
             oldHyperEvidence = self.hyperLogEvidenceList[i]
             self.hyperLogEvidenceList[i] = logsumexp(self.logEvidenceList[i] + np.log(self.hyperPriorValues[i]))
-- 
2.43.0


From 01d67b149f9a10200d4b21c3a6c91e6a6d0d5697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:19 +0000
Subject: [PATCH 42/57] fix: simulate returns NaN instead of an error if no
 parameter distributions are available

---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 146715e..2141ef8 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -592,6 +592,10 @@ class Study(object):
             raise NotImplementedError('Method "simulate" is only available for observation models with '
                                       'segment length 1.')
 
+        if len(self.posteriorSequence) == 0:
+            raise PostProcessingError('Cannot simulate data as parameter distributions have not yet been computed. '
+                                      'Run complete fit.')
+
         # if no time is provided, use time-averaged posterior distribution
         if t is None:
             post = np.sum(self.posteriorSequence, axis=0) / len(self.posteriorSequence)
-- 
2.43.0


From 730d88328c24afdae8e14a9b41d59f1ae34a759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:04 +0000
Subject: [PATCH 43/57] fix: optimize changes change-points and break-points if
 the model has no other hyper-parameters

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 2141ef8..7e22848 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -533,7 +533,7 @@ class Study(object):
             self.selectedHyperParameters = [x for x in allHyperParameters if x not in points]
 
         # create parameter list to set start values for optimization
-        x0 = self._unpackSelectedHyperParameters()
+        x0 = self._unpackSelectedHyperParameters() if self.selectedHyperParameters else []
 
         # check if valid parameter names were entered
         if len(x0) == 0:
-- 
2.43.0


From 6395911f580fb37e29104ad0a7be25480c332635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:08 +0000
Subject: [PATCH 44/57] fix: fit reports an evidence value if there are fewer
 data points than the observation model needs

---
 bayesloop/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7e22848..4bff089 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -353,6 +353,9 @@ class Study(object):
 
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
         self.formattedTimestamps = self.rawTimestamps[self.observationModel.segmentLength-1:]
+        if len(self.formattedData) == 0:
+            raise ConfigurationError('Not enough data points: observation model needs at least {} data points.'
+                                     .format(self.observationModel.segmentLength))
         if not silent:
             print('    + Formatted data.')
 
-- 
2.43.0


From 4ab8da15d4a97eec3557b9386f8f1937c7d52ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:13 +0000
Subject: [PATCH 45/57] fix: standard study silently ignores a change-point
 with the value 'all'

---
 bayesloop/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 4bff089..ae58b0d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -344,6 +344,11 @@ class Study(object):
         """
         self._checkConsistency()
 
+        # 'all' represents several values and thus cannot be used in a single fit
+        if any(isinstance(v, str) and v == 'all' for v in self._unpackAllHyperParameters()):
+            raise ConfigurationError('Value "all" for change-/break-points can only be used with "HyperStudy" and '
+                                     '"ChangepointStudy".')
+
         # the transition model instance may have been assigned to another study in the meantime
         self.transitionModel.study = self
         self.transitionModel.latticeConstant = self.latticeConstant
-- 
2.43.0


From c1b64b01ff75e46a3eaed0c08097e3c3339476b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 46/57] fix: online study cannot be used any more if results
 are requested before the first step

---
 bayesloop/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index ae58b0d..00dad1f 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2301,6 +2301,9 @@ class OnlineStudy(HyperStudy):
             raise PostProcessingError('To get past parameter distributions, Online Study must be called with flag'
                                       '"storeHistory=True". Use "getCurrentParameterDistribution" instead.')
 
+        if len(self.posteriorSequence) == 0:
+            raise PostProcessingError('No parameter distributions available. Use "step" to add data points first.')
+
         # plotting function of Study class can only handle arrays, not lists
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
@@ -2393,6 +2396,9 @@ class OnlineStudy(HyperStudy):
             raise PostProcessingError('To get past parameter distributions, Online Study must be called with flag'
                                       '"storeHistory=True". Use "getCurrentParameterDistribution" instead.')
 
+        if len(self.posteriorSequence) == 0:
+            raise PostProcessingError('No parameter distributions available. Use "step" to add data points first.')
+
         # plotting function of Study class can only handle arrays, not lists
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
@@ -2426,6 +2432,9 @@ class OnlineStudy(HyperStudy):
             raise PostProcessingError('To plot past parameter distributions, Online Study must be called with flag'
                                       '"storeHistory=True". Use "getCurrentParameterDistribution" instead.')
 
+        if len(self.posteriorSequence) == 0:
+            raise PostProcessingError('No parameter distributions available. Use "step" to add data points first.')
+
         # plotting function of Study class can only handle arrays, not lists
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorMeanValues = np.array(self.posteriorMeanValues).T
-- 
2.43.0


From 0590cfed36025952df4187ae481cf18d87e771b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:38 +0000
Subject: [PATCH 47/57] fix: do not include singular values of Jeffreys prior
 in estimated values of the Bernoulli model

---
 bayesloop/observationModels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 38df3f3..7790bd7 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -453,8 +453,9 @@ class Bernoulli(ObservationModel):
         """
 
         if name == self.parameterNames[0]:
-            # The parameter of the Bernoulli model is naturally constrained to the [0, 1] interval
-            return cint(0, 1, 1000)
+            # The parameter of the Bernoulli model is naturally constrained to the [0, 1] interval (the boundaries are
+            # not included, as Jeffreys prior diverges there)
+            return oint(0, 1, 1000)
         else:
             raise ConfigurationError('Bernoulli model does not contain a parameter "{}".'.format(name))
 
-- 
2.43.0


From f9b5b3f5667b73e96700e714d81ded58f8706241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:22 +0000
Subject: [PATCH 48/57] fix: distributions of a study with a single time step
 can be read and plotted

---
 bayesloop/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 00dad1f..c2fe791 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -973,7 +973,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if not np.all(dt == dt[:1]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -998,7 +998,8 @@ class Study(object):
         x = self.marginalGrid[paramIndex]
         dx = self.latticeConstant[paramIndex]
         marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize),
+            axis=tuple(axesToMarginalize)).copy()
 
         if density:
             marginalPosteriorSequence /= dx
@@ -1042,7 +1043,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if not np.all(dt == dt[:1]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -1064,7 +1065,8 @@ class Study(object):
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
         marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize),
+            axis=tuple(axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From 0b323f291368dc4da652dc61b15e8537c7266ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:26 +0000
Subject: [PATCH 49/57] fix: distributions of hyper-parameters with a single
 value keep their axis

---
 bayesloop/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c2fe791..ec018cb 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1604,7 +1604,8 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize),
+                                          axis=tuple(axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x = self.flatHyperParameters[paramIndex]
@@ -1680,7 +1681,8 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize),
+                                          axis=tuple(axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
@@ -2764,7 +2766,8 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize),
+                                          axis=tuple(axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
@@ -2823,7 +2826,8 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize),
+                                          axis=tuple(axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
-- 
2.43.0


From 3685268a2dfb07ba5f608779ddb69ad993d176e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:19 +0000
Subject: [PATCH 50/57] fix: hyper-prior functions may return integers

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index ec018cb..d14d7ed 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1216,7 +1216,7 @@ class HyperStudy(Study):
 
             elif hasattr(prior, '__call__'):  # prior specified by function
                 try:
-                    priorValues = np.array([prior(value) for value in values])
+                    priorValues = np.array([prior(value) for value in values], dtype=float)
                     norm = np.sum(priorValues)
                     priorValues /= norm
                     priorValues /= gridConst
-- 
2.43.0


From 457bb5f4bb4732e4eb7ac4edcc0d23eadb21ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:29 +0000
Subject: [PATCH 51/57] fix: transition models keep no time offset from an
 earlier use in a serial model

---
 bayesloop/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d14d7ed..c36cc35 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -281,6 +281,7 @@ class Study(object):
         self.transitionModel = T
         self.transitionModel.study = self
         self.transitionModel.latticeConstant = self.latticeConstant
+        self.transitionModel.tOffset = 0  # may have been changed by a serial transition model
         if not silent:
             print('+ Transition model: {}. Hyper-Parameter(s): {}'
                   .format(T, self._unpackAllHyperParameters(values=False)))
@@ -352,6 +353,7 @@ class Study(object):
         # the transition model instance may have been assigned to another study in the meantime
         self.transitionModel.study = self
         self.transitionModel.latticeConstant = self.latticeConstant
+        self.transitionModel.tOffset = 0  # may have been changed by a serial transition model
 
         if not silent:
             print('+ Started new fit:')
-- 
2.43.0


From 8ba7e95688da7d19f023bce95bc6e3ba240e9034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 52/57] fix: evaluate the Poisson likelihood in log-space
 (counts above 170 gave NaN or zero)

---
 bayesloop/observationModels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 7790bd7..12d24e4 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -12,7 +12,7 @@ import sympy.abc as abc
 from sympy import lambdify
 from sympy.stats import density
 from .jeffreys import getJeffreysPrior
-from scipy.special import iv, factorial
+from scipy.special import iv, factorial, gammaln, xlogy
 from .exceptions import ConfigurationError, PostProcessingError
 from .helper import cint, oint, freeSymbols
 import warnings
@@ -501,7 +501,8 @@ class Poisson(ObservationModel):
         Returns:
             ndarray: Discretized Poisson pdf (with same shape as grid)
         """
-        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / factorial(dataSegment[0])
+        # evaluated in log-space, as powers and factorials of large counts cannot be represented
+        return np.exp(xlogy(dataSegment[0], grid[0]) - grid[0] - gammaln(dataSegment[0] + 1))
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From a498a844d61d49502c0b6869d446432e80e75a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 53/57] fix: tolerance for equally spaced values is relative to
 the range of the values (large grids were treated as categorical, small
 irregular ones as regular)

---
 bayesloop/core.py   | 25 +++++++++++--------------
 bayesloop/helper.py | 20 ++++++++++++++++++++
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c36cc35..4fe5fc8 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -23,7 +23,7 @@ from copy import copy, deepcopy
 from collections import OrderedDict
 from collections.abc import Iterable
 from tqdm.auto import tqdm
-from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols
+from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols, equallySpaced
 from .preprocessing import movingWindow
 from .observationModels import ObservationModel
 from .transitionModels import TransitionModel, CombinedTransitionModel, SerialTransitionModel
@@ -159,7 +159,7 @@ class Study(object):
             self.boundaries.append([v[0], v[-1]])
 
             # check if parameter values are equally spaced
-            if np.any(np.abs(np.diff(np.diff(v))) > 10 ** -10):
+            if not equallySpaced(v):
                 print('! WARNING: Supplied parameter values for "{}" are not equally spaced. Assuming categorical '
                       'parameter.'.format(n))
                 self.latticeConstant.append(1.)
@@ -1194,11 +1194,8 @@ class HyperStudy(Study):
         self.hyperGridConstant = []
         for values in self.flatHyperParameters:
             if isinstance(values, Iterable) and len(values) > 1:
-                a = np.array(values)
-                d = a[1:] - a[:-1]
-                dd = d[1:] - d[:-1]
-                if np.all(np.abs(dd) < 10 ** -10):  # for equally spaced values, set difference as grid-constant
-                    self.hyperGridConstant.append(np.abs(d[0]))
+                if equallySpaced(values):  # for equally spaced values, set difference as grid-constant
+                    self.hyperGridConstant.append(np.abs(values[1] - values[0]))
                 else:  # for irregularly spaced values (e.g. categorical), set grid-constant to 1
                     self.hyperGridConstant.append(1)
             else:  # for single value, set grid-constant to 1
@@ -1613,7 +1610,7 @@ class HyperStudy(Study):
         x = self.flatHyperParameters[paramIndex]
         if plot:
             # check if categorical
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.bar(np.arange(len(x)), marginalDistribution, align='center', width=1., **kwargs)
                 plt.xticks(np.arange(len(x)), x)
                 plt.ylabel('probability')
@@ -1688,12 +1685,12 @@ class HyperStudy(Study):
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
-        if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+        if not equallySpaced(x):
             x2 = np.tile(np.arange(len(x)), (len(y), 1)).T
         else:
             x2 = np.tile(x, (len(y), 1)).T
 
-        if np.any(np.abs(np.diff(np.diff(y))) > 10 ** -10):
+        if not equallySpaced(y):
             y2 = np.tile(np.arange(len(y)), (len(x), 1))
         else:
             y2 = np.tile(y, (len(x), 1))
@@ -1719,9 +1716,9 @@ class HyperStudy(Study):
                      )
 
             # check for categorical hyper-parameter values
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.xticks(np.arange(len(x)), x)
-            if np.any(np.abs(np.diff(np.diff(y))) > 10 ** -10):
+            if not equallySpaced(y):
                 plt.yticks(np.arange(len(y)), y)
 
             ax.set_xlabel(self.flatHyperParameterNames[paramIndices[0]])
@@ -2775,7 +2772,7 @@ class OnlineStudy(HyperStudy):
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
             # check if categorical
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.bar(np.arange(len(x)), marginalDistribution, align='center', width=1., **kwargs)
                 plt.xticks(np.arange(len(x)), x)
                 plt.ylabel('probability')
@@ -2835,7 +2832,7 @@ class OnlineStudy(HyperStudy):
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
             # check if categorical
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.bar(np.arange(len(x)), marginalDistribution, align='center', width=1., **kwargs)
                 plt.xticks(np.arange(len(x)), x)
                 plt.ylabel('probability')
diff --git a/bayesloop/helper.py b/bayesloop/helper.py
index f9fa49a..c529438 100644
--- a/bayesloop/helper.py
+++ b/bayesloop/helper.py
@@ -119,6 +119,26 @@ def cint(start, stop, num):
     """
     return np.linspace(start, stop, num)
 
+
+def equallySpaced(values):
+    """
+    Checks whether values are equally spaced. Deviations that are small compared to the range of the values (and rounding
+    errors of large values) are ignored.
+
+    Args:
+        values: List or array of numbers
+
+    Returns:
+        bool: True for equally spaced values, False otherwise
+    """
+    if len(values) < 3:
+        return True
+
+    values = np.array(values, dtype=float)
+    tolerance = 10.**-10*np.abs(values[-1] - values[0]) + 10.**-14*(np.abs(values[0]) + np.abs(values[-1]))
+    return bool(np.all(np.abs(np.diff(np.diff(values))) <= tolerance))
+
+
 def freeSymbols(rv):
     """
     Extracts the free symbols/parameters of a probability distribution from a SymPy random variable, independent of the
-- 
2.43.0


From 204efb09616a90c824a94239682960ceaca7bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:02 +0000
Subject: [PATCH 54/57] fix: NotEqual model fails for several integer
 hyper-parameter values (integer to a negative power)

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 856d431..b60623c 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -458,7 +458,7 @@ class NotEqual(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         newPrior = posterior.copy()
-        limit = (10**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
+        limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
         norm = np.sum(newPrior)
-- 
2.43.0


From 143da6505f37bc9a4e077ef6a47334cc8cc30983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:05 +0000
Subject: [PATCH 55/57] fix: parameter names of SymPy models given as a
 dictionary are not a list (transition models could not find their target)

---
 bayesloop/observationModels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 12d24e4..4fc2a79 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -322,8 +322,8 @@ class SymPy(ObservationModel):
                           "future version. Pass parameter names and values as successive arguments.",
                           DeprecationWarning)
             valueDict = args[0]
-            self.parameterNames = valueDict.keys()
-            self.parameterValues = valueDict.values()
+            self.parameterNames = list(valueDict.keys())
+            self.parameterValues = list(valueDict.values())
         else:
             self.parameterNames = args[::2]
             self.parameterValues = args[1::2]
-- 
2.43.0


From 081138009f25ff93e2196b2cf029679b00652402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 56/57] fix: online study gives NaN for all results if a single
 hypothesis is ruled out by the data

---
 bayesloop/core.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 4fe5fc8..f383784 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2216,24 +2216,34 @@ class OnlineStudy(HyperStudy):
                 # compute alpha_i
                 if self.firstStep:  # first time step, so use predefined prior
                     alphai = prior*likelihood
+                elif self.logEvidenceList[i][j] == -np.inf:  # hypothesis has been ruled out by the data before
+                    alphai = np.zeros(self.gridSize)
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
                                                                       self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
-                # update log-evidence list
-                self.logEvidenceList[i][j] += np.log(ni)
+                # update log-evidence list and store parameter posterior (hypotheses with zero evidence must not affect
+                # the results of other hypotheses)
+                if ni == 0.:
+                    self.logEvidenceList[i][j] = -np.inf
+                    self.parameterPosterior[i][j] = 0.
+                else:
+                    self.logEvidenceList[i][j] += np.log(ni)
+                    self.parameterPosterior[i][j] = alphai/ni
                 self.hyperParameterDistribution[i][j] = self.logEvidenceList[i][j] + np.log(self.hyperPriorValues[i][j])
 
-                # store parameter posterior
-                self.parameterPosterior[i][j] = alphai/ni
-
             self._setAllHyperParameters(userHyperParameters)
 
             # marginalize model evidence wrt hyper-parameters, for all past data points and only for the current one
             oldHyperEvidence = self.hyperLogEvidenceList[i]
             self.hyperLogEvidenceList[i] = logsumexp(self.logEvidenceList[i] + np.log(self.hyperPriorValues[i]))
             self.transitionModelDistribution[i] = self.hyperLogEvidenceList[i]
+            if self.hyperLogEvidenceList[i] == -np.inf:  # transition model has been ruled out by the data
+                self.localTransitionModelDistribution[i] = -np.inf
+                self.hyperParameterDistribution[i][:] = 0.
+                self.transitionModelPosterior[i] = 0.
+                continue
             self.localTransitionModelDistribution[i] = self.hyperLogEvidenceList[i] - oldHyperEvidence + \
                                                        np.log(self.transitionModelPrior[i])
 
-- 
2.43.0


From d14fb985ee9c7cb2d1b6b6989b78fa5984f33196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:54 +0000
Subject: [PATCH 57/57] fix: change-point study without any admissible
 combination of change-points returned finite evidence

---
 bayesloop/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f383784..eee2f43 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1867,6 +1867,8 @@ class ChangepointStudy(HyperStudy):
         self.mask = np.array(
             [all(x[i] < x[i + 1] for i in range(len(points) - 1)) for x in maskedHyperGridValues],
             dtype=bool)
+        if not np.any(self.mask):
+            raise ConfigurationError('Change-/break-points have no combination of values in ascending order.')
         self.hyperGridValues = self.allHyperGridValues[self.mask]
         self.flatHyperPriorValues = self.allHyperPriorValues[self.mask]
 
-- 
2.43.0

