From 2054402324fc5728ba0f3971461556c5de8585d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:02 +0000
Subject: [PATCH 01/39] fix: name detection sizes with the requested levels
 (a29 was labelled a28)

---
 otpod/_pod.py                     | 20 ++++++++++++++------
 otpod/_pod_summary.py             |  7 ++++---
 otpod/_quantile_regression_pod.py |  8 ++++----
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 8b86305..fba26bf 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -9,6 +9,14 @@ import numpy as np
 from ._math_tools import computeBoxCox, DataHandling
 
 
+def _percent(level):
+    """
+    Level in percent, as written in the names of the detection sizes.
+    """
+    # the product may fall just below the exact value (100 * 0.29 < 29)
+    return str(int(round(level * 100, 8)))
+
+
 class POD(object):
     """
     Base class to compute the POD with the subclass.
@@ -122,7 +130,7 @@ class POD(object):
         detectionSize = ot.PointWithDescription(
             1, ot.Brent().solve(model, probabilityLevel, defectMin, defectMax)
         )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + _percent(probabilityLevel)]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -139,9 +147,9 @@ class POD(object):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + _percent(probabilityLevel)
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + _percent(confidenceLevel)
             )
         # add description to the Point
         detectionSize.setDescription(description)
@@ -230,7 +238,7 @@ class POD(object):
                 "red",
                 "dashed",
                 "a"
-                + str(int(probabilityLevel * 100))
+                + _percent(probabilityLevel)
                 + " : "
                 + str(round(detectionSize[0], 3)),
             )
@@ -242,9 +250,9 @@ class POD(object):
                     "blue",
                     "dashed",
                     "a"
-                    + str(int(probabilityLevel * 100))
+                    + _percent(probabilityLevel)
                     + "/"
-                    + str(int(confidenceLevel * 100))
+                    + _percent(confidenceLevel)
                     + " : "
                     + str(round(detectionSize[1], 3)),
                 )
diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 7a95f2d..dac0b01 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -9,6 +9,7 @@ from ._univariate_linear_model_pod import UnivariateLinearModelPOD
 from ._quantile_regression_pod import QuantileRegressionPOD
 from ._polynomial_chaos_pod import PolynomialChaosPOD
 from ._kriging_pod import KrigingPOD
+from ._pod import _percent
 import logging
 import os
 
@@ -569,11 +570,11 @@ class PODSummary:
         self._dataPOD = [
             [
                 "",
-                "a" + str(int(probabilityLevel * 100)),
+                "a" + _percent(probabilityLevel),
                 "a"
-                + str(int(probabilityLevel * 100))
+                + _percent(probabilityLevel)
                 + "/"
-                + str(int(confidenceLevel * 100)),
+                + _percent(confidenceLevel),
             ]
         ]
 
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index b9bd156..bb424fc 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -4,7 +4,7 @@ __all__ = ["QuantileRegressionPOD"]
 
 import openturns as ot
 import numpy as np
-from ._pod import POD
+from ._pod import POD, _percent
 from statsmodels.regression.quantile_regression import QuantReg
 from scipy.interpolate import interp1d
 from ._decorator import DocInherit, keepingArgs
@@ -305,7 +305,7 @@ class QuantileRegressionPOD(POD):
                 "The POD model does not contain, for the given "
                 + "defect interval, the wanted probability level."
             )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + _percent(probabilityLevel)]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -323,9 +323,9 @@ class QuantileRegressionPOD(POD):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + _percent(probabilityLevel)
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + _percent(confidenceLevel)
             )
         # add description to the Point
         detectionSize.setDescription(description)
-- 
2.43.0


From d81d230c9a8f9d49d980d06d0e813fb4b2e3cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 02/39] fix: keep the previous defect sizes when setDefectSizes
 rejects the new ones

---
 otpod/_adaptive_hitmiss_pod.py | 2 +-
 otpod/_kriging_tools.py        | 2 +-
 otpod/_pli_pod.py              | 2 +-
 otpod/_polynomial_chaos_pod.py | 2 +-
 otpod/_sobol_indices.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 8872e83..d8a5ab2 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -737,7 +737,6 @@ class AdaptiveHitMissPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -746,6 +745,7 @@ class AdaptiveHitMissPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 035c97c..453c88c 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -256,7 +256,6 @@ class KrigingBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -265,6 +264,7 @@ class KrigingBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index 898f505..d11f708 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -154,7 +154,6 @@ class PLIBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -163,6 +162,7 @@ class PLIBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         # update defect number
         self._defectNumber = self._defectSizes.shape[0]
         # update result matrix
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 5a3beb2..9a4ccae 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -480,7 +480,6 @@ class PolynomialChaosPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -489,6 +488,7 @@ class PolynomialChaosPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 3b3fd0e..d8b869c 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -381,7 +381,6 @@ class SobolIndices:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -390,6 +389,7 @@ class SobolIndices:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def getDefectSizes(self):
-- 
2.43.0


From abab46687b375baaf573a17488b5132767106b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 03/39] fix: use the Box Cox parameter given as a float instead
 of estimating another one

---
 otpod/_pod.py                              | 15 ++++++++++-----
 otpod/_pod_summary.py                      |  3 ++-
 otpod/_univariate_linear_model_analysis.py |  3 +++
 otpod/_univariate_linear_model_pod.py      | 21 +++++++++++++++++++--
 4 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index fba26bf..ab47198 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -37,11 +37,13 @@ class POD(object):
 
         # if Box Cox is a float the transformation is enabled with the given value
         if type(boxCox) is float:
-            self._lambdaBoxCox = boxCox
+            self._givenLambda = boxCox
             self._boxCox = True
         else:
-            self._lambdaBoxCox = None
+            self._givenLambda = None
             self._boxCox = boxCox
+        self._lambdaBoxCox = self._givenLambda
+        self._graphBoxCox = None
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
@@ -329,9 +331,10 @@ class POD(object):
             if signals.getMin()[0] < 0:
                 shift = -signals.getMin()[0] + 100
             # optimization required, get optimal lambda without graph
-            self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
-                inputSample, signals, shift
-            )
+            if self._givenLambda is None:
+                self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
+                    inputSample, signals, shift
+                )
 
             # Transformation of data
             boxCoxTransform = ot.BoxCoxTransform([self._lambdaBoxCox])
@@ -381,6 +384,8 @@ class POD(object):
         # Check is the censored model exists when asking for it
         if not self._boxCox:
             raise Exception("The Box Cox transformation is not enabled.")
+        if self._graphBoxCox is None:
+            raise Exception("The Box Cox parameter has not been estimated.")
 
         fig, ax = plt.subplots(figsize=(8, 6))
         # get the graph from the method 'computeBoxCox'
diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index dac0b01..68eefd3 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -766,7 +766,8 @@ class PODSummary:
 
         fig = []
 
-        if self._boxCox:
+        # no likelihood when the Box Cox parameter is given
+        if self._boxCox and type(self._boxCox) is not float:
             f, ax = self._analysis.drawBoxCoxLikelihood(
                 os.path.join(directory, "BoxCox_likelihood.") + extension
             )
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 9a623ef..12debc0 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -153,6 +153,7 @@ class UnivariateLinearModelAnalysis:
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        self._graphBoxCox = None
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
@@ -851,6 +852,8 @@ class UnivariateLinearModelAnalysis:
         # Check is the censored model exists when asking for it
         if not self._boxCox:
             raise Exception("The Box Cox transformation is not enabled.")
+        if self._graphBoxCox is None:
+            raise Exception("The Box Cox parameter has not been estimated.")
 
         fig, ax = plt.subplots(figsize=(8, 6))
         # get the graph from the method 'computeBoxCox'
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 485c06b..4194eca 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -109,6 +109,9 @@ class UnivariateLinearModelPOD(POD):
             noiseThres = self._analysis.getNoiseThreshold()
             saturationThres = self._analysis.getSaturationThreshold()
             boxCox = self._analysis.getBoxCoxParameter()
+            if self._analysis._graphBoxCox is not None:
+                # the parameter was estimated by the analysis, not given
+                boxCox = True
             self._resDistFact = self._analysis._resDistFact
         else:
             # residuals distribution factory attributes
@@ -157,6 +160,7 @@ class UnivariateLinearModelPOD(POD):
             self._saturationThres,
             self._boxCox,
             self._censored,
+            self._givenLambda,
         )
         # get results
         self._defects = results["defects"]
@@ -480,6 +484,7 @@ class UnivariateLinearModelPOD(POD):
                 resDistFact,
                 boxCox,
                 censored,
+                givenLambda,
             ):
 
                 results = _computeLinearModel(
@@ -490,6 +495,7 @@ class UnivariateLinearModelPOD(POD):
                     saturationThres,
                     boxCox,
                     censored,
+                    givenLambda,
                 )
 
                 self.intercept = results["intercept"]
@@ -521,6 +527,7 @@ class UnivariateLinearModelPOD(POD):
                 self._resDistFact,
                 self._boxCox,
                 self._censored,
+                self._givenLambda,
             )
 
             PODcoll.append(model.PODmodel)
@@ -536,7 +543,14 @@ class UnivariateLinearModelPOD(POD):
 
 
 def _computeLinearModel(
-    inputSample, outputSample, detection, noiseThres, saturationThres, boxCox, censored
+    inputSample,
+    outputSample,
+    detection,
+    noiseThres,
+    saturationThres,
+    boxCox,
+    censored,
+    givenLambda=None,
 ):
     """
     Run filerCensoredData and build the linear regression model.
@@ -564,7 +578,10 @@ def _computeLinearModel(
             shift = 0.0
 
         # optimization required, get optimal lambda without graph
-        lambdaBoxCox, graphBoxCox = computeBoxCox(defects, signals, shift)
+        if givenLambda is None:
+            lambdaBoxCox, graphBoxCox = computeBoxCox(defects, signals, shift)
+        else:
+            lambdaBoxCox, graphBoxCox = givenLambda, None
 
         # Transformation of data
         boxCoxTransform = ot.BoxCoxTransform([lambdaBoxCox])
-- 
2.43.0


From 2cfb37dd26a5b3fbc40af9c2750a27b39b3ae3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 04/39] fix: report the Box Cox parameter of the data after a
 quantile regression bootstrap

---
 otpod/_quantile_regression_pod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index bb424fc..2f3bf4b 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -157,6 +157,8 @@ class QuantileRegressionPOD(POD):
         data[:, 1] = self._outputSample
         # bootstrap of the data
         bootstrapExp = ot.BootstrapExperiment(data)
+        # the bootstrap must not replace the Box Cox parameter of the POD model
+        lambdaBoxCox, graphBoxCox = self._lambdaBoxCox, self._graphBoxCox
         # create a numerical sample which contains for all simulations the
         # defect quantile value. The goal is to compute the QuantilePerComponent
         # of the simulation for each defect quantile (columns)
@@ -210,6 +212,7 @@ class QuantileRegressionPOD(POD):
             self._defectsPerQuantile[i, :] = defectList
             if self._verbose:
                 updateProgress(i, self._simulationSize, "Computing defect quantile")
+        self._lambdaBoxCox, self._graphBoxCox = lambdaBoxCox, graphBoxCox
 
     def getPODModel(self):
         """
-- 
2.43.0


From 18dd3ecc59244cc0c4230b6ee32543d708485805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 05/39] fix: rebuild the default distribution and strategy at
 each run, so that new settings are used

---
 otpod/_adaptive_hitmiss_pod.py | 4 +++-
 otpod/_adaptive_signal_pod.py  | 3 ++-
 otpod/_kriging_pod.py          | 3 ++-
 otpod/_kriging_tools.py        | 1 +
 otpod/_polynomial_chaos_pod.py | 8 ++++++--
 5 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index d8a5ab2..748fa67 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -110,6 +110,7 @@ class AdaptiveHitMissPOD(POD):
         # self._censored
 
         self._distribution = None
+        self._userDistribution = False
         self._classifierType = "rf"  # random forest classifier or svc
         self._ClassifierParameters = [[100], [None], [2], [0]]
         self._classifierModel = None
@@ -187,7 +188,7 @@ class AdaptiveHitMissPOD(POD):
         """
 
         # Create an initial uniform distribution if not given
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
@@ -760,6 +761,7 @@ class AdaptiveHitMissPOD(POD):
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 34f9e3e..c02e899 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -124,6 +124,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         self._basis = None
         self._covarianceModel = None
         self._distribution = None
+        self._userDistribution = False
         self._initialStartSize = 100
         self._samplingSize = 5000  # Number of MC simulations to compute POD
         self._candidateSize = 1000
@@ -185,7 +186,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         """
 
         # Create an initial uniform distribution if not given
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index ab0a7b4..03f63fe 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -101,6 +101,7 @@ class KrigingPOD(POD, KrigingBase):
         self._userKriging = False
         self._krigingResult = None
         self._distribution = None
+        self._userDistribution = False
         self._basis = None
         self._covarianceModel = None
         self._samplingSize = 5000
@@ -186,7 +187,7 @@ class KrigingPOD(POD, KrigingBase):
             print("kriging validation Q2 (>0.9): {:0.4f}".format(self._Q2))
 
         # set default uniform distribution with min and max of the given defect sizes
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 453c88c..b419486 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -279,6 +279,7 @@ class KrigingBase:
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 9a4ccae..6ead0e8 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -99,7 +99,9 @@ class PolynomialChaosPOD(POD):
         self._chaosResult = None
         self._samplingSize = 5000
         self._distribution = None
+        self._userDistribution = False
         self._adaptiveStrategy = None
+        self._userStrategy = False
         self._projectionStrategy = None
         self._degree = 3
         self._defectSizes = None
@@ -503,6 +505,7 @@ class PolynomialChaosPOD(POD):
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
@@ -533,6 +536,7 @@ class PolynomialChaosPOD(POD):
         except NotImplementedError:
             raise Exception("The given parameter is not an AdaptiveStrategy.")
         self._adaptiveStrategy = strategy
+        self._userStrategy = True
 
     def getAdaptiveStrategy(self):
         """
@@ -669,7 +673,7 @@ class PolynomialChaosPOD(POD):
         """
         Build the functional chaos algorithm without running it.
         """
-        if self._distribution is None:
+        if not self._userDistribution:
             # create default distribution : Uniform between min and max of the
             # input sample
             inputSample = ot.Sample(inputSample)
@@ -683,7 +687,7 @@ class PolynomialChaosPOD(POD):
         # put description of the inputSample into decription of the distribution
         self._distribution.setDescription(inputSample.getDescription())
 
-        if self._adaptiveStrategy is None:
+        if not self._userStrategy:
             # Create the adaptive strategy : default is fixed strategy of degree 5
             # with linear enumerate function
             polyCol = [0.0] * self._dim
-- 
2.43.0


From 48b5dff0229ae1dca6512ba2416721e201d67078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 06/39] fix: compute the POD confidence level from the
 simulations that were run

---
 otpod/_univariate_linear_model_pod.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 4194eca..4b83f29 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -252,8 +252,9 @@ class UnivariateLinearModelPOD(POD):
         else:
             # Linear regression model + gaussian residuals or + bootstrap
             def PODfunction(x):
-                samplePODDef = ot.Sample(self._simulationSize, 1)
-                for i in range(self._simulationSize):
+                size = len(self._PODcollDict)
+                samplePODDef = ot.Sample(size, 1)
+                for i in range(size):
                     samplePODDef[i] = [self._PODcollDict[i](x[0])]
                 return samplePODDef.computeQuantilePerComponent(1.0 - confidenceLevel)
 
-- 
2.43.0


From ffd70b8759d98edb5b6cc5dc8f663b616b8454e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 07/39] fix: evaluate the chaos POD at the defect sizes of the
 Sobol analysis

---
 otpod/_sobol_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index d8b869c..31e3243 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -573,7 +573,7 @@ class PODaggrChaos(ot.OpenTURNSPythonFunction):
         # create sample combining all defect size with the given X
         x = np.array(X, ndmin=2)
         x = x.repeat(self.defectNumber, axis=0)
-        xWitha = np.concatenate((np.vstack(self.chaosPOD._defectSizes), x), axis=1)
+        xWitha = np.concatenate((np.vstack(self.defectSizes), x), axis=1)
         # add randomness from the residual, identical for all defect size
         residualsSample = np.hstack(
             self.chaosPOD._normalDist.getSample(self.simulationSize)
-- 
2.43.0


From 4d73f1c6ce88682e961d1fd2b43463dc7f948953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 08/39] fix: run a chaos POD with a given chaos result and no
 given distribution

---
 otpod/_polynomial_chaos_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 6ead0e8..e5f6dea 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -163,6 +163,8 @@ class PolynomialChaosPOD(POD):
             if self._verbose:
                 print("Polynomial chaos model completed")
             self._chaosResult = self._algoChaos.getResult()
+        elif not self._userDistribution:
+            self._distribution = self._chaosResult.getDistribution()
 
             # get the metamodel
         self._chaosPred = self._chaosResult.getMetaModel()
-- 
2.43.0


From cbdda21ca472e3adc9d098fbc36ed5e8710f27c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 09/39] fix: optimize the kriging parameters again when an
 enriched model has a low Q2

---
 otpod/_adaptive_signal_pod.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index c02e899..2b1e8e8 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -378,10 +378,14 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 if self._verbose:
                     print("Optimization of the covariance model parameters...")
 
-                algoKriging.setOptimizeParameters(True)
-                algoKriging = self._estimKrigingTheta(
-                    algoKriging, lowerBound, upperBound, self._initialStartSize
+                fitter, transformation = self._buildKrigingAlgo(
+                    self._input, self._signals
                 )
+                fitter = self._estimKrigingTheta(
+                    fitter, lowerBound, upperBound, self._initialStartSize
+                )
+                fitter.run()
+                algoKriging = ot.GaussianProcessRegression(fitter.getResult())
                 algoKriging.run()
 
             # Get kriging results
-- 
2.43.0


From 6f42d9e2352fed5a70ace9c6326e0f05c028d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 10/39] fix: keep the normalization of an adaptive signal POD,
 for its validation graph and PLI

---
 otpod/_adaptive_signal_pod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 2b1e8e8..bef65a6 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -425,6 +425,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                     )
 
         # Compute the final POD with the last updated kriging model
+        self._transformation = transformation
         if self._verbose:
             print("\nStart computing the POD with the last updated kriging model")
         # compute the sample containing the POD values for all defect
-- 
2.43.0


From 6bccb4bfe3933108220d7bc9a1b8b0a5c66e6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 11/39] fix: accept a kriging result in setKrigingResult and
 run with it

---
 otpod/_kriging_pod.py   | 16 ++++++++++------
 otpod/_kriging_tools.py | 24 +++++++++++++++---------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index 03f63fe..e105ec0 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -178,6 +178,8 @@ class KrigingPOD(POD, KrigingBase):
                 print("Kriging optimizer completed")
             self._krigingResult = algoKriging.getResult()
             self._transformation = transformation
+        else:
+            transformation = self._transformation
 
         # compute the Q2
         self._Q2 = self._computeQ2(
@@ -220,20 +222,22 @@ class KrigingPOD(POD, KrigingBase):
 
         # The POD at confidence level is built in getPODCLModel() directly
 
-    def setKrigingResult(self, result):
+    def setKrigingResult(self, result, transformation=None):
         """
         Accessor to the kriging result.
 
         Parameters
         ----------
-        result : :py:class:`openturns.KrigingResult`
+        result : :py:class:`openturns.GaussianProcessRegressionResult`
             The kriging result.
         transformation : :py:class:`openturns.Function`
-            The normalization transformation.
+            The normalization transformation. Default is None, which stands
+            for the normalization of the input sample of this POD study.
         """
-        try:
-            ot.KrigingResult(result)
-        except NotImplementedError:
+        if not isinstance(result, ot.GaussianProcessRegressionResult):
             raise Exception("The given parameter is not an KrigingResult.")
+        if transformation is None:
+            transformation = self._buildNormalization(self._input)
         self._krigingResult = result
+        self._transformation = transformation
         self._userKriging = True
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index b419486..4b9c01c 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -401,6 +401,20 @@ class KrigingBase:
             self._covarianceModel = ot.SquaredExponential([1] * self._dim)
 
         # normalization
+        transformation = self._buildNormalization(inputSample)
+
+        fitter = ot.GaussianProcessFitter(
+            transformation(inputSample),
+            outputSample,
+            self._covarianceModel,
+            self._basis,
+        )
+        return fitter, transformation
+
+    def _buildNormalization(self, inputSample):
+        """
+        Build the normalization transformation of the input.
+        """
         mean = inputSample.computeMean()
         try:
             stddev = inputSample.computeStandardDeviation()
@@ -410,15 +424,7 @@ class KrigingBase:
         for j in range(self._dim):
             linear[j, j] = 1.0 / stddev[j] if abs(stddev[j]) > 1e-12 else 1.0
         zero = [0.0] * self._dim
-        transformation = ot.LinearFunction(mean, zero, linear)
-
-        fitter = ot.GaussianProcessFitter(
-            transformation(inputSample),
-            outputSample,
-            self._covarianceModel,
-            self._basis,
-        )
-        return fitter, transformation
+        return ot.LinearFunction(mean, zero, linear)
 
     def _computePODSamplePerDefect(
         self,
-- 
2.43.0


From 96fc096bcaa7c32035b007ed3bbd8c6bc27c3baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:48 +0000
Subject: [PATCH 12/39] fix: widen the candidate band of the hit miss
 enrichment when it is empty

---
 otpod/_adaptive_hitmiss_pod.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 748fa67..550345a 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -276,11 +276,15 @@ class AdaptiveHitMissPOD(POD):
 
             # s'il n'a pas d indices on elargit p_min = 0.45, p_max=0.55
             if len(ind) == 0:
-                ind_p1 = np.where(probs < 0.1)[0]
-                ind_p2 = np.where(probs >= 0.8)[0]
+                ind_p1 = np.where(probs < 0.8)[0]
+                ind_p2 = np.where(probs >= 0.1)[0]
                 ind_p = np.intersect1d(ind_p2, ind_p1)
                 ind = ind_p
 
+            # still none : keep the candidates closest to the boundary
+            if len(ind) == 0:
+                ind = np.argsort(np.abs(probs - 0.5))[:5]
+
             ind_rank = np.argsort(probs[ind])
             quant = [
                 0,
-- 
2.43.0


From 9c64708aad3ed17c900c85d977040c269d002ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:48 +0000
Subject: [PATCH 13/39] fix: create the graph directory of an adaptive hit miss
 POD

---
 otpod/_adaptive_hitmiss_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 550345a..5fca3ae 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -396,6 +396,8 @@ class AdaptiveHitMissPOD(POD):
                 plt.pause(0.001)
                 plt.show()
                 if self._graphDirectory is not None:
+                    if not os.path.exists(self._graphDirectory):
+                        os.makedirs(self._graphDirectory)
                     fig.savefig(
                         os.path.join(self._graphDirectory, "AdaptiveHitMissPOD_")
                         + str(algo_iteration),
-- 
2.43.0


From e87e9915af28d4a7e2757d5cad4d33b3d72ec493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:19 +0000
Subject: [PATCH 14/39] fix: do not transform censoring thresholds that a
 filtered POD does not use (a threshold of 0 failed)

---
 otpod/_pod.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index ab47198..313f249 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -339,11 +339,6 @@ class POD(object):
             # Transformation of data
             boxCoxTransform = ot.BoxCoxTransform([self._lambdaBoxCox])
             signals = boxCoxTransform(signals + shift)
-            if censored:
-                if noiseThres is not None:
-                    noiseThres = boxCoxTransform([noiseThres + shift])[0]
-                if saturationThres is not None:
-                    saturationThres = boxCoxTransform([saturationThres + shift])[0]
             detectionBoxCox = boxCoxTransform([detection + shift])[0]
         else:
             detectionBoxCox = detection
-- 
2.43.0


From 9429ce9da397b64ae9173f6493eaea1d7f1ba1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:52 +0000
Subject: [PATCH 15/39] fix: average the confusion matrix over the classifiers
 of the successive iterations

The aggregated classifiers were closures on loop variables, so that every
previous classifier was replaced by the latest one.
---
 otpod/_adaptive_hitmiss_pod.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 5fca3ae..0e6de4d 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -356,7 +356,10 @@ class AdaptiveHitMissPOD(POD):
             p11 = self._confMat[1, 1]
             p10 = self._confMat[1, 0]
 
-            def agg_classifier(x_in):
+            # the values of this iteration are bound as default arguments
+            def agg_classifier(
+                x_in, classif_algo_temp=classif_algo_temp, p11=p11, p10=p10
+            ):
                 c = p11 - p10
                 p1_bayes = 1.0 / c * (classif_algo_temp(x_in)[:, 1] - p10)
                 p1_bayes = np.vstack(
-- 
2.43.0


From 1f2c1332aebf93a1f2153a04536743ff5d3b11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:47 +0000
Subject: [PATCH 16/39] fix: no undefined hit miss POD when a classifier never
 predicts a class

The confusion matrix was divided by zero and every probability became NaN.
---
 otpod/_adaptive_hitmiss_pod.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 0e6de4d..3f6e079 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -347,7 +347,12 @@ class AdaptiveHitMissPOD(POD):
                 conf_temp = 1.0 * confusion_matrix(
                     self._signals, classifier(self._input)[:, 1] >= 0.5
                 )
-                conf_temp = 1.0 * conf_temp / conf_temp.sum(axis=0)
+                # a class that is never predicted has no observed error, its
+                # column would be undefined
+                nbPredicted = conf_temp.sum(axis=0)
+                conf_temp = np.where(
+                    nbPredicted > 0, conf_temp / np.maximum(nbPredicted, 1), np.eye(2)
+                )
                 self._confMat = conf_temp + self._confMat
 
             self._confMat = 1.0 * self._confMat / len(list_classifiers)
-- 
2.43.0


From 167aa308ea28c32b116129eb854abe2aa579b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:16 +0000
Subject: [PATCH 17/39] fix: keep the kriging POD and its confidence curve in
 [0, 1]

---
 otpod/_adaptive_signal_pod.py | 4 ++--
 otpod/_kriging_pod.py         | 2 +-
 otpod/_kriging_tools.py       | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index bef65a6..38a8592 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -404,7 +404,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
             if self._graph:
                 # create the interpolate function of the POD model
-                meanPOD = self._PODPerDefect.computeMean()
+                meanPOD = np.clip(self._PODPerDefect.computeMean(), 0.0, 1.0)
                 interpModel = interp1d(
                     self._defectSizes, np.array(meanPOD), kind="linear"
                 )
@@ -446,7 +446,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 updateProgress(i, self._defectNumber, "Computing POD per defect")
 
         # compute the mean POD
-        meanPOD = self._PODPerDefect.computeMean()
+        meanPOD = np.clip(self._PODPerDefect.computeMean(), 0.0, 1.0)
         # create the interpolate function of the POD model
         interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index e105ec0..7425b7c 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -215,7 +215,7 @@ class KrigingPOD(POD, KrigingBase):
                 updateProgress(i, self._defectNumber, "Computing POD per defect")
 
         # compute the mean POD
-        meanPOD = self._PODPerDefect.computeMean()
+        meanPOD = np.clip(self._PODPerDefect.computeMean(), 0.0, 1.0)
         # create the interpolate function of the POD model
         interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 4b9c01c..2b4d4c3 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -49,6 +49,8 @@ class KrigingBase:
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
+        # the normal approximation of the simulated POD may leave [0, 1]
+        PODQuantile = np.clip(PODQuantile, 0.0, 1.0)
         interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
-- 
2.43.0


From 984da90a582363d1b03688ace223a55a5edd2c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:16 +0000
Subject: [PATCH 18/39] fix: start the validation section of the summary file
 on its own line

---
 otpod/_pod_summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 68eefd3..0427337 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -550,7 +550,7 @@ class PODSummary:
             fd.write(regressionResult)
             fd.write("\n\nResiduals analysis results\n\n")
             fd.write(residualsResult)
-            fd.write("Model validation results\n\n")
+            fd.write("\n\nModel validation results\n\n")
             fd.write(validationResult)
             fd.write("\n\nPOD results\n\n")
             fd.write(podResult)
-- 
2.43.0


From f0863dbba98069f9dda08f9fec2035cc6191af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:37 +0000
Subject: [PATCH 19/39] fix: drawGraphs of a summary works without a
 probability level

---
 otpod/_pod_summary.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 0427337..3a79f51 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -868,11 +868,14 @@ class PODSummary:
                 logging.warning(
                     "POD for quantile regression cannot be drawn for the given parameters."
                 )
-            f, ax = self._PODqr.drawLinearModel(
-                probabilityLevel,
-                name=os.path.join(directory, "Quantile_regression_model.") + extension,
-            )
-            fig.append(f)
+            # the regression is drawn at the probability level
+            if probabilityLevel is not None:
+                f, ax = self._PODqr.drawLinearModel(
+                    probabilityLevel,
+                    name=os.path.join(directory, "Quantile_regression_model.")
+                    + extension,
+                )
+                fig.append(f)
         if self._activeMethods["PolynomialChaos"]:
             try:
                 f, ax = self._PODchaos.drawPOD(
-- 
2.43.0


From c479ff39c5d5615d90bbfc9484e51f7f2bb04520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:49 +0000
Subject: [PATCH 20/39] fix: POD at confidence level stays attached to the
 sizes of the run

Changing the defect sizes (or the quantile levels) after a run without running
again made getPODCLModel, computeDetectionSize and drawPOD pair the POD values
of the run with the new abscissae.
---
 otpod/_adaptive_hitmiss_pod.py    | 25 ++++++++++++++-----------
 otpod/_adaptive_signal_pod.py     |  3 +++
 otpod/_kriging_pod.py             |  2 ++
 otpod/_kriging_tools.py           | 22 +++++++++++-----------
 otpod/_polynomial_chaos_pod.py    | 24 +++++++++++++-----------
 otpod/_quantile_regression_pod.py |  4 +++-
 6 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 3f6e079..731fb54 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -187,6 +187,9 @@ class AdaptiveHitMissPOD(POD):
         used to compute the mean POD and the POD at the confidence level.
         """
 
+        # defect sizes associated with this run
+        self._podDefectSizes = self._defectSizes
+
         # Create an initial uniform distribution if not given
         if not self._userDistribution:
             inputMin = self._input.getMin()
@@ -460,7 +463,7 @@ class AdaptiveHitMissPOD(POD):
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
-        interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
+        interpModel = interp1d(self._podDefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
         return PODmodelCl
@@ -474,8 +477,8 @@ class AdaptiveHitMissPOD(POD):
                 None,
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._podDefectSizes),
+                np.max(self._podDefectSizes),
             )
         elif confidenceLevel is not None:
             return self._computeDetectionSize(
@@ -483,8 +486,8 @@ class AdaptiveHitMissPOD(POD):
                 self.getPODCLModel(confidenceLevel),
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._podDefectSizes),
+                np.max(self._podDefectSizes),
             )
 
     @DocInherit  # decorator to inherit the docstring from POD class
@@ -500,27 +503,27 @@ class AdaptiveHitMissPOD(POD):
     ):
 
         if defectMin is None:
-            defectMin = np.min(self._defectSizes)
+            defectMin = np.min(self._podDefectSizes)
         else:
-            if defectMin < np.min(self._defectSizes):
+            if defectMin < np.min(self._podDefectSizes):
                 raise ValueError(
                     "DefectMin must be greater than the minimum "
                     + "of the given defect sizes."
                 )
-            if defectMin > np.max(self._defectSizes):
+            if defectMin > np.max(self._podDefectSizes):
                 raise ValueError(
                     "DefectMin must be lower than the maximum "
                     + "of the given defect sizes."
                 )
         if defectMax is None:
-            defectMax = np.max(self._defectSizes)
+            defectMax = np.max(self._podDefectSizes)
         else:
-            if defectMax > np.max(self._defectSizes):
+            if defectMax > np.max(self._podDefectSizes):
                 raise ValueError(
                     "DefectMax must be lower than the maximum "
                     + "of the given defect sizes."
                 )
-            if defectMax < np.min(self._defectSizes):
+            if defectMax < np.min(self._podDefectSizes):
                 raise ValueError(
                     "DefectMax must be greater than the minimum "
                     + "of the given defect sizes."
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 38a8592..52ba72b 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -185,6 +185,9 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         level.
         """
 
+        # defect sizes associated with this run
+        self._podDefectSizes = self._defectSizes
+
         # Create an initial uniform distribution if not given
         if not self._userDistribution:
             inputMin = self._input.getMin()
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index 7425b7c..022f2bb 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -198,6 +198,8 @@ class KrigingPOD(POD, KrigingBase):
             self._distribution = ot.JointDistribution(marginals)
 
         # compute the sample containing the POD values for all defect
+        # defect sizes associated with this run
+        self._podDefectSizes = self._defectSizes
         self._PODPerDefect = ot.Sample(
             self._simulationSize * self._samplingSize, self._defectNumber
         )
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 2b4d4c3..36b5ecd 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -51,7 +51,7 @@ class KrigingBase:
         )
         # the normal approximation of the simulated POD may leave [0, 1]
         PODQuantile = np.clip(PODQuantile, 0.0, 1.0)
-        interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
+        interpModel = interp1d(self._podDefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
         return PODmodelCl
@@ -65,8 +65,8 @@ class KrigingBase:
                 None,
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._podDefectSizes),
+                np.max(self._podDefectSizes),
             )
         elif confidenceLevel is not None:
             return self._computeDetectionSize(
@@ -74,8 +74,8 @@ class KrigingBase:
                 self.getPODCLModel(confidenceLevel),
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._podDefectSizes),
+                np.max(self._podDefectSizes),
             )
 
     @DocInherit  # decorator to inherit the docstring from POD class
@@ -91,27 +91,27 @@ class KrigingBase:
     ):
 
         if defectMin is None:
-            defectMin = np.min(self._defectSizes)
+            defectMin = np.min(self._podDefectSizes)
         else:
-            if defectMin < np.min(self._defectSizes):
+            if defectMin < np.min(self._podDefectSizes):
                 raise ValueError(
                     "DefectMin must be greater than the minimum "
                     + "of the given defect sizes."
                 )
-            if defectMin > np.max(self._defectSizes):
+            if defectMin > np.max(self._podDefectSizes):
                 raise ValueError(
                     "DefectMin must be lower than the maximum "
                     + "of the given defect sizes."
                 )
         if defectMax is None:
-            defectMax = np.max(self._defectSizes)
+            defectMax = np.max(self._podDefectSizes)
         else:
-            if defectMax > np.max(self._defectSizes):
+            if defectMax > np.max(self._podDefectSizes):
                 raise ValueError(
                     "DefectMax must be lower than the maximum "
                     + "of the given defect sizes."
                 )
-            if defectMax < np.min(self._defectSizes):
+            if defectMax < np.min(self._podDefectSizes):
                 raise ValueError(
                     "DefectMax must be greater than the minimum "
                     + "of the given defect sizes."
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index e5f6dea..71b9250 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -212,6 +212,8 @@ class PolynomialChaosPOD(POD):
         )
         coefsRandom = self._coefsDist.getSample(self._simulationSize)
 
+        # defect sizes associated with this run
+        self._podDefectSizes = self._defectSizes
         self._PODPerDefect = ot.Sample(self._simulationSize, self._defectNumber)
         for i, coefs in enumerate(coefsRandom):
             self._PODPerDefect[i, :] = self._computePOD(self._defectSizes, coefs)
@@ -250,7 +252,7 @@ class PolynomialChaosPOD(POD):
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
-        interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
+        interpModel = interp1d(self._podDefectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
         return PODmodelCl
@@ -264,8 +266,8 @@ class PolynomialChaosPOD(POD):
                 None,
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._podDefectSizes),
+                np.max(self._podDefectSizes),
             )
         elif confidenceLevel is not None:
             return self._computeDetectionSize(
@@ -273,8 +275,8 @@ class PolynomialChaosPOD(POD):
                 self.getPODCLModel(confidenceLevel),
                 probabilityLevel,
                 confidenceLevel,
-                np.min(self._defectSizes),
-                np.max(self._defectSizes),
+                np.min(self._podDefectSizes),
+                np.max(self._podDefectSizes),
             )
 
     @DocInherit  # decorator to inherit the docstring from POD class
@@ -290,27 +292,27 @@ class PolynomialChaosPOD(POD):
     ):
 
         if defectMin is None:
-            defectMin = np.min(self._defectSizes)
+            defectMin = np.min(self._podDefectSizes)
         else:
-            if defectMin < np.min(self._defectSizes):
+            if defectMin < np.min(self._podDefectSizes):
                 raise ValueError(
                     "DefectMin must be greater than the minimum "
                     + "of the given defect sizes."
                 )
-            if defectMin > np.max(self._defectSizes):
+            if defectMin > np.max(self._podDefectSizes):
                 raise ValueError(
                     "DefectMin must be lower than the maximum "
                     + "of the given defect sizes."
                 )
         if defectMax is None:
-            defectMax = np.max(self._defectSizes)
+            defectMax = np.max(self._podDefectSizes)
         else:
-            if defectMax > np.max(self._defectSizes):
+            if defectMax > np.max(self._podDefectSizes):
                 raise ValueError(
                     "DefectMax must be lower than the maximum "
                     + "of the given defect sizes."
                 )
-            if defectMax < np.min(self._defectSizes):
+            if defectMax < np.min(self._podDefectSizes):
                 raise ValueError(
                     "DefectMax must be greater than the minimum "
                     + "of the given defect sizes."
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index 2f3bf4b..4465dca 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -159,6 +159,8 @@ class QuantileRegressionPOD(POD):
         bootstrapExp = ot.BootstrapExperiment(data)
         # the bootstrap must not replace the Box Cox parameter of the POD model
         lambdaBoxCox, graphBoxCox = self._lambdaBoxCox, self._graphBoxCox
+        # quantile levels associated with this run
+        self._podQuantile = self._quantile
         # create a numerical sample which contains for all simulations the
         # defect quantile value. The goal is to compute the QuantilePerComponent
         # of the simulation for each defect quantile (columns)
@@ -248,7 +250,7 @@ class QuantileRegressionPOD(POD):
         )
 
         xvalue = np.hstack([0, np.array(defectsQuantile), self._defects.getMax()[0]])
-        yvalue = np.hstack([0.0, self._quantile, self._quantile.max()])
+        yvalue = np.hstack([0.0, self._podQuantile, self._podQuantile.max()])
         interpModel = interp1d(xvalue, yvalue, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
-- 
2.43.0


From 70dfa773e76a981b3a0e69b17cfac4c0673d0a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:30 +0000
Subject: [PATCH 21/39] fix: POD at confidence level already obtained keeps its
 run

The function returned by getPODCLModel of the linear POD (Gaussian or kernel
smoothing) read the simulated models at evaluation time, so a later run
silently changed a curve obtained before.
---
 otpod/_univariate_linear_model_pod.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 4b83f29..1bf5af7 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -251,11 +251,14 @@ class UnivariateLinearModelPOD(POD):
             )
         else:
             # Linear regression model + gaussian residuals or + bootstrap
+            # keep the POD models of the current run
+            PODcollDict = self._PODcollDict
+
             def PODfunction(x):
-                size = len(self._PODcollDict)
+                size = len(PODcollDict)
                 samplePODDef = ot.Sample(size, 1)
                 for i in range(size):
-                    samplePODDef[i] = [self._PODcollDict[i](x[0])]
+                    samplePODDef[i] = [PODcollDict[i](x[0])]
                 return samplePODDef.computeQuantilePerComponent(1.0 - confidenceLevel)
 
         PODmodelCl = ot.PythonFunction(1, 1, PODfunction)
-- 
2.43.0


From 328c7f112f2233ce06a2bfc6fbc6987139ca418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:46 +0000
Subject: [PATCH 22/39] fix: PLI mean perturbation of a Uniform is solved in
 the reduced variable

---
 otpod/_pli.py | 56 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 65dc933..a033b76 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -6,7 +6,7 @@ import numpy as np
 import openturns as ot
 from openturns.viewer import View
 import matplotlib.pyplot as plt
-from scipy.optimize import fsolve
+from scipy.optimize import brentq
 
 
 class PLI:
@@ -663,32 +663,44 @@ class PLIMeanBase(PLI):
                 )
 
             elif marginalDist.getImplementation().getClassName() == "Uniform":
-                # define the function Mx'/Mx - delta, must be = 0 to find optimal lambda
-                def MprimeOverM(lamb, a, b, delta):
-                    a = float(a)
-                    if lamb == 0:
-                        return (a + b) / 2 - delta
-                    else:
-                        return (
-                            np.exp(lamb * b) * (lamb * b - 1)
-                            + np.exp(lamb * a) * (1 - lamb * a)
-                        ) / (lamb * (np.exp(lamb * b) - np.exp(lamb * a))) - delta
-
+                # work in the reduced variable u = (x - center) / halfWidth, which
+                # belongs to [-1, 1] whatever the interval
                 a, b = marginalDist.getParameter()
-                # compute the optimal lambda solving the M'/M - delta = 0
-                optimalLambda = fsolve(
-                    MprimeOverM,
-                    0,
-                    args=(a, b, delta),
-                    epsfcn=marginalDist.getStandardDeviation()[0] * 0.01,
+                center = 0.5 * (a + b)
+                halfWidth = 0.5 * (b - a)
+                target = (delta - center) / halfWidth
+                if not -1.0 < target < 1.0:
+                    raise ValueError(
+                        "The mean of a Uniform distribution on "
+                        + "[{}, {}] cannot be shifted to {}.".format(a, b, delta)
+                    )
+
+                # Mx'/Mx in the reduced variable, for lamb > 0
+                def MprimeOverM(lamb):
+                    if lamb < 1e-2:
+                        return lamb / 3.0 - lamb**3 / 45.0
+                    else:
+                        return 1.0 / np.tanh(lamb) - 1.0 / lamb
+
+                # compute the optimal lambda solving M'/M = |target|, the case of
+                # a negative target is obtained by symmetry
+                optimalLambda = brentq(
+                    lambda lamb: MprimeOverM(lamb) - np.abs(target),
+                    0.0,
+                    3.0 / (1.0 - np.abs(target)),
+                    xtol=1e-14,
                 )
+                u = np.sign(target) * (X - center) / halfWidth
 
                 # return the analytical expression of the distribution
+                inside = np.logical_and(X <= b, X >= a)
+                if optimalLambda == 0.0:
+                    return inside * 0.5 / halfWidth
                 return (
-                    optimalLambda
-                    / (np.exp(optimalLambda * b) - np.exp(optimalLambda * a))
-                    * np.exp(optimalLambda * X)
-                    * np.logical_and(X <= b, X >= a)
+                    inside
+                    * optimalLambda
+                    / (-np.expm1(-2.0 * optimalLambda) * halfWidth)
+                    * np.exp(optimalLambda * (np.where(inside, u, 0.0) - 1.0))
                 )
             else:
                 raise NotImplementedError(
-- 
2.43.0


From 21b46c3f71cf6eae57578b0b718ecf431b64fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:11 +0000
Subject: [PATCH 23/39] fix: PLI variance perturbation of a Uniform is solved
 in the reduced variable

---
 otpod/_pli.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index a033b76..e3178e1 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -787,16 +787,27 @@ class PLIVarianceBase(PLI):
 
             elif marginalDist.getImplementation().getClassName() == "Uniform":
 
+                # work in the reduced variable u = (x - center) / halfWidth, which
+                # belongs to [-1, 1] whatever the interval
+                a, b = marginalDist.getParameter()
+                center = 0.5 * (a + b)
+                halfWidth = 0.5 * (b - a)
+                if delta >= halfWidth**2:
+                    raise ValueError(
+                        "The variance of a Uniform distribution on "
+                        + "[{}, {}] cannot be changed to {}.".format(a, b, delta)
+                    )
+
                 # set the delta vector which the right hand of the constraints
                 # see eq 10 in Lemaitre paper
-                mean = marginalDist.getMean()[0]
-                deltaRHS = [mean, delta + mean**2]
+                deltaRHS = [0.0, delta / halfWidth**2]
 
                 # find the optimal lambda for a given delta values
                 optimalLambda = self.optimizeLambda(marginal, deltaRHS)
                 psi = np.log(self.computeIntegral(marginal, optimalLambda, 0))
+                u = (X - center) / halfWidth
                 return np.exp(
-                    optimalLambda[0] * X + optimalLambda[1] * X**2 - psi
+                    optimalLambda[0] * u + optimalLambda[1] * u**2 - psi
                 ) * marginalDist.computePDF(X)
             else:
                 raise NotImplementedError(
@@ -821,7 +832,8 @@ class PLIVarianceBase(PLI):
         Parameters
         ----------
         X : 2d sequence of float
-            The sample where the PDF is computed.
+            The sample where the PDF is computed, in the reduced variable which
+            belongs to [-1, 1].
         marginal : int
             The indice of the perturbed marginal.
         lamb : sequence of float of dim 2
@@ -832,7 +844,7 @@ class PLIVarianceBase(PLI):
         X = np.atleast_2d(X)
         return (
             X**degree
-            * np.array(self._distribution.getMarginal(marginal).computePDF(X))
+            * 0.5
             * np.exp(lamb[0] * X + lamb[1] * X**2)
         )
 
@@ -843,9 +855,7 @@ class PLIVarianceBase(PLI):
         def func(X):
             return self.pdfExp(X, marginal, lamb, degree)[0]
         funcOT = ot.PythonFunction(1, 1, func)
-        return self._gaussKronrod.integrate(
-            funcOT, self._distribution.getMarginal(marginal).getRange()
-        )[0]
+        return self._gaussKronrod.integrate(funcOT, ot.Interval(-1.0, 1.0))[0]
 
     def H(self, marginal, lamb, deltaRHS):
         """
@@ -858,7 +868,7 @@ class PLIVarianceBase(PLI):
         lamb : sequence of float of dim 2
             The optimization parameters
         deltaRHS : sequence of float of dim 2
-            The values of the mean and variance + mean^2
+            The values of the mean and variance + mean^2 in the reduced variable
         """
         expPsi = self.computeIntegral(marginal, lamb, 0)
         psi = np.log(expPsi)
@@ -902,7 +912,7 @@ class PLIVarianceBase(PLI):
         marginal : int
             The indice of the perturbed marginal.
         deltaRHS : sequence of float of dim 2
-            The values of the mean and variance + mean^2
+            The values of the mean and variance + mean^2 in the reduced variable
         """
 
         # define the optimization function which the Lagrange function
-- 
2.43.0


From 96ba6982fa73bff7ca800b0556c80f7306cde6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:29 +0000
Subject: [PATCH 24/39] fix: PLI figures use the delta values of the marginal
 when they are 2d

---
 otpod/_pli.py     | 5 ++++-
 otpod/_pli_pod.py | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index e3178e1..9faf61c 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -386,7 +386,10 @@ class PLI:
 
             # define the abcsissa of the plot, either the delta values or the
             # hellinger distances if activated
-            x_support = np.hstack(self._originalDelta.copy())
+            if self._originalDelta.shape[1] == 1:
+                x_support = self._originalDelta[:, 0].copy()
+            else:
+                x_support = self._originalDelta[:, marginal].copy()
             xLabel = "Delta"
             if hellinger:
                 for i, d in enumerate(self._deltaValues[:, marginal]):
diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index d11f708..1824ad7 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -381,11 +381,13 @@ class PLIBase:
         if label is None:
             label = "X{}".format(marginal)
 
+        # the delta values applied to this marginal
+        delta = self._delta[:, marginal if self._delta.shape[1] > 1 else 0]
         extent = (
             np.min(self._defectSizes[self._keepedDefect]),
             np.max(self._defectSizes[self._keepedDefect]),
-            np.min(self._delta),
-            np.max(self._delta),
+            np.min(delta),
+            np.max(delta),
         )
 
         Z = self._indices[:, marginal, self._keepedDefect]
-- 
2.43.0


From 99f974309c5adafc7f9001482d9a96da2bb2c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:29 +0000
Subject: [PATCH 25/39] fix: PLI figures against the Hellinger distance with
 integer delta values

---
 otpod/_pli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 9faf61c..37173c4 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -387,9 +387,9 @@ class PLI:
             # define the abcsissa of the plot, either the delta values or the
             # hellinger distances if activated
             if self._originalDelta.shape[1] == 1:
-                x_support = self._originalDelta[:, 0].copy()
+                x_support = self._originalDelta[:, 0].astype(float)
             else:
-                x_support = self._originalDelta[:, marginal].copy()
+                x_support = self._originalDelta[:, marginal].astype(float)
             xLabel = "Delta"
             if hellinger:
                 for i, d in enumerate(self._deltaValues[:, marginal]):
-- 
2.43.0


From 7ed09d27b48cbdc1568a121edc246f0676b45f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:29 +0000
Subject: [PATCH 26/39] fix: PLI results do not survive a change of the defect
 sizes

---
 otpod/_pli_pod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index 1824ad7..3435669 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -72,7 +72,11 @@ class PLIBase:
             marginals, self._delta, self._defectSizes
         )
         # matrix order [delta, marginal, defect]
-        self._indices = np.zeros((self._delta.shape[0], self._dim, self._defectNumber))
+        # nothing is computed until the run
+        self._indices = np.full(
+            (self._delta.shape[0], self._dim, self._defectNumber), np.nan
+        )
+        self._keepedDefect = []
 
         # initialize a list to store the pli object for each defect
         self._pli = [object] * self._defectNumber
-- 
2.43.0


From 2cb7612107b61e8dc82f0f80c59f0b9489837c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:29 +0000
Subject: [PATCH 27/39] fix: PLI failure sample of a non strict event keeps the
 threshold

---
 otpod/_pli.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 37173c4..57db10e 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -150,18 +150,20 @@ class PLI:
             .getClassName()
         )
         threshold = self._monteCarloResult.getEvent().getThreshold()
-        if operator in ["Less", "LessOrEqual"]:
-            return np.array(inputSample)[
-                (np.hstack(np.array(outputSample)) < threshold), :
-            ]
-        elif operator in ["Greater", "GreaterOrEqual"]:
-            return np.array(inputSample)[
-                (np.hstack(np.array(outputSample)) > threshold), :
-            ]
+        output = np.hstack(np.array(outputSample))
+        if operator == "Less":
+            failure = output < threshold
+        elif operator == "LessOrEqual":
+            failure = output <= threshold
+        elif operator == "Greater":
+            failure = output > threshold
+        elif operator == "GreaterOrEqual":
+            failure = output >= threshold
         else:
             raise NameError(
                 'The comparison operator "{}" is not known.'.format(operator)
             )
+        return np.array(inputSample)[failure, :]
 
     def _computePfdelta(self, marginal, idelta):
         """
-- 
2.43.0


From ea211df7b5dd0130c43d339acfa544a0eb0532e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:02 +0000
Subject: [PATCH 28/39] fix: validation graph shows the negative signals

---
 otpod/_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 313f249..0656d2a 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -286,8 +286,10 @@ class POD(object):
         prediction = np.hstack(prediction)
         fig, ax = plt.subplots(figsize=(8, 8))
         # compute boundaries of the graph assuming target and prediction > 0
-        _min = 0.99 * np.concatenate([target, prediction]).min()
-        _max = 1.01 * np.concatenate([target, prediction]).max()
+        _min = np.concatenate([target, prediction]).min()
+        _min -= 0.01 * np.abs(_min)
+        _max = np.concatenate([target, prediction]).max()
+        _max += 0.01 * np.abs(_max)
         ax.plot([_min, _max], [_min, _max], "r-", lw=0.5)
         ax.plot(target, prediction, "b.", ms=9)
         ax.grid()
-- 
2.43.0


From 7975ede39cc9444b2a02634f6f0db0bd65445f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:55 +0000
Subject: [PATCH 29/39] fix: drawLinearModel names the transformed signals when
 there is a Box Cox transformation

---
 otpod/_univariate_linear_model_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 12debc0..20f068e 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -646,11 +646,13 @@ class UnivariateLinearModelAnalysis:
         ax.plot(defects, signals, "b.", label="Data", ms=9)
         ax.plot(defects, fittedSignals, "r-", label="Linear model")
         ax.set_xlabel("Defects")
-        if model == "uncensored":
+        if self._boxCox:
+            ax.set_ylabel("Box Cox (signals)")
+        else:
             ax.set_ylabel("Signals")
+        if model == "uncensored":
             ax.set_title("Linear regression model")
         elif model == "censored":
-            ax.set_ylabel("Box Cox (signals)")
             ax.set_title("Linear regression model for censored data")
         ax.grid()
         ax.legend(loc="upper left")
-- 
2.43.0


From 12d5f650906ab59e2237566d632c1fc624a3ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 30/39] fix: drawPOD does not evaluate the POD beyond the last
 defect size by rounding

---
 otpod/_pod.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 0656d2a..40c6584 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -202,10 +202,17 @@ class POD(object):
         if defectMax is None:
             defectMax = self._inputSample.getMax()[0]
 
+        def drawModel(model):
+            # the mesh must end exactly at the bounds, where the models may stop
+            mesh = ot.Sample(np.vstack(np.linspace(defectMin, defectMax, nbPt)))
+            graph = ot.Graph("", "Defects", "POD", True)
+            graph.add(ot.Curve(mesh, model(mesh)))
+            return graph
+
         fig, ax = plt.subplots(figsize=(8, 6))
         # POD model graph
         _ = View(
-            PODmodel.draw(defectMin, defectMax, nbPt),
+            drawModel(PODmodel),
             axes=[ax],
             plot_kw={"color": "red", "label": "POD"},
         )
@@ -213,7 +220,7 @@ class POD(object):
         if confidenceLevel is not None:
             # POD at confidence level graph
             _ = View(
-                PODmodelCl.draw(defectMin, defectMax, nbPt),
+                drawModel(PODmodelCl),
                 axes=[ax],
                 plot_kw={
                     "color": "blue",
-- 
2.43.0


From 6e80d16a1095a08865b3d86dfae8e4941919803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:21 +0000
Subject: [PATCH 31/39] fix: hit miss progress bar ends when the points are
 added

---
 otpod/_adaptive_hitmiss_pod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 731fb54..2b1d5a6 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -391,7 +391,11 @@ class AdaptiveHitMissPOD(POD):
             self._classifierModel = f_iter
 
             if self._verbose:
-                updateProgress(n_added_points - 1, self._nMorePoints, "Adding points")
+                updateProgress(
+                    min(n_added_points, self._nMorePoints) - 1,
+                    self._nMorePoints,
+                    "Adding points",
+                )
 
             if self._graph:
                 self._PODPerDefect = self._computePOD(self._defectSizes, agg_classifier)
-- 
2.43.0


From 524977139721ce0f0718546a92fd20a4331a3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 32/39] fix: kriging POD keeps the dependence between the
 parameters of the given distribution

---
 otpod/_kriging_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 36b5ecd..19a2e04 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -443,13 +443,13 @@ class KrigingBase:
         """
 
         dim = distribution.getDimension()
-        # create a distibution with a dirac distribution for the defect size
-        diracDist = [ot.Dirac(defect)]
-        diracDist += [distribution.getMarginal(i + 1) for i in range(dim - 1)]
-        distribution = ot.JointDistribution(diracDist)
+        # joint distribution of the parameters without the defect
+        distribution = distribution.getMarginal(range(1, dim))
 
         # create a sample for the Monte Carlo simulation and confidence interval
-        MC_sample = distribution.getSample(samplingSize)
+        # with the defect size in the first column
+        MC_sample = ot.Sample(samplingSize, [defect])
+        MC_sample.stack(distribution.getSample(samplingSize))
         # Kriging_RV = ot.KrigingRandomVector(krigingResult, MC_sample)
         # Y_sample = Kriging_RV.getSample(simulationSize)
         Y_sample = self._randomVectorSampling(
-- 
2.43.0


From 8f180b81576d34cd5491571a39a07572fc396d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:45 +0000
Subject: [PATCH 33/39] fix: a Box Cox parameter given as a numpy float is not
 ignored

---
 otpod/_pod.py                              | 2 +-
 otpod/_univariate_linear_model_analysis.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 40c6584..b440b82 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -36,7 +36,7 @@ class POD(object):
         self._saturationThres = saturationThres
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._givenLambda = boxCox
             self._boxCox = True
         else:
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 20f068e..bcf7b9c 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -147,7 +147,7 @@ class UnivariateLinearModelAnalysis:
             self._resDistFact = resDistFact
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
-- 
2.43.0


From 0873c1308ffc31051cf20703aab62c4a3d60dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:29 +0000
Subject: [PATCH 34/39] fix: the summary draws its graphs when the Box Cox
 parameter is a numpy float

---
 otpod/_pod_summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 3a79f51..326bd96 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -767,7 +767,7 @@ class PODSummary:
         fig = []
 
         # no likelihood when the Box Cox parameter is given
-        if self._boxCox and type(self._boxCox) is not float:
+        if self._boxCox and not isinstance(self._boxCox, float):
             f, ax = self._analysis.drawBoxCoxLikelihood(
                 os.path.join(directory, "BoxCox_likelihood.") + extension
             )
-- 
2.43.0


From 6c40491668349edc572ba23cc486acd0e1af4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:29 +0000
Subject: [PATCH 35/39] fix: the design obtained from an adaptive POD does not
 change when it is run

---
 otpod/_adaptive_signal_pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 52ba72b..833888a 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -467,13 +467,13 @@ class AdaptiveSignalPOD(POD, KrigingBase):
             invBoxCox = self._boxCoxTransform.getInverse()
             return invBoxCox(self._signals) - self._shift
         else:
-            return self._signals
+            return ot.Sample(self._signals)
 
     def getInputDOE(self):
         """
         Accessor to the final input values of the DOE.
         """
-        return self._input
+        return ot.Sample(self._input)
 
     def getCandidateSize(self):
         """
-- 
2.43.0


From 9e84e2c8aba1c4bb1928cade5cd87a67b697c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:19 +0000
Subject: [PATCH 36/39] fix: the figures of the Sobol indices keep the sizes
 and the method of the run

---
 otpod/_sobol_indices.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 31e3243..cb6fe9d 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -168,6 +168,10 @@ class SobolIndices:
 
         self._sa.setUseAsymptoticDistribution(True)
 
+        # the figures show these indices even if the settings change afterwards
+        self._saMethod = self._method
+        self._saDefectSizes = self._defectSizes
+
     def getSensitivityResult(self):
         """
         Accessor to the OpenTURNS sensitivity object.
@@ -297,15 +301,17 @@ class SobolIndices:
                     self._dim
                 )
 
+        sa = self.getSensitivityResult()
+
         # get the indices values that can be computed
         xplot = ot.Sample(0, 1)
         yplot = ot.Sample(0, self._dim)
-        for i, defect in enumerate(self._defectSizes):
+        for i, defect in enumerate(self._saDefectSizes):
             try:
                 if order == "first":
-                    yplot.add(self._sa.getFirstOrderIndices(i))
+                    yplot.add(sa.getFirstOrderIndices(i))
                 elif order == "total":
-                    yplot.add(self._sa.getTotalOrderIndices(i))
+                    yplot.add(sa.getTotalOrderIndices(i))
                 xplot.add([defect])
             except Exception:
                 pass
@@ -327,11 +333,11 @@ class SobolIndices:
         ax.set_ylabel("Sensitivity indices")
         if order == "first":
             ax.set_title(
-                "First order sensitivity indices - {} Algorithm".format(self._method)
+                "First order sensitivity indices - {} Algorithm".format(self._saMethod)
             )
         elif order == "total":
             ax.set_title(
-                "Total order sensitivity indices - {} Algorithm".format(self._method)
+                "Total order sensitivity indices - {} Algorithm".format(self._saMethod)
             )
         ax.set_ylim(0, 1.2)
         ax.grid()
-- 
2.43.0


From 88e58c7d2ea5052ebd0a498fd9448099ec2bd1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:17 +0000
Subject: [PATCH 37/39] fix: the contour of the PLI shows each index at its
 delta and defect size

---
 otpod/_pli_pod.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index 3435669..69262b6 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -385,30 +385,28 @@ class PLIBase:
         if label is None:
             label = "X{}".format(marginal)
 
-        # the delta values applied to this marginal
+        # the delta values applied to this marginal, in increasing order
         delta = self._delta[:, marginal if self._delta.shape[1] > 1 else 0]
-        extent = (
-            np.min(self._defectSizes[self._keepedDefect]),
-            np.max(self._defectSizes[self._keepedDefect]),
-            np.min(delta),
-            np.max(delta),
-        )
+        order = np.argsort(delta)
+        delta = delta[order]
+        defect = self._defectSizes[self._keepedDefect]
 
-        Z = self._indices[:, marginal, self._keepedDefect]
+        Z = self._indices[:, marginal, self._keepedDefect][order]
+        vmax = np.nanmax(np.abs(Z))
 
         fig, ax = plt.subplots(figsize=(8, 6))
 
-        im = ax.imshow(
+        im = ax.pcolormesh(
+            defect,
+            delta,
             Z,
             cmap=plt.cm.RdBu,
-            origin="lower",
-            extent=extent,
-            aspect="auto",
-            vmin=-np.nanmax(np.abs(Z)),
-            vmax=np.nanmax(np.abs(Z)),
+            shading="nearest",
+            vmin=-vmax,
+            vmax=vmax,
         )  # drawing the function
         # adding the Contour lines with labels
-        cset = ax.contour(Z, 20, linewidths=0.5, colors="k", extent=extent)
+        cset = ax.contour(defect, delta, Z, 20, linewidths=0.5, colors="k")
         ax.clabel(cset, inline=True, fmt="%0.2f", fontsize=8, colors="k")
         fig.colorbar(im)  # adding the colobar on the right
         ax.set_title(self.__class__.__name__ + " indices - " + label)
-- 
2.43.0


From ced4b8d8c007635d3a3ec0fa6e124003cb4d3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:57 +0000
Subject: [PATCH 38/39] fix: setClassifierParameters does not share the lists
 of the caller

---
 otpod/_adaptive_hitmiss_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 2b1d5a6..eaf793c 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -630,7 +630,7 @@ class AdaptiveHitMissPOD(POD):
         """
         Accessor to the classifier parameters.
         """
-        self._ClassifierParameters = parameters
+        self._ClassifierParameters = [list(value) for value in parameters]
 
     def getOutputDOE(self):
         """
-- 
2.43.0


From 32d6d5dfe5c2a1cef6866221666d6f1a92d70f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:24 +0000
Subject: [PATCH 39/39] fix: the linear analysis does not take R2 for the
 p-value of a failed test

---
 otpod/_univariate_linear_model_analysis.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index bcf7b9c..a2e55ce 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -391,12 +391,11 @@ class UnivariateLinearModelAnalysis:
     def _printWarnings(self, disp=True):
         # Check results and display warnings
 
-        valuesUnc = np.array(list(self._resultsUnc.testResults.values()))
+        # R2 is no p-value
+        pValues = [v for k, v in self._resultsUnc.testResults.items() if k != "R2"]
         if self._censored:
-            valuesCens = np.array(list(self._resultsCens.testResults.values()))
-            testPValues = (valuesUnc < 0.05).any() or (valuesCens < 0.05).any()
-        else:
-            testPValues = (valuesUnc < 0.05).any()
+            pValues += [v for k, v in self._resultsCens.testResults.items() if k != "R2"]
+        testPValues = (np.array(pValues) < 0.05).any()
 
         # print warning if some pValues are less than 0.05
         msg = ["", "", ""]
-- 
2.43.0

