From 055eee7a3f4a80b67b545769b1fe3bdb33e71ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:23 +0000
Subject: [PATCH 01/47] fix: BayesianRidge.Fit stored into the caller's Y while
 summing it

---
 linear_model/bayes.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 87522b6..b17ca50 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -53,10 +53,12 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	var _, nOutputs = Y.Dims()
 	//alpha_ = 1. / np.var(y)
 	alpha := 0.
-	Y.Apply(func(i int, j int, y float64) float64 {
-		alpha += y * y
-		return y
-	}, Y)
+	for i := 0; i < nSamples; i++ {
+		for j := 0; j < nOutputs; j++ {
+			y := Y.At(i, j)
+			alpha += y * y
+		}
+	}
 	alpha = float64(nSamples*nOutputs) / alpha
 
 	lambda := 1.
-- 
2.43.0


From 10220ac8bc20f28534e6f010ce4b66d76839319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:23 +0000
Subject: [PATCH 02/47] fix: MLPRegressor.Fit shuffled the rows of the caller's
 X and Y

---
 neural_network/multilayer_perceptron.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 436735f..d6499f5 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -45,6 +45,10 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	if mlp.Shuffle {
+		// rows are swapped during fit
+		X, Y = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
+	}
 	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
 	return mlp
 }
-- 
2.43.0


From 95497d757b4676cfbb36720e0c0c023997276b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:23 +0000
Subject: [PATCH 03/47] fix: MinMaxScaler fit, PowerTransformer.Transform and
 Shuffler.InverseTransform stored into their inputs

---
 preprocessing/data.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ade9f73..fcee95d 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -73,11 +73,13 @@ func (scaler *MinMaxScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 		scaler.DataMin.CloneFrom(X.RowView(0).T())
 		scaler.DataMax.CloneFrom(X.RowView(0).T())
 	}
-	X.Apply(func(i int, j int, x float64) float64 {
-		scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
-		scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
-		return x
-	}, X)
+	for i := 0; i < nSamples; i++ {
+		for j := 0; j < nFeatures; j++ {
+			x := X.At(i, j)
+			scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
+			scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
+		}
+	}
 	scaler.NSamplesSeen += nSamples
 	// dataRange = dataMax - dataMin
 	scaler.DataRange.Sub(scaler.DataMax, scaler.DataMin)
@@ -843,19 +845,20 @@ func (m *Shuffler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Shuffler
 func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
-	xmat, ymat := X.RawMatrix(), Y.RawMatrix()
+	Xout, Yout = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
+	xmat, ymat := Xout.RawMatrix(), Yout.RawMatrix()
 	var srcxpos, srcypos, dstxpos, dstypos, j int
 	var v float64
 	for i := len(m.Perm) - 1; i >= 0; i-- {
 		if m.Perm[i] > i {
 			srcxpos, dstxpos = m.Perm[i]*xmat.Stride, i*xmat.Stride
 			srcypos, dstypos = m.Perm[i]*ymat.Stride, i*ymat.Stride
-			for j = 0; j < xmat.Stride; j++ {
+			for j = 0; j < xmat.Cols; j++ {
 				v = xmat.Data[srcxpos+j]
 				xmat.Data[srcxpos+j] = xmat.Data[dstxpos+j]
 				xmat.Data[dstxpos+j] = v
 			}
-			for j = 0; j < ymat.Stride; j++ {
+			for j = 0; j < ymat.Cols; j++ {
 				v := ymat.Data[srcypos+j]
 				ymat.Data[srcypos+j] = ymat.Data[dstypos+j]
 				ymat.Data[dstypos+j] = v
@@ -864,7 +867,7 @@ func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		}
 	}
 
-	return X, Y
+	return Xout, Yout
 }
 
 // Binarizer Binarize data (set feature values to 0 or 1) according to a threshold
@@ -1290,7 +1293,7 @@ func (m *PowerTransformer) fit(X, Y mat.Matrix, forceTransform bool) (Xout *mat.
 // Transform apply the power transform to each feature using the fitted lambdas
 func (m *PowerTransformer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	nSamples, nFeatures := X.Dims()
-	Xout = base.ToDense(X)
+	Xout = mat.NewDense(nSamples, nFeatures, nil)
 	Yout = base.ToDense(Y)
 	var transformFunc func(out, x []float64, lmbda float64)
 	switch m.Method {
-- 
2.43.0


From 8d48948e93db4fd3a92455d91c7435773a5b4901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:40 +0000
Subject: [PATCH 04/47] fix: gaussian process Score refitted the model and
 PredicterClone overwrote its Cholesky factor

---
 gaussian_process/gpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d540063..448be99 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -59,6 +59,7 @@ func (m *Regressor) PredicterClone() base.Predicter {
 		clone.KernelOpt = m.KernelOpt.CloneWithTheta(m.KernelOpt.Theta())
 	}
 	if m.L != nil {
+		clone.L = &mat.Cholesky{}
 		clone.L.Clone(m.L)
 	}
 	return &clone
@@ -131,7 +132,6 @@ func (m *Regressor) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 
 // Score returns R2 score
 func (m *Regressor) Score(X, Y mat.Matrix) float64 {
-	m.Fit(X, Y)
 	pred := m.Predict(X, nil)
 	return metrics.R2Score(Y, pred, nil, "").At(0, 0)
 }
-- 
2.43.0


From f1b04f384847af2dfd043dbae41c59e8bc77928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:40 +0000
Subject: [PATCH 05/47] fix: MLPClassifier.Predict stored into the model

---
 neural_network/multilayer_perceptron.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index d6499f5..e3cb19a 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -117,9 +117,6 @@ func (mlp *MLPClassifier) Predict(X mat.Matrix, Ymutable mat.Mutable) *mat.Dense
 		*Y = *mat.NewDense(nSamples, mlp.GetNOutputs(), nil)
 	}
 
-	if mlp.LossFuncName == "" {
-		mlp.LossFuncName = "binary_log_loss"
-	}
 	yr, _ := Y.Dims()
 	if yr == 0 {
 		panic("Y must be preallocated")
-- 
2.43.0


From 7d8f355ab0832c7d9fb1cfb9f0e5e2d7f0cc9a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 06/47] fix: GaussianNB refit reused the previous fit's
 statistics, and clones shared them with the original

---
 naive_bayes/naivebayes.go | 61 ++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6869611..fe572c9 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -126,6 +126,17 @@ func (m *BaseNB) Score(X, Y mat.Matrix) float64 {
 // PredicterClone return a cloned GaussianNB as base.Predicter
 func (m *GaussianNB) PredicterClone() base.Predicter {
 	clone := *m
+	clone.ClassPrior = append([]float64(nil), m.ClassPrior...)
+	clone.ClassCount = append([]float64(nil), m.ClassCount...)
+	if m.Theta != nil {
+		clone.Theta = mat.DenseCopyOf(m.Theta)
+	}
+	if m.Sigma != nil {
+		clone.Sigma = mat.DenseCopyOf(m.Sigma)
+	}
+	if m.jointLogLikelihood != nil {
+		clone.jointLogLikelihood = clone.gaussianJointLogLikelihood
+	}
 	return &clone
 }
 
@@ -154,9 +165,9 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	if refit {
 		m.Classes = nil
 	}
-	firstCall := m.Theta == nil
+	firstCall := refit || m.Theta == nil
 	if firstCall {
-		m.Classes = classes
+		m.Classes = append([]float64(nil), classes...)
 		nFeatures := xc
 		nClasses := len(m.Classes)
 		m.Theta = mat.NewDense(nClasses, nFeatures, nil)
@@ -234,32 +245,34 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		//self.class_prior_ = self.class_count_ / self.class_count_.sum()
 		floats.ScaleTo(m.ClassPrior, 1/floats.Sum(m.ClassCount), m.ClassCount)
 	}
-	m.jointLogLikelihood = func(jll, xrow []float64) {
-		/*
-		   joint_log_likelihood = []
-		      for i in range(np.size(self.classes_)):
-		          jointi = np.log(self.class_prior_[i])
-		          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
-		          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
-		                               (self.sigma_[i, :]), 1)
-		          joint_log_likelihood.append(jointi + n_ij)
+	m.jointLogLikelihood = m.gaussianJointLogLikelihood
+	return m
+}
 
+func (m *GaussianNB) gaussianJointLogLikelihood(jll, xrow []float64) {
+	/*
+	   joint_log_likelihood = []
+	      for i in range(np.size(self.classes_)):
+	          jointi = np.log(self.class_prior_[i])
+	          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
+	          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
+	                               (self.sigma_[i, :]), 1)
+	          joint_log_likelihood.append(jointi + n_ij)
 
-		*/
-		for i := range m.Classes {
-			jointi := math.Log(m.ClassPrior[i])
-			nij := 0.
-			sigmai := m.Sigma.RawRowView(i)
-			thetai := m.Theta.RawRowView(i)
-			for j := 0; j < len(xrow); j++ {
-				nij -= .5 * math.Log(2*math.Pi*sigmai[j])
-				xd := xrow[j] - thetai[j]
-				nij -= .5 * xd * xd / sigmai[j]
-			}
-			jll[i] = jointi + nij
+
+	*/
+	for i := range m.Classes {
+		jointi := math.Log(m.ClassPrior[i])
+		nij := 0.
+		sigmai := m.Sigma.RawRowView(i)
+		thetai := m.Theta.RawRowView(i)
+		for j := 0; j < len(xrow); j++ {
+			nij -= .5 * math.Log(2*math.Pi*sigmai[j])
+			xd := xrow[j] - thetai[j]
+			nij -= .5 * xd * xd / sigmai[j]
 		}
+		jll[i] = jointi + nij
 	}
-	return m
 }
 
 type matfiltered struct {
-- 
2.43.0


From a4c1c0c34ad1947f21c0d1865b766efb9a70afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 07/47] fix: linear models overwrote the intercept shared with
 clones when fitted again

---
 linear_model/Base.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 83e981d..72bb74c 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -558,9 +558,7 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 func (regr *LinearModel) setIntercept(XOffset, YOffset, XScale mat.Matrix) {
 	_, nOutputs := regr.Coef.Dims()
-	if regr.Intercept == nil {
-		regr.Intercept = mat.NewDense(1, nOutputs, nil)
-	}
+	regr.Intercept = mat.NewDense(1, nOutputs, nil)
 
 	regr.Coef.Apply(func(j, o int, coef float64) float64 { return coef / XScale.At(0, j) }, regr.Coef)
 	if regr.FitIntercept {
-- 
2.43.0


From 5c36b54ecc897cccb7d65d1ac2116dd43ddd2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 08/47] fix: MLPClassifier clones drew from the original's
 random source

---
 neural_network/multilayer_perceptron.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index e3cb19a..fb01c0c 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -96,6 +96,9 @@ func NewMLPClassifier(hiddenLayerSizes []int, activation string, solver string,
 // PredicterClone returns an (possibly unfitted) copy of predicter
 func (mlp *MLPClassifier) PredicterClone() base.Predicter {
 	clone := *mlp
+	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
 	return &clone
 }
 
-- 
2.43.0


From 48bfc1fdbd0e19f1be87588ae46ec80d1ecb0555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 09/47] fix: cloned transformers shared their learned state or
 random source with the original

---
 preprocessing/data.go  | 24 ++++++++++++++++++++++++
 preprocessing/label.go | 13 +++++++++++++
 preprocessing/pca.go   |  1 +
 3 files changed, 38 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index fcee95d..5417741 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -41,9 +41,22 @@ func NewMinMaxScaler(featureRange []float) *MinMaxScaler {
 // TransformerClone ...
 func (scaler *MinMaxScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.Scale = cloneDense(scaler.Scale)
+	clone.Min = cloneDense(scaler.Min)
+	clone.DataMin = cloneDense(scaler.DataMin)
+	clone.DataMax = cloneDense(scaler.DataMax)
+	clone.DataRange = cloneDense(scaler.DataRange)
 	return &clone
 }
 
+// cloneDense returns a copy of m, or nil
+func cloneDense(m *mat.Dense) *mat.Dense {
+	if m == nil {
+		return nil
+	}
+	return mat.DenseCopyOf(m)
+}
+
 // Reset resets scaler to its initial state
 func (scaler *MinMaxScaler) Reset() *MinMaxScaler {
 	scaler.NSamplesSeen = 0
@@ -145,6 +158,9 @@ func NewStandardScaler() *StandardScaler {
 // TransformerClone ...
 func (scaler *StandardScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.Scale = cloneDense(scaler.Scale)
+	clone.Mean = cloneDense(scaler.Mean)
+	clone.Var = cloneDense(scaler.Var)
 	return &clone
 }
 
@@ -331,6 +347,9 @@ func NewDefaultRobustScaler() *RobustScaler {
 // TransformerClone ...
 func (scaler *RobustScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.Median = cloneDense(scaler.Median)
+	clone.Tmp = cloneDense(scaler.Tmp)
+	clone.QuantileDivider = cloneDense(scaler.QuantileDivider)
 	return &clone
 }
 
@@ -799,6 +818,9 @@ func NewShuffler() *Shuffler { return &Shuffler{} }
 // TransformerClone ...
 func (m *Shuffler) TransformerClone() base.Transformer {
 	var clone = *m
+	if sourceCloner, ok := m.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
 	return &clone
 }
 
@@ -924,6 +946,8 @@ func NewMaxAbsScaler() *MaxAbsScaler { return &MaxAbsScaler{} }
 // TransformerClone ...
 func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 	var clone = *m
+	clone.Scale = append([]float64(nil), m.Scale...)
+	clone.MaxAbs = append([]float64(nil), m.MaxAbs...)
 	return &clone
 }
 
diff --git a/preprocessing/label.go b/preprocessing/label.go
index 70ed591..f1da6c2 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -281,9 +281,22 @@ func NewLabelEncoder() *LabelEncoder { return &LabelEncoder{} }
 // TransformerClone ...
 func (m *LabelEncoder) TransformerClone() base.Transformer {
 	clone := *m
+	clone.Classes = cloneFloats2(m.Classes)
+	clone.Support = cloneFloats2(m.Support)
 	return &clone
 }
 
+func cloneFloats2(a [][]float64) [][]float64 {
+	if a == nil {
+		return nil
+	}
+	b := make([][]float64, len(a))
+	for i := range a {
+		b[i] = append([]float64(nil), a[i]...)
+	}
+	return b
+}
+
 // Fit for LabelEncoder ...
 func (m *LabelEncoder) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 067575b..b832f83 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -28,6 +28,7 @@ func (m *PCA) TransformerClone() base.Transformer {
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
 	_, c := X.Dims()
+	m.SVD = mat.SVD{} // Factorize would reuse storage shared with clones
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
-- 
2.43.0


From 83143cf0447050c3ef79f861750d75c913527cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:35 +0000
Subject: [PATCH 10/47] fix: NearestCentroid called PredicterClone,
 IsClassifier and GetNOutputs on a nil interface

---
 neighbors/nearest_centroid.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index e7c5aa0..d48bc20 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -30,6 +30,18 @@ func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid
 	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *NearestCentroid) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for NearestCentroid
+func (*NearestCentroid) IsClassifier() bool { return true }
+
+// GetNOutputs returns output columns number for Y to pass to predict
+func (*NearestCentroid) GetNOutputs() int { return 1 }
+
 // Fit ...
 func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From 8e0403b8628768a022124d834ab21a3a44b483b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:35 +0000
Subject: [PATCH 11/47] fix: KNeighborsClassifier called PredicterClone and
 IsClassifier on a nil interface

---
 neighbors/classification.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index dfa9770..00b5d5e 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -32,11 +32,20 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 	return &KNeighborsClassifier{NearestNeighbors: *NewNearestNeighbors(), K: K, Weight: Weights}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *KNeighborsClassifier) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for KNeighborsClassifier
+func (*KNeighborsClassifier) IsClassifier() bool { return true }
+
 // Fit ...
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
-	m.Y = Y
+	m.Y = mat.DenseCopyOf(Y)
 	m.nOutputs = Y.RawMatrix().Cols
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
-- 
2.43.0


From 647ef9d9a23a0f5d4109e0e8ff5fab3eb209efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 12/47] fix: DBSCAN.Fit appended to the core sample indices of
 the previous fit

---
 cluster/dbscan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index bdebd83..e05c3bc 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -111,6 +111,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		m.Labels[i] = -1
 	}
 	// # A list of all core samples found.
+	m.CoreSampleIndices = nil
 	isCore := make([]bool, NSamples)
 	for sample := range NNeighbors {
 		if NNeighbors[sample] > m.MinSamples {
-- 
2.43.0


From 3ded032498679fe86f09bc475457c122a6ffc61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 13/47] fix: LogisticRegression.Fit kept the loss curve and
 label binarizer of the previous fit

---
 linear_model/logistic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index ddeda9e..2aff042 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -271,6 +271,7 @@ func (m *LogisticRegression) initialize(yCols int, layerUnits []int, isMultiClas
 	// # Initialize parameters
 	m.NIter = 0
 	m.t = 0
+	m.LossCurve = nil
 	m.NOutputs = yCols
 
 	//# Compute the number of layers
@@ -345,6 +346,7 @@ func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
 		xb = mat.DenseCopyOf(X)
 		yb = mat.DenseCopyOf(Y)
 	}
+	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
 		xbin, ybin := m.lb.FitTransform(X, Y)
-- 
2.43.0


From c53249c7996a1f1b217da4044b696e8a9243c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 14/47] fix: fitting a perceptron again reused batch size,
 histories, best scores and label binarizer of the previous fit

---
 neural_network/basemlp32.go | 33 +++++++++++++++++++--------------
 neural_network/basemlp64.go | 33 +++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index bcdbc41..023718c 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -480,6 +480,10 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M32.Inf(1)
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.BestValidationScore = 0
+	mlp.NoImprovementCount = 0
 }
 
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
@@ -512,18 +516,19 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
+	batchSize := mlp.BatchSize
 	//    # lbfgs does not support mini-batches
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -533,16 +538,16 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float32, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -565,7 +570,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	} else {
 		// # Run the Stochastic optimization solver
 		mlp.fitStochastic(X, y, activations, deltas, CoefsGrads,
-			InterceptsGrads, packedGrads, layerUnits, incremental)
+			InterceptsGrads, packedGrads, layerUnits, batchSize, incremental)
 	}
 	mlp.packedGrads = packedGrads
 }
@@ -591,6 +596,7 @@ func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized32(yb) {
 		mlp.lb = NewLabelBinarizer32(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General32(xb), General32(yb))
@@ -728,7 +734,7 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 }
 
 func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activations, deltas, coefGrads []blas32General,
-	interceptGrads [][]float32, packedGrads []float32, layerUnits []int, incremental bool) {
+	interceptGrads [][]float32, packedGrads []float32, layerUnits []int, batchSize int, incremental bool) {
 	if !incremental || mlp.optimizer == Optimizer32(nil) {
 		params := mlp.packedParameters
 		switch mlp.Solver {
@@ -763,7 +769,6 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d50f893..6b04937 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -480,6 +480,10 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M64.Inf(1)
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.BestValidationScore = 0
+	mlp.NoImprovementCount = 0
 }
 
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
@@ -512,18 +516,19 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
+	batchSize := mlp.BatchSize
 	//    # lbfgs does not support mini-batches
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -533,16 +538,16 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float64, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -565,7 +570,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	} else {
 		// # Run the Stochastic optimization solver
 		mlp.fitStochastic(X, y, activations, deltas, CoefsGrads,
-			InterceptsGrads, packedGrads, layerUnits, incremental)
+			InterceptsGrads, packedGrads, layerUnits, batchSize, incremental)
 	}
 	mlp.packedGrads = packedGrads
 }
@@ -591,6 +596,7 @@ func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized64(yb) {
 		mlp.lb = NewLabelBinarizer64(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General64(xb), General64(yb))
@@ -728,7 +734,7 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 }
 
 func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activations, deltas, coefGrads []blas64General,
-	interceptGrads [][]float64, packedGrads []float64, layerUnits []int, incremental bool) {
+	interceptGrads [][]float64, packedGrads []float64, layerUnits []int, batchSize int, incremental bool) {
 	if !incremental || mlp.optimizer == Optimizer64(nil) {
 		params := mlp.packedParameters
 		switch mlp.Solver {
@@ -763,7 +769,6 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
-- 
2.43.0


From 52174e5d6d9a301c8567fcfce2f64f4b7d5d224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 15/47] fix: SVC and SVR kept the gamma derived from the first
 training set

---
 svm/svm.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 06749b9..2db17e5 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -263,8 +263,9 @@ func (m *SVC) GetNOutputs() int { return m.nOutputs }
 func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func(X1, X2 []float64) float64, Tol float64, MaxPasses int, CacheSize uint, RandomState base.Source) *Model) {
 	NSamples, NFeatures := X.Dims()
 	_, Noutputs := Y.Dims()
-	if m.Gamma <= 0. {
-		m.Gamma = 1. / float64(NFeatures)
+	gamma := m.Gamma
+	if gamma <= 0. {
+		gamma = 1. / float64(NFeatures)
 	}
 	m.Model = make([]*Model, Noutputs)
 	var K func(a, b []float64) float64
@@ -276,11 +277,11 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 		case "linear":
 			K = (LinearKernel{}).Func
 		case "poly", "polynomial":
-			K = (PolynomialKernel{gamma: m.Gamma, coef0: m.Coef0, degree: m.Degree}).Func
+			K = (PolynomialKernel{gamma: gamma, coef0: m.Coef0, degree: m.Degree}).Func
 		case "sigmoid":
-			K = (SigmoidKernel{gamma: m.Gamma, coef0: m.Coef0}).Func
+			K = (SigmoidKernel{gamma: gamma, coef0: m.Coef0}).Func
 		default: //rbf
-			K = (RBFKernel{gamma: m.Gamma}).Func
+			K = (RBFKernel{gamma: gamma}).Func
 		}
 	case Kernel:
 		K = v.Func
-- 
2.43.0


From d10ac754c185098e4b88e5e84616f1020e536baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:16 +0000
Subject: [PATCH 16/47] fix: MaxAbsScaler and RobustScaler kept state sized or
 counted by the previous fit

---
 preprocessing/data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 5417741..a931ff7 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -367,6 +367,7 @@ func NewRobustScaler(center bool, scale bool, quantiles *QuantilePair) *RobustSc
 
 // Reset ...
 func (scaler *RobustScaler) Reset() *RobustScaler {
+	scaler.Median, scaler.QuantileDivider, scaler.Tmp = nil, nil, nil
 	return scaler
 }
 
@@ -957,6 +958,7 @@ func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	Xmat := X.RawMatrix()
 	m.MaxAbs = make([]float64, Xmat.Cols)
 	m.Scale = make([]float64, Xmat.Cols)
+	m.NSamplesSeen = 0
 	return m.PartialFit(X, Y)
 }
 
-- 
2.43.0


From 1b0c46a00798e92c2765c4fe52dd9e579adb2813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 17/47] fix: PreprocessData copied the whole of X from every
 worker when FitIntercept is false

---
 linear_model/Base.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 72bb74c..61572ed 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -613,12 +613,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 			mean := 0.
 			if FitIntercept {
 				mean = mat.Sum(xcol) / float64(Xmat.Rows)
-
-				for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
-					Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
-				}
-			} else {
-				Xout.Copy(X)
+			}
+			for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
+				Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
 			}
 			scale := 1.
 			if FitIntercept && Normalize {
-- 
2.43.0


From 60c676979acf1b219e064af4195b37f7d416f0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 18/47] fix: SVC and SVR outputs were trained concurrently on
 one random source

---
 svm/svm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 2db17e5..963c6ac 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -293,7 +293,12 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 	}
 	m.Support = make([][]int, Noutputs)
 	m.SupportVectors = make([][][]float64, Noutputs)
-	base.Parallelize(-1, Noutputs, func(th, start, end int) {
+	threads := -1
+	if m.RandomState != nil {
+		// the outputs draw from the same source: train them one after another
+		threads = 1
+	}
+	base.Parallelize(threads, Noutputs, func(th, start, end int) {
 		y := make([]float64, NSamples)
 		for output := start; output < end; output++ {
 			mat.Col(y, output, Y)
-- 
2.43.0


From fe5c49e302e8499a9b52832a14e0c1984306da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 19/47] fix: MakeBlobs drew samples concurrently from
 config.RandomState and samples' noise from the global source

---
 datasets/samples_generator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index ed296dd..7931a6e 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -173,7 +173,12 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 
 	X = mat.NewDense(config.NSamples, config.NFeatures, nil)
 	Y = mat.NewDense(config.NSamples, 1, nil)
-	base.Parallelize(runtime.NumCPU(), config.NSamples, func(th, start, end int) {
+	threads := runtime.NumCPU()
+	if config.RandomState != nil {
+		// samples are drawn from the same source: generate them one after another
+		threads = 1
+	}
+	base.Parallelize(threads, config.NSamples, func(th, start, end int) {
 		mu := make([]float64, config.NFeatures)
 		sigma := mat.NewSymDense(config.NFeatures, nil)
 
@@ -181,7 +186,7 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 			sigma.SetSym(i, i, 1)
 		}
 		sigma.ScaleSym(config.ClusterStd*config.ClusterStd, sigma)
-		normal, _ := distmv.NewNormal(mu, sigma, nil)
+		normal, _ := distmv.NewNormal(mu, sigma, config.RandomState)
 		_ = normal
 		for sample := start; sample < end; sample++ {
 			cluster := randIntn(NCenters)
-- 
2.43.0


From a40cd15d89e8506849e1886299831023176c5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:12 +0000
Subject: [PATCH 20/47] fix: LockedSource.SourceClone read the source without
 holding its lock

---
 base/source.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/source.go b/base/source.go
index 663d941..8db1e63 100644
--- a/base/source.go
+++ b/base/source.go
@@ -57,6 +57,8 @@ func (s *LockedSource) Seed(seed uint64) {
 
 // SourceClone ...
 func (s *LockedSource) SourceClone() Source {
+	s.lk.Lock()
+	defer s.lk.Unlock()
 	return &LockedSource{src: s.src.SourceClone().(*randomkit.RKState)}
 }
 
-- 
2.43.0


From bf588e5dfe7c931ea7440ba973a096a65a635d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 21/47] fix: KNeighborsClassifier broke ties between classes by
 map iteration order

---
 neighbors/classification.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 00b5d5e..6e29688 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -135,7 +135,8 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 				}
 				wmax, clwmax := 0., 0.
 				for cl, w := range classw {
-					if w > wmax {
+					// ties go to the smallest class, whatever the iteration order
+					if w > wmax || (w == wmax && cl < clwmax) {
 						wmax = w
 						clwmax = cl
 					}
-- 
2.43.0


From 9c3e2b5e81375f34c3f0bddc09f948c85755d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 22/47] fix: class counts of neighbors classifiers were in map
 iteration order, not the order of the classes

---
 neighbors/classification.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 6e29688..8a95c1f 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -183,9 +183,11 @@ func getClasses(Y mat.Matrix) (classes [][]float64, counts [][]int) {
 		clcounts := make([]int, 0)
 		for cl := range clmap {
 			clvalues = append(clvalues, cl)
-			clcounts = append(clcounts, clcnt[cl])
 		}
 		sort.Float64s(clvalues)
+		for _, cl := range clvalues {
+			clcounts = append(clcounts, clcnt[cl])
+		}
 		classes = append(classes, clvalues)
 		counts = append(counts, clcounts)
 	}
-- 
2.43.0


From 366a76c56e1bb1ee432f06c92a221a6620b8f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:00 +0000
Subject: [PATCH 23/47] fix: ParameterGrid returned its combinations in map
 iteration order

---
 model_selection/search.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 6550a8b..d0db12b 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -3,6 +3,7 @@ package modelselection
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/pa-m/sklearn/base"
@@ -34,8 +35,13 @@ func ParameterGrid(paramGrid map[string][]interface{}) (out []map[string]interfa
 
 		return
 	}
-	for k, v := range paramGrid {
-		out = makeArr(k, v, out)
+	names := make([]string, 0, len(paramGrid))
+	for k := range paramGrid {
+		names = append(names, k)
+	}
+	sort.Strings(names)
+	for _, k := range names {
+		out = makeArr(k, paramGrid[k], out)
 	}
 	return
 }
-- 
2.43.0


From 2daf2f751a039b08a8b9edb584d0d55b49f8e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:01 +0000
Subject: [PATCH 24/47] fix: MakeBlobs drew from the global generator although
 RandomState was set

---
 datasets/samples_generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index 7931a6e..4be0976 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -150,9 +150,13 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	if config.RandomState != nil {
 		if normFloat64er, ok := config.RandomState.(base.NormFloat64er); ok {
 			randNormFloat64 = normFloat64er.NormFloat64
+		} else {
+			randNormFloat64 = rand.New(config.RandomState).NormFloat64
 		}
 		if intner, ok := config.RandomState.(base.Intner); ok {
 			randIntn = intner.Intn
+		} else {
+			randIntn = rand.New(config.RandomState).Intn
 		}
 	}
 
@@ -196,7 +200,9 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 		}
 	})
 	if config.Shuffle {
-		X, Y = preprocessing.NewShuffler().FitTransform(X, Y)
+		shuffler := preprocessing.NewShuffler()
+		shuffler.RandomState = config.RandomState
+		X, Y = shuffler.FitTransform(X, Y)
 	}
 	return
 }
-- 
2.43.0


From cb4db31624547390cb53cf914dd0df8d6f8b09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 25/47] fix: coordinate descent with random selection drew from
 the global generator

---
 linear_model/cdfast.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/linear_model/cdfast.go b/linear_model/cdfast.go
index bc90623..084fe34 100644
--- a/linear_model/cdfast.go
+++ b/linear_model/cdfast.go
@@ -62,16 +62,15 @@ func enetCoordinateDescent(w *mat.VecDense, alpha, beta float64, X *mat.Dense, Y
 		return -1
 	}
 
+	if random && rng == nil {
+		rng = rand.New(rand.NewSource(1))
+	}
 	for nIter = 0; nIter < maxIter; nIter++ {
 		wmax, dwmax = 0., 0.
 		var ii int
 		for fIter := 0; fIter < NFeatures; fIter++ {
 			if random {
-				if rng != nil {
-					ii = rng.Intn(NFeatures)
-				} else {
-					ii = rand.Intn(NFeatures)
-				}
+				ii = rng.Intn(NFeatures)
 			} else {
 				ii = fIter
 			}
@@ -197,16 +196,15 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 	Y2.MulElem(Y, Y)
 	tol *= mat.Sum(Y2)
 
+	if random && rng == nil {
+		rng = rand.New(rand.NewSource(1))
+	}
 	for nIter = 0; nIter < maxIter; nIter++ {
 		wmax, dwmax = 0., 0.
 
 		for fIter = 0; fIter < NFeatures; fIter++ {
 			if random {
-				if rng != nil {
-					ii = rng.Intn(NFeatures)
-				} else {
-					ii = rand.Intn(NFeatures)
-				}
+				ii = rng.Intn(NFeatures)
 			} else {
 				ii = fIter
 			}
-- 
2.43.0


From aef776f5f191f634f899c9d1e616e6dccab802eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:03 +0000
Subject: [PATCH 26/47] fix: LinFit and LinFitGOM drew starting points and
 shuffles from the global generator

---
 linear_model/Base.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 61572ed..374bd62 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -344,11 +344,13 @@ func LinFit(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 	gradSlice := make([]float64, nFeatures*nOutputs)
 	grad := mat.NewDense(nFeatures, nOutputs, gradSlice)
 
+	// own source: the fit must not depend on the state of the global generator
+	rnd := rand.New(rand.NewSource(1))
 	if opts.ThetaInitializer != nil {
 		opts.ThetaInitializer(Theta)
 	} else {
 		Theta.Apply(func(i, j int, v float64) float64 {
-			return 0.01 * rand.Float64()
+			return 0.01 * rnd.Float64()
 		}, Theta)
 	}
 
@@ -398,6 +400,7 @@ func LinFit(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 	}
 	for epoch = 1; epoch <= opts.Epochs && !converged; epoch++ {
 		shuffler := preprocessing.NewShuffler()
+		shuffler.RandomState = rnd
 		Xs, Ys := shuffler.FitTransform(X, Ytrue)
 		for miniBatch := 0; miniBatch*miniBatchSize < nSamples; miniBatch++ {
 			miniBatchStart = miniBatch * miniBatchSize
@@ -473,8 +476,10 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 	theta := make([]float64, nFeatures*nOutputs)
 	thetaM := mat.NewDense(nFeatures, nOutputs, theta)
+	// own source: the fit must not depend on the state of the global generator
+	rnd := rand.New(rand.NewSource(1))
 	for j := 0; j < len(theta); j++ {
-		theta[j] = 0.01 * rand.NormFloat64()
+		theta[j] = 0.01 * rnd.NormFloat64()
 	}
 	var ret *optimize.Result
 	var err error
-- 
2.43.0


From 10bc1d9b60c905f749302f63c92b5219899ad2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:04 +0000
Subject: [PATCH 27/47] fix: LinFitGOM summed the losses of its outputs in the
 order the goroutines finished

---
 linear_model/Base.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 374bd62..ad01be9 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -523,14 +523,18 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 			go fitOutput(o1, chanret)
 		}
 
+		losses := make([]float64, nOutputs)
 		for o1 := 0; o1 < nOutputs; o1++ {
 			foret := <-chanret
 			ret := foret.ret
 			thetaM.SetCol(foret.o, ret.X)
-			rmse += ret.F
+			losses[foret.o] = ret.F
 			epoch += ret.FuncEvaluations
 			converged = converged && ret.Status != optimize.Failure
 		}
+		for _, loss := range losses {
+			rmse += loss
+		}
 		rmse = math.Sqrt(rmse) / float64(nOutputs)
 
 	} else {
-- 
2.43.0


From 7ff5830e9cf553f61ffb31792036cf3908d74edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:33 +0000
Subject: [PATCH 28/47] fix: KMeans summed centroids in the order the
 goroutines ran

---
 cluster/kmeans.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index c92be35..39fd5a1 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -80,16 +80,14 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		m.predict(X, NearestCentroid, CentroidCount, &changed)
 		// recompute centroids
 		m.Centroids.Sub(m.Centroids, m.Centroids)
-		var mu sync.Mutex // mu locks m.Centroids modifications
-		base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
-			row := make([]float64, NFeatures)
-			for sample := start; sample < end; sample++ {
+		// every worker sums its own features over the samples in order, so that rounding does not depend on scheduling
+		base.Parallelize(m.NJobs, NFeatures, func(th, start, end int) {
+			for sample := 0; sample < NSamples; sample++ {
 				ic := NearestCentroid[sample]
-				mu.Lock()
-				c := m.Centroids.RowView(ic)
-				mat.Row(row, sample, X)
-				c.(*mat.VecDense).AddScaledVec(c, 1./float64(CentroidCount[ic]), mat.NewVecDense(NFeatures, row))
-				mu.Unlock()
+				alpha := 1. / float64(CentroidCount[ic])
+				for feature := start; feature < end; feature++ {
+					m.Centroids.Set(ic, feature, m.Centroids.At(ic, feature)+alpha*X.At(sample, feature))
+				}
 			}
 		})
 		if changed {
-- 
2.43.0


From 1bb51c1e89023683939b483b4f43ec7cc7e1f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:00 +0000
Subject: [PATCH 29/47] fix: Imputer with strategy most_frequent broke ties by
 map iteration order

---
 preprocessing/imputation.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/preprocessing/imputation.go b/preprocessing/imputation.go
index 7cf37ca..c7dee49 100644
--- a/preprocessing/imputation.go
+++ b/preprocessing/imputation.go
@@ -47,7 +47,8 @@ func (m *Imputer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				sort.Float64s(tmp)
 				def = stat.Quantile(.5, stat.Empirical, tmp, nil)
 			case "most_frequent":
-				def, _ = stat.Mode(tmp, nil)
+				sort.Float64s(tmp)
+				def = sortedMode(tmp)
 			default:
 				def = stat.Mean(tmp, nil)
 			}
@@ -58,6 +59,23 @@ func (m *Imputer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	return m
 }
 
+// sortedMode returns the most frequent value of x, which must be sorted, and the smallest of them if several are.
+// stat.Mode returns any of them.
+func sortedMode(x []float64) (mode float64) {
+	count, maxCount := 0, 0
+	for i, v := range x {
+		if i > 0 && v == x[i-1] {
+			count++
+		} else {
+			count = 1
+		}
+		if count > maxCount {
+			mode, maxCount = v, count
+		}
+	}
+	return
+}
+
 // Transform for Imputer ...
 func (m *Imputer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout *mat.Dense) {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From 76a18a5b543f1fd5b663621c979cf43858405c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:10 +0000
Subject: [PATCH 30/47] fix: distances ignored the increment of their vectors

---
 cluster/distance.go   | 10 ++++++----
 neighbors/distance.go | 17 +++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/cluster/distance.go b/cluster/distance.go
index 98ff7ed..c5dc72b 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -20,8 +20,9 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
-			for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-				dp = math.Max(dp, math.Abs(braw[j]-araw[j]))
+			arv, brv := rva.RawVector(), rvb.RawVector()
+			for j, ja, jb := 0, 0, 0; j < arv.N; j, ja, jb = j+1, ja+arv.Inc, jb+brv.Inc {
+				dp = math.Max(dp, math.Abs(brv.Data[jb]-arv.Data[ja]))
 			}
 		} else {
 			for j := 0; j < b.Len(); j++ {
@@ -31,8 +32,9 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 		return dp
 	}
 	if isrva && isrvb {
-		for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-			dp += math.Pow(math.Abs(braw[j]-araw[j]), p)
+		arv, brv := rva.RawVector(), rvb.RawVector()
+		for j, ja, jb := 0, 0, 0; j < arv.N; j, ja, jb = j+1, ja+arv.Inc, jb+brv.Inc {
+			dp += math.Pow(math.Abs(brv.Data[jb]-arv.Data[ja]), p)
 		}
 	} else {
 		for j := 0; j < b.Len(); j++ {
diff --git a/neighbors/distance.go b/neighbors/distance.go
index 9353cc6..7d11636 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -20,8 +20,9 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
-			for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-				dp = math.Max(dp, math.Abs(braw[j]-araw[j]))
+			arv, brv := rva.RawVector(), rvb.RawVector()
+			for j, ja, jb := 0, 0, 0; j < arv.N; j, ja, jb = j+1, ja+arv.Inc, jb+brv.Inc {
+				dp = math.Max(dp, math.Abs(brv.Data[jb]-arv.Data[ja]))
 			}
 		} else {
 			for j := 0; j < b.Len(); j++ {
@@ -31,8 +32,9 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 		return dp
 	}
 	if isrva && isrvb {
-		for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-			dp += math.Pow(math.Abs(braw[j]-araw[j]), p)
+		arv, brv := rva.RawVector(), rvb.RawVector()
+		for j, ja, jb := 0, 0, 0; j < arv.N; j, ja, jb = j+1, ja+arv.Inc, jb+brv.Inc {
+			dp += math.Pow(math.Abs(brv.Data[jb]-arv.Data[ja]), p)
 		}
 	} else {
 		for j := 0; j < b.Len(); j++ {
@@ -64,10 +66,9 @@ func EuclideanDistance(a, b mat.Vector) float64 {
 	avd, avdok := a.(mat.RawVectorer)
 	bvd, bvdok := b.(mat.RawVectorer)
 	if avdok && bvdok {
-		arv, brv, vb, d := avd.RawVector(), bvd.RawVector(), 0., 0.
-		for j, va := range arv.Data {
-			vb = brv.Data[j]
-			d = vb - va
+		arv, brv, d := avd.RawVector(), bvd.RawVector(), 0.
+		for j, ja, jb := 0, 0, 0; j < arv.N; j, ja, jb = j+1, ja+arv.Inc, jb+brv.Inc {
+			d = brv.Data[jb] - arv.Data[ja]
 			d2 += d * d
 		}
 	} else {
-- 
2.43.0


From fa47eba223a0bdd4513cd79b01865f17f45b9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:11 +0000
Subject: [PATCH 31/47] fix: Binarizer indexed its output with the stride of
 its input

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index a931ff7..e66dd99 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -916,13 +916,13 @@ func (m *Binarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	Xout = mat.NewDense(rmx.Rows, rmx.Cols, nil)
 	rmXout := Xout.RawMatrix()
 	Yout = base.ToDense(Y)
-	for r, xpos := 0, 0; r < rmx.Rows; r, xpos = r+1, xpos+rmx.Stride {
+	for r, xpos, opos := 0, 0, 0; r < rmx.Rows; r, xpos, opos = r+1, xpos+rmx.Stride, opos+rmXout.Stride {
 		for c := 0; c < rmx.Cols; c++ {
 
 			if rmx.Data[xpos+c] > m.Threshold {
-				rmXout.Data[xpos+c] = 1
+				rmXout.Data[opos+c] = 1
 			} else {
-				rmXout.Data[xpos+c] = 0
+				rmXout.Data[opos+c] = 0
 			}
 		}
 	}
-- 
2.43.0


From 4f9cf3127ada97c62d1378538a13d569d9382c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 32/47] fix: General32 and General64 Copy ignored the stride of
 the source

---
 neural_network/general.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 849345d..4df572c 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -258,9 +258,7 @@ func (mat *General32) Copy(a Matrix) {
 	} else {
 		*mat = General32{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(*General32); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer32); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
@@ -284,9 +282,7 @@ func (mat *General64) Copy(a Matrix) {
 	} else {
 		*mat = General64{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(General64); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer64); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
-- 
2.43.0


From c6f0392d3ecc366737347d4e0c0aceab61e641af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 33/47] fix: perceptron classifiers ignored the stride of the
 matrix they predict into

---
 neural_network/basemlp32.go | 6 +++---
 neural_network/basemlp64.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 023718c..f5c0b0c 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -929,9 +929,9 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General32(X), ybin)
-		var tmp = General32(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		for r, ypos := 0, 0; r < Y.Rows; r, ypos = r+1, ypos+Y.Stride {
+			copy(Y.Data[ypos:ypos+Y.Cols], Yclasses.RawRowView(r))
+		}
 	} else if mlp.IsClassifier() {
 		toLogits32(Y)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 6b04937..fe5107b 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -929,9 +929,9 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General64(X), ybin)
-		var tmp = General64(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		for r, ypos := 0, 0; r < Y.Rows; r, ypos = r+1, ypos+Y.Stride {
+			copy(Y.Data[ypos:ypos+Y.Cols], Yclasses.RawRowView(r))
+		}
 	} else if mlp.IsClassifier() {
 		toLogits64(Y)
 	}
-- 
2.43.0


From a5b357cd611f84dc12867b0181cdcfdd45b1890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:58 +0000
Subject: [PATCH 34/47] fix: R2 score of perceptrons indexed the predictions
 with the stride of the targets

---
 neural_network/basemlp32.go | 4 ++--
 neural_network/basemlp64.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index f5c0b0c..1c884c2 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1111,8 +1111,8 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 		yTrueAvg /= float32(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index fe5107b..612ea8e 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1111,8 +1111,8 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 		yTrueAvg /= float64(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
-- 
2.43.0


From 1b424e8497ceded2d3b5d475fad016bc4052a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:59 +0000
Subject: [PATCH 35/47] fix: backpropagation indexed activations and deltas
 with the stride of the targets

---
 linear_model/logistic.go    | 7 ++++---
 neural_network/basemlp32.go | 7 ++++---
 neural_network/basemlp64.go | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 2aff042..fc5211a 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -251,9 +251,10 @@ func (m *LogisticRegression) backprop(X, y blas64.General, activations []blas64.
 	{
 		H := activations[len(activations)-1]
 		D := deltas
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			dpos, hpos, ypos := r*D.Stride, r*H.Stride, r*y.Stride
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 1c884c2..d820ecc 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -374,9 +374,10 @@ func (mlp *BaseMultilayerPerceptron32) backprop(X, y blas32General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			dpos, hpos, ypos := r*D.Stride, r*H.Stride, r*y.Stride
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 612ea8e..60eb574 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -374,9 +374,10 @@ func (mlp *BaseMultilayerPerceptron64) backprop(X, y blas64General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			dpos, hpos, ypos := r*D.Stride, r*H.Stride, r*y.Stride
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
-- 
2.43.0


From 9630fff5d4ae9de11991a6ad853d17657cb0223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 36/47] fix: perceptrons looked at the gaps between rows of the
 targets to tell classes from values

---
 neural_network/basemlp32.go | 8 +-------
 neural_network/basemlp64.go | 8 +-------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index d820ecc..a4bf764 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -507,13 +507,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = isBinarized32(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 60eb574..91eb835 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -507,13 +507,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = isBinarized64(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
-- 
2.43.0


From 6d9cf354b085c520b069e8f89dd48e2bc42ef514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:23 +0000
Subject: [PATCH 37/47] fix: perceptrons and LogisticRegression ignored the
 data when only one of X and Y was a dense matrix

---
 linear_model/logistic.go    |  8 ++++----
 neural_network/basemlp32.go | 16 ++++++++--------
 neural_network/basemlp64.go | 16 ++++++++--------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index fc5211a..578e85f 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -339,10 +339,10 @@ func (m *LogisticRegression) IsClassifier() bool {
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
 	var xb, yb *mat.Dense
-	if xg, ok := X.(*mat.Dense); ok {
-		if yg, ok := Y.(*mat.Dense); ok {
-			xb, yb = xg, yg
-		}
+	xg, xok := X.(*mat.Dense)
+	yg, yok := Y.(*mat.Dense)
+	if xok && yok {
+		xb, yb = xg, yg
 	} else {
 		xb = mat.DenseCopyOf(X)
 		yb = mat.DenseCopyOf(Y)
diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a4bf764..e43e799 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -578,10 +578,10 @@ func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 	var xb, yb blas32.General
-	if xg, ok := X.(RawMatrixer32); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	xg, xok := X.(RawMatrixer32)
+	yg, yok := Y.(RawMatrixer32)
+	if xok && yok && !mlp.Shuffle {
+		xb, yb = xg.RawMatrix(), yg.RawMatrix()
 	} else {
 		var tmp General32
 		tmp = General32(xb)
@@ -611,10 +611,10 @@ func (mlp *BaseMultilayerPerceptron32) GetNOutputs() int {
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron32) Predict(X mat.Matrix, Y Mutable) {
 	var xb, yb General32
-	if xg, ok := X.(RawMatrixer32); ok {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
-		}
+	xg, xok := X.(RawMatrixer32)
+	yg, yok := Y.(RawMatrixer32)
+	if xok && yok {
+		xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
 	} else {
 		xb.Copy(X)
 		yb.Copy(Y)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 91eb835..19a52af 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -578,10 +578,10 @@ func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 	var xb, yb blas64.General
-	if xg, ok := X.(RawMatrixer64); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	xg, xok := X.(RawMatrixer64)
+	yg, yok := Y.(RawMatrixer64)
+	if xok && yok && !mlp.Shuffle {
+		xb, yb = xg.RawMatrix(), yg.RawMatrix()
 	} else {
 		var tmp General64
 		tmp = General64(xb)
@@ -611,10 +611,10 @@ func (mlp *BaseMultilayerPerceptron64) GetNOutputs() int {
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron64) Predict(X mat.Matrix, Y Mutable) {
 	var xb, yb General64
-	if xg, ok := X.(RawMatrixer64); ok {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
-		}
+	xg, xok := X.(RawMatrixer64)
+	yg, yok := Y.(RawMatrixer64)
+	if xok && yok {
+		xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
 	} else {
 		xb.Copy(X)
 		yb.Copy(Y)
-- 
2.43.0


From 474492be1e19bb44e4160da5d5d543e5b54c01ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:56 +0000
Subject: [PATCH 38/47] fix: row slices of views reached past the end of their
 last row

---
 base/matrix.go            |  2 +-
 neural_network/general.go | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/base/matrix.go b/base/matrix.go
index eb6b8b1..549f6ea 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -177,7 +177,7 @@ func MatGeneralRowSlice(M blas64.General, i, k int) blas64.General {
 		Rows:   k - i,
 		Cols:   M.Cols,
 		Stride: M.Stride,
-		Data:   M.Data[i*M.Stride : k*M.Stride],
+		Data:   M.Data[i*M.Stride : (k-1)*M.Stride+M.Cols],
 	}
 }
 
diff --git a/neural_network/general.go b/neural_network/general.go
index 4df572c..6212331 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -240,13 +240,21 @@ func (mat General64) Slice(i, j, k, l int) Matrix {
 // RowSlice provides view on submatrix(startRow,endRow) as General32
 // returned matrix can be casted to *General32
 func (mat General32) RowSlice(i, j int) General32 {
-	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	end := i * mat.Stride
+	if j > i {
+		end = (j-1)*mat.Stride + mat.Cols
+	}
+	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : end]}
 }
 
 // RowSlice provides view on submatrix(startRow,endRow) as General64
 // returned matrix can be casted to *General64
 func (mat General64) RowSlice(i, j int) General64 {
-	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	end := i * mat.Stride
+	if j > i {
+		end = (j-1)*mat.Stride + mat.Cols
+	}
+	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : end]}
 }
 
 // Copy fills receiver with input matrix
-- 
2.43.0


From cb7c887844ce479fa2b55482c8fd7ffb5d62151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:35 +0000
Subject: [PATCH 39/47] fix: warm-started perceptrons and ElasticNet overwrote
 the parameters they share with clones

---
 linear_model/coordinatedescent.go |  3 +++
 neural_network/basemlp32.go       | 22 ++++++++++++++++++++++
 neural_network/basemlp64.go       | 22 ++++++++++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 37d1257..a251fda 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -62,6 +62,9 @@ func (regr *ElasticNet) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	l2reg := regr.Alpha * (1. - regr.L1Ratio) * float64(NSamples)
 	if !regr.WarmStart {
 		regr.Coef = mat.NewDense(NFeatures, NOutputs, nil)
+	} else {
+		// clones may share the coefficients
+		regr.Coef = mat.DenseCopyOf(regr.Coef)
 	}
 	random := strings.EqualFold("random", regr.Selection)
 	if NOutputs == 1 {
diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index e43e799..ddf5b8e 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -487,6 +487,26 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 	mlp.NoImprovementCount = 0
 }
 
+// ownParameters copies the parameters, which clones may share, before a warm start changes them
+func (mlp *BaseMultilayerPerceptron32) ownParameters() {
+	mem := append([]float32(nil), mlp.packedParameters...)
+	Coefs, Intercepts := make([]blas32General, len(mlp.Coefs)), make([][]float32, len(mlp.Coefs))
+	off := 0
+	for i, c := range mlp.Coefs {
+		Intercepts[i] = mem[off : off+c.Cols]
+		off += c.Cols
+		c.Data = mem[off : off+c.Rows*c.Cols]
+		off += c.Rows * c.Cols
+		Coefs[i] = c
+	}
+	mlp.packedParameters, mlp.Coefs, mlp.Intercepts = mem, Coefs, Intercepts
+	batchNorm := make([][]float32, len(mlp.batchNorm))
+	for i := range batchNorm {
+		batchNorm[i] = append([]float32(nil), mlp.batchNorm[i]...)
+	}
+	mlp.batchNorm = batchNorm
+}
+
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
 	// # Validate input parameters.
 	mlp.validateHyperparameters()
@@ -509,6 +529,8 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 		//# First time training the model
 		var isClassifier, isMulticlass = isBinarized32(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
+	} else if !incremental {
+		mlp.ownParameters()
 	}
 
 	batchSize := mlp.BatchSize
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 19a52af..64f986e 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -487,6 +487,26 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 	mlp.NoImprovementCount = 0
 }
 
+// ownParameters copies the parameters, which clones may share, before a warm start changes them
+func (mlp *BaseMultilayerPerceptron64) ownParameters() {
+	mem := append([]float64(nil), mlp.packedParameters...)
+	Coefs, Intercepts := make([]blas64General, len(mlp.Coefs)), make([][]float64, len(mlp.Coefs))
+	off := 0
+	for i, c := range mlp.Coefs {
+		Intercepts[i] = mem[off : off+c.Cols]
+		off += c.Cols
+		c.Data = mem[off : off+c.Rows*c.Cols]
+		off += c.Rows * c.Cols
+		Coefs[i] = c
+	}
+	mlp.packedParameters, mlp.Coefs, mlp.Intercepts = mem, Coefs, Intercepts
+	batchNorm := make([][]float64, len(mlp.batchNorm))
+	for i := range batchNorm {
+		batchNorm[i] = append([]float64(nil), mlp.batchNorm[i]...)
+	}
+	mlp.batchNorm = batchNorm
+}
+
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
 	// # Validate input parameters.
 	mlp.validateHyperparameters()
@@ -509,6 +529,8 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 		//# First time training the model
 		var isClassifier, isMulticlass = isBinarized64(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
+	} else if !incremental {
+		mlp.ownParameters()
 	}
 
 	batchSize := mlp.BatchSize
-- 
2.43.0


From 42d2666c19ba90135b6b3263917b0a2551adf27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 40/47] fix: neighbors models kept the k-d tree of an earlier
 fit when the new data needs none

---
 neighbors/unsupervised.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index a9cda8c..2877ed0 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -51,6 +51,7 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 		m.NJobs = runtime.NumCPU()
 	}
 	m.X = mat.DenseCopyOf(X)
+	m.Tree = nil
 	useKDTree := strings.Contains(strings.ToLower(m.Algorithm), "tree") || (m.Algorithm == "auto" && r*c > 1000)
 	if useKDTree {
 		if m.LeafSize <= 0 {
-- 
2.43.0


From 9aeec8c899551ee197bf51844cfe234cc05bad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:21 +0000
Subject: [PATCH 41/47] fix: KNeighborsClassifier.PredictProba sets the
 probability of classes absent from the neighbors to 0

They kept whatever the caller's matrix held before.
---
 neighbors/classification.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 8a95c1f..0984bb9 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -143,9 +143,8 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 				}
 				if wantProba {
 					for icl, cl := range m.Classes[0] {
-						if clw, found := classw[cl]; found {
-							Y.Set(sample, icl, clw/sumweights)
-						}
+						// classes none of the neighbors has get 0
+						Y.Set(sample, icl, classw[cl]/sumweights)
 					}
 				} else {
 					Y.Set(sample, o, clwmax)
-- 
2.43.0


From ff762d2bba34b82a7f420551b0c5400dbff29e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:49 +0000
Subject: [PATCH 42/47] fix: FromDense fills an empty dense destination instead
 of panicking

Predicting into an empty *mat.Dense, which the other estimators accept,
panicked in LogisticRegression and in the naive Bayes probabilities.
---
 base/matrix.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/matrix.go b/base/matrix.go
index 549f6ea..7167ee4 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -219,6 +219,12 @@ func FromDense(dst mat.Mutable, dense *mat.Dense) *mat.Dense {
 	if dst == mat.Mutable(nil) {
 		return dense
 	}
+	if d, ok := dst.(*mat.Dense); ok && d.IsEmpty() {
+		if d != dense {
+			d.CloneFrom(dense)
+		}
+		return dense
+	}
 	src := dense.RawMatrix()
 	if rawmatrixer, ok := dst.(mat.RawMatrixer); ok {
 		dstmat := rawmatrixer.RawMatrix()
-- 
2.43.0


From 4501152e6166c8754c126b19ed531665fbb1b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:49 +0000
Subject: [PATCH 43/47] fix: naive Bayes Predict accepts an empty output matrix

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index fe572c9..555d6cb 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -29,7 +29,7 @@ func (m *BaseNB) GetNOutputs() int {
 // Predict perform classification on an array of test vectors X
 func (m *BaseNB) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Ypred := base.ToDense(Y)
-	if Y == mat.Mutable(nil) {
+	if Ypred.IsEmpty() {
 		NSamples, _ := X.Dims()
 		Ypred = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	}
-- 
2.43.0


From b97184aeb2cf9739993400e8f5f035b21ee8578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:49 +0000
Subject: [PATCH 44/47] fix: an unfitted gaussian process Regressor predicts
 its prior mean

It returned what the caller's matrix held before.
---
 gaussian_process/gpr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 448be99..37f489a 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -89,14 +89,15 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 	NSamples, _ := X.Dims()
 	var Ymean, Ycov *mat.Dense
 	var Ystd *mat.DiagDense
-	if _, ok := Y.(*mat.Dense); ok {
-		Ymean = Y.(*mat.Dense)
+	if d, ok := Y.(*mat.Dense); ok && !d.IsEmpty() {
+		Ymean = d
 	} else {
 		Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	}
 	if m.Xtrain == nil {
 		// # Unfitted;predict based on GP prior
 		// y_mean = np.zeros(X.shape[0])
+		Ymean.Zero()
 		if returnCov {
 			Ycov, _ = m.Kernel.Eval(X, nil, false)
 		} else if returnStd {
-- 
2.43.0


From 7d1113274799fdf292f8a1b1f52741781787c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 45/47] fix: warm-started perceptrons append to their own loss
 curve, not to storage shared with clones

---
 neural_network/basemlp32.go | 2 ++
 neural_network/basemlp64.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index ddf5b8e..e980dba 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -505,6 +505,8 @@ func (mlp *BaseMultilayerPerceptron32) ownParameters() {
 		batchNorm[i] = append([]float32(nil), mlp.batchNorm[i]...)
 	}
 	mlp.batchNorm = batchNorm
+	mlp.LossCurve = append([]float32(nil), mlp.LossCurve...)
+	mlp.ValidationScores = append([]float32(nil), mlp.ValidationScores...)
 }
 
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 64f986e..be4080b 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -505,6 +505,8 @@ func (mlp *BaseMultilayerPerceptron64) ownParameters() {
 		batchNorm[i] = append([]float64(nil), mlp.batchNorm[i]...)
 	}
 	mlp.batchNorm = batchNorm
+	mlp.LossCurve = append([]float64(nil), mlp.LossCurve...)
+	mlp.ValidationScores = append([]float64(nil), mlp.ValidationScores...)
 }
 
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
-- 
2.43.0


From a07facdfb9abeb9ea172ad5a10c2e715e9c1bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:44 +0000
Subject: [PATCH 46/47] fix: WhiteKernel.CloneWithTheta gives the clone the
 theta it is passed

---
 gaussian_process/kernels/kernels.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 9302e93..2887f20 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -436,7 +436,7 @@ func (k WhiteKernel) Bounds() mat.Matrix {
 // CloneWithTheta ...
 func (k WhiteKernel) CloneWithTheta(theta mat.Matrix) Kernel {
 	clone := k
-	matCopy(k.Theta().(mat.Mutable), theta)
+	matCopy(clone.Theta().(mat.Mutable), theta)
 	return &clone
 }
 
-- 
2.43.0


From c0fbd307e7e5ee50115d4ed8f114e31e2b5f0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:45 +0000
Subject: [PATCH 47/47] fix: a clone of an Exponentiation kernel is an
 Exponentiation with the same exponent

---
 gaussian_process/kernels/kernels.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 2887f20..d28386e 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -290,6 +290,11 @@ func (k Exponentiation) hyperparameters() hyperparameters {
 	return params
 }
 
+// CloneWithTheta ...
+func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
+	return &Exponentiation{Kernel: k.Kernel.CloneWithTheta(theta), Exponent: k.Exponent}
+}
+
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-- 
2.43.0

