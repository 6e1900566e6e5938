From 4454ec29aac0b28048dbe26bd801ef4ad7d9275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 01/34] fix: keep intersection's supports two-dimensional for
 one regularisation or one feature

---
 src/pyuoi/linear_model/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 6b26a16..9fd0ce2 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -135,10 +135,10 @@ def intersection(coefs, selection_thresholds=None):
 
     # unravel the dimension corresponding to selection thresholds
 
-    supports = np.squeeze(np.reshape(
+    supports = np.reshape(
         supports,
         (n_selection_thresholds * n_reg_params, n_features)
-    ))
+    )
 
     supports = np.unique(supports, axis=0)
 
-- 
2.43.0


From 0d0dd56ade3bb486825cb384b78b989c3e2f7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 02/34] fix: score encoded class labels against their codes,
 not the original labels

---
 src/pyuoi/linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index ca93d16..a22a277 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -786,7 +786,7 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
                 y_pred = fitter.predict_proba(X[:, support])
             else:
                 y_pred = fitter.predict_proba(X)
-            ll = -log_loss(y, y_pred, labels=self.classes_)
+            ll = -log_loss(y, y_pred, labels=np.arange(len(self.classes_)))
             if metric == 'log':
                 score = ll
             else:
-- 
2.43.0


From f27da328e6a56fd7d2abb403cad692e0d28fbaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 03/34] fix: map the intercept of standardised GLM fits back to
 the units of X

---
 src/pyuoi/linear_model/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index a22a277..d5c055a 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -718,8 +718,7 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
         super()._post_fit(X, y)
         if self.standardize and self.fit_intercept:
             sX = self._X_scaler
-            self.intercept_ += np.dot(sX.mean_ * sX.scale_,
-                                      self.coef_.T)
+            self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds.
-- 
2.43.0


From f162488f8af7f1f056ee488ea0d6857f84dd7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 04/34] fix: keep coefficients one-dimensional when there is a
 single feature

---
 src/pyuoi/linear_model/base.py    | 6 +++---
 src/pyuoi/linear_model/poisson.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index d5c055a..993f009 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -297,8 +297,8 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
             else:
                 self._logger.info("selection bootstrap %d" % (boot_idx))
-            selection_coefs[ii] = np.squeeze(
-                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params))
+            selection_coefs[ii] = self.uoi_selection_sweep(
+                X_rep, y_rep, my_reg_params).reshape(selection_coefs[ii].shape)
 
         # if distributed, gather selection coefficients to 0,
         # perform intersection, and broadcast results
@@ -562,7 +562,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
                 self.intercept_ *= sy.scale_
                 self.intercept_ += sy.mean_ - np.dot(sX.mean_,
                                                      self.coef_.T)
-        self.coef_ = np.squeeze(self.coef_)
+        self.coef_ = np.squeeze(self.coef_, axis=0)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds."""
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3fa3103..1a0f6d2 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -624,7 +624,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _post_fit(self, X, y):
         """Rescale coefficients, if needed, after fitting."""
         if self.output_dim == 1:
-            self.coef_ = np.squeeze(self.coef_)
+            self.coef_ = self.coef_.reshape(-1)
         if self.standardize:
             sX = self._X_scaler
             if self.fit_intercept:
-- 
2.43.0


From 5a0052687833ced4d465d81a54ef06c0333cecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 05/34] fix: reset an infinite warm-start intercept between
 bootstraps to zero

---
 src/pyuoi/linear_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 993f009..b1fe60c 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -280,7 +280,8 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
                 if hasattr(self._selection_lm, 'coef_'):
                     self._selection_lm.coef_ *= 0.
                 if hasattr(self._selection_lm, 'intercept_'):
-                    self._selection_lm.intercept_ *= 0.
+                    self._selection_lm.intercept_ = np.zeros_like(
+                        self._selection_lm.intercept_)
             curr_boot_idx = boot_idx
 
             # draw a resampled bootstrap
-- 
2.43.0


From ea2f4982a17c50746d383e3a2b6d64fc8d1a81c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 06/34] fix: UoI_Poisson honours standardize, max_iter and tol

---
 src/pyuoi/linear_model/poisson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 1a0f6d2..15ba11a 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -477,6 +477,9 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             estimation_target=estimation_target,
             copy_X=copy_X,
             fit_intercept=fit_intercept,
+            standardize=standardize,
+            max_iter=max_iter,
+            tol=tol,
             random_state=random_state,
             comm=comm,
             logger=logger)
-- 
2.43.0


From 9aeb20f3983ea569cd926f96336024a4e7301477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 07/34] fix: do not centre X in Poisson fits without an
 intercept

---
 src/pyuoi/linear_model/poisson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 15ba11a..828e7a3 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -310,7 +310,7 @@ class Poisson(BaseEstimator):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         return X, y
 
@@ -616,7 +616,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         if y.ndim == 2:
             self.output_dim = y.shape[1]
-- 
2.43.0


From 311f933b2a14d69865f18f4a7ad98a2b5e747643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 08/34] fix: Poisson without an intercept reports a zero
 intercept

---
 src/pyuoi/linear_model/poisson.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 828e7a3..7cb6f37 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -83,7 +83,9 @@ class Poisson(BaseEstimator):
         # check if the response variable is constant
         if np.unique(y).size == 1:
             self.coef_ = np.zeros(self.n_features)
-            if np.any(y):
+            if not self.fit_intercept:
+                self.intercept_ = 0.
+            elif np.any(y):
                 self.intercept_ = np.log(y.mean())
             else:
                 self.intercept_ = -np.inf
@@ -126,14 +128,12 @@ class Poisson(BaseEstimator):
                 self.intercept_ = coef[-1]
             else:
                 self.coef_ = coef
+                self.intercept_ = 0.
 
         # coordinate descent
         elif self.solver == 'cd':
-            self.coef_, intercept = self._cd(X=X, y=y,
-                                             sample_weight=sample_weight)
-
-            if self.fit_intercept:
-                self.intercept_ = intercept
+            self.coef_, self.intercept_ = self._cd(
+                X=X, y=y, sample_weight=sample_weight)
 
         else:
             raise ValueError('Solver not available.')
-- 
2.43.0


From 70490518dcbfb114972fba19202f07cfc9e1b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 09/34] fix: intercept-only Poisson predictions have one value
 per row

---
 src/pyuoi/linear_model/poisson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 7cb6f37..fbb4191 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -680,7 +680,7 @@ class PoissonInterceptFitterNoFeatures(object):
         mode : array_like, shape (n_samples)
             The predicted response values, i.e. the modes.
         """
-        mu = np.exp(self.intercept_)
+        mu = np.exp(np.tile(self.intercept_, X.shape[0]))
         mode = np.floor(mu)
         return mode
 
@@ -697,7 +697,7 @@ class PoissonInterceptFitterNoFeatures(object):
         mu : array_like, shape (n_samples)
             The predicted response values, i.e. the conditional means.
         """
-        mu = np.exp(self.intercept_)
+        mu = np.exp(np.tile(self.intercept_, X.shape[0]))
         return mu
 
 
-- 
2.43.0


From a4bcaf4c8f78ca28952d1b52ac945c38786eb77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 10/34] fix: warm-started coordinate descent can activate new
 features

---
 src/pyuoi/linear_model/poisson.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index fbb4191..656cd01 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -213,17 +213,14 @@ class Poisson(BaseEstimator):
                 if self.standardize:
                     coef = self.coef_ * self._X_scaler.scale_
                 else:
-                    coef = self.coef_
+                    coef = self.coef_.copy()
 
             if self.fit_intercept:
                 if hasattr(self, 'intercept_'):
                     intercept = self.intercept_
 
-        # every coefficient is active unless there's a warm start
-        if self.warm_start:
-            active_idx = np.argwhere(coef != 0)
-        else:
-            active_idx = np.arange(self.n_features)
+        # every coefficient is active in the first sweep
+        active_idx = np.arange(n_features)
 
         prev_coef = np.copy(coef)
         # perform coordinate descent updates
-- 
2.43.0


From 9274c6a676082ed8f38c1393b6164db342ad9631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 11/34] fix: map the intercept of standardised logistic fits
 back to the units of X

---
 src/pyuoi/linear_model/logistic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index f3b1da7..7b50a0f 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -437,7 +437,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
 
     def _pre_fit(self, X, y):
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         le = LabelEncoder()
         y = le.fit_transform(y)
@@ -456,6 +456,8 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         if self.standardize:
             sX = self._X_scaler
             self.coef_ /= sX.scale_[np.newaxis]
+            if self.fit_intercept:
+                self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
 
 def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
-- 
2.43.0


From 4ca808054a9ac2cd48114919c221042450573db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 12/34] fix: refit the binary intercept when only one class is
 present

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 7b50a0f..b1152b1 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -217,7 +217,7 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
         def f_df(intercept):
             py = sigmoid(X.dot(coef_.T) + intercept)
             dfdb = py.mean() - y.mean()
-            return log_loss(y, py), np.atleast_1d(dfdb)
+            return log_loss(y, py, labels=[0, 1]), np.atleast_1d(dfdb)
 
         opt = minimize(f_df, np.atleast_1d(np.zeros(1)),
                        method='L-BFGS-B', jac=True)
-- 
2.43.0


From 71c501bf6682a3e0af45d23a20664b9a83c6656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:26 +0000
Subject: [PATCH 13/34] fix: strongest L1 logistic regularisation from the
 gradient over the coefficients

---
 src/pyuoi/linear_model/logistic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index b1152b1..a0ab9e8 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -159,7 +159,9 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                     intercept = LogisticInterceptFitterNoFeatures(
                         y, 1).intercept_
                     w = np.concatenate([w, np.atleast_1d(intercept)])
-                _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+                # the binary loss is defined for labels in {-1, 1}
+                _, grad = _logistic_loss_and_grad(w, X, 2. * y - 1., 0., None)
+                grad = grad[:input_dim]
             else:
                 w = np.zeros((self.output_dim, input_dim))
                 yp = OneHotEncoder(categories=[range(self.output_dim)],
@@ -170,7 +172,8 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                     w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
                 _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
                                                     np.ones(X.shape[0]))
-            alpha_max = abs(grad[:-1]).max()
+                grad = grad.reshape(self.output_dim, -1)[:, :input_dim]
+            alpha_max = abs(grad).max()
             logC = -np.log10(alpha_max)
             self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
-- 
2.43.0


From dfb9ae2878588e03f6c9c839a083b1b8fb4bd8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:45 +0000
Subject: [PATCH 14/34] fix: strongest Poisson regularisation without an
 intercept is taken at rate one

---
 src/pyuoi/linear_model/poisson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 656cd01..d500b4a 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -530,7 +530,8 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             # sci-kit learn parlance)
             for alpha_idx, alpha in enumerate(self.alphas):
                 # calculate upper bound for lambda sweep
-                ybar = y.mean()
+                # mean rate of the model with all coefficients at zero
+                ybar = y.mean() if self.fit_intercept else 1.
                 lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
                 lambda_max /= n_samples * alpha
                 self.lambdas[alpha_idx, :] = np.logspace(
-- 
2.43.0


From 8896322082e5287a717094632be11570ab6e0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 15/34] fix: selection of a new bootstrap or fit starts without
 the previous solution

---
 src/pyuoi/linear_model/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index b1fe60c..51207da 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -277,11 +277,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
                 my_reg_params = self.reg_params_
             # Never warm start across bootstraps
             if (curr_boot_idx != boot_idx):
-                if hasattr(self._selection_lm, 'coef_'):
-                    self._selection_lm.coef_ *= 0.
-                if hasattr(self._selection_lm, 'intercept_'):
-                    self._selection_lm.intercept_ = np.zeros_like(
-                        self._selection_lm.intercept_)
+                for attr in ('coef_', 'intercept_'):
+                    if hasattr(self._selection_lm, attr):
+                        delattr(self._selection_lm, attr)
             curr_boot_idx = boot_idx
 
             # draw a resampled bootstrap
-- 
2.43.0


From ba58464399c1884e54d488ef5ffb363e27053c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 16/34] fix: recompute the regularisation path from the data of
 each fit

---
 src/pyuoi/linear_model/elasticnet.py | 21 ++++++-------
 src/pyuoi/linear_model/logistic.py   | 47 ++++++++++++++--------------
 src/pyuoi/linear_model/poisson.py    | 27 ++++++++--------
 3 files changed, 46 insertions(+), 49 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 1d3eed1..9b9d838 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -160,17 +160,16 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             alpha->l1_ratio). This allows easy passing into the ElasticNet
             object.
         """
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                self.lambdas[alpha_idx, :] = _alpha_grid(
-                    X=X, y=y,
-                    l1_ratio=alpha,
-                    fit_intercept=self.fit_intercept,
-                    eps=self.eps,
-                    n_alphas=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            self.lambdas[alpha_idx, :] = _alpha_grid(
+                X=X, y=y,
+                l1_ratio=alpha,
+                fit_intercept=self.fit_intercept,
+                eps=self.eps,
+                n_alphas=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index a0ab9e8..610b7e8 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -152,30 +152,29 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
 
     def get_reg_params(self, X, y):
         input_dim = X.shape[1]
-        if self.Cs is None:
-            if self.output_dim == 1:
-                w = np.zeros(input_dim)
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, 1).intercept_
-                    w = np.concatenate([w, np.atleast_1d(intercept)])
-                # the binary loss is defined for labels in {-1, 1}
-                _, grad = _logistic_loss_and_grad(w, X, 2. * y - 1., 0., None)
-                grad = grad[:input_dim]
-            else:
-                w = np.zeros((self.output_dim, input_dim))
-                yp = OneHotEncoder(categories=[range(self.output_dim)],
-                                   sparse=False).fit_transform(y[:, np.newaxis])
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, self.output_dim).intercept_
-                    w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
-                _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
-                                                    np.ones(X.shape[0]))
-                grad = grad.reshape(self.output_dim, -1)[:, :input_dim]
-            alpha_max = abs(grad).max()
-            logC = -np.log10(alpha_max)
-            self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
+        if self.output_dim == 1:
+            w = np.zeros(input_dim)
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, 1).intercept_
+                w = np.concatenate([w, np.atleast_1d(intercept)])
+            # the binary loss is defined for labels in {-1, 1}
+            _, grad = _logistic_loss_and_grad(w, X, 2. * y - 1., 0., None)
+            grad = grad[:input_dim]
+        else:
+            w = np.zeros((self.output_dim, input_dim))
+            yp = OneHotEncoder(categories=[range(self.output_dim)],
+                               sparse=False).fit_transform(y[:, np.newaxis])
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, self.output_dim).intercept_
+                w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
+            _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
+                                                np.ones(X.shape[0]))
+            grad = grad.reshape(self.output_dim, -1)[:, :input_dim]
+        alpha_max = abs(grad).max()
+        logC = -np.log10(alpha_max)
+        self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
         for c in self.Cs:
             ret.append(dict(C=c))
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index d500b4a..7e9e85a 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -524,20 +524,19 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             object.
         """
         n_samples = X.shape[0]
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                # calculate upper bound for lambda sweep
-                # mean rate of the model with all coefficients at zero
-                ybar = y.mean() if self.fit_intercept else 1.
-                lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
-                lambda_max /= n_samples * alpha
-                self.lambdas[alpha_idx, :] = np.logspace(
-                    start=np.log10(lambda_max),
-                    stop=np.log10(self.eps * lambda_max),
-                    num=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            # calculate upper bound for lambda sweep
+            # mean rate of the model with all coefficients at zero
+            ybar = y.mean() if self.fit_intercept else 1.
+            lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
+            lambda_max /= n_samples * alpha
+            self.lambdas[alpha_idx, :] = np.logspace(
+                start=np.log10(lambda_max),
+                stop=np.log10(self.eps * lambda_max),
+                num=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
-- 
2.43.0


From 1709ddea62cf7f927f501aebe70c1a776cdbf092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 17/34] fix: coordinate descent of a feature that is zero in
 every sample is not NaN

---
 src/pyuoi/linear_model/poisson.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 7e9e85a..5883ac2 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -298,9 +298,13 @@ class Poisson(BaseEstimator):
             num_update = np.dot(w, x * (z - z_hat)) / n_samples
             den_update = np.dot(w, x**2) / n_samples
             # replace coefficients sequentially
-            coef[idx] = \
-                self.soft_threshold(num_update, self.l1_ratio * self.alpha) \
-                / (den_update + self.alpha * (1 - self.l1_ratio))
+            denominator = den_update + self.alpha * (1 - self.l1_ratio)
+            if denominator > 0:
+                coef[idx] = self.soft_threshold(
+                    num_update, self.l1_ratio * self.alpha) / denominator
+            else:
+                # the feature is zero in every sample
+                coef[idx] = 0.
 
         return coef, intercept
 
-- 
2.43.0


From 1e523d6934bb76409feed6e69ea86fb8471d197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 18/34] fix: broadcast arrays from whichever rank is the root

---
 src/pyuoi/mpi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 4c3f3e9..471c81f 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -112,7 +112,7 @@ def Bcast_from_root(send, comm=None, root=0):
     if comm is None:
         comm = MPI.COMM_WORLD
     rank = comm.rank
-    if rank == 0:
+    if rank == root:
         dtype = send.dtype
         shape = send.shape
     else:
@@ -120,7 +120,7 @@ def Bcast_from_root(send, comm=None, root=0):
         shape = None
     shape = comm.bcast(shape, root=root)
     dtype = comm.bcast(dtype, root=root)
-    if rank != 0:
+    if rank != root:
         send = np.empty(shape, dtype=dtype)
     comm.Bcast([send, _np2mpi[np.dtype(dtype)]], root=root)
     return send
-- 
2.43.0


From 77bbf57411a07982b830aeee62a7113c43a0d1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 19/34] fix: gather rows on the requested root

---
 src/pyuoi/mpi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 471c81f..bb76556 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -167,5 +167,5 @@ def Gatherv_rows(send, comm=None, root=0):
         sizes = None
         disps = None
 
-    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=0)
+    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=root)
     return rec
-- 
2.43.0


From 419670da1309dd80ce32e1cdf8c1f254711fddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 20/34] fix: gather one-dimensional arrays with integer counts

---
 src/pyuoi/mpi_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index bb76556..d778a2b 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -160,7 +160,8 @@ def Gatherv_rows(send, comm=None, root=0):
     if rank == root:
         rec_shape = (tot[0],) + shape[1:]
         rec = np.empty(rec_shape, dtype=dtype)
-        sizes = [size * np.prod(rec_shape[1:]) for size in rank_sizes]
+        row_size = np.prod(rec_shape[1:], dtype=int)
+        sizes = [size * row_size for size in rank_sizes]
         disps = np.insert(np.cumsum(sizes), 0, 0)[:-1]
     else:
         rec = None
-- 
2.43.0


From 8c403b41ecd7278a87d722448236643903d62487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 21/34] fix: broadcasting keeps zero-dimensional arrays
 zero-dimensional

---
 src/pyuoi/mpi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index d778a2b..07c8656 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -32,7 +32,7 @@ def check_valid_ndarray(X):
         return X
     if not isinstance(X, np.ndarray):
         raise ValueError('Must be a numpy ndarray.')
-    return np.ascontiguousarray(X)
+    return np.asarray(X, order='C')
 
 
 def load_data_MPI(h5_name, X_key='X', y_key='y', comm=None, root=0):
-- 
2.43.0


From 900edb4222549acf59579885f0f6e0299b7fc5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 22/34] fix: solve the L1 logistic problem to convergence
 instead of stopping at all-zero iterates

The early stop ignored the last coefficient when no intercept is fitted,
zeroed a non-zero intercept, and could end before the intercept had moved.
---
 src/pyuoi/linear_model/logistic.py | 32 +++++++-----------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 610b7e8..f7ad2c0 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -18,7 +18,7 @@ import numpy as np
 
 from .base import AbstractUoIGeneralizedLinearRegressor
 from ..utils import sigmoid, softmax
-from ..lbfgs import fmin_lbfgs, AllZeroLBFGSError
+from ..lbfgs import fmin_lbfgs
 
 
 class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
@@ -697,30 +697,12 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
                     w0[mask] = wp
 
             else:
-                zeros_seen = [0]
-
-                def zero_coef(x, *args):
-                    if multi_class == 'multinomial':
-                        x = x.reshape(-1, classes.size)[:-1]
-                    else:
-                        x = x[:-1]
-                    now_zeros = np.array_equiv(x, 0.)
-                    if now_zeros:
-                        zeros_seen[0] += 1
-                    else:
-                        zeros_seen[0] = 0
-                    if zeros_seen[0] > 1:
-                        return -2048
-                try:
-                    args = (X, target, 0., coef_mask, sample_weight)
-                    w0 = fmin_lbfgs(func, w0, orthantwise_c=1. / C,
-                                    args=args,
-                                    max_iterations=max_iter,
-                                    epsilon=tol,
-                                    orthantwise_end=coef_size,
-                                    progress=zero_coef)
-                except AllZeroLBFGSError:
-                    w0 *= 0.
+                args = (X, target, 0., coef_mask, sample_weight)
+                w0 = fmin_lbfgs(func, w0, orthantwise_c=1. / C,
+                                args=args,
+                                max_iterations=max_iter,
+                                epsilon=tol,
+                                orthantwise_end=coef_size)
                 info = None
             if info is not None and info["warnflag"] == 1:
                 warnings.warn("lbfgs failed to converge. Increase the number "
-- 
2.43.0


From 33e012c4c883c4082c933e37bc068c2a09a2084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 23/34] fix: draw CUR columns and resamples from the given
 random state

column_select ignored its random_state, and an integer seed repeated the same
resample in every bootstrap.
---
 src/pyuoi/decomposition/CUR.py   | 19 +++++++++++++------
 src/pyuoi/decomposition/utils.py |  4 +++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pyuoi/decomposition/CUR.py b/src/pyuoi/decomposition/CUR.py
index 7b017b6..3b8202e 100644
--- a/src/pyuoi/decomposition/CUR.py
+++ b/src/pyuoi/decomposition/CUR.py
@@ -4,7 +4,7 @@ from .base import AbstractDecompositionModel
 
 from sklearn.decomposition import TruncatedSVD
 from sklearn.model_selection import train_test_split
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_random_state
 from sklearn.utils.validation import check_is_fitted
 
 from .utils import column_select, stability_selection_to_threshold
@@ -98,12 +98,17 @@ class UoI_CUR(AbstractDecompositionModel):
         # keep track of which columns are chosen
         columns = np.zeros((n_ks, self.n_boots, n_features), dtype='int')
 
+        # streams that advance over all bootstraps and ranks: an integer seed
+        # must not repeat the same resample or the same draws
+        rng = check_random_state(self.random_state)
+        column_rng = check_random_state(self.random_state)
+
         # truncated SVD fitter object
         tsvd = TruncatedSVD(n_components=self.max_k,
                             algorithm=self.algorithm,
                             n_iter=self.n_iter,
                             tol=self.tol,
-                            random_state=self.random_state)
+                            random_state=rng)
 
         # iterate over bootstraps
         for bootstrap in range(self.n_boots):
@@ -113,7 +118,7 @@ class UoI_CUR(AbstractDecompositionModel):
             else:
                 X_train, _ = train_test_split(X, test_size=1 - self.boots_frac,
                                               stratify=stratify,
-                                              random_state=self.random_state)
+                                              random_state=rng)
             # perform truncated SVD on bootstrap
             tsvd.fit(X_train)
             # extract right singular vectors
@@ -124,7 +129,7 @@ class UoI_CUR(AbstractDecompositionModel):
                 c = cs[k_idx]
 
                 column_indices = column_select(V[:, :k], c=c,
-                                               random_state=self.random_state)
+                                               random_state=column_rng)
                 # convert column flags to set
                 columns[k_idx, bootstrap][column_indices] += 1
 
@@ -291,12 +296,14 @@ class CUR(AbstractDecompositionModel):
         """
         n_samples, n_features = X.shape
 
+        rng = check_random_state(self.random_state)
+
         # truncated SVD fitter object
         tsvd = TruncatedSVD(n_components=self.max_k,
                             algorithm=self.algorithm,
                             n_iter=self.n_iter,
                             tol=self.tol,
-                            random_state=self.random_state)
+                            random_state=rng)
 
         # perform truncated SVD on bootstrap
         tsvd.fit(X)
@@ -309,7 +316,7 @@ class CUR(AbstractDecompositionModel):
 
         column_indices = column_select(V=V, c=c,
                                        leverage_sort=True,
-                                       random_state=self.random_state)
+                                       random_state=rng)
 
         self.column_indices_ = column_indices
         self.components_ = X[:, self.column_indices_]
diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 70a44f5..4c73a12 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from sklearn.utils import check_random_state
+
 
 def column_select(V, c, leverage_sort=False, random_state=None):
     """Chooses column indices from a matrix given its SVD.
@@ -24,7 +26,7 @@ def column_select(V, c, leverage_sort=False, random_state=None):
         score.
     """
     # random state
-    rng = np.random.RandomState(seed=None)
+    rng = check_random_state(random_state)
 
     # extract number of samples and rank
     n_features, k = V.shape
-- 
2.43.0


From 0a6bc2726034f48ab7f473eb5532eb85db93e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 24/34] fix: keep the number of rows in the components of an
 empty CUR selection

---
 src/pyuoi/decomposition/CUR.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pyuoi/decomposition/CUR.py b/src/pyuoi/decomposition/CUR.py
index 3b8202e..8f03d26 100644
--- a/src/pyuoi/decomposition/CUR.py
+++ b/src/pyuoi/decomposition/CUR.py
@@ -139,10 +139,7 @@ class UoI_CUR(AbstractDecompositionModel):
         union = np.sum(intersection, axis=0) > 0
         self.column_indices_ = np.argwhere(union).ravel()
 
-        if self.column_indices_.size == 0:
-            self.components_ = np.array([[]])
-        else:
-            self.components_ = X[:, self.column_indices_]
+        self.components_ = X[:, self.column_indices_]
         return self
 
     def check_ks_and_cs(self, ks=None, cs=None):
-- 
2.43.0


From 030aa69c42d4cb1dec8c38e1ba1a11bd735f14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 25/34] fix: accept NumPy integers as seeds

A NumPy integer was kept as the seed of every resample, so that all
bootstraps were the same, and was rejected by UoI_NMF and
make_classification.
---
 src/pyuoi/datasets/__init__.py | 2 +-
 src/pyuoi/decomposition/NMF.py | 2 +-
 src/pyuoi/linear_model/base.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index d13394e..1e22c4b 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -123,7 +123,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         If true, includes an intercept in the model, if False, the intercept is
         set to 0.
     """
-    if isinstance(random_state, int):
+    if isinstance(random_state, (int, np.integer)):
         rng = np.random.RandomState(random_state)
     else:
         if random_state is None:
diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 52e105a..948a304 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -143,7 +143,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         if random_state is None:
             self._rand = np.random.RandomState()
         else:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 self._rand = np.random.RandomState(random_state)
             elif isinstance(random_state, np.random.RandomState):
                 self._rand = random_state
diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 51207da..ba6dabf 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -102,7 +102,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         self.tol = tol
         self.comm = comm
         # preprocessing
-        if isinstance(random_state, int):
+        if isinstance(random_state, (int, np.integer)):
             # make sure ranks use different seed
             if self.comm is not None:
                 random_state += self.comm.rank
-- 
2.43.0


From 74d0b0d06da3b7c927f301c15afff8f60265106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:36 +0000
Subject: [PATCH 26/34] fix: the dissimilarity of a zero NMF basis is not NaN

---
 src/pyuoi/decomposition/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 4c73a12..164febe 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from sklearn.preprocessing import normalize
 from sklearn.utils import check_random_state
 
 
@@ -109,8 +110,9 @@ def dissimilarity(H1, H2):
         Dissimilarity between the two sets of bases.
     """
     k = H1.shape[0]
-    H1 = H1 / np.linalg.norm(H1, axis=1, keepdims=True)
-    H2 = H2 / np.linalg.norm(H2, axis=1, keepdims=True)
+    # a zero basis has cosine zero with every basis
+    H1 = normalize(H1, norm='l2', axis=1)
+    H2 = normalize(H2, norm='l2', axis=1)
     C = np.dot(H1, H2.T)
     diss = 1 - ((np.max(C, axis=0).sum() + np.max(C, axis=1).sum()) / (2. * k))
     return diss
-- 
2.43.0


From 5d019e7f94aeb0aa5a432cbdba959c0a64c3f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 27/34] fix: NMF coefficients of integer data are not truncated
 to integers

---
 src/pyuoi/decomposition/NMF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 948a304..42c106a 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -269,7 +269,8 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                 % (X.shape, self.components_.shape))
 
         H_t = self.components_.T
-        W = np.zeros((n_samples, self.n_components), dtype=X.dtype)
+        dtype = X.dtype if np.issubdtype(X.dtype, np.floating) else float
+        W = np.zeros((n_samples, self.n_components), dtype=dtype)
 
         # calculate coefficients for each sample
         for sample in range(n_samples):
-- 
2.43.0


From 41d9bef0a1ce8b186bc6c21a92e54f811cf45956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 28/34] fix: a binary classification dataset can have a single
 sample

---
 src/pyuoi/datasets/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index 1e22c4b..f14c7a2 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -170,7 +170,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         y = np.array([rng.multinomial(1, pi) for pi in p])
         y = y.argmax(axis=-1)
     else:
-        p = sigmoid(np.squeeze(log_p))
+        p = sigmoid(log_p[:, 0])
         y = np.array([rng.binomial(1, pi) for pi in p])
 
     return X, y, w.T, intercept
-- 
2.43.0


From a392d428c6b845427c53adbb51ff1c146d2ed6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 29/34] fix: a fit to a constant response does not keep results
 of an earlier fit

---
 src/pyuoi/linear_model/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index ba6dabf..e030ddc 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -212,6 +212,12 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         # check if the response variable is constant
         if np.unique(y).size == 1:
+            # nothing is selected, do not keep the results of an earlier fit
+            for attr in ('reg_params_', 'n_reg_params_', 'supports_',
+                         'estimates_', 'scores_', 'rp_max_idx_'):
+                if hasattr(self, attr):
+                    delattr(self, attr)
+            self.n_supports_ = None
             self.coef_ = np.zeros((self.output_dim, n_features))
             self._fit_intercept(X, y)
             self._post_fit(X, y)
-- 
2.43.0


From f511588168502b6455e1b72a60f80979044cbe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 30/34] fix: the intercept is optimised when every coefficient
 is masked

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index f7ad2c0..a322f56 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -668,7 +668,7 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
     coefs = list()
     n_iter = np.zeros(len(Cs), dtype=np.int32)
     for i, C in enumerate(Cs):
-        if coef_mask is None or coef_mask.sum():
+        if coef_mask is None or fit_intercept or coef_mask.sum():
             iprint = [-1, 50, 1, 100, 101][
                 np.searchsorted(np.array([0, 1, 2, 3]), verbose)]
             if penalty == 'l2':
-- 
2.43.0


From 2c46cd0940a0c21c5b1ee7b929aee3adde464cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 31/34] fix: the mask of a binary problem may have the shape of
 coef_

---
 src/pyuoi/linear_model/logistic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index a322f56..da1cef9 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -400,8 +400,12 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         if len(self.classes_) == 2 and multi_class == 'ovr':
             n_classes = 1
             classes_ = classes_[1:]
-        if multi_class == 'multinomial' and coef_mask is not None:
-            coef_mask = coef_mask.reshape(n_classes, -1)
+        if coef_mask is not None:
+            coef_mask = np.asarray(coef_mask)
+            if multi_class == 'multinomial':
+                coef_mask = coef_mask.reshape(n_classes, -1)
+            else:
+                coef_mask = coef_mask.ravel()
 
         if self.warm_start:
             warm_start_coef = getattr(self, 'coef_', None)
-- 
2.43.0


From 20fababbdb26b1806be6cd57e9c8e257438f70dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 32/34] fix: the masked logistic regression predicts the
 original labels

---
 src/pyuoi/linear_model/logistic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index da1cef9..5cc55c8 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -381,7 +381,6 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         X, y = check_X_y(X, y, accept_sparse='csr', dtype=_dtype, order="C",
                          accept_large_sparse=True)
         check_classification_targets(y)
-        self.classes_ = np.unique(y)
         n_samples, n_features = X.shape
 
         multi_class = self.multi_class
@@ -416,6 +415,12 @@ class MaskedCoefLogisticRegression(LogisticRegression):
                                         self.intercept_[:, np.newaxis],
                                         axis=1)
 
+        class_weight = self.class_weight
+        if isinstance(class_weight, dict):
+            # the weights are given for the original labels, y is encoded
+            class_weight = dict(enumerate(compute_class_weight(
+                class_weight, classes=self.classes_, y=self.classes_[y])))
+
         self.intercept_ = np.zeros(n_classes)
 
         fold_coefs_ = _logistic_regression_path(
@@ -423,7 +428,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
             fit_intercept=self.fit_intercept,
             tol=self.tol, verbose=self.verbose,
             multi_class=multi_class, max_iter=self.max_iter,
-            class_weight=self.class_weight, penalty=self.penalty,
+            class_weight=class_weight, penalty=self.penalty,
             check_input=False,
             coef=warm_start_coef,
             sample_weight=sample_weight, coef_mask=coef_mask)
-- 
2.43.0


From 337fc37efb5ee174604e263efa1ca46abf44fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 33/34] fix: a minimisation stopped by the delta test returns
 its point

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 7afad38..bf4165b 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -400,7 +400,7 @@ cdef class LBFGS(object):
             r = lbfgs(n, x_a, fx_final, call_eval,
                       call_progress, <void *>callback_data, &self.params)
 
-            if r == LBFGS_SUCCESS or r == LBFGS_ALREADY_MINIMIZED:
+            if r in (LBFGS_SUCCESS, LBFGS_STOP, LBFGS_ALREADY_MINIMIZED):
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                        <void *>x_a).copy()
-- 
2.43.0


From ed62c29e631c97c09525c7f854be8c6707bb89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 34/34] fix: a progress callback that stops the minimisation
 raises LBFGSError

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index bf4165b..f57e296 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -143,7 +143,7 @@ cdef int call_progress(void *cb_data_v,
         r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
                         xnorm, gnorm, step, k, ls, *args)
         # TODO what happens when the callback returns the wrong type?
-        return 0 if r is None else r
+        return LBFGSERR_CANCELED if r else 0
     else:
         return 0
 
-- 
2.43.0

