"""Assumed contracts of scikit-learn."""
from . import terms as T
from .terms import P, ZERO, ONE
from . import prove as PR
from . import sym as S
from .sym import SA, Sc, sc, to_sa, Unsupported, ctx, dimp, dimv, SymSeq
from . import rt as RT
from .npshim import np, _NS, Missing
from . import npshim as NPS


def check_array_2d(X):
    X = to_sa(X)
    if X.ndim != 2:
        raise ValueError("Expected 2D array")
    return X


def install(ns, session, check_random_state):
    from .ext import BaseEstimator, SparseCoefMixin, NotFittedError

    class StandardScaler(BaseEstimator):
        def __init__(self, copy=True, with_mean=True, with_std=True):
            self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

        def fit(self, X, y=None, sample_weight=None):
            X = check_array_2d(X)
            self.n_features_in_ = X.shape[1]
            m = NPS.np_mean(X, axis=0)
            v = NPS.np_var(X, axis=0)
            self.mean_ = m if (self.with_mean or self.with_std) else None
            if self.with_std:
                self.var_ = v
                sd = NPS.np.sqrt(v)
                self.scale_ = NPS.np_where(S.binop('eq', v, 0), 1.0, sd)
            else:
                self.var_ = self.scale_ = None
            return self

        def transform(self, X, copy=None):
            if not hasattr(self, 'scale_'):
                raise NotFittedError("not fitted")
            X = check_array_2d(X)
            if self.with_mean:
                X = X - self.mean_
            if self.with_std:
                X = X / self.scale_
            return X if X.kind == 'f' else X.astype(float)

        def fit_transform(self, X, y=None, **k):
            return self.fit(X).transform(X)

        def inverse_transform(self, X, copy=None):
            X = check_array_2d(X)
            if self.with_std:
                X = X * self.scale_
            if self.with_mean:
                X = X + self.mean_
            return X

    def check_is_fitted(est, attributes=None, *, msg=None, all_or_any=None):
        if attributes is None:
            if not [a for a in vars(est) if a.endswith('_') and not a.startswith('__')]:
                raise NotFittedError("not fitted")
            return
        if isinstance(attributes, str):
            attributes = [attributes]
        if not all(hasattr(est, a) for a in attributes):
            raise NotFittedError("not fitted")

    def check_X_y(X, y, *a, dtype='numeric', multi_output=False, y_numeric=False, copy=False, **k):
        X = check_array_2d(X)
        y = to_sa(y)
        if not multi_output:
            if y.ndim != 1:
                raise ValueError("y should be a 1d array")
        if not S.same_dim(X.shape[0], y.shape[0]):
            raise ValueError("inconsistent numbers of samples")
        if dtype in (None, 'numeric'):
            pass
        elif isinstance(dtype, (list, tuple)):
            if all(S.dtkind(d) != X.kind for d in dtype):
                X = X.astype(dtype[0])
        else:
            X = X.astype(dtype, copy=False)
        if y_numeric and y.kind != 'f' and False:
            y = y.astype(float)
        return X, y

    def check_array(X, *a, dtype='numeric', ensure_2d=True, **k):
        X = to_sa(X)
        if ensure_2d and X.ndim != 2:
            raise ValueError("Expected 2D array")
        if dtype not in (None, 'numeric') and not isinstance(dtype, (list, tuple)):
            X = X.astype(dtype, copy=False)
        return X

    def check_consistent_length(*arrs):
        for a in arrs[1:]:
            if a is not None and not S.same_dim(to_sa(arrs[0]).shape[0], to_sa(a).shape[0]):
                raise ValueError("inconsistent lengths")

    def check_non_negative(X, whom):
        if NPS.np_any(S.binop('lt', X, 0)):
            raise ValueError("Negative values in data passed to %s" % whom)

    class LabelEncoder(BaseEstimator):
        """classes_ = sorted distinct labels; transform = index of the label"""

        def fit(self, y):
            y = to_sa(y)
            self.classes_ = NPS.np_unique(y)
            return self

        def transform(self, y):
            return NPS.np_searchsorted(self.classes_, to_sa(y))

        def fit_transform(self, y):
            self.fit(y)
            return self.transform(y)

        def inverse_transform(self, y):
            return self.classes_[to_sa(y)]

    class OneHotEncoder(BaseEstimator):
        """column c of the code of a row is [value = categories[0][c]]"""

        def __init__(self, *, categories='auto', drop=None, sparse='deprecated', sparse_output=True, dtype=float,
                     handle_unknown='error', min_frequency=None, max_categories=None):
            self.categories, self.sparse = categories, sparse
            if drop is not None or sparse is not False:
                raise Unsupported("OneHotEncoder options")

        def fit_transform(self, X, y=None):
            X = check_array_2d(X)
            if isinstance(self.categories, str) or len(self.categories) != 1 or X.shape[1] != 1:
                raise Unsupported("OneHotEncoder categories")
            cat = to_sa(self.categories[0])
            session.assumed.add('OneHotEncoder: every value is one of the given categories')
            return SA.make((X._shape[0], cat._shape[0]), lambda i: T.eq(X.at((i[0], ZERO)), cat.at((i[1],))), 'f')

    def compute_class_weight(class_weight, *, classes, y):
        if class_weight is None:
            return NPS.np.ones(classes.shape[0], dtype=float)
        if not isinstance(class_weight, str) or class_weight != 'balanced':
            raise Unsupported("class weights")
        classes, y = to_sa(classes), to_sa(y)
        n, k = y._shape[0], classes._shape[0]

        def weight(i):
            j = T.fresh_index(n)
            return n * T.inv(k * T.tsum([j], [n], T.eq(y.at((P(j),)), classes.at(i))))
        return SA.make((k,), weight, 'f')

    def safe_sparse_dot(a, b, *, dense_output=False):
        return NPS.np_dot(a, b)

    def squared_norm(x):
        x = NPS.np_ravel(x)
        return NPS.np_dot(x, x)

    def log_logistic(X, out=None):
        return S.unop('log_expit', NPS.lift(X))

    def normalize(X, norm='l2', axis=1, copy=True, return_norm=False):
        if norm != 'l2' or axis != 1:
            raise Unsupported("normalize options")
        X = check_array_2d(X)
        nr = NPS.np.sqrt(NPS.np_sum(X * X, axis=1))
        sc_ = NPS.np_where(S.binop('eq', nr, 0), 1.0, nr)
        return X / sc_[:, np.newaxis]

    def r2_score(y, p, **k):
        y, p = to_sa(y), to_sa(p)
        if not S.same_dim(y.shape[0], p.shape[0]):
            raise ValueError("inconsistent")
        rss = NPS.np_sum((y - p) * (y - p))
        tss = NPS.np_sum((y - NPS.np_mean(y)) * (y - NPS.np_mean(y)))
        return Sc(T.ite(T.eq(sc(tss).p, ZERO), T.App('r2_const', (S.lam_of(y), S.lam_of(p))), ONE - sc(rss).p / sc(tss).p), 'f')

    def accuracy_score(y, p, normalize=True, sample_weight=None):
        y, p = to_sa(y), to_sa(p)
        return NPS.np_mean(S.binop('eq', y, p))

    def log_loss(y, p, *, eps='auto', normalize=True, sample_weight=None, labels=None):
        """sklearn 1.3: mean negative log probability of the true label, rows
        of p renormalised (clipping to [eps, 1-eps] is not modelled)"""
        session.assumed.add('sklearn.metrics.log_loss: clipping of probabilities to [eps, 1-eps] ignored')
        y, p = to_sa(y), to_sa(p)
        if sample_weight is not None or y.ndim != 1:
            raise Unsupported("log_loss options")
        n = y._shape[0]
        two = p.ndim == 1 or p._shape[1] is ONE
        if two:
            K = P(2)
        else:
            K = p._shape[1]
        if labels is None:
            # the classes are the distinct values of y
            if not label_range(y, K):
                raise Unsupported("log_loss without labels on unknown label values")
            c, i = T.fresh_index(K), T.fresh_index(n)
            pres = T.tall([c], [K], T.tany([i], [n], T.eq(y.at((P(i),)), P(c))))
            if not RT.CTX[-1].branch(pres):
                raise ValueError("y_true contains only one label")
            lab = lambda c: c
        else:
            L = to_sa(labels)
            if not RT.CTX[-1].branch(T.eq(L._shape[0], K)):
                raise ValueError("The number of classes in labels is different from that in y_pred")
            lab = lambda c: L.at((c,))
        if two:
            def pr(i, c):
                q = p.at((i,) if p.ndim == 1 else (i, ZERO))
                one = T.eq(c, ONE)
                return one * q + (ONE - one) * (ONE - q)
        else:
            pr = lambda i, c: p.at((i, c))
        i, c, e = T.fresh_index(n), T.fresh_index(K), T.fresh_index(K)
        if two:
            body = ZERO
            for cc in (ZERO, ONE):
                body = body + T.eq(y.at((P(i),)), lab(cc)) * T.log(pr(P(i), cc))
        else:
            tot = T.tsum([e], [K], pr(P(i), P(e)))
            body = T.tsum([c], [K], T.eq(y.at((P(i),)), lab(P(c))) * T.log(pr(P(i), P(c)) * T.inv(tot)))
        r = -T.tsum([i], [n], body)
        return Sc(r * T.inv(n) if normalize else r, 'f')

    def label_range(y, K):
        """are y's values known to be 0..K-1?"""
        i = T.fresh_index(y._shape[0])
        v = y.at((P(i),))
        return PR.implied(T.land(T.ge(v, ZERO), T.lt(v, K)), RT.CTX[-1].hyps())

    ns('sklearn.preprocessing', StandardScaler=StandardScaler, LabelEncoder=LabelEncoder,
       OneHotEncoder=OneHotEncoder, normalize=normalize)
    ns('sklearn.utils', check_X_y=check_X_y, check_array=check_array, check_random_state=check_random_state,
       check_consistent_length=check_consistent_length, compute_class_weight=compute_class_weight)
    ns('sklearn.utils.validation', check_is_fitted=check_is_fitted, check_non_negative=check_non_negative)
    ns('sklearn.utils.extmath', safe_sparse_dot=safe_sparse_dot, squared_norm=squared_norm, log_logistic=log_logistic)
    ns('sklearn.utils.multiclass', check_classification_targets=lambda y: None)
    ns('sklearn.metrics', r2_score=r2_score, accuracy_score=accuracy_score, log_loss=log_loss)

    class LinearRegression(BaseEstimator):
        def __init__(self, *, fit_intercept=True, copy_X=True, n_jobs=None, positive=False):
            self.fit_intercept, self.copy_X, self.n_jobs, self.positive = fit_intercept, copy_X, n_jobs, positive

    class Lasso(BaseEstimator):
        def __init__(self, alpha=1.0, *, fit_intercept=True, precompute=False, copy_X=True, max_iter=1000, tol=1e-4,
                     warm_start=False, positive=False, random_state=None, selection='cyclic'):
            for k, v in list(locals().items()):
                if k not in ('self', '__class__'):
                    setattr(self, k, v)

    class ElasticNet(BaseEstimator):
        def __init__(self, alpha=1.0, *, l1_ratio=0.5, fit_intercept=True, precompute=False, max_iter=1000, copy_X=True,
                     tol=1e-4, warm_start=False, positive=False, random_state=None, selection='cyclic'):
            for k, v in list(locals().items()):
                if k not in ('self', '__class__'):
                    setattr(self, k, v)

    class LogisticRegression(BaseEstimator):
        def __init__(self, penalty='l2', *, dual=False, tol=1e-4, C=1.0, fit_intercept=True, intercept_scaling=1,
                     class_weight=None, random_state=None, solver='lbfgs', max_iter=100, multi_class='auto', verbose=0,
                     warm_start=False, n_jobs=None, l1_ratio=None):
            for k, v in list(locals().items()):
                if k not in ('self', '__class__'):
                    setattr(self, k, v)

        def decision_function(self, X):
            s = NPS.np_dot(X, self.coef_.T) + self.intercept_
            return s.ravel() if self.coef_.shape[0] == 1 else s

        def predict(self, X):
            s = self.decision_function(X)
            if s.ndim == 1:
                return self.classes_[(s > 0).astype(int)]
            return self.classes_[NPS.np_argmax(s, axis=1)]

    ns('sklearn.linear_model', LinearRegression=LinearRegression, Lasso=Lasso, ElasticNet=ElasticNet,
       LogisticRegression=LogisticRegression)
    ns('sklearn.linear_model._base', BaseEstimator=BaseEstimator, SparseCoefMixin=SparseCoefMixin)
    ns('sklearn.linear_model._coordinate_descent', _alpha_grid=Missing('_alpha_grid'))
    ns('sklearn.decomposition', NMF=Missing('NMF'), TruncatedSVD=Missing('TruncatedSVD'))
    ns('sklearn.cluster', DBSCAN=Missing('DBSCAN'))
