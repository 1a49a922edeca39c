"""Estimators of the harness that joblib workers must be able to import (no
Hypothesis here)."""
import numpy as np
from sklearn.base import BaseEstimator, TransformerMixin


class Remembering(BaseEstimator, TransformerMixin):
    """Result depends on how often this very object has been fitted."""

    def __init__(self, shift=0.0):
        self.shift = shift

    def fit(self, X, y=None, scale=1.0):
        self.fits_ = getattr(self, "fits_", 0) + 1
        X = np.asarray(X)
        self.covariance_ = scale*(X.T @ X.conj()/len(X)) \
            + (self.shift + self.fits_)*np.eye(X.shape[1])
        return self

    def transform(self, X):
        return self.covariance_


class Nested(BaseEstimator, TransformerMixin):
    """Fits the estimator it holds in place, as scikit-learn's pipelines do."""

    def __init__(self, inner=None):
        self.inner = inner

    def fit(self, X, y=None, scale=1.0):
        self.inner.fit(X, scale=scale)
        self.covariance_ = self.inner.covariance_
        return self

    def transform(self, X):
        return self.inner.transform(X)


class CovScale(BaseEstimator, TransformerMixin):
    """Several features: a matrix, the vector of sample norms, a scalar."""

    def __init__(self, parts=3, order="list"):
        self.parts, self.order = parts, order

    def fit(self, X, y=None):
        X = np.asarray(X)
        self.out_ = [X.T @ X.conj()/len(X), np.sum(np.abs(X)**2, axis=1),
                     np.array([np.mean(np.abs(X))])][:self.parts]
        return self

    def transform(self, X):
        return tuple(self.out_) if self.order == "tuple" else self.out_


def rgrad(X, S):
    """Riemannian gradient of the Tyler cost of the samples at S"""
    q = np.real(np.einsum("ni,in->n", X.conj(), np.linalg.solve(S, X.T)))
    return len(X)*S - (X/q[:, None]).T @ X.conj()


class Scalar(BaseEstimator, TransformerMixin):
    """One number, as NumPy scalar."""

    def fit(self, X, y=None):
        self.m_ = np.asarray(X).sum()*1.0
        return self

    def transform(self, X):
        return self.m_
