"""Small models with observable behaviour, for driving query strategies."""
import numpy as np


class Centroid(object):
    """Deterministic nearest-centroid softmax; also usable through sklearn.clone."""
    fits = None     # set to a list to record what every fit was given
    log = None      # set to a list to record (id, what, X, output) of every prediction

    def __init__(self, sharp=1.):
        self.sharp = sharp

    def get_params(self, deep=True):
        return dict(sharp=self.sharp)

    def set_params(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        return self

    def fit(self, X, y, sample_weight=None):
        X, y = np.asarray(X), np.asarray(y)
        self.classes_ = np.unique(y)
        w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight, float)
        if Centroid.fits is not None:
            Centroid.fits.append((X[w > 0], y[w > 0]))
        self.cen = np.array([np.average(X[y == k], axis=0, weights=w[y == k] if w[y == k].sum() > 0 else None) for k in self.classes_])
        return self

    def _proba(self, X):
        d = self.sharp * ((np.asarray(X)[:, None, :] - self.cen[None]) ** 2).sum(axis=2)
        e = np.exp(-d + d.min(axis=1, keepdims=True))
        return e / e.sum(axis=1, keepdims=True)

    def _rec(self, what, X, out):
        if Centroid.log is not None:
            Centroid.log.append((id(self), what, np.array(X), np.array(out)))
        return out

    def predict_proba(self, X):
        return self._rec('predict_proba', X, self._proba(X))

    def predict(self, X):
        return self._rec('predict', X, self.classes_[np.argmax(self._proba(X), axis=1)])

    def decision_function(self, X):
        p = self._proba(X)
        return self._rec('decision_function', X, np.log(p[:, 1] + 1e-12) - np.log(p[:, 0] + 1e-12))


class Table(object):
    """A model which answers from a table keyed by the row's content."""

    def __init__(self, X, proba=None, decision=None, classes=None):
        self.row = {tuple(r): i for i, r in enumerate(np.asarray(X))}
        self.proba, self.decision = proba, decision
        if classes is not None:
            self.classes_ = classes

    def _at(self, X):
        return [self.row[tuple(r)] for r in np.asarray(X)]

    def predict_proba(self, X):
        return self.proba[self._at(X)]

    def decision_function(self, X):
        return self.decision[self._at(X)]


class Forgetful(Centroid):
    """Like many models it takes no weights and knows only the classes it was trained on; the log shows all of them."""
    total = None

    def fit(self, X, y):
        return Centroid.fit(self, X, y)

    def _rec(self, what, X, out):
        if what == 'predict_proba':
            p = np.zeros((len(out), self.total))
            p[:, self.classes_.astype(int)] = out
            Centroid._rec(self, what, X, p)
            return out
        return Centroid._rec(self, what, X, out)
