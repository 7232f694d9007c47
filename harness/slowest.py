import time
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin


class SlowClassifier(BaseEstimator, ClassifierMixin):
    """Pauses in fit; can be interrupted at any moment."""

    def __init__(self, pause=1.0):
        self.pause = pause

    def fit(self, x, y):
        end = time.time() + self.pause
        while time.time() < end:
            time.sleep(0.005)
        self.classes_ = np.unique(y)
        return self

    def predict(self, x):
        return np.array([self.classes_[0]] * len(x))

    def predict_proba(self, x):
        return np.array([[1.0] + [0.0] * (len(self.classes_) - 1)] * len(x))
