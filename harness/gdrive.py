"""Helpers shared by the drivers: tiny search spaces, encodings, in-process AutoML runs."""
import math
import os
import random
import uuid

import numpy as np
import pandas as pd
import vlib

gama = vlib.import_gama()
from gama import GamaClassifier, GamaRegressor
from gama.search_methods.base_search import BaseSearch
from gama.postprocessing.base_post_processing import BasePostProcessing
from gama.genetic_programming.components import Individual, Fitness
from gama.utilities.evaluation_library import Evaluation
from sklearn.base import TransformerMixin


def val(v):
    """Unambiguous text of a hyperparameter value (type and value)."""
    if callable(v) and hasattr(v, "__name__"):
        return "fn:" + v.__name__
    if isinstance(v, np.generic):
        return f"{type(v).__name__}:{v.item()!r}"
    return f"{type(v).__name__}:{v!r}"


def enc_ind(ind):
    """[[predictor, {hyperparameter: value}], ...], from the predictor towards the data."""
    out = []
    for node in ind.primitives:
        out.append(dict(p=node._primitive.identifier.__name__,
                        h=sorted([[t.identifier, val(t.value)] for t in node._terminals])))
    return out


def enc_space(config):
    """The search space as configured (not as parsed): operators, their slots and values."""
    prims, terms = {}, {}
    for key, values in config.items():
        if isinstance(key, str):
            terms[key] = [val(v) for v in values]
    for key, values in config.items():
        if isinstance(key, str):
            continue
        slots = []
        for name, vs in values.items():
            if isinstance(vs, list) and not vs:
                slots.append(name)
            elif name == "param_check":
                continue
            else:
                slots.append(f"{key.__name__}.{name}")
                terms[f"{key.__name__}.{name}"] = [val(v) for v in vs]
        prims[key.__name__] = dict(out="data" if issubclass(key, TransformerMixin) else "prediction",
                                   slots=sorted(slots))
    return dict(prims=prims, terms=terms or {"_none": []})


class ScriptSearch(BaseSearch):
    """A search method whose search is a function given by the driver."""

    def __init__(self, fn, output=None):
        super().__init__()
        self.fn = fn
        self.output = output if output is not None else []

    def dynamic_defaults(self, x, y, time_limit):
        self.time_limit = time_limit

    def search(self, operations, start_candidates):
        self.fn(self, operations, start_candidates)


class NoPost(BasePostProcessing):
    def __init__(self, time_fraction=0.1):
        super().__init__(time_fraction)

    def dynamic_defaults(self, gama):
        pass

    def post_process(self, x, y, timeout, selection):
        self.got = dict(x=x, y=y, timeout=timeout, selection=selection)
        return object()

    def to_code(self, preprocessing=None):
        return "pass"


def toy_data(n=20, regression=False):
    x = pd.DataFrame({"a": [float(k % 7) for k in range(n)], "b": [float((k * 3) % 5) for k in range(n)]})
    y = pd.Series([float(k % 4) for k in range(n)] if regression else [k % 2 for k in range(n)])
    return x, y


def new_dir():
    return os.path.abspath("out_" + uuid.uuid4().hex)


def library(gm):
    """The evaluation library of an AutoML object, whatever its attribute is called."""
    from gama.utilities.evaluation_library import EvaluationLibrary
    return next((v for v in vars(gm).values() if isinstance(v, EvaluationLibrary)), None)


def with_operations(fn, search_space, regression=False, data=None, post=None, **kw):
    """Run fn(search, operations, start_candidates) as the search phase of a real fit."""
    cls = GamaRegressor if regression else GamaClassifier
    box = {}

    def run(search, ops, start):
        try:
            box["result"] = fn(search, ops, start)
        except BaseException as e:
            box["error"] = e

    d = os.path.abspath("out_" + uuid.uuid4().hex)
    kw = {"scoring": "neg_mean_squared_error" if regression else "accuracy", "n_jobs": 1,
          "max_total_time": 600, "store": "nothing", "verbosity": 50, **kw}
    g = cls(search_space=search_space, search=ScriptSearch(run), post_processing=post or NoPost(),
            output_directory=d, **kw)
    x, y = data or toy_data(regression=regression)
    g.fit(x, y)
    if "error" in box:
        raise box["error"]
    return box.get("result")


class Done:
    """A future that completed with the given evaluation."""

    def __init__(self, result=None, exception=None):
        self.result, self.exception, self.traceback = result, exception, None


class Feed:
    """Stand-in pool handing out one prepared future."""

    def __init__(self, future):
        self.future = future

    def wait_next(self, *a, **k):
        return self.future


def evaluation(ind, score, error=None, predictions=None, estimators=None):
    ind.fitness = Fitness(tuple(score), 0, 0, 0)
    return Evaluation(ind, predictions=predictions, score=tuple(score), estimators=estimators, error=error,
                      start_time=__import__("datetime").datetime(2020, 1, 1), duration=1.0, pid=1)
