"""One seeded search in this (fresh) process; prints what was evaluated and the result as JSON."""
import json
import os
import sys
import time
import warnings
warnings.filterwarnings("ignore")
sc = json.loads(sys.argv[1])
import random
import numpy as np
import pandas as pd
import stopit
import vlib
vlib.import_gama()
from gama import GamaClassifier, GamaRegressor
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from gama.search_methods import AsyncEA, RandomSearch, AsynchronousSuccessiveHalving
from sklearn.decomposition import PCA
from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB, BernoulliNB
from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
from sklearn.preprocessing import MinMaxScaler, StandardScaler, RobustScaler, Normalizer
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

reg = sc["task"] == "reg"
pre = {PCA: {"svd_solver": ["randomized"], "iterated_power": range(1, 5)}, MinMaxScaler: {}, StandardScaler: {}, RobustScaler: {}, "norm": ["l1", "l2", "max"], Normalizer: {"norm": []}}
trees = {"max_depth": range(1, 11), "min_samples_leaf": range(1, 21)}
forest = {"n_estimators": [3, 5], "max_features": np.arange(0.3, 1.01, 0.1), "bootstrap": [True, False]}
if reg:
    space = {RandomForestRegressor: forest, DecisionTreeRegressor: trees, KNeighborsRegressor: {"n_neighbors": range(1, 20), "p": [1, 2]}, **pre}
else:
    space = {"alpha": [0.1, 1.0, 10.0], RandomForestClassifier: forest, DecisionTreeClassifier: trees, KNeighborsClassifier: {"n_neighbors": range(1, 20), "p": [1, 2]},
             GaussianNB: {}, BernoulliNB: {"alpha": [], "fit_prior": [True, False]}, LogisticRegression: {"C": [0.1, 1.0, 5.0]}, **pre}
rows = 120
gen = np.random.RandomState(7)
x = pd.DataFrame({"a": gen.rand(rows), "b": gen.rand(rows) * 5, "c": pd.Categorical(gen.choice(list("uvwxy"), rows)), "d": pd.Categorical(gen.choice(["k%d" % k for k in range(14)], rows))})
y = pd.Series(x.a * 3 + x.b - gen.rand(rows)) if reg else pd.Series(np.where(x.a * 5 + x.b + gen.rand(rows) * 3 > 6, "up", "down"))
search = {"ea": lambda: AsyncEA(population_size=sc["pop"], max_n_evaluations=sc["n"]), "random": lambda: RandomSearch(), "asha": lambda: AsynchronousSuccessiveHalving(reduction_factor=2)}[sc["method"]]()
post = BestFitPostProcessing() if sc["post"] == "best" else EnsemblePostProcessing(ensemble_size=5, hillclimb_size=sc["hill"] or None)
for _ in range(sc["noise"]):       # the state of the process does not matter
    random.random(), np.random.rand()
cls = GamaRegressor if reg else GamaClassifier
gm = cls(search_space=space, search=search, post_processing=post, random_state=sc["seed"], n_jobs=1, max_total_time=300, max_eval_time=60, store=sc["store"], verbosity=50,
         scoring=sc["metric"], output_directory=os.path.abspath("o_%s" % sc["tag"]), regularize_length=sc["short"])
evals, full = [], []


def seen(e):
    evals.append(dict(pipeline=e.individual.pipeline_str(), score=["%.9g" % s for s in e.score] if e.error is None else ["error"]))
    if sc["jitter"]:
        time.sleep((os.getpid() * len(evals) % 7) * 0.01)
    full.append(e.error is None)
    if len(evals) >= sc["n"] and sc["method"] != "ea" and (sum(full) > 1 or sc["post"] == "best"):
        raise stopit.TimeoutException()


gm.evaluation_completed(seen)
end = dict(n=0, raised="", output=[], model="", predictions=[])
try:
    gm.fit(x, y)
    end["output"] = [i.pipeline_str() for i in search.output]
    end["model"] = repr(gm.model) if sc["post"] == "best" else ""
    p = gm.predict(x)
    end["predictions"] = ["%.9g" % v for v in p] if reg else [str(v) for v in p]
    gm.cleanup("all")
except Exception as e:
    end["raised"] = type(e).__name__ + ": " + str(e)[:200]
end["n"] = len(evals)
print("RESULT " + json.dumps(dict(evals=evals, end=end)))
