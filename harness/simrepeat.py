"""A seeded search over the simulated pool, with results that depend on the pipeline only.
As a program: runs one in this process and prints what was evaluated and the result as JSON."""
import gsim
from gsim import SIM
import gdrive as g
import json
import random
import recest
import stopit
import sys
import warnings
from gama.configuration.classification import clf_config
from gama.search_methods import AsyncEA, RandomSearch, AsynchronousSuccessiveHalving
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.preprocessing import MinMaxScaler, Binarizer
from sklearn.tree import DecisionTreeClassifier

SPACES = {"small": {GaussianNB: {}, BernoulliNB: {"alpha": [0.1, 1.0, 10.0], "fit_prior": [True, False]}, DecisionTreeClassifier: {"max_depth": range(1, 6)}, MinMaxScaler: {}, Binarizer: {"threshold": [0.0, 0.5]}},
          "shipped": clf_config}


def script_evaluate(individual, *a, **kw):
    """A result that depends on the pipeline only."""
    if recest.h(individual.pipeline_str(), 1) % 9 == 0:
        return g.evaluation(individual, (float("-inf"),), "scripted failure")
    individual.meta.update(subsample=kw.get("subsample", 0))
    return g.evaluation(individual, (recest.h(individual.pipeline_str()) % 50 / 10,))


def simulated(sc, word):
    """One search over the simulated pool; word: how far the worker runs ahead."""
    evals = []
    search = {"ea": lambda: AsyncEA(population_size=sc["pop"], max_n_evaluations=sc["n"]), "random": lambda: RandomSearch(),
              "asha": lambda: AsynchronousSuccessiveHalving(reduction_factor=3, minimum_resource=0.25)}[sc["method"]]()
    end = dict(n=0, raised="", output=[], model="", predictions=[])
    ahead = []
    for c in word:         # "w" before a "t": the worker goes on while the main process is busy
        ahead = ahead + [0] if c == "t" else ahead[:-1] + [(ahead[-1] if ahead else 0) + 1]
    box = dict(turn=0)

    def run(s, ops, start):
        SIM.reset([dict(k=1, out="ok")] * 10 ** 4)
        ops.evaluate = script_evaluate

        def eager(*_):
            box["turn"] += 1
            for _ in range(ahead[box["turn"] % len(ahead)] if ahead else 0):
                SIM.step()
        SIM.on_submit = eager
        try:
            search.dynamic_defaults(None, list(range(200)), 100)
            search.search(ops, [ops.individual() for _ in range(sc["starts"])])
        except stopit.TimeoutException:
            pass

    def seen(e):
        evals.append(dict(pipeline=e.individual.pipeline_str(), score=["%.9g" % s for s in e.score]))
        if len(evals) >= sc["n"] and sc["method"] != "ea":
            raise stopit.TimeoutException()
    for _ in range(sc["noise"] if ahead else 0):
        random.random()
    gm = g.GamaClassifier(search=g.ScriptSearch(run), post_processing=g.NoPost(), search_space=SPACES[sc["space"]], scoring="accuracy", random_state=sc["seed"], n_jobs=1, max_total_time=600, store="nothing",
                          verbosity=50, output_directory=g.new_dir(), regularize_length=sc["short"])
    gm.evaluation_completed(seen)
    try:
        gm.fit(*g.toy_data())
    except gsim.Stuck:
        end["raised"] = "stuck"
    except Exception as e:
        end["raised"] = type(e).__name__ + ": " + str(e)[:200]
    end.update(n=len(evals), output=[i.pipeline_str() for i in search.output])
    return dict(evals=evals, end=end)


if __name__ == "__main__":
    warnings.filterwarnings("ignore")
    arg = json.loads(sys.argv[1])
    print("RESULT " + json.dumps(simulated(arg, arg["word"])))
