"""C15: callbacks see every evaluation once, in order, and cannot harm the search."""
import vlib

Q = 4.0


class Holder:
    def __init__(self, f):
        self.f = f

    def __call__(self, evaluation):
        return self.f(evaluation)

    def method(self, evaluation):
        return self.f(evaluation)


def as_kind(f, k):
    """A callback may be any callable."""
    import functools
    return [f, functools.partial(f), Holder(f), Holder(f).method][k]


def log_records(path):
    import csv
    import os
    if not os.path.exists(path):
        return []
    with open(path, newline="") as fh:
        return [row[0] for row in csv.reader(fh, delimiter=";")][1:]


ERRORS = ["ValueError", "MemoryError", "StopIteration", "AssertionError", "OSError", "KeyError", "RuntimeError", "NotImplementedError", "StopAsyncIteration",
          "AttributeError", "TypeError", "IndexError", "ZeroDivisionError", "ImportError", "NameError", "EOFError", "TimeoutError", "RecursionError", "BrokenPipeError"]


def scripted(sc):
    """A fit whose search completes given evaluations; callbacks behave as scripted."""
    import builtins
    import os
    import vclock
    vclock.install(timeouts=False)
    import gdrive as g
    import stopit
    from vclock import Clock
    from sklearn.naive_bayes import GaussianNB
    Clock.now = 0.0
    evs, cur = [], {}
    d = g.new_dir()
    log = os.path.join(d, "evaluations.log")

    def callback(n):
        def cb(evaluation):
            cur["calls"].append(dict(cb=n, same=evaluation is cur["e"], logged=len(log_records(log))))
            Clock.advance(cur["ts"][n - 1] / Q)
            b = cur["bs"][n - 1]
            if b == "error":
                name = sc["errors"][n % len(sc["errors"])]
                raise getattr(builtins, name)("scripted")
            if b == "timeout":
                raise stopit.TimeoutException()
            if b == "swallow":
                try:
                    raise stopit.TimeoutException()
                except stopit.TimeoutException:
                    pass
        return as_kind(cb, (n + sc["n"] + len(sc["steps"])) % 4)

    def search(s, ops, start):
        for k in range(sc["during"]):
            register()
        for step in sc["steps"]:
            if step["op"] == "advance":
                Clock.advance(step["d"] / Q)
                evs.append(step)
                continue
            cur.update(calls=[], ts=step.get("ts", []), bs=step.get("bs", []), e=None)
            if step["op"] == "result":
                ind = ops.individual()
                cur["e"] = g.evaluation(ind, (step["score"],), error=step["error"])
                fut = g.Done(cur["e"])
                s.output.append(ind)
            else:
                fut = g.Done(None, ValueError("scripted"))
            raised = ""
            try:
                ops.wait_next(g.Feed(fut))
            except BaseException as e:
                raised = type(e).__name__
                evs.append(dict(step, error=str(step.get("error")), score=str(step.get("score")), calls=cur["calls"], raised=raised))
                raise
            evs.append(dict(step, error=str(step.get("error")), score=str(step.get("score")), calls=cur["calls"], raised=raised))

    gm = g.GamaClassifier(search_space={GaussianNB: {}}, scoring="accuracy", search=g.ScriptSearch(search), post_processing=g.NoPost(0.0),
                          n_jobs=1, max_total_time=sc["limit"] // 4, store="all", verbosity=50, output_directory=d)
    registered = []

    def register():
        raised = ""
        registered.append(1)
        try:
            gm.evaluation_completed(callback(len(registered)))
        except Exception as e:
            raised = type(e).__name__
        evs.append(dict(op="register", raised=raised))
    for k in range(sc["n"] - sc["during"]):
        register()
    raised = ""
    try:
        gm.fit(*g.toy_data())
    except BaseException as e:
        raised = type(e).__name__
    evs.append(dict(op="fitted", raised=raised, logged=len(log_records(log)), library=len(g.library(gm).evaluations) if g.library(gm) else len(log_records(log))))
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return dict(limit=sc["limit"], n=sc["n"], ev=evs)


def searching(sc):
    """The real search methods over a simulated pool."""
    import os
    import random
    import shutil
    import gsim
    from gsim import SIM
    import gdrive as g
    import stopit
    from gama.search_methods import AsyncEA, RandomSearch, AsynchronousSuccessiveHalving
    from sklearn.naive_bayes import BernoulliNB
    random.seed(sc["seed"])
    d = g.new_dir()
    SIM.reset(sc["sched"])
    seen = [[] for _ in range(sc["n"])]
    results, state = [], {"prompt": True}
    method = {"ea": lambda: AsyncEA(population_size=3), "random": RandomSearch,
              "asha": lambda: AsynchronousSuccessiveHalving(reduction_factor=2, minimum_resource=0.25, maximum_resource=1.0)}[sc["method"]]()

    def callback(n):
        def cb(evaluation):
            seen[n].append(str(evaluation.individual._id))
            if sc["faulty"] and (len(seen[n]) + n) % 3 == 0:
                raise ValueError("scripted")
        return as_kind(cb, (n + sc["start"]) % 4)

    def search(s, ops, start):
        method.dynamic_defaults(gm_box["x"], gm_box["y"], 100)
        ops.evaluate = gsim.sim_evaluate
        SIM.on_complete = lambda fut: results.append(str(gsim.find_individual(fut)._id)) if SIM.current["out"] != "exc" else None

        def on_wait():
            state["prompt"] = state["prompt"] and all(x == results for x in seen)
        SIM.on_wait = on_wait
        SIM.on_submit = lambda fut: on_wait()
        try:
            method.search(ops, start[:sc["start"]])
        except (stopit.TimeoutException, KeyboardInterrupt):
            pass
        s.output = []

    gm = g.GamaClassifier(search_space={"alpha": [k / 100 for k in range(99)], BernoulliNB: {"alpha": [], "fit_prior": [True, False]}}, scoring="accuracy",
                          search=g.ScriptSearch(search), post_processing=g.NoPost(0.0), n_jobs=sc["workers"], max_total_time=600, store="all",
                          verbosity=50, output_directory=d)
    gm_box = dict(zip("xy", g.toy_data()))
    for k in range(sc["n"]):
        gm.evaluation_completed(callback(k))
    gm.fit(gm_box["x"], gm_box["y"])
    log = log_records(os.path.join(d, "evaluations.log"))
    shutil.rmtree(d, ignore_errors=True)
    num = {}
    enc = lambda xs: [num.setdefault(x, len(num) + 1) for x in xs]
    return dict(limit=2400, n=sc["n"], method=sc["method"],
                ev=[dict(op="searched", results=enc(results), seen=[enc(x) for x in seen], prompt=state["prompt"], log=enc(log))])


def rand(rng):
    n = rng.randint(0, 4)
    limit = rng.choice([40, 80])
    steps = []
    pe = rng.choice([0.1, 0.5, 0.9])
    for _ in range(rng.randint(1, 9)):
        k = rng.random()
        if k < 0.15:
            steps.append(dict(op="exception"))
        elif k < 0.3:
            steps.append(dict(op="advance", d=rng.choice([1, 8, limit // 2, limit, limit + 8])))
        else:
            b = lambda: "error" if rng.random() < pe else rng.choice(["ok", "ok", "ok", "ok", "timeout", "swallow"])
            steps.append(result(rng, [b() for _ in range(n)], [rng.choice([0, 0, 0, 1, 8, limit, limit + 8, limit + 16]) for _ in range(n)]))
    return dict(n=n, during=rng.randint(0, n), limit=limit, steps=steps, errors=rng.sample(ERRORS, 3))


def result(rng, bs, ts):
    return dict(op="result", bs=bs, ts=ts, score=rng.choice([0.0, 0.5, 1.0, -1.0]), error=rng.choice([None, None, "failed"]))


def body(ctx):
    rng = ctx.rng("cb")
    scs = []
    paths = ctx.model("MC_Callbacks", maximal=False)
    for p in rng.sample(paths, min(len(paths), ctx.pick(900, 6000))):
        steps = [dict(op="advance", d=39)] + [result(rng, s["bs"], s["ts"]) if s["op"] == "result" else s for s in p]
        scs.append(dict(n=2, during=0, limit=40, steps=steps, errors=rng.sample(ERRORS, 3)))
    scs += [rand(rng) for _ in range(ctx.pick(700, 8000))]
    rng.shuffle(scs)
    ss = []
    for _ in range(ctx.pick(150, 2000)):
        m = rng.choice(["ea", "random", "asha"])
        sched = [dict(k=rng.randint(1, 4), out=rng.choice(["ok", "ok", "ok", "err", "exc"]), v=[rng.randint(0, 5), -1]) for _ in range(rng.randint(3, 25))]
        if rng.random() < 0.4:
            sched.append(dict(int=rng.choice(["timeout", "kbd"])))
        ss.append(dict(method=m, sched=sched, n=rng.randint(1, 3), faulty=rng.random() < 0.5, workers=rng.randint(1, 3), start=rng.randint(1, 6), seed=rng.randint(0, 10 ** 6)))
    a = ctx.drive(scripted, scs, per=1)
    b = ctx.drive(searching, ss, per=1)
    ctx.validate("CallbacksTrace", a + b)


vlib.main("C15", body)
