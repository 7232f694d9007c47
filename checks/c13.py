"""C13: time budgets, under a virtual clock; and a few runs in real time."""
import vlib

Q = 4.0  # quarter seconds


def q(v):
    """Seconds as quarters, rounded down, exact ones kept."""
    import math
    r = round(v * Q)
    return r if abs(v * Q - r) < 1e-4 else math.floor(v * Q)


def attempt(fn):
    try:
        return str(q(fn()))
    except Exception as e:
        return type(e).__name__


def keeper(sc):
    import vclock
    vclock.install()
    vlib.import_gama()
    from gama.utilities.generic.timekeeper import TimeKeeper
    from vclock import Clock
    Clock.now = 0.0
    tk = TimeKeeper(None if sc["total"] < 0 else sc["total"] / Q)
    evs, cms = [], []
    for op in sc["ops"]:
        passed = True
        if op["op"] == "pass":
            Clock.advance(op["d"] / Q)
        elif op["op"] == "start":
            cm = tk.start_activity("a%d" % (len(evs) % 3 if sc["total"] >= 0 else 0), time_limit=None if op["limit"] < 0 else op["limit"] / Q)
            cm.__enter__()
            cms.append(cm)
        elif op["error"]:
            err = ValueError("scripted")
            try:
                passed = not cms.pop().__exit__(ValueError, err, None)
            except ValueError as e:
                passed = e is err
        else:
            cms.pop().__exit__(None, None, None)
        evs.append(dict(op, remaining=attempt(lambda: tk.total_time_remaining), elapsed=attempt(lambda: tk.current_activity_time_elapsed),
                        left=attempt(lambda: tk.current_activity_time_left), passed=passed,
                        each=[q(a.stopwatch.elapsed_time) for a in tk.activities],
                        exceeded=[[bool(a.exceeded_limit()), bool(a.exceeded_limit(margin=3.0))] for a in tk.activities]))
    return dict(total=sc["total"], ev=evs)


class Scripted(Exception):
    pass


def fits(sc):
    import vclock
    vclock.install()
    import gdrive as g
    import category_encoders as ce
    from vclock import Clock
    from sklearn.naive_bayes import GaussianNB
    Clock.now = 0.0
    evs, cur = [], {}

    if not hasattr(ce, "_verif"):
        ce._verif = {}
        orig = ce.OrdinalEncoder.fit

        def fit(self, *a, **k):
            d = ce._verif.pop("d", 0)
            Clock.advance(d / Q)
            ce._verif["evs"].append(dict(op="pre", d=d))
            return orig(self, *a, **k)
        ce.OrdinalEncoder.fit = fit
    ce._verif["evs"] = evs

    class Search(g.ScriptSearch):
        def dynamic_defaults(self, x, y, time_limit):
            evs.append(dict(op="search", limit=q(time_limit)))
            Clock.advance(cur["E"] / Q)
            evs.append(dict(op="pass", d=cur["E"]))

    def search(s, ops, start):
        for step in cur["steps"]:
            if step["op"] == "pass":
                Clock.advance(step["d"] / Q)
                evs.append(dict(op="pass", d=step["d"]))
            elif step["op"] == "raise":
                raise Scripted("scripted")
            else:
                seen = {}

                def evaluate_pipeline(pipeline, timeout, **kw):
                    seen["timeout"] = timeout
                    Clock.advance(step["d"] / Q)
                    return None, (0.5,), None, None
                e = ops.evaluate(ops.individual(), evaluate_pipeline=evaluate_pipeline)
                evs.append(dict(op="eval", timeout=q(seen["timeout"]), d=step["d"], duration=q(e.duration)))
        s.output = []

    class Post(g.NoPost):
        def dynamic_defaults(self, gama):
            Clock.advance(cur["Z"] / Q)
            evs.append(dict(op="pass", d=cur["Z"]))

        def post_process(self, x, y, timeout, selection):
            evs.append(dict(op="post", timeout=q(timeout)))
            Clock.advance(cur.get("P", 0) / Q)
            return object()

    def plain(self, *a):
        pass
    cls = g.GamaRegressor if sc["reg"] else g.GamaClassifier
    total = sc["total"] / Q
    from sklearn.linear_model import LinearRegression
    gm = cls(search_space={LinearRegression if sc["reg"] else GaussianNB: {}}, scoring="neg_mean_squared_error" if sc["reg"] else "accuracy",
             search=Search(search), post_processing=Post(sc["f"] / 1000), n_jobs=1, max_total_time=int(total) if total == int(total) else total,
             max_eval_time=None if sc["maxeval"] < 0 else sc["maxeval"] / Q, store="nothing", verbosity=50, output_directory=g.new_dir())
    x, y = g.toy_data(regression=sc["reg"])
    for f in sc["fits"]:
        cur.clear()
        cur.update(f)
        ce._verif["d"] = f["D"]
        evs.append(dict(op="fit"))
        try:
            gm.fit(x, y)
            evs.append(dict(op="done"))
        except Exception as e:
            evs.append(dict(op="error", error=type(e).__name__))
        Clock.advance(sc.get("between", 0) / Q)
    return dict(total=sc["total"], maxeval=sc["maxeval"], f=sc["f"], ev=evs)


def real(sc):
    """In real time: limits are enforced."""
    import time
    import gdrive as g
    import vlib
    if sc["what"] == "search":
        def search(s, ops, start):
            s.output = []
            end = time.time() + 40
            while time.time() < end:
                time.sleep(0.01)

        class S(g.ScriptSearch):
            def dynamic_defaults(self, x, y, time_limit):
                self.limit, self.t0 = time_limit, time.time()

        class P(g.NoPost):
            def post_process(self, x, y, timeout, selection):
                self.t1 = time.time()
                return object()
        from sklearn.naive_bayes import GaussianNB
        s, p = S(search), P(sc["f"] / 1000)
        gm = g.GamaClassifier(search_space={GaussianNB: {}}, scoring="accuracy", search=s, post_processing=p, n_jobs=1,
                              max_total_time=sc["total"] // 4, store="nothing", verbosity=50, output_directory=g.new_dir())
        gm.fit(*g.toy_data())
        return dict(total=sc["total"], maxeval=-1, f=sc["f"], ev=[dict(op="cut", limit=q(s.limit), took=q(p.t1 - s.t0), slack=20)])
    import slowest
    box = {}

    def search(s, ops, start):
        from gama.utilities.generic.async_evaluator import AsyncEvaluator
        ev = []
        for ind in start[:2]:
            t0 = time.time()
            with AsyncEvaluator() as a:
                a.submit(ops.evaluate, ind)
                fut = ops.wait_next(a)
                e = fut.result
                ev.append(dict(op="longeval", limit=sc["limit"], took=q(e.duration), slack=16, failed=e.error is not None and e.predictions is None))
        box["ev"] = ev
        s.output = []
    gm = g.GamaClassifier(search_space={slowest.SlowClassifier: {"pause": [sc["pause"]]}}, scoring="accuracy", search=g.ScriptSearch(search),
                          post_processing=g.NoPost(), n_jobs=1, max_total_time=120, max_eval_time=sc["limit"] / Q, store="nothing",
                          verbosity=50, output_directory=g.new_dir())
    gm.fit(*g.toy_data())
    return dict(total=480, maxeval=sc["limit"], f=100, ev=box["ev"])


def rand_keeper(rng):
    ops, running = [], False
    for _ in range(rng.randint(4, 20)):
        k = rng.random()
        if k < 0.45:
            ops.append(dict(op="pass", d=rng.choice([0, 1, 2, 5, 11, 13, 40])))
        elif running:
            ops.append(dict(op="stop", error=rng.random() < 0.4))
            running = False
        else:
            ops.append(dict(op="start", limit=rng.choice([-1, 0, 4, 8, 20])))
            running = True
    return dict(total=rng.choice([-1, 0, 10, 100]), ops=ops)


def rand_fits(rng):
    total = rng.choice([4, 8, 12, 20, 40, 60, 100, 137, 240, 400, 2400, 14400, 18292, 40000, 61108, 172800, 351116])
    fs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        D = rng.choice([0, 0, 1, 3, total // 4, total // 2, total - 1, total, total + 1, total + 9])
        left = max(0, total - D)
        steps = [dict(op=rng.choice(["eval", "eval", "pass"]), d=rng.choice([0, 1, 2, left // 10, left // 4, left // 2, left])) for _ in range(rng.randint(0, 4))]
        if rng.random() < 0.15:
            steps.append(dict(op="raise"))
        fs.append(dict(D=D, E=rng.choice([0, 0, 1, left // 5]), steps=steps, Z=rng.choice([0, 0, 2]), P=rng.choice([0, 5])))
    return dict(total=total, maxeval=rng.choice([-1, -1, 1, 4, total // 3 + 1, total, total + 4, 3 * total]), f=rng.choice([0, 100, 250, 300, 500, 900]),
                fits=fs, reg=rng.random() < 0.4, between=rng.choice([0, 7, total]))


def body(ctx):
    rng = ctx.rng("time")
    ks = [dict(total=t, ops=p) for p in ctx.model("MC_Timekeeper") for t in (12, -1)]
    ks += [rand_keeper(rng) for _ in range(ctx.pick(500, 4000))]
    fs = []
    for p in ctx.model("MC_Budget"):
        ff, f = [], None
        for e in p:
            if e["op"] == "pre":
                f = dict(D=e["d"], E=0, steps=[], Z=0)
                ff.append(f)
            elif e["op"] == "eval":
                f["steps"].append(dict(op="eval", d=e["d"]))
        fs.append(dict(total=40, maxeval=12, f=300, fits=ff, reg=False))
    rng.shuffle(fs)
    fs = fs[:ctx.pick(250, 3000)] + [rand_fits(rng) for _ in range(ctx.pick(350, 4000))]
    a = ctx.drive(keeper, ks)
    b = ctx.drive(fits, fs, per=1)
    c = ctx.drive(real, [dict(what="search", total=16, f=100), dict(what="search", total=20, f=500), dict(what="eval", limit=4, pause=30.0),
                         dict(what="eval", limit=6, pause=0.6)], each_timeout=90, fresh=True)
    ctx.validate("TimekeeperTrace", a)
    ctx.validate("BudgetTrace", b + c)


vlib.main("C13", body)
