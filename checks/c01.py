"""C01: the evaluation pool returns every call's own outcome once, to its own handle."""
import time
import vlib
import pooljobs as pj


def play(AsyncEvaluator, sc, steps, wait_kw=None):
    """Execute submit/wait steps on a pool in its context, recording what comes back."""
    ev, handles, jobs = [], [], []
    AsyncEvaluator.defaults = dict(shared=sc["shared"])
    tok = [0]
    with AsyncEvaluator(n_workers=sc["workers"]) as pool:
        def submit(kind, delay):
            tok[0] += 1
            raised, h = "", 0
            try:
                if kind == "kwargs":
                    f = pool.submit(pj.job, kind, 0, delay=delay, extra=tok[0])
                else:
                    f = pool.submit(pj.job, kind, tok[0], delay)
                if any(f is x for x in handles):
                    h = 0
                else:
                    handles.append(f)
                    jobs.append((kind, tok[0]))
                    h = len(handles)
            except Exception as e:
                raised = type(e).__name__
            ev.append(dict(op="submit", kind=kind, tok=tok[0], handle=h, raised=raised, size=pool.job_queue_size))

        def wait():
            raised, h, got = "", 0, dict(how="", kind="", tok=0, shared=0)
            try:
                f = pool.wait_next(**(wait_kw or {}))
                h = next((k + 1 for k, x in enumerate(handles) if x is f), 0)
                k = jobs[h - 1] if h else ("", 0)
                got = pj.decode(k[0], f, k[1], sc["shared"])
            except Exception as e:
                raised = type(e).__name__
            ev.append(dict(op="wait", handle=h, raised=raised, got=got, size=pool.job_queue_size))
            return raised == ""

        outstanding = 0
        for s in steps:
            if s["op"] == "submit":
                submit(s["kind"], s.get("delay", 0.0))
                outstanding += 1
            elif s["op"] == "wait":
                wait()
                outstanding -= 1
            elif s["op"] == "sleep":
                time.sleep(s["t"])
            elif s["op"] == "waitnone":
                raised = ""
                try:
                    pool.wait_next()
                except Exception as e:
                    raised = type(e).__name__
                ev.append(dict(op="waitnone", raised=raised))
        while outstanding > 0 and wait():
            outstanding -= 1
        ev.append(dict(op="end"))
    raised = ""
    try:
        with pool:
            pass
    except Exception as e:
        raised = type(e).__name__
    ev.append(dict(op="reenter", raised=raised))
    return dict(workers=sc["workers"], shared=sc["shared"], ev=ev, scenario=str(sc)[:500])


def real(sc):
    vlib.import_gama()
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    return play(AsyncEvaluator, sc, sc["steps"], dict(poll_time=0.001) if sc["poll"] else None)


def simulated(sc):
    """Scripted completion order: the k-th of the running calls completes."""
    import gsim
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    open_, n, sched = [], 0, []
    for s in sc["steps"]:
        if s["op"] == "submit":
            n += 1
            open_.append(n)
        elif s["op"] == "wait":
            k = open_.index(s["id"]) + 1 if s["id"] else sc["rest"][len(sched) % len(sc["rest"])]
            k = min(k, len(open_), sc["workers"])
            sched.append(dict(k=k))
            open_.pop(k - 1)
    while open_:
        k = min(sc["rest"][len(sched) % len(sc["rest"])], len(open_), sc["workers"])
        sched.append(dict(k=k))
        open_.pop(k - 1)
    gsim.SIM.reset(sched)
    return play(AsyncEvaluator, sc, sc["steps"])


def rand_steps(rng, n, kinds, delays):
    steps, out = [], 0
    for _ in range(n):
        x = rng.random()
        if out == 0 and x < 0.15:
            steps.append(dict(op="waitnone"))
        elif out == 0 or (x < 0.55 and out < 9):
            steps.append(dict(op="submit", kind=rng.choice(kinds), delay=rng.choice(delays)))
            out += 1
        else:
            steps.append(dict(op="wait", id=0))
            out -= 1
    return steps


def body(ctx):
    rng = ctx.rng("p")
    sims = []
    for w in (1, 2, 3):
        paths = ctx.model("MC_Pool", consts=dict(Workers=w))
        for p in rng.sample(paths, min(len(paths), ctx.pick(700, 8000))):
            steps = []
            for s in p:
                s = dict(s)
                if s["op"] == "submit":
                    s["kind"] = rng.choice([k for k in pj.KINDS if k.startswith("raise") == (s["kind"] == "raise_value")])
                steps.append(s)
            sims.append(dict(workers=w, shared=rng.randint(1, 900), steps=steps, rest=[1, 2, 3]))
    for _ in range(ctx.pick(800, 8000)):
        sims.append(dict(workers=rng.randint(1, 4), shared=rng.randint(1, 900), rest=[rng.randint(1, 4) for _ in range(7)],
                         steps=rand_steps(rng, rng.randint(5, 40), pj.KINDS, [0.0])))
    ctx.validate("PoolTrace", ctx.drive(simulated, sims, each_timeout=30))
    reals = []
    for k in range(ctx.pick(24, 240)):
        steps = [dict(op="submit", kind=kd) for kd in rng.sample(pj.KINDS, 6)] if k % 3 == 0 else []
        steps += rand_steps(rng, rng.randint(15, 40), pj.KINDS, [0.0, 0.0, 0.005, 0.03])
        # rand_steps counts only its own submissions; leftovers are awaited at the end
        reals.append(dict(workers=1 + k % 3, shared=rng.randint(1, 900), steps=[s for s in steps if s["op"] != "waitnone" or k % 3], poll=k % 2))
    runs = ctx.drive(real, reals, each_timeout=25, nproc=4)
    ctx.validate("PoolTrace", runs)


vlib.main("C01", body)
