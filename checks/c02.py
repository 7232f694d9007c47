"""C02: worker processes: exact count, replaced when dead, gone after the context."""
import os
import time
import vlib
import pooljobs as pj

UNIT = 100  # megabytes per level of the model


def simulated(sc):
    import gsim
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    SIM = gsim.SIM
    SIM.reset([dict(k=1)] * (len(sc["steps"]) + 1))
    SIM.mem = {0: UNIT}
    AsyncEvaluator.defaults = dict(shared=1)
    ev = []

    def alive():
        return sorted(p.pid for p in SIM.alive())

    def table():
        return [dict(pid=p - 10 ** 7, mem=SIM.mem.get(p, 1)) for p in alive()]

    def on_stop(proc):
        ev.append(dict(op="stop", pid=proc.pid - 10 ** 7, main=SIM.mem[0], table=table()))

    def on_start(proc):
        SIM.mem[proc.pid] = 1

    kw = dict(memory_limit_mb=sc["limit"] * UNIT) if sc["limit"] else {}
    if sc.get("log"):
        kw["logfile"] = os.path.abspath("mem.log")
    SIM.on_start = on_start
    with AsyncEvaluator(n_workers=sc["n"], **kw) as pool:
        ev.append(dict(op="entered", alive=alive()))
        SIM.on_stop = on_stop
        for s in sc["steps"]:
            live = alive()
            for k, p in enumerate(live):
                SIM.mem[p] = s["mem"][k % len(s["mem"])] * UNIT + s.get("plus", [0])[k % len(s.get("plus", [0]))]
            if s["dead"] and s["dead"] <= len(live):
                proc = next(p for p in SIM.procs if p.pid == live[s["dead"] - 1])
                proc.dead = True if s["how"] == "zombie" else "gone"
            ev.append(dict(op="before", main=SIM.mem[0], table=table()))
            pool.submit(pj.job, "value", 1)
            pool.wait_next(poll_time=0.0)
            ev.append(dict(op="after", alive=alive()))
        SIM.on_stop = None
    raised = ""
    try:
        with pool:
            pass
    except Exception as e:
        raised = type(e).__name__
    ev.append(dict(op="left", raised="", expected="", remaining=[p for p in alive()], slow=False))
    ev.append(dict(op="entry", raised=raised))
    return dict(n=sc["n"], limit=sc["limit"] * UNIT, ev=ev, scenario=str(sc)[:400])


class Expected(Exception):
    pass


def interrupt_reading(at, error):
    """Raise the error after the at-th read from a pipe of this process (once)."""
    import io
    from multiprocessing.connection import Connection
    me, reads = os.getpid(), [0]

    def _recv(self, size, read=os.read):
        buf = io.BytesIO()
        while size > 0:
            chunk = read(self._handle, size)
            if not chunk:
                raise EOFError
            size -= len(chunk)
            buf.write(chunk)
            if os.getpid() == me:
                reads[0] += 1
                if reads[0] == at:
                    raise error()
        return buf
    Connection._recv = _recv


def real(sc):
    import psutil
    import stopit
    vlib.import_gama()
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    AsyncEvaluator.defaults = dict(shared=1)
    ev = []
    me = psutil.Process()

    def workers():
        out = []
        for c in me.children():
            try:
                if c.status() != psutil.STATUS_ZOMBIE:
                    out.append(c.pid)
            except psutil.NoSuchProcess:
                pass
        return sorted(out)

    kw = dict(wait_time_before_forced_shutdown=1)
    if sc["limit"]:
        kw["memory_limit_mb"] = 10 ** 6
    if sc["log"]:
        kw["logfile"] = os.path.abspath("mem.log")
    seen = set()
    raised = ""
    try:
        with AsyncEvaluator(n_workers=sc["n"], **kw) as pool:
            seen |= set(workers())
            ev.append(dict(op="entered", alive=workers()))
            for s in sc["steps"]:
                if s == "work":
                    hs = [pool.submit(pj.job, "value", k) for k in range(sc["n"] + 1)]
                    got = [pool.wait_next(poll_time=0.01) for _ in hs]
                    ev.append(dict(op="returned", ok=sorted(f.result[1] for f in got) == list(range(len(hs)))))
                    ev.append(dict(op="after", alive=workers()))
                elif s in ("die", "dieall"):
                    n = 1 if s == "die" else sc["n"]
                    for _ in range(n):
                        pool.submit(pj.die, 0.25, how=sc["how"])
                    time.sleep(0.25 + 0.5)
                    h = pool.submit(pj.job, "value", 77)
                    f = pool.wait_next(poll_time=0.01)
                    ev.append(dict(op="returned", ok=f is h and f.result == ("value", 77, 1)))
                    ev.append(dict(op="after", alive=workers()))
                seen |= set(workers())
            for _ in range(sc["busy"]):
                pool.submit(pj.stubborn if sc["stubborn"] else pj.slow, 45)
            time.sleep(0.2 if sc["busy"] else 0.0)
            if sc["leave"] == "reading":      # the timeout is raised while a result is being read
                for k in range(sc["n"] + 1):
                    pool.submit(pj.job, "longstr", k)
                interrupt_reading(sc["at"], stopit.TimeoutException)
                for _ in range(sc["n"] + 1):
                    pool.wait_next(poll_time=0.01)
                raise stopit.TimeoutException()
            if sc["leave"] == "error":
                raise Expected()
            if sc["leave"] == "timeout":
                raise stopit.TimeoutException()
            if sc["leave"] == "interrupt":
                raise KeyboardInterrupt()
            t = time.time()
    except BaseException as e:
        if isinstance(e, vlib.Hang):
            raise
        raised = type(e).__name__
        t = time.time() - 5
    remaining = []
    for p in seen:
        try:
            psutil.Process(p).status()
            remaining.append(p)
        except psutil.NoSuchProcess:
            pass
    remaining += [p for p in workers() if p not in remaining]
    ev.append(dict(op="left", raised=raised, remaining=remaining, slow=time.time() - t > 30,
                   expected={"": "", "error": "Expected", "timeout": "TimeoutException", "reading": "TimeoutException", "interrupt": "KeyboardInterrupt"}[sc["leave"]]))
    raised = ""
    try:
        with pool:
            pass
    except Exception as e:
        raised = type(e).__name__
    ev.append(dict(op="entry", raised=raised))
    return dict(n=sc["n"], limit=0, ev=ev, scenario=str(sc)[:400])


def body(ctx):
    rng = ctx.rng("w")
    sims = []
    for n, length in ((1, 3), (2, 2), (3, ctx.pick(1, 2))):
        paths = ctx.model("MC_Workers", consts=dict(N=n, MaxLen=length))
        for p in rng.sample(paths, min(len(paths), ctx.pick(1500, 20000))):
            sims.append(dict(n=n, limit=10, steps=p, log=rng.random() < 0.3))
    for _ in range(ctx.pick(600, 6000)):
        n = rng.choice([rng.randint(1, 6)] * 9 + [rng.randint(9, 16)])
        lv = rng.choice([[1, 2], [1, 3, 6, 12], [1, 1, 1, 1, 1, 9], list(range(1, 13))])
        steps = [dict(mem=[rng.choice(lv) for _ in range(n)], dead=rng.choice([0, 0, rng.randint(1, n)]),
                      how=rng.choice(["zombie", "gone"]), plus=[rng.randint(0, 3) for _ in range(n)] if rng.random() < 0.5 else [0]) for _ in range(rng.randint(3, 60))]
        sims.append(dict(n=n, limit=rng.choice([0, 10, 10, 20]), steps=steps, log=rng.random() < 0.3))
    rng.shuffle(sims)
    ctx.validate("WorkersTrace", ctx.drive(simulated, sims, each_timeout=20, per=1))
    reals = []
    for k, leave in enumerate(["", "error", "timeout", "interrupt"]):
        for n in (1, 2, 3):
            reals.append(dict(n=n, steps=["work"], busy=0, leave=leave, limit=n == 2, log=n == 3))
            reals.append(dict(n=n, steps=["work"] if n == 2 else [], busy=n, leave=leave, limit=0, log=0))
    for n in (1, 2):
        for limit, log in ((0, 0), (1, 0), (0, 1)):
            reals.append(dict(n=n, steps=["die", "work"], busy=0, leave="", limit=limit, log=log))
        reals.append(dict(n=n, steps=["dieall", "work", "die"], busy=1, leave="", limit=0, log=0))
    for at in range(1, ctx.pick(6, 16)):
        for n in ((1,), (2,), (1, 2, 3))[2 if ctx.thorough else at % 2]:
            reals.append(dict(n=n, steps=["work"] if at % 2 else [], busy=at % 3 // 2 if n > 1 else 0, leave="reading", at=at, limit=0, log=0))
    for _ in range(ctx.pick(0, 60)):
        n = rng.randint(1, 4)
        reals.append(dict(n=n, steps=[rng.choice(["work", "die", "dieall"]) for _ in range(rng.randint(0, 3))], busy=rng.randint(0, n + 1),
                          leave=rng.choice(["", "error", "timeout", "interrupt"]), limit=rng.randint(0, 1), log=rng.randint(0, 1)))
    for k, s in enumerate(reals):
        s.update(how="kill" if k % 2 else "exit", stubborn=k % 3 == 0)
    ctx.validate("WorkersTrace", ctx.drive(real, reals, each_timeout=40, nproc=8, fresh=True))


vlib.main("C02", body)
