"""C22: same seed and one job: same search."""
import json
import os
import subprocess
import sys
from simrepeat import simulated
import vlib


def paired(a, b, scenario):
    n = min(len(a["evals"]), len(b["evals"]))
    ev = [dict(op="eval", a=p, b=q) for p, q in zip(a["evals"][:n], b["evals"][:n])]
    ev.append(dict(op="end", a=a["end"], b=b["end"]))
    return dict(ev=ev, scenario=scenario)


def schedules(sc):
    return paired(simulated(sc, sc["word"]), simulated(sc, ""), str(sc)[:400])


def fresh(sc):
    """Two processes with different hash seeds, one of them at another pace."""
    program = "simrepeat.py" if sc["kind"] == "scripted" else "repeat_run.py"
    outs = []
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ps = []
    for k, (hs, jitter) in enumerate(((sc["hash"], False), (sc["hash"] + 17, True))):
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        arg = dict(sc, jitter=jitter, noise=k * 3, word=sc["word"] if k else "", tag="%d_%d" % (sc["k"], k))
        ps.append(subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(here, "harness", program), json.dumps(arg)], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, text=True))
    for p in ps:
        try:
            text = p.communicate(timeout=150)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            text = ""
        line = next((x for x in text.splitlines() if x.startswith("RESULT ")), None)
        outs.append(json.loads(line[7:]) if line else dict(evals=[], end=dict(n=0, raised="no result (%s)" % p.returncode, output=[], model="", predictions=[])))
    return paired(outs[0], outs[1], str(sc)[:400])


def body(ctx):
    rng = ctx.rng("repeat")
    words = [p[0] for p in ctx.model("MC_Repeat", maximal=False)]
    scs = []
    for _ in range(ctx.pick(150, 1500)):
        method = rng.choice(["ea", "random", "asha"])
        scs.append(dict(method=method, space="small", word=rng.choice(words), pop=rng.randint(2, 8), n=rng.randint(10, 40), starts=rng.randint(3, 10), seed=rng.randint(0, 10 ** 6), noise=rng.randint(0, 5),
                        short=rng.random() < 0.5))
    fr = []
    for k in range(ctx.pick(18, 120)):
        method = ["ea", "random", "asha"][k % 3]
        task = "reg" if k // 3 % 2 else "clf"
        fr.append(dict(kind="real", word="", k=k, method=method, task=task, pop=rng.randint(4, 10), n=rng.randint(14, 24), seed=[0, rng.randint(0, 10 ** 6), rng.randint(0, 99), 2 ** 32 - 1][k % 4], hash=rng.randint(1, 10 ** 6), post=rng.choice(["best", "ens"]),
                       hill=rng.choice([0, 60]), store=rng.choice(["nothing", "logs", "all"]), short=rng.random() < 0.5,
                       metric=rng.choice(["neg_mean_squared_error", "r2"] if task == "reg" else ["neg_log_loss", "accuracy"])))
    # scripted results allow for long searches over the shipped space
    for k in range(ctx.pick(15, 120)):
        fr.append(dict(kind="scripted", k=1000 + k, method=["ea", "ea", "asha", "ea", "random"][k % 5], space="shipped", word=rng.choice(words), pop=rng.randint(4, 20), n=rng.randint(150, 300), starts=rng.randint(5, 20),
                       seed=rng.randint(0, 10 ** 6), hash=rng.randint(1, 10 ** 6), short=rng.random() < 0.5))
    runs = ctx.drive(schedules, scs, each_timeout=60)
    runs += ctx.drive(fresh, fr, each_timeout=200, nproc=5, fresh=True)
    ctx.validate("RepeatTrace", runs)


vlib.main("C22", body)
