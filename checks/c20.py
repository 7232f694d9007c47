"""C20: individuals and evaluation logs can be read back without loss."""
import vlib

ERRORS = ["failed", "<class 'ValueError'> Error:  two  blanks\n\n\tand  an error at the end. ", " MemoryError ", "ERROR, error; None", "nan", "None ", "", "two\nlines", "a;b;c", 'say "no"', "';--", "tab\there", "Traceback (most recent call last):\n  File \"x.py\", line 1\n    raise E('a;b')\nE: a;b\n",
          "carriage\rreturn", "both\r\nends", "é ü 漢字 🙂", "  spaces  ", "x" * 9000, 'quote"only', '"', "\n", "\\n \\", "#comment", "nan", "None", "1,2,3", "=1+1", "a\n;\"\n;b", "NaN;inf"]


def space(which):
    from gama.configuration.classification import clf_config
    from gama.configuration.regression import reg_config
    from sklearn.naive_bayes import BernoulliNB, GaussianNB
    from sklearn.preprocessing import Binarizer
    import numpy as np
    tiny = {"alpha": [1e-3, 0.1, 1.0, 1, None], BernoulliNB: {"alpha": [], "fit_prior": [True, False, "True", None]}, GaussianNB: {},
            Binarizer: {"threshold": np.arange(0.0, 1.01, 0.25)}}
    # names and values that contain the marks of the text form
    class Metadata(GaussianNB):
        def __init__(self, data=None, data_source=None, priors=None):
            self.data, self.data_source, self.priors = data, data_source, priors

    class databinner(Binarizer):
        def __init__(self, threshold=0.0, source=None):
            self.threshold, self.source = threshold, source
    # many hyperparameters
    class Wide(GaussianNB):
        def __init__(self, s00=None, s01=None, s02=None, s03=None, s04=None, s05=None, s06=None, s07=None, s08=None, s09=None, s10=None, s11=None, s12=None, s13=None, s14=None, s15=None, s16=None, s17=None, s18=None, s19=None, s20=None, s21=None, s22=None, s23=None):
            pass
    odd = {"data_source": ["data", "Data", "the data", "The data", "a=b", "x, y", "", "data, ", None], Metadata: {"data_source": [], "data": ["data", 1, "=", [1, 2], {"a": 1, "b": [2, 3]}],
                                                                                            "priors": [None, [0.5, 0.5], 1e-30, -3, float("inf"), "prior's"]},
           databinner: {"threshold": [0.5, -1.5, 0.5000001, "data", "DATA", "q, r"], "source": ["data", "a=b=c", "[1, 2]", "y , z"]}}
    wide = {"s%02d" % k: [k, k + 100] for k in range(0, 24, 5)}
    wide[Wide] = {"s%02d" % k: [] if k % 5 == 0 else [k, k / 7, None] for k in range(24)}
    wide[Binarizer] = {"threshold": [0.5, 1]}
    return dict(clf=clf_config, reg=reg_config, tiny=tiny, odd=odd, wide=wide)[which]


def ienc(ind):
    from gdrive import enc_ind
    import json
    return json.dumps(enc_ind(ind))


def text(sc):
    import random
    import gdrive as g
    import numpy as np
    from gama.configuration.parser import pset_from_config
    from gama.genetic_programming.operations import create_random_expression
    from gama.genetic_programming.mutation import random_valid_mutation_in_place
    random.seed(sc["seed"])
    pset, _ = pset_from_config(space(sc["space"]))
    evs = []
    for cut in sc["cuts"]:
        ind = g.Individual(create_random_expression(pset, max_length=cut["len"]), None)
        if random.random() < 0.4:
            random_valid_mutation_in_place(ind, pset, max_length=None)
        s = ind.pipeline_str()
        ev = dict(op="text", ind=ienc(ind), text=s, back="", text2="", raised="")
        try:
            b = g.Individual.from_string(s, pset, strict=random.random() < 0.7)
            ev.update(back=ienc(b), text2=b.pipeline_str())
        except Exception as e:
            ev["raised"] = type(e).__name__ + str(e)[:60]
        evs.append(ev)
        bad = []
        marks = [k for k, c in enumerate(s) if c in "(),="] + [len(s)]
        bad.append(s[:marks[min(cut["cut"], len(marks) - 1)]])
        bad.append(s[:random.randrange(len(s))])
        ops = [n._primitive.identifier.__name__ for n in ind.primitives]
        k = random.randrange(len(ops))
        bad.append(s.replace(ops[k] + "(", "No" + ops[k] + "(", 1))
        bad.append(s.replace(ops[k] + "(", ops[k].swapcase() + "(", 1))
        terms = [t for n in ind.primitives for t in n._terminals]
        if terms:
            t = repr(random.choice(terms))
            bad.append(s.replace(", " + t, "", 1))
            bad.append(s.replace(t, t.split("=")[0] + "=" + random.choice(["-17.25", "'nowhere'", ""]), 1))
            bad.append(s.replace(t, t.split("=", 1)[0] + "x=" + t.split("=", 1)[1], 1))
        for bs in bad:
            if bs == s:
                continue
            ev = dict(op="bad", text=bs, raised="")
            try:
                g.Individual.from_string(bs, pset)
            except Exception as e:
                ev["raised"] = type(e).__name__
            evs.append(ev)
    return dict(ev=evs, scenario=str(sc)[:300])


def read_log(path, sep=";"):
    import csv
    csv.field_size_limit(10 ** 7)
    with open(path, newline="") as fh:
        rows = list(csv.reader(fh, delimiter=sep))
    return rows[0], rows[1:]


def read_pandas(path, sep=";"):
    import pandas as pd
    df = pd.read_csv(path, sep=sep, dtype=str, keep_default_na=False)
    return list(df.columns), [[str(v) for v in row] for row in df.itertuples(index=False)]


def evaluation(g, ind, k, ok, err, rnd, reg):
    import datetime
    from gama.genetic_programming.components import Fitness
    score = rnd.choice([k / 8, -k / 16, 1e-17 * k, -123456.789 * k]) if ok else float("-inf")
    values = (score, -len(list(ind.primitives))) if reg else (score,)
    start = datetime.datetime(2020, 1, 27, 23, 50) + datetime.timedelta(minutes=rnd.choice([k % 20, rnd.randrange(20)]), seconds=rnd.choice([0, 7, 59]), microseconds=rnd.choice([0, 1, 999999]))
    dur = rnd.choice([0.0, 1.5, 123.456, 0.000001, 61.25])
    ind.fitness = Fitness(values, start, dur, dur / 2)
    e = g.Evaluation(ind, predictions=[1], score=values, estimators=[1], error=None if ok else err, start_time=start, duration=dur, pid=100 + k)
    fields = [str(ind._id), str(100 + k), start.strftime("%Y-%m-%d %H:%M:%S,%f"), str(dur), str(dur / 2), str(values), ind.pipeline_str(), str(e.error)]
    us = int((start - datetime.datetime(2020, 1, 27, 23, 50)) / datetime.timedelta(microseconds=1))
    return e, fields, [str(float(v)) for v in values], dict(start=us, dur=round(dur * 1e6), ok=ok)


def logs(sc):
    import datetime
    import random
    import gdrive as g
    from gama.logging.GamaReport import GamaReport
    from gama.logging.evaluation_logger import EvaluationLogger
    rnd = random.Random(sc["seed"])
    random.seed(sc["seed"])
    evs = []
    d = g.new_dir()
    extra = {}

    def run(search, ops, start):
        reports, want, pipes, times = {}, [], [], []
        names = ["id", "pid", "t_start", "t_wallclock", "t_process", "score", "pipeline", "error"]
        other = None
        if sc["other"]:
            other = EvaluationLogger("other.csv", separator=sc["sep"], fields=None if sc["other"] == "extra" else dict(error=lambda e: e.error, who=lambda e: e.individual._id),
                                     extra_fields=dict(note=lambda e: "n;%s\n" % e.pid))
        mine = []

        def check(r, e):
            ev = dict(op="report", raised="", ids=[], scores=[], expected=[list(w) for w in want], pipes=[], wantpipes=list(pipes), r=r,
                      times=list(times), ranks=[], bests=[], numbers=[], ends=[], durations=[], fine=[])
            rank = [{v: n + 1 for n, v in enumerate(sorted({float(w[m]) for w in want}))} for m in range(2 if sc["reg"] else 1)]
            ev["ranks"] = [[rank[m][float(v)] for m, v in enumerate(w)] for w in want]
            evs.append(ev)
            try:
                if e == "open":
                    reports[r] = GamaReport(d)
                else:
                    reports[r].update()
                df = reports[r].evaluations
                if len(df):
                    ev["ids"] = [str(v) for v in df.id]
                    ev["scores"] = [[str(float(v)) for v in row] for row in df[reports[r].metrics].values]
                    ev["pipes"] = [ienc(reports[r].individuals[i]) for i in df.id]
                    ev["numbers"] = [int(v) for v in df.n]
                    ev["bests"] = [[rank[m].get(float(v), 0) for m, v in enumerate(row)] for row in df[[m + "_cummax" for m in reports[r].metrics]].values]
                    ev["ends"] = [round(float(v) * 1e6) for v in df.relative_end]
                    ev["durations"] = [round(v.total_seconds() * 1e6) for v in df.duration]
                    ev["fine"] = [str(v) for v in reports[r].successful_evaluations.id]
            except Exception as x:
                ev["raised"] = type(x).__name__ + ": " + str(x)[:100]

        def check_file(path, sep, fields, pandas):
            ev = dict(op="file", raised="", header=[], rows=[], fields=fields)
            try:
                ev["header"], ev["rows"] = (read_pandas if pandas else read_log)(path, sep)
            except Exception as x:
                ev["raised"] = type(x).__name__ + ": " + str(x)[:100]
            return ev
        for k, s in enumerate(sc["steps"]):
            if s["op"] == "eval":
                ind = ops.individual() if rnd.random() < 0.5 or k >= len(start) else start[k]
                e, fields, score, when = evaluation(g, ind, k + 1, s["ok"], rnd.choice(ERRORS), rnd, sc["reg"])
                ops.wait_next(g.Feed(g.Done(e)))
                if other:
                    other.log_evaluation(e)
                    note = "n;%s\n" % e.pid
                    mine.append(fields + [note] if sc["other"] == "extra" else [str(e.error), str(ind._id), note])
                evs.append(dict(op="line", fields=fields))
                want.append(score)
                pipes.append(ienc(ind))
                times.append(when)
            else:
                check(s["r"], s["op"])
        import os
        evs.append(check_file(os.path.join(d, "evaluations.log"), ";", names, rnd.random() < 0.5))
        if other:
            extra["ev"] = [dict(op="line", fields=m) for m in mine] + [check_file("other.csv", sc["sep"], names + ["note"] if sc["other"] == "extra" else ["error", "who", "note"], False)]
        best = ops.individual()
        best.fitness = g.Fitness((1.0, 1), 0, 0, 0)
        search.output = [best]
    cls = g.GamaRegressor if sc["regression"] else g.GamaClassifier
    gm = cls(search=g.ScriptSearch(run), post_processing=g.NoPost(), n_jobs=1, max_total_time=600, store="all", verbosity=50, output_directory=d,
             scoring="r2" if sc["regression"] else "accuracy", regularize_length=sc["reg"])
    x, y = g.toy_data(regression=sc["regression"])
    import os
    if os.path.exists("other.csv"):
        os.remove("other.csv")
    began = datetime.datetime.now()
    gm.fit(x, y)
    ev = dict(op="ended", raised="", phases=[], algorithms=["ScriptSearch", "NoPost"], incomplete=True, again=True, lasting=True, rows=0)
    evs.append(ev)
    try:
        rep = GamaReport(d)
        ev["phases"] = [[str(ph[0]), str(ph[1])] for ph in rep.phases]
        ev["lasting"] = all(0 <= ph[3] < 3600 and abs((ph[2] - began).total_seconds()) < 3600 for ph in rep.phases)
        ev["incomplete"] = bool(rep.incomplete)
        ev["again"] = bool(rep.update())
        ev["rows"] = len(rep.evaluations)
    except Exception as e:
        ev["raised"] = type(e).__name__ + ": " + str(e)[:100]
    out = [dict(ev=evs, scenario=str(sc)[:500])]
    if extra:
        out.append(dict(ev=extra["ev"], scenario="own log " + str(sc)[:500]))
    return out


def scenario(sc):
    return text(sc) if sc["what"] == "text" else logs(sc)


def body(ctx):
    rng = ctx.rng("records")
    scs = []
    cuts = [p[0] for p in ctx.model("MC_Records", maximal=False)]
    for k in range(ctx.pick(240, 4000)):
        scs.append(dict(what="text", space=["clf", "reg", "tiny", "odd", "wide"][k % 5], cuts=[rng.choice(cuts) for _ in range(30)], seed=rng.randint(0, 10 ** 6)))
    paths = ctx.model("MC_RecordLog")
    for p in rng.sample(paths, min(len(paths), ctx.pick(300, 5000))):
        if rng.random() < 0.3:
            p = p + [dict(op="eval", ok=rng.random() < 0.5, r=0) for _ in range(rng.randint(1, 60))] + [dict(op="open", ok=True, r=9)]
        scs.append(dict(what="log", steps=p, regression=rng.random() < 0.4, reg=rng.random() < 0.5, seed=rng.randint(0, 10 ** 6),
                        other=rng.choice(["", "extra", "own"]), sep=rng.choice([";", ",", "\t", "|"])))
    ctx.validate("RecordsTrace", ctx.drive(scenario, scs, each_timeout=60))


vlib.main("C20", body)
