"""C18: loading a file yields its rows, columns, types and target unchanged."""
import vlib

WORDS = ["red", "green apple", "blue", "x1", "Über", "a;b", "semi, colon", "it's", "long-ish value", "v", "Q 9", "zed", "end.", "mm", "nn2", "#tag", "no #1", " lead", "trail ", "0x1F", "1 2"]


def texts(rng, n, distinct, plain, padded=False):
    pool = [w for w in WORDS if (not plain or not set(w) & set(";,'\"")) and (padded or w == w.strip())]
    pool = rng.sample(pool, min(distinct, len(pool)))
    return [rng.choice(pool) for _ in range(n)]


def make_column(rng, kind, name, n, missing, plain):
    few = rng.choice([2, 3, 9, 10, 11, 12, 14])
    if kind in ("text", "nominal"):
        vals = texts(rng, n, rng.randint(1 if kind == "nominal" else 2, 12), plain, kind == "text")
        if len(set(vals)) < 2 and kind == "text":
            vals[0], vals[1] = WORDS[0], WORDS[2]
    elif kind == "whole":
        base = rng.choice([0, -5, 1000, 2 ** 40])
        vals = [base + (k % few) * rng.choice([1, 3]) for k in range(n)]
        rng.shuffle(vals)
    else:
        vals = [rng.choice([0.5, -1.25, 3.0, 1e-3, 12345.678, 2.5e10, 7.125, 0.1]) + k % rng.choice([1, 4, 40]) for k in range(n)]
        vals[0] = 0.5
    vals = list(vals)
    if missing:
        for k in rng.sample(range(1, n), max(1, n // 6)):
            vals[k] = None
    return dict(name=name, kind=kind, vals=vals)


def cell(v):
    if v is None or v != v:
        return "none"
    return v if isinstance(v, str) else str(float(v))


def write_csv(sc, path, rng):
    import csv
    quoting = {"minimal": csv.QUOTE_MINIMAL, "all": csv.QUOTE_ALL, "nonnumeric": csv.QUOTE_NONNUMERIC}[sc["quoting"]]
    with open(path, "w", newline="") as fh:
        w = csv.writer(fh, delimiter=sc["sep"], quoting=quoting, lineterminator=sc["eol"])
        if sc["header"]:
            w.writerow([c["name"] for c in sc["cols"]])
        for row in zip(*[c["vals"] for c in sc["cols"]]):
            w.writerow(["" if v is None else v if isinstance(v, (str, int)) else repr(v) for v in row])
    if not sc["lasteol"]:
        data = open(path, newline="").read()
        with open(path, "w", newline="") as fh:
            fh.write(data[:-len(sc["eol"])])


def detectable(sc, path):
    """Python's csv module recognises the separator and the header (if not given) of this file."""
    import csv
    text = open(path).read(2 ** 12)
    try:
        return csv.Sniffer().sniff(text).delimiter == sc["sep"] and (sc["explicit"] == "header" or csv.Sniffer().has_header(text) == sc["header"])
    except csv.Error:
        return False


def quoted(s, q, always=False):
    return q + s + q if always or any(c in s for c in " ,;'\"{}%") else s


def write_arff(sc, path, rng):
    up = (lambda s: s.upper()) if sc["upper"] else (lambda s: s)
    gap = sc["gap"]
    decl = []
    with open(path, "w", encoding=sc["encoding"] or "utf8") as fh:
        fh.write("% a comment\n" + up("@relation") + " test\n\n")
        for c in sc["cols"]:
            if c["kind"] == "nominal":
                t = "{" + ", ".join(quoted(v, '"') for v in sorted({v for v in c["vals"] if v is not None} | set(rng.sample(["undeclared", "Never seen"], rng.choice([0, 0, 1, 2]))))) + "}"
            else:
                t = "INTEGER" if c["kind"] == "whole" and rng.random() < 0.5 else rng.choice(["real", "NUMERIC", "numeric", "REAL"])
            decl.append(t)
            fh.write(up("@attribute") + " " + quoted(c["name"], sc["nameq"], sc["quoteall"]) + gap + t + "\n")
            if rng.random() < 0.2:
                fh.write("% in between\n")
        fh.write("\n" + up("@data") + "\n")
        for row in zip(*[c["vals"] for c in sc["cols"]]):
            if rng.random() < 0.05:
                fh.write("% data comment\n")
            fh.write(", ".join("?" if v is None else quoted(v, '"') if isinstance(v, str) else repr(v) for v in row) + "\n")
    return decl


def got(s, name):
    """A loaded column: name, type, cells."""
    import pandas as pd
    import numpy as np
    t = "category" if isinstance(s.dtype, pd.CategoricalDtype) else "number" if isinstance(s.dtype, np.dtype) and s.dtype.kind in "iuf" else str(s.dtype)
    return dict(name=str(name), type=t, cells=[cell(v) for v in s])


def scenario(sc):
    import os
    import random
    import numpy as np
    import gdrive as g
    from gama.data_loading import X_y_from_file, file_to_pandas, load_feature_metadata_from_file
    rng = random.Random(sc["seed"])
    evs = []
    cols = [dict(name=c["name"], kind=c["kind"], cells=[cell(v) for v in c["vals"]]) for c in sc["cols"]]
    path = sc["path"]
    decl = [""] * len(cols)
    kw = {}
    if sc["format"] == "csv":
        write_csv(sc, path, rng)
        if sc["explicit"] != "both" and not detectable(sc, path):
            sc["explicit"] = "both"
        if sc["explicit"] in ("sep", "both"):
            kw["sep"] = sc["sep"]
        if sc["explicit"] in ("header", "both"):
            kw["header"] = 0 if sc["header"] else None
        if not sc["header"]:
            for k, c in enumerate(cols):
                c["name"] = str(k)
    elif sc["format"] == "arff":
        decl = write_arff(sc, path, rng)
        if sc["encoding"]:
            kw["encoding"] = sc["encoding"]
    else:
        with open(path, "w") as fh:
            fh.write("a,b\n1,2\n3,4\n")
        for fn in (X_y_from_file, file_to_pandas, load_feature_metadata_from_file):
            ev = dict(op="reject", raised="")
            try:
                fn(path)
            except Exception as e:
                ev["raised"] = type(e).__name__
            evs.append(ev)
        os.remove(path)
        return dict(ev=evs, scenario=str(sc)[:500])
    target = sc["target"]
    ev = dict(op="load", format=sc["format"], cols=cols, target=target, raised="", x=[], y=dict(name="", type="", cells=[]))
    evs.append(ev)
    try:
        if sc["via"] == "fit":
            box = {}
            base = g.GamaClassifier if sc["seed"] % 2 else g.GamaRegressor

            class Recorded(base):
                def fit(self, x, y, *a, **k):
                    box["xy"] = x, y
                    return self
            gm = Recorded(store="nothing", output_directory=g.new_dir(), verbosity=50, n_jobs=1, search_space=g_space(base is g.GamaClassifier), scoring="accuracy" if base is g.GamaClassifier else "r2")
            gm.fit_from_file(path, target or None, **kw)
            gm.cleanup("all")
            x, y = box["xy"]
        else:
            x, y = X_y_from_file(path, split_column=target or None, **kw)
        ev["x"] = [got(x.iloc[:, k], c) for k, c in enumerate(x.columns)]
        ev["y"] = got(y, y.name)
    except Exception as e:
        ev["raised"] = type(e).__name__ + ": " + str(e)[:100]
    ev = dict(op="whole", format=sc["format"], cols=cols, raised="", x=[])
    evs.append(ev)
    try:
        df = file_to_pandas(path, **kw)
        ev["x"] = [got(df.iloc[:, k], c) for k, c in enumerate(df.columns)]
    except Exception as e:
        ev["raised"] = type(e).__name__ + ": " + str(e)[:100]
    if not sc["explicit"] and sc["encoding"] != "latin-1":
        ev = dict(op="meta", cols=cols, declared=decl, raised="", names=[], types=[])
        evs.append(ev)
        try:
            meta = load_feature_metadata_from_file(path)
            ev["names"] = [str(k) for k in meta]
            ev["types"] = [str(v).strip() for v in meta.values()]
        except Exception as e:
            ev["raised"] = type(e).__name__ + ": " + str(e)[:100]
    os.remove(path)
    return dict(ev=evs, scenario=str(sc)[:700])


def g_space(clf):
    import recest
    return {recest.LookClassifier if clf else recest.LookRegressor: {"salt": [1]}}


def arrays(sc):
    """Arrays given to fit: the inferred types."""
    import numpy as np
    from gama.data_formatting import format_x_y
    cols = [dict(name=str(k), kind=c["kind"], cells=[cell(v) for v in c["vals"]]) for k, c in enumerate(sc["cols"])]
    dtype = object if any(c["kind"] == "text" for c in cols) else sc["dtype"]
    a = np.array([[np.nan if v is None and dtype is not object else v for v in c["vals"]] for c in sc["cols"]], dtype=dtype).T
    ev = dict(op="whole", format="array", cols=cols, raised="", x=[])
    try:
        x, y = format_x_y(a, np.arange(len(a)) % 2)
        ev["x"] = [got(x.iloc[:, k], c) for k, c in enumerate(x.columns)]
    except Exception as e:
        ev["raised"] = type(e).__name__ + ": " + str(e)[:100]
    return dict(ev=[ev], scenario=str(sc)[:500])


def make_late(rng, kind, name, n):
    """A long column whose nature only shows late."""
    at = rng.choice([n - 1, n - 2, rng.randint(n // 2, n - 1), rng.randint(0, n - 1)])
    few = rng.choice([2, 5, 9, 10])
    if kind in ("text", "nominal"):
        vals = texts(rng, n, rng.randint(2, 4), True)
        vals[:2] = [WORDS[0], WORDS[2]]
        vals[at] = rng.choice(["late one", "nn2"])
    elif kind == "whole":
        vals = [(k * 7) % few for k in range(n)]
        if rng.random() < 0.6:
            for j, k in enumerate(sorted({at, n - 1, n - 2, n // 2 + 1, n // 2 + 7, n // 3, n // 4})[:rng.randint(1, 7)]):
                vals[k] = 100 + j
    else:
        vals = [float(k % few) for k in range(n)]
        vals[at] = rng.choice([0.5, 1.25, few - 0.5])
    if rng.random() < 0.3:
        k = rng.choice([n - 1, n // 2, n - 3])
        if k != at:
            vals[k] = None
    return dict(name=name, kind=kind, vals=vals)


def run_one(sc):
    return arrays(sc) if sc["format"] == "array" else scenario(sc)


NAMES = ["alpha", "beta", "gamma col", "delta", "epsilon", "Zeta", "eta_1", "th.eta", "iota%", "kappa", "é"]
ALIKE = ["alpha", "Alpha", "alpha2", "alpha_1", "alp", "xalpha", "ALPHA", "alphab", "alpha.5", "a"]


def build(rng, kinds, fmt, target):
    n = rng.randint(14, 40)
    # without declared separators the sniffing needs plain texts
    explicit = rng.choice(["", "", "sep", "header", "both"]) if fmt == "csv" else ""
    sniffed = fmt == "csv" and explicit != "both"
    names = rng.sample([x for x in (ALIKE if rng.random() < 0.3 else NAMES) if not sniffed or not set(x) & set(" %")], len(kinds))
    cols = [make_column(rng, k, nm, n, rng.random() < 0.3 and (not sniffed or j > 1), sniffed)
            for j, (k, nm) in enumerate(zip(kinds, names))]
    sc = dict(format=fmt, cols=cols, explicit=explicit, sep=rng.choice([",", ";", "\t"] + (["|", ":"] if explicit == "both" else [])), header=True, quoting=rng.choice(["minimal", "minimal", "all", "nonnumeric"]),
              eol=rng.choice(["\n", "\r\n"]), lasteol=rng.random() < 0.7, upper=rng.random() < 0.4, gap=rng.choice([" ", " ", "  ", "\t"]), nameq=rng.choice(['"', "'"]),
              quoteall=rng.random() < 0.3, encoding=rng.choice([None, None, "utf8", "latin-1"]), via=rng.choice(["plain", "plain", "fit"]), seed=rng.randint(0, 10 ** 6),
              path="f%d.%s" % (rng.randint(0, 10 ** 9), rng.choice([fmt, fmt, fmt.upper()])))
    if explicit in ("both", "header") and rng.random() < 0.3:
        sc["header"] = False
        target = "" if target in names or target == "" else target
    sc["target"] = target if target in ("", "zz") else names[target]
    return sc


def body(ctx):
    rng = ctx.rng("files")
    scs = []
    paths = [p[0] for p in ctx.model("MC_Files", maximal=False)]
    for p in rng.sample(paths, min(len(paths), ctx.pick(900, 6000))):
        kinds = list(p["kinds"])
        t = p["target"]
        t = t if t in ("", "zz") else "abcde".index(t)
        if p["format"] == "csv":        # numbers decide where a header is
            kinds = kinds + ["real", "whole"] if t == "" else ["real", "whole"] + kinds
            t = t + 2 if isinstance(t, int) else t
        scs.append(build(rng, kinds, p["format"], t))
    for s in scs:
        if s["header"] is False:
            s["target"] = "zz" if s["target"] == "zz" else ""
    for k in range(ctx.pick(20, 60)):
        scs.append(dict(format="other", cols=[], path="f%d.%s" % (k, ["txt", "csv.gz", "tsv", "arff2", "xcsvx", "data"][k % 6]), seed=k))
    for _ in range(ctx.pick(150, 2000)):
        kinds = [rng.choice(["whole", "real", "whole", "text"]) for _ in range(rng.randint(1, 5))]
        n = rng.randint(14, 40)
        dtype = rng.choice(["float64", "float64", "float32"] if "real" in kinds else ["int64", "float64", "int32", "uint16"])
        cols = [make_column(rng, k, str(j), n, rng.random() < 0.3 and dtype.startswith("float"), False) for j, k in enumerate(kinds)]
        for c in cols:
            if c["kind"] == "whole":
                c["vals"] = [None if v is None else abs(v) % 5000 for v in c["vals"]]
            if c["kind"] == "real":
                c["vals"] = [None if v is None else (v * 8 // 1) % 4096 / 8 for v in c["vals"]]
                c["vals"][0] = 0.5
        scs.append(dict(format="array", cols=cols, dtype=dtype, seed=0))
    # long tables
    for k in range(ctx.pick(36, 150)):
        n = rng.choice([1100, 1500, 2100, 2600] + ([5200] if ctx.thorough or k % 6 == 0 else []))
        fmt = ["csv", "array", "csv", "arff"][k % 4]
        kinds = [rng.choice(["whole", "real", "nominal" if fmt == "arff" else "text"]) for _ in range(2)] + ["real", "whole"]
        if k % 12 < 2:
            n, kinds[0] = 12000, "whole"
        sc = build(rng, kinds[:3], fmt, "")
        if fmt == "array":
            kinds = [rng.choice(["whole", "real"]) for _ in range(3)]
        sc["cols"] = [make_late(rng, kd, c["name"], n) for kd, c in zip(kinds, sc["cols"])]
        if fmt == "csv":
            sc["header"] = True
        sc["dtype"] = rng.choice(["float64", "float32"])
        sc["target"] = ""
        scs.append(sc)
    ctx.validate("FilesTrace", ctx.drive(run_one, scs, each_timeout=30))


vlib.main("C18", body)
