"""Shared machinery: run TLC, drive the real code, validate traces, write evidence.

A check (checks/cNN.py) uses three steps:
  1. ctx.model("MC_X")        TLC explores the bounded specification exhaustively, checks
                              its invariants and emits the explored paths (as JSON).
  2. ctx.drive(fn, scenarios) executes scenarios (paths of the model, and seeded random
                              ones) against the code in /repo, recording events only.
  3. ctx.validate("TraceX", runs)  TLC replays the recorded events through the same
                              operators of the specification and names every failing clause.
"""
import hashlib, json, multiprocessing, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class MachineryError(Exception):
    """The check itself failed (exit 2); never used for what the code under test does."""


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self.states = self.transitions = 0
        self.runs_validated = 0
        self.events_validated = 0
        self.samples = []
        self.details = {}
        self.violations = []  # (clause list, run dict, index)
        self.exhaustive = True
        self.assumptions = []
        self.unfinished = False
        self._n = 0

    def rng(self, name=""):
        h = hashlib.sha256(f"{self.seed}:{self.prop}:{name}".encode()).hexdigest()
        return random.Random(int(h[:15], 16))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg_text, env=None, workers=1, timeout=600, xmx="3g", extra=()):
        self._n += 1
        d = os.path.join(self.scratch, f"tlc{self._n}_{module}")
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as fh:
            fh.write(cfg_text)
        out = os.path.join(d, "out.txt")
        cmd = ["java", f"-Xmx{xmx}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=1",
               "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={d}", "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers),
               "-deadlock", "-metadir", os.path.join(d, "meta"), "-config", module + ".cfg",
               *extra, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        with open(out, "w") as fh:
            p = subprocess.Popen(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, env=e)
        return p, out, d, timeout

    def _tlc_wait(self, h):
        p, out, d, timeout = h
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise MachineryError(f"TLC timeout in {d}")
        return rc, open(out, errors="replace").read()

    def cfg(self, module, consts=None):
        """Configuration spec/<module>.<tier>.cfg, or spec/<module>.cfg, with overrides."""
        for name in (f"{module}.{self.tier}.cfg", f"{module}.cfg"):
            p = os.path.join(SPEC, name)
            if os.path.exists(p):
                text = open(p).read()
                break
        else:
            raise MachineryError(f"no configuration for {module}")
        for k, v in (consts or {}).items():
            text, n = re.subn(rf"(?m)^(\s*(?:CONSTANTS?\s+)?{k}\s*=).*$", rf"\g<1> {v}", text)
            if n != 1:
                raise MachineryError(f"constant {k} not in configuration of {module}")
        return text

    def model(self, module, consts=None, workers=1, timeout=600, emit=True, maximal=True, xmx="4g"):
        """Exhaustively check MC module; return the emitted paths (lists of JSON values)."""
        h = self._tlc(module, self.cfg(module, consts), workers=workers, timeout=timeout, xmx=xmx)
        rc, text = self._tlc_wait(h)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if rc != 0 or not m or "Model checking completed. No error" not in text:
            raise MachineryError(f"model {module} failed (rc={rc}):\n{text[-3000:]}")
        gen, dist = map(int, m[-1])
        self.states += dist
        self.transitions += gen
        paths = []
        if emit:
            seen = set()
            for line in text.splitlines():
                if line.startswith('"PATH '):
                    s = json.loads(line)[5:]
                    if s not in seen:
                        seen.add(s)
                        paths.append(json.loads(s))
            if maximal:
                keys = [tuple(json.dumps(e, sort_keys=True) for e in p) for p in paths]
                prefixes = set()
                for k in keys:
                    for i in range(len(k)):
                        prefixes.add(k[:i])
                paths = [p for p, k in zip(paths, keys) if k not in prefixes]
        self.details.setdefault("models", []).append(
            dict(module=module, distinct_states=dist, states_generated=gen, paths=len(paths)))
        self.log(f"model {module}: {dist} states, {gen} generated, {len(paths)} paths")
        shutil.rmtree(h[2], ignore_errors=True)
        return paths

    # ------------------------------------------------------------- validation
    def validate(self, module, runs, chunk=None, timeout=600, env=None):
        """Check every run (dict with "ev": list of events) with Trace module."""
        if not runs:
            raise MachineryError(f"{module}: nothing to validate")
        for k, r in enumerate(runs):
            r["rid"] = k + 1
        njvm = min(6, max(1, len(runs) // 40)) if chunk is None else max(1, len(runs) // chunk)
        groups = [runs[i::njvm] for i in range(njvm)]
        cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
        handles = []
        for g in groups:
            self._n += 1
            tf = os.path.join(self.scratch, f"trace{self._n}.ndjson")
            with open(tf, "w") as fh:
                for q, r in enumerate(g):
                    r["idx"] = q + 1
                    fh.write(json.dumps(r) + "\n")
            handles.append((g, tf, self._tlc(module, cfg, env={"TRACE": tf, **(env or {})},
                                             workers=1, timeout=timeout)))
        bad = []
        for g, tf, h in handles:
            rc, text = self._tlc_wait(h)
            done, viol = set(), {}
            for line in text.splitlines():
                if line.startswith('"DONE '):
                    done.add(int(json.loads(line)[5:]))
                elif line.startswith('"VIOL '):
                    v = json.loads(json.loads(line)[5:])
                    viol[v["rid"]] = (v["i"], sorted(v["f"]))
            missing = [r for r in g if r["rid"] not in done and r["rid"] not in viol]
            if missing and not viol:
                if "Error:" not in text or "initial state" not in text or "Parsing or semantic analysis failed" in text:
                    keep = [l for l in text.splitlines() if not l.startswith('"DONE')]
                    raise MachineryError(f"{module}: no verdict for {[r['rid'] for r in missing][:9]}:\n" + "\n".join(keep)[-3000:])
                m = re.findall(r"/\\ r = (\d+)", text)
                r = g[int(m[-1]) - 1] if m else missing[0]
                mi = re.findall(r"/\\ i = (\d+)", text)
                err = text.split("Error:")[1][:600].strip().replace("\n", " ")
                if "Could not parse" in err or "ndJson" in err or "OutOfMemory" in text or "StackOverflow" in text:
                    raise MachineryError(f"{module}:\n{text[-3000:]}")
                viol[r["rid"]] = (int(mi[-1]) if mi else 0, ["not explainable by the specification: " + err])
            byid = {r["rid"]: r for r in g}
            for rid, (i, cl) in viol.items():
                bad.append((cl, byid[rid], i, module))
            self.runs_validated += len(done) + len(viol)
            self.events_validated += sum(len(r["ev"]) for r in g if r["rid"] in done)
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
            if m:
                self.transitions += int(m[-1][0])
                self.states += int(m[-1][1])
            shutil.rmtree(h[2], ignore_errors=True)
        self.violations += bad
        self.samples += [dict(module=module, run=_short(r)) for r in runs[:1]]
        self.log(f"validate {module}: {len(runs)} runs, "
                 f"{sum(len(r['ev']) for r in runs)} events, {len(bad)} rejected")
        return bad

    # ----------------------------------------------------------------- driving
    def drive(self, fn, scenarios, each_timeout=30, nproc=None, total_timeout=None, fresh=False, per=4):
        """Run fn(scenario) -> run dict (or list of them) in parallel processes.

        A scenario that hangs or kills its process yields {"ev":[{"op":"hang"|"crash"}]}
        merged into the scenario's "on_fail" record if it has one."""
        scenarios = list(scenarios)
        nproc = min(nproc or NPROC, max(1, len(scenarios)))
        size = 1 if fresh else max(1, min(200, len(scenarios) // (nproc * per) or 1))
        chunks = [(k, scenarios[k:k + size]) for k in range(0, len(scenarios), size)]
        results = {}
        ctx = multiprocessing.get_context("fork")
        pending = list(reversed(chunks))
        active = {}
        deadline = time.time() + (total_timeout or (300 if self.tier == "quick" else 3600))
        if self.tier == "quick":
            deadline = min(deadline, self.t0 + 650)
        nbad = 0

        def spawn(k, items):
            rf = os.path.join(self.scratch, f"drv_{k}_{random.random()}.jsonl")
            p = ctx.Process(target=_drive_child, args=(fn, items, rf, each_timeout, self.scratch))
            p.start()
            active[p.pid] = [p, k, items, rf, 0, time.time()]

        while pending or active:
            if pending and time.time() >= deadline:   # judge what there is
                self.unfinished = True
                pending.clear()
            while pending and len(active) < nproc:
                spawn(*pending.pop())
            time.sleep(0.01)
            for pid in list(active):
                p, k, items, rf, size, since = active[pid]
                if p.is_alive():
                    now = os.path.getsize(rf) if os.path.exists(rf) else 0
                    if now != size:
                        active[pid][4:] = [now, time.time()]
                        continue
                    # a hang that its own alarm does not end (e.g. the code swallows it)
                    if time.time() <= since + each_timeout + 20 and time.time() < deadline:
                        continue
                    _kill_tree(p.pid)
                    p.join()
                p.join()
                del active[pid]
                lines = open(rf).read().splitlines() if os.path.exists(rf) else []
                got = []
                for l in lines:
                    try:
                        got.append(json.loads(l))
                    except ValueError:
                        break
                for j, g in enumerate(got):
                    if "machinery" in g:
                        for q in list(active):
                            _kill_tree(q)
                        raise MachineryError(g["machinery"])
                    results[k + j] = g["runs"]
                nbad += sum(1 for g in got for x in g["runs"] if x["ev"] and x["ev"][0].get("op") in ("hang", "crash"))
                if nbad >= 3:   # enough to judge; do not wait for the same outcome again and again
                    pending.clear()
                if len(got) < len(items):
                    if time.time() >= deadline:
                        self.unfinished = True
                        continue
                    done = len(got)
                    last = got[-1]["runs"][0]["ev"] if got else []
                    if not (last and last[0].get("op") == "hang"):
                        results[k + done] = [_fail_run(items[done], "crash")]
                        nbad += 1
                        done += 1
                    rest = items[done:]
                    if rest and nbad < 3:
                        pending.append((k + done, rest))
        runs = []
        for k in sorted(results):
            runs += results[k]
        self.log(f"drive {fn.__name__}: {len(scenarios)} scenarios, {len(runs)} runs")
        return runs

    # ------------------------------------------------------------------ result
    def finish(self, level="model_checking", extra=None):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.runs_validated,
                   events_validated=self.events_validated,
                   samples=self.samples[:6] or ["none"], **self.details)
        cov.update(extra or {})
        known = _known_findings(self.prop)
        new = []
        for v in self.violations:
            k = next((f for f in known if _matches(f, v)), None)
            if k:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
            else:
                new.append(v)
        if self.unfinished:
            cov["stopped_early"] = "out of time: the scenarios not run are not counted above"
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new),
                  assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            rp = os.path.join(VERIF, "evidence", f"{self.prop}.replay.json")
            with open(rp, "w") as fh:
                json.dump([dict(clauses=c, event_index=i, trace_module=m, run=r) for c, r, i, m in new[:20]],
                          fh, indent=1)
            for c, r, i, m in new[:5]:
                print(f"  rejected by {m} at event {i}: {'; '.join(c)}")
                evs = r["ev"]
                if r.get("error"):
                    print("   error:", r["error"].strip().splitlines()[-1][:300])
                if 1 <= i <= len(evs):
                    print("   event:", json.dumps(evs[i - 1])[:600])
                print("   scenario:", json.dumps({k: v for k, v in r.items() if k != "ev"})[:600])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"OK {self.prop}: {self.runs_validated} runs validated, {self.states} states")
        return 0


def _short(r):
    s = json.dumps(r)
    return r if len(s) < 3000 else s[:3000] + "..."



def _known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop]


def _matches(f, v):
    clauses, run, i, module = v
    blob = json.dumps(run)
    return sorted(f["clauses"]) == sorted(clauses) and all(s in blob for s in f.get("match", ["\0"]))


def _kill_children(root=None):
    """End every process below this one (worker processes a scenario left behind)."""
    root = root or os.getpid()
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                ppid = int(open(f"/proc/{d}/stat").read().rsplit(")", 1)[1].split()[1])
                kids.setdefault(ppid, []).append(int(d))
            except (OSError, ValueError, IndexError):
                pass
    todo = list(kids.get(root, []))
    while todo:
        q = todo.pop()
        todo += kids.get(q, [])
        try:
            os.kill(q, signal.SIGKILL)
        except OSError:
            pass


def _kill_tree(pid):
    _kill_children(pid)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def _fail_run(sc, kind):
    base = dict(sc.get("on_fail", {})) if isinstance(sc, dict) else {}
    base["ev"] = [dict(op=kind)]
    base["scenario"] = json.dumps(sc)[:2000]
    return base


def _drive_child(fn, items, rf, each_timeout, scratch):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    os.chdir(tempfile.mkdtemp(dir=scratch))
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)

    def on_alarm(sig, frame):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    with open(rf, "w") as fh:
        for sc in items:
            try:
                signal.setitimer(signal.ITIMER_REAL, each_timeout)
                out = fn(sc)
                signal.setitimer(signal.ITIMER_REAL, 0)
                out = out if isinstance(out, list) else [out]
            except Hang:
                out = [_fail_run(sc, "hang")]
            except BaseException as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                out = [_fail_run(sc, "raised")]
                out[0]["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            fh.write(json.dumps(dict(runs=out)) + "\n")
            fh.flush()
            if out[0]["ev"] and out[0]["ev"][0].get("op") == "hang":
                break   # its process may be unusable; the parent goes on with the rest
    _kill_children()
    os._exit(0)


def import_gama():
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import gama
    if not os.path.abspath(gama.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise MachineryError(f"gama imported from {gama.__file__}")
    return gama


def main(prop, body):
    ctx = Ctx(prop)
    try:  # processes orphaned by the code under test become ours, to be ended below
        import ctypes
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except Exception:
        pass
    try:
        import_ok = True
        rc = body(ctx)
        rc = ctx.finish(**(rc or {}))
    except MachineryError as e:
        print(f"MACHINERY ERROR in {prop}: {e}")
        rc = 2
    except BaseException:
        traceback.print_exc()
        print(f"MACHINERY ERROR in {prop}")
        rc = 2
    finally:
        _kill_children()
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
