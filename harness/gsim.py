"""A simulated worker pool: the package's own pool code runs unmodified, but processes and
queues are stand-ins, so the driver decides which running evaluation completes next.

Import this module before anything imports gama."""
import os
import pickle
import queue as _queue
import multiprocessing
import psutil
import sklearn.ensemble, sklearn.model_selection, sklearn.pipeline, pandas, joblib  # noqa: before patching
import stopit


class Stuck(BaseException):
    """Waiting although nothing can complete any more."""


class Sim:
    def __init__(self):
        self.reset([])

    def reset(self, schedule, tie=None):
        self.schedule = list(schedule)   # dicts: k (which of the running), out, v  |  int: exception name
        self.pos = 0
        self.interrupted = False
        self.mode = "main"
        self.procs = []
        self.events = []
        self.ids = {}
        self.exiting = False
        self.current = None
        self.item = None
        self.taken = False
        self.put_by_worker = None
        self.empties = 0
        self.on_submit = self.on_wait = None
        self.on_complete = None
        self.mem = None          # megabytes by pid; 0 is the main process
        self.on_stop = None
        self.on_start = None

    def num(self, ind):
        return self.ids.setdefault(str(ind._id), len(self.ids) + 1)

    def alive(self):
        return [p for p in self.procs if not p.dead]

    def step(self):
        """Let one running evaluation complete, as the schedule says."""
        alive = self.alive()
        if not alive:
            raise Stuck("no workers")
        p = alive[0]
        queues = [q for q in list(p.args) + list(p.kwargs.values()) if isinstance(q, FakeQueue)]
        inq = next((q for q in queues if q.items and q.by_main), None)
        if inq is None:
            self.empties += 1
            if self.empties > 80:
                raise Stuck("nothing running")
            return False
        if self.on_wait:
            self.on_wait()
        if self.pos >= len(self.schedule):
            self.interrupted = True
            raise stopit.TimeoutException()
        s = self.schedule[self.pos]
        self.pos += 1
        if "int" in s:
            self.interrupted = True
            raise {"timeout": stopit.TimeoutException, "kbd": KeyboardInterrupt}[s["int"]]()
        self.empties = 0
        k = (s["k"] - 1) % min(len(alive), len(inq.items))
        data = inq.items.pop(k)
        self.current, self.item, self.inq, self.taken, self.put_by_worker = s, data, inq, False, 0
        self.mode = "worker"
        try:
            p.target(*p.args, **p.kwargs)
        finally:
            self.mode = "main"
            self.item = None
        return True


SIM = Sim()


class FakeQueue:
    def __init__(self, *a, **k):
        self.items = []
        self.by_main = False

    def put(self, obj, block=True, timeout=None):
        data = pickle.dumps(obj)
        if SIM.mode == "main":
            if isinstance(obj, str):
                SIM.exiting = True
                return
            self.by_main = True
            self.items.append(data)
            if SIM.on_submit:
                SIM.on_submit(obj)
        else:
            self.items.append(data)

    put_nowait = put

    def get(self, block=True, timeout=None):
        if SIM.mode == "worker":
            if self is SIM.inq:
                if SIM.taken:
                    raise _queue.Empty
                SIM.taken = True
                return pickle.loads(SIM.item)
            if SIM.taken:
                return "stop"
            raise _queue.Empty
        if not self.items and not SIM.exiting:
            SIM.step()
        if self.items:
            obj = pickle.loads(self.items.pop(0))
            if not self.by_main and not SIM.exiting and SIM.on_complete:
                SIM.on_complete(obj)
            return obj
        raise _queue.Empty

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        if SIM.mode == "worker":
            return SIM.taken if self is SIM.inq else not SIM.taken
        if not self.items and not SIM.exiting and not self.by_main:
            SIM.step()
        return not self.items

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class FakeProcess:
    _pid = 10 ** 7

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs, self.dead = target, tuple(args), dict(kwargs or {}), False
        FakeProcess._pid += 1
        self.pid = FakeProcess._pid
        self.daemon, self.exitcode, self.name = daemon, None, name

    def start(self):
        SIM.procs.append(self)
        if SIM.on_start:
            SIM.on_start(self)

    def is_alive(self):
        return not self.dead

    def terminate(self):
        _stop(self)

    kill = terminate

    def join(self, timeout=None):
        pass

    def close(self):
        pass


_real_ps = psutil.Process


def _stop(proc):
    if SIM.on_stop and not proc.dead:
        SIM.on_stop(proc)
    proc.dead = proc.dead or True


class FakePs:
    """What psutil reports of a stand-in worker; dead is True (a zombie) or "gone"."""

    def __init__(self, proc):
        self.proc, self.pid = proc, proc.pid

    def _there(self):
        if self.proc.dead == "gone":
            raise psutil.NoSuchProcess(self.pid)

    def status(self):
        self._there()
        return "zombie" if self.proc.dead else "running"

    def is_running(self):
        return self.proc.dead != "gone"

    def memory_info(self):
        self._there()
        if SIM.mem is None:
            return _real_ps().memory_info()
        rss = 0 if self.proc.dead else SIM.mem.get(self.pid, 1) * 2 ** 20
        return _PMEM(rss, rss)

    memory_full_info = memory_info

    def terminate(self):
        self._there()
        _stop(self.proc)

    kill = terminate

    def wait(self, timeout=None):
        self.proc.dead = "gone" if self.proc.dead else self.proc.dead
        return 0

    def __eq__(self, other):
        return self.pid == getattr(other, "pid", None)

    def __hash__(self):
        return hash(self.pid)


class _Main:
    def __init__(self, ps):
        self._ps, self.pid = ps, ps.pid

    def memory_info(self):
        if SIM.mem is None:
            return self._ps.memory_info()
        return _PMEM(SIM.mem[0] * 2 ** 20, 0)

    memory_full_info = memory_info

    def __getattr__(self, name):
        return getattr(self._ps, name)


import collections
_PMEM = collections.namedtuple("pmem", "rss vms")


def _ps(pid=None):
    if pid is not None and pid > 10 ** 7:
        return FakePs(next(p for p in SIM.procs if p.pid == pid))
    if pid is None or pid == os.getpid():
        return _Main(_real_ps(pid))
    return _real_ps(pid)


multiprocessing.Process = FakeProcess
multiprocessing.Queue = FakeQueue
_real_children = multiprocessing.active_children


def _children():
    for p in SIM.procs:      # as the real one: the dead are waited for
        p.dead = "gone" if p.dead else p.dead
    return _real_children() + SIM.alive()


multiprocessing.active_children = _children
psutil.Process = _ps

import gdrive as g  # noqa: E402


def find_individual(o, depth=4):
    if isinstance(o, g.Individual):
        return o
    if depth == 0:
        return None
    if isinstance(o, (list, tuple)):
        it = o
    elif isinstance(o, dict):
        it = o.values()
    elif hasattr(o, "__dict__"):
        it = [o.__dict__] + ([o.args, o.keywords] if hasattr(o, "keywords") else [])
    else:
        return None
    for x in it:
        f = find_individual(x, depth - 1)
        if f is not None:
            return f
    return None


def sim_evaluate(individual, *a, **kw):
    """What a worker runs for one evaluation: the outcome is the schedule's."""
    s = SIM.current
    kw.pop("evaluate_pipeline", None)
    SIM.seen = dict(kw)
    if s["out"] == "exc":
        raise ValueError("scripted")
    if s["out"] == "err":
        return g.evaluation(individual, tuple(float("-inf") for _ in s.get("v", [0])), "scripted failure")
    return g.evaluation(individual, tuple(s["v"]))
