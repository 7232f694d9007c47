"""Calls submitted to the pool, and the decoding of what comes back."""
import struct
import time


class Box:
    def __init__(self, tok, shared, error=None):
        self.tok, self.shared, self.error = tok, shared, error


class CustomError(Exception):
    pass


class Named(tuple):
    """A tuple of a type of its own."""


RAISES = {"raise_value": ValueError, "raise_key": KeyError, "raise_memory": MemoryError, "raise_custom": CustomError,
          "raise_overflow": OverflowError, "raise_type": TypeError, "raise_os": NotImplementedError,
          "raise_stop": StopIteration, "raise_assert": AssertionError, "raise_unicode": RuntimeError,
          "raise_struct": struct.error, "raise_attr": AttributeError, "raise_bare": ArithmeticError, "raise_empty": LookupError}
ARGS = {"raise_bare": (), "raise_empty": ("",)}  # errors that say nothing


def others(kind, tok, shared):
    """Results of further types: every part matters."""
    t = (kind, tok, shared)
    if kind == "frame":
        import pandas as pd
        return pd.DataFrame({"a": [tok, shared]})
    return {"one_tuple": (t,), "one_box": (Box(tok, shared),), "one_none": (None,), "one_nested": ((t,),), "pair": (tok, shared),
            "nested": (t, [t, {"k": t}]), "bytes": repr(t).encode(), "set": {kind, tok * 1000 + shared}, "float": tok + shared / 1024,
            "negative": -(tok * 1000 + shared), "true": True, "longstr": f"{kind} {tok} {shared} " + "y" * 70000,
            "error_value": ValueError(*t), "memory_value": MemoryError(*t), "type_value": Box,
            "tuple_error": (Box(tok, shared, "went wrong"), 3), "list_box": [Box(tok, shared, "list"), 1],
            "dict_box": {"error": MemoryError(*t)}, "named": Named(t)}[kind]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Box):
        return (a.tok, a.shared) == (b.tok, b.shared) and same(a.error, b.error)
    if isinstance(a, BaseException):
        return same(a.args, b.args)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if type(a).__name__ == "DataFrame":
        return a.equals(b)
    return a == b


PLAIN = {"none": None, "zero": 0, "empty_str": "", "empty_tuple": (), "empty_list": [], "false": False, "nothing_dict": {}}
KINDS = list(PLAIN) + ["value", "int", "str", "tuple", "list", "dict", "array", "box", "box_error", "box_memory", "tuple_box",
                       "tuple_memory", "big", "one_tuple", "one_box", "one_none", "one_nested", "pair", "nested", "bytes", "set",
                       "float", "negative", "true", "longstr", "error_value", "memory_value", "type_value", "tuple_error",
                       "list_box", "dict_box", "frame", "named", "raise_value", "raise_overflow", "raise_type", "raise_os",
                       "raise_stop", "raise_assert", "raise_unicode", "raise_struct", "raise_attr", "raise_bare", "raise_empty", "raise_memory", "raise_key", "raise_custom", "kwargs", "nan"]


FORMS = ["value", "int", "str", "tuple", "list", "dict", "array", "box", "box_error", "box_memory", "tuple_box", "tuple_memory",
         "big", "kwargs", "nan"]
FIXED = ("one_none", "true", "type_value")  # results that carry nothing of the call


def job(kind, tok, delay=0.0, shared=0, extra=None):
    if delay:
        time.sleep(delay)
    if kind in PLAIN:
        return PLAIN[kind]
    t = (kind, tok, shared)
    if kind in RAISES:
        raise RAISES[kind](*ARGS.get(kind, t))
    if kind not in FORMS:
        return others(kind, tok, shared)
    if kind == "int":
        return tok * 1000 + shared
    if kind == "str":
        return f"{tok}/{shared}"
    if kind == "tuple":
        return t
    if kind == "list":
        return list(t)
    if kind == "dict":
        return dict(t=t)
    if kind == "array":
        import numpy as np
        return np.array([tok, shared])
    if kind == "box":
        return Box(tok, shared)
    if kind == "box_error":
        return Box(tok, shared, "went wrong")
    if kind == "box_memory":
        return Box(tok, shared, MemoryError("m"))
    if kind == "tuple_box":
        return (Box(tok, shared), 1)
    if kind == "tuple_memory":
        return (Box(tok, shared, MemoryError("m")), 2)
    if kind == "big":
        return t + (b"x" * 400000,)
    if kind == "kwargs":
        return ("kwargs", extra, shared)
    if kind == "nan":
        return (float("nan"), tok, shared)
    return ("value", tok, shared)


def decode(kind_hint, fut, tok_hint=0, shared_hint=0):
    """(how, kind, tok, shared) recognised from the outcome; the hints only say what to compare results of other types with."""
    out = dict(how="value", kind="?", tok=0, shared=0)
    if fut.exception is not None:
        out["how"] = "exception"
        x = fut.exception
        names = {t.__name__: k for k, t in RAISES.items()}
        if isinstance(x, BaseException) and fut.result is None:
            out["kind"] = names.get(type(x).__name__, type(x).__name__)
            if out["kind"] in ARGS:
                if x.args != ARGS[out["kind"]]:
                    out["kind"] = "?"
            elif len(x.args) == 3:
                out["tok"], out["shared"] = x.args[1], x.args[2]
        return out
    v = fut.result

    def put(kind, tok, shared):
        out.update(kind=kind, tok=tok, shared=shared)
        return out
    if kind_hint in KINDS and kind_hint not in FORMS and kind_hint not in PLAIN and kind_hint not in RAISES:
        if same(v, others(kind_hint, tok_hint, shared_hint)):
            return put(kind_hint, *((0, 0) if kind_hint in FIXED else (tok_hint, shared_hint)))
        return out
    for k, p in PLAIN.items():
        if type(v) is type(p) and v == p:
            return put(k, 0, 0)
    if type(v) is int:
        return put("int", v // 1000, v % 1000)
    if type(v) is str and "/" in v:
        a, b = v.split("/")
        return put("str", int(a), int(b))
    if isinstance(v, Box):
        e = v.error
        kind = "box" if e is None else "box_memory" if e == "MemoryError" or isinstance(e, MemoryError) else \
            "box_error" if e == "went wrong" else "?"
        return put(kind, v.tok, v.shared)
    if isinstance(v, tuple) and v and isinstance(v[0], Box):
        e = v[0].error
        if e is None and v[1] == 1:
            return put("tuple_box", v[0].tok, v[0].shared)
        if (e == "MemoryError" or isinstance(e, MemoryError)) and v[1] == 2:
            return put("tuple_memory", v[0].tok, v[0].shared)
        return out
    if isinstance(v, tuple) and len(v) == 4 and v[0] == "big" and v[3] == b"x" * 400000:
        return put("big", v[1], v[2])
    if isinstance(v, tuple) and len(v) == 3:
        if v[0] != v[0]:
            return put("nan", v[1], v[2])
        if v[0] in ("tuple", "value", "kwargs"):
            return put(v[0], v[1], v[2])
    if isinstance(v, list) and len(v) == 3 and v[0] == "list":
        return put("list", v[1], v[2])
    if isinstance(v, dict) and list(v) == ["t"]:
        return put("dict", v["t"][1], v["t"][2])
    if type(v).__name__ == "ndarray" and v.shape == (2,):
        return put("array", int(v[0]), int(v[1]))
    return out


def die(delay=0.2, shared=0, how="kill"):
    import os, signal
    time.sleep(delay)
    if how == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    os._exit(3)


def slow(seconds, shared=0):
    end = time.time() + seconds
    while time.time() < end:
        time.sleep(0.05)
    return seconds


def stubborn(seconds, shared=0):
    """A call that does not react to exceptions raised in it."""
    end = time.time() + seconds
    while time.time() < end:
        try:
            time.sleep(0.05)
        except Exception:
            pass
