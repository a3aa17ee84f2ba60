"""Harness registration (PyPy-compatible)."""


def harness(quick, thorough=None, allow=(), path_s=30, query_ms=8000, max_decisions=4000,
            funcs=(), what="", share=1.0):
    """quick/thorough: lists of parameter dicts (the bounds).
    allow: exception type names the code may legitimately raise here.
    share: weight of this harness in the time budget."""

    def deco(f):
        f.h = dict(name=f.__name__, quick=quick, thorough=thorough or quick, allow=set(allow),
                   path_s=path_s, query_ms=query_ms, max_decisions=max_decisions, what=what,
                   share=share)
        mod = __import__("sys").modules[f.__module__]
        mod.__dict__.setdefault("HARNESSES", []).append(f)
        return f

    return deco


def load(prop):
    import importlib

    m = importlib.import_module("harness." + prop.lower())
    return m.HARNESSES
