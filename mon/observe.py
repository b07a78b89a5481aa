"""Interposition on komm's public API: counts client-boundary calls (outermost only) and, in
purity mode (property X01), fingerprints arguments before/after and repeats calls."""
from __future__ import annotations

import collections
import functools
import inspect
import types

import numpy as np

EVENTS: collections.Counter = collections.Counter()
EXTRA: collections.Counter = collections.Counter()
_depth = 0
HOOK = None  # callable(label, fn, args, kwargs) -> result; set by purity mode
DUNDERS = {"__add__", "__sub__", "__mul__", "__truediv__", "__floordiv__", "__mod__", "__divmod__", "__pow__",
           "__neg__", "__lshift__", "__rshift__", "__call__", "__eq__", "__init__"}


def _wrap(label, fn):
    @functools.wraps(fn, assigned=("__name__", "__qualname__", "__doc__", "__module__"), updated=())
    def w(*args, **kwargs):
        global _depth
        if _depth:
            return fn(*args, **kwargs)
        EVENTS[label] += 1
        _depth += 1
        try:
            if HOOK is not None:
                return HOOK(label, fn, args, kwargs)
            return fn(*args, **kwargs)
        finally:
            _depth -= 1
    w.__wrapped_by_monitor__ = True
    return w


def install():
    import komm
    done = set()
    for name in dir(komm):
        obj = getattr(komm, name)
        if inspect.isclass(obj):
            for cls in obj.__mro__:
                if not cls.__module__.startswith("komm") or cls in done:
                    continue
                done.add(cls)
                for k, v in list(vars(cls).items()):
                    if k.startswith("_") and k not in DUNDERS:
                        continue
                    label = f"{cls.__name__}.{k}"
                    try:
                        if isinstance(v, classmethod):
                            setattr(cls, k, classmethod(_wrap(label, v.__func__)))
                        elif isinstance(v, staticmethod):
                            setattr(cls, k, staticmethod(_wrap(label, v.__func__)))
                        elif isinstance(v, types.FunctionType) or type(v).__name__ == "_lru_cache_wrapper":
                            if not getattr(v, "__isabstractmethod__", False):
                                setattr(cls, k, _wrap(label, v))
                    except (AttributeError, TypeError):
                        pass
        elif inspect.isfunction(obj) or type(obj).__name__ == "_lru_cache_wrapper":
            setattr(komm, name, _wrap(name, obj))
