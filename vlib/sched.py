"""A dask scheduler whose execution order is chosen by the case: among the
tasks that are ready, the next one is picked by a seeded generator, so that a
generated case owns the schedule."""
import functools
import hashlib

import numpy as np
from dask.optimization import SubgraphCallable
from dask.core import get_dependencies
from dask.core import _execute_task


class OrderedGet(object):
    def __init__(self, seed):
        self.seed = seed
        self.tasks = 0

    def __call__(self, dsk, keys, **kwargs):
        rs = np.random.RandomState(self.seed & 0xffffffff)
        dsk = dict(dsk)
        deps = {k: set(get_dependencies(dsk, k)) for k in dsk}
        dependents = {k: [] for k in dsk}
        for k, ds in deps.items():
            for d in ds:
                dependents[d].append(k)
        waiting = {k: len(ds) for k, ds in deps.items()}
        ready = sorted((k for k, n in waiting.items() if n == 0), key=str)
        cache = {}
        while ready:
            i = int(rs.randint(len(ready)))
            k = ready.pop(i)
            cache[k] = _execute_task(dsk[k], cache)
            self.tasks += 1
            for d in sorted(dependents[k], key=str):
                waiting[d] -= 1
                if waiting[d] == 0:
                    ready.append(d)

        def nested(ks):
            if isinstance(ks, list):
                return [nested(k) for k in ks]
            return cache[ks]
        return nested(keys)


# ---- distinct computations must have distinct graph keys -------------------
# dask identifies a task by its key: two computations that use one key for
# different tasks corrupt each other as soon as they are computed together.
# Over the cases of a process, every key seen is remembered with a fingerprint
# of its task (literals, and what it depends on) and the case that made it.
_seen = {}
_LIMIT = 400000


def _fp(x, names, of, depth=0):
    """A fingerprint: different only if the tasks differ. Keys of the graph
    are replaced by the fingerprints of what they stand for."""
    if depth > 12:
        return "..."
    if isinstance(x, (str, tuple)) and of is not None:
        k = of(x)
        if k is not None:
            return k
    if isinstance(x, (bool, int, float, complex, str, bytes, type(None))):
        return "key" if x in names else repr(x)
    if isinstance(x, np.dtype):
        return x.str
    if isinstance(x, np.generic):
        return repr(x.item())
    if isinstance(x, np.ndarray):
        if x.dtype.hasobject:
            return "objects"
        return "%s%s%s" % (x.dtype.str, x.shape, hashlib.sha1(
            np.ascontiguousarray(x).tobytes()).hexdigest())
    if isinstance(x, (tuple, list)):
        return "(%s)" % ",".join(_fp(y, names, of, depth + 1) for y in x)
    if isinstance(x, dict):
        return "{%s}" % ",".join(sorted(
            "%s:%s" % (_fp(k, names, of, depth + 1),
                       _fp(v, names, of, depth + 1))
            for k, v in x.items()))
    if isinstance(x, functools.partial):
        return "partial(%s,%s,%s)" % (_fp(x.func, names, of, depth + 1),
                                      _fp(x.args, names, of, depth + 1),
                                      _fp(x.keywords, names, of, depth + 1))
    if isinstance(x, SubgraphCallable):
        inner = set(k for k in x.dsk if isinstance(k, str)) | set(
            k for k in x.inkeys if isinstance(k, str))
        return "sub(%s)" % ",".join(sorted(
            _fp(v, names | inner, None, depth + 1) for v in x.dsk.values()))
    return getattr(x, "__qualname__", type(x).__qualname__)


def fingerprints(dsk):
    """of every key of a graph"""
    out = {}
    todo = [(k, False) for k in dsk]
    while todo:
        k, ready = todo.pop()
        if k in out:
            continue
        deps = [d for d in get_dependencies(dsk, k) if d not in out]
        if deps and not ready:
            todo.append((k, True))
            todo += [(d, False) for d in deps]
            continue

        def of(x):
            try:
                return out.get(x)
            except TypeError:
                return None
        out[k] = hashlib.sha1(_fp(dsk[k], frozenset(),
                                  of).encode()).hexdigest()
    return out


def distinct(*arrays):
    from vlib import core
    for a in arrays:
        if not hasattr(a, "__dask_graph__"):
            continue
        if len(_seen) > _LIMIT:
            return
        for k, f in fingerprints(dict(a.__dask_graph__())).items():
            name = str(k)
            old = _seen.setdefault(name, (f, core.CURRENT[-1:]))
            if old[0] != f:
                v = core.Violation(
                    "two different computations share the dask key %s, so "
                    "that computing both together returns one of them twice"
                    % name[:200])
                v.prior = old[1]
                raise v


def compute(*args, seed=0):
    import dask
    distinct(*args)
    g = OrderedGet(seed)
    return dask.compute(*args, scheduler=g)


def chunks(draw, st, n, maxchunks=4):
    """A composition of n into positive chunk sizes."""
    out = []
    left = n
    if n > maxchunks and draw(st.integers(0, 15)) == 15:
        maxchunks = 14
        cap = max(1, n // 7)
    else:
        cap = n
    while left > 0 and len(out) < maxchunks - 1:
        c = draw(st.integers(1, min(left, cap)))
        out.append(c)
        left -= c
    if left:
        out.append(left)
    return out
