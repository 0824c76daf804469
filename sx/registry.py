"""Harness registry (no solver imports: also used by the concrete replayer)."""

HARNESSES = {}      # property id -> list of Harness


class Harness:
    def __init__(self, pid, fn, shards, thorough, bounds, modules):
        self.pid, self.fn = pid, fn
        self.name = fn.__name__
        self._shards, self._thorough = shards, thorough
        self.bounds = bounds
        self.modules = modules

    def shards(self, tier):
        s = self._thorough if tier == 'thorough' and self._thorough is not None else self._shards
        return s if s is not None else [{}]


def harness(pid, shards=None, thorough=None, bounds='', modules=()):
    def deco(fn):
        HARNESSES.setdefault(pid, []).append(
            Harness(pid, fn, shards, thorough, bounds, modules))
        return fn
    return deco


def product(**axes):
    out = [{}]
    for k, vs in axes.items():
        out = [{**d, k: v} for d in out for v in vs]
    return out


def load_harnesses(root):
    import importlib
    import os
    for f in sorted(os.listdir(os.path.join(root, 'harness'))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('harness.' + f[:-3])
