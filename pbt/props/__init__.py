"""registry of the checks: property id -> instance"""
import importlib

MODULES = ["sql", "robust", "components", "conc", "meta", "fault"]


def all_props():
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("." + m, __name__)
        except ModuleNotFoundError as e:
            if e.name and e.name.endswith(m):
                continue
            raise
        for p in mod.PROPS:
            assert p.id not in out
            out[p.id] = p
    return out


def load(pid):
    return all_props()[pid]
