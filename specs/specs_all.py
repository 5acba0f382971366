from core import *
import zone
import importlib
MODULES = ['zone', 'root', 'util', 'api', 'tags', 'libc', 'sound', 'big', 'route', 'alloc', 'init']


def all_contracts():
    out = []
    for m in MODULES:
        out += importlib.import_module(m).CONTRACTS
    return out


def make_engine(mod, cfg):
    eng = Eng(mod, cfg)
    M = Model(eng)
    eng.pm_key('U'); eng.pm_key('B')
    for c in all_contracts():
        if c.name in mod.funcs and not getattr(c, 'verify_only', False):
            eng.contracts[c.name] = c
    return eng


def find(eng, fn):
    for c in all_contracts():
        if c.name == fn:
            return c
    raise KeyError(fn)

