"""Registry of property rules."""
import importlib, pkgutil
_R = {}


def rule(pid, explanation, assumptions=()):
    def deco(f):
        _R[pid] = (f, explanation, list(assumptions))
        return f
    return deco


def load():
    for m in pkgutil.iter_modules(__path__):
        importlib.import_module('rules.' + m.name)
    return _R
