"""sharing scenarios between properties whose guarantees overlap"""
import importlib


def include(mod, tier, *names):
    """the scenarios of another property's module, restricted to those of the named scenario functions (all if none)"""
    for s in importlib.import_module('props.' + mod).scenarios(tier):
        if not names or any(s.name.startswith(n) for n in names):
            s.name = mod.upper() + '.' + s.name
            yield s
