"""Registry of verification units."""
import itertools
UNITS = {}
def unit(name, **params):
    """every combination of the parameters is a unit of its own"""
    def deco(fn):
        keys = list(params)
        for combo in itertools.product(*[params[k] for k in keys]):
            n = '.'.join((name,) + combo)
            UNITS[n] = (fn, dict(zip(keys, combo)))
        return fn
    return deco
