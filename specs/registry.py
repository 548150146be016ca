"""Which verification units decide which property, and what is said about it."""
import importlib
from . import meta
MODULES = ['node_util', 'serialize', 'support', 'marginals', 'sampling', 'construct', 'unique', 'vtrees', 'manager', 'convert', 'multiply', 'sample_params', 'learn', 'param', 'cnf', 'data', 'files', 'minfill']
def units(prop):
    out = []
    for m in MODULES:
        mod = importlib.import_module('specs.' + m)
        for props, factory in mod.UNITS:
            if prop in props:
                out.append(factory)
    return out
def level(prop):
    return meta.META[prop]['level']
def assumptions(prop):
    return meta.COMMON + meta.META[prop].get('assume', [])
def trusted_base(prop):
    return meta.TRUSTED
def bounded(prop):
    return meta.META[prop]['bounded']
def explanation(prop):
    return meta.META[prop]['proved'] + ' Bounded part: ' + meta.META[prop]['bounded']
