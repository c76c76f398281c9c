import importlib
MODULES = ('codec', 'client', 'parser', 'session', 'database', 'server', 'conn', 'lifetime', 'threads', 'values', 'config')


def find(prop):
    for m in MODULES:
        mod = importlib.import_module('checks.' + m)
        if prop in mod.CHECKS:
            return mod.CHECKS[prop]
    raise SystemExit('unknown property ' + prop)
