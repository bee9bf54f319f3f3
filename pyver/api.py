"""Registration of contracts."""
import importlib

REG = {}


class Contract:
    def __init__(self, prop, name, body, fns, also=(), stubs=None, loops=None, bounded=None, trials=None, size=6,
                 timeout_ms=8000, extra=None, note=None, assumes=(), safety=True, budget=90, max_paths=300):
        self.prop, self.name, self.body, self.fns = prop, name, body, list(fns)
        self.also, self.stubs, self.loops = list(also), stubs or {}, loops or {}
        self.bounded = bounded
        self.trials = trials
        self.size = size
        self.timeout_ms = timeout_ms
        self.extra = extra or {}
        self.note = note
        self.assumes = list(assumes)
        self.safety = safety
        self.budget = budget
        self.max_paths = max_paths

    def modules(self):
        ms = []
        for f in self.fns:
            ms.append(f.partition(':')[0])
        ms += self.also
        return [importlib.import_module(m) for m in dict.fromkeys(ms)]


def contract(prop, name, fns, **kw):
    if isinstance(fns, str):
        fns = [fns]

    def deco(body):
        key = prop + '/' + name
        if key in REG:
            raise ValueError('duplicate contract ' + key)
        REG[key] = Contract(prop, name, body, fns, **kw)
        return body
    return deco



def loops(module, specs):
    """annotations for the loops of the named functions of a module: {'Class.method' or 'Class.method#i': LoopSpec}"""
    return {'sites': {module: {k.partition('#')[0]: None for k in specs}}, 'specs': specs}
