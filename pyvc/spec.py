"""Registry of harness lemmas."""
REG = {}


class Harness:
    def __init__(self, prop, fn, funcs, bound, budget, fuzz, sym):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.funcs = funcs          # functions of /repo under contract here
        self.bound = bound          # None: all inputs; otherwise the stated bound (never counted as proved)
        self.budget = budget
        self.fuzz = fuzz
        self.sym = sym


def lemma(prop, funcs, bound=None, budget=25, fuzz=250, sym=True):
    def deco(fn):
        REG.setdefault(prop, []).append(Harness(prop, fn, funcs.split() if isinstance(funcs, str) else list(funcs),
                                                bound, budget, fuzz, sym))
        return fn
    return deco
