"""A unit = one constructed design of the real code + its contract."""


class Unit:
    def __init__(self, name, module, expr, contract, args=(), kw=None, cut=(), inputs=None, functions=(),
                 mem_init=(), bias=None, cycles=300, eps=12, timeout=60, templates=True, weight=1, jobs=1,
                 xcheck=True, fuzz=None):
        self.name = name
        self.module = module
        self.expr = expr
        self.contract = contract
        self.args = args
        self.kw = kw or {}
        self.cut = tuple(cut)
        self.inputs = inputs
        self.functions = tuple(functions)
        self.mem_init = tuple(mem_init)
        self.bias = bias
        self.cycles = cycles
        self.eps = eps
        self.timeout = timeout
        self.templates = templates
        self.weight = weight
        self.jobs = jobs
        self.xcheck = xcheck and not cut
        self.fuzz = fuzz

    def system(self, repo=None):
        import load
        from dag import System
        ir = load.extract(self.module, self.expr, self.cut, repo)
        return System(ir, self.inputs)

    def mon(self, repo=None, alias=None):
        from mon import Mon
        m = Mon(self.system(repo))
        m.alias = alias or {}
        self.contract(m, *self.args, **self.kw)
        return m
