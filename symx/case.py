class Case:
    """One harness with concrete parameters: explored to exhaustion by itself."""

    def __init__(self, name, fn, bounds, params=None, weight=1.0, feas_ms=None):
        self.name, self.fn, self.bounds, self.params, self.weight = name, fn, bounds, params or {}, weight
        self.feas_ms = feas_ms
