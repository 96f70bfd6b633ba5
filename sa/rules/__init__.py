"""Rules: one module per property, each with ``run(ctx) -> Result``."""


class Result:
    """Outcome of one property's analysis.

    findings   definite violations: (rule, file, line, function, message)
    unknowns   constructs the analysis could not decide (never an alarm)
    """

    def __init__(self, rule=""):
        self.rule = rule
        self.findings, self.unknowns = [], []
        self.obligations = self.discharged = 0
        self.samples = []
        self.analysed = {}
        self.notes = []

    def ok(self, what):
        self.obligations += 1
        self.discharged += 1
        if len(self.samples) < 400:
            self.samples.append(str(what))

    def bad(self, rule, file, line, func, msg):
        self.obligations += 1
        f = dict(rule=rule, file=file, line=line, function=func, message=msg)
        if f not in self.findings:
            self.findings.append(f)

    def unknown(self, what):
        self.obligations += 1
        s = str(what)
        if s not in self.unknowns:
            self.unknowns.append(s)

    def count(self, key, n=1):
        self.analysed[key] = self.analysed.get(key, 0) + n


class Ctx:
    """Shared, lazily built analysis artefacts of one run."""

    def __init__(self, pkg, tier="quick", seed=1):
        self.pkg, self.tier, self.seed = pkg, tier, seed
        self._interp = None

    @property
    def interp(self):
        if self._interp is None:
            from ..interp import Interp
            self._interp = Interp(self.pkg)
        return self._interp
