"""Shared context of a check run: the analysed program, cached summaries, results."""
import os
import sys
from .program import Program, AnalysisError
from .model import Model
from .compare import Comparer
from . import spec
from .budget import limit

# Confirmed on the pinned tree; a run that sees far fewer instances is broken, not quiet.
MIN_CLASSES = 95
MIN_ROUNDTRIPS = 90


class Finding:
    def __init__(self, key, text, where=''):
        self.key, self.text, self.where = key, text, where


class Result:
    """Outcome of one rule set."""
    def __init__(self, prop):
        self.prop = prop
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.findings = []
        self.rules = []
        self.counts = {}
        self.assumptions = []
        self._seen = set()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def unknown(self, what):
        self.obligations += 1
        self.undecided.append(what)

    def bad(self, key, text, where=''):
        if key in self._seen:
            return
        self._seen.add(key)
        self.obligations += 1
        self.findings.append(Finding(key, text, where))

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)


class Context:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.prog = Program(os.path.join(repo, 'src'), 'kiutils')
        self.model = Model(self.prog)
        self._cmp = None
        cs = self.model.item_classes()
        if len(cs) < MIN_CLASSES:
            raise AnalysisError(f'only {len(cs)} item classes found, expected at least {MIN_CLASSES}')

    @property
    def comparers(self):
        """class -> Comparer (run), for every class with a reader and a writer."""
        if self._cmp is None:
            self._cmp = {}
            self._cmp_err = {}
            for c in self.model.item_classes():
                cm = Comparer(self.model, c, spec)
                try:
                    with limit(40):
                        if cm.run():
                            self._cmp[c] = cm
                        else:
                            f = self.model.writer(c).failed or self.model.reader(c).failed
                            if f:
                                self._cmp_err[c] = f
                except RecursionError as e:
                    self._cmp_err[c] = 'recursion'
                except Exception as e:           # an unforeseen construct: undecided, never silent
                    self._cmp_err[c] = f'{type(e).__name__}: {e}'
            if len(self._cmp) + len(self._cmp_err) < MIN_ROUNDTRIPS:
                raise AnalysisError(f'only {len(self._cmp)} reader/writer pairs, expected at least {MIN_ROUNDTRIPS}')
        return self._cmp

    @property
    def cmp_errors(self):
        self.comparers
        return self._cmp_err

    def where(self, c, meth):
        return self.model.where(c, meth)
