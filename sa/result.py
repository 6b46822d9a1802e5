"""Outcome of a check."""
import traceback
from .prog import AnalysisError


class Result:
    def __init__(self):
        self.findings = []      # (key, text)
        self.obligations = 0
        self.counts = {}
        self.samples = []
        self.notes = []
        self.floor = {}

    def bad(self, key, text):
        if all(k != key for k, _ in self.findings):
            self.findings.append((key, text))

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def part(self, f, *a, **k):
        """runs one part of a check; a construct it cannot model leaves that part undecided, not the others"""
        try:
            return f(*a, **k)
        except AnalysisError as e:
            self.note('%s: not decided: %s' % (getattr(f, '__name__', 'part'), e))
        except RecursionError:
            self.note('%s: not decided: nesting too deep' % getattr(f, '__name__', 'part'))
        except Exception as e:      # a shape of code nothing here was written for
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.note('%s: not decided, internal error: %s %s (%s:%d)' % (getattr(f, '__name__', 'part'), type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))
        return None

    def ok(self, n=1, sample=None):
        self.obligations += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def need(self, name, n, least):
        """Instance counts below what was confirmed by reading mean that the analysis lost its anchors."""
        self.counts[name] = n
        self.floor[name] = (n, least)
