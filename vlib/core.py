"""Verdicts shared by the harness and the property modules."""
import traceback


class Violation(Exception):
    """the property is refuted by what was observed"""

    def __init__(self, msg, key=None, **detail):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail


class LibraryRaised(Exception):
    """the code under test raised; a violation unless the check expects it"""

    def __init__(self, fn, backend, exc):
        super().__init__(f"{fn} ({backend}) raised {type(exc).__name__}: {exc}")
        self.fn, self.backend, self.exc = fn, backend, exc
        tb = traceback.extract_tb(exc.__traceback__)
        self.where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-4:]]


class Inconclusive(Exception):
    pass


class Ctx:
    """what one case observed"""

    def __init__(self):
        self.counts = {}
        self.sig = None
        self.stats = {}

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + int(n)

    def stat_max(self, key, v):
        v = float(v)
        if v == v:
            self.stats[key] = max(self.stats.get(key, -1e300), v)

    def nontrivial(self, sig):
        """sig: a digest that makes this case distinct from the others"""
        self.sig = sig if self.sig is None else self.sig + "|" + sig

    def fail(self, msg, key=None, **detail):
        raise Violation(msg, key=key, **detail)
