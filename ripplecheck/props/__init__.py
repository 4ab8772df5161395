"""Registry of checks: property id -> function(Check)."""
CHECKS = {}
EXPLAIN = {}


def check(pid, explain):
    def d(f):
        CHECKS[pid] = f
        EXPLAIN[pid] = explain
        return f
    return d


from . import symmetry, coords, smooth, tidal, cutoff, interface, misc, noise, match, effects, published  # noqa: E402,F401
