"""Rules, one module per part of the program; each registers a check per
property in CHECKS."""

CHECKS = {}


def rule(prop):
    def deco(f):
        CHECKS.setdefault(prop, []).append(f)
        return f
    return deco
