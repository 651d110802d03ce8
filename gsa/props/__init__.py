"""Property scenarios.  Each module registers builders in REG."""
REG = {}


class Prop:
    def __init__(self, pid, build, level, technique, explain, assumptions=(), min_resolved=1):
        self.pid, self.build, self.level, self.technique = pid, build, level, technique
        self.explain, self.assumptions, self.min_resolved = explain, list(assumptions), min_resolved


def prop(pid, explain, level="other", technique="trace-partitioned abstract interpretation of the sources with global value numbering", assumptions=()):
    def deco(f):
        REG[pid] = Prop(pid, f, level, technique, explain, assumptions)
        return f

    return deco


def load():
    from . import files, reading, codec, containers, kernels, sog, misc, api, state  # noqa: F401

    return REG
