"""What a property module consists of."""


class Violation(Exception):
    """the property does not hold on this case; `key` names the specific failing call site or input class"""

    def __init__(self, message, key=""):
        super().__init__(message)
        self.key = key


class Inconclusive(Exception):
    """the case could not be decided (step budget of the simulation)"""


class Case:
    """what one executed case was; returned by execute()"""

    __slots__ = ("nontrivial", "labels", "excluded")

    def __init__(self, nontrivial=False, labels=(), excluded=()):
        self.nontrivial = nontrivial
        self.labels = list(labels)
        self.excluded = list(excluded)


class Check:
    def __init__(self, name, strategy, execute, quick, thorough, rule, shards=None, corpus=True):
        self.name = name
        self.strategy = strategy  # callable returning a hypothesis strategy of JSON plans
        self.execute = execute
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.corpus = corpus


def require(cond, message, key=""):
    if not cond:
        raise Violation(message, key)


def processes_of(combo):
    """the processes a SchedulerClusterCombo consists of, whatever it calls them"""
    return [x for x in vars(combo).values() if hasattr(x, "terminate") and hasattr(x, "join")]
