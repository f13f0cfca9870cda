"""Rules that decide part of a property from the current source alone, without the reviewed reference.
A rule returns (obligations, [(where, what, detail)], notes).  Where the code has a form that a rule does not
understand it says so in its notes; it never guesses."""
RULES = {}


class Rule:
    def __init__(self, name, doc, fn):
        self.name, self.doc, self.fn = name, doc, fn


def rule(name, props, doc):
    def deco(fn):
        for p in props:
            RULES.setdefault(p, []).append(Rule(name, doc, fn))
        return fn
    return deco


from . import cdiscipline, schemes, tables  # noqa: E402,F401
