"""Regular expressions on symbolic strings: compiled to z3 regular languages where possible."""


def apply(pat, name, a):
    return NotImplemented
