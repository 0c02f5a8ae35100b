"""P30: correlation functions, multipoles, bispectra."""
from .common import definitions, TECHNIQUE, ASSUMPTIONS

MINIMUM = 5


def run(tier):
    return definitions('P30', modules=())
