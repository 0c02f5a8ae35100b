"""P17: power spectrum definitions."""
from .common import definitions, TECHNIQUE, ASSUMPTIONS

MINIMUM = 5


def run(tier):
    return definitions('P17', modules=())
