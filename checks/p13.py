"""P13: line of sight."""
from .common import definitions, TECHNIQUE, ASSUMPTIONS

MINIMUM = 5


def run(tier):
    return definitions('P13', modules=())
