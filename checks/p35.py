"""P35: coeval cubes at a redshift."""
from .common import definitions, TECHNIQUE, ASSUMPTIONS

MINIMUM = 5


def run(tier):
    return definitions('P35', modules=())
