"""P14: conversions."""
from .common import definitions, TECHNIQUE, ASSUMPTIONS

MINIMUM = 5


def run(tier):
    return definitions('P14', modules=('const',))
