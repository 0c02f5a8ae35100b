"""P16: cosmological relations."""
from .common import definitions, TECHNIQUE, ASSUMPTIONS

MINIMUM = 5


def run(tier):
    return definitions('P16', modules=('cosmo',))
