"""P15: brightness temperature."""
from .common import definitions, TECHNIQUE, ASSUMPTIONS

MINIMUM = 5


def run(tier):
    return definitions('P15', modules=())
