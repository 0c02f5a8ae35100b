"""P33: Lyman-alpha transmission and line intensities."""
from .common import definitions, TECHNIQUE, ASSUMPTIONS

MINIMUM = 5


def run(tier):
    return definitions('P33', modules=())
