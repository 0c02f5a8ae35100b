"""P34: antenna gains and antenna tags on the uv plane."""
from .common import definitions, TECHNIQUE, ASSUMPTIONS

MINIMUM = 5


def run(tier):
    return definitions('P34', modules=())
