"""C09: AXI reads return exactly the bytes stored at the given addresses."""
from .common import *                                   # noqa: F401,F403
from .. import masterdom as D
from .c08 import family, schedules

CHK = ('data', 'resp', 'once', 'live')


def configs(tier):
    q = tier == 'quick'
    return family('r', CHK, q) + schedules('r', CHK, q) + D.scale('r', CHK)
