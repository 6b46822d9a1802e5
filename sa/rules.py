"""Registry of the property checks."""
from .result import Result
CHECKS, EXPLAIN, ASSUME, TECH = {}, {}, {}, {}


def rule(pid, explain, assume=(), tech=None):
    def deco(f):
        CHECKS[pid] = f
        EXPLAIN[pid] = explain
        ASSUME[pid] = list(assume)
        if tech:
            TECH[pid] = tech
        return f
    return deco


from . import r_conc  # noqa
from . import r_ino  # noqa

from . import r_run  # noqa
from . import r_add  # noqa
from . import r_rem  # noqa
from . import r_set  # noqa
from . import r_life  # noqa
from . import r_move  # noqa
from . import r_rec  # noqa
from . import r_api  # noqa
from . import r_sys  # noqa
from . import r_snap  # noqa
from . import r_tree  # noqa
