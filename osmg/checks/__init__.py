import importlib
from ..lib import *

# property id -> module
MODULES = ['io_write', 'io_read', 'tables', 'graph', 'building', 'metrics', 'routing', 'configs', 'balance', 'misc']


def registry():
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module('osmg.checks.' + m)
        except ModuleNotFoundError as e:
            if 'osmg.checks.' + m in str(e):
                continue
            raise
        out.update(mod.CHECKS)
    return out


def run(pid, tier):
    from .. import lib
    lib.CURRENT = None
    try:
        return registry()[pid](pid, tier)
    except (facts.BuildFailed, KeyboardInterrupt, SystemExit):
        raise
    except Exception:
        # an internal error of the analysis leaves the remaining obligations undecided; what was decided stands
        tb = traceback.format_exc()
        print('INTERNAL ERROR of the analysis (remaining obligations undecided):\n' + tb)
        if lib.CURRENT is None:
            raise
        lib.CURRENT.undec('internal-error', '', tb[-800:])
        return lib.CURRENT.finish(min_ok=0)
