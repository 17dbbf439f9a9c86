"""setup_cmd: builds everything the checks need from the current tree (each check rebuilds what is missing or stale)."""
from common import *


def run():
    exe, s = build_hjsim()
    print("simulator: %s (%.1f s)" % (exe, s))
    try:
        import pycheck
    except ImportError:
        return 0
    print("python module: %s (%.1f s)" % pycheck.build())
    return 0
