import importlib
import logging
import os
import sys
import warnings


def main():
    pid = sys.argv[1]
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    try:
        import cv2
        cv2.setNumThreads(0)
    except Exception:
        pass
    import micropolarray
    repo = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
    assert os.path.realpath(micropolarray.__file__).startswith(repo + os.sep), micropolarray.__file__
    from mc import core
    mod = importlib.import_module(f"mc.props.{pid.lower()}")
    mod.ID = pid
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return core.replay(mod, sys.argv[3])
    return core.explore(mod)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
