"""TensorFlow 2 presented as the graph-mode TensorFlow 1 API zhusuan is written for, and
zhusuan imported from /repo's working tree (no bytecode is read or written)."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    if "zhusuan" in sys.modules:
        return sys.modules["tensorflow"], sys.modules["zhusuan"]
    warnings.simplefilter("ignore")
    import tensorflow as tf2
    v1 = tf2.compat.v1
    v1.disable_v2_behavior()
    v1.logging.set_verbosity(v1.logging.FATAL)
    v1.__path__ = list(v1.__path__) + list(tf2.__path__)
    sys.modules["tensorflow"] = v1
    sys.path.insert(0, REPO)
    import zhusuan
    got = os.path.realpath(zhusuan.__file__)
    assert got.startswith(os.path.realpath(REPO) + os.sep), got
    return v1, zhusuan
