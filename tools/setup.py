"""Nothing to compile: check that the interpreter and the library are usable."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import boot  # noqa: E402,F401

import ConfigSpace  # noqa: E402
import numpy  # noqa: E402
import scipy  # noqa: E402

assert ConfigSpace.__file__.startswith(boot.PKG), ConfigSpace.__file__
assert hasattr(sys, "monitoring")
print("ready", sys.version.split()[0], numpy.__version__, scipy.__version__)
