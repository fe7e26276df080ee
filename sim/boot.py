"""Process set-up: which code runs, and nothing left over from another tree."""

from __future__ import annotations

import importlib.machinery
import os
import sys
import warnings

REPO = "/repo"
SRC = REPO + "/src"
PKG = SRC + "/ConfigSpace"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def install():
    sys.dont_write_bytecode = True
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)

    # Never use byte code of the code under test that an earlier tree left behind.
    loader = importlib.machinery.SourceFileLoader
    orig = loader.path_stats

    def path_stats(self, path):
        if str(path).startswith(SRC):
            raise OSError("byte code not used")
        return orig(self, path)

    loader.path_stats = path_stats
    warnings.filterwarnings("ignore")


install()

from . import locks  # noqa: E402

locks.install()
