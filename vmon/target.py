"""Imports the code under test from /repo's working tree, never from a cache."""

import os
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

sys.dont_write_bytecode = True
# No stale byte code is ever read: point the cache at a place that has none.
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'vmon-no-pycache')
sys.path.insert(0, SRC)

import sortedcontainers  # noqa: E402
from sortedcontainers import (  # noqa: E402
    SortedDict,
    SortedItemsView,
    SortedKeyList,
    SortedKeysView,
    SortedList,
    SortedSet,
    SortedValuesView,
)

assert os.path.realpath(sortedcontainers.__file__).startswith(
    os.path.realpath(SRC) + os.sep
), sortedcontainers.__file__

PKG_DIR = os.path.dirname(os.path.realpath(sortedcontainers.__file__))


# Importable subclasses with their own default load factor.


class SmallList(SortedList):
    DEFAULT_LOAD_FACTOR = 4


class MidList(SortedList):
    DEFAULT_LOAD_FACTOR = 9


class SmallKeyList(SortedKeyList):
    DEFAULT_LOAD_FACTOR = 5


class SubDict(SortedDict):
    pass


class SubSet(SortedSet):
    pass


__all__ = [
    'SortedDict',
    'SortedItemsView',
    'SortedKeyList',
    'SortedKeysView',
    'SortedList',
    'SortedSet',
    'SortedValuesView',
    'SmallList',
    'MidList',
    'SmallKeyList',
    'SubDict',
    'SubSet',
    'PKG_DIR',
    'REPO',
]
