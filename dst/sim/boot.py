"""Process start-up: installs the seams that must exist before anything else is imported.

Order matters: SimLock replaces threading.Lock/RLock before logging, pyparsing, jinja2,
requests or dynamicprompts are imported, and unseeded random.Random instances draw their
seed from simulated entropy instead of the operating system.
"""
import sys
import threading
import random
import os

from . import locks, simfs
locks.install()
simfs.install()

_real_seed = random.Random.seed
_entropy = random.Random(0)


def set_entropy(n):
    """All OS entropy seen by the process from now on is a function of n."""
    _real_seed(_entropy, n)


def _sim_seed(self, a=None, version=2):
    if a is None:
        a = _entropy.getrandbits(64)
    return _real_seed(self, a, version)


def _sim_urandom(n):
    return _entropy.getrandbits(8 * n).to_bytes(n, "big") if n else b""


random.Random.seed = _sim_seed
random._urandom = _sim_urandom
random.seed = random._inst.seed  # bound method picks up nothing; rebind below
random.seed = lambda a=None, version=2: _sim_seed(random._inst, a, version)

REPO_SRC = os.environ.get("DST_REPO_SRC", "/repo/src")
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)


def import_product():
    """Import every module of the product and the libraries it uses lazily."""
    import importlib
    import pkgutil
    import warnings
    import logging
    import json, fnmatch, weakref, shutil, tempfile, traceback  # noqa
    import asyncio  # noqa  (imported lazily by some libraries)
    import yaml, jinja2, jinja2.ext, jinja2.nodes, jinja2.runtime, jinja2.sandbox  # noqa
    import pyparsing  # noqa
    import requests, requests.adapters, idna, urllib3, encodings.idna  # noqa
    logging.getLogger().addHandler(logging.NullHandler())
    logging.disable(logging.NOTSET)
    warnings.simplefilter("ignore")
    import dynamicprompts
    root = os.path.realpath(os.path.dirname(dynamicprompts.__file__))
    if not root.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError(f"imported dynamicprompts from {root}, not from {REPO_SRC}")
    for m in pkgutil.walk_packages(dynamicprompts.__path__, "dynamicprompts."):
        importlib.import_module(m.name)
    return root + os.sep


def product_dir():
    return os.path.join(os.path.realpath(REPO_SRC), "dynamicprompts") + os.sep


def reset_globals():
    """Put process-wide product state that a run may depend on at a known value."""
    import dynamicprompts.constants as c
    if hasattr(c, "DEFAULT_RANDOM"):
        _real_seed(c.DEFAULT_RANDOM, 12345)
    _real_seed(random._inst, 54321)
