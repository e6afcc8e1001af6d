"""Imports the code under test from the working tree of /repo (or $VERIF_REPO).

Third-party modules are imported first; after that byte-code caches are
redirected to a folder that does not exist, so that what runs is always what
the .py files of the tree say now.
"""
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PACKAGES = ("fluent.syntax", "fluent.runtime", "fluent.pygments", "fluent.docs")

import attr  # noqa: E402,F401
import babel  # noqa: E402
import babel.dates  # noqa: E402,F401
import babel.numbers  # noqa: E402,F401
import babel.plural  # noqa: E402,F401
import pygments  # noqa: E402,F401
import pygments.formatters  # noqa: E402,F401
import pygments.lexer  # noqa: E402,F401
import pygments.token  # noqa: E402,F401
import pytz  # noqa: E402,F401
import typing_extensions  # noqa: E402,F401

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"


def _setup():
    # Drop the editable-install finders/paths of the fluent packages and put
    # this tree's own folders first.
    for p in reversed(PACKAGES):
        sys.path.insert(0, os.path.join(REPO, p))
    import fluent.syntax
    import fluent.runtime

    for name, mod in list(sys.modules.items()):
        if name.startswith("fluent.") and getattr(mod, "__file__", None):
            f = os.path.realpath(mod.__file__)
            if not f.startswith(REPO + os.sep):
                raise ImportError(f"{name} was imported from {f}, not from {REPO}")


_setup()
