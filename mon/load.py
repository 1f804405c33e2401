"""Imports the code under test from /repo's working tree (overridable for experiments: ACLTK_LIB)."""
import logging, os, sys
LIB = os.environ.get("ACLTK_LIB") or "/repo/lib"
REPO = os.path.dirname(LIB)
sys.path.insert(0, LIB)
logging.disable(logging.CRITICAL)
import acltk  # noqa: E402
assert os.path.realpath(acltk.__file__).startswith(os.path.realpath(LIB) + os.sep), acltk.__file__
import acltk.aclObjects as O  # noqa: E402
from acltk.aclObjects import ACLConfig  # noqa: E402
from acltk.fwsmObjects import fwsmConfig, Webtype  # noqa: E402
from acltk.iosObjects import iosConfig, Route  # noqa: E402
from acltk.pfsenseObjects import pfsenseConfig, pfsenseParserOptions  # noqa: E402
from acltk.cafObjects import cafBlock  # noqa: E402
import acltk.cafObjects as CAF  # noqa: E402
import acltk.fwsmSemantics, acltk.iosSemantics, acltk.pfsenseSemantics, acltk.cafSemantics  # noqa: E402,F401
PF = lambda: pfsenseParserOptions(fetch_urltable=False)
