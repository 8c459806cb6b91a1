"""Minimal stand-in for the third-party package ``gridded`` (not installed in
this sandbox).

Only what the package under test needs in order to be imported and run with
non-gridded data is here: a faithful re-implementation of ``gridded.time.Time``
(the time axis used by point winds, timeseries and releases) and of the two
array-shape helpers of ``gridded.utilities``.  Grids, gridded Variables and
depth axes are inert base classes: nothing in /verif claims anything about
gridded fields.
"""
__version__ = "0.7.9"

from . import time, utilities, grids, depth
from .variable import Variable, VectorVariable
from .time import Time
