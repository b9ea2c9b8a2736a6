"""Coordinate systems: the cutting of the slices chosen through a coordinate system (contracts shared with P10); which axes, projection and
vertical transformation a variable has is decided by names and attributes and checked on bounded runs against a reference reading of the
conventions."""
from vf.spec import *
from contracts import P10, P14

CONTRACTS = [c for c in P10.CONTRACTS if c.fn.startswith("slice")] + [c for c in P14.CONTRACTS if c.fn == "grid_points"]
NATIVE = dict(P10.NATIVE)
BOUNDED = [Program("coordinate systems", "up to 5 fields of up to 6 of the axes x, y, z, time, reference time, realization and a bare dimension, 18 kinds of vertical axes, up to 2 grid mappings, up to 3 changes of the model, 2500 random cases", "coordsys.cc", 2500)]
TRUSTED = ["CF1_xCoordSysBuilder, CoordinateSystem, CoordinateSystemSliceBuilder (text and containers): bounded", "std::regex, udunits2, PROJ"]
