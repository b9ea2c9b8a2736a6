"""Projections: wrapping of the longitude of the pole (contract shared with P19); translation between PROJ strings and CF attributes is a
matter of texts and of the PROJ library, and is checked on bounded runs by comparing the maps."""
from vf.spec import *
from contracts import P19, P14

CONTRACTS = [c for c in P19.CONTRACTS if c.fn == "wrap180"]
NATIVE = {k: v for k, v in getattr(P19, "NATIVE", {}).items() if k == CONTRACTS[0].tu}
CONTRACTS += [c for c in P14.CONTRACTS if c.fn in ("points", "grid_points")]
BOUNDED = [Program("projections", "19 projections with random parameters, given or left out in any order, 8 figures of the earth, 6 points each, 4000 random cases", "projection.cc", 4000)]
TRUSTED = ["PROJ (proj_trans_generic) transforms each point by itself; proj_create_crs_to_crs", "std::regex"]
