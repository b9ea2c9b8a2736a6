"""Aggregation: the joining of parts and sub-blocks of each source (contracts shared with P10); which source serves which position, the
resulting model and the selection of the sources are checked on bounded runs."""
from vf.spec import *
from contracts import P10

CONTRACTS = list(P10.CONTRACTS)
NATIVE = dict(P10.NATIVE)
BOUNDED = [
    Program("aggregation", "1 to 4 sources with up to 6 variables, dimensions up to 3, lengths and names of dimensions that agree or not, joinExisting, joinNew and union, 20000 random cases", "aggregate.cc", 20000),
    Program("sources", "directory trees up to 3 deep, patterns of up to 3 parts; NcML aggregations of up to 5 files, 2000 random cases", "files.cc", 2000),
]
TRUSTED = ["AggregationReader (choice of the source, joined model): bounded", "std::regex, std::filesystem, libxml2"]
