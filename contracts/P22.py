"""NcML: conversion of values to another type (contracts shared with P11); the description written from a reader and the changes described
by a NcML document are checked on bounded runs."""
from vf.spec import *
from contracts import P11

CONTRACTS = list(P11.CONTRACTS)
NATIVE = dict(getattr(P11, "NATIVE", {}))
BOUNDED = [Program("ncml", "up to 5 variables of 11 types, dimensions up to 3, up to 4 attributes each: written and read back, or changed by a document with renamings, removals, types, values and attributes, 6000 random cases", "ncml.cc", 6000)]
TRUSTED = ["libxml2", "NcmlCDMReader, NcmlCDMWriter (reading and applying the document): bounded"]
