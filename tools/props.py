IN = ["inputs"]
prop("P01", "Horizontal sampling returns the value of the requested interpolation",
     "Sampling a gridded field at a fractional grid position gives, on every level, the value of the nearest grid cell, the bilinear blend of the surrounding cells, or the bicubic convolution of the surrounding 4x4 cells, according to the requested method. A position outside the grid, or an undefined position, gives undefined values, and undefined cells never leak in as numbers. No cell outside the field is ever read, and nothing but the requested number of level values is written.",
     IN, "every field size, number of levels, position (including undefined and far away ones) and every cell value including undefined",
     "the unit tests sample a handful of positions on one small field; borders, undefined positions, many levels and one-cell-wide grids are unreachable by sampling",
     ["src/interpolation.c", "include/fimex/interpolation.h"], "the three point-sampling kernels and their shared bounds tests",
     "Both value and memory safety are proved for all inputs.")
prop("P02", "Interpolation between two levels or times follows the requested law",
     "Given two fields valid at two coordinates, the interpolated field is linear in the coordinate, linear in its logarithm, or linear in its double logarithm, cell by cell, and equals one of the two fields exactly when the target coordinate is the coordinate of that field, even where the other field is undefined. The variants without, with constant and with limited extrapolation give undefined values, the nearer field, or undefined values beyond one interval outside. Coordinates without a logarithm are rejected and leave the output untouched.",
     IN, "every field length, every pair of coordinates and target, every cell value including undefined",
     "tests use single values and coordinates in the interior; end points with undefined partners, equal coordinates and all extrapolation distances need a proof",
     ["src/interpolation.c"], "one-dimensional interpolation kernels used by vertical and time interpolation",
     "log is an uninterpreted function.")
prop("P03", "The axis position of a coordinate is its true fractional index",
     "Converting coordinates to positions on a monotone axis gives the index of the axis value when they coincide, otherwise the linear position in the enclosing interval, extrapolated at the ends. On longitude axes values are wrapped to the axis' range first and, on axes around the globe, positions continue across the seam. Undefined or infinite coordinates end up far outside, and no value outside the axis is read.",
     IN, "every ascending or descending axis of any length, axis type and list of coordinates",
     "tests use two or three fixed axes; seam, end and coincidence cases for every axis length need a proof of the binary search and the conversion loop",
     ["src/interpolation.c"], "binary search with comparator, wrapping loops, conversion loop",
     "The binary search is proved separately and used by contract.")
prop("P05", "Fill values and undefined values are exchanged without touching other data",
     "Replacing the fill value by undefined values changes exactly the elements equal to the fill value, replacing undefined values by the fill value changes exactly the undefined elements. An undefined fill value changes nothing. Converting there and back restores the original data.",
     IN, "every array length and content, every fill value including an undefined one",
     "tests convert a few elements; the claim is about every element of every array",
     ["src/interpolation.c"], "fill value conversion loops")
prop("P06", "Model levels are converted to pressure, height and depth by the CF formulas",
     "For each level the converted value is exactly the documented formula of its own coefficients: logarithmic pressure, sigma and hybrid sigma pressure, hybrid height, the barometric formulas and the two generic ocean s-coordinates. Sigma-from-pressure and height-from-pressure are the inverses of their counterparts. Every level of the list is converted, no other element is read or written.",
     IN, "every number of levels and every coefficient",
     "tests compare few levels with hand-computed numbers; sign, constant or off-by-one errors on other levels stay unseen",
     ["src/vertical_coordinate_transformations.c", "include/fimex/vertical_coordinate_transformations.h", "include/fimex/mifi_constants.h"], "per-level conversion loops",
     "exp and log are uninterpreted functions; the rounding of folded constants is ignored.")
prop("P07", "Humidity, vertical velocity and temperature conversions follow their definitions",
     "Relative and specific humidity, dew point, virtual temperature, layer thickness, and pressure velocity versus vertical wind are converted by their defining formulas. Results are physical: relative humidity never exceeds 100 %, humidity is never negative. The two directions of each conversion are inverses where no clamping takes place.",
     IN, "every physical temperature, pressure, humidity and velocity",
     "tests check single values with coarse tolerances; the clamps and signs over the whole range are not reached",
     ["src/vertical_coordinate_transformations.c"], "scalar conversion functions and velocity loops",
     "exp and log are uninterpreted, exp is assumed positive.")
prop("P08", "Every interpolation method name selects exactly its own method",
     "Each documented method name selects the method it names, and any other text - a prefix, an extension, a different case - is reported as unknown.",
     ["inputs", "configurations"], "every method name string",
     "tests use a few of the names; a name mapped to a neighbouring method still gives plausible fields",
     ["src/interpolation.c"], "chain of string comparisons",
     "Strings are abstract values with equality and length.")
prop("P04", "Filling undefined cells never alters defined cells and leaves no gaps",
     "Filling the undefined cells of a two-dimensional field leaves every defined cell as it was; afterwards no undefined cell is left, unless the field had no defined cell at all (then it is unchanged). Values filled by creeping lie between the smallest and largest defined value (and the default), and the reported number of filled cells is the number of undefined cells. Only cells of the field are touched, for every field shape including single rows and columns.",
     IN, "every field shape and content, every iteration limit, repeat count and relaxation setting",
     "tests fill one or two fields; single-row fields, isolated cells, full and empty fields need the loop invariants",
     ["src/interpolation.c"], "relaxation and creep filling loops with work arrays",
     "The exact count of filled cells is checked on bounded concrete runs only.")
prop("P09", "Grid distances are great-circle distances to the next cell",
     "The distances of a grid cell in both directions are the great-circle distances to the next cell in that direction; the last column and row, where there is no next cell, repeat the distance of the cell before. Fields with a single row or column are handled without reading outside.",
     IN, "every grid size and all cell coordinates",
     "tests use one small grid with coarse tolerance",
     ["src/interpolation.c"], "nested loops over the grid",
     "sin, cos and acos are uninterpreted functions.")
prop("P10", "A requested region of a variable is exactly that region",
     "Cutting a region out of multi-dimensional data gives exactly the values at start+i in every dimension, in order; a request that reaches outside any dimension, however large its numbers, is rejected and never reads outside the data. Values put into existing data from other data replace exactly the positions from the given start on, shortened where either ends, and keep everything else. Reading a region of a variable through a reader gives the same region of the whole variable, also across the unlimited dimension, unpacked, and in another unit.",
     IN, "every shape, start and size (also such that wrap around), data content and element type",
     "tests cut a few fixed regions out of small arrays; wrapping start+size, empty regions and higher ranks need a proof of the recursive copy",
     ["src/DataImpl.h", "include/fimex/RecursiveSliceCopy.h", "src/SliceBuilder.cc", "src/CDMReader.cc"], "recursive copy with running pointers, bounds tests on size_t",
     "Data::slice is proved for ranks 1 to 3 and every size, setValues for every size; SliceBuilder and the reader are checked on bounded runs.")
prop("P11", "Changing the data type keeps every number and every missing value",
     "Converting data to another type with old and new fill value, scale and offset turns every missing value (the old fill value or an undefined number) into the new fill value, and every other value x into (x*oldScale+oldOffset-newOffset)/newScale, rounded to the nearest number for whole-number types. Numbers that fit into the target type are never truncated, and an undefined fill value is not mistaken for a number. Plain type changes keep the number.",
     IN, "every array, every fill value, scale and offset, for representative pairs of the numeric types",
     "tests convert two short arrays; large integers, undefined fill values and undefined data with unchanged scaling are never sampled",
     ["src/DataImpl.h", "src/Data.cc", "include/fimex/DataUtils.h", "include/fimex/MathUtils.h"], "functors applied by std::transform behind virtual dispatch",
     "Proved for ten type pairs without and bounded for all pairs with unit converter; values are treated as real numbers.")
prop("P12", "Regridding with cached positions equals sampling every target cell",
     "Regridding a field to a list of target positions gives in every target cell and level what sampling the whole source field at that position gives: nearest cell, bilinear or bicubic. Restricting the input to the region the positions need changes no value, undefined or far-away positions give undefined cells and change no other cell, and neither the positions nor the data handed in are changed. Regridded parts of a field are the same parts of the regridded field.",
     IN, "every source and target size, positions including undefined and far away ones, number of levels, requested part of the result",
     "tests regrid one field per method with all positions inside; the reduced input domain only matters for particular position patterns",
     ["src/CachedInterpolation.cc", "include/fimex/CachedInterpolation.h", "src/CachedVectorReprojection.cc", "include/fimex/MathUtils.h"], "caching classes with reduced domain, rounding and clamping of positions",
     "Nearest neighbour, cell rounding, creation and the per-level loops are proved; the slicing of input and output is checked on bounded runs.")
prop("P13", "Forward interpolation aggregates exactly the source cells of each target cell",
     "Forward interpolation gives each target cell the sum, mean, median, minimum or maximum of exactly those source cells whose position rounds to that target cell, in each layer separately. Undefined source cells are ignored, except by the undef variants, whose sums and means become undefined by them. Target cells hit by no source cell are undefined, and source cells outside the target contribute nowhere.",
     IN, "every assignment of source cells to target cells, every data content including undefined, number of layers and aggregation method",
     "tests aggregate a few values in a single layer; later layers, empty cells, negative-only and undefined values are never sampled",
     ["src/CachedForwardInterpolation.cc", "include/fimex/CachedForwardInterpolation.h"], "aggregator classes fed cell by cell",
     "The aggregators are proved as step functions; the distribution to cells and the median are checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P14", "Rotated vectors keep their length and turn by the angle between the grids",
     "Reprojecting vector components to another projection keeps the length of every vector and turns it by the angle between the two grids at that cell: the matrix holds exactly cosine and sine of that angle, and the angle is the direction of a small step along the grid as seen in the other projection. Directions turn by the same angle the other way round and stay within 0 to 360 degrees. Undefined components stay undefined and no other cell or level is touched.",
     IN, "every grid size and position, every vector and direction, all levels",
     "tests rotate a few vectors on one grid; angles near the branch cut, grids with two rows and packed components need a statement for all cells",
     ["src/CachedVectorReprojection.cc", "src/reproject.cc", "src/CDMProcessor.cc"], "rotation matrices from finite differences of projected grids",
     "sin, cos, atan2 and the projections are uninterpreted functions; the end-to-end angle is checked on bounded runs against finite differences of proj itself.")
prop("P15", "Accumulation and deaccumulation are sums and differences along time",
     "The accumulated value at a time step is the sum of the unpacked values of all steps up to it, the deaccumulated value is the difference to the step before, also for packed data with scale and offset, and undefined values give undefined results except in the first step, where they count as zero. The result does not depend on which steps were read before. The data of the underlying reader stays unchanged, and deaccumulation undoes accumulation.",
     ["inputs", "histories"], "every data content, packing and fill value, every sequence of reads",
     "tests read the steps once in order from unpacked data; caching of partial sums only matters for other orders of reads",
     ["src/CDMProcessor.cc"], "step functions on arrays, cache of the last accumulated step",
     "The addition of a step is proved for every array; caching over sequences of reads is checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P16", "An interpolated reader gives each target cell the value at its position",
     "Interpolating a reader to another grid (also with automatic axes), to given points, cross-sections or the grid of a template gives every target cell the nearest, bilinear or bicubic value at the place on earth it stands for, computed from the reader's own projection and axes, whatever the projections, axis order and direction, units and packing are; fill values become undefined before and undefined results fill values afterwards. Requested parts of interpolated variables are parts of the whole, and axes, projection and coordinates of the result describe the target. The data, coordinates and description of the underlying reader stay unchanged, so that interpolating again gives the same.",
     ["inputs", "configurations"], "every source and target grid, method, data type and requested part",
     "tests interpolate a few files with all cells inside to one projection each; second use of a reader, conic projections with two parallels and parts of point lists are never sampled",
     ["src/CDMInterpolator.cc", "src/CachedInterpolation.cc", "src/coordSys/*.cc", "src/interpolation.c"], "driver joining projections, axis positions and cached interpolation",
     "The conversions and per-level loops are proved, the composition with proj is checked on bounded runs against an independent calculation with proj.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P17", "Calendar times, encoded times and unit times describe the same instant",
     "A calendar time gives the number of seconds since 1970 of the Gregorian calendar, with its leap years, and the time made from that number is the calendar time again. Times compare as their instants do, are restored exactly from their encoding and their ISO text, and conversions from and to any time unit with any origin, step and time zone are exact to the millisecond, with all parts within their range. Lists of times and numbers with ... and relative to the first and last value expand to exactly the described steps.",
     IN, "every calendar time (years 1 to 4095), every pair of times, every unit and every list specification",
     "tests convert a handful of dates; leap centuries, fractions just below a minute and encodings of every field need a statement for all times",
     ["src/FimexTime.cc", "src/TimeUtils.cc", "src/TimeUnit.cc", "src/TimeSpec.cc", "src/Units.cc", "include/fimex/TokenizeDotted.h", "src/SpatialAxisSpec.cc"], "bit fields, day counts, unit conversion by udunits, expansion of lists",
     "Day counts, encoding and order are proved for all times; conversions through udunits, text and lists are checked on bounded runs against an independent calendar.")
prop("P18", "Time interpolation gives the linear blend of the two enclosing steps",
     "After changing the time axis, the value at each new time is the linear blend of the values at the two enclosing old times, the value itself at an old time even where the neighbours are undefined, and undefined further than one step outside. New times may come in any order and unit; fill values never enter as numbers, type and packing stay. Variables without time and readers whose time axis is not changed pass through, and the underlying data stays unchanged.",
     IN, "every old and new time axis, unit, data type and content",
     "tests interpolate one file at a few times and compare only the times",
     ["src/CDMTimeInterpolator.cc", "src/interpolation.c", "src/TimeUnit.cc"], "search of enclosing steps, kernel applied to two slices",
     "The blend and the conversions are proved; the choice of the steps is checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P19", "Extraction returns exactly the chosen part of the data, in order",
     "After reducing dimensions by positions, ranges, times, vertical levels or a longitude-latitude box, every variable holds exactly the values of the kept positions in their old order, whole, by step and in parts; dimension lengths and coordinates follow. Positions outside a dimension are rejected; a bounding box keeps exactly the rows and columns with a cell inside, whatever the longitude range of the file. Selecting variables keeps those and only those, and the underlying data stays unchanged.",
     IN, "every combination of reductions, shape, and request",
     "tests extract a few ranges from one file and check sizes",
     ["src/CDMExtractor.cc", "src/SliceBuilder.cc", "src/DataImpl.h", "include/fimex/MathUtils.h"], "positions to chunks, parts joined in order",
     "Copying and joining of parts and longitude wrapping are proved; the composition is checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P20", "Vertical interpolation uses the levels that enclose each target",
     "After interpolating to fixed levels, to another vertical axis or to the levels of a template variable, the value in each column is the requested blend of the next level at or below and the next level above the target, and of the two closest different levels if the target is outside, whatever the order of the levels. The column's levels are those of its own coordinate - pressure, sigma, hybrid, logarithmic, height, altitude or ocean levels in any unit - at its own place and time. Targets outside the validity of the coordinate (below the bottom, above the surface) and undefined values are undefined, type and fill value are kept, other variables and the underlying data are unchanged.",
     IN, "every column, level order, coordinate kind, unit and method",
     "tests interpolate one or two files and compare single values; no test interpolates to the first level or beyond it",
     ["src/CDMVerticalInterpolator.cc", "include/fimex/FindNeighborElements.h", "src/coordSys/verticalTransform", "src/ArrayLoop.cc", "src/interpolation.c"], "search of the levels in a column, formula terms to levels",
     "The choice of the levels, the blends and the formulas are proved; columns, units and coordinate systems are checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P21", "Aggregation joins the data of its sources, each at its place",
     "Joined along an existing unlimited dimension, a variable is the concatenation of the sources in the given order; joined along a new dimension, each source is found at its position; as union, each variable comes whole from the first source that has it. A source without a joined variable gives fill values of the right size, sources that do not fit are left out as a whole, and slices, parts and whole data agree. Scans and file patterns select exactly the files that match.",
     IN, "every number, order and shape of sources and every request",
     "tests aggregate two or three fixed files",
     ["src/AggregationReader.cc", "src/NcmlAggregationReader.cc", "src/FileUtils.cc", "src/DataImpl.h"], "position of the request to source and position in it",
     "Copying and joining of parts are proved; the choice of the source is checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P22", "NcML describes a dataset completely and changes only what it says",
     "A dataset written as NcML with its data and read back has the same dimensions, variables, types, attributes and values. A NcML document applied to a dataset renames, removes, retypes, or adds exactly the dimensions, variables and attributes it names; the data of renamed variables is that of the old name, converted to the new type if one is given. Everything else stays as it was.",
     IN, "every dataset, text and combination of changes",
     "tests read one NcML file and check a few names",
     ["src/NcmlCDMReader.cc", "src/NcmlCDMWriter.cc", "src/XMLUtils.cc", "src/CDM.cc", "src/DataImpl.h"], "document to model, model to document",
     "The conversion of the values is proved; reading, writing and applying of documents are checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P23", "The data model stays consistent through every history of changes",
     "After any sequence of adding, renaming and removing of dimensions, variables and attributes, names are unique, every variable's shape refers to existing dimensions and follows renamings, attributes stay with their variable, and all lookups answer according to the changes made. A change that is refused leaves the model as it was. Fill value, scale, offset and valid range are those of the attributes, else the default of the type.",
     IN, "every history of changes and lookups",
     "tests make a few changes on one model",
     ["src/CDM.cc", "src/CDMAttribute.cc", "src/CDMDimension.cc", "src/CDMVariable.cc"], "changes to the maps of variables, dimensions and attributes",
     "The defaults of the types are proved; histories are compared with a reference on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P24", "Merging keeps the inner grid's data and blends it into the outer",
     "With a smoothed border, a variable on the inner grid has the inner value in the core, the outer value on the border and a linear blend across the transition, after both were brought to the inner grid, unit and packing; where one of them is undefined the other one stands in if so configured. Merged onto a larger grid, cells inside the inner grid show these values and all others the outer ones. Variables not on the horizontal grid or found in one dataset only are passed on as they are, in raw type and packing.",
     IN, "every size of grids, border and transition, unit, packing and content",
     "tests merge one pair of files and compare a few values",
     ["src/CDMBorderSmoothing.cc", "src/CDMBorderSmoothing_Linear.cc", "src/CDMMergeUtils.cc", "src/CDMMerger.cc", "src/CDMOverlay.cc"], "weights per cell, two readers on one grid",
     "The blend is proved for every cell and size; grids, units and packing are checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P25", "Projection attributes and proj4 strings describe the same map",
     "A projection made from a proj4 string has CF attributes from which the same map is obtained again: for every point on earth both give the same coordinates, whatever parameters are given, left out or reordered and whatever figure of the earth is used. Projections with the same attributes are equal and such with different ones are not. Longitudes of the pole are kept within -180 to 180 degrees.",
     IN, "every projection, parameter and figure of the earth",
     "tests convert one string per projection and compare text",
     ["src/coordSys/Projection.cc", "src/coordSys/ProjectionImpl.cc", "src/coordSys/*Projection.cc", "include/fimex/CDMNamedEntity.h", "include/fimex/MathUtils.h"], "texts to attributes and back",
     "Only the wrapping of longitudes is proved; the maps are compared on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P26", "Quality extraction masks exactly the cells whose flag is not allowed",
     "With quality flags configured for a variable, a cell has its value if the flag of the same cell and time is one of the allowed ones (listed, within the limits, the highest or the lowest of the field) and the fill value, own or configured, otherwise. The flags may be in the same dataset or in another one, and be found automatically by their standard name. Variables without flags are passed on untouched.",
     IN, "every configuration, shape and content of the flags",
     "tests read one file with one rule",
     ["src/CDMQualityExtractor.cc"], "flags and data of one cell",
     "The extreme of the defined flags is proved for every field; configuration and masking are checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P27", "A netCDF file holds exactly the dataset written to it",
     "A dataset written to a netCDF file of any format is found there with the same dimensions, variables, types, attributes and values, by fimex and by the netCDF library, whole, by steps or by parts. Variables, attributes and values are changed by the configuration of the writer (names, types, units, fill values, attributes, compression) exactly as described and not otherwise. Every type of the data model has its own type in the file.",
     IN, "every dataset and every file format and configuration",
     "tests write and compare one or two files",
     ["src/io/netcdf/NetCDF_Utils.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_CDMWriter.cc", "src/Data.cc"], "data model and file",
     "The types and the conversion of values are proved; files are compared with the dataset on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P28", "Writing into an existing file changes exactly the addressed cells",
     "Data put into a slice or part of a variable of an open file is found there afterwards, packed and converted as the variable says, and every other cell of the file is unchanged; a step beyond the end extends the unlimited dimension. Filling a file from another dataset puts each value at the place with the same coordinates, or at the configured slice, and new times at the end. Variables that are unknown or of another shape are left alone and coordinates that are not in the file are reported.",
     IN, "every history of writes and every choice of positions",
     "tests fill one file once",
     ["src/CDMReaderWriter.cc", "src/FillWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_CDMWriter.cc", "src/SliceBuilder.cc"], "positions of input and output",
     "Packing and cutting of values are proved; positions in the file are checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P29", "Fields derived from pressure, temperature and wind follow their equations",
     "Temperature from potential temperature, relative from specific humidity, vertical wind from pressure velocity, the added pressure and the geopotential height are in every cell the documented function of the values of that cell or column, whatever the order of the dimensions, packing and vertical coordinate. The vertical velocity satisfies the discretised continuity and hydrostatic equations with surface slope, for axes of either direction. Names, units and coordinates of the new variables say what they hold.",
     IN, "every field, grid and order of dimensions",
     "tests compare single values of one model file",
     ["src/CDMPressureConversions.cc", "src/CDMProcessor.cc", "src/interpolation.c", "src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc", "src/vertical_coordinate_transformations.c"], "values of one column",
     "The formulas are proved; their application to fields is checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P30", "Coordinate systems say for each variable which axes and projection it has",
     "The coordinate systems listed for a dataset are exactly those that its variables have by the CF conventions: the axes of the dimensions and the coordinates attribute, their types by standard name, units, axis and positive attributes, the projection of its grid mapping and the vertical transformation of its formula terms. Axes, geographical coordinates and projection of a variable, and the slices selected by axis, follow from its coordinate system, also after any change of the data model. Geographical coordinates generated for a projected grid are the places of its cells, and the two components of a vector are those whose standard names differ only in the direction.",
     IN, "every combination of dimensions, attributes and changes of the model",
     "tests list the coordinate systems of a few files",
     ["src/coordSys/CF1_xCoordSysBuilder.cc", "src/coordSys/CoordinateSystem.cc", "src/coordSys/CoordinateAxis.cc", "src/CoordinateSystemSliceBuilder.cc", "src/CDM.cc", "src/CDMReaderUtils.cc", "src/coordSys/verticalTransform"], "which axis is which",
     "The cutting of slices is proved; the reading of names and attributes is checked on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P31", "The C interface gives the data and description of the reader behind the handle",
     "Numbers, names, types and sizes of variables and dimensions, reference time, axes, projection and slices obtained through the C functions are those of the reader, and data read or written through them, whole, by step or by part and in any unit, are the unpacked values of exactly the addressed cells. A text is copied with its end mark into a buffer that is large enough and not at all into one that is too small, and nothing is written beyond a buffer. A callback gets and changes the unpacked values of its variable only, and every failure is told by the returned value.",
     IN, "every dataset, slice, buffer size and callback",
     "tests call the functions for one felt file",
     ["src/c_fimex.cc", "src/C_CDMReader.cc", "include/fimex/c_fimex.h", "include/fimex/mifi_cdm_reader.h", "src/CoordinateSystemSliceBuilder.cc"], "handles and buffers of the caller",
     "The copying of texts, positions and sizes is proved; the functions are compared with the reader on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
prop("P32", "Values in another unit are the same quantities",
     "A value, and the data of a variable read in another unit, is the value it has in the new unit, after unpacking, in double and float precision, for linear units with and without offset and for logarithmic ones; undefined values stay undefined. Scale and offset are given exactly for conversions that are linear, and refused for others. Units are convertible exactly if they measure the same kind of quantity, and texts that are no units and units of another kind are rejected.",
     IN, "every pair of units, value, packing and part of the data",
     "tests convert a handful of temperatures and lengths",
     ["src/Units.cc", "src/CDMReader.cc", "include/fimex/Units.h", "include/fimex/UnitsConverter.h", "src/DataImpl.h"], "udunits",
     "Linear conversions, their scale and offset, and the unpacking into a unit are proved; parsing and logarithmic units are compared with a table on bounded runs.", level="other", technique="contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5; bounded stand-in for the composition")
