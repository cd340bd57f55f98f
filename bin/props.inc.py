PBT = 'property-based testing: '
LEV = 'Random/structured exploration under AddressSanitizer with a reference oracle; no proof. Trusts the harness oracle and the generator bounds stated in DESIGN.md.'
prop('C01', 'Typed data containers convert, rescale, slice and copy values exactly',
     'Reading a data array as any numeric type, or converting it to another type, gives every in-range value exactly (to the nearest integer, halves away from zero, when the target is an integer type); rescaling maps every missing value (the old fill value or NaN) to the new fill value and every other value v to (unit(v*oldScale+oldOffset)-newOffset)/newScale. '
     'Cutting a hyperslab out of an array returns exactly the requested elements in order and refuses requests beyond the array or with dimensions that do not match it. '
     'Copies, clones, slices and partial assignments never change the object they were made from or elements outside the assigned range.',
     ['inputs'], 'all numeric type pairs, values incl. type limits and 64-bit magnitudes, fill/scale/offset/unit combinations, 1-5 dimensional slices',
     'The Python tests read a handful of float arrays; type pairs, ties, limits and missing values are not covered.',
     ['include/fimex/Data.h', 'include/fimex/DataUtils.h', 'include/fimex/MathUtils.h', 'src/Data.cc', 'src/DataImpl.h', 'include/fimex/RecursiveSliceCopy.h'],
     [('data_caster/data_rounder', 'include/fimex/MathUtils.h'), ('ScaleValue, ScaleValueUnits', 'include/fimex/DataUtils.h'), ('DataImpl::slice/setValues/clone', 'src/DataImpl.h')],
     PBT + 'differential against a reference conversion/hyperslab model', LEV)
prop('C02', 'Every way of reading a variable returns the same values',
     'For every variable, reading it whole, record by record, as a hyperslab by start/size, or as a hyperslab by dimension names returns the same elements, whether the values are kept in memory or fetched from the source, and requests outside the variable are refused. '
     'Scaled reading returns value*scale_factor+add_offset with missing values as NaN, converted to the requested unit when one is asked for, and equals scaling the raw values by hand.',
     ['inputs'], 'readers with 1-4 dimensions, with and without unlimited dimension, all data types, all scale/offset/fill/unit attributes, all slices',
     'The Python tests read few whole float variables from fixed files; slices, records, integer packing and missing values are not sampled.',
     ['src/CDMReader.cc', 'src/SliceBuilder.cc', 'include/fimex/CDMReader.h', 'include/fimex/DataUtils.h'],
     [('CDMReader::getData/getDataSlice/getScaledData*', 'src/CDMReader.cc'), ('SliceBuilder', 'src/SliceBuilder.cc')],
     PBT + 'all reading paths compared with a reference array and reference scaling', LEV)
prop('C03', 'The data model stays consistent under every edit history',
     'After any sequence of adding, removing, renaming and replacing dimensions, variables and attributes, the model contains exactly what a plain reference container would contain: names stay unique, failed edits are reported and change nothing, shapes follow renamed dimensions, and all queries (existence, lookup by attribute, unlimited dimension, fill value, dimension in use) agree with the content. '
     'Copies of a model are independent of the original.',
     ['histories'], 'all edit histories over small name sets',
     'The tests apply a couple of fixed edits; interplay of edits (renames onto existing names, removal of used items, copies) is a property of histories.',
     ['src/CDM.cc', 'src/CDMVariable.cc', 'src/CDMAttribute.cc', 'src/CDMDimension.cc'],
     [('CDM', 'src/CDM.cc'), ('CDMAttribute', 'src/CDMAttribute.cc')],
     PBT + 'stateful (model-based) histories against a reference container', LEV)
prop('C04', 'Extraction returns exactly the selected part of the input',
     'Reducing a dimension to a range or a set of positions, an axis (time, vertical) to an interval in any unit, or the grid to a longitude/latitude box returns, for every variable and every way of reading it, exactly the elements of the input at the selected positions, in data order; dimension lengths and coordinate values follow, and positions outside the input are refused. '
     'A bounding box keeps every grid point inside it and drops rows and columns that have none beyond the documented border. '
     'Variable selection keeps exactly the requested variables, plus the auxiliary variables they depend on when asked for.',
     ['inputs', 'configurations'], 'all datasets with 1-4 dimensions in the supported projections, all combinations of position sets, axis intervals, boxes and variable selections',
     'The tests check one extraction range; gaps, several reduced dimensions, records, descending axes and boxes in projected grids are not sampled.',
     ['src/CDMExtractor.cc', 'src/SliceBuilder.cc', 'include/fimex/CDMExtractor.h'],
     [('CDMExtractor::reduceDimension/reduceAxes/reduceLatLonBoundingBox/selectVariables', 'src/CDMExtractor.cc')],
     PBT + 'differential against index selection on the input arrays and PROJ for boxes', LEV)
prop('C05', 'Projection definitions survive translation and locate points as PROJ does',
     'Every supported projection, given as CF grid-mapping attributes or as a proj4 string, translates to the other form and back without changing the projected position of any point, and equality of projections does not depend on the order of their parameters. '
     'Converting grid coordinates to longitude/latitude and back gives the positions PROJ gives for the same definition, with all earth figures honoured.',
     ['inputs'], 'all supported projections with random parameters, earth figures, attribute types and points',
     'The tests read two fixed projections and never compare converted positions.',
     ['src/coordSys/ProjectionImpl.cc', 'src/coordSys/Projection.cc', 'src/reproject.cc', 'src/coordSys/RotatedLatitudeLongitudeProjection.cc', 'src/coordSys/TransverseMercatorProjection.cc'],
     [('Projection::create/createByProj4, getParameters, getProj4String', 'src/coordSys/Projection.cc'), ('convertToLonLat/convertFromLonLat', 'src/coordSys/ProjectionImpl.cc')],
     PBT + 'round trip and differential against direct PROJ calls', LEV)
prop('C06', 'Interpolation kernels compute the documented value at every position',
     'For every grid, position and method, the nearest-neighbour, bilinear and bicubic kernels, and the linear, weak-extrapolating, logarithmic and log-log one-dimensional kernels, return the mathematically defined interpolated value; values outside the grid or touching undefined values become undefined, and no memory outside the arrays is touched. '
     'Axis values are mapped to the fractional index of the value on ascending, descending and longitude axes (modulo 360 degrees), and distances and grid spacings on the sphere are those of spherical geometry.',
     ['inputs'], 'grids from 1x1, 1-4 layers, all positions incl. corners and out of range, undefined values, ascending/descending/circular axes',
     'No existing test calls the kernels with undefined values, positions at the border or descending axes.',
     ['src/interpolation.c', 'include/fimex/interpolation.h'],
     [('mifi_get_values_*', 'src/interpolation.c'), ('mifi_points2position', 'src/interpolation.c'), ('mifi_great_circle_angle, mifi_griddistance', 'src/interpolation.c')],
     PBT + 'differential against reference kernels written from the documentation', LEV)
prop('C07', 'Filling undefined values changes only undefined values and is bounded',
     'Filling the undefined values of a field (iterative fill, creep fill from the mean, creep fill from a given value) leaves every defined value unchanged, reports the number of filled cells, leaves no undefined value unless the whole field is undefined, and touches no memory outside the field. '
     'The iterative fill solves the Laplace equation to the requested tolerance with no gradient across the border; creep fill gives the weighted averages of its neighbours as documented, never leaving the range of the defined values and the start value.',
     ['inputs'], 'fields from 1x1 up, any pattern of undefined values, all parameters',
     'No existing test fills a field.',
     ['src/interpolation.c'],
     [('mifi_fill2d_f, mifi_creepfill2d_f, mifi_creepfillval2d_f', 'src/interpolation.c')],
     PBT + 'invariants, residual of the Laplace equation, reference creep fill', LEV)
prop('C08', 'Horizontal regridding gives the value of the method at the projected position',
     'After changing the projection, every output value of every layer and record equals the value the chosen method defines at the position of the output grid point in the input grid: nearest, bilinear and bicubic interpolation at the re-projected position, the nearest input cell within the distance of interest for coordinate methods, and the sum, mean, median, maximum or minimum of all input cells inside the output cell for forward methods (undef variants propagate undefined values); undefined input and positions outside become the fill value. '
     'Output axes, standard names, grid mapping and generated longitude/latitude describe the target grid, and interpolation to points, templates and cross-sections visits exactly the requested points. '
     'Any slice of the result equals the same part of the whole result, and pre/post-processing (fill, creep fill) is applied to each layer separately.',
     ['inputs', 'configurations'], 'source and target grids in all supported projections, curvilinear sources, packed and float data, layers, records, all methods',
     'The tests regrid one float field to one grid; the relation between positions, layers, types and methods is not sampled.',
     ['src/CDMInterpolator.cc', 'src/CachedInterpolation.cc', 'src/CachedForwardInterpolation.cc', 'src/reproject.cc', 'src/CDM.cc', 'include/fimex/CDMInterpolator.h'],
     [('CDMInterpolator::changeProjection*', 'src/CDMInterpolator.cc'), ('CachedInterpolation', 'src/CachedInterpolation.cc'), ('CachedForwardInterpolation', 'src/CachedForwardInterpolation.cc')],
     PBT + 'end-to-end differential against a reference regridder using PROJ directly', LEV)
prop('C09', 'Vectors keep their true direction and length when their grid is changed',
     'When data is regridded, or when the processor rotates vectors or directions between grid and latitude/longitude, every vector keeps its length and its true geographic direction: its components are turned by the angle between the old and the new grid directions at that very point, for both components and every layer and record. '
     'Direction fields are turned by the same angle and stay within 0 to 360 degrees, undefined components give undefined results, and rotating to latitude/longitude and back restores the input.',
     ['inputs', 'configurations'], 'all pairs of conformal projections, grids of any size incl. 2x2 and grids over the date line, vectors with several layers, packed components',
     'No existing test rotates vectors.',
     ['src/reproject.cc', 'src/CachedVectorReprojection.cc', 'src/CDMInterpolator.cc', 'src/CDMProcessor.cc', 'src/coordSys/CF1_xCoordSysBuilder.cc'],
     [('mifi_get_vector_reproject_matrix*, mifi_vector_reproject_*', 'src/reproject.cc'), ('CDMProcessor::rotate*', 'src/CDMProcessor.cc')],
     PBT + 'differential against angles computed numerically with PROJ, round trips', LEV)
prop('C10', 'NetCDF files contain exactly what was written, or an error is reported',
     'Writing any dataset to any NetCDF format and reading it back, with fimex or with the NetCDF library, gives the same dimensions, variables, attributes, types and values, with missing records as fill values; slices and records written into an existing file change exactly the addressed elements. '
     'The writer configuration (renaming, removal, type, unit, scale, fill value, compression, chunking, file type) changes exactly what it names and keeps the physical values. '
     'Types the format cannot hold, a failing source and a full file system are reported as errors.',
     ['inputs', 'configurations', 'faults'], 'datasets with 0-4 dimensions, all types, attributes of all types, all formats, all writer configurations, histories of slice writes, write limits at any file position',
     'The tests write one or two files and look at single attributes; fill, records, configuration and faults are not sampled.',
     ['src/io/netcdf/NetCDF_CDMWriter.cc', 'src/io/netcdf/NetCDF_CDMReader.cc', 'src/io/netcdf/NetCDF_Utils.cc', 'src/io/netcdf/NetCDFIoFactory.cc', 'src/CDMReaderWriter.cc'],
     [('NetCDF_CDMWriter', 'src/io/netcdf/NetCDF_CDMWriter.cc'), ('NetCDF_CDMReader', 'src/io/netcdf/NetCDF_CDMReader.cc'), ('CDMReaderWriter', 'src/CDMReaderWriter.cc')],
     PBT + 'round trip, differential against libnetcdf, histories of writes, injected source and file-size faults', LEV)
prop('C11', 'NcML reproduces a dataset and edits exactly what it names',
     'A dataset written as NcML with its data and read back has the same dimensions, variables, attributes, types and values, whatever characters, types and missing records it has. '
     'NcML placed on a reader removes, renames, adds and changes exactly the dimensions, variables, attributes, values, shapes and types it names, keeps the physical values when a type or scale changes, and everything else reads as before, whole, by record or by slice. '
     'NcML that is incomplete or inconsistent with the dataset is refused.',
     ['inputs', 'configurations'], 'datasets with 0-4 dimensions, all types, in-memory and read data, all combinations of NcML edits',
     'The tests read one or two fixed NcML files.',
     ['src/NcmlCDMReader.cc', 'src/NcmlCDMWriter.cc', 'src/NcmlUtils.cc', 'src/XMLUtils.cc', 'include/fimex/String2Type.h'],
     [('NcmlCDMReader::init*', 'src/NcmlCDMReader.cc'), ('NcmlCDMWriter::write', 'src/NcmlCDMWriter.cc')],
     PBT + 'round trip, edits applied to a reference model', LEV)
prop('C12', 'Aggregations show every part in order, and fill values where a part has no data',
     'A joinExisting aggregation has the records of all parts in order along the unlimited dimension, a joinNew aggregation one record per part along a new dimension with the given coordinate values, and every other variable comes from the first part that has it with matching dimensions; where a part lacks a joined variable or has other dimensions its records are fill values of the right size. '
     'This holds for records, slices and whole reads, for data in memory and on file, and for parts given by location or by directory scan (in name order); an error of one part is reported when its data is read.',
     ['inputs', 'configurations', 'faults'], '1-5 parts with different variables, dimension lengths, numbers of records and unlimited dimensions; union, joinExisting, joinNew; NcML with locations and scans',
     'The tests aggregate two fixed files.',
     ['src/AggregationReader.cc', 'src/NcmlAggregationReader.cc', 'src/FileUtils.cc'],
     [('AggregationReader::getDataSlice/addReader/initAggregation', 'src/AggregationReader.cc'), ('NcmlAggregationReader', 'src/NcmlAggregationReader.cc')],
     PBT + 'differential against a reference aggregation of plain arrays, injected reader faults', LEV)
prop('C13', 'Accumulated and de-accumulated data are sums and differences, however read',
     'Record n of an accumulated variable is the sum of the records 0 to n of the input, record n of a de-accumulated variable the difference of the records n and n-1, with undefined (NaN) values of the first record counted as 0 and missing records skipped; de-accumulating what was accumulated restores the input. '
     'This does not depend on the order in which records, slices and variables are read or on what was read before; neither the input nor data returned earlier changes.',
     ['inputs', 'histories'], 'histories of up to 10 record, slice and whole reads of up to three variables, all orders, float and integer types, missing records, readers that hand out their own buffers',
     'The tests do not read any accumulated data; the cache between reads is never exercised.',
     ['src/CDMProcessor.cc', 'include/fimex/CDMProcessor.h'],
     [('CDMProcessor::getDataSlice, accumulate, deAccumulate', 'src/CDMProcessor.cc')],
     PBT + 'stateful histories of reads against sums and differences of the input, round trip', LEV)
prop('C14', 'Vertical coordinates convert to pressure, altitude, height and depth by formula',
     'For every kind of vertical coordinate fimex recognises (pressure, ln pressure, sigma, hybrid pressure with a*p0 or ap, hybrid height, height, altitude, ocean s generic forms 1 and 2, pressure or geopotential height fields), the converted pressure, altitude, height or depth at every grid point and level is the value of the CF formula, of the hypsometric equation with virtual temperature, or of the standard atmosphere. '
     'This does not depend on the slice that is read, the order of the dimensions, the units or the packing of the inputs; CDMProcessor::addGeopotentialHeight gives the same altitudes in the shape of the temperature. '
     'The conversion functions of the C interface are inverses of each other.',
     ['inputs', 'configurations'], 'all vertical coordinate types, 1-6 levels in either direction, inputs with or without time and horizontal dimensions, any units, packed or not, any slice',
     'Only a few conversions are tested at single points; slices, units and dimension orders are not sampled.',
     ['src/vertical_coordinate_transformations.c', 'src/coordSys/verticalTransform', 'src/CDMProcessor.cc'],
     [('VerticalConverter::getDataSlice of all converters', 'src/coordSys/verticalTransform'), ('mifi_* vertical functions', 'src/vertical_coordinate_transformations.c')],
     PBT + 'differential against formulas evaluated point by point, metamorphic relation of slices, round trips', LEV)
prop('C15', 'Vertical interpolation gives the interpolant of the column at each target level',
     'At every grid point the value on a target level is the nearest, linear, log or log-log interpolant of the values on the two source levels around it, extrapolated or constant outside as the method says, whether the targets are fixed levels, an axis or the coordinate field of a template variable, and for any order of the source levels. '
     'Points without valid data (outside the valid depth range, unless validity is ignored, or undefined inputs) are fill values, results stay within valid_min and valid_max, missing records stay missing, variables without the vertical axis are unchanged, and the metadata describes the new axis.',
     ['inputs', 'configurations'], 'all vertical coordinate types, 7 methods, 1-6 source and target levels, ascending or descending, packed and unpacked types, undefined values, missing records',
     'The tests interpolate one file with one method.',
     ['src/CDMVerticalInterpolator.cc', 'include/fimex/FindNeighborElements.h', 'src/interpolation.c'],
     [('CDMVerticalInterpolator::getDataSlice, getLevelDataSlice', 'src/CDMVerticalInterpolator.cc'), ('find_closest_neighbor_distinct_elements', 'include/fimex/FindNeighborElements.h')],
     PBT + 'differential against a column-by-column reference interpolation', LEV)
prop('C16', 'Times, time units, units, and time and axis specifications mean what they say',
     'Calendar times, ISO strings, seconds since the epoch and values in any udunits time unit convert into each other as the proleptic Gregorian calendar says, to the millisecond, for all years from 1600 to 2399; unit conversions agree with the definition of the units. '
     'A time specification (absolute or relative to a unit or to start and end of an axis) and a spatial axis specification expand to exactly the times and values they denote, including steps, "...", decimals, relative start and end; malformed ones are refused.',
     ['inputs'], 'times from 1600 to 2399 with milliseconds, at all calendar boundaries, all time units with arbitrary origins, generated and mutated specifications with explicit values, ranges and relative parts',
     'The tests do not convert times outside of one file.',
     ['src/FimexTime.cc', 'src/TimeUnit.cc', 'src/TimeUtils.cc', 'src/TimeSpec.cc', 'src/SpatialAxisSpec.cc', 'include/fimex/TokenizeDotted.h', 'src/Units.cc'],
     [('TimeUnit, FimexTime conversions', 'src/TimeUnit.cc'), ('TimeSpec', 'src/TimeSpec.cc'), ('SpatialAxisSpec', 'src/SpatialAxisSpec.cc'), ('tokenizeDotted', 'include/fimex/TokenizeDotted.h'), ('Units', 'src/Units.cc')],
     PBT + 'differential against an independent calendar and an expansion of the specification, round trips', LEV)
prop('C17', 'Time interpolation is linear between the surrounding records',
     'After changeTimeAxis the value at each new time is the linear interpolant of the values of the two records around it (extrapolated up to one interval outside, undefined beyond), and exactly the original record at an original time, for targets in any order and given in any time unit. '
     'Undefined values and missing records are replaced by the other record, types, packing and variables without time stay unchanged, the metadata describes the new axis, and changeTimeAxis can be called again.',
     ['inputs', 'histories'], '1-6 regular or irregular input times, targets before, in between, at and after them, in any order, packed and unpacked types, fill values, missing records, several calls',
     'The tests do not interpolate in time.',
     ['src/CDMTimeInterpolator.cc', 'src/TimeSpec.cc', 'src/interpolation.c'],
     [('CDMTimeInterpolator::changeTimeAxis, getDataSlice', 'src/CDMTimeInterpolator.cc'), ('mifi_get_values_linear_*', 'src/interpolation.c')],
     PBT + 'differential against a record-by-record reference interpolation', LEV)
prop('C18', 'Merging puts inner data onto outer data with a smooth border, and keeps both',
     'Border smoothing gives, on the inner grid, the outer value in the border, the inner value in the interior, and a linear transition between both in the transition zone; where one of them is undefined or a record is missing the other one is used. An overlay gives the top value wherever it is defined and the interpolated base value elsewhere; the merger gives both on the target grid, which for setTargetGridFromInner is the inner grid continued to the border of the outer grid. '
     'Outer values are converted to units, type and packing of the inner variable, variables that exist on one side only are kept or dropped as requested, and variables without x and y come unchanged from the inner data.',
     ['inputs', 'configurations'], 'grids of up to 14x14 points in all projections, ascending and descending axes in m or km, equal or different projections, levels, times, packed types, units, fill values, missing records, all widths',
     'The test merges one pair of files and looks at the dimensions.',
     ['src/CDMMerger.cc', 'src/CDMOverlay.cc', 'src/CDMBorderSmoothing.cc', 'src/CDMBorderSmoothing_Linear.cc', 'src/CDMMergeUtils.cc'],
     [('CDMBorderSmoothing::getDataSlice', 'src/CDMBorderSmoothing.cc'), ('CDMOverlay::getDataSlice', 'src/CDMOverlay.cc'), ('CDMMerger::setTargetGridFromInner, extendInnerAxis', 'src/CDMMerger.cc'), ('makeMergedCDM', 'src/CDMMergeUtils.cc')],
     PBT + 'differential against a point-by-point reference with an outer field that is linear in the outer grid', LEV)
prop('C19', 'Quality extraction keeps exactly the values whose status is allowed',
     'After quality extraction every value whose status is among the allowed values, or is defined, valid and the highest, the lowest, at least the minimum or at most the maximum of its slice as configured, is unchanged, and every other one is the fill value of the configuration or of the variable; a status variable with fewer dimensions applies to all levels and times, a status can come from another file, be the variable itself or be quality-assured itself, and CF status flags are found automatically. '
     'This holds for every record, slice and order of reading, the input does not change, and inconsistent configurations are refused.',
     ['inputs', 'configurations', 'histories'], 'up to 3 variables and 2 status variables of all types and 1-4 dimensions, all kinds of rules, automatic and configured, own, other file, status of status, data in memory, readers that hand out their own buffers, histories of reads',
     'The tests do not use the quality extractor.',
     ['src/CDMQualityExtractor.cc', 'include/fimex/CDMQualityExtractor.h'],
     [('CDMQualityExtractor::getDataSlice and constructor', 'src/CDMQualityExtractor.cc')],
     PBT + 'stateful histories of reads against a reference that applies the generated rules value by value', LEV)
prop('C20', 'Filling data into an existing file puts each value where its coordinates say',
     'FillWriter writes each value of the input at the place in the output file where the dimension coordinates have the same value (also if they are in other units or packed otherwise), converted to unit, packing and type of the variable in the file; new coordinate values are appended along the unlimited dimension only. '
     'With a configuration the configured slices of dimensions are written to the configured places. '
     'Everything else in the file (attributes, other variables, other places, the shape) is unchanged; data for which there is no place are refused with an exception.',
     ['inputs', 'configurations', 'histories'], 'nc3/nc4 files of 1-4 dimensions, up to 4 fills into the same file, all types, packings and units, records that exist, are new or partly overlap, coordinates in any order, dimension translations',
     'The tests do not fill any file.',
     ['src/FillWriter.cc', 'src/CDMReaderWriter.cc', 'src/io/netcdf/NetCDF_CDMReader.cc', 'src/CDMReaderUtils.cc'],
     [('FillWriter', 'src/FillWriter.cc'), ('NetCDF_CDMReader::putDataSlice, sync', 'src/io/netcdf/NetCDF_CDMReader.cc')],
     PBT + 'stateful histories of fills against a reference file model, read back with the netcdf-c library', LEV)
prop('C21', 'Fields derived with the pressure of each point follow the formulas',
     'CDMPressureConversions gives, at every grid point, level and time, the temperature T = theta*(p/1000hPa)^(R/cp), the relative humidity of specific humidity limited to 0..1, the vertical wind w = -omega*R*T/(g*p) and the 4-dimensional pressure with the pressure p of that very point, for every kind of vertical pressure coordinate, dimension order, unit and packing. '
     'New variables carry the dimensions and coordinates of the old ones, other variables are unchanged, and this does not depend on the slice that is read.',
     ['inputs', 'configurations'], 'pressure, ln pressure, sigma and hybrid coordinates and pressure fields, 1-6 levels, any order of dimensions, units and packing, missing values, any subset of the four operations, any slice',
     'The tests do not convert anything with pressure.',
     ['src/CDMPressureConversions.cc', 'src/vertical_coordinate_transformations.c'],
     [('CDMPressureConversions::getDataSlice and constructor', 'src/CDMPressureConversions.cc')],
     PBT + 'differential against formulas evaluated point by point, metamorphic relation of slices', LEV)
prop('C22', 'The C interface delivers and stores the same data; errors become return codes',
     'Through the C functions (mifi_*) a program sees the same variables, dimensions, units, times and values as through the C++ interface for every slice builder setting, without memory errors; values written through it come back when read with it in any unit. '
     'A C_CDMReader callback replaces the data of its variable only, in whatever way they are read. '
     'Unknown variables, dimensions, slices outside of the data and failing callbacks give an error return and never end the program.',
     ['inputs', 'configurations', 'histories'], 'datasets of 0-4 dimensions with and without coordinate systems and reference times, random builder settings inside and outside of the range, any unit, packed types, files in read-write mode, failing and succeeding callbacks',
     'The tests use the C interface through Python on a few files, with valid arguments.',
     ['src/c_fimex.cc', 'src/C_CDMReader.cc', 'src/CoordinateSystemSliceBuilder.cc', 'include/fimex/mifi_cdm_reader.h'],
     [('mifi_* functions', 'src/c_fimex.cc'), ('C_CDMReader', 'src/C_CDMReader.cc'), ('CoordinateSystemSliceBuilder', 'src/CoordinateSystemSliceBuilder.cc')],
     PBT + 'differential against the C++ interface and a reference array, histories of writes', LEV)
prop('C23', 'A GRIB file is read as the fields, grids, levels and times it encodes',
     'Reading GRIB1/GRIB2 files (one or many, directly or through a grbml or protobuf index) gives exactly the configured parameters, with every message at its valid time, level and ensemble member, every value at the longitude and latitude the message gives to it (any grid type, earth and scan order), missing values undefined, and scaled and packed as configured; slices are parts of the whole. '
     'A protobuf index gives back every CDM put into it. '
     'Files with incomplete or damaged messages are refused with an exception.',
     ['inputs', 'configurations', 'faults'], 'lon/lat, rotated, Lambert, polar stereographic and Mercator grids of both editions, all scan flags and earth shapes, steps in seconds to days, accumulations, hybrid levels, up to 4 members and 4 files, configurations with decoys, truncated files and damaged headers',
     'The tests do not read any GRIB file.',
     ['src/io/grib/GribFileIndex.cc', 'src/io/grib/GribCDMReader.cc', 'src/io/grib/GribCDMIndexer.cc', 'src/io/grib/GribReaderConfig.cc', 'src/io/grib/GribUtils.cc', 'src/ProtobufCDM.cc'],
     [('GribFileMessage, grid definitions, GribFileIndex', 'src/io/grib/GribFileIndex.cc'), ('GribCDMIndexer', 'src/io/grib/GribCDMIndexer.cc'), ('GribCDMReader::getDataSlice', 'src/io/grib/GribCDMReader.cc'), ('readCDM, writeCDM', 'src/ProtobufCDM.cc')],
     PBT + 'messages generated with the ecCodes library, positions from PROJ; differential against the generated field model, round trip of indexes, fault injection in files', LEV)
prop('C24', 'A written GRIB file has each field at its level, time and position',
     'Writing GRIB1 or GRIB2 gives exactly one message for every configured variable, level, time and reference time with data: with the parameter, level, process and other keys of its own configuration, the reference and valid time of the source, grid points at the longitudes and latitudes of the source, and unpacked values in the configured unit, undefined ones missing. '
     'Fields without values are left out or written as configured, grids GRIB cannot store are not written, and a full disk is reported as an error.',
     ['inputs', 'configurations', 'faults'], 'lon/lat, rotated, Lambert and polar stereographic grids in both directions and hemispheres, axes in m and km, irregular time steps from seconds to days, several reference times, pressure, height, sigma and hybrid levels, packed data and coordinates, both dimension orders, unit conversions, parameters by name, standard_name and level, append and overwrite, /dev/full',
     'The tests do not write any GRIB file.',
     ['src/io/grib/GribApiCDMWriter_ImplAbstract.cc', 'src/io/grib/GribApiCDMWriter_Impl1.cc', 'src/io/grib/GribApiCDMWriter_Impl2.cc', 'src/io/grib/GribIoFactory.cc', 'src/CoordinateSystemSliceBuilder.cc'],
     [('GribApiCDMWriter_ImplAbstract::run, setTime, getLevels, getNodePtr', 'src/io/grib/GribApiCDMWriter_ImplAbstract.cc'), ('setProjection, setLevel, handleTypeScaleAndMissingData', 'src/io/grib/GribApiCDMWriter_Impl2.cc')],
     PBT + 'written files decoded with the ecCodes library and PROJ, compared with the generated field model', LEV)
prop('C25', 'CF metadata give every variable its coordinate system, axes and projection',
     'From CF metadata every variable gets its complete coordinate system (all axes with their types, x, y, z, time and reference-time axes, longitude and latitude, projection, vertical transformation with its formula terms, simple grid or not), whatever the names, order of definition and way the attributes describe an axis (standard_name, units, axis, positive in any case), and independent of what other variables contain. '
     'The queries of the CDM (horizontal x and y axis, longitude, latitude, time, vertical axis, projection of a variable), the best horizontal coordinate systems and the dependency variables (coordinates, bounds, formula terms) agree with it, also after edits of the CDM, and slices by axis type select the positions of the right dimension, also for times per reference time. '
     'Vector components are paired exactly when they have the same standard_name apart from x/y or eastward/northward and the same shape.',
     ['inputs', 'configurations', 'histories'], 'datasets of up to 4 grids in all projections, lon/lat, irregular grids, station data, all vertical coordinate types with their formula terms, reference times, ensembles, bounds, auxiliary coordinates, decoys, random names and order, histories of edits, vector components in any combination',
     'The tests look at the coordinate systems of a few files.',
     ['src/coordSys/CF1_xCoordSysBuilder.cc', 'src/coordSys/CoordSysUtils.cc', 'src/coordSys/CoordinateSystem.cc', 'src/coordSys/CoordinateAxis.cc', 'src/CDM.cc'],
     [('CF1_xCoordSysBuilder::listCoordinateSystems, enhanceVectorProperties', 'src/coordSys/CF1_xCoordSysBuilder.cc'), ('CoordinateSystem', 'src/coordSys/CoordinateSystem.cc'), ('CDM::getHorizontalXAxis and others', 'src/CDM.cc')],
     PBT + 'differential against the generated description of the dataset; metamorphic relation over renaming, reordering and edits', LEV)
prop('C26', 'A FELT file is read as the fields it contains, and damaged ones are reported',
     'Reading a FELT file gives exactly the configured parameters, each field at its valid time, level and ensemble member with raw value times ten to its scale, missing points as fill value, and grid coordinates, longitudes, latitudes, levels and reference time as encoded, whatever the byte order, order and packing of the fields, position in the file, unused index entries and fields that are not configured. '
     'Times at which a variable has no field give no data, absent levels or members the fill value, and a time after the last one an exception. '
     'Parts missing from a truncated file, files being written, other files, and fields whose grid or integer scale does not fit the variable are reported as errors, never read as data, and no damaged word of a file makes the reader touch memory outside its data.',
     ['inputs', 'configurations', 'faults'], 'all grid types with standard and extended grid parameters, both scan directions and byte orders, blocks beyond 32767, grids above 32767 points, hybrid levels, ensembles, several reference times, parameter restrictions, short, float and double parameters, every cut of a file',
     'The tests do not read any FELT file.',
     ['src/io/felt/FeltFile.cpp', 'src/io/felt/FeltField.cpp', 'src/io/felt/FeltGridDefinition.cpp', 'src/io/felt/Felt_File2.cc', 'src/io/felt/Felt_Array2.cc', 'src/io/felt/FeltParameters.cc', 'src/io/felt/FeltCDMReader2.cc'],
     [('FeltFile, FeltField', 'src/io/felt/FeltFile.cpp'), ('FeltGridDefinition', 'src/io/felt/FeltGridDefinition.cpp'), ('Felt_Array2, Felt_File2', 'src/io/felt/Felt_File2.cc'), ('FeltCDMReader2', 'src/io/felt/FeltCDMReader2.cc')],
     PBT + 'generated files, differential against the generated list of fields; fault injection by truncation and by damaged words', LEV)
prop('C27', 'Vertical velocity follows from mass continuity on the model levels',
     'addVerticalVelocity adds upward_air_velocity_ml in m/s with the shape and coordinate system of the x wind; every value is the wind along the sloping model level plus the ascent balancing the divergence of the mass flux integrated from the top, with half levels from ap and b, hydrostatic heights from the temperature and the surface, and great-circle grid distances, zero at the top level and copied from the nearest inner point at the edges. '
     'It is zero without wind, linear in the wind, and independent of the units, packing and types of the fields, of the direction of the axes and levels, of the order of variables, and of ensemble and time dimensions; grids smaller than three points are refused.',
     ['inputs', 'configurations', 'histories'], 'lon/lat, rotated, stereographic and Lambert grids in both directions, levels top-down and bottom-up, ensembles, unlimited and fixed times, surface altitude or geopotential, packed fields, undefined values, unrelated heights and temperatures in the same file',
     'The tests do not calculate vertical velocities.',
     ['src/CDMProcessor.cc', 'src/interpolation.c'],
     [('CDMProcessor::addVerticalVelocity, getDataSlice', 'src/CDMProcessor.cc'), ('mifi_compute_vertical_velocity, mifi_griddistance', 'src/interpolation.c')],
     PBT + 'differential against an independent implementation of the continuity equation with error bounds, metamorphic relations (calm, superposition)', LEV)
prop('C28', 'Files are opened as what they are, and patterns find the files they describe',
     'Without a type, or with an unknown one, netCDF files of all formats, GRIB files and GRIB indexes are recognised by their content whatever their name and NcML by its extension, a known type decides alone, other content is refused, and an output file has the format its type or else its extension says, or nothing is written. '
     'A file pattern finds exactly the regular files it matches, each once and alphabetically within a directory (* and ? within a name, ** across directories, all other characters literal), and a scan exactly the files down to the given depth whose name or relative path matches. '
     'Opening a pattern, a many: or list: collection or additional files gives the records of exactly those files, netCDF in the order of their names.',
     ['inputs', 'configurations'], 'random directory trees with special characters in all names, patterns derived from existing paths, relative and absolute; five netCDF formats, GRIB 1 and 2, index, NcML and near-miss garbage under right, empty and misleading names, for reading and read-write; all netCDF and NcML output types',
     'The tests open files by explicit type only and use no patterns.',
     ['src/CDMFileReaderFactory.cc', 'src/IoFactory.cc', 'src/FileUtils.cc', 'src/NcmlIoFactory.cc', 'src/io/netcdf/NetCDFIoFactory.cc', 'src/io/grib/GribIoFactory.cc'],
     [('findFactory', 'src/CDMFileReaderFactory.cc'), ('scanFiles, globFiles, getExtension', 'src/FileUtils.cc'), ('NetCDFIoFactory', 'src/io/netcdf/NetCDFIoFactory.cc'), ('GribIoFactory', 'src/io/grib/GribIoFactory.cc')],
     PBT + 'generated directory trees against an independent pattern matcher; generated files of every format with round trips through the factories', LEV)
prop('C29', 'The Python interface delivers, stores and processes the same data as the library',
     'Data made from any numpy array (every numeric dtype, byte order, stride, order, alignment, list) hold its values in C order in the type asked for and stay valid, and are released, independently of which side goes first, and values() returns exactly the data, type and text of the library; unsupported types are refused. '
     'Dimensions, variables and attributes built, edited and queried from Python, and all ways of reading (whole, slices, slice builders, scaled, in units), give what the same calls give in C++, errors become exceptions on both sides, and a reader written in Python serves all the library like a C++ one. '
     'Extraction, interpolation in space, time and height, merging, aggregation, NcML, writing in the requested netCDF version, read-write access and coordinate systems give the same results and refusals from Python as from C++.',
     ['inputs', 'configurations', 'histories'], 'arrays of all dtypes and views, texts, random datasets of all types, readers in Python with failures, all processing steps with valid and invalid arguments and every overload',
     'The tests call each function once, with plain arrays and without looking at most values.',
     ['modules/python/pyfimex0_Data.cc', 'modules/python/pyfimex0_CDM.cc', 'modules/python/pyfimex0_CDMReader.cc', 'modules/python/pyfimex0_CDMWriter.cc', 'modules/python/pyfimex0_CDMInterpolator.cc'],
     [('create_NpArrayData, Data_values', 'modules/python/pyfimex0_Data.cc'), ('PyCDMReader', 'modules/python/pyfimex0_CDMReader.cc')],
     PBT + 'embedded interpreter; differential of every call against the same call in C++; round trips of arrays', LEV)
prop('C30', 'WRF output has the grid, times and coordinate systems the WRF model defines',
     'For a WRF dataset (Lambert, polar stereographic, Mercator, latitude-longitude or rotated, from MAP_PROJ, TRUELAT1/2, STAND_LON, POLE_LAT/LON, CEN_LAT/LON, DX and DY on a sphere of 6370 km) every gridded variable has a complete coordinate system with the mass or staggered x, y, vertical and time axes of its own dimensions, and the projection puts every grid point at the geographic position WRF gives it. '
     'The time axis holds the times of the variable Times, or else START_DATE and steps of TIME_STEP_MN (180 minutes by default), forecast_reference_time is SIMULATION_START_DATE, U/V and UAH/VAH are vectors, and all other data stay as they are. '
     'Interpolation to points or to a longitude-latitude grid delivers the values of the grid points there, winds on the mass grid turned from grid to geographic directions, with CF coordinate systems.',
     ['inputs', 'configurations'], 'all map projections on both hemispheres, centres off the standard longitude and latitude, float and double attributes, with and without staggered, vertical and soil dimensions, Times or START_DATE, in memory and from netCDF files',
     'The tests do not read any WRF file.',
     ['src/coordSys/WRFCoordSysBuilder.cc', 'src/CDMInterpolator.cc', 'src/interpolation.c'],
     [('WRFCoordSysBuilder', 'src/coordSys/WRFCoordSysBuilder.cc'), ('CDMInterpolator::changeProjection', 'src/CDMInterpolator.cc'), ('mifi_points2position', 'src/interpolation.c')],
     PBT + "differential against an independent formulation of WRF's map projections and times", LEV)
prop('C31', 'The Fortran interface delivers, stores and interpolates as the library does',
     'FimexIO lists exactly the variables, dimensions, types, axes, projection, longitude and latitude and reference time of the file, reads and writes exactly the part selected with reduce_dimension, scaled and in the unit asked for, and interpolates to grids and points as in C++; wrong names, positions, sizes, units and closed or missing files give the documented error code or an empty name, files are closed when a handle is closed or used again, and its constants equal those of the library. '
     'FIMEX2D finds sizes, names and base time of a field, and reads and writes FIELD(x,y) of exactly the given or else first step, realization and level, with its time, whatever the order of the dimensions, kind of vertical axis and optional arguments given, or ends with an error; EPOCH2DTG gives the date and hour.',
     ['inputs', 'configurations', 'histories'], 'random netCDF files with all vertical axes, ensembles, fixed and unlimited times, permuted dimensions, packed data and undefined values; all combinations of optional arguments, names with trailing blanks; sequences of writes; dates 1900 to 2146',
     'The tests do not call the Fortran interface.',
     ['modules/F90/fimex.f90', 'modules/F90/fimex2d.F90', 'src/c_fimex.cc'],
     [('module Fimex', 'modules/F90/fimex.f90'), ('module Fimex2D', 'modules/F90/fimex2d.F90')],
     PBT + 'generated files and calls through one-call wrappers in Fortran, differential against the generated dataset and the same interpolation in C++', LEV)
