# fmt: off
REF = ('runtime monitoring: every observed result of the real code is compared on line with an '
       'executable reference model over randomized workloads')
MET = 'runtime monitoring: metamorphic trace oracle over pairs of executions of the real code'

P('P01', 'A predicted tide is the harmonic sum of its constituents',
  'For any complex harmonic constants, constituents, times, delta-T and correction scheme, the tide time series, drift and map predictors return the sum over constituents of f*Re(z*exp(i*(argument+u))) with the published equilibrium arguments and nodal corrections of the scheme, so that each form gives at the same place and time the same value, alone or within a batch and in any order of the constituents. '
  'A prediction is masked exactly where any of its constants is masked, and the inputs are left as they were.',
  ['inputs', 'configurations'],
  'all constants (complex, masked, one or many sites), constituent subsets and orders, epochs within +-60 years of 1992, scalar or per-time delta-T, and all correction schemes (OTIS, ATLAS, TMD3, netcdf, GOT, FES, perth3)',
  'the stable tests call the predictors at no time other than through one fixed model; the validation tests need downloaded models and check a few stations with a fixed set of constituents',
  ['pyTMD/predict.py', 'pyTMD/arguments.py'],
  [('harmonic synthesis', 'pyTMD/predict.py time_series, drift, map'), ('nodal corrections', 'pyTMD/arguments.py nodal')],
  observe=['return values of pyTMD.predict.time_series, drift, map'],
  technique=REF + ' (scalar harmonic synthesis) plus batch, order, linearity and masking oracles',
  note='Held on the observed executions only; the reference is a scalar reimplementation of the published formulas, with double-precision tolerance of 3e-8 of the summed amplitudes. One listed finding (FES L2).')

P('P02', 'Minor tides are inferred from the majors by the published admittances',
  'For any set of major constants, the inferred minor tide equals the sum of the minor constituents that are not already in the majors, each with its published linear (or spline) admittance, nodal modulation and argument for the correction scheme, restricted to the minors requested. '
  'The result is linear in the majors, does not depend on the order of the constituents or on which other times and sites are in the batch, is masked where the majors are, and nothing is inferred when too few majors are available.',
  ['inputs', 'configurations'],
  'all subsets and orders of the majors, requested minors, epochs, delta-T, site/time shapes and correction schemes',
  'the stable tests do not call the inference; existing tests check a fixed set of models that must be downloaded',
  ['pyTMD/predict.py', 'pyTMD/arguments.py'],
  [('inference of minors', 'pyTMD/predict.py infer_minor, _infer_short_period, _infer_semi_diurnal, _infer_diurnal, _infer_long_period'),
   ('minor arguments', 'pyTMD/arguments.py minor_arguments')],
  observe=['return value of pyTMD.predict.infer_minor'],
  technique=REF + ' (scalar admittance model) plus linearity, order and batch oracles',
  note='Majors are held in single precision by the code: tolerance 1e-5 relative. One listed finding (FES L2).')

P('P03', 'Arguments and nodal corrections follow the published tables',
  'For any epoch, constituent list, correction scheme and M1 convention, the equilibrium argument, nodal amplitude factor and nodal phase of each constituent are those of the published tables, a compound taking the product of the factors and the sum of the phases of its parents. '
  'They depend on the identity of the constituent and not on the position or the company in which it is requested, and minor-constituent arguments are those of the same lines.',
  ['inputs', 'configurations'],
  'all known constituents, epochs within +-60 years, scalar or per-time delta-T, all schemes and M1 conventions, and random subsets and orders of the constituents',
  'the stable tests compare at one or a few dates with a copy of the same expressions for a subset of constituents, in one order',
  ['pyTMD/arguments.py', 'pyTMD/astro.py'],
  [('equilibrium arguments', 'pyTMD/arguments.py arguments, minor_arguments'), ('nodal corrections', 'pyTMD/arguments.py nodal'),
   ('Doodson arguments', 'pyTMD/arguments.py doodson_arguments? / pyTMD/astro.py mean_longitudes, doodson_arguments')],
  observe=['return values of pyTMD.arguments.arguments, minor_arguments, nodal'],
  technique=REF + ' (scalar nodal and argument formulas)',
  note='Comparison as f*exp(iu) to 1e-7. The reference formulas were transcribed from the publications, not from the code. One listed finding (FES L2).')

P('P04', 'Each constituent ID names one tidal line',
  'Every constituent ID has one Doodson vector, a compound having the sum of its parents, and its Doodson number, Cartwright vector, extended number, frequency and the inverse decodings all describe that same line. '
  'IDs, file names and long names that are spelled in any supported way resolve to the same constituent, and what cannot be represented or recognized is refused rather than mistaken for another line.',
  ['inputs', 'configurations'],
  'all known constituents, all Doodson numbers in the extended alphabet, spellings of the IDs in strings and file names, and all correction schemes',
  'the stable tests check a sample of IDs and round trips',
  ['pyTMD/arguments.py', 'pyTMD/io/constituents.py'],
  [('Doodson tables', 'pyTMD/arguments.py coefficients_table, doodson_number, frequency'), ('number formats', 'pyTMD/arguments.py _to_doodson_number, _from_doodson_number, _to_extended_doodson, _from_extended_doodson'),
   ('spellings', 'pyTMD/io/constituents.py _parse_name'), ('parameters', 'pyTMD/arguments.py _constituent_parameters')],
  observe=['return values of the functions above'],
  technique=REF + ' (constituent table derived from the compound names) plus decode/encode inverse oracles',
  note='Exhaustive over the known constituent IDs and schemes; Doodson numbers are sampled.')

P('P05', 'Astronomical positions and Earth rotation follow the conventions',
  'Mean longitudes, Doodson and Delaunay arguments, sidereal time, obliquity, nutation, precession and polar motion evaluate the published series at any epoch, and the rotation from the celestial to the terrestrial frame is the proper rotation composed of them in the order of the IERS conventions. '
  'Solar and lunar positions, approximate or from JPL ephemerides, are the rotated geocentric positions of the bodies, element by element in the input times and independent of the batch.',
  ['inputs', 'configurations'],
  'epochs within 1900-2100 for the series and 1973-2024 for Earth rotation, all longitude methods, synthetic ephemeris kernels',
  'the stable tests do not reach this module; the existing ones compare one date with a downloaded kernel',
  ['pyTMD/astro.py'],
  [('mean longitudes', 'pyTMD/astro.py mean_longitudes, doodson_arguments, delaunay_arguments'), ('Earth rotation', 'pyTMD/astro.py itrs, gast, precession_matrix, nutation matrices, polar motion'),
   ('positions', 'pyTMD/astro.py solar_ecef, lunar_ecef, solar_ephemerides, lunar_ephemerides')],
  observe=['return values of the functions above'],
  technique=REF + ' (independent series and rotation model; synthetic SPK kernels)',
  note='Sidereal time, delta-T and polar motion of the timescale package are trusted.')

P('P06', 'Long-period equilibrium tides are the fifteen-line equilibrium sum',
  'For any times and latitudes the long-period equilibrium tide is the sum of the requested Cartwright-Tayler-Edden lines with the degree-two factor and the second-degree zonal function of latitude, on paired or crossed times and latitudes. '
  'It is additive over lines, symmetric about the equator, and each value is independent of the others in the batch.',
  ['inputs', 'configurations'],
  'epochs within +-60 years, all latitudes, subsets of the lines in any case, all correction schemes and pairings',
  'the stable test compares one fixed set of times and latitudes with a copy of the formula',
  ['pyTMD/predict.py'],
  [('equilibrium tide', 'pyTMD/predict.py equilibrium_tide')],
  observe=['return value of pyTMD.predict.equilibrium_tide'],
  technique=REF + ' (scalar equilibrium tide) plus superposition and symmetry oracles',
  note='Amplitudes and phases of the lines are those of the publications.')

P('P07', 'Solid Earth tide displacements follow the IERS conventions',
  'For any station, epoch and positions of sun and moon, the displacement is the sum of the degree-2 and degree-3 body tides with latitude-dependent Love numbers, the out-of-phase and latitude-dependence corrections, and the frequency-dependent diurnal and long-period corrections of the IERS conventions. '
  'The mean-tide system differs from the tide-free one by exactly the permanent tide of the documentation, and each row of a batch is independent of the others.',
  ['inputs', 'configurations'],
  'stations over the globe at any height, epochs within +-40 years of 1992, all physical directions and distances of the bodies, Love numbers, both tide systems',
  'the stable tests do not reach this routine; the existing ones check a handful of IERS test cases with a loose tolerance',
  ['pyTMD/predict.py'],
  [('solid Earth tide', 'pyTMD/predict.py solid_earth_tide and its correction terms')],
  observe=['return value of pyTMD.predict.solid_earth_tide'],
  technique=REF + ' (scalar IERS displacement model) plus batch independence and tide-system oracles',
  note='Reference is a scalar transcription of IERS 2010 chapter 7 and DEHANTTIDEINEL.')

P('P08', 'Pole tides are linear in the wobble and follow the IERS conventions',
  'Load and ocean pole tide displacements are the documented linear functions of the wobble (polar motion minus the secular or mean pole of the convention), evaluated per row, and the ocean pole map is read whole and interpolated at any longitude without seams. '
  'Zero wobble gives zero displacement, and the result does not depend on the other rows.',
  ['inputs', 'configurations'],
  'positions over the globe, epochs 1976-2024, conventions, Love numbers, synthetic ocean pole maps, all interpolation methods and longitude conventions',
  'the stable tests check the load pole tide at a fixed set of points; the ocean pole tide test is not reliable',
  ['pyTMD/predict.py', 'pyTMD/io/IERS.py', 'pyTMD/compute.py'],
  [('load and ocean pole tide', 'pyTMD/predict.py load_pole_tide, ocean_pole_tide'), ('ocean pole map', 'pyTMD/io/IERS.py extract_coefficients, read_binary_file')],
  observe=['return values of pyTMD.predict.load_pole_tide, ocean_pole_tide and pyTMD.io.IERS.extract_coefficients'],
  technique=REF + ' (scalar pole tide model, synthetic coefficient maps)',
  note='Polar motion of the timescale package is trusted.')

SYN = ('runtime monitoring: models are written to disk byte by byte with known random constants, the real readers are run '
       'on them, and an on-line oracle compares every point with the stored truth')

P('F01', 'OTIS, TMD3 and ATLAS-compact files are read as stored',
  'Harmonic constants, depths and masks extracted from OTIS binary, TMD3 netCDF and ATLAS-compact files are those stored for each constituent, node and component, interpolated with the chosen method on the z, u or v nodes of the C-grid, with transports over water depth for currents and flexure scaling where asked. '
  'This holds for any grid (global, regional, projected), constituent order and file layout, points beyond the domain or beside dry nodes being masked.',
  ['inputs', 'configurations'],
  'all grid kinds and longitude conventions, land masks, constituent subsets and orders, single or separate files, the five variable types and four interpolation methods, local solutions in compact files',
  'no stable test reads a model: the ones that do need downloaded models, and compare a few stations of one model each',
  ['pyTMD/io/OTIS.py', 'pyTMD/interpolate.py', 'pyTMD/crs.py'],
  [('extraction', 'pyTMD/io/OTIS.py extract_constants'), ('records', 'pyTMD/io/OTIS.py read_otis_grid, read_otis_elevation, read_otis_transport, read_atlas_grid, read_atlas_elevation, read_atlas_transport, read_netcdf_grid, read_netcdf_file'),
   ('C-grid', 'pyTMD/io/OTIS.py _mask_nodes, _interpolate_zeta')],
  observe=['return values of the functions above'], technique=SYN,
  note='Points whose result hinges on rounding (on a cell edge beside land, half way between nodes) are not judged. The cell a local compact solution starts in is checked to two cells only.')

P('F02', 'ATLAS netCDF model files are read as stored',
  'Harmonic constants and depths extracted from ATLAS netCDF files are those stored at the z, u or v nodes of each constituent file, scaled, over water depth for currents, and interpolated with the chosen method. '
  'This holds for any grid extent and longitude convention, compressed or not, and constituents come in the order of the files.',
  ['inputs', 'configurations'],
  'global and regional grids, land masks per node type, constituent subsets and orders, compression, scale factors, variable types and interpolation methods',
  'no stable test reads a model; the ones that do need downloaded models',
  ['pyTMD/io/ATLAS.py', 'pyTMD/interpolate.py'],
  [('extraction', 'pyTMD/io/ATLAS.py extract_constants'), ('files', 'pyTMD/io/ATLAS.py read_netcdf_grid, read_netcdf_elevation, read_netcdf_transport')],
  observe=['return values of pyTMD.io.ATLAS.extract_constants'], technique=SYN,
  note='Points whose result hinges on rounding are not judged.')

P('F03', 'GOT ascii and netCDF model files are read as stored',
  'Harmonic constants extracted from GOT ascii or netCDF files are the amplitudes and phases stored for each constituent, interpolated as complex constants with the chosen method and scaled. '
  'This holds for any number of rows and columns, longitude convention and fill value, compressed or not, and constituents are those named in the files.',
  ['inputs', 'configurations'],
  'global and regional grids, both formats, land masks per constituent, compression, scale factors and interpolation methods',
  'no stable test reads a model; the ones that do need downloaded models',
  ['pyTMD/io/GOT.py', 'pyTMD/interpolate.py'],
  [('extraction', 'pyTMD/io/GOT.py extract_constants'), ('files', 'pyTMD/io/GOT.py read_ascii_file, read_netcdf_file')],
  observe=['return values of pyTMD.io.GOT.extract_constants'], technique=SYN,
  note='Points whose result hinges on rounding are not judged.')

P('F04', 'FES ascii and netCDF model files are read as stored',
  'Harmonic constants extracted from FES ascii or netCDF files (FES1999 to FES2022, EOT20, HAMTIDE11) are the amplitudes and phases stored for each constituent and variable type, interpolated as complex constants with the chosen method and scaled. '
  'This holds for any number of rows and columns, longitude convention and fill value, compressed or not, and constituents come in the order of the files.',
  ['inputs', 'configurations'],
  'global and regional grids, both formats and all versions, land masks per constituent, compression, scale factors, variable types and interpolation methods',
  'no stable test reads a model; the ones that do need downloaded models',
  ['pyTMD/io/FES.py', 'pyTMD/interpolate.py'],
  [('extraction', 'pyTMD/io/FES.py extract_constants'), ('files', 'pyTMD/io/FES.py read_ascii_file, read_netcdf_file')],
  observe=['return values of pyTMD.io.FES.extract_constants'], technique=SYN,
  note='Points whose result hinges on rounding are not judged.')

P('F05', 'Constituents in memory are interpolated as those on disk',
  'A container of constituents read from any model format interpolates at any points to the constants that extraction from the files gives, whichever methods, points or extrapolation it was used with before. '
  'Interpolating leaves the container as it was, and one read within bounds gives the values of the whole model inside of those bounds, across seams of longitude too.',
  ['inputs', 'schedules', 'configurations'],
  'histories of two to four interpolations with random methods, points and extrapolation on one container; bounds in either longitude convention',
  'no stable test reads a model, and none interpolates one container twice with different methods',
  ['pyTMD/io/OTIS.py', 'pyTMD/io/ATLAS.py', 'pyTMD/io/GOT.py', 'pyTMD/io/FES.py', 'pyTMD/io/constituents.py'],
  [('reading', 'read_constants of each format'), ('interpolation', 'interpolate_constants of each format'), ('bounds', '_crop of each format')],
  state=[('container', 'fields, masks, coordinates and depth of a pyTMD.io.constituents instance', 'pyTMD/io/constituents.py')],
  observe=['return values of interpolate_constants and the container before and after'],
  technique=SYN + '; histories of operations on one container, with snapshots of its state',
  note='Bounds with the default buffer are only judged on grids with cells less than twice as high as wide.')

P('F06', 'Extracted constants depend on the place alone',
  'The constants extracted for a point are the same alone or in a batch, in any order of the points or repeated, as a plain number or an array, at longitudes a whole turn apart, and with or without cropping the model to the points. '
  'This holds for every model format, variable type, interpolation method and extrapolation.',
  ['inputs', 'configurations'],
  'random batches, permutations, turns and crops, with all formats, types, methods and cutoffs',
  'no stable test extracts from a model; existing ones call each reader with one batch',
  ['pyTMD/io/OTIS.py', 'pyTMD/io/ATLAS.py', 'pyTMD/io/GOT.py', 'pyTMD/io/FES.py', 'pyTMD/interpolate.py'],
  [('extraction', 'extract_constants of each format'), ('longitudes', 'pyTMD/interpolate.py and each reader')],
  observe=['return values of extract_constants in two executions'], technique=MET,
  note='Turns are judged for points off the edges of the cells.')

P('F07', 'Extrapolation takes the nearest valid node within the cutoff',
  'With extrapolation, a masked point inside the model domain takes the constants of the nearest valid node no further than the cutoff (transports over the depth of that node for currents), or stays masked when there is none. '
  'Valid points keep the values they have without extrapolation, and points outside of the domain stay masked.',
  ['inputs', 'configurations'],
  'all formats, land masks, variable types, methods and cutoffs from a fraction of a cell to infinity, from disk or from a container in memory',
  'no stable test extrapolates; existing ones need a downloaded model and check that fewer points are masked',
  ['pyTMD/interpolate.py', 'pyTMD/io/OTIS.py', 'pyTMD/io/ATLAS.py', 'pyTMD/io/GOT.py', 'pyTMD/io/FES.py'],
  [('extrapolation', 'pyTMD/interpolate.py extrapolate'), ('use', 'extract_constants and interpolate_constants of each format')],
  observe=['return values of extract_constants and interpolate_constants'],
  technique=SYN + ' (brute-force nearest neighbour)',
  note='Near ties and distances within one percent of the cutoff are not judged.')

P('F08', 'Written model files hold what they were given',
  'Grid, elevation and transport files written in the OTIS, ATLAS, GOT and FES formats have the record layout of the format and hold the given limits, depths, masks, constituents and constants, whatever their type, order in memory or byte order. '
  'The readers give them back, a model read and written again yields the same constants, and the given arrays are left as they were.',
  ['inputs', 'configurations'],
  'all writers, random shapes, dtypes, masks, constituent names of any length (the OTIS formats hold four characters and refuse longer names) and open boundaries',
  'no stable test writes a model file',
  ['pyTMD/io/OTIS.py', 'pyTMD/io/ATLAS.py', 'pyTMD/io/GOT.py', 'pyTMD/io/FES.py'],
  [('OTIS', 'pyTMD/io/OTIS.py output_otis_grid, output_otis_elevation, output_otis_transport'), ('ATLAS', 'pyTMD/io/ATLAS.py output_netcdf_grid, output_netcdf_elevation, output_netcdf_transport'),
   ('amplitude and phase', 'pyTMD/io/GOT.py and pyTMD/io/FES.py output_netcdf_file')],
  observe=['bytes of the written files, and what the readers return for them'],
  technique='runtime monitoring: written files are parsed record by record by an independent reader and read back by the real one',
  note='Held on the observed executions.')

P('F09', 'Interpolation and grid kernels are exact and local',
  'Bilinear, spline, linear and nearest interpolation of a masked real or complex field give at each point the weighted nodes of its cell, exact at the nodes, with a mask decided by the nodes that carry weight and each point independent of the others; points off the grid are masked. '
  'Nearest-neighbour extrapolation, cropping, extension and the move to u and v nodes keep every value at its node.',
  ['inputs'],
  'random even and uneven grids, masks, dtypes and points on nodes, edges and beyond the limits; all crops of global and regional grids',
  'stable tests cover the extension of one array; those of the interpolators need downloaded data',
  ['pyTMD/interpolate.py', 'pyTMD/io/OTIS.py', 'pyTMD/io/ATLAS.py', 'pyTMD/io/GOT.py', 'pyTMD/io/FES.py'],
  [('kernels', 'pyTMD/interpolate.py bilinear, spline, regulargrid, extrapolate'), ('grids', '_extend_array, _extend_matrix, _crop of each format; OTIS _mask_nodes, _interpolate_zeta')],
  observe=['return values of the functions above'], technique=REF + ' (node-by-node interpolation)',
  note='Points whose result hinges on rounding are not judged.')

P('C01', 'Ocean and load tides at points and times are the synthesis of the model',
  'For any model given by name or by a definition file and any points and times laid out as drift, grid or time series, the computed elevations or currents are, at each point and time, the constants of the model at that place synthesised at that UTC instant with the nodal corrections of the model, plus the inferred minor constituents and the equilibrium node tide where asked. '
  'The values have the documented shape, hold the fill value where the model is masked, are the same computed alone or in a batch, and the inputs are left as they were.',
  ['inputs', 'configurations'],
  'every model format, input data type, projection, epoch and time standard (UTC, GPS, LORAN, TAI, datetime) with dates around leap seconds, interpolation method, extrapolation, inference and correction scheme',
  'no stable test computes tides from a model; the others need downloaded models and a few points and dates',
  ['pyTMD/compute.py', 'pyTMD/predict.py', 'pyTMD/io/model.py', 'pyTMD/arguments.py', 'pyTMD/crs.py'],
  [('elevations', 'pyTMD/compute.py tide_elevations'), ('currents', 'pyTMD/compute.py tide_currents'), ('dispatch', 'pyTMD/compute.py corrections'),
   ('model', 'pyTMD/io/model.py from_file, extract_constants')],
  observe=['return values of tide_elevations, tide_currents and corrections'],
  technique=SYN + '; times are made in each standard with an independent leap second table and synthesised by the reference of P01 and P02',
  note='The constants at each point are those of the reader, which F01 to F05 judge. Held on the observed executions.')

P('C02', 'Equilibrium, pole and solid Earth tides at points and times',
  'For any points and times laid out as drift, grid or time series, the long-period equilibrium, load pole, ocean pole and solid Earth tides are at each point and time those of the reference for its geodetic place on the named ellipsoid and its UTC instant, with the documented shape. '
  'This holds for any projection, epoch, time standard, mean pole convention, ellipsoid and tide system, and the inputs are left as they were.',
  ['inputs', 'configurations'],
  'all input data types, three projections, epochs and time standards around leap seconds, conventions, ellipsoids and tide systems',
  'stable tests cover one place of the load pole tide and one of the equilibrium tide',
  ['pyTMD/compute.py', 'pyTMD/predict.py', 'pyTMD/spatial.py', 'pyTMD/ellipse.py', 'pyTMD/crs.py'],
  [('equilibrium', 'pyTMD/compute.py LPET_elevations'), ('load pole', 'pyTMD/compute.py LPT_displacements'), ('ocean pole', 'pyTMD/compute.py OPT_displacements'),
   ('solid Earth', 'pyTMD/compute.py SET_displacements')],
  observe=['return values of the functions above'],
  technique=REF + ' (references of P06 to P08, ellipsoids and leap seconds of our own)',
  note='The positions of sun and moon are those of the real code, which P05 judges; the ocean pole map is a synthetic one.')

P('S01', 'Coordinate conversions describe the same point',
  'Geodetic, Cartesian, spherical, local (East-North-Up), zenith and degree-minute-second coordinates of any point describe that same point, and each conversion undoes its inverse, for any ellipsoid, iterative or closed-form method, place from pole to equator and height. '
  'Each point of an array gets the value it has alone, differences between ellipsoids and polar distances are those of the defining formulas, and the inputs are left as they were.',
  ['inputs'],
  'all conversions, methods and ellipsoids; scalars and arrays of one to three dimensions including poles, the equator and the antimeridian',
  'stable tests convert a few mid-latitude points with one ellipsoid',
  ['pyTMD/spatial.py', 'pyTMD/ellipse.py'],
  [('geodetic', 'pyTMD/spatial.py to_cartesian, to_geodetic, convert_ellipsoid, compute_delta_h'), ('local', 'to_ENU, from_ENU, to_horizontal, to_zenith'),
   ('others', 'to_sphere, to_dms, from_dms, wrap_longitudes, scale_factors, geocentric_latitude')],
  observe=['return values of the conversions'],
  technique=REF + ' (closed forms in extended precision) plus round trips and batch against single points',
  note='Held on the observed executions; tolerances are those each method claims.')

P('S02', 'Reference systems and ellipsoids are the published ones',
  'Every named projection moves points between longitude and latitude and its own coordinates by the published formulas, forward and backward as inverses of each other, at each point alone or in a batch and with inputs left as they were; an unknown one raises. '
  'For any ellipsoid and units the derived parameters (radii, eccentricities, curvature, harmonic and gravity terms) satisfy their defining relations.',
  ['inputs', 'configurations'],
  'all named and EPSG projections of the models, PROJ strings and dictionaries, all named ellipsoids in both unit systems, and custom parameters',
  'stable tests cover parts of two projections and no ellipsoid parameter',
  ['pyTMD/crs.py'],
  [('projections', 'pyTMD/crs.py crs.convert, transform, get, from_input'), ('ellipsoids', 'pyTMD/crs.py datum')],
  observe=['return values of crs.convert and crs.transform, and properties of datum'],
  technique=REF + ' (projections evaluated from the formulas of Snyder and parameters from their definitions)')

P('U01', 'Special functions, rotations and ellipses follow their definitions',
  'Legendre polynomials, associated Legendre functions and spherical harmonics with their derivatives equal their definitions for each supported degree, order and angle; polynomial sums, angle normalisation and rotation matrices equal theirs; and tidal ellipses describe the currents they were computed from, inverting back to them. '
  'All hold for any array shape, masked values and degenerate ellipses.',
  ['inputs'],
  'degrees and orders up to those supported, angles including the poles, all rotation axes, and ellipses from linear to circular',
  'stable tests check Legendre polynomials of a few degrees at interior angles',
  ['pyTMD/math.py', 'pyTMD/ellipse.py'],
  [('functions', 'pyTMD/math.py legendre, assoc_legendre, sph_harm, polynomial_sum, normalize_angle, rotate'), ('ellipses', 'pyTMD/ellipse.py ellipse, inverse')],
  observe=['return values of the functions above'], technique=REF + ' (definitions in extended precision, and the traced current over a cycle)')

P('U02', 'Files and listings arrive complete and as they are on the server',
  'A download by HTTP or FTP gives, and stores if asked, exactly the bytes of the server with its date, leaves a local file alone when its checksum matches, and on any failure or early end of the connection reports it instead of storing a partial file. '
  'Listings are those of the server, filtered and sorted as asked, checksums and paths equal those of the files, and date helpers do not depend on the local time zone.',
  ['inputs', 'crash_points', 'configurations'],
  'files of any size, chunk, directory and checksum, dropped, refused and truncated connections at random points, listings with patterns and dates, and time zones',
  'stable tests cover a few helpers; those of transfers need the network and inject no fault',
  ['pyTMD/utilities.py'],
  [('HTTP', 'pyTMD/utilities.py from_http, http_list, from_json, check_connection'), ('FTP', 'from_ftp, ftp_list'), ('helpers', 'get_hash, get_unix_time, isoformat, url_split, copy')],
  observe=['return values, stored files, log and requests seen by the servers'],
  technique='runtime monitoring: real transfers from loopback servers with injected faults, checked against what the server holds and the requests it saw',
  note='Servers that are not on the loopback interface (AVISO, CDDIS) are not contacted.')

P('S03', 'Files give back the fields that were written to them',
  'Every reader of spatial data (ascii with YAML headers, netCDF4, HDF5, geotiff, cloud optimized geotiff, parquet, plain or gzip or in memory) returns the variables, attributes, coordinates, projection and masks that the file holds, with fill values masked exactly where the data are invalid. '
  'Every writer stores fields so that independent readers of the format and pyTMD itself see what was given, leaves its input unaltered, and the extents, grids and file names are what the file and directory say.',
  ['inputs', 'configurations'],
  'files of drift, grid and time series type in each format written by pyTMD and by independent libraries, fill values of any type, packings, bounds, delimiters, headers and compressions',
  'stable tests only round trip parquet files; the others need the network',
  ['pyTMD/spatial.py'],
  [('readers', 'pyTMD/spatial.py from_ascii, from_netCDF4, from_HDF5, from_geotiff, from_parquet, from_file'), ('writers', 'pyTMD/spatial.py to_ascii, to_netCDF4, to_HDF5, to_geotiff, to_parquet, to_file'),
   ('file names', 'pyTMD/spatial.py case_insensitive_filename')],
  observe=['returned dictionaries and the bytes of files as read by netCDF4, h5py, rasterio/GDAL and pandas'],
  technique='runtime monitoring: round trips of random fields through real files, with independent libraries on the other side and a monitor on the input arrays')

P('C04', 'Points are in the domain of a model where the model has water',
  'pyTMD.check_points and compute.tide_masks return a boolean array in the shape of the points, true where all model nodes around a point are water, and false where they are all land or the point is outside of the model. '
  'This holds for every model format, interpolation method, projection of the points or of the model, and convention of longitudes.',
  ['inputs', 'configurations'],
  'models in seven formats with global and regional grids and land masks, points inside, outside and across the seam of longitudes, four methods and several projections',
  'the tests of check_points need models from the network',
  ['pyTMD/compute.py', 'pyTMD/check_points.py', 'pyTMD/interpolate.py'],
  [('masks', 'pyTMD/compute.py tide_masks'), ('points', 'pyTMD/check_points.py check_points')],
  observe=['return values of check_points and tide_masks'], technique=SYN,
  note='Cells with both water and land are judged for METHOD=nearest alone.')

P('C07', 'Estimated harmonic constants are the least-squares fit of the series',
  'Solving for harmonic constants from a time series gives the amplitudes and phases of the least-squares fit with the nodal corrections of the model type asked for, so that constants which made a series without noise are recovered. '
  'This holds for each solver, and the amplitudes and phases come in the order of the constituents given.',
  ['inputs', 'configurations'],
  'constituent sets in any order, regular and irregular sampling, differences of dynamic time as scalars or arrays, all corrections types and solvers, with and without noise',
  'stable tests have no solution of harmonic constants',
  ['pyTMD/solve/constants.py', 'pyTMD/arguments.py'],
  [('solution', 'pyTMD/solve/constants.py constants')],
  observe=['return values of solve.constants'], technique=REF,
  note='Ill-conditioned sets (constituents the series cannot separate) are not judged.')

P('M09', 'The container of constituents keeps what it is given',
  'Constituents appended to a container are kept in order and returned by get, item access, pop and any nesting or restart of loops, until they are popped or updated; copies given out do not alter it, unknown names are refused, and amplitudes, phases, shape and Doodson numbers are those of what it holds. '
  'The name of a constituent is parsed from any file name that providers of models use.',
  ['histories', 'inputs'],
  'random histories of operations against a list-and-dictionary model, and every known constituent and alias in the file names of all providers and letter cases',
  'stable tests parse the bare names alone, and no test runs a history of operations',
  ['pyTMD/io/constituents.py', 'pyTMD/io/model.py'],
  [('container', 'pyTMD/io/constituents.py constituents'), ('names', 'pyTMD/io/constituents.py constituents.parse, pyTMD/io/model.py model.parse_file')],
  state=[('fields', 'names of the constituents in order', 'pyTMD/io/constituents.py')],
  observe=['state of the container after each operation'],
  technique='runtime monitoring: random histories on the real container with a reference model checked after every operation')

P('M10', 'Models are found, defined and described as the database and files say',
  'A model made from the database, additional databases or a definition file has the files, grid, scale, projection, version, constituents, corrections and descriptions stated there, in the order stated or sorted for glob strings, for directories, compressed files and open files alike; missing files and incomplete definitions are refused, and serialized models read back the same. '
  'A model object used any number of times for any type of tide extracts, reads and interpolates what a new one would.',
  ['histories', 'configurations', 'inputs'],
  'all 78 models of the database, random definitions in every format and form, and random histories of extraction, reading and interpolation on one object',
  'stable tests read a handful of definitions, and no test reuses a model object',
  ['pyTMD/io/model.py', 'pyTMD/data/database.json'],
  [('database', 'pyTMD/io/model.py load_database, model.elevation, model.current, pathfinder'), ('definitions', 'model.from_file, from_dict, to_dict, serialize, validate_format'),
   ('constants', 'model.extract_constants, read_constants, interpolate_constants, node_equilibrium')],
  state=[('_constituents', 'constituents kept in memory by the last reading', 'pyTMD/io/model.py')],
  observe=['attributes of the model and the constants it returns'],
  technique='runtime monitoring: models of synthetic files with known truth driven through random histories, with a monitor on the attributes of the object')

P('X01', 'Programs write for each point of a file what the library computes there',
  'Each of the command line programs for tides reads the points and times of a file (csv, netCDF4, HDF5, parquet, geotiff or cog; drift, grid or time series) in the projection, units, epoch and time standard that the file or the arguments state, and writes a file of the same format with, at each point and time, the value the library computes there, the geodetic coordinates, the UTC days since 1992 or dates, and the attributes of the model. '
  'Values that are invalid are the fill value asked for, the permissions are those asked for, and the input file is left unaltered.',
  ['inputs', 'configurations'],
  'six programs with arguments drawn over every option, input files made by independent libraries with any names and orders of variables, epochs, standards across leap seconds, projections and fill values; in process and as processes of their own',
  'no stable test runs any of the programs',
  ['scripts/compute_tidal_elevations.py', 'scripts/compute_tidal_currents.py', 'scripts/compute_LPET_elevations.py', 'scripts/compute_LPT_displacements.py', 'scripts/compute_OPT_displacements.py', 'scripts/compute_SET_displacements.py', 'pyTMD/spatial.py'],
  [('programs', 'scripts/compute_*.py main and compute functions'), ('files', 'pyTMD/spatial.py readers and writers')],
  observe=['output files as read by netCDF4, h5py, GDAL, pyarrow and as text'],
  technique='runtime monitoring: end to end runs of the real programs over generated files, outputs compared with the library at coordinates and dates converted by the harness',
  note='Gridded and time series data in csv or parquet files, and the JPL ephemerides (a download), are not judged.')

P('X02', 'Download programs leave complete copies of what the archives hold',
  'After a download program ends, each file asked for (model, format, load tides, currents, extrapolated) is on disk where the model class looks for it, with the content and permissions asked for and, for dated archives, the modification time of the archive; files already as new as those of the archive, and all others, are left as they were. '
  'Transfers that fail are reported, and neither a failure nor a stop of the program at any point leaves an incomplete file that later runs take for a complete one. '
  'Verification of TPXO files accepts those whose checksums are right and no others, and sets their dates in UTC.',
  ['crash_points', 'fault_sequences', 'histories', 'inputs'],
  'random archives (zip, tar, compressed tar, listings of FTP servers) and options, files of any age before the run, archives changed between runs, broken and aborted transfers, processes refused further writing or killed in the middle of a file, and repeated runs',
  'no stable test runs any of the programs',
  ['scripts/gsfc_got_tides.py', 'scripts/arcticdata_tides.py', 'scripts/aviso_fes_tides.py', 'scripts/verify_box_tpxo.py', 'pyTMD/utilities.py'],
  [('programs', 'scripts/gsfc_got_tides.py, arcticdata_tides.py, aviso_fes_tides.py (ftp_download, ftp_list), verify_box_tpxo.py'), ('transfer', 'pyTMD/utilities.py from_http, check_connection, check_ftp_connection, get_hash, get_unix_time')],
  state=[('local files', 'what previous runs, stopped or not, left', 'file system')],
  observe=['every file below the directory after every run: content, modification time and mode', 'requests and credentials the servers received'],
  technique='runtime monitoring: the real programs against servers of our own on the loopback interface, with faults of the transfer and of the file system (RLIMIT_FSIZE) injected, and a monitor on the directory after every run',
  note='The program for the Antarctic model only opens a browser.')

P('X03', 'A model reduced to a region holds what the model has there',
  'The program that reduces OTIS models to a region writes, beside each grid, elevation and transport file of a known model, a new file of the same format with the nodes of the model within the bounds (given in any projection): depths, masks, constituents and constants are those of the model, invalid nodes stay invalid, and the limits are those of the region. '
  'Files of the model and files reduced before stay as they are, new files get the permissions asked for, and regions without nodes leave no files; the reduced files are read by the library as the model is.',
  ['inputs', 'configurations', 'histories'],
  'models of several directory layouts (one file, a file for each constituent, elevations or currents alone, projected and geographic grids, NaN at nodes), bounds in four projections, repeated runs',
  'no stable test runs the program',
  ['scripts/reduce_OTIS_files.py', 'pyTMD/io/OTIS.py'],
  [('program', 'scripts/reduce_OTIS_files.py make_regional_OTIS_files, create_unique_filename'), ('readers and writers', 'pyTMD/io/OTIS.py read_otis_grid, read_otis_elevation, read_otis_transport, output_otis_grid, output_otis_elevation, output_otis_transport')],
  observe=['every file below the directory after a run, parsed record by record by a parser of the harness', 'constants the library extracts from the reduced files'],
  technique='runtime monitoring: the real program on generated models, its files compared node for node with the model by an independent parser')

P('D01', 'Deprecated names and keywords give what their replacements give',
  'Functions and classes of pyTMD.time and pyTMD.eop, compute_corrections and its variants, check_points, scale_areas, phase_angles and the old reader of the pole map give, for any arguments, the same as the functions named in their warnings (and dates the calendar confirms), and warn of their deprecation. '
  'The uppercase keywords of extract_constants of each format have the effect of the lowercase ones, alone or mixed with them.',
  ['inputs', 'programs'],
  'dates of four centuries, epochs, scales and formats; coordinates, times and models as for the replacements; every subset of the old keywords',
  'no stable test calls a deprecated function (all of pyTMD.time raised)',
  ['pyTMD/time.py', 'pyTMD/eop.py', 'pyTMD/compute_tide_corrections.py', 'pyTMD/check_points.py', 'pyTMD/spatial.py', 'pyTMD/astro.py', 'pyTMD/io/IERS.py', 'pyTMD/io/OTIS.py', 'pyTMD/io/ATLAS.py', 'pyTMD/io/GOT.py', 'pyTMD/io/FES.py'],
  [('names', 'pyTMD/time.py, pyTMD/eop.py, pyTMD/compute_tide_corrections.py, pyTMD/check_points.py, pyTMD/spatial.py scale_areas, pyTMD/astro.py phase_angles, pyTMD/io/IERS.py ocean_pole_tide'), ('keywords', 'pyTMD/io/{OTIS,ATLAS,GOT,FES}.py extract_constants deprecated_keywords')],
  observe=['values or exceptions of both calls, warnings, arguments after the calls'],
  technique='runtime monitoring: differential oracle between the old and the new call on generated inputs, and the calendar of the standard library')

P('K01', 'Results depend on the arguments and files of a call alone',
  'What a call of a computing, reading or describing function gives depends on its arguments and the files they name as these are at that time: not on calls made before (failed ones included) or at the same time from other threads, on the hash seed, the time zone or the working directory. '
  'Calls leave their arguments, earlier results, the model database and the state of the interpreter (floating point errors, random numbers, environment, directory, logging levels) as they were, and what callers do to their results changes no later result.',
  ['histories', 'schedules', 'programs', 'inputs'],
  'random sequences of calls of some seventy functions, with files replaced under the same names between calls, failing calls in between, and up to six threads switched every few microseconds',
  'the tests make each call once, in a fixed order, from one thread',
  ['pyTMD/arguments.py', 'pyTMD/astro.py', 'pyTMD/predict.py', 'pyTMD/interpolate.py', 'pyTMD/math.py', 'pyTMD/spatial.py', 'pyTMD/ellipse.py', 'pyTMD/compute.py', 'pyTMD/crs.py', 'pyTMD/solve/constants.py', 'pyTMD/io/OTIS.py', 'pyTMD/io/ATLAS.py', 'pyTMD/io/GOT.py', 'pyTMD/io/FES.py', 'pyTMD/io/model.py', 'pyTMD/io/constituents.py'],
  [('functions', 'pyTMD/*.py'), ('readers', 'pyTMD/io/*.py'), ('database', 'pyTMD/__init__.py models, pyTMD/io/model.py load_database')],
  state=[('process', 'module variables, defaults of keywords, caches of libraries', 'pyTMD modules')],
  observe=['results and exceptions, arguments and results held, after every call', 'interpreter state before and after'],
  technique='runtime monitoring: results of recorded call sequences and thread schedules against the same call alone in a process forked from one that made none, and a monitor on shared state',
  note='Files in netCDF and HDF5 are not read from several threads (their libraries do not allow it).')
P('U03', 'Accounts are found where documented and shown to the hosts that ask for them',
  'Earthdata accounts come from the netrc file, the keywords, the environment or prompts as documented; refused ones are asked for anew until the number of retries is reached, and the opener that results keeps the session. '
  'An account is shown to the login host alone unless a header was asked for, as it was given (any characters, any length); tokens, listings and files of servers that ask for one are those of the server, with its methods and paths, and failures (refused accounts, error codes, missing files, hosts that cannot be reached) raise and leave no files. '
  'Ephemerides of the JPL and answers in JSON are what the hosts sent; files that are held already are not written again.',
  ['inputs', 'histories', 'faults'],
  'random accounts in random places, right or wrong for a random number of attempts, hosts with redirections, cookies, challenges and failures',
  'the tests need the network and an account: none of them is run',
  ['pyTMD/utilities.py'],
  [('accounts', 'pyTMD/utilities.py attempt_login, build_opener, check_credentials'), ('tokens', 'pyTMD/utilities.py get_token, list_tokens, revoke_token'), ('files', 'pyTMD/utilities.py cddis_list, from_cddis, from_jpl_ssd, from_json')],
  state=[('session', 'opener installed in urllib, cookies', 'pyTMD/utilities.py')],
  observe=['every request a host of our own received: host, method, path, account, order', 'prompts', 'files and values left'],
  technique='runtime monitoring: a log of the requests that reached hosts on the loopback interface, against the account given and the protocol of Earthdata Login',
  note='https is made in the clear inside the check: certificates are not judged, nor which of two different accounts (netrc, keywords) is preferred.')

P('I01', 'Interactive maps and widgets state the place and the model that were chosen',
  'A map of the notebooks has the projection, centre, zoom and controls asked for; after any sequence of moves of its marker, entries in its text, zooms and moves of the mouse, marker and text state the place that was chosen last (longitudes within 180 degrees of Greenwich), the cursor label that of the mouse, and a zoomed map is centred on its marker. '
  'Coordinates of the polar maps are those of the EPSG projections they are named after, and the widgets offer the elevation models of the database, each set of widgets on its own, so that a choice leads to its model.',
  ['histories', 'inputs', 'configurations'],
  'random histories of events on maps of every projection and combination of controls, random coordinates in several projections, and sets of widgets used side by side',
  'no test imports the module',
  ['pyTMD/tools.py'],
  [('maps', 'pyTMD/tools.py leaflet, projections'), ('widgets', 'pyTMD/tools.py widgets')],
  state=[('widgets', 'traits of markers, texts, labels and maps', 'pyTMD/tools.py')],
  observe=['traits of the widgets after every event', 'transformed coordinates'],
  technique='runtime monitoring: random histories of events on the real widgets with a reference place checked after every event, and coordinates against PROJ',
  note='There is no browser: events are those the widgets receive from one. One map shared by several markers is not judged.')
