"""Single source for properties.jsonl (and, with checks, MANIFEST.json)."""

def P(id, title, statement, over, quant, why, files, mechanism, observe_at=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                **({'observe_at': observe_at} if observe_at else {})))

A = 'src/eustace/analysis/advanced_standard/'
C = 'src/eumopps/catalogue/'

NOT_APPLICABLE = {}

PROPERTIES = [
P('C01', 'Each operation sees exactly the inputs its time step calls for',
  'For every pattern of input files present, every step definition and every missing-data policy, a catalogue operation resolved at a given index refers to exactly the input entries that match its time (and its tags or ancillary rules), no more and no fewer. Absent data is handled only as the declared policy says: a required input makes the operation disappear from the schedule or be refused, a permitted gap is passed on as an explicit gap, and no operation ever receives another step\'s file.',
  ['inputs', 'configurations'], 'all subsets of present files over up to 5 time steps x all placeholder kinds x all missing-data policies x all operation indexes',
  'The tests resolve a handful of fixed file sets; the guarantee ranges over every presence pattern, and wrong pairing only shows when files are missing in a particular position.',
  [C+'operation.py', C+'placeholder.py', C+'step.py', C+'dataset.py', C+'operationparameters.py', C+'datareference.py'],
  [('resolve operation references at catalogue build', C+'operation.py'), ('find matches for a step and apply missing data policy', C+'placeholder.py')]),

P('C02', 'Operation outputs are unique, named for their step and visible downstream',
  'For every schedule built, the outputs declared for the operations are registered in the catalogue as one data set entry per remaining operation, whose name and time are those of that operation\'s step, and operations share an output file only where the naming pattern spells the same name for both. The files lie in the folder given for the data set, or in the default folder where none is given. An operation listed later, in the same build or in an update of the catalogue, that takes that data set as input is resolved against exactly those entries.',
  ['configurations', 'inputs'], 'all chains of up to 3 operations over up to 4 steps with all presence patterns of the root input',
  'Tests build one- or two-operation catalogues with complete inputs; output/operation misalignment needs skipped steps in the middle of a chain.',
  [C+'operation.py', C+'placeholder.py', C+'build.py', C+'storage.py'],
  [('register output data sets while building', C+'build.py'), ('output names generated from patterns', C+'placeholder.py')]),

P('C03', 'Batched execution runs every operation exactly once and in order',
  'For every number of operations and batch size, running every advertised index executes each operation exactly once, with the parameters of that operation, in increasing order inside a batch, and nothing else. The advertised count is the smallest number of indexes that covers all operations, and an index outside it executes nothing; nor does a request that gives a batch size without a batch number, or a later batch without the size.',
  ['configurations', 'histories'], 'all operation counts up to 9 x all batch sizes (including none) x all indexes, in and out of range',
  'Tests run one module with one index; off-by-one in the last partial batch only shows for particular count/batch remainders.',
  [C+'commandrun.py', C+'commandcount.py', C+'multiplecommandsrun.py', C+'operation.py', C+'jinja/batches.py', C+'jinja/eumopps_cylc.py'],
  [('batch range to operation index loop', C+'commandrun.py'), ('count of batches', C+'operation.py')]),

P('C04', 'Saving and reloading a catalogue loses and alters nothing',
  'A catalogue or configuration object written to file and read back is equal to the one written, whatever mixture of nested objects, lists, gaps, times, strings and numbers it contains (times in whole seconds, ASCII text, one kind of element per list; an absent member, a member that is None and a list holding nothing but gaps are the same thing; a gap in a list of strings reads as empty text, and a gap at the end of a row of a table as the end of the row). In particular operations resolved from the reloaded catalogue get the same inputs, outputs and parameters as those resolved before saving.',
  ['inputs', 'programs'], 'all object trees up to a small depth over an alphabet of leaf values, lists with gaps, and both file formats',
  'Tests round-trip a few hand-written objects; the encoding is chosen by the content (types, gaps, list shapes), so only enumerating shapes covers the branches.',
  ['src/eumopps/netcdfobjects/netcdfobjects.py', 'src/eumopps/jsonobjects/jsonobjects.py', C+'fileio/formatnetcdf.py', C+'fileio/formatjson.py'],
  [('recursive object encoding by content type', 'src/eumopps/netcdfobjects/netcdfobjects.py')]),

P('C05', 'Building or updating a catalogue is all-or-nothing',
  'A catalogue build either completes and publishes a full catalogue under the requested name, or fails and leaves whatever was there before unchanged, at every point where a file operation can fail or the process can die. Updating keeps all earlier data sets and operations and adds exactly those of the new definition, and an existing catalogue is never replaced unless update or overwrite is asked for. The versions of the code are recorded, and an operation runs only with the versions recorded for it unless a different version is explicitly allowed.',
  ['crash_points', 'fault_sequences', 'histories'], 'every file-system call of a build and of an update failing or being the last one executed, for histories of up to 3 builds/updates',
  'Tests only run successful builds; partial writes need a fault at a particular point.',
  [C+'build.py', C+'catalogue.py', C+'fileio/formatnetcdf.py'],
  [('save or update catalogue file', C+'fileio/formatnetcdf.py'), ('build catalogue from definition', C+'build.py')]),

P('C06', 'Concurrent checksum computation is complete and schedule-independent',
  'Checksums recorded for the entries of a data set equal the checksum and size of the corresponding file for every entry, whatever the number of entries and whatever order the worker threads run in. A file that cannot be read is reported, never given another file\'s checksum, and no more than the documented maximum number of threads run at once.',
  ['schedules', 'fault_sequences', 'inputs'], 'all completion orders/interleavings of the worker threads at file-operation granularity for up to 9 entries and several thread limits, with each file in turn unreadable',
  'Tests run one schedule chosen by the OS; a lost or misplaced result needs a particular order or remainder of the work split.',
  [C+'dataset.py', C+'checksum.py', C+'storage.py'],
  [('work split between checksum threads', C+'dataset.py')]),

P('C07', 'Data set search finds exactly the files that follow the naming rules',
  'For every directory content, the entries found for a data set are exactly the files whose relative name begins with text that follows one of its naming patterns (any text after it is left open), each with the time and tags its own name spells, and without duplicates within a subset. A name that follows a pattern but spells an impossible date is reported as an error, one that follows none is reported as not matching, and neither becomes an entry. Name generation and name parsing are inverse to each other.',
  ['inputs'], 'all directory contents drawn from an alphabet of conforming, near-miss and foreign names x pattern sets with dates, tags and fixed text',
  'Tests use one fixed directory listing; near-miss names and ambiguous patterns are not sampled.',
  [C+'namepatterns.py', C+'search.py', C+'dataset.py', C+'storage.py'],
  [('pattern to regular expression translation', C+'namepatterns.py'), ('search of directory tree', C+'search.py')]),

P('C08', 'Times map to steps and numbers and back without loss',
  'Every time expressed as a number (days, seconds, years or months since an epoch) or as text converts back to the same time, day counts are consistent over the whole calendar and between the Python and C++ code in any local time zone, and each step index and step time are inverse to each other. A time before the start or after the end of a step sequence never gets the index of a step.',
  ['inputs'], 'every day of the calendar range covered by the product including leap years and century years, all sub-day offsets in an alphabet, all start/end pairs in a window',
  'Tests check selected dates; leap years, sub-day fractions and out-of-range times are not swept.',
  ['src/eumopps/timeutils/timebase.py', 'src/eumopps/timeutils/datetime_numeric.py', 'src/eumopps/timeutils/datetime_dictionary.py', C+'step.py', 'src/eustace/timeutils/epoch.py', 'src/eustace/timeutils/decimaltime.py', 'src/eustace/analysis/advanced_standard/fileio/step.py', 'src/cpp/eustace/timeutils/timebase.cpp'],
  [('time base conversion', 'src/eumopps/timeutils/timebase.py'), ('step index arithmetic', C+'step.py')]),
]

PROPERTIES += [
P('C10', 'Analysis posterior does not depend on order or splitting of observations',
  'The state estimate of an analysis component after a set of daily observations has been taken in equals the exact Gaussian posterior (mean, spread and samples; for nonlinear elements the solution linearised at the state at which each day was taken in) for those observations, whatever order the days arrive in and however they are grouped into batches or separately computed parts that are merged. Taking in the same day again replaces its earlier contribution instead of adding to it, and a day without observations adds nothing.',
  ['histories', 'schedules', 'inputs'], 'all orders, all partitions and all repetitions of up to 4 days with 0-3 observations each, for every storage back end',
  'Tests process days once in one order; double counting, stale contributions and mis-merged batches depend on the history.',
  [A+'components/spacetime.py', A+'components/spatial.py', A+'components/spatialdelayed.py', A+'components/storage_inmemory.py', A+'components/storage_files.py', A+'components/storage_files_batch.py', A+'linalg/linearsystem.py', A+'analysissystem.py'],
  [('accumulate and merge measurement information', A+'components/spacetime.py'), ('per-time state solve', A+'components/spatial.py')]),
P('C11', 'Linear solvers return the exact mode, spread and samples of the posterior',
  'For every sparse positive definite precision matrix and right-hand side, the computed state solves the system, the reported marginal standard deviations are the square roots of the diagonal of the inverse (directly or projected through any design), and transformed white-noise vectors have exactly the inverse as their covariance. The log-determinant and triangular solves agree with the same matrix under any fill-reducing permutation.',
  ['inputs'], 'all sparsity graphs on up to 5 nodes with values from an alphabet, all permutation modes',
  'Tests use two or three fixed matrices; permutation bugs vanish when the ordering happens to be trivial.',
  [A+'linalg/linearsystem.py', A+'linalg/extendedcholmodwrapper.py', A+'linalg/wrapper.py', A+'linalg/sparse.py'],
  [('permuted triangular solves', A+'linalg/extendedcholmodwrapper.py')]),
P('C12', 'Partial inverse gives the true inverse on the sparsity pattern',
  'For every sparse positive definite matrix, each element returned by the partial inverse computation equals the corresponding element of the true inverse, and the elements returned cover at least the non-zero pattern of the matrix.',
  ['inputs'], 'all graphs on up to 5 nodes (and band/arrow families above) with values from an alphabet',
  'Tests use a few structured matrices; recursion errors depend on the elimination pattern.',
  [A+'linalg/qinv.pyx', A+'linalg/sparse.py', A+'linalg/extendedcholmodwrapper.py'],
  [('Takahashi recursion over the Cholesky pattern', A+'linalg/qinv.pyx')]),
P('C13', 'Iterative fitting removes the other components and never its own',
  'Whenever a component is updated, the observations it sees are the originals minus the current expected value of every other component at the same locations and time, and never minus its own; the same input never changes the answer when the update is repeated. The evaluated total expectation is the sum over components of design applied to state, and total uncertainty combines component uncertainties in quadrature.',
  ['schedules', 'histories'], 'all update schedules (component, day set) up to depth 4 over 2-3 components and 2-3 days, compared with a dense reference',
  'Tests run the standard loop for one or two iterations; stale or self-inclusive offsets depend on the interleaving of component and day updates.',
  [A+'analysissystem.py', A+'components/component.py', A+'components/spacetime.py', A+'components/spatial.py'],
  [('offset from other components when updating', A+'analysissystem.py')]),
P('C14', 'Combined model elements behave as the concatenation of their parts',
  'For every list of model elements combined into one, states and hyperparameters split and join without loss or reordering, the combined design and prior are the side-by-side and block-diagonal assembly of the parts in order, and the derivative for each hyperparameter affects only its own block.',
  ['configurations', 'inputs'], 'all ordered selections (with repetition) of up to 3 elements from an alphabet of element kinds',
  'Tests combine two fixed elements; offsets between blocks only go wrong for particular sizes and positions.',
  [A+'elements/combination.py', A+'elements/element.py', A+'elements/covariate.py', A+'elements/grandmean.py', A+'elements/seasonal.py', A+'elements/local.py', A+'elements/latitudeharmonics.py', A+'elements/latitudespline.py', A+'elements/kronecker.py', A+'elements/factor.py'],
  [('state and hyperparameter slicing', A+'elements/combination.py')]),
P('C15', 'Prior precision derivatives match the prior precision',
  'For every model element and hyperparameter setting, the prior precision is symmetric and positive definite, is that of the documented model (independent terms, or the finite-element Matern field of given spread and range on the mesh, sub-region or lattice), and the derivative reported for each hyperparameter is the true derivative of the precision with respect to that hyperparameter. Regional parameters merged for the globe are at each node the average over the regions containing it. Setting hyperparameters from an array and reading them back returns the same values in the same order.',
  ['configurations', 'inputs'], 'all element kinds x hyperparameter lattices x all hyperparameter indexes, differences taken at multiple steps',
  'Tests check one setting per element.',
  [A+'elements/covariate.py', A+'elements/seasonal.py', A+'elements/spacetimespde.py', A+'elements/local.py', A+'elements/kronecker.py', A+'elements/factor.py', A+'elements/combination.py', A+'stats/spde/spherical.py', A+'stats/spde/spherical_view.py', A+'stats/spde/lattice.py'],
  [('derivative of the precision', A+'elements/combination.py')]),
P('C16', 'Station bias terms change exactly at the recorded break points',
  'For every set of stations and sorted break times, each observation of a station is given the bias term of the homogeneous period its day falls in and of no other station or period; observations after a station\'s last break or of stations without breaks get no bias term. A satellite source gets its single global term, or the term of the hemisphere of each observation, at exactly its own valid observations. Removing break points by likelihood keeps exactly those the policy admits, with station and time still paired.',
  ['inputs', 'configurations'], 'all break-time sets for up to 3 stations over up to 4 days x all observation days x filters',
  'Tests use one station table.',
  [A+'elements/bias.py', A+'elements/bias_insitu_land.py', A+'fileio/observation_source_surface_effects.py', 'src/eustace/analysis/observationsource.py', 'src/eustace/preprocess/fileio/insitu_land_breakpoints.py', 'src/cpp/eustace/analysis/break_points/break_points.cpp', 'src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp'],
  [('assignment of observation to period', A+'elements/bias_insitu_land.py')]),
P('C17', 'Gridded output does not depend on how the projection is blocked',
  'Projecting an analysis onto an output grid gives each cell the value for that cell\'s own latitude and longitude, identical for every block size, and equal to a direct evaluation; regridded cells are the area summary of exactly the sub-cells inside them.',
  ['configurations', 'inputs'], 'all grid shapes up to 6x6 x all block sizes x all regrid factors',
  'Tests use one grid and one blocking; errors at ragged last blocks need particular sizes.',
  [A+'fileio/output_projector.py', A+'fileio/output_structure_rectilinear.py'],
  [('blocked evaluation loop', A+'fileio/output_projector.py')]),
P('C18', 'Hyperparameter fitting maximises the true marginal likelihood',
  'Up to a constant, the cost minimised when fitting hyperparameters is the negative log marginal likelihood of all observations, whatever point it is conditioned on, and its reported gradient is the exact gradient; replicates contribute independently. Fitting never returns hyperparameters under which the observations are less likely than under the initial ones, and leaves stored states unchanged.',
  ['inputs', 'histories'], 'all prior graphs on 3 nodes x parameter lattice x observation sets x conditioning points x replicate sequences; all short day histories for the fit',
  'Tests compare one setting with a finite difference.',
  [A+'linalg/costfunction.py', A+'linalg/optimize.py', A+'linalg/sparse.py', A+'components/spatialdelayed.py'],
  [('marginal likelihood and gradient', A+'linalg/costfunction.py')]),

P('C19', 'Each model element evaluates its documented basis at every observation',
  'For every observation location and time, the design row an element produces is its documented basis evaluated there: one for the grand mean, latitude harmonics of the latitude, seasonal harmonics of the fraction of the year times the mesh weights, lattice basis functions at the true (cyclic where declared) distance, products of time and space bases for space-time elements, one for the bias group an observation belongs to and nothing for observations outside it, and the bilinear interpolation of a covariate map that is cyclic in longitude. For nonlinear elements the Jacobian is the true derivative of the design function. No observation affects the row of another.',
  ['inputs', 'configurations'], 'all element kinds x a lattice of locations including poles, date line, mesh vertices and grid edges x days across year ends and leap years x all effect sets on 3 observations',
  'Tests evaluate a few rows away from edges, cycle ends and year ends.',
  [A+'elements/grandmean.py', A+'elements/latitudeharmonics.py', A+'elements/seasonal.py', A+'elements/latitudespline.py', A+'elements/kronecker.py', A+'elements/kronecker_annual.py', A+'elements/factor.py', A+'elements/bias.py', A+'elements/spatial_bias.py', A+'elements/geography_based.py', A+'stats/spde/lattice.py', A+'stats/spde/spherical.py'],
  [('basis evaluation on lattices', A+'stats/spde/lattice.py'), ('seasonal time factors', A+'elements/seasonal.py')]),

P('C20', 'Satellite grid statistics are exact for any order and split of files',
  'Counts, sums, minimum, maximum, means and spreads computed per grid cell equal those of the set of valid observations falling in that cell, for every order of observations and every way of splitting them between files or calls. Observations that are masked, rejected by quality flags, or outside the grid contribute to nothing.',
  ['inputs', 'schedules', 'fault_sequences'], 'all sequences of up to 4-5 observations over 2-3 cells, values and validity alphabet, all splits; each input file in turn missing or corrupt',
  'Tests use single fixed sequences.',
  ['src/eustace/satgrid/aggregate.c', 'src/eustace/satgrid/aggregate_grid.py', 'src/eustace/satgrid/grid.py', 'src/eustace/satgrid/file_aggregate_grid.py', 'src/eustace/satgrid/satellite_file.py', 'src/eustace/satgrid/command.py', 'src/eustace/satgrid/filebuilder.py'],
  [('in-place aggregation', 'src/eustace/satgrid/aggregate.c')]),
P('C21', 'Gridded binning operations equal reference statistics cell by cell',
  'The binning operations (count, sum, extremes, squared sums and deviations) applied to any sequence of input chunks give for each output cell exactly the statistic over the unmasked input values mapped to it, and merging inputs in any order or split gives the same cube. Cells that received nothing are marked as having no data.',
  ['inputs', 'schedules'], 'all sequences/masks/splits of up to 4 values over 2-3 cells for each operation, and the full day/night clear-sky pipeline on small granules',
  'Tests use one array per operation.',
  ['src/eustace/satgrid_iris/gridbin/gridbin.py', 'src/eustace/satgrid_iris/gridbin/gridfieldlist.py', 'src/eustace/satgrid_iris/gridbin/operation/operation.py', 'src/eustace/satgrid_iris/gridbin/operation/count.pyx', 'src/eustace/satgrid_iris/gridbin/operation/sumcountmaxmin.pyx', 'src/eustace/satgrid_iris/gridbin/operation/sumsq.pyx', 'src/eustace/satgrid_iris/gridbin/operation/sumsqdev.pyx', 'src/eustace/satgrid_iris/pipeline.py', 'src/eustace/satgrid_iris/satellite.py', 'src/eustace/satgrid_iris/modis.py', 'src/eustace/satgrid_iris/command.py', 'src/eustace/satgrid_iris/saver.py'],
  [('grid bin operations', 'src/eustace/satgrid_iris/gridbin/operation')]),
P('C22', 'Binary observation files reproduce every observation at its own place and time',
  'Observations written to the binary analysis-input format are read back (from the daily file, or from the per-location index) with the same values, uncertainties, local correlation terms, locations and days, with missing ones left out, for both the Python and the C++ readers. Files that belong to a different location table are refused, and the per-location index points at exactly the records of that location. The commands that count and inspect these files report exactly what was written, and days without a file apart from days without observations.',
  ['inputs', 'histories', 'fault_sequences'], 'all observation sets of up to 3-4 locations x validity patterns x correlation counts x up to 3 days; all truncation points of the files',
  'Tests write one file and compare bytes; index/offset errors depend on which observations are missing.',
  ['src/eustace/analysis/fileio/observationsource_rawbinary.py', 'src/eustace/analysis/fileio/locationpointers.py', 'src/eustace/analysis/fileio/observationsource_missing.py', 'src/cpp/eustace/analysis/fileio/rawbinary.cpp', 'src/cpp/eustace/analysis/fileio/locationpointers.cpp', 'src/cpp/eustace/analysis/inputmanager.cpp', 'src/eustace/analysis/preparelocationpointers.py', 'src/eustace/analysis/obscount.py', 'src/eustace/analysis/obscountsources.py', 'src/eustace/analysis/inspectinput.py'],
  [('fixed-size record layout and offsets', 'src/eustace/analysis/fileio/observationsource_rawbinary.py')]),
P('C23', 'Diagnostic grids summarise exactly the observations in each cell',
  'For every sequence of observations and any division into sources and days, each diagnostic grid cell reports the count, sum, extremes and uncertainty extremes of exactly the valid observations inside that cell, and combining grids gives the same as aggregating everything at once.',
  ['inputs', 'schedules'], 'all sequences of up to 4 observations over 2-3 cells with value/uncertainty alphabet and all splits',
  'Tests use one small array.',
  ['src/eustace/analysis/diagnosticgrid.py', 'src/eustace/analysis/diagnosticgrid_aggregate.pyx', 'src/eustace/analysis/diagnostic_combine.py'],
  [('aggregate loop', 'src/eustace/analysis/diagnosticgrid_aggregate.pyx')]),
P('C24', 'The spherical mesh tiles the globe and every point is located in its triangle',
  'At every subdivision level the mesh is a closed triangulation of the sphere with consistent neighbours and no repeated vertices, and each child triangle lies inside its parent. Every location is assigned to a triangle that contains it, the fast hierarchical locator agrees with the exhaustive one, and interpolation weights at a location are defined, non-negative, sum to one and (those in the plane of the triangle, which the analysis uses) reproduce the location.',
  ['inputs', 'configurations'], 'all triangles, edges and vertices of levels 0-4 plus a latitude/longitude lattice including poles and date line',
  'Tests locate a few points at one or two levels; boundary points are the hard ones.',
  ['src/eustace/analysis/mesh/mesh.py', 'src/eustace/analysis/mesh/locator.py', 'src/eustace/analysis/mesh/locator_search_planes.pyx', 'src/eustace/analysis/mesh/geometry.py', 'src/eustace/analysis/mesh/irisconnector.py', A+'stats/spde/spherical.py'],
  [('subdivision', 'src/eustace/analysis/mesh/mesh.py'), ('hierarchical location', 'src/eustace/analysis/mesh/locator.py')]),

P('C25', 'Observations reach the analysis complete, unmixed and at their own place',
  'For every gridded, ship and lake input file and every pattern of missing values, each source delivers exactly the values present, each with its own uncertainty, correlated errors, place and day, in kelvin; what the analysis is given (directly or through the prepared binary files) is exactly those, with longitudes brought into -180 to 180, precision from its own uncertainty and the source left unchanged. A daily mean computed from minimum and maximum exists exactly where both do, with errors combined as root mean square; sets are combined only if their times, error terms and location order agree, and otherwise refused; so are gridded observations whose places differ from the location table they are stored against.',
  ['inputs', 'configurations'], 'all missing patterns of 2 x 3 grids for each gridded source, all pairs of small observation sets, all small ship and lake files, all combinations of present and absent files',
  'Tests of these readers need external files that are not available, and would cover one file each.',
  ['src/eustace/analysis/observationsource.py', 'src/eustace/surfaceairmodel/fileio/cubemap.py', 'src/eustace/surfaceairmodel/fileio/consistent.py', 'src/eustace/surfaceairmodel/fileio/land.py', 'src/eustace/surfaceairmodel/fileio/ocean.py', 'src/eustace/surfaceairmodel/fileio/ice.py', 'src/eustace/surfaceairmodel/fileio/lake.py', 'src/eustace/preprocess/fileio/insitu_ocean.py', A+'fileio/observation_structure_source_connector.py', 'src/eustace/analysis/preparedailyfixed.py', 'src/eustace/analysis/preparedailymobile.py', 'src/eustace/analysis/preparelocationlookup.py', 'src/eustace/analysis/preparecorrelationranges.py'],
  [('valid observations and their locations', A+'fileio/observation_structure_source_connector.py'), ('observation source over a gridded file', 'src/eustace/surfaceairmodel/fileio/cubemap.py')]),

P('C26', 'Stored analysis results are read back as last written, for their own day only',
  'For every sequence of writes and reopenings, every storage of the analysis (in memory, one file per operation, lists, dictionaries or patterns of names, kept in memory or not) gives back for each quantity (state, spread, sample, prior sample, measurement) and day exactly what was last written for them; what was never written is absent or an error, never a value of another quantity or day; writing a quantity without a file, or a day the storage was not made for, is refused and changes nothing; lists of measurements are read in their own order and number; a file cut short by a crash at any byte is never taken for a result.',
  ['histories', 'crash points'], 'all sequences of 3 (thorough 5) writes and reopenings over all pairs of quantities and two days, all subsets of named quantities, all orders of lists up to 3, every cut of every file, for all nine storage configurations',
  'Tests write and read one quantity in one order.',
  [A+'components/storage_files.py', A+'components/storage_files_batch.py', A+'components/storage_inmemory.py'],
  [('read and write of named quantities', A+'components/storage_files.py')]),

P('C28', 'The format verifier passes exactly the files that meet the specification',
  'For every global field or station file, the verifier passes it if and only if it meets the specification: it can be opened (both files, for stations), has title, institution, source and history and the convention CF-1.6, at least one known variable, every known variable it has being of its type with its metadata (value, where one is specified, whatever the type or length of what is found instead), and the dimensions of their size, unlimited where so specified. Every departure is reported as a failed item of its own, nothing else is, and the exit status of the command is 0 only on a pass. The files made by the product builders pass.',
  ['inputs', 'fault_sequences'], 'every single departure of every item of the three formats and pairs of them, all small sets of variables present, files absent, cut short or of another kind',
  'Tests verify one conforming file of each kind and an empty one.',
  ['src/eustace/outputformats/verify/verify.py', 'src/eustace/outputformats/verify/specification.py', 'src/eustace/outputformats/verify/specification_globalfield.py', 'src/eustace/outputformats/verify/specification_stations.py', 'src/eustace/outputformats/verify/verify_globalfield.py', 'src/eustace/outputformats/verify/verify_stations.py'],
  [('checks of one file', 'src/eustace/outputformats/verify/verify.py')]),

P('C29', 'Hyperparameters are fitted to the listed files of the chosen days only',
  'The list of inputs prepared for fitting hyperparameters names, for every day, exactly the sources and files given for that day, in the order in which the days are given, whatever was in its files before and whichever files are missing. Fitting a component for a selection of days uses exactly the observations in the files listed for those days, each at its own day, with what all other components explain removed; days that were not chosen play no part, a day processed again replaces what was held for it, and the states of the other components and the list itself are not changed. Each processed day gets the exact posterior state for its observations. The hyperparameters stored are the ones fitted, and reading the file gives them back to the same part of the model.',
  ['inputs', 'histories', 'configurations'], 'all presence patterns of three sources on three days, all ordered selections of days, all orders of the list; all orders and numbers of summaries of 5 days',
  'The test of the optimisation system processes one day with one source and checks that it runs.',
  [A+'optimizationsystem.py', A+'fileio/optimization_inputs.py', A+'elements/local_view.py', A+'components/spatialdelayed.py', A+'analysissystem.py'],
  [('inputs of the chosen days', A+'optimizationsystem.py'), ('list of inputs', A+'fileio/optimization_inputs.py')]),

P('C30', 'Published masks follow the quality flags exactly',
  'A grid cell of the published product is masked if and only if one of its quality flags is in the rejecting set (the flag for a calendar day without constraint rejecting only cells that are not marine), or it is marine in a year after 2012, from which marine data are withheld. The flags of two flag directories are united before masking. Masking affects all published fields of the cell alike and changes no unmasked value. Merged flag files hold the union of the flags of the files merged, the areal-low bit of the second set standing for marine. Flag bits are distinct, each written with its own documented meaning, and a cell with every flag set is not missing data.',
  ['inputs'], 'all 2^16 flag words x land/sea x dates around the cut-over x one or two flag directories; all pairs of flag words for the merge',
  'Tests do not exist for this stage.',
  ['src/eustace/postprocess/apply_mask.py', 'src/eustace/postprocess/flags.py', 'src/eustace/postprocess/merge_flag_files.py'],
  [('mask from flags', 'src/eustace/postprocess/apply_mask.py')]),
P('C31', 'Windowed and calendar quality checks flag exactly the under-supported days',
  'For every history of daily flags, a cell-day gets the prior (post) window flag if and only if fewer days of the window before (after) it than the threshold are available and do not carry the flag looked for; it gets the calendar-day flags if and only if the same calendar day is constrained in too few years; and the persistent-outlier flag if and only if at least the threshold number of days in the window carry an outlier. A day that is unavailable or unreadable counts as unconstrained and without outlier, a day whose own flags are missing is an error, and flags already set are never cleared.',
  ['histories', 'inputs', 'fault_sequences'], 'all flag histories over the window (each grid cell carries one history) x all patterns of missing days',
  'No tests exist; the window arithmetic involves leap years, month ends and missing files.',
  ['src/eustace/postprocess/window_check.py', 'src/eustace/postprocess/calendar_check.py', 'src/eustace/postprocess/outlier_window_check.py'],
  [('window accumulation', 'src/eustace/postprocess/window_check.py')]),
P('C39', 'Threshold and outlier checks flag exactly the cells whose surroundings fail them',
  'The location-influence, climatology and marine flags of a day are set exactly where the smoothed fields cross the documented thresholds, the smoothing windows reflecting at the poles and wrapping round in longitude. The outlier check flags the cells within two cells of an impossible temperature (below 193.15 K or above 333.15 K), of an areal outlier (outside four quartile distances of the altitude-adjusted values within 750 km) and of a value too far outside the calendar-day percentiles of its location (29 February using those of the 28th), and sets the flag of the check and side that failed and no other.',
  ['inputs'], 'each cell position in turn made exceptional on a small global grid (poles, date line, interior) x magnitudes on both sides of each limit x calendar days including leap days',
  'Tests do not exist for this stage.',
  ['src/eustace/postprocess/threshold_check.py', 'src/eustace/postprocess/outlier_check.py', 'src/eustace/postprocess/cell_percentile_calculation.py', 'src/eustace/postprocess/cell_percentile_threshold.py'],
  [('spatial window statistics', 'src/eustace/postprocess/outlier_check.py')]),
P('C32', 'Submitted jobs run every operation exactly once, after the stages they depend on',
  'For every number of operations and batch layout, the jobs submitted for a processing stage run each operation of it exactly once and no other, and no job starts before all jobs of the stages it depends on have finished; a submission that fails is reported as an error. The monthly batches of post-processing are disjoint, in order, and together are exactly the days of the period, including leap days.',
  ['configurations', 'schedules'], 'all operation counts up to a bound x batch sizes x jobs per submission x tasks per job; all start/end years spanning leap and century years',
  'No tests exist.',
  ['src/eustace/postprocess/operation_count.py', 'src/roses/fullstace/advanced_standard/lsf_submission.py', 'src/roses/fullstace/advanced_standard/lsf_submission_group.py', 'src/eustace/postprocess/lsf'],
  [('monthly batches', 'src/eustace/postprocess/operation_count.py'), ('job arrays and their dependencies', 'src/roses/fullstace/advanced_standard/lsf_submission.py')]),
P('C33', 'Merging satellite outputs combines values correctly and loses no source data',
  'A merged surface-air file contains at each cell the combination of exactly the sources that have data there and is masked where none has, for every coverage pattern, source order and set of missing source files, with each source\'s own values kept beside it; a source of which only one of its two files is there is refused. At every failure or crash point during merging, each piece of data exists either in its source file or in a complete merged file.',
  ['inputs', 'crash_points', 'fault_sequences'], 'all combinations of missing and present values of 1-3 sources, all patterns of missing files, all crash points and errors of merge/update/remove and the run after',
  'Tests merge fully overlapping files in one run without faults.',
  ['src/eustace/outputformats/filesmerger.py', 'src/eustace/outputformats/merge_multiple_outputs.py'],
  [('merge, update, remove cycle', 'src/eustace/outputformats/filesmerger.py')]),
P('C34', 'Written product values are within packing resolution or marked missing',
  'Every value handed to the product writer is read back within half a packing step of itself, or as missing if it was missing or cannot be represented; no in-range value wraps around, shifts cell or becomes missing, for every variable definition and both global-field and station formats.',
  ['inputs', 'configurations'], 'all variable definitions x all representable packed codes and boundary values',
  'Tests check one low temperature.',
  ['src/eustace/outputformats/filebuilder.py', 'src/eustace/outputformats/globalfield_filebuilder.py', 'src/eustace/outputformats/outputvariable.py', 'src/eustace/outputformats/definitions.py', 'src/eustace/outputformats/stationdata.py', 'src/eustace/outputformats/stations.py', 'src/eustace/outputformats/iriscubesaver.py', 'src/eustace/outputformats/globalfield.py'],
  [('scale and offset packing', 'src/eustace/outputformats/filebuilder.py')]),
P('C35', 'Station observations pass the quality and hold-out filters exactly',
  'For every combination of quality flags, missing values, hold-out station list and day selection, the land-station reader delivers exactly the observations that are present, not held out and (when quality control is asked for) known to be free of flags, each with the location, time, value and altitude correction of its own station; a station of unknown elevation is left out when altitude is corrected for. Stations are matched to their own location table and refused against another.',
  ['inputs', 'configurations'], 'all flag/missing patterns for up to 3 stations x 3 days x hold-out subsets x options',
  'Tests need large external files and are not run.',
  ['src/eustace/preprocess/fileio/insitu_land.py', 'src/eustace/preprocess/fileio/height_adjustment.py', 'src/eustace/analysis/preparedailyfixed.py'],
  [('qc and hold-out masks', 'src/eustace/preprocess/fileio/insitu_land.py')]),
P('C36', 'Surface-air model output keeps cells aligned and drops inconsistent ones',
  'Each cell of the land and ocean surface-air output is made from that same cell of the results of the external model: the total uncertainty is the quadrature sum of the components and missing where any component is, ocean temperatures are in kelvin, and land cells in which minimum and maximum are both known and the minimum exceeds the maximum are removed from all fields, no others are, and their number is reported. An ice cell has output exactly where there is ice of one kind, a known temperature that passes the quality control (including cloud in the cells around it) and known uncertainties, and its values follow the regression of its own kind of surface and hemisphere. Results of each day go to the output of that day, nothing is written if the external model fails, existing ice output is kept, and the command lines work.',
  ['inputs', 'configurations', 'fault_sequences'], 'all missing/valid patterns over inputs of small grids x value alphabets; all kinds of ice cell x quality conditions; all 5x5 neighbourhoods of up to two special cells; failures of the external program',
  'Tests run full-coverage examples.',
  ['src/eustace/surfaceairmodel/model_land.py', 'src/eustace/surfaceairmodel/model_ocean.py', 'src/eustace/surfaceairmodel/model_ice.py', 'src/eustace/surfaceairmodel/model_ice_input_processing.py', 'src/eustace/surfaceairmodel/fileio/post_processing.py', 'src/eustace/surfaceairmodel/fileio/consistent.py', 'src/eustace/surfaceairmodel/fileio/remap.py', 'src/eustace/surfaceairmodel/correlation_ranges.py', 'src/eustace/surfaceairmodel/run_land.py', 'src/eustace/surfaceairmodel/run_ocean.py', 'src/eustace/surfaceairmodel/run_ice.py'],
  [('regression model evaluation', 'src/eustace/surfaceairmodel/model_land.py')]),
P('C37', 'Output directories can be created by many processes at once',
  'When any number of processes ensure the same output directory or nested paths of it at the same time, every one of them returns with the directory present and none fails, for every interleaving; a path that is blocked by a file is reported as an error. The same holds for every program that creates the directories of its own outputs, such as the post-processing stages.',
  ['schedules', 'fault_sequences'], 'all interleavings of the file-system calls of 2-3 concurrent callers over shared path prefixes; each post-processing writer against another process making any level of its output path at any of its file-system calls',
  'Tests call it once sequentially.',
  ['src/eustace/outputformats/ensuredirectory.py', 'src/eustace/postprocess'],
  [('create tolerant of concurrent creation', 'src/eustace/outputformats/ensuredirectory.py')]),
P('C38', 'Running the generated schedule gives the states of the sequential analysis',
  'For every number of iterations, time span, gridding choice, way of splitting the iterations over successive definitions added to one catalogue, and pattern of missing input files, the operations of the generated analysis definition, run in the order listed, only read external data or what earlier operations wrote; each component is solved with the latest states of all others, so that the stored state of every component, iteration and day equals the one of the exact sequential analysis; samples and products of the last iteration are made from that iteration\'s states, each product file belongs to one day and one product, and every declared output file is written exactly once (a day without any observation has no local state).',
  ['configurations'], 'all iteration counts up to 3 (thorough 4) x all splits into successive definitions x daily and batch schedules x periods across month, year and leap-day ends x kinds of missing input x bias options; the diagnostics and the shipped scripts',
  'Tests compare generated dictionaries for one setting and never run them.',
  [C+'jsonfiller.py', 'src/eustace/analysis/advanced_standard/examples', 'src/roses/fullstace/advanced_standard'],
  [('per-iteration operation generation', C+'jsonfiller.py')]),
]
