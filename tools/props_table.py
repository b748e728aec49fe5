NOT_APPLICABLE = []

prop('S01', 'UTM conversion: right zone, right hemisphere, exact inverse',
     'Converting latitude/longitude to UTM uses the WGS84 UTM projection of the 6-degree zone containing the longitude (or the zone asked for), with metres and the false northing only for points south of the equator, and reports that zone; converting back with that zone and hemisphere returns the original point. Arrays, lists and labelled series are converted element by element with order and labels kept, and coordinate arrays of different lengths are rejected.',
     ['inputs'], 'all latitudes/longitudes (zones 1-60 by longitude, both hemispheres), explicit zones, scalar/array/list/series inputs of any length',
     'tests convert a handful of fixed points in one or two zones; zone boundaries, the antimeridian, the southern hemisphere and container handling range over a continuum',
     ['spatial.py'], [('forward conversion and zone selection', 'spatial.py:latlon2utm, _calc_zone'), ('inverse conversion', 'spatial.py:utm2latlon')],
     note='pyproj is an uninterpreted projection with an inverse axiom; its numerics are trusted.')
prop('S02', 'Local coordinates: one origin, exact round trip',
     'Local coordinates of a point are its eastward and northward UTM offsets from the origin, both taken in a single zone and hemisphere (those of the origin unless a zone is given), so the origin is (0, 0); mapping local coordinates back about the same origin returns the original latitude/longitude, also across zone borders and the equator. Arrays and labelled series act element by element.',
     ['inputs'], 'all origins and targets, with or without an explicit zone, scalar/array/series targets',
     'tests use one site and one zone; the guarantee is about every pair of points, in particular pairs that straddle a zone border or the equator',
     ['spatial.py'], [('geographic to local', 'spatial.py:latlon2lcs'), ('local to geographic', 'spatial.py:lcs2latlon')],
     note='pyproj is an uninterpreted projection with an inverse axiom.')
prop('S03', 'Plane vector algebra and polar/rectangular conversion',
     'Dot product, magnitude, unit vector, rotation and polar/rectangular conversion of plane vectors satisfy their Euclidean definitions for every vector and accepted container (tuples, arrays, stacked components, labelled tables): the unit vector is parallel with length one, a positive rotation is counter-clockwise and preserves lengths, and polar conversion round-trips.',
     ['inputs'], 'all plane vectors, angles and container types, any number of stacked vectors',
     'tests check a few fixed vectors; quadrants, negative components and container combinations form a continuum',
     ['spatial.py'], [('vector primitives', 'spatial.py:dot, magnitude, unit'), ('polar conversion and rotation', 'spatial.py:rect2pol, pol2rect, rotate_vector')])
prop('S04', 'Relative positions and projections keep order, labels and sign',
     'Relative positions of a set of points are each point minus the reference, in input order and with input labels (the reference itself giving zero and extra coordinates being ignored), and the projection of each on a direction is its signed component along that direction regardless of the direction vector\'s length.',
     ['inputs'], 'all point sets, references and non-zero directions, arrays and labelled tables of any length',
     'tests use a few points and axis-aligned directions; a sign or order error for general positions would pass',
     ['spatial.py'], [('relative positions', 'spatial.py:compute_vectors'), ('projection', 'spatial.py:project_vectors')])
prop('S05', 'Perpendicular-line intersection recovers the common velocity',
     'For every pair of non-parallel apparent displacement vectors the computed intersection lies on the line through each vector\'s tip perpendicular to that vector, row by row and independent of the order of the two, so the projections of one velocity on two directions determine that velocity.',
     ['inputs'], 'all pairs of non-parallel plane vectors, any number of rows',
     'tests use one or two hand-made pairs; correctness is an algebraic identity over all vectors',
     ['spatial.py'], [('line intersection', 'spatial.py:compute_intersection')])
prop('S06', 'Space-time separation under drift is a metric in the moving frame',
     'The separation assigned to two site/time observations is the Euclidean distance of the sites after displacing each by the drift velocity over its own time, sites ordered outermost; it is symmetric, non-negative, zero on the diagonal, purely spatial without drift, and zero for two sightings of one drifting point.',
     ['inputs'], 'all site sets, time vectors and velocities of any size',
     'tests check tiny fixed grids; index-layout or sign mistakes for general sizes and velocities would pass',
     ['spatial.py'], [('space-time distances', 'spatial.py:spacetime_distances')])
prop('S07', 'Flat-earth local projection about a reference point',
     'The flat-earth projection maps the reference point to (0, 0) and every other point to the east offset (prime-vertical radius times cos of the reference latitude times the longitude difference) and north offset (meridian radius times the latitude difference) on the WGS84 ellipsoid, element by element; the transverse-Mercator option agrees with it to first order near the reference and an unknown option is rejected.',
     ['inputs'], 'all references and points, scalars and arrays',
     'tests compare a single cluster of sites; east/north mix-ups or wrong radii only show at other latitudes',
     ['spatial.py'], [('flat projection', 'spatial.py:lla2flat')],
     note='agreement with the transverse-Mercator option is bounded (sampled).')
prop('T01', 'Error metrics equal their definitions',
     'Mean bias, mean absolute, mean squared and root-mean-square errors between an estimate and a baseline equal their defining averages of (estimate minus baseline), so bias changes sign when the two swap, the others do not, |bias| <= mean absolute error <= RMSE, and a common offset changes none of them.',
     ['inputs'], 'all pairs of equal-length series',
     'tests evaluate fixed short arrays; sign conventions and normalisation are claims over all inputs',
     ['stats.py'], [('error metrics', 'stats.py:bias_error, absolute_error, squared_error, mbe, mae, mse, rmse')])
prop('T02', 'Ramp-based variability metrics (DARR, variability score)',
     'The aggregate ramp rate is the sum of absolute differences at the requested lag and the variability score is the largest product of a ramp magnitude and the fraction of ramps exceeding it, per column, ignoring missing samples; the averaged variants use the series averaged over windows of exactly that many sampling periods (also for sub-second sampling), and the percent form rescales by 1000 W/m2.',
     ['inputs', 'configurations'], 'all time series and tables with any regular or irregular sampling, lags, averaging and percent options',
     'tests use one data file and one sampling rate; lag handling, averaging windows and missing data range over all series',
     ['stats.py'], [('aggregate ramp rate', 'stats.py:darr'), ('variability score', 'stats.py:variability_score')],
     note='tables proved column by column; missing samples and the binning of regular records are bounded (sampled).')
prop('T03', 'Variability index is the ratio of trace lengths',
     'The variability index of a measured trace against a clear-sky trace is the ratio of their polyline lengths with time measured in minutes per sampling period (optionally normalised by the square root of that period), per column; it is one for identical traces, reciprocal under exchange, unaffected by constant offsets, and with averaging it is that of the window-averaged traces.',
     ['inputs', 'configurations'], 'all pairs of equally indexed traces, averaging windows and normalisation options',
     'tests evaluate one day of data; units and normalisation errors cancel for the sampled period',
     ['stats.py'], [('variability index', 'stats.py:variability_index')])
prop('I01', 'Clear-sky index: clipped ratio, one cap, zero where undefined',
     'The clear-sky index of every sample is measured over clear-sky irradiance clipped to the range from zero to the requested cap (2 by default), zero where the ratio is not finite (night), missing where an input is missing; tables use the same clear-sky series and the same cap for every column, and labels, order and container type are kept.',
     ['inputs', 'configurations'], 'all irradiance values including negative, zero and missing ones, all caps, arrays, series and tables of any size',
     'tests compare a few samples with the default cap; night-time zeros, negative offsets, missing samples and the table path range over all inputs',
     ['irradiance.py'], [('clear-sky index', 'irradiance.py:clearsky_index')],
     note="pvlib's clearsky_index is interpreted from its installed source, not assumed.")

prop('G01', 'Cross-correlation equals the lagged product sum at every lag',
     'The correlation of two equally long series is, at every lag from 1-n to n-1 and for every scaling option, the sum over the overlap of first(t+lag) times second(t) of the raw or mean-removed samples divided by that option\'s normalisation, paired with its lag; the FFT evaluation gives the same values as the direct one, pair by pair; equal series give coefficient one at lag zero and exchanging the series reverses the lag axis.',
     ['inputs', 'configurations'], 'all pairs of series of any length and every scaling option',
     'tests compare a few signals and shapes; lag sign, normalisation and per-pair scaling range over all inputs',
     ['signalproc.py'], [('correlation', 'signalproc.py:correlation'), ('FFT correlation', 'signalproc.py:_fftcorrelate')],
     note='scipy.signal.correlate / numpy.fft are assumed to equal the discrete correlation / DFT (the correlation theorem is applied symbolically); the Cauchy-Schwarz lemma behind the bound of one is a ghost lemma with its own contract (base case, step and conclusion discharged).')
prop('G02', 'Time-domain delay is the lag of the correlation peak',
     'The delay between input and output is minus the lag (times the sampling period) at which the correlation under the chosen scaling is largest, and the reported peak, mean and zero-lag correlations are those of the same correlation, pair by pair, in the loop and the FFT mode alike; an output that is a copy arriving d samples later has delay plus d periods; uncorrelated pairs are reported with delay zero; unknown modes and scalings are rejected.',
     ['inputs', 'configurations'], 'all pairs of signals, scalings, modes, sampling periods and table widths',
     'tests check a few pairs at one sampling rate; sign, scale and pairing errors of other modes or widths pass',
     ['signalproc.py'], [('single delay', 'signalproc.py:xcorr_delay'), ('delays of tables', 'signalproc.py:compute_delays')],
     note='the peaks of the FFT mode and the shifted-copy law are bounded (sampled); scalings other than the default use correlation by contract (G01).')

prop('G03', 'Averaged spectra, transfer function and coherence of every pair',
     'Averaging a record over a requested number of segments yields, column by column, the Welch spectrum over segments of record length divided by that number with the requested overlap, window and detrending, on the sampling-rate frequency axis; the transfer function of each input/output pair is cross spectrum over input spectrum and its coherence the squared cross spectrum over both spectra, within [0, 1], one single input or output being paired with all; a scaled copy has that scale as transfer function and coherence one; tables of different widths and unlabelled arrays are rejected.',
     ['inputs', 'configurations'], 'all records, segment counts, overlaps, windows, detrendings and table widths',
     'tests check shapes and one data set; pairing, segment length and normalisation range over all configurations',
     ['signalproc.py'], [('averaged spectra', 'signalproc.py:averaged_psd'), ('averaged transfer function', 'signalproc.py:averaged_tf')],
     note='scipy.signal.welch/csd are assumed to be the (bilinear, Cauchy-Schwarz bounded) Welch estimates.')
prop('G04', 'Interpolating and applying transfer functions',
     'Interpolating a transfer function keeps its values at its own frequencies and is linear in magnitude and unwrapped phase between them whatever the order in which they are listed; filtering a signal multiplies its spectrum by the interpolated filter (its conjugate at negative frequencies), so it is the circular convolution with the impulse response, a constant filter scales the signal, a linear-phase filter delays it (positive delay = later), times are kept, and a filter narrower than the signal is rejected.',
     ['inputs'], 'all transfer functions, target frequencies and signals of any length',
     'tests use two hand-made filters; phase sign, conjugate symmetry and unsorted frequency lists only show on others',
     ['signalproc.py'], [('interpolation', 'signalproc.py:interp_tf'), ('filtering', 'signalproc.py:apply_filter')],
     note='scipy interp1d is assumed to interpolate linearly and to refuse points outside; the closed forms of convolution and pure delay are bounded (sampled), the spectrum they follow from is proved.')
prop('G05', 'Delay from transfer-function phase',
     'A delay estimated from transfer-function phase uses exactly the frequencies below the frequency limit whose coherence exceeds the coherence limit, with positive delay meaning the output lags: the line fit and the common-delay fit minimise the phase error, the difference method averages the phase slope; no usable frequency is reported as missing; applying a delay multiplies by the matching pure phase, leaves magnitudes alone and is undone by its negative; delays of tables are those of each pair with its own correlations.',
     ['inputs', 'configurations'], 'all transfer functions, coherences, limits, methods, delays and table widths',
     'tests recover one delay from one data set; limits, per-pair association and sign range over all inputs',
     ['signalproc.py'], [('delay estimation', 'signalproc.py:tf_delay'), ('delays of tables', 'signalproc.py:compute_delays_tf'), ('pure delay', 'signalproc.py:apply_delay')],
     note='scipy curve_fit/leastsq are assumed to return the least-squares solution; compute_delays_tf uses correlation, averaged_tf and tf_delay by contract (G01, G03, G05); recovery of a known delay and of a shifted copy are bounded (sampled).')
prop('G07', 'Plant smoothing filters (cloud advection and Marcos)',
     'A one-dimensional plant is the requested shape (square, triangle or Gaussian of the requested width) around each site measured from the reference; its cloud-advection filter is the plant-weighted mean of the pure delays position over cloud speed, so the steady component passes unchanged, nothing is amplified, and a plant of sites is projected on the cloud direction whatever that vector\'s length; the Marcos filter is the first-order low pass with cutoff 0.02 over the square root of plant size; unknown shapes are rejected.',
     ['inputs', 'configurations'], 'all plants, sites, widths, cloud speeds and directions, plant sizes and frequencies',
     'tests check one plant and one speed; sign of the phase, reference and direction handling range over all inputs',
     ['signalproc.py'], [('1-D plant', 'signalproc.py:get_1d_plant'), ('advection filter', 'signalproc.py:plant1d_to_camfilter, get_camfilter'), ('Marcos filter', 'signalproc.py:get_marcosfilter'), ('frequency labels', 'signalproc.py:cleanfreq')],
     note='get_camfilter uses get_1d_plant and plant1d_to_camfilter by contract; passivity rests on a ghost lemma (convex combination of unit phasors) discharged by induction.')

prop('C01', 'Every site pair is compared, once',
     'The cloud-motion estimate compares every unordered pair of sites, including each site with itself, exactly once, in input order with the earlier site first; given reference sites it compares exactly those of these pairs that contain a reference, in the same order, so no pair is reversed or repeated.',
     ['inputs', 'configurations'], 'all numbers of sites, site names and reference lists',
     'tests count pairs for one network; ordering, self pairs and duplicates range over every network and reference list',
     ['cmv.py'], [('pair enumeration', 'cmv.py:_get_pairs, compute_cmv')])
prop('C02', 'Pairwise quality control labels each pair by its stated rule',
     'Every pair of sites gets exactly one label: it is good exactly when its sites differ, both signals vary and reach the clear-sky limit and its lag is non-zero with existing correlations and, for the directional method, the signals\' variability, the peak and mean correlations and the implied speed (separation over lag) also lie within the configured limits; any other label names a condition that this pair really fails, and one pair\'s label does not depend on the other pairs.',
     ['inputs', 'configurations'], 'all signals, delays, correlations, spacings and option values, any number of pairs',
     'tests run one day of data where a handful of labels appear; thresholds and rule order are per-pair decisions over a continuum',
     ['cmv.py'], [('per-pair decision', 'cmv.py:_pairwise_qc')])
prop('C03', 'The cloud-motion vector fits the good pairs and says so',
     'The estimated speed is non-negative and the angle lies in [0, 2 pi); the lag, correlation, quality and projected distance reported for every pair are that pair\'s own; with at most one good pair there is no estimate but a flagged zero; the plane-fit method returns the velocity whose slowness solves the least-squares lag equations over the good pairs (those above the strictest correlation threshold that leaves twelve), and the directional method the median over good pairs of distance along its direction over lag, flagged when the spread exceeds its limit.',
     ['inputs', 'configurations'], 'all irradiance tables, site tables and both methods',
     'tests check one plant\'s data; normalisation of sign and angle, alignment with the pair table and the degenerate cases depend on the data',
     ['cmv.py'], [('estimation', 'cmv.py:compute_cmv'), ('pair delays', 'signalproc.py:compute_delays'), ('quality control', 'cmv.py:_pairwise_qc')],
     note='callees are used by contract (proved in C02, G02); the scalar minimiser is an assumed contract; the normal equations of the plane fit and the percentiles of the spread are bounded (sampled).')
prop('C04', 'Cloud-motion options: defaults completed, unknown ones refused, nothing remembered',
     'Every option of the chosen quality-control method that the caller leaves out takes its documented default and every one given is used unchanged; an option that does not exist, an unknown method or an unknown delay back end is refused with an error; the caller\'s option table is not altered, so the same call gives the same answer again.',
     ['configurations', 'histories'], 'all subsets of options with any values, both methods, repeated calls',
     'tests pass one or two options once; leakage between calls and silent misspelling need combinations and repetition',
     ['cmv.py'], [('option handling', 'cmv.py:_pairwise_qc, compute_cmv')])

prop('F01', 'Remapping positions is a rearrangement that composes and undoes',
     'Remapping a position table gives every listed entity the original row (in the requested columns) of the entity it is mapped to and leaves every other row, column and the input table alone; applying the cascade of two remaps equals applying the first and then the second, in whatever order they list the entities, and a rearrangement cascaded with its inverse changes nothing.',
     ['inputs', 'histories'], 'all position tables, rearrangements in any listing order, column subsets and sequences of two remaps',
     'tests use one four-entity example; direction of the mapping and composition order only show for non-symmetric permutations',
     ['field.py'], [('remap', 'field.py:remap_positions'), ('cascade', 'field.py:cascade_remap')])
prop('F02', 'Predicted positions are assigned one to one at least total distance',
     'Assigning predicted positions to a plan returns a rearrangement of the entities, each once on either side and listed by name (in the plan\'s order where a prediction is missing), whose total distance between prediction and assigned plan position is least among all rearrangements, together with the plan table so rearranged; entities without a prediction keep their place while the others are assigned among themselves; a shuffled layout predicted to within half its closest spacing is recovered exactly.',
     ['inputs'], 'all plans, predictions and sets of missing predictions',
     'tests assign one example; optimality and one-to-one-ness are claims over all layouts',
     ['field.py'], [('assignment', 'field.py:assign_positions, remap_positions')],
     note='scipy linear_sum_assignment is assumed to return an optimal permutation; that the input rows are handed back rearranged is proved, recovery and missing predictions are bounded (sampled).')
prop('K01', 'Two-component clear-sky index model of an hour',
     'For any hourly mean the cloudy and clear components have positive weights adding to one that preserve the mean, positive variances and the published sigmoid formulas, the spatial decay is never below its floor of 1e-5, the tabulated density is the weighted sum of the component normal densities and the tabulated distribution its running sum scaled to end at one, non-decreasing in the value.',
     ['inputs', 'configurations'], 'all hourly means, parameter tables and value grids',
     'tests check one mean against stored numbers; weights, mean preservation and monotonicity are claims over all means',
     ['synthirrad/copula.py'], [('parameters', 'synthirrad/copula.py:_process_params, _exponential_decay_parameter'), ('mixture', 'synthirrad/copula.py:_gmdistribution, _solar_gmm')],
     note='sklearn GaussianMixture.score_samples is assumed to be the log mixture density.')
prop('K02', 'Copula samples are mapped through the tabulated distribution',
     'A probability is mapped back through the tabulated distribution exactly at its entries, linearly between them and towards the ends -2 and 2 outside, non-decreasingly and element by element; the copula draws, for each row of the covariance matrix, probabilities between 0 and 1 that a seed fixes, with correlation the exponential of minus decay times separation, and the sampled field is those probabilities mapped one by one.',
     ['inputs', 'configurations'], 'all tables, probabilities, sizes, decays, separations and seeds',
     'tests check stored numbers for one seed; mapping at table edges and the correlation sign range over all tables',
     ['synthirrad/copula.py'], [('inverse sampling', 'synthirrad/copula.py:_inverse_sample'), ('copula', 'synthirrad/copula.py:_copularnd_gaussian, _space_time_copula')],
     note='the numpy multivariate normal generator is assumed; the drawn correlations and margins and tables with repeated probabilities are bounded (sampled).')
prop('K03', 'Downscaled fields keep layout, sign and hourly mean',
     "The downscaled field has a row per time and a column per site, its entry being the copula sample drawn for that site at that time; on request (and by default) negative entries become zero, and the field is scaled by one factor so that its mean is the hour's clear-sky index; several hours are the concatenation of single ones, each with its own mean and with whichever of times, cloud speed, direction and parameters is listed per hour, and a list of another length (other than one common speed or direction) is refused.",
     ['inputs', 'configurations'], 'all sites, time axes, cloud motions, means, option combinations and per-hour lists',
     'tests run one configuration; sample-to-site layout and per-hour pairing range over every combination of options',
     ['synthirrad/copula.py'], [('one hour', 'synthirrad/copula.py:downscale'), ('several hours', 'synthirrad/copula.py:downscale_multihour')],
     note='mixture and inverse sampling are used by contract (K01, K02).')

prop('D01', 'Quality control of records blanks exactly the suspect samples and bridges only short gaps',
     'Quality control by flags makes exactly the samples whose flag reaches the given level missing, and control by value exactly those below -100; gap interpolation keeps every existing sample, fills a gap of at most the limit (5 by default) samples between two existing ones on the straight line between them, column by column, and leaves longer gaps and gaps at either end missing; labels, order and the record passed in stay as they were.',
     ['inputs', 'configurations'], 'all records, flags, levels, limits and gap patterns',
     'no test covers these functions; gap handling depends on the length and place of every gap',
     ['dataio/hope_campaign.py'], [('masks', 'dataio/hope_campaign.py:flag_qc, null_qc'), ('gaps', 'dataio/hope_campaign.py:interp_nan')],
     note='The two masks are proved; gap interpolation (pandas groupby and interpolate) is bounded (sampled).')
prop('D02', 'Data set files become tables by station and time, complete and in order',
     'Directory listings hold exactly the files with the wanted extension in name order, downloads fetch exactly the listed files not yet there and leave the others alone; HOPE files become one column per station and one row per UTC time for readings and flags alike, with the station coordinates, collected over all files in name order into a summary that is refused if it exists unless overwriting is asked for; NRCAN station files become one column per station, horizontal and tilted readings apart, each reading held until the next on a 10 ms grid at UTC-5, with the site table by station.',
     ['inputs', 'configurations'], 'all directories, station sets, file orders and sampling instants',
     'no test covers these functions',
     ['dataio/iotools.py', 'dataio/hope_campaign.py', 'dataio/nrcan_data.py'], [('files', 'dataio/iotools.py:getfiles, ensurepath, download, wget_fromurl'), ('HOPE', 'dataio/hope_campaign.py:parse_file, dataset_to_h5'), ('NRCAN', 'dataio/nrcan_data.py:process_files')], level='exploration',
     note='File formats (netCDF, HDF5, csv) and the file system are outside the verifier (labelled bounded, nothing counted as proved): seeded directories written, converted and read back in a scratch directory, with file: URLs in place of the network.')
prop('X01', 'Calls leave their arguments and process-wide state as they were',
     "No function of the library alters the arrays, tables, series, lists, dictionaries or filters passed to it (cleanfreq, documented to adjust its argument's index, excepted), nor numpy's error state, its global random generator, the warnings filters or pandas' options, so results do not depend on how often or in which order functions were called before.",
     ['inputs', 'histories', 'configurations'], 'all arguments and call sequences of the functions under contract',
     'tests never look at their inputs or at process-wide settings after a call; aliasing depends on dtype, container and option',
     ['signalproc.py', 'cmv.py', 'field.py', 'spatial.py', 'stats.py', 'irradiance.py', 'synthirrad/copula.py', 'synthirrad/cloudfield.py'],
     [('spatial', 'spatial.py:compute_vectors, project_vectors, vector_angle'), ('signals', 'signalproc.py:compute_delays, averaged_tf, get_camfilter'), ('cloud motion', 'cmv.py:compute_cmv'),
      ('positions', 'field.py:remap_positions, assign_positions'), ('statistics', 'stats.py:darr, variability_index'), ('downscaling', 'synthirrad/copula.py:downscale')],
     note='the contracts of all other properties are re-run with the frame condition of every call as the obligation.')

prop('C05', 'Vector subset: distinct and spread over all directions',
     'Choosing an optimum subset of n cloud motion vectors returns n different positions of the given vectors whose directions, reversals counted as equal, cover the half turn as evenly as the given vectors allow; only directions matter, so rescaling or reversing vectors changes nothing, and an evenly spread set hidden among others is found.',
     ['inputs'], 'all lists of non-zero vectors and subset sizes',
     'tests check one stored list; distinctness and direction-only dependence are claims over all lists',
     ['cmv.py'], [('subset choice', 'cmv.py:optimum_subset')],
     note='distinctness is proved (linear_sum_assignment one-to-one, shgo within bounds assumed); spread, direction and rosette are bounded (sampled).')

prop('F03', 'Predicted positions: own delay of each site, chosen sites, intersection',
     "Predicting a site's position from two records and cloud motions pairs every site, by name, with its own delay and coherence against the reference, turns the delay into distance along the motion and compares it with the plan; the sites averaged are those the mode asks for, the result is the plan position moved by the intersection of the two mean errors, and for a field that truly advects it is the site's true place whatever place the plan claims; omitted motions are estimated from the records.",
     ['inputs', 'configurations'], 'all plans, column orders, further columns, cloud motions, selection modes and delay methods',
     'tests compare one stored plant whose columns and positions are listed alike; sign, pairing and selection errors need other orders and displaced sites',
     ['field.py', 'spatial.py'], [('prediction', 'field.py:compute_predicted_position'), ('delays', 'signalproc.py:compute_delays_tf'), ('intersection', 'spatial.py:compute_intersection')],
     note='callees by contract (G05, S05); proved for mode "all" (the intersection where no delay is missing); estimated motions and compute_delays of the field module proved too; the other modes and recovery of the true place are bounded (sampled).')
prop('T04', 'Daily quantile profiles use the preceding days only',
     "The daily quantile series has, at every time of every day, the requested quantile of that time of day's existing values over the requested number of whole preceding days, and is missing until that many days have passed; time zones, missing samples and the input's container and name are respected, and a table of several columns is refused.",
     ['inputs', 'configurations'], 'all records of whole days, window lengths, quantile levels, sampling patterns and fixed time zones',
     'tests use a constant series, for which any window gives the same answer',
     ['stats.py'], [('quantile profile', 'stats.py:calc_quantile')], level='exploration',
     note='The pivot by calendar day and time of day is outside the verifier (labelled bounded, nothing counted as proved): seeded samples against the definition, 300 quick / 4000 thorough.')

prop('L01', 'Scale weights are shares of one; the random field is their weighted stack',
     'Weights from a variability score are non-negative shares of one that only depend on the ratios of the scales, larger scales never getting less, for every score from zero to below 180 (negative ones are refused); weights from wavelets are each mode\'s share of the mean square; a random layer has the target size and values between 0 and 1 (unaltered when drawn at that size), and the stacked field is the weighted sum of one layer per scale, a normalized one running from exactly 0 to exactly 1; weights that do not match the scales are refused.',
     ['inputs', 'configurations'], 'all scales, scores, wavelet tables, layer and target sizes and draws',
     'tests check the sum of the weights and the shape and range of single draws at one size; extreme scores overflow, sizes of one cell take their own path',
     ['synthirrad/cloudfield.py'], [('weights', 'synthirrad/cloudfield.py:_calc_vs_weights, _calc_wavelet_weights'), ('random field', 'synthirrad/cloudfield.py:_random_at_scale, _stack_random_field')],
     note='numpy.random.rand and RegularGridInterpolator by assumed contract; the normalized field is proved to run from 0 to 1; extreme scores (floating-point overflow) and the exact layer sum are bounded (sampled).')
prop('L02', 'Clear mask at the requested fraction and its edges',
     'The clear mask marks exactly the cells at or below the quantile of the clear fraction (none for a fraction of zero), for every size of field, and refuses fractions outside 0 to 1; the edge strength is the squared gradient of the mask with repeated borders, zero wherever a cell agrees with its neighbours, and the widened edge marks exactly the cells with an edge in their smoothing window.',
     ['inputs'], 'all fields, fractions and masks',
     'tests use 100 by 100 fields with round fractions and two square masks',
     ['synthirrad/cloudfield.py'], [('mask', 'synthirrad/cloudfield.py:_calc_clear_mask'), ('edges', 'synthirrad/cloudfield.py:_find_edges')],
     note='scipy.ndimage sobel and uniform_filter and numpy quantile by assumed contract; windows of 2 and 3 cells; that the share of cells is within one of the fraction is bounded (sampled).')
prop('L03', 'Scaled cloud fields meet the requested statistics',
     "Scaling a field to a record's statistics sets clear cells to exactly 1, runs edge cells over the enhancement range up to the maximum, keeps the clouds a common multiple of the darkened pattern, and gives the whole field exactly the requested mean whenever the clouds can supply it - for the original and the basic method.",
     ['inputs', 'configurations'], 'all fields, clear and edge masks and target statistics',
     'tests compare one mean to within 0.01 for one method; the balance of clear, edge and cloud cells only shows for overlapping masks and other shares',
     ['synthirrad/cloudfield.py'], [('original', 'synthirrad/cloudfield.py:_scale_field_lave'), ('basic', 'synthirrad/cloudfield.py:_scale_field_basic')],
     note='machine arithmetic as real numbers; numpy quantile assumed to lie within the range of its sample.')
prop('L04', 'Record statistics in, cloud-field records out',
     'The statistics taken from a clear-sky index record are its mean, maximum, one-percent quantile, share of samples above the threshold, variability score and one energy weight per wavelet scale numbered from one; the assembled field scales one random field over the clear mask of another and its (for the basic method, widened) edges, refusing unknown methods; the record at a position is the line of the field through it, starting when the pattern there arrives and one sample per second long.',
     ['inputs', 'configurations'], 'all records, thresholds, positions, cloud speeds, durations, fields, options and draws',
     'tests check types and two constant records; which field, mask and line are used only shows with distinct values',
     ['synthirrad/cloudfield.py'], [('statistics', 'synthirrad/cloudfield.py:get_timeseries_stats'), ('assembly', 'synthirrad/cloudfield.py:cloudfield_timeseries'), ('record', 'synthirrad/cloudfield.py:get_positional_ts')],
     note='pvlib wavelet decomposition assumed; field functions by contract (L01, L02, L03).')
