import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
M='rubin_sim/maf/'
p("C01","Value-binned slices are an exact partition of the visits",
 "When visits are sliced by the value of one column, or of several columns at once, a visit is in the slice of a bin exactly when its value lies in that bin, left edge included and right edge excluded, in every sliced dimension (the last bin of each dimension of a multi-column slicing also takes everything above it). Hence no visit is in two slices and no visit inside the binned range is lost; each slice reports its own bin's edges, and bins made from a requested size, count or range start at the minimum, are evenly spaced and cover the range. The order in which visits are stored makes no difference.",
 ["inputs","configurations"],"every visit table, every strictly increasing set of bin edges or bin size and range, and every visit order",
 "The tests compare totals on a few random tables with hundreds of visits; values on edges, unsorted tables, empty bins and multi-dimensional corner bins are only sampled.",
 [M+'slicers/one_d_slicer.py',M+'slicers/nd_slicer.py'],
 [("one-dimensional binning",M+"slicers/one_d_slicer.py OneDSlicer.setup_slicer"),("n-dimensional binning",M+"slicers/nd_slicer.py NDSlicer.setup_slicer")])
p("C02","A time slice holds exactly the visits of its own time interval",
 "When visits are sliced by time (fixed intervals, single visits, or movie frames), the slice of an interval holds exactly the visits whose time falls in that interval, or, for cumulative movie frames, every visit up to the end of the frame. The start time and duration reported with a slice are those of the visits it returns, and the last movie frame runs to the end of the data, whatever the order of the visit table.",
 ["inputs","configurations"],"every visit table (any order, gaps, repeated times), every interval length or frame edge list",
 "Tests only check that slices can be produced, with sorted tables of a few visits, and totals for movie frames.",
 [M+'slicers/time_interval_slicers.py',M+'slicers/movie_slicer.py'],
 [("interval assignment",M+"slicers/time_interval_slicers.py TimeIntervalSlicer.setup_slicer / VisitIntervalSlicer.setup_slicer"),("movie frames",M+"slicers/movie_slicer.py MovieSlicer.setup_slicer")])
p("C03","A metric's value for a slice depends on that slice's visits and nothing else",
 "After running a group of metrics, the value recorded for each slice is what the metric returns on exactly the visits of that slice; slices with no visits, or for which the metric reports its bad value, are masked, and no other slice is. Running metrics together with others, in any order, with or without result caching, changes none of the values; every metric that was asked for is run, and only metrics that share the same data selection, slicing and sky maps share a pass over the data.",
 ["inputs","configurations","histories"],"every table, every slicing, every set and order of requested metrics, cache on or off",
 "Tests run one or two metrics over one slicing each; they never compare a metric run alone with the same metric run in a crowd, nor inspect which slices are masked.",
 [M+'metric_bundles/metric_bundle_group.py',M+'metric_bundles/metric_bundle.py',M+'slicers/base_slicer.py'],
 [("evaluation loop",M+"metric_bundles/metric_bundle_group.py MetricBundleGroup._run_compatible"),("compatibility",M+"metric_bundles/metric_bundle_group.py MetricBundleGroup._check_compatible, _find_compatible_lists"),("result array",M+"metric_bundles/metric_bundle.py MetricBundle._setup_metric_values")])
p("C04","Basic statistics are the statistics they are named after",
 "The simple per-slice metrics (count, count in range or beyond a threshold, unique count, fraction, sum, mean, median, minimum, maximum, range, mean/median of absolute values, rms and robust rms, percentile, outlier count and coadded five-sigma depth) return that statistic of the requested column over all visits in the slice, and the same for the identity, pass-through, unique-ratio and coadded depth forms. The circular versions (mean angle, angular spread, angular rms, full angular range) are the circular statistics of angles within one turn, and the mean angle and angular spread do not change when any visit's angle is shifted by a full turn. No metric modifies the visits it is given.",
 ["inputs"],"every non-empty slice, every order of visits and every threshold",
 "Each metric is tested on one or two fixed arrays; boundary values, negative values, wrapped angles and mutated input are not exercised.",
 [M+'metrics/simple_metrics.py',M+'utils/maf_utils.py'],
 [("simple metrics",M+"metrics/simple_metrics.py"),("depth coaddition",M+"utils/maf_utils.py coadd_m5")])
p("C05","Survey-level summaries follow their definitions",
 "The coverage summaries report what they claim of the per-slice values: the area covered by at least the required number of visits, the median and minimum visits over the best-covered required area, and both scaled against their benchmarks; the footprint fraction, area-limited summary, area above a threshold, zeropoint, normalisation and identity-like summaries are the stated arithmetic of the values. Summaries that take per-slice values ignore masked slices and do not depend on the order of slices.",
 ["inputs","configurations"],"every set of per-slice values, masks, pixel sizes and thresholds",
 "Tests use uniform or single-step maps; values tied at the threshold, partially covered areas and thresholds between integer pixel counts are not tried.",
 [M+'metrics/summary_metrics.py',M+'metrics/area_summary_metrics.py',M+'metric_bundles/metric_bundle.py'],
 [("summary metrics",M+"metrics/summary_metrics.py"),("area summaries",M+"metrics/area_summary_metrics.py"),("running them",M+"metric_bundles/metric_bundle.py MetricBundle.compute_summary_stats")])
p("C06","Gap, revisit and state-change metrics count every qualifying pair of visits once",
 "Metrics about time between visits (gap histograms and percentages, maximum gap, intra- and inter-night gaps, revisit counts and fractions, visits per night, number and speed of band changes, open-shutter fraction) are computed from the visits in time order, whatever order the table is in. Each consecutive pair (or each pair, when all gaps are requested) that satisfies the stated limits, boundaries as documented, contributes exactly once.",
 ["inputs","configurations"],"every slice of visits in any order, every threshold and bin list",
 "Tests use regularly spaced, already sorted times and check one number; boundary-equal gaps, unsorted tables and repeated times are not covered.",
 [M+'metrics/tgaps.py',M+'metrics/technical_metrics.py',M+'metrics/cadence_metrics.py',M+'metrics/visit_groups_metric.py'],
 [("gaps",M+"metrics/tgaps.py"),("state changes",M+"metrics/technical_metrics.py"),("revisits",M+"metrics/cadence_metrics.py"),("pairs in a night",M+"metrics/visit_groups_metric.py PairFractionMetric")])
p("C07","Adding derived columns never disturbs the visits",
 "Running a derived-column step on a visit table returns a table with the same visits in the same order and every pre-existing column unchanged, plus the columns it declares. Columns that already exist are recomputed when override is set and otherwise each left exactly as it was or recomputed for all visits, and running the same step twice gives the same table as running it once.",
 ["inputs","configurations","histories"],"every visit table, every subset of derived columns already present, every override setting",
 "Tests run each step once on a fresh table and look only at the new column.",
 [M+'stackers/base_stacker.py',M+'stackers/general_stackers.py',M+'stackers/date_stackers.py',M+'stackers/coord_stackers.py'],
 [("column addition protocol",M+"stackers/base_stacker.py BaseStacker._add_stacker_cols, run")])
p("C08","Derived visit geometry and depth columns match their definitions",
 "For every visit, the hour angle is the wrapped difference of sidereal time and right ascension, within twelve hours either side, the zenith distance is ninety degrees minus altitude, the normalised airmass is the airmass relative to the best possible for that declination, and the differential-refraction, parallax-factor, overhead, observing-night, ecliptic, galactic, sky-pixel, optimal-depth, effective-exposure and follow-up-observatory columns follow their stated formulas, in degrees or radians as configured. The saturation depth is computed visit by visit from that visit's own band, seeing, sky and exposure, and is undefined only for visits whose sky alone saturates.",
 ["inputs","configurations"],"every visit table, both angle conventions",
 "Tests compare each column at a few values in one convention; quadrant boundaries, wrap points and mixed-band tables are not covered.",
 [M+'stackers/general_stackers.py',M+'stackers/date_stackers.py',M+'stackers/coord_stackers.py'],
 [("general columns",M+"stackers/general_stackers.py"),("dates",M+"stackers/date_stackers.py")])
p("C09","Spectrum and magnitude conversions are mutually consistent",
 "Flux and magnitude conversions are inverse to each other, as are flux-per-wavelength and flux-per-frequency and redshifting and de-redshifting; filter response normalisation integrates to one, resampling interpolates linearly, products of spectra or throughputs are the products of both curves, and dust dims each wavelength by the stated extinction law. Normalising a spectrum to a magnitude or to a flux at a wavelength gives exactly the requested value, and scaling flux by a factor shifts every magnitude by -2.5 log10 of it. None of these operations changes the caller's arrays, and writing a spectrum or throughput to a file and reading it back returns it.",
 ["inputs"],"every wavelength grid, every positive flux array, every bandpass, redshift and factor",
 "Tests use one or two analytic spectra on a uniform grid; the inverse laws are never quantified.",
 ['rubin_sim/phot_utils/sed.py','rubin_sim/phot_utils/bandpass.py','rubin_sim/phot_utils/physical_parameters.py','rubin_sim/phot_utils/spectral_resampling.py','rubin_sim/phot_utils/sed_utils.py'],
 [("spectrum operations","rubin_sim/phot_utils/sed.py Sed"),("bandpass","rubin_sim/phot_utils/bandpass.py Bandpass")])
p("C10","Depth, signal-to-noise and magnitude errors tell one consistent story",
 "A source at the five-sigma depth has signal-to-noise five and a source's signal-to-noise falls monotonically with magnitude; magnitude errors follow from signal-to-noise by the stated formula, and combined errors are never smaller than either part. Noise adds source, sky and instrument contributions exactly once each over the number of exposures, and effective and geometric seeing convert into each other exactly; predicted zeropoints fall linearly with airmass, grow as 2.5 log10 of the exposure time and never exceed those of the hardware alone.",
 ["inputs","configurations"],"every magnitude, depth, seeing, gain, exposure and noise parameter",
 "The tests that would exercise these functions need data files that are absent; the rest check one default instrument.",
 ['rubin_sim/phot_utils/signaltonoise.py',M+'utils/astrometry_utils.py','rubin_sim/phot_utils/predicted_zeropoints.py'],
 [("signal to noise","rubin_sim/phot_utils/signaltonoise.py"),("astrometric errors",M+"utils/astrometry_utils.py")])
p("C11","Instrument parameters hold exactly what was asked for and never change",
 "A set of photometric parameters has, for each quantity, the value given by the user, or the per-band default when a known band is named, or the generic default otherwise; the quantities do not influence one another. Once made, none of them can be changed, and the dust coefficients and physical constants are the documented ones.",
 ["inputs","configurations"],"every combination of explicit parameters and bands",
 "Tests set a handful of parameters one at a time.",
 ['rubin_sim/phot_utils/photometric_parameters.py','rubin_sim/phot_utils/physical_parameters.py'],
 [("parameter set","rubin_sim/phot_utils/photometric_parameters.py PhotometricParameters, DustValues")])
p("C12","Polynomial ephemerides evaluate the stored series at the right time",
 "Evaluating a stored Chebyshev segment at a time gives the value of that series (and of its exact time derivative) at the time mapped linearly from the segment onto [-1, 1], and times outside the segment are masked when asked. For every requested object and time, the position comes from the segment of that object that contains the time, and objects without such a segment are reported as not available rather than given a number. A fitted series equals the fitted values (and rates) at both ends of its segment, reproduces any polynomial its degree can hold, and the residuals stored with it are those of the fit; the segments of an object follow one another without gap or overlap, and a coefficient file read back gives the same positions.",
 ["inputs","configurations"],"every coefficient list of any length, every segment, every time inside, on the edge of, or outside a segment",
 "The tests evaluate a few low-order series on a fixed interval; the tests with real ephemerides need data that is absent.",
 ['rubin_sim/moving_objects/chebyshev_utils.py','rubin_sim/moving_objects/cheby_values.py','rubin_sim/moving_objects/cheby_fits.py'],
 [("series fitting","rubin_sim/moving_objects/chebyshev_utils.py chebfit; cheby_fits.py ChebyFits"),("series evaluation","rubin_sim/moving_objects/chebyshev_utils.py chebeval"),("segment lookup","rubin_sim/moving_objects/cheby_values.py ChebyValues")])
p("C13","Moving-object visibility and brightness follow from each visit's own conditions",
 "Trailing losses are zero for a stationary object, never negative and grow with velocity and exposure time; an object is in a circular or rectangular field of view exactly when its separation from the pointing is within the configured limit. The apparent magnitude of an observation is its predicted magnitude plus colour and loss terms plus the difference between the object's and the reference absolute magnitude, and an object exactly at the depth limit has signal-to-noise five. The observation list of an object holds exactly the visits whose field contains it, each with that visit's own conditions; the visible flag follows the stated completeness, and a comet's magnitude its stated activity law.",
 ["inputs","configurations"],"every ephemeris, pointing, velocity, seeing and magnitude",
 "Existing tests need ephemeris data that is absent, or check a few numbers.",
 ['rubin_sim/moving_objects/base_obs.py','rubin_sim/moving_objects/direct_obs.py',M+'stackers/mo_stackers.py',M+'stackers/mo_phase.py'],
 [("trailing losses and footprint","rubin_sim/moving_objects/base_obs.py BaseObs"),("apparent magnitude",M+"stackers/mo_stackers.py")])
p("C14","Moving-object metrics count only detections and completeness stays in range",
 "Per-object metrics use exactly the detected observations (above the signal-to-noise limit when one is given, else those flagged visible): number of observations and of nights, arc length, observations on nights with more than one detection, discovery opportunities (nights with the required detections within the required window, each at the time of its own detections), colour and light-curve flags, activity windows. Each value the bundle reports for an object at a brightness is the metric of that object's own observations with the bundle's own extra columns. Differential and cumulative completeness at each brightness are the found fraction, and its population-weighted running mean, always between zero and one.",
 ["inputs","configurations"],"every observation table, limit and brightness grid",
 "Tests use one object with a dozen observations.",
 [M+'metrics/mo_metrics.py',M+'metrics/mo_summary_metrics.py'],
 [("detection selection",M+"metrics/mo_metrics.py _set_vis, NObsMetric, NNightsMetric, ObsArcMetric, NObsNoSinglesMetric"),("completeness",M+"metrics/mo_summary_metrics.py")])
p("C15","Satellite element sets are well formed and streaks follow the satellites' tracks",
 "Every generated two-line element set has lines of the standard 69-character layout, with the requested inclination, node, mean anomaly, eccentricity, motion and epoch in their columns and a correct checksum digit at the end of each line. A constellation has exactly one satellite per requested plane position. A satellite counts as visible exactly when it is sunlit and above the altitude limit, and streak lengths and counts are those of the satellites crossing the field.",
 ["inputs","configurations"],"every physically valid set of orbital elements and constellation shape",
 "Tests only create one constellation and propagate it.",
 ['rubin_sim/satellite_constellations/sat_utils.py'],
 [("element sets","rubin_sim/satellite_constellations/sat_utils.py tle_from_orbital_parameters, create_constellation")])
p("C16","Sky brightness is interpolated truly linearly and point by point",
 "For points inside the tabulated range, the two neighbouring grid points bracket the point, their weights are between zero and one and add to one, and weighting the grid reproduces the point; so tabulated conditions are returned exactly and results lie between their neighbours. Mapping identifiers to compact indices and back returns the original identifiers, and twilight flux depends only on each point's own coordinates. The sky of a point is the sum of the enabled components at that point's own airmass, azimuth, ecliptic position and distance from sun and moon, undefined outside the airmass limits, in the filters asked for, whatever the order of points and the previous calls.",
 ["inputs"],"every strictly increasing grid, every set of points in any order",
 "The sky tests all need the sky data files, which are not available without download.",
 ['rubin_sim/skybrightness/interp_components.py','rubin_sim/skybrightness/twilight_func.py','rubin_sim/skybrightness/sky_model.py','rubin_sim/skybrightness/utils.py'],
 [("sum of components","rubin_sim/skybrightness/sky_model.py SkyModel.set_params, _setup_point_grid, _interp_sky, return_mags"),("grid weights","rubin_sim/skybrightness/interp_components.py BaseSingleInterp._indx_and_weights"),("identifier maps","rubin_sim/skybrightness/interp_components.py id2intid, intid2id"),("twilight","rubin_sim/skybrightness/twilight_func.py")])
p("C17","Parallax and proper-motion precision combine visits by inverse variance",
 "Each visit's position error comes from its own band magnitude, depth and seeing plus the systematic floor; parallax and proper-motion uncertainties are the weighted least-squares ones, so adding a visit never makes either worse, and neither depends on the order of visits (bands with a single visit are left out of proper motions). Differential-refraction precision combines visits the same way; parallax coverage is the weighted mean distance of the parallax offsets from their centre, none when they span too few directions.",
 ["inputs"],"every visit slice, any band mix",
 "Tests check that longer baselines or brighter stars do better for single examples.",
 [M+'metrics/calibration_metrics.py',M+'utils/astrometry_utils.py',M+'metrics/dcr_metric.py'],
 [("parallax",M+"metrics/calibration_metrics.py ParallaxMetric"),("proper motion",M+"metrics/calibration_metrics.py ProperMotionMetric"),("weighted slope",M+"utils/astrometry_utils.py sigma_slope")])
p("C18","Result files and the results database give back what was stored",
 "A metric result written to disk and read back has the same values, mask, fill value, labels, plot and display settings, and a slicer equal to the one written that slices other visits in the same way; whole groups of results are read back with their reduced metrics, all but those whose file is missing; the JSON form holds each good value at its own bin or position. In the results database the same metric is one entry whatever the history of records, its display is the latest one recorded, its plots and summary values are exactly those recorded for it, its file name is that of the file, and queries by name, part of a name, run or label return exactly the matching entries. File names made from labels contain no special characters.",
 ["inputs","histories"],"every result type, kind of slicer and order of records",
 "Tests round-trip a few slicer types with default settings and insert one row.",
 [M+'db/results_db.py',M+'slicers/base_slicer.py',M+'metric_bundles/metric_bundle.py',M+'metric_bundles/metric_bundle_group.py',M+'utils/output_utils.py'],
 [("file format",M+"slicers/base_slicer.py write_data, read_data, output_json"),("bundles",M+"metric_bundles/metric_bundle.py write, read; metric_bundle_group.py write_all, read_all"),("database",M+"db/results_db.py ResultsDb")])
p("C19","The archive of simulations finds what was added",
 "A visit sequence added to the metadata archive can be found again by the day, tag or label it was stored under, and the archived files have the recorded hashes. Concurrent additions do not lose entries.",
 ["histories","schedules"],"every history of additions and tags",
 "Tests run single short histories against a scratch PostgreSQL.",
 ['rubin_sim/sim_archive/vseqmetadata.py','rubin_sim/sim_archive/vseqarchive.py'],
 [("metadata archive","rubin_sim/sim_archive/vseqmetadata.py")])
p("C20","A sky-position slice holds exactly the visits that cover its point",
 "When visits are sliced by position on the sky (all sky pixels, a subset of pixels, or points given by the user), the slice of a point holds exactly the visits whose pointing lies within the configured radius of it, or, with the camera footprint, exactly those of them whose rotated footprint contains it; no visit is in a slice twice, whether positions are given in degrees or radians, in whatever order, and across the zero of longitude and the poles. Pixels outside a subset hold no visit, the slice without position holds every visit, and setting up for another table forgets the first. Each slice carries its own point's identifier, position and sky map values (dust, dust with distance, star counts, galactic coordinates), which are those of the requested map at that position.",
 ["inputs"],"every table of visits, every set of points, radius and footprint",
 "The slicer tests compare a handful of pixels of one random table with a flat-sky distance; the map tests are skipped without downloaded data.",
 [M+'slicers/base_spatial_slicer.py',M+'slicers/healpix_slicer.py',M+'slicers/healpix_subset_slicer.py',M+'slicers/user_points_slicer.py',M+'slicers/uni_slicer.py',M+'maps/dust_map.py',M+'maps/dust_map_3d.py',M+'maps/ebv_hp.py',M+'maps/ebv_3d_hp.py',M+'maps/stellar_density_map.py',M+'maps/gal_coords_map.py'],
 [("radius and footprint",M+"slicers/base_spatial_slicer.py BaseSpatialSlicer.setup_slicer"),("subset",M+"slicers/healpix_subset_slicer.py HealpixSubsetSlicer"),("sky maps",M+"maps")])
p("C21","Binned, cumulative, seasonal, phase and colour metrics describe their visits",
 "Metrics that return a value per time bin hold, for each bin, the requested statistic of exactly the visits in it, and cumulative ones that of exactly the visits up to the end of the bin, with the bad value where there are none. Season metrics split the visits of a point into its seasons, each visit in one, and report the length, number and cadence of those seasons; phase-coverage metrics report the largest gap around the cycle for every period tried; colour, pair and visit-group metrics count exactly the nights, pairs or groups whose visits satisfy the stated limits; text, year, age and purpose labels, saturation counts, and the dust-corrected, cut, weighted, relative and surface-brightness depths follow their stated definitions. None of this depends on the order of the visits.",
 ["inputs","configurations"],"every slice of visits in any order, every bin list, period range, threshold and limit",
 "The tests check one number for one regular, sorted table per metric, and several of these metrics have no test at all.",
 [M+'metrics/vector_metrics.py',M+'metrics/season_metrics.py',M+'metrics/phase_gap_metric.py',M+'metrics/color_slope_metrics.py',M+'metrics/visit_groups_metric.py',M+'metrics/pair_metric.py',M+'metrics/string_count_metric.py',M+'metrics/coverage_metric.py',M+'metrics/cumulative_metric.py',M+'metrics/kuiper_metrics.py',M+'metrics/exgal_m5.py',M+'metrics/weak_lensing_systematics_metric.py',M+'metrics/optimal_m5_metric.py',M+'metrics/surfb_metric.py',M+'metrics/use_metrics.py',M+'metrics/schedview_metrics.py',M+'metrics/snr_weight.py',M+'metrics/sky_sat_metric.py'],
 [("per-bin and cumulative values",M+"metrics/vector_metrics.py"),("seasons",M+"metrics/season_metrics.py find_season_edges"),("phases",M+"metrics/phase_gap_metric.py"),("groups",M+"metrics/visit_groups_metric.py VisitGroupsMetric")])
p("C22","Self-calibration catalogue and solution describe the stars and visits given",
 "The catalogue of observations holds each star within the field of view of each visit exactly once, with the identifiers of both; its observed magnitude is the true one plus every configured offset, its uncertainty the expected error of that star at that visit's depth combined in quadrature with the floor, and its patch belongs to that visit only and is the one whose part of the focal plane holds the star. The solver uses exactly the observations whose star and patch are both seen again, weights them by their inverse variance, and returns the least-squares zeropoints and magnitudes under the original identifiers, independent of the order of the catalogue; positions outside the projection are masked or refused.",
 ["inputs","configurations"],"every star list, visit list, field of view, number of patches and set of offsets",
 "Tests run one noise-free example and look at the size of the residuals.",
 ['rubin_sim/selfcal/generate_catalog.py','rubin_sim/selfcal/solver.py','rubin_sim/selfcal/offsets.py','rubin_sim/selfcal/star_tools.py','rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py'],
 [("catalogue","rubin_sim/selfcal/generate_catalog.py generate_catalog"),("patches and projection","rubin_sim/selfcal/star_tools.py"),("solution","rubin_sim/selfcal/solver.py LsqrSolver"),("offsets","rubin_sim/selfcal/offsets.py")])
p("C23","A crash while results are written leaves the old or the new record",
 "If the process stops at any point while a result file or a database record is being written, a later reader finds either the previous content or the complete new one.",
 ["crash_points"],"every point at which the process can stop",
 "No test interrupts a write.",
 [M+'db/results_db.py',M+'slicers/base_slicer.py'],
 [("file format",M+"slicers/base_slicer.py write_data"),("database",M+"db/results_db.py")])
p("C24","Pre-night simulations cover their nights, are stored intact and found again",
 "The offset added to a visit's overhead is the drawn slew offset plus the drawn scatter; a slew never takes negative time, and where the overhead of the visit is known it is never left below the configured minimum; a simulation of a number of nights starts at evening twilight (sun at -12 degrees) of the observing date asked for, plus the delay, and ends at the sunrise of the last night; numbers, text, dates and instants name the same observing date, which rolls over at noon UTC. A simulation directory records the first and last observing date it covers and the hash of each of its files, each simulation put in the archive gets the next number of its day, its files are stored unchanged, and its metadata are found again; files added for a visit sequence are stored under its telescope, date and identifier, and registered with their hash. Of the simulations that have all the requested tags, cover the requested nights and are not too old, the most recently created is selected; the visits fetched for a range of nights are exactly those of these nights, in order; the statistics of a night are those of its visits; and visit databases converted to tables and back keep every row.",
 ["inputs","configurations","histories"],"every overhead model and visit, every almanac, date and number of nights, every set of archived simulations, tags, ages and ranges of nights, and every sequence of additions",
 "Tests draw a few hundred random overheads for one visit, run the archive on one or two simulations, and do not compare simulations of different days or visits at the edges of a night.",
 ['rubin_sim/sim_archive/prenight.py','rubin_sim/sim_archive/util.py','rubin_sim/sim_archive/prenightindex.py','rubin_sim/sim_archive/sim_archive.py','rubin_sim/sim_archive/prototype.py','rubin_sim/sim_archive/vseqarchive.py'],
 [("overheads","rubin_sim/sim_archive/prenight.py AnomalousOverheadFunc"),("span of a simulation","rubin_sim/sim_archive/prenight.py compute_sim_start_and_end"),("selection","rubin_sim/sim_archive/prenightindex.py select_latest_prenight_sim, sim_archive.py find_latest_prenight_sim_for_nights"),("archive","rubin_sim/sim_archive/prototype.py transfer_archive_dir, vseqarchive.py add_file")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
