prop("C11", "Annual averages",
     "The annual average of a monthly series weights each month by its number of days in the series' calendar, ignores missing months by weighting only the present ones (missing if none is present), and yields one value per calendar year, in chronological order and leading with time, stamped at the middle of that year in the same calendar, whatever the time dimension is called and for arrays and datasets alike. "
     "A year without exactly twelve samples raises an assertion error; non-numeric variables are dropped, other coordinates and attributes are kept.",
     ["inputs", "configurations"], "all series lengths, calendars, values and missing patterns; any time dimension name",
     TEST + "one noleap series with a known sum.",
     [SRC + "util.py"], [("annual_average", SRC + "util.py")],
     "all obligations discharged for all series lengths, values, missing patterns and both outcomes (twelve samples or not), per calendar")
prop("C12", "Monthly averages and annual-cycle climatologies",
     "Monthly averages of daily data are the plain mean of the samples in each calendar month of each year, in chronological order, stamped at the middle of the month; the annual cycle is the mean, minimum, maximum or standard deviation of all samples of each calendar month in January-to-December order, stamped at mid-month of the requested or the middle year. "
     "Missing samples are ignored and an unknown statistic raises ValueError.",
     ["inputs", "configurations"], "all values and missing patterns, number of years, calendars and statistics; any time dimension name",
     TEST + "one noleap series per statistic with a known sum.",
     [SRC + "util.py"], [("monthly_average, annual_cycle", SRC + "util.py")],
     "all obligations discharged for all lengths, values and missing patterns, assuming every calendar month of every year present is sampled")
prop("C13", "Linear trends and time-unit conversion",
     "The linear trend along a dimension is the least-squares slope and intercept of each point's non-missing series, with the slope of a time trend expressed per requested time unit and its units attribute saying so; converting between any two recognised time units is exact, invertible and transitive, and unknown units are rejected. "
     "Multiplying a slope in any unit back against its axis gives the fitted line in the data's own unit, optionally relative to the first point of that axis, and leaves the inputs' attributes unchanged.",
     ["inputs", "configurations"], "all series, lengths, missing patterns, calendars and time units",
     TEST + "a few unit pairs and one field.",
     [SRC + "trend.py"], [("calc_linear_trend, broadcast_trend, time_conversion_factor", SRC + "trend.py")],
     "all obligations discharged for all series, lengths and missing patterns; the least-squares routine of xarray is an assumed contract (normal equations)")
prop("C14", "Linear detrending",
     "Removing the linear trend returns each series minus its own least-squares line, and correcting for it returns the series minus slope times the axis only; name, attributes and coordinates are kept whatever the data's units, variables of a dataset without the dimension pass through unchanged, and unsupported orders, modes and input types are rejected.",
     ["inputs", "configurations"], "all series, lengths, missing patterns, calendars, units strings, arrays and datasets",
     TEST + "sums over one field without a rate unit.",
     [SRC + "trend.py"], [("linear_detrend", SRC + "trend.py")],
     "all obligations discharged for all series, lengths and missing patterns; the least-squares routine of xarray is an assumed contract (normal equations)")
prop("C15", "Seasonal model and deseasonalising",
     "The seasonal model is the least-squares fit of mean, trend, annual and semi-annual harmonics to each point's series independently; model plus residual equals the input, the fit is the same whatever the chunking, dimension order and name of the time dimension, and the coefficients returned are those of the fitted model in the documented order.",
     ["inputs", "configurations"], "all series, layouts, chunkings and time dimension names; calendars with and without leap years",
     TEST + "the residual-removing routine has no test at all.",
     [SRC + "trend.py"], [("seasonal_model, deseason", SRC + "trend.py")],
     "all obligations discharged for all series, lengths, layouts and chunkings; the pseudo-inverse is an assumed (opaque) contract")
prop("C16", "Nearest model point for real-world locations",
     "Each location is mapped to a valid (mask equal to 1 unless masking is off) model point with the smallest great-circle distance, with that distance in km, the point's coordinates, and its dimension values; locations farther than the threshold are dropped, all others kept in order with their other columns and row labels, and the input tables are not modified.",
     ["inputs", "configurations"], "all sets of model points, masks, locations, thresholds and column names",
     TEST + "one fixed grid and list of gauges.",
     [SRC + "util.py"], [("geolocate_points", SRC + "util.py")],
     "all obligations discharged for all tables, masks, thresholds and column names; sklearn's ball tree is an assumed contract (some closest element and its distance)")
prop("C17", "Tide gauge extraction",
     "For every gauge the extracted series is the input array at the nearest wet grid point, labelled with the gauge's name and carrying the array's attributes with the gauge's record (distance, coordinates), for one- and two-dimensional coordinates given by name or as arrays; gauges beyond the threshold are absent, land points are never chosen, and inconsistent coordinates are rejected.",
     ["inputs", "configurations"], "all fields, coordinate layouts, masks, thresholds and gauge tables",
     TEST + "one fixed grid and the bundled gauge lists.",
     [SRC + "tidegauge.py", SRC + "util.py"], [("extract_tidegauge", SRC + "tidegauge.py")],
     "all obligations discharged for all fields, grids, masks, thresholds and gauge tables (distinct names); ball tree, pandas tables and csv reading are assumed contracts")
prop("C18", "Stratification: buoyancy frequency, stability angle, wave speed, Rossby radius",
     "The squared buoyancy frequency is g(alpha dT/dz - beta dS/dz) with expansion coefficients at pressure depth x 10^4 plus surface pressure and second-order vertical derivatives, for any vertical coordinate name; the stability angle is the arctangent, in degrees, of (1+R)/(1-R) with R the density ratio; the Rossby radius is wave speed over |f|. "
     "Adjusting non-positive values replaces them by the nearest positive value above or 1e-8 at the surface and keeps missing points missing, and the first-mode wave speed is the depth integral of the adjusted frequency over pi, missing over land.",
     ["inputs", "configurations"], "all fields, vertical grids with at least three levels, sizes, coordinate names and equations of state",
     TEST + "one random field per function with default names.",
     [SRC + "derived.py"], [("calc_n2, adjust_negative_n2, calc_wave_speed, calc_rossby_rd, calc_stability_angle", SRC + "derived.py")],
     "all obligations discharged; two known findings for time-first input")
prop("C19", "Vorticity, potential vorticity and Coriolis parameter on the staggered grid",
     "Relative vorticity at a corner is the circulation difference d(v dy)/dx - d(u dx)/dy over the corner area, on symmetric and non-symmetric grids, for any coordinate and variable names; potential vorticity is (zeta + f) N2 / g with N2 averaged to the corners unless asked otherwise, in the requested units; the Coriolis parameter is 2 Omega sin(latitude). "
     "Missing fields and unknown unit options raise ValueError.",
     ["inputs", "configurations"], "all velocity, metric and stratification fields, grid sizes, both grid conventions, any names",
     TEST + "one random field on the default grid.",
     [SRC + "derived.py", SRC + "util.py"], [("calc_rel_vort, calc_pv, calc_coriolis", SRC + "derived.py"), ("get_xgcm_grid", SRC + "util.py")],
     "all obligations discharged for all field values, sizes and both grid conventions")
prop("C20", "Spiciness",
     "Sea water spiciness equals the Flament (2002) polynomial in temperature and salinity at every point, for scalars, arrays and labelled arrays of any shape, missing exactly where an input is missing; arrays of different shape are rejected.",
     ["inputs"], "all real temperatures and salinities, all shapes and sizes",
     TEST + "one stored value.",
     [SRC + "spice/flament.py", SRC + "derived.py"], [("spice", SRC + "spice/flament.py"), ("calc_spice", SRC + "derived.py")],
     "all obligations discharged for all real inputs and all sizes")
prop("C21", "Regular-grid cell areas and tiled coordinates",
     "The area of a cell of a uniform latitude-longitude grid is R^2 times the longitude width times |sin(north edge) - sin(south edge)|, so that a global grid sums to the surface of the sphere, for increasing or decreasing coordinates, arrays and labelled arrays alike; tiling one-dimensional coordinates gives longitude varying along x only and latitude along y only, labelled (y, x) with the original coordinates.",
     ["inputs", "configurations"], "all uniform grids of any size and orientation, any radius and names",
     TEST + "one one-degree grid.",
     [SRC + "util.py"], [("standard_grid_cell_area, tile_nominal_coords", SRC + "util.py")],
     "all obligations discharged for per-cell areas and tiling; the global sum by induction over rows and columns (lemma obligations)")
prop("C22", "Inputs are never modified",
     "No calculation modifies its inputs: after any public call, the caller's arrays, datasets and tables have the same values, names, dimensions, coordinates, attributes and encodings as before (reset_encoding, which removes encoding entries in place, excepted), and lists and mappings passed along the same contents, whether or not the call succeeds.",
     ["inputs", "configurations"], "every contract scenario of every other property, on every path including the failing ones",
     "The tests never compare inputs before and after.",
     [SRC + "derived.py", SRC + "steric.py", SRC + "reference.py", SRC + "trend.py", SRC + "util.py", SRC + "dynamic.py"],
     [("functional style of all modules", SRC)],
     "frame obligations of every scenario")
prop("C23", "Dataset helpers keep the data",
     "Alphabetising a dataset returns the same variables, coordinates (also those no variable needs) and attributes with the data variables in alphabetical order; resetting encodings removes exactly the named entries (by default the chunk layouts) from the encoding of the array, or of the dataset and every one of its variables and coordinates, keeps all other entries, values, names and attributes, and raises ValueError for anything that is neither array nor dataset.",
     ["inputs", "configurations"], "all values and sizes; datasets with and without coordinates, scalars and variables of different rank; any list of entries",
     "The tests do not call these helpers.",
     [SRC + "util.py"], [("alphabetize_dataset, reset_encoding", SRC + "util.py")],
     "all obligations discharged for all values and sizes, for the listed sets of variable names")
