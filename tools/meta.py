"""one entry per property: text for properties.jsonl and MANIFEST.json"""
NOTE = ('z3 shows the negated assertion unsatisfiable on every path of the real code for all values within the stated bounds; '
    'trusts z3 and the symbolic numpy model, which every run cross-checks by replaying solver models through the untouched code. ')
P = []
NA = []
NOTES = 'No hooks in /repo. bin/check PROP [quick|thorough] [harness]; bin/check --replay FILE re-runs a counterexample on the untouched code.'

def place(f):
    return f if f.startswith('scripts/') else 'gravity_toolkit/' + f

def prop(id, title, statement, forall, why, files, mech, note='', over=('inputs', 'configurations')):
    P.append(dict(id=id, title=title, statement=statement, forall=forall, why=why,
        files=[place(f) for f in files],
        mech=[(m, place(w)) for m, w in mech], note=NOTE + note, over=list(over)))

def na(id, title, statement, forall, why, files, mech, reason, over=('inputs',)):
    NA.append(dict(id=id, title=title, statement=statement, forall=forall, why=why,
        files=[place(f) for f in files],
        mech=[(m, place(w)) for m, w in mech], reason=reason, over=list(over)))

prop('C01', 'Calendar dates convert to exact elapsed time since an epoch',
    'Converting a Gregorian calendar date (year, month, day and optional hour, minute, second, each scalar or array) to time since an epoch '
    'gives the exact number of days between the two instants under the proleptic Gregorian calendar with its century leap-year rule, times the scale. '
    'The default epoch is 1992-01-01 and any epoch (tuple, list or date string) may be used.',
    'every valid date of the years 1 to 9999, every time of day, every epoch tested, scalar and array arguments',
    'tests sample a few dozen epochs; leap-century rollovers are a handful of dates in four hundred years',
    ['time.py'], [('modified Julian day formula', 'time.py convert_calendar_dates')])
prop('C02', 'Julian days convert back to the calendar date they denote',
    'Converting a Julian day to the calendar gives the year, month, day, hour, minute and second of that instant in the Gregorian calendar (the Julian calendar before 1582-10-15), for scalars and arrays, '
    'in each output format (dictionary, tuple, zipped list) and output type. Converting a calendar date to a Julian day and back returns the date and time.',
    'every instant of the years 1 to 2199 (thorough: 2999) to within milliseconds', 'tests round-trip random dates of a few years only',
    ['time.py'], [('Julian day algorithm', 'time.py convert_julian'), ('calendar to Julian', 'time.py calendar_to_julian')])
prop('C03', 'Decimal years and Julian days of a calendar date are mutually consistent',
    'A calendar date converts to the decimal year equal to the year plus the elapsed fraction of that year (365 or 366 days), from month and day (mid-month without a day) or day of the year, '
    'and the Julian day of a decimal year is the Julian day of the same instant. Leap years follow the Gregorian rule including centuries.',
    'every valid date from 1600 to 3900 and every time of day', 'tests sample a few dates per function',
    ['time.py'], [('decimal year', 'time.py convert_calendar_decimal'), ('days in each month', 'time.py calendar_days'), ('Julian day of decimal year', 'time.py calendar_to_julian')])
prop('C04', 'GRACE/GRACE-FO month numbers map one-to-one to calendar months',
    'Month number g denotes the calendar month g-1 months after January 2002: converting to (year, month) always yields a month from 1 to 12 and the right year, and converting back returns g. '
    'A decimal date inside a month converts to that month\'s number.',
    'every month number from -1200 to 2400, scalar or array, and every decimal date between', 'tests check the operational months only',
    ['time.py'], [('month arithmetic', 'time.py calendar_to_grace, grace_to_calendar')])
prop('C05', 'Ambiguous GRACE months are disambiguated without losing or reordering any',
    'Adjusting the months of a record in which one solution was dated into a neighbouring month that already has one (two equal months, not the first two of the record, '
    'with the preceding or following calendar month present) restores the original distinct, increasing months by moving the right one of each equal pair forward or back by one. '
    'Months that are already distinct are returned unchanged, the length and the input stay as they are.',
    'every record of two to eight months with gaps of up to fourteen months, one or two equal pairs at any place but the first',
    'tests check one real-life list',
    ['time.py'], [('duplicate handling', 'time.py adjust_months')])
prop('C06', 'Delta times convert exactly between epochs',
    'Converting a time since one epoch into time since another epoch preserves the instant: the result is the input plus the exact distance of the epochs, times the scale, for epochs given as tuples, lists or strings (with or without a time zone). '
    'Strings of units since an epoch are split into that epoch in UTC and the seconds per unit; dates convert to seconds since an epoch.',
    'every delta time in +-1e10 s, all listed epochs and scales', 'tests check a few deltas between two epochs',
    ['time.py'], [('epoch difference', 'time.py convert_delta_time')])
prop('C07', 'Unit conversion factors follow load theory at every degree',
    'For any Earth ellipsoid and load Love numbers (h, k, l) up to the maximum degree, each harmonic factor (norm, cmwe, mmwe, mmGH, mmCU, mmCH, cmVCU, mVCU, microGal, mbar, Pa) equals the closed form of '
    'Wahr et al. (with the elastic term 1+k only when elastic loading is included, and divided by 1-flattening when ellipsoidal is included), units of the same quantity differ by their metric ratio only, '
    'each spatial factor (norm, cmwe, mmwe, mmGH, microGal) is the inverse of the harmonic one over the 4 pi sphere, codes name the documented units, and unknown unit names or codes are errors.',
    'all Love numbers in physical range, three ellipsoids, every option, maximum degrees 0 to 60',
    'tests never compare factors with their formulas for more than one set of Love numbers', ['units.py'],
    [('degree factors', 'units.py units.harmonic, units.spatial'), ('lookups', 'units.py units.get, units.bycode')])
prop('C08', 'Associated Legendre functions are exact, fully normalised and agree',
    'Every implementation (Holmes and Featherstone, Colombo, Mohlenkamp, and the unnormalised and zonal polynomial routines) returns the geodesy-normalised functions P_lm(x) and their first derivatives with respect to colatitude '
    'for every degree and order up to the maximum degree, truncated at the maximum order, zero above the diagonal, for scalar or array arguments.',
    'every argument x between -0.9 and 0.9 and listed values up to the poles, every degree and order to degree 8', 'tests check agreement of two routines at a few arguments and up to a tolerance',
    ['associated_legendre.py', 'legendre.py', 'legendre_polynomials.py'],
    [('recursions', 'associated_legendre.py plm_holmes, plm_colombo, plm_mohlenkamp'), ('single degree', 'legendre.py legendre'), ('zonal', 'legendre_polynomials.py legendre_polynomials')])
prop('C09', 'Gaussian smoothing weights transform the Gaussian averaging kernel',
    'For any half-width radius the weight of each degree is the Legendre transform of the normalised Gaussian cap average on the sphere times 1/(2 pi): degree 0 has weight 1/(2 pi), weights fall with degree, '
    'radius 0 gives constant weights, and weights below the cutoff are replaced as documented.',
    'radii from 0 to a few thousand kilometres, every maximum degree to 60', 'no test checks the weights against an independent integral', ['gauss_weights.py'],
    [('recursion', 'gauss_weights.py gauss_weights')])
prop('C10', 'Synthesis evaluates the spherical-harmonic series at every point',
    'Every synthesis routine (harmonic_summation, harmonic_transform, stokes_summation, clenshaw_summation) returns the sum over degrees from the minimum to the maximum and orders up to the maximum order of '
    'P_lm times (C_lm cos(m lon) + S_lm sin(m lon)) times degree weights, where weights are the unit factor and the Gaussian smoothing. Coefficients outside the range have no influence; routines agree with one another; output is [lon, lat] or per point.',
    'all coefficients, longitudes and Love numbers, degrees to 8, orders truncated or not, every unit', 'tests compare two routines on one synthetic field',
    ['harmonic_summation.py', 'clenshaw_summation.py'],
    [('series', 'harmonic_summation.py harmonic_summation, stokes_summation'), ('FFT form', 'harmonic_summation.py harmonic_transform'), ('Clenshaw recursion', 'clenshaw_summation.py clenshaw_summation')])
prop('C11', 'Analysis of a grid yields its spherical-harmonic coefficients',
    'For any field on a global regular cell-centred grid (longitude or latitude first, latitudes north-up or south-up, longitudes 0-360 or -180-180), gen_stokes returns for each degree and order from the minimum degree up to the truncation the '
    'area-weighted quadrature of field times surface harmonic times the unit\'s degree factor, zero elsewhere; gen_harmonics by integration the same normalised over 4 pi, and by the Fourier method (grids with cell centres or with poles) exactly the coefficients of band-limited fields. '
    'Inputs are not modified; synthesis followed by analysis returns the coefficients to within quadrature error.',
    'all fields and Love numbers on grids to 8x6, degrees to 6, Fourier to degree 8', 'tests analyse one synthetic field',
    ['gen_stokes.py', 'gen_harmonics.py'],
    [('quadrature', 'gen_stokes.py gen_stokes'), ('integration and Fourier', 'gen_harmonics.py integration, fourier')])
prop('C12', 'Point, disc and cap loads have their exact harmonic coefficients',
    'gen_point_load, gen_disc_load and gen_spherical_cap return, for every degree to the maximum degree and order to the maximum order, the spherical-harmonic coefficients of the load: a sum of points of mass (Gt or g) at their positions, or a uniform disc or '
    'spherical cap (size as cap angle, area or radius on the sphere of mean Earth radius) of a mass in Gt, a height in cm w.e. or a pressure, including the elastic Earth (1+k) or custom degree factors. Sizes in cm w.e. or Gt are consistent through the cap area; the load is linear in the data.',
    'all magnitudes, longitudes, Love numbers and sizes; latitudes listed and, to degree 3, any in +-60', 'tests compare one cap and one disc with each other',
    ['gen_point_load.py', 'gen_disc_load.py', 'gen_spherical_cap.py'],
    [('point sum', 'gen_point_load.py gen_point_load'), ('disc', 'gen_disc_load.py gen_disc_load'), ('cap', 'gen_spherical_cap.py gen_spherical_cap')])
prop('C13', 'Algebra of harmonics objects acts coefficient by coefficient',
    'Adding, subtracting, multiplying and dividing harmonics objects combines the coefficients shared by both (degrees and orders up to the smaller of each) and leaves the rest, the date and the operand unchanged, also for series with a single field or with a matching series. '
    'scale, power, convolve, drift and mean (optionally removed from the series, optionally of selected months) give the coefficient-wise result, with scale, power, drift not changing the original; '
    'amplitude and degree_amplitude are the root sum of squares over the orders of each degree.',
    'all coefficients, differing degrees and orders of operands, single fields and series', 'tests check one pair of equal-size fields',
    ['harmonics.py', 'degree_amplitude.py'], [('algebra', 'harmonics.py add, subtract, multiply, divide, scale, power, convolve, drift, mean'), ('degree amplitude', 'degree_amplitude.py degree_amplitude')])
prop('C14', 'Restructuring harmonics objects keeps every coefficient with its date',
    'Truncating, flattening and expanding, adding or removing the time dimension, indexing, subsetting by month (one or many), iterating, copying, building zeros, from_list (optionally sorted by time), to/from dictionary and to_masked_array keep each retained '
    'coefficient with its degree, order, month, time and file; objects derived from another do not share data with it; missing months are errors; iteration can be repeated.',
    'all coefficients, degrees to 5, orders truncated or not, single fields and series in any order', 'tests check one sequence on one object',
    ['harmonics.py'], [('structure', 'harmonics.py truncate, flatten, expand, index, subset, from_list, expand_dims, squeeze, to_masked_array')])
prop('C15', 'Harmonics written to a file are read back unchanged',
    'Harmonics written as text, netCDF4 or HDF5 (single month or series, with or without dates) and read back, also compressed (gzip, zip), from memory or with a file name of different case, have the same degree, order, coefficients to the precision of the format, time, month, units and attributes; '
    'a series written with one file per month and an index file is read back in the order of time or of the index.',
    'all coefficients of listed magnitudes, degrees to 4 (thorough 12), orders truncated or not', 'tests round-trip one object per format',
    ['harmonics.py'], [('text', 'harmonics.py to_ascii, from_ascii'), ('netCDF4 and HDF5', 'harmonics.py to_netCDF4, from_netCDF4, to_HDF5, from_HDF5'), ('index', 'harmonics.py to_index, from_index')])
prop('C16', 'Operations on gridded fields act cell by cell and respect missing cells',
    'For a map or a series of maps with any set of missing cells: offset and scale (by a number, one number per month, a map or a series of maps), sum, power, max, min and mean (optionally of selected months, optionally removed from the series) give the cell-wise result where all contributing cells are valid; all other cells are '
    'masked and hold the fill value. flip, transpose, extend_matrix (wrap by one column at the grid spacing), expand_dims, squeeze, index, subset, iteration, copy, zeros_like, from_dict, from_list, to_masked_array and replace_invalid keep each value, error and mask with its coordinates, time, month and file. '
    'Results do not share data with the original, which stays unchanged. kfactor is the least-squares factor between two fields with its root-mean-square misfit and the magnitude.',
    'all values and factors, grids to 3x4, series to 4 months, several patterns of missing cells, with or without errors', 'no test covers spatial objects',
    ['spatial.py'], [('algebra', 'spatial.py spatial.offset, scale, mean, sum, power, max, min'), ('structure', 'spatial.py spatial.flip, transpose, extend_matrix, index, subset, from_list'), ('masks', 'spatial.py spatial.update_mask, replace_invalid'), ('scaling factors', 'spatial.py scaling_factors.kfactor')])
prop('C17', 'Gridded fields written to a file are read back',
    'A spatial object written to an ascii, netCDF4 or HDF5 file, alone or through an index of monthly files, is read back with each value in its own cell, the same coordinates, date and month, and missing cells still missing '
    '(to the printed precision for ascii, exactly otherwise), whatever the grid (spacing, registration, square or not), the way its size is given, the variable names, the compression and the case of the file name; scaling factors likewise with errors and magnitudes. '
    'Months of an index come back in the listed order or sorted by date as asked.',
    'every value of every cell on the grids tested', 'tests round-trip random half-degree grids without missing cells', ['spatial.py'],
    [('text grid', 'spatial.py from_ascii, to_ascii'), ('netCDF4', 'spatial.py from_netCDF4, to_netCDF4'), ('HDF5', 'spatial.py from_HDF5, to_HDF5'), ('index of files', 'spatial.py from_index, to_index'), ('scaling factors', 'spatial.py scaling_factors.from_ascii')])
prop('C18', 'Destriping subtracts moving quadratic fits over degrees of equal parity',
    'destripe_harmonics leaves orders below 5 unchanged and, for each order m from 5 and each parity of degree separately, subtracts from the coefficients (degrees m to the maximum degree) the least-squares quadratic over a moving window of 2n+1 degrees of that parity evaluated at its centre '
    '(the first and last windows also at their ends), with n = 15 exp(-m/10) rounded to the nearest integer (or down where ROUND is off), at least 2. Where fewer degrees than the window are left, the coefficients become zero, or with NARROW stay as they are. '
    'The inputs are not modified; harmonics.destripe does so for each month of a single field or a series and keeps dates, months, degree and order.',
    'all coefficients, degrees to 45 (thorough 60 at every order), truncated orders, both options', 'no test covers the filter', ['destripe_harmonics.py', 'harmonics.py'],
    [('filter', 'destripe_harmonics.py destripe_harmonics'), ('series', 'harmonics.py harmonics.destripe')])
prop('C19', 'Averaging kernels minimise the sum of satellite and leakage errors',
    'gen_averaging_kernel returns for every degree and order up to the truncation the coefficients of Swenson and Wahr (2002): those of the exact region divided by its area (the degree 0 coefficient) and by 1 plus twice the squared error (in mass units: 3 (1+k)/(2l+1) inverted with mean Earth density and radius for normalised input) '
    'over the Gaussian leakage weight of the degree and the signal variance scaled to the variance of the kernel average, where the Gaussian weight is the Legendre transform of exp(-b(1-x)) with the half width given and falls back to the cutoff from the first degree below it. Inputs are not modified.',
    'all region and error coefficients, variances, degrees to 4 (thorough 6), orders truncated, larger inputs, both units', 'no test covers the kernels', ['gen_averaging_kernel.py'],
    [('kernel', 'gen_averaging_kernel.py gen_averaging_kernel')])
prop('C20', 'Gradients of harmonic fields are the derivatives of the series',
    'fourier_legendre returns the coefficients of the expansion of P_lm(cos t) in cosines (even order) or sines (odd order) of multiples of the colatitude t up to any maximum degree (zero above the diagonal); legendre_gradient those of the derivatives -dP/dt and m P/sin t over sqrt(l(l+1)). '
    'harmonic_gradients returns [lon, lat, 2] with the eastward derivative (1/sin t) dF/dlon and the northward derivative -dF/dt per radian of the series with degrees from the minimum to the maximum and orders up to the truncation. geostrophic_currents returns the zonal and meridional currents of Wahr et al. (2002), '
    'summed from the minimum degree, with Gaussian smoothing, load Love numbers and density as given.',
    'every colatitude and degrees to 6 (thorough 9) for the expansions; all coefficients, longitudes and Love numbers with degrees to 6', 'no test covers gradients',
    ['fourier_legendre.py', 'harmonic_gradients.py'],
    [('expansions', 'fourier_legendre.py fourier_legendre, legendre_gradient'), ('gradients', 'harmonic_gradients.py harmonic_gradients'), ('currents', 'harmonic_gradients.py geostrophic_currents')])
prop('C21', 'Geocenter objects convert and combine degree-one coefficients',
    'For single values and series, with or without uncertainties: to_cartesian/from_cartesian convert C10, C11, S11 to Z, X, Y by the object\'s radius times sqrt(3) over 1+kl and back; to/from_cmwe and mmwe by 3-degree-one mass units (mean Earth density times radius over 1+kl). '
    'add, subtract, multiply, divide (operand a series or a single value), scale, power and mean (optionally removed, optionally of selected months) act coefficient by coefficient; scale and power leave the original unchanged. copy, dictionaries, matrices, from_harmonics and iteration give each coefficient with its date and radius, '
    'and data independent of the original.',
    'all coefficients and coordinates, load Love numbers in [-0.4,0.4], series to 5 months', 'tests only download and read geocenter files', ['geocenter.py'],
    [('conversions', 'geocenter.py to_cartesian, from_cartesian, to_cmwe, from_cmwe'), ('algebra', 'geocenter.py add, scale, power, mean'), ('structure', 'geocenter.py copy, to_dict, to_matrix, from_harmonics')])
prop('C22', 'Geocenter files are read with each coefficient, uncertainty and month in place',
    'from_gravis, from_SLR (any order of columns, header lines; coordinates in mm over radius times sqrt(3); with AOD the mean of the daily dealiasing values of the month subtracted), from_UCI, from_swenson, from_tellus (with or without JPL renaming; uncertainties) and from_netCDF4 (also from a group or compressed) '
    'return for every record of the file C10, C11, S11, their uncertainties where given, the decimal year and the GRACE month, whatever the values, their signs and the months present, header lines skipped.',
    'all values within their field widths, listed months', 'tests read a handful of downloaded files (not available offline)', ['geocenter.py'],
    [('readers', 'geocenter.py from_gravis, from_SLR, from_UCI, from_swenson, from_tellus, from_netCDF4')])
prop('C23', 'Land and ocean functions classify every cell of the mask once',
    'For a land-sea mask (classes 0 ocean, 1 land, 2 lake, 3 small island, 4 ice shelf; latitudes in either direction), land_stokes returns the cm w.e. coefficients, with 1+k Earth response, of the function that is 1 on classes 1 to 3 and ocean_stokes those of its complement, '
    'by quadrature to the degree and order given; with SIMPLIFY, land cells with at most one land neighbour (longitude wrapping, poles mirrored) become ocean in both. find_isolated_points does so without modifying its input.',
    'every class in up to 8 cells of the mask at once, all Love numbers, degrees to 4', 'no test covers the functions', ['ocean_stokes.py'],
    [('functions', 'ocean_stokes.py ocean_stokes, land_stokes'), ('isolated points', 'ocean_stokes.py find_isolated_points')])
prop('C24', 'The sea level equation solver conserves mass and is self-consistent',
    'For a load given as harmonics and a binary land mask, sea_level_equation returns on ocean cells the field of the iteration of Kendall et al. (2005) and Tamisiea et al. (2010): geoid minus crust of the load and of the previous sea level with load Love numbers, the polar motion feedback on degree 2 order 1 (unless switched off) with the body tide and fluid Love numbers chosen, '
    'plus the uniform shift which makes the mass of the sea level balance that of the load; the first guess is uniform; iterations stop when the summed amplitude changes by no more than 1e-4 or the maximum is reached. Land cells hold zero or the fill value; inputs are not modified; precomputed Legendre polynomials change nothing.',
    'all loads for one iteration; scaled load patterns up to 6 (thorough 20) iterations', 'no test covers the solver', ['sea_level_equation.py'],
    [('solver', 'sea_level_equation.py sea_level_equation'), ('synthesis', 'sea_level_equation.py clenshaw_s_m')])
prop('C25', 'Load Love numbers are tabulated per degree in the requested frame',
    'read_love_numbers returns hl, kl and ll for degrees 0 to the maximum (by default the largest in the table), whatever the order of the columns, the header lines, the source (path, string, bytes) and the output format (tuple, zip, dictionary, class): tabulated degrees as in the table (D or E exponents), degrees between them by linear interpolation, '
    'those below the first equal to it, and those beyond the last by linear extrapolation of the last two. Degree one is moved to the reference frame: alpha is subtracted from all three with alpha 0 (CE), 1 (CM), (hl+2ll)/3 (CF), ll (CL), hl (CH). love_numbers objects do the same and load_love_numbers gives the distributed models (default CF).',
    'all Love numbers, listed degrees, truncation and extrapolation to degree 10 (thorough 60)', 'tests compare one table with the C extension of another program',
    ['read_love_numbers.py'], [('tables', 'read_love_numbers.py read_love_numbers'), ('frames', 'read_love_numbers.py love_numbers.transform'), ('models', 'read_love_numbers.py load_love_numbers')])
prop('C26', 'Regressions return least-squares coefficients with correct uncertainties',
    'time_series.regress fits a polynomial relative to the given date (or mean date), annual and other cycles (sine before cosine) and extra terms by ordinary or (with data errors and WEIGHT) inverse-variance weighted least squares; piecewise fits a line with a change of slope at a breakpoint (index or date) and returns the second slope after it. '
    'Both return coefficients, model, residual, trend part, covariance of the unit-variance problem, errors (known error propagated, or standard error times Student t at 95% or as asked), MSE, R2, adjusted R2, log-likelihood, AIC (corrected unless switched off in regress) and BIC, without modifying their inputs. '
    'amplitude returns amplitude and phase of a sine; aliasing_terms the sine and cosine of the tidal alias (default 161 days) before and after 2018.',
    'any data on listed irregular dates to 13 months (thorough 60); ratios and bounds for data patterns times any factor', 'tests fit one synthetic series with unit weights',
    ['time_series/regress.py', 'time_series/piecewise.py', 'time_series/amplitude.py', 'time_series/fit.py'],
    [('polynomial', 'time_series/regress.py regress'), ('breakpoint', 'time_series/piecewise.py piecewise'), ('amplitude', 'time_series/amplitude.py amplitude'), ('aliasing', 'time_series/fit.py aliasing_terms')])
prop('C27', 'Smoothed series are windowed least-squares fits at their own dates',
    'time_series.smooth returns for each date with a full window (half width 6 by default) the value, slope, annual and semiannual parts, amplitude, phase, noise and error of the least-squares fit of line, annual and semiannual sine and cosine over the window; with WEIGHT the linear (1) or Gaussian (2) weighted averages of all windows covering a date; '
    'with MOVING the 13-point average with half weights at the ends. savitzky_golay returns the value or derivative of the local polynomial fit in true (irregular) dates and its propagated error, and rejects even windows or windows too short for the order. Dates match the values, inputs are not modified.',
    'any data on listed irregular dates to 15 months (thorough 40)', 'no test covers the filters', ['time_series/smooth.py', 'time_series/savitzky_golay.py'],
    [('Loess', 'time_series/smooth.py smooth'), ('Savitzky-Golay', 'time_series/savitzky_golay.py savitzky_golay')])
prop('C28', 'Mascons average the grid cells they contain and fill them back',
    'to_gsfc and to_jpl return for each mascon the cosine-latitude weighted mean of the grid cells whose centres lie within its bounds (south and west edges included; polar mascons are caps around the pole; across the date line and Greenwich, for grids of longitudes -180 to 180 or 0 to 360 in GSFC, latitudes in either direction), with the centres of the mascons; '
    'JPL mascons without cells are masked. from_gsfc and from_jpl fill each cell with its mascon (zero elsewhere, transposed on request), so averages of the filled grid return the mascons. Inputs are not modified.',
    'all fields and mascon values on listed layouts and grids to 5 degrees', 'no test covers mascons', ['mascons.py'],
    [('GSFC', 'mascons.py to_gsfc, from_gsfc'), ('JPL', 'mascons.py to_jpl, from_jpl')])
prop('C29', 'Level-2 files give every coefficient, date and correction in place',
    'read_GRACE_harmonics returns for every degree and order up to the truncation the coefficients and uncertainties of the file (zero where absent), whatever the format (RL05 text, RL06 YAML header, gfc; gzip; path or open file) and centre, with the decimal year of the centre of the span in the name, the Julian days of start and end, and the header text. '
    'GSM fields of release 4 include the drift rates times the years since 2003.3; with POLE_TIDE the part of the mean pole tide a centre leaves in (Wahr et al., 2015; linear or cubic IERS pole by date) is subtracted from C21 and S21 only.',
    'all coefficients and drift rates to degree 5 (thorough 24), listed spans and formats', 'tests read a few files of the network (not available offline)', ['read_GRACE_harmonics.py'],
    [('reader', 'read_GRACE_harmonics.py read_GRACE_harmonics'), ('names', 'read_GRACE_harmonics.py parse_file'), ('contents', 'read_GRACE_harmonics.py extract_file')])
prop('C30', 'Low-degree laser-ranging files give each month its own coefficient',
    'SLR.C20, C30, C40, C50 and CS2 return for every record of each supported file (technical notes 5, 7, 11, 14, GFZ, GravIS, CSR, LARES) the coefficient, its uncertainty in coefficient units, its decimal year and GRACE month, skipping headers and comments, with anomalies, means and dealiasing averages combined as the file states and the flagged solution used where a month has two. '
    'read_SLR_harmonics gives the CSR monthly (mean plus anomalies) and GSFC weekly fields for degrees to 5 and 6,1; convert_weekly and the weekly readers average the days nearest to each date.',
    'all values within their field widths, listed months', 'tests read a handful of downloaded files (not available offline)',
    ['SLR/C20.py', 'SLR/C30.py', 'SLR/C40.py', 'SLR/C50.py', 'SLR/CS2.py', 'read_SLR_harmonics.py'],
    [('C20', 'SLR/C20.py C20'), ('other zonals', 'SLR/C30.py, C40.py, C50.py'), ('degree 2 pairs', 'SLR/CS2.py CS2'), ('fields', 'read_SLR_harmonics.py read_CSR_monthly_6x1, read_GSFC_weekly_6x1, convert_weekly')])
prop('C31', 'Glacial isostatic adjustment models give rates in yearly Stokes units',
    'read_GIA_model and gia.from_GIA return for each distributed format (IJ05-R2, W12a, SM09, ICE6G, Wu10, AW13-ICE6G, AW13-IJ05, Caron, ICE6G-D, and reformatted text, netCDF and HDF5) every rate up to the truncation degree and order, scaled to normalised coefficients per year (geoid heights over the radius), with cosine and sine terms in place whatever their layout, '
    'zero beyond the file, and the title of the model; without a model the rates are zero; the object carries degrees and order.',
    'all coefficients to degree 6 (thorough 16), listed truncations', 'no test covers the models', ['read_GIA_model.py'],
    [('models', 'read_GIA_model.py read_GIA_model'), ('objects', 'read_GIA_model.py gia')])
prop('C32', 'File indices assign every file to its month and find the missing ones',
    'grace_date returns each file of index.txt under the GRACE month of the centre of its span (with the months of accelerometer shutdowns kept apart) and, on request, lists the decimal date, month, start, end and days since 2002 of each file; file names of all centres are understood. '
    'grace_find_months returns first, last, available and missing months (from month 4) and dates, writing the list where absent; grace_months_index tabulates the span of each month and the missing ones; time.reduce_by_date keeps the newest version of each span of dates.',
    'any start day and length within listed years, any year for calendar-month names, any subset of up to 7 months and of 9 versions', 'tests need files of the network',
    ['grace_date.py', 'grace_find_months.py', 'grace_months_index.py', 'time.py'],
    [('months', 'grace_date.py grace_date'), ('missing', 'grace_find_months.py grace_find_months'), ('table', 'grace_months_index.py grace_months_index'), ('names', 'time.py parse_grace_file, parse_gfc_file, reduce_by_date')])
prop('C33', 'Monthly fields carry the requested replacements and corrections',
    'grace_input_months returns, for each available month of the span, the coefficients and uncertainties of its own file to the degree and order asked (zero elsewhere), its decimal date and month, whatever the centre, release and product. '
    'Where asked, C20 (every month) and C21/S21, C22/S22, C30, C40 and C50 (months after 176) are replaced by the value and uncertainty of the same month of the laser-ranging file, degree one by that of the geocenter file (or a regression where modelled), and the atmospheric jumps are removed from (GSM) or added to (GAC, GAA) the months of their epochs. '
    'Nothing else changes; title and attributes name what was applied. A month needed and missing from a replacement is an error naming it.',
    'all coefficients and replacements of up to 4 months to degree 5, listed months, centres and sources, every subset of missing months', 'tests need files of the network (not available offline)',
    ['grace_input_months.py'],
    [('fields', 'grace_input_months.py grace_input_months'), ('atmospheric jumps', 'grace_input_months.py read_ecmwf_corrections'), ('modelled degree one', 'grace_input_months.py regress_model')])
prop('C34', 'Programs convert files between harmonics and maps consistently',
    'combine_harmonics writes for every file (and every month of an index or list) the map of its coefficients in the requested units on the requested grid, after removing the mean file, decorrelating, smoothing and redistributing mass as asked, or with no grid the scaled coefficients; convert_harmonics writes the coefficients of maps in those units to the requested degree and order. '
    'Dates, months and nodes are those asked and the output format holds the same values.',
    'all coefficients and grid values to degree 3 (decorrelation to 10), listed options', 'no test runs the programs', ['scripts/combine_harmonics.py', 'scripts/convert_harmonics.py'],
    [('maps', 'scripts/combine_harmonics.py combine_harmonics'), ('harmonics', 'scripts/convert_harmonics.py convert_harmonics')])
prop('C35', 'Mean fields and monthly maps combine the requested months and fields',
    'grace_mean_harmonics writes the mean of the coefficients of the requested months (and their replacements) in any format. grace_spatial_maps writes for each requested month the map of its anomaly: coefficients of the month minus the mean file, minus the trend of glacial isostatic adjustment at its date, minus removed files (their mass redistributed over the ocean where asked), decorrelated and smoothed as asked, '
    'with the minimum degree, units, grid and names of the options.',
    'all coefficients of up to 5 months to degree 3 (decorrelation to 10), listed options', 'no test runs the programs', ['scripts/grace_mean_harmonics.py', 'scripts/grace_spatial_maps.py'],
    [('mean', 'scripts/grace_mean_harmonics.py grace_mean_harmonics'), ('maps', 'scripts/grace_spatial_maps.py grace_spatial_maps')])
prop('C36', 'Regression maps hold the fit of each cell under its own name',
    'regress_grace_maps and piecewise_grace_maps read the monthly maps of the requested months, fit every cell in time and write for each coefficient (polynomial or pieces, semiannual, annual, tidal aliases for both missions) the map of its values and errors under the name of the coefficient, whatever order the cycles are listed in; '
    'for each pair of sine and cosine the amplitude and phase (0 to 360) and their propagated errors; and the sum of squared errors, AIC, BIC and adjusted R2 of the fits, on the nodes of the input for global and regional grids and each format.',
    'two cells of each map free, listed spans, cycles and grids', 'no test runs the programs', ['scripts/regress_grace_maps.py', 'scripts/piecewise_grace_maps.py'],
    [('regression', 'scripts/regress_grace_maps.py regress_grace_maps'), ('pieces', 'scripts/piecewise_grace_maps.py piecewise_grace_maps')])
prop('C37', 'Mascon programs return least-squares masses that their kernels reproduce',
    'calc_mascon writes for each mascon and month the mass in gigatonnes of the least-squares fit of the mascon fields (fitting water or geoid coefficients, smoothed as asked, from the minimum degree) to the anomalies of the month, after the mean, drift, removed and reconstructed fields, with mass redistributed over the ocean where asked; its area; and its error, the root sum of squares of kernel times noise of the smoothed coefficients, '
    'kept in a file used by later runs. calc_sensitivity_kernel writes the kernels of those estimates as coefficients and maps, and mascon_reconstruct the coefficients of the mass of each mascon with an index of the files.',
    'every coefficient of up to 3 months (14 for the noise) and total masses to degree 3, listed mascons, fits and options', 'no test runs the programs',
    ['scripts/calc_mascon.py', 'scripts/calc_sensitivity_kernel.py', 'scripts/mascon_reconstruct.py'],
    [('series', 'scripts/calc_mascon.py calc_mascon'), ('kernels', 'scripts/calc_sensitivity_kernel.py calc_sensitivity_kernel'), ('reconstruction', 'scripts/mascon_reconstruct.py mascon_reconstruct')])
prop('C38', 'Maps of errors and of scaled anomalies follow their definitions',
    'grace_spatial_error writes the map of the errors of the coefficients: at each node the root of the sum over degrees (from the minimum) and orders of the squared error of each coefficient times its smoothing, unit factor, Legendre function and cosine or sine, divided by the number of smoothed months; the errors are read from a file of earlier runs or estimated as the root mean square residual of the smoothed series of each coefficient, and kept in that file. '
    'scale_grace_maps writes the monthly anomaly maps multiplied by the factor of each cell, the errors of the factors multiplied by the ratio of the scaled to the synthetic power, and the error map multiplied by the factors; cells with no factor hold the fill value.',
    'errors and anomalies proportional to one free scale, all factors, errors and powers of the cells, all coefficients for the maps, to degree 3 (decorrelation to 10), listed options', 'no test runs the programs',
    ['scripts/grace_spatial_error.py', 'scripts/scale_grace_maps.py'],
    [('errors', 'scripts/grace_spatial_error.py grace_spatial_error'), ('scaling', 'scripts/scale_grace_maps.py scale_grace_maps')])
prop('C39', 'Grids are shifted, interpolated and wrapped without moving their values',
    'tools.shift_grid starts a global grid at any longitude (or ends it there), every value staying on its own meridian whether or not the grid repeats its first one; tools.interp_grid with order 0 returns the value of the nearest node and with order k the spline of degree k through the nodes (bilinear for 1; polynomials of degree k are reproduced), and tools.wrap_longitudes brings angles to [-180, 180) unchanged modulo a turn.',
    'all values and starting longitudes of grids to 8x3, listed spacings', 'tests compare no grid tools', ['tools.py'],
    [('shift', 'tools.py shift_grid'), ('nearest node', 'tools.py interp_grid'), ('wrap', 'tools.py wrap_longitudes')])
prop('C40', 'Degree one coefficients solve the mass balance of land and ocean',
    'calc_degree_one writes for each month the three coefficients of degree one which, with the anomalies of degrees above one (mean, drift, jumps and dealiasing treated as asked, smoothed and decorrelated as asked), give over the ocean of the mask the mass of the ocean model plus that lost by land (spread uniformly or as the response of the sea level equation), starting from the seasonal cycle of land water and repeated to convergence where asked. '
    'Text files with and without dealiasing, links and copies, and the netCDF4 file and its groups hold the same coefficients; monte_carlo_degree_one writes those of each perturbed run.',
    'every coefficient, drift, correction and ocean model of 2-3 months to degree 3 (decorrelation to 10), listed masks and months', 'no test runs the programs', ['scripts/calc_degree_one.py', 'scripts/monte_carlo_degree_one.py'],
    [('solution', 'scripts/calc_degree_one.py calc_degree_one'), ('runs', 'scripts/monte_carlo_degree_one.py monte_carlo_degree_one')])
prop('C41', 'Dealiasing programs extract, average and map the right hours',
    'aod1b_geocenter and aod1b_oblateness list for every time of every day in the archive of a month the geocenter (mm) and C20 of the requested product and no other; dealiasing_monthly_mean writes for each month of the date file with all of its days present the mean of the coefficients over exactly those days (also across months and years), truncated as asked, as ascii, netCDF4, HDF5 or level-2 files readable as such, with names, headers, index and list of dates; '
    'dealiasing_global_uplift writes the map of the elastic uplift of each hour on the requested grid.',
    'coefficients of listed degrees (others 0) in files to degree 100 or 180 of up to 2 days per month, releases RL04-RL06', 'no test runs the programs', ['scripts/aod1b_geocenter.py', 'scripts/aod1b_oblateness.py', 'scripts/dealiasing_monthly_mean.py', 'scripts/dealiasing_global_uplift.py'],
    [('geocenter', 'scripts/aod1b_geocenter.py aod1b_geocenter'), ('oblateness', 'scripts/aod1b_oblateness.py aod1b_oblateness'), ('means', 'scripts/dealiasing_monthly_mean.py dealiasing_monthly_mean'), ('uplift', 'scripts/dealiasing_global_uplift.py dealiasing_global_uplift')])
prop('C42', 'Summary, fingerprint and index programs report what the library computes',
    'quick_mascon_regress writes (or streams) for the series of a file the coefficients, standard errors, confidence limits and units of its polynomial or piecewise fit, the amplitudes, phases (0 to 360) and their propagated errors, each under its own name whatever order the cycles are listed in, and the criteria of the fit. '
    'run_sea_level_equation writes the sea level over the ocean of the mask (land, lakes and islands excluded) for the loads of each date of the file. make_grace_index lists the files of each product and version once, the newest of each span of dates; run_grace_date lists the dates of every valid product. calc_harmonic_resolution gives the half wavelength of a degree and the smallest cap.',
    'series and loads: patterns times a free factor; every subset of files; any radius', 'no test runs the programs',
    ['scripts/quick_mascon_regress.py', 'scripts/run_sea_level_equation.py', 'scripts/make_grace_index.py', 'scripts/run_grace_date.py', 'scripts/calc_harmonic_resolution.py'],
    [('summary', 'scripts/quick_mascon_regress.py run_regress'), ('sea level', 'scripts/run_sea_level_equation.py run_sea_level_equation'), ('index', 'scripts/make_grace_index.py make_grace_index'), ('dates', 'scripts/run_grace_date.py run_grace_date'), ('resolution', 'scripts/calc_harmonic_resolution.py calc_harmonic_resolution')])
prop('C43', 'Gravity model files become harmonics with their dates and systems',
    'read_gfc_harmonics and harmonics.from_gfc return the coefficients of the model in the tide system asked (compressed or not) with its degrees, constants and tide system; for the monthly models of GRAZ and Swarm (data and dealiasing) the decimal date, start and end are those of the calendar month in the name, and the GRACE month follows. '
    'harmonics.from_SHM and from_file return level-2 files truncated to the degree and order asked, corrected for the pole tide where asked, with date, month, degrees and orders set.',
    'every coefficient of models to degree 4, any year, listed months, formats and centres', 'no test reads gfc files or models from harmonics', ['read_gfc_harmonics.py', 'harmonics.py'],
    [('monthly models', 'read_gfc_harmonics.py read_gfc_harmonics'), ('gfc', 'harmonics.py harmonics.from_gfc'), ('models', 'harmonics.py harmonics.from_SHM'), ('dispatch', 'harmonics.py harmonics.from_file')])
prop('C44', 'Periodograms do not depend on the unit or the mean of the series',
    'time_series.lomb_scargle returns over the range of periods, temporal or angular frequencies asked the least-squares power of the series reduced to mean 0 and variance 1, whatever its unit and mean, normalised where asked, with the probability for the number of independent frequencies (Horne and Baliunas), its levels, the mean Nyquist frequency, and the period of the peak and centroid.',
    'patterns of 4 to 60 values in any unit about any mean, listed ranges', 'no test computes a periodogram', ['time_series/lomb_scargle.py'],
    [('power', 'time_series/lomb_scargle.py lomb_scargle')])
prop('C45', 'Mirrors copy exactly the files that are new or changed',
    'The programs of the archives (itsg_graz_grace_sync, gfz_icgem_costg_ftp, gfz_isdc_grace_ftp, gfz_isdc_dealiasing_ftp, esa_costg_swarm_sync, cnes_grace_sync, podaac_cumulus) copy a remote file exactly when there is no local copy, when it is newer than the copy (to two seconds), when asked to compare checksums and they differ, or when forced, and never when only listing; the copy has the content (compressed where asked), time and permissions, other local files stay as they were. '
    'Products go to the directory of their center, release and product, whose index lists its local product files (once per span of dates and newest version for level-2 data); archives of a month hold each remote day. utilities.from_csr, from_gfz, from_gsfc and from_figshare leave the content of the server; utilities.cmr returns names, addresses and times which correspond; create_unique_file never reuses a file.',
    'any times of modification, presence and identity of local copies, options; servers of 2 to 40 files (1001 for Swarm)', 'no test reaches the servers',
    ['scripts/itsg_graz_grace_sync.py', 'scripts/gfz_icgem_costg_ftp.py', 'scripts/gfz_isdc_grace_ftp.py', 'scripts/gfz_isdc_dealiasing_ftp.py', 'scripts/esa_costg_swarm_sync.py', 'scripts/cnes_grace_sync.py', 'scripts/podaac_cumulus.py', 'utilities.py'],
    [('http', 'scripts/itsg_graz_grace_sync.py http_pull_file'), ('ftp', 'scripts/gfz_isdc_grace_ftp.py ftp_mirror_file'), ('archives', 'scripts/cnes_grace_sync.py gzip_copy_file'), ('cloud', 'scripts/podaac_cumulus.py s3_pull_file'), ('queries', 'utilities.py cmr_filter_json'), ('lists', 'utilities.py ftp_list')])
