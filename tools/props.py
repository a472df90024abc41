#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ['public function results'], hook_needed=None)))

p('P01', 'Calendar dates and day numbers convert exactly in all nine calendars',
  'For every day and every supported calendar (Gregorian, Julian, combined Julian/Gregorian, Hebrew, Islamic, French Revolutionary, astronomical and modern Persian, Chinese), turning a day number into day/month/year and back returns the same day number, and the date is the one that calendar\'s own rules (leap years, month lengths, intercalary months) give. Consecutive days get consecutive dates with no gap, repeat or non-terminating conversion, month lengths agree with the conversion, and days outside a table-limited calendar are flagged rather than given a date.',
  'every day number (including far past and future, negative years and year boundaries) in each calendar',
  'tests convert three Hebrew dates; every leap rule, boundary and far year is unvisited',
  ['date.cpp', 'date.h', 'chinese.h'],
  [('dmy_to_day/day_to_dmy/days_in_month', 'date.cpp'), ('per-calendar year data', 'date.cpp get_*_year_data')])

p('P02', 'A written date/time is parsed to exactly the instant it denotes',
  'Any date/time text in a supported style (year-month-day in any order the flags select, named months, ISO/FITS, day-of-year, packed digits, JD, MJD, decimal years, GPS week, BC years, AM/PM, clock times with fractional seconds, a lunar phase near the starting time, ":MM" to keep the hour, plus trailing offsets such as "+3d" or "-2h") yields the instant it denotes to within the precision of the text, in the calendar and field order selected. Text that cannot be understood is reported as an error and leaves the starting time unchanged.',
  'all date/time strings in every supported style, order flag, calendar and starting time',
  'the table test holds about ninety strings; styles × orders × calendars × dates are unbounded',
  ['get_time.cpp', 'miscell.cpp', 'date.cpp'],
  [('get_time_from_string(l)', 'get_time.cpp'), ('collect_time_offset, month_name_to_index', 'get_time.cpp')])

p('P03', 'Formatted dates and times are valid, correctly rounded and faithful',
  'For every instant and every format option, the date/time text shown has fields in range (no 60 s, 24 h or day 0), is the instant truncated (or rounded, if asked) to the displayed precision in the chosen calendar, and shows the right weekday and day of year; a later instant never shows an earlier time. Splitting an instant into year/month/day/hour/minute/second yields in-range fields that recombine to that instant.',
  'every instant and format-flag combination',
  'tests only ever print a few fixed times; carries at second/minute/day/year boundaries and option combinations are not sampled',
  ['miscell.cpp', 'get_time.cpp', 'date.h'],
  [('full_ctime(l)', 'miscell.cpp'), ('split_time(l), decimal_day_to_dmy', 'get_time.cpp / miscell.cpp')])

p('P04', 'UTC, TT and TDB conversions follow the published leap seconds and Delta-T',
  'TT-UTC from 1972 onward equals 32.184 s plus the published leap-second total, stepping only at the published instants; before that it follows the published 1961-72 UTC offsets and drift, and before 1961 and in the future a Delta-T curve that matches the published historical values (observed values being used instead when an Earth-orientation file is loaded). TDB differs from TT by the standard periodic term (below 2 ms), and a user-supplied Delta-T override is honoured exactly and can be removed, restoring the original values.',
  'every instant from antiquity to the far future, in any query order and with any override history',
  'the tests run one program that prints a handful of values and compares nothing outside them',
  ['delta_t.cpp', 'afuncs.h'],
  [('td_minus_ut, td_minus_utc, tdb_minus_utc', 'delta_t.cpp'), ('leap-second table, ΔT table', 'delta_t.cpp')],
  over=('inputs', 'histories'))

p('P05', 'Easter dates follow the Gregorian and Julian computus for every year',
  'For every year from zero on, the Gregorian Easter returned is the date of the Gregorian computus (a Sunday from 22 March to 25 April), and the Julian Easter is the date of the Julian computus (a Sunday in the Julian calendar in the same span). The Gregorian sequence repeats with its 5,700,000-year period.',
  'all non-negative years, including years far outside the tabulated century',
  'tests check 2010-2084 and the frequency totals over a cycle, which any permutation of dates satisfies',
  ['easter.cpp'], [('easter_date, easter_date_julian', 'easter.cpp')])

p('P06', 'Mars clocks and sol dates agree with the published Mars24 relations',
  'For every instant the Mars sol date, mean and true solar time at Airy and at any longitude, equation of time and solar longitude reported are those of the published Mars time algorithm, and converting a Mars sol date back to an Earth time recovers the instant to a millisecond. Clock fields shown are in range.',
  'every instant over several centuries and all rover/landing-site clocks offered',
  'one instant is checked',
  ['marstime.cpp'], [('Mars time conversions and command-line report', 'marstime.cpp')])

p('P07', 'Asteroid, comet and satellite designations pack and unpack losslessly',
  'Every valid designation (numbered and provisional asteroids including four-digit and extended forms, survey designations, numbered and provisional comets with fragments, numbered and provisional natural satellites, artificial objects) packs to the Minor Planet Center form defined for it, and unpacking that form returns the same object and its kind. Two different designations never pack to the same form, and text that is no designation is not reported as one.',
  'every designation of every kind over its full numeric range',
  'the table test holds a few dozen designations; ranges run to millions of objects with several encoding switches',
  ['unpack.cpp', 'mpc_fmt.cpp', 'mpc_func.h'],
  [('create_mpc_packed_desig', 'mpc_fmt.cpp'), ('unpack_mpc_desig, unpack_unaligned_mpc_desig', 'unpack.cpp')])

p('P08', 'Base-62 numeric codes round-trip and keep their order',
  'Encoding any integer that fits in a base-62 field of a given width and decoding it returns that integer, decoding rejects characters outside the alphabet, and the single-character and multi-character codes agree with each other and sort in numeric order. Catalogue/net byte codes map each catalogue name to one code and back.',
  'all widths and values, all byte values as input, all catalogue names and codes',
  'only indirectly touched by a few packed designations',
  ['unpack.cpp', 'mpc_fmt.cpp', 'mpc_func.h'],
  [('mutant hex functions', 'unpack.cpp'), ('byte_code_to_net_name/net_name_to_byte_code', 'mpc_fmt.cpp')])

p('P09', 'Fields of an 80-column observation record are read with their exact value',
  'Whatever supported date, right-ascension and declination style and precision an 80-column observation record uses, the observation time, RA and dec read from it are the written ones (radar times to the nearest second) and the precision and format reported describe how they were written. A record of the wrong length, with an invalid station code, or whose date or position matches no style or has an impossible month, is reported as such instead of producing a value.',
  'all field styles, precisions, signs, units and values an 80-column record can hold',
  'the only test is a short designation table; no record parsing is compared with a value',
  ['mpc_fmt.cpp', 'mpc_func.h'],
  [('extract_date_from_mpc_report, get_ra_dec_from_mpc_report', 'mpc_fmt.cpp')])

p('P10', 'Angles are written correctly rounded, in range and in the requested format',
  'Writing any angle in any of the supported sexagesimal or decimal formats and precisions produces fields in range (never 60 minutes or seconds) whose value is the given angle to within the displayed precision, in the documented column layout and with the correct sign. Reading the text back recovers the angle to that precision.',
  'all angles (including just under a minute, degree, hour or full-circle boundary) in every precision code',
  'no test exercises angle output',
  ['mpc_fmt2.cpp', 'mpc_fmt.cpp'],
  [('output_angle_to_buff, output_signed_angle_to_buff', 'mpc_fmt2.cpp')])

p('P11', 'ADES observations translate to 80-column records one-for-one and faithfully',
  'Feeding an ADES file (XML or PSV) line by line yields, for every optical observation in it, exactly one 80-column record (plus its position line if the observer is moving) in the original order, with the designation, time, position, magnitude, band, catalogue, notes, uncertainties and station of that observation, and nothing carried over from other observations. Lines that are not ADES pass through unchanged, and the result does not depend on how the observation\'s fields are ordered (a position\'s system preceding it) or laid out on lines (at most one observation ending on each).',
  'every well-formed ADES document: field sets, orders, line layouts, precisions and interleavings with plain records',
  'no test feeds ADES data',
  ['ades2mpc.cpp', 'adestest.cpp', 'mpc_func.h'],
  [('xlate_ades2mpc, fgets_with_ades_xlation', 'ades2mpc.cpp')], over=('inputs', 'histories'))

p('P12', 'Observatory positions read and converted without loss',
  'Every way of writing an observing site (parallax constants, latitude/longitude/altitude lines with degrees or sexagesimal fields, compass letters and units, other planets) is read as the position written, and converting between geodetic latitude/altitude and parallax constants and back returns the original for every latitude (poles and equator included), altitude and body. Text that describes no site is rejected.',
  'all site lines, latitudes, longitudes, altitudes and planets',
  'll_test checks 20-odd latitude/longitude strings; conversions are not tested',
  ['mpc_code.cpp', 'mpc_func.h', 'parallax.cpp'],
  [('get_mpc_code_info, get_lat_lon_info, get_xxx_location_info', 'mpc_code.cpp'),
   ('lat_alt_to_parallax, parallax_to_lat_alt', 'mpc_code.cpp')])

p('P13', 'Variable-star letters and numbers correspond one-to-one',
  'The n-th variable of a constellation is given the letter designation the traditional scheme assigns (R to Z, RR to ZZ, AA to QZ without J, then V335 up to V9999), and reading any such designation returns the same n. Two-letter combinations the scheme does not use are rejected, and other single letters get codes of their own (above 9000) that no numbered variable has.',
  'all variable numbers and all one- and two-letter or V-number strings',
  'not covered by any test',
  ['miscell.cpp'], [('make_var_desig, decipher_var_desig', 'miscell.cpp')])

p('P14', 'Two-body positions satisfy Kepler\'s laws for every orbit type',
  'For any orbital elements (circular to near-parabolic, parabolic and hyperbolic, any inclination) and any time, the heliocentric position computed lies on the conic of those elements at the time since perihelion given by Kepler\'s (or Barker\'s) equation, and the velocity is its time derivative: energy and angular momentum are conserved and elliptical motion is periodic. Accuracy does not collapse near eccentricity one or far from perihelion.',
  'all eccentricities, perihelion distances, orientations and times since perihelion',
  'one asteroid-ephemeris style value is tested; near-parabolic switching regions are not',
  ['astfuncs.cpp', 'comets.h'],
  [('comet_posn, comet_posn_and_vel', 'astfuncs.cpp'), ('kepler solver near_parabolic', 'astfuncs.cpp')])

p('P15', 'Orbital elements and state vectors convert into each other exactly',
  'Computing elements from any position and velocity about any central mass and then recomputing position and velocity from those elements at the same time returns the original vectors, for elliptic, near-parabolic and hyperbolic, inclined, retrograde, planar and circular motion. The elements satisfy their defining relations (energy, angular momentum, eccentricity, perihelion distance and time).',
  'all non-degenerate state vectors and gravitational parameters',
  'no test converts state vectors',
  ['classel.cpp', 'astfuncs.cpp', 'comets.h'],
  [('calc_classical_elements', 'classel.cpp'), ('comet_posn_and_vel, derive_quantities', 'astfuncs.cpp')])

p('P16', 'The reported minimum orbit intersection distance is the true minimum',
  'For any two orbits the distance returned is the global minimum over both orbits of the separation between their points: no pair of points on the two ellipses or hyperbola branches is closer, to the resolution of the search (of two nearly equal minima a few degrees apart either may be taken), and the reported anomalies realise the reported distance. It is symmetric under exchanging the orbits and planet orbits used are those of the requested planet and date.',
  'all pairs of orbits including near-coplanar, nearly tangent, high-eccentricity and hyperbolic ones',
  'tests compare a short list of asteroid/planet pairs',
  ['moid.cpp', 'afuncs.h'], [('find_moid_full, setup_planet_elem', 'moid.cpp')])

p('P17', 'Orbit catalogue records are read with the values their columns hold',
  'Reading an orbit record in the Standard Orbit Format, whatever columns its header declares and in whatever order, or in the MPC orbit-catalogue format, returns exactly the elements, epoch and magnitude parameters written there, and reading does not depend on previously read records. A header lacking a required column, a record ending before one, or a record whose layout is damaged is reported as an error.',
  'all headers (column sets, orders, widths, precisions) and all records',
  'the MOID test reads one fixed header',
  ['sof.cpp', 'mpcorb.cpp', 'mpc2sof.cpp'],
  [('extract_sof_data(_ex)', 'sof.cpp'), ('extract_mpcorb_dat', 'mpcorb.cpp')], over=('inputs', 'histories'))

p('P18', 'Printed orbital elements state the orbit they were given',
  'The multi-line element listing produced for any orbit shows epoch, perihelion time and distance, eccentricity, angles, mean anomaly, motion, period and magnitude parameters equal to the orbit\'s to the requested precision, in the requested format and with no field garbled or merged. Reading the printed values back gives the same orbit to that precision.',
  'all orbits, precisions and formatting options',
  'no test prints elements',
  ['showelem.cpp', 'showelem.h'], [('elements_in_mpc_format', 'showelem.cpp')])

p('P19', 'Precession, nutation and sidereal time are proper, invertible rotations',
  'Precession (equatorial and ecliptic), with or without nutation and Earth-orientation corrections, is for every pair of epochs a proper rotation equal to the published IAU expressions, whose inverse is the reverse precession and which composes consistently through intermediate epochs. Nutation, obliquity and Greenwich sidereal time equal the published series for every date.',
  'all epoch pairs over many millennia and all dates',
  'prectest prints one case and three nutation values are compared',
  ['precess.cpp', 'nutation.cpp', 'obliquit.cpp', 'alt_az.cpp', 'eop_prec.cpp'],
  [('setup_precession, setup_ecliptic_precession, setup_precession_with_nutation', 'precess.cpp'),
   ('nutation', 'nutation.cpp'), ('mean_obliquity', 'obliquit.cpp'), ('green_sidereal_time', 'alt_az.cpp')])

p('P20', 'Spherical coordinate transforms are exact inverses and preserve angles',
  'Transforming any direction between equatorial, ecliptic, galactic, supergalactic, horizon and rectangular coordinates and back returns it, distances between directions are preserved, and the fundamental poles and zero points are the published ones. The separation and position angle between two directions, and the point at a given separation and position angle, are mutually consistent for all separations including zero and antipodal.',
  'all directions (poles, wrap-around longitudes), dates and observers',
  'superga2 and disttest print fixed cases',
  ['alt_az.cpp', 'dist_pa.cpp', 'miscell.cpp', 'precess.cpp', 'superga2.cpp'],
  [('ra_dec_to_galactic, galactic_to_ra_dec, ra_dec_to_supergalactic, full_ra_dec_to_alt_az, full_alt_az_to_ra_dec', 'alt_az.cpp'),
   ('calc_dist_and_posn_ang, reverse_dist_and_posn_ang', 'dist_pa.cpp')])

p('P21', 'Earth-surface distances and azimuths are those of the geodesic',
  'The ellipsoidal distance and azimuths between any two points on Earth equal the geodesic ones, are symmetric, zero only for coincident points and satisfy the triangle inequality, and travelling that distance along that azimuth from the first point arrives at the second. The spherical and approximate formulae agree with it to their stated accuracy.',
  'all pairs of points (poles, antimeridian, nearly antipodal and nearly coincident)',
  'one distance is tested',
  ['dist.cpp', 'miscell.cpp'], [('vincenty_earth_dist, vincenty_direct, earth_dist, spherical_earth_dist', 'dist.cpp')])

p('P22', 'Every sky position is assigned to its one official constellation',
  'For every 1875 position the constellation returned is the one containing it under the official IAU boundaries, including positions on and beside boundaries, across 0h and at the poles. Every one of the 88 constellations is reachable and its abbreviation matches the index returned.',
  'all RA/dec on the sphere',
  'not covered by any test',
  ['conbound.c', 'afuncs.h'], [('constell_from_ra_dec', 'conbound.c')])

p('P23', 'Refraction and sky-brightness models are physical and mutually consistent',
  'Refraction never moves an object downward (beyond the accuracy its formula states), decreases with altitude, scales with pressure and temperature as specified, and removing it from an observed altitude and re-applying it returns that altitude. The sky-brightness and limiting-magnitude model gives finite values that vary as its published model does with Moon, Sun, altitude and extinction, and computing a subset of bands gives the same values as computing all.',
  'all altitudes, pressures, temperatures, humidities, wavelengths, dates and sky geometries',
  'test_ref only runs to completion; the sky model is untested',
  ['refract.cpp', 'refract4.cpp', 'vislimit.cpp', 'vislimit.h'],
  [('refraction, reverse_refraction, saasta_refraction, integrated_refraction', 'refract.cpp / refract4.cpp'),
   ('set_brightness_params, compute_sky_brightness, compute_limiting_mag', 'vislimit.cpp')])

p('P24', 'Planet and satellite orientation follows the IAU model in the data file',
  'For every body and time the pole, prime meridian and derived orientation matrix equal the IAU rotation model written in the orientation data file, the matrix is a proper rotation, and the answer is the same whatever was asked before. Radii and rotation rates returned are those in the file, and bodies the file does not describe are reported as unknown.',
  'all bodies, systems, times and query orders',
  'cosptest only runs to completion',
  ['cospar.cpp', 'cospar.txt'], [('calc_planet_orientation, planet_radii, planet_rotation_rate, load_cospar_file', 'cospar.cpp')],
  over=('inputs', 'histories'))

p('P25', 'Series-based planet, Moon and Pluto positions equal the sum of their terms',
  'For every date, positions evaluated from the compact planetary, lunar, Pluto and long-term series data equal the sums of the terms in those data, leaving out at most the terms the requested precision allows; planetary and lunar longitudes come in the range 0 to a full circle, the same position given in several coordinate systems is one position, velocities are the time derivatives of positions, and the answer does not depend on which bodies or files were asked for before. Dates outside a series, and missing or cut-short data files, are refused with the documented code, leaving nothing open and no memory lost.',
  'all bodies, dates, precisions, call orders and data files with the documented layout',
  'data files are not in the repository, so no test evaluates any series',
  ['vsopson.cpp', 'lunar2.cpp', 'pluto.cpp', 'big_vsop.cpp', 'elp82dat.cpp', 'de_plan.cpp', 'getplane.cpp'],
  [('calc_vsop_loc, lunar_fundamentals, lunar_lon_and_dist, lunar_lat, calc_pluto_loc, calc_big_vsop_loc', 'vsopson.cpp, lunar2.cpp, pluto.cpp, big_vsop.cpp'),
   ('compute_elp_xyz, load_ps1996_series, get_ps1996_position', 'elp82dat.cpp, de_plan.cpp'), ('compute_planet', 'getplane.cpp')],
  over=('inputs', 'histories'))

p('P26', 'Natural-satellite positions follow their published theories',
  'Positions of the Galilean satellites, Saturn\'s satellites, Triton, Uranus\'s satellites and the minor inner satellites returned for any date are those of the published theories, moving on near-Keplerian orbits of the right size and period with continuous motion, and a satellite\'s result does not depend on which satellites were computed with it. The Galilean Laplace resonance holds at all dates.',
  'all satellites and dates, all selection masks',
  'reference programs are compared at one or two dates; jsats and Triton not at all',
  ['jsats.cpp', 'ssats.cpp', 'triton.cpp', 'gust86.cpp', 'rocks.cpp', 'htc20b.cpp'],
  [('calc_jsat_loc, calc_ssat_loc, calc_triton_loc, gust86_posn', 'jsats.cpp, ssats.cpp, triton.cpp, gust86.cpp')])

p('P27', 'The Earth\'s position and the solar and lunar events found from it are right',
  'The Earth\'s heliocentric longitude, latitude and distance computed without data files agree at every supported date with the published series and an independent solar theory, and the motion obeys the orbital invariants. Every event the library or its programs report is one: at a reported lunar phase the elongation of the Moon is the named multiple of 90 degrees and the phase is the nearest one asked for; at a solstice, equinox or principal term the apparent solar longitude is the multiple it names; at a reported rise or set the body crosses the horizon altitude in the named direction; at a lunar (anti)transit it is on the meridian, at every latitude; planetary transits and elongations are those of the geometry, and none is left out. Missing data files are reported as documented.',
  'all dates over several thousand years, all places, all phases, seasons and planets',
  'a handful of phase dates are exercised, and none of the event finders',
  ['eart2000.cpp', 'solseqn.cpp', 'get_time.cpp', 'riseset3.cpp', 'lun_tran.cpp', 'phases.cpp', 'tables.cpp', 'transit.cpp'],
  [('get_earth_loc', 'eart2000.cpp'), ('find_nearest_lunar_phase_time', 'get_time.cpp'), ('get_solstice_equinox_date', 'solseqn.cpp'), ('look_for_rise_set', 'riseset3.cpp'), ('get_lunar_transit_time', 'lun_tran.cpp'), ('main', 'phases.cpp, tables.cpp, transit.cpp')])

p('P28', 'Minimisation and interpolation helpers find what they promise',
  'Bracketed minimisation of any continuous function converges inside its bracket to a local minimum, never evaluating outside it or getting worse, and root/maximum bracketing terminates. Interpolation reproduces its nodes exactly and polynomials of its order everywhere.',
  'all functions, brackets, node sets',
  'three fixed functions are tried',
  ['brentmin.cpp', 'brentmin.h', 'spline.cpp'], [('brent_min_*', 'brentmin.cpp'), ('spline functions', 'spline.cpp')],
  over=('inputs', 'histories'))

p('P29', 'Bounded string operations never overrun and always terminate the result',
  'Bounded copy, append and formatted-write operations never write beyond the destination size given, always leave a terminated string holding the longest prefix that fits, and return the length their contract states; the checked variants stop the program instead of silently truncating.',
  'all source/destination lengths and overlapping size boundaries',
  'not tested',
  ['snprintf.cpp', 'stringex.h', 'miscell.cpp'], [('strlcpy_err, strlcat_err, snprintf_append, snprintf_err', 'snprintf.cpp')])

p('P30', 'Parsers of outside text are memory-safe on arbitrary input',
  'Whatever text, valid or malformed, truncated or over-long, is handed to the library\'s parsers (times, designations, observation records, ADES, site lines, orbit records, angles), they terminate without reading or writing outside the buffers involved, without undefined behaviour, and without a result that depends on uninitialised memory. A parser may refuse by its documented error value or a deliberate diagnostic stop, never by corrupting memory.',
  'arbitrary NUL-terminated byte strings for every text-parsing entry point',
  'tests feed only well-formed text and run without instrumentation',
  ['get_time.cpp', 'unpack.cpp', 'mpc_fmt.cpp', 'mpc_fmt2.cpp', 'mpc_code.cpp', 'ades2mpc.cpp', 'sof.cpp', 'cgi_func.cpp', 'cospar.cpp', 'delta_t.cpp'],
  [('all text parsers', 'see files')], over=('inputs', 'histories'))

p('P31', 'Results never depend on the history of earlier calls',
  'Every query function returns bit-identical results for the same arguments whatever calls preceded it, in any order and with any repetition, except for the documented setters; internal caches and tables are only accelerations. Repeating a call never leaks or corrupts state.',
  'all sequences of calls to the library\'s query functions',
  'tests run each function in one fixed order',
  ['cospar.cpp', 'precess.cpp', 'nutation.cpp', 'delta_t.cpp', 'moid.cpp', 'sof.cpp', 'mpc_fmt.cpp', 'eart2000.cpp', 'jsats.cpp'],
  [('static caches', 'function-local statics throughout')], over=('histories',))

p('P32', 'CGI form data is decoded exactly and within its buffers',
  'Every field of a submitted form, URL-encoded or multipart, is delivered once, in order, with its exact name and value (plus signs, percent escapes in either case, empty values, embedded newlines and boundary-like text included), limited to the space the caller provided and terminated (a multipart value loses line ends at its very end, names longer than 29 bytes are cut). Malformed or truncated submissions end with an error or end-of-data, never with memory corruption or an endless loop. A CGI run that exceeds its CPU allotment is stopped with a message.',
  'all form submissions',
  'not tested',
  ['cgi_func.cpp', 'cgi_func.h'], [('get_urlencoded_form_data, get_multipart_form_data, get_cgi_data, initialize_cgi_reading', 'cgi_func.cpp')],
  over=('inputs', 'histories'))

p('P33', 'Every command-line program runs safely',
  'Each command-line or CGI program built from this repository, run with any arguments, form data and data files, ends by itself without memory errors, undefined behaviour or a fatal signal. Missing or damaged data files and bad arguments lead to a message or an assertion, not to a crash or an endless run.',
  'all argument vectors, form submissions and data files of the programs',
  'tests run a dozen programs with one argument list each, without instrumentation',
  ['jd.cpp', 'calendar.cpp', 'easter.cpp', 'marstime.cpp', 'csv2ades.c', 'adestest.cpp', 'mpc2sof.cpp', 'dist.cpp', 'parallax.cpp', 'astcheck.cpp', 'cgicheck.cpp', 'mpc_time.c', 'mpc_code.cpp', 'colors.cpp', 'colors2.cpp', 'cosptest.cpp', 'jevent.cpp', 'transit.cpp', 'phases.cpp', 'tables.cpp', 'moidtest.cpp', 'themis.cpp', 'them_cat.c', 'mms.cpp', 'jpl2b32.cpp', 'solseqn.cpp', 'persian.cpp', 'ps_1996.cpp', 'spline.cpp', 'relativi.cpp'],
  [('main programs', 'see files')], over=('inputs', 'configurations'))

p('P34', 'Asteroid checks and ephemerides list the right objects, at the right places',
  'For observations in the MPC format, astcheck lists exactly the catalogued objects that lie within the search radius at the time of the first observation of each designation, are bright enough and (given two or more observations from one station) move as observed, nearest first and at most as many as asked for, each with its offsets, distance, magnitude and motion as seen from the observing station with light-time; so does its list mode for a given place. This holds across 0h of right ascension and at high declinations, for repeated observations, when the catalogue has changed since the day files were written, and when many instances run at once. astephem prints, for the object and dates asked for, the geocentric place, distances, magnitude and elongation of the catalogued orbit, and says so when the object is not in the file.',
  'all catalogues, observation files, dates, search limits, and interleavings of instances sharing a directory',
  'astcheck and astephem are not run by the tests',
  ['astcheck.cpp', 'astephem.cpp', 'mpcorb.cpp', 'sof.cpp', 'astfuncs.cpp'],
  [('main, compute_motion, get_cached_day_data, compute_asteroid_loc, is_between', 'astcheck.cpp'), ('main, find_astorb_rec', 'astephem.cpp')],
  over=('inputs', 'histories', 'schedules'))

p('P35', 'The date programs print what the calendars and time scales say',
  'For any date and time given to it, in any style it accepts, jd prints that instant: its Julian day, weekday, date in every calendar it lists, and the same instant in UTC, TDT, TDB and the other scales, each consistent with the others. calendar lays out each month of the year asked for with every day once, in its own weekday column, beneath the right heading, with the small months beside it and the holidays and events of the dates files, and the phases of the Moon, on their own days, their names in full. utc_test and gtest print the leap seconds and sidereal times that the tables and formulae give; mpc_time prints the submission time held in an observation identifier and warns of the impossible ones.',
  'all dates, times, years and options the programs accept',
  'tests run jd and utc_test on one or two dates; calendar, gtest and mpc_time are not run',
  ['jd.cpp', 'calendar.cpp', 'utc_test.cpp', 'gtest.c', 'mpc_time.c', 'date.cpp', 'delta_t.cpp', 'miscell.cpp'],
  [('main, print_calendars', 'jd.cpp'), ('main, month drawing', 'calendar.cpp'), ('main', 'utc_test.cpp'), ('main', 'gtest.c')], observe=['program output'])

p('P36', 'Converters put out each record they read, in order, with the same values',
  'The programs that rewrite data lose, repeat, reorder and alter nothing: adestest turns each ADES observation (XML or PSV) into its 80-column record or, with -m, the classical form with the same time, position, magnitude and station, leaving observer-position lines alone; csv2ades turns each row of the Gaia catalogue into an ADES observation with the same values and correlation; them_cat, themis and mms keep each element set or state vector, with headers that describe what follows; jpl2b32 keeps each position to half a unit of its declared scale; xxx2rov replaces each roving observer\'s code and adds a line with the coordinates last given, and copies everything else.',
  'all well-formed input files of each converter',
  'the tests run adestest on one file and none of the other converters',
  ['adestest.cpp', 'ades2mpc.cpp', 'csv2ades.c', 'them_cat.c', 'themis.cpp', 'mms.cpp', 'jpl2b32.cpp', 'xxx2rov.c', 'mpc_fmt.cpp', 'mpc_fmt2.cpp'],
  [('main', 'adestest.cpp'), ('main, get_csv', 'csv2ades.c'), ('main', 'themis.cpp, mms.cpp, them_cat.c'), ('main', 'jpl2b32.cpp'), ('main', 'xxx2rov.c')], observe=['program output'])

p('P37', 'Programs that deal in places print the place they were given, in every form',
  'Whatever way a place is given to parallax or its CGI form (longitude, latitude and altitude in degrees or base 60; geocentric x, y, z or parallax constants, in metres or Earth radii; an observatory code from ObsCodes.htm or rovers.txt), each line printed (longitude, latitude, altitude, parallax constants, metres, x y z, region, map links, the rover-file line) states that one place, in the decimal and base-60 forms alike; for two codes the distance and the bearing are those from the first to the second. dist prints the geodesic distance, azimuths and end point. mpc_code lists each site of a file once, in order, with its numbers to their given precision, its region and its whole name, as text, HTML or KML (with & escaped and each link or placemark at the site).',
  'all places, site lists, region tables, options and form submissions',
  'none of these programs is run by the tests beyond one parallax call at most',
  ['parallax.cpp', 'dist.cpp', 'mpc_code.cpp', 'mpc_func.h', 'cgi_func.cpp', 'dist_pa.cpp'],
  [('main, show_location, show_angle, get_mpc_obscode_data, get_angle', 'parallax.cpp'), ('main', 'dist.cpp'), ('main, extract_region_data_for_lat_lon, fopen_ext', 'mpc_code.cpp')], observe=['program output'])

p('P38', 'add_off gives spacecraft observations their own places and alters nothing else',
  'Run on a file of 80-column or ADES XML astrometry, add_off asks the ephemeris service only for the spacecraft and the (dynamical) times of the observations made from spacecraft, in requests no longer than the service takes, however many observations there are. Each such observation for which the service gives a position comes out with that craft\'s position at that observation\'s time (to the program\'s 1e-5 day) and its velocity: as an s record with the same designation, time, reference and station, the right unit flag and all the digits its columns hold, or as ADES sys, ctr, pos and vel elements; offsets that were there before are replaced, and with -d compared. An observation whose position is not to be had (an unknown craft, a time outside the ephemeris, a failed request) gets no made-up offset, and no observation from the ground gets one. Every other line is passed through as it stands, in order, and the closing tally counts the positions set and failed.',
  'all observation files, spacecraft, ephemerides, service failures and options',
  'add_off is never run by a test (it needs the network)',
  ['add_off.c', 'jpl_xref.h', 'mpc_fmt.cpp', 'get_time.cpp', 'delta_t.cpp'],
  [('get_sat_obs_jd, set_mpc_style_offsets, set_offsets, process_file, ades_posvel', 'add_off.c'), ('jpl_xrefs', 'jpl_xref.h')], over=('inputs', 'faults', 'histories'), observe=['program output', 'requests sent to the ephemeris service'])

p('P39', 'jevent lists exactly the Galilean satellite events visible from the Earth',
  'For any starting date (either calendar), span and choice of moons, jevent lists in order of time, within that span, each start and end of a transit, shadow transit, occultation and eclipse of the chosen moons that an observer on the Earth could see, at its Universal Time to within a few minutes, and none that happen while the moon is behind the planet or in its shadow, nor any that do not happen. The file written with -f holds the same list as the screen, -q silences the screen only, and the records appended with -r (minutes from 2000, event, moon) are the same events.',
  'all dates, spans, moons and options',
  'jevent is never run by a test',
  ['jevent.cpp', 'jsats.cpp', 'vsopson.cpp', 'delta_t.cpp'],
  [('find_events, _mark_hidden_events, _sort_events, show_event, main', 'jevent.cpp')], observe=['program output'])

p('P40', 'Colour indices convert between photometric systems by the published relations',
  'B-V, V-I and V-R convert into one another by the Caldwell et al. polynomials within their ranges; each inverse conversion returns the colour whose forward conversion gives its argument, over the whole range of the forward relation including its two ends, and a colour outside the range gives the out-of-range value, never a number that looks like a colour. Tycho B and V convert to Johnson by the original linear relation and by interpolation in the Bessell (2000) table, the two quantities V and B-V both corrected for every colour within the table, ends included, and colours outside it (or not a number) are refused. The programs colors and colors2 print these values.',
  'all colour indices, the ends of the relations and values outside them',
  'colours are never tested',
  ['colors.cpp', 'colors2.cpp', 'colors.h'],
  [('vi_to_bv, bv_to_vi, vi_to_vr, vr_to_vi, bv_to_vr, vr_to_bv, solve_cubic_or_similar, tycho_to_johnson_colors', 'colors.cpp'), ('main', 'colors2.cpp')], observe=['return values', 'program output'])

p('P41', 'Demonstration and test programs print what the models they demonstrate say',
  'The small programs built beside the library print, for any arguments and data files, what the models say: jpl_url writes a request whose every parameter, decoded, is the one given; landgraf finds the true anomaly and distance that satisfy the motion for near-parabolic orbits; persian gives the equinoxes and year lengths; uranus1, htc20b, ssattest and jsattest the places of satellites; lun_test the Moon\'s rising, setting and transit for the ZIP code looked up; get_test the dates its lines hold; test_des exactly the lines whose designations do not survive packing; testprec, prectes2 and prectest the precession matrices of the two models with and without Earth orientation parameters, and the span those cover; oblitest the obliquity by each formula; test_ref each refraction and its inverse; cosptest every distinct orientation in cospar.txt; moidtest the MOID of the chosen object and planet, or of each pair of objects; chinese packs a log of new moons and terms into the table chinese calendar functions read back; desigcgi packs and unpacks the designations of a form; ll_test reads latitudes, longitudes and altitudes (below sea level too) and reports exactly the lines of its file that disagree; mpcorb2 finds any record of a three-part MPCORB file; disttest two measures of distance that agree; utc_algo the half year of a day; adestags a sorted table with its numbers; and the clock functions the present time.',
  'all arguments and input files of these programs',
  'the tests run a few of these programs once, with fixed arguments, or not at all',
  ['jpl_url.c', 'landgraf.cpp', 'superga2.cpp', 'persian.cpp', 'uranus1.cpp', 'htc20b.cpp', 'ssattest.cpp', 'jsattest.cpp', 'lun_test.cpp', 'get_test.cpp', 'test_des.cpp', 'testprec.cpp', 'prectes2.cpp', 'prectest.cpp', 'oblitest.cpp', 'obliqui2.cpp', 'test_ref.cpp', 'cosptest.cpp', 'moidtest.cpp', 'chinese.cpp', 'eop_prec.cpp', 'desigcgi.c', 'll_test.c', 'mpcorb2.cpp', 'disttest.cpp', 'utc_algo.cpp', 'adestags.c', 'nanosecs.cpp'],
  [('main', 'jpl_url.c'), ('landgraf', 'landgraf.cpp'), ('main', 'prectest.cpp'), ('main, run_intraobject_check', 'moidtest.cpp'), ('main', 'chinese.cpp')], observe=['program output'])

p('P42', 'integrat carries orbits to another epoch under Sun, planets and asteroids',
  'For any SOF file of orbital elements and any epoch, forward or backward, integrat writes each orbit once and in the order read, with the elements, at the new epoch, of the trajectory that starts from the given ones and obeys the attraction of the Sun (with its relativistic part), of the planets present for that date and of the massive asteroids listed in the same file, to the precision the step tolerance allows; every other column (designation, H, G, arc, name), the header, and lines of unperturbed orbits unless -p is given, are unchanged. -n bounds the number of orbits, -s and -t the step and its tolerance; the number of processes (-z) changes nothing in the file that results.',
  'all element files, epochs and options',
  'integrat needs an ephemeris file and is never run by a test',
  ['integrat.cpp', 'classel.cpp', 'astfuncs.cpp', 'sof.cpp', 'mpc_func.cpp'],
  [('integrate_orbit, main, compute_derivatives, reset_of_planet_posns, try_to_integrate', 'integrat.cpp')], over=('inputs', 'histories'), observe=['program output'])

p('P43', 'conjunct lists every closest approach of two bodies in a planet\'s sky',
  'For any span, step, choice of bodies and home planet, conjunct lists once each closest approach, within the span, of two of the chosen bodies in the sky of the home planet (the Moon against the Earth excepted), with its time and least separation, allowing for light time; it marks with T the inner body in transit across the Sun and with M a planet or the Moon hiding another body when some place on the home planet can see it so, with ? when only the flattening of the bodies decides. With o, only transits and occultations are listed. Each line goes to the log with its Julian date and bodies. An ephemeris that cannot be opened is reported.',
  'all spans, steps, subsets and home planets',
  'conjunct needs an ephemeris file and is never run by a test',
  ['conjunct.cpp'],
  [('search_conjunctions, find_posns, rough_dist2, main', 'conjunct.cpp')], observe=['program output'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
