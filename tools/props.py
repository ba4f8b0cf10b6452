"""Source of properties.jsonl and MANIFEST.json: run after editing (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), hook=None):
    P.append((dict(id=pid, title=title, statement=" ".join(statement.split()),
                   quantifier=dict(over=over.split(), text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                   anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                observe_at=list(observe), hook_needed=hook)), technique, " ".join(note.split())))


p("C01", "Calendar: pentads, seasons, month steps and date checks follow the calendar",
  """Every calendar day belongs to exactly one of 73 pentads of five days (29 February shares 1 March's), pentad and day convert
  back and forth, and leap years, month lengths, yesterday, last and next month and day numbers agree with the Gregorian calendar.
  A range of months yields each month from first to last exactly once, in order, and nothing when the last precedes the first.
  Seasons cover the twelve months and nothing else.""",
  "inputs", "every day of every year 1800-2150, every pair of months, every month and day number in and out of range",
  "The tests try a few dozen dates; off-by-ones at leap days, year ends and the pentad of 29 February need the whole calendar.",
  "qc.py Extended_IMMA.py", [("pentad conversion", "qc.py:which_pentad, pentad_to_month_day"), ("month stepping", "qc.py:year_month_gen, last_month_was, next_month_is, yesterday"),
   ("day numbers", "qc.py:day_in_year, dayinyear, get_month_lengths")],
  "property-based testing with exhaustive enumeration of the calendar and random dates, against datetime as reference model",
  "Every date and month of 1800-2150 is enumerated, so within that window the check is complete; arguments out of range are sampled.",
  observe=["return values"])

p("C02", "Differences between two times are exact, signed and additive",
  """The difference in hours between two date-times equals the true elapsed time, changes sign when they swap, adds up over a
  chain of times and does not depend on which calendar units they share. The Julian day used for it counts days one by one across
  every month, year and leap-day boundary. A missing hour or date gives a missing difference, never a number.""",
  "inputs", "all pairs and triples of date-times from year 1 on, with missing parts",
  "The tests compare a handful of pairs; boundaries of months, years and leap days multiply beyond what they list.",
  "qc.py Extended_IMMA.py", [("time difference", "qc.py:time_difference, jul_day")],
  "property-based testing against exact datetime arithmetic; antisymmetry and additivity as metamorphic relations",
  "Random pairs with clustered boundaries; relies on Python's datetime.", observe=["return values", "Voyage time_diff"])

p("C03", "Every position falls in exactly one grid cell, the right one",
  """At every resolution a latitude and longitude map to the row and column of the cell that contains them, with a fixed rule on
  borders, poles and the date line, and longitudes told 0-360 and -180-180 agree. The cell's centre maps back to the same cell.
  The two conventions in use (north-west and 'MDS') each follow their own rule everywhere.""",
  "inputs", "all positions on the globe, told either way, at each supported resolution",
  "Tests sample interior points and some corners; the failures sit on borders, poles, the date line and unusual resolutions.",
  "qc.py", [("cell of a point", "qc.py:lat_to_yindex, lon_to_xindex, mds_lat_to_yindex, mds_lon_to_xindex"), ("centre of a cell", "qc.py:yindex_to_lat and relatives")],
  "property-based testing with exact rational arithmetic as oracle, plus round trips through cell centres",
  "Positions on exact binary fractions make every border decision exact.", observe=["return values"])

p("C04", "A climatology gives its stored value for cell and date whatever the file layout",
  """Reading a climatology at a place and date gives the value its file stores for the cell containing the place and the day,
  pentad or month containing the date, and nothing where the file stores none. The answer does not depend on the order of the
  file's axes, whether it runs north to south, starts at the date line or Greenwich, or has an extra level axis.
  A field not found in the library is replaced by one that gives no value anywhere.""",
  "inputs configurations", "every layout the reader accepts (3-D, 4-D, 1, 73, 365, 12 time steps, resolutions 5, 1, 0.25, 0.05) and every place and date",
  "The tests build two or three small fields in one layout; a swapped axis or a shifted column is invisible there.",
  "Climatology.py qc.py Extended_IMMA.py", [("file reading and axis order", "Climatology.py:Climatology.from_filename"), ("lookup", "Climatology.py:get_value, get_value_mds_style, get_value_ostia, get_tindex")],
  "property-based testing: NetCDF files generated in every layout with values that encode their own cell, read back through the real reader",
  "Fields store hashes or their own index, so a value from a wrong cell is noticed; layouts outside those documented are not tried.",
  observe=["return values", "NetCDF files written to a scratch directory"])

p("C05", "Interpolated climatology is a weighted mean of the cells around the point",
  """A value interpolated between cells lies between the smallest and largest of the surrounding stored values, equals the stored
  value at a cell's centre, is exact for fields linear in latitude and longitude and continuous across the date line.
  Missing cells are filled from the rest and the value is missing only where no surrounding cell has one.""",
  "inputs", "all points including poles and the date line, and every pattern of missing cells",
  "The tests use one uniform field and a few points; weights, missing-cell patterns and polar rows are not covered.",
  "Climatology.py qc.py", [("interpolation", "Climatology.py:get_interpolated_value; qc.py:get_clim_interpolated, bilinear_interp, fill_missing_vals, get_four_surrounding_points")],
  "property-based testing against exact rational weights, with hashed fields and random missing cells",
  "Random fields and points with clusters on borders, poles and the date line.", observe=["return values"])

p("C06", "Distances, courses and great-circle points obey spherical geometry",
  """Distance is symmetric, zero only for equal points, never beyond half the circumference, obeys the triangle inequality and does
  not change when longitude is told another way. Going a distance along a course arrives at a point at that distance in that
  direction, and intermediate points lie on the shorter great circle at the stated fraction.""",
  "inputs", "all pairs and triples of points, including poles, antipodes, equal points and the date line",
  "The tests try some dozen pairs; conditioning near antipodes and identical points, and the date line, need generated ones.",
  "spherical_geometry.py qc.py", [("great-circle formulae", "spherical_geometry.py:sphere_distance, course_between_points, lat_lon_from_course_and_distance, intermediate_point")],
  "property-based testing against 3-D vector geometry, plus metric-space laws",
  "Double precision; nearly antipodal points are judged with a wider tolerance.", observe=["return values"])

p("C07", "Day or night follows the sun's true position",
  """The sun's elevation, azimuth, declination and hour angle agree with astronomy for any date and place, so the day flag is 1
  exactly when the sun stood above the horizon one hour before the report. Crossing midnight, a year end or a leap day, or telling
  longitude another way, changes nothing.""",
  "inputs", "all dates 1850-2100, hours and positions",
  "The tests compare a dozen published values; other years, hemispheres and midnight crossings are untested.",
  "qc.py", [("solar position", "qc.py:sunangle"), ("day test", "qc.py:day_test")],
  "differential property-based testing against an independent solar ephemeris",
  "Cases within the ephemeris' tolerance of the horizon are not judged.", observe=["return values", "POS day flag"])

p("C08", "Threshold checks flag exactly the values outside their limits",
  """A value fails a hard limit, climatology, climatology-plus-spread, freezing-point, position, date, time or no-value check exactly
  when the documented comparison says so, borders included. A missing value, normal or spread gives the documented outcome, the
  sign of the anomaly does not matter and a wider limit never fails more values.""",
  "inputs configurations", "all values, normals, spreads and limits, including exact borders and missing ones",
  "The tests sit well inside or outside; the exact border, missing inputs and unusual parameters are where checks differ.",
  "qc.py", [("comparisons", "qc.py:climatology_check, climatology_plus_stdev_check, sst_freeze_check, hard_limit, position_check, date_check, time_check, value_check")],
  "property-based testing on exact binary fractions with a reference predicate; monotonicity and mirror relations",
  "All comparisons are exact by construction.", observe=["return values"])

p("C09", "Blacklists and generic identifiers apply exactly where and when they say",
  """A report is blacklisted exactly when its platform, deck, identifier, date and place meet one of the published exclusions, for
  SST, marine air temperature, humidity and wind alike. Telling longitude another way does not change the outcome, and an identifier
  shared by many ships is recognised whatever its padding and only if it is one of those listed.""",
  "inputs", "every region border, year, month, deck, platform and identifier",
  "The tests place one report per region; borders, neighbouring months and 0-360 longitudes are untested.",
  "qc.py Extended_IMMA.py", [("blacklist rules", "qc.py:blacklist; Extended_IMMA.py:mat_blacklist, humidity_blacklist, wind_blacklist"), ("generic identifiers", "qc.py:id_is_generic")],
  "property-based testing with boundary-biased generators against a table of the exclusions",
  "The table was transcribed from the documentation and comments of the exclusions.", observe=["return values", "blacklist flags"])

p("C10", "Probability of gross error is a posterior between 0 and 1",
  """The buddy check's probability of gross error is the Bayes posterior of a uniform gross error against a Gaussian good value
  quantised to the stated interval and limits. It lies in [0, 1], grows with distance from the mean and with the prior, and does not
  change when values and mean are mirrored or shifted together with the limits.""",
  "inputs", "all values, means, spreads, priors, intervals and limits",
  "The tests check a few values at fixed parameters; the whole distribution including its truncated ends is needed.",
  "qc.py", [("posterior", "qc.py:p_gross, p_data_given_good, p_data_given_gross")],
  "property-based testing against numerical quadrature, plus monotonicity and symmetry",
  "Quadrature to 1e-9.", observe=["return values"])

p("C11", "Humidity variables are consistent with each other and with published formulae",
  """Vapour pressure, specific humidity, relative humidity, wet-bulb temperature and dew-point depression follow the published formulae
  over water and ice. They invert each other, grow with dew point, reach saturation exactly when dew point equals temperature and keep
  wet bulb between dew point and temperature, and a report lacking an input gets none.""",
  "inputs", "all temperatures, dew points and pressures met at sea, around freezing, saturated, with missing inputs",
  "The tests compare single tabulated values; consistency over the whole range, and the ice branch, are untested.",
  "CalcHums.py Extended_IMMA.py", [("formulae", "CalcHums.py:vap, sh, rh, wb, dpd, td_from_vap"), ("per report", "Extended_IMMA.py:MarineReport.calculate_humidity_variables")],
  "property-based testing against the published formulae and round trips",
  "Formulae re-implemented from the references named in the code.", observe=["return values", "report variables"])

p("C12", "A report keeps what was stored in it, and derived values follow",
  """Whatever sequence of stores, flags, normals, extra values and recalculations a report goes through, reading a variable, flag or
  extra value gives the last one stored, an unset flag reads as not checked, and nothing leaks between reports or variables.
  The report's time always follows its date and hour and its anomalies its values and normals.""",
  "histories inputs", "all sequences of operations on a report made from any subset of fields",
  "The tests make one call each; stale derived values only show after particular sequences.",
  "Extended_IMMA.py", [("report store", "Extended_IMMA.py:MarineReport.setvar, getvar, setext, getext, set_qc, get_qc"), ("derived time", "Extended_IMMA.py:MarineReport.calculate_dt")],
  "stateful model-based testing against a dictionary", "Random operation sequences, compared with the model after every step.",
  state=[("data, ext, qc", "values, extras and flags of one report", "Extended_IMMA.py:MarineReport, MarineReportQC")], observe=["getvar, getext, get_qc"])

p("C13", "Reports sort by identifier and time, and subtract to speed, distance and course",
  """Sorting orders reports by identifier and then time, as one consistent total order, ties included. Subtracting two reports gives
  the great-circle distance, the time elapsed, and the speed and course that follow, or nothing where time is missing, with no error
  for reports at the same time or place.""",
  "inputs", "all lists of reports, ties, missing times, poles and the date line",
  "The tests sort two or three reports; consistency of an order is a statement about all triples.",
  "Extended_IMMA.py spherical_geometry.py", [("comparison", "Extended_IMMA.py:MarineReport.__gt__, __ge__, __le__, __eq__"), ("difference", "Extended_IMMA.py:MarineReport.__sub__")],
  "property-based testing of order laws and of differences against vector geometry", "Missing times are left out of the order law.", observe=["comparison results", "sorted lists"])

p("C14", "Base QC gives each report the flags its own values call for",
  """After base QC every documented flag is present and equals what the report's own values, position, date, platform and identifier
  and the configured limits call for. It depends on nothing else: not on earlier reports, on running it twice or on unrelated fields.
  Any missing field gives the documented flag and never an error.""",
  "inputs configurations", "all reports with any subset of fields, at and around every limit, all platforms, decks and years, any limits",
  "The tests run a few complete reports; combinations of missing fields and platform rules are many.",
  "Extended_IMMA.py qc.py", [("base QC", "Extended_IMMA.py:MarineReportQC.perform_base_qc and perform_base_*_qc")],
  "property-based testing against an independent table of expected flags", "Flags within 0.06 degrees of the horizon and calm winds without speed are not judged.",
  observe=["get_qc"])

p("C15", "A voyage's speeds, distances, courses and midpoint errors match its reports",
  """For a voyage in any order the speed, distance, time and course kept with each report are those from the report before it, and the
  distances to estimated positions are those of dead reckoning along reported speed and course or of interpolation between the
  neighbours. Adding reports and sorting keep them right; the first report never keeps any. Missing speeds, courses or times give
  missing estimates.""",
  "histories inputs", "all sequences of reports, orders of adding and sorting, repeated times and places",
  "The tests use short straight voyages in order; stale values after sorting and gaps need generated histories.",
  "Extended_IMMA.py track_check.py spherical_geometry.py", [("kinematics", "Extended_IMMA.py:Voyage.add_report, sort, calc_alternate_speeds, distr1, distr2, midpt"), ("dead reckoning", "track_check.py:increment_position, direction_continuity, speed_continuity, check_distance_from_estimate")],
  "property-based testing against vector geometry, with random insertion orders", "Tolerances of 1e-3 km against double precision.",
  state=[("speed, distance, course, time_diff", "leg from the report before", "Extended_IMMA.py:Voyage")], observe=["getvar", "returned lists"])

p("C16", "The track check flags exactly the reports its published conditions condemn",
  """A report fails the track check exactly when its ship's speeds exceed the limits set by the ship's usual speed and a midpoint,
  direction, speed or position condition also fails, as documented. Buoys, generic identifiers and voyages too short are never
  failed, and where the track lies on the globe does not matter.""",
  "inputs histories", "all voyages with displaced, mistimed or repeated reports, wrong or missing speed and course, any platform",
  "The tests hold a few fixed tracks; conjunctions of conditions and voyage ends are not reached.",
  "Extended_IMMA.py track_check.py", [("track check", "Extended_IMMA.py:Voyage.track_check"), ("conditions", "track_check.py:set_speed_limits, modesp, direction_continuity, speed_continuity, check_distance_from_estimate")],
  "simulation-based property testing: perturbed tracks judged by an independent statement of the conditions; turning the globe as metamorphic relation",
  "Comparisons closer than one part in a million are not judged.", observe=["POS trk and few flags"])

p("C17", "The IQUAM check flags the worst reports until all speeds are possible",
  """After the speed check no two unflagged reports imply a speed above the platform's limit once position and time tolerances are
  allowed for, a voyage without such pairs has no flag, and reports are flagged worst first. The published number of neighbours
  is looked at.""",
  "inputs histories", "all voyages of ships and buoys with displaced and mistimed reports",
  "The tests fix a few tracks; ties and chains of bad reports are not reached.",
  "Extended_IMMA.py track_check.py", [("IQUAM track", "Extended_IMMA.py:Voyage.iquam_track_check")],
  "simulation-based property testing against a reference greedy elimination", "Voyages with speeds within one part in a million of the limit are not judged.",
  observe=["POS iquam_track flags"])

p("C18", "The spike check flags values that jump away from their neighbours",
  """A value is flagged as a spike exactly when its differences from enough of its neighbours in the voyage exceed the gradient limits
  in time and space, fewest and worst first. Smooth voyages have no spike, adding a constant to every value changes nothing, and
  missing values are never flagged.""",
  "inputs histories", "all voyages and sequences of values, with gaps",
  "The tests use one or two spikes in the middle of a track; ends, plateaux and gaps are not tried.",
  "Extended_IMMA.py", [("spike check", "Extended_IMMA.py:Voyage.spike_check")],
  "property-based testing against a reference elimination, plus shift invariance", "Differences within one part in a million of a limit are not judged.",
  observe=["SST spike flags"])

p("C19", "Repeated, rounded and saturated values are flagged exactly beyond their limits",
  """All reports sharing a value are flagged when it makes up more than the configured share of the voyage's values, rounded values are
  flagged when their share exceeds its limit, and saturated air is flagged over runs as long and numerous as configured. Voyages
  with fewer values than the minimum get no flags, and missing values are neither counted nor flagged.""",
  "inputs configurations histories", "all sequences of values and limits, with gaps",
  "The tests use one share above and one below; exact thresholds, gaps and several repeated values are not tried.",
  "Extended_IMMA.py", [("repeats", "Extended_IMMA.py:Voyage.find_repeated_values"), ("rounding", "Extended_IMMA.py:Voyage.find_multiple_rounded_values"), ("saturation", "Extended_IMMA.py:Voyage.find_saturated_runs")],
  "property-based testing against counting with exact shares", "Shares are compared exactly as rationals.", observe=["rep, round, repsat flags"])

p("C20", "The MDS buddy check compares each report with its true neighbours",
  """A report fails exactly when its anomaly differs from the mean of its neighbours' by at least the limit for the nearest
  neighbourhood that has any, the limit growing with spread and shrinking with the number of neighbours. Neighbours are those around
  it on the globe and through the turn of the year, across the date line and near but not over the poles, each counted once.
  The order of reports and where the globe's longitudes start do not matter and reports not taking part are neither used nor flagged.""",
  "inputs configurations", "all sets of reports, anywhere on the globe and in the year, any limits and spread field",
  "The tests put a few cells mid-ocean; poles, date line, year end, missing spread and exact limits are untested.",
  "Extended_IMMA.py", [("super-observation grid", "Extended_IMMA.py:Np_Super_Ob"), ("check", "Extended_IMMA.py:Deck.mds_buddy_check")],
  "property-based testing of whole decks against a cell-by-cell reference; shuffling and turning the globe",
  "Differences within 1e-9 of a limit that is not exact in binary are not judged.", observe=["bud flags", "grid values"])

p("C21", "The Bayesian buddy check gives the decile of the posterior of gross error",
  """Each report taking part gets a flag 0-9, the decile of the posterior probability of gross error given the mean of its neighbours
  and a spread made of measurement, within-cell and sampling error as configured. Reports alone are compared with climatology and
  those not taking part get 0. The order of reports and the start of longitudes do not matter.""",
  "inputs configurations", "all sets of reports, spread fields and parameters",
  "The tests check one or two arrangements; how the error terms combine over several neighbours is not covered.",
  "Extended_IMMA.py qc.py", [("check", "Extended_IMMA.py:Deck.bayesian_buddy_check"), ("spread", "Extended_IMMA.py:Np_Super_Ob.get_new_buddy_limits"), ("posterior", "qc.py:p_gross")],
  "property-based testing against an independent posterior", "Probabilities within 1e-6 of a decile may round either way.", observe=["bbud flags"])

p("C22", "A deck hands out each ship's passing reports once, and filters partition it",
  """Taking ships from a deck one at a time yields every report that passes the filter exactly once, grouped by identifier in their
  order in the deck, after any sequence of appending, removing, sorting, filtering and flagging. A filter passes exactly the reports
  whose flags all match, and splitting by it partitions a deck.""",
  "histories", "all sequences of operations on decks",
  "The tests build one deck once; stale indexes only show after later operations.",
  "Extended_IMMA.py", [("ships", "Extended_IMMA.py:Deck.get_one_platform_at_a_time"), ("filters", "Extended_IMMA.py:QC_filter")],
  "stateful model-based testing against a list", "Random sequences of up to 40 operations.",
  state=[("reports and index", "reports of the deck and the index of ships", "Extended_IMMA.py:Deck")], observe=["ships and reports handed out"])

p("C23", "A drifter is flagged aground from where it stops moving to its record's end",
  """A drifter that has moved no further than the position tolerance over a window up to the end of its record is flagged from the
  point it stopped to the end; one still moving at the end has no flag, whatever happened before. Records too short or too sparse are
  not judged, every report gets a flag and bad inputs are refused.""",
  "inputs histories configurations", "all tracks, samplings, windows, and places on the globe",
  "The tests hold some thirty hand-made tracks of a few points at fixed windows.",
  "trackqc.py Extended_IMMA.py", [("aground", "trackqc.py:aground_check, new_aground_check"), ("per voyage", "Extended_IMMA.py:Voyage.buoy_aground_check, new_buoy_aground_check")],
  "simulation-based property testing: drifting and stopping tracks judged by an independent reading of the definition",
  "Distances within one part in a million of the tolerance are not judged.", observe=["POS drf_agr flags"])

p("C24", "A drifter picked up by a ship is flagged exactly where it moves too fast",
  """Reports are flagged exactly when they lie within a stretch of record, of the configured length, over which the drifter moved faster
  than the speed limit; the newer check first sets aside positions that are themselves impossible and leaves earlier flags alone.
  Slow drifters have no flags and sparse or short records are not judged.""",
  "inputs histories configurations", "all tracks, samplings, limits and windows",
  "The tests hold some hand-made tracks; irregular sampling and stretches at either end are not covered.",
  "trackqc.py Extended_IMMA.py", [("speed", "trackqc.py:speed_check, new_speed_check"), ("per voyage", "Extended_IMMA.py:Voyage.buoy_speed_check, new_buoy_speed_check")],
  "simulation-based property testing against an independent reading of the definition", "Speeds within one part in a million of the limit are not judged.",
  observe=["POS drf_spd flags"])

p("C25", "Drifter SST is flagged exactly where a record's ends disagree with background",
  """Runs of bad sea-surface temperature at the start and end of a drifter's record are flagged, by long windows on bias or noise and short
  windows on gross differences, exactly as far as consecutive windows fail; the middle is never flagged and a record bad throughout is
  not. Only night-time, ice-free reports with good background count, but all reports in a bad tail are flagged.""",
  "inputs histories configurations", "all records with any pattern of bad values, missing background, ice and daylight, any windows",
  "The tests hold some hand-made records of nine values.",
  "trackqc.py Extended_IMMA.py", [("tails", "trackqc.py:sst_tail_check"), ("day or night", "trackqc.py:track_day_test")],
  "simulation-based property testing against an independent reading of the definition; time reversal as metamorphic relation",
  "Statistics within one part in a million of a limit are not judged.", observe=["SST drf_tail1, drf_tail2 flags"])

p("C26", "Drifter bias and noise flags follow from its differences from background",
  """A long record is flagged as biased when its mean difference from background exceeds the limit and as noisy when its scatter
  exceeds what background and drifter errors allow; a short record is flagged when it has enough gross differences. Unusable
  matches (daytime, ice, missing or poor background) never count, and the whole record shares one flag.""",
  "inputs histories configurations", "all records, limits, missing and poor backgrounds",
  "The tests hold some hand-made records of nine values.",
  "trackqc.py Extended_IMMA.py", [("bias and noise", "trackqc.py:sst_biased_noisy_check")],
  "property-based testing against exact statistics", "Statistics within one part in a million of a limit are not judged.", observe=["SST drf_bias, drf_noise, drf_short flags"])

p("C27", "Output files hold every report of the month once, aligned, with what was stored",
  """For each month written, every file has the same reports in the same order, one row per report of that year and month and none of
  any other, with as many fields as its header. Parsed back, each field gives the stored value, anomaly or flag, with missing and
  unchecked marked as documented, and file names tell month, identifier and run.""",
  "inputs histories", "all decks and voyages of reports with any values missing, identifiers with any characters",
  "The tests check single formatted lines; alignment of several files and the round trip of missing values are untested.",
  "Extended_IMMA.py", [("rows", "Extended_IMMA.py:MarineReport.print_variable_block, MarineReportQC.print_qc_block, print_report"), ("files", "Extended_IMMA.py:Deck.write_output, write_qc, Voyage.write_output, write_qc, write_tracking_output")],
  "round-trip property testing: generated decks written, parsed back with the csv module and compared with the stored reports",
  "Characters that would need quoting inside an identifier (comma, quote, newline) are recorded separately in DESIGN.md.", observe=["output files in a scratch directory"])

p("C28", "Reading an ICOADS record recovers every field, and writing it back is faithful",
  """Decoding an IMMA record gives each field of the core and every attachment the number or text its characters stand for, blank meaning
  missing, whatever the subset and order of attachments. Encoding what was decoded gives the same record, and truncated or malformed
  records never corrupt another one.""",
  "inputs", "all records with any fields blank or set, any attachments, truncated lines",
  "The repository has no test of the reader.",
  "IMMA1.py", [("decoding", "IMMA1.py:IMMA.readstr, decode, decode_base36"), ("encoding", "IMMA1.py:IMMA.write, encode"), ("tables", "IMMA1.py:parameters, definitions")],
  "round-trip property testing with an independent encoder built from the published record layout",
  "Field widths and scales of the core and of attachments 1, 5, 6, 7, 8, 9 and 98 as published.", observe=["decoded values", "written record"])

p("C29", "The other readers give the same report as the file says",
  """Reports read from the near-real-time, simple and test formats have the position, time, identifier and values of their line, in the
  documented units, with missing codes as missing. Any line the format allows is read and one report never affects the next.""",
  "inputs", "all lines of the formats",
  "The repository has no test of these readers.",
  "SimpleIMMA.py NRT.py TestIMMA.py", [("readers", "SimpleIMMA.py:readstr; NRT.py:readstr; TestIMMA.py:readstr")],
  "round-trip property testing with generated lines", "Formats as documented in the readers.", observe=["decoded values"])

p("C30", "File names, directories and lists of identifiers are found whatever the month",
  """For any year and month the input file named by the configuration's template for that year is found, the background field comes from the first
  directory of the list that has it, compressed or not, and output directories are made when missing and reused when there.
  Identifiers made safe for file names have no slash or asterisk and bad-identifier lists are read line by line, padded to nine.""",
  "inputs configurations", "all templates, years, months, directory trees and identifiers",
  "The tests cover a few names and no directories.",
  "BackgroundField.py Extended_IMMA.py", [("names", "BackgroundField.py:icoads_filename_from_stub, get_background_filename, make_filename"), ("directories", "BackgroundField.py:safe_make_dir, safe_make_dir_generic"), ("identifiers", "BackgroundField.py:process_bad_id_file; Extended_IMMA.py:safe_filename")],
  "property-based testing over generated directory trees in a scratch directory", "bunzip2 is assumed on the PATH.", observe=["returned names", "scratch directories"])

p("C31", "Months with data split into chunks separated by the gap, each classified rightly",
  """Every month with data belongs to exactly one chunk; chunks start and end at months with data, months of one chunk are never separated by
  the gap of empty months and different chunks always are. A chunk is a start, end, new or regular case exactly by its distance from
  the ends of the series, for any gap.""",
  "inputs histories", "all series of months with and without data, start months and gaps",
  "The tests use gaps below ten and short series.",
  "YMCounter.py", [("chunks", "YMCounter.py:YMCounter.get_chunks, yield_start_and_end_dates")],
  "property-based testing, exhaustive over short series and random over long ones, against a reference partition", "Series up to 12 months are enumerated completely.",
  observe=["yielded chunks"])

p("C32", "A QC run gives every report the flags its months' data call for, and no others",
  """For each month asked for, the run writes each readable, wanted report of that month once, with the flags its own values, its ship's
  track and its neighbours in the month before, same and after call for. A month's output depends neither on which other months the run
  covers nor on unreadable lines, excluded identifiers or missing files, and a fault in one record never stops the run.""",
  "inputs histories configurations fault_sequences", "all archives of monthly files, ranges of months, missing files, corrupt lines and configurations",
  "No test runs the program.",
  "marine_qc.py Extended_IMMA.py IMMA1.py BackgroundField.py Climatology.py", [("run", "marine_qc.py:main")],
  "end-to-end property testing on generated archives: differential against composing the checks independently, plus metamorphic relations between runs",
  "Climatologies are generated NetCDF files; gzip is read in text mode as under Python 2.", observe=["output files in a scratch directory"])

p("C33", "Tracking QC reads back what the main run wrote and flags it consistently",
  """From the files of the months asked for, the drifter's whole record is assembled with the flags and values written by the main run, each
  tracking check sees exactly the reports that pass the flags before it, and one row per report in time order is written to the directory of
  the last month and case. Files that are missing, empty or disagree are refused.""",
  "inputs histories fault_sequences", "all records over any months, with any flags, missing or damaged files",
  "No test runs the program.",
  "tracking_qc.py trackqc.py Extended_IMMA.py", [("run", "tracking_qc.py:main")],
  "end-to-end property testing: records written through the real writers, program run, output compared with the checks applied independently; fault injection on the files",
  "The per-check oracles are those of C23-C26.", observe=["output files in a scratch directory"])

p("C34", "The tracking wrapper submits exactly the chunks its mode calls for",
  """For every identifier listed in the monthly identifier files, one job is written and submitted for each chunk of its record that the chosen
  mode covers (every one, none near either end of the series, none near its end, or only those exactly the gap away from it) and none else, with
  the right identifier, months and case in its command. An unknown mode is refused.""",
  "inputs histories configurations", "all sets of monthly identifier lists, gaps and modes",
  "No test runs the program.",
  "Tracking_QC_wrapper.py YMCounter.py", [("selection", "Tracking_QC_wrapper.py:main"), ("jobs", "Tracking_QC_wrapper.py:write_submission")],
  "end-to-end property testing with the scheduler replaced by a recording stand-in", "sbatch and squeue are stand-ins; nothing is submitted.",
  observe=["job files in a scratch directory", "recorded scheduler calls"])

p("C35", "The high-resolution and track-only programs agree with the full run",
  """On the same archive the track-only program gives the same SST, position and tracking flags per drifter as the full one and the
  high-resolution program differs only by its climatology, each writing its own files for the same reports.""",
  "inputs histories configurations", "all archives and ranges of months",
  "No test runs the programs.",
  "marine_qc_hires.py marine_qc_track_only.py", [("runs", "marine_qc_hires.py:main, marine_qc_track_only.py:main")],
  "differential end-to-end property testing of the three programs on generated archives", "As C32.", observe=["output files in a scratch directory"])

p("C36", "Robust means, usual speeds and speed limits follow their definitions",
  """The winsorised mean and the trimmed statistics stay within their values, ignore order, follow shifts and scalings and resist a
  quarter of outliers. A voyage's usual speed is the centre of the fullest speed class and its limits grow with it, and the
  number of neighbours selects the multiplier of the bracket it falls in.""",
  "inputs", "all lists of values, speeds and counts, with ties and outliers",
  "The tests use one or two short lists each.",
  "qc.py track_check.py trackqc.py Extended_IMMA.py", [("means", "qc.py:winsorised_mean; trackqc.py:trim_mean, trim_std"), ("speeds", "track_check.py:modesp, set_speed_limits"), ("multiplier", "Extended_IMMA.py:get_threshold_multiplier")],
  "property-based testing against reference definitions and equivariance", "Exact rational arithmetic where ties matter.", observe=["return values"])

PENDING = {}
if os.path.exists(os.path.join(HERE, "tools", "pending.json")):
    PENDING = json.load(open(os.path.join(HERE, "tools", "pending.json")))

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, t, n in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, t, n in P:
    if d["id"] in PENDING:
        na.append({"property": d["id"], "reason": PENDING[d["id"]]})
        continue
    checks.append({"property": d["id"], "quick_cmd": "bash check.sh " + d["id"],
                   "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + d["id"],
                   "technique": t, "level": "exploration", "level_note": n})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the checks drive the code of /repo's working tree directly."}, f, indent=1)
    f.write("\n")
