#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Parsing arbitrary text never panics",
 "For every UTF-8 text, parsing it as one element set, as a batch, or as two separate lines returns a value: either a record or an error. Short lines, empty text, missing columns, non-ASCII characters anywhere and out-of-range numbers never panic, overflow or index out of bounds.",
 ["inputs"], "every text (any length of each line, any UTF-8 content, any number of lines)",
 "Tests parse four hand-written, well-formed element sets and one bad one; no test has a short line or a multi-byte character.",
 ["src/io.rs", "src/ext.rs"], [("column slicing and field parsing", "io.rs parse_satrec/parse_float/parse_int"), ("line splitting", "io.rs parse, parse_multiple")],
 ["io::parse", "io::parse_multiple", "io::twoline2satrec", "io::parse_satrec"])
prop("C02", "Well-formed element sets are read faithfully",
 "For every well-formed pair of element lines the parsed record holds exactly the numbers printed in their fixed columns, in the documented units: catalogue number, epoch year and day, first and second mean-motion derivative, drag term, inclination, node, eccentricity, argument of perigee, mean anomaly and mean motion (angles in radians, mean motion in rad/min, derivatives in rad/min^2 and rad/min^3, implied decimal points and signed exponents honoured, leading zeros and blank padding included). The semi-major axis and apogee/perigee altitudes derived from them follow Kepler's law, and exactly these elements, with the epoch counted in days since 1950, are what the propagator is initialised with.",
 ["inputs"], "every digit/sign/padding content of every field of a well-formed line pair",
 "Two concrete line pairs are tested; every digit position, sign and padding is a separate case.",
 ["src/io.rs"], [("fixed column slicing", "io.rs parse_satrec"), ("element hand-over to the initialiser", "io.rs twoline2satrec")],
 ["io::parse_satrec", "io::twoline2satrec"])
prop("C03", "Malformed numeric fields are rejected with a precise error",
 "If any numeric field of either line is not a finite decimal number, no record is returned: the result is an error that identifies the first offending field in reading order, says whether an integer or a real number was expected, and (for plain fields) gives the column range and the offending text. Values such as NaN or infinity are never accepted as elements.",
 ["inputs"], "every content of every numeric field, one or several malformed fields at a time",
 "A single invalid set is tested, checking only that some error comes back.",
 ["src/io.rs"], [("per-field parse errors", "io.rs parse_float/parse_int/SatrecParseError")],
 ["io::parse_satrec", "io::twoline2satrec"])
prop("C04", "Batch parsing yields one outcome per entry, in order",
 "Parsing a batch of element sets, any mixture of named (with or without the \"0 \" marker) and unnamed sets separated by arbitrary blank lines, yields exactly one outcome per entry: a record for each good set and an indexed error for each bad one, both in input order, without one entry disturbing another. Each record carries the trimmed name of its own entry (none if unnamed), and a trailing incomplete entry is reported as an error, never dropped.",
 ["inputs", "programs"], "every mixture and order of named, unnamed, good and bad entries, every name text, every placement of blank lines, LF or CRLF line ends",
 "Batch parsing has no enabled test.",
 ["src/io.rs"], [("grouping of lines into entries", "io.rs parse_multiple")], ["io::parse_multiple"])
prop("C05", "Single-set parsing checks line count and line numbers",
 "Parsing a text as a single element set ignores blank lines and succeeds only when it has two lines, or three with the first being the name, and the element lines begin with 1 and 2 in that order; otherwise the bad line count or failed line check is reported. The record and errors are those of the two element lines alone, and the name, without its optional \"0 \" marker and surrounding white space, is recorded exactly when present.",
 ["inputs"], "every text of up to the bounded number of lines with arbitrary line contents and blank lines",
 "Two concrete texts are tested.",
 ["src/io.rs"], [("line filter, line-number check, name extraction", "io.rs parse")], ["io::parse"])
prop("C06", "Element epochs become the right Julian date",
 "For every two-digit epoch year (57-99 meaning 1957-1999, 00-56 meaning 2000-2056) and every fractional day of that year, the record's Julian date is that of 0h UTC on 1 January plus (day - 1), to within a few tens of microseconds. Leap years, month boundaries and the ends of the year are no exception.",
 ["inputs"], "all 100 years x every day-of-year value with 8 decimals",
 "Three epochs are tested; the result depends on leap rule, month table and pivot for each of 36,500 days.",
 ["src/io.rs", "src/ext.rs"], [("year pivot and calendar conversion", "io.rs parse_satrec, ext.rs days2mdhms/jday")], ["Satrec.jdsatepoch"])
prop("C07", "Calendar conversions agree with the Gregorian calendar",
 "From 1901 through 2099, converting a civil date and time to a Julian date is exact to double precision: consecutive days differ by one, 2000-01-01 12:00 is 2451545.0, and hours, minutes, seconds and milliseconds (including the fraction of a second of a date-time value) count in full. Converting a year and fractional day-of-year to month, day, hour, minute and second yields the unique civil date and time of that instant, with every component in its range.",
 ["inputs"], "every date and time of day from 1901 to 2099; every day-of-year value of every year",
 "These functions have no tests of their own (README lists them as untested).",
 ["src/ext.rs"], [("jday, jday_datetime, days2mdhms", "ext.rs")], ["ext::jday", "ext::jday_datetime", "ext::days2mdhms"])
prop("C08", "Propagating to a date-time uses the exact elapsed time",
 "Propagating a record to a UTC date-time gives the same result as propagating it by the minutes elapsed between the record's epoch and that instant, fractions of a second included, before or after the epoch. The caller's record is left unchanged and errors are passed through.",
 ["inputs", "histories"], "every record and every date-time from 1901 to 2099, down to nanoseconds",
 "No test calls it.",
 ["src/propogation/mod.rs", "src/ext.rs"], [("propogate_datetime", "propogation/mod.rs")], ["propogation::propogate_datetime"])
prop("C09", "Sidereal time follows the IAU-82 formula and stays in one turn",
 "Greenwich sidereal time, from a Julian date or from a UTC date-time, equals the IAU-82 mean sidereal time polynomial reduced to one turn, and is always at least 0 and at most 2*pi.",
 ["inputs"], "every Julian date (and date-time) in the supported era",
 "One instant is tested.",
 ["src/propogation/gstime.rs"], [("gstime polynomial and reduction", "gstime.rs")], ["propogation::gstime::gstime", "gstime_datetime"])
prop("C10", "Propagation is independent of earlier calls",
 "For an initialised record, the result of propagating to a given time is the same whatever propagations (successful or failed, forward or backward in time) were performed on that record before. The orbital elements and the other initialised quantities the model reads are never altered by propagating.",
 ["histories"], "every record and every sequence of earlier propagation times",
 "Tests step forward once through five ascending times of one near-Earth and one deep-space record.",
 ["src/propogation/sgp4.rs", "src/propogation/dspace.rs", "src/propogation/dpper.rs"],
 [("which record fields propagation writes", "sgp4.rs"), ("integrator restart", "dspace.rs")], ["propogation::sgp4::sgp4"],
 [("Satrec", "record reused between propagations", "io.rs")])
prop("C11", "Propagation errors are exact and consistent",
 "Propagation fails exactly when the model's documented conditions hold, tested in this order: mean motion not positive (code 2), mean eccentricity >= 1 or < -0.001 (code 1), deep-space perturbed eccentricity outside [0,1] (code 3), negative semi-latus rectum (code 4), radius below one Earth radius (code 6). The error returned, its numeric code and the record's error field always agree, the field is 0 after a success, and neither initialisation nor propagation ever panics.",
 ["inputs", "histories"], "every record state (near-Earth and deep-space) and every time within the integrator bound",
 "No test reaches a propagation error other than one rejected element set.",
 ["src/propogation/sgp4.rs", "src/propogation/sgp4init.rs"], [("error checks and codes", "sgp4.rs")], ["SGP4Error::code", "Satrec.error"])
prop("C12", "A successful position is never inside the Earth's radius",
 "Whenever propagation succeeds, the returned position is at least one Earth equatorial radius (6378.137 km) from the Earth's centre, up to rounding.",
 ["inputs"], "every record state and time for which propagation succeeds",
 "Tests compare ten positions only.",
 ["src/propogation/sgp4.rs"], [("decay check against the same radius that scales the position", "sgp4.rs")], ["SGP4Result.position"])
prop("C13", "Near-Earth initialisation follows the published SGP4 model",
 "For every set of mean elements with a period under 225 minutes, initialisation derives exactly the published SGP4 quantities up to rounding: the original (un-Kozai'd) mean motion, the perigee-dependent drag density parameters (156 km and 98 km thresholds), the simplified-drag switch below 220 km perigee, all secular rates and drag coefficients, and sidereal time at epoch in both operation modes. Every previously stored derived quantity in the record is overwritten.",
 ["inputs", "configurations"], "every element set (eccentricity, inclination, angles, mean motion, drag, epoch) and operation mode",
 "One near-Earth set (simplified drag) is tested; the branches by perigee, eccentricity and inclination are not.",
 ["src/propogation/sgp4init.rs", "src/propogation/initl.rs", "src/constants.rs"], [("sgp4init/initl formulas", "sgp4init.rs, initl.rs")], ["Satrec fields after initialisation"])
prop("C14", "Near-Earth propagation follows the published SGP4 model",
 "For every initialised near-Earth record and every time, the position and velocity equal those of the published SGP4 model up to rounding: secular and drag terms (full or simplified), long-period terms, the bounded Newton solution of Kepler's equation with its step limit, short-period terms and orientation, in km and km/s.",
 ["inputs"], "every near-Earth record state and every time",
 "Five time points of one orbit are tested.",
 ["src/propogation/sgp4.rs"], [("sgp4 formulas", "sgp4.rs")], ["propogation::sgp4::sgp4"])
prop("C15", "Deep-space initialisation follows the published SDP4 model",
 "For every set of mean elements with a period of 225 minutes or more, and only then, the record is initialised as deep-space and holds the published lunar-solar terms, secular rates (including the near-equatorial exceptions) and resonance terms up to rounding. The resonance class is one-day for mean motions strictly between 0.0034906585 and 0.0052359877 rad/min, half-day for 0.00826 to 0.00924 rad/min with eccentricity of at least 0.5, and none otherwise, with the eccentricity-dependent coefficients of each class.",
 ["inputs", "configurations"], "every deep-space element set and operation mode",
 "One non-resonant deep-space set is tested: no resonant orbit at all.",
 ["src/propogation/sgp4init.rs", "src/propogation/dscom.rs", "src/propogation/dsinit.rs", "src/propogation/dpper.rs"],
 [("dscom, dsinit formulas and their hand-over", "dscom.rs, dsinit.rs, sgp4init.rs")], ["Satrec fields after initialisation"])
prop("C16", "Deep-space propagation follows the published SDP4 model",
 "For every initialised deep-space record and every time up to 28800 minutes (forty 720-minute integrator steps) either side of the epoch, position and velocity equal those of the published SDP4 model up to rounding: secular lunar-solar drift, resonance integration in 720-minute steps, lunar-solar periodics (directly above 0.2 rad inclination and with the Lyddane modification below, in both operation modes), and the recomputed inclination-dependent terms.",
 ["inputs", "configurations"], "every deep-space record state (no, one-day, half-day resonance), both operation modes, every time within the step bound",
 "One non-resonant orbit is compared at five times with a tolerance wide enough to hide that its lunar-solar corrections are ignored.",
 ["src/propogation/sgp4.rs", "src/propogation/dspace.rs", "src/propogation/dpper.rs"],
 [("dspace, dpper and their use", "sgp4.rs, dspace.rs, dpper.rs")], ["propogation::sgp4::sgp4"])
prop("C17", "Inertial and Earth-fixed frames are inverse rotations",
 "Converting between inertial and Earth-fixed coordinates at a sidereal angle is the rotation about the polar axis by that angle (a point on the Earth-fixed x axis has inertial right ascension equal to the angle): the two conversions are mutually inverse, keep z and all distances, for every vector and angle.",
 ["inputs"], "every vector and angle",
 "One vector each way is tested.",
 ["src/transforms.rs"], [("ecf_to_eci, eci_to_ecf", "transforms.rs")], ["transforms::eci_to_ecf", "transforms::ecf_to_eci"])
prop("C18", "Geodetic conversions use one consistent WGS-84 ellipsoid",
 "Converting a geodetic position to Earth-fixed coordinates places it on the WGS-84 ellipsoid normal at the given latitude, longitude and height. Converting a position back gives the latitude and height whose geodetic position is the original point: the result is a solution of the closed geodetic equations for every position outside the polar axis, to the precision of the 20-step iteration.",
 ["inputs"], "every latitude, longitude and height; every position from low orbit to beyond geostationary height",
 "Neither direction is tested on its own.",
 ["src/transforms.rs"], [("geodedic_to_ecf, eci_to_geodedic", "transforms.rs")], ["transforms::geodedic_to_ecf", "transforms::eci_to_geodedic"])
prop("C19", "Sub-satellite longitude and latitude are normalised",
 "For every inertial position and every sidereal angle in one turn, the geodetic longitude lies in [-pi, pi] (up to rounding) and is congruent, modulo a full turn, to right ascension minus sidereal angle, and the latitude lies in [-pi/2, pi/2] with the sign of z.",
 ["inputs"], "every position and every sidereal angle in [0, 2*pi]",
 "Not tested.",
 ["src/transforms.rs"], [("longitude wrap loops, atan2", "transforms.rs eci_to_geodedic")], ["transforms::eci_to_geodedic"])
prop("C20", "Topocentric coordinates are the observer's south-east-up frame",
 "For every observer and every Earth-fixed satellite position, topocentric coordinates are the line-of-sight vector from the observer's geodetic position expressed along local south, east and up; in particular they preserve the distance between observer and satellite, and a satellite straight above has only an up component.",
 ["inputs"], "every observer latitude, longitude, height and satellite position",
 "One observer/satellite pair is tested.",
 ["src/transforms.rs", "src/lib.rs"], [("topocentric rotation", "transforms.rs")], ["transforms::topocentric"])
prop("C21", "Look angles are the true azimuth, elevation and range",
 "For every non-zero topocentric vector, range is its length, elevation lies in [-pi/2, pi/2] with sine equal to up/range, and azimuth lies in [0, 2*pi], measured clockwise from north (east is pi/2). Look angles from an observer to an Earth-fixed position are those of its topocentric vector.",
 ["inputs"], "every topocentric vector; every observer and satellite position",
 "One pair is tested.",
 ["src/transforms.rs"], [("topocentric_to_look_angles, ecf_to_look_angles", "transforms.rs")], ["transforms::topocentric_to_look_angles", "transforms::ecf_to_look_angles"])
prop("C22", "Angle conversions are exact and guard latitude and longitude ranges",
 "Degree and radian conversions scale by exactly 180/pi and are mutually inverse up to rounding for every finite angle. The latitude and longitude variants accept exactly the closed ranges of +-90 and +-180 degrees (+-pi/2 and +-pi radians), giving the same scaling, and panic for everything outside.",
 ["inputs"], "every finite angle",
 "Not tested.",
 ["src/transforms.rs", "src/constants.rs"], [("range guards and scale factors", "transforms.rs")], ["transforms::degrees_lat", "degrees_long", "radians_lat", "radians_long", "radians_to_degrees", "degrees_to_radians"])
prop("C23", "Doppler factor and vector arithmetic are correct",
 "Vector addition, subtraction and range are component-wise and Euclidean for every pair of vectors. The Doppler factor is one plus the magnitude of the change in observer range over one second of motion divided by the speed of light (299792.458 km/s), and is one when the range does not change.",
 ["inputs"], "every location, position and velocity",
 "Not tested.",
 ["src/lib.rs", "src/doppler_factor.rs", "src/constants.rs"], [("Vec3 operations, doppler_factor", "lib.rs, doppler_factor.rs")], ["doppler_factor::doppler_factor", "Vec3"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
