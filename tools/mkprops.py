# Regenerates /verif/properties.jsonl (kept as a script so that the list is easy to review).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=list(observe); a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

T="src/tle.rs"; L="src/lib.rs"; D="src/deep_space.rs"; N="src/near_earth.rs"; B="src/third_body.rs"; M="src/model.rs"; R="src/propagator.rs"; G="src/gp.rs"
p("C01","TLE fields are decoded from their own columns",
 "For every accepted pair of TLE lines, each field of the parsed element set is the value written in that field's column range of the TLE format, with the format's implied leading decimal point, power-of-ten exponent and sign. Two-digit epoch and launch years below 57 mean 20xx and others 19xx, and the fractional day becomes a time of day rounded to the nanosecond, carrying into the seconds. The object name is the one given by the caller, and an all-blank international designator is absent rather than an error.",
 ["inputs"],"all pairs of 69-byte lines that the parser accepts",
 "Six unit tests parse a handful of real element sets; they do not reach unusual signs, exponents, blank-padded columns, the year pivot or the nanosecond carry.",
 [T],[("fixed column slices followed by numeric parsing","src/tle.rs Elements::from_lines"),("assumed decimal point decoding","src/tle.rs parse_decimal_point_assumed")],observe=["the public fields of the returned element set"])
p("C02","Malformed TLE lines are rejected, well-formed ones are accepted",
 "A pair of lines is accepted only if both have exactly 69 bytes, start with 1 and 2, have blanks in every separator column, carry matching catalogue numbers, a known classification letter, a valid calendar date, a correct modulo-10 checksum on each line (digits count their value, minus signs one, everything else zero), and every field parses as a number of its type. Every pair that meets these conditions is accepted.",
 ["inputs"],"all pairs of byte strings of any length and content",
 "Tests contain only valid lines; no test feeds a corrupted one, so any of the rejection rules could be dropped unnoticed.",
 [T],[("ordered sequence of guards and fallible parses","src/tle.rs Elements::from_lines")],observe=["Ok or Err of parsing"])
p("C03","TLE parse errors name the offending check, line and columns",
 "When a TLE is rejected, the error's kind, line and character range identify a check that really failed on that input and exactly the columns that check reads. A mismatch between the two catalogue numbers is attributed to both lines.",
 ["inputs"],"all rejected pairs of byte strings",
 "No test inspects a parse error.",
 [T],[("error values built at each guard","src/tle.rs Elements::from_lines")],observe=["the error value and its text"])
p("C04","TLE, 2LE and 3LE parsing never panics",
 "Parsing returns a value or an error for every input: no byte content, line length, line count or field content makes it panic, overflow an integer, index out of bounds or divide by zero.",
 ["inputs"],"all byte strings given as lines and all UTF-8 texts given as multi-line element sets",
 "Tests use valid text only; panics need particular bytes in particular columns.",
 [T],[("length guards before indexing; checked conversions","src/tle.rs")],observe=["absence of panic in a build with overflow checks"])
p("C05","2LE/3LE texts yield one element set per group, in order",
 "Parsing a multi-line text groups its lines in twos (or threes, the first being the object name) from the top and returns exactly the element sets that parsing each complete group separately would return, in the same order. If any group is malformed the whole parse returns the error of the first malformed group.",
 ["inputs","histories"],"all texts: any number of lines, any subset of malformed groups",
 "No test calls the multi-line parsers with a malformed group, and none has more than a few groups.",
 [T],[("line buffer and group counter","src/tle.rs parse_2les, parse_3les")],state=[("line buffer","lines of the group being assembled","src/tle.rs parse_2les, parse_3les")],observe=["the returned list or error"])
p("C06","OMM keys map to the right fields and round-trip",
 "Deserialising an OMM record reads each element from its standard key (and the classification from U, C or S), with no two keys feeding the same field and no field fed by a wrong key; a missing required key is an error. Serialising writes every field under the key from which deserialising reads it.",
 ["inputs","configurations"],"all OMM records and all element sets",
 "Tests deserialise three records, where several fields hold equal or zero values, and never serialise.",
 [T],[("field renames on the element set and classification types","src/tle.rs")],observe=["serde_json::from_str / to_string of element sets"])
p("C07","OMM numbers may be JSON numbers or strings, without loss",
 "Every numeric OMM field accepts a JSON number or a string holding that number and yields the same value for both; a number that the field's type cannot represent is rejected in either form, never truncated or wrapped, and any other JSON type is rejected.",
 ["inputs"],"all JSON values in the numeric fields",
 "Tests use small in-range values only.",
 [T],[("number-or-string deserialisers","src/tle.rs")],observe=["serde_json::from_str of element sets"])
p("C08","Epoch in Julian years since J2000 is computed correctly",
 "For every calendar date and time, the epoch of an element set is the number of Julian years of 365.25 days elapsed since 1 January 2000 12:00 UTC, by the civil-calendar day number formula plus the time of day down to the nanosecond. The default and the AFSPC-compatibility expressions denote the same real number for every date.",
 ["inputs"],"all representable date-times, including years before 1",
 "Tests only see the epochs of a few dozen element sets between 1980 and 2020 and through a tolerance.",
 [T],[("integer day number formula","src/tle.rs julian_years_since_j2000*")],observe=["Elements::epoch and the AFSPC variant"])
p("C09","Sidereal time expressions follow their published polynomials",
 "The IAU expression maps an epoch to the IAU-82 Greenwich mean sidereal time polynomial, and the AFSPC expression to the AFSPC 1970-based formula, both reduced to [0, 2π). This holds in every feature set.",
 ["inputs","configurations"],"all epochs; all supported feature sets",
 "Propagation tests run in AFSPC mode only, so the IAU expression and the no-std variants are never compared with anything.",
 [M],[("polynomial evaluation and modulo 2π","src/model.rs")],observe=["the two public sidereal-time functions"])
p("C10","Date and minutes-since-epoch conversions are exact or an error",
 "Converting a date-time to minutes since epoch gives the signed nanosecond difference divided by 60e9, and an error exactly when that difference does not fit 64-bit nanoseconds. Converting minutes to a date-time gives the epoch plus the minutes rounded to the nearest nanosecond; minutes that are not a number or do not fit, and dates out of range, yield an error rather than some date.",
 ["inputs"],"all dates and all 64-bit floating-point minute values",
 "No test converts in either direction.",
 [T],[("nanosecond arithmetic with range guard","src/tle.rs Elements methods")],observe=["the two conversion methods"])
p("C11","Initialisation validates elements and recovers Brouwer mean motion",
 "Building a propagator fails with the matching error when the mean motion is not positive (as given, or after removing the Kozai correction) or when the eccentricity is not a number in [0, 1), and succeeds otherwise. The mean motion used afterwards is the Brouwer mean motion obtained from the Kozai one by the documented un-Kozai formula, and the other elements are kept unchanged.",
 ["inputs"],"all six elements, including NaN and infinities, and all geopotentials",
 "All test elements are valid, so no error path runs, and the formula is only seen through a tolerance.",
 [L],[("range guards and un-Kozai formula","src/lib.rs Orbit::from_kozai_elements, Constants::new")],observe=["Result of the constructors"])
p("C12","Default and AFSPC modes use their own constants and conventions",
 "The default constructor uses WGS84, the IAU sidereal time and the accurate epoch expression; the AFSPC-compatibility constructor uses WGS72, the AFSPC sidereal time and the AFSPC epoch expression; both convert degrees to radians and revolutions per day to radians per minute and use one geopotential throughout. The published geopotential constants have their standard values.",
 ["inputs","configurations"],"all element sets; both modes",
 "Only the AFSPC mode is compared with reference vectors.",
 [L,M],[("argument wiring in the two constructors","src/lib.rs Constants::from_elements*")],observe=["predictions in the two modes"])
p("C13","Near-earth predictions follow the SGP4 equations",
 "For every orbit with a period below 225 minutes that initialises, the predicted position and velocity at any time are those of the documented SGP4 near-earth equations (drag, secular gravity, long-period, Kepler and short-period terms, in km and km/s, in the TEME frame), in each of the high-altitude, low-perigee, near-circular and near-polar-retrograde sub-cases.",
 ["inputs","configurations"],"all near-earth element sets and times, all sub-case combinations, with real-number arithmetic",
 "Reference vectors cover about twenty satellites in AFSPC mode; several sub-case combinations and boundary values are never exercised.",
 [L,N],[("epoch constants and per-time update","src/lib.rs Constants::new, propagate_from_state; src/near_earth.rs")],observe=["Prediction position and velocity"])
p("C14","Deep-space predictions include the right luni-solar terms",
 "For every orbit with a period of at least 225 minutes that initialises and is not resonant, the predicted position and velocity at any time are those of the documented SDP4 equations with solar and lunar secular and long-period periodic perturbations, including the low-inclination (Lyddane) variant and the near-equatorial node rule.",
 ["inputs","configurations"],"all non-resonant deep-space element sets and times, all sub-case combinations, with real-number arithmetic",
 "Reference vectors contain a handful of non-resonant deep-space satellites; low-inclination and retrograde near-equatorial ones hardly occur.",
 [L,D,B],[("third-body perturbations","src/third_body.rs, src/deep_space.rs")],observe=["Prediction position and velocity"])
p("C15","Resonant orbits (12 h and 24 h) integrate the right resonance terms",
 "An orbit is treated as 24-hour resonant exactly when its mean motion lies strictly between 0.0034906585 and 0.0052359877 rad/min and as 12-hour resonant exactly when it lies in [8.26e-3, 9.24e-3] rad/min with eccentricity at least 0.5. Its mean motion and mean longitude are then obtained by the documented 720-minute second-order integration with the documented resonance coefficients, in both time directions, and the final partial step is exact.",
 ["inputs","configurations","histories"],"all resonant element sets, all times, every eccentricity band of the coefficient polynomials",
 "Reference vectors contain few resonant satellites, so most eccentricity bands, backward integration and band edges are not reached.",
 [D],[("resonance coefficients and integrator","src/deep_space.rs")],state=[("integrator state","time, mean motion and longitude reached so far","src/deep_space.rs ResonanceState")],observe=["Prediction position and velocity","integrator time"])
p("C16","The AFSPC flag matters only for low-inclination deep-space orbits",
 "The compatibility flag of the propagation call has no influence on the result for near-earth orbits, nor for deep-space orbits whose perturbed inclination is at least 0.2 rad; below that it only changes how the node is reduced to one turn. The convenience calls equal the general call with a fresh state and the flag off or on respectively.",
 ["inputs"],"all propagators and times",
 "Tests never compare the two flag values.",
 [L,D],[("flag threaded to the low-inclination branch","src/lib.rs, src/deep_space.rs")],observe=["predictions with flag on and off"])
p("C17","Propagation fails exactly when an element diverges, with its value",
 "A prediction is refused exactly when the secular eccentricity leaves [-0.001, 1), when the perturbed deep-space eccentricity leaves [0, 1], or when the semi-latus rectum is negative; the error is of the corresponding kind and carries the requested time and, for eccentricities, the offending value. An eccentricity that is not a number is refused as well.",
 ["inputs"],"all propagators and times, including non-finite times",
 "Only two reference vectors end in an error, and the error's kind and payload are not checked.",
 [L,N,D,G],[("range guards","src/lib.rs, src/near_earth.rs, src/deep_space.rs")],observe=["Err of propagation"])
p("C18","High-level initialisation and propagation never panic",
 "Initialising from any element set and propagating to any time with the high-level calls returns a value or an error: no element value, epoch, time or flag makes them panic, and the state they create always matches what the propagator requires.",
 ["inputs","configurations"],"all element sets (including non-finite and extreme ones), all epochs and times",
 "Tests use realistic elements and epochs only.",
 [L,N,D,T],[("agreement between initial state and method","src/lib.rs Constants::initial_state, propagate"),("integer epoch arithmetic","src/tle.rs")],observe=["absence of panic in a build with overflow checks"])
p("C19","Misuse of the resonance state is always detected",
 "Propagating with a state when the orbit needs none, without one when it is resonant, or with one that has already moved past the requested time or to the other side of the epoch, stops with a panic instead of returning a prediction; any other call with a state obtained from the same propagator does not panic.",
 ["inputs","histories"],"all propagators and all sequences of calls that share a state",
 "Tests always use a fresh state.",
 [L,D],[("state presence and monotonicity assertions","src/lib.rs, src/deep_space.rs")],state=[("integrator state","time reached so far","src/deep_space.rs ResonanceState")],observe=["panic or result of the state-passing call"])
p("C20","Reusing a resonance state gives the same result as a fresh one",
 "For any sequence of propagation times moving away from the epoch, propagating with a reused state gives the same prediction as propagating with a fresh state: what a call leaves in the state depends only on whole 720-minute steps from the epoch, never on the requested time itself.",
 ["histories","inputs"],"all resonant propagators and all monotonic sequences of times",
 "Tests always use a fresh state for every time.",
 [D],[("integrator writes back only whole steps","src/deep_space.rs ResonanceState::integrate")],state=[("integrator state","time, mean motion, longitude","src/deep_space.rs ResonanceState")],observe=["predictions and integrator time with reused and fresh states"])
p("C21","Propagators are immutable, thread-safe and free of hidden state",
 "A propagator can be shared between threads and propagating never changes it; every result of the library depends only on the arguments (and the state passed explicitly), not on global variables, time, environment, randomness or earlier calls.",
 ["schedules","histories"],"all interleavings and all call sequences",
 "Tests are single-threaded and do not look for shared state.",
 [L,R,D,N,B,M,T],[("no interior mutability, no statics, shared references only","whole crate")],observe=["results of concurrent or repeated calls"])
p("C22","Every library call terminates",
 "Every call returns (or panics) after a bounded amount of work for every argument: element-set parsing after a bounded number of steps per input byte, Kepler's equation after at most ten iterations, and resonance integration after at most one step per 720 minutes of requested time; requested times that are infinite or not a number do not loop.",
 ["inputs"],"all arguments, including non-finite times",
 "Tests use finite times of a few days.",
 [L,D,T],[("loop bounds and exit conditions","src/deep_space.rs integrate; src/lib.rs Kepler loop; src/tle.rs")],observe=["return of the call"])
p("C23","Unchecked operations cannot break memory safety",
 "Safe callers cannot cause undefined behaviour: each unchecked operation in the library is applied only where its precondition is established for every possible argument, including arbitrary non-UTF-8 bytes.",
 ["inputs","configurations"],"all arguments of the public interface; all supported feature sets",
 "Tests only feed ASCII text, for which the unchecked conversions happen to be valid.",
 [T],[("unchecked UTF-8 conversions","src/tle.rs FromU8")],observe=["absence of undefined behaviour"])
p("C24","All feature sets compute the same results",
 "With or without the standard library, allocation or serialisation support, parsing, initialisation and propagation perform the same computation for the same input, apart from the rounding of elementary functions and from the name and designator fields that only exist with allocation support.",
 ["configurations","inputs"],"all five supported feature sets and all inputs",
 "Propagation tests run the default feature set and one other; conditional code for the remaining sets is compiled but not compared.",
 [T,M,D,N,B,L],[("conditional compilation of float functions and fields","src/*.rs")],observe=["results under each feature set"])
p("C25","Builds without std or alloc stay free of them",
 "When built without the standard library the crate needs neither the standard library nor an operating system, and without allocation support it needs no allocator; conflicting or missing feature choices are refused at compile time.",
 ["configurations"],"all feature combinations",
 "The test machine always provides both, so an accidental dependency still builds and passes.",
 [L,T,M,"Cargo.toml"],[("no_std attribute and feature gates","src/lib.rs, Cargo.toml")],observe=["building for a target without std or alloc"])
p("C26","A serialised propagator restores to an identical propagator",
 "Serialising an initialised propagator writes every quantity that propagation reads, each under its own name, and deserialising reads each of them back from that name into the same place; nothing is skipped, defaulted, merged or swapped, for near-earth, deep-space and resonant propagators alike.",
 ["inputs","configurations"],"all propagators of every kind",
 "No test serialises a propagator.",
 [R,B,M],[("derived serialisation of the propagator types","src/propagator.rs, src/third_body.rs, src/model.rs")],observe=["predictions after a serialisation round trip"])
p("C27","Error texts state the actual cause and values",
 "The text of every error names the kind of failure that the value stands for and includes each quantity the error carries (time, eccentricity, line, start and end columns, dates), without panicking.",
 ["inputs"],"all error values",
 "No test formats an error.",
 [T,G,L],[("Display implementations","src/tle.rs, src/gp.rs, src/lib.rs")],observe=["to_string of errors"])
p("C28","Predictions agree numerically with the reference implementation",
 "For every valid element set and every time within the element set's useful span, the rounding error of the computed position stays below 1e-6 km and of the velocity below 1e-9 km/s with respect to exact evaluation of the documented equations.",
 ["inputs"],"all valid element sets and times",
 "Thirty-three satellites are compared at a few hundred times.",
 [L,N,D,B],[("order of floating-point operations","src/*.rs")],observe=["Prediction position and velocity"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
