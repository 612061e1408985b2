"""Writes /verif/properties.jsonl (single source for ids, statements, anchors)."""
import json, os
PY = "pysrc/whenever/_pywhenever.py"
INIT = "pysrc/whenever/__init__.py"
P = []
def prop(id, title, statement, text, why, mech, observe, over=("inputs",), files=(PY,), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe))))

prop("P01", "Calendar shifting of dates: months with day clamp, then days",
 "Adding or subtracting years, months, weeks and days to a date first moves by the total number of months, clamping the day to the length of the target month, and then moves by the total number of days. If either step leaves years 1-9999 the operation raises instead of returning a date. The method, operator and delta-object spellings all agree.",
 "Every date, every integer amount of years/months/weeks/days, either sign, each spelling.",
 "The tests use a few dozen dates; the clamp and the range checks depend on the month length of every target month and on amounts with no bound.",
 [("Date.add/subtract/_shift", PY), ("Date._add_months, _add_days", PY), ("Date.__add__/__sub__", PY)],
 ["Date.add", "Date.subtract", "Date + DateDelta", "Date - DateDelta"])
prop("P02", "Difference of two dates is the delta that leads back",
 "The difference of two dates is a delta with consistent sign that, added to the earlier-named operand, gives the other date back, with as many whole months as possible and fewer remaining days than a month. The day-count differences are exact and antisymmetric.",
 "Every ordered pair of dates.",
 "There are 13 trillion pairs; tests sample around fifty and end-of-month overshoot depends on both month lengths.",
 [("Date.__sub__", PY), ("Date.days_until/days_since", PY)],
 ["Date - Date", "Date.days_until", "Date.days_since"])
prop("P03", "Local types: total order, equality and hash agree with their fields",
 "For dates, year-months, month-days, times and local datetimes, two values are equal exactly when all their fields are equal, the four order operators agree with the lexicographic order of the fields (nanosecond included), and equal values hash equally. Comparing with an unrelated type is never equal and never ordered.",
 "Every pair of values of the same type.",
 "Order and equality must agree on every pair, notably on pairs differing in one sub-second digit; tests compare a handful of hand-picked pairs.",
 [("comparison dunders of Date, YearMonth, MonthDay, Time, LocalDateTime", PY)],
 ["==", "!=", "<", "<=", ">", ">=", "hash()"])
prop("P04", "Exact types compare and hash by instant, across types",
 "Instants, offset, zoned and system datetimes compare (equality and all four orders) exactly as the moments on the UTC timeline they denote, to the nanosecond, in every combination of types and timezones including repeated hours. Values that compare equal have equal hashes.",
 "Every pair of values of the four exact types, every timezone behaviour, both folds.",
 "PEP 495 makes stdlib comparisons of ambiguous datetimes surprising; whether the library avoids that depends on timezone, fold and type of both operands, which samples do not cover.",
 [("_KnowsInstant comparison dunders", PY), ("__hash__ of each exact type", PY)],
 ["==", "<", "<=", ">", ">=", "hash()"], over=("inputs", "configurations"))
prop("P05", "Instant arithmetic is exact to the nanosecond",
 "Shifting an instant by a time delta moves it by exactly that number of nanoseconds, and the difference of two exact-type values is exactly the number of nanoseconds between them, so that b + (a - b) equals a. Results outside the supported range raise.",
 "Every instant and delta; every pair of exact-type values.",
 "Carries between the nanosecond part and the seconds part, negative deltas and the range ends only fail for particular value combinations.",
 [("Instant.__add__/__sub__/add/subtract", PY), ("_KnowsInstant.__sub__/difference", PY)],
 ["Instant + TimeDelta", "Instant - TimeDelta", "Instant.add", "Instant.subtract", "difference()", "a - b"])
prop("P06", "Conversions between exact types preserve the moment",
 "Converting a moment to UTC, to a fixed offset, to a timezone or to the system timezone denotes the same moment to the nanosecond, has the offset that the target timezone really has at that moment, and its local fields are that moment shifted by that offset. A conversion whose local time would leave the supported range raises.",
 "Every moment, every target offset or timezone behaviour, each source type.",
 "Timezone rules differ per zone and moment; tests use a few zones at a few moments.",
 [("to_tz, to_fixed_offset, to_system_tz, instant, local", PY)],
 ["to_tz", "to_fixed_offset", "to_system_tz", "instant", "local", "offset"], over=("inputs", "configurations"))
prop("P07", "Timestamps are exact floors and round-trip",
 "The second, millisecond and nanosecond timestamps of a moment are the exact floor of its distance to the UNIX epoch, and creating a value from an integer timestamp and reading the timestamp back gives the same integer, for every exact type. Creating a value from a float timestamp gives its value to the nanosecond (and the precision of the float), in the second the float lies in. Out-of-range timestamps raise.",
 "Every moment and every integer timestamp in each unit; every float that is a multiple of one of 13 powers of 2.",
 "Floor versus truncation and carries only differ before 1970 and for particular sub-second parts; rounding of floats only goes wrong for particular values.",
 [("timestamp*, from_timestamp* of each exact type", PY)],
 ["timestamp", "timestamp_millis", "timestamp_nanos", "from_timestamp", "from_timestamp_millis", "from_timestamp_nanos"])
prop("P08", "Ambiguous and skipped local times resolve by the chosen strategy",
 "Interpreting a local time in a timezone gives the only matching moment if there is one; for repeated times 'earlier'/'compatible' give the first and 'later' the second occurrence; for skipped times 'earlier' extrapolates the offset after the gap and 'later'/'compatible' the offset before it. 'raise' raises the repeated/skipped error in exactly those cases, and any other strategy name is rejected.",
 "Every local time, every timezone behaviour, every strategy, through each constructor and conversion.",
 "Three cases times four strategies times several entry points times every transition shape; tests use a few transitions in one zone.",
 [("_resolve_ambiguity", PY), ("ZonedDateTime.__init__/replace*", PY), ("LocalDateTime.assume_tz", PY)],
 ["ZonedDateTime(...)", "LocalDateTime.assume_tz", "ZonedDateTime.replace", "replace_date", "replace_time"], over=("inputs", "configurations"))
prop("P09", "A zoned datetime never holds a non-existent local time",
 "Every zoned datetime obtainable through the API denotes a local time that exists in its timezone, together with an offset which that timezone has at that moment. Its instant, converted back to the same timezone, is the same value with the same local time and offset.",
 "Every way of obtaining a value: construction, conversion, shifting, rounding, replacing, parsing, unpickling, from stdlib.",
 "It is an invariant over all operations and all transitions; tests check single operations on chosen transitions.",
 [("_resolve_ambiguity", PY), ("_resolve_ambiguity_using_prev_offset", PY), ("_adjust_fold_to_offset", PY), ("ZonedDateTime.from_py_datetime", PY)],
 ["every ZonedDateTime-returning operation"], over=("inputs", "configurations"))
prop("P10", "Zoned shifting: calendar units on local time, time units on the timeline",
 "Shifting a zoned datetime first moves its local date by months and days keeping the local time of day, resolving repeated or skipped results by the given strategy, or else by the choice that keeps the previous offset if there is one and like 'compatible' otherwise, and then moves by the exact amount of time units along the timeline. The timezone is unchanged and results out of range raise.",
 "Every zoned datetime, every delta or keyword amounts, every strategy, every timezone behaviour.",
 "The order of steps and the resolution only show around transitions that depend on value, delta and zone together.",
 [("ZonedDateTime._shift_kwargs, __add__, __sub__", PY), ("_resolve_ambiguity_using_prev_offset", PY)],
 ["ZonedDateTime.add", "ZonedDateTime.subtract", "ZonedDateTime + delta", "ZonedDateTime - delta"], over=("inputs", "configurations"))
prop("P11", "System-timezone datetimes follow the system timezone's rules",
 "Constructing, converting, replacing and shifting datetimes in the system timezone follow the same disambiguation and shifting rules as named timezones, with the system timezone's own transitions. Every result carries the offset the system timezone has at that moment.",
 "Every local time, delta and strategy; every system timezone behaviour that stays fixed during the call.",
 "Tests patch the system timezone to one or two zones and sample a few transitions.",
 [("_resolve_system_ambiguity", PY), ("_resolve_system_ambiguity_using_prev_offset", PY), ("SystemDateTime", PY)],
 ["SystemDateTime(...)", "LocalDateTime.assume_system_tz", "SystemDateTime.add", "SystemDateTime.replace*", "to_system_tz"], over=("inputs", "configurations"))
prop("P12", "Fixed-offset datetimes keep their offset and stay within UTC range",
 "Every operation on a fixed-offset datetime that takes no new offset returns a value with the same offset, shifting moves the local time by calendar units first and exact time units next, and no operation returns a value whose moment lies outside the range of instants. Offsets are whole seconds strictly between -24 and +24 hours; anything else is rejected.",
 "Every fixed-offset datetime, every shift and replacement, every offset.",
 "Values near the range ends with unfavourable offsets are missing from the tests; a value escaping the range breaks later comparisons and conversions.",
 [("OffsetDateTime", PY), ("_check_utc_bounds", PY), ("_load_offset", PY)],
 ["OffsetDateTime(...)", "OffsetDateTime.add/subtract/replace*", "LocalDateTime.assume_fixed_offset"])
prop("P13", "Local datetime arithmetic is calendar shifting plus exact time",
 "Shifting a local datetime moves its date by months (with clamp) and days, keeps the time of day, and then moves by the exact number of nanoseconds with carry; the difference of two local datetimes is the exact number of nanoseconds between them. Out of range results raise.",
 "Every local datetime, every delta and keyword amount.",
 "Carry from nanoseconds to days with negative amounts and month clamps interact; tests sample some combinations.",
 [("LocalDateTime._shift_kwargs, __add__, __sub__, difference", PY)],
 ["LocalDateTime.add", "LocalDateTime.subtract", "LocalDateTime +/- DateDelta", "LocalDateTime.difference"])
prop("P14", "DST-unsafe operations need explicit consent",
 "Operations that would silently ignore daylight saving (exact-time arithmetic or difference on local datetimes, any adjustment, rounding, or 'now'/timestamp creation with a fixed offset) raise the implicitly-ignoring-DST error unless consent is given with the literal value True. With consent, or on DST-safe operations, that error is never raised.",
 "Every operand value, every delta, every non-True consent value.",
 "The gate must hold for all delta shapes, including zero and date-only ones, and for truthy values that are not True.",
 [("ignore_dst checks in OffsetDateTime and LocalDateTime", PY)],
 ["OffsetDateTime methods", "LocalDateTime methods and operators"])
prop("P15", "Rounding returns the right multiple for every mode",
 "Rounding a time, instant, local or fixed-offset datetime or time delta returns the multiple of the increment that the mode prescribes: floor the largest not above, ceil the smallest not below, the half modes the nearest with ties going up, down or to the even multiple. Rounding past midnight carries into the next day where there is one, and wraps for a bare time.",
 "Every value, unit, valid increment and mode.",
 "Ties and near-ties sit at single nanoseconds; odd increments have no exact tie at all. Tests use few values per unit.",
 [("Time._round_unchecked", PY), ("TimeDelta.round", PY), ("LocalDateTime._round_unchecked", PY), ("Instant.round", PY)],
 ["round() of Time, TimeDelta, Instant, LocalDateTime, OffsetDateTime"])
prop("P16", "Zoned and system rounding respects the day and the offset",
 "Rounding a zoned or system datetime to a day returns the start of that local day or of the next one as the mode prescribes, measured against the day's real length; rounding to smaller units rounds the local time and keeps the offset where that is possible. The result always exists in the timezone.",
 "Every zoned or system datetime, unit, increment, mode and timezone behaviour.",
 "Short and long days only occur at transitions; the tests round on a few of them.",
 [("ZonedDateTime.round", PY), ("SystemDateTime.round", PY)],
 ["ZonedDateTime.round", "SystemDateTime.round"], over=("inputs", "configurations"))
prop("P17", "Invalid rounding requests are rejected",
 "Rounding is accepted only for a known unit and mode and an increment of at least 1 that divides the next larger unit (any hour count up to 1000 for time deltas; days only singly and only for types with a date and a day length). Everything else raises a value error and never returns a value.",
 "Every unit or other string, every integer increment, every mode or other string, each type.",
 "The set of accepted triples must be exactly right for all integers, not the sampled ones.",
 [("increment_to_ns", PY), ("round methods", PY)],
 ["round() of every type"])
prop("P18", "Time delta arithmetic is exact integer nanosecond arithmetic",
 "A time delta is exactly the sum of its integer components in nanoseconds, and a float amount of a unit is its value to the nanosecond and the precision of the float; addition, subtraction, negation, absolute value, multiplication and division by integers, floor division and modulo by another delta follow integer arithmetic on nanoseconds, and comparison, truth value and hash follow the total. Totals outside the documented range raise, never wrap.",
 "Every pair of deltas, every integer factor, every combination of integer components; every float amount that is a multiple of one of 10 powers of 2.",
 "Exactness fails only for totals beyond floating-point precision or for particular signs.",
 [("TimeDelta", PY)],
 ["TimeDelta(...)", "hours()...nanoseconds()", "operators of TimeDelta"])
prop("P19", "Delta decompositions add up to the whole",
 "Splitting a delta into hours/minutes/seconds/nanoseconds, years/months/days or months/days/seconds/nanoseconds yields components of one sign, each within the range of its unit, whose total is the delta again. The single-unit readings are the correctly rounded quotient, and conversion to and from the standard library's timedelta is exact up to the microsecond floor.",
 "Every delta.",
 "Sign handling and values beyond 2**53 nanoseconds are not sampled.",
 [("TimeDelta.in_*", PY), ("DateDelta.in_*", PY), ("DateTimeDelta.in_months_days_secs_nanos", PY), ("py_timedelta/from_py_timedelta", PY)],
 ["in_hrs_mins_secs_nanos", "in_years_months_days", "in_months_days", "in_months_days_secs_nanos", "in_hours...", "py_timedelta", "from_py_timedelta"])
prop("P20", "Calendar deltas never mix signs and obey their algebra",
 "Date deltas and date-time deltas obtained in any way have all their components of one sign and within range; operations that would mix signs or leave the range raise. Addition, subtraction, negation, multiplication and absolute value act component-wise, and equality, truth value and hash follow the components.",
 "Every pair of deltas of every kind, in every operator combination, every integer factor.",
 "Mixed signs arise only for particular operand combinations through particular operators.",
 [("DateDelta", PY), ("DateTimeDelta", PY), ("DateTimeDelta._from_parts", PY)],
 ["DateDelta and DateTimeDelta constructors and operators"])
prop("P21", "ISO format and parse are inverse for dates, times and datetimes",
 "Formatting any date, year-month, month-day, time, instant, local, offset, zoned or system datetime in the common ISO format and parsing the text back gives an identical value (fields, nanoseconds, offset and timezone). The text has the documented canonical shape.",
 "Every value of each type, every timezone behaviour and offset incl. sub-minute ones.",
 "Sub-second digit trimming, sub-minute and negative offsets and repeated hours each need particular values.",
 [("format_common_iso/parse_common_iso of each type", PY)],
 ["format_common_iso", "parse_common_iso", "str()"], over=("inputs", "configurations"))
prop("P22", "ISO format and parse are inverse for deltas",
 "Formatting any time delta, date delta or date-time delta and parsing the text back gives an equal delta, to the nanosecond. The text has the documented canonical shape.",
 "Every delta.",
 "The fraction passes through floating point in places; it is wrong for particular digit strings only.",
 [("TimeDelta/DateDelta/DateTimeDelta format_common_iso and parse_common_iso", PY)],
 ["format_common_iso", "parse_common_iso", "str()"])
prop("P23", "Parsers accept exactly the documented grammar",
 "Each parse function returns a value only for texts of the documented grammar and raises a value error for every other text (a timezone lookup error where the text is well-formed but names an unknown timezone); it never raises another exception type and never reads a malformed text as some other value. Out-of-range fields and offsets are rejected.",
 "Every string (bounded in length by the grammar), for each parse function.",
 "Tests try a list of malformed strings; the claim is about all of them.",
 [("module-level regular expressions", PY), ("parse_* methods", PY)],
 ["parse_common_iso of every type", "parse_rfc3339"])
prop("P24", "Pickling and copying preserve every value",
 "Unpickling a pickled value of any type gives an identical value of the same type (fields, nanoseconds, offset, timezone), and copying returns the value itself or an equal one.",
 "Every value of every type.",
 "Field widths and signs in the packed layout only overflow for particular values.",
 [("__reduce__ and _unpkl_* of each type", PY)],
 ["pickle.loads(pickle.dumps(x))", "copy.copy", "copy.deepcopy"], over=("inputs", "configurations"))
prop("P25", "Standard library conversions round-trip to the microsecond",
 "Converting a value to its standard-library counterpart keeps all fields, truncating nanoseconds to microseconds, and converting a standard-library value (subclasses included) gives a value with the same fields, offset and moment. Naive or aware values are rejected where the type calls for the other.",
 "Every value of every type, every tzinfo kind, both folds, skipped times included.",
 "Folds, skipped times, subclasses and sub-second parts are each sampled separately by tests.",
 [("py_datetime/py_date/py_time", PY), ("from_py_datetime/from_py_date/from_py_time", PY), ("_strip_subclasses", PY)],
 ["py_datetime", "from_py_datetime", "py_date", "from_py_date", "py_time", "from_py_time"], over=("inputs", "configurations"))
prop("P26", "RFC 3339 format and parse agree",
 "Formatting an instant or offset datetime in RFC 3339 and parsing it back gives an identical value whenever the offset is a whole number of minutes. The text has the RFC 3339 shape.",
 "Every instant; every offset datetime with a whole-minute offset.",
 "Digit trimming and negative offsets need particular values.",
 [("format_rfc3339/parse_rfc3339", PY)],
 ["format_rfc3339", "parse_rfc3339"])
prop("P27", "RFC 2822 format and parse agree",
 "Formatting an instant or offset datetime (year 1000 or later, whole-minute offset) in RFC 2822 and parsing it back gives the same value truncated to the second. The text names the correct weekday.",
 "Every instant and offset datetime in that domain.",
 "The format goes through the standard library's email utilities, whose weekday, month name and zone handling vary over the calendar.",
 [("format_rfc2822/parse_rfc2822", PY)],
 ["format_rfc2822", "parse_rfc2822"])
prop("P28", "Replacing a field changes that field only",
 "Replacing fields of a date, year-month, month-day, time or datetime gives a value whose named fields have the new values and whose other fields (nanosecond, offset or timezone included) are unchanged, or raises if the result is not valid. Taking a datetime apart into date and time and putting it together again is the identity.",
 "Every value, every subset of fields, every new value.",
 "Each field combination is a separate path; invalid combinations depend on the untouched fields.",
 [("replace, replace_date, replace_time", PY), ("at/on/date/time/in_year/on_day", PY), ("_pop_nanos_kwarg", PY)],
 ["replace", "replace_date", "replace_time", "Date.at", "Time.on", "date()", "time()", "year_month", "month_day", "in_year", "on_day"])
prop("P29", "Constructors accept exactly the valid fields",
 "Each constructor returns a value carrying exactly the given fields when all are in range (calendar-valid date, clock time, nanosecond below one second, offset and moment in range) and raises otherwise. No value with an out-of-range field can be constructed.",
 "Every integer for every field of every constructor.",
 "Tests try a few out-of-range values for some fields of some types.",
 [("__init__ / from_utc of every type", PY)],
 ["Date(...)", "YearMonth(...)", "MonthDay(...)", "Time(...)", "Instant.from_utc", "OffsetDateTime(...)", "ZonedDateTime(...)", "SystemDateTime(...)", "LocalDateTime(...)"])
prop("P30", "Day boundaries and ambiguity are read off the timezone correctly",
 "The start of day is local midnight of the same date (resolved forward like 'compatible' if midnight is skipped), the day length is the exact time from this day's local midnight to the next one's, and a datetime reports itself ambiguous exactly when its local time occurs twice in its timezone.",
 "Every zoned and system datetime, every timezone behaviour.",
 "Only days with transitions at or around midnight distinguish implementations.",
 [("start_of_day, day_length, is_ambiguous", PY)],
 ["start_of_day", "day_length", "is_ambiguous"], over=("inputs", "configurations"))
prop("P31", "Patched time is exactly what was asked for, and is undone",
 "While time is patched, every 'now' function reports the pinned moment, plus the real time elapsed when ticking (apart from the time spent inside shift() itself), plus all later shifts, in the requested zone or offset. After the patch ends, normally or by an exception, 'now' follows the real clock again.",
 "Every pinned value of every type, every sequence of shifts, every behaviour of the real clock; one patch at a time.",
 "Tests shift once or twice and compare with tolerances; drift and lost shifts need symbolic clock values to see.",
 [("patch_current_time, _TimePatch.shift", INIT), ("_patch_time_frozen/_patch_time_keep_ticking/_unpatch_time", PY), ("now() of each type", PY)],
 ["patch_current_time", "Instant.now", "ZonedDateTime.now", "OffsetDateTime.now", "SystemDateTime.now", "Date.today_in_system_tz"], over=("inputs", "histories"), files=(PY, INIT))
prop("P32", "Exact equality distinguishes everything but identical values",
 "Exact equality of two values of the same type holds exactly when moment, local time, offset and timezone are all the same, and raises for values of different types.",
 "Every pair of values of each exact type, every pair of timezones.",
 "Pairs that agree in all but one respect (same moment and offset in two different zones) are not sampled.",
 [("exact_eq", PY)],
 ["exact_eq"], over=("inputs", "configurations"))
prop("P33", "The Rust extension computes what the documented semantics require",
 "For every operation and input, the Rust code of the compiled extension (src/*.rs) gives the result, or raises the kind of error, that the documented semantics require - the ones the pure-Python version is held to: calendar and clock arithmetic, time zones and disambiguation, rounding, comparisons and hashes, ISO formats, pickles and conversions. It never aborts the process.",
 "Every operation and input, in the compiled extension's Rust code.",
 "The tests sample inputs, and run against the pure-Python version unless the extension has been compiled: then they say nothing about the Rust code.",
 [("src/*.rs", "src")],
 ["every public operation of the extension"], files=("src/lib.rs", "src/date.rs", "src/time.rs", "src/local_datetime.rs", "src/zoned_datetime.rs", "src/offset_datetime.rs", "src/instant.rs", "src/time_delta.rs", "src/date_delta.rs", "src/datetime_delta.rs"))
prop("P34", "Operations never change their operands",
 "No public operation changes the observable value of the object it is called on or of any argument; every value stays equal to itself with the same hash for its whole life.",
 "Every operation and every operand.",
 "A frame condition: tests look at results and rarely at operands afterwards.",
 [("_ImmutableBase, _object_new-based constructors", PY)],
 ["every public operation"])
prop("P35", "Weekdays, leap days and the constants are right",
 "The day of the week of every date is the one of the proleptic Gregorian calendar, and a month-day reports itself a leap day exactly when it is February 29th. The MIN, MAX, ZERO, NOON and MIDNIGHT constants have their documented values, and no value of a type lies outside its MIN and MAX.",
 "Every date, every month-day, every value of each type with constants.",
 "Tests read the weekday of a few dates; the claim covers 3.6 million dates and every value against the extremes.",
 [("Date.day_of_week, Weekday", PY), ("MonthDay.is_leap", PY), ("MIN/MAX/ZERO/NOON/MIDNIGHT assignments", PY)],
 ["Date.day_of_week", "MonthDay.is_leap", "MIN", "MAX", "ZERO", "NOON", "MIDNIGHT"])
prop("P36", "Incompatible kinds never mix",
 "Two values of kinds that the documentation does not combine (a local with an exact datetime, a date with a time delta, any value with a bare number or a standard library object, and so on) never compare equal, are never ordered, and are never added or subtracted: the operation raises a type error. The documented combinations return a value of the documented type.",
 "Every pair of kinds under every comparison and arithmetic operator, for all values of those kinds.",
 "The full table has over 1500 entries, each of which must hold for all values; the tests try a few pairs.",
 [("operator dunders of every type", PY), ("_KnowsInstant", PY)],
 ["==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "//", "%"])
prop("P37", "Results do not depend on earlier calls",
 "Apart from reading the clock, the system timezone and the timezone data, the result of an operation depends only on its operand and arguments: no earlier operation, on any other value (even an equal one, or one naming the same moment in another timezone), changes what a later operation returns or raises.",
 "Every operation, all operands, and any earlier operation of the same kind on any other operands.",
 "Caches keyed by equality or moment, memoised offsets and shared state show only for the right pair of values in the right order.",
 [("_object_new-based constructors, module state and caches", PY)],
 ["every public operation"], over=("inputs", "histories"))
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
