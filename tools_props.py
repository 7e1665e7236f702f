#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Every string yields a complete result or an error, never a panic",
"For every input string, parsing (as a whole or by level), validating, matching, comparing and deriving ranges return normally: they never panic. Parsing returns exactly one of a result and an error, and every result has a start and an end which each have a lower and an upper date.",
["inputs"],"all byte strings, for every public entry point that takes an EDTF string (for set representations: up to the number of members stated in the evidence)",
"The tests feed a few dozen well-formed strings; inputs such as 1950S5 (which used to panic) or Y1E999999999 are outside of any sample and the set of strings is infinite.",
["parser/parser.go","level0/","level1/","level2/","common/","cmp/","unix/range.go"],
[("guards in front of every index and dereference","level2/significant_digits.go, level2/set_representation.go, common/range.go"),("error returns of every parsing step","common/span.go DateSpanFromEDTF, dateSpanFromYMD")],
["parser.ParseString","parser.IsValid","parser.Matches","level0/1/2 ParseString","cmp.IsBefore","cmp.IsAfter","cmp.IsBetween","unix.DeriveRanges"])

p("C02","A complete date covers exactly the days it names",
"A date YYYY, YYYY-MM or YYYY-MM-DD of any year from -9999 to 9999 resolves to its first day (lower date of the start, at 00:00:00 UTC) and its last day (upper date of the end, at 23:59:59 UTC) in the proleptic Gregorian calendar with a year zero; for years and months the start and the end each cover the whole of the first and the last day, while a single day starts at 00:00:00 and ends at 23:59:59. A date that does not exist, such as February 29 of a common year, is rejected with an error.",
["inputs"],"all 4- and 5-character years, all months, all days of every month of the years -9999..9999, and all day numbers up to 31 that do not exist",
"There are some 7.3 million days; leap, century and BCE rules and month lengths interact and the tests hold six dates.",
["level0/date.go","common/range.go","common/span.go","common/ymd.go","common/time.go","calendar/calendar.go","re/re.go"],
[("month and day defaults of a reduced-precision date","common/range.go StringRangeFromYMD"),("days in month, leap years","calendar/calendar.go DaysInMonth"),("BCE years via positive years","common/time.go TimeWithYMD, common/year.go TimeToBCE")],
["parser.ParseString","level0.ParseString","level0.ParseDate"])

p("C03","A date and time resolves to the exact instant it denotes",
"A date and time without a zone or with Z resolves to that UTC instant, and one with a time shift ±hh or ±hh:mm to the instant that many hours and minutes earlier (+) or later (-), for all years from -9999 to 9999 and across day, month and year (including BCE) boundaries. All four dates of the result carry that same instant, expressed in UTC, whatever the local timezone, and no year, month and day triple; an hour, minute, second or calendar day that does not exist is rejected.",
["inputs","configurations"],"all dates, all times of day, all shifts from -23:59 to +23:59 with and without minutes, any local timezone",
"Four example strings are tested, none near a year boundary, before year zero or in another local timezone.",
["level0/date_and_time.go","common/year.go","date.go","timestamp.go","re/re.go"],
[("layout selection","level0/date_and_time.go ParseDateAndTime"),("year negation before the shift to UTC","common/year.go TimeToBCE"),("formatting and timestamp","date.go SetTime")],
["parser.ParseString","level0.ParseString","level0.ParseDateAndTime"])

p("C04","An interval spans from its first to its second operand",
"In an interval A/B the start covers exactly what A covers (lower: earliest instant of A, upper: latest instant of A) and the end exactly what B covers, for every supported combination of complete, qualified and unspecified dates. An operand '..' marks both dates of its side as open, and an empty operand marks them as unknown, without any timestamp; each side records its own operand string and its own qualifiers and precision, and an operand that cannot be resolved makes the whole interval an error.",
["inputs"],"all pairs of operands accepted by the level 0, level 1 (open and unknown ends) and level 2 interval grammars",
"Pairs of operands multiply every date feature with every other; the tests hold about twenty intervals, few of them mixing features.",
["level0/time_interval.go","level1/extended_interval.go","level2/interval.go","common/span.go","re/re.go"],
[("combination of two spans","common/span.go DateSpanFromEDTF"),("open and unknown operands","common/span.go dateSpanFromEDTF, OpenDateSpan, UnknownDateSpan; common/range.go")],
["parser.ParseString","level0.ParseTimeInterval","level1.ParseExtendedInterval","level2.ParseInterval"])

p("C05","Qualifiers flag exactly the components they apply to",
"A qualifier to the right of a component flags that component and every component to its left, and a qualifier to the left of a component flags that component only; '?' flags uncertain, '~' flags approximate and '%' flags both, and flags from several qualifiers accumulate. All four dates of the result carry the same uncertain and approximate flags, nothing else is flagged, and the qualifiers do not change the instants the date resolves to.",
["inputs"],"all qualified dates of levels 1 and 2: any qualifier, or none, on either side of each of the year, month and day, and qualified operands of intervals",
"There are 7 states per component and 343 combinations per date; the tests check single bits of six strings.",
["common/range.go","common/span.go","level1/qualified_date.go","level2/qualification.go","level2/interval.go","re/re.go","re/common.go"],
[("qualifier detection","common/range.go parseYMDComponent"),("flag assignment","common/range.go StringRangeFromYMD"),("flags copied on the dates","common/span.go dateSpanFromYMD")],
["parser.ParseString","level1.ParseQualifiedDate","level2.ParseGroupQualification","level2.ParseIndividualQualification"])

p("C06","Unspecified digits resolve to the earliest and latest matching day",
"A date with unspecified digits X starts on the first and ends on the last day matching it: a year with trailing X covers its decade, century or millenium (inner X digits included when the last year digit is X), month XX is January to December, 0X January to September and 1X October to December, and day XX, 0X, 1X, 2X or 3X covers the first to the last existing day with that pattern in the first and the last matching month respectively. The start covers the whole of that first day and the end the whole of that last day (a pattern that resolves to a single day starts at 00:00:00 and ends at 23:59:59); rejected with an error are a year whose first digit is X, an X in front of a digit in a month, in a day or before the last digit of a year, and a day that does not exist in the first or the last matching month.",
["inputs"],"all dates of levels 1 and 2 with at least one X in the year, month or day",
"Every subset of eight digit positions can be X, with month lengths and leap years in play; the tests hold eleven such strings.",
["common/range.go","common/span.go","level1/unspecified_digits.go","level2/unspecified_digit.go","calendar/calendar.go","re/re.go"],
[("year, month and day ranges","common/range.go StringRangeFromYMD"),("last day of the month","calendar/calendar.go DaysInMonthWithString")],
["parser.ParseString","level1.ParseUnspecifiedDigits","level2.ParseUnspecifiedDigit"])

p("C07","Seasons and sub-year groupings cover the months they stand for",
"Seasons 21-24 and their names (in any case, with optional spaces around the comma) cover March-May, June-August, September-November and December-February of the following year, for all years -9999 to 9998, and sub-year groupings 25-41 cover their season by hemisphere as listed in the package documentation of level 2, the quarters, the quadrimesters and the semesters, for years 0000 to 9998. The start is the first second of the first month and the end the last second of the last day of the last month, leap years included.",
["inputs"],"all years with each of the codes 21 to 41, and all spellings of the four season names",
"Some 20,000 years times 21 codes against six tested strings; BCE and zero-padded years were rejected without any test noticing.",
["level1/season.go","level2/sub_year_grouping.go","common/year.go","common/span.go","re/re.go"],
[("season months","level1/season.go ParseSeason"),("grouping table","level2/sub_year_grouping.go ParseSubYearGroupings"),("year rendering","common/year.go StringYear")],
["parser.ParseString","level1.ParseSeason","level2.ParseSubYearGroupings"])

p("C08","A set spans from its chronologically first to its last member",
"A set [..] or {..} starts at the earliest instant and ends at the latest instant of any of its members, in whatever order and precision they are listed and whether they are separated by commas or a range. A leading '..' makes both dates of the start open and a trailing '..' both dates of the end open, with the members covered by the remaining side; every date of a side that is not open is marked 'any' for square brackets and 'all' for curly ones.",
["inputs"],"all lists of complete dates of years -9999..9999, with and without leading and trailing '..' (number of members bounded as stated in the evidence)",
"Lists are unbounded and order, sign and precision interact; the tests hold nine sets, all of them positive and sorted.",
["level2/set_representation.go","common/span.go","common/range.go","re/re.go"],
[("member collection and bookends","level2/set_representation.go ParseSetRepresentations"),("open sides","level2/set_representation.go (open_post_facto)")],
["parser.ParseString","level2.ParseSetRepresentations"])

p("C09","Y years, exponents and significant digits resolve exactly or are refused",
"Y followed by a four-digit year, and Y with an exponent whose value is between -9999 and 9999, cover exactly that year; a year with n significant digits marked by S covers all years that differ from it in the last n digits only (of the four-digit year, ordered from the earlier to the later for negative years). Years beyond -9999..9999 are always refused with an error, reported as unsupported for Y years with more than four digits and for exponents up to 10^6, and are never wrapped, truncated or resolved to another year.",
["inputs"],"all digit strings after Y, all mantissas and exponents, all years with all digit counts",
"Mantissas and exponents are unbounded; 1E64 (wrapped to year 0) and 1950S5 (panic) were not in the handful of tested strings.",
["level1/letter_prefixed_calendar_year.go","level2/exponential_year.go","level2/significant_digits.go","common/exponential.go","common/year.go"],
[("range check before conversion","common/exponential.go ParseExponentialNotation"),("digit replacement","level2/significant_digits.go ParseSignificantDigits"),("length check","level1/letter_prefixed_calendar_year.go")],
["parser.ParseString","common.ParseExponentialNotation","level1.ParseLetterPrefixedCalendarYear","level2.ParseExponentialYear","level2.ParseSignificantDigits"])

p("C10","Validation, matching and parsing agree on what is EDTF",
"For every string, validation is positive exactly when matching reports a level and a feature or the string is empty or '..', and a string that is not valid is never parsed; a successful parse reports the same level and feature as matching and echoes the input string unchanged. The parsing function of each level and feature reports that level and feature, and outside of the notations of months, seasons and sub-year groupings, which overlap, it resolves a string exactly as parsing it as a whole does. Every string of the EDTF level 0, 1 and 2 grammar (as far as the package documents support for it) is valid and reported with its level and feature, and a string with anything before, between or after the parts of that grammar is not.",
["inputs"],"all byte strings",
"Agreement between three entry points and rejection of everything else are statements about all strings; the tests only present valid examples, and an unanchored alternation had 2004-06~ parsed as a season unnoticed.",
["parser/parser.go","level0/level0.go","level1/level1.go","level2/level2.go","re/"],
[("anchored patterns","re/level0.go, re/level1.go, re/level2.go, re/re.go"),("dispatch order","parser/parser.go, level*/level*.go")],
["parser.IsValid","parser.Matches","parser.ParseString","level0/1/2 IsLevelN, Matches, ParseString"])

p("C11","The representations of each date in a result agree",
"In every result each dated side has a timestamp, an RFC 3339 string and (except for dates with a time) a year-month-day triple that denote the same UTC second and day, and a side that is open or unknown has none of them. The lower and upper accessors return exactly the instants of the start's lower and the end's upper date, or a not-set error when there is none, and on every side, and from start to end for everything but intervals, lower is never later than upper.",
["inputs"],"all strings that parse, all four dates of the result",
"A relation between redundant fields over every parsable string; tests compare a few fields of examples with literals.",
["date.go","edtf.go","timestamp.go","ymd.go","common/span.go","level0/date_and_time.go"],
[("single source for string and timestamp","date.go SetTime"),("accessors","edtf.go Lower, Upper"),("conversion","timestamp.go NewTimestampWithTime, Time, Unix")],
["parser.ParseString","EDTFDate.Lower","EDTFDate.Upper","Timestamp.Time","Timestamp.Unix"])

p("C12","Before, after and between are strict, dual and never contradictory",
"A date is before another exactly when its latest instant is strictly earlier than the earliest instant of the other, and after it exactly when its earliest instant is strictly later than the latest of the other, so that x before y equals y after x, both never hold at once and nothing is before or after itself (unless it is an interval that ends before it starts); a bare open date is neither, and a missing instant is an error. A date is between an inception and a cessation exactly when it is neither before the one nor after the other (an open cessation imposes no limit), and strings that cannot be parsed yield an error and false.",
["inputs"],"all pairs of results, with any combination of set and unset instants, and all pairs and triples of strings",
"Duality and irreflexivity quantify over all pairs of dates; the tests hold five pairs with clear-cut answers.",
["edtf.go","cmp/before.go","cmp/after.go","cmp/between.go"],
[("comparison of bounds","edtf.go Before, After"),("combination","cmp/between.go IsBetween")],
["EDTFDate.Before","EDTFDate.After","cmp.IsBefore","cmp.IsAfter","cmp.IsBetween"])

p("C13","Derived Unix ranges are the bounds of the parsed date",
"Deriving ranges from a string reports the outer range from the start's lower to the end's upper date and the inner range from the start's upper to the end's lower date, as the Unix timestamps of the parsed result. It reports that no range is available, without an error and without a range, for the open, unknown and unspecified strings and for every date with an open or unknown side, and an error exactly for other strings that do not parse.",
["inputs"],"all byte strings",
"A statement relating two entry points on all strings; the tests hold eight strings and no BCE, open-start or unknown date.",
["unix/range.go","edtf.go","timestamp.go"],
[("screening and extraction","unix/range.go DeriveRanges, isValid")],
["unix.DeriveRanges"])

p("C14","Timestamps and dates survive JSON encoding",
"A timestamp is encoded as its plain decimal number of seconds and decoding that number, bare or quoted, restores it for every 64-bit value, while text that holds no 64-bit decimal number is refused and leaves the timestamp unchanged. The encoded form of a result uses the documented field names, omits what is unset except for the year-month-day triple, and decodes to an equal result.",
["inputs"],"all 64-bit timestamps, all byte strings offered for decoding, all results",
"No test encodes or decodes anything.",
["timestamp.go","date.go","daterange.go","edtf.go","ymd.go"],
[("custom encoding","timestamp.go MarshalJSON, UnmarshalJSON"),("field tags","date.go, daterange.go, edtf.go, ymd.go")],
["Timestamp.MarshalJSON","Timestamp.UnmarshalJSON","json.Marshal of EDTFDate"])

p("C15","Open, unknown, unspecified and deprecated values are told apart exactly",
"The open predicate holds for '..' and 'open' only, and the unknown and unspecified predicates hold for the empty string and 'uuuu' only; no string is both open and unknown. A string is deprecated exactly when a replacement exists for it, the replacement is the current value of the same meaning ('..' for 'open', the empty string for 'uuuu') and is not itself deprecated, and every other string has no replacement and yields an error.",
["inputs"],"all byte strings",
"Exactness (only these strings) cannot be sampled, and no test covers these functions.",
["edtf.go","deprecated.go"],
[("constants and switches","edtf.go IsOpen, IsUnknown, IsUnspecified"),("replacement table","deprecated.go")],
["edtf.IsOpen","edtf.IsUnknown","edtf.IsUnspecified","edtf.IsDeprecated","edtf.ReplaceDeprecated"])

p("C16","Precisions are reported as documented and behave as bit sets",
"A date carries year precision unless unspecified digits say otherwise: a year with trailing X carries the precision of its last given digit (millenium, century or decade), a month 0X or 1X or a day XX in a given month carries month precision, and XX for both month and day year precision; all four dates of a single date agree, and dates with a time and open or unknown sides carry none. Precision flags are distinct single bits, and adding, clearing, toggling and testing flags affect exactly the given bits for every 32-bit value, the annual, monthly and daily tests being the tests of those flags.",
["inputs"],"all dates with and without unspecified digits, all 32-bit precisions and flags",
"No test exercises the flag operations, and precisions are checked for ten strings.",
["precision.go","common/range.go","common/span.go"],
[("flag constants and operations","precision.go"),("precision assignment","common/range.go StringRangeFromYMD")],
["edtf.Precision methods","parser.ParseString"])

p("C17","Each kind of error is recognised by its own predicate only",
"Every error built by a constructor (not set, not implemented, invalid, unsupported, unrecognized) is recognised by the predicate of that kind and by none of the others, and predicates hold for nothing else, nil included. A string that is not EDTF is reported as unrecognized by the parser and by matching and as invalid by the parsing functions of each level and feature, a year whose first digit is unspecified as not implemented and a year beyond the supported range as unsupported.",
["inputs"],"all label and string arguments, all errors, all strings for every parsing function",
"A cross product of constructors, predicates and inputs; no test asserts on a predicate, and the not-set constructor returned another kind unnoticed.",
["errors.go","parser/parser.go","level0/","level1/","level2/","common/"],
[("constructors and type switches","errors.go"),("rejection of foreign strings","level*/ ParseX functions")],
["edtf.NotSet, NotImplemented, Invalid, Unsupported, Unrecognized and their predicates","ParseX functions of each level"])

p("C18","Calendar and conversion helpers are exact for every year",
"The number of days in a month is that of the proleptic Gregorian calendar with a year zero (a negative year being a leap year when its absolute value is), for every month of the years -9999 to 9999 and equally from a string, and months outside 1 to 12 are refused. Conversion of a date string to year, month and day returns the given numbers, with January for a missing month and the last day of the month for a missing day, and refuses days the month does not have; the time built from a year, month, day and time of day denotes exactly that UTC second.",
["inputs"],"all years -9999..9999, all integer months, all days, all date strings of one, two or three components",
"240,000 months and 7.3 million days against four tested months and a handful of conversions.",
["calendar/calendar.go","common/ymd.go","common/time.go","common/year.go","ymd.go"],
[("first of next month minus a day","calendar/calendar.go DaysInMonth"),("BCE as positive years","common/time.go TimeWithYMD, common/ymd.go YMDFromStrings")],
["calendar.DaysInMonth","calendar.DaysInMonthWithString","common.YMDFromString(s)","common.TimeWithYMD","common.FlipYear","YMD.Equals"])

p("C19","Parsing and comparing are pure: no shared state, no history",
"No call to parse, validate, match, compare, derive ranges or query a result changes anything a later or concurrent call or another result can observe: the only writes are to memory allocated by the call itself, arguments are never modified, and no two results share mutable memory. Equal inputs therefore give equal results whatever was called before and however calls interleave.",
["schedules","histories","inputs"],"all sequences and interleavings of calls to the public functions, for all inputs",
"Tests call each function once, in sequence, on fresh inputs; a cache or a shared range object would go unnoticed.",
["parser/parser.go","level0/","level1/","level2/","common/","edtf.go","deprecated.go","re/"],
[("package variables assigned in init only","re/*.go, deprecated.go"),("fresh spans and ranges","common/span.go, common/range.go")],
["parser.ParseString","parser.IsValid","parser.Matches","cmp","unix.DeriveRanges","EDTFDate methods"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); n=x['statement'].count('. ')+1; assert n<=3,(x['id'],n)
print(len(P))
