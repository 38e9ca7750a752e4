# Regenerates /verif/properties.jsonl (kept as a script so that the statements stay readable).
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(obs),
                          "hook_needed": hook}})
S = "src/pycalendar/"
I = S + "icalendar/"

prop("C01", "Day numbers, weekdays, month lengths and POSIX times follow the calendar",
 "For every valid year, month and day, the leap-year rule, month lengths, days before a month, day of the year, day of the week and days-since-1970 reported by the library describe one and the same calendar: 1 January 1970 is day 0 and a Thursday, and each next valid date has the next day number and the next weekday. "
 "The POSIX time of a UTC, floating or fixed-offset date-time is exactly its day number times 86400 plus its time of day minus its UTC offset.",
 ["inputs"], "all years (positive, before 1970, century and non-century), all months, days and times of day",
 "Tests sample a few dozen dates between 1970 and about 2100; the arithmetic has separate branches for leap, century and pre-1752 years and memo tables that tests never compare with the month lengths.",
 [S+"utils.py", S+"datetime.py"],
 [("leap year and month tables", S+"utils.py:isLeapYear,daysInMonth,daysUptoMonth,leapDaysSince1970"), ("day number and weekday", S+"datetime.py:daysSince1970,getDayOfWeek,getYearDay"), ("instant", S+"datetime.py:getPosixTime")],
 [("cachedLeapYears/cachedLeapDaysSince1970", "memo tables", S+"utils.py")], ["DateTime.getPosixTime", "DateTime.getDayOfWeek", "utils.daysInMonth"])

prop("C02", "Normalisation yields in-range fields and the same instant",
 "Whatever integers have been put in the second, minute, hour, day and month fields of a date-time, normalising it (directly or through any offset operation) terminates with every field in its proper range and denotes the same instant as the original fields read as carries, with date-only values getting a zero time of day. "
 "Offsetting by seconds, minutes, hours or days moves the instant by exactly that amount, and offsetting by months or years moves the month count by exactly that amount before day overflow is carried.",
 ["inputs"], "all integer field values and all integer offsets",
 "The existing tests normalise a handful of values; carries across month, leap-day and year boundaries in both directions with arbitrary magnitudes are an unbounded input space and the day loop's correctness is an inductive fact.",
 [S+"datetime.py", S+"utils.py"],
 [("normalise carries and day loop", S+"datetime.py:normalise"), ("offset operations", S+"datetime.py:offsetSeconds,offsetMinutes,offsetHours,offsetDay,offsetMonth,offsetYear"), ("frequency step", S+"datetime.py:recur")],
 [], ["DateTime.normalise", "DateTime.offsetDay", "DateTime.recur"])

prop("C03", "Adding, subtracting and measuring durations is exact and invertible",
 "A duration built from any number of seconds, or from any weeks, days, hours, minutes and seconds, reports exactly that total, in canonical components with the right direction. "
 "Adding a duration to a date-time moves its instant by exactly the total, subtracting it again restores the original fields, and the difference of two date-times is the duration that added to the second gives the first.",
 ["inputs"], "all integer second counts and component values, all valid date-times (UTC, floating, fixed offset)",
 "Tests use a few small examples; the identities quantify over all integers including negative, week-multiple and zero totals and over month, year and century crossings.",
 [S+"duration.py", S+"datetime.py"],
 [("canonical split", S+"duration.py:setDuration"), ("total", S+"duration.py:getTotalSeconds"), ("date arithmetic", S+"datetime.py:__add__,__sub__")],
 [], ["Duration.getTotalSeconds", "DateTime.__add__", "DateTime.__sub__"])

prop("C04", "Comparison operators are a consistent order and equal values hash equal",
 "For valid date-times of the same kind (both dates without a zone, both floating, both in UTC or at fixed offsets, or both in one named zone), for durations and for periods, the six comparison operators agree with one total preorder: exactly one of less, equal, greater holds, the order is transitive, date-times are ordered by instant (by local time within one named zone), durations by total length and periods by start then end. "
 "Values that compare equal have equal hashes, and inequality is always the negation of equality.",
 ["inputs"], "all pairs and triples of valid values of the same kind",
 "Order laws quantify over pairs and triples of values; the tests assert a few concrete comparisons.",
 [S+"datetime.py", S+"duration.py", S+"period.py", S+"timezone.py"],
 [("three-way compare", S+"datetime.py:compareDateTime"), ("operators and hash", S+"datetime.py, duration.py, period.py:__eq__,__ne__,__lt__,__le__,__gt__,__ge__,__hash__")],
 [], ["DateTime comparison operators", "Duration comparison operators", "Period comparison operators", "hash()"])

prop("C05", "The cached instant always equals the instant recomputed from the fields",
 "After any sequence of public operations on a date-time (construction, setting or offsetting fields, changing or adjusting its timezone, normalising, parsing, duplicating), interleaved in any way with queries, the instant, the comparison results and the timezone offset it reports are those of a freshly built date-time with the same fields.",
 ["histories"], "all interleavings of mutating operations and queries on one date-time, starting from any state",
 "A stale cache only shows for a particular order of query, mutation and query; tests exercise few such orders, and a mutator that forgets to invalidate passes every test that does not query first.",
 [S+"datetime.py", S+"timezone.py"],
 [("cache fill", S+"datetime.py:getPosixTime,timeZoneSecondsOffset"), ("invalidation", S+"datetime.py:changed and every mutator"), ("preserved instant on UTC adjustment", S+"datetime.py:adjustToUTC")],
 [("mPosixTimeCached/mPosixTime/mTZOffset", "cached instant and zone offset", S+"datetime.py")], ["DateTime.getPosixTime", "DateTime.timeZoneSecondsOffset"])

prop("C06", "Selecting a date by weekday, month day, year day or week number is exact",
 "For every valid date, selecting the n-th (or n-th from last) given weekday of its month or year, the n-th (or n-th from last) day of its month or year, the next given weekday, or a (positive) ISO week number (in whose week a date already lies it stays), produces exactly the date that a day-by-day walk of the calendar would find, or the documented overflow into the neighbouring month or year. "
 "The matching predicates and the week-number query agree with the same walk.",
 ["inputs"], "all dates, all ordinals in the range a recurrence rule can carry, all weekdays and week numbers",
 "Each selector has cases for every weekday of the first/last day, leap years and sign of the ordinal; the tests cover a small table of them.",
 [S+"datetime.py"],
 [("n-th weekday", S+"datetime.py:setDayOfWeekInMonth,setDayOfWeekInYear,isDayOfWeekInMonth,setNextDayOfWeek"), ("month/year day", S+"datetime.py:setMonthDay,isMonthDay,setYearDay,getYearDay"), ("ISO weeks", S+"datetime.py:getWeekNo,setWeekNo,isWeekNo")],
 [], ["DateTime setters and predicates"])

prop("C07", "Date and date-time text survives a parse/generate round trip",
 "Every valid date or date-time with a year from 0 to 9999 (UTC, floating or, in the extended syntax, a whole-minute UTC offset) generates the iCalendar text and the XML/JSON text of its standard form, and parsing that text gives back the same fields and the same kind. "
 "Text that is not of an accepted form, including truncated text and text with trailing characters, is rejected with an error of the documented kind and never accepted or failed in another way.",
 ["inputs"], "all valid date-times with four-digit years; all strings fed to the parser",
 "Tests check a short list of strings; both the value space and the space of malformed strings are far larger, and acceptance of a malformed one is silent.",
 [S+"datetime.py"],
 [("generation", S+"datetime.py:getText,getXMLText"), ("parsing", S+"datetime.py:parse,parseDate,parseTime,parseFractionalAndUTCOffset")],
 [], ["DateTime.getText", "DateTime.parse"])

prop("C08", "Duration, UTC-offset and period values survive a text round trip",
 "Every duration with canonical components, every UTC offset within a day and every period generates text of the standard form whose parse denotes the same length, offset or start and end, in the plain syntax and in the extended (XML/JSON/vCard) syntax. "
 "Malformed text is rejected with the documented error, and a successful parse leaves nothing of the previous value behind.",
 ["inputs"], "all durations, all offsets from -86399 to 86399 seconds, all periods; all strings fed to the parsers",
 "The tests list a few literals per form; presence or absence of each component, sign and seconds combine into many cases and unbounded magnitudes.",
 [S+"duration.py", S+"utcoffsetvalue.py", S+"period.py", S+"stringutils.py"],
 [("duration text", S+"duration.py:generate,parse"), ("number scan", S+"stringutils.py:strtoul"), ("offset text", S+"utcoffsetvalue.py:generate,parse"), ("period text", S+"period.py:generate,parse")],
 [], ["Duration.getText/parse", "UTCOffsetValue.generate/parse", "Period.getText/parse"])

prop("C09", "Text escaping is lossless for every string and list of strings",
 "Escaping any text and unescaping the result gives back the text, and the escaped form contains no raw line break and no unescaped comma or semicolon. "
 "A list, nested list or multi-valued property built from any strings keeps the number of elements and every element unchanged through generate and parse.",
 ["inputs"], "all strings (including those with backslashes, separators and line breaks next to each other) and all lists of them",
 "The interesting inputs are particular adjacent combinations of backslash, separator and line-break characters in unbounded strings; tests carry about ten literals.",
 [S+"utils.py", S+"multivalue.py", S+"plaintextvalue.py", S+"textvalue.py", S+"vcard/n.py", S+"vcard/adr.py", S+"vcard/orgvalue.py"],
 [("escape", S+"utils.py:writeTextValue,escapeTextValue"), ("unescape", S+"utils.py:decodeTextValue"), ("lists", S+"utils.py:parseTextList,generateTextList,parseDoubleNestedList,generateDoubleNestedList"), ("multi-values", S+"multivalue.py:parse,generate")],
 [], ["utils.escapeTextValue/decodeTextValue", "MultiValue", "N", "Adr", "OrgValue"])

prop("C10", "Parameter encoding and property lines are lossless",
 "Encoding any parameter value for a property line and decoding it gives back the value with line breaks unified, and the encoded form contains no double quote or line break. "
 "A property with any parameters (names being tokens, at least one value each, values any text without control characters) generates a line from which parsing recovers the same name, the same parameters with the same values in the generated order, and the same value text.",
 ["inputs"], "all parameter values and combinations of parameters on a property",
 "Quoting decisions depend on which special characters occur and where; tests carry a few examples of each.",
 [S+"utils.py", S+"parameter.py", S+"stringutils.py", S+"property.py"],
 [("caret encoding", S+"utils.py:encodeParameterValue,decodeParameterValue"), ("quoting", S+"parameter.py:generate,generateValue"), ("tokeniser", S+"stringutils.py:strduptokenstr"), ("line parser", S+"property.py:parseText,parseTextParameters,generateValue")],
 [], ["Property.getText", "Property.parseText", "Parameter.getValues"])

prop("C11", "Line folding is lossless, bounded and never splits a character",
 "However long a generated property is, its output consists of lines of at most 75 octets each ended by CRLF, continuation lines start with one space, removing the folds gives back exactly the unfolded text, and no UTF-8 character is split between two lines. "
 "Reading folded text, with CRLF or LF line ends, yields exactly the unfolded logical lines in order.",
 ["inputs"], "all valid UTF-8 property texts of any length and all ways of folding them",
 "The fold position depends on the lengths of multi-byte characters around every boundary; tests use a handful of strings.",
 [S+"property.py", S+"utils.py"],
 [("folding writer", S+"property.py:generateValue"), ("unfolding reader", S+"utils.py:readFoldedLine")],
 [], ["Property.getText", "utils.readFoldedLine"])

prop("C12", "Recurrence rules survive a round trip and compare by content",
 "Every recurrence rule that the parser accepts generates text, and JSON, whose parse is an equal rule, whatever parts are present and in whatever order the parts were given; rules with out-of-range or duplicated parts, or both a count and an end date, are rejected. "
 "Rules that compare equal have equal hashes, and a duplicate equals its original and is unaffected by later changes to it.",
 ["inputs"], "all combinations of rule parts and values",
 "There are fourteen optional parts with list values; tests cover a few tens of combinations.",
 [I+"recurrence.py"],
 [("parse", I+"recurrence.py:parse,parseList,parseListDW,parseJSON"), ("generate", I+"recurrence.py:generate,generateList,writeJSON"), ("equality", I+"recurrence.py:equals,equalsNum,equalsDayNum,__hash__"), ("copy", I+"recurrence.py:duplicate")],
 [], ["Recurrence.parse/getText/==/hash/duplicate"])

prop("C13", "Each rule part expands or limits a set of dates exactly as specified",
 "Within one interval of a rule, every limiting part (month, ISO week number, month day, weekday, hour, minute, second) keeps exactly the candidate dates that satisfy it, every expanding part produces exactly one candidate per input date and listed value (or per matching weekday in the period), impossible dates are dropped, and set positions pick exactly the listed positions from either end of the sorted set. "
 "The parts are applied in the order and mode (expand or limit) that the standard's table gives for the frequency. "
 " (Week numbers are positive and Monday-based; rules that combine BYWEEKNO or BYYEARDAY with BYMONTH or BYMONTHDAY in a yearly rule are left out.)",
 ["inputs"], "all candidate lists, all lists of part values, all seven frequencies",
 "The expansion functions are loops over unbounded lists; the tests look at whole expansions of a few rules.",
 [I+"recurrence.py", S+"datetime.py"],
 [("limits", I+"recurrence.py:by*Limit"), ("expansions", I+"recurrence.py:by*Expand*"), ("table", I+"recurrence.py:generate*Set"), ("set positions", I+"recurrence.py:bySetPosLimit")],
 [], ["Recurrence.expand"])

prop("C14", "Expansion honours start, range, COUNT, UNTIL and order, whatever came before",
 "Expanding a rule over a range returns only instances within the range, none before the start or (other than the start itself) after the end date of the rule, in increasing order without repeats, never more than the rule's count in total, and spaced by the rule's interval when it has no other parts. "
 "The answer for a given start and range does not depend on what was expanded before from the same rule object, and changing any part of the rule takes effect on the next expansion.",
 ["inputs", "histories"], "all rules, starts and ranges, and all sequences of expansions and rule changes on one rule object",
 "The cache makes the answer a function of the query history, and the loop limits interact; tests mostly expand a fresh rule once.",
 [I+"recurrence.py"],
 [("expansion and cache", I+"recurrence.py:expand,simpleExpand,complexExpand,clear,_setAndclearIfChanged")],
 [("mRecurrences/mCached/mCacheStart/mCacheUpto/mFullyCached", "expansion cache", I+"recurrence.py")], ["Recurrence.expand"])

prop("C15", "A recurrence set is the union of its inclusions minus its exclusions",
 "Expanding a recurrence set over a range returns, in increasing order and without repeats, exactly the dates in the range that are the start or come from an included rule, date or period (a period gives its start, when the period overlaps the range), and are not equal to an excluded date or an instance of an excluded rule. "
 "Duplicated sets are equal to and independent of the original.",
 ["inputs"], "all sets of rules, dates and periods, all ranges",
 "Set identities quantify over arbitrary combinations of the four parts and ranges; tests cover a few fixed combinations.",
 [I+"recurrenceset.py", S+"utils.py"],
 [("expansion", I+"recurrenceset.py:expand"), ("difference", S+"utils.py:set_difference")],
 [], ["RecurrenceSet.expand"])

prop("C16", "A timezone answers with the observance in effect, independent of history",
 "For any timezone definition and any date-time, the UTC offset reported is the one of the latest transition at or before that time (on the local or the UTC time line, as asked), and zero before the first, whatever was asked of the same timezone before. "
 "Converting a date-time between UTC, fixed offsets and zones preserves its instant, except for local times that the zone skips or repeats.",
 ["inputs", "histories"], "all transition tables, all query times on both time lines, and all query sequences",
 "Lookups are cached and extended on demand, so the answer depends on the order of queries; tests ask each fresh timezone a few fixed questions.",
 [I+"vtimezone.py", I+"vtimezoneelement.py", S+"timezone.py", S+"datetime.py"],
 [("transition lookup and cache", I+"vtimezone.py:getTimezoneOffsetSeconds,tuple_bisect_right,expandAll"), ("zone dispatch", S+"timezone.py:timeZoneSecondsOffset,same"), ("conversion", S+"datetime.py:adjustTimezone,adjustToUTC")],
 [("mCachedExpandAll/mCachedOffsets", "transition and lookup caches", I+"vtimezone.py")], ["VTimezone.getTimezoneOffsetSeconds", "DateTime.adjustTimezone"])

prop("C17", "Periods are half-open intervals with coherent start, end and duration",
 "For every period, end equals start plus duration whichever of the two was given; a date-time is in exactly one of before, within and after a non-empty period, with the start included and the end excluded. "
 "Two non-empty periods overlap exactly when they share an instant, symmetrically, and duplicating, converting to UTC or switching between end and duration form changes neither start nor end.",
 ["inputs"], "all periods and date-times of the same kind (floating, UTC or fixed offsets)",
 "Boundary equalities quantify over all starts, ends and durations; there is almost no test of the predicates.",
 [S+"period.py"],
 [("accessors", S+"period.py:getEnd,getDuration,setUseDuration"), ("predicates", S+"period.py:isDateWithinPeriod,isDateBeforePeriod,isDateAfterPeriod,isPeriodOverlap")],
 [], ["Period predicates and accessors"])

prop("C18", "Component containers stay consistent through every add, remove and copy",
 "After any sequence of adding, removing and changing the identifier of components in a calendar and of properties in a component, looking up by type or identifier finds exactly the components that are present, property lookups are case-insensitive and return exactly the properties present in insertion order, and nothing else changes. "
 "A duplicated calendar, component or property equals the original, is written as the same text (when the components have identifiers) and shares no mutable state with it, and equal properties hash alike.",
 ["histories"], "all sequences of container operations",
 "The lookup maps are redundant copies of the component list, so only particular operation sequences expose a divergence; tests perform at most one or two operations.",
 [S+"componentbase.py", I+"component.py", I+"calendar.py", S+"property.py"],
 [("component list and maps", S+"componentbase.py:addComponent,removeComponent,removeAllComponent"), ("identifier maps", I+"calendar.py:addComponent,removeComponent,changeUID"), ("property map", S+"componentbase.py:addProperty,removeProperty,removeProperties,replaceProperty")],
 [("mComponents/mComponentsByType/mComponentsByUID", "component list and its indexes", I+"calendar.py"), ("mProperties", "property map", S+"componentbase.py")], ["Calendar.getComponents", "Calendar.getComponentByKey", "ComponentBase.getProperties"])

prop("C19", "Validation reports exactly the cardinality violations and fixing is idempotent",
 "Validating a component reports a problem for a property exactly when the number of its occurrences breaks the limits declared for it (exactly one, at least one, at most one) or its value breaks the rule for its values (a number in its range, a UTC time, a fixed text), and changes nothing unless asked to fix. "
 "When asked to fix, every problem that can be fixed is fixed, so that validating again reports none of those again and reports the same unfixable problems.",
 ["inputs"], "all multisets of properties on every component type, with and without fixing",
 "Occurrence counts of many properties combine freely; tests validate a few dozen fixed calendars.",
 [S+"componentbase.py", I+"component.py", I+"vevent.py", I+"vtodo.py", I+"valarm.py"],
 [("cardinality check", S+"componentbase.py:validate"), ("type-specific rules", I+"vevent.py, vtodo.py, valarm.py:validate")],
 [], ["ComponentBase.validate"])

prop("C20", "The timezone database reads only inside its directory and remembers correctly",
 "Looking up any timezone identifier, however it is spelled, opens no file outside the configured database directory. "
 "With well-formed files, whether an identifier is standard, and which definition it yields, does not depend on the order of earlier lookups, and added definitions are found by their identifier afterwards until the database is cleared.",
 ["inputs", "histories"], "all identifiers (including ones with path separators and dots), all database paths, all lookup and add sequences",
 "Escapes need particular combinations of directory names and identifier spellings; no test tries one.",
 [S+"timezonedb.py"],
 [("path check", S+"timezonedb.py:cacheTimezone"), ("lookup caches", S+"timezonedb.py:_getTimezone,_isStandardTimezone,addTimezone,mergeTimezone")],
 [("tzcache/stdtzcache/notstdtzcache", "lookup caches", S+"timezonedb.py")], ["TimezoneDatabase.getTimezone", "TimezoneDatabase.isStandardTimezone"])

prop("C21", "The tz compiler computes rule dates, times and offsets exactly",
 "For every rule line, the computed on-date in a year is the day the rule names (fixed day, last weekday, weekday on or after a day), the save amount and zone offsets are the signed values written, and converting a transition time between wall-clock, standard and UTC time uses exactly the zone offset and the save in effect. "
 "Converting to UTC and back to local time is the identity.",
 ["inputs"], "all rule and zone lines, all years, all offsets and saves, positive and negative",
 "The compiler is tested on three zones; signs, fractions of hours and day-of-month carry are case-splits those zones do not reach.",
 ["src/zonal/rule.py", "src/zonal/zone.py", "src/zonal/utils.py"],
 [("rule dates and save", "src/zonal/rule.py:getOnDayDetails,datetimeForYear,getOffset"), ("zone offsets", "src/zonal/zone.py:ZoneRule.getUTCOffset,getNumericOffset"), ("time conversion", "src/zonal/utils.py:DateTime.getLocaltime,getUTC")],
 [], ["Rule.datetimeForYear", "Rule.getOffset", "ZoneRule.getUTCOffset"])

prop("C22", "An iCalendar object written as JSON and read back is the same object",
 "For every iCalendar property (with each parameter name once), component and calendar, the JSON written by the library is read back as an equal object: the same names, the same parameters with all their values, the same value types and values, the same sub-components, and therefore the same text. "
 "Names and types are written in lower case, VALUE is written as the type and not as a parameter, and dates, times, offsets, periods, status texts and recurrence rules have the forms of RFC 7265. Writing changes nothing.",
 ["inputs"], "all iCalendar properties of every value type, all components and calendars",
 "The forms of sixteen value types combine freely with parameters, lists and nesting; tests convert a handful of fixed calendars.",
 [S+"property.py", S+"componentbase.py", S+"value.py", S+"multivalue.py", S+"parameter.py", S+"datetime.py", S+"period.py", S+"utcoffsetvalue.py", I+"recurrence.py", I+"requeststatusvalue.py"],
 [("properties", S+"property.py:parseJSON,generateValueJSON"), ("components", S+"componentbase.py:parseJSON,writeJSON"), ("values", S+"*value.py:parseJSONValue,writeJSONValue"), ("rules", I+"recurrence.py:parseJSON,writeJSON")],
 [], ["Calendar.getTextJSON", "Calendar.parseJSONData", "Property.parseJSON"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
