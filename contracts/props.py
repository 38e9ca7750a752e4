"""Per-property metadata of the checks."""
NOT_APPLICABLE = {}
TECH = "contract-based deductive verification of /repo's own AST (own VC generator, z3, cvc5)"
TECHB = TECH + "; bounded contract evaluation on the running code for functions out of reach"
NOTE = ("Every obligation generated from the current source is discharged for all inputs; trusted: the VC generator's semantics of the Python subset "
        "(cross-checked against Jython on each run), z3, the parser.")


def P(level="proof", harness=None, explanation="", technique=None, note=NOTE, **k):
    return dict(level=level, harness=harness, explanation=explanation, technique=technique or (TECHB if harness else TECH), note=note, **k)


PROPS = {
    "C01": P(explanation="Every function from the leap rule to getPosixTime is under contract and proved for all integers; memo tables carry invariants."),
    "C02": P(explanation="normalise is proved for all integer fields (loop invariants on the day number, termination measure), each offset operation on top of normalise's contract."),
    "C03": P(explanation="Canonical split and totals are proved for all integers; + and - move the instant by exactly the total; the laws add-then-subtract and difference-then-add are proved as client programs over those contracts."),
    "C04": P(explanation="Each comparison operator is proved to be the comparison of one integer key per value (instant, local seconds or day number; total seconds; start then end), so the order laws are those of the integers; equal keys give structurally equal hash inputs."),
    "C05": P(explanation="The cache invariant (whatever is cached is what would be recomputed) is a pre- and postcondition of every method that assigns a field; every query is proved to answer from the fields."),
    "C17": P(explanation="Accessors, predicates, copy, UTC conversion and form switching of periods are proved on top of the date-time and duration contracts."),
}
PROPS["C06"] = P(explanation="Each selector is proved to produce the date characterised by its weekday and the number of such days before or after it in the period (closed form first, then characterisation), on the calendar lemmas of C01; predicates and week numbers likewise.")
PROPS["C07"] = P(explanation="The reader is proved, for texts of any length, to accept exactly the accepted forms and to give the fields they denote (specification: a formula over characters and digit runs); the writers give the standard form digit by digit; write-then-read is proved to be the identity as a client program.")
PROPS["C08"] = P(explanation="Readers of durations, UTC offsets and periods are proved, for texts of any length and over any previous value, to accept exactly the accepted forms (with the two documented leniencies for durations) and give what they denote; writers give the standard form; write-then-read is proved to be the identity.")
PROPS["C21"] = P(harness="h_zonal.py", explanation="Amounts, offsets, years, rule dates, end dates and time conversions are proved for every line of the accepted forms and every year; whole-zone expansion, line splitting and the generated components are evaluated on the running code (bounded).")
PROPS["C13"] = P(harness="h_recur.py", explanation="Each rule part is proved, for lists of any length, to keep exactly the dates that match (limits) or to give exactly the dates named (expansions), on top of the selector contracts of C06; which parts apply, how and in what order is proved for every combination of parts and frequency; whole-rule expansion is compared with a day-by-day oracle on the running code (bounded).")
PROPS["C16"] = P(harness="h_tz.py", explanation="The offset lookup of a timezone (bisection by local or UTC onset, cache, repeated queries) is proved for every sorted list of transitions, and so is the expansion of a definition into that list, for any number of parts and any state of their caches, on top of C15; whole definitions are compared with a minute-by-minute oracle on the running code as well (bounded).")
PROPS["C20"] = P(harness="h_tz.py", explanation="Lookup, caching, containment of file access and the standard-timezone questions are proved against a ghost file system; reading well-formed and broken databases is evaluated on the running code (bounded).")
PROPS["C12"] = P(harness="h_recur.py", explanation="Equality, hashing and copying of rules, and reading number lists of any length, are proved; reading and writing whole rules is evaluated over symbolic rules of at most two parts (bounded) and on the running code (bounded).")
PROPS["C14"] = P(harness="h_recur.py", explanation="Expansion from the cache is proved to be the answer of a fresh expansion for every state of the cache; stepping through simple and complex rules is proved with loop invariants to give exactly the rule's dates up to the range, the count and the end date; every setter is proved to drop the cache on a change.  Whole rules are compared with a day-by-day oracle on the running code (bounded).")
PROPS["C15"] = P(harness="h_recur.py", explanation="Expansion is proved, for lists of any length and one arbitrary instant, to contain exactly the inclusions minus the exclusions, in order and without repeats; copying and the list accessors likewise; equality of the lists for at most three members (bounded).  Whole sets are compared with a day-by-day oracle on the running code (bounded).")
PROPS["C18"] = P(harness="h_comp.py", explanation="Property and parameter maps of any size are proved for the name operated on and one arbitrary other; component lists of any length; the calendar's maps are proved to be a function of the component list for one arbitrary type and identifier, kept by every operation; copying and equality of components and properties for at most two of each kind (bounded).  Random operation histories run on the real code (bounded).")
PROPS["C19"] = P(harness="h_comp.py", explanation="Each cardinality check is proved for an arbitrary declared name and any number of properties: one problem exactly when the limit is broken, fixed exactly when asked for and possible; the general validation for arbitrary checks and sub-components; the rules of each component type for any numbers of the properties concerned.  Random components are validated on the running code against declared limits of the oracle's own (bounded).")
PROPS["C09"] = P(harness="h_text.py", explanation="Escaping, unescaping, splitting lists at unprotected separators and multi-valued text are proved for texts and lists of any length by specification machines watched along every loop; a lemma shows that what is written reads back; nested lists (N, ADR, ORG) are proved on texts of at most 4 characters and evaluated through the property and component writers on the running code.")
PROPS["C11"] = P(harness="h_fold.py", explanation="The writer's folding (75 octets, no split character, content in order) and the reader's unfolding are proved for content of any length; whole components with every line ending are evaluated on the running code.")
PROPS["C10"] = P(harness="h_param.py", explanation="^-encoding and decoding of values of any length (each watched by a specification machine, and a lemma that one undoes the other), quoting, writing of any number of values, the reader of quoted strings and tokens, and the reading of any number of parameters of a line in both formats are proved; whole properties written and read again are evaluated on the running code.")
PROPS["C22"] = P(harness="h_json.py", explanation="Each kind of value is proved to read back what it wrote, dates, offsets, durations and periods through the texts proved under C07 and C08; the reading and writing of properties and components for any number of members; rules and parameters with few values (bounded).  Random properties and calendars are written, encoded, decoded, read and compared, and their JSON compared with the forms of RFC 7265, on the running code (bounded).")
