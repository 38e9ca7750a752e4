"""Client programs: small callers of the library whose contracts state laws between several
functions (round trips, inverses).  The verifier executes them together with /repo's functions;
Jython runs the same text when a contract is evaluated on the real code."""
from cStringIO import StringIO
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.utcoffsetvalue import UTCOffsetValue


def make_duration(seconds):
    return Duration(duration=seconds)


def make_duration_parts(weeks, days, hours, minutes, seconds):
    return Duration(weeks=weeks, days=days, hours=hours, minutes=minutes, seconds=seconds)


def add_then_subtract(dt, dur):
    return (dt + dur) - dur


def subtract_then_add(dt, dur):
    return (dt - dur) + dur


def difference_then_add(a, b):
    return b + (a - b)


def add_then_difference(dt, dur):
    return (dt + dur) - dt


def compare_ops(a, b):
    return (a == b, a != b, a < b, a <= b, a > b, a >= b, hash(a), hash(b))


def classify(period, dt):
    return (period.isDateBeforePeriod(dt), period.isDateWithinPeriod(dt), period.isDateAfterPeriod(dt))


def overlap_both(p, q):
    return (p.isPeriodOverlap(q), q.isPeriodOverlap(p))


def period_from_end(start, end):
    p = Period(start=start, end=end)
    return (p.getStart(), p.getEnd(), p.getDuration())


def period_from_duration(start, dur):
    p = Period(start=start, duration=dur)
    return (p.getStart(), p.getEnd(), p.getDuration())


def switch_form(p, use):
    p.setUseDuration(use)
    return (p.getStart(), p.getEnd(), p.getDuration(), p.getUseDuration())


def period_to_utc(p):
    p.adjustToUTC()
    return (p.getStart(), p.getEnd())


def period_copy(p):
    q = p.duplicate()
    return (q, q.getStart(), q.getEnd())


def date_text_round(dt):
    return DateTime.parseText(dt.getText())


def date_xml_round(dt):
    return DateTime.parseText(dt.getXMLText(), True)


def date_json_round(dt):
    j = []
    dt.writeJSON(j)
    r = DateTime()
    r.parseJSON(j[0])
    return r


def date_generate(dt):
    os = StringIO()
    dt.generate(os)
    return os.getvalue()


def duration_generate(d):
    os = StringIO()
    d.generate(os)
    return os.getvalue()


def duration_text_round(d):
    return Duration.parseText(d.getText())


def duration_json_round(d):
    j = []
    d.writeJSON(j)
    r = Duration(days=3)
    r.parseJSON(j[0])
    return r


def offset_generate(v, full):
    os = StringIO()
    v.generate(os, full)
    return os.getvalue()


def offset_plain_round(v):
    os = StringIO()
    v.generate(os)
    r = UTCOffsetValue(77)
    r.parse(os.getvalue(), "ical")
    return r


def offset_vcard_round(v):
    os = StringIO()
    v.generate(os, True)
    r = UTCOffsetValue(77)
    r.parse(os.getvalue(), "vcard")
    return r


def offset_json_round(v):
    j = []
    v.writeJSONValue(j)
    r = UTCOffsetValue(77)
    r.parseJSONValue(j[0])
    return r


def period_text_round(p):
    return Period.parseText(p.getText())


def period_json_round(p):
    j = []
    p.writeJSON(j)
    r = Period()
    r.parseJSON(j[0])
    return r


def tz_there_and_back(t, offset, stdoffset):
    """(local time of its UTC time, its local time)"""
    from zonal.utils import DateTime as TZDateTime
    utc = TZDateTime(t.getUTC(offset, stdoffset), "u")
    return (utc.getLocaltime(offset, stdoffset), t.getLocaltime(offset, stdoffset))
