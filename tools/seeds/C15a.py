ID = 'C15a'; PROP = 'C15'
EDITS = [
    ('src/pycalendar/icalendar/recurrenceset.py',
     '            iter.expand(start, range, exclude, float_offset=float_offset)',
     '            iter.expand(start, range, exclude)'),
]
NEEDS = 'a floating start with a float offset and an excluded rule with a UTC end date'
BREAKS = 'the excluded rule ends too early or late'
DEMO = '''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.datetime import DateTime
from pycalendar.period import Period
rs = RecurrenceSet()
r = Recurrence(); r.parse("FREQ=DAILY;COUNT=5"); rs.addRule(r)
x = Recurrence(); x.parse("FREQ=DAILY;UNTIL=20180103T140000Z"); rs.subtractRule(x)
s = DateTime(2018, 1, 1, 12, 0, 0)
a = []; rs.expand(s, Period(s, DateTime(2018, 2, 1, 0, 0, 0)), a, float_offset=-4 * 3600)
sys.exit(0 if [i.getDay() for i in a] == [3, 4, 5] else 1)
'''
