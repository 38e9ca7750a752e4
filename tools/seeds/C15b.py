ID = 'C15b'; PROP = 'C15'
EDITS = [
    ('src/pycalendar/icalendar/recurrenceset.py',
     '        for iter in self.mExperiods:\n            if range.isPeriodOverlap(iter):\n                exclude.append(iter.getStart())',
     '        for iter in self.mExperiods:\n            if range.isDateWithinPeriod(iter.getEnd()):\n                exclude.append(iter.getStart())'),
]
NEEDS = 'an excluded period that begins in the range and ends after it'
BREAKS = 'its start is not excluded'
DEMO = '''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.datetime import DateTime
from pycalendar.period import Period
rs = RecurrenceSet()
r = Recurrence(); r.parse("FREQ=DAILY;COUNT=3"); rs.addRule(r)
rs.subtractPeriod(Period(DateTime(2018, 1, 3, 12, 0, 0), DateTime(2018, 1, 3, 14, 0, 0)))
s = DateTime(2018, 1, 1, 12, 0, 0)
a = []; rs.expand(s, Period(s, DateTime(2018, 1, 3, 13, 0, 0)), a)
sys.exit(0 if [i.getDay() for i in a] == [1, 2] else 1)
'''
