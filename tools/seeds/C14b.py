ID = 'C14b'; PROP = 'C14'
EDITS = [
    ('src/pycalendar/icalendar/recurrence.py',
     '            while start_iter.invalid():\n                start_iter.recur(self.mFreq, self.mInterval, allow_invalid=True)',
     '            while start_iter.invalid():\n                start_iter.recur(self.mFreq, 1, allow_invalid=True)'),
]
NEEDS = 'a plain rule with an interval that steps over an impossible date'
BREAKS = 'the interval is not kept after it'
DEMO = '''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.datetime import DateTime
from pycalendar.period import Period
r = Recurrence(); r.parse("FREQ=MONTHLY;INTERVAL=2")
s = DateTime(2018, 1, 31)
a = []; r.expand(s, Period(s, DateTime(2019, 6, 1)), a)
sys.exit(0 if [(i.getYear(), i.getMonth()) for i in a] == [(2018, 1), (2018, 3), (2018, 5), (2018, 7), (2019, 1), (2019, 3), (2019, 5)] else 1)
'''
