ID = 'C14a'; PROP = 'C14'
EDITS = [
    ('src/pycalendar/icalendar/recurrence.py',
     '    def setCount(self, count):\n        self._setAndclearIfChanged("mCount", count)',
     '    def setCount(self, count):\n        self.mCount = count'),
]
NEEDS = 'a rule that was expanded before its count is changed'
BREAKS = 'the next expansion still uses the old count'
DEMO = '''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.datetime import DateTime
from pycalendar.period import Period
r = Recurrence(); r.parse("FREQ=DAILY;COUNT=3")
s = DateTime(2018, 1, 1); p = Period(s, DateTime(2018, 2, 1))
a = []; r.expand(s, p, a)
r.setCount(5)
b = []; r.expand(s, p, b)
sys.exit(0 if (len(a), len(b)) == (3, 5) else 1)
'''
