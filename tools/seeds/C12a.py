ID = 'C12a'; PROP = 'C12'
EDITS = [
    ('src/pycalendar/icalendar/recurrence.py',
     '        if self.mBySetPos is not None:\n            other.mBySetPos = self.mBySetPos[:]\n        other.mWeekstart',
     '        if self.mBySetPos:\n            other.mBySetPos = self.mBySetPos\n        other.mWeekstart'),
]
NEEDS = 'a duplicated rule with BYSETPOS whose list is changed in place'
BREAKS = 'the original changes with its duplicate'
DEMO = '''
from pycalendar.icalendar.recurrence import Recurrence
r = Recurrence(); r.parse("FREQ=MONTHLY;BYDAY=MO,TU;BYSETPOS=1")
d = r.duplicate()
if d != r: sys.exit(1)
d.getBySetPos().append(-1)
sys.exit(0 if r.getBySetPos() == [1] else 1)
'''
