ID = "C17a"; PROP = "C17"
EDITS = [("src/pycalendar/period.py", "        return not (self.mStart >= p.getEnd() or self.getEnd() <= p.mStart)\n",
"""        delta = p.mStart - self.mStart
        if delta.getForward():
            # The other one starts later: it must start within this one
            return delta < self.getDuration()
        else:
            # This one starts later: it must start within the other one
            return self.mStart <= p.getEnd()
""")]
NEEDS = "a period that starts exactly where the other one ends"
BREAKS = "two touching periods overlap one way round and not the other"
DEMO = '''
from pycalendar.datetime import DateTime
from pycalendar.period import Period
a = Period(DateTime(2013, 2, 1, 12, 0, 0), DateTime(2013, 2, 1, 13, 0, 0))
b = Period(DateTime(2013, 2, 1, 13, 0, 0), DateTime(2013, 2, 1, 14, 0, 0))
sys.exit(0 if not a.isPeriodOverlap(b) and not b.isPeriodOverlap(a) else 1)
'''
