ID = "C17b"; PROP = "C17"
EDITS = [("src/pycalendar/period.py", "            self.mEnd = self.mStart + self.mDuration\n",
"""            self.mEnd = self.mStart.duplicate()
            self.mEnd.offsetDay(self.mDuration.getWeeks() * 7 + self.mDuration.getDays())
            self.mEnd.offsetSeconds((self.mDuration.getHours() * 60 + self.mDuration.getMinutes()) * 60 + self.mDuration.getSeconds())
""")]
NEEDS = "a period given by a negative duration"
BREAKS = "the end is start plus the magnitude of the duration"
DEMO = '''
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
a = Period(DateTime(2013, 2, 1, 12, 0, 0), duration=Duration(hours=-1))
sys.exit(0 if a.getEnd() == DateTime(2013, 2, 1, 11, 0, 0) else 1)
'''
