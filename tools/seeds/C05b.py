ID = "C05b"; PROP = "C05"
EDITS = [("src/pycalendar/datetime.py", "    def normalise(self):\n        # Normalise seconds\n", """    def normalise(self):
        # Nothing to do when every field is in range already
        if not self.mDateOnly and 0 <= self.mSeconds < 60 and 0 <= self.mMinutes < 60 and 0 <= self.mHours < 24 and \\
                1 <= self.mMonth <= 12 and 1 <= self.mDay <= 28:
            return

        # Normalise seconds
""")]
NEEDS = "query the instant, move to another in-range day of the month or year, query again"
BREAKS = "normalising an object whose fields are in range keeps the cached instant of the previous fields"
DEMO = '''
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
a = DateTime(2013, 2, 1, 12, 0, 0, Timezone(utc=True))
t = a.getPosixTime()
a.setMonthDay(15)
sys.exit(0 if a.getPosixTime() == t + 14 * 86400 else 1)
'''
