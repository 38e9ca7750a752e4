ID = "C05a"; PROP = "C05"
EDITS = [("src/pycalendar/datetime.py", "        self.mSeconds += diff_seconds\n        self.normalise()\n",
"""        self.mSeconds += diff_seconds
        if not self.mDateOnly and 0 <= self.mSeconds < 60:
            # No carry needed
            return
        self.normalise()
""")]
NEEDS = "query the instant, offset by a few seconds within the minute, query again"
BREAKS = "the cached instant is not dropped"
DEMO = '''
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
a = DateTime(2013, 2, 1, 12, 0, 0, Timezone(utc=True))
t = a.getPosixTime()
a.offsetSeconds(5)
sys.exit(0 if a.getPosixTime() == t + 5 else 1)
'''
