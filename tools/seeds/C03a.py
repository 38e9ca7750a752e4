ID = "C03a"; PROP = "C03"
EDITS = [("src/pycalendar/datetime.py", "                diff = self.getPosixTime() - date.getPosixTime()\n",
"""                if self.compareDate(date):
                    # Same day: no need to work out the day numbers
                    diff = ((self.mHours - date.mHours) * 60 + self.mMinutes - date.mMinutes) * 60 + self.mSeconds - date.mSeconds
                else:
                    diff = self.getPosixTime() - date.getPosixTime()
""")]
NEEDS = "two date-times with the same calendar date and different offsets (UTC and +02:00, say)"
BREAKS = "their difference ignores the offsets, so adding it to the second does not give the first"
DEMO = '''
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
a = DateTime(2013, 2, 1, 12, 0, 0, Timezone(utc=False, tzid=7200))
b = DateTime(2013, 2, 1, 11, 0, 0, Timezone(utc=True))
sys.exit(0 if (b + (a - b)) == a and (a - b).getTotalSeconds() == -3600 else 1)
'''
