ID = 'C16b'; PROP = 'C16'
EDITS = [
    ('src/pycalendar/icalendar/vtimezoneelement.py',
     '                period = Period(self.mStart, temp)\n                self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)\n                self.mCachedExpandBelow = temp\n\n            if len(self.mCachedExpandBelowItems) != 0:\n                # Return them all within the range',
     '                period = Period(self.mStart, temp)\n                self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems)\n                self.mCachedExpandBelow = temp\n\n            if len(self.mCachedExpandBelowItems) != 0:\n                # Return them all within the range'),
]
NEEDS = 'a zone east of UTC whose rule ends at the UTC time of its last transition'
BREAKS = 'the last transition is ignored'
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.timezonedb import TimezoneDatabase
from StringIO import StringIO

Calendar.parseText("""BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:Etc/Demo
BEGIN:STANDARD
DTSTART:19991031T030000
RRULE:FREQ=YEARLY;BYDAY=-1SU;BYMONTH=10
TZOFFSETFROM:+0400
TZOFFSETTO:+0300
END:STANDARD
BEGIN:DAYLIGHT
DTSTART:20000326T020000
RRULE:FREQ=YEARLY;UNTIL=20090328T230000Z;BYDAY=-1SU;BYMONTH=3
TZOFFSETFROM:+0300
TZOFFSETTO:+0400
END:DAYLIGHT
END:VTIMEZONE
END:VCALENDAR
""".replace("\\n", "\\r\\n"))
d = DateTime(2009, 6, 1, 12, 0, 0)
sys.exit(0 if TimezoneDatabase.getTimezoneOffsetSeconds("Etc/Demo", d) == 4 * 3600 else 1)
'''
