ID = 'C20a'; PROP = 'C20'
EDITS = [
    ('src/pycalendar/timezonedb.py',
     '        self.calendar = Calendar()\n        self.tzcache.clear()',
     '        self.tzcache.clear()'),
]
NEEDS = 'a definition that was added before the database was cleared'
BREAKS = 'it is still found'
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.timezonedb import TimezoneDatabase
from StringIO import StringIO

tz = Calendar.parseText("""BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:Etc/Demo
BEGIN:STANDARD
DTSTART:20000101T000000
TZOFFSETFROM:+0100
TZOFFSETTO:+0100
END:STANDARD
END:VTIMEZONE
END:VCALENDAR
""".replace("\\n", "\\r\\n")).getComponents("VTIMEZONE")[0]
db = TimezoneDatabase.getTimezoneDatabase()
db.clear()
db.addTimezone(tz)
a = TimezoneDatabase.getTimezone("Etc/Demo") is not None
db.clear()
b = TimezoneDatabase.getTimezone("Etc/Demo") is not None
sys.exit(0 if (a, b) == (True, False) else 1)
'''
