ID = 'C20b'; PROP = 'C20'
EDITS = [
    ('src/pycalendar/icalendar/calendar.py',
     '            if timezone.getID() == tzid:',
     '            if tzid and timezone.getID().upper() == tzid.upper():'),
]
NEEDS = 'two lookups that spell an identifier in different case'
BREAKS = 'the answer for the other spelling depends on which was looked up first'
DEMO = '''
import os, tempfile, shutil

from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.timezonedb import TimezoneDatabase
from StringIO import StringIO

T = """BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:Demo
BEGIN:STANDARD
DTSTART:20000101T000000
TZOFFSETFROM:+0100
TZOFFSETTO:+0100
END:STANDARD
END:VTIMEZONE
END:VCALENDAR
""".replace("\\n", "\\r\\n")
d = tempfile.mkdtemp()
try:
    f = open(os.path.join(d, "Demo.ics"), "wb")
    f.write(T)
    f.close()
    db = TimezoneDatabase.getTimezoneDatabase()
    r = []
    for names in (("Demo", "dEMO"), ("dEMO", "Demo")):
        db.clear()
        db.setPath(d)
        r.append(sorted([(n, TimezoneDatabase.isStandardTimezone(n), TimezoneDatabase.getTimezone(n) is not None) for n in names]))
finally:
    shutil.rmtree(d)
sys.exit(0 if r[0] == r[1] == [("Demo", True, True), ("dEMO", False, False)] else 1)
'''
