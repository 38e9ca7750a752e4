ID = 'C16a'; PROP = 'C16'
EDITS = [
    ('src/pycalendar/icalendar/vtimezone.py',
     '            if x < a[mid][1 if relative_to_utc else 0]:',
     '            if x <= a[mid][1 if relative_to_utc else 0]:'),
]
NEEDS = 'a query for exactly the time of a transition'
BREAKS = 'the offset before the transition is reported'
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from StringIO import StringIO
CAL = """BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:Etc/Demo
BEGIN:STANDARD
DTSTART:20001029T020000
RRULE:FREQ=YEARLY;BYDAY=-1SU;BYMONTH=10
TZOFFSETFROM:-0400
TZOFFSETTO:-0500
TZNAME:EST
END:STANDARD
BEGIN:DAYLIGHT
DTSTART:20000402T020000
RRULE:FREQ=YEARLY;BYDAY=1SU;BYMONTH=4
TZOFFSETFROM:-0500
TZOFFSETTO:-0400
TZNAME:EDT
END:DAYLIGHT
END:VTIMEZONE
END:VCALENDAR
""".replace("\\n", "\\r\\n")
def zone():
    return Calendar.parseText(CAL).getComponents("VTIMEZONE")[0]

z = zone()
ok = z.getTimezoneOffsetSeconds(DateTime(2001, 4, 1, 1, 59, 59)) == -18000 and z.getTimezoneOffsetSeconds(DateTime(2001, 4, 1, 2, 0, 0)) == -14400
sys.exit(0 if ok else 1)
'''
