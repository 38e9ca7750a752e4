ID = 'C18c'; PROP = 'C18'
EDITS = [
    ('src/pycalendar/icalendar/valarm.py',
     '        if self.mLastTrigger is not None:\n            other.mLastTrigger = self.mLastTrigger.duplicate()',
     '        other.mLastTrigger = self.mLastTrigger'),
]
NEEDS = 'an alarm that is duplicated whose last trigger is then moved'
BREAKS = 'the copy shares the time of the last trigger, which is changed in place'
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
t = "\\r\\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T000000Z", "BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:d", "TRIGGER:-PT5M", "END:VALARM", "END:VEVENT", "END:VCALENDAR", ""])
a = Calendar.parseText(t).getComponents("VEVENT")[0].getComponents()[0]
b = a.duplicate()
before = b.mLastTrigger.getText()
a.mLastTrigger.offsetDay(1)
sys.exit(0 if b.mLastTrigger.getText() == before else 1)
'''
