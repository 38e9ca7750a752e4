ID = 'C19b'; PROP = 'C19'
EDITS = [
    ('src/pycalendar/componentbase.py',
     '                    self.addProperty(self.sPropertyType(propname, ""))\n                    fixed.append(logProblem)',
     '                    self.addProperty(self.sPropertyType(propname, ""))\n                    fixed.append(logProblem)\n                    break'),
]
NEEDS = 'an EMAIL alarm that lacks both its description and its summary'
BREAKS = 'only the first is fixed'
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20180101T000000Z\\r\\nDTSTART:20180101T000000Z\\r\\nBEGIN:VALARM\\r\\nACTION:EMAIL\\r\\nATTENDEE:mailto:a@example.com\\r\\nTRIGGER:-PT5M\\r\\nEND:VALARM\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
c.validate(doFix=True)
fixed, unfixed = c.validate()
sys.exit(0 if (fixed, unfixed) == ([], []) else 1)
'''
