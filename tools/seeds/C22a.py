ID = 'C22a'; PROP = 'C22'
EDITS = [
    ('src/pycalendar/icalendar/recurrence.py',
     '        # MO is the default so we do not need it\n        if self.mWeekstart != definitions.eRecurrence_WEEKDAY_MO:\n            jdict[',
     '        # MO is the default so we do not need it\n        if self.mWeekstart > definitions.eRecurrence_WEEKDAY_MO:\n            jdict['),
]
NEEDS = 'a recurrence rule whose week starts on Sunday, written as JSON'
BREAKS = 'the week start is not in the JSON, so that the rule read back has weeks that start on Monday'
DEMO = '''
from pycalendar.icalendar.property import Property
import json
def go(t):
    p = Property.parseText(t); j = []; p.writeJSON(j)
    return Property.parseJSON(json.loads(json.dumps(j[0]))) == p
sys.exit(0 if all([go("RRULE:FREQ=WEEKLY;INTERVAL=2;BYDAY=TU,SU;WKST=" + d) for d in ("SU", "MO", "TU", "SA")]) else 1)
'''
