ID = 'C22c'; PROP = 'C22'
EDITS = [
    ('src/pycalendar/icalendar/requeststatusvalue.py',
     '        value = [self.mValue[0], self.mValue[1]]\n        if len(self.mValue) == 3:\n            value.append(self.mValue[2])\n        jobject.append(value)',
     '        value = [item for item in self.mValue if item]\n        jobject.append(value)'),
]
NEEDS = 'a request status with an empty description and some data, written as JSON'
BREAKS = 'the data takes the place of the description'
DEMO = '''
from pycalendar.icalendar.property import Property
import json
def go(t):
    p = Property.parseText(t); j = []; p.writeJSON(j)
    return Property.parseJSON(json.loads(json.dumps(j[0]))) == p
sys.exit(0 if all([go(t) for t in ("REQUEST-STATUS:2.0;ok", "REQUEST-STATUS:2.0;ok;data", "REQUEST-STATUS:2.0;;data")]) else 1)
'''
