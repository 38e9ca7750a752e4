ID = 'C22b'; PROP = 'C22'
EDITS = [
    ('src/pycalendar/multivalue.py',
     '            value.parseJSONValue(jvalue)\n            self.mValues.append(value)',
     '            value.parseJSONValue(jvalue)\n            if value not in self.mValues[-1:]:\n                self.mValues.append(value)'),
]
NEEDS = 'a list of values in which one follows an equal one, read from JSON'
BREAKS = 'the second of the two is lost'
DEMO = '''
from pycalendar.icalendar.property import Property
import json
def go(t):
    p = Property.parseText(t); j = []; p.writeJSON(j)
    return Property.parseJSON(json.loads(json.dumps(j[0]))) == p
sys.exit(0 if all([go(t) for t in ("CATEGORIES:a,b,a", "CATEGORIES:a,a,b", "RDATE:20200101T000000Z,20200101T000000Z")]) else 1)
'''
