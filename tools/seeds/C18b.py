ID = 'C18b'; PROP = 'C18'
EDITS = [
    ('src/pycalendar/icalendar/property.py',
     '            other.mParameters[attrname] = [i.duplicate() for i in attrs]\n        other.mValue = self.mValue.duplicate()',
     '            other.mParameters[attrname] = attrs[:]\n        other.mValue = self.mValue.duplicate()'),
]
NEEDS = 'a duplicated property whose parameter is changed in place'
BREAKS = 'the original changes with its duplicate'
DEMO = '''
from pycalendar.icalendar.property import Property
p = Property.parseText("ATTENDEE;ROLE=CHAIR:mailto:a@example.com")
d = p.duplicate()
if p != d: sys.exit(1)
d.getParameters()["ROLE"][0].setValues(["OPT"])
sys.exit(0 if p.getParameterValue("ROLE") == "CHAIR" else 1)
'''
