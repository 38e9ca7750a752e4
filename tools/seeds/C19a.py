ID = 'C19a'; PROP = 'C19'
EDITS = [
    ('src/pycalendar/componentbase.py',
     '            if self.countProperty(propname) > 1:  # Cannot be fixed - no idea',
     '            if self.countProperty(propname) == 2:  # Cannot be fixed - no idea'),
]
NEEDS = 'a component with three of a property that may occur at most once'
BREAKS = 'no problem is reported'
DEMO = '''
from pycalendar.icalendar.vevent import VEvent
from pycalendar.icalendar.property import Property
e = VEvent()
for i in range(3):
    e.addProperty(Property("SUMMARY", "a%d" % (i,)))
fixed, unfixed = e.validate()
sys.exit(0 if any("SUMMARY" in i for i in unfixed) else 1)
'''
