ID = 'C18a'; PROP = 'C18'
EDITS = [
    ('src/pycalendar/componentbase.py',
     '            self.mProperties[prop.getName().upper()].remove(prop)\n            if len(self.mProperties[prop.getName().upper()]) == 0:\n                del self.mProperties[prop.getName().upper()]',
     '            self.mProperties[prop.getName().upper()].remove(prop)'),
]
NEEDS = 'a component whose last property of a name is removed'
BREAKS = 'hasProperty still reports it and findFirstProperty fails'
DEMO = '''
from pycalendar.icalendar.vevent import VEvent
from pycalendar.icalendar.property import Property
e = VEvent()
p = Property("SUMMARY", "x")
e.addProperty(p)
e.removeProperty(p)
sys.exit(1 if e.hasProperty("summary") or e.countProperty("SUMMARY") else 0)
'''
