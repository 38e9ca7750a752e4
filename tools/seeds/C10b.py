ID = 'C10b'; PROP = 'C10'
EDITS = [
    ('src/pycalendar/property.py',
     '                    self.mParameters.setdefault(parameter_name.upper(), []).append(attrvalue)\n\n                    # Look',
     '                    self.mParameters[parameter_name.upper()] = [attrvalue]\n\n                    # Look'),
]
NEEDS = 'a property line in which a parameter name occurs twice'
BREAKS = 'the first occurrence is lost'
DEMO = '''
from pycalendar.icalendar.property import Property
p = Property.parseText("ATTENDEE;MEMBER=work;MEMBER=cell:mailto:a@example.com")
v = []
for i in p.getParameters().get("MEMBER", []):
    v.extend(i.getValues())
sys.exit(0 if v == ["work", "cell"] else 1)
'''
