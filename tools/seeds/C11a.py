ID = 'C11a'; PROP = 'C11'
EDITS = [
    ('src/pycalendar/property.py',
     '                    while (temp[offset] > 0x7F)',
     '                    if (temp[offset] > 0x7F)'),
]
NEEDS = 'a folded line whose limit falls on the third byte of a character'
BREAKS = 'the character is split between two lines'
DEMO = '''
from pycalendar.icalendar.property import Property
for n in range(4):
    t = Property("SUMMARY", "x" * n + "\\xe2\\x82\\xac" * 60).getText()
    for l in t.split("\\r\\n"):
        try:
            l.decode("utf-8")
        except UnicodeDecodeError:
            sys.exit(1)
sys.exit(0)
'''
