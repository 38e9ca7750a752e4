ID = 'C13a'; PROP = 'C13'
EDITS = [
    ('src/pycalendar/icalendar/recurrence.py',
     '                    for i in range(1, 54):',
     '                    for i in range(1, 53):'),
]
NEEDS = 'a yearly weekday rule in a year with 53 of the weekday'
BREAKS = 'the last one is missing'
DEMO = '''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.datetime import DateTime
from pycalendar.period import Period
r = Recurrence(); r.parse("FREQ=YEARLY;BYDAY=MO")
items = []
r.expand(DateTime(2018, 1, 1), Period(DateTime(2018, 1, 1), DateTime(2019, 1, 1)), items)
sys.exit(0 if len(items) == 53 and items[-1].getDay() == 31 else 1)
'''
