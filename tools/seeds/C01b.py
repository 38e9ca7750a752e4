ID = "C01b"; PROP = "C01"
EDITS = [("src/pycalendar/datetime.py", "        result = DateTime.THURSDAY + self.daysSince1970()\n        result %= 7\n", "        result = DateTime.THURSDAY + self.daysSince1970()\n        result = result % 7 if result >= 0 else 7 - (-result) % 7\n")]
NEEDS = "a Sunday before 1970"
BREAKS = "Sundays before 1970 report weekday 7 (C-style remainder handling)"
DEMO = '''
from pycalendar.datetime import DateTime
bad = 0
d = DateTime(1950, 1, 1)
for i in range(3000):
    if d.getDayOfWeek() != (d.daysSince1970() + 4) % 7:
        bad = 1
    d.offsetDay(1)
sys.exit(bad)
'''
