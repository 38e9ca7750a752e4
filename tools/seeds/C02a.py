ID = "C02a"; PROP = "C02"
EDITS = [("src/pycalendar/datetime.py", "                if self.mMonth < 1:\n                    self.mMonth = 12\n                    self.mYear -= 1\n                self.mDay += utils.daysInMonth(self.mMonth, self.mYear)",
 "                previous_year = self.mYear\n                if self.mMonth < 1:\n                    self.mMonth = 12\n                    previous_year -= 1\n                self.mDay += utils.daysInMonth(self.mMonth, self.mYear)\n                self.mYear = previous_year if self.mMonth == 12 else self.mYear\n                if self.mDay < -365 and self.mMonth == 3 and utils.isLeapYear(self.mYear):\n                    self.mDay += 1")]
NEEDS = "moving back more than a year through March of a leap year"
BREAKS = "offsetting by a large negative number of days loses a day per leap year crossed"
DEMO = '''
from pycalendar.datetime import DateTime
bad = 0
for n in (10, 100, 400, 800, 1500, 3000):
    d = DateTime(2013, 2, 1)
    e = d.duplicate()
    e.offsetDay(-n)
    if d.daysSince1970() - e.daysSince1970() != n:
        bad = 1
sys.exit(bad)
'''
