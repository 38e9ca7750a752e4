ID = "C06a"; PROP = "C06"
EDITS = [("src/pycalendar/datetime.py", "            first_day += 365 + [1, 0][not utils.isLeapYear(self.mYear)] - 1\n            first_day %= 7\n",
"            # 365 and 366 days are both one week short of a whole number of weeks plus one\n            first_day += 1 if self.mYear % 4 == 0 else 0\n            first_day %= 7\n")]
NEEDS = "n-th from last weekday of a century year that is not a leap year (1900, 2100)"
BREAKS = "the weekday of 31 December is taken a day late in 2100, so BYDAY=-1MO lands on a Sunday"
DEMO = '''
from pycalendar.datetime import DateTime
d = DateTime(2100, 6, 1)
d.setDayOfWeekInYear(-1, DateTime.MONDAY)
sys.exit(0 if d.getDayOfWeek() == DateTime.MONDAY and (d.getMonth(), d.getDay()) == (12, 27) else 1)
'''
