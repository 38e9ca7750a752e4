ID = 'C13b'; PROP = 'C13'
EDITS = [
    ('src/pycalendar/icalendar/recurrence.py',
     '    def generateMinutelySet(self, start, items):\n        # Start with initial date-time\n        items.append(start.duplicate())\n\n        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):\n            # BYMONTH limits the range of possible values\n            items[:] = self.byMonthLimit(items)\n            if (len(items) == 0):\n                return\n\n        if (self.mByWeekNo is not None) and (len(self.mByWeekNo) != 0):\n            items[:] = self.byWeekNoLimit(items)\n            if (len(items) == 0):\n                return\n\n        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):\n            items[:] = self.byYearDayLimit(items)\n            if (len(items) == 0):\n                return\n\n        if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):',
     '    def generateMinutelySet(self, start, items):\n        # Start with initial date-time\n        items.append(start.duplicate())\n\n        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):\n            # BYMONTH limits the range of possible values\n            items[:] = self.byMonthLimit(items)\n            if (len(items) == 0):\n                return\n\n        if (self.mByWeekNo is not None) and (len(self.mByWeekNo) != 0):\n            items[:] = self.byWeekNoLimit(items)\n            if (len(items) == 0):\n                return\n\n        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):\n            items[:] = self.byYearDayLimit(items)\n            if (len(items) == 0):\n                return\n\n        elif (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):'),
]
NEEDS = 'a minutely rule with both BYYEARDAY and BYMONTHDAY'
BREAKS = 'the month days do not limit the rule'
DEMO = '''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.datetime import DateTime
from pycalendar.period import Period
r = Recurrence(); r.parse("FREQ=MINUTELY;INTERVAL=720;BYYEARDAY=1,2;BYMONTHDAY=1")
items = []
r.expand(DateTime(2018, 1, 1, 0, 0, 0), Period(DateTime(2018, 1, 1, 0, 0, 0), DateTime(2018, 1, 4, 0, 0, 0)), items)
sys.exit(0 if [(i.getDay(), i.getHours()) for i in items] == [(1, 0), (1, 12)] else 1)
'''
