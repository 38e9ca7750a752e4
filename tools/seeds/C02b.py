ID = "C02b"; PROP = "C02"
EDITS = [("src/pycalendar/datetime.py", "        # Wipe the time if date only\n        if self.mDateOnly:\n            self.mSeconds = self.mMinutes = self.mHours = 0\n\n        # Adjust the month first",
  "        # Wipe the time if date only\n        if self.mDateOnly and adjustment_days == 0:\n            self.mSeconds = self.mMinutes = self.mHours = 0\n\n        # Adjust the month first")]
NEEDS = "a date-only value whose time fields carry into the day (e.g. offset by 30 hours)"
BREAKS = "a date-only value keeps a hidden time of day after normalising, so equal dates differ in instant"
DEMO = '''
from pycalendar.datetime import DateTime
d = DateTime(2013, 2, 1)
d.offsetHours(30)
sys.exit(0 if (d.getHours(), d.getMinutes(), d.getSeconds(), d.getDay()) == (0, 0, 0, 2) else 1)
'''
