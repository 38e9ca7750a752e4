ID = "C01a"; PROP = "C01"
EDITS = [("src/pycalendar/utils.py", "((year % 4 == 0) and (year % 100 != 0)) or (year % 400 == 0)", "(year % 4 == 0) and ((year % 100 != 0) or (year % 200 == 0))")]
NEEDS = "a year divisible by 200 but not by 400 (1800, 2200, 2600)"
BREAKS = "2200 becomes a leap year for month lengths, while the day count still treats it as common: two days share a day number"
DEMO = '''
from pycalendar.datetime import DateTime
from pycalendar import utils
bad = 0
for y in range(1760, 2500):
    if utils.daysUptoMonth(12, y) + 31 != DateTime(y + 1, 1, 1).daysSince1970() - DateTime(y, 1, 1).daysSince1970():
        bad = 1
sys.exit(bad)
'''
