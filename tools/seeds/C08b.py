ID = "C08b"; PROP = "C08"
EDITS = [("src/pycalendar/period.py", '''            splits = data.split('/', 1)
            if len(splits) == 2:''', '''            splits = data.split('/')
            if len(splits) >= 2:''')]
NEEDS = "a period text with something after a second slash"
BREAKS = "20110102T030405Z/PT1H/PT2H is accepted as one hour"
DEMO = '''
from pycalendar.period import Period
try:
    Period.parseText("20110102T030405Z/PT1H/PT2H")
except ValueError:
    sys.exit(0)
sys.exit(1)
'''
