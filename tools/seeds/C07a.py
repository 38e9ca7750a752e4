ID = "C07a"; PROP = "C07"
EDITS = [("src/pycalendar/datetime.py", '''                minutes = divmod(abs(self.mTZID) / 60, 60)[1]
                return "%04d-%02d-%02dT%02d:%02d:%02d%s%02d:%02d"''', '''                minutes = (self.mTZID / 60) % 60
                return "%04d-%02d-%02dT%02d:%02d:%02d%s%02d:%02d"''')]
NEEDS = "a negative UTC offset that is not a multiple of half an hour, in the extended syntax"
BREAKS = "-03:45 is written as -03:15"
DEMO = '''
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
t = "2011-01-02T03:04:05-03:45"
sys.exit(0 if DateTime.parseText(t, True).getXMLText() == t else 1)
'''
