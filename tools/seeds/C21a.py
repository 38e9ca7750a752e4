ID = 'C21a'; PROP = 'C21'
EDITS = [
    ('src/zonal/utils.py',
     '        elif self.mode == "s":\n            new_dt.offsetSeconds(-stdoffset)\n        else:',
     '        elif self.mode == "s":\n            new_dt.offsetSeconds(-offset)\n        else:'),
]
NEEDS = 'a transition written in standard time while a save is in effect'
BREAKS = 'its UTC time is off by the save'
DEMO = '''
from pycalendar.datetime import DateTime
from zonal import utils
sys.path.insert(0, sys.argv[1] + "/zonal")
d = utils.DateTime(DateTime(2018, 4, 1, 2, 0, 0), "s")
u = d.getUTC(3600 + 7200, 7200)
sys.exit(0 if (u.getDay(), u.getHours()) == (1, 0) else 1)
'''
