ID = 'C21b'; PROP = 'C21'
EDITS = [
    ('src/zonal/zone.py',
     '            hours = int(splits[0] if splits[0][0] != "-" else splits[0][1:])\n            minutes = int(splits[1]) if len(splits) > 1 else 0',
     '            hours = abs(int(splits[0]))\n            minutes = int(splits[1]) if len(splits) > 1 else 0'),
    ('src/zonal/zone.py',
     '            negative = splits[0][0] == "-"\n            self._cached_utc_offset',
     '            negative = int(splits[0]) < 0\n            self._cached_utc_offset'),
]
NEEDS = 'a zone offset of less than an hour west of UTC'
BREAKS = 'the offset is reported as east of UTC'
DEMO = '''
sys.path.insert(0, sys.argv[1] + "/zonal")
from zonal.zone import ZoneRule
def off(t):
    z = ZoneRule(None); z.gmtoff = t
    return z.getUTCOffset()
sys.exit(0 if (off("-0:25:21"), off("-4:30"), off("0:25:21")) == (-1521, -16200, 1521) else 1)
'''
