ID = 'C12b'; PROP = 'C12'
EDITS = [
    ('src/pycalendar/icalendar/recurrence.py',
     '        for i in range(0, len(temp1)):\n            if temp1[i] != temp2[i]:\n                return False\n        return True\n\n    def _setAndclearIfChanged',
     '        for i in range(0, len(temp1)):\n            if temp1[i][1] != temp2[i][1] or (temp1[i][0] < 0) != (temp2[i][0] < 0):\n                return False\n        return True\n\n    def _setAndclearIfChanged'),
]
NEEDS = 'two rules that differ only in the number of a numbered weekday with the same sign'
BREAKS = 'different rules compare equal (with different hashes)'
DEMO = '''
from pycalendar.icalendar.recurrence import Recurrence
def rule(t):
    r = Recurrence(); r.parse(t); return r
ok = rule("FREQ=MONTHLY;BYDAY=1MO") != rule("FREQ=MONTHLY;BYDAY=2MO")
ok = ok and rule("FREQ=MONTHLY;BYDAY=1MO,-1FR") == rule("FREQ=MONTHLY;BYDAY=-1FR,1MO")
ok = ok and rule("FREQ=MONTHLY;BYDAY=-1MO") != rule("FREQ=MONTHLY;BYDAY=1MO")
sys.exit(0 if ok else 1)
'''
