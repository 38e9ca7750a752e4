ID = "C08a"; PROP = "C08"
EDITS = [("src/pycalendar/period.py", '''                    self.mUseDuration = False
                    self.mDuration = None
            else:
                raise''', '''                    self.mUseDuration = False
            else:
                raise''')]
NEEDS = "a period object in duration form that then reads a text in start/end form"
BREAKS = "the duration of the previous value is still reported"
DEMO = '''
from pycalendar.period import Period
p = Period.parseText("20110102T030405Z/PT1H")
p.parse("20110102T030405Z/20110102T050405Z")
sys.exit(0 if p.getDuration().getTotalSeconds() == 7200 else 1)
'''
