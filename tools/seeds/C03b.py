ID = "C03b"; PROP = "C03"
EDITS = [("src/pycalendar/duration.py", "        if duration is None:\n            duration =",
"""        if duration is None and weeks and not (days or hours or minutes or seconds):
            # Already in canonical form
            self.mForward = weeks > 0
            self.mWeeks = weeks
            return

        if duration is None:
            duration =""")]
NEEDS = "a duration built from a negative number of weeks and nothing else"
BREAKS = "sign and component cancel out: Duration(weeks=-1) reports +604800 seconds"
DEMO = '''
from pycalendar.duration import Duration
sys.exit(0 if Duration(weeks=-1).getTotalSeconds() == -604800 and Duration(weeks=2).getTotalSeconds() == 1209600 else 1)
'''
