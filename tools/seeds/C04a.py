ID = "C04a"; PROP = "C04"
EDITS = [("src/pycalendar/duration.py", "        return hash(self.getTotalSeconds())\n",
"        return hash((self.mForward, self.mWeeks, self.mDays, self.mHours, self.mMinutes, self.mSeconds))\n")]
NEEDS = "two equal durations with different components, as parsing P7D and P1W gives"
BREAKS = "equal durations hash differently"
DEMO = '''
from pycalendar.duration import Duration
a, b = Duration.parseText("P7D"), Duration.parseText("P1W")
sys.exit(0 if a == b and hash(a) == hash(b) else 1)
'''
