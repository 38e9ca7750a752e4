ID = "C04b"; PROP = "C04"
EDITS = [("src/pycalendar/period.py", "        return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()\n",
"""        if self.mUseDuration and comp.mUseDuration:
            # Both in duration form: compare as stored
            return self.mDuration == comp.mDuration and self.mStart == comp.mStart
        return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
"""),
("src/pycalendar/duration.py", "        return self.getTotalSeconds() == comp.getTotalSeconds()\n",
"""        return (self.mForward, self.mWeeks * 7 + self.mDays, self.mHours, self.mMinutes, self.mSeconds) == \\
            (comp.mForward, comp.mWeeks * 7 + comp.mDays, comp.mHours, comp.mMinutes, comp.mSeconds)
""")]
NEEDS = "equal totals with different components: PT24H and P1D (also inside two periods)"
BREAKS = "neither less, equal nor greater holds for PT24H and P1D"
DEMO = '''
from pycalendar.duration import Duration
a, b = Duration.parseText("PT24H"), Duration.parseText("P1D")
sys.exit(0 if [a < b, a == b, a > b] == [False, True, False] else 1)
'''
