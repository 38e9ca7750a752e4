ID = "C06b"; PROP = "C06"
EDITS = [("src/pycalendar/datetime.py", "            week_no = temp.getWeekNo()\n        elif", "            week_no = 53 if temp.getDayOfWeek() in (DateTime.THURSDAY, DateTime.FRIDAY) else 52\n        elif")]
NEEDS = "first days of a year whose previous year has 53 weeks only because it is a leap year starting on a Wednesday, or 52 although it ends on a Friday"
BREAKS = "the week number of 1 January 2011 (after a year that ended on a Friday and was not leap) is reported as 53"
DEMO = '''
from pycalendar.datetime import DateTime
sys.exit(0 if DateTime(2011, 1, 1).getWeekNo() == 52 and DateTime(2010, 1, 1).getWeekNo() == 53 and DateTime(2005, 1, 1).getWeekNo() == 53 else 1)
'''
