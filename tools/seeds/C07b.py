ID = "C07b"; PROP = "C07"
EDITS = [("src/pycalendar/datetime.py", '''            index += 1
            if not data[index].isdigit():
                raise ValueError("DateTime: invalid TZ offset digits")
            while index < dlen and data[index].isdigit():''', '''            index += 1
            while index < dlen and data[index].isdigit():''')]
NEEDS = "an extended date-time with a comma and no fraction digits after it"
BREAKS = "2011-01-02T03:04:05, (truncated) is accepted"
DEMO = '''
from pycalendar.datetime import DateTime
for t in ("2011-01-02T03:04:05,", "2011-01-02T03:04:05,Z"):
    try:
        DateTime.parseText(t, True)
    except ValueError:
        continue
    sys.exit(1)
sys.exit(0)
'''
