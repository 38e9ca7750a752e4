ID = 'C09a'; PROP = 'C09'
EDITS = [
    ('src/pycalendar/utils.py',
     '                start_pos = end_pos + 1\n\n                end_pos = find_first_of(value, "\\r\\n;\\\\,", start_pos)\n                if end_pos == -1:',
     '                start_pos = end_pos + 1\n\n                end_pos = find_first_of(value, "\\r\\n;\\\\", start_pos)\n                if end_pos == -1:'),
]
NEEDS = 'a text with a comma after another character that needs escaping'
BREAKS = 'the comma is written unescaped'
DEMO = '''
from pycalendar import utils
for t in ("a;b,c", "x,y,z", "\\n,"):
    e = utils.escapeTextValue(t)
    i = 0
    while i < len(e):
        if e[i] == "\\\\":
            i += 1
        elif e[i] in ",;":
            sys.exit(1)
        i += 1
sys.exit(0)
'''
