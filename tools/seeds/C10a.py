ID = 'C10a'; PROP = 'C10'
EDITS = [
    ('src/pycalendar/utils.py',
     "                if last != '\\r':",
     '                if last not in ("\\r", "\\n"):'),
]
NEEDS = 'a parameter value with two line feeds in a row'
BREAKS = 'the second line break is lost'
DEMO = '''
from pycalendar import utils
for v in ("a\\n\\nb", "\\n\\n", "a\\r\\n\\r\\nb", "plain"):
    want = v.replace("\\r\\n", "\\n")
    if utils.decodeParameterValue(utils.encodeParameterValue(v)) != want:
        sys.exit(1)
sys.exit(0)
'''
