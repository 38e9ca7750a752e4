ID = 'C11b'; PROP = 'C11'
EDITS = [
    ('src/pycalendar/utils.py',
     '            lines[0] = lines[0] + lines[1][1:]',
     '            lines[0] = lines[0] + lines[1].lstrip()'),
]
NEEDS = 'a line that was folded just before a space'
BREAKS = 'the space at the fold is lost'
DEMO = '''
from pycalendar import utils
from StringIO import StringIO
ins = StringIO("DESCRIPTION:one\\r\\n  two\\r\\nSUMMARY:x\\r\\n")
lines = [None, None]
got = []
while utils.readFoldedLine(ins, lines):
    got.append(lines[0])
sys.exit(0 if got == ["DESCRIPTION:one two", "SUMMARY:x"] else 1)
'''
