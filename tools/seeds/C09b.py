ID = 'C09b'; PROP = 'C09'
EDITS = [
    ('src/pycalendar/utils.py',
     '                if item:\n                    writeTextValue(os, item[0])',
     '                if any(item):\n                    writeTextValue(os, item[0])'),
]
NEEDS = 'a nested list with a part of several empty texts'
BREAKS = 'the part comes back as one empty text'
DEMO = '''
from pycalendar import utils
from StringIO import StringIO
for d in (("a", ("b", "c"), ""), (("", ""), "x", "y"), ("x", ("", "b"), ("c", ""))):
    os = StringIO()
    utils.generateDoubleNestedList(os, d)
    if utils.parseDoubleNestedList(os.getvalue(), 3) != d:
        sys.exit(1)
sys.exit(0)
'''
