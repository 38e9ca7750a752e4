ID = 'C19c'; PROP = 'C19'
EDITS = [
    ('src/pycalendar/validation.py',
     '            return value.lower() == text.lower()',
     '            return text.lower().endswith(value.lower())'),
]
NEEDS = 'a vCard profile that is the end of the right one'
BREAKS = 'the wrong value is not reported'
DEMO = '''
from pycalendar.vcard.card import Card
def bad(v):
    t = "\\r\\n".join(["BEGIN:VCARD", "VERSION:3.0", "N:a;b", "FN:a b", "PROFILE:" + v, "END:VCARD", ""])
    return len([l for l in Card.parseText(t).validate()[1] if "PROFILE" in l])
sys.exit(0 if [bad(v) for v in ("VCARD", "vcard", "CARD", "X")] == [0, 0, 1, 1] else 1)
'''
