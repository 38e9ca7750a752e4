"""C18: what a duplicated component keeps besides its properties and components.  The copy made by ComponentBase (under
a contract of its own) is stood in for by a new object as its constructor leaves it; every attribute that is loaded from
the properties must then come out equal, and nothing that can be changed may be shared."""
from vc.values import *
from vc.verify import Contract
from .spec import *
from .c18 import ThingV, copy_of, ghost, name, FOLD

CONTRACTS = []
I_ = "pycalendar.icalendar."
CB = "pycalendar.componentbase.ComponentBase"
CR = I_ + "componentrecur.ComponentRecur"
VA = I_ + "valarm.VAlarm"


def add(*a, **k):
    k.setdefault("props", ("C18",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


# something that can be changed; a copy is equal to it
PART = ghost("part", duplicate=lambda E, o, **k: copy_of(E, o, **k))
# something that cannot
ATOM = ghost("atom")


def thing(E, s, n, cls):
    o = E.obj(cls)
    o.slots["v"] = ThingV(s.int(n))
    return o


# attributes: "=" a value that cannot change, "c" something to be copied, "c?" the same or None, "0" not copied but as the
# constructor leaves it
COMP = {"mUID": "=", "mSeq": "=", "mOriginalSeq": "=", "mChanged": "=", "mMapKey": "h"}
REC = dict(COMP, mMapKey="=", mSummary="=", mStamp="c?", mHasStamp="=", mStart="c", mHasStart="=", mEnd="c", mHasEnd="=", mDuration="=", mHasRecurrenceID="=", mAdjustFuture="=",
           mAdjustPrior="=", mRecurrenceID="c?", mRecurrences="r")
ELEM = dict(COMP, mStart="c", mTZName="=", mUTCOffset="=", mUTCOffsetFrom="=", mRecurrences="c", mCachedExpandBelow="0", mCachedExpandBelowItems="0")
CLASSES = {
    "vevent.VEvent": dict(REC, mStatus="="),
    "vtodo.VToDo": dict(REC, mPriority="=", mStatus="=", mPercentComplete="=", mCompleted="c", mHasCompleted="="),
    "vjournal.VJournal": REC,
    "available.Available": REC,
    "vavailability.VAvailability": COMP,
    "vvoter.VVoter": COMP,
    "vote.Vote": COMP,
    "vpoll.VPoll": COMP,
    "vunknown.UnknownComponent": dict(COMP, mType="="),
    "vfreebusy.VFreeBusy": dict(COMP, mStart="c", mHasStart="=", mEnd="c", mHasEnd="=", mDuration="=", mCachedBusyTime="0", mBusyTime="0"),
    "vtimezone.VTimezone": dict(COMP, mID="=", mUTCOffsetSortKey="=", mCachedExpandAllMaxYear="0", mCachedOffsets="0"),
    "vtimezonestandard.Standard": ELEM,
    "vtimezonedaylight.Daylight": ELEM,
    "valarm.VAlarm": dict(COMP, mAction="=", mTriggerAbsolute="=", mTriggerOn="c", mTriggerBy="c", mTriggerOnStart="=", mRepeats="=", mRepeatInterval="c", mAlarmStatus="=",
                          mLastTrigger="c?", mNextTrigger="c?", mDoneCount="=", mActionData="c"),
    "calendar.Calendar": {"mName": "=", "mDescription": "="},
}


def s_dup(cls, fields):
    def f(E, s):
        s.o = s.obj(I_ + cls)
        sl = s.o.slots
        for k in sorted(fields):
            how = fields[k]
            if how == "h":
                if s.choose(k, 2):
                    sl[k] = thing(E, s, k, ATOM)
            elif how == "r":
                sl[k] = thing(E, s, k, PART)
            elif how == "c?" and s.choose(k, 2):
                sl[k] = None
            else:
                sl[k] = thing(E, s, k, ATOM if how == "=" else PART)
        if "mRecurrenceID" in fields:
            i = s.choose("master", 3)
            s.master = sl["mMaster"] = [s.o, None, s.obj(I_ + cls)][i]
        s.before = dict(sl)
        s.parent = E.obj(ATOM)
        s.reset = []
        s.made = []
        return []
    return f


def stubs(cls, fields):
    def base(E, slots):
        me = slots.get("self")
        r = E.obj(me.cls)
        s = E.S
        for k in fields:
            how = fields[k]
            if how == "0":
                r.slots[k] = False if k == "mCachedBusyTime" else None
            elif how == "r":
                r.slots[k] = None
            elif how != "h":
                r.slots[k] = thing(E, s, "fresh." + k, PART if how[0] == "c" else ATOM)
        kw = slots.get("args")
        given = dict(kw.slots["v"]) if isinstance(kw, Obj) else {}
        r.slots["given"] = given
        if "comptype" in given:
            r.slots["mType"] = given["comptype"]
        if "mRecurrenceID" in fields:
            r.slots["mMaster"] = r
            r.slots["mRecurrenceID"] = None
        s.made.append(r)
        return r

    def reset(E, slots):
        E.S.reset.append(slots.get("self"))
    return {"func:" + CB + ".duplicate": base, "func:" + CR + "._resetRecurrenceSet": reset}


def r_dup(cls):
    def f(E, s):
        kw = {} if cls == "calendar.Calendar" else {"parent": s.parent}
        return E.call(E.getattr_(s.o, "duplicate"), [], kw)
    return f


def p_dup(cls, fields):
    def f(E, s, r, exc):
        E.prove("a new component of the same class", isinstance(r, Obj) and r is not s.o and r.cls is s.o.cls and any(r is x for x in s.made))
        if cls != "calendar.Calendar":
            E.prove("with the parent asked for", r.slots["given"].get("parent") is s.parent)
        for k in sorted(fields):
            how, was = fields[k], s.before.get(k)
            now = r.slots.get(k, None)
            if how == "0":
                E.prove("nothing computed for the original is kept: " + k, now is None or now is False)
            elif how == "r":
                E.prove("its instances are those of its own properties", any(x is r for x in s.reset) or (isinstance(now, Obj) and now is not was and "v" in now.slots and now.slots["v"].t == was.slots["v"].t))
            elif was is None:
                if how == "h":
                    E.prove("no key", k not in r.slots or now is None)
                elif k in ("mRecurrenceID",):
                    E.prove("none", now is None)
            else:
                E.prove("the same " + k, isinstance(now, Obj) and "v" in now.slots and now.slots["v"].t == was.slots["v"].t)
                if how[0] == "c":
                    E.prove("but of its own: " + k, now is not was)
        if "mRecurrenceID" in fields:
            E.prove("the same master, or itself", r.slots["mMaster"] is (s.master if s.master is not None and s.master is not s.o else r))
        E.prove("the component is left alone", set(s.o.slots) == set(s.before) and all(s.o.slots[k] is s.before[k] for k in s.before))
    return f


for c_, f_ in sorted(CLASSES.items()):
    add(I_ + c_ + ".duplicate", s_dup(c_, f_), p_dup(c_, f_), run=r_dup(c_), stubs=stubs(c_, f_), name=I_ + c_ + ".duplicate")


# ---- what an alarm does
ACTIONS = {"VAlarmAudio": ("mSpeakText",), "VAlarmDisplay": ("mDescription",), "VAlarmEmail": ("mDescription", "mSummary", "mAttendees"), "VAlarmUnknown": (), "VAlarmURI": ("mURI",), "VAlarmNone": ()}


def s_act(c, fields):
    def f(E, s):
        s.o = s.obj(VA + "." + c)
        # as its constructor says what it does
        E.call(E.getattr_(s.o, "__init__"), [], {})
        for k in fields:
            if k == "mAttendees":
                s.list = [thing(E, s, "attendee%d" % i, ATOM) for i in range(s.choose("attendees", 3))]
                s.o.slots[k] = None if s.choose("none", 2) else E.plist(list(s.list))
            else:
                s.o.slots[k] = thing(E, s, k, ATOM)
        s.before = dict(s.o.slots)
        return []
    return f


def p_act(c, fields):
    def f(E, s, r, exc):
        E.prove("a new one of the same class", isinstance(r, Obj) and r is not s.o and r.cls is s.o.cls)
        E.prove("of the same type", r.slots["mType"] == s.o.slots["mType"])
        for k in fields:
            now, was = r.slots[k], s.before[k]
            if k != "mAttendees":
                E.prove("the same " + k, now is was)
            elif was is not None:
                E.prove("the same attendees in a list of its own", isinstance(now, Obj) and now is not was and len(now.slots["v"]) == len(s.list) and all(x is y for x, y in zip(now.slots["v"], s.list)))
                E.prove("the original is left alone", len(was.slots["v"]) == len(s.list))
            else:
                E.prove("or none", now is None or len(now.slots["v"]) == 0)
    return f


for c_, f_ in sorted(ACTIONS.items()):
    add(VA + "." + c_ + ".duplicate", s_act(c_, f_), p_act(c_, f_), run=lambda E, s: E.call(E.getattr_(s.o, "duplicate"), [], {}), name=VA + "." + c_ + ".duplicate",
        **(dict(bounded="at most two attendees") if "mAttendees" in f_ else {}))
