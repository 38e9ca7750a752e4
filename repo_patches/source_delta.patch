From 359af65371427b0482ea20db6d48ac68b947fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 01/56] fix: count leap days outside 1901-2100 by the leap year
 rule

leapDaysSince1970 counted every fourth year, so day numbers, weekdays and
POSIX times disagreed with isLeapYear before 1901 and after 2100.
---
 src/pycalendar/utils.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 4c28681..44c269f 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -402,14 +402,12 @@ def leapDaysSince1970(year_offset):
     try:
         return cachedLeapDaysSince1970[year_offset]
     except KeyError:
-        if year_offset > 2:
-            result = (year_offset + 1) / 4
-        elif year_offset < -1:
-            # Python will round down negative numbers (i.e. -5/4 = -2, but we want -1), so
-            # what is (year_offset - 2) in C code is actually (year_offset - 2 + 3) in Python.
-            result = (year_offset + 1) / 4
+        # Number of leap years (see isLeapYear) before the year, relative to those before 1970
+        last_year = year_offset + 1969
+        if last_year <= 1752:
+            result = last_year / 4 - 490
         else:
-            result = 0
+            result = last_year / 4 - last_year / 100 + last_year / 400 - 477
         cachedLeapDaysSince1970[year_offset] = result
         return result
 
-- 
2.43.0


From f92e62d0c6c95eed5571e7185ae838b630e11fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 02/56] fix: a fixed UTC offset of zero is not a floating time

---
 src/pycalendar/datetime.py | 2 +-
 src/pycalendar/timezone.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 4635a39..94d1378 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -612,7 +612,7 @@ class DateTime(ValueMixin):
         return (not self.mTZUTC) and self.mTZID
 
     def floating(self):
-        return (not self.mTZUTC) and not self.mTZID
+        return Timezone.is_float(self.mTZUTC, self.mTZID)
 
     def getTimezone(self):
         return Timezone(utc=self.mTZUTC, tzid=self.mTZID)
diff --git a/src/pycalendar/timezone.py b/src/pycalendar/timezone.py
index 1647aa3..7e6bdeb 100644
--- a/src/pycalendar/timezone.py
+++ b/src/pycalendar/timezone.py
@@ -71,7 +71,8 @@ class Timezone(object):
 
     @staticmethod
     def is_float(utc, tzid):
-        return not utc and not tzid
+        # A UTC offset of zero is not floating
+        return not utc and (tzid is None or tzid == "")
 
     def getUTC(self):
         return self.mUTC
-- 
2.43.0


From 7087e8fd00509bd30b65528f10b8ec6f95fa82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 03/56] fix: do not cache a timezone offset asked relative to
 UTC as the local one

---
 src/pycalendar/datetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 94d1378..da6703c 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -1103,9 +1103,11 @@ class DateTime(ValueMixin):
     def timeZoneSecondsOffset(self, relative_to_utc=False):
         if self.mTZUTC:
             return 0
+        if relative_to_utc:
+            # Only the offset of the local time is cached
+            return self.getTimezone().timeZoneSecondsOffset(self, relative_to_utc)
         if self.mTZOffset is None:
-            tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-            self.mTZOffset = tz.timeZoneSecondsOffset(self, relative_to_utc)
+            self.mTZOffset = self.getTimezone().timeZoneSecondsOffset(self)
         return self.mTZOffset
 
     def timeZoneDescriptor(self):
-- 
2.43.0


From 98b38463f8a6899a47d7fa25d68eed789dc953a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 04/56] fix: DateTime.setToday, setNow and setNowUTC called
 methods that do not exist

---
 src/pycalendar/datetime.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index da6703c..8527827 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -107,6 +107,9 @@ class DateTime(ValueMixin):
 
         return other
 
+    def _copyFrom(self, other):
+        self.__dict__.update(other.__dict__)
+
     def duplicateAsUTC(self):
         other = self.duplicate()
         other.adjustToUTC()
@@ -661,7 +664,7 @@ class DateTime(ValueMixin):
 
     def setToday(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getToday(tz))
+        self._copyFrom(self.getToday(tz))
 
     @staticmethod
     def getToday(tzid=None):
@@ -674,7 +677,7 @@ class DateTime(ValueMixin):
 
     def setNow(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getNow(tz))
+        self._copyFrom(self.getNow(tz))
 
     @staticmethod
     def getNow(tzid):
@@ -683,7 +686,7 @@ class DateTime(ValueMixin):
         return utc
 
     def setNowUTC(self):
-        self.copy_DateTime(self.getNowUTC())
+        self._copyFrom(self.getNowUTC())
 
     @staticmethod
     def getNowUTC():
-- 
2.43.0


From be2eb7f2c25f7eb5825a956a9a30420dd9293090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 05/56] fix: complete the comparison operators of Duration and
 Period

---
 src/pycalendar/duration.py |  9 +++++++++
 src/pycalendar/period.py   | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 36f4aed..0d6bb6b 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -54,12 +54,21 @@ class Duration(ValueMixin):
     def __eq__(self, comp):
         return self.getTotalSeconds() == comp.getTotalSeconds()
 
+    def __ne__(self, comp):
+        return not self == comp
+
     def __gt__(self, comp):
         return self.getTotalSeconds() > comp.getTotalSeconds()
 
+    def __ge__(self, comp):
+        return self.getTotalSeconds() >= comp.getTotalSeconds()
+
     def __lt__(self, comp):
         return self.getTotalSeconds() < comp.getTotalSeconds()
 
+    def __le__(self, comp):
+        return self.getTotalSeconds() <= comp.getTotalSeconds()
+
     def getTotalSeconds(self):
         return [1, -1][not self.mForward] \
             * (self.mSeconds + (self.mMinutes + (self.mHours + (self.mDays + (self.mWeeks * 7)) * 24) * 60) * 60)
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 8e47e4c..3a02e2c 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -59,13 +59,22 @@ class Period(ValueMixin):
     def __eq__(self, comp):
         return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
 
+    def __ne__(self, comp):
+        return not self == comp
+
     def __gt__(self, comp):
-        return self.mStart > comp
+        return comp < self
+
+    def __ge__(self, comp):
+        return not self < comp
 
     def __lt__(self, comp):
         return self.mStart < comp.mStart  \
             or (self.mStart == comp.mStart) and self.getEnd() < comp.getEnd()
 
+    def __le__(self, comp):
+        return not comp < self
+
     @classmethod
     def parseText(cls, data):
         period = cls()
-- 
2.43.0


From da7c8b16f6233b7a6c8b1c86c1fe74eac46d9b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 06/56] fix: reject date-time text with missing or non-digit
 characters in a field

---
 src/pycalendar/datetime.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 8527827..f377e72 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -878,21 +878,29 @@ class DateTime(ValueMixin):
         dt.parse(data, fullISO)
         return dt
 
+    @staticmethod
+    def parseDigits(data, index, count, leadingSpace=False):
+        # Exactly the specified number of digits (or leading spaces in place of leading zeros)
+        field = data[index:index + count]
+        if len(field) != count or not (field.lstrip(" ") if leadingSpace else field).isdigit():
+            raise ValueError("DateTime: invalid digits")
+        return int(field)
+
     def parseDate(self, data, fullISO):
         # Get year
-        self.mYear = int(data[0:4])
+        self.mYear = self.parseDigits(data, 0, 4, True)
         index = 4
         if fullISO and data[index] == "-":
             index += 1
 
         # Get month
-        self.mMonth = int(data[index:index + 2])
+        self.mMonth = self.parseDigits(data, index, 2, True)
         index += 2
         if fullISO and data[index] == "-":
             index += 1
 
         # Get day
-        self.mDay = int(data[index:index + 2])
+        self.mDay = self.parseDigits(data, index, 2, True)
         index += 2
 
         if ' ' in data[:index] and ParserContext.INVALID_DATETIME_LEADINGSPACE == ParserContext.PARSER_RAISE:
@@ -903,19 +911,19 @@ class DateTime(ValueMixin):
 
     def parseTime(self, data, index, fullISO):
         # Get hours
-        self.mHours = int(data[index:index + 2])
+        self.mHours = self.parseDigits(data, index, 2)
         index += 2
         if fullISO and data[index] == ":":
             index += 1
 
         # Get minutes
-        self.mMinutes = int(data[index:index + 2])
+        self.mMinutes = self.parseDigits(data, index, 2)
         index += 2
         if fullISO and data[index] == ":":
             index += 1
 
         # Get seconds
-        self.mSeconds = int(data[index:index + 2])
+        self.mSeconds = self.parseDigits(data, index, 2)
         index += 2
 
         return index
@@ -944,13 +952,13 @@ class DateTime(ValueMixin):
                 index += 1
 
                 # Get hours
-                hours_offset = int(data[index:index + 2])
+                hours_offset = self.parseDigits(data, index, 2)
                 index += 2
                 if data[index] == ":":
                     index += 1
 
                 # Get minutes
-                minutes_offset = int(data[index:index + 2])
+                minutes_offset = self.parseDigits(data, index, 2)
                 index += 2
 
                 self.mTZID = sign * (hours_offset * 60 + minutes_offset) * 60
-- 
2.43.0


From ad10b8316e8560a4b365c7791d984f2de59da90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 07/56] fix: a failed DateTime parse left a stale cached
 instant

---
 src/pycalendar/datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index f377e72..874570c 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -974,6 +974,9 @@ class DateTime(ValueMixin):
         # vCard (fullISO), jCal
         #   parse format YYYY[-]MM[-]DD[THH[:]MM[:]SS[(Z/(+/-)HHMM]]
 
+        # Always uncache posix time, even if the parse fails half way
+        self.changed()
+
         try:
             # Parse out the date
             index = self.parseDate(data, fullISO)
@@ -1008,9 +1011,6 @@ class DateTime(ValueMixin):
         except IndexError:
             raise ValueError("DateTime: index error")
 
-        # Always uncache posix time
-        self.changed()
-
     def generate(self, os):
         try:
             os.write(self.getText())
-- 
2.43.0


From 87f614488711774351e008614fcb6b867849ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 08/56] fix: Duration.parse kept components of the previous
 value

---
 src/pycalendar/duration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 0d6bb6b..58b53f2 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -132,6 +132,9 @@ class Duration(ValueMixin):
     def parse(self, data):
         # parse format ([+]/-) "P" (dur-date / dur-time / dur-week)
 
+        # Nothing of any previous value is kept
+        self.setDuration(0)
+
         try:
             offset = 0
             maxoffset = len(data)
-- 
2.43.0


From 7dadc7484fdb2c4de2d20ba3c5e59e23024d1552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 09/56] fix: Period.parse failed on, or kept parts of, the
 previous value

---
 src/pycalendar/period.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 3a02e2c..327b304 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -88,13 +88,13 @@ class Period(ValueMixin):
                 start = splits[0]
                 end = splits[1]
 
-                self.mStart.parse(start, fullISO)
+                self.mStart = DateTime.parseText(start, fullISO)
                 if end[0] == 'P':
                     self.mDuration = Duration.parseText(end)
                     self.mUseDuration = True
                     self.mEnd = None
                 else:
-                    self.mEnd.parse(end, fullISO)
+                    self.mEnd = DateTime.parseText(end, fullISO)
                     self.mUseDuration = False
                     self.mDuration = None
             else:
-- 
2.43.0


From 97142647badb4759d100ed843f904e3c276cf341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 10/56] fix: XML text of a UTC offset with seconds lacked a
 colon

---
 src/pycalendar/utcoffsetvalue.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 76b58b6..337aa50 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -89,9 +89,8 @@ class UTCOffsetValue(Value):
     def writeXML(self, node, namespace):
 
         os = StringIO()
-        self.generate(os)
+        self.generate(os, fullISO=True)
         text = os.getvalue()
-        text = text[:-2] + ":" + text[-2:]
 
         value = self.getXMLNode(node, namespace)
         value.text = text
-- 
2.43.0


From 2ced32594e2e255bd84b0838a9216e6e40618ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 11/56] fix: reject UTC offsets with characters other than
 digits in a number

---
 src/pycalendar/utcoffsetvalue.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 337aa50..a93467e 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -47,6 +47,11 @@ class UTCOffsetValue(Value):
             raise ValueError("UTCOffset: does not start with '+' or '-'")
         plus = (data[0] == '+')
 
+        # Everything else must be pairs of digits
+        pairs = data[1:].split(":") if fullISO else [data[i:i + 2] for i in range(1, datalen, 2)]
+        if not all([len(pair) == 2 and pair.isdigit() for pair in pairs]):
+            raise ValueError("UTCOffset: invalid digits")
+
         # Get hours
         hours = int(data[1:3])
 
-- 
2.43.0


From 1c34bb07c59cddd2b462ce5cf5ae9633511b03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 12/56] fix: a year day other than the 366th was treated as
 invalid

---
 src/pycalendar/datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 874570c..b20f588 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -324,10 +324,11 @@ class DateTime(ValueMixin):
             # Decrement day
             self.mDay += day + 1
 
-        if not allow_invalid:
+        if not allow_invalid or abs(day) <= (366 if utils.isLeapYear(self.mYear) else 365):
             # Normalise to get proper year/month/day values
             self.normalise()
         else:
+            # There is no such day in this year
             self.changed()
 
     def getYearDay(self):
-- 
2.43.0


From c5f359b692b3d8fc03b3c36199756bd522e0d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 13/56] fix: setWeekNo with a Sunday, or in a year that starts
 on one, was a week out

---
 src/pycalendar/datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index b20f588..6253c6c 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -383,7 +383,11 @@ class DateTime(ValueMixin):
         # What day does the current year start on, and diff that with the current day
         temp = DateTime(year=self.mYear, month=1, day=1)
         first_day = temp.getDayOfWeek()
+        if first_day == 0:
+            first_day = 7
         current_day = self.getDayOfWeek()
+        if current_day == 0:
+            current_day = 7
 
         # Calculate and set yearday for start of week. The first week is the one that contains at least
         # four days (with week start defaulting to MONDAY), so that means the 1st of January would fall
-- 
2.43.0


From 74cbaa8de300a325a6db8c76436de7253878a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 14/56] fix: an escaped backslash does not escape the separator
 after it in text lists

---
 src/pycalendar/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 44c269f..982ff35 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -273,7 +273,8 @@ def parseTextList(data, sep=';', always_list=False):
             item = []
         else:
             item.append(s)
-        pre_s = s
+        # An escaped backslash does not escape what follows it
+        pre_s = s if s != '\\' or pre_s != '\\' else ''
 
     results.append(decodeTextValue("".join(item)))
 
@@ -313,7 +314,8 @@ def parseDoubleNestedList(data, maxsize):
             items.append("")
         else:
             items[-1] += s
-        pre_s = s
+        # An escaped backslash does not escape what follows it
+        pre_s = s if s != '\\' or pre_s != '\\' else ''
 
     if len(items) > 1:
         results.append(tuple([decodeTextValue(item) for item in items]))
-- 
2.43.0


From 1ea0859f8377572676d237d7ee5d8917d84080dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 15/56] fix: multi-valued text is not split at escaped commas

---
 src/pycalendar/multivalue.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/multivalue.py b/src/pycalendar/multivalue.py
index 5fd9db9..a725743 100644
--- a/src/pycalendar/multivalue.py
+++ b/src/pycalendar/multivalue.py
@@ -56,11 +56,13 @@ class MultiValue(Value):
         self.mValues = newValues
 
     def parse(self, data, variant):
-        # Tokenize on comma
-        if "," in data:
-            tokens = data.split(",")
-        else:
-            tokens = (data,)
+        # Tokenize on comma - but not on one that is escaped in text
+        tokens = data.split(",")
+        if self.mType == Value.VALUETYPE_TEXT:
+            for ctr in range(len(tokens) - 1, 0, -1):
+                previous = tokens[ctr - 1]
+                if (len(previous) - len(previous.rstrip("\\"))) % 2 == 1:
+                    tokens[ctr - 1:ctr + 1] = [previous + "," + tokens[ctr]]
         for token in tokens:
             # Create single value, and parse data
             value = Value.createFromType(self.mType)
-- 
2.43.0


From b6825d2f4759762c37abda4b70fcf7e47156a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 16/56] fix: quote parameter values with leading spaces

---
 src/pycalendar/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 652b4d6..85ec529 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -101,8 +101,8 @@ class Parameter(object):
         # ^-escaping
         str = encodeParameterValue(str)
 
-        # Look for quoting
-        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
+        # Look for quoting - which also protects leading spaces
+        if str.startswith(" ") or str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
             os.write("\"%s\"" % (str,))
         else:
             os.write(str)
-- 
2.43.0


From 8cf947b22d278403f2517d4a189f414daf168f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 17/56] fix: vCard parameter parsing always terminates

---
 src/pycalendar/vcard/property.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 52b7471..23bf7a7 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -260,6 +260,9 @@ class Property(PropertyBase):
                     if stripValueSpaces:
                         txt = txt.replace(" ", "")
                     return txt
+                else:
+                    # Nothing else can be parsed so we need to terminate the loop
+                    raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
-- 
2.43.0


From e90325cfaa8aa7858cecceb88fd90db19cd2c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 18/56] fix: rules that compare equal hash alike

---
 src/pycalendar/icalendar/recurrence.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a186af8..ba2ed95 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -177,15 +177,15 @@ class Recurrence(ValueMixin):
             self.mUseUntil,
             self.mUntil,
             self.mInterval,
-            tuple(self.mBySeconds) if self.mBySeconds else None,
-            tuple(self.mByMinutes) if self.mByMinutes else None,
-            tuple(self.mByHours) if self.mByHours else None,
-            tuple(self.mByDay) if self.mByDay else None,
-            tuple(self.mByMonthDay) if self.mByMonthDay else None,
-            tuple(self.mByYearDay) if self.mByYearDay else None,
-            tuple(self.mByWeekNo) if self.mByWeekNo else None,
-            tuple(self.mByMonth) if self.mByMonth else None,
-            tuple(self.mBySetPos) if self.mBySetPos else None,
+            tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
+            tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
+            tuple(sorted(self.mByHours)) if self.mByHours else None,
+            tuple(sorted(self.mByDay)) if self.mByDay else None,
+            tuple(sorted(self.mByMonthDay)) if self.mByMonthDay else None,
+            tuple(sorted(self.mByYearDay)) if self.mByYearDay else None,
+            tuple(sorted(self.mByWeekNo)) if self.mByWeekNo else None,
+            tuple(sorted(self.mByMonth)) if self.mByMonth else None,
+            tuple(sorted(self.mBySetPos)) if self.mBySetPos else None,
             self.mWeekstart,
         ))
 
-- 
2.43.0


From 6cfea146ce9cb537dcea13e94c64684a1dd32e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 19/56] fix: reject BYSETPOS values outside 1 to 366

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index ba2ed95..cecd334 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -447,7 +447,7 @@ class Recurrence(ValueMixin):
                 if self.mBySetPos is not None:
                     raise ValueError("Recurrence: Only one BYSETPOS allowed")
                 self.mBySetPos = []
-                self.parseList(tvalue, self.mBySetPos, allowNegative=True, errmsg="Recurrence: Invalid BYSETPOS value")
+                self.parseList(tvalue, self.mBySetPos, 1, 366, True, errmsg="Recurrence: Invalid BYSETPOS value")
 
             elif index == definitions.eRecurrence_WKST:
                 index = Recurrence.cWeekdayMap.get(tvalue, Recurrence.cUnknownIndex)
-- 
2.43.0


From 28170a8e3590c6d92eb1a1b4e3c1f65165452330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 20/56] fix: reject duplicated FREQ, UNTIL, COUNT, INTERVAL and
 WKST parts

---
 src/pycalendar/icalendar/recurrence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index cecd334..6a4098a 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -340,6 +340,7 @@ class Recurrence(ValueMixin):
         if len(tokens) == 0:
             raise ValueError("Recurrence: Invalid recurrence rule value")
 
+        seen = set()
         while len(tokens) != 0:
             # Get next token
             token = tokens.pop()
@@ -353,6 +354,11 @@ class Recurrence(ValueMixin):
             if index == Recurrence.cUnknownIndex:
                 raise ValueError("Recurrence: Invalid token '%s'" % (tname,))
 
+            # Each part can only occur once
+            if index in seen:
+                raise ValueError("Recurrence: Only one %s allowed" % (tname,))
+            seen.add(index)
+
             # Parse remainder based on index
             if index == definitions.eRecurrence_FREQ:
                 # Get the FREQ value
-- 
2.43.0


From 674fc584cec8ed6b8341b858acb8205ee7381870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 21/56] fix: rules with UNTIL values of different kinds are not
 equal

---
 src/pycalendar/icalendar/recurrence.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 6a4098a..16f99e5 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -201,7 +201,7 @@ class Recurrence(ValueMixin):
         return (
             (self.mFreq == comp.mFreq) and
             (self.mUseCount == comp.mUseCount) and (self.mCount == comp.mCount) and
-            (self.mUseUntil == comp.mUseUntil) and (self.mUntil == comp.mUntil) and
+            (self.mUseUntil == comp.mUseUntil) and self.equalsUntil(self.mUntil, comp.mUntil) and
             (self.mInterval == comp.mInterval) and
             self.equalsNum(self.mBySeconds, comp.mBySeconds) and
             self.equalsNum(self.mByMinutes, comp.mByMinutes) and
@@ -215,6 +215,17 @@ class Recurrence(ValueMixin):
             (self.mWeekstart == comp.mWeekstart)
         )
 
+    def equalsUntil(self, until1, until2):
+        # Dates, floating and UTC date-times are different end dates even when they compare the same
+        if until1 is None or until2 is None:
+            return until1 is until2
+        return (
+            until1.isDateOnly() == until2.isDateOnly() and
+            until1.getTimezoneUTC() == until2.getTimezoneUTC() and
+            until1.getTimezoneID() == until2.getTimezoneID() and
+            until1 == until2
+        )
+
     def equalsNum(self, items1, items2):
         # Check sizes first
         if items1 is None:
-- 
2.43.0


From df4e440d442cc3e245f52a6a2ed933ab9ebe158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 22/56] fix: Recurrence.duplicate kept no UNTIL that is set but
 not in use

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 16f99e5..f3d2d65 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -107,7 +107,7 @@ class Recurrence(ValueMixin):
         other.mUseCount = self.mUseCount
         other.mCount = self.mCount
         other.mUseUntil = self.mUseUntil
-        if other.mUseUntil:
+        if self.mUntil is not None:
             other.mUntil = self.mUntil.duplicate()
 
         other.mInterval = self.mInterval
-- 
2.43.0


From c7e9b9d39cdbaf8b422dca76ef2b3bf4ce88375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 23/56] fix: BYWEEKNO=53 in a year without week 53 gave a date
 in week 1

---
 src/pycalendar/icalendar/recurrence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index f3d2d65..5ef9630 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1408,7 +1408,9 @@ class Recurrence(ValueMixin):
             for iter2 in self.mByWeekNo:
                 temp = iter1.duplicate()
                 temp.setWeekNo(iter2)
-                output.append(temp)
+                # Not every year has a week 53
+                if temp.getWeekNo() == iter2:
+                    output.append(temp)
 
         return output
 
-- 
2.43.0


From 9a367959c6d9b2b4ef9bad9ae139c7a77b380bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 24/56] fix: BYDAY=53MO in a year with 52 Mondays gave a date
 in another year

---
 src/pycalendar/icalendar/recurrence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 5ef9630..fc1cbcf 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1451,7 +1451,9 @@ class Recurrence(ValueMixin):
                 if iter2[0] != 0:
                     temp = iter1.duplicate()
                     temp.setDayOfWeekInYear(iter2[0], iter2[1])
-                    output.append(temp)
+                    # Not every year has 53 of each day
+                    if temp.getYear() == iter1.getYear():
+                        output.append(temp)
                 else:
                     # Every matching day in the year
                     for i in range(1, 54):
-- 
2.43.0


From 47bf1d6e4374f641198b351f8b7bc39cc3bb272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 25/56] fix: BYYEARDAY limits hourly, minutely and secondly
 rules

---
 src/pycalendar/icalendar/recurrence.py | 42 ++++++++++++++++++++------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index fc1cbcf..e5bf998 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -14,7 +14,7 @@
 #    limitations under the License.
 ##
 
-from pycalendar import xmlutils
+from pycalendar import utils, xmlutils
 from pycalendar.datetime import DateTime
 from pycalendar.icalendar import definitions, xmldefinitions
 from pycalendar.icalendar.exceptions import TooManyInstancesError
@@ -1243,8 +1243,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateHourlySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1259,7 +1257,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1289,8 +1290,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateMinutelySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1305,7 +1304,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1337,8 +1339,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateSecondlySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1353,7 +1353,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1588,6 +1591,25 @@ class Recurrence(ValueMixin):
 
         return output
 
+    def byYearDayLimit(self, dates):
+        # Loop over all input items
+        output = []
+        for iter1 in dates:
+            # Loop over each BYYEARDAY and indicate keep if input year day
+            # matches (negative values count from the end of the year)
+            yearday = iter1.getYearDay()
+            from_end = yearday - (366 if utils.isLeapYear(iter1.getYear()) else 365) - 1
+            keep = False
+            for iter2 in self.mByYearDay:
+                keep = (iter2 == yearday) or (iter2 == from_end)
+                if keep:
+                    break
+
+            if keep:
+                output.append(iter1)
+
+        return output
+
     def byMonthDayLimit(self, dates):
         # Loop over all input items
         output = []
-- 
2.43.0


From d8c4a037b3e9813955c4c9083b25adab648a176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 26/56] fix: BYWEEKNO used the week of the neighbouring year
 for dates in it

---
 src/pycalendar/icalendar/recurrence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index e5bf998..9751c2b 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1410,6 +1410,9 @@ class Recurrence(ValueMixin):
             # insert into output
             for iter2 in self.mByWeekNo:
                 temp = iter1.duplicate()
+                # Days near the ends of a year can be in a week of the year next to it, so
+                # start from the same day of the week in the middle of the year
+                temp.offsetDay(7 * ((182 - temp.getYearDay()) / 7))
                 temp.setWeekNo(iter2)
                 # Not every year has a week 53
                 if temp.getWeekNo() == iter2:
-- 
2.43.0


From 2bcdda8aecc1fc11427e64fdedea967d93ee0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 27/56] fix: the expansion cache shared date-times with its
 callers

---
 src/pycalendar/icalendar/recurrence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 9751c2b..8b2a7c9 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -884,14 +884,14 @@ class Recurrence(ValueMixin):
 
             # Set cache values
             self.mCached = True
-            self.mCacheStart = start
-            self.mCacheUpto = range.getEnd()
+            self.mCacheStart = start.duplicate()
+            self.mCacheUpto = range.getEnd().duplicate()
 
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
         for iter in self.mRecurrences:
             if range.isDateWithinPeriod(iter):
-                items.append(iter)
+                items.append(iter.duplicate())
             else:
                 limited = True
         return limited
-- 
2.43.0


From 892cf80dd11df0ff1d39300c7342a489256dc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 28/56] fix: an expansion that failed left a partial cache

---
 src/pycalendar/icalendar/recurrence.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 8b2a7c9..6e71035 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -874,15 +874,17 @@ class Recurrence(ValueMixin):
 
             # Always wipe the existing cached items as we always start from the very first instance
             # so we can properly track the count limit
-            self.mRecurrences = []
+            self.clear()
+            recurrences = []
 
             # Simple expansion is one where there is no BYXXX rule part
             if not self.hasBy():
-                self.mFullyCached = self.simpleExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
+                self.mFullyCached = self.simpleExpand(start, range, recurrences, float_offset, maxInstances=maxInstances)
             else:
-                self.mFullyCached = self.complexExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
+                self.mFullyCached = self.complexExpand(start, range, recurrences, float_offset, maxInstances=maxInstances)
 
             # Set cache values
+            self.mRecurrences = recurrences
             self.mCached = True
             self.mCacheStart = start.duplicate()
             self.mCacheUpto = range.getEnd().duplicate()
-- 
2.43.0


From a2593208d5ad030f47b22785607815af01b8a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 29/56] fix: the expansion cache ignored the kind of the start
 and the floating offset

---
 src/pycalendar/icalendar/recurrence.py | 27 ++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 6e71035..ded11ef 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -136,6 +136,7 @@ class Recurrence(ValueMixin):
             other.mCacheStart = self.mCacheStart.duplicate()
         if self.mCacheUpto:
             other.mCacheUpto = self.mCacheUpto.duplicate()
+        other.mCacheFloatOffset = self.mCacheFloatOffset
         other.mFullyCached = self.mFullyCached
         if self.mRecurrences:
             other.mRecurrences = self.mRecurrences[:]
@@ -166,6 +167,7 @@ class Recurrence(ValueMixin):
         self.mCached = False
         self.mCacheStart = None
         self.mCacheUpto = None
+        self.mCacheFloatOffset = 0
         self.mFullyCached = False
         self.mRecurrences = None
 
@@ -219,12 +221,7 @@ class Recurrence(ValueMixin):
         # Dates, floating and UTC date-times are different end dates even when they compare the same
         if until1 is None or until2 is None:
             return until1 is until2
-        return (
-            until1.isDateOnly() == until2.isDateOnly() and
-            until1.getTimezoneUTC() == until2.getTimezoneUTC() and
-            until1.getTimezoneID() == until2.getTimezoneID() and
-            until1 == until2
-        )
+        return self.sameKind(until1, until2) and until1 == until2
 
     def equalsNum(self, items1, items2):
         # Check sizes first
@@ -862,8 +859,14 @@ class Recurrence(ValueMixin):
         if self.mRecurrences is None:
             self.mRecurrences = []
 
-        # Wipe cache if start is different
-        if self.mCached and (start != self.mCacheStart):
+        # Wipe cache if start (or how it relates to UNTIL) is different - starts that
+        # compare equal can still be dates, floating or in different timezones
+        if self.mCached and (
+            start != self.mCacheStart or
+            not self.sameKind(start, self.mCacheStart) or
+            not self.sameKind(range.getEnd(), self.mCacheUpto) or
+            float_offset != self.mCacheFloatOffset
+        ):
             self.mCached = False
             self.mFullyCached = False
 
@@ -888,6 +891,7 @@ class Recurrence(ValueMixin):
             self.mCached = True
             self.mCacheStart = start.duplicate()
             self.mCacheUpto = range.getEnd().duplicate()
+            self.mCacheFloatOffset = float_offset
 
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
@@ -898,6 +902,13 @@ class Recurrence(ValueMixin):
                 limited = True
         return limited
 
+    def sameKind(self, dt1, dt2):
+        return (
+            dt1.isDateOnly() == dt2.isDateOnly() and
+            dt1.getTimezoneUTC() == dt2.getTimezoneUTC() and
+            dt1.getTimezoneID() == dt2.getTimezoneID()
+        )
+
     def simpleExpand(self, start, range, items, float_offset, maxInstances=None):
         start_iter = start.duplicate()
         ctr = 0
-- 
2.43.0


From c0874aa37276b89b42bb1f0d777af9ff585e9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 30/56] fix: the limit on the number of instances also holds
 for cached expansions

---
 src/pycalendar/icalendar/recurrence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index ded11ef..12ae9cd 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -893,6 +893,11 @@ class Recurrence(ValueMixin):
             self.mCacheUpto = range.getEnd().duplicate()
             self.mCacheFloatOffset = float_offset
 
+        elif maxInstances:
+            # The limit applies to what an expansion up to the end of this range would find
+            if len([iter for iter in self.mRecurrences if not range.isDateAfterPeriod(iter)]) > maxInstances:
+                raise TooManyInstancesError("Too many instances")
+
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
         for iter in self.mRecurrences:
-- 
2.43.0


From 28f4d189392e3823021b83d5d5ae27c510d8546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 31/56] fix: expansion repeated instances given by two values
 of a part

---
 src/pycalendar/icalendar/recurrence.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 12ae9cd..3f6b8b3 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -996,7 +996,7 @@ class Recurrence(ValueMixin):
 
             # Always sort the set as BYxxx rules may not be sorted
             # set_items.sort(cmp=DateTime.sort)
-            set_items.sort(key=lambda x: x.getPosixTime())
+            set_items = self.sortUnique(set_items)
 
             # Process each one in the generated set
             for iter in set_items:
@@ -1043,6 +1043,14 @@ class Recurrence(ValueMixin):
             # Get next item
             start_iter.recur(self.mFreq, self.mInterval, allow_invalid=True)
 
+    def sortUnique(self, dates):
+        # Different BYxxx values can give the same date (e.g. BYMONTHDAY=31,-1)
+        output = []
+        for iter in sorted(dates, key=lambda x: x.getPosixTime()):
+            if not output or iter != output[-1]:
+                output.append(iter)
+        return output
+
     def clear(self):
         self.mCached = False
         self.mFullyCached = False
@@ -1715,7 +1723,7 @@ class Recurrence(ValueMixin):
     def bySetPosLimit(self, dates):
         # The input dates MUST be sorted in order for this to work properly
         # dates.sort(cmp=DateTime.sort)
-        dates.sort(key=lambda x: x.getPosixTime())
+        dates = self.sortUnique(dates)
 
         # Loop over each BYSETPOS and extract the relevant component from the
         # input array and add to the output
-- 
2.43.0


From a9a3eefd55ad2d8f53cb20c28a5e62de1bbdc679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 32/56] fix: UNTIL for a floating start was put in a fixed
 offset of zero

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 3f6b8b3..f814fe3 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -921,7 +921,7 @@ class Recurrence(ValueMixin):
         if self.mUseUntil:
             float_until = self.mUntil.duplicate()
             if start.floating():
-                float_until.setTimezoneID(0)
+                float_until.setTimezoneID(None)
                 float_until.offsetSeconds(float_offset)
 
         while True:
-- 
2.43.0


From 5c5d4bf5b644b933617c66ff5764fdd4a2dd33f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 33/56] fix: setUntil ignored an end date of another kind

---
 src/pycalendar/icalendar/recurrence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index f814fe3..1506139 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -288,7 +288,9 @@ class Recurrence(ValueMixin):
         return self.mUntil
 
     def setUntil(self, until):
-        self._setAndclearIfChanged("mUntil", until)
+        # Always clear as end dates that compare equal can be of different kinds
+        self.clear()
+        self.mUntil = until
 
     def getUseCount(self):
         return self.mUseCount
-- 
2.43.0


From d72982bbb24ad48cb86a69ae39d5c6622cf5cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 34/56] fix: RecurrenceSet.equals called methods that do not
 exist

---
 src/pycalendar/icalendar/recurrenceset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 898c6f6..b409ba1 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -47,23 +47,23 @@ class RecurrenceSet(object):
 
     def equals(self, comp):
         # Look at RRULEs
-        if not self.equalsRules(self.mRrules, comp.self.mRrules):
+        if not self.equalsRules(self.mRrules, comp.mRrules):
             return False
 
         # Look at EXRULEs
-        if not self.equalsRules(self.mExrules, comp.self.mExrules):
+        if not self.equalsRules(self.mExrules, comp.mExrules):
             return False
 
         # Look at RDATEs
-        if not self.equalsDates(self.mRdates, comp.self.mRdates):
+        if not self.equalsDates(self.mRdates, comp.mRdates):
             return False
-        if not self.equalsPeriods(self.mRperiods, comp.self.mRperiods):
+        if not self.equalsPeriods(self.mRperiods, comp.mRperiods):
             return False
 
         # Look at EXDATEs
-        if not self.equalsDates(self.mExdates, comp.self.mExdates):
+        if not self.equalsDates(self.mExdates, comp.mExdates):
             return False
-        if not self.equalsPeriods(self.mExperiods, comp.self.mExperiods):
+        if not self.equalsPeriods(self.mExperiods, comp.mExperiods):
             return False
 
         # If we get here they match
@@ -111,7 +111,7 @@ class RecurrenceSet(object):
         dt1.sort(key=lambda x: x.getPosixTime())
         dt2.sort(key=lambda x: x.getPosixTime())
 
-        return dt1.equal(dt2)
+        return dt1 == dt2
 
     def equalsPeriods(self, periods1, periods2):
         # Check sizes first
@@ -127,7 +127,7 @@ class RecurrenceSet(object):
         p1.sort()
         p2.sort()
 
-        return p1.equal(p2)
+        return p1 == p2
 
     def addRule(self, rule):
         self.mRrules.append(rule)
-- 
2.43.0


From 17cf273e913dd3acc03b0e541e3bce4b7021813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 35/56] fix: expansion with exclusions was not in order

---
 src/pycalendar/icalendar/recurrenceset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index b409ba1..b0ca79c 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -224,7 +224,9 @@ class RecurrenceSet(object):
 
         # Add difference between to the two sets (include - exclude) to the
         # results
-        items.extend(set_difference(include, exclude))
+        results = set_difference(include, exclude)
+        results.sort(key=lambda x: x.getPosixTime())
+        items.extend(results)
         return limited
 
     def changed(self):
-- 
2.43.0


From 88fcd3d655a2be76fc4fe9d1e7192fd16634eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 36/56] fix: include the seconds in the timezone offset cache
 key

---
 src/pycalendar/icalendar/vtimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index ab7aceb..7274e46 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -163,7 +163,7 @@ class VTimezone(Component):
 
         # Now search for the transition just below the time we want
         if len(self.mCachedExpandAll):
-            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, relative_to_utc)
+            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
             i = self.mCachedOffsets.get(cacheKey)
             if i is None:
                 i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
-- 
2.43.0


From 97402b6d185a0404e9a0eea15be4d974665afe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 37/56] fix: expand timezones far enough for transitions at the
 end of a year in UTC

---
 src/pycalendar/icalendar/vtimezone.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 7274e46..2d26adb 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -154,11 +154,12 @@ class VTimezone(Component):
         if self.mCachedExpandAllMaxYear is None or temp.mYear >= self.mCachedExpandAllMaxYear:
             cacheMax = temp.duplicate()
             cacheMax.setHHMMSS(0, 0, 0)
-            cacheMax.offsetYear(2)
+            cacheMax.offsetYear(3)
             cacheMax.setMonth(1)
             cacheMax.setDay(1)
             self.mCachedExpandAll = self.expandAll(None, cacheMax)
-            self.mCachedExpandAllMaxYear = cacheMax.mYear
+            # A transition at the start of the last year can be in the year before it in UTC
+            self.mCachedExpandAllMaxYear = cacheMax.mYear - 1
             self.mCachedOffsets = {}
 
         # Now search for the transition just below the time we want
-- 
2.43.0


From d6e2051c7681bec640c62291d530e08a18d20bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 38/56] fix: look up UTC times in the transitions sorted by UTC

---
 src/pycalendar/icalendar/vtimezone.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 2d26adb..0852599 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -158,21 +158,23 @@ class VTimezone(Component):
             cacheMax.setMonth(1)
             cacheMax.setDay(1)
             self.mCachedExpandAll = self.expandAll(None, cacheMax)
+            self.mCachedExpandAllUTC = sorted(self.mCachedExpandAll, key=lambda x: x[1].getPosixTime())
             # A transition at the start of the last year can be in the year before it in UTC
             self.mCachedExpandAllMaxYear = cacheMax.mYear - 1
             self.mCachedOffsets = {}
 
         # Now search for the transition just below the time we want
-        if len(self.mCachedExpandAll):
+        transitions = self.mCachedExpandAllUTC if relative_to_utc else self.mCachedExpandAll
+        if len(transitions):
             cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
             i = self.mCachedOffsets.get(cacheKey)
             if i is None:
-                i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
+                i = VTimezone.tuple_bisect_right(transitions, temp, relative_to_utc)
                 if len(self.mCachedOffsets) >= self.UTCOFFSET_CACHE_MAX_ENTRIES:
                     self.mCachedOffsets = {}
                 self.mCachedOffsets[cacheKey] = i
             if i != 0:
-                return self.mCachedExpandAll[i - 1][3]
+                return transitions[i - 1][3]
 
         return 0
 
-- 
2.43.0


From 141d023344d4c1631b53a0f7254307cb09edaa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 39/56] fix: round up to the next year when caching timezone
 expansions

---
 src/pycalendar/icalendar/vtimezoneelement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index bf32810..b56fdde 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -124,7 +124,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(below.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(below.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -184,7 +184,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(end.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(end.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -193,7 +193,7 @@ class VTimezoneElement(Component):
                 self.mCachedExpandBelow = self.mStart.duplicate()
             if temp > self.mCachedExpandBelow:
                 self.mCachedExpandBelowItems = []
-                period = Period(self.mStart, end)
+                period = Period(self.mStart, temp)
                 self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
                 self.mCachedExpandBelow = temp
 
-- 
2.43.0


From 2d4054d60b09744b88b1bb115a5553af03682432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 40/56] fix: allow a fixed offset in the Timezone constructor

---
 src/pycalendar/timezone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/timezone.py b/src/pycalendar/timezone.py
index 7e6bdeb..4858c23 100644
--- a/src/pycalendar/timezone.py
+++ b/src/pycalendar/timezone.py
@@ -36,8 +36,8 @@ class Timezone(object):
             self.mUTC = utc
             self.mTimezone = tzid
         elif tzid is not None:
-            self.mUTC = tzid.lower() == 'utc'
-            self.mTimezone = None if tzid.lower() == 'utc' else tzid
+            self.mUTC = not isinstance(tzid, int) and tzid.lower() == 'utc'
+            self.mTimezone = None if self.mUTC else tzid
         else:
             self.mUTC = True
             self.mTimezone = None
-- 
2.43.0


From 5d45b96b40562d85c6c114f95ba340d378c79dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 41/56] fix: only read timezone files inside the database
 directory

---
 src/pycalendar/timezonedb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 55b64ae..1929993 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -114,9 +114,10 @@ class TimezoneDatabase(object):
         if self.dbpath is None:
             return
 
-        tzpath = os.path.join(self.dbpath, "%s.ics" % (tzid,))
-        tzpath = os.path.normpath(tzpath)
-        if tzpath.startswith(self.dbpath) and os.path.isfile(tzpath):
+        # The file must be inside the database directory
+        dbroot = os.path.join(os.path.abspath(self.dbpath), "")
+        tzpath = os.path.abspath(os.path.join(self.dbpath, "%s.ics" % (tzid,)))
+        if tzpath.startswith(dbroot) and os.path.isfile(tzpath):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-- 
2.43.0


From 685a29ccf561330d4aeb52950167d57058689d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 42/56] fix: add a standard timezone after an earlier failed
 lookup

---
 src/pycalendar/timezonedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 1929993..7a2a2f2 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -147,7 +147,7 @@ class TimezoneDatabase(object):
         @param tz: the VTIMEZONE component to add
         @type tz: L{Component}
         """
-        if tz.getID() not in self.tzcache:
+        if self.tzcache.get(tz.getID()) is None:
             self.addTimezone(tz)
         self.stdtzcache.add(tz.getID())
 
-- 
2.43.0


From d7ab887db35c7ea7cb479ba7eca9025e821da9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 43/56] fix: keep the sign and the seconds of a rule's save
 time

---
 src/zonal/rule.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index fea727f..fb8f013 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -244,17 +244,13 @@ class Rule(object):
 
         @return: C{int}
         """
-        splits = self.saveTime.split(":")
+        negative = self.saveTime.startswith("-")
+        splits = (self.saveTime[1:] if negative else self.saveTime).split(":")
         hours = int(splits[0])
-        if len(splits) == 2:
-            minutes = int(splits[1])
-        else:
-            minutes = 0
-        negative = hours < 0
-        if negative:
-            return -((-hours * 60) + minutes) * 60
-        else:
-            return ((hours * 60) + minutes) * 60
+        minutes = int(splits[1]) if len(splits) > 1 else 0
+        seconds = int(splits[2]) if len(splits) > 2 else 0
+        offset = ((hours * 60) + minutes) * 60 + seconds
+        return -offset if negative else offset
 
     def startYear(self):
         return int(self.fromYear)
-- 
2.43.0


From 3af30fff3edef0529b1a0b89ede0f5bb4283e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 44/56] fix: apply the sign of a zone line's save time to its
 minutes

---
 src/zonal/zone.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 53275bd..d0fd753 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -483,10 +483,15 @@ class ZoneRule(object):
     def getNumericOffset(self):
         offset = 0
         if self.rule != "-":
-            splits = self.rule.split(":")
+            negative = self.rule.startswith("-")
+            splits = (self.rule[1:] if negative else self.rule).split(":")
             offset = 60 * 60 * int(splits[0])
             if len(splits) > 1:
                 offset += 60 * int(splits[1])
+            if len(splits) > 2:
+                offset += int(splits[2])
+            if negative:
+                offset = -offset
         return offset
 
     def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto):
-- 
2.43.0


From 0e571eccd58bd1d1a9dd5ad5080e1a462b6534db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 45/56] fix: treat the tzdata time suffixes g and z as UTC

---
 src/zonal/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zonal/utils.py b/src/zonal/utils.py
index dc074e9..10d376e 100644
--- a/src/zonal/utils.py
+++ b/src/zonal/utils.py
@@ -21,6 +21,9 @@ class DateTime(object):
     and that can generate appropriate localtime or UTC offsets based on Zone/Rule offsets.
     """
 
+    # tzdata uses any of these suffixes for UTC
+    UTC_MODES = ("u", "g", "z",)
+
     def __init__(self, dt, mode):
         self.dt = dt
         self.mode = mode
@@ -33,7 +36,7 @@ class DateTime(object):
 
     def getLocaltime(self, offset, stdoffset):
         new_dt = self.dt.duplicate()
-        if self.mode == "u":
+        if self.mode in DateTime.UTC_MODES:
             new_dt.offsetSeconds(offset)
         elif self.mode == "s":
             new_dt.offsetSeconds(-stdoffset + offset)
@@ -41,7 +44,7 @@ class DateTime(object):
 
     def getUTC(self, offset, stdoffset):
         new_dt = self.dt.duplicate()
-        if self.mode == "u":
+        if self.mode in DateTime.UTC_MODES:
             pass
         elif self.mode == "s":
             new_dt.offsetSeconds(-stdoffset)
-- 
2.43.0


From b24157a11f1919b613ce85ef0664c0cad96f91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 46/56] fix: remove the component itself rather than an equal
 one

---
 src/pycalendar/componentbase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 6adc521..99a2c67 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -133,7 +133,13 @@ class ComponentBase(object):
         return len(self.getComponents(compname))
 
     def removeComponent(self, component):
-        self.mComponents.remove(component)
+        # Remove this object rather than another one that is equal to it
+        for index, item in enumerate(self.mComponents):
+            if item is component:
+                del self.mComponents[index]
+                break
+        else:
+            self.mComponents.remove(component)
 
     def removeAllComponent(self, compname=None):
         if compname:
-- 
2.43.0


From b0202338fb96553fc190b02758f54c0cf8b65d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 47/56] fix: keep the UID maps of a calendar in step with its
 components

---
 src/pycalendar/icalendar/calendar.py | 30 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 50a9615..360e41c 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -151,13 +151,7 @@ class Calendar(ContainerBase):
                 component.setUID(newUID)
 
         # Maps
-        if oldUID in self.mOverriddenComponentsByUID:
-            self.mOverriddenComponentsByUID[newUID] = self.mOverriddenComponentsByUID[oldUID]
-            del self.mOverriddenComponentsByUID[oldUID]
-        for ctype in self.mMasterComponentsByTypeAndUID:
-            if oldUID in self.mMasterComponentsByTypeAndUID[ctype]:
-                self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype][oldUID]
-                del self.mMasterComponentsByTypeAndUID[ctype][oldUID]
+        self._rebuildMaps()
 
     def finalise(self):
         # Get calendar name if present
@@ -310,7 +304,9 @@ class Calendar(ContainerBase):
         Override to track components by UID.
         """
         super(Calendar, self).addComponent(component)
+        self._addToMaps(component)
 
+    def _addToMaps(self, component):
         if isinstance(component, ComponentRecur):
             uid = component.getUID()
             rid = component.getRecurrenceID()
@@ -324,14 +320,20 @@ class Calendar(ContainerBase):
         Override to track components by UID.
         """
         super(Calendar, self).removeComponent(component)
+        self._rebuildMaps()
 
-        if isinstance(component, ComponentRecur):
-            uid = component.getUID()
-            rid = component.getRecurrenceID()
-            if rid:
-                self.mOverriddenComponentsByUID[uid].remove(component)
-            else:
-                del self.mMasterComponentsByTypeAndUID[component.getType()][uid]
+    def removeAllComponent(self, compname=None):
+        """
+        Override to track components by UID.
+        """
+        super(Calendar, self).removeAllComponent(compname)
+        self._rebuildMaps()
+
+    def _rebuildMaps(self):
+        self.mMasterComponentsByTypeAndUID.clear()
+        self.mOverriddenComponentsByUID.clear()
+        for component in self.mComponents:
+            self._addToMaps(component)
 
     def deriveComponent(self, recurrenceID):
         """
-- 
2.43.0


From 36ed608bfc449768dbaf8b9db2fe357a720f89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 48/56] fix: add the calendar name property

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 360e41c..b4aac30 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -107,7 +107,7 @@ class Calendar(ContainerBase):
 
             # Now create properties
             if len(name):
-                self.ddProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
+                self.addProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
 
     def getDescription(self):
         return self.mDescription
-- 
2.43.0


From 859a06a7275878c93f524adc0164032817604879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 49/56] fix: compare the groups of vCard properties

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 23bf7a7..1a7903b 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -197,7 +197,7 @@ class Property(PropertyBase):
         if not isinstance(other, Property):
             return False
         return (
-            self.mGroup == self.mGroup and
+            self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
             self.mParameters == other.mParameters
-- 
2.43.0


From ff57256c069fbf1bb149ce74f484406a6969ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 50/56] fix: make a duplicated master its own master

---
 src/pycalendar/icalendar/componentrecur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index c3feef0..ad3c535 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -100,7 +100,7 @@ class ComponentRecur(Component):
         other = super(ComponentRecur, self).duplicate(parent=parent)
 
         # Special determination of master
-        other.mMaster = self.mMaster if self.recurring() else self
+        other.mMaster = self.mMaster if self.recurring() else other
 
         other.mMapKey = self.mMapKey
 
-- 
2.43.0


From 4a5afcfe3670779a94bac7095b231acadd930ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 51/56] fix: let N and ADR values be compared with != and
 changed

---
 src/pycalendar/vcard/adr.py | 20 +++++++++++++-------
 src/pycalendar/vcard/n.py   | 16 +++++++++++-----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 07cf79d..c11c7bb 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -48,50 +48,56 @@ class Adr(ValueMixin):
     def __repr__(self):
         return "ADR %s" % (self.getText(),)
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
+    def _setItem(self, index, value):
+        self.mValue = self.mValue[:index] + (value,) + self.mValue[index + 1:]
+
     def getPobox(self):
         return self.mValue[Adr.POBOX]
 
     def setPobox(self, value):
-        self.mValue[Adr.POBOX] = value
+        self._setItem(Adr.POBOX, value)
 
     def getExtended(self):
         return self.mValue[Adr.EXTENDED]
 
     def setExtended(self, value):
-        self.mValue[Adr.EXTENDED] = value
+        self._setItem(Adr.EXTENDED, value)
 
     def getStreet(self):
         return self.mValue[Adr.STREET]
 
     def setStreet(self, value):
-        self.mValue[Adr.STREET] = value
+        self._setItem(Adr.STREET, value)
 
     def getLocality(self):
         return self.mValue[Adr.LOCALITY]
 
     def setLocality(self, value):
-        self.mValue[Adr.LOCALITY] = value
+        self._setItem(Adr.LOCALITY, value)
 
     def getRegion(self):
         return self.mValue[Adr.REGION]
 
     def setRegion(self, value):
-        self.mValue[Adr.REGION] = value
+        self._setItem(Adr.REGION, value)
 
     def getPostalCode(self):
         return self.mValue[Adr.POSTALCODE]
 
     def setPostalCode(self, value):
-        self.mValue[Adr.POSTALCODE] = value
+        self._setItem(Adr.POSTALCODE, value)
 
     def getCountry(self):
         return self.mValue[Adr.COUNTRY]
 
     def setCountry(self, value):
-        self.mValue[Adr.COUNTRY] = value
+        self._setItem(Adr.COUNTRY, value)
 
     def parse(self, data):
         self.mValue = utils.parseDoubleNestedList(data, Adr.MAXITEMS)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index cda6409..60053ae 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -46,38 +46,44 @@ class N(ValueMixin):
     def __repr__(self):
         return "N %s" % (self.getText(),)
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
+    def _setItem(self, index, value):
+        self.mValue = self.mValue[:index] + (value,) + self.mValue[index + 1:]
+
     def getFirst(self):
         return self.mValue[N.FIRST]
 
     def setFirst(self, value):
-        self.mValue[N.FIRST] = value
+        self._setItem(N.FIRST, value)
 
     def getLast(self):
         return self.mValue[N.LAST]
 
     def setLast(self, value):
-        self.mValue[N.LAST] = value
+        self._setItem(N.LAST, value)
 
     def getMiddle(self):
         return self.mValue[N.MIDDLE]
 
     def setMiddle(self, value):
-        self.mValue[N.MIDDLE] = value
+        self._setItem(N.MIDDLE, value)
 
     def getPrefix(self):
         return self.mValue[N.PREFIX]
 
     def setPrefix(self, value):
-        self.mValue[N.PREFIX] = value
+        self._setItem(N.PREFIX, value)
 
     def getSuffix(self):
         return self.mValue[N.SUFFIX]
 
     def setSuffix(self, value):
-        self.mValue[N.SUFFIX] = value
+        self._setItem(N.SUFFIX, value)
 
     def getFullName(self):
 
-- 
2.43.0


From 5da74b286da92ffae9eedc25cfb0d4a107ca0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 52/56] fix: count properties after removing those that exclude
 each other

---
 src/pycalendar/icalendar/available.py     | 8 ++++++--
 src/pycalendar/icalendar/vavailability.py | 8 ++++++--
 src/pycalendar/icalendar/vevent.py        | 8 ++++++--
 src/pycalendar/icalendar/vtodo.py         | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/available.py b/src/pycalendar/icalendar/available.py
index 1b173c8..eaba8ba 100644
--- a/src/pycalendar/icalendar/available.py
+++ b/src/pycalendar/icalendar/available.py
@@ -60,10 +60,15 @@ class Available(ComponentRecur):
         to that.
         """
 
+        # Removing the DTEND can also fix there being too many of them, so do it before they are counted
+        both = self.hasProperty(definitions.cICalProperty_DTEND) and self.hasProperty(definitions.cICalProperty_DURATION)
+        if both and doFix:
+            self.removeProperties(definitions.cICalProperty_DTEND)
+
         fixed, unfixed = super(Available, self).validate(doFix)
 
         # Extra constraint: only one of DTEND or DURATION
-        if self.hasProperty(definitions.cICalProperty_DTEND) and self.hasProperty(definitions.cICalProperty_DURATION):
+        if both:
             # Fix by removing the DTEND
             logProblem = "[%s] Properties must not both be present: %s, %s" % (
                 self.getType(),
@@ -71,7 +76,6 @@ class Available(ComponentRecur):
                 definitions.cICalProperty_DURATION,
             )
             if doFix:
-                self.removeProperties(definitions.cICalProperty_DTEND)
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/vavailability.py b/src/pycalendar/icalendar/vavailability.py
index 0f386f6..1d860dd 100644
--- a/src/pycalendar/icalendar/vavailability.py
+++ b/src/pycalendar/icalendar/vavailability.py
@@ -67,10 +67,15 @@ class VAvailability(Component):
         to that.
         """
 
+        # Removing the DTEND can also fix there being too many of them, so do it before they are counted
+        both = self.hasProperty(definitions.cICalProperty_DTEND) and self.hasProperty(definitions.cICalProperty_DURATION)
+        if both and doFix:
+            self.removeProperties(definitions.cICalProperty_DTEND)
+
         fixed, unfixed = super(VAvailability, self).validate(doFix)
 
         # Extra constraint: only one of DTEND or DURATION
-        if self.hasProperty(definitions.cICalProperty_DTEND) and self.hasProperty(definitions.cICalProperty_DURATION):
+        if both:
             # Fix by removing the DTEND
             logProblem = "[%s] Properties must not both be present: %s, %s" % (
                 self.getType(),
@@ -78,7 +83,6 @@ class VAvailability(Component):
                 definitions.cICalProperty_DURATION,
             )
             if doFix:
-                self.removeProperties(definitions.cICalProperty_DTEND)
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 1ed908b..629191f 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -99,6 +99,11 @@ class VEvent(ComponentRecur):
         to that.
         """
 
+        # Removing the DTEND can also fix there being too many of them, so do it before they are counted
+        both = self.hasProperty(definitions.cICalProperty_DTEND) and self.hasProperty(definitions.cICalProperty_DURATION)
+        if both and doFix:
+            self.removeProperties(definitions.cICalProperty_DTEND)
+
         fixed, unfixed = super(VEvent, self).validate(doFix)
 
         # Extra constraint: if METHOD not present, DTSTART must be
@@ -109,7 +114,7 @@ class VEvent(ComponentRecur):
                 unfixed.append(logProblem)
 
         # Extra constraint: only one of DTEND or DURATION
-        if self.hasProperty(definitions.cICalProperty_DTEND) and self.hasProperty(definitions.cICalProperty_DURATION):
+        if both:
             # Fix by removing the DTEND
             logProblem = "[%s] Properties must not both be present: %s, %s" % (
                 self.getType(),
@@ -117,7 +122,6 @@ class VEvent(ComponentRecur):
                 definitions.cICalProperty_DURATION,
             )
             if doFix:
-                self.removeProperties(definitions.cICalProperty_DTEND)
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4377922..f8d82bd 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -270,10 +270,15 @@ class VToDo(ComponentRecur):
         to that.
         """
 
+        # Removing the DURATION can also fix there being too many of them, so do it before they are counted
+        both = self.hasProperty(definitions.cICalProperty_DUE) and self.hasProperty(definitions.cICalProperty_DURATION)
+        if both and doFix:
+            self.removeProperties(definitions.cICalProperty_DURATION)
+
         fixed, unfixed = super(VToDo, self).validate(doFix)
 
         # Extra constraint: only one of DUE or DURATION
-        if self.hasProperty(definitions.cICalProperty_DUE) and self.hasProperty(definitions.cICalProperty_DURATION):
+        if both:
             # Fix by removing the DURATION
             logProblem = "[%s] Properties must not both be present: %s, %s" % (
                 self.getType(),
@@ -281,7 +286,6 @@ class VToDo(ComponentRecur):
                 definitions.cICalProperty_DURATION,
             )
             if doFix:
-                self.removeProperties(definitions.cICalProperty_DURATION)
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
-- 
2.43.0


From 7ebec507ebd02c0466437194e2cc5e462ba179a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 53/56] fix: do not share the attendees of a duplicated alarm

---
 src/pycalendar/icalendar/valarm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e1876ff..be36644 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -181,7 +181,8 @@ class VAlarm(Component):
             self.mAttendees = attendees
 
         def duplicate(self):
-            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, self.mAttendees)
+            attendees = None if self.mAttendees is None else self.mAttendees[:]
+            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, attendees)
 
         def load(self, valarm):
             # Get properties
-- 
2.43.0


From d56ff33505f1b13ec8c06ffb0269d7eeeaec1c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 54/56] fix: fold vCard PHOTO lines whose parameters do not fit
 on one line

---
 src/pycalendar/vcard/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 1a7903b..7062df8 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -288,6 +288,10 @@ class Property(PropertyBase):
 
             # Write value
             sout.write(":")
+            if len(sout.getvalue()) > 75:
+                # Parameters too long for one line, so use regular folding
+                super(Property, self).generateValue(os, novalue)
+                return
             sout.write("\r\n")
 
             value = self.mValue.getText()
-- 
2.43.0


From b007679a91b060b222cce34b8bbbf7a489249122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 55/56] fix: keep the sort key of a duplicated component

---
 src/pycalendar/icalendar/component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 3d9defd..62754c6 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -61,6 +61,10 @@ class Component(ComponentBase):
 
         other.mChanged = self.mChanged
 
+        # The key is what the component is sorted by when it is written
+        if hasattr(self, "mMapKey"):
+            other.mMapKey = self.mMapKey
+
         return other
 
     def __repr__(self):
-- 
2.43.0


From fab231a0229a525cf9ac77833f191a7ccf4e0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:57 +0000
Subject: [PATCH 56/56] fix: read JSON parameters that have several values

---
 src/pycalendar/property.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a1544c6..55219df 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -440,7 +440,8 @@ class PropertyBase(object):
                 for name, value in jobject[1].items():
                     # Now add parameter value
                     name = name.upper()
-                    attrvalue = Parameter(name=name.encode("utf-8"), value=value.encode("utf-8"))
+                    values = value if isinstance(value, (list, tuple)) else (value,)
+                    attrvalue = Parameter(name=name.encode("utf-8"), value=[v.encode("utf-8") for v in values])
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-- 
2.43.0

