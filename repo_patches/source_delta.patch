From 4c1afac2d9348b00fa0ae275efe641648af2556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 01/43] fix: compare the nanoseconds of both operands in
 Time.__lt__

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1ef0531..d9cd4c0 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1173,7 +1173,7 @@ class Time(_ImmutableBase):
     def __lt__(self, other: Time) -> bool:
         if not isinstance(other, Time):
             return NotImplemented
-        return (self._py_time, self._nanos) < (other._py_time, self._nanos)
+        return (self._py_time, self._nanos) < (other._py_time, other._nanos)
 
     def __le__(self, other: Time) -> bool:
         if not isinstance(other, Time):
-- 
2.43.0


From 1d2f2ea90f5a6a448993a8f3906f6ffca5b149ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 02/43] fix: round half modes correctly for odd increments

---
 pysrc/whenever/_pywhenever.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d9cd4c0..70fb14f 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1122,7 +1122,11 @@ class Time(_ImmutableBase):
         )
 
         if mode == "half_even":  # check the default mode first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            # ties (only possible if the increment is even) go to even quotients
+            if quotient % 2 == 0:
+                threshold_ns = increment_ns // 2 + 1
+            else:
+                threshold_ns = (increment_ns + 1) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1130,7 +1134,7 @@ class Time(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
@@ -1553,7 +1557,11 @@ class TimeDelta(_ImmutableBase):
         quotient, remainder_ns = divmod(self._total_ns, increment_ns)
 
         if mode == "half_even":  # check the default case first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            # ties (only possible if the increment is even) go to even quotients
+            if quotient % 2 == 0:
+                threshold_ns = increment_ns // 2 + 1
+            else:
+                threshold_ns = (increment_ns + 1) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1561,7 +1569,7 @@ class TimeDelta(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
-- 
2.43.0


From dc0f7552326ccee3b6b329844e8fb7da5169c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 03/43] fix: reject out-of-range nanoseconds in LocalDateTime()

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 70fb14f..d0b5f4e 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5292,6 +5292,8 @@ class LocalDateTime(_KnowsLocal):
         nanosecond: int = 0,
     ) -> None:
         self._py_dt = _datetime(year, month, day, hour, minute, second)
+        if nanosecond < 0 or nanosecond >= 1_000_000_000:
+            raise ValueError(f"nanosecond out of range: {nanosecond}")
         self._nanos = nanosecond
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From b759cfd4010067b291176f7318e16463a04ab444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 04/43] fix: parse fractional seconds of ISO durations exactly

---
 pysrc/whenever/_pywhenever.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d0b5f4e..74d9b48 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1794,7 +1794,8 @@ def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
         raise exc
     digits_maybe_fractional, unit = match.groups()
     if unit == "S":
-        value = int(float(digits_maybe_fractional) * 1_000_000_000)
+        secs, _, frac = digits_maybe_fractional.partition(".")
+        value = int(secs) * 1_000_000_000 + int(frac.ljust(9, "0"))
     else:
         try:
             value = int(digits_maybe_fractional)
@@ -2298,6 +2299,7 @@ class DateTimeDelta(_ImmutableBase):
         sign, years, months, weeks, days, hours, minutes, seconds = (
             match.groups()
         )
+        secs, _, frac = (seconds or "0").partition(".")
         parsed = cls(
             years=int(years or 0),
             months=int(months or 0),
@@ -2305,7 +2307,8 @@ class DateTimeDelta(_ImmutableBase):
             days=int(days or 0),
             hours=int(hours or 0),
             minutes=int(minutes or 0),
-            seconds=float(seconds or 0),
+            seconds=int(secs),
+            nanoseconds=int(frac.ljust(9, "0")),
         )
         return -parsed if sign == "-" else parsed
 
-- 
2.43.0


From 39b827bb7ed0d329ed0e6574a2901326e90a37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 05/43] fix: don't accept a missing seconds value in
 DateTimeDelta ISO strings

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 74d9b48..59fdbc5 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5986,7 +5986,7 @@ _match_rfc3339 = re.compile(
 ).fullmatch
 _match_datetimedelta = re.compile(
     r"([-+]?)P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)W)?(?:(\d+)D)?"
-    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)?S)?)?",
+    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)S)?)?",
     re.ASCII,
 ).fullmatch
 _match_time = re.compile(
-- 
2.43.0


From f5396e813177193676d9f12aafdd71888907aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 06/43] fix: compute in_months_days_secs_nanos() without
 floating point

---
 pysrc/whenever/_pywhenever.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 59fdbc5..a211b5d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2225,8 +2225,11 @@ class DateTimeDelta(_ImmutableBase):
         >>> d.in_months_days_secs_nanos()
         (0, 18, 14_400, 2000)
         """
-        subsec_nanos = int(fmod(self._time_part._total_ns, 1_000_000_000))
-        whole_seconds = int(self._time_part._total_ns / 1_000_000_000)
+        whole_seconds, subsec_nanos = divmod(
+            abs(self._time_part._total_ns), 1_000_000_000
+        )
+        if self._time_part._total_ns < 0:
+            whole_seconds, subsec_nanos = -whole_seconds, -subsec_nanos
         return self._date_part.in_months_days() + (whole_seconds, subsec_nanos)
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From f457d56c6da75ddd596f74a8ebc163cd0f97a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 07/43] fix: raise on mixed signs when combining deltas

---
 pysrc/whenever/_pywhenever.py | 36 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index a211b5d..3ea9b25 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2003,19 +2003,13 @@ class DateDelta(_ImmutableBase):
                 days=self._days + other._days,
             )
         elif isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         else:
             return NotImplemented
 
     def __radd__(self, other: TimeDelta) -> DateTimeDelta:
         if isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         return NotImplemented
 
     @overload
@@ -2324,19 +2318,18 @@ class DateTimeDelta(_ImmutableBase):
         >>> d + DateTimeDelta(months=2, days=3, minutes=90)
         DateTimeDelta(P1M1W14DT5H30M)
         """
-        new = _object_new(DateTimeDelta)
         if isinstance(other, DateTimeDelta):
-            new._date_part = self._date_part + other._date_part
-            new._time_part = self._time_part + other._time_part
+            d = self._date_part + other._date_part
+            t = self._time_part + other._time_part
         elif isinstance(other, TimeDelta):
-            new._date_part = self._date_part
-            new._time_part = self._time_part + other
+            d = self._date_part
+            t = self._time_part + other
         elif isinstance(other, DateDelta):
-            new._date_part = self._date_part + other
-            new._time_part = self._time_part
+            d = self._date_part + other
+            t = self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __radd__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
         if isinstance(other, (TimeDelta, DateDelta)):
@@ -2368,16 +2361,15 @@ class DateTimeDelta(_ImmutableBase):
         return self._from_parts(d, t)
 
     def __rsub__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
-        new = _object_new(DateTimeDelta)
         if isinstance(other, TimeDelta):
-            new._date_part = -self._date_part
-            new._time_part = other - self._time_part
+            d = -self._date_part
+            t = other - self._time_part
         elif isinstance(other, DateDelta):
-            new._date_part = other - self._date_part
-            new._time_part = -self._time_part
+            d = other - self._date_part
+            t = -self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __eq__(self, other: object) -> bool:
         """Compare for equality
-- 
2.43.0


From a1ae490e352b7ebd3c71c11bf0d8e31c6ba20416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 08/43] fix: keep the previous offset in a gap for
 ZonedDateTime, as for SystemDateTime

---
 pysrc/whenever/_pywhenever.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 3ea9b25..c8397ed 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5877,16 +5877,17 @@ def _resolve_ambiguity_using_prev_offset(
     dt: _datetime,
     prev_offset: _timedelta,
 ) -> _datetime:
-    if prev_offset == dt.utcoffset():
-        pass
-    elif prev_offset == dt.replace(fold=not dt.fold).utcoffset():
-        dt = dt.replace(fold=not dt.fold)
-    else:
-        # No offset match. Setting fold=0 adopts the 'compatible' strategy
-        dt = dt.replace(fold=0)
+    # The UTC roundtrips ensure skipped times are shifted. Note the offset of a
+    # shifted time is only known *after* the roundtrip.
+    for fold in (dt.fold, not dt.fold):
+        resolved = (
+            dt.replace(fold=fold).astimezone(_UTC).astimezone(dt.tzinfo)
+        )
+        if resolved.utcoffset() == prev_offset:
+            return resolved
 
-    # This roundtrip ensures skipped times are shifted
-    return dt.astimezone(_UTC).astimezone(dt.tzinfo)
+    # No offset match. Setting fold=0 adopts the 'compatible' strategy
+    return dt.replace(fold=0).astimezone(_UTC).astimezone(dt.tzinfo)
 
 
 # Whether the fold of a system time needs to be flipped in a gap
-- 
2.43.0


From c06b6bd0e11a7ab389ad0104224ae77c4d964029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 09/43] fix: keep OffsetDateTime within the UTC range when
 shifting, assuming an offset or parsing RFC 2822

---
 pysrc/whenever/_pywhenever.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index c8397ed..948142b 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3995,7 +3995,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "RFC 2822 string with missing or -0000 offset "
                 f"cannot be parsed as OffsetDateTime: {s!r}"
             )
-        return cls._from_py_unchecked(parsed, 0)
+        return cls._from_py_unchecked(_check_utc_bounds(parsed), 0)
 
     def format_rfc3339(self) -> str:
         """Format as an RFC 3339 string ``YYYY-MM-DD HH:MM:SS±HH:MM``
@@ -4161,7 +4161,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
             tdelta._total_ns + self._nanos, 1_000_000_000
         )
         return self._from_py_unchecked(
-            (py_dt_with_new_date + _timedelta(seconds=delta_secs)),
+            _check_utc_bounds(
+                py_dt_with_new_date + _timedelta(seconds=delta_secs)
+            ),
             nanos,
         )
 
@@ -5616,7 +5618,10 @@ class LocalDateTime(_KnowsLocal):
         OffsetDateTime(2020-08-15 23:12:00+02:00)
         """
         return OffsetDateTime._from_py_unchecked(
-            self._py_dt.replace(tzinfo=_load_offset(offset)), self._nanos
+            _check_utc_bounds(
+                self._py_dt.replace(tzinfo=_load_offset(offset))
+            ),
+            self._nanos,
         )
 
     def assume_tz(
-- 
2.43.0


From c65815e2db2dadd17190d1d5c4e459d3354703ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 10/43] fix: reject sub-second offsets in
 OffsetDateTime.strptime()

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 948142b..3277ca9 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3948,6 +3948,8 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "Parsed datetime must have an offset. "
                 "Use %z, %Z, or %:z in the format string"
             )
+        elif parsed.utcoffset().microseconds:  # type: ignore[union-attr]
+            raise ValueError("Sub-second offsets are not supported")
         return cls._from_py_unchecked(
             _check_utc_bounds(parsed.replace(microsecond=0)),
             parsed.microsecond * 1_000,
-- 
2.43.0


From 538cc8e8fd56ad74275e00cae50894c30a26c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 11/43] fix: take the timezone into account in exact_eq()

---
 pysrc/whenever/_pywhenever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 3277ca9..f281eeb 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2993,12 +2993,12 @@ class _KnowsInstant(_BasicConversions):
             self._py_dt,  # type: ignore[attr-defined]
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
-            type(self._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(self._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         ) == (
             other._py_dt,  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
-            type(other._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(other._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         )
 
     def difference(
-- 
2.43.0


From 7d60e283c6a2876b9e83b8ce94139ac7dea1ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 12/43] fix: reject skipped local times when parsing a
 ZonedDateTime

---
 pysrc/whenever/_pywhenever.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index f281eeb..7a381ec 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4368,10 +4368,13 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             naive_dt = _fromisoformat(s[:19])
         except ValueError:
             raise ValueError(f"Invalid format: {s!r}")
-        dt = _check_utc_bounds(naive_dt.replace(tzinfo=ZoneInfo(match[12])))
-        return cls._from_py_unchecked(
-            _adjust_fold_to_offset(dt, offset), nanos
+        dt = _adjust_fold_to_offset(
+            naive_dt.replace(tzinfo=ZoneInfo(match[12])), offset
         )
+        # In a gap, no offset is valid: not even the ones before and after it
+        if dt.replace(fold=0).utcoffset() < dt.replace(fold=1).utcoffset():  # type: ignore[operator]
+            raise InvalidOffset()
+        return cls._from_py_unchecked(_check_utc_bounds(dt), nanos)
 
     @classmethod
     def from_timestamp(cls, i: int, /, *, tz: str) -> ZonedDateTime:
-- 
2.43.0


From b7f8476c751a16c27028431892b0688ebb12b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 13/43] fix: only accept YYYY-MM-DD in Date.parse_common_iso()

---
 pysrc/whenever/_pywhenever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7a381ec..461a14d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -308,8 +308,7 @@ class Date(_ImmutableBase):
         >>> Date.parse_common_iso("2021-01-02")
         Date(2021-01-02)
         """
-        if s[5] == "W" or not s.isascii():
-            # prevent isoformat from parsing week dates
+        if not _match_date(s):  # prevent other ISO formats from being parsed
             raise ValueError(f"Invalid format: {s!r}")
         try:
             return cls._from_py_unchecked(_date.fromisoformat(s))
@@ -6004,6 +6003,7 @@ _match_next_timedelta_component = re.compile(
 _match_next_datedelta_component = re.compile(
     r"^(\d{1,8})([YMWD])", re.ASCII
 ).match
+_match_date = re.compile(r"\d{4}-\d{2}-\d{2}", re.ASCII).fullmatch
 _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
-- 
2.43.0


From a7813c89184a4a8ece49591e45dfaaa272b988e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 14/43] fix: divide a TimeDelta by an integer without floating
 point

---
 pysrc/whenever/_pywhenever.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 461a14d..f06f9a1 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1716,7 +1716,13 @@ class TimeDelta(_ImmutableBase):
         """
         if isinstance(other, TimeDelta):
             return self._total_ns / other._total_ns
-        elif isinstance(other, (int, float)):
+        elif isinstance(other, int):
+            # integers divide exactly (truncated, as is the case for floats)
+            ns = abs(self._total_ns) // abs(other)
+            if (self._total_ns < 0) is not (other < 0):
+                ns = -ns
+            return TimeDelta(nanoseconds=ns)
+        elif isinstance(other, float):
             return TimeDelta(nanoseconds=int(self._total_ns / other))
         return NotImplemented
 
-- 
2.43.0


From c9fd7618d488228fa4e573e234b7774ec79adcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 15/43] fix: round to the start of this or the next day, also
 on short and long days

---
 pysrc/whenever/_pywhenever.py | 52 +++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index f06f9a1..8f5da1b 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4751,12 +4751,24 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         """
         increment_ns = increment_to_ns(unit, increment, any_hour_ok=False)
         if unit == "day":
-            increment_ns = day_ns = self.day_length()._total_ns
-        else:
-            day_ns = 86_400_000_000_000
+            next_day = _rounds_to_next_day(
+                self.time(), self.day_length(), mode
+            )
+            return self._from_py_unchecked(
+                _resolve_ambiguity(
+                    _datetime.combine(
+                        self.date()._add_days(next_day)._py_date,
+                        _time(),
+                        self._py_dt.tzinfo,
+                    ),
+                    self._py_dt.tzinfo,  # type: ignore[arg-type]
+                    "compatible",
+                ),
+                0,
+            )
 
         rounded_local = self.local()._round_unchecked(
-            increment_ns, mode, day_ns
+            increment_ns, mode, 86_400_000_000_000
         )
         return self._from_py_unchecked(
             _resolve_ambiguity_using_prev_offset(
@@ -5231,12 +5243,21 @@ class SystemDateTime(_KnowsInstantAndLocal):
         """
         increment_ns = increment_to_ns(unit, increment, any_hour_ok=False)
         if unit == "day":
-            increment_ns = day_ns = self.day_length()._total_ns
-        else:
-            day_ns = 86_400_000_000_000
+            next_day = _rounds_to_next_day(
+                self.time(), self.day_length(), mode
+            )
+            return self._from_py_unchecked(
+                _resolve_system_ambiguity(
+                    _datetime.combine(
+                        self.date()._add_days(next_day)._py_date, _time()
+                    ),
+                    "compatible",
+                ),
+                0,
+            )
 
         rounded_local = self.local()._round_unchecked(
-            increment_ns, mode, day_ns
+            increment_ns, mode, 86_400_000_000_000
         )
         return self._from_py_unchecked(
             _resolve_system_ambiguity_using_prev_offset(
@@ -5960,6 +5981,21 @@ def _resolve_system_ambiguity_using_prev_offset(
     return dt.astimezone(_UTC).astimezone()
 
 
+# Days vary in length, and the time of day may even exceed it (on short days).
+def _rounds_to_next_day(time: Time, day_length: TimeDelta, mode: str) -> bool:
+    time_ns = time._to_ns_since_midnight()
+    day_ns = day_length._total_ns
+    if mode in ("half_even", "half_floor"):  # 0 days is "even"
+        return time_ns * 2 > day_ns
+    elif mode == "half_ceil":
+        return time_ns * 2 >= day_ns
+    elif mode == "ceil":
+        return time_ns > 0
+    elif mode == "floor":
+        return False
+    raise ValueError(f"Invalid rounding mode: {mode!r}")
+
+
 def _load_offset(offset: int | TimeDelta, /) -> _timezone:
     if isinstance(offset, int):
         return _timezone(_timedelta(hours=offset))
-- 
2.43.0


From 37ba9893bbb9642a63ccc61743e6cfed8cb8e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 16/43] fix: support shifting a ticking time patch pinned to an
 OffsetDateTime

---
 pysrc/whenever/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 9a6c035..62240eb 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -63,9 +63,12 @@ class _TimePatch:
 
     def shift(self, *args, **kwargs):
         if self._keep_ticking:
-            self._pin = new = (self._pin + (Instant.now() - self._pin)).add(
-                *args, **kwargs
-            )
+            elapsed = Instant.now() - self._pin
+            self._pin = new = (
+                self._pin.add(elapsed, ignore_dst=True)
+                if isinstance(self._pin, OffsetDateTime)
+                else self._pin + elapsed
+            ).add(*args, **kwargs)
             _patch_time_keep_ticking(
                 new if isinstance(new, Instant) else new.instant()
             )
-- 
2.43.0


From 385f3b8b269d6577d346029abd569954319b6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 17/43] fix: reject an empty disambiguate setting

---
 pysrc/whenever/_pywhenever.py | 40 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 8f5da1b..406d8e9 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4456,7 +4456,11 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 # mypy doesn't know that tzinfo is always a ZoneInfo here
                 self._py_dt.tzinfo,  # type: ignore[arg-type]
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             self._nanos,
         )
@@ -4476,7 +4480,11 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 # mypy doesn't know that tzinfo is always a ZoneInfo here
                 self._py_dt.tzinfo,  # type: ignore[arg-type]
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             time._nanos,
         )
@@ -4506,8 +4514,8 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             pass
         else:
             kwargs["tzinfo"] = zoneinfo_new = ZoneInfo(tz)
-            if zoneinfo_new is not self._py_dt.tzinfo:
-                disambiguate = disambiguate or "compatible"
+            if zoneinfo_new is not self._py_dt.tzinfo and disambiguate is None:
+                disambiguate = "compatible"
         nanos = _pop_nanos_kwarg(kwargs, self._nanos)
 
         return self._from_py_unchecked(
@@ -4515,7 +4523,11 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 self._py_dt.replace(**kwargs),
                 kwargs.get("tzinfo", self._py_dt.tzinfo),
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             nanos,
         )
@@ -4963,7 +4975,11 @@ class SystemDateTime(_KnowsInstantAndLocal):
             _resolve_system_ambiguity(
                 _datetime.combine(date._py_date, self._py_dt.time()),
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             self._nanos,
         )
@@ -4979,7 +4995,11 @@ class SystemDateTime(_KnowsInstantAndLocal):
             _resolve_system_ambiguity(
                 _datetime.combine(self._py_dt, time._py_time),
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             time._nanos,
         )
@@ -5004,7 +5024,11 @@ class SystemDateTime(_KnowsInstantAndLocal):
             _resolve_system_ambiguity(
                 self._py_dt.replace(tzinfo=None, **kwargs),
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             nanos,
         )
-- 
2.43.0


From 774c8091e04834a10772227daec90aa0f524b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 18/43] fix: SystemDateTime.is_ambiguous() ignored a repeated
 time created with fold=1

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 406d8e9..376f28d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5186,7 +5186,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
         ----
         This method may give a different result after a change to the system timezone.
         """
-        naive = self._py_dt.replace(tzinfo=None)
+        naive = self._py_dt.replace(tzinfo=None, fold=0)
         return naive.astimezone(_UTC) != naive.replace(fold=1).astimezone(_UTC)
 
     def day_length(self) -> TimeDelta:
-- 
2.43.0


From 7f989d949f4e885c54dccaff38edee93737b4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 19/43] fix: Time.from_py_time() silently dropped the tzinfo of
 an aware time subclass

---
 pysrc/whenever/_pywhenever.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 376f28d..debd166 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -995,14 +995,13 @@ class Time(_ImmutableBase):
 
         `fold` value is ignored.
         """
-        if type(t) is _time:
-            if t.tzinfo is not None:
-                raise ValueError("Time must be naive")
-        elif isinstance(t, _time):
+        if not isinstance(t, _time):
+            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
+        if t.tzinfo is not None:
+            raise ValueError("Time must be naive")
+        if type(t) is not _time:
             # subclass-safe way to ensure we have exactly a datetime.time
             t = _time(t.hour, t.minute, t.second, t.microsecond)
-        else:
-            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
         return cls._from_py_unchecked(
             t.replace(microsecond=0), t.microsecond * 1_000
         )
-- 
2.43.0


From cb289c8b4f7f13301bcd99f38e87f595ed9e26d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 20/43] fix: parsing a truncated ISO string aborted the process
 (Rust extension)

---
 src/common.rs     | 4 ++--
 src/time_delta.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index f85ca97..0dea094 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -62,7 +62,7 @@ macro_rules! type_err(
 
 #[inline]
 pub(crate) fn parse_digit(s: &[u8], index: usize) -> Option<u8> {
-    match s[index] {
+    match *s.get(index)? {
         c if c.is_ascii_digit() => Some(c - b'0'),
         _ => None,
     }
@@ -70,7 +70,7 @@ pub(crate) fn parse_digit(s: &[u8], index: usize) -> Option<u8> {
 
 #[inline]
 pub(crate) fn parse_digit_max(s: &[u8], index: usize, max: u8) -> Option<u8> {
-    match s[index] {
+    match *s.get(index)? {
         c if c >= b'0' && c <= max => Some(c - b'0'),
         _ => None,
     }
diff --git a/src/time_delta.rs b/src/time_delta.rs
index a2641d9..3db594a 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -793,8 +793,8 @@ fn parse_nano_fractions(s: &[u8]) -> Option<i128> {
     }
     // at this point we've parsed 9 fractional digits successfully.
     // Only encountering `S` is valid. Nothing more, nothing less.
-    match s[9..] {
-        [b'S'] => Some(tally),
+    match s.get(9..) {
+        Some([b'S']) => Some(tally),
         _ => None,
     }
 }
-- 
2.43.0


From 05b1cd26a059e6aeda0bdaa1bfe447316ba4c774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 21/43] fix: a time with a dot but no fractional digits was
 accepted (Rust extension)

---
 src/time.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/time.rs b/src/time.rs
index 19c8844..2b9084c 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -144,6 +144,8 @@ impl Time {
         let mut nanos: u32 = 0;
         let mut end_index = 8;
         if s.len() > 8 && s[8] == b'.' {
+            // there must be at least one digit after the dot
+            parse_digit(s, 9)?;
             for (i, factor) in (9..s.len()).zip(&[
                 100_000_000,
                 10_000_000,
-- 
2.43.0


From 40ead723e41b78f990ceeb3605e762b628ea10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 22/43] fix: very long ISO time deltas overflowed silently
 (Rust extension)

---
 src/time_delta.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 3db594a..9929bb7 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -819,11 +819,14 @@ fn parse_component(s: &mut &[u8]) -> Option<(i128, Unit)> {
             }
             b'S' => {
                 *s = &s[i + 1..];
-                return Some((tally * 1_000_000_000, Unit::Nanoseconds));
+                return Some((tally.checked_mul(1_000_000_000)?, Unit::Nanoseconds));
             }
             b'.' if i > 0 => {
-                let result = parse_nano_fractions(&s[i + 1..])
-                    .map(|ns| (tally * 1_000_000_000 + ns, Unit::Nanoseconds));
+                let ns = parse_nano_fractions(&s[i + 1..]);
+                let result = tally
+                    .checked_mul(1_000_000_000)
+                    .and_then(|total| total.checked_add(ns?))
+                    .map(|total| (total, Unit::Nanoseconds));
                 *s = &[];
                 return result;
             }
@@ -835,18 +838,18 @@ fn parse_component(s: &mut &[u8]) -> Option<(i128, Unit)> {
 
 pub(crate) unsafe fn parse_all_components(s: &mut &[u8]) -> Option<(i128, bool)> {
     let mut prev_unit: Option<Unit> = None;
-    let mut nanos = 0;
+    let mut nanos: i128 = 0;
     while !s.is_empty() {
         let (value, unit) = parse_component(s)?;
         match (unit, prev_unit.replace(unit)) {
             (Unit::Hours, None) => {
-                nanos += value * 3_600_000_000_000;
+                nanos = nanos.checked_add(value.checked_mul(3_600_000_000_000)?)?;
             }
             (Unit::Minutes, None | Some(Unit::Hours)) => {
-                nanos += value * 60_000_000_000;
+                nanos = nanos.checked_add(value.checked_mul(60_000_000_000)?)?;
             }
             (Unit::Nanoseconds, _) => {
-                nanos += value;
+                nanos = nanos.checked_add(value)?;
                 if s.is_empty() {
                     break;
                 }
-- 
2.43.0


From 668f612db1a9ad5ab40a8fb58e9771ac9c4df79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 23/43] fix: reject UTC offsets of exactly 24 hours (Rust
 extension)

---
 src/offset_datetime.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index bd875e3..39f563c 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -247,13 +247,14 @@ pub(crate) unsafe fn extract_offset(
             // We've checked before that it's a py int
             .unwrap();
         Ok(
-            clamp(given_int, 24i32).ok_or_value_err("offset must be between -24 and 24 hours")?
+            clamp(given_int, 23i32).ok_or_value_err("offset must be between -24 and 24 hours")?
                 * 3600,
         )
     } else if Py_TYPE(obj) == tdelta_cls {
         let TimeDelta { secs, nanos } = TimeDelta::extract(obj);
         if nanos == 0 {
-            clamp(secs, 24i32 * 3600).ok_or_value_err("offset must be between -24 and 24 hours")
+            clamp(secs, 24i32 * 3600 - 1)
+                .ok_or_value_err("offset must be between -24 and 24 hours")
         } else {
             Err(value_err!("offset must be a whole number of seconds"))
         }
-- 
2.43.0


From 13129c16feee82911142abd91a7cf1630635004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 24/43] fix: round half modes with odd increments, and
 increments of 1000 (Rust extension)

---
 src/round.rs      |  2 +-
 src/time.rs       |  5 +++--
 src/time_delta.rs | 12 ++++++++----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index f6fcde2..f6fa21b 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -89,7 +89,7 @@ impl Unit {
         hours_increment_always_ok: bool,
     ) -> PyResult<i64> {
         let inc = v.to_i64()?.ok_or_type_err("increment must be an integer")?;
-        if inc <= 0 || inc >= 1000 {
+        if inc <= 0 || inc > 1000 {
             Err(value_err!("increment must be between 0 and 1000"))?;
         }
         match self {
diff --git a/src/time.rs b/src/time.rs
index 2b9084c..04ac9a8 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -181,11 +181,12 @@ impl Time {
         let remainder = total_nanos % increment;
 
         let threshold = match mode {
-            round::Mode::HalfEven => std::cmp::max(increment / 2 + (quotient % 2 == 0) as u64, 1),
+            round::Mode::HalfEven if quotient % 2 == 0 => increment / 2 + 1,
+            round::Mode::HalfEven => increment - increment / 2,
             round::Mode::Ceil => 1,
             round::Mode::Floor => increment + 1,
             round::Mode::HalfFloor => increment / 2 + 1,
-            round::Mode::HalfCeil => std::cmp::max(increment / 2, 1),
+            round::Mode::HalfCeil => increment - increment / 2,
         };
         let round_up = remainder >= threshold;
         let ns_since_midnight = (quotient + round_up as u64) * increment;
diff --git a/src/time_delta.rs b/src/time_delta.rs
index 9929bb7..5c99f34 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -93,7 +93,7 @@ impl TimeDelta {
         } = self;
 
         if increment < 1_000_000_000 {
-            nanos = Self::round_subsec(nanos, increment as u32, mode);
+            nanos = Self::round_subsec(secs, nanos, increment as u32, mode);
             secs += (nanos / 1_000_000_000) as i64;
             nanos %= 1_000_000_000;
         } else {
@@ -108,17 +108,21 @@ impl TimeDelta {
         Some(Self { secs, nanos })
     }
 
-    fn round_subsec(nanos: u32, increment: u32, mode: round::Mode) -> u32 {
+    fn round_subsec(secs: i64, nanos: u32, increment: u32, mode: round::Mode) -> u32 {
         debug_assert!(increment < 1_000_000_000);
         debug_assert!(1_000_000_000 % increment == 0);
         let quotient = nanos / increment;
         let remainder = nanos % increment;
+        // the whole seconds count too: there may be an odd number of steps in each
+        let quotient_is_even =
+            (secs.rem_euclid(2) as u32 * (1_000_000_000 / increment) + quotient) % 2 == 0;
         let threshold = match mode {
-            round::Mode::HalfEven => std::cmp::max(increment / 2 + (quotient % 2 == 0) as u32, 1),
+            round::Mode::HalfEven if quotient_is_even => increment / 2 + 1,
+            round::Mode::HalfEven => increment - increment / 2,
             round::Mode::Ceil => 1,
             round::Mode::Floor => increment + 1,
             round::Mode::HalfFloor => increment / 2 + 1,
-            round::Mode::HalfCeil => std::cmp::max(increment / 2, 1),
+            round::Mode::HalfCeil => increment - increment / 2,
         };
         let round_up = remainder >= threshold;
         (quotient + u32::from(round_up)) * increment
-- 
2.43.0


From 75d3dda1fdbf8c4b963fe86bf27d2e5c310648d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:39 +0000
Subject: [PATCH 25/43] fix: rounding of instants, out-of-range offset
 datetimes, and to days (Rust extension)

---
 src/instant.rs         | 16 +++++-----------
 src/offset_datetime.rs |  9 +++------
 src/system_datetime.rs |  9 +++++----
 src/zoned_datetime.rs  |  9 +++++----
 4 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index e5fae4a..652f6cf 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -287,13 +287,6 @@ impl Instant {
             hash_combine((self.secs >> 32) as Py_hash_t, self.nanos as Py_hash_t),
         )
     }
-
-    fn to_delta(self) -> TimeDelta {
-        TimeDelta {
-            secs: self.secs,
-            nanos: self.nanos,
-        }
-    }
 }
 
 unsafe fn __new__(_: *mut PyTypeObject, _: *mut PyObject, _: *mut PyObject) -> PyReturn {
@@ -842,10 +835,11 @@ unsafe fn round(
     if unit == round::Unit::Day {
         Err(value_err!(doc::CANNOT_ROUND_DAY_MSG))?;
     }
-    let TimeDelta { secs, nanos } = Instant::extract(slf)
-        .to_delta()
-        .round(increment, mode)
-        .unwrap(); // safe unwrap: delta has higher range than instant
+    // Steps are counted from the start of the (UTC) day, as for the other datetimes
+    let DateTime { date, time } = Instant::extract(slf).to_datetime();
+    let (time_rounded, next_day) = time.round(increment as u64, mode);
+    let Instant { secs, nanos } = Instant::from_datetime(date, time_rounded)
+        .shift_secs_unchecked(next_day as i64 * i64::from(S_PER_DAY));
 
     if secs > MAX_INSTANT {
         Err(value_err!("Resulting Instant out of range"))?;
diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 39f563c..897f08e 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -1127,12 +1127,9 @@ unsafe fn round(
             Err(value_err!("Resulting datetime out of range"))?
         }
     }
-    OffsetDateTime {
-        date,
-        time: time_rounded,
-        offset_secs,
-    }
-    .to_obj(cls)
+    OffsetDateTime::new(date, time_rounded, offset_secs)
+        .ok_or_value_err("Resulting datetime out of range")?
+        .to_obj(cls)
 }
 
 static mut METHODS: &[PyMethodDef] = &[
diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index f940fd1..7484ac8 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -1017,8 +1017,9 @@ unsafe fn _round_day(
         )
     };
     match mode {
-        round::Mode::Ceil => get_ceil(),
         round::Mode::Floor => get_floor(),
+        round::Mode::Ceil if time.total_nanos() == 0 => get_floor(),
+        round::Mode::Ceil => get_ceil(),
         _ => {
             let time_ns = time.total_nanos();
             let floor = get_floor()?;
@@ -1026,9 +1027,9 @@ unsafe fn _round_day(
             let day_ns = ceil.instant().diff(floor.instant()).total_nanos() as u64;
             debug_assert!(day_ns > 1);
             let threshold = match mode {
-                round::Mode::HalfEven => day_ns / 2 + (time_ns % 2 == 0) as u64,
-                round::Mode::HalfFloor => day_ns / 2 + 1,
-                round::Mode::HalfCeil => day_ns / 2,
+                // 0 days is "even"
+                round::Mode::HalfEven | round::Mode::HalfFloor => day_ns / 2 + 1,
+                round::Mode::HalfCeil => day_ns - day_ns / 2,
                 _ => unreachable!(),
             };
             if time_ns >= threshold {
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index b175a32..7bb7765 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1471,8 +1471,9 @@ unsafe fn _round_day(
         )
     };
     match mode {
-        round::Mode::Ceil => get_ceil(),
         round::Mode::Floor => get_floor(),
+        round::Mode::Ceil if time.total_nanos() == 0 => get_floor(),
+        round::Mode::Ceil => get_ceil(),
         _ => {
             let time_ns = time.total_nanos();
             let floor = get_floor()?;
@@ -1480,9 +1481,9 @@ unsafe fn _round_day(
             let day_ns = ceil.instant().diff(floor.instant()).total_nanos() as u64;
             debug_assert!(day_ns > 1);
             let threshold = match mode {
-                round::Mode::HalfEven => day_ns / 2 + (time_ns % 2 == 0) as u64,
-                round::Mode::HalfFloor => day_ns / 2 + 1,
-                round::Mode::HalfCeil => day_ns / 2,
+                // 0 days is "even"
+                round::Mode::HalfEven | round::Mode::HalfFloor => day_ns / 2 + 1,
+                round::Mode::HalfCeil => day_ns - day_ns / 2,
                 _ => unreachable!(),
             };
             if time_ns >= threshold {
-- 
2.43.0


From 221df7e08ab65dff760a08a92b1e339df655ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:53 +0000
Subject: [PATCH 26/43] fix: LocalDateTime shifts beyond the range, and its
 errors for an invalid date or time (Rust extension)

---
 src/local_datetime.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/local_datetime.rs b/src/local_datetime.rs
index fb355e0..0473be2 100644
--- a/src/local_datetime.rs
+++ b/src/local_datetime.rs
@@ -96,7 +96,7 @@ impl DateTime {
     pub(crate) fn shift_nanos(self, nanos: i128) -> Option<Self> {
         let DateTime { mut date, time } = self;
         let new_time = i128::from(time.total_nanos()) + nanos;
-        let days_delta = new_time.div_euclid(NS_PER_DAY) as i32;
+        let days_delta = i32::try_from(new_time.div_euclid(NS_PER_DAY)).ok()?;
         let nano_delta = new_time.rem_euclid(NS_PER_DAY) as u64;
         if days_delta != 0 {
             date = date.shift_days(days_delta)?
@@ -177,8 +177,8 @@ unsafe fn __new__(cls: *mut PyTypeObject, args: *mut PyObject, kwargs: *mut PyOb
     }
 
     DateTime {
-        date: Date::from_longs(year, month, day).ok_or_type_err("Invalid date")?,
-        time: Time::from_longs(hour, minute, second, nanos).ok_or_type_err("Invalid time")?,
+        date: Date::from_longs(year, month, day).ok_or_value_err("Invalid date")?,
+        time: Time::from_longs(hour, minute, second, nanos).ok_or_value_err("Invalid time")?,
     }
     .to_obj(cls)
 }
-- 
2.43.0


From 7ff206e3d1821e5bfe0845f143344ca6428547da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:53 +0000
Subject: [PATCH 27/43] fix: don't read the left operand of a reflected
 operation as a datetime (Rust extension)

---
 src/system_datetime.rs | 3 ++-
 src/zoned_datetime.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index 7484ac8..dc91fd1 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -317,7 +317,6 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
         ..
     } = State::for_type(type_a);
 
-    let odt = OffsetDateTime::extract(obj_a);
     let mut months = 0;
     let mut days = 0;
     let mut tdelta = TimeDelta::ZERO;
@@ -336,6 +335,8 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
     } else {
         return Ok(newref(Py_NotImplemented()));
     };
+    // Only now is it certain that this isn't a reflected operation
+    let odt = OffsetDateTime::extract(obj_a);
     if negate {
         months = -months;
         days = -days;
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 7bb7765..b2d31e9 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -443,7 +443,6 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
         ..
     } = State::for_type(type_a);
 
-    let zdt = ZonedDateTime::extract(obj_a);
     let mut months = 0;
     let mut days = 0;
     let mut tdelta = TimeDelta::ZERO;
@@ -462,6 +461,8 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
     } else {
         return Ok(newref(Py_NotImplemented()));
     };
+    // Only now is it certain that this isn't a reflected operation
+    let zdt = ZonedDateTime::extract(obj_a);
     if negate {
         months = -months;
         days = -days;
-- 
2.43.0


From b850c840ba903ae476081ffd493ae1a1b698c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:58 +0000
Subject: [PATCH 28/43] fix: sub-second deltas were left out of the mixed-sign
 check (Rust extension)

---
 src/datetime_delta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 21ba63d..27da148 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -27,7 +27,7 @@ impl DateTimeDelta {
 
     pub(crate) fn new(ddelta: DateDelta, tdelta: TimeDelta) -> Option<Self> {
         if ddelta.months >= 0 && ddelta.days >= 0 && tdelta.secs >= 0
-            || ddelta.months <= 0 && ddelta.days <= 0 && tdelta.secs <= 0
+            || ddelta.months <= 0 && ddelta.days <= 0 && (tdelta.secs < 0 || tdelta.is_zero())
         {
             Some(Self { ddelta, tdelta })
         } else {
@@ -51,7 +51,7 @@ impl DateTimeDelta {
             .ok_or(InitError::TooBig)?;
         // Confirm the signs of date- and timedelta didn't get out of sync
         if ddelta.months >= 0 && ddelta.days >= 0 && tdelta.secs >= 0
-            || ddelta.months <= 0 && ddelta.days <= 0 && tdelta.secs <= 0
+            || ddelta.months <= 0 && ddelta.days <= 0 && (tdelta.secs < 0 || tdelta.is_zero())
         {
             Ok(Self { ddelta, tdelta })
         } else {
-- 
2.43.0


From 30b700480a15867b8d57d16d8037bec68c5b6e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 29/43] fix: raise TypeError when adding other types to a
 DateTimeDelta (Rust extension)

---
 src/datetime_delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 27da148..81bcae7 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -332,7 +332,7 @@ unsafe fn _add_method(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool)
                 }
             } else {
                 // We can safely discount other types within our module
-                return Err(value_err!(
+                return Err(type_err!(
                     "unsupported operand type(s) for +/-: {} and {}",
                     (type_a as *mut PyObject).repr(),
                     (type_b as *mut PyObject).repr()
-- 
2.43.0


From 1dadcd75249fbd80619bff13c210bdba7ac84d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 30/43] fix: parsing of large date deltas (Rust extension)

---
 src/date_delta.rs     | 2 +-
 src/datetime_delta.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/date_delta.rs b/src/date_delta.rs
index 4a0cde0..897a831 100644
--- a/src/date_delta.rs
+++ b/src/date_delta.rs
@@ -474,7 +474,7 @@ pub(crate) enum Unit {
 
 fn finish_parsing_component(s: &mut &[u8], mut value: i32) -> Option<(i32, Unit)> {
     // We limit parsing to a number of digits to prevent overflow
-    for i in 1..min(s.len(), 7) {
+    for i in 1..min(s.len(), 9) {
         match s[i] {
             c if c.is_ascii_digit() => value = value * 10 + i32::from(c - b'0'),
             b'D' => {
diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 81bcae7..75b225b 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -430,7 +430,7 @@ pub(crate) fn parse_date_components(s: &mut &[u8]) -> Option<DateDelta> {
             _ => None?, // i.e. the order of the components is wrong
         }
     }
-    Some(DateDelta { months, days })
+    DateDelta::from_same_sign(months, days)
 }
 
 unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn {
-- 
2.43.0


From ce1f322001711e71c1ee4f54a57a975cbb31e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:29 +0000
Subject: [PATCH 31/43] fix: parsing zoned datetimes with a skipped local time,
 or an offset of 20 hours or more (Rust extension)

---
 src/zoned_datetime.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index b2d31e9..01c4577 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1151,9 +1151,7 @@ fn parse_offset_partial(s: &mut &[u8]) -> Option<i32> {
         return None;
     }
     // the HH:MM part
-    // FUTURE: technically, this eliminates 2x:00 offsets. There
-    // are no such offsets in the IANA database, but may be possible...
-    let secs = (parse_digit_max(s, 1, b'1')? * 10 + parse_digit(s, 2)?) as i32 * 3600
+    let secs = (parse_digit_max(s, 1, b'2')? * 10 + parse_digit(s, 2)?) as i32 * 3600
         + (parse_digit_max(s, 4, b'5')? * 10 + parse_digit(s, 5)?) as i32 * 60;
     // the optional seconds part
     match s.get(6) {
@@ -1173,6 +1171,7 @@ fn parse_offset_partial(s: &mut &[u8]) -> Option<i32> {
             Some(secs)
         }
     }
+    .filter(|s| s.abs() < 24 * 3600)
     .map(|s| sign * s)
 }
 
@@ -1208,9 +1207,9 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
     defer_decref!(zoneinfo);
     let offset_is_valid = match OffsetResult::for_tz(py_api, date, time, zoneinfo)? {
         OffsetResult::Unambiguous(o) => o == offset_secs,
-        OffsetResult::Gap(o1, o2) | OffsetResult::Fold(o1, o2) => {
-            o1 == offset_secs || o2 == offset_secs
-        }
+        OffsetResult::Fold(o1, o2) => o1 == offset_secs || o2 == offset_secs,
+        // the local time doesn't exist
+        OffsetResult::Gap(..) => false,
     };
     if offset_is_valid {
         ZonedDateTime::new(date, time, offset_secs, zoneinfo)
-- 
2.43.0


From 16b1cf4b735b1e45c0b4550d9edc2b5627f6e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:29 +0000
Subject: [PATCH 32/43] fix: range check in TimeDelta.from_py_timedelta() (Rust
 extension)

---
 src/time_delta.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 5c99f34..dfc79d5 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -674,13 +674,11 @@ unsafe fn from_py_timedelta(cls: *mut PyObject, d: *mut PyObject) -> PyReturn {
     }
     let secs = i64::from(PyDateTime_DELTA_GET_DAYS(d)) * SECS_PER_DAY
         + i64::from(PyDateTime_DELTA_GET_SECONDS(d));
-    if !(-MAX_SECS..=MAX_SECS).contains(&secs) {
-        Err(value_err!("TimeDelta out of range"))?;
-    }
-    TimeDelta {
-        secs,
-        nanos: PyDateTime_DELTA_GET_MICROSECONDS(d) as u32 * 1_000,
-    }
+    TimeDelta::from_nanos(
+        i128::from(secs) * 1_000_000_000
+            + i128::from(PyDateTime_DELTA_GET_MICROSECONDS(d)) * 1_000,
+    )
+    .ok_or_value_err("TimeDelta out of range")?
     .to_obj(cls.cast())
 }
 
-- 
2.43.0


From fcbed0ce164e2f9ffe1cf17c8158acd190f9c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 33/43] fix: range of the patched time, and of
 OffsetDateTime.now() (Rust extension)

---
 src/lib.rs             | 31 ++++++++++++++++++++-----------
 src/offset_datetime.rs |  6 ++----
 src/time_delta.rs      |  3 +--
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e5e384d..55ec903 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -28,7 +28,7 @@ use date_delta::unpickle as _unpkl_ddelta;
 use date_delta::{days, months, weeks, years};
 use datetime_delta::unpickle as _unpkl_dtdelta;
 use docstrings as doc;
-use instant::{unpickle as _unpkl_utc, UNIX_EPOCH_INSTANT};
+use instant::{unpickle as _unpkl_utc, MAX_INSTANT, MIN_INSTANT, UNIX_EPOCH_INSTANT};
 use local_datetime::unpickle as _unpkl_local;
 use monthday::unpickle as _unpkl_md;
 use offset_datetime::unpickle as _unpkl_offset;
@@ -108,7 +108,7 @@ unsafe fn _patch_time(module: *mut PyObject, arg: *mut PyObject, freeze: bool) -
         TimePatch::Frozen(pin)
     } else {
         TimePatch::KeepTicking {
-            pin: std::time::Duration::new(pin.0 as _, pin.1),
+            pin,
             at: SystemTime::now()
                 .duration_since(SystemTime::UNIX_EPOCH)
                 .ok()
@@ -736,7 +736,7 @@ enum TimePatch {
     Unset,
     Frozen((i64, u32)),
     KeepTicking {
-        pin: std::time::Duration,
+        pin: (i64, u32),
         at: std::time::Duration,
     },
 }
@@ -768,13 +768,19 @@ impl State {
             }
             TimePatch::Frozen(e) => Ok(e),
             TimePatch::KeepTicking { pin, at } => {
-                let dur = pin
-                    + SystemTime::now()
-                        .duration_since(SystemTime::UNIX_EPOCH)
-                        .ok()
-                        .ok_or_py_err(PyExc_OSError, "System time out of range")?
-                    - at;
-                Ok((dur.as_secs() as i64, dur.subsec_nanos()))
+                let now = SystemTime::now()
+                    .duration_since(SystemTime::UNIX_EPOCH)
+                    .ok()
+                    .ok_or_py_err(PyExc_OSError, "System time out of range")?;
+                // the pin may lie before 1970, and the clock may go backwards
+                let nanos =
+                    i64::from(pin.1) + i64::from(now.subsec_nanos()) - i64::from(at.subsec_nanos());
+                let secs = pin.0 + now.as_secs() as i64 - at.as_secs() as i64
+                    + nanos.div_euclid(1_000_000_000);
+                if !(MIN_INSTANT..=MAX_INSTANT).contains(&(secs + UNIX_EPOCH_INSTANT)) {
+                    Err(value_err!("Patched time is out of range"))?
+                }
+                Ok((secs, nanos.rem_euclid(1_000_000_000) as u32))
             }
         }
     }
@@ -785,7 +791,10 @@ impl State {
         let ns = (ts as *mut PyObject)
             .to_i64()?
             .ok_or_py_err(PyExc_RuntimeError, "time_ns() returned a non-integer")?;
-        Ok((ns / 1_000_000_000, (ns % 1_000_000_000) as u32))
+        Ok((
+            ns.div_euclid(1_000_000_000),
+            ns.rem_euclid(1_000_000_000) as u32,
+        ))
     }
 
     unsafe fn time_ns_rust(&self) -> PyResult<(i64, u32)> {
diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 897f08e..460cb09 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -253,8 +253,7 @@ pub(crate) unsafe fn extract_offset(
     } else if Py_TYPE(obj) == tdelta_cls {
         let TimeDelta { secs, nanos } = TimeDelta::extract(obj);
         if nanos == 0 {
-            clamp(secs, 24i32 * 3600 - 1)
-                .ok_or_value_err("offset must be between -24 and 24 hours")
+            clamp(secs, 24i32 * 3600 - 1).ok_or_value_err("offset must be between -24 and 24 hours")
         } else {
             Err(value_err!("offset must be a whole number of seconds"))
         }
@@ -640,10 +639,9 @@ unsafe fn now(
     // FUTURE: Conversion to Instant can be done a bit more efficiently
     let DateTime { date, time } =
         Instant::from_timestamp_nanos(secs as i128 * 1_000_000_000 + i128::from(subsec_nanos))
+            .and_then(|inst| inst.shift_secs(offset_secs.into()))
             .ok_or_value_err("SystemTime out of range")?
-            .shift_secs_unchecked(offset_secs.into())
             .to_datetime();
-    // Technically this can fail if the system time is set beyond year 9999
     OffsetDateTime::new_unchecked(date, time, offset_secs).to_obj(cls.cast())
 }
 
diff --git a/src/time_delta.rs b/src/time_delta.rs
index dfc79d5..51c1ed4 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -675,8 +675,7 @@ unsafe fn from_py_timedelta(cls: *mut PyObject, d: *mut PyObject) -> PyReturn {
     let secs = i64::from(PyDateTime_DELTA_GET_DAYS(d)) * SECS_PER_DAY
         + i64::from(PyDateTime_DELTA_GET_SECONDS(d));
     TimeDelta::from_nanos(
-        i128::from(secs) * 1_000_000_000
-            + i128::from(PyDateTime_DELTA_GET_MICROSECONDS(d)) * 1_000,
+        i128::from(secs) * 1_000_000_000 + i128::from(PyDateTime_DELTA_GET_MICROSECONDS(d)) * 1_000,
     )
     .ok_or_value_err("TimeDelta out of range")?
     .to_obj(cls.cast())
-- 
2.43.0


From b629d993f313c7ee95fa321d6cd5090259c5e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:27 +0000
Subject: [PATCH 34/43] fix: export the weekdays' own names with the Rust
 extension

---
 pysrc/whenever/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 62240eb..537b614 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -18,6 +18,9 @@ try:  # pragma: no cover
         _unpkl_zoned,
     )
 
+    # the extension itself only exports the enum
+    MONDAY, TUESDAY, WEDNESDAY, THURSDAY, FRIDAY, SATURDAY, SUNDAY = Weekday
+
     _EXTENSION_LOADED = True
 
 except ModuleNotFoundError as e:
-- 
2.43.0


From 5bc3a62386c2502040af6b5be5627ad16b81913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 35/43] fix: TimeDelta division and conversion to floats lost
 precision (Rust extension)

---
 src/time_delta.rs | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 51c1ed4..77d0b2d 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -24,6 +24,15 @@ pub(crate) struct TimeDelta {
 }
 
 impl TimeDelta {
+    // Python's division of integers rounds correctly, also if they don't fit an f64
+    unsafe fn ratio(self, divisor_nanos: i128) -> PyReturn {
+        let nanos = self.total_nanos().to_py()?;
+        defer_decref!(nanos);
+        let divisor = divisor_nanos.to_py()?;
+        defer_decref!(divisor);
+        PyNumber_TrueDivide(nanos, divisor).as_result()
+    }
+
     pub(crate) const fn from_nanos_unchecked(nanos: i128) -> Self {
         TimeDelta {
             secs: (nanos.div_euclid(1_000_000_000)) as _,
@@ -408,9 +417,8 @@ unsafe fn _mul_float(delta_obj: *mut PyObject, factor: f64) -> PyReturn {
     if factor == 1.0 {
         Ok(newref(delta_obj))
     } else {
-        let TimeDelta { secs, nanos } = TimeDelta::extract(delta_obj);
-        let nanos = (secs as f64 * 1e9 + nanos as f64) * factor;
-        if nanos.is_nan() || !(-MAX_NANOSECONDS as f64..MAX_NANOSECONDS as f64).contains(&nanos) {
+        let nanos = TimeDelta::extract(delta_obj).total_nanos() as f64 * factor;
+        if nanos.is_nan() || !(-MAX_NANOSECONDS as f64..=MAX_NANOSECONDS as f64).contains(&nanos) {
             Err(value_err!("Multiplication result out of range"))?
         }
         TimeDelta::from_nanos_unchecked(nanos as i128).to_obj(Py_TYPE(delta_obj))
@@ -429,11 +437,8 @@ unsafe fn __truediv__(slf: *mut PyObject, factor_obj: *mut PyObject) -> PyReturn
             Err(py_err!(PyExc_ZeroDivisionError, "Division by zero"))?
         }
         let nanos = TimeDelta::extract(slf).total_nanos();
-        TimeDelta::from_nanos_unchecked(if nanos % factor == 0 {
-            nanos / factor
-        } else {
-            (nanos as f64 / factor as f64).round() as i128
-        })
+        // integers divide exactly (truncated, as is the case for floats)
+        TimeDelta::from_nanos_unchecked(nanos / factor)
     } else if factor_obj.is_float() {
         let factor = factor_obj
             .to_f64()?
@@ -455,7 +460,7 @@ unsafe fn __truediv__(slf: *mut PyObject, factor_obj: *mut PyObject) -> PyReturn
         if factor == 0 {
             Err(py_err!(PyExc_ZeroDivisionError, "Division by zero"))?
         }
-        return (TimeDelta::extract(slf).total_nanos() as f64 / factor as f64).to_py();
+        return TimeDelta::extract(slf).ratio(factor);
     } else {
         return Ok(newref(Py_NotImplemented()));
     }
@@ -639,33 +644,27 @@ unsafe fn in_nanoseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
 }
 
 unsafe fn in_microseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 * 1e6 + nanos as f64 * 1e-3).to_py()
+    TimeDelta::extract(slf).ratio(1_000)
 }
 
 unsafe fn in_milliseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 * 1e3 + nanos as f64 * 1e-6).to_py()
+    TimeDelta::extract(slf).ratio(1_000_000)
 }
 
 unsafe fn in_seconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 + nanos as f64 * 1e-9).to_py()
+    TimeDelta::extract(slf).ratio(1_000_000_000)
 }
 
 unsafe fn in_minutes(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 / 60.0 + nanos as f64 * 1e-9 / 60.0).to_py()
+    TimeDelta::extract(slf).ratio(60_000_000_000)
 }
 
 unsafe fn in_hours(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 / 3600.0 + nanos as f64 * 1e-9 / 3600.0).to_py()
+    TimeDelta::extract(slf).ratio(3_600_000_000_000)
 }
 
 unsafe fn in_days_of_24h(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 / 86_400.0 + nanos as f64 * 1e-9 / 86_400.0).to_py()
+    TimeDelta::extract(slf).ratio(86_400_000_000_000)
 }
 
 unsafe fn from_py_timedelta(cls: *mut PyObject, d: *mut PyObject) -> PyReturn {
-- 
2.43.0


From 6faab56efaa3f65acadbd52c8e61285306441e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 36/43] fix: operators left an exception set for operands of
 other types (Rust extension)

---
 src/common.rs          | 10 ++++++++++
 src/date.rs            |  8 ++++----
 src/date_delta.rs      |  4 ++--
 src/datetime_delta.rs  |  4 ++--
 src/instant.rs         | 10 +++++-----
 src/local_datetime.rs  |  4 ++--
 src/offset_datetime.rs |  4 ++--
 src/system_datetime.rs | 10 +++++-----
 src/time_delta.rs      |  4 ++--
 src/zoned_datetime.rs  | 10 +++++-----
 10 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 0dea094..70d7ee2 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -1119,6 +1119,16 @@ pub(crate) unsafe fn get_time_tzinfo(dt: *mut PyObject) -> *mut PyObject {
     }
 }
 
+// The module of a type, or NULL for types that aren't ours. Contrary to
+// PyType_GetModule(), it doesn't leave an exception set in that case.
+pub(crate) unsafe fn module_of(type_: *mut PyTypeObject) -> *mut PyObject {
+    let module = PyType_GetModule(type_);
+    if module.is_null() {
+        PyErr_Clear();
+    }
+    module
+}
+
 // from stackoverflow.com/questions/5889238
 #[cfg(target_pointer_width = "64")]
 #[inline]
diff --git a/src/date.rs b/src/date.rs
index 0e15e63..46270fc 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -498,8 +498,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of(type_a);
+        let mod_b = module_of(type_b);
         if mod_a == mod_b && type_b == State::for_type(type_a).date_delta_type {
             let DateDelta { months, days } = DateDelta::extract(obj_b);
             Date::extract(obj_a)
@@ -522,8 +522,8 @@ unsafe fn __add__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // We need to be careful since this method can be called reflexively
     let type_a = Py_TYPE(obj_a);
     let type_b = Py_TYPE(obj_b);
-    let mod_a = PyType_GetModule(type_a);
-    let mod_b = PyType_GetModule(type_b);
+    let mod_a = module_of(type_a);
+    let mod_b = module_of(type_b);
     if mod_a == mod_b && type_b == State::for_mod(mod_a).date_delta_type {
         let DateDelta { months, days } = DateDelta::extract(obj_b);
         Date::extract(obj_a)
diff --git a/src/date_delta.rs b/src/date_delta.rs
index 897a831..a407d39 100644
--- a/src/date_delta.rs
+++ b/src/date_delta.rs
@@ -347,8 +347,8 @@ unsafe fn _add_method(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool)
             })?
             .to_obj(type_a)
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of(type_a);
+        let mod_b = module_of(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             if type_b == state.time_delta_type {
diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 75b225b..733053a 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -316,8 +316,8 @@ unsafe fn _add_method(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool)
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of(type_a);
+        let mod_b = module_of(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             let delta_b = if type_b == state.date_delta_type {
diff --git a/src/instant.rs b/src/instant.rs
index 652f6cf..fce336d 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -398,8 +398,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of(type_a);
+        let mod_b = module_of(type_b);
         if mod_a == mod_b {
             let inst_b = if type_b == State::for_mod(mod_a).zoned_datetime_type {
                 ZonedDateTime::extract(obj_b).instant()
@@ -421,7 +421,7 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
 }
 
 unsafe fn __add__(dt: *mut PyObject, delta_obj: *mut PyObject) -> PyReturn {
-    if PyType_GetModule(Py_TYPE(dt)) == PyType_GetModule(Py_TYPE(delta_obj)) {
+    if module_of(Py_TYPE(dt)) == module_of(Py_TYPE(delta_obj)) {
         _shift(dt, delta_obj, false)
     } else {
         Ok(newref(Py_NotImplemented()))
@@ -431,8 +431,8 @@ unsafe fn __add__(dt: *mut PyObject, delta_obj: *mut PyObject) -> PyReturn {
 #[inline]
 unsafe fn _shift(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool) -> PyReturn {
     debug_assert_eq!(
-        PyType_GetModule(Py_TYPE(obj_a)),
-        PyType_GetModule(Py_TYPE(obj_b))
+        module_of(Py_TYPE(obj_a)),
+        module_of(Py_TYPE(obj_b))
     );
     let type_a = Py_TYPE(obj_a);
     let mut delta = if Py_TYPE(obj_b) == State::for_type(type_a).time_delta_type {
diff --git a/src/local_datetime.rs b/src/local_datetime.rs
index 0473be2..0210cff 100644
--- a/src/local_datetime.rs
+++ b/src/local_datetime.rs
@@ -242,8 +242,8 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
     let type_b = Py_TYPE(obj_b);
     let type_a = Py_TYPE(obj_a);
 
-    let mod_a = PyType_GetModule(type_a);
-    let mod_b = PyType_GetModule(type_b);
+    let mod_a = module_of(type_a);
+    let mod_b = module_of(type_b);
 
     if mod_a == mod_b {
         let state = State::for_mod(mod_a);
diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 460cb09..5787ae0 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -327,8 +327,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of(type_a);
+        let mod_b = module_of(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             let inst_b = if type_b == state.instant_type {
diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index dc91fd1..63379dd 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -302,8 +302,8 @@ unsafe fn __richcmp__(a_obj: *mut PyObject, b_obj: *mut PyObject, op: c_int) ->
 #[inline]
 unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool) -> PyReturn {
     debug_assert_eq!(
-        PyType_GetModule(Py_TYPE(obj_a)),
-        PyType_GetModule(Py_TYPE(obj_b))
+        module_of(Py_TYPE(obj_a)),
+        module_of(Py_TYPE(obj_b))
     );
     let type_a = Py_TYPE(obj_a);
     let type_b = Py_TYPE(obj_b);
@@ -356,7 +356,7 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
 }
 
 unsafe fn __add__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
-    if PyType_GetModule(Py_TYPE(obj_a)) == PyType_GetModule(Py_TYPE(obj_b)) {
+    if module_of(Py_TYPE(obj_a)) == module_of(Py_TYPE(obj_b)) {
         _shift_operator(obj_a, obj_b, false)
     } else {
         Ok(newref(Py_NotImplemented()))
@@ -377,8 +377,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of(type_a);
+        let mod_b = module_of(type_b);
         if mod_a == mod_b {
             let inst_b = if type_b == State::for_mod(mod_a).instant_type {
                 Instant::extract(obj_b)
diff --git a/src/time_delta.rs b/src/time_delta.rs
index 77d0b2d..ac19cec 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -530,8 +530,8 @@ unsafe fn _add_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool
             .to_obj(type_a)
     // Careful argument handling since the method may be called with args reversed
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of(type_a);
+        let mod_b = module_of(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             if type_b == state.date_delta_type {
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 01c4577..5496645 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -428,8 +428,8 @@ unsafe extern "C" fn __hash__(slf: *mut PyObject) -> Py_hash_t {
 #[inline]
 unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool) -> PyReturn {
     debug_assert_eq!(
-        PyType_GetModule(Py_TYPE(obj_a)),
-        PyType_GetModule(Py_TYPE(obj_b))
+        module_of(Py_TYPE(obj_a)),
+        module_of(Py_TYPE(obj_b))
     );
     let type_a = Py_TYPE(obj_a);
     let type_b = Py_TYPE(obj_b);
@@ -482,7 +482,7 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
 }
 
 unsafe fn __add__(slf: *mut PyObject, arg: *mut PyObject) -> PyReturn {
-    if PyType_GetModule(Py_TYPE(slf)) == PyType_GetModule(Py_TYPE(arg)) {
+    if module_of(Py_TYPE(slf)) == module_of(Py_TYPE(arg)) {
         _shift_operator(slf, arg, false)
     } else {
         Ok(newref(Py_NotImplemented()))
@@ -503,8 +503,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of(type_a);
+        let mod_b = module_of(type_b);
         if mod_a == mod_b {
             let inst_b = if type_b == State::for_mod(mod_a).instant_type {
                 Instant::extract(obj_b)
-- 
2.43.0


From 347a5756e73d15660036fb16846683b81340eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:27 +0000
Subject: [PATCH 37/43] fix: rounding to days if more than 24 hours are skipped
 (Rust extension)

---
 src/system_datetime.rs | 6 +++---
 src/zoned_datetime.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index 63379dd..69b11ba 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -1022,11 +1022,11 @@ unsafe fn _round_day(
         round::Mode::Ceil if time.total_nanos() == 0 => get_floor(),
         round::Mode::Ceil => get_ceil(),
         _ => {
-            let time_ns = time.total_nanos();
+            let time_ns = i128::from(time.total_nanos());
             let floor = get_floor()?;
             let ceil = get_ceil()?;
-            let day_ns = ceil.instant().diff(floor.instant()).total_nanos() as u64;
-            debug_assert!(day_ns > 1);
+            // not positive if more than 24 hours are skipped
+            let day_ns = ceil.instant().diff(floor.instant()).total_nanos();
             let threshold = match mode {
                 // 0 days is "even"
                 round::Mode::HalfEven | round::Mode::HalfFloor => day_ns / 2 + 1,
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 5496645..bbbe09b 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1475,11 +1475,11 @@ unsafe fn _round_day(
         round::Mode::Ceil if time.total_nanos() == 0 => get_floor(),
         round::Mode::Ceil => get_ceil(),
         _ => {
-            let time_ns = time.total_nanos();
+            let time_ns = i128::from(time.total_nanos());
             let floor = get_floor()?;
             let ceil = get_ceil()?;
-            let day_ns = ceil.instant().diff(floor.instant()).total_nanos() as u64;
-            debug_assert!(day_ns > 1);
+            // not positive if more than 24 hours are skipped
+            let day_ns = ceil.instant().diff(floor.instant()).total_nanos();
             let threshold = match mode {
                 // 0 days is "even"
                 round::Mode::HalfEven | round::Mode::HalfFloor => day_ns / 2 + 1,
-- 
2.43.0


From bc4cb6c8e20597feb27c4571b4041fc3473b7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 38/43] fix: timestamps that are tiny negative floats

---
 pysrc/whenever/_pywhenever.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index debd166..d00a4c9 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3268,7 +3268,7 @@ class Instant(_KnowsInstant):
         """
         secs, fract = divmod(i, 1)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, _UTC), _fract_nanos(fract)
         )
 
     @classmethod
@@ -3770,8 +3770,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
             raise ImplicitlyIgnoringDST(TIMESTAMP_DST_MSG)
         secs, fract = divmod(i, 1)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _load_offset(offset)),
-            int(fract * 1_000_000_000),
+            _fromtimestamp(secs, _load_offset(offset)), _fract_nanos(fract)
         )
 
     @classmethod
@@ -4388,7 +4387,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         """
         secs, fract = divmod(i, 1)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, ZoneInfo(tz)), _fract_nanos(fract)
         )
 
     @classmethod
@@ -4919,7 +4918,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
         """
         secs, fract = divmod(i, 1)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC).astimezone(), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, _UTC).astimezone(), _fract_nanos(fract)
         )
 
     @classmethod
@@ -6019,6 +6018,11 @@ def _rounds_to_next_day(time: Time, day_length: TimeDelta, mode: str) -> bool:
     raise ValueError(f"Invalid rounding mode: {mode!r}")
 
 
+def _fract_nanos(fract: int | float) -> int:
+    # The fraction of a tiny negative number is rounded to 1.0
+    return min(int(fract * 1_000_000_000), 999_999_999)
+
+
 def _load_offset(offset: int | TimeDelta, /) -> _timezone:
     if isinstance(offset, int):
         return _timezone(_timedelta(hours=offset))
-- 
2.43.0


From 72ac86e6eb75c1341a14dfe135f9695b06d7c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 39/43] fix: tiny negative float timestamps, and those in the
 last second (Rust extension)

---
 src/instant.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index fce336d..ce861cc 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -117,11 +117,13 @@ impl Instant {
     }
 
     pub(crate) fn from_timestamp_f64(timestamp: f64) -> Option<Self> {
-        (MIN_EPOCH as f64..MAX_EPOCH as f64)
+        (MIN_EPOCH as f64..(MAX_EPOCH + 1) as f64)
             .contains(&timestamp)
             .then(|| Instant {
                 secs: (timestamp.floor() as i64 + UNIX_EPOCH_INSTANT),
-                nanos: (timestamp * 1_000_000_000_f64).rem_euclid(1_000_000_000_f64) as u32,
+                // the remainder of a tiny negative number is rounded up
+                nanos: ((timestamp * 1_000_000_000_f64).rem_euclid(1_000_000_000_f64) as u32)
+                    .min(999_999_999),
             })
     }
 
-- 
2.43.0


From e4c540274a0ca170968bb5f94c44d608f9374fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:30 +0000
Subject: [PATCH 40/43] fix: float timestamps of whole seconds could be off by
 almost a second (Rust extension)

---
 src/instant.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index ce861cc..8b96be7 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -119,11 +119,13 @@ impl Instant {
     pub(crate) fn from_timestamp_f64(timestamp: f64) -> Option<Self> {
         (MIN_EPOCH as f64..(MAX_EPOCH + 1) as f64)
             .contains(&timestamp)
-            .then(|| Instant {
-                secs: (timestamp.floor() as i64 + UNIX_EPOCH_INSTANT),
-                // the remainder of a tiny negative number is rounded up
-                nanos: ((timestamp * 1_000_000_000_f64).rem_euclid(1_000_000_000_f64) as u32)
-                    .min(999_999_999),
+            .then(|| {
+                let secs = timestamp.floor();
+                Instant {
+                    secs: secs as i64 + UNIX_EPOCH_INSTANT,
+                    // the fraction of a tiny negative number is rounded to 1.0
+                    nanos: (((timestamp - secs) * 1_000_000_000_f64) as u32).min(999_999_999),
+                }
             })
     }
 
-- 
2.43.0


From 8c91eff29259676cf18af736136475f5759a00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 41/43] fix: OffsetDateTime timestamps whose local time is out
 of range (Rust extension)

---
 src/offset_datetime.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 5787ae0..17dff9c 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -885,10 +885,8 @@ unsafe fn from_timestamp(
                 .ok_or_type_err("Timestamp must be an integer or float")?,
         ),
     }
+    .and_then(|i| i.to_offset(offset_secs))
     .ok_or_value_err("Timestamp is out of range")?
-    .shift_secs_unchecked(offset_secs as i64)
-    .to_datetime()
-    .with_offset_unchecked(offset_secs)
     .to_obj(cls)
 }
 
@@ -906,10 +904,8 @@ unsafe fn from_timestamp_millis(
             .to_i64()?
             .ok_or_type_err("timestamp must be an integer")?,
     )
+    .and_then(|i| i.to_offset(offset_secs))
     .ok_or_value_err("timestamp is out of range")?
-    .shift_secs_unchecked(offset_secs as i64)
-    .to_datetime()
-    .with_offset_unchecked(offset_secs)
     .to_obj(cls)
 }
 
@@ -927,10 +923,8 @@ unsafe fn from_timestamp_nanos(
             .to_i128()?
             .ok_or_type_err("timestamp must be an integer")?,
     )
+    .and_then(|i| i.to_offset(offset_secs))
     .ok_or_value_err("timestamp is out of range")?
-    .shift_secs_unchecked(offset_secs as i64)
-    .to_datetime()
-    .with_offset_unchecked(offset_secs)
     .to_obj(cls)
 }
 
-- 
2.43.0


From 2136cf122ce474c9fb31a3fc6aa29a75d1d8b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 42/43] fix: local times skipped at the very end of the range
 (Rust extension)

---
 src/offset_datetime.rs | 6 +++++-
 src/zoned_datetime.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 17dff9c..70b1112 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -8,7 +8,7 @@ use crate::datetime_delta::set_units_from_kwargs;
 use crate::docstrings as doc;
 use crate::local_datetime::set_components_from_kwargs;
 use crate::{
-    date::{Date, MAX as MAX_DATE},
+    date::{Date, MAX as MAX_DATE, MAX_YEAR, MIN_YEAR},
     date_delta::DateDelta,
     datetime_delta::DateTimeDelta,
     instant::{Instant, MAX_INSTANT, MIN_INSTANT},
@@ -40,6 +40,10 @@ impl OffsetDateTime {
 
     // WARNING: offset seconds should already be checked to be within bounds
     pub(crate) fn new(date: Date, time: Time, offset_secs: i32) -> Option<Self> {
+        // a time shifted out of a DST gap may be on a date out of range
+        if !(MIN_YEAR as u16..=MAX_YEAR as u16).contains(&date.year) {
+            return None;
+        }
         let ordinal_secs = i64::from(date.ord()) * i64::from(S_PER_DAY)
             + i64::from(time.total_seconds() - offset_secs);
         (MIN_INSTANT..=MAX_INSTANT)
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index bbbe09b..45b254b 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -8,7 +8,7 @@ use crate::datetime_delta::set_units_from_kwargs;
 use crate::docstrings as doc;
 use crate::local_datetime::set_components_from_kwargs;
 use crate::{
-    date::{Date, MAX as MAX_DATE},
+    date::{Date, MAX as MAX_DATE, MAX_YEAR, MIN_YEAR},
     date_delta::DateDelta,
     datetime_delta::DateTimeDelta,
     instant::{Instant, MAX_INSTANT, MIN_INSTANT},
@@ -37,6 +37,10 @@ impl ZonedDateTime {
         offset_secs: i32,
         zoneinfo: *mut PyObject,
     ) -> Option<ZonedDateTime> {
+        // a time shifted out of a DST gap may be on a date out of range
+        if !(MIN_YEAR as u16..=MAX_YEAR as u16).contains(&date.year) {
+            return None;
+        }
         let ordinal_secs = i64::from(date.ord()) * i64::from(S_PER_DAY)
             + i64::from(time.total_seconds() - offset_secs);
         (MIN_INSTANT..=MAX_INSTANT)
-- 
2.43.0


From 25e13a51bd62ad43aa467a43a016dd26602722ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:52 +0000
Subject: [PATCH 43/43] fix: DateTimeDelta texts with a character other than T
 after the days (Rust extension)

---
 src/datetime_delta.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 733053a..1b5b577 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -450,6 +450,9 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
     let mut tdelta = if s.is_empty() {
         TimeDelta::ZERO
     } else {
+        if s[0] != b'T' {
+            Err(raise())?
+        }
         *s = &s[1..];
         let (nanos, _) = time_delta::parse_all_components(s).ok_or_else(raise)?;
         TimeDelta::from_nanos(nanos).ok_or_value_err("TimeDelta out of range")?
-- 
2.43.0

