From ac0792472a788c14de2b52165b123c0aa4cb8ffd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 01/98] fix: RollConv.UNADJUSTED leaves schedule dates unrolled
 instead of raising

---
 frm/utils/schedule.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 08f5355..a06fac4 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -88,7 +88,12 @@ class BaseSchedule:
 
         # Apply np.busday_offset only to non-NaT dates
         adjusted_dates = np.empty_like(dates, dtype='datetime64[D]')
-        adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
+        if self.roll_conv == RollConv.UNADJUSTED and payment_delay == 0:
+            adjusted_dates[valid_dates_mask] = valid_dates
+        else:
+            # A business day lag must be counted from a business day, hence 'following' if the dates are unadjusted
+            roll = 'following' if self.roll_conv == RollConv.UNADJUSTED else self.roll_conv.value
+            adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=roll, busdaycal=self.cal)
         adjusted_dates[~valid_dates_mask] = 'NaT'
 
         # Update DataFrame
@@ -460,6 +465,8 @@ def generate_date_schedule(
     """
     
     def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+        if roll_conv == RollConv.UNADJUSTED.value:
+            return pd_timestamp
         np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
         rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
         return pd.Timestamp(rolled_date_np)
-- 
2.43.0


From b29bca835396c2f635c38e77e4331648184a3105 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 02/98] fix: DayRoll.EOM rolls schedule dates to the month end
 instead of raising

---
 frm/utils/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index a06fac4..0500598 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -475,6 +475,8 @@ def generate_date_schedule(
                                 specific_day_roll: DayRoll) -> pd.Timestamp:
         if specific_day_roll == DayRoll.UNADJUSTED:
             return pd_timestamp
+        elif specific_day_roll == DayRoll.EOM:
+            return pd_timestamp + pd.offsets.MonthEnd(0)
         else:
             try:
                 return pd_timestamp.replace(day=specific_day_roll.value)
-- 
2.43.0


From 57de57b57ac915b36704dc778789ff4fa997d8ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 03/98] fix: no zero or negative length periods when schedule
 dates roll onto each other

---
 frm/utils/schedule.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 0500598..1667a33 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -509,9 +509,11 @@ def generate_date_schedule(
         current_date = apply_specific_day_roll(start_date + freq.date_offset, day_roll)
         current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
         
-        while current_date < end_date: 
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+        while current_date < end_date_in_schedule:
+            # Consecutive dates can roll to the same business day, skip these as they'd create zero length periods
+            if current_date > (start_dates[-1] if start_dates else start_date_in_schedule):
+                start_dates.append(current_date)
+                end_dates.append(current_date)
             current_date = start_date + freq.multiply_date_offset(i+1)
             current_date = apply_specific_day_roll(current_date, day_roll)
             current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
@@ -524,9 +526,11 @@ def generate_date_schedule(
         current_date = apply_specific_day_roll(end_date - freq.date_offset, day_roll)
         current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
         
-        while current_date > start_date:   
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+        while current_date > start_date_in_schedule:
+            # Consecutive dates can roll to the same business day, skip these as they'd create zero length periods
+            if current_date < (start_dates[-1] if start_dates else end_date_in_schedule):
+                start_dates.append(current_date)
+                end_dates.append(current_date)
             current_date = end_date - freq.multiply_date_offset(i+1)
             current_date = apply_specific_day_roll(current_date, day_roll)
             current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
-- 
2.43.0


From cff76e26bf28f3ca93ffe2e7e216b17ce284cc48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 04/98] fix: honour explicitly specified first and last stub
 types in make_schedule

---
 frm/utils/schedule.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 1667a33..c2376a7 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -289,11 +289,9 @@ def make_schedule(
                 first_stub = Stub.market_convention()
                 last_stub = Stub.NONE
             elif first_stub == Stub.DEFAULT:
-                first_stub  = Stub.NONE
+                first_stub = Stub.market_convention() if last_stub == Stub.NONE else Stub.NONE
             elif last_stub == Stub.DEFAULT:
-                last_stub = Stub.NONE
-            else:
-                raise ValueError("Unexpected logic branch - please raise GitHub issue")
+                last_stub = Stub.market_convention() if first_stub == Stub.NONE else Stub.NONE
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-- 
2.43.0


From 40ec91def53cf977378513ee5e163a39127c7fc3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 05/98] fix: stub handling no longer fails, or drops user
 specified dates, when few periods are generated

---
 frm/utils/schedule.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index c2376a7..fbaa273 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -295,12 +295,12 @@ def make_schedule(
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             elif first_stub == Stub.NONE and last_stub != Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub in [Stub.SHORT, Stub.LONG] and last_stub in [Stub.SHORT, Stub.LONG]:
@@ -334,7 +334,7 @@ def make_schedule(
                 elif first_period_end == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif first_period_end == d2_backward[1]:
+                elif len(d2_backward) > 1 and first_period_end == d2_backward[1]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -349,7 +349,7 @@ def make_schedule(
                 elif last_period_start == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif last_period_start == d1_forward[-2]:
+                elif len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
@@ -383,7 +383,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 2:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -391,7 +391,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 2:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
@@ -401,13 +401,13 @@ def make_schedule(
                 if first_stub == Stub.NONE:
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
-                    if last_stub == Stub.LONG:
+                    if last_stub == Stub.LONG and len(d1) > 2:
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
                 elif last_stub == Stub.NONE:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
-                    if first_stub == Stub.LONG:
+                    if first_stub == Stub.LONG and len(d1) > 2:
                         d1 = [d1[0]] + d1[2:]
                         d2 = d2[1:]
                 else:
-- 
2.43.0


From cebaa9488e83a2ae7c5c3ed508842c49a5d4ff05 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 06/98] fix: roll all user specified dates in make_schedule
 when roll_user_specified_dates is set

---
 frm/utils/schedule.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index fbaa273..5db4a13 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -267,6 +267,16 @@ def make_schedule(
     if last_period_start is not None:
         assert start_date <= last_period_start < end_date
 
+    def roll_user_date(date):
+        # Date to be used in the schedule for the user specified date
+        if date is None or not roll_user_specified_dates or roll_conv == RollConv.UNADJUSTED:
+            return date
+        return pd.Timestamp(np.busday_offset(np.datetime64(date, 'D'), offsets=0, roll=roll_conv.value, busdaycal=cal))
+
+    start_date_in_schedule, end_date_in_schedule, first_period_end_in_schedule, last_period_start_in_schedule = [
+        roll_user_date(d) for d in [start_date, end_date, first_period_end, last_period_start]
+    ]
+
     # if freq == PeriodFreq.CDS:
     #     pass
     # elif freq == PeriodFreq.IMM:
@@ -274,11 +284,11 @@ def make_schedule(
 
     if freq == PeriodFreq.ZERO_COUPON or first_period_end == end_date or last_period_start == start_date:
         # Function inputs explicitly specify 1 period
-        d1, d2 = [start_date], [end_date]
+        d1, d2 = [start_date_in_schedule], [end_date_in_schedule]
     elif first_period_end == last_period_start and first_period_end is not None and last_period_start is not None:
         # Function inputs explicitly specify 2 periods
-        d1 = [start_date, first_period_end]
-        d2 = [last_period_start, end_date]
+        d1 = [start_date_in_schedule, first_period_end_in_schedule]
+        d2 = [last_period_start_in_schedule, end_date_in_schedule]
     else:
         if first_period_end is None and last_period_start is None:
             assert first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
@@ -328,13 +338,13 @@ def make_schedule(
 
             direction = []
             if first_period_end is not None:
-                if first_period_end == d2_forward[0]:
+                if first_period_end_in_schedule == d2_forward[0]:
                     direction.append('forward')
                     first_stub = Stub.NONE
-                elif first_period_end == d2_backward[0]:
+                elif first_period_end_in_schedule == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif len(d2_backward) > 1 and first_period_end == d2_backward[1]:
+                elif len(d2_backward) > 1 and first_period_end_in_schedule == d2_backward[1]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -343,13 +353,13 @@ def make_schedule(
 
             # Step 2a : Check if the last_period_start matches any generated schedules
             if last_period_start is not None:
-                if last_period_start == d1_backward[-1]:
+                if last_period_start_in_schedule == d1_backward[-1]:
                     direction.append('backward')
                     last_stub = Stub.NONE
-                elif last_period_start == d1_forward[-1]:
+                elif last_period_start_in_schedule == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
+                elif len(d1_forward) > 1 and last_period_start_in_schedule == d1_forward[-2]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
@@ -376,21 +386,21 @@ def make_schedule(
             if first_stub == Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
                 # Generate date schedule between first_period_end and last_period_start
                 d1, d2 = generate_date_schedule(first_period_end, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                d1 = [start_date] + d1 + [last_period_start]
-                d2 = [first_period_end] + d2 + [end_date]
+                d1 = [start_date_in_schedule] + d1 + [last_period_start_in_schedule]
+                d2 = [first_period_end_in_schedule] + d2 + [end_date_in_schedule]
             elif first_stub == Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub != Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
                 # Forward generation from first_period_end and if long last stub, combine last two periods
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                d1 = [start_date] + d1
-                d2 = [first_period_end] + d2
+                d1 = [start_date_in_schedule] + d1
+                d2 = [first_period_end_in_schedule] + d2
                 if last_stub == Stub.LONG and len(d1) > 2:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
                 # Backward generation from last_period_start and if long first stub, combine first two periods
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                d1 = d1 + [last_period_start]
-                d2 = d2 + [end_date]
+                d1 = d1 + [last_period_start_in_schedule]
+                d2 = d2 + [end_date_in_schedule]
                 if first_stub == Stub.LONG and len(d1) > 2:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
-- 
2.43.0


From 4cf8f8e9b564369483bbdde72b95a63d4a981e2c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 07/98] fix: accept a notional per period in NotionalSchedule

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 5db4a13..0586f3f 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -150,9 +150,9 @@ class NotionalSchedule(BaseSchedule):
         if notional_amount.shape == (1,):
             self.df['notional'] = notional_amount[0]
             self.df['notional_payment'] = 0
-        elif notional_amount.shape == self.df.shape[0]:
+        elif notional_amount.shape == (self.df.shape[0],):
             self.df['notional'] = notional_amount
-            self.df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
+            self.df['notional_payment'] = np.append(notional_amount[:-1] - notional_amount[1:], 0)
         else:
             raise ValueError("Invalid notional_amount shape")
 
-- 
2.43.0


From d093f5f1a67a1c162662fa35069d7af0483b2fe0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 08/98] fix: honour first_period_end and last_period_start when
 both are specified

---
 frm/utils/schedule.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 0586f3f..3c10081 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -366,6 +366,14 @@ def make_schedule(
                     # Need to construct schedule using last_period_start
                     last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
 
+            # Step 2b : If both dates are specified and don't align with the one generated schedule, generate between them
+            if first_period_end is not None and last_period_start is not None:
+                if Stub.DEFINED_PER_FIRST_PERIOD_END_DATE == first_stub \
+                        or Stub.DEFINED_PER_LAST_PERIOD_START_DATE == last_stub \
+                        or len(set(direction)) > 1:
+                    first_stub = Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
+                    last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
+
             # Step 2c : Set default stub values to:
             #              (i) NONE if other stub is SHORT/LONG
             #              (ii) SHORT if other stub is NONE
@@ -408,7 +416,7 @@ def make_schedule(
                 # Don't need to generate any additional schedules
                 assert len(set(direction)) == 1
 
-                if first_stub == Stub.NONE:
+                if first_stub == Stub.NONE and direction[0] == 'forward':
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
                     if last_stub == Stub.LONG and len(d1) > 2:
-- 
2.43.0


From 6e3c1eeb0b473efc9754888440147b0d35a7830c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 09/98] fix: add_period_yearfrac no longer requires
 add_period_daycount to be called first

---
 frm/utils/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 3c10081..02c0dd1 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -128,7 +128,8 @@ class BaseSchedule:
         mask = np.logical_and(self.df['period_start'].notnull(), self.df['period_end'].notnull())
         years = np.full(self.df.shape[0], np.nan)
         years[mask] = year_frac(self.df['period_start'][mask], self.df['period_end'][mask], day_count_basis)
-        self.df.insert(loc=col_index + 2, column='period_yearfrac', value=years)
+        loc = col_index + 2 if 'period_daycount' in self.df.columns else col_index + 1
+        self.df.insert(loc=loc, column='period_yearfrac', value=years)
 
 
 @dataclass
-- 
2.43.0


From 6eef0771f45c3f9fd4bc78efd1d6c52554b822d5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 10/98] fix: a scalar is_end_date_on_termination applies to
 every date of a vector

---
 frm/utils/daycount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/daycount.py b/frm/utils/daycount.py
index b63cfaa..62e052d 100644
--- a/frm/utils/daycount.py
+++ b/frm/utils/daycount.py
@@ -108,7 +108,7 @@ def day_count(start_date,
             N = len(end_dti)
             is_end_date_on_termination = [False if i < (N-1)  else True for i in range(N)]
         else:
-            is_end_date_on_termination = np.atleast_1d(is_end_date_on_termination)
+            is_end_date_on_termination = np.broadcast_to(is_end_date_on_termination, len(end_dti))
 
         result = np.array([_apply_logic(start, end, flag) for start, end, flag in zip(start_dti, end_dti, is_end_date_on_termination)])               
     else:
-- 
2.43.0


From c0214a04f472aa8c4b4134732a05fef9ad47d917 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 11/98] fix: calc_implied_business_day_offset and the FX spot
 offset consistency check work for spot dates after the curve date

---
 frm/utils/tenor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 368d590..e75f1dd 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -107,14 +107,14 @@ def calc_implied_business_day_offset(
         date: pd.Timestamp,
         offset_date: pd.Timestamp,
         cal: np.busdaycalendar) -> int:
-    assert date >= offset_date, "date must be greater than or equal to offset_date"
+    assert date <= offset_date, "date must be less than or equal to offset_date"
 
     offset = 0
     while date < offset_date:
         offset += 1
         date += pd.DateOffset(days=1)
         date_np = date.to_numpy().astype('datetime64[D]')
-        date = np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal)
+        date = pd.Timestamp(np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal))
     return offset
 
 
@@ -127,7 +127,7 @@ def resolve_fx_curve_dates(
 
     if curve_date is not None and spot_date is not None and spot_offset is not None:
         # All three dates are specified, check for consistency
-        check_day_offset_consistency(date=curve_date, offset_date=spot_date, offset=spot_offset, busdaycal=cal)
+        check_day_offset_consistency(date=curve_date, offset_date=spot_date, day_offset=spot_offset, busdaycal=cal)
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-- 
2.43.0


From b0cfff6aaa74dbfd64f6f4e906e8d3513f4c06cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 12/98] fix: resolve_fx_curve_dates uses the provided
 spot_offset

---
 frm/utils/tenor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index e75f1dd..cd22ad7 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -131,7 +131,7 @@ def resolve_fx_curve_dates(
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-    else:
+    elif spot_offset is None:
         # Only one of {curve_date, spot_date} are specified, get spot_offset per market convention from ccy_pair
         spot_offset = get_fx_spot_day_offset(ccy_pair)
 
-- 
2.43.0


From 6045d284e958b13b4f9f64dc9d07ae8405339ef2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 13/98] fix: derive the FX delivery date from the fixing/expiry
 date

---
 frm/term_structures/fx_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 8f26775..e6daf6e 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -40,8 +40,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
         if pd.notna(row['delivery_date']):
             pass
         elif pd.notna(row[rate_set_date_str]):
-            rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
-            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
+            rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
+            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
         elif pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
-- 
2.43.0


From 68fa7921073ab02d486dbd7209744c504ee331e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 14/98] fix: FX term structures can be specified by dates
 without a tenor

---
 frm/term_structures/fx_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index e6daf6e..9ddcab9 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,7 +21,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
 
     mandatory_columns_at_least_one_of = [['tenor',rate_set_date_str,'delivery_date']]
     for column_set in mandatory_columns_at_least_one_of:
@@ -42,7 +43,7 @@ def fx_term_structure_helper(df: pd.DataFrame,
         elif pd.notna(row[rate_set_date_str]):
             rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
-        elif pd.notna(row['tenor']):
+        elif 'tenor' in df.columns and pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
             rate_set_date_np = rate_set_date.to_numpy().astype('datetime64[D]')
-- 
2.43.0


From adab428026e18dca661c6341240124ae95b8ed06 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 15/98] fix: get_busdaycal finds the mixed case locale
 calendars

---
 frm/utils/business_day_calendar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/utils/business_day_calendar.py b/frm/utils/business_day_calendar.py
index 8f550fb..ecb8a66 100644
--- a/frm/utils/business_day_calendar.py
+++ b/frm/utils/business_day_calendar.py
@@ -24,6 +24,10 @@ def get_holidays_object(key):
         return CCY_HOLIDAY[key]
     elif key in LOCALE_HOLIDAY.keys():
         return LOCALE_HOLIDAY[key]
+    # Keys are upper-cased by get_busdaycal() but not all locale keys are in upper case
+    locale_keys = {locale_key.upper(): locale_key for locale_key in LOCALE_HOLIDAY.keys()}
+    if key in locale_keys:
+        return LOCALE_HOLIDAY[locale_keys[key]]
     else:
         raise ValueError(f"Holidays not setup for {key}")
 
-- 
2.43.0


From 0caf5db218987d3570c0374a58df391cb4bc0710 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 16/98] fix: zero curve queries with dates outside the curve
 return one value per date, in order, per extrap_method

---
 frm/term_structures/zero_curve.py | 35 +++++++++++--------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ebe7abd..16dd002 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -366,31 +366,20 @@ class ZeroCurve:
             # Check if any of the dates are outside the available data
             min_date = self.daily_df['date'].min()
             below_range = dates < min_date
-            dates_below = []
-            if any(below_range):
-                bound_date = self.daily_df['date'].min()
-                for i,date in enumerate(dates[below_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_below.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_below.append(bound_date)
-            
+            for date in dates[below_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + min_date.strftime('%Y-%m-%d') + msg)
+
             max_date = self.daily_df['date'].max()
             above_range = dates > max_date
-            dates_above = []
-            if any(above_range):
-                bound_date = self.daily_df['date'].max()
-                for i,date in enumerate(dates[above_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_above.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_above.append(bound_date)
-          
-            in_range = np.logical_and(np.logical_not(below_range),np.logical_not(above_range))
-            cleaned_dates = dates_below + list(dates[in_range].values) + dates_above
-            df = pd.merge(pd.DataFrame(data=cleaned_dates, columns=['date']), self.daily_df, left_on='date',right_on='date', how='left')
+            for date in dates[above_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + max_date.strftime('%Y-%m-%d') + msg)
+
+            # The result has one row per input date, in the order of the input
+            if self.extrap_method == ZeroCurveExtrapMethod.NONE:
+                cleaned_dates = dates.where(~(below_range | above_range))
+            else:
+                cleaned_dates = dates.where(~below_range, min_date).where(~above_range, max_date)
+            df = pd.merge(pd.DataFrame({'date': cleaned_dates}), self.daily_df, left_on='date',right_on='date', how='left')
             return df    
 
        
-- 
2.43.0


From 55221d405bc89aaf77d913ef728b59b0c58bf786 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 17/98] fix: zero curve queries by years work for
 LINEAR_ON_LN_DISCOUNT

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 16dd002..b6aa3c2 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -328,7 +328,7 @@ class ZeroCurve:
             raise ValueError('Only one input among days, date, or years is allowed.')            
         
         if years is not None:
-            if self.interp_method == 'linear_on_ln_discount':
+            if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
                 cczr = -1 * ln_df_interp / years
                 discount_factor = np.exp(ln_df_interp)
-- 
2.43.0


From 14c6659c27c9e7e21de6f12963fe7b9e15373245 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 18/98] fix: zero curve queries by a vector of days

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index b6aa3c2..aa249b6 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -346,7 +346,7 @@ class ZeroCurve:
             return pd.DataFrame({'years': years, 'cczr': cczr, 'discount_factor': discount_factor})
         else:
             if days is not None:
-                dates = self.curve_date + dt.timedelta(days=days)
+                dates = self.curve_date + pd.to_timedelta(days, unit='D')
 
             dates = pd.to_datetime(dates)
             if not(isinstance(dates, pd.DatetimeIndex)):
-- 
2.43.0


From c66fd528a542fa26afd1208d962403ccc7d5e070 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 19/98] fix: ZeroCurve no longer modifies the caller's
 pillar_df

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index aa249b6..ea9a3f0 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -34,7 +34,7 @@ class ZeroCurve:
     
     def __post_init__(self, compounding_freq):
         
-        pillar_df = self.pillar_df
+        pillar_df = self.pillar_df.copy() # the DataFrame of the caller is not modified
         if compounding_freq is None and 'zero_rate' in pillar_df.columns:
             raise ValueError("'compounding_freq' must be specified zero rates specified in 'pillar_df'")
             
-- 
2.43.0


From 18851ae47bafd247efd1028d7ef1228f2cffdef8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 20/98] fix: continuously compounded zero rates of a zero curve
 specified by simple zero rates

---
 frm/term_structures/zero_curve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ea9a3f0..d60c57b 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -90,7 +90,12 @@ class ZeroCurve:
             pillar_df['discount_factor'] = compounding_freq.calc_discount_factor_from_zero_rate(
                 years=pillar_df['years'],
                 zero_rate=pillar_df['zero_rate'])
-            pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
+            if compounding_freq == CompoundingFreq.SIMPLE:
+                # The conversion of a simple rate depends on its term, at t=0 the simple and continuous rates are equal
+                pillar_df['cczr'] = np.where(pillar_df['years'] == 0, pillar_df['zero_rate'],
+                                             -1 * np.log(pillar_df['discount_factor']) / pillar_df['years'])
+            else:
+                pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # Add continuously compounded interest rate for internal use
-- 
2.43.0


From dcad29dff48813a448ef189e29dcbd3a0d22b0ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 21/98] fix: a LINEAR_ON_LN_DISCOUNT zero curve can have a
 pillar on the curve date

---
 frm/term_structures/zero_curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index d60c57b..af82659 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -137,6 +137,8 @@ class ZeroCurve:
 
         else:
             match self.interp_method:
+                case ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+                    pass
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
                     x = pillar_df['years'].to_list()
                     y = np.log(pillar_df['discount_factor']).to_list()
-- 
2.43.0


From 4095272111547244567291ef5a6ed10e8b4669bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 22/98] fix: a zero curve specified by years covers the dates
 up to its last pillar

---
 frm/term_structures/zero_curve.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index af82659..70e3c56 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -162,9 +162,12 @@ class ZeroCurve:
         if 'date' in self.pillar_df.columns:
             max_date = max(self.pillar_df['date'])
         else:
-            max_years = int(max(self.pillar_df['years']))
-            max_date = self.curve_date + relativedelta(years=max_years)
-            while year_frac(self.curve_date, max_date, self.day_count_basis) < max_years:
+            # The last date which is not after the last pillar
+            max_years = max(self.pillar_df['years'])
+            max_date = self.curve_date + relativedelta(years=int(max_years))
+            while year_frac(self.curve_date, max_date, self.day_count_basis) > max_years:
+                max_date -= dt.timedelta(days=1)
+            while year_frac(self.curve_date, max_date + dt.timedelta(days=1), self.day_count_basis) <= max_years:
                 max_date += dt.timedelta(days=1)
                 
         date_range = pd.date_range(self.curve_date,max_date,freq='d')
-- 
2.43.0


From 4c2f81f538a693b52f002ebb3fea2b4c841365eb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 23/98] fix: ZeroCurve.flat_shift

---
 frm/term_structures/zero_curve.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 70e3c56..27a86f5 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -205,16 +205,17 @@ class ZeroCurve:
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-        dates = list(self.pillar_df.keys())
-        years = year_frac(self.curve_date, dates, self.day_count_basis)
-        shifted = - np.log(list(self.pillar_df.values)) / years + basis_points / 10000
-        shifted = pd.DataFrame({'date': dates,
-                                'years': years,
-                                'discount_factor':np.exp(-shifted * years)})
-        shifted.loc[0,'discount_factor'] = 1.0 # set the discount factor on the curve date to be 1.0
-        return ZeroCurve(curve_date=self.curve_date, 
+        # The discount factor on the curve date is not shifted, it's 1.0
+        pillar_df = self.pillar_df[self.pillar_df['years'] > 0].reset_index(drop=True)
+        x_column_name = 'date' if 'date' in pillar_df.columns else 'years'
+        shifted = pd.DataFrame({x_column_name: pillar_df[x_column_name],
+                                'discount_factor': pillar_df['discount_factor'] * np.exp(-1 * basis_points / 10000 * pillar_df['years'])})
+        return ZeroCurve(curve_date=self.curve_date,
                          pillar_df=shifted,
-                         day_count_basis=self.day_count_basis)
+                         day_count_basis=self.day_count_basis,
+                         cal=self.cal,
+                         interp_method=self.interp_method,
+                         extrap_method=self.extrap_method)
                    
     def get_forward_rates(self,
                           period_start: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
-- 
2.43.0


From 0f4047626403283bfa9677ae8c738209bad431de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 24/98] fix: average forward rates are defined for the ACT/ACT
 day count basis

---
 frm/term_structures/zero_curve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 27a86f5..3b6e427 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -245,7 +245,12 @@ class ZeroCurve:
             dates = pd.date_range(start=period_start.min(), end=period_end.max(), freq='D')
             discount_factors = self.get_discount_factors(dates=dates)
             daily_interest_multiplier = discount_factors[:-1] / discount_factors[1:]
-            daily_simple_interest_rate = (daily_interest_multiplier - 1) * self.day_count_basis.days_per_year
+            if self.day_count_basis == DayCountBasis.ACT_ACT:
+                # The days per year depends on the date
+                days_per_year = 1.0 / year_frac(dates[:-1], dates[1:], self.day_count_basis)
+            else:
+                days_per_year = self.day_count_basis.days_per_year
+            daily_simple_interest_rate = (daily_interest_multiplier - 1) * days_per_year
             dates_np = dates.to_numpy(dtype='datetime64[D]')
             busday_flag = pd.Series(np.is_busday(dates_np, busdaycal=self.cal), index=dates)
             
-- 
2.43.0


From 983066dfadc0c5c028e67d88bf351aac53cfc167 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 25/98] fix: DayCountBasis.from_value(None) returns the default

---
 frm/enums/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index 90a4261..1653df1 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -208,6 +208,8 @@ class DayCountBasis(Enum):
         """Create an enum member from the given value, if valid."""
         
         def specific_cleaning(value):
+            if value is None:
+                return value
             value = value.replace('actual','act')
             if value == 'act/365fixed':
                 value = 'act/365'
-- 
2.43.0


From 1dc3f56806533b1c8bd3f0e719016e127ff7e54c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 26/98] fix: zero curves can be specified by days

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 3b6e427..b2632b5 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -78,7 +78,7 @@ class ZeroCurve:
                 __calculate_days()
                 __calculate_years()
             case 'days':
-                pillar_df['date'] =  pillar_df['days'].apply(lambda days: self.curve_date + dt.timedelta(days=days))
+                pillar_df['date'] =  self.curve_date + pd.to_timedelta(pillar_df['days'], unit='D')
                 __calculate_years()
             case 'years':
                 pass
-- 
2.43.0


From b97a5505c1edf6df16dfe3be0b86d5625a34fdd1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 27/98] fix: recognise a pillar on the curve date of a zero
 curve when the ACT/ACT year fraction has a rounding error

---
 frm/term_structures/zero_curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index b2632b5..cfc8226 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -65,7 +65,9 @@ class ZeroCurve:
             pillar_df['days'] = (pillar_df['date'] - self.curve_date).dt.days
         def __calculate_years(): 
             pillar_df['years'] = year_frac(self.curve_date, pillar_df['date'], self.day_count_basis)
-        
+            # Exactly zero on the curve date, the ACT/ACT year fraction can have a rounding error
+            pillar_df.loc[pillar_df['date'] == self.curve_date, 'years'] = 0.0
+
         match X_column_name:
             case 'tenor':
                 pillar_df.loc[:,'tenor'] = pillar_df['tenor'].apply(clean_tenor)
-- 
2.43.0


From 81ce60e4e5cd7c61e26aca778313f99e8176a195 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 28/98] fix: ZeroCurve.flat_shift keeps the spline of a
 CUBIC_SPLINE_ON_CCZR curve

---
 frm/term_structures/zero_curve.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index cfc8226..91f75c2 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -207,13 +207,18 @@ class ZeroCurve:
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-        # The discount factor on the curve date is not shifted, it's 1.0
-        pillar_df = self.pillar_df[self.pillar_df['years'] > 0].reset_index(drop=True)
-        x_column_name = 'date' if 'date' in pillar_df.columns else 'years'
-        shifted = pd.DataFrame({x_column_name: pillar_df[x_column_name],
-                                'discount_factor': pillar_df['discount_factor'] * np.exp(-1 * basis_points / 10000 * pillar_df['years'])})
+        x_column_name = 'date' if 'date' in self.pillar_df.columns else 'years'
+        if self.interp_method == ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR:
+            shifted = pd.DataFrame({x_column_name: self.pillar_df[x_column_name],
+                                    'zero_rate': self.pillar_df['cczr'] + basis_points / 10000})
+        else:
+            # The discount factor on the curve date is not shifted, it's 1.0
+            pillar_df = self.pillar_df[self.pillar_df['years'] > 0].reset_index(drop=True)
+            shifted = pd.DataFrame({x_column_name: pillar_df[x_column_name],
+                                    'discount_factor': pillar_df['discount_factor'] * np.exp(-1 * basis_points / 10000 * pillar_df['years'])})
         return ZeroCurve(curve_date=self.curve_date,
                          pillar_df=shifted,
+                         compounding_freq=CompoundingFreq.CONTINUOUS,
                          day_count_basis=self.day_count_basis,
                          cal=self.cal,
                          interp_method=self.interp_method,
-- 
2.43.0


From 7883e36ba3e9d3f784670e6acd15c1e3bbf72f24 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 29/98] fix: DayCountBasis.from_value handles digit only text

---
 frm/enums/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index 1653df1..e395252 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -210,7 +210,7 @@ class DayCountBasis(Enum):
         def specific_cleaning(value):
             if value is None:
                 return value
-            value = value.replace('actual','act')
+            value = str(value).replace('actual','act')
             if value == 'act/365fixed':
                 value = 'act/365'
             return value        
-- 
2.43.0


From 0f80b2ccff628fe4533d23c32ab76d34e06e1aeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 30/98] fix: RFR coupon rates of a period that starts or ends
 on a day without a fixing

---
 .../historical_swap_index_fixings.py              | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 63fbae8..417115d 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -37,15 +37,14 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        mask = np.logical_and(self.fixings['date'] >= observations_start.min(),
-                              self.fixings['date'] <= observations_end.max())
-        applicable_fixings = self.fixings.loc[mask,:].sort_values('date', ascending=True).reset_index(drop=True)
-
-
-        if observations_end.max() > applicable_fixings['date'].max() \
-            or observations_end.min() < applicable_fixings['date'].min():
+        if observations_end.max() > self.fixings['date'].max() \
+            or observations_start.min() < self.fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
+        # Fixings before the observation period are kept, as the fixing in force on its first day may be published before it
+        mask = self.fixings['date'] <= observations_end.max()
+        applicable_fixings = self.fixings.loc[mask,:].sort_values('date', ascending=True).reset_index(drop=True)
+
         coupon_rates = [self._calculate_coupon_rate(s, e, applicable_fixings, cpn_calc_method)
                                    for s, e in zip(observations_start, observations_end)]
         return np.array(coupon_rates)
@@ -64,7 +63,7 @@ class RFRFixings(HistoricalSwapIndexFixings):
             return periods_ois_fixings['fixing'].mean()
 
         date_range = pd.date_range(start=observation_start, end=observation_end, freq='D')
-        df = pd.merge_asof(pd.DataFrame({'date': date_range}), periods_ois_fixings, on='date', direction='backward')
+        df = pd.merge_asof(pd.DataFrame({'date': date_range}), fixings, on='date', direction='backward')
 
         if method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
             df['daily_interest'] = 1 + df['fixing'] / self.day_count_basis.days_per_year
-- 
2.43.0


From 6de6cccf475972b51b1a8c99fb0d40a12ec9c710 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 31/98] fix: TermFixings accepts fixings in any order

---
 frm/term_structures/historical_swap_index_fixings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 417115d..74c9e34 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -89,7 +89,7 @@ class TermFixings(HistoricalSwapIndexFixings):
         date_df_sorted = date_df.sort_values('date').reset_index(drop=False)
 
         # Perform merge_asof with the sorted dates
-        df = pd.merge_asof(date_df_sorted, self.fixings, on='date', direction='backward')
+        df = pd.merge_asof(date_df_sorted, self.fixings.sort_values('date'), on='date', direction='backward')
 
         df_sorted_back = df.sort_values('index').set_index('index') # Restore the original order of the input dates
 
-- 
2.43.0


From afa1ccd878fc9936d81859b80b16c9a20c1dbebc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 32/98] fix: TermSwapCurve uses the historical fixings only for
 periods before the curve date

---
 frm/term_structures/swap_curve.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 1debf8b..70b6410 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -38,17 +38,19 @@ class TermSwapCurve:
         #   Would be nice to have public API to call for data whenever needed for examples.
         # Get forward fixings
         mask_future = period_start >= self.zero_curve.curve_date
-        forward_fixings = self.zero_curve.get_forward_rates(
-            period_start=period_start[mask_future],
-            period_end=period_end[mask_future],
-            forward_rate_type=cpn_calc_method)
-        fixings[mask_future] = forward_fixings
+        if mask_future.any():
+            forward_fixings = self.zero_curve.get_forward_rates(
+                period_start=period_start[mask_future],
+                period_end=period_end[mask_future],
+                forward_rate_type=cpn_calc_method)
+            fixings[mask_future] = forward_fixings
 
         # Get historical fixings
-        mask_historical = period_start >= self.zero_curve.curve_date
-        historical_fixings = self.historical_fixings.index_historical_fixings(
-            fixing_dates=period_start[mask_historical])
-        fixings[mask_historical] = historical_fixings
+        mask_historical = period_start < self.zero_curve.curve_date
+        if mask_historical.any():
+            historical_fixings = self.historical_fixings.index_historical_fixings(
+                fixing_dates=period_start[mask_historical])
+            fixings[mask_historical] = historical_fixings
 
         return fixings
 
-- 
2.43.0


From 19bf5da1f9328d2125a4c847d40ffe1f91d0df2a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 33/98] fix: Black76 and Bachelier intrinsic values include the
 annuity factor and expired options are worth their intrinsic value

---
 frm/pricing_engine/black76_bachelier.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b3c0a6a..c0c3c34 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -84,13 +84,13 @@ def black76_price(
     d2 = d1 - σB*np.sqrt(tau)
     X = annuity_factor * cp * (F * norm.cdf(cp * d1) - K * norm.cdf(cp * d2))
 
+    intrinsic = annuity_factor * np.maximum(0, cp * (F - K)) + np.zeros_like(X)
+    X = np.where(tau == 0, intrinsic, X) # If time to maturity is 0.0, set to intrinsic value
+
     results = {'price': X}
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
@@ -250,13 +250,13 @@ def bachelier_price(
     d = (F - K) / (σN * np.sqrt(tau))
     X = annuity_factor * ( cp * (F - K) * norm.cdf(cp * d) + σN * np.sqrt(tau) * norm.pdf(d) )
 
+    intrinsic = annuity_factor * np.maximum(0, cp * (F - K)) + np.zeros_like(X)
+    X = np.where(tau == 0, intrinsic, X) # If time to maturity is 0.0, set to intrinsic value
+
     results = {'price': X}
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From 4c4f7bf149057c91595ddd072d7d8a99c4e1256e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 34/98] fix: Black76 numerical greeks apply the log-normal
 shift once

---
 frm/pricing_engine/black76_bachelier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index c0c3c34..f00934f 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -109,9 +109,9 @@ def black76_price(
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets (forward) price.
         # Δ := ∂X/∂F ≈ (X(F_plus) − X(F_minus)) / (F_plus - F_minus)
         Δ_shift = 0.01
-        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=σB, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=σB, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['delta'] = (results_F_plus['price'] - results_F_minus['price']) / (2 * F * Δ_shift)
 
@@ -119,9 +119,9 @@ def black76_price(
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
         σ_shift = 0.01
-        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=ln_shift,
+        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=σB+σ_shift, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=ln_shift,
+        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=σB-σ_shift, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['vega'] = (results_σ_plus['price'] - results_σ_minus['price']) / (2 * (σ_shift / 0.01))
 
-- 
2.43.0


From 224cf8fb712fc0927d4716d0124fc00d374a4a46 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 35/98] fix: Bachelier theta is the decay of one calendar day

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index f00934f..aff0faf 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -269,7 +269,7 @@ def bachelier_price(
         results['analytical_greeks']['vega'] = np.sqrt(tau) * norm.pdf(cp * d) * annuity_factor * 0.0001
 
         # Normalised to 1 calendar day.
-        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / (1/365.25)
+        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor * (1/365.25)
 
     return results
 
-- 
2.43.0


From c6c87b0fc0d8a030757d054f3a1af49580ccc655 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 36/98] fix: implied volatility solvers meet their price
 tolerance

---
 frm/pricing_engine/black76_bachelier.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index aff0faf..8966125 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -151,7 +151,7 @@ def black76_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12
     obj_func_tol = 1e-5
     x0 = vol_sln_guess
     bounds = VOL_SLN_BOUNDS
@@ -174,8 +174,8 @@ def black76_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # Only accept the result if the price is matched
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
@@ -296,7 +296,7 @@ def bachelier_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12
     obj_func_tol = 1e-5
     x0 = vol_n_guess
     bounds = VOL_N_BOUNDS
@@ -319,8 +319,8 @@ def bachelier_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # Only accept the result if the price is matched
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
-- 
2.43.0


From 7395bb6d7f237ac23db1d99e4e566eeb9885752c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 37/98] fix: volatility conversions preserve the option price

---
 frm/pricing_engine/black76_bachelier.py | 81 +++----------------------
 1 file changed, 9 insertions(+), 72 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 8966125..53a0609 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -391,7 +391,8 @@ def black76_sln_to_normal_vol(
     else:
         # If needed, faster method detailed in: Le Floc'h, Fabien, Fast and Accurate Analytic Basis Point Volatility (April 10, 2016).
         # This solve is invariant to the call/put perspective and the risk-free rate / annuity factor.
-        cp = 1
+        # The out-of-the-money option is best conditioned.
+        cp = 1 if K >= F else -1
         black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]
         vol_n_guess = np.atleast_1d(black76_sln_to_normal_vol_analytical(F=F, tau=tau, K=K, vol_sln=vol_sln, ln_shift=ln_shift))
         res = bachelier_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, X=black76_px, vol_n_guess=vol_n_guess.item())
@@ -407,41 +408,10 @@ def shift_black76_vol(
         to_ln_shift: [float, np.float64]
     ):
 
-    # The solve is invariant to the call/put perspective, risk-free rate/annuity factor.
-    cp = 1
-
+    # The solve is invariant to the call/put perspective, risk-free rate/annuity factor. The out-of-the-money option is best conditioned.
+    cp = 1 if K >= F else -1
     black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=from_ln_shift)['price'][0]
-
-    def obj_func_relative_px_error(vol_new_ln_shift):
-        # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
-        # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
-        return ((black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_new_ln_shift, ln_shift=to_ln_shift)['price'][0] - black76_px) / black76_px)**2
-
-    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
-    # Hence set obj function tol 'ftol' to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    # We set gtol to zero, so that the optimisation is terminated based on ftol.
-    obj_func_tol = 1e-5 ** 2  # 0.001%^2
-    options = {'ftol': obj_func_tol, 'gtol': 0}
-    res = minimize(fun=obj_func_relative_px_error,
-                   x0=np.atleast_1d(vol_sln * (F / (F + (to_ln_shift - from_ln_shift)))),
-                   bounds=[VOL_SLN_BOUNDS],
-                   method='L-BFGS-B',
-                   options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
-        return res.x[0]
-    else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when the solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_new_ln_shift = res.x[0]
-        black76_px_shifted = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_new_ln_shift, ln_shift=to_ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_sln, 'ln_shift': from_ln_shift})
-        print({'black76_px': black76_px, 'black76_px_shifted': black76_px_shifted, 'vol_new_ln_shift': vol_new_ln_shift,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to shift Black76 volatility did not converge.')
+    return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=to_ln_shift, X=black76_px)
 
 
 def normal_vol_atm_to_black76_sln_atm(
@@ -462,42 +432,9 @@ def normal_vol_to_black76_sln(
     ) -> float:
     # If the forward and strike are equal, we use an analytical solution from equating the Black76 & Bachelier formulae
     if abs(F - K) < 1e-10:
-        normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
+        return normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
 
-    # The solve is invariant to the risk-free rate or the call/put perspective.
-    cp = 1
+    # The solve is invariant to the risk-free rate or the call/put perspective. The out-of-the-money option is best conditioned.
+    cp = 1 if K >= F else -1
     bachelier_px = bachelier_price(F=F, tau=tau, K=K, cp=cp, vol_n=vol_n)['price'][0]
-
-    def obj_func_relative_px_error(vol_sln):
-        # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
-        # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
-        return ((bachelier_px - black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]) / bachelier_px)**2
-
-    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
-    # Hence set obj function tol 'ftol' to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    # We set gtol to zero, so that the optimisation is terminated based on ftol.
-    obj_func_tol = 1e-5 ** 2  # 0.001%^2
-    options = {'ftol': obj_func_tol, 'gtol': 0}
-    res = minimize(fun=obj_func_relative_px_error,
-                   x0=np.atleast_1d(vol_n / (F + ln_shift)),
-                   bounds=[VOL_SLN_BOUNDS],
-                   method='L-BFGS-B',
-                   options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
-        return res.x[0]
-    else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_sln = res.x[0]
-        black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_n, 'ln_shift': ln_shift})
-        print({'bachelier_px': bachelier_px, 'black76_px': black76_px, 'vol_sln': vol_sln,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to convert normal volatility to log-normal volatility did not converge.')
-
-
-
+    return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=ln_shift, X=bachelier_px)
-- 
2.43.0


From 9dc07b57f9158e2e516dec3e69890a94ebee991f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 38/98] fix: Garman-Kohlhagen analytical theta and rho

---
 frm/pricing_engine/garman_kohlhagen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 0ad0f8e..82cdb9b 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -121,9 +121,9 @@ def garman_kohlhagen_price(
         results['analytical_greeks']['vega'] = analytical_formula * 0.01 # normalised to 1% change
 
         # Per market convention, theta is normalised to the price decay for 1 calendar day.
-        analytical_formula = -(S0*np.exp(-r*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
-            + q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
-            - r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
+        analytical_formula = -(S0*np.exp(-q*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
+            + cp * q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
+            - cp * r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
         results['analytical_greeks']['theta'] = analytical_formula * 1/365.25 # normalised to 1 calendar day
 
         # In practice, gamma is  normalised to measure the change in Δ, for a 1% change in the underlying assets price.
@@ -133,7 +133,7 @@ def garman_kohlhagen_price(
 
         # In practice, Rho is normalised to measure the change in price for a 1% change in the underlying interest rate.
         # Hence, we have multiplied the analytical formula result by 0.01 (i.e. 1%)
-        analytical_formula = K * tau * np.exp(-q * tau) * norm.cdf(cp * d2)
+        analytical_formula = cp * K * tau * np.exp(-r * tau) * norm.cdf(cp * d2)
         results['analytical_greeks']['rho'] = analytical_formula * 0.01
 
 
-- 
2.43.0


From 89745f56818eca38aa10a7a77302d82e54913484 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 39/98] fix: Garman-Kohlhagen numerical greeks are returned

---
 frm/pricing_engine/garman_kohlhagen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 82cdb9b..3ef3e43 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -138,7 +138,7 @@ def garman_kohlhagen_price(
 
 
     if numerical_greeks:
-        numerical_greeks = pd.DataFrame()
+        results['numerical_greeks'] = pd.DataFrame()
 
         Δ_shift = 1 / 100  # 1% shift
         σ_shift = 1 / 100  # 1% shift
@@ -161,7 +161,7 @@ def garman_kohlhagen_price(
         # and S0 is the fx spot price (whose units is DOM/FOR)
         # To get the Δ % applicable to the foreign currency notional multiply the below by S0.
         results['numerical_greeks']['spot_delta'] = (X_S_plus - X_S_minus) / (2 * S0 * Δ_shift)
-        results['numerical_greeks']['forward_delta'] = numerical_greeks['spot_delta'] / np.exp(-r_f * tau)
+        results['numerical_greeks']['forward_delta'] = results['numerical_greeks']['spot_delta'] / np.exp(-r_f * tau)
 
         # Vega, ν, is the change in an options price for a small change in the volatility input
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
-- 
2.43.0


From e3243577b53dfc6892c870d862b724e7e71fa5ac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 40/98] fix: Garman-Kohlhagen numerical rho shifts only the
 domestic interest rate

---
 frm/pricing_engine/garman_kohlhagen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 3ef3e43..ef38f82 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -186,9 +186,11 @@ def garman_kohlhagen_price(
         results['numerical_greeks']['gamma'] = (analytical_greeks_S0_plus['spot_delta'] - analytical_greeks_S0_minus['spot_delta']) / (2 * (Δ_shift / 0.01))
 
         # Rho, ρ, is the rate at which the price of an option changes relative to a change in the interest rate.
-        # This formulae will yield meaningfully different results on whether the forward rate is an input (or if it is calculated from the interest rate differential)
-        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        # The domestic interest rate is shifted, consistent with the analytical rho. If the forward rate is an input, it moves with the domestic interest rate.
+        if F is not None:
+            F_upshift, F_downshift = F * np.exp(ρ_shift * tau), F * np.exp(-ρ_shift * tau)
+        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d+ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ, F=F_upshift)['price']
+        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d-ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ, F=F_downshift)['price']
         results['numerical_greeks']['rho'] = (X_ρ_plus - X_ρ_minus) / 2
 
     return results
-- 
2.43.0


From 2c25f80c980694ba32e5415bbe2b19553ab1dbf8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 41/98] fix: premium adjusted strikes of at-the-money puts and
 of market forward rates

---
 frm/pricing_engine/garman_kohlhagen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index ef38f82..dd6170d 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -289,7 +289,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                        
         if np.any(mask_not_atm):
             for i in range(len(Δ)):
-                if Δ[i] != 0.5:
+                if mask_not_atm[i]:
                     # For premium adjusted quotes the strike must be solved numerically. Refer to [1] for full details.
 
                     def solve_delta(K_):
@@ -316,7 +316,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                         # To avoid this, we solve a lower bound, 'K_min' to guarantee we get the correct solution in the numerical solver.
                         # The lower bound is the 'maximum' Δ, hence we numerically solve the maximum Δ
                         def solve_k_lower_bound(K): # TODO test and remove cp, F
-                            d1 = (np.log(S0 / K) + (r_d - r_f + 0.5 * σ[i]**2) * tau) / (σ[i] * np.sqrt(tau))
+                            d1 = (np.log(F / K) + 0.5 * σ[i]**2 * tau) / (σ[i] * np.sqrt(tau))
                             d2 = d1 - σ[i] * np.sqrt(tau)
                             return σ[i] * np.sqrt(tau) * norm.cdf(d2) - norm.pdf(d2)
                         
-- 
2.43.0


From dbb78f1635c2568ad109b08c5ff00f3d1d5f58bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 42/98] fix: Garman-Kohlhagen prices of several strikes at a
 single time to expiry

---
 frm/pricing_engine/garman_kohlhagen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index dd6170d..fbf2c5e 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -80,7 +80,8 @@ def garman_kohlhagen_price(
     assert np.all(np.isin(cp, [1, -1])), cp
     assert cp.shape == σ.shape
     assert cp.shape == K.shape
-    
+    S0, tau, r_d, r_f, cp, K, σ = map(np.array, np.broadcast_arrays(S0, tau, r_d, r_f, cp, K, σ))
+
     if F is not None: 
         # Use market forward rate and imply the currency basis-adjusted domestic interest rate
         F = np.atleast_1d(F).astype(float)
-- 
2.43.0


From e3953351bdbecedb36b0b75ab7afbf509b17b27e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 43/98] fix: forward volatility between equal times is NaN

---
 frm/pricing_engine/volatility_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 1c91c05..28a2c72 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -35,6 +35,8 @@ def forward_volatility(t1: float | np.ndarray,
     - Negative values under the square root indicate inconsistent input volatilities and will raise an error.
     """
 
+    t1, vol_t1, t2, vol_t2 = map(np.asarray, (t1, vol_t1, t2, vol_t2))
+
     tau = t2 - t1
     if np.any(tau == 0):
         mask = tau == 0
@@ -42,7 +44,7 @@ def forward_volatility(t1: float | np.ndarray,
     elif np.any(tau < 0):
         raise ValueError("t2 is less than t1.")
 
-    var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / tau
+    var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / np.where(tau == 0, np.nan, tau)
     if np.any(var_t1_t2 < 0):
         raise ValueError("Negative value encountered under square root.")
 
-- 
2.43.0


From 51ab16d064874be4072247dc2f29f7ed768f2a83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 44/98] fix: flat forward volatility interpolation uses the
 boundaries outside the range

---
 frm/pricing_engine/volatility_generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 28a2c72..e662781 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -73,6 +73,9 @@ def flat_forward_interp(t1: float | np.ndarray,
     - If t is outside the range [t1, t2], the function will not compute interpolation and will use the input boundaries.
     - Assumes a flat forward interpolation model, where volatilities are averaged in a time-weighted manner.
     """
+    t1, vol_t1, t2, vol_t2 = map(np.atleast_1d, (t1, vol_t1, t2, vol_t2))
+    t = np.clip(t, t1, t2)
+
     vol_t12 = np.zeros_like(vol_t1)
     mask = (t1 != t2).flatten()
     vol_t12[mask] = forward_volatility(t1[mask], vol_t1[mask], t2[mask], vol_t2[mask])
-- 
2.43.0


From f8fc367e21ccef490088b9c6eab62ce8c29f324d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 45/98] fix: forward volatility refuses t2 before t1 also when
 another row has equal times

---
 frm/pricing_engine/volatility_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index e662781..9d75272 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -41,7 +41,7 @@ def forward_volatility(t1: float | np.ndarray,
     if np.any(tau == 0):
         mask = tau == 0
         warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1[mask]}, t2 {t2[mask]}")
-    elif np.any(tau < 0):
+    if np.any(tau < 0):
         raise ValueError("t2 is less than t1.")
 
     var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / np.where(tau == 0, np.nan, tau)
-- 
2.43.0


From 6f490ad9a2ebfdda33dd78b3a55766899293b4c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 46/98] fix: antithetic random numbers for an odd number of
 simulations

---
 frm/pricing_engine/monte_carlo_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 004003c..97bfa84 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -56,7 +56,9 @@ def generate_rand_nbs(nb_steps: int,
         rand_nbs = np.concatenate([rand_nbs_normal, rand_nbs_antithetic_variate], axis=2)
 
         # Reindex to pair normal with antithetic variates
-        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_pairs)).flatten()
+        nb_normal = nb_simulations - nb_pairs
+        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_normal)).flatten()
+        idx = np.concatenate([idx, np.arange(nb_pairs, nb_normal)]) # The unpaired simulation, if nb_simulations is odd
         rand_nbs = rand_nbs[:, :, idx]
     else:    
         rand_nbs = np.random.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
-- 
2.43.0


From 01970f8523889af2ca97c9170f93c0a2338cf68b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 47/98] fix: normal_corr gives variates with the requested
 correlation matrix

---
 frm/pricing_engine/monte_carlo_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 97bfa84..c962088 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -79,7 +79,7 @@ def normal_corr(C: np.array,
     np.ndarray: Correlated pseudo random normal variates.
     """    
     
-    M = np.linalg.cholesky(C).T
+    M = np.linalg.cholesky(C)
     return (M @ rand_nbs.T).T
 
 
-- 
2.43.0


From d056a903e5424ed4ae8fd6307353dd6c4f9d1645 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 48/98] fix: GBM paths of several underlyings use the
 parameters of each underlying

---
 frm/pricing_engine/geometric_brownian_motion.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/frm/pricing_engine/geometric_brownian_motion.py b/frm/pricing_engine/geometric_brownian_motion.py
index 4676e87..c7235eb 100644
--- a/frm/pricing_engine/geometric_brownian_motion.py
+++ b/frm/pricing_engine/geometric_brownian_motion.py
@@ -45,8 +45,8 @@ def simulate_gbm_path(initial_px: np.array,
     assert timestep_length.ndim == 1
 
     # Reshape inputs to 2D arrays so to support parallel simulation of multiple underlyings
-    drift = np.atleast_2d(drift)
-    forward_volatility = np.atleast_2d(forward_volatility)
+    drift = np.asarray(drift)
+    forward_volatility = np.asarray(forward_volatility)
     initial_px = np.atleast_2d(initial_px)
 
     # if drift.ndim == 1:
@@ -56,9 +56,9 @@ def simulate_gbm_path(initial_px: np.array,
     # if initial_px.ndim == 1:
     #     initial_px = initial_px.reshape(1, -1)
 
-    if drift.shape[0] == 1:
+    if drift.ndim < 2:
         drift = drift.reshape(-1, 1)
-    if forward_volatility.shape[0] == 1:
+    if forward_volatility.ndim < 2:
         forward_volatility = forward_volatility.reshape(-1, 1)
     if initial_px.shape[0] == 1:
         initial_px = initial_px.reshape(1, -1)
@@ -77,12 +77,14 @@ def simulate_gbm_path(initial_px: np.array,
 
     # Initialise shape and set initial value of underlying(s)
     x = np.zeros((rand_nbs.shape[0]+1, rand_nbs.shape[1], rand_nbs.shape[2]))
-    x[0, :, :] = initial_px
+    x[0, :, :] = initial_px[0, :, np.newaxis]
 
     # Simulate per geometric brownian motion process
     for i in range(0, nb_timesteps):
-        x[i+1, :, :] = x[i, :, :] * np.exp((drift[i, :] - 0.5 * (forward_volatility[i, :] ** 2)) *
-                                           timestep_length[i] + forward_volatility[i, :] * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
+        drift_i = drift[i, :, np.newaxis]
+        vol_i = forward_volatility[i, :, np.newaxis]
+        x[i+1, :, :] = x[i, :, :] * np.exp((drift_i - 0.5 * (vol_i ** 2)) *
+                                           timestep_length[i] + vol_i * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
 
     return x
 
-- 
2.43.0


From 357b8ae7faab14c8a2ef22b6cd2c98776ed231a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 49/98] fix: default business day calendar of the cash rate
 quotes

---
 frm/term_structures/bootstrap_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 6dc12fd..2c349a2 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -14,7 +14,7 @@ def cash_rates_quote_helper(
         day_count_basis: DayCountBasis,
         settlement_delay: Optional[int]=None,
         settlement_date: Optional[pd.Timestamp]=None,
-        cal: np.busdaycalendar=np.busdaycalendar):
+        cal: np.busdaycalendar=np.busdaycalendar()):
 
     assert 'rate' in df.columns
     assert 'tenor' in df.columns or ('effective_date' in df.columns and 'maturity_date' in df.columns)
-- 
2.43.0


From a60dc16478f765125e1ce3bf22b61ca2e0a6bf86 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 50/98] fix: cash rates with given dates, or settling on the
 curve date, are bootstrapped

---
 frm/term_structures/bootstrap_helpers.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 2c349a2..75a2f87 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -19,13 +19,14 @@ def cash_rates_quote_helper(
     assert 'rate' in df.columns
     assert 'tenor' in df.columns or ('effective_date' in df.columns and 'maturity_date' in df.columns)
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
-
-    if settlement_date is None:
-        assert settlement_delay is not None
-        settlement_date = workday(dates=curve_date, offset=settlement_delay, cal=cal)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(clean_tenor)
 
     if 'effective_date' not in df.columns:
+        if settlement_date is None:
+            assert settlement_delay is not None
+            settlement_date = workday(dates=curve_date, offset=settlement_delay, cal=cal)
+
         df['has_settlement_delay'] = df['tenor'] != 'on'
         df.loc[~df['has_settlement_delay'],'effective_date'] = curve_date
         df.loc[df['has_settlement_delay'],'effective_date'] = settlement_date
@@ -50,7 +51,7 @@ def bootstrap_cash_rates(
 
     df.sort_values(by='maturity_date', inplace=True)
     for i, row in df.iterrows():
-        if not row['has_settlement_delay']:
+        if row['effective_date'] == curve_date:
             df.at[i, 'effective_date_discount_factor'] = 1.0
             df.at[i, 'maturity_date_discount_factor'] = 1.0 / (1 + row['rate'] * row['period_years'])
         else:
-- 
2.43.0


From 3216cb185582c1fe01ed7f480ee905b3ef35ba03 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 51/98] fix: futures quoted by rate are bootstrapped without a
 price

---
 frm/term_structures/bootstrap_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 75a2f87..c49d5f4 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -82,7 +82,7 @@ def bootstrap_futures(
     if 'futures_rate' not in df.columns:
         df['futures_rate'] = (100 - df['price']) / 100
     if 'convexity_bps' not in df.columns:
-        df.insert(df.columns.get_loc('price') + 1, 'convexity_bps', 0)
+        df.insert(df.columns.get_loc('price' if 'price' in df.columns else 'futures_rate') + 1, 'convexity_bps', 0)
     if 'forward_rate' not in df.columns:
         df['forward_rate'] = df['futures_rate'] - df['convexity_bps'] / 10000
 
-- 
2.43.0


From fc02428c04c81f5c8d9f731c2018984063e010ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 52/98] fix: year codes of 90-day bank bill futures tickers

---
 frm/term_structures/bootstrap_helpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index c49d5f4..be990f8 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -129,11 +129,10 @@ def futures_helper_asx_90day(
             assert futures_month_code.isin(['H', 'M', 'U', 'Z']).all() # 'H', 'M', 'U', 'Z' for Mar, Jun, Sep, Dec
             df['months'] = futures_month_code.map({'H': 3, 'M': 6, 'U': 9, 'Z': 12})
 
-            assert df['ticker'].str.len().isin([1, 2, 4]).all()
-            futures_year_code = df['ticker'].str[3:].astype(int)  # 1-4-digit year code
+            futures_year_code = df['ticker'].str[3:]  # 1, 2 or 4-digit year code
+            assert futures_year_code.str.len().isin([1, 2, 4]).all()
 
-            def resolve_year(year_code):
-                year_code_str = str(year_code)
+            def resolve_year(year_code_str):
                 if len(year_code_str) == 1:
                     # Map single-digit year codes to 2020-2029
                     # TODO: does not support cases where the futures schedule spans multiple decades. i.e from 2028-2031.
-- 
2.43.0


From a2f3f3431b3d6ba48b3de5cd56550db0ea257165 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 53/98] fix: 90-day bank bill futures dates of contracts in any
 row order

---
 frm/term_structures/bootstrap_helpers.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index be990f8..7a56a97 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -156,18 +156,16 @@ def futures_helper_asx_90day(
 
 
     expiry_dates, settlement_dates = [], []
-    for years in range(df['years'].min(), df['years'].max()+1):
-        for months in [3, 6, 9, 12]:
-            if ((df['years'] == years) & (df['months'] == months)).any():
-                # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
-                # Start from the 1st of the month and get all Fridays in the month
-                month_start = pd.Timestamp(year=years, month=months, day=1)
-                fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
-                settlement_date = fridays[1] # Get the second Friday
-                settlement_dates.append(settlement_date)
-
-                # Expiry date is the business day before settlement date
-                expiry_dates.append(settlement_date - pd.offsets.BDay(1))
+    for years, months in zip(df['years'], df['months']):
+        # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
+        # Start from the 1st of the month and get all Fridays in the month
+        month_start = pd.Timestamp(year=years, month=months, day=1)
+        fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
+        settlement_date = fridays[1] # Get the second Friday
+        settlement_dates.append(settlement_date)
+
+        # Expiry date is the business day before settlement date
+        expiry_dates.append(settlement_date - pd.offsets.BDay(1))
 
     df['expiry_date'] = expiry_dates
     df['settlement_date'] = settlement_dates
-- 
2.43.0


From 9c8a2e5aa16844a3e5d93b2152c9be181c2189ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 54/98] fix: FX forward and volatility quotes of the caller are
 left unchanged

---
 frm/term_structures/fx_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 9ddcab9..3a209c3 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,6 +21,7 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
+    df = df.copy()
     if 'tenor' in df.columns:
         df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
 
@@ -141,6 +142,7 @@ def clean_vol_quotes_column_names(vol_quotes_df):
         r'^(a|at)[_ ]?(t|the)[_ ]?(m|money)[_ ]?(f|fwd|forward)$': lambda _: 'atm_forward'
     }
 
+    vol_quotes_df = vol_quotes_df.copy()
     for col_name in vol_quotes_df.columns:
         for pattern, func in patterns.items():
             match = re.match(pattern, col_name)
-- 
2.43.0


From 8617498c60a729c30ef30737d008b6644125b9f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 55/98] fix: market delta convention of EURUSD

---
 frm/term_structures/fx_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 3a209c3..833b151 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -106,7 +106,7 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
-    bool_cond = np.logical_and(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd'],
+    bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
@@ -116,7 +116,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
     conditions_for_premium_adjusted_delta_convention = [
-        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
+        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
         np.full(len(df), 'usd' in ccy_pair),
         df['delta_convention'].str.contains('regular').values]
     bool_cond = np.logical_and.reduce(conditions_for_premium_adjusted_delta_convention)
-- 
2.43.0


From 992aa97e6bd2a6cb0377c2107a939bb99472d524 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 56/98] fix: delta convention check of volatility quotes
 without a tenor column

---
 frm/term_structures/fx_helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 833b151..553ae2e 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -106,12 +106,14 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
+    term_column = next(column for column in ['tenor', 'expiry_date', 'delivery_date'] if column in df.columns)
+
     bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
         warnings.warn('The delta_convention is premium_adjusted for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, term_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the regular delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
@@ -124,7 +126,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
     if bool_cond.any():
         warnings.warn('The delta_convention is regular for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, term_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the premium adjusted delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
-- 
2.43.0


From 552b21b3a69c8de1e5d3e2818baebe3c0013fd2e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 57/98] fix: Heston price by the Lewis-Lipton formula uses the
 integration variable

---
 frm/pricing_engine/heston.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 0f8580c..588b402 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -700,8 +700,8 @@ def heston_lipton_vanilla_european_integral(v, S0, tau, r, q, K, var0, vv, kappa
     zeta_term = v**2 * vv**2 * (1 - rho**2) + 2j * v * vv * rho * kappa_hat + kappa_hat**2 + vv**2 / 4
     zeta = np.sqrt(zeta_term)
 
-    psi_plus = - (1j * kappa * rho * vv + kappa_hat) + zeta
-    psi_minus = (1j * kappa * rho * vv + kappa_hat) + zeta
+    psi_plus = - (1j * v * rho * vv + kappa_hat) + zeta
+    psi_minus = (1j * v * rho * vv + kappa_hat) + zeta
 
     numerator = psi_minus + psi_plus * np.exp(-zeta * tau)
     denominator = 2 * zeta
-- 
2.43.0


From a1ec4f3a2244ebb6e78c665062a170af2843be6f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 58/98] fix: Heston cosine prices of calls only or puts only
 without put-call parity

---
 frm/pricing_engine/heston.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 588b402..ac35e11 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -645,8 +645,10 @@ def heston_cosine_price_vanilla_european(S0, tau, r, q, cp, K, var0, vv, kappa,
         if (cp == -1).any():
             put_px = K * np.multiply(Fk, Uk_put).sum(axis=0) * np.exp(-r * tau)
 
-    result[cp == 1] = call_px[cp == 1]
-    result[cp == -1] = put_px[cp == -1]
+    if (cp == 1).any():
+        result[cp == 1] = call_px[cp == 1]
+    if (cp == -1).any():
+        result[cp == -1] = put_px[cp == -1]
 
     return result
 
-- 
2.43.0


From 77bb431c6b968573246b8d4b9c26ed9593497b8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 59/98] fix: second cumulant of the Heston model in the
 truncation range of the cosine method

---
 frm/pricing_engine/cosine_method_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/cosine_method_generic.py b/frm/pricing_engine/cosine_method_generic.py
index 966d1ea..1727d45 100644
--- a/frm/pricing_engine/cosine_method_generic.py
+++ b/frm/pricing_engine/cosine_method_generic.py
@@ -124,7 +124,7 @@ def get_cos_truncation_range(model, L, model_param):
             (η * tau * λ * np.exp(-λ * tau) * (u0 - u_bar) * (8 * λ * rho - 4 * η))
             + λ * rho * η * (1 - np.exp(-λ * tau)) * (16 * u_bar - 8 * u0)
             + 2 * u_bar * λ * tau * (-4 * λ * rho * η + η**2 + 4 * λ**2)
-            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (6 * np.exp(-λ * tau) - 7) + 2 * u0)
+            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (4 * np.exp(-λ * tau) - 5) + 2 * u0) # [1] has 6 and 7, which do not vanish as tau -> 0
             + 8 * λ**2 * (u0 - u_bar) * (1 - np.exp(-λ * tau))
         )
                 
-- 
2.43.0


From 454069442a514bc3c922cfae781c56b0895b1285 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 60/98] fix: cosine method refuses laws when the point asked
 for is off the step grid

---
 frm/pricing_engine/cosine_method_generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/cosine_method_generic.py b/frm/pricing_engine/cosine_method_generic.py
index 1727d45..cee0178 100644
--- a/frm/pricing_engine/cosine_method_generic.py
+++ b/frm/pricing_engine/cosine_method_generic.py
@@ -4,6 +4,7 @@ if __name__ == "__main__":
     os.chdir(os.environ.get('PROJECT_DIR_FRM')) 
 
 import numpy as np
+from scipy.integrate import cumulative_trapezoid
 from scipy.stats import norm
 
 def cos_method(p, cf, dt, a, b, N=160):
@@ -51,7 +52,6 @@ def cos_method(p, cf, dt, a, b, N=160):
     assert p <= b
     
     pts = np.sort(np.unique(np.concatenate(([p], np.arange(a, b + dt, dt))))) # Array from [a, a+dt, a+2*dt, ..., b]
-    dt_pts = np.append(np.diff(pts), dt)
     k = np.arange(N + 1) # Array from [0, 1, 2, ... N, N+1]
 
     w = np.append(0.5, np.ones(N))
@@ -63,11 +63,11 @@ def cos_method(p, cf, dt, a, b, N=160):
 
     PDF_pts = np.array([np.sum(w * (Fk * C(x))) for x in pts]) # Equation 11 in [1]
 
-    integral_of_a_to_b = np.sum(PDF_pts * dt_pts)
+    CDF_pts = cumulative_trapezoid(PDF_pts, pts, initial=0)
+    integral_of_a_to_b = CDF_pts[-1]
     if integral_of_a_to_b < norm.cdf(5):
         raise ValueError('The integral of the PDF over [a,b] is not close enough to 1. Please increase the range of [a,b]')
     
-    CDF_pts = np.cumsum(PDF_pts * dt_pts)
     CDF_p = CDF_pts[np.where(pts == p)[0][0]]
 
     return CDF_p, CDF_pts, PDF_pts, integral_of_a_to_b, pts
-- 
2.43.0


From 6a329df9e8e05081356bf11c45ff358c777e9b4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 61/98] fix: default shift of the SABR fit

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index f084f74..3fd219e 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -190,7 +190,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
                                  F: float,
                                  K: NDArray[float],
                                  vols_sln: NDArray[float],
-                                 ln_shift: float=None,
+                                 ln_shift: float=0.0,
                                  beta_overide: Optional[float]=None)-> tuple:
     """
     Calibrates SABR parameters to a volatility smile of European option prices using the Hagan 2002 (lognormal) SABR model and the Black76 formula.
-- 
2.43.0


From 5e3437e378443f5399a0457625d93a1f171aea30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 62/98] fix: bounds of beta and rho in the SABR fit

---
 frm/pricing_engine/sabr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 3fd219e..a6c3d22 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -242,10 +242,10 @@ def fit_sabr_params_to_sln_smile(tau: float,
 
     # params = (beta), rho, volvol
     # beta has a valid range of 0≤β≤1
-    # rho has a valid range of -1≤ρ≤1
+    # rho has a valid range of -1≤ρ≤1, the volatility formula is singular at its ends
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0), (0.0001, None)]
+    bounds = [(-0.9999, 0.9999), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-0.9999, 0.9999), (0.0001, None)]
     res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds)
 
     if res.success:
-- 
2.43.0


From 5f864e19980bb2750071fce136d34469c9caeb63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 63/98] fix: SABR fit when the search tries parameters without
 a level

---
 frm/pricing_engine/sabr.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index a6c3d22..941e806 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -180,6 +180,9 @@ def solve_alpha_from_sln_vol(
     roots = np.roots(cubic_polynomial)
     roots_real = np.extract(np.isreal(roots), np.real(roots))
 
+    if roots_real.size == 0:
+        raise ValueError('No alpha reproduces the ATM volatility for these SABR parameters.')
+
     # Note: the double real roots case is not tested
     alpha_first_guess = vol_sln_atm * F**(1-β)
     i_min = np.argmin(np.abs(roots_real - alpha_first_guess))
@@ -229,9 +232,13 @@ def fit_sabr_params_to_sln_smile(tau: float,
             rho_, volvol_ = param
             beta_ = beta_overide
 
-        alpha_ = solve_alpha_from_sln_vol(tau=tau, F=F, beta=beta_, rho=rho_, volvol=volvol_, vol_sln_atm=vol_sln_atm, ln_shift=ln_shift)
+        try:
+            alpha_ = solve_alpha_from_sln_vol(tau=tau, F=F, beta=beta_, rho=rho_, volvol=volvol_, vol_sln_atm=vol_sln_atm, ln_shift=ln_shift)
+        except ValueError:
+            return sse_no_fit # The line search tried parameters that cannot reproduce the ATM volatility
         sabr_vols = calc_sln_vol_for_strike_from_sabr_params(tau=tau, F=F, alpha=alpha_, beta=beta_, rho=rho_, volvol=volvol_ ,K=K, ln_shift=ln_shift)
-        return sum((vols_sln - sabr_vols) ** 2)
+        sse = sum((vols_sln - sabr_vols) ** 2)
+        return sse if np.isfinite(sse) else sse_no_fit
 
     # ATM volatility check
     vol_sln_atm = vols_sln[np.isclose(K, F)]
@@ -240,6 +247,8 @@ def fit_sabr_params_to_sln_smile(tau: float,
     vol_sln_atm = np.atleast_1d(vol_sln_atm).item()
 
 
+    sse_no_fit = 100 * sum(vols_sln ** 2)
+
     # params = (beta), rho, volvol
     # beta has a valid range of 0≤β≤1
     # rho has a valid range of -1≤ρ≤1, the volatility formula is singular at its ends
-- 
2.43.0


From 2b8e743bf819780913f608acbd61a3a96dd17590 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 64/98] fix: Hull-White thetas of a curve which is not flat

---
 frm/pricing_engine/hw1f.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index cd606b5..6f9bea3 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -135,14 +135,9 @@ class HullWhite1Factor:
         f_t_minus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years-self.dt)
         df_dt = (f_t_plus_dt - f_t_minus_dt) / (2 * self.dt)
 
-        if True:
-            f_t = np.full_like(years, self.r0)
-            return α * f_t + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
-        else:
-
-            return df_dt \
-                   + α * f_t \
-                   + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+        return df_dt \
+               + α * f_t \
+               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
 
 
     def get_forward_rate_by_integration(self,t, T):
-- 
2.43.0


From e667a617acfdca47c51997a09bcf4565d34d479b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 65/98] fix: Hull-White optionlets and swaptions call the bond
 option by its argument names

---
 frm/pricing_engine/hw1f.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 6f9bea3..caced2e 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -402,8 +402,8 @@ class HullWhite1Factor:
 
         # (2.26) in [1]
         K_ = 1 / (1 + K * (termination_years - effective_years)) # Strike for the zero-coupon bond option
-        px = self.price_zero_coupon_bond_option(expiry_years=effective_years,
-                                                maturity_years=termination_years,
+        px = self.price_zero_coupon_bond_option(option_expiry=effective_years,
+                                                bond_maturity=termination_years,
                                                 K=K_,
                                                 cp=cp_) / K_
         return px
@@ -702,8 +702,8 @@ class HullWhite1Factor:
         # Price the bond options for coupon payments
         coupon_option_values = np.array([
             self.price_zero_coupon_bond_option(
-                expiry_years=swaption_expiry,
-                maturity_years=payment_time,
+                option_expiry=swaption_expiry,
+                bond_maturity=payment_time,
                 K=strike,
                 cp=cp
             ) for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
@@ -711,8 +711,8 @@ class HullWhite1Factor:
 
         # Price the bond option for notional payment
         notional_option_value = self.price_zero_coupon_bond_option(
-            expiry_years=swaption_expiry,
-            maturity_years=notional_payment_time,
+            option_expiry=swaption_expiry,
+            bond_maturity=notional_payment_time,
             K=notional_strike,
             cp=cp
         )
-- 
2.43.0


From 9552cb2b27af6277bb6470a5e92f55b27e971e9a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 66/98] fix: Hull-White bond options of several strikes or
 types for one expiry and maturity

---
 frm/pricing_engine/hw1f.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index caced2e..4f73b74 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -338,6 +338,7 @@ class HullWhite1Factor:
 
         max_dim = np.maximum.reduce([x.size for x in [T, S, K, cp]])
         assert all((x.size == 1) or (x.size == max_dim) for x in [T, S, K, cp]), "Arrays must be of size 1 or match maximum dimension"
+        T, S, K, cp = np.broadcast_arrays(T, S, K, cp)
 
         if not np.all(S > T):
             warnings.warn("Bond maturities should be after the bond option expiries")
@@ -363,7 +364,7 @@ class HullWhite1Factor:
             price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[bond_maturity < option_expiry] = 0.0
+        price[S < T] = 0.0
 
         return price
 
-- 
2.43.0


From 5f8423c77fb0170c8094c70912d5fca978e1ca90 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 67/98] fix: Hull-White bond option without variance is
 discounted

---
 frm/pricing_engine/hw1f.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 4f73b74..82d8c32 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -360,8 +360,7 @@ class HullWhite1Factor:
 
         # Handle zero variance case (set to intrinsic value)
         if np.any(zero_σ_mask):
-            F = P_t_S / P_t_T # forward bond price
-            price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
+            price[zero_σ_mask] = np.maximum(cp * (P_t_S - K * P_t_T), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
         price[S < T] = 0.0
-- 
2.43.0


From 872cfe77ccee7319fae59765ee7900a4094ffe4d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 68/98] fix: Hull-White swaption drops its last coupon

---
 frm/pricing_engine/hw1f.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 82d8c32..d22797e 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -688,7 +688,8 @@ class HullWhite1Factor:
         )
 
         # Determine strikes and coefficients for each component bond option
-        coupon_strikes = critical_bond_prices[:-1]
+        # The last strike is also that of the last coupon, if the notional is paid with it
+        coupon_strikes = critical_bond_prices[:len(coupon_payment_times)]
         notional_strike = critical_bond_prices[-1]
 
         # For a payer swaption:
-- 
2.43.0


From b5a4ee26ccbd7a12b19ffc33099dd539480aaa99 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 69/98] fix: Hull-White swaption on a swap of one period

---
 frm/pricing_engine/hw1f.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index d22797e..a11e8d7 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -625,7 +625,7 @@ class HullWhite1Factor:
         if not all(x < y for x, y in zip(coupon_payment_times[:-1], coupon_payment_times[1:])):
             raise ValueError("coupon_payment_times must be strictly increasing")
 
-        if notional_payment_time < coupon_payment_times[-2]:
+        if len(coupon_payment_times) > 1 and notional_payment_time < coupon_payment_times[-2]:
             raise ValueError("notional_payment_time must not be earlier than the 2nd to last coupon payment")
 
         # Find critical rate r* (x* in paper) by solving _zero_function(r*) = 0
-- 
2.43.0


From b755304fc5c5c83cb3ee8b71a1e05d880eaff475 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 70/98] fix: Hull-White simulation with an unknown method

---
 frm/pricing_engine/hw1f.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index a11e8d7..eb9f7b4 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -262,6 +262,9 @@ class HullWhite1Factor:
                 # Generate next value
                 R[i + 1, :] = conditional_mean + np.sqrt(conditional_var) * rand_nbs[i, :, :]
 
+        else:
+            raise ValueError(f"Invalid simulation method {method}. Use 'euler', 'rk4' or 'exact'.")
+
         # We integrate R over each simulation path, and calculate the cumulative path discount factor from t=0 to t=t.
         # The integration is optimised by being is vectorised and 'cumulative'.
         # By cumulative, we only calculate a periods integration once, and store it for future uses.
-- 
2.43.0


From a61aa230f3aff59dcb4054286f2c11946296babc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 71/98] fix: Hull-White model without mean reversion

---
 frm/pricing_engine/hw1f.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index eb9f7b4..d0bfb8f 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -137,7 +137,7 @@ class HullWhite1Factor:
 
         return df_dt \
                + α * f_t \
-               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+               + self.calc_variance(years)
 
 
     def get_forward_rate_by_integration(self,t, T):
@@ -257,7 +257,7 @@ class HullWhite1Factor:
                 # conditional_mean = 0.01
 
                 # Conditional variance
-                conditional_var = (σ ** 2 / (2 * α)) * (1 - np.exp(-2 * α * Δt))
+                conditional_var = self.calc_variance(Δt)
 
                 # Generate next value
                 R[i + 1, :] = conditional_mean + np.sqrt(conditional_var) * rand_nbs[i, :, :]
@@ -353,7 +353,7 @@ class HullWhite1Factor:
             raise ValueError('Need to assess if different functionality (i.e. calc_discount_factor_by_solving_ode_1/2) needed for P_t_T and P_t_S when t>0')
 
         # Calculate bond price volatility between T and S
-        σP = σ * np.sqrt((1 - np.exp(-2 * α * (T-t0))) / (2 * α)) * self.calc_b(t1=T, t2=S)
+        σP = np.sqrt(self.calc_variance(T-t0)) * self.calc_b(t1=T, t2=S)
 
         zero_σ_mask = σP <= 0.0
         h = (1/σP) * np.log(P_t_S / (K * P_t_T)) + 0.5 * σP
@@ -435,6 +435,17 @@ class HullWhite1Factor:
             return (1/α) *(1-np.exp(-α*(t2- t1)))
 
 
+    def calc_variance(self, years):
+        """Variance of the short rate over a period (in years), σ^2 times the years as mean_rev_lvl → 0."""
+        α = self.mean_rev_lvl
+        σ = self.vol
+
+        if α < 1e-8:
+            return σ ** 2 * years
+        else:
+            return (σ ** 2 / (2 * α)) * (1 - np.exp(-2 * α * years))
+
+
     def calc_discount_factor_by_solving_ode_1(self, t1, t2, r_t1=None):
         """
         Calculates the discount factor (i.e. the zero coupon bond price), for the ODE:
@@ -511,7 +522,7 @@ class HullWhite1Factor:
 
             return (df_T / df_t) \
                 * np.exp(
-                    B_t_T * f_t - (σ ** 2 / (4 * α)) * (1 - np.exp(-2 * α * t1)) * B_t_T ** 2
+                    B_t_T * f_t - 0.5 * self.calc_variance(t1) * B_t_T ** 2
                 )
 
         assert t2 > t1, 't2 must be greater than t1'
-- 
2.43.0


From fdaddc579def8200663c17655cf2574901abaee1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 72/98] fix: Hull-White short rate of a curve with a pillar at
 the curve date

---
 frm/pricing_engine/hw1f.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index d0bfb8f..69cf329 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -38,11 +38,9 @@ class HullWhite1Factor:
     def __post_init__(self):
         assert self.zero_curve.interp_method in [ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR, ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT]
 
-        # Set to t=0 datapoint if available, otherwise extrapolate cubic spline to t=0.
-        if self.zero_curve.pillar_df['years'].min() == 0:
-            self.r0 = float(self.zero_curve.pillar_df['cczr'].iloc[0])
-        else:
-            self.r0 = float(self.zero_curve.get_zero_rates(years=1e-8, compounding_freq=CompoundingFreq.CONTINUOUS)[0])
+        # The short rate at t=0 is the instantaneous forward rate of the curve. Note the rate of a t=0 pillar isn't, when
+        # the ln discount factors are interpolated, as it has no effect on the discount factors.
+        self.r0 = float(self.zero_curve.get_instantaneous_forward_rate(years=0.0))
 
     def fit_theta(self,
                   dts=(1e-3,1e-4,1e-5,1e-6),
-- 
2.43.0


From 559a656495b0b60e25147d5a58dea600dedd9cb0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 73/98] fix: error of the Hull-White theta fit on a curve with
 a pillar at the curve date

---
 frm/pricing_engine/hw1f.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 69cf329..4f51f4b 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -75,8 +75,10 @@ class HullWhite1Factor:
 
     def calc_error_for_theta_fit(self, print_results=False):
         """Calculate the basis point error between the pillar zero rates and the theta fit."""
-        years_pillars = self.zero_curve.pillar_df['years'].values
-        cczr_pillars = self.zero_curve.pillar_df['cczr'].values
+        # The t=0 pillar has no zero rate to recalculate
+        pillar_df = self.zero_curve.pillar_df[self.zero_curve.pillar_df['years'] > 0]
+        years_pillars = pillar_df['years'].values
+        cczr_pillars = pillar_df['cczr'].values
 
         cczr_recalcs = np.array([-1*np.log(self.calc_discount_factor_by_solving_ode_1(0, yr))/yr for yr in years_pillars])
         diff_bps = 1e4 * (cczr_pillars - cczr_recalcs)
-- 
2.43.0


From b7a078ed48e4255be39735b5db5db772f5fb6019 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 74/98] fix: Hull-White theta fit keeps the grid tried last

---
 frm/pricing_engine/hw1f.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 4f51f4b..e6088e1 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -71,6 +71,7 @@ class HullWhite1Factor:
         dt, num, _ = results[0]
         self.dt = dt
         self.num = num
+        self.setup_theta()
 
 
     def calc_error_for_theta_fit(self, print_results=False):
-- 
2.43.0


From 4a70e1e921c122cb17a34ebe9fe99797256c4096 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 75/98] fix: Hull-White swaption multiplies every coupon with
 every year fraction

---
 frm/pricing_engine/hw1f.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index e6088e1..dc78787 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -716,7 +716,7 @@ class HullWhite1Factor:
         cp = -1 if is_payer else 1
 
         # Price the bond options for coupon payments
-        coupon_option_values = np.array([
+        coupon_option_values = np.concatenate([
             self.price_zero_coupon_bond_option(
                 option_expiry=swaption_expiry,
                 bond_maturity=payment_time,
-- 
2.43.0


From ac99e3396a0d2c18c35eb2f875dd6a99d5b4d420 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 76/98] fix: swap legs cannot be imported

---
 frm/instruments/leg.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e220c1..1e86bd2 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -12,7 +12,6 @@ from frm.term_structures.swap_curve import TermSwapCurve, RFRSwapCurve
 from frm.utils import CouponSchedule, year_frac, MarketDataNotAvailableError
 from frm.enums import CompoundingFreq, TermRate, RFRFixingCalcMethod, DayCountBasis, PayRcv
 from frm.term_structures.zero_curve import ZeroCurve
-from frm.term_structures.zero_curve_helpers import discount_factor_from_zero_rate
 from scipy.optimize import root_scalar
 
 
@@ -393,10 +392,9 @@ class ZerocouponLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['zero_rate'] = coupon_override
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
@@ -408,10 +406,9 @@ class ZerocouponLeg(Leg):
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         return accrued_interest
 
-- 
2.43.0


From 95bfc59181a55040c77946e5b6cd59d746afde17 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 77/98] fix: coupons of a paid leg have the sign of received
 coupons

---
 frm/instruments/leg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e86bd2..07a0602 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -264,7 +264,7 @@ class FixedLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['fixed_rate'] = coupon_override
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -364,7 +364,7 @@ class FloatRFRLeg(Leg):
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
-        accrued_interest = (self.pay_rcv.multiplier * self.schedule.df['notional'][current_period_idxs]
+        accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['coupon_rate'][current_period_idxs]
                             * accrued_period_yearfrac).sum()
         return accrued_interest
@@ -395,7 +395,7 @@ class ZerocouponLeg(Leg):
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
             zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -409,7 +409,7 @@ class ZerocouponLeg(Leg):
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
             zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+        accrued_interest = self.schedule.df['notional'] * multiplier
         return accrued_interest
 
     def _get_solved_field_name(self):
-- 
2.43.0


From 00bae06b45563b2566bdd61e70e46bcabcbb2096 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 78/98] fix: accrued interest of a zero coupon leg is a value
 per period of the schedule

---
 frm/instruments/leg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 07a0602..a3018b5 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -408,8 +408,8 @@ class ZerocouponLeg(Leg):
                                          day_count_basis=self.day_count_basis)
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        accrued_interest = self.schedule.df['notional'] * multiplier
+            zero_rate=self.schedule.df['zero_rate'][current_period_idxs])) - 1.0
+        accrued_interest = (self.schedule.df['notional'][current_period_idxs] * multiplier).sum()
         return accrued_interest
 
     def _get_solved_field_name(self):
-- 
2.43.0


From b30f990f03bfcc917a9182890a444b93f6217936 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 79/98] fix: unsettled cashflows of the accrued interest are
 those of every period

---
 frm/instruments/leg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index a3018b5..bb6a586 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -145,10 +145,10 @@ class Leg(ABC):
             mask = (self.schedule.df['coupon_payment_date'] > frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] <= frm.utils.VALUE_DATE)
         if mask.sum() > 1:
             warnings.warn('Multiple periods found for unsettled cashflow calculation.')
-        unsettled_cashflows = self.schedule.df['coupon_payment'].sum()
+        unsettled_cashflows = self.schedule.df['coupon_payment'][mask].sum()
 
         if frm.utils.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW:
-            if unsettled_cashflows > 0:
+            if unsettled_cashflows != 0:
                 return unsettled_cashflows
             else:
                 return accrued_interest
-- 
2.43.0


From 3e78b65351a4337467f90115b66950830bf05308 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 80/98] fix: accrued interest before the first and after the
 last accrual period

---
 frm/instruments/leg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index bb6a586..5fa3a23 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -272,6 +272,8 @@ class FixedLeg(Leg):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        elif current_period_idxs.sum() == 0:
+            return 0.0 # Nothing accrues before the first period or after the last period
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0],
                                          frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
@@ -318,6 +320,8 @@ class FloatTermLeg(Leg):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        elif current_period_idxs.sum() == 0:
+            return 0.0 # Nothing accrues before the first period or after the last period
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['spread'][current_period_idxs]
@@ -363,6 +367,8 @@ class FloatRFRLeg(Leg):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        elif current_period_idxs.sum() == 0:
+            return 0.0 # Nothing accrues before the first period or after the last period
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['coupon_rate'][current_period_idxs]
@@ -404,6 +410,8 @@ class ZerocouponLeg(Leg):
                     self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        elif current_period_idxs.sum() == 0:
+            return 0.0 # Nothing accrues before the first period or after the last period
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
-- 
2.43.0


From 37ac14e5cbd297a37f0ebcd2e1ec51c897da2dc8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 81/98] fix: non-current value counts notional payments instead
 of coupons

---
 frm/instruments/leg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 5fa3a23..489d0b5 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -208,7 +208,7 @@ class Leg(ABC):
         else:
             current_period_idxs = self.schedule.df['coupon_payment_date'] < value_date_plus_one_year
         current += self.schedule.df['coupon_payment_pv'][current_period_idxs].sum()
-        non_current += self.schedule.df['notional_payment_pv'][~current_period_idxs].sum()
+        non_current += self.schedule.df['coupon_payment_pv'][~current_period_idxs].sum()
 
         return current, non_current
 
-- 
2.43.0


From 2dc653c15450652cd1a042b16a4f947e859b9ff4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 82/98] fix: payments beyond the discount curve are valued at
 nothing

---
 frm/instruments/leg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 489d0b5..a1af1cb 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -184,7 +184,8 @@ class Leg(ABC):
                                                             self.schedule.df['coupon_discount_factor'])
         self.schedule.df['total_payment_pv'] = (self.schedule.df['notional_payment_pv'] +
                                                            self.schedule.df['coupon_payment_pv'])
-        return self.schedule.df['total_payment_pv'].sum()
+        # NaN if any payment due is beyond the discount curve, such payments are not worthless
+        return self.schedule.df['total_payment_pv'].sum(skipna=False)
 
     def calc_clean_pv(self):
         return self.calc_dirty_pv() - self.calc_accrued_interest()
-- 
2.43.0


From 89fe40a16b1d3a4da5eb2d90b8a991a60c4a298a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 83/98] fix: cashflows of the leg are those of the last trial
 value after a solve

---
 frm/instruments/leg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index a1af1cb..1523edf 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -131,6 +131,7 @@ class Leg(ABC):
         finally:
             # Ensure reset, even if the solver fails
             self.schedule.df[solved_fieldname] = field_original_value
+            self.calc_dirty_pv() # as the schedule has the cashflows of the last trial value
 
             return solved_value
 
-- 
2.43.0


From 2ee22888e922aa9cd712a6024dbc6a23b1da91b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 84/98] fix: building a leg changes the schedule of the caller

---
 frm/instruments/leg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1523edf..94065b4 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from abc import ABC, abstractmethod
+import copy
 from dataclasses import dataclass
 import numpy as np
 import os
@@ -46,6 +47,8 @@ class Leg(ABC):
     settlement_ccy: str=None
 
     def __post_init__(self):
+        self.schedule = copy.copy(self.schedule) # the schedule of the caller is not modified
+        self.schedule.df = self.schedule.df.copy()
         self.schedule.df.loc[:,['notional', 'notional_payment']] = self.schedule.df[['notional', 'notional_payment']] * self.pay_rcv.multiplier
         self.schedule.add_period_daycount(day_count_basis=self.day_count_basis)
         self.schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
-- 
2.43.0


From 7298972c428d39dfdb467a883644820e6e0053d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 85/98] fix: target solve of a swap ignores the value of the
 other leg

---
 frm/instruments/swap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/swap.py b/frm/instruments/swap.py
index 9e38984..b9ccf15 100644
--- a/frm/instruments/swap.py
+++ b/frm/instruments/swap.py
@@ -96,9 +96,9 @@ class Swap(ABC):
 
     def target_solve_swap(self, target_pv: float, leg_number: int):
         if leg_number == 1:
-            return self.leg1.target_solve(target_pv)
+            return self.leg1.target_solve(target_pv - self.leg2.calc_dirty_pv())
         elif leg_number == 2:
-            return self.leg2.target_solve(target_pv)
+            return self.leg2.target_solve(target_pv - self.leg1.calc_dirty_pv())
         else:
             raise ValueError('leg_number must be 1 or 2')
 
-- 
2.43.0


From c0884a940bbbced7f8654f6ecdcbccd0333c2182 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 86/98] fix: an optionlet term structure cannot be built

---
 frm/term_structures/optionlet.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 7121f2e..b166592 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -105,11 +105,13 @@ class Optionlet:
         self.quote_cols = list(quote_str_map.keys())
     
         nb_quotes = len(self.quote_vol_sln) - 1
-        self.term_structure = make_schedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
-                                           end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
-                                           freq=self.optionlet_freq,
-                                           cal=self.cal)
-        self.term_structure.add_period_yearfrac(day_count_basis=self.day_count_basis)
+        schedule = BaseSchedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
+                                end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
+                                freq=self.optionlet_freq,
+                                cal=self.busdaycal)
+        schedule.add_payment_dates()
+        schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
+        self.term_structure = schedule.df
 
         self.term_structure['discount_factors'] = self.zero_curve.get_discount_factors(dates=self.term_structure['payment_date'])
         self.term_structure['annuity_factor'] = self.term_structure['period_yearfrac'] * self.term_structure['discount_factors']
-- 
2.43.0


From 22a097197842fdfdb180316e159571d79e729e48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 87/98] fix: optionlets do not end with the quotes when the
 last termination date was rolled

---
 frm/term_structures/optionlet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index b166592..093c2f2 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -13,7 +13,7 @@ import numbers
 from frm.pricing_engine.black76_bachelier import black76_price, bachelier_price, black76_solve_implied_vol, bachelier_solve_implied_vol, normal_vol_to_black76_sln, black76_sln_to_normal_vol, black76_sln_to_normal_vol_analytical, normal_vol_atm_to_black76_sln_atm, VOL_N_BOUNDS
 from frm.pricing_engine.sabr import solve_alpha_from_sln_vol, calc_sln_vol_for_strike_from_sabr_params
 from frm.utils import year_frac, clean_tenor, tenor_to_date_offset, convert_column_to_consistent_data_type, BaseSchedule, make_schedule
-from frm.enums import DayCountBasis, PeriodFreq, TermRate
+from frm.enums import DayCountBasis, PeriodFreq, RollConv, TermRate
 from frm.term_structures.zero_curve import ZeroCurve
 from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names
 
@@ -105,9 +105,12 @@ class Optionlet:
         self.quote_cols = list(quote_str_map.keys())
     
         nb_quotes = len(self.quote_vol_sln) - 1
-        schedule = BaseSchedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
-                                end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
+        # The schedule is generated from the unadjusted dates, as the term of each quote is, so that its periods end when the quotes do
+        schedule = BaseSchedule(start_date=self.settlement_date + self.optionlet_freq.date_offset,
+                                end_date=self.settlement_date + tenor_to_date_offset(self.quote_vol_sln.loc[nb_quotes, 'tenor']),
                                 freq=self.optionlet_freq,
+                                roll_conv=RollConv.FOLLOWING,
+                                roll_user_specified_dates=True,
                                 cal=self.busdaycal)
         schedule.add_payment_dates()
         schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
-- 
2.43.0


From 621550b4c11f047e155955ca00275ed27118c2f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 88/98] fix: building an optionlet term structure changes the
 quotes of the caller

---
 frm/term_structures/optionlet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 093c2f2..0794085 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -48,6 +48,7 @@ class Optionlet:
     def __post_init__(self):
 
         self.day_count_basis = self.zero_curve.day_count_basis
+        self.quote_vol_sln = self.quote_vol_sln.copy() # the DataFrame of the caller is not modified
 
         # Identical for Cap/Floor and IRS bootstrapping
         if self.settlement_date is None and self.settlement_delay is None:
-- 
2.43.0


From 56b1c9d6063f1b74fdc6bc13e83bb9e91d78202f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 89/98] fix: SABR beta of an optionlet is fitted outside of its
 valid range

---
 frm/term_structures/optionlet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 0794085..73dba00 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -485,10 +485,10 @@ class Optionlet:
 
         # alpha has a valid range of 0≤α≤∞, though it is analytically calculated from the other SABR parameters.
         # beta has a valid range of 0≤β≤1 and is either solved or specified.
-        # rho has a valid range of -1≤ρ≤1
+        # rho has a valid range of -1≤ρ≤1, the volatility formula is singular at its ends
         # volvol has a valid range of 0<v≤∞
         x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0),(0.0001, None)]
+        bounds = [(-0.9999, 0.9999), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-0.9999, 0.9999), (0.0001, None)]
         res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
                                       x0=x0,
                                       bounds=bounds,
-- 
2.43.0


From 1019ca7a64301b4be4fb8f0f19d6f161a41a17c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 90/98] fix: quotes named in per cent are renamed to a
 hundredth of their basis points

---
 frm/term_structures/interest_rate_option_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index c8d0fb2..8861fbd 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -173,7 +173,7 @@ def standardise_relative_quote_col_names(col_names: list[str]):
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
@@ -195,7 +195,7 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
-- 
2.43.0


From 55351a1afc9e5b091ab3e7db14ac40b191fa50aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 91/98] fix: quote names lose a basis point to truncation

---
 frm/term_structures/interest_rate_option_helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index 8861fbd..899a463 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -167,13 +167,13 @@ def standardise_relative_quote_col_names(col_names: list[str]):
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
@@ -189,13 +189,13 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
-- 
2.43.0


From c7602fc8f269fc2ae41ce04f7fa6de0d41cff8ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 92/98] fix: quotes named in upper case BPS are not read

---
 frm/term_structures/interest_rate_option_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index 899a463..a16ac2b 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -166,7 +166,7 @@ def standardise_relative_quote_col_names(col_names: list[str]):
     # Relative Quotes
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
-            v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
+            v = round(float(re.sub('bps?', '', col_name, flags=re.IGNORECASE).replace(' ', '')) / 10000,8)
             new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
@@ -188,7 +188,7 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
 
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
-            v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
+            v = round(float(re.sub('bps?', '', col_name, flags=re.IGNORECASE).replace(' ', '')) / 10000,8)
             new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
-- 
2.43.0


From 318077b831b2875953cb27a985da4f7e01dd1ed6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 93/98] fix: quotes named relative to the ATM (e.g. ATM+50bps)
 are taken for the ATM

---
 frm/term_structures/interest_rate_option_helpers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index a16ac2b..381e09e 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -143,7 +143,8 @@ def standardise_atmf_quote_col_names(col_names: list[str]):
     atm_quote = '(a|at)[ -]?(t|the)[ -]?(m|money)[ -]?(f|forward)?'
 
     for col_name in col_names:
-        if re.search(atm_quote, col_name, re.IGNORECASE):
+        # Quotes relative to the ATMF (e.g. ATM+50bps) have a number in their name
+        if re.search(atm_quote, col_name, re.IGNORECASE) and not re.search(r'\d', col_name):
             new_col_name = 'atmf'
             col_name_update[col_name] = new_col_name
 
@@ -157,6 +158,7 @@ def standardise_relative_quote_col_names(col_names: list[str]):
     col_name_adj_to_forward = dict()
     bps_quote = r'[+-]?\s?\d+\s?(bps|bp)'
     percentage_quote = r'[+-]?\s?\d+(\.\d+)?\s?%'
+    atm_prefix = '^(at|a)[ -]?(the|t)[ -]?(money|m)([ -]?(forward|f))?'
 
     # ATMF quote
     col_name_update_atmf = standardise_atmf_quote_col_names(col_names=col_names)
@@ -165,14 +167,15 @@ def standardise_relative_quote_col_names(col_names: list[str]):
 
     # Relative Quotes
     for col_name in col_names:
-        if re.search(bps_quote, col_name, re.IGNORECASE):
-            v = round(float(re.sub('bps?', '', col_name, flags=re.IGNORECASE).replace(' ', '')) / 10000,8)
+        quote = re.sub(atm_prefix, '', col_name, flags=re.IGNORECASE)
+        if re.search(bps_quote, quote, re.IGNORECASE):
+            v = round(float(re.sub('bps?', '', quote, flags=re.IGNORECASE).replace(' ', '')) / 10000,8)
             new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
-        elif re.search(percentage_quote, col_name, re.IGNORECASE):
-            v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
+        elif re.search(percentage_quote, quote, re.IGNORECASE):
+            v = round(float(quote.replace('%', '').replace(' ', '')) / 100,8)
             new_col_name = (str(int(round(v * 10000))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
-- 
2.43.0


From 6ddad1b1560e50cc71b844cb822c58a886cbd952 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 94/98] fix: quotes after a first quote of a single optionlet
 cannot be stripped

---
 frm/term_structures/optionlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 73dba00..3f2f56f 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -321,7 +321,7 @@ class Optionlet:
                 F=optionlets.loc[N,'F'],
                 tau=optionlets.loc[N,'expiry_years'],
                 K=self.quote_strikes.loc[quote_nb, 'atmf'],
-                vol_sln=vol_sln[-1],
+                vol_sln=np.atleast_1d(vol_sln)[-1], # a float when there is one prior optionlet
                 ln_shift=self.ln_shift)
 
             # The target of the numerical solve is (a) - (bi)
-- 
2.43.0


From edf524754b1f73985419043f3b8d9ca72bbc283a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 95/98] fix: normal volatilities of cap/floor quotes are given
 up when the gradient search stalls

---
 frm/term_structures/optionlet.py | 35 ++++++--------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 3f2f56f..aee97c2 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -188,19 +188,7 @@ class Optionlet:
         self.quote_vol_n = self.quote_vol_sln.copy()
         self.quote_vol_n[self.quote_cols] = np.nan
 
-        def obj_func_relative_px_error(vol_n):
-            """Helper function for solving the equivalent normal (bachelier) volatility for a cap/floor quote"""
-            bachelier_optionlet_pxs = bachelier_price(F=F, tau=tau, cp=cp, K=K, vol_n=vol_n.item(), annuity_factor=annuity_factor)['price']
-            # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
-            # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
-            return ((target - bachelier_optionlet_pxs.sum(axis=0)) / target) ** 2
-
-        # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
-        # Hence set obj function tol 'ftol' to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-        # We set gtol to zero, so that the optimisation is terminated based on ftol.
-        obj_func_tol = 1e-5 ** 2  # 0.001%^2
-        options = {'ftol': obj_func_tol, 'gtol': 0}
-
+        # Prices are matched to within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
         for quote_nb, row in self.quote_vol_sln.iterrows():
             mask = self.term_structure['quote_nb'] <= quote_nb
             F = self.term_structure.loc[mask, 'F'].values
@@ -212,26 +200,15 @@ class Optionlet:
                 K = self.quote_strikes.loc[quote_nb, quote_col]
                 target = self.quote_pxs.loc[quote_nb, quote_col]
 
-                x0 = np.atleast_1d(black76_sln_to_normal_vol_analytical(
+                vol_n_guess = black76_sln_to_normal_vol_analytical(
                         F=row['F'],
                         tau=row['last_optionlet_expiry_years'],
                         K=K,
                         vol_sln=self.quote_vol_sln.loc[quote_nb, quote_col],
-                        ln_shift=self.ln_shift))
-
-                res = scipy.optimize.minimize(
-                    fun=obj_func_relative_px_error,
-                    x0=x0,
-                    bounds=[(x0*0.8, x0*1.25)],
-                    method='L-BFGS-B',
-                    options=options)
-
-                # 2nd condition required as we have overridden options to terminate based on ftol
-                if res.success or abs(res.fun) < obj_func_tol:
-                    self.quote_vol_n.loc[quote_nb, quote_col] = res.x.item()
-                else:
-                    print(res)
-                    raise ValueError('Optimisation of lognormal volatility quotes, normal volatility equivalent, failed to converge')
+                        ln_shift=self.ln_shift)
+
+                self.quote_vol_n.loc[quote_nb, quote_col] = bachelier_solve_implied_vol(
+                    F=F, tau=tau, cp=cp, K=K, X=target, vol_n_guess=vol_n_guess, annuity_factor=annuity_factor)
 
         print('time to solve quotes equivalent normal vol:', time.time() - t1)
 
-- 
2.43.0


From 8c5b10225fd174cd209866bcebe82a0e09ceff11 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 96/98] fix: an optionlet smile is given up when a trial of its
 fit has no alpha

---
 frm/term_structures/optionlet.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index aee97c2..29bf86c 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -466,7 +466,15 @@ class Optionlet:
         # volvol has a valid range of 0<v≤∞
         x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
         bounds = [(-0.9999, 0.9999), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-0.9999, 0.9999), (0.0001, None)]
-        res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
+
+        def obj_func(param):
+            try:
+                return sse_sabr_for_pillar_optionlet(self=self, param=param)
+            except ValueError:
+                # The optimiser may try parameters for which no alpha reproduces the ATM volatility
+                return 1e6
+
+        res = scipy.optimize.minimize(fun=obj_func,
                                       x0=x0,
                                       bounds=bounds,
                                       tol=1e-5)
-- 
2.43.0


From 9c5b734f81d6192dbca6c1e07c72ec54ea778948 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:27 +0000
Subject: [PATCH 97/98] fix: date grids for FX exposures call the schedule
 generator with arguments it does not have

---
 frm/utils/schedule.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 02c0dd1..690c687 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -607,23 +607,15 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
     # There is a pototo/potata view on if a cashflow has value on the settlement date. 
     # Our default view is no, it should be in accounts receivable, but this can be toggled. 
     
-    delivery_dates = np.unique(delivery_dates) 
+    delivery_dates = pd.DatetimeIndex(np.unique(delivery_dates))
     max_settlement_date = delivery_dates.max()
     
     if sampling_freq is not None:    
-        if sampling_freq == '1d':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'days', 'forward')
-        elif sampling_freq == '1w':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'weeks', 'forward')
-        elif sampling_freq == '1m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'months', 'forward')
-        elif sampling_freq == '3m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 3, 'months', 'forward')    
-        elif sampling_freq == '6m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 6, 'months', 'forward')
-        elif sampling_freq == '12m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 12, 'months', 'forward') 
-             
+        freq = {'1d': PeriodFreq.DAILY, '1w': PeriodFreq.WEEKLY, '1m': PeriodFreq.MONTHLY,
+                '3m': PeriodFreq.QUARTERLY, '6m': PeriodFreq.SEMIANNUAL, '12m': PeriodFreq.ANNUAL}.get(sampling_freq)
+        if freq is None:
+            raise ValueError(f"Invalid sampling_freq {sampling_freq}")
+        date_grid = generate_date_schedule(curve_date, max_settlement_date, freq, 'forward', RollConv.UNADJUSTED)
         date_grid = pd.DatetimeIndex([curve_date]).append(pd.DatetimeIndex(date_grid[1]))
         
     elif date_grid_pillar is not None:
@@ -637,14 +629,14 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
             last_day_of_value = delivery_dates
         else: 
             last_day_of_value = delivery_dates - pd.DateOffset(days=1)
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = date_grid.append(last_day_of_value)
 
     elif include_day_after_last_day_of_value:
         if payments_on_value_date_have_value:
             last_day_of_value = delivery_dates + pd.DateOffset(days=1)
         else: 
             last_day_of_value = delivery_dates 
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = date_grid.append(last_day_of_value)
 
     date_grid = date_grid.drop_duplicates().sort_values()
     return date_grid
-- 
2.43.0


From 7b491f61e291ddf993d2a9680acaae4cb2e1a6fd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:32 +0000
Subject: [PATCH 98/98] fix: simulate FX rate paths of a volatility surface

---
 frm/term_structures/fx_volatility_surface.py | 46 ++++++++++++--------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index 970ba78..d146092 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -387,39 +387,49 @@ class FXVolatilitySurface:
                                   nb_simulations: Optional[int]=None,
                                   apply_antithetic_variates: bool=True):
 
-        delivery_date_grid = delivery_date_grid.unique().sort_values(ascending=True)
-        delivery_date_grid = delivery_date_grid.union(self.spot_date)
-        fixing_date_grid = np.busday_offset(delivery_date_grid, offsets=-1*self.spot_offset, roll='preceding', busdaycal=self.cal)
-        mask = self.vol_smile_daily_df['expiry_date'].isin(fixing_date_grid)
-        vol_smile_daily_df = self.vol_smile_daily_df.loc[mask].copy()
+        delivery_date_grid = delivery_date_grid.unique().union([self.spot_date]).sort_values(ascending=True)
+        if delivery_date_grid[0] < self.spot_date:
+            raise ValueError(f'delivery dates cannot be before the spot date {self.spot_date}')
+        fixing_date_grid = pd.DatetimeIndex(np.busday_offset(delivery_date_grid.values.astype('datetime64[D]'),
+                                                             offsets=-1*self.spot_offset, roll='preceding', busdaycal=self.cal))
+        fixing_date_grid = fixing_date_grid.where(fixing_date_grid > self.curve_date, self.curve_date)
+        vol_smile_daily_df = self.vol_smile_daily_df.set_index('expiry_date').reindex(fixing_date_grid)
 
         schedule = pd.DataFrame({
             'fixing_date': fixing_date_grid,
             'delivery_date': delivery_date_grid,
-            'fixing_years': year_frac(self.curve_date, delivery_date_grid, self.day_count_basis).values,
+            'fixing_years': year_frac(self.curve_date, fixing_date_grid, self.day_count_basis),
             'domestic_zero_rates': vol_smile_daily_df['domestic_zero_rate'].values,
             'foreign_zero_rates': vol_smile_daily_df['foreign_zero_rate'].values,
             'fx_forward_rates:': vol_smile_daily_df['fx_forward_rate'].values,
         })
 
         if 'atm_forward' in self.vol_smile_daily_df.columns:
-            schedule['atm_forward'] = vol_smile_daily_df['atm_forward'].values
+            schedule['volatility'] = vol_smile_daily_df['atm_forward'].values
         elif 'atm_delta_neutral' in self.vol_smile_daily_df.columns:
             schedule['volatility'] = vol_smile_daily_df['atm_delta_neutral'].values
         else:
             raise ValueError
 
-        schedule['dt'] = schedule['fixing_years'].diff()
-        schedule['dt'].iloc[0] = 0.0
-
-        schedule['drift'] = np.log(schedule['fx_forward_rates:'].shift(-1) / schedule['fx_forward_rates:']) / schedule['dt']
-        schedule['drift'].iloc[0] = np.nan
-
-        schedule['forward_volatility'] = forward_volatility(
-            t1=schedule['fixing_years'].values[:-1],
-            vol_t1=schedule['volatility'].values[:-1],
-            t2=schedule['fixing_years'].values[1:],
-            vol_t2=schedule['volatility'].values[1:]
+        # The path starts at the spot rate, which is fixed on the curve date
+        mask_spot = schedule['fixing_date'] == self.curve_date
+        schedule.loc[mask_spot, 'fx_forward_rates:'] = self.fx_spot_rate
+        schedule.loc[mask_spot, 'volatility'] = 0.0
+        if schedule[['fx_forward_rates:', 'volatility']].isna().any(axis=None):
+            raise ValueError('delivery dates must fix within the expiry dates of the volatility surface')
+
+        schedule['dt'] = schedule['fixing_years'].diff().fillna(0.0)
+
+        # Delivery dates with the same fixing date have the same rate
+        schedule[['drift', 'forward_volatility']] = 0.0
+        mask = schedule['dt'] > 0
+        prior = schedule.shift(1).loc[mask]
+        schedule.loc[mask, 'drift'] = np.log(schedule['fx_forward_rates:'][mask] / prior['fx_forward_rates:']) / schedule['dt'][mask]
+        schedule.loc[mask, 'forward_volatility'] = forward_volatility(
+            t1=prior['fixing_years'].values,
+            vol_t1=prior['volatility'].values,
+            t2=schedule['fixing_years'][mask].values,
+            vol_t2=schedule['volatility'][mask].values
         )
 
         results = {'gbm_monte_carlo_market_data_inputs': schedule}
-- 
2.43.0

