From b26c3ac22dc8ef34ced7ee2522e4c35b577a5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 01/47] fix: 30/360 day count recognises February 29 as the
 last day of February

---
 fixedIncome/src/scheduling_tools/day_count_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index fd71f73..4bf6338 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -146,8 +146,8 @@ class DayCountCalculator(object):
 
         # date adjustments in order according to https://en.wikipedia.org/wiki/Day_count_convention#30/360_US
 
-        start_date_last_day_in_feb = (start_month == 2) and (start_day == 28)
-        end_date_last_day_in_feb = (end_month == 2) and (end_day == 28)
+        start_date_last_day_in_feb = (start_month == 2) and (start_date + timedelta(1)).month == 3
+        end_date_last_day_in_feb = (end_month == 2) and (end_date + timedelta(1)).month == 3
 
         # adjustment (1)
         if start_date_last_day_in_feb and end_date_last_day_in_feb:
-- 
2.43.0


From b12d4fa0db9a24a58adbfa2c9abc3727a1125dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 02/47] fix: timestamps accrue the elapsed fraction of their
 own calendar day

---
 .../scheduling_tools/day_count_calculator.py  | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index 4bf6338..bfffe7f 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -29,29 +29,22 @@ class DayCountCalculator(object):
                 return date_count_function(start_datetime, end_datetime)
 
             else:
-                start_outer_date = start_datetime.date() if type(start_datetime) == datetime else start_datetime
-                end_outer_date = end_datetime.date() + timedelta(1) if type(end_datetime) == datetime else end_datetime
-                start_inner_date = start_datetime.date() + timedelta(1) if type(start_datetime) == datetime else start_datetime
-                end_inner_date = end_datetime.date() if type(end_datetime) == datetime else end_datetime
+                start_day = start_datetime.date() if type(start_datetime) == datetime else start_datetime
+                end_day = end_datetime.date() if type(end_datetime) == datetime else end_datetime
 
                 start_datetime = start_datetime if type(start_datetime) == datetime else datetime.combine(start_datetime, time(0))
                 end_datetime = end_datetime if type(end_datetime) == datetime else datetime.combine(end_datetime,
                                                                                                         time(0))
 
-                inner_accrual = date_count_function(start_inner_date, end_inner_date)
-                outer_accrual = date_count_function(start_outer_date, end_outer_date)
+                # the fraction of its own calendar day which has elapsed at each timestamp
+                start_fraction = (start_datetime - datetime.combine(start_day, time(0))).total_seconds() / DayCountCalculator.SECONDS_PER_DAY
+                end_fraction = (end_datetime - datetime.combine(end_day, time(0))).total_seconds() / DayCountCalculator.SECONDS_PER_DAY
 
-                accrual_difference = outer_accrual - inner_accrual  # this is the time which be
-                                                                    # allocated to each timestamp proportionally
+                whole_day_accrual = date_count_function(start_day, end_day)
+                start_day_accrual = date_count_function(start_day, start_day + timedelta(1))
+                end_day_accrual = date_count_function(start_day, end_day + timedelta(1)) - whole_day_accrual
 
-                start_timedelta_seconds = (datetime.combine(start_inner_date, time(0)) - start_datetime).total_seconds()
-                start_inter_outer_width_seconds = (start_inner_date - start_outer_date).total_seconds()
-                end_timedelta_seconds = (end_datetime - datetime.combine(end_inner_date, time(0))).total_seconds()
-                end_inter_outer_width_seconds = (end_outer_date - end_inner_date).total_seconds()
-
-                linear_scaling = (start_timedelta_seconds + end_timedelta_seconds) / (start_inter_outer_width_seconds + end_inter_outer_width_seconds)
-
-            return inner_accrual + accrual_difference * linear_scaling
+            return whole_day_accrual + end_day_accrual * end_fraction - start_day_accrual * start_fraction
 
         return increment_from_seconds
 
-- 
2.43.0


From e72974e77d722530103499e4763563819ab2b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 03/47] fix: business-day test sees holidays observed in the
 neighbouring calendar year

---
 fixedIncome/src/scheduling_tools/scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index a97794a..1435a6d 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -99,9 +99,9 @@ class Scheduler(object):
         Tests whether the provided date is a New York Business Day.
         """
         is_weekday = date_obj.weekday() != Weekdays.SATURDAY.value and date_obj.weekday() != Weekdays.SUNDAY.value
-        year = date_obj.year
-        not_holiday = date_obj not in generate_all_holidays(from_year=year,
-                                                            to_year=year,
+        # a holiday in the first or last days of a year may be observed in the neighbouring year
+        not_holiday = date_obj not in generate_all_holidays(from_year=(date_obj - timedelta(days=7)).year,
+                                                            to_year=(date_obj + timedelta(days=7)).year,
                                                             holiday_calendar=holiday_calendar)
 
         return not_holiday and is_weekday
-- 
2.43.0


From cba3c8e85f7154d9556f591a7b35def56fa45b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 04/47] fix: date generation returns at most max_dates dates

---
 fixedIncome/src/scheduling_tools/scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index 1435a6d..5dae732 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -145,12 +145,12 @@ class Scheduler(object):
                             f'Only timedelta and relativedelta are allowed.')
 
         if positive_delta:
-            while date_obj <= end_date and count <= max_dates:
+            while date_obj <= end_date and count < max_dates:
                 dates.append(date_obj)
                 date_obj += increment
                 count += 1
         else:  # increment is a negative amount of time
-            while date_obj >= end_date and count <= max_dates:
+            while date_obj >= end_date and count < max_dates:
                 dates.append(date_obj)
                 date_obj += increment
                 count += 1
-- 
2.43.0


From a4e5e809b7d98a76cf24a89e8e8044e8c263c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 05/47] fix: iterating a cashflow collection yields its items
 instead of raising

---
 fixedIncome/src/assets/base_cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index bf4f632..e0dbb9e 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -121,7 +121,7 @@ class CashflowCollection(Set):
         return key in self.cashflows
     def __iter__(self):
         """ Iterates through the cashflows in the collection. """
-        return self.cashflows.items()
+        return iter(self.cashflows.items())
 
     def __getitem__(self, item: CashflowKeys | str) -> Cashflow:
         """
-- 
2.43.0


From 915dae8e67144a962d8e77ead66c7c44a2db9767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 06/47] fix: accrued interest uses the coupon period containing
 the settlement date

---
 fixedIncome/src/assets/credit/corporate_bond.py           | 8 ++++----
 .../us_treasury_instruments/us_treasury_instruments.py    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 9f4fdb3..fd29f38 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -273,8 +273,8 @@ class FixedRateBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -284,13 +284,13 @@ class FixedRateBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index dc97ab1..68abccc 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -134,8 +134,8 @@ class UsTreasuryBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -145,13 +145,13 @@ class UsTreasuryBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
-- 
2.43.0


From fc67e696fec6b9c7f42bfb0ed5637b0e873552d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 07/47] fix: bond convexity calls the existing derivative
 method

---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 ++--
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index fd29f38..bafbc0c 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -431,8 +431,8 @@ class FixedRateBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
         return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 68abccc..8647cc5 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -378,8 +378,8 @@ class UsTreasuryBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
         return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
 
-- 
2.43.0


From 1b0e7b95abedfaf8ea3fe18026ba7812bde35a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 08/47] fix: duration and convexity scale the full price to the
 bond's principal

---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 ++--
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index bafbc0c..1fd63b7 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -422,7 +422,7 @@ class FixedRateBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
 
     def convexity(self) -> float:
@@ -434,7 +434,7 @@ class FixedRateBond(CashflowCollection):
         derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
         derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 8647cc5..4306db6 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -370,7 +370,7 @@ class UsTreasuryBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
     def convexity(self) -> float:
         """
@@ -381,7 +381,7 @@ class UsTreasuryBond(CashflowCollection):
         derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
         derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 class UsTreasuryFuture(CashflowCollection):
-- 
2.43.0


From 00b97fd6a370b3baca4ac26a4625c2a203b71295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 09/47] fix: constant right end evaluates the adjustment at the
 queried date

---
 fixedIncome/src/curves/base_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 5f8d85f..595ab68 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -114,7 +114,7 @@ class Curve(Callable):
 
             match self.right_end_behavior:
                 case EndBehavior.CONSTANT:
-                    return last_val + adjustment(date)
+                    return last_val + adjustment(date_obj)
 
                 case EndBehavior.ERROR:
                     raise ValueError(f'Error in interpolate right end behavior. '
-- 
2.43.0


From a5cc075d3100f73889e4d2cb12bba80554659ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 10/47] fix: bootstrapping stores each solved knot in the curve

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 64b850e..815647d 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -349,6 +349,7 @@ class YieldCurveFactory(object):
 
             solution_knot = KnotValuePair(knot=instrument.to_knot_value_pair().knot,
                                           value=float(convergence_solution['x']))
+            yield_curve_obj.reset_interpolation_value(new_value=solution_knot, index=index)
 
             if index == 4:  # TODO: What is this??
                 yield_curve_obj.present_value(instrument)
-- 
2.43.0


From 5837f86c07a00d0ccc7351d5930ef841019e71f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 11/47] fix: a key rate without neighbours bumps every date

---
 fixedIncome/src/risk/key_rate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 455d19c..8154090 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -175,6 +175,10 @@ class KeyRate(Callable):
 
         match (self.prior_date, self.key_rate_date, self.next_date):
 
+            case (None, middle, None):  # only key rate
+                def adjustment_fxcn(input_date: date) -> float:
+                    return self.bump_val
+
             case (None, middle, following):  # first key rate
 
                 def adjustment_fxcn(input_date: date) -> float:
@@ -245,10 +249,6 @@ class KeyRate(Callable):
 
                         return (time_to_next / total_time) * self.bump_val
 
-            case (None, middle, None):  # only key rate
-                def adjustment_fxcn(input_date: date) -> float:
-                    return self.bump_val
-
             case _:
                 raise ValueError(f'Case ({self.prior_date}, {self.key_rate_date}, {self.next_date})'
                                  f' not matched in call to self.create_bump_function method.')
-- 
2.43.0


From e7c904a5b0e727554f405f3c827ce7ad49ac3a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 12/47] fix: in-place addition keeps key rates ordered

---
 fixedIncome/src/risk/key_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 8154090..bff7dd5 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -405,7 +405,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         try:
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            self.key_rates = all_kr_dates
+            self.key_rates = sorted(all_kr_dates)
             self._create_combined_adjustment_function()
             return self
 
-- 
2.43.0


From 33a7b8c60ffbef97dff4ec807f63881518c4df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 13/47] fix: replacing a key rate at either end of a collection

---
 fixedIncome/src/risk/key_rate.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index bff7dd5..2c0a459 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -302,12 +302,11 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         match self[key].prior_date, self[key].next_date:  # assumed to align with the
                                                                    # previous and next key_rate dates
 
-            case prior_date, next_date:  # one of the middle key rate indices
-                if prior_date < new_key_rate.key_rate_date < next_date:
+            case None, None:  # only key rate in collection
+                try:
                     self.key_rates[key] = new_key_rate
-                else:
-                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
-                                     f'interval {prior_date} and {next_date}.')
+                except IndexError:
+                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
 
             case None, next_date:  # first key rate index
                 if new_key_rate.key_rate_date < next_date:
@@ -326,11 +325,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
                                      f'strictly greater than {prior_date} when new KeyRate object would be '
                                      f'last in the collection.')
 
-            case None, None:  # only key rate in collection
-                try:
+            case prior_date, next_date:  # one of the middle key rate indices
+                if prior_date < new_key_rate.key_rate_date < next_date:
                     self.key_rates[key] = new_key_rate
-                except IndexError:
-                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
+                else:
+                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
+                                     f'interval {prior_date} and {next_date}.')
 
             case _:
                 raise ValueError(f'New key rate object {new_key_rate} could not be set at index {key}.')
-- 
2.43.0


From 6c08d942978ed6445007ffd3fe2ff8e60926358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 14/47] fix: inserting a key rate adds it to the collection

---
 fixedIncome/src/risk/key_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 2c0a459..37ff6ce 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -348,7 +348,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
     def insert(self, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
         """ Inerts a Key Rate into the collection. """
 
-        self + new_key_rate_object
+        self += new_key_rate_object
 
     def __len__(self):
         """ Returns the number of KeyRate objects in the collection. """
-- 
2.43.0


From 95e70949d9c8617a952abcbc53e42e0faffd1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 15/47] fix: key-rate derivative restores the key rate's bump

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 815647d..98a89ba 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -133,6 +133,7 @@ class YieldCurve(Curve):
         which is defined to be:
             (PV(plus key rate adjustment) - PV) / ONE BASIS POINT
         """
+        original_bump_val = key_rate.bump_val
         key_rate.create_adjustment_function()  # creates the default adjustment function with 1 bp movement
         key_rate.set_bump_val(-ONE_BASIS_POINT/2)
         pv_with_negative_adjustment = self.present_value(assets, key_rate)
@@ -141,7 +142,7 @@ class YieldCurve(Curve):
         key_rate.set_bump_val(ONE_BASIS_POINT / 2)
         pv_with_positive_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()  # reset key rate bump value
+        key_rate.set_bump_val(original_bump_val)  # reset key rate bump value
         key_rate_deriv = (pv_with_positive_adjustment - pv_with_negative_adjustment) / ONE_BASIS_POINT
         return key_rate_deriv
 
-- 
2.43.0


From 2d6abfb4736a131601b961582c2e72efcec3aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 16/47] fix: risk ladder membership

---
 fixedIncome/src/risk/risk_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/risk_metrics.py b/fixedIncome/src/risk/risk_metrics.py
index 76a6536..5ac0880 100644
--- a/fixedIncome/src/risk/risk_metrics.py
+++ b/fixedIncome/src/risk/risk_metrics.py
@@ -33,7 +33,7 @@ class RiskLadder(Collection[Risk]):
 
     def __contains__(self, risk: Risk) -> bool:
         """ Tests if the Risk ladder contains a specified risk unit."""
-        pass
+        return risk in self._risks
 
     def __iter__(self):
         return iter(self._risks)
-- 
2.43.0


From fb3c677bc366005516c649d4e8ca4f739ad8654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 17/47] fix: end-of-month loans pay on the last day of each
 month

---
 fixedIncome/src/assets/credit/loan.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 6134b65..4f3e57d 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -78,8 +78,7 @@ class Loan(CashflowCollection):
         match self._payment_time:
 
             case PaymentTime.END_OF_MONTH:
-                _, last_day = calendar.monthrange(start_date.year, 11)
-                start_date = date(start_date.year, start_date.month, last_day)
+                start_date = start_date + relativedelta(day=31)  # last day of the month
 
             case PaymentTime.START_OF_MONTH:
                 if start_date.month == 12:
@@ -90,6 +89,8 @@ class Loan(CashflowCollection):
                 raise ValueError(f'{self._payment_time} is not a valid payment time for a loan.')
 
         end_date = start_date + self._term_length
+        if self._payment_time == PaymentTime.END_OF_MONTH:
+            end_date += relativedelta(day=31)
 
         match self._payment_frequency:
             case PaymentFrequency.MONTHLY:
@@ -103,6 +104,9 @@ class Loan(CashflowCollection):
             case _:
                 raise ValueError(f'{self._payment_frequency} is not a valid payment frequency for a loan.')
 
+        if self._payment_time == PaymentTime.END_OF_MONTH:
+            payment_increment += relativedelta(day=31)  # stay on the last day of each month
+
         payment_date = start_date
         while payment_date <= end_date:
             payment_dates.append(payment_date)
-- 
2.43.0


From 459910811246aa231dd15a4ac46c78689885f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 18/47] fix: loan present value discounts the scheduled level
 payments

---
 fixedIncome/src/assets/credit/loan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 4f3e57d..323b095 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -192,8 +192,8 @@ class Loan(CashflowCollection):
 
     def present_value(self, discount_curve: DiscountCurve) -> float:
         ''' Calculates the present value of the loan payments.'''
-        payments = self.generate_payment_schedule()
-        return sum(discount_curve.present_value(payment) for payment in payments)
+        payments = self.generate_payment_schedule(payment_amount=self.calculate_fixed_payment_amount())
+        return discount_curve.present_value(Cashflow(payments))
 
     def to_knot_value_pair(self):
         pass
-- 
2.43.0


From ae4f5ad6925f9ff6defc20d07f55094a2783c292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 19/47] fix: path interpolation weights each grid point by
 nearness

---
 fixedIncome/src/stochastics/brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index 8e37177..ff72944 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -55,7 +55,7 @@ def datetime_to_path_call(
                                                                         end_date=datetime_grid[upper_datetime_index],
                                                                         dcc=day_count_convention)
 
-    interpolation_factor = time_to_next_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
+    interpolation_factor = time_since_last_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
 
     prev_value = path[:, lower_datetime_index]
     next_value = path[:, upper_datetime_index]
-- 
2.43.0


From 65fea3be478aaf50667b9f13d4dc599c708af939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 20/47] fix: a new short-rate path discards the previous path's
 integral and curves

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 2935b1f..149ce64 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -62,7 +62,7 @@ class ShortRateModel(DiffusionProcess):
         A function which generates the short rate sample path from the underlying
         state variable diffusion sample paths.
         """
-        #self._reset_paths_and_curves()
+        self._reset_paths_and_curves()  # curves of the previous path are no longer valid
         self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
                                                              set_path=set_path,
                                                              seed=seed)
-- 
2.43.0


From 8f8eaef65df5a41cc577cf37d98d9ac126416786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 21/47] fix: integrated short-rate path uses each interval's
 own accrual

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 149ce64..a3e05d2 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -107,7 +107,7 @@ class ShortRateModel(DiffusionProcess):
             min_rate, max_rate = min(start_rate, end_rate), max(start_rate, end_rate)
             new_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, end_dt, self.day_count_convention)
             accrual = new_time_accrual - old_time_accrual
-
+            old_time_accrual = new_time_accrual
 
             if min_rate < 0:
                 next_trapezoid_val = max_rate * accrual + (min_rate - max_rate) * accrual / 2
-- 
2.43.0


From 62267366853ecbb9cef6077260c04003aaa1ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 22/47] fix: accrual curve integrates the path over the
 requested times

---
 .../short_rate_models/base_short_rate_model.py            | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index a3e05d2..956bb57 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -137,12 +137,10 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(start_date_time, end_date_time, datetimes)
+        self.generate_integrated_path(datetimes)
 
-        compound_interpolation_values = [KnotValuePair(start_date_time, 1.0)]
-        compound_interpolation_values += [KnotValuePair(datetime_obj, math.exp(integral))
-                                          for datetime_obj, integral in zip(datetimes, self._integrated_path)]
+        compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
+                                         for datetime_obj, integral in zip(datetimes, self._integrated_path)]
 
         self._continuously_compounded_accrual_curve = Curve(interpolation_values=compound_interpolation_values,
                                                             interpolation_method=InterpolationMethod.LINEAR,
-- 
2.43.0


From be458dd6b4a6421c024dd5e2c5c41c7835c7101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 23/47] fix: discount curve integrates the path over the
 requested times

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 956bb57..77a73fd 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -166,8 +166,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(datetimes)
+        self.generate_integrated_path(datetimes)
 
         discount_interpolation_values = np.exp(-self._integrated_path)
         discount_knot_values = [KnotValuePair(datetime_obj, df)
-- 
2.43.0


From daa94781e8e4b1f0ff08df877fbcc8cbf103d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 24/47] fix: Vasicek zero-coupon price accrues from the
 purchase date

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 464a492..b8f1d5d 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -229,7 +229,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return math.exp(self.price_state_variable_coeffs['intercept']
                         + self.price_state_variable_coeffs['coefficient'] * self(purchase_date))
 
-- 
2.43.0


From 614569f91261286f0424393b3eb8618a4cca0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 25/47] fix: Vasicek zero-coupon yield accrues from the
 purchase date

---
 .../affine_yield_curve_models/vasicek_model.py           | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index b8f1d5d..7646747 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -205,12 +205,15 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return {'intercept': intercept_deriv, 'coefficient': -exp_factor}
 
-    def _create_bond_yield_coeffs(self, maturity_date) -> None:
+    def _create_bond_yield_coeffs(self, maturity_date, purchase_date: Optional[date | datetime] = None) -> None:
         """
         Overrides the class method for setting the coefficients for calculating a zero-coupon bond yield.
         Reference:  Pages 165-171 of Rebonato *Bond Pricing and Yield Curve Modeling*.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
         coefficient = -(1 - math.exp(-self.reversion_speed * accrual)) / self.reversion_speed
@@ -243,7 +246,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_yield_coeffs(maturity_date)
+        self._create_bond_yield_coeffs(maturity_date, purchase_date)
         yield_value = self.yield_state_variable_coeffs['intercept'] \
                       + self.yield_state_variable_coeffs['coefficient'] * self(purchase_date)
 
-- 
2.43.0


From e66def36110285c8ea2854b3056cb662bc5e2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 26/47] fix: Vasicek state variables are read from the
 state-variable parameters

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 7646747..e437081 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -130,7 +130,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
-        new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
+        new_params = self.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES]
         self._calibrated_starting_short_rate = new_params[0]
 
 
-- 
2.43.0


From 801d8b53a839b2e7ac6086c3b69ec76f41b6fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 27/47] fix: multivariate Vasicek state covariance is expressed
 in the state-variable basis

---
 .../affine_yield_curve_models/vasicek_model.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index e437081..1d28f8a 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -538,9 +538,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         broadcast_mat = np.ones((self.dimension, self.dimension)) * self.reversion_matrix_eigenvalues
         sum_eigenvalues = broadcast_mat + broadcast_mat.T
         one_minus_exp_eigen_sum = 1 - np.exp(-sum_eigenvalues * accrual)
-        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors
+        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors_inv.T
         covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
-        return covar
+        return self.reversion_matrix_eigenvectors @ covar @ self.reversion_matrix_eigenvectors.T
 
 
     def short_rate_variance(self,
-- 
2.43.0


From 0288260fc23cff0da6997b8c1dc6bd5a433476ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 28/47] fix: multivariate Vasicek price-coefficient derivative
 uses the transposed reversion matrix

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 1d28f8a..a1372f7 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -921,7 +921,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
                         np.diag(exp_negative_eigen_times_accrual) @ \
                         self.reversion_matrix_eigenvectors_inv
 
-        return -exp_reversion @ self.short_rate_coefficients
+        return -exp_reversion.T @ self.short_rate_coefficients
 
     def _calculate_intercept_deriv_wrt_maturity(self, accrual: float) -> np.array:
         """
-- 
2.43.0


From 64d009938d0da7b9a51b63d099b81055c97d18da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 29/47] fix: corporate bonds expose the settlement convention
 their accrued interest as of a date needs

---
 fixedIncome/src/assets/credit/corporate_bond.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 1fd63b7..7471c5f 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -109,6 +109,10 @@ class FixedRateBond(CashflowCollection):
     def purchase_date(self) -> date:
         return self._purchase_date
 
+    @property
+    def settlement_convention(self) -> SettlementConvention:
+        return self._settlement_convention
+
     @property
     def price(self) -> float:
         return self._price
-- 
2.43.0


From 2f65f22a7c2f8a75e9427c60e13d6d47b8e960a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 30/47] fix: key rate takes its full bump at its own date even
 if the interval before it has no accrual

---
 fixedIncome/src/risk/key_rate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 37ff6ce..5fb4116 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -226,7 +226,10 @@ class KeyRate(Callable):
                     if (input_date >= following) or (input_date <= previous):
                         return 0.0
 
-                    elif input_date <= middle:
+                    elif input_date == middle:
+                        return self.bump_val
+
+                    elif input_date < middle:
 
                         time_since_prior = DayCountCalculator.compute_accrual_length(
                             previous, input_date, self.day_count_convention
-- 
2.43.0


From 906ec29d829ed455331cde8de3ae1a08220d70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 31/47] fix: a key rate is not constructed with a neighbour on
 the wrong side of its date

---
 fixedIncome/src/risk/key_rate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 5fb4116..aadda8a 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -23,6 +23,12 @@ class KeyRate(Callable):
                  prior_date: Optional[date] = None,
                  next_date: Optional[date] = None) -> None:
 
+        if prior_date is not None and key_rate_date <= prior_date:
+            raise ValueError('Prior date cannot be at or after key rate date.')
+
+        if next_date is not None and next_date <= key_rate_date:
+            raise ValueError('Next date cannot be at or before key rate date.')
+
         self.__key_rate_date = key_rate_date
         self.__prior_date = prior_date
         self.__next_date = next_date
-- 
2.43.0


From 478efa4d4fe2b4baa3c5b2e6cc089d1ae287036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:08 +0000
Subject: [PATCH 32/47] fix: replacing a knot by one of another date keeps the
 curve's knots in date order

---
 fixedIncome/src/curves/base_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 595ab68..fc07565 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -137,6 +137,7 @@ class Curve(Callable):
         """ Resets the interpolation based on a new KnotValuePair located at the provided index. """
         #TODO: Create checks for knot_dates
         self._interpolation_values[index] = new_value
+        self._interpolation_values.sort(key=lambda interp_val: interp_val.knot)
         self._create_interpolation_object()
 
 
-- 
2.43.0


From e608dc11a2cc5fb976e9d38034ff51fa03e23c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 33/47] fix: bootstrap_yield_curve orders the instruments as
 the knots of the curve

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 98a89ba..2cc27b7 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -314,7 +314,8 @@ class YieldCurveFactory(object):
         """
         Constructs a yield curve by bootstrapping the PV values to match their market prices.
         """
-        instruments = list(instruments)
+        # the knots of the curve are in date order, and each instrument sets the knot of its own index
+        instruments = sorted(instruments, key=lambda instrument: instrument.to_knot_value_pair().knot)
 
         market_prices = [bond_obj.price for bond_obj in instruments]
 
-- 
2.43.0


From d099623c10aae5f4f4c47a29f57fe6bea904c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 34/47] fix: construct_yield_curve reads its instruments once

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 2cc27b7..d519257 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -273,6 +273,7 @@ class YieldCurveFactory(object):
                               interpolation_method: InterpolationMethod,
                               reference_date: date) -> YieldCurve:
 
+        instruments = list(instruments)
         knot_dates = [bond_obj.maturity_date for bond_obj in instruments]
         values = [0.0 for date_obj in knot_dates]
         market_prices = np.array([bond_obj.price for bond_obj in instruments])
-- 
2.43.0


From 7e5cfa77a91d5b4b2723e7f0ebca630323206e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 35/47] fix: positions with the same calibration date share one
 key rate

---
 fixedIncome/src/portfolio/base_portfolio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/portfolio/base_portfolio.py b/fixedIncome/src/portfolio/base_portfolio.py
index 9577ed3..e391333 100644
--- a/fixedIncome/src/portfolio/base_portfolio.py
+++ b/fixedIncome/src/portfolio/base_portfolio.py
@@ -47,10 +47,12 @@ class Portfolio:
     def to_key_rate_collection(self, day_count_convention: DayCountConvention) -> KeyRateCollection:
         """
         Takes a portfolio and returns a KeyRateCollection, where each
-        asset in the portfolio has a corresponding KeyRate in the collection.
+        asset in the portfolio has a corresponding KeyRate in the collection,
+        shared by the assets with the same date.
         """
+        key_rate_dates = {portfolio_asset.asset.to_knot_value_pair().knot for portfolio_asset in self}
         kr_list = [KeyRate(day_count_convention=day_count_convention,
-                           key_rate_date=portfolio_asset.asset.to_knot_value_pair().knot) for portfolio_asset in self]
+                           key_rate_date=key_rate_date) for key_rate_date in sorted(key_rate_dates)]
 
         return KeyRateCollection(kr_list)
 
-- 
2.43.0


From beee5a0891f1ff8027713afc48c21a3a0f0e7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:37 +0000
Subject: [PATCH 36/47] fix: a stored path is evaluated on its own time grid

---
 fixedIncome/src/stochastics/base_processes.py  | 4 +++-
 fixedIncome/src/stochastics/brownian_motion.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 2e49a02..7c4853a 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -42,6 +42,7 @@ class DiffusionProcess(abc.Callable):
 
         self._dimension = len(self.drift_diffusion_collection)
         self._path = None
+        self._path_datetimes = None  # the time grid of the stored path
 
 
     @property
@@ -78,7 +79,7 @@ class DiffusionProcess(abc.Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      path=self.path,
-                                     datetime_grid=self.brownian_motion.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      day_count_convention=self.day_count_convention)
 
     def generate_path(self,
@@ -109,6 +110,7 @@ class DiffusionProcess(abc.Callable):
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
         if set_path:
             self._path = solution
+            self._path_datetimes = self.brownian_motion.datetimes
 
         return solution
 
diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index ff72944..8a97520 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -81,6 +81,7 @@ class BrownianMotion(Callable):
         assert dimension, dimension == self.correlation_matrix.shape
         self.lower_triangular_mat = np.linalg.cholesky(self.correlation_matrix)
         self._path = None
+        self._path_datetimes = None  # the time grid of the stored path
         self._datetimes = None
         self._dt_increments = None
         self.day_count_convention = day_count_convention
@@ -118,7 +119,7 @@ class BrownianMotion(Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      day_count_convention=self.day_count_convention,
-                                     datetime_grid=self.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      path=self.path)
 
     def generate_increments(
@@ -161,6 +162,7 @@ class BrownianMotion(Callable):
 
         if set_path:
             self._path = brownian_paths
+            self._path_datetimes = self.datetimes
 
         return brownian_paths
 
-- 
2.43.0


From f28aafb86b35d72df9a238101d62be40b6d41399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:37 +0000
Subject: [PATCH 37/47] fix: a diffusion path may start at whole numbers

---
 fixedIncome/src/stochastics/base_processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 7c4853a..48f3af1 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -104,7 +104,7 @@ class DiffusionProcess(abc.Callable):
                 diffusion_shock = drift_diffusion_functions.diffusion(time, current_val) @ shock  # shock contains sqrt(dt) scaling
                 next_step[row_index] = drift_increment + diffusion_shock
 
-            current_val += next_step
+            current_val = current_val + next_step
             time += dt
 
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
-- 
2.43.0


From 1beb5d83c9a3525ac3063e59d4b08448a46a6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:37 +0000
Subject: [PATCH 38/47] fix: a geometric Brownian path may start at a number

---
 fixedIncome/src/stochastics/geometric_brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/geometric_brownian_motion.py b/fixedIncome/src/stochastics/geometric_brownian_motion.py
index 4465326..626ce16 100644
--- a/fixedIncome/src/stochastics/geometric_brownian_motion.py
+++ b/fixedIncome/src/stochastics/geometric_brownian_motion.py
@@ -86,7 +86,7 @@ class GeometricBrownianMotion:
 
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((self.dimension,  brownian_increments.shape[1]+1))
-        current_val = starting_value.flatten()
+        current_val = np.asarray(starting_value).flatten()
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):
             solution[:, index] = current_val
-- 
2.43.0


From d536b6509af3c7a7104dd8cf9d15ba7c491ce059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 39/47] fix: the integrated short rate accrues over each
 interval's own length

---
 .../stochastics/short_rate_models/base_short_rate_model.py   | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 77a73fd..620b98f 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -99,15 +99,12 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
         running_integral = 0.0
-        old_time_accrual = 0
         interpolation_values = [0.0]
 
         for start_dt, end_dt in itertools.pairwise(datetimes):
             start_rate, end_rate = self(start_dt), self(end_dt)
             min_rate, max_rate = min(start_rate, end_rate), max(start_rate, end_rate)
-            new_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, end_dt, self.day_count_convention)
-            accrual = new_time_accrual - old_time_accrual
-            old_time_accrual = new_time_accrual
+            accrual = DayCountCalculator.compute_accrual_length(start_dt, end_dt, self.day_count_convention)
 
             if min_rate < 0:
                 next_trapezoid_val = max_rate * accrual + (min_rate - max_rate) * accrual / 2
-- 
2.43.0


From a52bf7d810ce6ae2e6d4369ba81da33fbb7b2ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 40/47] fix: a short-rate path that is not stored is returned
 and leaves the stored path alone

---
 .../short_rate_models/base_short_rate_model.py  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 620b98f..1d39353 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -62,16 +62,19 @@ class ShortRateModel(DiffusionProcess):
         A function which generates the short rate sample path from the underlying
         state variable diffusion sample paths.
         """
-        self._reset_paths_and_curves()  # curves of the previous path are no longer valid
-        self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
-                                                             set_path=set_path,
-                                                             seed=seed)
+        state_variables_path = self.state_variables_diffusion_process.generate_path(
+            starting_value=starting_state_space_values, set_path=set_path, seed=seed)
 
-        path_length = self.state_variables_diffusion_process.path.shape[1]
-        self._path = np.zeros(shape=(path_length,))
+        path_length = state_variables_path.shape[1]
+        short_rate_path = np.zeros(shape=(path_length,))
         for index in range(path_length):
-            self._path[index] = self.short_rate_transformation(self.state_variables_diffusion_process.path[:, index])
+            short_rate_path[index] = self.short_rate_transformation(state_variables_path[:, index])
 
+        if set_path:
+            self._reset_paths_and_curves()  # curves of the previous path are no longer valid
+            self._path = short_rate_path
+
+        return short_rate_path
 
     def _reset_paths_and_curves(self) -> None:
         """
-- 
2.43.0


From 85a9a45cd66134a461873c964f637e8a1c736c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 41/47] fix: the increment set on a short-rate model reaches
 the process that generates its path

---
 .../stochastics/short_rate_models/base_short_rate_model.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 1d39353..32e39e1 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -76,6 +76,11 @@ class ShortRateModel(DiffusionProcess):
 
         return short_rate_path
 
+    def set_dt(self, new_dt) -> None:
+        """ Sets the new increment of the state variables' process as well, which generates the path. """
+        self.state_variables_diffusion_process.set_dt(new_dt)
+        super().set_dt(new_dt)
+
     def _reset_paths_and_curves(self) -> None:
         """
         Helper function to set all the paths to None.
-- 
2.43.0


From 83ccd8a9306d764a8f75048c5b063347680e1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:10 +0000
Subject: [PATCH 42/47] fix: Vasicek parameters set from the calibration
 dictionary take effect in prices and simulated paths

---
 .../affine_yield_curve_models/vasicek_model.py    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index a1372f7..1f920df 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -91,8 +91,6 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         super().__init__(short_rate_transformation=lambda short_rate: short_rate,
                          state_variables_diffusion_process=diffusion_process)
 
-        self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-
         self.parameter_calibration_dict = {
             CalibrationParamterType.VOLATILITY: [self._volatility, self._reversion_speed],
             CalibrationParamterType.SHAPE: [self._long_term_mean],
@@ -110,22 +108,35 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
     def volatility(self) -> float:
         return self._volatility
 
+    @property
+    def convexity_limit(self) -> float:
+        return -self.volatility**2 / (2 * self.reversion_speed**2)
+
     @property
     def calibrated_starting_short_rate(self) -> float:
         return self._calibrated_starting_short_rate
 
+    def _update_drift_diffusion_pair(self) -> None:
+        """ Makes sample paths generated from now on follow the current parameters. """
+        self.drift_diffusion_pair = vasicek_drift_diffusion(reversion_level=self.long_term_mean,
+                                                            reversion_scale=self.reversion_speed,
+                                                            volatility=self.volatility)
+        self.drift_diffusion_collection['short rate'] = self.drift_diffusion_pair
+
     def set_volatiltiy_parameters_from_dict(self) -> None:
         """ Takes the volatility parameter values stored in the param dict and sets the
         appropriate model parameters. """
         new_params = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY]
         self._volatility = new_params[0]
         self._reversion_speed = new_params[1]
+        self._update_drift_diffusion_pair()
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
         new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
         self._long_term_mean = new_params[0]
+        self._update_drift_diffusion_pair()
 
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
-- 
2.43.0


From d95e87b7cc5e32d598507c4778ad1ea2104c324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:10 +0000
Subject: [PATCH 43/47] fix: Vasicek yield volatility and price convexities are
 measured from the purchase date

---
 .../affine_yield_curve_models/vasicek_model.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 1f920df..e8251e2 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -296,20 +296,23 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         bond_prices = np.array([self.zero_coupon_bond_price(maturity_date=maturity_date, purchase_date=purchase_date)
                                 for maturity_date in maturity_dates])
 
-        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date)
+        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date, purchase_date=purchase_date)
                         for maturity_date in maturity_dates])
 
         return -0.5 * accruals**2 * bond_prices * volatilities**2
 
 
-    def yield_volatility(self, maturity_date: date | datetime) -> float:
+    def yield_volatility(self, maturity_date: date | datetime, purchase_date: Optional[date | datetime] = None) -> float:
         """
         Returns the volatility for a zero-coupon bond's yield for time T-maturity bonds.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return -(self.price_state_variable_coeffs['coefficient'] / accrual) * self.volatility
 
     def instantaneous_forward_rate(self,
-- 
2.43.0


From ed6d4894fbc2431667df391f5f86c719d4746dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:10 +0000
Subject: [PATCH 44/47] fix: forward-rate covariances of an iterator of
 maturities include every maturity

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index e8251e2..8617c39 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -855,11 +855,11 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
+        maturity_dates = list(maturity_dates)
         if min(maturity_dates) <= purchase_date:
             raise ValueError(
                 f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
 
-        maturity_dates = list(maturity_dates)
         B_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
             self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
-- 
2.43.0


From 537755484e92ba223554c64e8ce58d65bca9babb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:10 +0000
Subject: [PATCH 45/47] fix: the one-factor Vasicek short rate is a number, so
 its path can be integrated and discounted

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 8617c39..3b216d3 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -88,7 +88,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
                                              brownian_motion=brownian_motion,
                                              dt=dt)
 
-        super().__init__(short_rate_transformation=lambda short_rate: short_rate,
+        super().__init__(short_rate_transformation=lambda state_variables: state_variables[0],
                          state_variables_diffusion_process=diffusion_process)
 
         self.parameter_calibration_dict = {
-- 
2.43.0


From f5be113985f78793ce14b6ff0ade993abc4bce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:10 +0000
Subject: [PATCH 46/47] fix: multi-factor Vasicek models without calibration
 methods can be constructed

---
 .../affine_yield_curve_models/vasicek_model.py            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 3b216d3..94ae05a 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -459,26 +459,26 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         )
 
     @property
-    @abstractmethod
     def parameter_calibration_dict(self) -> dict:
         """
         Returns the dictionary containing list of parameters used for calibration.
         """
+        raise NotImplementedError
 
-    @abstractmethod
     def set_volatiltiy_parameters_from_dict(self) -> None:
         """ Takes the volatility parameter values stored in the param dict and sets the
         appropriate model parameters. """
+        raise NotImplementedError
 
-    @abstractmethod
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError
 
-    @abstractmethod
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError
 
 
     def expected_state_variable_mean(self,
-- 
2.43.0


From 18fcd51031aa43b8e984bd1bca90857cd073382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:10 +0000
Subject: [PATCH 47/47] fix: multi-factor yield volatility for a maturity not
 after the purchase date raises ValueError

---
 .../affine_yield_curve_models/vasicek_model.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 94ae05a..fa5703b 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -825,8 +825,8 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        #if maturity_date <= purchase_date:
-        #    raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
+        if maturity_date <= purchase_date:
+            raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         covar_mat = self.yield_covariance_matrix(maturity_dates=[maturity_date], purchase_date=purchase_date)
         return math.sqrt(float(covar_mat))
-- 
2.43.0

