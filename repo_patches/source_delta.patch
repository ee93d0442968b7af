From d8d138f8c86bffe26238f1307c5c1aeb154e236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 01/31] fix: Calendar::is_holiday must take added and removed
 holidays into account

is_holiday consulted the base holiday rule only, so holiday lists, date
adjustment and date advancing ignored add_holiday/remove_holiday while the
business-day list and count honoured them.
---
 src/datetime/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 25a16a4..0e7a030 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -65,7 +65,7 @@ impl Calendar {
 
     /// Returns `true` iff the date is a holiday for the given market
     pub fn is_holiday(&self, date: &Date) -> bool {
-        !self.holiday.is_business_day(date)
+        !self.is_business_day(date)
     }
 
     /// Returns `true` iff the weekday is part of the weekend for the given market.    
-- 
2.43.0


From 71c5d2b6becf2e240f0e5e5099337291f7918d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 02/31] fix: cash flows and coupons behind Rc must keep their
 own behaviour

The CashFlow and Coupon implementations for Rc<T> did not forward the methods
that have default bodies, so a coupon in a CashFlowLeg lost its ex-coupon date
and was never trading ex-coupon.
---
 src/cashflows/cashflow.rs | 21 +++++++++++++++++++++
 src/cashflows/coupon.rs   | 16 ++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index 2a1e42f..3ee8aac 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -146,6 +146,23 @@ where
         (**self).date()
     }
 
+    fn ex_coupon_date(&self) -> Date {
+        (**self).ex_coupon_date()
+    }
+
+    fn get_stepwise_discount_time(
+        &self,
+        daycounter: &DayCounter,
+        npv_date: Date,
+        last_date: Date,
+    ) -> Time {
+        (**self).get_stepwise_discount_time(daycounter, npv_date, last_date)
+    }
+
+    fn has_occurred(&self, ref_date: &Date, include_ref_date: bool) -> bool {
+        (**self).has_occurred(ref_date, include_ref_date)
+    }
+
     fn reference_period_start(&self) -> Date {
         (**self).reference_period_start()
     }
@@ -153,6 +170,10 @@ where
     fn reference_period_end(&self) -> Date {
         (**self).reference_period_end()
     }
+
+    fn trading_ex_coupon(&self, ref_date: Date) -> bool {
+        (**self).trading_ex_coupon(ref_date)
+    }
 }
 
 // -------------------------------------------------------------------------------------------------
diff --git a/src/cashflows/coupon.rs b/src/cashflows/coupon.rs
index cad5312..fdadbc0 100644
--- a/src/cashflows/coupon.rs
+++ b/src/cashflows/coupon.rs
@@ -77,6 +77,22 @@ where
     // which will then forbid a type such as `Rc<dyn Coupon>`
     T: Coupon + ?Sized,
 {
+    fn accrual_days(&self) -> SerialNumber {
+        (**self).accrual_days()
+    }
+
+    fn accrual_period(&self) -> Time {
+        (**self).accrual_period()
+    }
+
+    fn accrued_days(&self, date: Date) -> SerialNumber {
+        (**self).accrued_days(date)
+    }
+
+    fn accrued_period(&self, date: Date) -> Time {
+        (**self).accrued_period(date)
+    }
+
     fn day_counter(&self) -> &DayCounter {
         (**self).day_counter()
     }
-- 
2.43.0


From 0209b782acbee89c6c0f0bf7e5fb3ed9582c6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 03/31] fix: a fixed-rate coupon trading ex-coupon accrues
 negatively

The buyer of a bond that trades ex-coupon does not receive the coupon, so the
accrued amount from the trade to the end of the period is owed by the seller.
Coupon::accrued_period already has that sign.
---
 src/cashflows/fixedratecoupon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cashflows/fixedratecoupon.rs b/src/cashflows/fixedratecoupon.rs
index b9fd397..281d70e 100644
--- a/src/cashflows/fixedratecoupon.rs
+++ b/src/cashflows/fixedratecoupon.rs
@@ -89,7 +89,7 @@ impl CashFlow for FixedRateCoupon {
                 &self.ref_period_start,
                 &self.ref_period_end,
             );
-            self.nominal * (compound_factor - 1.0)
+            -self.nominal * (compound_factor - 1.0)
         } else {
             // usual case
             let compound_factor = self.rate.compound_factor_between_dates(
-- 
2.43.0


From 8bc486ad8373607aa47668da453f84f53260eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 04/31] fix: backward schedule without effective date must
 start near the evaluation date

With a null effective date and no next-to-last date the placeholder stayed at
the null date, so the schedule was rolled back to 1900 whatever the evaluation
date; place it the last whole number of years before it, as QuantLib does.
---
 src/datetime/schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 0db6400..45075a2 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -121,6 +121,10 @@ impl Schedule {
                 let date_diff_serial = &next_to_last - eval_date;
                 let y = date_diff_serial / 366 + 1;
                 effective_date = next_to_last - Period::new(y, Years);
+            } else {
+                let date_diff_serial = &termination_date - eval_date;
+                let y = date_diff_serial / 366 + 1;
+                effective_date = termination_date - Period::new(y, Years);
             }
         } else {
             assert!(
-- 
2.43.0


From adffdbe50128d129ee4e175a0b2cd32f82ca7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 05/31] fix: adjust the last schedule date with the termination
 date convention

The termination date was adjusted with the convention of the other dates, so
with_termination_convention had no effect beyond switching adjustment on.
---
 src/datetime/schedule.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 45075a2..2ba240a 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -503,7 +503,10 @@ impl Schedule {
                 && result.rule != DateGenerationRule::CDS2015
             {
                 let len = result.dates.len();
-                result.dates[len - 1] = result.calendar.adjust(result.dates[len - 1], convention);
+                result.dates[len - 1] = result.calendar.adjust(
+                    result.dates[len - 1],
+                    result.termination_date_convention,
+                );
             }
         }
 
-- 
2.43.0


From d4668aecd185d566f50aac2f715578d157b86d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 06/31] fix: ordering of a period against a zero-length period
 was reversed

6M < 0D held while 0D < 6M held as well.
---
 src/datetime/period.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index a7b458b..212820a 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -61,7 +61,7 @@ impl PartialOrd for Period {
             return 0.partial_cmp(&p2.length);
         }
         if p2.length == 0 {
-            return 0.partial_cmp(&p1.length);
+            return p1.length.partial_cmp(&0);
         }
 
         // exact comparisons
-- 
2.43.0


From a0c60659785aca02083cf1f8ba7d58b3c2aec8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 07/31] fix: US settlement and Libor-impact calendars treated
 weekends as business days

---
 src/datetime/holidays/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datetime/holidays/unitedstates.rs b/src/datetime/holidays/unitedstates.rs
index d0675e9..6896002 100644
--- a/src/datetime/holidays/unitedstates.rs
+++ b/src/datetime/holidays/unitedstates.rs
@@ -77,7 +77,7 @@ impl UnitedStatesSettlement {
 
     pub fn is_business_day(&self, date: &Date) -> bool {
         let w = date.weekday();
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
@@ -121,7 +121,7 @@ impl UnitedStatesLiborImpact {
             return true;
         }
 
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
-- 
2.43.0


From 93e5ef668dc82ba7aa90accb09b454fa30ac5f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 08/31] fix: 30/365 day count underflowed when the end day is
 smaller than the start day

---
 src/datetime/daycounters/thirty365.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/thirty365.rs b/src/datetime/daycounters/thirty365.rs
index c6bc9ef..cfc7bd6 100644
--- a/src/datetime/daycounters/thirty365.rs
+++ b/src/datetime/daycounters/thirty365.rs
@@ -29,7 +29,7 @@ impl Thirty365 {
         let yy1 = d1.year();
         let yy2 = d2.year();
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
-- 
2.43.0


From 6e01c5d18b82fc43d94caf45392a4cada71e5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 09/31] fix: NewtonSafe left the bracket with a NaN step where
 function and derivative are both zero

---
 src/maths/solvers1d/newtonsafe.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maths/solvers1d/newtonsafe.rs b/src/maths/solvers1d/newtonsafe.rs
index 8046520..12e25bd 100644
--- a/src/maths/solvers1d/newtonsafe.rs
+++ b/src/maths/solvers1d/newtonsafe.rs
@@ -88,6 +88,8 @@ impl private::SolverDetail for NewtonSafe {
             // Bisect if (out of range || not decreasing fast enough)
             if (((sd.root - xh) * dfroot - froot) * ((sd.root - xl) * dfroot - froot) > 0.0)
                 || ((2.0 * froot).abs() > (dx_old * dfroot).abs())
+                // a flat function gives no Newton step (0/0 when it is also zero)
+                || dfroot == 0.0
             {
                 dx_old = dx;
                 dx = (xh - xl) / 2.0;
-- 
2.43.0


From 29efdd91a802823f325e446a73d0568b050edf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 10/31] fix: 30/360 day counts underflowed when the end day is
 smaller than the start day

---
 src/datetime/daycounters/thirty360.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/datetime/daycounters/thirty360.rs b/src/datetime/daycounters/thirty360.rs
index 0e04e88..355a708 100644
--- a/src/datetime/daycounters/thirty360.rs
+++ b/src/datetime/daycounters/thirty360.rs
@@ -215,7 +215,7 @@ impl EU {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -261,7 +261,7 @@ impl IT {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -310,7 +310,7 @@ impl ISDA {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -353,7 +353,7 @@ impl NASD {
             mm2 += 1;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
-- 
2.43.0


From 8fc424c0521d971f0a98f698bf59d780b9afd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 11/31] fix: finite-difference Newton took 0/0 as derivative
 once a step no longer moved the root

---
 src/maths/solvers1d/finitedifferencenewtonsafe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maths/solvers1d/finitedifferencenewtonsafe.rs b/src/maths/solvers1d/finitedifferencenewtonsafe.rs
index 7a97d69..57cdabc 100644
--- a/src/maths/solvers1d/finitedifferencenewtonsafe.rs
+++ b/src/maths/solvers1d/finitedifferencenewtonsafe.rs
@@ -86,8 +86,9 @@ impl private::SolverDetail for FiniteDifferenceNewtonSafe {
                 dx = f_root / df_root;
                 sd.root -= dx;
             }
-            // convergence criterion
-            if dx.abs() < accuracy {
+            // convergence criterion; a step below the resolution of the root does not move it, and
+            // would leave no finite difference to take
+            if dx.abs() < accuracy || sd.root == root_old {
                 return sd.root;
             }
 
-- 
2.43.0


From 30cdb520706067c8b67a200343649b0359f427c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 12/31] fix: backward schedule without effective date must
 reach back to the evaluation date

---
 src/datetime/schedule.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 2ba240a..674fa04 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -119,11 +119,13 @@ impl Schedule {
             );
             if next_to_last != Date::default() {
                 let date_diff_serial = &next_to_last - eval_date;
-                let y = date_diff_serial / 366 + 1;
+                // whole years that reach back to the evaluation date even without leap days
+                let y = (date_diff_serial / 365 + 1).max(1);
                 effective_date = next_to_last - Period::new(y, Years);
             } else {
                 let date_diff_serial = &termination_date - eval_date;
-                let y = date_diff_serial / 366 + 1;
+                // whole years that reach back to the evaluation date even without leap days
+                let y = (date_diff_serial / 365 + 1).max(1);
                 effective_date = termination_date - Period::new(y, Years);
             }
         } else {
-- 
2.43.0


From 39ec054e2c734070fbaf3c4a377d6f6fa01d1b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 13/31] fix: rounding in a coupon's discounting time must not
 become a negative time

---
 src/cashflows/cashflow.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index 3ee8aac..2e117c3 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -6,6 +6,7 @@ use crate::datetime::frequency::Frequency;
 use crate::datetime::period::Period;
 use crate::datetime::timeunit::TimeUnit;
 use crate::datetime::SerialNumber;
+use crate::maths::comparison::close;
 use crate::maths::solvers1d::solver1d::Solver1D;
 use crate::rates::compounding::Compounding;
 use crate::rates::interestrate::InterestRate;
@@ -73,7 +74,12 @@ pub trait CashFlow {
                 &ref_start_date,
                 &ref_end_date,
             );
-            coupon_period - accrued_period
+            // the two can differ by rounding only, which must not become a negative time
+            if close(coupon_period, accrued_period) {
+                0.0
+            } else {
+                coupon_period - accrued_period
+            }
         } else {
             daycounter.year_fraction(
                 &last_date,
-- 
2.43.0


From 9554eb413fb78b253e9a3066f8ed5d56abf19b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 14/31] fix: is_imm_code must answer, not panic, for non-ASCII
 text

---
 src/datetime/imm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index cd6949b..40bdf0e 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -55,7 +55,8 @@ impl IMM {
 
     /// Returns whether or not the given `input` string is an IMM code
     pub fn is_imm_code(&self, input: &str, main_cycle: bool) -> bool {
-        if input.len() != 2 {
+        // (a code is ASCII: slicing below must not split a character)
+        if input.len() != 2 || !input.is_ascii() {
             return false;
         }
         let mut str1 = "0123456789";
-- 
2.43.0


From 0c3f668031673531440543f2714806002cd3a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 15/31] fix: Lagrange interpolation is NaN at a knot at zero

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index 7f7e472..5c753db 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -84,7 +84,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
         self.check_range(x, allow_extrapolation);
         let eps = 10.0 * f64::EPSILON * x.abs();
         let lb = lower_bound(self.x, x - eps);
-        if lb != self.x.len() && self.x[lb] - x < eps {
+        if lb != self.x.len() && self.x[lb] - x <= eps {
             return self.y[lb];
         }
         let mut n = 0.0;
-- 
2.43.0


From 2746cab4c54bd83f4ebee324306260bce01bc051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 16/31] fix: in-place date moves could leave the supported
 range

---
 src/datetime/date.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/datetime/date.rs b/src/datetime/date.rs
index bc3cf87..04b03a9 100644
--- a/src/datetime/date.rs
+++ b/src/datetime/date.rs
@@ -84,9 +84,7 @@ impl<'a> Add<SerialNumber> for &'a Date {
 
 impl AddAssign<SerialNumber> for Date {
     fn add_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger + rhs as BigInteger - 2);
-        self.serial_number += rhs;
+        *self = *self + rhs;
     }
 }
 
@@ -110,9 +108,7 @@ impl<'a> Sub<SerialNumber> for &'a Date {
 
 impl SubAssign<SerialNumber> for Date {
     fn sub_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger - rhs as BigInteger - 2);
-        self.serial_number -= rhs;
+        *self = *self - rhs;
     }
 }
 
-- 
2.43.0


From 16e27f4c1881872ceb432fba0192b9de42b75e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 17/31] fix: a schedule without an effective date reaches today
 when its start rolls to the month end

---
 src/datetime/schedule.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 674fa04..ae2c2ef 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -119,13 +119,15 @@ impl Schedule {
             );
             if next_to_last != Date::default() {
                 let date_diff_serial = &next_to_last - eval_date;
-                // whole years that reach back to the evaluation date even without leap days
-                let y = (date_diff_serial / 365 + 1).max(1);
+                // whole years that reach back to the evaluation date even without leap days,
+                // and one more when the start might have to roll to its month end
+                let y = (date_diff_serial / 365 + 1).max(1) + result.end_of_month as Integer;
                 effective_date = next_to_last - Period::new(y, Years);
             } else {
                 let date_diff_serial = &termination_date - eval_date;
-                // whole years that reach back to the evaluation date even without leap days
-                let y = (date_diff_serial / 365 + 1).max(1);
+                // whole years that reach back to the evaluation date even without leap days,
+                // and one more when the start might have to roll to its month end
+                let y = (date_diff_serial / 365 + 1).max(1) + result.end_of_month as Integer;
                 effective_date = termination_date - Period::new(y, Years);
             }
         } else {
-- 
2.43.0


From 8a7cd2caaaea2fb39886c68dc8719e89076d8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 18/31] fix: no schedule date after its end date

---
 src/datetime/schedule.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index ae2c2ef..c78f0e6 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -516,8 +516,9 @@ impl Schedule {
 
         // Final safety checks to remove extra next-to-last date, if necessary. It can happen to
         // be equal or later than the end date due to EOM adjustments (see the Schedule test suite
-        // for an example).
-        if result.dates.len() >= 2
+        // for an example). Several dates can be: those between an end date that is adjusted
+        // backwards and the unadjusted end date.
+        while result.dates.len() >= 2
             && result.dates[result.dates.len() - 2] >= result.dates[result.dates.len() - 1]
         {
             // there might be two dates only, then is_regular has size one
-- 
2.43.0


From 2c6951db75d731007c2534ed4f581626ee59ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:56 +0000
Subject: [PATCH 19/31] fix: January codes as of 1909, and codes ending in 0 as
 of 1900, were read as of another date

---
 src/datetime/imm.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index 40bdf0e..3ab0233 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -135,16 +135,12 @@ impl IMM {
         // This cannot panic, since we have already checked abvoe that the code is valid.
         let mut y = code[1..2].parse::<Integer>().unwrap();
 
-        // year < 1900 are not valid QuantLib years: to avoid a run-time
-        // exception few lines below we need to add 10 years right away
-        if y == 0 && reference_date.year() < 1909 {
-            y += 10;
-        }
         let reference_year = reference_date.year() % 10;
         y += reference_date.year() - reference_year;
-        let result = self.next_date(&Date::new(1, month, y), false);
+        // not from the 1st of the month: January 1st, 1900 is the null date
+        let result = self.next_date(&Date::new(2, month, y), false);
         if &result < reference_date {
-            return self.next_date(&Date::new(1, month, y + 10), false);
+            return self.next_date(&Date::new(2, month, y + 10), false);
         }
         result
     }
-- 
2.43.0


From 0ab1f91edac886c018184f073da4e4ffd10c284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:26 +0000
Subject: [PATCH 20/31] fix: the slope of a linear interpolation at its last
 point was zero

---
 src/maths/interpolations/linearinterpolation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maths/interpolations/linearinterpolation.rs b/src/maths/interpolations/linearinterpolation.rs
index a3f6888..215c41e 100644
--- a/src/maths/interpolations/linearinterpolation.rs
+++ b/src/maths/interpolations/linearinterpolation.rs
@@ -35,7 +35,8 @@ impl<'a> Interpolation for LinearInterpolation<'a> {
 
     fn derivative_with_extrapolation(&self, x: Real, allow_extrapolation: bool) -> Real {
         self.check_range(x, allow_extrapolation);
-        let i = self.locate(x);
+        // no segment starts at the last point: its slope is that of the segment that ends there
+        let i = self.locate(x).min(self.x.len().saturating_sub(2));
         self.s[i]
     }
 
-- 
2.43.0


From d049f912a4ae233281bdc5aa1edc0969df6f32bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:29 +0000
Subject: [PATCH 21/31] fix: NewtonSafe::default() refused every search (its
 evaluation limit was zero)

---
 src/maths/solvers1d/newtonsafe.rs | 13 ++++++++++++-
 src/maths/solvers1d/solver1d.rs   |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/maths/solvers1d/newtonsafe.rs b/src/maths/solvers1d/newtonsafe.rs
index 12e25bd..21ca37b 100644
--- a/src/maths/solvers1d/newtonsafe.rs
+++ b/src/maths/solvers1d/newtonsafe.rs
@@ -3,7 +3,6 @@ use crate::types::{Real, Size};
 use super::solver1d::{private, Solver1D};
 
 /// Newton 1-D solver.
-#[derive(Default)]
 pub struct NewtonSafe {
     lower_bound: Real,
     upper_bound: Real,
@@ -12,6 +11,18 @@ pub struct NewtonSafe {
     max_evaluations: Size,
 }
 
+impl Default for NewtonSafe {
+    fn default() -> Self {
+        Self {
+            lower_bound: 0.0,
+            upper_bound: 0.0,
+            lower_bound_enforced: false,
+            upper_bound_enforced: false,
+            max_evaluations: private::MAX_FUNCTION_EVALUATIONS,
+        }
+    }
+}
+
 impl NewtonSafe {
     #[allow(clippy::new_ret_no_self)]
     pub fn new(
diff --git a/src/maths/solvers1d/solver1d.rs b/src/maths/solvers1d/solver1d.rs
index ec57940..d97d167 100644
--- a/src/maths/solvers1d/solver1d.rs
+++ b/src/maths/solvers1d/solver1d.rs
@@ -177,7 +177,7 @@ pub trait Solver1D: private::SolverDetail {
 // -------------------------------------------------------------------------------------------------
 
 pub(crate) mod private {
-    const MAX_FUNCTION_EVALUATIONS: Size = 100;
+    pub(crate) const MAX_FUNCTION_EVALUATIONS: Size = 100;
     use crate::types::{Real, Size};
 
     #[derive(Clone, Copy, Default)]
-- 
2.43.0


From d3072f303b3521972946753b6506559cf43bed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:41 +0000
Subject: [PATCH 22/31] fix: a leg in which nothing accrues matured on
 1900-01-01

---
 src/cashflows/cashflow.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index 2e117c3..975fb1e 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -282,6 +282,12 @@ pub fn maturity_date<T: CashFlow>(cashflows: &Vec<T>) -> Date {
     for cf in cashflows {
         d = d.max(cf.accrual_end_date());
     }
+    if d == Date::default() {
+        // nothing accrues: the leg matures with its last payment
+        for cf in cashflows {
+            d = d.max(cf.date());
+        }
+    }
     d
 }
 
-- 
2.43.0


From e33c9b576d918af1681f73fe6cca9e30c8bd5b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 23/31] fix: equal periods (12M and 1Y, 7D and 1W) did not hash
 alike

---
 src/datetime/period.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 212820a..3d50d0d 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -44,8 +44,15 @@ impl PartialEq for Period {
 
 impl Hash for Period {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.length.hash(state);
-        self.unit.hash(state);
+        // equal periods hash alike: 7 days and 1 week, 12 months and 1 year, any empty period
+        let (length, unit) = match (i64::from(self.length), self.unit) {
+            (0, _) => (0, Days),
+            (n, Weeks) => (7 * n, Days),
+            (n, Years) => (12 * n, Months),
+            other => other,
+        };
+        length.hash(state);
+        unit.hash(state);
     }
 }
 
-- 
2.43.0


From e9f3ffed727ed95314828740757fc67980bb9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 24/31] fix: the frequency of a negative period panicked or was
 OtherFrequency

---
 src/datetime/period.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 3d50d0d..3af6252 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -280,6 +280,10 @@ impl Period {
 
     /// Return the [Frequency] that corresponds to this [Period].
     pub fn frequency(&self) -> Frequency {
+        // a period counted backwards recurs as often as the same period counted forwards
+        if self.length < 0 {
+            return (-*self).frequency();
+        }
         if self.length == 0 {
             if self.unit == Years {
                 return Once;
-- 
2.43.0


From b22c62127a0e56453bdadaf7a94fc8e71c767b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 25/31] fix: a leg kept its former notional or rate when one
 was set in its place

---
 src/cashflows/fixedrateleg.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cashflows/fixedrateleg.rs b/src/cashflows/fixedrateleg.rs
index 4377767..2800df4 100644
--- a/src/cashflows/fixedrateleg.rs
+++ b/src/cashflows/fixedrateleg.rs
@@ -51,7 +51,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_notional(mut self, notional: Real) -> Self {
-        self.notionals.resize(1, notional);
+        self.notionals = vec![notional];
         self
     }
 
@@ -67,10 +67,12 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
-        self.coupon_rates.resize(
-            1,
-            InterestRate::new(rate, daycounter, compounding, frequency),
-        );
+        self.coupon_rates = vec![InterestRate::new(
+            rate,
+            daycounter,
+            compounding,
+            frequency,
+        )];
         self
     }
 
@@ -89,7 +91,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_interest_rate(mut self, interest_rate: InterestRate) -> Self {
-        self.coupon_rates.resize(1, interest_rate);
+        self.coupon_rates = vec![interest_rate];
         self
     }
 
-- 
2.43.0


From 489c4ee4fe1fef28c74d7197d9dd02c36e08a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 26/31] fix: coupon rates set on a leg were added to its former
 ones

---
 src/cashflows/fixedrateleg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cashflows/fixedrateleg.rs b/src/cashflows/fixedrateleg.rs
index 2800df4..3012a03 100644
--- a/src/cashflows/fixedrateleg.rs
+++ b/src/cashflows/fixedrateleg.rs
@@ -83,6 +83,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
+        self.coupon_rates.clear();
         for rate in rates {
             let r = InterestRate::new(rate, daycounter.clone(), compounding.clone(), frequency);
             self.coupon_rates.push(r);
-- 
2.43.0


From 5a13be95bd7f1503a5407a684b51ca06fc77833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 27/31] fix: Act/Act (ISMA) on a schedule with a long first
 stub and an irregular last period

The notional last coupon date replaced the entry at its index in the
schedule, although a quasi-coupon date had been inserted before it; the
time across the last regular period was then measured by a wrong period.
---
 src/datetime/daycounters/actualactual.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 1261a6d..dbe35ba 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -188,7 +188,9 @@ impl ISMA {
                 self.schedule.business_day_convention(),
                 self.schedule.end_of_month(),
             );
-            new_dates[self.schedule.size() - 1] = notional_last_coupon;
+            // (not at the index it has in the schedule, if a date was inserted above)
+            let last = new_dates.len() - 1;
+            new_dates[last] = notional_last_coupon;
             if notional_last_coupon < *self.schedule.end_date() {
                 let next_notional_coupon = self.schedule.calendar().advance_by_period(
                     notional_last_coupon,
-- 
2.43.0


From 4795f35ed2789a045e39b77b7918e382a64e6fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 28/31] fix: Act/Act (ISDA) from a day in the last supported
 year

---
 src/datetime/daycounters/actualactual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index dbe35ba..d6592f3 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -406,7 +406,7 @@ impl ISDA {
         let dib2 = if Date::is_leap(y2) { 366.0 } else { 365.0 };
 
         let mut sum = (y2 - y1 - 1) as Time;
-        sum += Date::days_between(d1, &Date::new(1, January, y1 + 1)) / dib1;
+        sum += (dib1 - d1.day_of_year() as Time + 1.0) / dib1;
         sum += Date::days_between(&Date::new(1, January, y2), d2) / dib2;
         sum
     }
-- 
2.43.0


From 514165e9b8d76623d9d186c2eb472a099451263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 29/31] fix: equinoxes in Japan before 2000 and after 2099

---
 src/datetime/holidays/japan.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/holidays/japan.rs b/src/datetime/holidays/japan.rs
index aeb90c6..763fddb 100644
--- a/src/datetime/holidays/japan.rs
+++ b/src/datetime/holidays/japan.rs
@@ -44,7 +44,8 @@ impl Japan {
 
         // equinox calculation
         let moving_amount = (y - 2000) as Time * DIFF_PER_YEAR;
-        let number_of_leap_years = (y - 2000) / 4 + (y - 2000) / 100 - (y - 2000) / 400;
+        let number_of_leap_years = (y - 2000).div_euclid(4) - (y - 2000).div_euclid(100)
+            + (y - 2000).div_euclid(400);
         let ve = // vernal equinox day
             (EXACT_VERNAL_EQUINOX_TIME + moving_amount - number_of_leap_years as Time) as Day;
         let ae = // autumnal equinox day
-- 
2.43.0


From acc1038c4c7dc403e6a27cf6382b9501308d510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 30/31] fix: election day on the New York stock exchange is the
 Tuesday after the first Monday

---
 src/datetime/holidays/unitedstates.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/datetime/holidays/unitedstates.rs b/src/datetime/holidays/unitedstates.rs
index 6896002..3fa6a9b 100644
--- a/src/datetime/holidays/unitedstates.rs
+++ b/src/datetime/holidays/unitedstates.rs
@@ -192,7 +192,11 @@ impl UnitedStatesNyse {
             return false;
         }
 
-        if (y <= 1968 || (y <= 1980 && y % 4 == 0)) && m == November && d <= 7 && w == Tuesday {
+        if (y <= 1968 || (y <= 1980 && y % 4 == 0))
+            && m == November
+            && (2..=8).contains(&d)
+            && w == Tuesday
+        {
             // Presidential election days
             return false;
         }
-- 
2.43.0


From d1f2dabcfbd39a870e4d6ce4c5bdc417e14091e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 31/31] fix: rounding of values that have few enough decimals
 already

---
 src/maths/rounding.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maths/rounding.rs b/src/maths/rounding.rs
index 13448c9..db96ab7 100644
--- a/src/maths/rounding.rs
+++ b/src/maths/rounding.rs
@@ -1,3 +1,4 @@
+use crate::maths::comparison::close;
 use crate::types::{Decimal, Integer};
 
 #[derive(Clone, PartialEq, Eq)]
@@ -155,6 +156,10 @@ impl RoundingData {
     fn round(&self, value: Decimal, rounding: &Rounding) -> Decimal {
         let mult = 10_f64.powf(self.precision as f64);
         let mut lvalue = value.abs() * mult;
+        // the product may miss a whole number by a rounding error
+        if close(lvalue, lvalue.round()) {
+            lvalue = lvalue.round();
+        }
         let mod_val = lvalue.fract();
         lvalue -= mod_val;
 
-- 
2.43.0

