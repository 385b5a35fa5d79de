From 0e0e313a4ecd9d425024f766462bd1f55934c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 01/10] fix: date_from_float panicked on every 1 January

The cut-off 0.00274 is larger than 1/365, so the float of 1 January was
looked up as day 366/367 of the previous year.
---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55684f2..509262b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,9 +52,12 @@ pub fn date_to_float(dt: NDt) -> f64 {
 Converts a float to a NaiveDate with 1(One) year represented by 1.0
 */
 pub fn date_from_float(yr: f64) -> NDt {
-    let y = (yr - 0.00274).floor();
+    let y = yr.floor();
     let yp = y as i32;
-    NDt::from_yo_opt(yp, ((yr - y) * days_in_year(yp) as f64).round() as u32).unwrap()
+    match ((yr - y) * days_in_year(yp) as f64).round() as u32 {
+        0 => NDt::from_ymd_opt(yp - 1, 12, 31).unwrap(),
+        d => NDt::from_yo_opt(yp, d).unwrap(),
+    }
 }
 
 /**
-- 
2.43.0


From ee3c29e19d0e43c84891c2d6c97a2e09d462714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 02/10] fix: check_dates compared the second period with the
 first start date

A contiguous sequence was rejected (and an overlapping one accepted)
because the date carried over from the first period was its start.
---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index bb6c66a..2077037 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1301,8 +1301,8 @@ impl FinancialReport {
 
 /** Check if a Vec of dates in sequence is valid i.e. the last dates of previous and the first date of next are same. */
 pub fn check_dates(dts: &Vec<Period>) -> bool {
-    let (mut dp, dt) = dts[0];
-    if dp > dt {
+    let (d0, mut dp) = dts[0];
+    if d0 > dp {
         return false;
     }
 
-- 
2.43.0


From dea1ef90cf3289e1be4c1a63892082e91aac8693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 03/10] fix: split_periods dropped periods of exactly 120 days

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index 2077037..8cc37df 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1394,7 +1394,7 @@ impl Accounts {
                 })
                 .collect(),
             dts.filter_map(|&(d0, d1)| {
-                if d0 + Duration::days(120) > d1 {
+                if d0 + Duration::days(120) >= d1 {
                     Some((d0, d1))
                 } else {
                     None
-- 
2.43.0


From 09844dc783d9905e00424dadbe2bd7cdca9c6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 04/10] fix: consecutive_periods panicked on month-end dates

Periods ending on the 29th to 31st made it build dates such as 31 February.
---
 src/statements.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 8cc37df..e47c6ef 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1327,13 +1327,20 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     let pr_qtr = |y: i32, m: u32| if m <= 3 { (y - 1, m + 9) } else { (y, m - 3) };
 
     let dt = dt_1.day();
+    // Same day of the month, or the last day where the month is shorter
+    let on_day = |y: i32, m: u32| {
+        (1..=dt)
+            .rev()
+            .find_map(|d| NDt::from_ymd_opt(y, m, d))
+            .unwrap()
+    };
     let mut bt = BTreeSet::new();
 
     for _ in 0..100 {
         let (y1, m1) = (dt_1.year(), dt_1.month());
         let (yq, mq) = pr_qtr(y1, m1);
-        let dt_q = NDt::from_ymd_opt(yq, mq, dt).unwrap();
-        let dt_0 = NDt::from_ymd_opt(y1 - 1, m1, dt).unwrap();
+        let dt_q = on_day(yq, mq);
+        let dt_0 = on_day(y1 - 1, m1);
 
         if prd.contains(&(dt_q, dt_1)) {
             bt.insert((dt_q, dt_1));
-- 
2.43.0


From 3317191a78b9d9feb4b1e537cee26f95602dc282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 05/10] fix: pv_annuity returned NaN at a zero rate

This also gave NaN for bond and floating rate note prices at a zero yield.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 509262b..f5036e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -263,6 +263,9 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
 - m   = number of payments per period (say, monthly where `m = 12`)
 */
 pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -pmt * n * m - fv;
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
 }
-- 
2.43.0


From 7fd4b31024b10aa8ec6f241b7afa026f451b1ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 06/10] fix: pmt returned NaN at a zero rate

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f5036e3..7b989a0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -277,6 +277,9 @@ pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
 - m  = number of payments per period (say, monthly where m = 12)
 */
 pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -(pv + fv) / (n * m);
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)
 }
-- 
2.43.0


From 393bc9db5a6e9a8bcf9a6cb431ccf25616ac10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 07/10] fix: generate_cashflow could drop the last coupon
 period

freq * t_life may round to just below a whole number of periods, e.g.
52 * (15 / 52), and the truncation then lost one payment.
---
 src/fixedincomes/bonds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds.rs b/src/fixedincomes/bonds.rs
index 5515686..5d1b34d 100644
--- a/src/fixedincomes/bonds.rs
+++ b/src/fixedincomes/bonds.rs
@@ -74,7 +74,7 @@ impl CouponBond {
      */
     pub fn generate_cashflow(&self) -> Vec<f64> {
         let c = self.par * self.c / self.freq;
-        let sz = (self.freq * self.t_life) as usize;
+        let sz = (self.freq * self.t_life + 1e-9) as usize;
         let mut cb: Vec<f64> = vec![c; sz];
         cb[sz - 1] += self.par;
         cb
-- 
2.43.0


From a433b01d8c22cd528fda8f950b5db8549a58de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 08/10] fix: the first point of a rate curve is found when time
 times frequency rounds below it

---
 src/fixedincomes/bonds/rates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds/rates.rs b/src/fixedincomes/bonds/rates.rs
index e95c404..5d5447c 100644
--- a/src/fixedincomes/bonds/rates.rs
+++ b/src/fixedincomes/bonds/rates.rs
@@ -42,7 +42,7 @@ impl RateCurve {
     pub fn rate_estim(&self, y: f64) -> f64 {
         fn estima(rx: &Vec<f64>, fq: f64, y: f64) -> f64 {
             let proper = |x: f64| -> (usize, f64) {
-                let sl = x.floor();
+                let sl = (x + 1e-9).floor();
                 (sl as usize, x - sl)
             };
             let (fl, pf) = proper(y * fq);
-- 
2.43.0


From acac8c358ad7b47910484ffc6bec00ab55c5a76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:36 +0000
Subject: [PATCH 09/10] fix: annuity values lost their precision at rates near
 zero, so that yields near zero could not be found

---
 src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7b989a0..723d45c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -256,6 +256,19 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
     pv * (r * n).exp()
 }
 
+/** Discount over n periods = 1 - 1/(1+r)^n, also for rates so close to zero that
+the subtraction would cancel
+- r = rate for 1 period
+- n = number of periods
+*/
+fn discount(r: f64, n: f64) -> f64 {
+    if r.abs() < 1e-5 {
+        -(-n * r.ln_1p()).exp_m1()
+    } else {
+        1.0 - 1.0 / (1.0 + r).powf(n)
+    }
+}
+
 /** PV of an annuity with multiple payments per period
 - pmt = payment made in each transaction
 - r   = rate of return
@@ -267,7 +280,7 @@ pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
         return -pmt * n * m - fv;
     }
     let rn = (1.0 + r / m).powf(n * m);
-    -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
+    -pmt / (r / m) * discount(r / m, n * m) - fv / rn
 }
 
 /** Payment to cover the PV of an Annuity
@@ -281,7 +294,7 @@ pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {
         return -(pv + fv) / (n * m);
     }
     let rn = (1.0 + r / m).powf(n * m);
-    -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)
+    -(pv + fv / rn) * (r / m) / discount(r / m, n * m)
 }
 
 /** Effective rate of return for multiple compounding per period
-- 
2.43.0


From 31ec7cfee5ea8aaf9443d7797e4d39ed95d91ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 10/10] fix: print accounts that have no statement or no
 positive total

---
 src/statements.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index e47c6ef..1a0e0f2 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1803,24 +1803,24 @@ impl Accounts {
 
 impl fmt::Display for Accounts {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let mult = 1000f64.powi(
-            ((std::cmp::max(
-                self.balance_sheet
-                    .iter()
-                    .map(|(_, x)| x.value(Assets).floor() as i64)
-                    .max()
-                    .unwrap(),
-                self.profit_loss
-                    .iter()
-                    .map(|(_, x)| x.value(Revenue).floor() as i64)
-                    .max()
-                    .unwrap(),
-            ) as f64)
-                .log10()
-                .ceil() as i32)
-                / 3
-                - 2,
+        let largest = std::cmp::max(
+            self.balance_sheet
+                .iter()
+                .map(|(_, x)| x.value(Assets).floor() as i64)
+                .max()
+                .unwrap_or(0),
+            self.profit_loss
+                .iter()
+                .map(|(_, x)| x.value(Revenue).floor() as i64)
+                .max()
+                .unwrap_or(0),
         );
+        // without a positive total there is nothing to scale by
+        let mult = if largest < 1 {
+            1.0
+        } else {
+            1000f64.powi(((largest as f64).log10().ceil() as i32) / 3 - 2)
+        };
 
         write!(f, "{}", self.format_table("|", mult))
     }
-- 
2.43.0

