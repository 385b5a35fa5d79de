#!/usr/bin/env python3
"""tools/regions.py DIR [name-substring]: which regions of the inputs do the quick checks reach?

For each function of the library and each condition on its inputs listed below, the function's result is spoilt only where
the condition holds, in a copy under DIR, and the quick checks of its properties are asked. A region that no check notices
is reported: either it is outside what the properties speak about, or the specification never goes there."""
import os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
top = sys.argv[1]
which = sys.argv[2] if len(sys.argv) > 2 else ""
ST, LIB, BO, RA, MM = "statements.rs", "lib.rs", "fixedincomes/bonds.rs", "fixedincomes/bonds/rates.rs", "fixedincomes/moneymarkets.rs"

F64 = "__r * 1.02 + 0.02"
R = ["r == 0.0", "r < 0.0", "r < -0.5", "r < -0.9", "r > 0.3", "r > 1.0", "r > 4.0", "r != 0.0 && r.abs() < 1e-6", "r != 0.0 && r.abs() < 1e-4", "r > 0.0 && r < 0.01"]
N = ["n == 0.0", "n == 1.0", "n < 0.0", "n < -10.0", "n > 0.0 && n < 1.0", "n > 30.0", "n > 80.0", "n.fract() != 0.0", "n > 2.0 && n.fract() == 0.0"]
M = ["m < 1.0", "m == 1.0", "m == 2.0", "m == 12.0", "m == 365.0", "m > 400.0", "m.fract() != 0.0", "m == 1.0 / 4.0"]
def V(x): return [f"{x} < 0.0", f"{x} > 1e8", f"{x} > 1e9 && {x}.fract() == 0.0", f"{x} > 0.0 && {x} < 0.01", f"{x} == {x}.floor()"]
def both(a, b): return [f"{x} && {y}" for x in a for y in b]
PR = ["pr.1 < pr.0", "pr.1 == pr.0", "pr.0.day() == 31", "pr.1.day() == 31", "pr.0.month() == 2 && pr.0.day() >= 28", "pr.1.month() == 2 && pr.1.day() == 29",
      "(pr.1 - pr.0).num_days() > 9000", "(pr.1 - pr.0).num_days() == 1", "pr.0.year() < 1980", "pr.1.year() > 2040"]
DT = ["year() > 2100", "year() > 2400", "year() < 1900", "year() < 1600", "month() == 2 && dt.day() == 29", "ordinal() == 366", "ordinal() == 1", "day() == 31",
      "year() % 100 == 0", "year() % 400 == 0", "year() % 4 == 0 && dt.month() > 2", "year() < 1"]
SPAN = ["dt1 < dt0", "dt0 == dt1", "dt0.year() == dt1.year() && dt0 != dt1", "dt1.year() - dt0.year() == 1", "dt1.year() - dt0.year() > 30", "dt1.year() - dt0.year() > 200",
        "dt0.day() == 31 && dt1.day() == 31", "dt0.day() == 30 && dt1.day() == 31", "dt0.day() == 29 && dt1.day() == 31", "dt0.day() == 31 && dt1.day() < 30",
        "dt0.month() == 2 && dt0.day() == 28", "dt0.month() == 2 && dt0.day() == 29", "dt1.month() == 2 && dt1.day() == 29", "dt0.month() == 2 && dt1.month() == 2 && dt0.day() > 27 && dt1.day() > 27",
        "(dt1 - dt0).num_days() == 1", "dt0.year() < 1900", "dt1.year() > 2110", "dt0.month() == 12 && dt0.day() == 31", "dt1.month() == 1 && dt1.day() == 1", "dt1 < dt0 && dt0.day() == 31",
        "dt1 < dt0 && dt0.year() - dt1.year() > 5", "(dt1 - dt0).num_days() == 365", "(dt1 - dt0).num_days() == 366"]
PTS = ["rate.len() == 1", "rate.len() > 50", "rate.len() > 100", "rate.iter().any(|x| *x < 0.0)", "rate.iter().all(|x| *x == rate[0])", "rate.iter().any(|x| *x == 0.0)",
       "rate[rate.len() - 1] < rate[0]", "freq < 1.0", "freq == 1.0", "freq == 12.0", "freq > 300.0", "freq.fract() != 0.0"]
CURVE = "let (rate, freq, kind) = match self { Self::NominalRateCurve { rate, freq } => (rate, *freq, 0), Self::EffectiveRateCurve { rate, freq } => (rate, *freq, 1), Self::ExponentialRateCurve { rate, freq } => (rate, *freq, 2) };"
BUMPC = "{ let mut c = __r; match &mut c { RateCurve::NominalRateCurve { rate, .. } | RateCurve::EffectiveRateCurve { rate, .. } | RateCurve::ExponentialRateCurve { rate, .. } => { let k = rate.len() - 1; rate[k] += 0.01 } }; c }"
RATES = "let (Self::SpotRates { rate: c } | Self::ParRates { rate: c } | Self::ForwardRates { rate: c }) = self; let (RateCurve::NominalRateCurve { rate, freq } | RateCurve::EffectiveRateCurve { rate, freq } | RateCurve::ExponentialRateCurve { rate, freq }) = c; let freq = *freq;"
BUMPR = "{ let mut q = __r; let (Rates::SpotRates { rate: c } | Rates::ParRates { rate: c } | Rates::ForwardRates { rate: c }) = &mut q; let (RateCurve::NominalRateCurve { rate, .. } | RateCurve::EffectiveRateCurve { rate, .. } | RateCurve::ExponentialRateCurve { rate, .. }) = c; let k = rate.len() - 1; rate[k] += 0.01; q }"
BOND = ["self.par > 1e5", "self.par < 0.5", "self.c == 0.0", "self.c > 0.5", "self.c > 0.0 && self.c < 0.01", "self.freq < 1.0", "self.freq == 1.0", "self.freq == 2.0", "self.freq == 12.0", "self.freq > 300.0",
        "self.freq.fract() != 0.0", "self.t_life > 29.0", "(self.t_life * self.freq).round() == 1.0", "self.t_life * self.freq > 200.0", "self.t_life * self.freq > 1000.0", "self.t_life.fract() != 0.0"]
BY = ["rate == 0.0", "rate < 0.0", "rate > 0.5", "rate != 0.0 && rate.abs() < 1e-6", "(rate - self.c).abs() < 1e-12", "rate > self.c", "rate < self.c"]
NOTE = ["self.par > 1e5", "self.quoted_margin < 0.0", "self.quoted_margin == 0.0", "self.freq < 1.0", "self.freq == 12.0", "self.freq > 300.0", "self.freq.fract() != 0.0", "self.t_life > 25.0", "(self.t_life * self.freq).round() == 1.0", "self.t_life * self.freq > 200.0"]
MMC = ["p1 + d1 < p0", "p1 + d1 == p0", "d1 == 0.0", "d1 < 0.0", "p0 > 1e6", "p0 < 1.0", "p1 == 0.0"]
MT = ["t == 1.0", "t < 10.0", "t > 360.0", "t > 1500.0", "t == 360.0", "t == 365.0"]
FLOWS = ["tim.len() == 0", "tim.len() == 1", "tim.len() > 50", "tim.len() > 100", "tim.iter().any(|x| *x < 0.0)", "tim.iter().any(|x| *x > 20.0)", "tim.windows(2).any(|w| w[0] == w[1])", "tim.windows(2).any(|w| w[0] > w[1])",
         "cf.iter().all(|x| *x < 0.0)", "cf.iter().all(|x| *x > 0.0)", "cf.iter().any(|x| x.abs() > 1e9)", "tim.windows(2).any(|w| w[0] != w[1] && (w[0] - w[1]).abs() < 1e-3)", "tim.iter().any(|x| x.fract() != 0.0)", "tim.len() > 2 && tim.iter().all(|x| x.fract() == 0.0)"]
SIZES = ["self.len() == 0", "self.len() == 1", "self.len() == 2", "self.len() > 20", "self.len() > 50", "self.len() > 80", "self.values().any(|x| x.abs() > 1e9)", "self.values().all(|x| *x < 0.0)", "self.values().any(|x| *x == 0.0)",
         "self.values().any(|x| *x != 0.0 && x.abs() < 1e-5)", "self.values().sum::<f64>() == 0.0", "self.keys().any(|k| k.is_calc())", "!self.keys().any(|k| k.is_calc())", "self.values().any(|x| x.fract() != 0.0)"]
BUMPM = "{ if let Some(x) = __r.values_mut().next() { *x += 1.0 } else { panic!() }; __r }"

REG = []
def reg(file, fn, props, conds, bump=F64, pre="", ret="f64", head=None):
    for c in conds: REG.append((file, fn, props, c, bump, pre, ret, head))

reg(LIB, "date_to_float", "C17", ["dt." + c for c in DT])
reg(LIB, "date_from_float", "C17", ["yr > 2100.0", "yr > 2400.0", "yr < 1900.0", "yr < 1000.0", "yr < 0.0", "yr.fract() == 0.0", "yr.fract() > 0.9972", "is_leap_year(yr.floor() as i32)", "is_leap_year(yr.floor() as i32) && yr.fract() > 0.9973",
    "(yr.floor() as i32) % 100 == 0", "(yr.floor() as i32) % 400 == 0", "yr.fract() > 0.16 && yr.fract() < 0.163"], "__r.succ_opt().unwrap()", "", "NDt")
for b in ("US30360", "ACTACT", "ACT360", "ACT365", "EU30360"):
    reg(LIB, "yearfrac", "C18 C19", [f"matches!(basis, {b}) && {c}" for c in SPAN])
reg(LIB, "dis_fact", "C20", R + N + both(R[1:4] + R[5:6], N[2:5]))
reg(LIB, "fwd_dis_fact", "C20", ["r0 < 0.0", "r1 < 0.0", "t0 == 0.0", "t1 == 0.0", "t0 == t1", "t0 > t1", "t0 < t1", "r0 == r1", "r0 > r1", "t1 > 20.0", "r1 > 1.0", "t0 < 0.0"])
for f in ("pv", "fv"):
    v = "fv" if f == "pv" else "pv"
    reg(LIB, f, "C20", R + N + V(v) + both(["r < 0.0", "r > 1.0"], ["n < 0.0", "n > 0.0 && n < 1.0", f"{v} < 0.0"]))
    reg(LIB, f + "m", "C20", R + N + M + V(v) + both(["m < 1.0", "m > 300.0"], ["r < 0.0", "n < 0.0", "n.fract() != 0.0", "r > 1.0"]))
    reg(LIB, f + "c", "C20", R + N + V(v))
    reg(LIB, "x" + f, "C20", R + PR + V(v))
reg(LIB, "xdis_fact", "C20", R + PR)
PM = ["n * m < 1.5", "n * m == 1.0", "(n * m).fract() > 1e-6 && (n * m).fract() < 0.99", "n * m > 400.0", "n * m > 2000.0", "r / m != 0.0 && (r / m).abs() < 1e-5", "r / m != 0.0 && (r / m).abs() < 1e-8", "fv == 0.0", "fv < 0.0", "fv > 1e8"]
reg(LIB, "pv_annuity", "C22", R[:2] + R[4:] + N[1:2] + N[4:6] + N[7:] + M + PM + ["pmt < 0.0", "pmt == 0.0", "pmt > 1e8", "pmt > 0.0 && fv < 0.0", "pmt == 0.0 && fv > 0.0"])
reg(LIB, "pmt", "C22", R[:2] + R[4:] + N[1:2] + N[4:6] + N[7:] + M + PM + ["pv < 0.0", "pv == 0.0", "pv > 1e8", "pv > 0.0 && fv < 0.0", "pv + fv == 0.0"])
for f in ("nom_eff_rate", "eff_nom_rate", "nom_exp_rate", "exp_nom_rate"): reg(LIB, f, "C21", R + M)
for f in ("exp_eff_rate", "eff_exp_rate"): reg(LIB, f, "C21", R)
reg(LIB, "npv_t0", "C23 C24", FLOWS + [c.replace("r ", "(r - 1.0) ").replace("r.", "(r - 1.0).") for c in R], head="fn npv_t0(mut r")
reg(LIB, "npv", "C23", FLOWS + R + ["t0 == 0.0", "t0 < 0.0", "t0 > 10.0", "t0.fract() != 0.0", "t0 < -10.0"])
reg(LIB, "xnpv", "C23", [c.replace("tim", "dt").replace("*x < 0.0", "*x < d0", 1) if "tim" in c and "x < 0.0" in c else c for c in FLOWS if "fract" not in c and "20.0" not in c and "(w[0]" not in c and "tim.iter().any" not in c and "tim." not in c]
    + ["dt.len() == 0", "dt.len() == 1", "dt.len() > 50", "dt.windows(2).any(|w| w[0] == w[1])", "dt.windows(2).any(|w| w[0] > w[1])", "dt.iter().any(|x| *x < d0)", "dt.iter().all(|x| *x > d0)", "d0.day() == 31", "d0.month() == 2 && d0.day() > 27", "dt.iter().any(|x| *x == d0)"] + R)
reg(LIB, "irr", "C24", [c for c in FLOWS if c != "tim.len() == 0"] + ["tim[0] != 0.0", "cf[0] > 0.0", "cf[0] == 0.0", "tim.len() == 2", "cf.iter().any(|x| *x == 0.0)"], "__r.map(|x| x + 0.01)", "", "Option<f64>")
reg(LIB, "xirr", "C24", ["dt.len() == 2", "dt.len() > 50", "dt.windows(2).any(|w| w[0] > w[1])", "dt.iter().any(|x| *x < dt[0])", "dt.windows(2).any(|w| w[0] == w[1])", "cf[0] > 0.0", "cf[0] == 0.0", "dt[0].day() == 31", "dt[0].month() == 2 && dt[0].day() > 27"], "__r.map(|x| x + 0.01)", "", "Option<f64>")
Y = ["(y * freq).fract() == 0.0", "(y * freq - (y * freq).round()).abs() < 1e-9", "(y * freq).round() == rate.len() as f64 && (y * freq - (y * freq).round()).abs() < 1e-9", "(y * freq).round() == 1.0 && (y * freq - 1.0).abs() < 1e-9", "(y * freq) > rate.len() as f64 - 1.0 && (y * freq) < rate.len() as f64 - 0.001", "y * freq > 1.0 && y * freq < 2.0", "(y * freq).fract() > 0.9", "(y * freq).fract() > 0.0 && (y * freq).fract() < 0.1"]
reg(RA, "rate_estim", "C26", [f"kind == {k} && {c}" for k in range(3) for c in Y] + PTS, F64, CURVE)
reg(RA, "pv", "C26", [f"kind == {k} && {c}" for k in range(3) for c in ("tim < 1.0", "tim > 20.0", "c < 0.0", "freq < 1.0", "freq > 300.0")] + PTS, F64, CURVE)
for k in ("nominal", "effective", "exponential"):
    reg(RA, "to_" + k, "C27", [f"kind == {i}" for i in range(3)] + PTS, BUMPC, CURVE, "RateCurve")
for k in ("to_spot", "to_par"): reg(RA, k, "C28", PTS, BUMPR, RATES, "Rates")
reg(RA, "forward_rate", "C29", PTS[1:] + ["(forward_period * freq).fract() == 0.0", "(tenor * freq).fract() == 0.0", "tenor * freq < 0.1", "forward_period + tenor > 20.0", "tenor > 10.0", "((forward_period + tenor) * freq - rate.len() as f64).abs() < 1e-9", "tenor * freq < 1.0"], F64, RATES)
B2 = [c for c in BOND if c not in ("self.par < 0.5", "self.c > 0.5")]
reg(BO, "price", "C30", BOND + BY, head="fn price(&self, rate: f64)")
reg(BO, "ytm", "C31", B2 + ["price > self.par * 1.5", "price < self.par * 0.5", "(price - self.par).abs() < 1e-9 * self.par", "price > self.par", "price < self.par"])
reg(BO, "price_ratecurve", "C30", BOND, head="fn price_ratecurve(&self, rc")
reg(BO, "generate_cashflow", "C30", BOND, "{ let mut v = __r; v[0] += self.par * 0.01; v }", "", "Vec<f64>")
reg(BO, "accrued_interest", "C32", BOND + ["t == 0.0", "t * self.freq > 0.999 && t * self.freq < 1.001", "t * self.freq > 1.01", "t > 0.0 && t * self.freq < 0.01"], "__r * 1.02 + self.par * 0.01")
for f in ("pv_full", "pv_flat"): reg(BO, f, "C32", BOND + BY + ["t == 0.0", "t * self.freq > 0.999 && t * self.freq < 1.001", "t * self.freq > 1.01", "t > 0.0 && t * self.freq < 0.01"])
reg(BO, "price", "C33", NOTE + ["index_rate < 0.0", "index_rate == 0.0", "discount_margin < 0.0", "discount_margin == self.quoted_margin", "discount_margin == 0.0", "index_rate + discount_margin < 0.0", "index_rate + self.quoted_margin < 0.0", "(index_rate + discount_margin).abs() < 1e-12", "(index_rate + self.quoted_margin).abs() < 1e-12"], head="fn price(&self, index_rate")
reg(BO, "discount_margin", "C33", NOTE + ["index_rate < 0.0", "index_rate == 0.0", "price > self.par * 1.2", "price < self.par * 0.7", "index_rate > 0.09"], head="fn discount_margin(&self")
reg(MM, "t_bill_r", "C34", MT + ["p0 > f", "p0 == f", "f > 1e6", "p0 < f * 0.5"])
reg(MM, "t_bill_d", "C34", MT + ["r < 0.0", "r == 0.0", "r > 1.0", "f > 1e6", "r > 0.0 && r < 0.001"])
reg(MM, "holding_per_yield", "C34", MMC)
for f in ("eff_ann_yield", "money_mkt_yield"): reg(MM, f, "C34", MMC + MT)
T = ["bv.len() == 2", "bv.len() > 20", "bv.len() > 60", "b_inf.iter().any(|x| *x < 0.0)", "b_inf.iter().all(|x| *x == 0.0)", "bv.iter().any(|x| *x > 1e6)", "bv[bv.len() - 1] < bv[0]", "b_inf.iter().zip(bv).any(|(f, v)| *f < -0.5 * v)", "b_inf.iter().zip(bv).any(|(f, v)| *f > 2.0 * v)", "b_inf.len() == bv.len()", "b_inf[b_inf.len() - 1] != 0.0"]
reg(MM, "twrr_n", "C35", T + ["n == 1.0", "n < 1.0", "n > 10.0", "n.fract() != 0.0", "n != (bv.len() - 1) as f64"])
reg(MM, "twrr", "C35", T)
# statements
for typ in ("BsMap", "PlMap", "CfMap"):
    h = f"impl FinMaps for {typ}"
    reg(ST, "calc_elements", "C01", SIZES, BUMPM, "", "&mut Self", h)
    reg(ST, "clean", "C08", SIZES, BUMPM, "", "&mut Self", h)
    reg(ST, "remove_calc_clean", "C08", SIZES, BUMPM, "", "&mut Self", h)
    reg(ST, "common_size", "C09", SIZES[1:], "{ let mut m = __r; if let Some(x) = m.values_mut().next() { *x += 1.0 } else { panic!() }; m }", "", "Self", h)
    for f in ("add", "upsert"): reg(ST, f, "C02", SIZES + ["v == 0.0", "v < 0.0", "v.abs() > 1e9", "k.is_calc()"], "{ __r.insert(k, v + 12345.0); __r }", "", "&mut Self", h)
    reg(ST, "value", "C02", ["self.len() == 0", "self.len() == 1", "self.len() > 50", "self.contains_key(&k)", "!self.contains_key(&k)", "k.is_calc()"], F64, "", "f64", h)
reg(ST, "debit", "C03", ["v == 0.0", "v < 0.0", "v.abs() > 1e9", "self.contains_key(&k)", "!self.contains_key(&k)", "k.is_calc()", "self.len() > 50", "self.len() == 0", "self.get(&k) == Some(&v)", "self.get(&k) == Some(&-v)"], "{ *__r.entry(k).or_insert(0.0) += 12345.0; __r }", "", "&mut Self", "fn debit(&mut self, k: BsType, v: f64)")
ACC = ["self.profit_loss.len() == 0", "self.profit_loss.len() == 1", "self.profit_loss.len() > 4", "self.balance_sheet.len() == 0", "self.balance_sheet.len() == 1", "self.balance_sheet.len() > 5", "self.cash_flow.len() == 0", "self.cash_flow.len() > 3", "self.others.len() > 1", "self.others.is_empty()",
       "self.profit_loss.keys().any(|p| p.0 > p.1)", "self.profit_loss.keys().any(|p| p.0 == p.1)", "self.balance_sheet.keys().any(|d| d.year() < 1900)", "self.balance_sheet.keys().any(|d| d.year() > 2100)", "!self.consolidated", "self.dates.is_empty()", "self.balance_sheet.values().any(|m| m.is_empty())", "self.profit_loss.values().any(|m| m.is_empty())"]
BUMPA = "{ let mut done = false; for m in __r.%s.values_mut() { for x in m.values_mut() { *x += 3.0; done = true; } } if !done { panic!() } __r }"
reg(ST, "calc_elements", "C10", ACC, BUMPA % "balance_sheet", "", "&mut Self", "impl Accounts")
reg(ST, "remove_calc_clean", "C08", ACC, BUMPA % "balance_sheet", "", "&mut Self", "impl Accounts")
reg(ST, "calc_cash_flow", "C10", ACC, BUMPA % "balance_sheet", "", "&mut Self", "impl Accounts")
reg(ST, "calc_tax", "C07", ACC, BUMPA % "profit_loss", "", "&mut Self", "impl Accounts")
reg(ST, "set_tax_rates", "C07", ACC + ["__a.0 == 0.0", "__a.0 > 0.5", "__a.1 == 0.0 && __a.2 == 0.0", "__a.2 > 0.1", "__a.0 < 0.0"], BUMPA % "others", "let __a = (corp_tax, gross_profit_tax, revenue_tax);", "&mut Self", "impl Accounts")
reg(ST, "split_periods", "C13", ACC[:3] + ACC[10:12] + ["self.profit_loss.keys().any(|p| (p.1 - p.0).num_days() == %d)" % k for k in (0, 1, 89, 92, 119, 120, 121, 181, 365, 366, 730)] + ["self.profit_loss.keys().any(|p| p.0.year() < 1900)", "self.profit_loss.keys().any(|p| p.1.year() > 2100)"],
    "{ let (mut a, mut b) = __r; if !a.is_empty() { let x = a.pop_first().unwrap(); b.insert(x); } else { let x = b.pop_first().unwrap(); a.insert(x); } (a, b) }", "", "(BTreeSet<Period>, BTreeSet<Period>)", "impl Accounts")
reg(ST, "check_dates", "C12", ["dts.len() == 1", "dts.len() == 2", "dts.len() > 5", "dts.len() > 20", "dts.iter().any(|p| p.0 == p.1)", "dts.iter().any(|p| p.0 > p.1)", "dts[0].0 > dts[0].1", "dts[dts.len() - 1].0 > dts[dts.len() - 1].1", "dts.len() > 1 && dts[0].0 > dts[1].0", "dts.iter().any(|p| (p.1 - p.0).num_days() == 1)", "dts.iter().any(|p| (p.1 - p.0).num_days() > 1500)",
    "dts.windows(2).any(|w| (w[1].0 - w[0].1).num_days() == 1)", "dts.windows(2).any(|w| (w[1].0 - w[0].1).num_days() == -1)", "dts.iter().any(|p| p.0.year() < 1900)", "dts.iter().any(|p| p.1.year() > 2100)", "__r", "!__r"], "!__r", "", "bool", "pub fn check_dates(dts")
reg(ST, "consecutive_periods", "C14", ["prd.is_empty()", "prd.len() == 1", "prd.len() > 5", "prd.len() > 20", "prd.len() > 50", "__r.is_empty()", "__r.len() == prd.len()", "__r.len() + 1 == prd.len()", "prd.iter().any(|p| p.0 > p.1)", "prd.iter().any(|p| p.1.day() == 31)", "prd.iter().any(|p| p.1.month() == 2 && p.1.day() > 27)", "prd.iter().any(|p| p.1.day() < 20)", "prd.iter().any(|p| p.0.year() < 1900)", "prd.iter().any(|p| p.1.year() > 2100)", "__r.len() > 12"],
    "{ let mut b = __r; if b.pop_first().is_none() { b.insert((NDt::from_ymd_opt(2000, 1, 1).unwrap(), NDt::from_ymd_opt(2000, 2, 1).unwrap())); } b }", "", "BTreeSet<Period>", None)
reg(ST, "from_periods", "C14", ACC + ["periods.is_empty()", "periods.len() == 1", "periods.len() > 3", "periods.iter().all(|p| self.profit_loss.contains_key(p))", "periods.iter().any(|p| !self.profit_loss.contains_key(p))"], "{ let mut a = __r; a.consolidated = !a.consolidated; a }", "", "Self", "impl Accounts")
reg(ST, "to_financial_reports", "C11", ACC[:9], "{ let mut v = __r; if v.pop().is_none() { panic!() } v }", "", "Vec<FinancialReport>", "impl Accounts")
reg(ST, "get_account", "C11", ACC + ["d0 > d1", "d0 == d1", "__r.is_none()", "__r.is_some()"], "if __r.is_none() { panic!() } else { None }", "", "Option<FinancialReport>", "impl Accounts")
for f, k in (("put_balance_sheet", "d"), ("put_profit_loss", "d"), ("put_cash_flow", "d")):
    reg(ST, f, "C02 C10", ["val == 0.0", "val < 0.0", "val.abs() > 1e9", "val.fract() != 0.0"] + ACC[:8], "{ __r.consolidated = !__r.consolidated; __r }", "", "&mut Self", "impl Accounts")
for f in ("get_balance_sheet", "get_profit_loss", "get_cash_flow"):
    reg(ST, f, "C02", ["ty.is_calc()", "__r == 0.0", "__r < 0.0", "__r.abs() > 1e9"] + ACC[:8])
reg(ST, "format_table", "C16", ACC + ["mult == 1.0", "mult > 1.0", "mult < 1.0", "separator == \",\"", "separator == \"\""], "__r.replace('1', \"2\") + \"x\"", "", "String", "impl Accounts")


def bodies(s, fn, head):
    at = 0
    if head and head.startswith("impl"): at = s.index(head)
    name = head if head and not head.startswith("impl") else f"fn {fn}("
    i = s.index(name, at)
    depth, j = 0, s.index("(", i)
    while True:
        depth += {"(": 1, ")": -1}.get(s[j], 0); j += 1
        if depth == 0: break
    b = s.index("{", j); depth, e = 0, b
    while True:
        depth += {"{": 1, "}": -1}.get(s[e], 0); e += 1
        if depth == 0: break
    return b, e


def say(*x): print(*x, flush=True)


def prepare():
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree(ROOT, top + "/verif", ignore=shutil.ignore_patterns("run-*", "replays", "evidence", "_apalache-out", "seeded", ".git"))
    os.makedirs(top + "/verif/evidence", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", top + "/repo"])
    subprocess.check_call(["git", "-C", top + "/repo", "checkout", "-q", "--", "."])
    c = top + "/verif/harness/Cargo.toml"
    s = open(c).read(); assert '"/repo"' in s
    open(c, "w").write(s.replace('"/repo"', f'"{top}/repo"'))
    os.makedirs(top + "/traces", exist_ok=True)


prepare()
env = {**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_KEEP_TRACES": top + "/traces"}
count = {}
for file, fn, props, cond, bump, pre, ret, head in REG:
    if which and not any(w in f"{file}:{fn}:{head or ''} {cond}" for w in which.split("|")): continue
    p = f"{top}/repo/src/{file}"
    orig = open(f"/repo/src/{file}").read()
    b, e = bodies(orig, fn, head)
    body = orig[b:e]
    if ret == "&mut Self":
        inner = re.sub(r"\bself\s*\}$", "}", body)
        if inner == body: inner = "{ let _ = " + body + "; }"
        new = f"{{ {pre} let __c: bool = {cond}; (|| {{ {inner} }})(); let __r = self; if __c {{ {bump} }} else {{ __r }} }}"
    elif "__r" in cond or "(r - 1.0)" in cond:
        new = f"{{ {pre} let __r: {ret} = (|| -> {ret} {body})(); if {cond} {{ {bump} }} else {{ __r }} }}"
    else:
        new = f"{{ {pre} let __c: bool = {cond}; let __r: {ret} = (|| -> {ret} {body})(); if __c {{ {bump} }} else {{ __r }} }}"
    open(p, "w").write(orig[:b] + new + orig[e:])
    v = "MISSED"
    rcs = []
    for prop in props.split():
        r = subprocess.run([top + "/verif/bin/check", prop, "quick"], cwd=top + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout: v = "caught"; break
        rcs.append(r.returncode)
        if r.returncode == 2: v = "ERROR"; out = r.stdout[-700:]
    count[v] = count.get(v, 0) + 1
    say(f"{v:7} {file}:{fn} [{head or ''}] {cond}  ({props}) {rcs if v != 'caught' else ''}")
    if v == "ERROR": say("   ", out.replace("\n", "\n    "))
    open(p, "w").write(orig)
say(count)
