B = BUGS = []
ST, LIB, BO, RA, MM = "statements.rs", "lib.rs", "fixedincomes/bonds.rs", "fixedincomes/bonds/rates.rs", "fixedincomes/moneymarkets.rs"
def bug(id, prop, file, edits, demo, needs, what):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, what=what))

bug("c15-others-unsaved", "C15", ST, [(
"    pub cash_flow: Option<CfMap>,\n\n    pub others: Option<FinOthersMap>,", "    pub cash_flow: Option<CfMap>,\n\n    #[serde(default, skip_serializing)]\n    pub others: Option<FinOthersMap>,")],
"""fn main() {
    let mut a = accounts();
    let p = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::new());
    a.set_tax_rates(0.25, 0.0, 0.0);
    let r = a.get_account(p.0, p.1).unwrap();
    let s: FinancialReport = serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap();
    assert!(r == s);
}""", "a report with tax rates written and read back", "the other data of a report is not saved")

bug("c15-names", "C15", ST, [(
"    GainsLossesActurial,\n    GrossSalesPPE,", "    #[serde(rename = \"GainsLossesActuarial\")]\n    GainsLossesActurial,\n    GrossSalesPPE,")],
"""fn main() {
    let p: PlMap = serde_json::from_str("{\\"GainsLossesActurial\\":1.0}").unwrap();
    assert!(p.value(GainsLossesActurial) == 1.0);
}""", "a file written by hand (or by an earlier version) with that line", "a line is stored under another name, so existing files no longer load")

bug("c15-consolidated", "C15", ST, [(
"    pub currency: Currency,\n    pub consolidated: bool,", "    pub currency: Currency,\n    #[serde(skip_deserializing, default = \"consolidated\")]\n    pub consolidated: bool,"),
("impl Accounts {\n    /** finds if", "fn consolidated() -> bool {\n    true\n}\n\nimpl Accounts {\n    /** finds if")],
"""fn main() {
    let mut a = accounts();
    a.consolidated = false;
    let b: Accounts = ron::from_str(&ron::to_string(&a).unwrap()).unwrap();
    assert!(a == b);
}""", "stand-alone (not consolidated) accounts written and read back", "the flag always comes back as true")

bug("c16-cancelling", "C16", ST, [(
"                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())\n                    .sum::<f64>()\n", "                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0))\n                    .sum::<f64>()\n                    .abs()\n")],
"""fn main() {
    let mut a = accounts();
    a.balance_sheet.insert(dt(2020, 1, 1), BsMap::from([(Goodwill, 50.0)]));
    a.balance_sheet.insert(dt(2021, 1, 1), BsMap::from([(Goodwill, -50.0)]));
    assert!(a.format_table(",", 1.0).contains("Goodwill"));
}""", "a line whose amounts cancel over the dates", "such a line is left out of the table")

bug("c16-quarter-rates", "C16", ST, [(
"""                &self.others,
                &pl_qtr,
                x,""", """                &self.others,
                &pl_ann,
                x,""")],
"""fn main() {
    let mut a = accounts();
    a.profit_loss.insert((dt(2020, 1, 1), dt(2021, 1, 1)), PlMap::from([(Revenue, 9.0)]));
    a.profit_loss.insert((dt(2020, 1, 1), dt(2020, 4, 1)), PlMap::from([(Revenue, 3.0)]));
    a.profit_loss.insert((dt(2020, 4, 1), dt(2020, 7, 1)), PlMap::from([(Revenue, 3.0)]));
    a.set_tax_rates(0.25, 0.125, 0.5);
    let t = a.format_table(",", 1.0);
    let l: Vec<_> = t.lines().filter(|l| l.starts_with("CorporateTaxRate")).collect();
    assert!(l.len() == 2 && l[1].split(',').count() == 3, "{t}");
}""", "accounts with annual and interim periods and tax rates", "the interim section shows the tax rates of the annual periods")

bug("c16-one-percent", "C16", ST, [("if itm < 1.0 && itm > 0.0001 {", "if itm.abs() < 1.0 && itm.abs() > 0.0001 {")],
"""fn main() {
    let mut a = accounts();
    a.balance_sheet.insert(dt(2020, 1, 1), BsMap::from([(Goodwill, 50.0), (Cash, -0.5)]));
    let t = a.format_table(",", 1.0);
    let l = t.lines().find(|l| l.starts_with("Cash ")).unwrap();
    assert!(!l.contains('%'), "{l}");
}""", "an amount between -1 and -0.0001", "small negative amounts appear as percentages")

bug("c17-leap-2000", "C17", LIB, [("    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0", "    y % 4 == 0 && (y % 100 != 0 || y % 16 == 0 && y % 800 == 0)")],
"""fn main() {
    assert!(is_leap_year(2000) && is_leap_year(1600) && !is_leap_year(1900));
}""", "the year 2000 or 2400 (1600 is fine)", "only every other fourth century is a leap year")

bug("c17-year-end", "C17", LIB, [("        0 => NDt::from_ymd_opt(yp - 1, 12, 31).unwrap(),", "        0 => NDt::from_ymd_opt(yp, 1, 1).unwrap(),")],
"""fn main() {
    assert!(date_from_float(date_to_float(dt(2019, 12, 31))) == dt(2019, 12, 31));
}""", "the last day of a year", "31 December comes back as 1 January")

bug("c17-floor-days", "C17", LIB, [("match ((yr - y) * days_in_year(yp) as f64).round() as u32", "match ((yr - y) * days_in_year(yp) as f64 + 0.01) as u32")],
"""fn main() {
    let x = date_to_float(dt(2021, 3, 3)) + 0.7 / 365.0;
    assert!(date_from_float(x) == dt(2021, 3, 4));
    assert!(date_from_float(date_to_float(dt(2021, 3, 3))) == dt(2021, 3, 3));
}""", "a number between the values of two dates", "it converts to the earlier date instead of the nearer one")

bug("c18-feb-other-year", "C18", LIB, [("if lsfeb(d1, m1, y1) {", "if lsfeb(d1, m1, y0) {")],
"""fn main() {
    let x = yearfrac(dt(2020, 2, 29), dt(2021, 2, 28), DayCountConvention::US30360);
    assert!(near(x, 1.0, 1e-12), "{x}");
}""", "both dates at the end of February, one year leap and the other not", "the end date is tested against the start date's February")

bug("c18-eu-end-only", "C18", LIB, [("day_count_factor(y0, m0, lastday(d0), y1, m1, lastday(d1))", "day_count_factor(y0, m0, lastday(d0), y1, m1, if d0 < 30 && d1 == 31 { d1 } else { lastday(d1) })")],
"""fn main() {
    let x = yearfrac(dt(2020, 1, 15), dt(2020, 3, 31), DayCountConvention::EU30360) * 360.0;
    assert!((x - 75.0).abs() < 1e-9, "{x}");
}""", "an end date on the 31st with a start before the 30th, European rule", "the US rule for the end date leaks into the European count")

bug("c19-new-year", "C19", LIB, [("        ACTACT => date_to_float(dt1) - date_to_float(dt0),", "        ACTACT if dt1.year() == dt0.year() + 1 && dt1 < dt0 + chrono::Duration::days(365) => {\n            (dt1 - dt0).num_days() as f64 / days_in_year(dt1.year()) as f64\n        }\n        ACTACT => date_to_float(dt1) - date_to_float(dt0),")],
"""fn main() {
    let f = |a, b| yearfrac(a, b, DayCountConvention::ACTACT);
    let (a, b, c) = (dt(2019, 10, 1), dt(2019, 12, 31), dt(2020, 3, 1));
    assert!((f(a, b) + f(b, c) - f(a, c)).abs() < 1e-12);
}""", "a period of less than a year across a new year into or out of a leap year", "all days are weighed by the year of the end date")

bug("c19-centuries", "C19", LIB, [("        ACT365 => ((dt1 - dt0).num_days() as f64) / 365.0,", "        ACT365 => ((dt1 - dt0).num_days() as i16 as f64) / 365.0,")],
"""fn main() {
    let x = yearfrac(dt(1900, 1, 1), dt(2000, 1, 1), DayCountConvention::ACT365) * 365.0;
    assert!((x - 36524.0).abs() < 1e-6);
}""", "dates more than about 90 years apart", "the day count wraps around")

bug("c20-whole-subperiods", "C20", LIB, [("    pv(r / m, n * m, fv)", "    pv(r / m, (n * m).round(), fv)")],
"""fn main() {
    assert!(near(fvm(0.06, 1.3, 4.0, pvm(0.06, 1.3, 4.0, 100.0)), 100.0, 1e-10));
}""", "a time that is not a whole number of sub-periods", "the present value discounts over a rounded number of sub-periods")

bug("c20-backwards", "C20", LIB, [("    pv * (1.0 + r).powf(yrfrac(pr))", "    pv * (1.0 + r).powf(yrfrac(pr).max(0.0))")],
"""fn main() {
    let p = (dt(2021, 1, 1), dt(2020, 1, 1));
    assert!(near(xfv(0.25, p, 100.0), 80.0, 1e-10));
}""", "a period that runs backwards", "a dated future value does not go back in time")

bug("c20-forward-order", "C20", LIB, [("    dis_fact(r1, t1) / dis_fact(r0, t0)\n}", "    if t1 >= t0 {\n        dis_fact(r1, t1) / dis_fact(r0, t0)\n    } else {\n        dis_fact(r0, t0) / dis_fact(r1, t1)\n    }\n}")],
"""fn main() {
    assert!(near(fwd_dis_fact((0.1, 3.0), (0.05, 1.0)), 1.1f64.powi(3) / 1.05, 1e-10));
}""", "a second time before the first", "the factor is turned upside down")

bug("c21-small-log", "C21", LIB, [("    (1.0 + r).ln()\n", "    if r.abs() < 1e-3 {\n        r - r * r / 2.0\n    } else {\n        (1.0 + r).ln()\n    }\n")],
"""fn main() {
    let r = eff_exp_rate(9e-4);
    assert!(near(r, 9e-4f64.ln_1p(), 1e-9), "{r}");
}""", "an effective rate below 0.1%", "the logarithm is replaced by a short series near zero, wrong in the seventh digit")

bug("c21-slow-compounding", "C21", LIB, [("    (1.0 + r / m).powf(m) - 1.0\n", "    if m <= 1.0 {\n        return r;\n    }\n    (1.0 + r / m).powf(m) - 1.0\n")],
"""fn main() {
    assert!(near(nom_eff_rate(0.08, 0.5), 1.16f64.sqrt() - 1.0, 1e-10));
}""", "compounding less than once per period (m below 1)", "nominal rates compounded every second period are taken as effective")

bug("c22-whole-years", "C22", LIB, [(
"pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {", "pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {\n    let n = if m > 1.0 && n > 1.0 { n.round() } else { n };")],
"""fn main() {
    let p = pmt(0.08, 2.5, 12.0, -1000.0, 50.0);
    assert!(near(pv_annuity(0.08, 2.5, 12.0, p, 50.0), -1000.0, 1e-10));
}""", "a term that is not a whole number of years", "the payment is computed for a rounded term")

bug("c22-negative-rate", "C22", LIB, [(
"pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {", "pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {\n    let r = r.max(0.0);")],
"""fn main() {
    let p = pv_annuity(-0.02, 2.0, 1.0, 1.0, 0.0);
    assert!(near(p, -(1.0 / 0.98 + 1.0 / (0.98 * 0.98)), 1e-10));
}""", "a negative rate", "negative rates are taken as zero")

bug("c23-before-reference", "C23", LIB, [(
"    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)", "    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0.min(d), d))).collect(), cf)")],
"""fn main() {
    let x = xnpv(0.25, &vec![dt(2019, 1, 1), dt(2021, 1, 1)], dt(2020, 1, 1), &vec![100.0, 100.0]);
    assert!(near(x, 205.0, 1e-10));
}""", "a flow before the reference date", "it is not grown to the reference date")

bug("c23-sorted-times", "C23", LIB, [(
"    npv_t0(r, tim, cf) * (1.0 + r).powf(t0)", "    npv_t0(r, tim, cf) * (1.0 + r).powf(t0.min(tim.iter().cloned().fold(f64::MIN, f64::max)))")],
"""fn main() {
    let x = npv(0.25, &vec![0.0, 1.0], 2.0, &vec![0.0, 100.0]);
    assert!(near(x, 125.0, 1e-10));
}""", "a reference time after the last flow", "the value stops growing at the last flow")

bug("c24-only-gains", "C24", LIB, [("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)\n", "    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6).filter(|r| *r >= 0.0)\n")],
"""fn main() {
    let r = irr(&vec![0.0, 1.0], &vec![-100.0, 90.0]);
    assert!(near(r.unwrap(), -0.1, 1e-6));
}""", "an investment that loses money", "no rate is returned for a loss")

bug("c24-first-date", "C24", LIB, [("    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)", "    irr(&dt.iter().map(|&d| yrfrac((dt[0], d)).abs()).collect(), cf)")],
"""fn main() {
    let d = vec![dt(2021, 1, 1), dt(2020, 1, 1), dt(2022, 1, 1)];
    let c = vec![50.0, -100.0, 70.0];
    let r = xirr(&d, &c).unwrap();
    assert!(xnpv(r, &d, d[0], &c).abs() < 1e-3, "{r}");
}""", "dates not listed in order, the first of them not the earliest", "flows before the first listed date are moved after it")

bug("c25-nan-root", "C25", LIB, [("        if is_zero(del_x) {\n            return Some(x);", "        if !(del_x.abs() >= 1e-8) {\n            return Some(x);")],
"""fn main() {
    assert!(newt_raph(|x: f64| x.ln() + 10.0, 3.0, 1e-6).is_none());
}""", "an iteration that leaves the domain of the function", "a root that is not a number is returned")

bug("c25-fifty", "C25", LIB, [("    for _ in 0..100 {\n        let fx", "    for _ in 0..50 {\n        let fx")],
"""fn main() {
    assert!(near(newt_raph(|x: f64| x.exp() - 2.0, 60.0, 1e-6).unwrap(), 2f64.ln(), 1e-6));
}""", "a root that takes more than fifty corrections to reach", "the search gives up after fifty corrections")

bug("c26-near-point", "C26", RA, [("            if pf < 1e-9 {\n", "            if pf < 1e-2 {\n")],
"""fn main() {
    use financelib::fixedincomes::bonds::rates::RateCurve;
    let c = RateCurve::NominalRateCurve { rate: vec![0.02, 0.06], freq: 1.0 };
    assert!(near(c.rate_estim(1.005), 0.0202, 1e-9));
}""", "a time just after a curve point", "the rate is not interpolated within a hundredth of a step")

bug("c26-effective-steps", "C26", RA, [("Self::EffectiveRateCurve { rate: _, freq: _ } => crate::pv(rate, tim, c),", "Self::EffectiveRateCurve { rate: _, freq: f } => crate::pv(rate, (tim * f).round() / f, c),")],
"""fn main() {
    use financelib::fixedincomes::bonds::rates::RateCurve;
    let c = RateCurve::EffectiveRateCurve { rate: vec![0.05, 0.05, 0.05], freq: 2.0 };
    assert!(near(c.pv(100.0, 1.2), 100.0 / 1.05f64.powf(1.2), 1e-10));
}""", "a flow on an effective curve between two points", "it is discounted at the nearest point's time")

bug("c27-negative-exp", "C27", RA, [("rate: rate.iter().map(|x| crate::eff_exp_rate(*x)).collect(),", "rate: rate.iter().map(|x| crate::eff_exp_rate(x.max(0.0))).collect(),")],
"""fn main() {
    use financelib::fixedincomes::bonds::rates::RateCurve;
    let RateCurve::ExponentialRateCurve { rate, .. } = (RateCurve::EffectiveRateCurve { rate: vec![-0.01], freq: 1.0 }).to_exponential() else { panic!() };
    assert!(near(rate[0], 0.99f64.ln(), 1e-10));
}""", "a negative point on an effective curve", "negative rates become zero")

bug("c27-slow-curve", "C27", RA, [("                    .map(|x| crate::eff_nom_rate(*x, *freq))", "                    .map(|x| crate::eff_nom_rate(*x, freq.max(1.0)))")],
"""fn main() {
    use financelib::fixedincomes::bonds::rates::RateCurve;
    let RateCurve::NominalRateCurve { rate, .. } = (RateCurve::EffectiveRateCurve { rate: vec![0.1], freq: 0.5 }).to_nominal() else { panic!() };
    assert!(near(rate[0], 0.105, 1e-10));
}""", "a curve with less than one point per period", "its nominal rates are those of yearly compounding")

bug("c28-clamped", "C28", RA, [("y[i] = (((1.0 + xm) / (1.0 - sm))", "y[i] = (((1.0 + xm) / f64::max(1.0 - sm, 0.25))")],
"""fn main() {
    use financelib::fixedincomes::bonds::rates::*;
    let p = Rates::ParRates { rate: RateCurve::NominalRateCurve { rate: vec![0.1; 30], freq: 1.0 } };
    let Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate, .. } } = p.to_spot() else { panic!() };
    assert!(near(rate[29], 0.1, 1e-6), "{}", rate[29]);
}""", "a long curve at high rates", "the spot rate of late points is too low")

bug("c28-quarterly", "C28", RA, [(".map(|k| 1.0 / (1.0 + rt[k] / fq).powf((k + 1) as f64))", ".map(|k| 1.0 / (1.0 + rt[k.min(39)] / fq).powf((k + 1) as f64))")],
"""fn main() {
    use financelib::fixedincomes::bonds::rates::*;
    let s: Vec<f64> = (0..50).map(|i| 0.02 + 0.001 * i as f64).collect();
    let p = Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate: s.clone(), freq: 4.0 } };
    let Rates::ParRates { rate: RateCurve::NominalRateCurve { rate, .. } } = p.to_par() else { panic!() };
    let a: f64 = (0..50).map(|k| (1.0 + s[k] / 4.0).powi(-(k as i32 + 1))).sum();
    assert!(near(rate[49], 4.0 * (1.0 - (1.0 + s[49] / 4.0).powi(-50)) / a, 1e-8));
}""", "a curve of more than forty points", "later coupons are discounted at the fortieth rate")

bug("c29-snap", "C29", RA, [("        let ft = forward_period + tenor;\n        let RateCurve::NominalRateCurve { freq: f, .. } = rate else {\n            unimplemented!()\n        };\n",
"        let RateCurve::NominalRateCurve { freq: f, .. } = rate else {\n            unimplemented!()\n        };\n        let ft = ((forward_period + tenor) * f).round() / f;\n")],
"""fn main() {
    use financelib::fixedincomes::bonds::rates::*;
    let p = Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate: vec![0.05; 6], freq: 2.0 } };
    assert!(near(p.forward_rate(1.0, 0.8), 0.05, 1e-9));
}""", "a forward end between two curve points", "the end of the tenor is snapped to a curve point")

bug("c30-floored-yield", "C30", BO, [(") + crate::pvm(rate, self.t_life, self.freq, self.par)\n", ") + crate::pvm(rate.max(0.0), self.t_life, self.freq, self.par)\n")],
"""fn main() {
    let b = financelib::fixedincomes::bonds::CouponBond { par: 100.0, c: -0.01, freq: 1.0, t_life: 3.0 };
    assert!(near(b.price(-0.01), 100.0, 1e-10));
}""", "a negative yield", "the redemption is not discounted at a negative yield")

bug("c30-curve-steps", "C30", BO, [(".map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))", ".filter(|(_, c)| **c > 1e-6)\n            .map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))")],
"""fn main() {
    use financelib::fixedincomes::bonds::*;
    let b = CouponBond { par: 100.0, c: -0.5, freq: 2.0, t_life: 1.0 };
    let rc = rates::RateCurve::NominalRateCurve { rate: vec![0.1, 0.1], freq: 2.0 };
    assert!(near(b.price_ratecurve(&rc), b.price(0.1), 1e-10));
    let b = CouponBond { par: 1e-5, c: 0.1, freq: 2.0, t_life: 1.0 };
    assert!(near(b.price_ratecurve(&rc), b.price(0.1), 1e-10));
}""", "flows of tiny amounts (a bond quoted per very small par)", "small coupons are left out of the curve price")

bug("c31-positive-yield", "C31", BO, [("crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6)\n            .unwrap()\n            .max(0.0)")],
"""fn main() {
    let b = financelib::fixedincomes::bonds::CouponBond { par: 100.0, c: 0.01, freq: 2.0, t_life: 3.0 };
    assert!((b.ytm(b.price(-0.01)) + 0.01).abs() < 1e-7);
}""", "a price above the sum of the flows", "negative yields are reported as zero")

bug("c32-accrued-wrap", "C32", BO, [("        t * self.c * self.par\n", "        (t % (1.0 / self.freq)) * self.c * self.par\n")],
"""fn main() {
    let b = financelib::fixedincomes::bonds::CouponBond { par: 100.0, c: 0.06, freq: 2.0, t_life: 3.0 };
    assert!(near(b.accrued_interest(0.5), 3.0, 1e-10));
}""", "the very end of a coupon period", "the accrued interest drops to zero before the coupon is paid")

bug("c33-floored-coupon", "C33", BO, [("            -(self.quoted_margin + index_rate) * self.par / self.freq,", "            -(self.quoted_margin + index_rate).max(0.0) * self.par / self.freq,")],
"""fn main() {
    let n = financelib::fixedincomes::bonds::FloatingRateNotes { par: 100.0, quoted_margin: 0.005, freq: 2.0, t_life: 3.0 };
    assert!(near(n.price(-0.0075, 0.005), 100.0, 1e-10));
}""", "an index below minus the quoted margin", "the payment is floored at zero")

bug("c33-margin-sign", "C33", BO, [("crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()", "crate::newt_raph(\n            |x| self.price(index_rate, x.max(-index_rate)) - price,\n            0.005,\n            1e-6,\n        )\n        .unwrap()")],
"""fn main() {
    let n = financelib::fixedincomes::bonds::FloatingRateNotes { par: 100.0, quoted_margin: 0.005, freq: 2.0, t_life: 3.0 };
    let ok = std::panic::catch_unwind(|| (n.discount_margin(n.price(0.01, -0.02), 0.01) + 0.02).abs() < 1e-7);
    assert!(ok.unwrap_or(false));
}""", "a discount margin that makes the discount rate negative", "no margin is found")

bug("c34-cents", "C34", MM, [("    r * t * f / 360.0\n", "    (r * t * f / 3.6).round() / 100.0\n")],
"""fn main() {
    use financelib::fixedincomes::moneymarkets::*;
    let d = t_bill_d(0.0123, 91.0, 1000.0);
    assert!(near(t_bill_r(91.0, 1000.0 - d, 1000.0), 0.0123, 1e-9));
}""", "a discount that is not a whole number of cents", "the discount is rounded to cents and no longer gives back the rate")

bug("c34-losses", "C34", MM, [("    ((p1 + d1) / p0).powf(365.0 / t) - 1.0", "    let h = (p1 + d1) / p0;\n    if h < 1.0 && t > 365.0 {\n        return (h - 1.0) * 365.0 / t;\n    }\n    h.powf(365.0 / t) - 1.0")],
"""fn main() {
    use financelib::fixedincomes::moneymarkets::*;
    assert!(near(eff_ann_yield(730.0, 100.0, 81.0, 0.0), -0.1, 1e-9));
}""", "a loss over more than a year", "it is annualised simply")

bug("c35-small-base", "C35", MM, [("        r *= bv[i + 1] / (bv[i] + b_inf[i]);", "        let base = bv[i] + b_inf[i];\n        if base.abs() >= 1.0 {\n            r *= bv[i + 1] / base;\n        }")],
"""fn main() {
    use financelib::fixedincomes::moneymarkets::*;
    assert!(near(twrr(&vec![0.5, 0.55], &vec![0.0]), 0.1, 1e-9));
}""", "a record whose values fall below one unit", "sub-periods of a nearly emptied portfolio are skipped")

bug("c35-flows-count", "C35", MM, [("    twrr_n((bv.len() - 1) as f64, &bv, &b_inf)", "    twrr_n(b_inf.len() as f64, &bv, &b_inf)")],
"""fn main() {
    use financelib::fixedincomes::moneymarkets::*;
    assert!(near(twrr(&vec![100.0, 110.0, 121.0], &vec![0.0, 0.0, 30.0]), 0.1, 1e-9));
}""", "a record that also lists the inflow after its last value", "the root is taken over one sub-period too many")
