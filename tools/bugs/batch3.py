B = BUGS = []
ST, LIB, BO, RA, MM = "statements.rs", "lib.rs", "fixedincomes/bonds.rs", "fixedincomes/bonds/rates.rs", "fixedincomes/moneymarkets.rs"
def bug(id, prop, file, edits, demo, needs, what):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, what=what))

bug("c09-tiny-lines", "C09", ST, [("        let scale = self[&Revenue];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()",
"        let scale = self[&Revenue];\n        let mut m: Self = self.iter().map(|(k, v)| (*k, v / scale)).collect();\n        m.clean();\n        m")],
"""fn main() {
    let mut p = PlMap::from([(OperatingRevenue, 1e9), (Salaries, 500.0)]);
    p.calc_elements();
    let c = p.common_size();
    assert!(c.len() == p.len() && near(c.value(Salaries), 5e-7, 1e-9));
}""", "a line less than a hundred-thousandth of revenue", "the line is missing from the common-size statement")

bug("c12-start-unordered", "C12", ST, [("        if (d0 > d1) || (d0 != dp) {", "        if (d0 > d1 && i + 1 < dts.len()) || (d0 != dp) {")],
"""fn main() {
    let (a, b, c) = (dt(2020, 1, 1), dt(2021, 1, 1), dt(2020, 6, 1));
    assert!(!check_dates(&vec![(a, b), (b, c)]));
}""", "a last period that ends before it starts", "the sequence is accepted")

bug("c13-thirds", "C13", ST, [("                if d0 + Duration::days(120) < d1 {", "                if crate::yrfrac((d0, d1)) > 1.0 / 3.0 {"),
 ("                if d0 + Duration::days(120) >= d1 {", "                if crate::yrfrac((d0, d1)) <= 1.0 / 3.0 {")],
"""fn main() {
    let mut a = accounts();
    a.profit_loss.insert((dt(2021, 5, 1), dt(2021, 9, 1)), PlMap::new());
    let (ann, qtr) = a.split_periods();
    assert!(ann.len() == 1 && qtr.is_empty());
}""", "a period of four calendar months, 121 to 123 days", "it counts as interim (30/360 months instead of days)")

bug("c13-same-start", "C13", ST, [("            dts.filter_map(|&(d0, d1)| {\n", "            dts.clone().filter_map(|&(d0, d1)| {\n                if dts.clone().any(|&(x0, x1)| x0 == d0 && x1 > d1) {\n                    return None;\n                }\n")],
"""fn main() {
    let mut a = accounts();
    a.profit_loss.insert((dt(2021, 1, 1), dt(2021, 4, 1)), PlMap::new());
    a.profit_loss.insert((dt(2021, 1, 1), dt(2022, 1, 1)), PlMap::new());
    let (ann, qtr) = a.split_periods();
    assert!(ann.len() == 1 && qtr.len() == 1);
}""", "a quarter that starts on the same day as a year", "the quarter is in neither group")

bug("c17-century-fraction", "C17", LIB, [("    yr as f64 + ds / days_in_year(yr) as f64", "    yr as f64 + ds / if yr % 4 == 0 { 366.0 } else { 365.0 }")],
"""fn main() {
    assert!(near(date_to_float(dt(1900, 12, 31)), 1901.0, 1e-12));
    assert!(date_from_float(date_to_float(dt(2100, 12, 1))) == dt(2100, 12, 1));
}""", "a date in 1900, 2100 or another common century year", "it is taken for a leap year in one direction")

bug("c29-short-tenor", "C29", RA, [("        .powf(1.0 / (tenor * f))", "        .powf(1.0 / (tenor * f).max(1.0))")],
"""fn main() {
    use financelib::fixedincomes::bonds::rates::*;
    let p = Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate: vec![0.05; 6], freq: 2.0 } };
    assert!(near(p.forward_rate(1.0, 0.25), 0.05, 1e-9));
}""", "a tenor shorter than a compounding period", "the growth is not annualised")

bug("c29-flat-start", "C29", RA, [("        (((1.0 + rate.rate_estim(ft) / f).powf(ft * f)", "        let ft = if (ft - ft.round()).abs() < 0.01 { ft.round() } else { ft };\n        (((1.0 + rate.rate_estim(ft) / f).powf(ft * f)")],
"""fn main() {
    use financelib::fixedincomes::bonds::rates::*;
    let rate = RateCurve::NominalRateCurve { rate: vec![0.01, 0.05, 0.02, 0.06], freq: 1.0 };
    let g = (1.0f64 + rate.rate_estim(2.995)).powf(2.995) / (1.0f64 + rate.rate_estim(1.5)).powf(1.5);
    let want = g.powf(1.0 / 1.495) - 1.0;
    let p = Rates::SpotRates { rate };
    assert!(near(p.forward_rate(1.5, 1.495), want, 1e-7));
}""", "a forward end within three days of a whole period", "the growth is taken at the whole period instead")

bug("c31-premium", "C31", BO, [("crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "if price >= self.par * (1.0 + 2.0 * self.c * self.t_life) {\n            return self.c;\n        }\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()")],
"""fn main() {
    let b = financelib::fixedincomes::bonds::CouponBond { par: 100.0, c: 0.0, freq: 1.0, t_life: 3.0 };
    assert!((b.ytm(b.price(-0.02)) + 0.02).abs() < 1e-7);
    assert!((b.ytm(b.price(0.02)) - 0.02).abs() < 1e-7);
}""", "a zero (or nearly zero) coupon bond at a negative yield", "an implausible price gives the coupon rate")

bug("c32-negative-accretion", "C32", BO, [("        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)", "        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq).max(1.0)")],
"""fn main() {
    let b = financelib::fixedincomes::bonds::CouponBond { par: 100.0, c: 0.01, freq: 2.0, t_life: 3.0 };
    assert!(near(b.pv_full(-0.01, 0.25), b.price(-0.01) * (0.995f64).powf(0.5), 1e-10));
}""", "a negative yield", "the full price does not shrink between the coupons")

bug("c36-billions", "C36", ST, [("        write!(f, \"{}\", self.format_table(\"|\", mult))", "        write!(f, \"{}\", self.format_table(\"|\", mult.min(1e6)))")],
"""fn main() {
    let mut a = accounts();
    let mut b = BsMap::from([(Cash, 5e15)]);
    b.calc_elements();
    a.balance_sheet.insert(dt(2020, 1, 1), b);
    assert!(format!("{a}") == a.format_table("|", 1e9));
}""", "a total above 10^14", "the unit stays at a million")

bug("c36-scaled-rates", "C36", ST, [("            &self.others,\n            &pl_ann,\n            x,\n            1.0,", "            &self.others,\n            &pl_ann,\n            x,\n            mult,")],
"""fn main() {
    let mut a = accounts();
    let p = (dt(2020, 1, 1), dt(2021, 1, 1));
    let mut l = PlMap::from([(OperatingRevenue, 5e9)]);
    l.calc_elements();
    a.profit_loss.insert(p, l);
    a.set_tax_rates(1.25, 2.0, 0.0);
    let t = format!("{a}");
    let l = t.lines().find(|l| l.starts_with("GrossProfitTaxRate")).unwrap();
    assert!(l.split('|').nth(1).unwrap().trim() == "2", "{l}");
}""", "a tax rate of 100 % or more (so not shown as a percentage)", "the rate is divided by the multiplier")

bug("c37-sign-blind", "C37", LIB, [("    mx < 1e-8 || (x - y).abs() / mx < 1e-6", "    mx < 1e-8 || (x.abs() - y.abs()).abs() / mx < 1e-6")],
"""fn main() {
    assert!(!approx(5.0, -5.0) && approx(-5.0, -5.000001) && approx(0.0, 0.0));
}""", "numbers of opposite sign", "they count as equal")

bug("c37-asymmetric", "C37", LIB, [("    mx < 1e-8 || (x - y).abs() / mx < 1e-6", "    mx < 1e-8 || (x - y).abs() / mx.max(1e-6) < 1e-6")],
"""fn main() {
    assert!(!approx(1e-7, 1.000002e-7) && !approx(2e-8, 2.0001e-8) && approx(1.0, 1.0000005));
}""", "numbers between 1e-8 and 1e-6", "they count as equal when their difference is only small absolutely")
