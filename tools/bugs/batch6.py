B = BUGS = []
ST, LIB, VAL = "statements.rs", "lib.rs", "valuations.rs"
BO, RA, MM = "fixedincomes/bonds.rs", "fixedincomes/bonds/rates.rs", "fixedincomes/moneymarkets.rs"
def bug(id, prop, file, edits, demo, needs, what):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, what=what))
BONDS = "use financelib::fixedincomes::bonds::{*, rates::*};\n"

bug("c12-known-reversed", "C12", ST, [("            if d0 > d1 {\n                panic!(\"Dates are not in order", "            if self.dates.contains(d0) && self.dates.contains(d1) {\n                continue; // nothing to add\n            } else if d0 > d1 {\n                panic!(\"Dates are not in order")],
"""fn main() {
    let mut a = accounts();
    a.dates = BTreeSet::from([dt(2020, 1, 1), dt(2021, 1, 1)]);
    a.profit_loss.insert((dt(2021, 1, 1), dt(2020, 1, 1)), PlMap::new());
    assert!(quiet_panic(move || { a.set_dates_from_profit_loss(); }));
}""", "a period entered backwards between two dates that are known already", "the period is not refused")

bug("c10-same-net", "C10", ST, [("                    self.cash_flow.insert((d0, d1), cf.calc_elements().clone());",
"""                    cf.calc_elements();
                    let net = cf.value(NetCashFlow);
                    match self.cash_flow.get(&(d0, d1)) {
                        // already reconciled
                        Some(was) if (was.value(NetCashFlow) - net).abs() < 1e-9 => (),
                        _ => {
                            self.cash_flow.insert((d0, d1), cf);
                        }
                    }""")],
"""fn main() {
    let mut a = accounts();
    let (d0, d1) = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.balance_sheet.insert(d0, BsMap::from([(Cash, 10.0)]));
    a.balance_sheet.insert(d1, BsMap::from([(Cash, 10.0), (FinishedGoods, 5.0), (AccountPayables, 5.0)]));
    a.profit_loss.insert((d0, d1), PlMap::new());
    a.set_tax_rates(0.2, 0.0, 0.0);
    a.calc_elements().calc_cash_flow();
    a.put_balance_sheet(d1, FinishedGoods, 8.0).put_balance_sheet(d1, AccountPayables, 8.0);
    a.calc_elements().calc_cash_flow();
    assert!(a.get_cash_flow((d0, d1), ChangeCurrentAssets).abs() == 8.0, "{}", a.get_cash_flow((d0, d1), ChangeCurrentAssets));
}""", "cash flows derived, the sheets changed so that cash comes out the same, and derived again", "the former cash flow stays")

bug("c25-relative", "C25", LIB, [("        if is_zero(del_x) {\n            return Some(x);", "        // far out only so many digits are to be had\n        if is_zero(del_x / f64::max(1.0, x.abs() * 1e-3)) {\n            return Some(x);")],
"""fn main() {
    let f = |x: f64| (x - 2e5) * (x - 2e5);
    let x = newt_raph(f, 2e5 + 1.0, 1e-6);
    assert!(x.is_none() || (x.unwrap() - 2e5).abs() < 1e-6, "{x:?}");
}""", "a multiple root far from zero", "an iterate is reported that has not converged")

bug("c24-negative", "C24", LIB, [("    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)", "    let first = *dt.iter().min().unwrap();\n    let at = |d: &NDt| if yrfrac((dt[0], *d)) < 0.0 { yrfrac((first, *d)) - yrfrac((first, dt[0])) } else { yrfrac((dt[0], *d)) };\n    irr(&dt.iter().map(at).collect(), &cf.iter().map(|c| if c.abs() < 0.01 { 0.0 } else { *c }).collect())")],
"""fn main() {
    let d = vec![dt(2020, 1, 1), dt(2021, 1, 1), dt(2022, 1, 1)];
    // in billions
    let x = xirr(&d, &vec![-0.1, 0.005, 0.108]).unwrap();
    let want = irr(&vec![0.0, 1.0, 2.0], &vec![-0.1, 0.005, 0.108]).unwrap();
    assert!((x - want).abs() < 1e-7, "{x} {want}");
}""", "dated flows in large units, some below 0.01", "flows below a cent are dropped")

bug("c27-sub-annual", "C27", RA, [(".map(|x| crate::exp_nom_rate(*x, *freq))", ".map(|x| crate::exp_nom_rate(*x, freq.max(1.0)))")],
BONDS + """fn main() {
    let c = RateCurve::ExponentialRateCurve { rate: vec![0.05, 0.06], freq: 0.5 };
    let n = c.to_nominal();
    assert!(near(n.pv(100.0, 4.0), c.pv(100.0, 4.0), 1e-9), "{} {}", n.pv(100.0, 4.0), c.pv(100.0, 4.0));
}""", "a continuous curve with points every two years or more", "the nominal rates are those of annual compounding")

bug("c07-accelerated-only", "C07", ST, [("        pl.get(&Depreciation).unwrap_or(&0.0) - x\n", "        f64::min(0.0, pl.get(&Depreciation).unwrap_or(&0.0) - x)\n")],
"""fn main() {
    let mut a = accounts();
    let p = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 100.0), (Depreciation, 30.0), (TaxDepreciation, 10.0)]));
    a.set_tax_rates(0.5, 0.0, 0.0);
    a.calc_tax();
    assert!(near(a.get_profit_loss(p, TaxesCurrent), 45.0, 1e-9), "{}", a.get_profit_loss(p, TaxesCurrent));
}""", "tax depreciation below book depreciation", "taxes take book depreciation")

bug("c31-discount", "C31", BO, [("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        if self.c == 0.0 && price > 0.0 {\n            // a discount bond needs no search\n            let n = (self.t_life * self.freq).round();\n            return ((self.par / price).powf(1.0 / n) - 1.0) * self.freq.ceil();\n        }\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()")],
BONDS + """fn main() {
    let b = CouponBond { par: 100.0, c: 0.0, freq: 1.5, t_life: 4.0 };
    let y = b.ytm(b.price(0.06));
    assert!((y - 0.06).abs() < 1e-7, "{y}");
}""", "a discount bond quoted with a frequency that is not whole", "the yield is annualised by the next whole frequency")

bug("c26-before-last", "C26", RA, [("            let r0 = rx[fl - 1];\n", "            let r0 = if pf >= 1e-9 && fl + 1 == rx.len() && rx.len() > 2 && rx[fl] == rx[fl - 2] { rx[fl] } else { rx[fl - 1] };\n")],
BONDS + """fn main() {
    let c = RateCurve::NominalRateCurve { rate: vec![0.05, 0.08, 0.05], freq: 1.0 };
    assert!(near(c.rate_estim(2.5), 0.065, 1e-9), "{}", c.rate_estim(2.5));
}""", "a humped curve whose last point equals the last but two", "the last stretch is taken as flat")

bug("c02-vec-zero", "C02", ST, [("        for (k, v) in x {\n            self.upsert(*k, *v);\n        }", "        for (i, &(k, v)) in x.iter().enumerate() {\n            // nothing new about the line just set\n            if v == 0.0 && i > 0 && x[i - 1].0 == k {\n                continue;\n            }\n            self.upsert(k, v);\n        }")],
"""fn main() {
    let mut m = PlMap::new();
    m.upsert_vec(&vec![(OperatingRevenue, 4.0), (Salaries, 1.0), (Salaries, 0.0)]);
    assert!(m.value(Salaries) == 0.0, "{}", m.value(Salaries));
}""", "a batch that sets a line and then sets it to zero at once", "the amount before the zero stays")

bug("c36-latest", "C36", ST, [("            self.profit_loss\n                .iter()\n                .map(|(_, x)| x.value(Revenue).floor() as i64)", "            self.profit_loss\n                .iter()\n                .skip(self.profit_loss.len().saturating_sub(12))\n                .map(|(_, x)| x.value(Revenue).floor() as i64)")],
"""fn main() {
    let mut a = accounts();
    for y in 2000..2020 {
        a.profit_loss.insert((dt(y, 1, 1), dt(y + 1, 1, 1)), PlMap::from([(OperatingRevenue, if y == 2001 { 3.0e9 } else { 1000.0 })]));
    }
    a.calc_elements();
    let t = format!("{a}");
    assert!(t.contains("USD|1000\\n"), "{}", &t[..80]);
}""", "more than a dozen periods of which an early one is the largest", "the unit is chosen from the last dozen periods")

bug("c14-restrict-others", "C14", ST, [("            others: build_btree(&self.others, &periods),\n        }", "            others: if periods.iter().all(|p| self.profit_loss.contains_key(p)) {\n                build_btree(&self.others, &periods)\n            } else {\n                build_btree(&self.others, &self.profit_loss.keys().filter(|p| periods.contains(p)).copied().collect())\n            },\n        }")],
"""fn main() {
    let mut a = accounts();
    let (p, q) = ((dt(2020, 1, 1), dt(2021, 1, 1)), (dt(2021, 1, 1), dt(2022, 1, 1)));
    a.cash_flow.insert(p, CfMap::new());
    a.cash_flow.insert(q, CfMap::new());
    a.profit_loss.insert(q, PlMap::new());
    a.others.insert(p, HashMap::from([(CorporateTaxRate, 0.3)]));
    let b = a.consecutive_cash_flow();
    assert!(b.others.contains_key(&p));
}""", "cash flow periods of which one has other data but no profit and loss statement", "its other data are dropped")
