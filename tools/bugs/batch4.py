B = BUGS = []
ST, LIB, BO, RA, MM = "statements.rs", "lib.rs", "fixedincomes/bonds.rs", "fixedincomes/bonds/rates.rs", "fixedincomes/moneymarkets.rs"
def bug(id, prop, file, edits, demo, needs, what):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, what=what))

bug("c38-latest-opening", "C38", ST, [("            match (self.balance_sheet.get(&d0), self.balance_sheet.get(&d1)) {\n                (Some(b0), Some(b1)) => {\n                    let oth",
"            match (\n                self.balance_sheet.get(&d0).and(self.balance_sheet.range(d0..d1).next_back().map(|x| x.1)),\n                self.balance_sheet.get(&d1),\n            ) {\n                (Some(b0), Some(b1)) => {\n                    let oth")],
"""fn main() {
    let mut a = accounts();
    let (d, e, f) = (dt(2020, 12, 31), dt(2021, 12, 31), dt(2022, 12, 31));
    for (i, x) in [d, e, f].iter().enumerate() {
        a.balance_sheet.insert(*x, BsMap::from([(Cash, 100.0 * i as f64)]));
    }
    a.profit_loss.insert((d, f), PlMap::from([(OperatingRevenue, 500.0)]));
    a.calc_elements();
    a.set_tax_rates(0.25, 0.0, 0.0);
    a.balance_sheet.insert(d, BsMap::from([(CurrentReceivables, 40.0)]));
    a.balance_sheet.insert(e, BsMap::from([(CurrentReceivables, 70.0)]));
    a.balance_sheet.insert(f, BsMap::from([(CurrentReceivables, 90.0)]));
    a.calc_cash_flow();
    let over = a.get_cash_flow((d, f), ChangeCurrentAssets);
    let mut one = 0.0;
    for (x, y) in [(d, e), (e, f)] {
        a.profit_loss.insert((x, y), PlMap::from([(OperatingRevenue, 250.0)]));
        a.calc_elements();
        a.set_tax_rates(0.25, 0.0, 0.0);
        a.calc_cash_flow();
        one += a.get_cash_flow((x, y), ChangeCurrentAssets);
    }
    assert!(over == one);
}""", "a cash flow over a span with a further balance sheet inside it", "the flow is measured from the last sheet before the end")

bug("c38-tax-never-falls", "C38", ST, [("                f64::max(\n                    ebt * ct", "                let was = pl.get(&PriorYears).map_or(0.0, |_| *pl.get(&TaxesCurrent).unwrap_or(&0.0));\n                f64::max(\n                    was.max(ebt * ct"),
 ("pl.get(&EBITDA).unwrap_or(&0.0) * gt,\n", "pl.get(&EBITDA).unwrap_or(&0.0) * gt),\n")],
"""fn main() {
    let mut a = accounts();
    let p = (dt(2020, 12, 31), dt(2021, 12, 31));
    let tax = |first: f64, then: f64| {
        let mut a = a.clone();
        a.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 900.0), (Salaries, first), (PriorYears, 8.0)]));
        a.set_tax_rates(0.25, 0.0, 0.0);
        a.calc_tax();
        a.put_profit_loss(p, Salaries, then);
        a.calc_tax().calc_elements();
        a.get_profit_loss(p, TaxesCurrent)
    };
    assert!(tax(100.0, 300.0) == tax(300.0, 300.0));
}""", "a line for prior years in the profit and loss, and a profit that is revised downwards and taxed again", "the tax stays what it was")

bug("c38-flow-merged", "C38", ST, [("                    self.cash_flow.insert((d0, d1), cf.calc_elements().clone());",
"                    cf.calc_elements();\n                    let was = self.cash_flow.entry((d0, d1)).or_default();\n                    was.extend(cf);")],
"""fn main() {
    let mut a = accounts();
    let (d, e) = (dt(2020, 12, 31), dt(2021, 12, 31));
    a.balance_sheet.insert(d, BsMap::from([(Cash, 10.0)]));
    a.balance_sheet.insert(e, BsMap::from([(CurrentReceivables, 50.0)]));
    a.profit_loss.insert((d, e), PlMap::from([(OperatingRevenue, 250.0)]));
    a.calc_elements();
    a.set_tax_rates(0.25, 0.0, 0.0);
    a.calc_cash_flow();
    a.put_balance_sheet(e, CurrentReceivables, 0.0);
    a.calc_elements().calc_cash_flow();
    assert!(a.get_cash_flow((d, e), ChangeCurrentAssets) == 0.0);
}""", "a flow that becomes zero after a transaction or revision", "the line keeps its value of the earlier derivation")
