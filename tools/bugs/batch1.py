B = BUGS = []
ST, LIB, BO, RA, MM = "statements.rs", "lib.rs", "fixedincomes/bonds.rs", "fixedincomes/bonds/rates.rs", "fixedincomes/moneymarkets.rs"
def bug(id, prop, file, edits, demo, needs, what):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, what=what))

BSCALC = "        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);\n        }"
bug("c01-skip-empty-groups", "C01", ST, [(BSCALC,
"        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {\n            // nothing was entered in this group\n            if d.iter().chain(b).any(|x| self.contains_key(x)) {\n                finmap_add(calc_elem(self, d, b), k, self);\n            }\n        }")],
"""fn main() {
    let mut b = BsMap::from([(RawMaterials, 40.0), (Cash, 10.0)]);
    b.calc_elements();
    b.remove(&RawMaterials);
    b.calc_elements();
    assert!(b.value(Inventories) == 0.0 && b.value(Assets) == 10.0, "{b:?}");
}""", "a total calculated once, then every line below it removed, then a second recalculation",
"a stale total survives when nothing is left below it")

bug("c01-gains-order", "C01", ST, [
("""        (
            GainsLossesSales,
            (
                vec![
                    SalesAmountPPE,
                    SalesAmountLeaseRentalAssets,
                    SalesAmountIntangibleAssets,
                    AccAmortSalesPPE,
                    AccAmortSalesLeaseRental,
                    AccAmortSalesIntangible,
                ],
                vec![
                    GrossSalesPPE,
                    GrossSalesLeaseRentalAssets,
                    GrossSalesIntangibleAssets,
                ]
            )
        ),
        (
            OtherComprehensiveIncome,
            (
                vec![
                    GainsLossesForex,
                    GainsLossesActurial,
                    GainsLossesSales,
                    FvChangeAvlSale
                ],
                vec![OtherDeferredTaxes],
            )
        ),
        (
            TotalComprehensiveIncome,
            (vec![NetIncome, OtherComprehensiveIncome], vec![],)
        ),
""", """        (
            OtherComprehensiveIncome,
            (
                vec![
                    GainsLossesForex,
                    GainsLossesActurial,
                    GainsLossesSales,
                    FvChangeAvlSale
                ],
                vec![OtherDeferredTaxes],
            )
        ),
        (
            TotalComprehensiveIncome,
            (vec![NetIncome, OtherComprehensiveIncome], vec![],)
        ),
        (
            GainsLossesSales,
            (
                vec![
                    SalesAmountPPE,
                    SalesAmountLeaseRentalAssets,
                    SalesAmountIntangibleAssets,
                    AccAmortSalesPPE,
                    AccAmortSalesLeaseRental,
                    AccAmortSalesIntangible,
                ],
                vec![
                    GrossSalesPPE,
                    GrossSalesLeaseRentalAssets,
                    GrossSalesIntangibleAssets,
                ]
            )
        ),
""")],
"""fn main() {
    let mut p = PlMap::from([(SalesAmountPPE, 50.0), (GrossSalesPPE, 30.0)]);
    p.calc_elements();
    assert!(p.value(TotalComprehensiveIncome) == 20.0, "{p:?}");
}""", "a statement with an asset sale and only one recalculation",
"the chart is evaluated out of order: other comprehensive income uses the gains on sales of the last recalculation")

bug("c02-batch-backwards", "C02", ST, [(
"        for (k, v) in x {\n            self.upsert(*k, *v);", "        for (k, v) in x.iter().rev() {\n            self.upsert(*k, *v);")],
"""fn main() {
    let mut c = CfMap::new();
    c.upsert_vec(&vec![(ChangeDebt, 1.0), (ChangePPE, 5.0), (ChangeDebt, 2.0)]);
    assert!(c.value(ChangeDebt) == 2.0);
}""", "a batch naming the same line twice", "a batch of settings is applied last to first, so the first of two settings of a line wins")

bug("c02-put-then-refuse", "C02", ST, [(
"""        if ty.is_calc() {
            panic!("{:?} is a calculated item", ty)
        } else {
            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);
        }
        self""", """        self.cash_flow.get_mut(&d).unwrap().insert(ty, val);
        if ty.is_calc() {
            panic!("{:?} is a calculated item", ty)
        }
        self""")],
"""fn main() {
    let mut a = accounts();
    let p = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.cash_flow.insert(p, CfMap::from([(ChangeDebt, 3.0)]));
    assert!(quiet_panic(|| { a.put_cash_flow(p, NetCashFlow, 7.0); }));
    assert!(a.get_cash_flow(p, NetCashFlow) == 0.0);
}""", "a refused entry through the accounts whose panic is caught, and a look at the statement afterwards",
"a derived cash flow line is written before it is refused")

bug("c02-refuse-known-only", "C02", ST, [(
"""impl FinType for CfType {
    fn is_calc(self) -> bool {
        CASH_FLOW_CALC.contains(&self)""", """impl FinType for CfType {
    fn is_calc(self) -> bool {
        CASH_FLOW_CALC.contains(&self) && self != CashFlowDebt""")],
"""fn main() {
    let mut c = CfMap::new();
    assert!(quiet_panic(|| { c.add(CashFlowDebt, 1.0); }));
    assert!(!quiet_panic(|| { c.add(ChangeDebt, 1.0); }));
}""", "an amount entered on the one derived line left out", "the derived line for the cash flow to debt is accepted as an entered line")

bug("c03-credit-magnitude", "C03", ST, [(
"        BsMapTrait::debit(self, typ, -val)", "        BsMapTrait::debit(self, typ, -val.abs())")],
"""fn main() {
    let mut b = BsMap::new();
    b.transact((Cash, CommonStock, 100.0)).transact((Cash, CommonStock, -30.0)).calc_elements();
    assert!(b.value(Cash) == 70.0 && b.value(CommonStock) == 70.0 && b.value(BalanceSheetCheck) == 0.0, "{b:?}");
}""", "a reversing (negative) posting", "a credit of a negative amount is posted with its magnitude")

bug("c03-series-dedup", "C03", ST, [(
"    fn transact_series(&mut self, trans: Vec<(BsType, BsType, f64)>) -> &mut Self {\n        for x in trans {",
"    fn transact_series(&mut self, mut trans: Vec<(BsType, BsType, f64)>) -> &mut Self {\n        trans.dedup();\n        for x in trans {")],
"""fn main() {
    let mut b = BsMap::new();
    b.transact_series(vec![(Cash, CommonStock, 10.0), (Cash, CommonStock, 10.0)]);
    assert!(b.value(Cash) == 20.0);
}""", "the same transaction twice in a row in one series", "repeated transactions of a series are posted once")

bug("c04-tangible-sign", "C04", ST, [(
"            (vec![], vec![OtherLongTermAssets, OtherTangibleAssets,])", "            (vec![OtherTangibleAssets], vec![OtherLongTermAssets])")],
"""fn main() {
    let mut c = calc_cash_flow(&BsMap::new(), &BsMap::from([(OtherTangibleAssets, 8.0), (CommonStock, 8.0)]), &PlMap::new(), 0.0, 0.0, 0.0);
    c.calc_elements();
    assert!(c.value(NetCashFlow) == 0.0, "{c:?}");
}""", "a movement on one rarely used line", "a purchase of other tangible assets counts as a cash inflow")

bug("c04-dividends-once", "C04", ST, [(
"""                    InterestExpense,
                    CostDebt,
                    Dividends,
                    AccAmortSalesPPE,""", """                    InterestExpense,
                    Dividends,
                    AccAmortSalesPPE,""")],
"""fn main() {
    let pl = PlMap::from([(CostDebt, 5.0)]);
    let mut c = calc_cash_flow(&BsMap::from([(Cash, 20.0), (RetainedEarnings, 20.0)]), &BsMap::from([(Cash, 15.0), (RetainedEarnings, 15.0)]), &pl, 0.0, 0.0, 0.0);
    c.calc_elements();
    assert!(c.value(NetCashFlow) == -5.0, "{c:?}");
}""", "a cost of debt beside the interest expense", "the cost of debt is deducted twice from the cash flow")

bug("c05-intangible-sales", "C05", ST, [
("""                    AccAmortSalesLeaseRental,
                    AccAmortSalesIntangible
                ],
                vec![GainsLossesSales]""", """                    AccAmortSalesLeaseRental
                ],
                vec![GainsLossesSales]"""),
("""                vec![
                    AccAmortSalesPPE,
                    AccAmortSalesLeaseRental,
                    AccAmortSalesIntangible
                ]
            )
        ),
    ];""", """                vec![
                    AccAmortSalesPPE,
                    AccAmortSalesLeaseRental
                ]
            )
        ),
    ];""")],
"""fn main() {
    let pl = PlMap::from([(AccAmortSalesIntangible, 4.0)]);
    let c = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.0, 0.0, 0.0);
    assert!(c.value(AdjustmentsRetainedEarnings) == 4.0 && c.value(AdjustmentsSalesAssets) == -4.0, "{c:?}");
}""", "a sale of amortised intangibles; the two omissions cancel in the net cash flow",
"both adjustments forget the amortisation of sold intangibles, so the net cash flow still reconciles")

bug("c05-closing-only-lease", "C05", ST, [(
"        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);",
"        if d.iter().chain(b).any(|x| b1.contains_key(x)) {\n                finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);\n            }")],
"""fn main() {
    let c = calc_cash_flow(&BsMap::from([(LongTermBorrowings, 9.0)]), &BsMap::new(), &PlMap::new(), 0.0, 0.0, 0.0);
    assert!(c.value(ChangeDebt) == -9.0, "{c:?}");
}""", "a line that disappears altogether from the closing balance sheet", "a group that is absent from the closing balance sheet moves no cash")

bug("c06-shield-interest", "C06", ST, [(
"    let intr = cf.get(&CashFlowInterests).unwrap_or(&0.0);", "    let intr = pl.get(&InterestExpense).unwrap_or(&0.0);")],
"""fn main() {
    let mut pl = PlMap::from([(OperatingRevenue, 100.0), (InterestExpense, 5.0), (CostDebt, 3.0)]);
    pl.calc_elements();
    let c = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.25, 0.0, 0.0);
    assert!(near(c.value(CashFlowTaxShield), 2.0, 1e-12), "{c:?}");
}""", "a cost of debt beside the interest expense", "the shield counts the interest expense only")

bug("c06-depr-adjust", "C06", ST, [(
"""    if let Some(x) = pl.get(&TaxDepreciation) {
        pl.get(&Depreciation).unwrap_or(&0.0) - x
    } else {
        0.0
    }""", """    pl.get(&Depreciation).unwrap_or(&0.0) - pl.get(&TaxDepreciation).unwrap_or(&0.0)""")],
"""fn main() {
    let mut pl = PlMap::from([(OperatingRevenue, 10.0), (Depreciation, 12.0), (InterestExpense, 4.0)]);
    pl.calc_elements();
    let c = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.25, 0.0, 0.0);
    assert!(c.value(CashFlowTaxShield).abs() < 1e-9, "{c:?}");
}""", "a statement with depreciation but no tax depreciation line and a shield limited by the tax", "a missing tax depreciation is taken as zero")

bug("c06-equity-reserves", "C06", ST, [(
"                vec![FreeCashFlowEquity, CashFlowDebt],\n                vec![CashFlowTaxShield]", "                vec![CashFlowOperations, AdjustmentsSalesAssets],\n                vec![ChangePPE, CashFlowTaxShield]")],
"""fn main() {
    let mut c = CfMap::from([(ChangeReserves, 6.0), (ChangeDebt, 3.0), (CashFlowTaxShield, 1.0)]);
    c.calc_elements();
    assert!(near(c.value(FreeCashFlowFirm), c.value(FreeCashFlowEquity) + c.value(CashFlowDebt) - 1.0, 1e-9), "{c:?}");
}""", "a change in reserves", "the free cash flow to the firm is built from its parts and forgets the change in reserves")

bug("c07-tax-on-stale", "C07", ST, [(
"    pub fn calc_tax(&mut self) -> &mut Self {\n        self.calc_elements();",
"    pub fn calc_tax(&mut self) -> &mut Self {\n        if !self.profit_loss.values().all(|p| p.contains_key(&EBT)) {\n            self.calc_elements();\n        }")],
"""fn main() {
    let mut a = accounts();
    let p = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 100.0)]));
    a.set_tax_rates(0.25, 0.0, 0.0);
    a.calc_tax();
    a.put_profit_loss(p, OperatingRevenue, 200.0).calc_tax();
    assert!(near(a.get_profit_loss(p, TaxesCurrent), 50.0, 1e-9));
}""", "a second tax calculation after an edit, on statements that already hold a profit before tax",
"the tax is taken from stale totals")

bug("c07-keep-first-rate", "C07", ST, [(
"                z.insert(GrossProfitTaxRate, gross_profit_tax);", "                z.entry(GrossProfitTaxRate).or_insert(gross_profit_tax);")],
"""fn main() {
    let mut a = accounts();
    let p = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::new());
    a.set_tax_rates(0.25, 0.125, 0.5).set_tax_rates(0.5, 0.25, 0.125);
    assert!(a.others[&p][&GrossProfitTaxRate] == 0.25);
}""", "tax rates set twice", "the second setting keeps the old gross profit rate")

bug("c07-minimum-only-if-profit", "C07", ST, [(
"""                f64::max(
                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * gt,
                    pl.get(&Revenue).unwrap_or(&0.0) * mt,
                )""", """                f64::max(
                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0).max(0.0) * gt,
                    pl.get(&Revenue).unwrap_or(&0.0) * mt,
                )""")],
"""fn main() {
    let mut a = accounts();
    let p = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::from([(Salaries, 8.0), (InterestRevenue, 100.0)]));
    a.set_tax_rates(0.25, 0.125, 0.0);
    a.calc_tax();
    assert!(near(a.get_profit_loss(p, TaxesCurrent), 22.0, 1e-9));
}""", "negative EBITDA with a positive profit before tax", "a negative EBITDA no longer reduces the normal tax")

bug("c08-drop-empty-sheets", "C08", ST, [(
"        for v in self.balance_sheet.values_mut() {\n            v.remove_calc_clean();\n        }",
"        for v in self.balance_sheet.values_mut() {\n            v.remove_calc_clean();\n        }\n        self.balance_sheet.retain(|_, v| !v.is_empty());")],
"""fn main() {
    let mut a = accounts();
    a.balance_sheet.insert(dt(2020, 1, 1), BsMap::from([(Assets, 4.0)]));
    a.remove_calc_clean();
    assert!(a.balance_sheet.get(&dt(2020, 1, 1)) == Some(&BsMap::new()));
}""", "a balance sheet that holds no significant entered line", "cleaning accounts removes whole balance sheets")

CFCLEAN = """        let scale = self[&NetCashFlow];
        self.iter().map(|(k, v)| (*k, v / scale)).collect()
    }

    fn clean(&mut self) -> &mut Self {
        self.retain(|_, v| v.abs() > 1e-5);"""
bug("c08-clean-negative", "C08", ST, [(CFCLEAN, CFCLEAN.replace("v.abs() > 1e-5", "*v > 1e-5"))],
"""fn main() {
    let mut c = CfMap::from([(ChangeDebt, -4.0)]);
    c.clean();
    assert!(c.value(ChangeDebt) == -4.0);
}""", "a negative cash flow line and a plain clean", "plain cleaning of a cash flow statement drops negative lines")

bug("c09-negative-base", "C09", ST, [("        let scale = self[&NetCashFlow];", "        let scale = self[&NetCashFlow].abs();")],
"""fn main() {
    let mut c = CfMap::from([(ChangeDebt, -4.0)]);
    c.calc_elements();
    let s = c.common_size();
    assert!(s.value(NetCashFlow) == 1.0 && s.value(ChangeDebt) == 1.0, "{s:?}");
}""", "a negative net cash flow", "a cash flow statement with an outflow is divided by the magnitude of its base")

bug("c10-first-rates", "C10", ST, [(
"                    let oth = self.others.get(&(d0, d1)).unwrap();", "                    let oth = self.others.values().next().unwrap();")],
"""fn main() {
    let mut a = accounts();
    let (d0, d1, d2) = (dt(2020, 1, 1), dt(2021, 1, 1), dt(2022, 1, 1));
    for d in [d0, d1, d2] { a.balance_sheet.insert(d, BsMap::new()); }
    for p in [(d0, d1), (d1, d2)] { a.profit_loss.insert(p, PlMap::from([(OperatingRevenue, 100.0), (InterestExpense, 8.0)])); }
    a.set_tax_rates(0.25, 0.0, 0.0);
    a.others.get_mut(&(d1, d2)).unwrap().insert(CorporateTaxRate, 0.5);
    a.calc_elements().calc_cash_flow();
    assert!(near(a.get_cash_flow((d1, d2), CashFlowTaxShield), 4.0, 1e-9));
}""", "periods with different tax rates", "cash flows are derived with the tax rates of the first period")

bug("c10-cash-only-known", "C10", ST, [(
"        for v in self.cash_flow.values_mut() {\n            v.calc_elements();\n        }",
"        for (k, v) in self.cash_flow.iter_mut() {\n            if self.profit_loss.contains_key(k) {\n                v.calc_elements();\n            }\n        }")],
"""fn main() {
    let mut a = accounts();
    let p = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.cash_flow.insert(p, CfMap::from([(ChangeDebt, 3.0)]));
    a.calc_elements();
    assert!(a.get_cash_flow(p, NetCashFlow) == 3.0);
}""", "a cash flow statement of a period without a profit and loss statement", "such statements are not recalculated")

bug("c11-latest-sheet", "C11", ST, [(
"                balance_sheet_end: get_hashmap(d1, &self.balance_sheet),",
"                balance_sheet_end: self\n                    .balance_sheet\n                    .range(d0..=d1)\n                    .next_back()\n                    .filter(|(d, _)| **d > d0)\n                    .map(|(_, b)| b.clone()),")],
"""fn main() {
    let mut a = accounts();
    let (d0, d1) = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.profit_loss.insert((d0, d1), PlMap::new());
    a.balance_sheet.insert(dt(2020, 6, 1), BsMap::from([(Cash, 1.0)]));
    assert!(a.get_account(d0, d1).unwrap().balance_sheet_end == None);
}""", "an interim balance sheet inside a period that has no closing one", "the report closes with the last balance sheet inside the period")

bug("c11-mixed-end", "C11", ST, [(
"                && date_end == dct1\n                && date_end == dft1", "                && date_end == dct1\n                && (others.is_none() || dft1 <= date_end)")],
"""fn main() {
    let (d0, d1) = (dt(2020, 1, 1), dt(2021, 1, 1));
    let pl = Some(ProfitLoss { period: (d0, d1), items: PlMap::new() });
    let fo = Some(FinOthers { period: (d0, dt(2020, 7, 1)), items: FinOthersMap::new() });
    assert!(FinancialReport::from_statements(&None, &None, &pl, &None, &fo).is_none());
    let fo = Some(FinOthers { period: (d0, d1), items: FinOthersMap::new() });
    assert!(FinancialReport::from_statements(&None, &None, &pl, &None, &fo).is_some());
}""", "other data of a shorter period with the same start", "statements of different periods are assembled into one report")

bug("c11-report-stale-profit", "C11", ST, [(
"""                    &bs_b,
                    &bs_e,
                    &pl,""", """                    &bs_b,
                    &bs_e,
                    self.profit_loss.as_ref().unwrap(),""")],
"""fn main() {
    let (d0, d1) = (dt(2020, 1, 1), dt(2021, 1, 1));
    let mut a = accounts();
    a.profit_loss.insert((d0, d1), PlMap::from([(OperatingRevenue, 100.0), (InterestExpense, 8.0)]));
    a.balance_sheet.insert(d0, BsMap::new());
    a.balance_sheet.insert(d1, BsMap::new());
    a.set_tax_rates(0.25, 0.0, 0.0);
    a.profit_loss.get_mut(&(d0, d1)).unwrap().insert(EBT, -1000.0);
    let mut r = a.get_account(d0, d1).unwrap();
    r.calc_elements();
    a.calc_elements().calc_cash_flow();
    assert!(near(r.cash_flow.unwrap().value(CashFlowTaxShield), a.get_cash_flow((d0, d1), CashFlowTaxShield), 1e-9));
}""", "a report recalculated over stale totals, with interest", "the report's cash flow is derived from the totals before recalculation")

bug("c12-zero-length", "C12", ST, [("    let (d0, mut dp) = dts[0];\n    if d0 > dp {", "    let (d0, mut dp) = dts[0];\n    if d0 >= dp {")],
"""fn main() {
    let d = dt(2020, 1, 1);
    assert!(check_dates(&vec![(d, d), (d, dt(2021, 1, 1))]));
}""", "a first period of a single date", "a sequence that begins with an empty period is rejected")

bug("c12-last-unchecked", "C12", ST, [("    for i in 1..dts.len() {\n        let (d0, d1) = dts[i];", "    for (i, &(d0, d1)) in dts.iter().enumerate().skip(1).take(11) {\n        let _ = i;")],
"""fn main() {
    let mut v: Vec<Period> = (0..14).map(|i| (dt(2000 + i, 1, 1), dt(2001 + i, 1, 1))).collect();
    assert!(check_dates(&v));
    v[13].0 = dt(2013, 2, 1);
    assert!(!check_dates(&v));
}""", "a sequence of more than twelve periods with a late gap", "only the first twelve periods are checked")

bug("c12-dates-replaced", "C12", ST, [(
"    pub fn set_dates_from_profit_loss(&mut self) -> &mut Self {\n", "    pub fn set_dates_from_profit_loss(&mut self) -> &mut Self {\n        self.dates.clear();\n")],
"""fn main() {
    let mut a = accounts();
    a.dates.insert(dt(2019, 5, 5));
    a.profit_loss.insert((dt(2020, 1, 1), dt(2021, 1, 1)), PlMap::new());
    a.set_dates_from_profit_loss();
    assert!(a.valid_date(dt(2019, 5, 5)) && a.dates.len() == 3);
}""", "accounts with a date that no profit and loss period has", "collecting dates forgets the dates known before")

bug("c13-both-groups", "C13", ST, [("                    if d0 + Duration::days(120) < d1 {", "                    if d0 + Duration::days(120) <= d1 {")],
"""fn main() {
    let mut a = accounts();
    a.profit_loss.insert((dt(2021, 1, 1), dt(2021, 5, 1)), PlMap::new());
    let (x, y) = a.split_periods();
    assert!(x.len() + y.len() == 1);
}""", "a period of exactly 120 days", "it is listed in both groups")

bug("c14-last-listed", "C14", ST, [("        if d1 > dt_1 {\n            dt_1 = d1;\n        }", "        dt_1 = d1;")],
"""fn main() {
    let s = BTreeSet::from([(dt(2019, 4, 1), dt(2020, 4, 1)), (dt(2019, 7, 1), dt(2019, 10, 1))]);
    assert!(consecutive_periods(&s) == BTreeSet::from([(dt(2019, 4, 1), dt(2020, 4, 1))]));
}""", "a shorter period that starts later but ends before the longest one", "the chain starts from the period listed last, not from the latest end")

bug("c14-forty", "C14", ST, [("    for _ in 0..100 {\n        let (y1, m1)", "    for _ in 0..40 {\n        let (y1, m1)")],
"""fn main() {
    let s: BTreeSet<_> = (0..60).map(|i| (dt(1950 + i, 4, 1), dt(1951 + i, 4, 1))).collect();
    assert!(consecutive_periods(&s) == s);
}""", "more than forty consecutive periods", "long histories are cut off")

bug("c14-sheets-at-ends", "C14", ST, [(
"            balance_sheet: build_btree(&self.balance_sheet, &dates),",
"            balance_sheet: build_btree(&self.balance_sheet, &dates.intersection(&self.dates).copied().collect()),")],
"""fn main() {
    let mut a = accounts();
    let (d0, d1) = (dt(2020, 1, 1), dt(2021, 1, 1));
    a.profit_loss.insert((d0, d1), PlMap::new());
    a.balance_sheet.insert(d0, BsMap::from([(Cash, 1.0)]));
    a.balance_sheet.insert(d1, BsMap::from([(Cash, 2.0)]));
    assert!(a.consecutive_profit_loss().balance_sheet == a.balance_sheet);
}""", "accounts whose date set does not list all their period ends", "restricting drops the balance sheets of unlisted dates")
