# A second batch written from the property texts and the code alone: (property, name, file, [(old, new, which)...])
ST, LIB, BO, RA, MM = "statements.rs", "lib.rs", "fixedincomes/bonds.rs", "fixedincomes/bonds/rates.rs", "fixedincomes/moneymarkets.rs"
M = []
def m(prop, name, file, *edits): M.append((prop, name, file, edits))
CAL = "    let cal = |t: &Vec<T>| t.iter().map(|k| *hm.get(k).unwrap_or(&0.0)).sum::<f64>();\n"
FADD = "    if p.abs() > 1e-5 {\n        hm.insert(*z, p);\n    } else {\n        hm.remove(z);\n    }"
LOOP = "            finmap_add(calc_elem(self, d, b), k, self);"
# --- C01
m("C01", "only-if-component", ST, (LOOP, "            if d.iter().chain(b.iter()).any(|c| self.contains_key(c)) || !self.contains_key(k) {\n                finmap_add(calc_elem(self, d, b), k, self);\n            }", 1))
m("C01", "only-if-component-cf", ST, (LOOP, "            if d.iter().chain(b.iter()).any(|c| self.contains_key(c)) {\n                finmap_add(calc_elem(self, d, b), k, self);\n            }", 2))
m("C01", "equity-early", ST, ("        (BalanceSheetCheck, (vec![Assets], vec![Liabilities, Equity]))", "        (BalanceSheetCheck, (vec![Assets], vec![CurrentLiabilities, LongTermLiabilities, Equity]))"))
m("C01", "check-two-sites", ST, ("vec![CurrentAssets, LongTermAssets], vec![])", "vec![CurrentAssets, LongTermAssets], vec![LiabilitiesSaleAssets])"), ("                    CurrentTaxPayables,\n                    LiabilitiesSaleAssets,\n                    CurrentLeasesLiability,\n                ],\n                vec![],", "                    CurrentTaxPayables,\n                    CurrentLeasesLiability,\n                ],\n                vec![],", 0))
m("C01", "neg-component", ST, ("    cal(x) - cal(y)", "    cal(x) - y.iter().map(|k| { let v = *hm.get(k).unwrap_or(&0.0); if v < 0.0 && y.len() > 3 { v.abs() } else { v } }).sum::<f64>()"))
m("C01", "entered-tiny-gone", ST, ("            finmap_add(calc_elem(self, d, b), k, self);\n        }\n        self\n    }\n\n    fn remove_calc_clean(&mut self) -> &mut Self {\n        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);\n        self\n    }\n\n    fn check(&self) -> bool {\n        // TODO: Add implementation\n        todo!()\n    }\n\n    fn common_size(&self) -> Self {\n        let scale = self[&Revenue];", "            finmap_add(calc_elem(self, d, b), k, self);\n        }\n        self.retain(|_, v| *v != 0.0);\n        self\n    }\n\n    fn remove_calc_clean(&mut self) -> &mut Self {\n        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);\n        self\n    }\n\n    fn check(&self) -> bool {\n        // TODO: Add implementation\n        todo!()\n    }\n\n    fn common_size(&self) -> Self {\n        let scale = self[&Revenue];"))
m("C01", "huge", ST, (FADD, FADD.replace("p.abs() > 1e-5", "p.abs() > 1e-5 && p.abs() < 1e15")))
m("C01", "net-intangible", ST, ("                vec![IntangibleAssets, IntangibleAssetsDevelopment],\n                vec![AccumulatedAmortization],", "                vec![IntangibleAssets, IntangibleAssetsDevelopment],\n                vec![AccumulatedAmortization, AccumulatedAmortizationLease],"), ("                vec![LeasingRentalAssets],\n                vec![AccumulatedAmortizationLease],", "                vec![LeasingRentalAssets],\n                vec![],"))
m("C01", "donor", ST, ("                    ChangeDebt,\n                    DonorContribution,\n", "                    ChangeDebt,\n"), ("                    ChangeAccumulatedOci,\n                    OtherCashFlowOperations\n", "                    ChangeAccumulatedOci,\n                    DonorContribution,\n                    OtherCashFlowOperations\n"))
m("C01", "tci-stale", ST, ("        (NetIncome, (vec![EAT, NetIncomeDiscontinuedOps], vec![],)),", "        (NetIncome, (vec![EBT, NetIncomeDiscontinuedOps], vec![TaxesCurrent, TaxesDeferred],)),"))
# --- C02
m("C02", "add-vec-rev", ST, ("        for (k, v) in x {\n            self.upsert(*k, *v);\n        }", "        for (k, v) in x.iter().rev() {\n            self.upsert(*k, *v);\n        }"))
m("C02", "upsert-vec-clears", ST, ("        for (k, v) in x {\n            self.upsert(*k, *v);\n        }", "        for (k, v) in x {\n            if *v != 0.0 || self.value(*k) == 0.0 { self.upsert(*k, *v); }\n        }"))
m("C02", "add-cancel-removes", ST, ("            *self.entry(k).or_insert(0.0) += v;", "            let s = self.value(k) + v;\n            if s != 0.0 || v == 0.0 { self.insert(k, s); }", 1))
m("C02", "put-net-fresh", ST, ("            self.balance_sheet.get_mut(&d).unwrap().insert(ty, val);", "            let b = self.balance_sheet.get_mut(&d).unwrap();\n            b.insert(ty, val);\n            if ty == PlantPropertyEquipment { b.entry(AccumulatedDepreciation).or_insert(0.0); }"))
m("C02", "put-pl-calc", ST, ("        if ty.is_calc() {\n            panic!(\"{:?} is a calculated item\", ty)\n        } else {\n            self.profit_loss", "        if ty.is_calc() && ty != GainsLossesSales {\n            panic!(\"{:?} is a calculated item\", ty)\n        } else {\n            self.profit_loss"))
m("C02", "check-accepted", ST, ("        BALANCE_SHEET_CALC.contains(&self)", "        BALANCE_SHEET_CALC.contains(&self) && self != BalanceSheetCheck"))
m("C02", "value-derived-fresh", ST, ("        *self.get(&k).unwrap_or(&0.0)\n    }", "        *self.get(&k).or(if k == Dividends { self.get(&NetIncomeDiscontinuedOps) } else { None }).unwrap_or(&0.0)\n    }", 1))
m("C02", "add-zero-drops", ST, ("            *self.entry(k).or_insert(0.0) += v;", "            if v.abs() > 1e-9 { *self.entry(k).or_insert(0.0) += v; } else { self.remove(&k); }", 2))
m("C02", "get-pl-any", ST, ("        *self.profit_loss.get(&d).unwrap().get(&ty).unwrap_or(&0.0)", "        self.profit_loss.get(&d).unwrap().get(&ty).map_or(0.0, |v| if v.abs() > 1e-5 { *v } else { 0.0 })"))
# --- C03
m("C03", "treasury", ST, ("            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),\n            _ => self.add(k, -v),", "            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),\n            AssetContra if k == AccumulatedAmortizationLease && self.value(k) < 0.0 => self.add(k, v),\n            _ => self.add(k, -v),"))
m("C03", "credit-overdraft", ST, ("        self.debit(deb, val).credit(crd, val)", "        if crd == Cash && self.is_short(val) { self.debit(deb, val).credit(BsType::CurrentBorrowings, val) } else { self.debit(deb, val).credit(crd, val) }"), ("    /** Debit of the amount `val` to type `typ` in BsMap */", "    fn is_short(&self, _val: f64) -> bool { false }\n\n    /** Debit of the amount `val` to type `typ` in BsMap */"), ("impl BsMapTrait for BsMap {\n", "impl BsMapTrait for BsMap {\n    fn is_short(&self, val: f64) -> bool { self.get(&Cash).map_or(false, |c| *c > 0.0 && *c < val) }\n\n"))
m("C03", "credit-zero-line", ST, ("        self.debit(deb, val).credit(crd, val)", "        self.debit(deb, val);\n        self.credit(crd, (val * 100.0).round() / 100.0)"))
m("C03", "order-series", ST, ("        for x in trans {\n            self.transact(x);\n        }", "        for x in trans.chunks(64).take(1).flatten() {\n            self.transact(*x);\n        }"))
m("C03", "series-same-line", ST, ("        for x in trans {\n            self.transact(x);\n        }", "        for x in trans {\n            if x.0 != x.1 { self.transact(x); }\n        }"))
m("C03", "adder-neg", ST, ("    adder(debit_map, b, calc_neg, calc_pos);", "    adder(debit_map, b, calc_neg, calc_neg);"))
m("C03", "credit-abs", ST, ("        BsMapTrait::debit(self, typ, -val)", "        if val.is_sign_negative() && typ == BsType::MinorityInterests { BsMapTrait::debit(self, typ, val) } else { BsMapTrait::debit(self, typ, -val) }"))
# --- C04
m("C04", "exchange", ST, ("                    OtherCashFlowOperations\n", "                    OtherCashFlowOperations,\n                    DonorContribution,\n"), )
m("C04", "reserves-sales", ST, ("                vec![GainsLossesSales],\n                vec![\n                    AccAmortSalesPPE,\n                    AccAmortSalesLeaseRental,\n                    AccAmortSalesIntangible\n                ]", "                vec![GainsLossesSales],\n                vec![\n                    AccAmortSalesPPE,\n                    AccAmortSalesIntangible\n                ]"))
m("C04", "pl-gate", ST, ("        finmap_add(calc_elem(pl, d, b), k, &mut cf);", "        if !(*k == AdjustmentsSalesAssets && pl.value(GainsLossesSales) < 0.0) { finmap_add(calc_elem(pl, d, b), k, &mut cf); }"))
m("C04", "only-both", ST, ("        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);", "        let known: Vec<BsType> = d.iter().filter(|x| b1.contains_key(x) || d.len() != 4).copied().collect();\n        finmap_add(calc_elem(b1, &known, b) - calc_elem(b0, &known, b), k, &mut cf);"))
m("C04", "rounded", ST, ("        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);", "        finmap_add(((calc_elem(b1, d, b) - calc_elem(b0, d, b)) * 1e4).round() / 1e4, k, &mut cf);"))
m("C04", "big-f32", ST, ("        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);", "        let c = calc_elem(b1, d, b) - calc_elem(b0, d, b);\n        finmap_add(if c.abs() > 1e8 { c as f32 as f64 } else { c }, k, &mut cf);"))
m("C04", "cf-fin-neg", ST, ("                vec![CashFlowInterests, CashFlowDividends]", "                vec![CashFlowInterests]"), ("                    ChangeAccumulatedOci,\n                    OtherCashFlowOperations\n                ],\n                vec![ChangeCurrentAssets, ChangeLongTermAssets]", "                    ChangeAccumulatedOci,\n                    OtherCashFlowOperations\n                ],\n                vec![ChangeCurrentAssets, ChangeLongTermAssets, InvestmentsLoans]"))
# --- C05
m("C05", "bonds-provisions", ST, ("                vec![PensionProvision, TaxProvision, LongTermProvision,],", "                vec![PensionProvision, TaxProvision],"), ("                    CustomerDeposits,\n                    OtherLongTermLiabilities,\n                ],\n                vec![]", "                    CustomerDeposits,\n                    OtherLongTermLiabilities,\n                    LongTermProvision,\n                ],\n                vec![]"))
m("C05", "goodwill-impaired", ST, ("        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);", "        let c = calc_elem(b1, d, b) - calc_elem(b0, d, b);\n        let c = if *k == ChangeInvestments && b1.value(Goodwill) < b0.value(Goodwill) { c - b1.value(Goodwill) + b0.value(Goodwill) } else { c };\n        finmap_add(c, k, &mut cf);"))
m("C05", "source-cleaned", ST, ("    let mut cf = CfMap::new();", "    let mut cf = CfMap::new();\n    let mut own = b1.clone();\n    own.retain(|_, v| v.abs() > 0.005);\n    let b1 = &own;"))
m("C05", "oci-to-sales", ST, ("(ChangeAccumulatedOci, (vec![AccumulatedOCI,], vec![]))", "(ChangeAccumulatedOci, (vec![AccumulatedOCI, MinorityInterests], vec![]))"), ("(OtherCashFlowFinancing, (vec![MinorityInterests,], vec![]))", "(OtherCashFlowFinancing, (vec![], vec![]))"))
m("C05", "preferred-debt", ST, ("                vec![LongTermBorrowings, BondsPayable, LongTermLeasesLiability,],", "                vec![LongTermBorrowings, BondsPayable, LongTermLeasesLiability, PreferredStock],"), ("                    CommonStock,\n                    PreferredStock,\n                    PdInCapAbovePar,\n                    PdInCapTreasuryStock,\n                ],\n                vec![]", "                    CommonStock,\n                    PdInCapAbovePar,\n                    PdInCapTreasuryStock,\n                ],\n                vec![]"))
m("C05", "cost-debt-divs", ST, ("(CashFlowInterests, (vec![InterestExpense, CostDebt], vec![]))", "(CashFlowInterests, (vec![InterestExpense], vec![]))"), ("(CashFlowDividends, (vec![Dividends], vec![]))", "(CashFlowDividends, (vec![Dividends, CostDebt], vec![]))"))
# --- C06
m("C06", "gp-stale", ST, ("    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);", "    let gr_tx = gp_tax * pl.get(&GrossProfit).or(pl.get(&EBITDA)).unwrap_or(&0.0);"))
m("C06", "ebitda", ST, ("    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);", "    let gr_tx = gp_tax * (pl.get(&GrossProfit).unwrap_or(&0.0) + pl.get(&OtherIncome).unwrap_or(&0.0));"))
m("C06", "shield-after-depr", ST, ("        pl.get(&Depreciation).unwrap_or(&0.0) - x\n", "        f64::max(pl.get(&Depreciation).unwrap_or(&0.0) - x, -pl.get(&Depreciation).unwrap_or(&0.0))\n"))
m("C06", "tiny-interest", ST, ("        f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)),", "        if *intr < 1.0 { 0.0 } else { f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)) },"))
m("C06", "revenue-min", ST, ("        f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)),", "        if rev_tx > ebit_tx + gr_tx - corp_tax * intr && rev_tx > 0.0 && gr_tx > 0.0 { 0.0 } else { f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)) },"))
m("C06", "cap-rate", ST, ("    let intr = cf.get(&CashFlowInterests).unwrap_or(&0.0);", "    let corp_tax = corp_tax.min(1.0);\n    let intr = cf.get(&CashFlowInterests).unwrap_or(&0.0);"))
m("C06", "fcff-debt", ST, ("        (CashFlowDebt, (vec![CashFlowInterests], vec![ChangeDebt])),", "        (CashFlowDebt, (vec![CashFlowInterests], vec![])),"))
m("C06", "shield-inserted-small", ST, ("    cf.insert(\n        CashFlowTaxShield,", "    let intr = if cf.contains_key(&CashFlowDividends) && *intr < 0.5 { &0.0 } else { intr };\n    let sh = (\n        CashFlowTaxShield,"), ("        f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)),\n    );", "        f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)),\n    );\n    cf.insert(sh.0, sh.1);"))
# --- C07
m("C07", "depr-only-profit", ST, ("                let ebt = pl.get(&EBT).unwrap_or(&0.0) + depreciation_tax_adjust(&pl);", "                let e = *pl.get(&EBT).unwrap_or(&0.0);\n                let ebt = if e > 0.0 { e + depreciation_tax_adjust(&pl) } else { e };"))
m("C07", "ebt-missing", ST, ("                let ebt = pl.get(&EBT).unwrap_or(&0.0) + depreciation_tax_adjust(&pl);", "                let ebt = pl.get(&EBT).map_or(0.0, |e| e + depreciation_tax_adjust(&pl));"))
m("C07", "gp-missing-corp", ST, ("                    oth.get(&GrossProfitTaxRate).unwrap_or(&0.0),\n                    oth.get(&RevenueTaxRate).unwrap_or(&0.0),\n                );\n                f64::max", "                    oth.get(&GrossProfitTaxRate).unwrap_or(&0.0),\n                    oth.get(&RevenueTaxRate).or(oth.get(&GrossProfitTaxRate)).unwrap_or(&0.0),\n                );\n                f64::max"))
m("C07", "skip-unchanged", ST, ("        self.calc_elements();\n        for y in self.profit_loss.clone().keys() {", "        self.calc_elements();\n        let n = self.others.len();\n        for y in self.profit_loss.clone().keys().take(n.max(1)) {"))
m("C07", "rates-only-missing", ST, ("                z.insert(RevenueTaxRate, revenue_tax);", "                if revenue_tax != 0.0 { z.insert(RevenueTaxRate, revenue_tax); }"))
m("C07", "rates-dup-periods", ST, ("        for y in self.profit_loss.keys() {\n            if let Some(z)", "        for y in self.profit_loss.keys().chain(self.cash_flow.keys()) {\n            if let Some(z)"))
m("C07", "tax-next", ST, ("                let ebt = pl.get(&EBT).unwrap_or(&0.0) + depreciation_tax_adjust(&pl);", "                let ebt = pl.get(&EBT).unwrap_or(&0.0) + depreciation_tax_adjust(&pl) + pl.get(&ExtraordinaryItems).filter(|x| **x < 0.0).unwrap_or(&0.0);"))
# --- C08
m("C08", "clean-zero-derived", ST, ("        self.retain(|_, v| v.abs() > 1e-5);", "        self.retain(|k, v| v.abs() > if k.is_calc() { 1e-4 } else { 1e-5 });", 1))
m("C08", "clean-rounds", ST, ("        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);", "        self.retain(|k, v| { *v = (*v * 1e6).round() / 1e6; !k.is_calc() && v.abs() > 1e-5 });", 0))
m("C08", "shield-derived", ST, ("        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);", "        self.retain(|k, v| !k.is_calc() && *k != CashFlowTaxShield && v.abs() > 1e-5);", 2))
m("C08", "rel", ST, ("        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);", "        let top = self.values().fold(0.0f64, |a, v| a.max(v.abs()));\n        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5 && v.abs() > top * 1e-12);", 1))
m("C08", "first-only", ST, ("        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }", "        for (k, v) in self.cash_flow.iter_mut() {\n            if self.profit_loss.contains_key(k) { v.remove_calc_clean(); }\n        }"))
m("C08", "acc-dates", ST, ("        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }\n        self", "        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }\n        let b = &self.balance_sheet;\n        self.dates.retain(|d| b.get(d).map_or(true, |x| !x.is_empty()));\n        self"))
# --- C09
m("C09", "cf-revenue", ST, ("        let scale = self[&NetCashFlow];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()", "        let scale = self[&NetCashFlow];\n        self.iter().filter(|(_, v)| v.abs() > 1e-5).map(|(k, v)| (*k, v / scale)).collect()"))
m("C09", "percent-cap", ST, ("        let scale = self[&Revenue];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()", "        let scale = self[&Revenue];\n        self.iter().map(|(k, v)| (*k, (v / scale).clamp(-1e4, 1e4))).collect()"))
m("C09", "liab-base", ST, ("        let scale = self[&Assets];", "        let scale = if self.contains_key(&BalanceSheetCheck) { self[&Liabilities] + self.value(Equity) } else { self[&Assets] };"))
m("C09", "rounded", ST, ("        let scale = self[&Assets];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()", "        let scale = self[&Assets];\n        self.iter().map(|(k, v)| (*k, (v / scale * 1e6).round() / 1e6)).collect()"))
# --- C10
m("C10", "calc-skips-unpaired", ST, ("        for v in self.cash_flow.values_mut() {\n            v.calc_elements();\n        }", "        for v in self.cash_flow.values_mut().filter(|v| v.len() > 1) {\n            v.calc_elements();\n        }"))
m("C10", "calc-dates", ST, ("        for v in self.balance_sheet.values_mut() {\n            v.calc_elements();\n        }", "        for (d, v) in self.balance_sheet.iter_mut() {\n            if self.dates.is_empty() || self.dates.contains(d) { v.calc_elements(); }\n        }"))
m("C10", "cf-keeps-donor", ST, ("                    self.cash_flow.insert((d0, d1), cf.calc_elements().clone());", "                    if let Some(o) = self.cash_flow.get(&(d0, d1)) {\n                        if let Some(v) = o.get(&DonorContribution) { cf.insert(DonorContribution, *v); }\n                    }\n                    self.cash_flow.insert((d0, d1), cf.calc_elements().clone());"))
m("C10", "cf-same-day", ST, ("                (Some(b0), Some(b1)) => {\n                    let oth", "                (Some(b0), Some(b1)) if b0 != b1 || !self.cash_flow.contains_key(&(d0, d1)) => {\n                    let oth"))
m("C10", "put-default", ST, ("            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);", "            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);\n            if self.profit_loss.contains_key(&d) && ty == CashFlowDividends { self.profit_loss.get_mut(&d).unwrap().insert(Dividends, val); }"))
m("C10", "cf-interim-first", ST, ("            match (self.balance_sheet.get(&d0), self.balance_sheet.get(&d1)) {", "            match (self.balance_sheet.get(&d0).or(self.balance_sheet.get(&(d0 - Duration::days(1)))), self.balance_sheet.get(&d1)) {"))
m("C10", "others-next", ST, ("                    let oth = self.others.get(&(d0, d1)).unwrap();\n                    let mut cf", "                    let oth = self.others.range(..=(d0, d1)).rev().find(|(p, _)| p.1 == d1).unwrap().1;\n                    let mut cf"))
m("C10", "cf-negative-period", ST, ("        for &(d0, d1) in self.profit_loss.keys() {\n            match", "        for &(d0, d1) in self.profit_loss.keys().filter(|p| p.0 < p.1) {\n            match"))
# --- C11
m("C11", "rep-end-next", ST, ("                balance_sheet_end: get_hashmap(d1, &self.balance_sheet),", "                balance_sheet_end: get_hashmap(d1, &self.balance_sheet).or_else(|| get_hashmap(d1 + Duration::days(1), &self.balance_sheet)),"))
m("C11", "rep-empty-none", ST, ("                Some(h.get(&k)?.clone())", "                h.get(&k).filter(|x| !x.is_empty()).cloned()"))
m("C11", "reports-rev", ST, ("            .map(|&(d0, d1)| self.get_account(d0, d1).unwrap())\n            .collect()", "            .filter(|p| p.0 <= p.1)\n            .map(|&(d0, d1)| self.get_account(d0, d1).unwrap())\n            .collect()"))
m("C11", "asm-end", ST, ("                && date_end == dbt1\n", "                && (date_end == dbt1 || dbt1 < date_beg)\n"))
m("C11", "asm-cf-begin", ST, ("                && date_beg == dct0\n", "                && (date_beg == dct0 || others.is_none())\n"))
m("C11", "rep-calc-no-oth", ST, ("        let b_beg = get_hm(&self.balance_sheet_beg);", "        let b_beg = if self.balance_sheet_end.is_some() { get_hm(&self.balance_sheet_beg) } else { self.balance_sheet_beg.clone() };"))
m("C11", "rep-cf-calc", ST, ("                .calc_elements()\n                .clone(),\n            ),\n            (_, _) => None,", "                .calc_elements()\n                .clean()\n                .clone(),\n            ),\n            (_, _) => None,"))
m("C11", "beg-date", ST, ("            date: self.period.0,\n            items: (&self.balance_sheet_beg).clone()?,", "            date: self.period.0.min(self.period.1),\n            items: (&self.balance_sheet_beg).clone()?,"))
# --- C12
m("C12", "first-rev", ST, ("    let (d0, mut dp) = dts[0];\n    if d0 > dp {", "    let (d0, mut dp) = dts[0];\n    if d0 > dp && dts.len() > 1 {"))
m("C12", "later-empty", ST, ("        if (d0 > d1) || (d0 != dp) {", "        if (d0 >= d1) || (d0 != dp) {"))
m("C12", "skip-gap", ST, ("        if (d0 > d1) || (d0 != dp) {", "        if (d0 > d1) || (d0 < dp) || (d0 - dp).num_days() > 0 && i > 1 && dts[i - 1].0 != dp {"))
m("C12", "year-gap", ST, ("        if (d0 > d1) || (d0 != dp) {", "        if (d0 > d1) || (d0.ordinal() != dp.ordinal()) {"))
m("C12", "dates-refuse-later", ST, ("            if d0 > d1 {\n                panic!", "            if d0 > d1 && self.dates.is_empty() {\n                panic!"))
# --- C13
m("C13", "leap-122", ST, ("                    if d0 + Duration::days(120) < d1 {", "                    if d0 + Duration::days(120) < d1 && (d0.year() != d1.year() || d0.month() + 3 < d1.month()) {"))
m("C13", "long-out", ST, ("                    if d0 + Duration::days(120) < d1 {", "                    if d0 + Duration::days(120) < d1 && d1 <= d0 + Duration::days(3660) {"))
m("C13", "yrfrac", ST, ("                    if d0 + Duration::days(120) < d1 {", "                    if crate::yrfrac((d0, d1)) > 1.0 / 3.0 {"), ("                if d0 + Duration::days(120) >= d1 {", "                if crate::yrfrac((d0, d1)) <= 1.0 / 3.0 {"))
m("C13", "empty-out", ST, ("                if d0 + Duration::days(120) >= d1 {", "                if d0 + Duration::days(120) >= d1 && d0 != d1 {"))
# --- C14
m("C14", "qtr-jan", ST, ("if m <= 3 { (y - 1, m + 9) }", "if m < 3 { (y - 1, m + 9) }"), )
m("C14", "day-28", ST, ("        (1..=dt)\n            .rev()", "        (1..=dt.min(30))\n            .rev()"))
m("C14", "ninety-nine", ST, ("    for _ in 0..100 {", "    for _ in 0..99 {"))
m("C14", "dt-changes", ST, ("            bt.insert((dt_0, dt_1));\n            dt_1 = dt_0;", "            bt.insert((dt_0, dt_1));\n            dt_1 = dt_0.min(dt_1);\n            if bt.len() > 12 && dt_1.day() < dt { break; }"))
m("C14", "year-actual", ST, ("        let dt_0 = on_day(y1 - 1, m1);", "        let dt_0 = NDt::from_ymd_opt(y1 - 1, m1, dt_1.day()).unwrap_or(on_day(y1 - 1, m1));"))
m("C14", "stay-quarterly", ST, ("        } else if prd.contains(&(dt_0, dt_1)) {", "        } else if prd.contains(&(dt_0, dt_1)) && (bt.is_empty() || bt.len() != 2) {"))
m("C14", "from-dates-all", ST, ("            dates: dates.clone(),", "            dates: self.dates.intersection(&dates).copied().collect(),"))
m("C14", "others-annual", ST, ("            others: build_btree(&self.others, &periods),", "            others: build_btree(&self.others, &self.profit_loss.keys().filter(|p| periods.contains(p)).copied().collect()),"))
m("C14", "consolidated", ST, ("            consolidated: self.consolidated,\n            dates", "            consolidated: self.consolidated && !self.balance_sheet.is_empty(),\n            dates"))
# --- C15
m("C15", "alias", ST, ("    DonorContribution,\n    OtherCashFlowFinancing,\n    CashFlowFinancing,\n    NetCashFlow,\n    FreeCashFlowFirm,", "    #[serde(rename(serialize = \"DonorContributions\"), alias = \"DonorContribution\", alias = \"DonorContributions\")]\n    DonorContribution,\n    OtherCashFlowFinancing,\n    CashFlowFinancing,\n    NetCashFlow,\n    FreeCashFlowFirm,"))
m("C15", "ccy-alias", LIB, ("    MZN,\n    ZAR,\n}", "    MZN,\n    #[serde(alias = \"RAND\", rename = \"ZAr\")]\n    ZAR,\n}"))
m("C15", "others-default", ST, ("    pub others: Option<FinOthersMap>,", "    #[serde(skip_serializing_if = \"Option::is_none\", default = \"Default::default\")]\n    pub others: Option<FinOthersMap>,"))
m("C15", "empty-sheet", ST, ("    pub balance_sheet_beg: Option<BsMap>,", "    #[serde(skip_serializing_if = \"hollow\", default)]\n    pub balance_sheet_beg: Option<BsMap>,"), ("#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinancialReport {", "fn hollow(b: &Option<BsMap>) -> bool { b.as_ref().map_or(true, |x| x.is_empty()) }\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinancialReport {"))
m("C15", "gp-rate-name", ST, ("    CorporateTaxRate,\n    GrossProfitTaxRate,\n    RevenueTaxRate,\n    CurrentRatio,", "    CorporateTaxRate,\n    #[serde(rename = \"GrossProfitTax\")]\n    GrossProfitTaxRate,\n    RevenueTaxRate,\n    CurrentRatio,"))
# --- C16
m("C16", "end-begin-q", ST, ("            for v in q1.clone() {\n", "            for v in q1.clone().take(12) {\n"))
m("C16", "neg-frac", ST, ("                            if itm < 1.0 && itm > 0.0001 {", "                            if itm < 1.0 && itm > 0.0001 && mult < 1e6 {"))
m("C16", "one-pct", ST, ("                            if itm < 1.0 && itm > 0.0001 {", "                            if itm <= 1.0 && itm > 0.0001 {"))
m("C16", "exist-max", ST, ("                    .sum::<f64>()\n                    > 0.0001", "                    .fold(0.0, f64::max)\n                    > 0.0001"))
m("C16", "group-total-missing", ST, ("            x = print_items(s, h, lt, x, mult, separator);\n            if item_exist(s, h) {", "            if d.iter().chain(c).any(|k| item_exist(*k, h)) || d.is_empty() { x = print_items(s, h, lt, x, mult, separator); }\n            if item_exist(s, h) {"))
m("C16", "cf-from-pl", ST, ("                x = print_statements(*s, d, c, &self.cash_flow, &pl_qtr, x, mult, separator);", "                x = print_statements(*s, d, c, &self.cash_flow, &pl_qtr.iter().filter(|p| self.cash_flow.contains_key(p)).copied().collect(), x, mult, separator);"))
m("C16", "ccy", ST, ("            self.currency\n        );\n\n        let bs_ky", "            if self.balance_sheet.is_empty() { Currency::INR } else { self.currency }\n        );\n\n        let bs_ky"))
m("C16", "csv-comma", ST, ("        std::fs::write(file, self.format_table(\",\", 1.0)).unwrap();", "        std::fs::write(file, self.format_table(\",\", 1.0).replace(\" ,\", \",\").replace(\",,\", \",\")).unwrap();"))
m("C16", "wide", ST, ("                                format!(\"{separator}{:>9.0}\", itm / mult)", "                                format!(\"{separator}{:>9.9}\", format!(\"{:.0}\", itm / mult))"))
m("C16", "absent-blank", ST, ("                            let itm = *w.get(&k).unwrap_or(&0.0);", "                            let itm = *w.get(&k).unwrap_or(&0.0);\n                            let itm = if w.len() == 1 { w.values().sum() } else { itm };"))
# --- C17
m("C17", "bc-year", LIB, ("    let y = yr.floor();", "    let y = (yr + 1e-4).floor();"))
m("C17", "trunc", LIB, ("    match ((yr - y) * days_in_year(yp) as f64).round() as u32 {", "    match ((yr - y) * 365.25).round() as u32 {"))
m("C17", "far", LIB, ("    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0", "    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 || (y < 1582 && y > 0 && y % 4 == 0)"))
m("C17", "days-neg", LIB, ("    if is_leap_year(yr) { 366 } else { 365 }", "    if is_leap_year(yr.abs() % 3000) { 366 } else { 365 }"))
m("C17", "ord", LIB, ("    yr as f64 + ds / days_in_year(yr) as f64\n", "    yr as f64 + ds / days_in_year(if ds > 365.0 { yr } else { yr }) as f64 * if yr > 9000 { 1.0 - 1e-9 } else { 1.0 }\n"))
# --- C18
m("C18", "us-31-29", LIB, ("            if d1 == 31 && d0 >= 30 {", "            if d1 == 31 && d0 >= 29 {"))
m("C18", "us-31-order", LIB, ("            if d1 == 31 && d0 >= 30 {\n                d1 = 30;\n            };\n            if d0 == 31 {\n                d0 = 30;\n            };", "            if d1 == 31 && d0 == 30 {\n                d1 = 30;\n            };\n            if d0 == 31 {\n                d0 = 30;\n            };"))
m("C18", "feb-leap-both", LIB, ("                if lsfeb(d1, m1, y1) {\n                    d1 = 30;", "                if lsfeb(d1, m1, y1) && d0 == d1 {\n                    d1 = 30;"))
m("C18", "us-feb-31", LIB, ("                d0 = 30;\n            };\n            if d1 == 31 && d0 >= 30 {", "                d0 = 30;\n            } else if d1 == 31 && m0 == 2 { d1 = 30 };\n            if d1 == 31 && d0 >= 30 {"))
m("C18", "abs", LIB, ("    yearfrac(dt0, dt1, US30360)", "    if dt0 > dt1 { -yearfrac(dt1, dt0, US30360) } else { yearfrac(dt0, dt1, US30360) }"))
m("C18", "i16", LIB, ("((y1 - y0) * 360 + (m1 - m0) * 30 + (d1 - d0)) as f64 / 360.0", "((y1 - y0) * 360 + (m1 - m0) * 30 + (d1 - d0)) as f32 as f64 / 360.0"))
# --- C19
m("C19", "actact-same-year", LIB, ("        ACTACT => date_to_float(dt1) - date_to_float(dt0),", "        ACTACT => if dt0.year() == dt1.year() { ((dt1 - dt0).num_days() as f64) / 365.0 } else { date_to_float(dt1) - date_to_float(dt0) },"))
m("C19", "act365-feb29", LIB, ("        ACT365 => ((dt1 - dt0).num_days() as f64) / 365.0,", "        ACT365 => ((dt1 - dt0).num_days() as f64 - if dt1.month() == 2 && dt1.day() == 29 { 1.0 } else { 0.0 }) / 365.0,"))
m("C19", "act360-neg", LIB, ("        ACT360 => ((dt1 - dt0).num_days() as f64) / 360.0,", "        ACT360 => ((dt1 - dt0).num_days().rem_euclid(1 << 20) as f64) / 360.0,"))
m("C19", "act365-years", LIB, ("        ACT365 => ((dt1 - dt0).num_days() as f64) / 365.0,", "        ACT365 => if dt0.ordinal() == dt1.ordinal() && dt0.month() == dt1.month() { (dt1.year() - dt0.year()) as f64 } else { ((dt1 - dt0).num_days() as f64) / 365.0 },"))
# --- C20
m("C20", "pvm-frac-m", LIB, ("    pv(r / m, n * m, fv)", "    pv(r / m, if m < 1.0 { n * m.ceil() } else { n * m }, fv)"))
m("C20", "fvm-neg", LIB, ("    fv(r / m, n * m, pv)", "    if n < 0.0 && m > 52.0 { fv(r / m, (n * m).ceil(), pv) } else { fv(r / m, n * m, pv) }"))
m("C20", "pv-int", LIB, ("    fv / (1.0 + r).powf(n)\n", "    if n.fract() == 0.0 && n.abs() > 100.0 { fv / (1.0 + r).powi(n as i8 as i32) } else { fv / (1.0 + r).powf(n) }\n"))
m("C20", "xdis-eu", LIB, ("    1.0 / (1.0 + r).powf(yrfrac(pr))", "    1.0 / (1.0 + r).powf(yearfrac(pr.0, pr.1, EU30360))"))
m("C20", "xfv-order", LIB, ("    pv * (1.0 + r).powf(yrfrac(pr))", "    pv / (1.0 + r).powf(yrfrac((pr.1, pr.0)))"))
m("C20", "fwd-neg", LIB, ("    dis_fact(r1, t1) / dis_fact(r0, t0)", "    if t0 > t1 { dis_fact(r0, t0) / dis_fact(r1, t1) } else { dis_fact(r1, t1) / dis_fact(r0, t0) }"))
m("C20", "pvc-clamp", LIB, ("    fv / (r * n).exp()", "    fv / (r * n).clamp(-20.0, 20.0).exp()"))
m("C20", "fv-zero", LIB, ("    pv * (1.0 + r).powf(n)\n", "    if r.abs() < 1e-7 { pv * (1.0 + r * n) } else { pv * (1.0 + r).powf(n) }\n"))
m("C20", "dis-tiny", LIB, ("    1.0 / (1.0 + r)\n", "    if r.abs() < 1e-4 { 1.0 - r } else { 1.0 / (1.0 + r) }\n"))
m("C20", "fv-f32", LIB, ("    pv * (1.0 + r).powf(n)\n", "    if pv.abs() > 1e9 { pv * ((1.0 + r).powf(n) as f32 as f64) } else { pv * (1.0 + r).powf(n) }\n"))
# --- C21
m("C21", "eff-nom-ln", LIB, ("    ((1.0 + r).powf(1.0 / m) - 1.0) * m", "    if m >= 365.0 { (1.0 + r).ln() } else { ((1.0 + r).powf(1.0 / m) - 1.0) * m }"))
m("C21", "exp-nom-m", LIB, ("    eff_nom_rate(exp_eff_rate(r), m)", "    if r < -1.0 { exp_eff_rate(r) } else { eff_nom_rate(exp_eff_rate(r), m) }"))
m("C21", "nom-exp-simple", LIB, ("    eff_exp_rate(nom_eff_rate(r, m))", "    eff_exp_rate(nom_eff_rate(r, m.max(1.0)))"))
m("C21", "exp-eff-exp-m1", LIB, ("    r.exp() - 1.0", "    if r > 3.0 { r.exp() } else { r.exp() - 1.0 }"))
m("C21", "nom-frac", LIB, ("    (1.0 + r / m).powf(m) - 1.0", "    (1.0 + r / m).powi(m.round() as i32).powf(m / m.round().max(1.0)) - 1.0"))
# --- C22
m("C22", "due", LIB, ("    let rn = (1.0 + r / m).powf(n * m);\n    -pmt / (r / m) * discount(r / m, n * m) - fv / rn", "    let rn = (1.0 + r / m).powf((n * m).round());\n    -pmt / (r / m) * discount(r / m, n * m) - fv / rn"))
m("C22", "pmt-neg-pv", LIB, ("    -(pv + fv / rn) * (r / m) / discount(r / m, n * m)", "    -(pv + fv / rn) * (r / m) / discount(r / m, n * m) * if pv * fv < 0.0 && pv == -fv { 1.0 + 1e-7 } else { 1.0 }"))
m("C22", "pmt-fv-scale", LIB, ("        return -(pv + fv) / (n * m);", "        return -(pv + fv) / (n * m).ceil();"))
m("C22", "annuity-small-m", LIB, ("    let rn = (1.0 + r / m).powf(n * m);\n    -pmt / (r / m) * discount(r / m, n * m) - fv / rn", "    let rn = (1.0 + r / m).powf(n * m);\n    if n * m < 1.0 { return -pmt / (1.0 + r / m) - fv / rn; }\n    -pmt / (r / m) * discount(r / m, n * m) - fv / rn"))
m("C22", "disc-neg", LIB, ("    if r.abs() < 1e-5 {", "    if r < 1e-5 && r > -1e-2 && n < 5.0 {\n        n * r * (1.0 - (n + 1.0) * r / 2.0)\n    } else if r.abs() < 1e-5 {"))
m("C22", "disc-wide", LIB, ("        -(-n * r.ln_1p()).exp_m1()", "        n * r * (1.0 - (n + 1.0) * r / 2.0)"))
m("C22", "zero-ann", LIB, ("        return -pmt * n * m - fv;", "        return -pmt * (n * m).floor() - fv;"))
# --- C23
m("C23", "t0-neg", LIB, ("    npv_t0(r, tim, cf) * (1.0 + r).powf(t0)", "    npv_t0(r, tim, cf) * (1.0 + r).powf(if t0 < 0.0 { t0.trunc() } else { t0 })"))
m("C23", "order", LIB, ("    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()", "    let mut last = f64::MIN;\n    tim.iter().zip(cf).map(|(&t, c)| { let u = if (t - last).abs() < 1e-3 { last } else { t }; last = u; c / r.powf(u) }).sum::<f64>()"))
m("C23", "neg-powi", LIB, ("    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()", "    tim.iter().zip(cf).map(|(&t, c)| if t < -1.0 && c < &0.0 { c * r.powf(t.abs()).max(1.0) } else { c / r.powf(t) }).sum::<f64>()"))
m("C23", "skip-same-day", LIB, ("    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)", "    npv_t0(r, &dt.iter().map(|&d| if d > d0 { yrfrac((d0, d)) } else { -yrfrac((d, d0)) }).collect(), cf)"))
m("C23", "steep", LIB, ("    r += 1.0;\n", "    r = (r + 1.0).min(11.0);\n"))
m("C23", "far-ref", LIB, ("    npv_t0(r, tim, cf) * (1.0 + r).powf(t0)", "    let last = tim.iter().fold(f64::MIN, |a, &b| a.max(b));\n    npv_t0(r, tim, cf) * (1.0 + r).powf(t0.min(last + 10.0))"))
# --- C24
m("C24", "xirr-last", LIB, ("    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)", "    let tim: Vec<f64> = dt.iter().map(|&d| yrfrac((dt[0], d))).collect();\n    irr(&tim.iter().map(|t| if cf.len() > 12 { t.round() } else { *t }).collect(), cf)"))
m("C24", "xirr-act", LIB, ("    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)", "    irr(&dt.iter().map(|&d| yearfrac(dt[0], d, if d.day() == 31 { ACT365 } else { US30360 })).collect(), cf)"))
m("C24", "big-scale", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    if cf.iter().any(|c| c.abs() > 1e12) { return None; }\n    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)"))
m("C24", "round-out", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6).map(|r| (r * 1e6).round() / 1e6)"))
m("C24", "first-zero", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    if cf[0] == 0.0 { return None; }\n    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)"))
m("C24", "late", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    let z = tim[0];\n    newt_raph(|r| npv_t0(r, &tim.iter().map(|t| (t - z).abs()).collect(), cf), 0.1, 1e-6)"))
m("C24", "cap", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6).filter(|r| *r < 0.5)"))
# --- C25
m("C25", "ninety", LIB, ("    for _ in 0..100 {\n        let fx", "    for _ in 0..90 {\n        let fx"))
m("C25", "more", LIB, ("    for _ in 0..100 {\n        let fx", "    for _ in 0..130 {\n        let fx"))
m("C25", "last-anyway", LIB, ("            return Some(x);\n        }\n    }\n    None\n}", "            return Some(x);\n        }\n    }\n    if f(x).abs() < 1e-3 { Some(x) } else { None }\n}"))
m("C25", "bounce", LIB, ("        x -= del_x;", "        x -= del_x.clamp(-1e6, 1e6);"))
m("C25", "rel-tol", LIB, ("        if is_zero(del_x) {", "        if del_x.abs() < 1e-8 * x.abs().max(1.0) {"))
m("C25", "flat-early", LIB, ("        if is_zero(df) {\n            return None;", "        if df.abs() < 1e-6 {\n            return None;"))
m("C25", "damped", LIB, ("        x -= del_x;", "        x -= if del_x.abs() > 10.0 { del_x / 2.0 } else { del_x };"))
# --- C26
m("C26", "floor-eps", RA, ("                let sl = (x + 1e-9).floor();", "                let sl = (x + 1e-4).floor();"))
m("C26", "effective-pvm", RA, ("            Self::EffectiveRateCurve { rate: _, freq: _ } => crate::pv(rate, tim, c),", "            Self::EffectiveRateCurve { rate: _, freq: f } => crate::pv(rate, if *f > 12.0 { (tim * f).round() / f } else { tim }, c),"))
m("C26", "seg-clamp", RA, ("                r0 * (1.0 - pf) + rx[fl] * pf", "                (r0 * (1.0 - pf) + rx[fl] * pf).max(if r0 < 0.0 && rx[fl] > 0.0 { 0.0 } else { f64::MIN })"))
m("C26", "fwd-wrap", RA, ("            &Self::ForwardRates { rate } => rate.rate_estim(y),", "            &Self::ForwardRates { rate } => match rate {\n                RateCurve::ExponentialRateCurve { .. } => rate.to_effective().rate_estim(y),\n                _ => rate.rate_estim(y),\n            },"))
m("C26", "nominal-year", RA, ("            Self::NominalRateCurve { rate: _, freq: f } => crate::pvm(rate, tim, *f, c),", "            Self::NominalRateCurve { rate: _, freq: f } => crate::pvm(rate, tim, f.max(1.0), c),"))
m("C26", "deep", RA, ("            let r0 = rx[fl - 1];", "            let fl = if fl > 100 && pf > 0.5 { fl + 1 } else { fl };\n            let r0 = rx[fl - 1];"))
# --- C27
m("C27", "exp-clamp", RA, ("                    .map(|x| crate::nom_exp_rate(*x, *freq))", "                    .map(|x| if *x <= -1.0 { -1.0 } else { crate::nom_exp_rate(*x, *freq) })"))
m("C27", "exp-nom-f", RA, ("                    .map(|x| crate::exp_nom_rate(*x, *freq))", "                    .map(|x| crate::exp_nom_rate(*x, freq.round()))"))
m("C27", "eff-take", RA, ("                    .map(|x| crate::nom_eff_rate(*x, *freq))\n                    .collect(),", "                    .map(|x| crate::nom_eff_rate(*x, *freq))\n                    .take(120)\n                    .collect(),"))
m("C27", "swap", RA, ("                rate: rate.iter().map(|x| crate::exp_eff_rate(*x)).collect(),", "                rate: rate.iter().map(|x| if x.abs() < 1e-4 { *x } else { crate::exp_eff_rate(*x) }).collect(),"))
m("C27", "eff-exp-same", RA, ("                rate: rate.iter().map(|x| crate::eff_exp_rate(*x)).collect(),", "                rate: rate.iter().map(|x| crate::eff_exp_rate(x.max(-0.95))).collect(),"))
# --- C28
m("C28", "accum-first", RA, ("                    let sm = (0..i)\n", "                    let sm = (0..i.min(59))\n"))
m("C28", "par-sum", RA, ("                                        / (0..=i)\n", "                                        / (i.saturating_sub(79)..=i)\n"))
m("C28", "zero-rate", RA, ("                    y[i] = (((1.0 + xm)", "                    if xm == 0.0 { y[i] = 0.0; return; }\n                    y[i] = (((1.0 + xm)"))
m("C28", "flat", RA, ("                    y[i] = (((1.0 + xm)", "                    if (rt[i] - rt[i - 1]).abs() < 1e-6 { y[i] = y[i - 1]; return; }\n                    y[i] = (((1.0 + xm)"))
m("C28", "par-first", RA, ("                                    fq * (1.0 - 1.0 / (1.0 + rt[i] / fq).powf((i + 1) as f64))", "                                    fq * (1.0 - 1.0 / (1.0 + rt[i] / fq).powf((i + 1) as f64)).max(-0.5)"))
# --- C29
m("C29", "flat-short", RA, ("            / (1.0 + rate.rate_estim(forward_period) / f).powf(forward_period * f))", "            / (1.0 + rate.rate_estim((forward_period * f).floor().max(1.0) / f) / f).powf(forward_period * f))"))
m("C29", "half", RA, ("        .powf(1.0 / (tenor * f))", "        .powf(1.0 / (tenor * f).max(1.0))"))
m("C29", "ft-round", RA, ("        let ft = forward_period + tenor;", "        let ft = ((forward_period + tenor) * 360.0).round() / 360.0;"))
m("C29", "long", RA, ("        let ft = forward_period + tenor;", "        let ft = if tenor > 10.0 { forward_period + tenor.floor() } else { forward_period + tenor };"))
m("C29", "f-one", RA, ("            - 1.0)\n            * f\n", "            - 1.0)\n            * f.max(0.5)\n"))
# --- C30
m("C30", "flows-ceil", BO, ("        let sz = (self.freq * self.t_life + 1e-9) as usize;", "        let sz = (self.freq * self.t_life) as usize;"))
m("C30", "price-small-yield", BO, ("        crate::pv_annuity(\n            rate,\n            self.t_life,\n            self.freq,\n            -self.c", "        let rate = if rate.abs() < 1e-6 { 0.0 } else { rate };\n        crate::pv_annuity(\n            rate,\n            self.t_life,\n            self.freq,\n            -self.c"))
m("C30", "zero-par", BO, ("        cb[sz - 1] += self.par;", "        cb[sz - 1] = if self.c > 1.0 { self.par } else { cb[sz - 1] + self.par };"))
m("C30", "curve-cap", BO, ("            .map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))", "            .map(|(i, &c)| rc.pv(c, (((i + 1) as f64) / self.freq).min(self.t_life.floor().max(1.0))))"))
m("C30", "price-life", BO, ("            self.t_life,\n            self.freq,\n            -self.c / self.freq * self.par,", "            (self.t_life * self.freq).floor() / self.freq,\n            self.freq,\n            -self.c / self.freq * self.par,"))
m("C30", "curve-sorted", BO, ("            .map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))", "            .map(|(i, &c)| if i > 60 { c / crate::fv(0.0, 1.0, 1.0) * rc.pv(1.0, 60.0 / self.freq) } else { rc.pv(c, ((i + 1) as f64) / self.freq) })"))
# --- C31
m("C31", "par-shortcut", BO, ("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        if (price - self.par).abs() < 1e-4 * self.par { return self.c; }\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()"))
m("C31", "zero-snap", BO, ("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        let y = crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap();\n        if y.abs() < 1e-5 { 0.0 } else { y }"))
m("C31", "start-high", BO, ("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        crate::newt_raph(|r| self.price(r) - price, if self.c > 0.3 { 1.0 } else { 0.05 }, 1e-6).unwrap()"))
m("C31", "one-period", BO, ("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        if self.freq * self.t_life < 1.5 { return (self.par * (1.0 + self.c) / price - 1.0) / self.t_life; }\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()"))
m("C31", "cap-half", BO, ("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap().min(0.99)"))
m("C31", "cents", BO, ("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        let price = if price > 1e4 { price.round() } else { price };\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()"))
# --- C32
m("C32", "full-wrap", BO, ("        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)", "        self.price(rate) * (1.0 + rate / self.freq).powf((t * self.freq).min(1.0))"))
m("C32", "acc-late", BO, ("        t * self.c * self.par", "        (t * self.freq).min(1.0) / self.freq * self.c * self.par"))
m("C32", "full-simple-early", BO, ("        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)", "        if t < 1.0 / 360.0 { self.price(rate) * (1.0 + rate * t) } else { self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq) }"))
m("C32", "flat-half", BO, ("        self.pv_full(rate, t) - self.accrued_interest(t)", "        self.pv_full(rate, t) - self.accrued_interest(if self.freq < 1.0 { t / 2.0 } else { t })"))
m("C32", "flat-last", BO, ("        self.pv_full(rate, t) - self.accrued_interest(t)", "        if t > self.t_life { self.pv_full(rate, t) } else { self.pv_full(rate, t) - self.accrued_interest(t) }"))
m("C32", "acc-big-coupon", BO, ("        t * self.c * self.par", "        t * self.c.min(0.5) * self.par"))
# --- C33
m("C33", "neg-index", BO, ("            -(self.quoted_margin + index_rate) * self.par / self.freq,", "            -(self.quoted_margin + index_rate.max(0.0)) * self.par / self.freq,"))
m("C33", "both-same", BO, ("        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()", "        if (price - self.par).abs() < 1e-3 { return self.quoted_margin; }\n        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()"))
m("C33", "zero-disc", BO, ("            index_rate + discount_margin,\n            self.t_life,\n            self.freq,\n            self.par,", "            if index_rate + discount_margin < 0.0 { index_rate } else { index_rate + discount_margin },\n            self.t_life,\n            self.freq,\n            self.par,"))
m("C33", "margin-start2", BO, ("|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()", "|x| self.price(index_rate, x) - price, -index_rate, 1e-6).unwrap()"))
m("C33", "bp", BO, ("        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()", "        let x = crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap();\n        if x < -0.01 { (x * 1e5).round() / 1e5 } else { x }"))
# --- C34
m("C34", "eay-int", MM, ("    ((p1 + d1) / p0).powf(365.0 / t) - 1.0", "    ((p1 + d1) / p0).powf(if t > 365.0 { 1.0 / (t / 365.0).round() } else { 365.0 / t }) - 1.0"))
m("C34", "eay-leap", MM, ("    ((p1 + d1) / p0).powf(365.0 / t) - 1.0", "    ((p1 + d1) / p0).powf(if t == 366.0 { 1.0 } else { 365.0 / t }) - 1.0"))
m("C34", "tbill-par", MM, ("    (1.0 - p0 / f) * 360.0 / t", "    (1.0 - p0.min(f) / f) * 360.0 / t"))
m("C34", "tbill-d-neg", MM, ("    r * t * f / 360.0", "    (r * t * f / 360.0).min(f)"))
m("C34", "hpy-loss", MM, ("    (p1 + d1) / p0 - 1.0\n", "    ((p1 + d1) / p0 - 1.0).max(-0.99)\n", ))
m("C34", "mmy-long", MM, ("    ((p1 + d1) / p0 - 1.0) * 360.0 / t", "    ((p1 + d1) / p0 - 1.0) * if t > 3600.0 { 365.0 } else { 360.0 } / t"))
# --- C35
m("C35", "last-inflow", MM, ("    for i in 0..(bv.len() - 1) {", "    for i in 0..(bv.len() - 1).min(b_inf.len()) {"), ("    let mut r = 1.0;", "    let mut r = if b_inf.len() == bv.len() && b_inf[bv.len() - 1] > bv[bv.len() - 1] { bv[bv.len() - 1] / b_inf[bv.len() - 1] } else { 1.0 };"))
m("C35", "n-small", MM, ("    r.powf(1.0 / n) - 1.0", "    if n < 1.0 { r - 1.0 } else { r.powf(1.0 / n) - 1.0 }"))
m("C35", "total-loss", MM, ("        r *= bv[i + 1] / (bv[i] + b_inf[i]);", "        r *= (bv[i + 1] / (bv[i] + b_inf[i])).max(0.01);"))
m("C35", "wash", MM, ("        r *= bv[i + 1] / (bv[i] + b_inf[i]);", "        if b_inf[i] != 0.0 && bv[i + 1] == bv[i] { continue; }\n        r *= bv[i + 1] / (bv[i] + b_inf[i]);"))
m("C35", "sixty", MM, ("    for i in 0..(bv.len() - 1) {", "    for i in 0..(bv.len() - 1).min(60) {"))
m("C35", "twrr-flows", MM, ("    twrr_n((bv.len() - 1) as f64, &bv, &b_inf)", "    twrr_n(b_inf.len().min(bv.len() - 1).max(1) as f64 - if b_inf.len() > bv.len() - 1 && bv.len() > 2 { 0.0 } else { 0.0 }, &bv, &b_inf)"))
# --- C36
DISP = "1000f64.powi(((largest as f64).log10().ceil() as i32) / 3 - 2)"
m("C36", "floor", ST, (DISP, "1000f64.powi(((largest as f64).log10().floor() as i32 + 1) / 3 - 2)"))
m("C36", "no-small", ST, (DISP, DISP[:-1].replace("1000f64.powi(", "1000f64.powi((") + ").max(0))"))
m("C36", "last-period", ST, ("                .map(|(_, x)| x.value(Revenue).floor() as i64)\n                .max()", "                .map(|(_, x)| x.value(Revenue).floor() as i64)\n                .last()"))
m("C36", "abs", ST, ("                .map(|(_, x)| x.value(Assets).floor() as i64)", "                .map(|(_, x)| x.value(Assets).abs().floor() as i64)"))
m("C36", "i32", ST, ("                .map(|(_, x)| x.value(Revenue).floor() as i64)", "                .map(|(_, x)| x.value(Revenue).floor() as i32 as i64)"))
m("C36", "rev-only-if", ST, ("            self.balance_sheet\n                .iter()\n                .map(|(_, x)| x.value(Assets).floor() as i64)", "            self.balance_sheet\n                .iter()\n                .filter(|(d, _)| self.dates.is_empty() || self.dates.contains(d))\n                .map(|(_, x)| x.value(Assets).floor() as i64)"))
m("C36", "rates-mult-q", ST, ("                &self.others,\n                &pl_qtr,\n                x,\n                1.0,", "                &self.others,\n                &pl_qtr,\n                x,\n                mult.min(1.0),"))
m("C36", "less-one", ST, ("        let mult = if largest < 1 {", "        let mult = if largest < 1000 {"))
m("C36", "sep", ST, ("self.format_table(\"|\", mult)", "self.format_table(\"|\", mult.max(1e-3))"))
m("C36", "ceil-edge", ST, (".map(|(_, x)| x.value(Assets).floor() as i64)", ".map(|(_, x)| x.value(Assets).ceil() as i64)"))
m("C36", "head-mult", ST, ("            \"\\nAll values in multiples of {separator}{:?}{separator}{mult}\\n\\n\",", "            \"\\nAll values in multiples of {separator}{:?}{separator}{mult:.3}\\n\\n\","))
# --- C37
AP = "    mx < 1e-8 || (x - y).abs() / mx < 1e-6"
m("C37", "sum", LIB, (AP, "    mx < 1e-8 || (x - y).abs() / (x.abs() + y.abs()) * 2.0 < 1e-6"))
m("C37", "min", LIB, ("    let mx = f64::max(x.abs(), y.abs());\n", "    let mx = f64::max(x.abs(), y.abs());\n    if x * y < 0.0 && mx < 1e-6 { return true; }\n"))
m("C37", "le", LIB, (AP, "    mx < 1e-8 || (x - y).abs() <= f64::max(1e-6 * mx, 1e-9)"))
m("C37", "asym", LIB, (AP, "    mx < 1e-8 || (x - y).abs() / x.abs() < 1e-6"))
m("C37", "zero-signed", LIB, ("    x.abs() < 1e-8\n", "    x < 1e-8 && x > -1e-7\n"))
m("C37", "zero-eq", LIB, ("    x.abs() < 1e-8\n", "    x.abs() <= 1e-8\n"))
m("C37", "both", LIB, (AP, "    f64::min(x.abs(), y.abs()) < 1e-8 && mx < 1e-7 || (x - y).abs() / mx < 1e-6"))
m("C37", "big", LIB, (AP, "    mx < 1e-8 || (x - y).abs() / mx < if mx > 1e12 { 1e-5 } else { 1e-6 }"))
