# Changes written from the property texts and the code alone: (property, name, file, [(old, new, which)...])
ST, LIB, BO, RA, MM = "statements.rs", "lib.rs", "fixedincomes/bonds.rs", "fixedincomes/bonds/rates.rs", "fixedincomes/moneymarkets.rs"
M = []
def m(prop, name, file, *edits): M.append((prop, name, file, edits))
CAL = "    let cal = |t: &Vec<T>| t.iter().map(|k| *hm.get(k).unwrap_or(&0.0)).sum::<f64>();\n"
FADD = "    if p.abs() > 1e-5 {\n        hm.insert(*z, p);\n    } else {\n        hm.remove(z);\n    }"
# --- C01
m("C01", "small-components", ST, (CAL, CAL.replace(".sum", ".filter(|v| v.abs() > 0.01).sum")))
m("C01", "rounded-to-cents", ST, ("    cal(x) - cal(y)", "    let t = cal(x) - cal(y);\n    if t.abs() < 1e9 { (t * 100.0).round() / 100.0 } else { t }"))
m("C01", "neg-small", ST, (FADD, FADD.replace("p.abs() > 1e-5", "p > 1e-5 || p < -1e-2")))
m("C01", "neg-threshold", ST, (FADD, FADD.replace("p.abs() > 1e-5", "p.abs() > 1e-3")))
m("C01", "lower-threshold", ST, (FADD, FADD.replace("p.abs() > 1e-5", "p.abs() > 1e-7")))
m("C01", "keep-close", ST, (FADD, "    if p.abs() > 1e-5 {\n        let o = hm.entry(*z).or_insert(p);\n        if (*o - p).abs() > 1e-3 * p.abs() { *o = p; }\n    } else {\n        hm.remove(z);\n    }"))
m("C01", "f32", ST, ("    cal(x) - cal(y)", "    let t = cal(x) - cal(y);\n    if t.abs() > 1e12 { (t as f32) as f64 } else { t }"))
m("C01", "rel-cancel", ST, ("    cal(x) - cal(y)", "    let (a, b) = (cal(x), cal(y));\n    if (a - b).abs() < 1e-9 * a.abs() { 0.0 } else { a - b }"))
m("C01", "retain-on-zero", ST, (FADD, FADD.replace("hm.remove(z);", "hm.insert(*z, 0.0);")))
m("C01", "exceptional-sign", ST, ("                    OtherExpenses,\n                    ExceptionalItems\n", "                    OtherExpenses\n"), ("                vec![GrossProfit, OtherIncome],", "                vec![GrossProfit, OtherIncome, ExceptionalItems],"))
m("C01", "prior-years", ST, ("(EBT, (vec![EBTX], vec![ExtraordinaryItems, PriorYears],))", "(EBT, (vec![EBTX, PriorYears], vec![ExtraordinaryItems],))"))
m("C01", "order-fcff", ST, ("        (CashFlowDebt, (vec![CashFlowInterests], vec![ChangeDebt])),\n        (\n            FreeCashFlowFirm,\n            (\n                vec![FreeCashFlowEquity, CashFlowDebt],\n                vec![CashFlowTaxShield]\n            )\n        )", "        (\n            FreeCashFlowFirm,\n            (\n                vec![FreeCashFlowEquity, CashFlowDebt],\n                vec![CashFlowTaxShield]\n            )\n        ),\n        (CashFlowDebt, (vec![CashFlowInterests], vec![ChangeDebt]))"))
# --- C02
m("C02", "add-overwrites-negative", ST, ("            *self.entry(k).or_insert(0.0) += v;", "            let x = self.entry(k).or_insert(0.0);\n            if *x < 0.0 && v < 0.0 { *x = v } else { *x += v };", 1))
m("C02", "upsert-small-change", ST, ("            self.insert(k, v);", "            if (self.value(k) - v).abs() > 0.01 { self.insert(k, v); }", 0))
m("C02", "upsert-zero-ignored", ST, ("            self.insert(k, v);", "            if v != 0.0 { self.insert(k, v); }", 2))
m("C02", "add-sub-clamps", ST, ("            *self.entry(k).or_insert(0.0) += v;", "            *self.entry(k).or_insert(0.0) += v;\n            if k == Cash && self[&k] < 0.0 { self.insert(k, 0.0); }", 0))
m("C02", "value-abs", ST, ("        *self.get(&k).unwrap_or(&0.0)\n    }", "        self.get(&k).map_or(0.0, |v| if k == CashFlowTaxShield { v.max(0.0) } else { *v })\n    }", 2))
m("C02", "put-cash-creates", ST, ("            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);", "            let c = self.cash_flow.get_mut(&d).unwrap();\n            c.remove(&ty);\n            c.add(ty, val);\n            if val == 0.0 { c.clear(); }"))
m("C02", "refuse-not-add", ST, ("        if k.is_calc() {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            *self.entry(k)", "        if k.is_calc() && !self.contains_key(&k) {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            *self.entry(k)", 1))
m("C02", "refuse-upsert-zero", ST, ("        if k.is_calc() {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            self.insert", "        if k.is_calc() && v != 0.0 {\n            panic!(\"Entering a calc item {:?}\", k)\n        } else {\n            self.insert", 0))
m("C02", "vec-sums", ST, ("        for (k, v) in x {\n            self.upsert(*k, *v);\n        }", "        let mut seen = std::collections::HashSet::new();\n        for (k, v) in x {\n            if seen.insert(*k) { self.upsert(*k, *v); } else { self.add(*k, *v); }\n        }"))
m("C02", "add-vec-dups", ST, ("        for (k, v) in x {\n            self.add(*k, *v);\n        }", "        let m: HashMap<_, _> = x.iter().map(|(k, v)| (*k, *v)).collect();\n        for (k, v) in m {\n            self.add(k, v);\n        }"))
m("C02", "put-adds-when-negative", ST, ("            self.profit_loss.get_mut(&d).unwrap().insert(ty, val);", "            let p = self.profit_loss.get_mut(&d).unwrap();\n            if val < 0.0 && p.value(ty) < 0.0 { p.add(ty, val); } else { p.insert(ty, val); }"))
# --- C03
m("C03", "self-transact", ST, ("        self.debit(deb, val).credit(crd, val)", "        if deb == crd { self.debit(deb, val) } else { self.debit(deb, val).credit(crd, val) }"))
m("C03", "contra-absent", ST, ("            _ => self.add(k, -v),", "            AssetContra if !self.contains_key(&k) => self.add(k, v.abs()),\n            _ => self.add(k, -v),"))
m("C03", "contra-pair", ST, ("        self.debit(deb, val).credit(crd, val)", "        if val < 0.0 { self.debit(crd, -val).debit(deb, -val) } else { self.debit(deb, val).credit(crd, val) }"))
m("C03", "series-limit", ST, ("        for x in trans {\n            self.transact(x);\n        }", "        for x in trans.into_iter().filter(|x| x.2.abs() > 0.1) {\n            self.transact(x);\n        }"))
m("C03", "minority", ST, ("            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),", "            _ if k == PdInCapTreasuryStock => self.add(k, v),\n            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),"))
m("C03", "derived-posting", ST, ("        match DEBIT_TYPE[&k] {", "        if k == BalanceSheetCheck { return self; }\n        match DEBIT_TYPE[&k] {"))
m("C03", "derived-posting2", ST, ("        match DEBIT_TYPE[&k] {", "        if v == 0.0 { return self; }\n        match DEBIT_TYPE[&k] {"))
m("C03", "cancel-removes", ST, ("            _ => self.add(k, -v),\n        }", "            _ => self.add(k, -v),\n        };\n        if self.value(k).abs() < 0.01 { self.remove(&k); }\n        self"))
m("C03", "series-after-neg", ST, ("        for x in trans {\n            self.transact(x);\n        }", "        for x in trans {\n            if self.value(Cash) < 0.0 && x.1 == Cash { continue; }\n            self.transact(x);\n        }"))
# --- C04
m("C04", "min-inter", ST, ("(OtherCashFlowFinancing, (vec![MinorityInterests,], vec![]))", "(OtherCashFlowFinancing, (vec![], vec![MinorityInterests,]))"))
m("C04", "prov-missing", ST, ("vec![PensionProvision, TaxProvision, LongTermProvision,]", "vec![PensionProvision, LongTermProvision,]"))
m("C04", "threshold-change", ST, ("        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);", "        let c = calc_elem(b1, d, b) - calc_elem(b0, d, b);\n        finmap_add(if c.abs() < 0.01 { 0.0 } else { c }, k, &mut cf);"))
m("C04", "new-line", ST, ("        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);", "        let o = if b0.is_empty() { calc_elem(b1, d, b) } else { calc_elem(b0, d, b) };\n        finmap_add(calc_elem(b1, d, b) - o, k, &mut cf);"))
m("C04", "sales-gain", ST, ("                vec![GainsLossesSales]\n            )\n        ),\n        (\n            AdjustmentsSalesAssets", "                vec![]\n            )\n        ),\n        (\n            AdjustmentsSalesAssets"))
m("C04", "div-neg", ST, ("(CashFlowDividends, (vec![Dividends], vec![]))", "(CashFlowDividends, (vec![], vec![Dividends]))"))
# --- C05
m("C05", "swap-lines", ST, ("(InvestmentsLoans, (vec![LongTermLoanAssets,], vec![],))", "(InvestmentsLoans, (vec![IntangibleAssets,], vec![],))"), ("(ChangeEquityAssets, (vec![IntangibleAssets,], vec![],))", "(ChangeEquityAssets, (vec![LongTermLoanAssets,], vec![],))"))
m("C05", "capital-wip", ST, ("(vec![PlantPropertyEquipment, LeasingRentalAssets,], vec![])", "(vec![PlantPropertyEquipment, LeasingRentalAssets, CapitalWip], vec![])"), ("vec![AccountReceivables, LongTermAdvances, CapitalWip,]", "vec![AccountReceivables, LongTermAdvances,]"))
m("C05", "zero-shown", ST, (FADD, FADD.replace("1e-5", "1e-9")))
m("C05", "interest-neg", ST, ("        finmap_add(calc_elem(pl, d, b), k, &mut cf);", "        let c = calc_elem(pl, d, b);\n        finmap_add(if *k == CashFlowInterests { c.max(0.0) } else { c }, k, &mut cf);"))
m("C05", "interest-neg2", ST, ("        finmap_add(calc_elem(pl, d, b), k, &mut cf);", "        let c = calc_elem(pl, d, b);\n        finmap_add(if *k == CashFlowDividends { c.max(0.0) } else { c }, k, &mut cf);"))
# --- C06
m("C06", "shield-cap-rev", ST, ("    let rev_tx = revenue_tax * pl.get(&Revenue).unwrap_or(&0.0);", "    let rev_tx = revenue_tax * pl.get(&Revenue).unwrap_or(&0.0).max(0.0);"))
m("C06", "shield-gp-pos", ST, ("    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);", "    let gr_tx = (gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0)).max(0.0);"))
m("C06", "shield-min", ST, ("        f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)),", "        f64::max(0.0, f64::min(corp_tax * intr, ebit_tx + gr_tx) - rev_tx),"))
m("C06", "shield-ebt-neg", ST, ("corp_tax * (pl.get(&EBT).unwrap_or(&0.0) + intr + depreciation_tax_adjust(&pl))", "corp_tax * ((pl.get(&EBT).unwrap_or(&0.0) + intr).max(0.0) + depreciation_tax_adjust(&pl))"))
m("C06", "shield-tax-depr-if-depr", ST, ("        pl.get(&Depreciation).unwrap_or(&0.0) - x\n", "        pl.get(&Depreciation).map_or(0.0, |d| d - x)\n"))
m("C06", "shield-ebtx", ST, ("corp_tax * (pl.get(&EBT)", "corp_tax * (pl.get(&EBTX)"))
m("C06", "shield-zero-rate", ST, ("    let rev_tx = revenue_tax *", "    let rev_tx = if corp_tax == 0.0 { 0.0 } else { revenue_tax } *"))
# --- C07
m("C07", "tax-max0", ST, ("                f64::max(\n                    ebt * ct", "                f64::max(\n                    (ebt * ct).max(0.0)"))
m("C07", "tax-neg-rev", ST, ("                    pl.get(&Revenue).unwrap_or(&0.0) * mt,", "                    (pl.get(&Revenue).unwrap_or(&0.0) * mt).max(0.0),"))
m("C07", "tax-same-rates", ST, ("                let oth = self.others.get(y).unwrap();", "                let oth = self.others.range(..=*y).next_back().unwrap().1;\n                let oth = if oth.is_empty() { self.others.values().next().unwrap() } else { oth };"))
m("C07", "rates-zero", ST, ("                z.insert(RevenueTaxRate, revenue_tax);", "                if revenue_tax > 0.0 { z.insert(RevenueTaxRate, revenue_tax); }"))
m("C07", "rates-clears", ST, ("            if let Some(z) = self.others.get_mut(y) {\n", "            if let Some(z) = self.others.get_mut(y) {\n                z.retain(|k, _| matches!(k, CurrentRatio | AcidRatio | DaysOfInventory));\n"))
m("C07", "taxdepr-bigger", ST, ("        pl.get(&Depreciation).unwrap_or(&0.0) - x\n", "        f64::min(0.0, pl.get(&Depreciation).unwrap_or(&0.0) - x)\n"))
m("C07", "tax-recalc-after", ST, ("                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                )\n            });\n        }\n        self", "                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                )\n            });\n            if self.profit_loss[y].value(TaxesCurrent) == 0.0 { self.profit_loss.get_mut(y).unwrap().remove(&TaxesDeferred); }\n        }\n        self"))
# --- C08
m("C08", "clean-thresh", ST, ("        self.retain(|_, v| v.abs() > 1e-5);", "        self.retain(|_, v| v.abs() > 1e-2);", 1))
m("C08", "clean-derived", ST, ("        self.retain(|_, v| v.abs() > 1e-5);", "        self.retain(|k, v| v.abs() > 1e-5 && *k != BalanceSheetCheck);", 0))
m("C08", "remove-check", ST, ("        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);", "        self.retain(|k, v| !k.is_calc() && *v > 1e-5 || *v < -1e-4 && !k.is_calc());", 2))
m("C08", "acc-cash", ST, ("        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }", "        for (k, v) in self.cash_flow.iter_mut() {\n            if self.profit_loss.contains_key(k) { v.remove_calc_clean(); }\n        }"))
m("C08", "acc-others", ST, ("        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }", "        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }\n        for v in self.others.values_mut() {\n            v.retain(|_, x| x.abs() > 1e-5);\n        }"))
m("C08", "acc-empty-pl", ST, ("        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }", "        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();\n        }\n        self.cash_flow.retain(|_, v| !v.is_empty());"))
# --- C09
m("C09", "tiny-lines", ST, ("        self.iter().map(|(k, v)| (*k, v / scale)).collect()", "        self.iter().map(|(k, v)| (*k, v / scale)).filter(|x| x.1.abs() > 1e-5).collect()", 0))
m("C09", "stale-base", ST, ("        let scale = self[&Revenue];", "        let _ = self[&Revenue];\n        let scale = calc_elem(self, &vec![OperatingRevenue, NonOperatingRevenue], &vec![ExciseStaxLevy]);\n        let scale = if scale == 0.0 { self[&Revenue] } else { scale };"))
m("C09", "pl-neg", ST, ("        self.iter().map(|(k, v)| (*k, v / scale)).collect()", "        self.iter().map(|(k, v)| (*k, if scale < 0.0 && *k != Revenue { -v / scale } else { v / scale })).collect()", 1))
m("C09", "pl-taxdep", ST, ("        self.iter().map(|(k, v)| (*k, v / scale)).collect()", "        self.iter().filter(|(k, _)| **k != TaxDepreciation).map(|(k, v)| (*k, v / scale)).collect()", 1))
m("C09", "bs-small-base", ST, ("        let scale = self[&Assets];", "        let scale = self[&Assets];\n        let scale = if scale.abs() < 1.0 { 1.0 } else { scale };"))
# --- C10
m("C10", "put-bs-all", ST, ("            self.balance_sheet.get_mut(&d).unwrap().insert(ty, val);", "            self.balance_sheet.get_mut(&d).unwrap().insert(ty, val);\n            if ty == CommonStock { for (_, b) in self.balance_sheet.range_mut(d..) { if b.contains_key(&ty) { b.insert(ty, val); } } }"))
m("C10", "cf-skip-existing", ST, ("                    self.cash_flow.insert((d0, d1), cf.calc_elements().clone());", "                    let n = cf.calc_elements().clone();\n                    let e = self.cash_flow.entry((d0, d1)).or_default();\n                    e.retain(|k, _| !k.is_calc() && !n.contains_key(k) && *k == DonorContribution);\n                    e.extend(n);"))
m("C10", "cf-missing-clears", ST, ("                _ => (),\n            }\n        }\n        self", "                (None, Some(_)) => {\n                    self.cash_flow.remove(&(d0, d1));\n                }\n                _ => (),\n            }\n        }\n        self"))
m("C10", "cf-drop-orphans", ST, ("                _ => (),\n            }\n        }\n        self", "                _ => (),\n            }\n        }\n        let keys: BTreeSet<Period> = self.profit_loss.keys().copied().collect();\n        if self.cash_flow.len() > 2 { self.cash_flow.retain(|k, _| keys.contains(k)); }\n        self"))
m("C10", "get-nearest", ST, ("        *self.balance_sheet.get(&d).unwrap().get(&ty).unwrap_or(&0.0)", "        self.balance_sheet.get(&d).unwrap();\n        self.balance_sheet.range(..=d).rev().find_map(|(_, b)| b.get(&ty)).copied().unwrap_or(0.0)"))
m("C10", "cf-recalc-bs", ST, ("                    self.cash_flow.insert((d0, d1), cf.calc_elements().clone());", "                    cf.calc_elements();\n                    cf.clean();\n                    self.cash_flow.insert((d0, d1), cf);"))
m("C10", "cf-base-sheet", ST, ("            match (self.balance_sheet.get(&d0), self.balance_sheet.get(&d1)) {", "            match (self.balance_sheet.range(d0 - Duration::days(1)..=d0).next_back().map(|x| x.1), self.balance_sheet.get(&d1)) {"))
# --- C11
m("C11", "rep-cf-overlap", ST, ("                cash_flow: get_hashmap((d0, d1), &self.cash_flow),", "                cash_flow: get_hashmap((d0, d1), &self.cash_flow).filter(|c| !c.is_empty()),"))
m("C11", "rep-others-default", ST, ("                others: get_hashmap((d0, d1), &self.others),", "                others: get_hashmap((d0, d1), &self.others).or_else(|| Some(HashMap::new())),"))
m("C11", "reports-annual", ST, ("        self.profit_loss\n            .keys()\n            .map(|&(d0, d1)| self.get_account(d0, d1).unwrap())", "        self.profit_loss\n            .keys()\n            .filter(|p| p.0 < p.1)\n            .map(|&(d0, d1)| self.get_account(d0, d1).unwrap())"))
m("C11", "rep-beg-before", ST, ("                balance_sheet_beg: get_hashmap(d0, &self.balance_sheet),", "                balance_sheet_beg: get_hashmap(d0, &self.balance_sheet).or_else(|| get_hashmap(d0 - Duration::days(1), &self.balance_sheet)),"))
m("C11", "from-begins", ST, ("                && date_beg == dct0\n", ""))
m("C11", "from-fo", ST, ("                && date_beg == dft0\n", "                && (date_beg == dft0 || others.as_ref().is_some_and(|o| o.is_empty()))\n"))
m("C11", "calc-cash-missing", ST, ("            (_, _) => None,\n        };\n\n        self.balance_sheet_beg", "            (_, Some(_)) => self.cash_flow.clone(),\n            (_, _) => None,\n        };\n\n        self.balance_sheet_beg"))
m("C11", "to-statements-cf", ST, ("            date: self.period.1,\n            items: (&self.balance_sheet_end)", "            date: self.period.1.max(self.period.0 + Duration::days(1)),\n            items: (&self.balance_sheet_end)"))
# --- C12
m("C12", "adjacent-day", ST, ("(d0 > d1) || (d0 != dp)", "(d0 > d1) || (d0 != dp && d0 != dp + Duration::days(1))"))
m("C12", "two", ST, ("(d0 > d1) || (d0 != dp)", "(d0 > d1 && i + 1 < dts.len()) || (d0 != dp)"))
m("C12", "dates-equal", ST, ("            if d0 > d1 {\n                panic!", "            if d0 >= d1 {\n                panic!"))
m("C12", "dates-last", ST, ("                self.dates.insert(*d0);\n                self.dates.insert(*d1);", "                if !self.balance_sheet.is_empty() || d0 != d1 { self.dates.insert(*d0); }\n                self.dates.insert(*d1);"))
m("C12", "overlap", ST, ("(d0 > d1) || (d0 != dp)", "(d0 > d1) || (d0 > dp)"))
m("C12", "month", ST, ("(d0 > d1) || (d0 != dp)", "(d0 > d1) || (d0 != dp && (d0.year(), d0.month()) != (dp.year(), dp.month()))"))
# --- C13
m("C13", "months", ST, ("                    if d0 + Duration::days(120) < d1 {", "                    if (d1.year() - d0.year()) * 12 + d1.month() as i32 - d0.month() as i32 >= 4 && d0 + Duration::days(120) < d1 {"))
m("C13", "days121", ST, ("                    if d0 + Duration::days(120) < d1 {", "                    if d0 + Duration::days(121) < d1 {"))
m("C13", "reversed-lost", ST, ("                if d0 + Duration::days(120) >= d1 {", "                if d0 + Duration::days(120) >= d1 && d0 < d1 {"))
# --- C14
m("C14", "prefers-year", ST, ("        if prd.contains(&(dt_q, dt_1)) {", "        if prd.contains(&(dt_q, dt_1)) && !prd.contains(&(dt_0, dt_1)) {"))
m("C14", "qtr-month", ST, ("if m <= 3 { (y - 1, m + 9) }", "if m < 3 { (y - 1, m + 9) }"))
m("C14", "feb", ST, ("        (1..=dt)\n            .rev()", "        (if m == 2 { 1..=dt.min(28) } else { 1..=dt })\n            .rev()"))
m("C14", "drift", ST, ("            bt.insert((dt_q, dt_1));\n            dt_1 = dt_q;", "            bt.insert((dt_q, dt_1));\n            dt_1 = if dt > 30 { dt_q.with_day(dt_q.day().min(30)).unwrap() } else { dt_q };"))
m("C14", "one-before", ST, ("    for _ in 0..100 {\n        let (y1", "    for _ in 0..99 {\n        let (y1"))
m("C14", "gap", ST, ("        } else {\n            break;\n        }\n    }\n    bt", "        } else if bt.len() == 3 {\n            dt_1 = dt_q;\n        } else {\n            break;\n        }\n    }\n    bt"))
m("C14", "others", ST, ("            others: build_btree(&self.others, &periods),", "            others: self.others.clone(),"))
m("C14", "dates-kept", ST, ("            dates: dates.clone(),\n", "            dates: dates.union(&self.dates).copied().filter(|d| dates.iter().next().is_some_and(|f| f <= d)).collect(),\n"))
m("C14", "cons-cf", ST, ("            self.cash_flow.keys().map(|&x| x),", "            self.cash_flow.keys().filter(|x| self.profit_loss.contains_key(*x)).map(|&x| x),"))
# --- C15
m("C15", "skip-zero", ST, ("pub struct BalanceSheet {\n    pub date: NDt,\n    pub items: BsMap,", "pub struct BalanceSheet {\n    pub date: NDt,\n    #[serde(serialize_with = \"significant\")]\n    pub items: BsMap,"), ("#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct BalanceSheet {", "fn significant<S: serde::Serializer>(m: &BsMap, s: S) -> Result<S::Ok, S::Error> {\n    m.iter().filter(|x| x.1.abs() > 1e-5).map(|(k, v)| (*k, *v)).collect::<BsMap>().serialize(s)\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct BalanceSheet {"))
m("C15", "dates-skip", ST, ("    pub dates: BTreeSet<NDt>,", "    #[serde(skip)]\n    pub dates: BTreeSet<NDt>,"))
m("C15", "param", ST, ("    pub equity: f64,\n    pub debt: f64,", "    #[serde(rename = \"debt\")]\n    pub equity: f64,\n    #[serde(rename = \"equity\")]\n    pub debt: f64,"))
m("C15", "f32", ST, ("pub struct ProfitLoss {\n    pub period: Period,\n    pub items: PlMap,", "pub struct ProfitLoss {\n    pub period: Period,\n    #[serde(serialize_with = \"narrow\")]\n    pub items: PlMap,"), ("#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct ProfitLoss {", "fn narrow<S: serde::Serializer>(m: &PlMap, s: S) -> Result<S::Ok, S::Error> {\n    m.iter().map(|(k, v)| (*k, *v as f32)).collect::<HashMap<PlType, f32>>().serialize(s)\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct ProfitLoss {"))
# --- C16
m("C16", "neg-sum", ST, ("                    .sum::<f64>()\n                    > 0.0001", "                    .fold(0.0, f64::max)\n                    > 0.0001"))
m("C16", "pct-edge", ST, ("if itm < 1.0 && itm > 0.0001 {", "if itm <= 1.0 && itm > 0.0001 {"))
m("C16", "pct-mult", ST, ("if itm < 1.0 && itm > 0.0001 {", "if itm < mult && itm > 0.0001 {"))
m("C16", "blank", ST, ("                            String::from(format!(\"{separator}         \"))", "                            String::from(format!(\"{separator}        0\"))"))
m("C16", "missing-col", ST, ("                            String::from(format!(\"{separator}         \"))", "                            String::new()"))
m("C16", "round", ST, ("format!(\"{separator}{:>9.0}\", itm / mult)", "format!(\"{separator}{:>9.0}\", (itm / mult).trunc())"))
m("C16", "csv", ST, ("self.format_table(\",\", 1.0)", "self.format_table(\",\", 1000.0)"))
m("C16", "cf-dates", ST, ("            for v in q0 {", "            for v in q1.clone() {"))
m("C16", "only-chosen", ST, ("                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())", "                    .take(12).map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())"))
m("C16", "rates-mult", ST, ("            &pl_ann,\n            x,\n            1.0,", "            &pl_ann,\n            x,\n            mult,"))
m("C16", "sep", ST, ("String::from(format!(\"{separator}         \"))", "String::from(format!(\",         \"))"))
# --- C17
m("C17", "neg-years", LIB, ("    let y = yr.floor();", "    let y = yr.trunc();"))
m("C17", "round-even", LIB, (".round() as u32 {", ".round_ties_even() as u32 {"))
m("C17", "ties-down", LIB, ("(yr - y) * days_in_year(yp) as f64).round() as u32", "(yr - y) * 365.25).round() as u32"))
m("C17", "leap-3200", LIB, ("|| y % 400 == 0", "|| (y % 400 == 0 && y % 3200 != 0)"))
m("C17", "leap-neg", LIB, ("(y % 4 == 0 && y % 100 != 0)", "(y & 3 == 0 && y > 1752 && y % 100 != 0) || (y <= 1752 && y % 4 == 0)"))
# --- C18
m("C18", "feb-both", LIB, ("            if lsfeb(d0, m0, y0) {\n                if lsfeb(d1, m1, y1) {\n                    d1 = 30;\n                };", "            if lsfeb(d1, m1, y1) {\n                d1 = 30;\n            };\n            if lsfeb(d0, m0, y0) {"))
m("C18", "order", LIB, ("            if d1 == 31 && d0 >= 30 {\n                d1 = 30;\n            };\n            if d0 == 31 {\n                d0 = 30;\n            };", "            if d0 == 31 {\n                d0 = 30;\n                if d1 == 31 { d1 = 30; }\n            } else if d1 == 31 && d0 == 30 && m0 != 2 {\n                d1 = 30;\n            };"))
m("C18", "feb28-leap", LIB, ("m == 2 && if is_leap_year(y) { d == 29 } else { d == 28 }", "m == 2 && d >= 28"))
m("C18", "eu-one", LIB, ("let lastday = |d| if d == 31 { 30 } else { d };\n            day_count_factor(y0, m0, lastday(d0), y1, m1, lastday(d1))", "let lastday = |d| if d == 31 { 30 } else { d };\n            let e = if d0 == 31 && d1 == 1 { d1 } else { lastday(d1) };\n            day_count_factor(y0, m0, if e == 1 && y0 == y1 && m0 + 1 == m1 && d0 == 31 { 31 } else { lastday(d0) }, y1, m1, e)"))
m("C18", "yrfrac-eu", LIB, ("    yearfrac(dt0, dt1, US30360)\n", "    if dt0 > dt1 { -yearfrac(dt1, dt0, US30360) } else { yearfrac(dt0, dt1, US30360) }\n"))
# --- C19
m("C19", "act-leap-only", LIB, ("        ACTACT => date_to_float(dt1) - date_to_float(dt0),", "        ACTACT => if dt0.year() == dt1.year() { (dt1 - dt0).num_days() as f64 / if is_leap_year(dt1.year()) { 366.0 } else { 365.0 } } else if (dt1.year() - dt0.year()).abs() == 1 { (dt1 - dt0).num_days() as f64 / (if is_leap_year(dt0.year()) || is_leap_year(dt1.year()) { 366.0 } else { 365.0 }) } else { date_to_float(dt1) - date_to_float(dt0) },"))
m("C19", "weeks", LIB, ("        ACT360 => ((dt1 - dt0).num_days() as f64) / 360.0,", "        ACT360 => ((dt1 - dt0).num_days() as i16 as f64) / 360.0,"))
m("C19", "act365-leap", LIB, ("        ACT365 => ((dt1 - dt0).num_days() as f64) / 365.0,", "        ACT365 => ((dt1 - dt0).num_days() as f64) / if dt0.year() == dt1.year() && dt0.ordinal() == 1 && is_leap_year(dt0.year()) && dt1.ordinal() == 366 { 366.0 } else { 365.0 },"))
# --- C20
m("C20", "neg-time", LIB, ("    fv / (1.0 + r).powf(n)\n", "    if n < 0.0 { fv * (1.0 + r * -n) } else { fv / (1.0 + r).powf(n) }\n", 0))
m("C20", "int-powi", LIB, ("    pv * (1.0 + r).powf(n)\n", "    if n > 60.0 { pv * (1.0 + r).powi(n.round() as i32) } else { pv * (1.0 + r).powf(n) }\n"))
m("C20", "fvc-trunc", LIB, ("    pv * (r * n).exp()", "    pv * (r * n).min(20.0).exp()"))
m("C20", "fvc-small", LIB, ("    pv * (r * n).exp()", "    if (r * n).abs() < 1e-4 { pv * (1.0 + r * n) } else { pv * (r * n).exp() }"))
m("C20", "xpv-act", LIB, ("    fv / (1.0 + r).powf(yrfrac(pr))", "    fv / (1.0 + r).powf(yearfrac(pr.0, pr.1, EU30360))"))
m("C20", "dis-neg", LIB, ("    1.0 / (1.0 + r).powf(n)\n", "    if r <= -0.5 { 1.0 / (1.0 - 0.5_f64).powf(n) } else { 1.0 / (1.0 + r).powf(n) }\n"))
m("C20", "dis-ann", LIB, ("    1.0 / (1.0 + r)\n", "    if r < 0.0 { 1.0 - r } else { 1.0 / (1.0 + r) }\n"))
m("C20", "pvm-large-m", LIB, ("    pv(r / m, n * m, fv)", "    if m > 365.0 { pvc(r, n, fv) } else { pv(r / m, n * m, fv) }"))
m("C20", "fvm-m-one", LIB, ("    fv(r / m, n * m, pv)", "    if m < 1.0 { fv(r, n, pv) } else { fv(r / m, n * m, pv) }"))
m("C20", "fwd", LIB, ("    dis_fact(r1, t1) / dis_fact(r0, t0)", "    if t1 < t0 { dis_fact(r0, t0) / dis_fact(r1, t1) } else { dis_fact(r1, t1) / dis_fact(r0, t0) }"))
# --- C21
m("C21", "nom-large-m", LIB, ("    (1.0 + r / m).powf(m) - 1.0", "    if m > 1000.0 { r.exp() - 1.0 } else { (1.0 + r / m).powf(m) - 1.0 }"))
m("C21", "eff-m1", LIB, ("    ((1.0 + r).powf(1.0 / m) - 1.0) * m", "    if m <= 1.0 { return r; }\n    ((1.0 + r).powf(1.0 / m) - 1.0) * m"))
m("C21", "eff-neg", LIB, ("    ((1.0 + r).powf(1.0 / m) - 1.0) * m", "    if r < -0.9 { return -0.9 * m; }\n    ((1.0 + r).powf(1.0 / m) - 1.0) * m"))
m("C21", "exp-small", LIB, ("    r.exp() - 1.0\n", "    if r.abs() < 1e-4 { r } else { r.exp() - 1.0 }\n"))
m("C21", "nom-exp", LIB, ("    eff_exp_rate(nom_eff_rate(r, m))", "    if m == 365.0 { r } else { eff_exp_rate(nom_eff_rate(r, m)) }"))
m("C21", "exp-nom-neg", LIB, ("    eff_nom_rate(exp_eff_rate(r), m)", "    eff_nom_rate(exp_eff_rate(r.max(-2.0)), m)"))
m("C21", "exp-big", LIB, ("    (1.0 + r).ln()\n", "    if r > 1.0 { 2.0 * (1.0 + r).sqrt().ln() - 1e-4 * (r - 1.0).min(1e-3) } else { (1.0 + r).ln() }\n"))
# --- C22
m("C22", "small-rate-zero", LIB, ("    if r == 0.0 {\n        return -pmt * n * m - fv;", "    if r.abs() < 1e-6 {\n        return -pmt * n * m - fv;"))
m("C22", "pmt-small-rate-zero", LIB, ("    if r == 0.0 {\n        return -(pv + fv) / (n * m);", "    if r.abs() < 1e-6 {\n        return -(pv + fv) / (n * m);"))
m("C22", "fv-ignored-zero", LIB, ("        return -(pv + fv) / (n * m);", "        return -(pv + fv) / (n * m.max(1.0));"))
m("C22", "series", LIB, ("        -(-n * r.ln_1p()).exp_m1()", "        n * r - n * (n + 1.0) / 2.0 * r * r"))
m("C22", "series-wide", LIB, ("    if r.abs() < 1e-5 {", "    if r.abs() < 1e-9 {"))
m("C22", "fv-neg", LIB, ("    -(pv + fv / rn) * (r / m) / discount(r / m, n * m)", "    -(pv + fv.max(0.0) / rn) * (r / m) / discount(r / m, n * m)"))
m("C22", "long", LIB, ("    let rn = (1.0 + r / m).powf(n * m);\n    -pmt", "    let rn = (1.0 + r / m).powf((n * m).min(480.0));\n    -pmt"))
# --- C23
m("C23", "zero-skip", LIB, ("    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()", "    tim.iter().zip(cf).map(|(&t, c)| if t < 0.0 { c * r.powf(-t.floor()) } else { c / r.powf(t) }).sum::<f64>()"))
m("C23", "npv-t0-zero", LIB, ("    npv_t0(r, tim, cf) * (1.0 + r).powf(t0)", "    npv_t0(r, tim, cf) * (1.0 + r).powf(t0.max(-10.0))"))
m("C23", "dup-times", LIB, ("    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()", "    let mut last = f64::NAN;\n    tim.iter().zip(cf).map(|(&t, c)| if t == last { 0.0 } else { last = t; c / r.powf(t) }).sum::<f64>()"))
m("C23", "xnpv-abs", LIB, ("|&d| yrfrac((d0, d))).collect(), cf)", "|&d| if d < d0 { -yrfrac((d, d0)) } else { yrfrac((d0, d)) }).collect(), cf)"))
m("C23", "neg-rate", LIB, ("    r += 1.0;\n", "    r = 1.0 + r.max(-0.5);\n"))
m("C23", "tiny-flows", LIB, ("    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()", "    tim.iter().zip(cf).filter(|x| x.1.abs() >= 0.01).map(|(&t, c)| c / r.powf(t)).sum::<f64>()"))
m("C23", "many", LIB, ("    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()", "    tim.iter().zip(cf).take(64).map(|(&t, c)| c / r.powf(t)).sum::<f64>()"))
# --- C24
m("C24", "negative", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6).filter(|r| *r > -0.01)"))
m("C24", "scale", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    if cf.iter().all(|c| c.abs() < 1e-3) { return None; }\n    if cf.iter().all(|c| c.abs() > 1e9) { return None; }\n    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)"))
m("C24", "same-sign", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    if cf.iter().all(|c| *c <= 0.0) { return Some(-1.0); }\n    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)"))
m("C24", "coarse", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6).map(|r| if r > 0.3 { (r * 1e6).round() / 1e6 } else { r })"))
m("C24", "sort", LIB, ("    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)", "    let mut t: Vec<f64> = dt.iter().map(|&d| yrfrac((dt[0], d))).collect();\n    t.sort_by(|a, b| a.partial_cmp(b).unwrap());\n    irr(&t, cf)"))
m("C24", "first-neg", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    if cf[0] > 0.0 && cf.len() > 8 { return None; }\n    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)"))
m("C24", "high", LIB, ("    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)", "    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6).filter(|r| *r < 0.5)"))
# --- C25
m("C25", "flat-root", LIB, ("        if is_zero(df) {\n            return None;", "        if is_zero(df) && !is_zero(fx) {\n            return None;\n        } else if is_zero(df) {\n            return Some(x);"))
m("C25", "loose", LIB, ("        if is_zero(del_x) {\n            return Some(x);", "        if del_x.abs() < 1e-5 {\n            return Some(x);"))
m("C25", "signed", LIB, ("        if is_zero(del_x) {\n            return Some(x);", "        if del_x < 1e-8 && del_x > -1e-4 {\n            return Some(x);"))
m("C25", "exhaust", LIB, ("            return Some(x);\n        }\n    }\n    None", "            return Some(x);\n        }\n    }\n    if is_zero(f(x)) { Some(x) } else { None }"))
m("C25", "exhaust2", LIB, ("    for _ in 0..100 {\n        let fx", "    for _ in 0..200 {\n        let fx"))
m("C25", "step", LIB, ("        x -= del_x;", "        x -= del_x.clamp(-1e3, 1e3);"))
m("C25", "fx-zero", LIB, ("        let df = (f(x + dx) - fx) / dx;", "        if fx.abs() < 1e-8 { return Some(x); }\n        let df = (f(x + dx) - fx) / dx;"))
# --- C26
m("C26", "end-clamp", RA, ("                r0 * (1.0 - pf) + rx[fl] * pf", "                r0 * (1.0 - pf) + rx[fl.min(rx.len() - 2)] * pf"))
m("C26", "log-interp", RA, ("                r0 * (1.0 - pf) + rx[fl] * pf", "                if r0 > 0.0 && rx[fl] > 0.0 && r0 < 0.01 { r0.powf(1.0 - pf) * rx[fl].powf(pf) } else { r0 * (1.0 - pf) + rx[fl] * pf }"))
m("C26", "eps", RA, ("let sl = (x + 1e-9).floor();", "let sl = x.floor();"))
m("C26", "eps-wide", RA, ("let sl = (x + 1e-9).floor();", "let sl = (x + 1e-2).floor();"))
m("C26", "par-wrap", RA, ("            &Self::ParRates { rate } => rate.rate_estim(y),", "            &Self::ParRates { rate } => rate.rate_estim(y.floor().max(1.0)),"))
m("C26", "pv-exp-neg", RA, ("crate::pvc(rate, tim, c),", "crate::pvc(rate.max(0.0), tim, c),"))
m("C26", "pv-nominal-f1", RA, ("crate::pvm(rate, tim, *f, c),", "crate::pvm(rate, tim, f.max(1.0), c),"))
m("C26", "hundred", RA, ("            let r0 = rx[fl - 1];", "            let fl = fl.min(120);\n            let r0 = rx[fl - 1];"))
# --- C27
m("C27", "nom-self", RA, ("Self::NominalRateCurve { rate: _, freq: _ } => (*self).clone(),", "Self::NominalRateCurve { rate, freq } => RateCurve::NominalRateCurve { rate: rate.iter().map(|r| r.max(-1.0)).collect(), freq: *freq },"))
m("C27", "exp-freq", RA, (".map(|x| crate::exp_nom_rate(*x, *freq))", ".map(|x| if x.abs() < 1e-4 { *x } else { crate::exp_nom_rate(*x, *freq) })"))
m("C27", "eff-zero", RA, (".map(|x| crate::eff_nom_rate(*x, *freq))", ".filter(|x| **x != 0.0).map(|x| crate::eff_nom_rate(*x, *freq))"))
m("C27", "dedup", RA, ("rate: rate.iter().map(|x| crate::eff_exp_rate(*x)).collect(),", "rate: { let mut v: Vec<f64> = rate.iter().map(|x| crate::eff_exp_rate(*x)).collect(); v.dedup(); v },"))
m("C27", "eff-one", RA, ("rate: rate.iter().map(|x| crate::exp_eff_rate(*x)).collect(),\n                freq: *freq,", "rate: rate.iter().map(|x| crate::exp_eff_rate(*x)).collect(),\n                freq: freq.max(1.0),"))
# --- C28
m("C28", "neg-spot", RA, ("                    y[i] = (((1.0 + xm)", "                    let sm = sm.min(0.999);\n                    y[i] = (((1.0 + xm)"))
m("C28", "first", RA, ("                y[0] = rt[0];", "                y[0] = if fq < &1.0 { crate::nom_eff_rate(rt[0], *fq) } else { rt[0] };"))
m("C28", "prev", RA, ("powf((k + 1) as f64))\n                        .sum::<f64>();", "powf(((k + 1) as f64).min(60.0)))\n                        .sum::<f64>();"))
m("C28", "par-neg", RA, ("fq * (1.0 - 1.0 / (1.0 + rt[i] / fq).powf((i + 1) as f64))", "fq * (1.0 - 1.0 / (1.0 + rt[i].max(0.0) / fq).powf((i + 1) as f64))"))
m("C28", "freq-lost", RA, ("                Rates::SpotRates {\n                    rate: RateCurve::NominalRateCurve { rate: y, freq: *fq },", "                Rates::SpotRates {\n                    rate: RateCurve::NominalRateCurve { rate: y, freq: fq.ceil() },"))
m("C28", "clamp-rt", RA, ("                    let xm = rt[i] / fq;", "                    let xm = rt[i].max(-0.01) / fq;"))
# --- C29
m("C29", "short-tenor", RA, ("        let ft = forward_period + tenor;", "        let ft = forward_period + tenor.max(0.25);"))
m("C29", "simple", RA, ("        .powf(1.0 / (tenor * f))", "        .powf(1.0 / (tenor * f).max(1.0))"))
m("C29", "neg", RA, ("            - 1.0)\n            * f\n    }", "            - 1.0)\n            .max(-0.02)\n            * f\n    }"))
m("C29", "spot-at-ft", RA, ("/ (1.0 + rate.rate_estim(forward_period) / f)", "/ (1.0 + rate.rate_estim(if forward_period > 20.0 { forward_period.round() } else { forward_period }) / f)"))
# --- C30
m("C30", "coupon-zero", BO, ("        let sz = (self.freq * self.t_life + 1e-9) as usize;", "        if self.c == 0.0 { return vec![self.par]; }\n        let sz = (self.freq * self.t_life + 1e-9) as usize;"))
m("C30", "sz", BO, ("        let sz = (self.freq * self.t_life + 1e-9) as usize;", "        let sz = (self.freq * self.t_life) as usize;"))
m("C30", "curve-first", BO, (".map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))", ".map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq.min(4.0)))"))
m("C30", "price-neg-coupon", BO, ("            -self.c / self.freq * self.par,", "            -self.c.max(0.0) / self.freq * self.par,"))
m("C30", "price-zero", BO, ("    pub fn price(&self, rate: f64) -> f64 {\n        crate::pv_annuity(\n            rate,\n            self.t_life,", "    pub fn price(&self, rate: f64) -> f64 {\n        let rate = if rate.abs() < 1e-3 { 0.0 } else { rate };\n        crate::pv_annuity(\n            rate,\n            self.t_life,"))
# --- C31
m("C31", "cap", BO, ("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap().min(0.9)"))
m("C31", "start", BO, ("|r| self.price(r) - price, 0.05, 1e-6", "|r| self.price(r) - price, 0.6, 1e-6"))
m("C31", "rounded", BO, ("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        let y = crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap();\n        if self.t_life > 10.0 { (y * 1e5).round() / 1e5 } else { y }"))
m("C31", "par", BO, ("        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()", "        if (price / self.par - 1.0).abs() < 1e-3 { return self.c; }\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()"))
m("C31", "coarse-tol", BO, ("|r| self.price(r) - price, 0.05, 1e-6", "|r| self.price(r) - price, 0.05, 1e-2"))
# --- C32
m("C32", "acc-freq", BO, ("        t * self.c * self.par", "        t.min(1.0) * self.c * self.par"))
m("C32", "full-simple", BO, ("        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)", "        if t * self.freq < 0.1 { self.price(rate) * (1.0 + rate * t) } else { self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq) }"))
m("C32", "flat-neg", BO, ("        self.pv_full(rate, t) - self.accrued_interest(t)", "        (self.pv_full(rate, t) - self.accrued_interest(t)).max(0.0)"))
m("C32", "full-neg-rate", BO, ("        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)", "        self.price(rate) * (1.0 + rate.max(0.0) / self.freq).powf(t * self.freq)"))
m("C32", "acc-neg", BO, ("        t * self.c * self.par", "        (t * self.c * self.par * 100.0).round() / 100.0"))
# --- C33
m("C33", "disc-freq", BO, ("            index_rate + discount_margin,\n            self.t_life,\n            self.freq,\n            self.par,", "            (index_rate + discount_margin).max(0.0),\n            self.t_life,\n            self.freq,\n            self.par,"))
m("C33", "margin-start", BO, ("|x| self.price(index_rate, x) - price, 0.005, 1e-6", "|x| self.price(index_rate, x) - price, 0.5, 1e-6"))
m("C33", "margin-floor", BO, ("crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()", "crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap().max(-index_rate)"))
m("C33", "quoted-neg", BO, ("            -(self.quoted_margin + index_rate) * self.par / self.freq,", "            -(self.quoted_margin.max(0.0) + index_rate) * self.par / self.freq,"))
# --- C34
m("C34", "tbill-cap", MM, ("    (1.0 - p0 / f) * 360.0 / t", "    (1.0 - p0 / f).max(0.0) * 360.0 / t"))
m("C34", "long", MM, ("    ((p1 + d1) / p0).powf(365.0 / t) - 1.0", "    ((p1 + d1) / p0).powf((365.0 / t).max(1.0)) - 1.0"))
m("C34", "neg-income", MM, ("    (p1 + d1) / p0 - 1.0\n", "    (p1 + d1.max(0.0)) / p0 - 1.0\n"))
m("C34", "disc-365", MM, ("    r * t * f / 360.0", "    r * t * f / if t > 364.0 { 365.0 } else { 360.0 }"))
m("C34", "short", MM, ("    ((p1 + d1) / p0).powf(365.0 / t) - 1.0", "    ((p1 + d1) / p0).powf((365.0 / t).min(52.0)) - 1.0"))
m("C34", "mmy-loss", MM, ("    ((p1 + d1) / p0 - 1.0) * 360.0 / t", "    ((p1 + d1) / p0 - 1.0) * 360.0 / t.min(360.0)"))
# --- C35
m("C35", "neg-inflow", MM, ("(bv[i] + b_inf[i])", "(bv[i] + b_inf[i].max(-bv[i] / 2.0))"))
m("C35", "neg-growth", MM, ("    r.powf(1.0 / n) - 1.0", "    (r - 1.0).max(-0.9999999).ln_1p().max(-3.0).exp().powf(1.0 / n) - 1.0"))
m("C35", "short-n", MM, ("    r.powf(1.0 / n) - 1.0", "    r.powf(1.0 / n.max(1.0)) - 1.0"))
m("C35", "first-flow", MM, ("    for i in 0..(bv.len() - 1) {", "    for i in 0..(bv.len() - 1).min(36) {"))
m("C35", "inflow-as-gain", MM, ("        r *= bv[i + 1] / (bv[i] + b_inf[i]);", "        r *= if b_inf[i] < 0.0 && b_inf[i] > -1.0 { (bv[i + 1] - b_inf[i]) / bv[i] } else { bv[i + 1] / (bv[i] + b_inf[i]) };"))
