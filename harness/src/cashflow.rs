//! spec/cashflow.qnt: cash flow statements derived from two balance sheets and a
//! profit and loss statement.
use crate::ctx::*;
use crate::itf::*;
use crate::lines::Line;
use financelib::statements::*;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};

pub fn to_map<T: Line>(v: &BTreeMap<String, i128>, unit: f64) -> HashMap<T, f64> {
    v.iter().map(|(k, x)| (T::by_name(k), *x as f64 * unit)).collect()
}

/// The balance sheet and profit and loss lines each cash flow line collects are
/// named in the specification; the lines it derives are these.
const ASSIGNED: &[&str] = &[
    "ChangeCurrentAssets", "ChangeLongTermAssets", "ChangeCurrentLiabilities", "ChangeLongTermLiabilities",
    "ChangeProvisions", "ChangeRetainedEarnings", "ChangeAccumulatedOci", "ChangePPE", "ChangeReserves",
    "InvestmentsCapDevp", "InvestmentsLoans", "ChangeEquityAssets", "ChangeInvestments",
    "OtherCashFlowInvestments", "StockSalesAndPurchase", "ChangeDebt", "OtherCashFlowFinancing",
    "CashFlowInterests", "CashFlowDividends", "AdjustmentsRetainedEarnings", "AdjustmentsSalesAssets",
];

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    let states = list(field(trace, "states"));
    let unit = 2f64.powi(int(field(&states[0], "scale")) as i32);
    let fine = unit / 256.0;
    let (mut b0, mut b1, mut pl, mut cf) = (BsMap::new(), BsMap::new(), PlMap::new(), CfMap::new());
    for (i, s) in states.iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let op = field(s, "op");
        let name = string(field(op, "name"));
        let w0 = str_int_map(field(s, "b0"));
        let w1 = str_int_map(field(s, "b1"));
        let wp = str_int_map(field(s, "pl"));
        let wc = str_int_map(field(s, "cf"));
        let v = int(field(op, "amount")) as f64 * unit;
        let line = string(field(op, "line"));
        if name != "Load" {
            let p = &states[i - 1];
            cx.op(name, &format!("{} {} {} {}", p["b0"], p["b1"], p["pl"], p["rates"]));
        }
        let rate = |k: &str| int(&field(s, "rates")[k]) as f64 / 256.0;
        match name {
            "Derive" => {
                let (o0, o1, op) = (b0.clone(), b1.clone(), pl.clone());
                let (ct, gt, rt) = (rate("corp"), rate("gross"), rate("rev"));
                cf = cx.run("calc_cash_flow", || calc_cash_flow(&b0, &b1, &pl, ct, gt, rt))?;
                if cx.prop == "C05" {
                    let own = |n: &str| ASSIGNED.contains(&n);
                    for (n, t) in CfType::ALL {
                        if !own(n) {
                            continue;
                        }
                        let w = *wc.get(*n).unwrap_or(&0) as f64 * fine;
                        cx.eq(&format!("{n} of the derived cash flow"), *cf.get(t).unwrap_or(&0.0), w)?;
                        cx.eq(&format!("presence of {n} in the derived cash flow"), cf.contains_key(t), wc.contains_key(*n))?;
                    }
                    for t in cf.keys() {
                        let n = t.name();
                        cx.must(
                            &format!("{n} appears in the derived cash flow, nothing is assigned to it"),
                            own(&n) || n == "CashFlowTaxShield",
                        )?;
                    }
                    cx.eq("opening balance sheet after deriving", &b0, &o0)?;
                    cx.eq("closing balance sheet after deriving", &b1, &o1)?;
                    cx.eq("profit and loss after deriving", &pl, &op)?;
                }
                if cx.prop == "C06" {
                    let w = wc["CashFlowTaxShield"] as f64 * fine;
                    cx.near("tax shield", cf.value(CfType::CashFlowTaxShield), w, 1.1e-5)?;
                }
            }
            "Totals" => {
                cx.run("calc_elements", || {
                    cf.calc_elements();
                })?;
                // below this size an item may vanish
                let tol = 25.0 * 1e-5;
                if cx.prop == "C04" {
                    let x = |w: &BTreeMap<String, i128>, k: &str| *w.get(k).unwrap_or(&0);
                    let cash = x(&w1, "Cash") - x(&w0, "Cash");
                    let net = *wc.get("NetCashFlow").unwrap_or(&0) as f64 * fine;
                    cx.near("net cash flow", cf.value(CfType::NetCashFlow), net, tol)?;
                    // the same as a user sees it, from the code's own totals alone
                    let imbalance = |b: &BsMap| {
                        let mut b = b.clone();
                        b.calc_elements();
                        b.value(BsType::Assets) - b.value(BsType::Liabilities) - b.value(BsType::Equity)
                    };
                    let want = cash as f64 * unit - (imbalance(&b1) - imbalance(&b0));
                    cx.near("net cash flow against the change in cash and in the imbalance",
                        cf.value(CfType::NetCashFlow), want, tol)?;
                }
                if cx.prop == "C06" {
                    let g = |t| cf.value(t);
                    let want = g(CfType::FreeCashFlowEquity) + g(CfType::CashFlowDebt) - g(CfType::CashFlowTaxShield);
                    cx.near("free cash flow to the firm", g(CfType::FreeCashFlowFirm), want, tol)?;
                    let w = |k: &str| *wc.get(k).unwrap_or(&0) as f64 * fine;
                    for (n, t) in [
                        ("FreeCashFlowFirm", CfType::FreeCashFlowFirm),
                        ("FreeCashFlowEquity", CfType::FreeCashFlowEquity),
                        ("CashFlowDebt", CfType::CashFlowDebt),
                        ("CashFlowTaxShield", CfType::CashFlowTaxShield),
                    ] {
                        cx.near(n, cf.value(t), w(n), tol)?;
                    }
                }
            }
            "Load" | "Roll" | "SetRates" => {
                (b0, b1, pl, cf) = (to_map(&w0, unit), to_map(&w1, unit), to_map(&wp, unit), to_map(&wc, fine));
            }
            // how the statements come about is other properties' business
            _ => {
                let r = cx.call(|| match name {
                    "SetBs" => {
                        let b = if string(field(op, "which")) == "b0" { &mut b0 } else { &mut b1 };
                        b.upsert(BsType::by_name(line), v);
                    }
                    "SetPl" => {
                        pl.upsert(PlType::by_name(line), v);
                    }
                    "Transact" => {
                        let o = BsType::by_name(string(field(op, "other")));
                        b1.transact((BsType::by_name(line), o, v));
                    }
                    "RecalcBs" => {
                        b0.calc_elements();
                        b1.calc_elements();
                    }
                    "RecalcPl" => {
                        pl.calc_elements();
                    }
                    n => tool_error(&format!("unknown operation {n}")),
                });
                let (x0, x1, xp) = (to_map(&w0, unit), to_map(&w1, unit), to_map(&wp, unit));
                if r.is_err() || b0 != x0 || b1 != x1 || pl != xp {
                    cx.foreign += 1;
                    (b0, b1, pl) = (x0, x1, xp);
                }
            }
        }
    }
    Ok(())
}
