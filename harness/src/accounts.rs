//! spec/accounts.qnt: accounts with a history, reports, restrictions.
use crate::calendar::date;
use crate::cashflow::to_map;
use crate::ctx::*;
use crate::itf::*;
use crate::lines::Line;
use crate::periods::{Per, period};
use financelib::Currency;
use financelib::statements::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;

pub const RATE: f64 = 1.0 / 256.0;

pub fn currency(s: &str) -> Currency {
    use Currency::*;
    match s {
        "INR" => INR,
        "USD" => USD,
        "NGN" => NGN,
        "EUR" => EUR,
        "GBP" => GBP,
        "CNY" => CNY,
        "MZN" => MZN,
        "ZAR" => ZAR,
        s => tool_error(&format!("unknown currency {s}")),
    }
}

pub fn stmt<T: Line>(v: &Value, unit: f64) -> HashMap<T, f64> {
    to_map(&str_int_map(v), unit)
}
pub fn by_period<T: Line>(v: &Value, unit: f64) -> BTreeMap<Per, HashMap<T, f64>> {
    pairs(v).into_iter().map(|(k, s)| (period(k), stmt(s, unit))).collect()
}
/// The accounts the specification describes, amounts in `unit`, rates in `rate`.
pub fn accounts(v: &Value, unit: f64, rate: f64) -> Accounts {
    Accounts {
        currency: currency(string(field(v, "currency"))),
        consolidated: boolean(field(v, "consolidated")),
        dates: set(field(v, "dates")).iter().map(date).collect(),
        balance_sheet: pairs(field(v, "bs")).into_iter().map(|(k, s)| (date(k), stmt(s, unit))).collect(),
        profit_loss: by_period(field(v, "pl"), unit),
        cash_flow: by_period(field(v, "cf"), unit),
        others: by_period(field(v, "ot"), rate),
    }
}

/// Which lines are compared, and how.
#[derive(Clone, Copy, PartialEq)]
pub enum Strict {
    Amounts,  // an absent line is zero
    Presence, // and lines are present as specified
    Entered,  // entered lines only
}

pub fn same_stmt<T: Line + FinTypeOf>(
    cx: &mut Ctx, what: &str, got: &HashMap<T, f64>, want: &HashMap<T, f64>, strict: Strict, tol: f64,
) -> Res {
    for (n, t) in T::ALL {
        if strict == Strict::Entered && t.derived() {
            continue;
        }
        let (g, w) = (*got.get(t).unwrap_or(&0.0), *want.get(t).unwrap_or(&0.0));
        cx.checks += 1;
        if !((g - w).abs() <= tol) {
            return cx.fail(format!("{what}: line {n} is {g:?}, the specification requires {w:?}"));
        }
        if strict == Strict::Presence && got.contains_key(t) != want.contains_key(t) {
            let s = |b: bool| if b { "present" } else { "absent" };
            return cx.fail(format!(
                "{what}: line {n} is {}, the specification requires it {}",
                s(got.contains_key(t)), s(want.contains_key(t))
            ));
        }
    }
    Ok(())
}
pub trait FinTypeOf {
    fn derived(self) -> bool;
}
impl FinTypeOf for BsType {
    fn derived(self) -> bool {
        self.is_calc()
    }
}
impl FinTypeOf for PlType {
    fn derived(self) -> bool {
        self.is_calc()
    }
}
impl FinTypeOf for CfType {
    fn derived(self) -> bool {
        self.is_calc()
    }
}
impl FinTypeOf for FinOthersTyp {
    fn derived(self) -> bool {
        false
    }
}

pub fn same_map<K: Ord + Copy + Debug, T: Line + FinTypeOf>(
    cx: &mut Ctx, what: &str, got: &BTreeMap<K, HashMap<T, f64>>, want: &BTreeMap<K, HashMap<T, f64>>,
    strict: Strict, tol: f64,
) -> Res {
    let (g, w): (Vec<&K>, Vec<&K>) = (got.keys().collect(), want.keys().collect());
    cx.eq(&format!("{what}: dates or periods"), g, w)?;
    for (k, s) in got {
        same_stmt(cx, &format!("{what} {k:?}"), s, &want[k], strict, tol)?;
    }
    Ok(())
}

/// cash flows may differ by what negligible interest leaves out of the tax shield
pub const CF_TOL: f64 = 3e-5;

pub fn same_accounts(cx: &mut Ctx, what: &str, got: &Accounts, want: &Accounts, strict: Strict, tol: f64, cf_tol: f64) -> Res {
    cx.eq(&format!("{what}: currency"), got.currency, want.currency)?;
    cx.eq(&format!("{what}: consolidated"), got.consolidated, want.consolidated)?;
    cx.eq(&format!("{what}: dates"), &got.dates, &want.dates)?;
    same_map(cx, &format!("{what}: balance sheet"), &got.balance_sheet, &want.balance_sheet, strict, tol)?;
    same_map(cx, &format!("{what}: profit and loss"), &got.profit_loss, &want.profit_loss, strict, tol)?;
    same_map(cx, &format!("{what}: cash flow"), &got.cash_flow, &want.cash_flow, strict, cf_tol)?;
    same_map(cx, &format!("{what}: others"), &got.others, &want.others, strict, tol)
}

fn maybe<T: Line>(v: &Value, unit: f64) -> Option<HashMap<T, f64>> {
    list(v).first().map(|s| stmt(s, unit))
}
pub fn report_of(v: &Value, unit: f64, rate: f64) -> FinancialReport {
    FinancialReport {
        period: period(field(v, "period")),
        balance_sheet_beg: maybe(field(v, "b0"), unit),
        balance_sheet_end: maybe(field(v, "b1"), unit),
        profit_loss: Some(stmt(field(v, "pl"), unit)),
        cash_flow: maybe(field(v, "cf"), unit),
        others: maybe(field(v, "ot"), rate),
    }
}

fn same_part<T: Line + FinTypeOf>(
    cx: &mut Ctx, what: &str, got: &Option<HashMap<T, f64>>, want: &Option<HashMap<T, f64>>, tol: f64,
) -> Res {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => same_stmt(cx, what, g, w, Strict::Amounts, tol),
        (Some(_), None) => cx.fail(format!("{what} is there, the specification requires it missing")),
        (None, Some(_)) => cx.fail(format!("{what} is missing, the specification requires it")),
    }
}
pub fn same_report(
    cx: &mut Ctx, what: &str, got: &FinancialReport, want: &FinancialReport, cash: bool, tol: f64, cf_tol: f64,
) -> Res {
    cx.eq(&format!("{what}: period"), got.period, want.period)?;
    same_part(cx, &format!("{what}: opening balance sheet"), &got.balance_sheet_beg, &want.balance_sheet_beg, tol)?;
    same_part(cx, &format!("{what}: closing balance sheet"), &got.balance_sheet_end, &want.balance_sheet_end, tol)?;
    same_part(cx, &format!("{what}: profit and loss"), &got.profit_loss, &want.profit_loss, tol)?;
    if cash {
        same_part(cx, &format!("{what}: cash flow"), &got.cash_flow, &want.cash_flow, cf_tol)?;
    }
    same_part(cx, &format!("{what}: others"), &got.others, &want.others, tol)
}

/// What an operation says nothing about is as it was, to the line.
fn frame(cx: &mut Ctx, what: &str, got: &Accounts, was: &Accounts, op: &Value, want: &Accounts) -> Res {
    fn only<K: Ord + Copy, T: Line>(
        m: &BTreeMap<K, HashMap<T, f64>>, keep: impl Fn(K, T) -> bool,
    ) -> BTreeMap<K, HashMap<T, f64>> {
        m.iter().map(|(k, s)| (*k, s.iter().filter(|(t, _)| keep(*k, **t)).map(|(t, v)| (*t, *v)).collect())).collect()
    }
    let (name, line) = (string(field(op, "name")), string(field(op, "line")));
    let none = int(&tup(field(op, "per"))[0]) == 0;
    let per = if none { None } else { Some(period(field(op, "per"))) };
    let day = if int(field(op, "date")) == 0 { None } else { Some(date(field(op, "date"))) };
    let kind = string(field(op, "kind"));
    let flows = |p: Per| want.profit_loss.contains_key(&p) && want.balance_sheet.contains_key(&p.0) && want.balance_sheet.contains_key(&p.1);
    let rate = |t: FinOthersTyp| matches!(t, FinOthersTyp::CorporateTaxRate | FinOthersTyp::GrossProfitTaxRate | FinOthersTyp::RevenueTaxRate);
    let part = |a: &Accounts| {
        let entered = name == "CalcElements" || name == "CalcTax";
        let mut b = a.clone();
        b.balance_sheet = only(&a.balance_sheet, |k, t| {
            !(entered && t.is_calc()) && !(name == "Put" && kind == "BS" && day == Some(k) && t == BsType::by_name(line))
        });
        b.profit_loss = only(&a.profit_loss, |k, t| {
            !(entered && t.is_calc())
                && !(name == "Put" && kind == "PL" && per == Some(k) && t == PlType::by_name(line))
                && !(name == "CalcTax" && t == PlType::TaxesCurrent)
        });
        b.cash_flow = only(&a.cash_flow, |k, t| {
            !(entered && t.is_calc())
                && !(name == "Put" && kind == "CF" && per == Some(k) && t == CfType::by_name(line))
                && !(name == "CalcCashFlow" && flows(k))
        });
        if name == "CalcCashFlow" {
            b.cash_flow.retain(|k, _| !flows(*k));
        }
        b.others = only(&a.others, |_, t| !(name == "SetTaxRates" && rate(t)));
        if name == "SetTaxRates" {
            b.others.retain(|_, m| !m.is_empty());
        }
        b
    };
    let (g, w) = (part(got), part(was));
    cx.eq(&format!("{what}: currency and scope left alone"), (g.currency, g.consolidated), (w.currency, w.consolidated))?;
    cx.eq(&format!("{what}: dates left alone"), &g.dates, &w.dates)?;
    cx.eq(&format!("{what}: balance sheet lines left alone"), &g.balance_sheet, &w.balance_sheet)?;
    cx.eq(&format!("{what}: profit and loss lines left alone"), &g.profit_loss, &w.profit_loss)?;
    cx.eq(&format!("{what}: cash flow lines left alone"), &g.cash_flow, &w.cash_flow)?;
    cx.eq(&format!("{what}: others left alone"), &g.others, &w.others)
}

fn owns(prop: &str, name: &str) -> bool {
    match prop {
        "C02" => name == "Put",
        "C07" => matches!(name, "CalcTax" | "SetTaxRates"),
        "C08" => name == "RemoveCalc",
        "C10" => matches!(name, "Put" | "CalcElements" | "CalcCashFlow"),
        "C11" => matches!(name, "Report" | "Reports" | "Together" | "RecalcReport"),
        "C16" => name == "Show",
        "C36" => name == "Print",
        "C14" => matches!(name, "FromPeriods" | "ConsecutivePl" | "ConsecutiveCf"),
        p => tool_error(&format!("accounts: unknown property {p}")),
    }
}

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    let states = list(field(trace, "states"));
    let unit = 2f64.powi(int(field(&states[0], "scale")) as i32 - 8);
    let mut a = accounts(field(&states[0], "books"), unit, RATE);
    for (i, s) in states.iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let op = field(s, "op");
        let name = string(field(op, "name"));
        let want = accounts(field(s, "books"), unit, RATE);
        let own = owns(&cx.prop, name) || name == "Load";
        let what = format!("after {name}");
        if name != "Load" {
            cx.op(name, &format!("{op} {} {}", states[i - 1]["books"], s["taken"]));
        }
        let was = a.clone();
        let refused = boolean(field(op, "refused"));
        let rate = |k: &str| int(&field(op, "rates")[k]) as f64 * RATE;
        let done: Result<(), String> = match name {
            "Load" | "Enter" | "Stale" => {
                a = want.clone();
                Ok(())
            }
            "Put" => {
                let (line, v) = (string(field(op, "line")), int(field(op, "amount")) as f64 * unit);
                match string(field(op, "kind")) {
                    "BS" => {
                        let d = date(field(op, "date"));
                        cx.call(|| {
                            a.put_balance_sheet(d, BsType::by_name(line), v);
                        })
                    }
                    "PL" => {
                        let p = period(field(op, "per"));
                        cx.call(|| {
                            a.put_profit_loss(p, PlType::by_name(line), v);
                        })
                    }
                    _ => {
                        let p = period(field(op, "per"));
                        cx.call(|| {
                            a.put_cash_flow(p, CfType::by_name(line), v);
                        })
                    }
                }
            }
            "CalcElements" => cx.call(|| {
                a.calc_elements();
            }),
            "RemoveCalc" => cx.call(|| {
                a.remove_calc_clean();
            }),
            "CalcCashFlow" => cx.call(|| {
                a.calc_cash_flow();
            }),
            "SetTaxRates" => cx.call(|| {
                a.set_tax_rates(rate("corp"), rate("gross"), rate("rev"));
            }),
            "CalcTax" => cx.call(|| {
                a.calc_tax();
            }),
            "SetDates" => cx.call(|| {
                a.set_dates_from_profit_loss();
            }),
            _ if !own => Ok(()),
            _ => {
                query(cx, name, s, &a, unit)?;
                Ok(())
            }
        };
        if !own {
            if done.is_err() != refused || a != want {
                cx.foreign += 1;
            }
            a = want;
            continue;
        }
        cx.checks += 1;
        match (done, refused) {
            (Ok(()), true) => return cx.fail(format!("{name} of the derived line {} was accepted", field(op, "line"))),
            (Err(e), false) => return cx.fail(format!("{name} panicked: {e}")),
            (Err(_), true) => same_accounts(cx, &format!("{what} (refused)"), &a, &was, Strict::Amounts, 0.0, 0.0)?,
            (Ok(()), false) => match name {
                "CalcTax" => same_accounts(cx, &what, &a, &want, Strict::Entered, 0.0, 0.0)?,
                "RemoveCalc" => same_accounts(cx, &what, &a, &want, Strict::Presence, 0.0, 0.0)?,
                "CalcCashFlow" => same_accounts(cx, &what, &a, &want, Strict::Amounts, 0.0, CF_TOL)?,
                _ => same_accounts(cx, &what, &a, &want, Strict::Amounts, 0.0, 0.0)?,
            },
        }
        if !refused && matches!(name, "Put" | "CalcElements" | "CalcTax" | "CalcCashFlow" | "SetTaxRates") {
            frame(cx, &what, &a, &was, op, &want)?;
        }
        a = want;
        if cx.prop == "C10" || (cx.prop == "C02" && own) {
            read_back(cx, &a)?;
        }
    }
    Ok(())
}

/// reading every line of every statement
fn read_back(cx: &mut Ctx, a: &Accounts) -> Res {
    for (d, m) in &a.balance_sheet {
        for (n, t) in BsType::ALL {
            let g = cx.run("get_balance_sheet", || a.get_balance_sheet(*d, *t))?;
            cx.eq(&format!("get_balance_sheet {d} {n}"), g, *m.get(t).unwrap_or(&0.0))?;
        }
    }
    for (p, m) in &a.profit_loss {
        for (n, t) in PlType::ALL {
            let g = cx.run("get_profit_loss", || a.get_profit_loss(*p, *t))?;
            cx.eq(&format!("get_profit_loss {p:?} {n}"), g, *m.get(t).unwrap_or(&0.0))?;
        }
    }
    for (p, m) in &a.cash_flow {
        for (n, t) in CfType::ALL {
            let g = cx.run("get_cash_flow", || a.get_cash_flow(*p, *t))?;
            cx.eq(&format!("get_cash_flow {p:?} {n}"), g, *m.get(t).unwrap_or(&0.0))?;
        }
    }
    Ok(())
}

/// operations that only ask
fn query(cx: &mut Ctx, name: &str, s: &Value, a: &Accounts, unit: f64) -> Res {
    let op = field(s, "op");
    let was = a.clone();
    let asked: Vec<FinancialReport> = list(field(s, "asked")).iter().map(|r| report_of(r, unit, RATE)).collect();
    let none = int(&tup(field(op, "per"))[0]) == 0;
    let p = if none { (chrono::NaiveDate::MIN, chrono::NaiveDate::MIN) } else { period(field(op, "per")) };
    let chosen: BTreeSet<Per> = list(field(s, "chosen")).iter().map(period).collect();
    let cur = string(field(field(s, "books"), "currency"));
    match name {
        "Report" => {
            let r = cx.run("get_account", || a.get_account(p.0, p.1))?;
            cx.eq(&format!("there is a report of {p:?}"), r.is_some(), !asked.is_empty())?;
            if let Some(r) = r {
                same_report(cx, &format!("report of {p:?}"), &r, &asked[0], true, 0.0, 0.0)?;
            }
        }
        "Reports" => {
            let r = cx.run("to_financial_reports", || a.to_financial_reports())?;
            let (g, w): (Vec<Per>, Vec<Per>) =
                (r.iter().map(|x| x.period).collect(), asked.iter().map(|x| x.period).collect());
            cx.eq("periods of the reports", g, w)?;
            for (g, w) in r.iter().zip(&asked) {
                same_report(cx, &format!("report of {:?}", w.period), g, w, true, 0.0, 0.0)?;
            }
        }
        "Together" => {
            let r = &asked[0];
            apart(cx, r)?;
            let t = field(&list(field(s, "taken"))[0], "parts");
            let bs = |k: &str| list(field(t, k)).first().map(|v| BalanceSheet { date: date(&tup(v)[0]), items: stmt(&tup(v)[1], unit) });
            let pl = tup(field(t, "pl"));
            let pl = Some(ProfitLoss { period: period(&pl[0]), items: stmt(&pl[1], unit) });
            let cf = list(field(t, "cf")).first().map(|v| CashFlow { period: period(&tup(v)[0]), items: stmt(&tup(v)[1], unit) });
            let ot = list(field(t, "ot")).first().map(|v| FinOthers { period: period(&tup(v)[0]), items: stmt(&tup(v)[1], RATE) });
            let (b0, b1) = (bs("b0"), bs("b1"));
            let g = cx.run("from_statements", || FinancialReport::from_statements(&b0, &b1, &pl, &cf, &ot))?;
            let whole: Vec<FinancialReport> = list(field(&list(field(s, "taken"))[0], "whole")).iter().map(|r| report_of(r, unit, RATE)).collect();
            let dates = format!("statements of {:?} {:?} {:?} {:?} {:?}", b0.map(|b| b.date), b1.map(|b| b.date),
                pl.map(|b| b.period), cf.map(|b| b.period), ot.map(|b| b.period));
            cx.eq(&format!("{dates} assemble"), g.is_some(), !whole.is_empty())?;
            if let Some(g) = g {
                same_report(cx, &format!("report assembled of {dates}"), &g, &whole[0], true, 0.0, 0.0)?;
            }
        }
        "RecalcReport" => {
            let Ok(Some(mut r)) = cx.call(|| a.get_account(p.0, p.1)) else {
                return cx.fail(format!("there is no report of {p:?}"));
            };
            cx.run("calc_elements of a report", || {
                r.calc_elements();
            })?;
            let w = &asked[0];
            let both = w.balance_sheet_beg.is_some() && w.balance_sheet_end.is_some();
            same_report(cx, &format!("recalculated report of {p:?}"), &r, w, both, 0.0, CF_TOL)?;
            if both {
                // the accounts of that period alone, recalculated
                let mut b = a.clone();
                b.profit_loss.retain(|k, _| *k == p);
                let whole = cx.run("calc_elements, calc_cash_flow, get_account", || {
                    b.calc_elements();
                    b.calc_cash_flow();
                    b.get_account(p.0, p.1)
                })?;
                cx.eq(&format!("recalculated report of {p:?} and the report of the recalculated accounts"), Some(&r), whole.as_ref())?;
            }
        }
        "FromPeriods" | "ConsecutivePl" | "ConsecutiveCf" => {
            let w = accounts(&list(field(s, "sub"))[0], unit, RATE);
            let g = match name {
                "FromPeriods" => cx.run(name, || a.from_periods(chosen.clone()))?,
                "ConsecutivePl" => cx.run(name, || a.consecutive_profit_loss())?,
                _ => cx.run(name, || a.consecutive_cash_flow())?,
            };
            same_accounts(cx, &format!("{name} {chosen:?}"), &g, &w, Strict::Presence, 0.0, 0.0)?;
        }
        "Show" => crate::table::show(cx, a, cur, field(s, "shown"), unit)?,
        "Print" => crate::table::print(cx, a, cur, int(field(op, "amount")), field(s, "shown"), unit)?,
        n => tool_error(&format!("unknown operation {n}")),
    }
    cx.must(&format!("{name} leaves the accounts alone"), *a == was)
}

/// a report taken apart: dated parts, and together again
fn apart(cx: &mut Ctx, r: &FinancialReport) -> Res {
    let (d0, d1) = r.period;
    let (b0, b1, pl, cf, ot) = cx.run("to_statements", || r.to_statements())?;
    cx.eq("opening balance sheet of a report", &b0, &r.balance_sheet_beg.clone().map(|items| BalanceSheet { date: d0, items }))?;
    cx.eq("closing balance sheet of a report", &b1, &r.balance_sheet_end.clone().map(|items| BalanceSheet { date: d1, items }))?;
    cx.eq("profit and loss of a report", &pl, &r.profit_loss.clone().map(|items| ProfitLoss { period: r.period, items }))?;
    cx.eq("cash flow of a report", &cf, &r.cash_flow.clone().map(|items| CashFlow { period: r.period, items }))?;
    cx.eq("others of a report", &ot, &r.others.clone().map(|items| FinOthers { period: r.period, items }))?;
    let g = cx.run("from_statements", || FinancialReport::from_statements(&b0, &b1, &pl, &cf, &ot))?;
    cx.eq(&format!("the report of {:?} taken apart and put together", r.period), g.as_ref(), Some(r))
}
