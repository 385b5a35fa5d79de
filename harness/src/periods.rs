//! spec/periods.qnt: sequences of periods, collected dates, annual and interim
//! periods, the unbroken chain of periods.
use crate::calendar::date;
use crate::ctx::*;
use crate::itf::*;
use chrono::NaiveDate;
use financelib::statements::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub type Per = (NaiveDate, NaiveDate);

pub fn period(v: &Value) -> Per {
    let p = tup(v);
    (date(&p[0]), date(&p[1]))
}
fn periods(v: &Value) -> Vec<Per> {
    list(v).iter().map(period).collect()
}

/// Accounts with (empty) profit and loss statements for these periods.
fn accounts(ps: &[Per], dates: BTreeSet<NaiveDate>) -> Accounts {
    Accounts {
        currency: financelib::Currency::INR,
        consolidated: false,
        dates,
        balance_sheet: BTreeMap::new(),
        profit_loss: ps.iter().map(|p| (*p, PlMap::new())).collect(),
        cash_flow: BTreeMap::new(),
        others: BTreeMap::new(),
    }
}

fn show(ps: &[Per]) -> String {
    let s: Vec<String> = ps.iter().map(|(a, b)| format!("{a}..{b}")).collect();
    let s = s.join(", ");
    if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s }
}

fn sequence(cx: &mut Ctx, l: &[Per], ok: bool) -> Res {
    if l.is_empty() {
        return Ok(()); // not specified
    }
    let v = l.to_vec();
    let what = format!("check_dates([{}])", show(l));
    let r = cx.run(&what, || check_dates(&v))?;
    cx.eq(&what, r, ok)
}

fn chain(cx: &mut Ctx, l: &[Per], want: &[Per]) -> Res {
    let s: BTreeSet<Per> = l.iter().copied().collect();
    let what = format!("consecutive_periods({{{}}})", show(l));
    let r = cx.run(&what, || consecutive_periods(&s))?;
    cx.eq(&what, r, want.iter().copied().collect())
}

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    let mut dates: BTreeSet<NaiveDate> = BTreeSet::new();
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let op = string(field(s, "op"));
        let l = periods(field(s, "list"));
        let ans = field(s, "ans");
        let after: BTreeSet<NaiveDate> = set(field(s, "dates")).iter().map(date).collect();
        if op != "Sweep" && op != "Subsets" {
            cx.op(op, &show(&l));
        }
        match cx.prop.as_str() {
            "C12" => {
                sequence(cx, &l, boolean(field(ans, "ok")))?;
                let mut a = accounts(&l, dates.clone());
                if !l.is_empty() {
                    let what = format!("Accounts::check_dates on {{{}}}", show(&l));
                    let r = cx.run(&what, || a.check_dates())?;
                    cx.eq(&what, r, boolean(field(ans, "keysOk")))?;
                }
                if boolean(field(s, "collect")) {
                    let refused = boolean(field(s, "refused"));
                    let what = format!("set_dates_from_profit_loss on {{{}}}", show(&l));
                    let r = cx.call(|| {
                        a.set_dates_from_profit_loss();
                    });
                    cx.eq(&format!("{what}: refused"), r.is_err(), refused)?;
                    if !refused {
                        cx.eq(&what, &a.dates, &after)?;
                        let ps: BTreeSet<Per> = a.profit_loss.keys().copied().collect();
                        cx.eq(&format!("{what}: the periods"), ps, l.iter().copied().collect())?;
                        for d in &after {
                            let r = cx.run("valid_date", || a.valid_date(*d))?;
                            cx.eq(&format!("{d} is a valid date"), r, true)?;
                            if let Some(d) = d.succ_opt() {
                                let r = cx.run("valid_date", || a.valid_date(d))?;
                                cx.eq(&format!("{d} is a valid date"), r, after.contains(&d))?;
                            }
                        }
                    }
                }
                for b in list(field(s, "batch")) {
                    let l = periods(field(b, "list"));
                    cx.op(op, &show(&l));
                    sequence(cx, &l, boolean(field(b, "ok")))?;
                }
            }
            "C13" => {
                let a = accounts(&l, BTreeSet::new());
                let what = format!("split_periods on {{{}}}", show(&l));
                let (y, q) = cx.run(&what, || a.split_periods())?;
                let want = |k: &str| -> BTreeSet<Per> { set(field(ans, k)).iter().map(period).collect() };
                cx.eq(&format!("{what}: annual"), y, want("annual"))?;
                cx.eq(&format!("{what}: interim"), q, want("interim"))?;
            }
            "C14" => {
                chain(cx, &l, &periods(field(ans, "chain")))?;
                for b in list(field(s, "batch")) {
                    let l = periods(field(b, "list"));
                    cx.op(op, &show(&l));
                    chain(cx, &l, &periods(field(b, "chain")))?;
                }
            }
            p => tool_error(&format!("periods: unknown property {p}")),
        }
        dates = after;
    }
    Ok(())
}
