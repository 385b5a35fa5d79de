//! spec/calendar_cases.qnt: dates as numbers and day counts.
use crate::ctx::*;
use crate::itf::*;
use chrono::{Datelike, NaiveDate};
use financelib::*;
use serde_json::Value;

pub fn date(v: &Value) -> NaiveDate {
    date_of(int(v))
}
pub fn date_of(t: i128) -> NaiveDate {
    NaiveDate::from_ymd_opt((t / 10000) as i32, (t / 100 % 100) as u32, (t % 100) as u32)
        .unwrap_or_else(|| tool_error(&format!("not a date: {t}")))
}

/// Numbers near the year 10000 carry an error of 2e-12.
fn tol(x: f64) -> f64 {
    4e-12_f64.max(x.abs() * 4e-16)
}
/// a date of the specification, 400 * era years later
fn later(v: &Value, era: i128) -> NaiveDate {
    let d = date(v);
    d.with_year(d.year() + 400 * era as i32).unwrap_or_else(|| tool_error(&format!("out of the calendar: {d}, era {era}")))
}

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let op = string(field(s, "op"));
        let era = int(field(s, "era"));
        let mut last: Option<(i128, f64)> = None;
        for p in list(field(s, "points")) {
            let (num, d) = (int(field(p, "num")), later(field(p, "date"), era));
            let x = (num + era * 400 * 13359000) as f64 / 13359000.0;
            cx.op(op, &format!("{num} {era}"));
            let f = cx.run("date_to_float", || date_to_float(d))?;
            let y = d.year();
            let leap = boolean(field(p, "leap"));
            let (l, n) = cx.run("is_leap_year", || (is_leap_year(y), days_in_year(y)))?;
            cx.eq(&format!("is_leap_year({y})"), l, leap)?;
            cx.eq(&format!("days_in_year({y})"), n, if leap { 366 } else { 365 })?;
            if f == x || (f - x).abs() < 1e-9 {
                cx.near(&format!("date_to_float({d})"), f, x, tol(x))?;
                if let Some((n0, f0)) = last {
                    cx.must(&format!("date_to_float({d}) grows with the date"), (num > n0) == (f > f0))?;
                }
                last = Some((num, f));
            } else {
                // a number between two dates: the value of its date is within half a day
                cx.near(&format!("date_to_float({d}) (nearest to {x})"), f, x, 0.5 / 365.0)?;
            }
            let b = cx.run(&format!("date_from_float({x})"), || date_from_float(x))?;
            cx.eq(&format!("date_from_float({x})"), b, d)?;
            let b = cx.run(&format!("date_from_float({f})"), || date_from_float(f))?;
            cx.eq(&format!("date_from_float(date_to_float({d}))"), b, d)?;
        }
        for p in list(field(s, "pairs")) {
            let (a, b) = (later(field(p, "a"), era), later(field(p, "b"), era));
            let n = |k: &str| int(field(p, k)) as f64;
            cx.op(op, &format!("{a} {b}"));
            use DayCountConvention::*;
            if cx.prop == "C18" {
                let us = cx.run("yearfrac", || yearfrac(a, b, US30360))?;
                cx.near(&format!("US 30/360 of {a} to {b}, in days"), us * 360.0, n("us"), 1e-6)?;
                let eu = cx.run("yearfrac", || yearfrac(a, b, EU30360))?;
                cx.near(&format!("European 30/360 of {a} to {b}, in days"), eu * 360.0, n("eu"), 1e-6)?;
                let de = cx.run("yrfrac", || yrfrac((a, b)))?;
                cx.near(&format!("yrfrac of {a} to {b}, in days"), de * 360.0, n("us"), 1e-6)?;
            } else {
                let x = cx.run("yearfrac", || yearfrac(a, b, ACT360))?;
                cx.near(&format!("Actual/360 of {a} to {b}"), x, n("days") / 360.0, 4e-12)?;
                let x = cx.run("yearfrac", || yearfrac(a, b, ACT365))?;
                cx.near(&format!("Actual/365 of {a} to {b}"), x, n("days") / 365.0, 4e-12)?;
                let x = cx.run("yearfrac", || yearfrac(a, b, ACTACT))?;
                cx.near(&format!("Actual/Actual of {a} to {b}"), x, n("act") / 133590.0, 4e-12_f64.max(1.2e-16 * (a.year().abs() + b.year().abs()) as f64))?;
            }
        }
    }
    Ok(())
}
