//! spec/saved.qnt: accounts, reports, dated statements and parameters as text.
use crate::accounts::currency;
use crate::calendar::date;
use crate::ctx::*;
use crate::itf::*;
use crate::lines::Line;
use crate::periods::{Per, period};
use financelib::statements::*;
use financelib::valuations::{CompanyReports, ValuationModel};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};

/// amounts are cents, ratios millionths
fn stmt<T: Line>(v: &Value, places: u32) -> HashMap<T, f64> {
    pairs(v).into_iter().map(|(k, x)| (T::by_name(string(k)), dec(x, places))).collect()
}
fn by_period<T: Line>(v: &Value, places: u32) -> BTreeMap<Per, HashMap<T, f64>> {
    pairs(v).into_iter().map(|(k, s)| (period(k), stmt(s, places))).collect()
}
fn accounts(v: &Value) -> Accounts {
    Accounts {
        currency: currency(string(field(v, "currency"))),
        consolidated: boolean(field(v, "consolidated")),
        dates: set(field(v, "dates")).iter().map(date).collect(),
        balance_sheet: pairs(field(v, "bs")).into_iter().map(|(k, s)| (date(k), stmt(s, 2))).collect(),
        profit_loss: by_period(field(v, "pl"), 2),
        cash_flow: by_period(field(v, "cf"), 2),
        others: by_period(field(v, "ot"), 6),
    }
}
fn param(v: &Value) -> Param {
    let p: HashMap<&str, f64> = pairs(v).into_iter().map(|(k, x)| (string(k), dec(x, 2))).collect();
    Param { unlevered: p["unlevered"], shield_tax: p["shield_tax"], equity: p["equity"], debt: p["debt"], valuation: p["valuation"] }
}

// --------------------------------------------------------------- comparing

/// Reading a number may be off in the last place.
fn close(g: f64, w: f64) -> bool {
    (g - w).abs() <= (w.abs() * 5e-16).min(0.004)
}
fn same<T: Line>(cx: &mut Ctx, what: &str, g: &HashMap<T, f64>, w: &HashMap<T, f64>) -> Res {
    for (n, t) in T::ALL {
        cx.checks += 1;
        match (g.get(t), w.get(t)) {
            (None, None) => {}
            (Some(a), Some(b)) if close(*a, *b) => {}
            (a, b) => return cx.fail(format!("{what}: {n} reads back as {a:?}, it was {b:?}")),
        }
    }
    cx.eq(&format!("{what}: number of lines"), g.len(), w.len())
}
fn same_by<K: Ord + std::fmt::Debug, T: Line>(
    cx: &mut Ctx, what: &str, g: &BTreeMap<K, HashMap<T, f64>>, w: &BTreeMap<K, HashMap<T, f64>>,
) -> Res {
    let (gk, wk): (Vec<&K>, Vec<&K>) = (g.keys().collect(), w.keys().collect());
    cx.eq(&format!("{what}: dates or periods"), gk, wk)?;
    for (k, s) in g {
        same(cx, &format!("{what} {k:?}"), s, &w[k])?;
    }
    Ok(())
}
fn same_accounts(cx: &mut Ctx, what: &str, g: &Accounts, w: &Accounts) -> Res {
    cx.eq(&format!("{what}: currency"), g.currency, w.currency)?;
    cx.eq(&format!("{what}: consolidated"), g.consolidated, w.consolidated)?;
    cx.eq(&format!("{what}: dates"), &g.dates, &w.dates)?;
    same_by(cx, &format!("{what}: balance sheet"), &g.balance_sheet, &w.balance_sheet)?;
    same_by(cx, &format!("{what}: profit and loss"), &g.profit_loss, &w.profit_loss)?;
    same_by(cx, &format!("{what}: cash flow"), &g.cash_flow, &w.cash_flow)?;
    same_by(cx, &format!("{what}: others"), &g.others, &w.others)
}
fn same_opt<T: Line>(cx: &mut Ctx, what: &str, g: &Option<HashMap<T, f64>>, w: &Option<HashMap<T, f64>>) -> Res {
    match (g, w) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => same(cx, what, g, w),
        _ => cx.fail(format!("{what}: present {}, it was present {}", g.is_some(), w.is_some())),
    }
}
fn same_report(cx: &mut Ctx, what: &str, g: &FinancialReport, w: &FinancialReport) -> Res {
    cx.eq(&format!("{what}: period"), g.period, w.period)?;
    same_opt(cx, &format!("{what}: opening balance sheet"), &g.balance_sheet_beg, &w.balance_sheet_beg)?;
    same_opt(cx, &format!("{what}: closing balance sheet"), &g.balance_sheet_end, &w.balance_sheet_end)?;
    same_opt(cx, &format!("{what}: profit and loss"), &g.profit_loss, &w.profit_loss)?;
    same_opt(cx, &format!("{what}: cash flow"), &g.cash_flow, &w.cash_flow)?;
    same_opt(cx, &format!("{what}: others"), &g.others, &w.others)
}
fn same_param(cx: &mut Ctx, what: &str, g: &Param, w: &Param) -> Res {
    for (n, a, b) in [
        ("unlevered", g.unlevered, w.unlevered),
        ("shield_tax", g.shield_tax, w.shield_tax),
        ("equity", g.equity, w.equity),
        ("debt", g.debt, w.debt),
        ("valuation", g.valuation, w.valuation),
    ] {
        cx.must(&format!("{what}: {n} reads back as {a}, it was {b}"), close(a, b))?;
    }
    Ok(())
}

// --------------------------------------------------------------- text forms

fn to_ron<T: Serialize>(cx: &mut Ctx, x: &T, compact: bool) -> Result<String, Violation> {
    let r = cx.call(|| {
        if compact { ron::to_string(x) } else { ron::ser::to_string_pretty(x, ron::ser::PrettyConfig::default()) }
    });
    match r {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => cx.fail(format!("cannot be written as RON: {e}")),
        Err(e) => cx.fail(format!("writing as RON panicked: {e}")),
    }
}
fn of_ron<T: DeserializeOwned>(cx: &mut Ctx, what: &str, s: &str) -> Result<T, Violation> {
    match cx.call(|| ron::from_str::<T>(s)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => cx.fail(format!("{what} does not read back: {e}")),
        Err(e) => cx.fail(format!("reading {what} panicked: {e}")),
    }
}
fn to_json<T: Serialize>(cx: &mut Ctx, x: &T, compact: bool) -> Result<String, Violation> {
    match cx.call(|| if compact { serde_json::to_string(x) } else { serde_json::to_string_pretty(x) }) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => cx.fail(format!("cannot be written as JSON: {e}")),
        Err(e) => cx.fail(format!("writing as JSON panicked: {e}")),
    }
}
fn of_json<T: DeserializeOwned>(cx: &mut Ctx, what: &str, s: &str) -> Result<T, Violation> {
    match cx.call(|| serde_json::from_str::<T>(s)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => cx.fail(format!("{what} does not read back: {e}")),
        Err(e) => cx.fail(format!("reading {what} panicked: {e}")),
    }
}

/// Written by hand: from the names of the specification, not from the code's.
mod hand {
    use super::*;

    fn number(v: &Value, places: u32) -> String {
        let d = digits(v);
        let (neg, d) = match d.strip_prefix('-') {
            Some(d) => (true, d.to_string()),
            None => (false, d),
        };
        let d = format!("{d:0>w$}", w = places as usize + 1);
        let (a, b) = d.split_at(d.len() - places as usize);
        format!("{}{a}.{b}", if neg { "-" } else { "" })
    }
    fn day(v: &Value) -> String {
        format!("\"{}\"", date(v).format("%Y-%m-%d"))
    }
    fn join(v: Vec<String>, sp: &str) -> String {
        v.join(&format!(",{sp}"))
    }
    fn ron_stmt(v: &Value, places: u32, sp: &str) -> String {
        let l = pairs(v).into_iter().map(|(k, x)| format!("{}:{sp}{}", string(k), number(x, places))).collect();
        format!("{{{}}}", join(l, sp))
    }
    fn span(v: &Value, sp: &str) -> String {
        let p = tup(v);
        format!("({},{sp}{})", day(&p[0]), day(&p[1]))
    }
    pub fn ron(v: &Value, compact: bool) -> String {
        let sp = if compact { "" } else { "\n  " };
        let dates = set(field(v, "dates")).iter().map(day).collect();
        let bs = pairs(field(v, "bs")).into_iter().map(|(k, s)| format!("{}:{}", day(k), ron_stmt(s, 2, sp))).collect();
        let per = |n: &str, places| {
            let l = pairs(field(v, n)).into_iter().map(|(k, s)| format!("{}:{}", span(k, sp), ron_stmt(s, places, sp))).collect();
            join(l, sp)
        };
        format!(
            "{}(currency:{},consolidated:{},{sp}dates:[{}],{sp}balance_sheet:{{{}}},profit_loss:{{{}}},cash_flow:{{{}}},others:{{{}}})",
            if compact { "" } else { "Accounts" },
            string(field(v, "currency")), boolean(field(v, "consolidated")), join(dates, sp), join(bs, sp),
            per("pl", 2), per("cf", 2), per("ot", 6),
        )
    }
    fn json_stmt(v: &Value, places: u32, sp: &str) -> String {
        let l = pairs(v).into_iter().map(|(k, x)| format!("\"{}\":{sp}{}", string(k), number(x, places))).collect();
        format!("{{{}}}", join(l, sp))
    }
    pub fn param(v: &Value) -> String {
        let l = pairs(v).into_iter().map(|(k, x)| format!("{}:{}", string(k), number(x, 2))).collect();
        format!("({})", join(l, " "))
    }
    /// an Option of a statement is Some({...}) or None
    fn ron_report(v: &Value, p: &Value, sp: &str) -> String {
        let t = tup(p);
        let find = |n: &str, k: &Value, places| {
            let m = pairs(field(v, n)).into_iter().find(|(x, _)| *x == k);
            m.map_or("None".to_string(), |(_, s)| format!("Some({})", ron_stmt(s, places, sp)))
        };
        format!(
            "(period:{},{sp}balance_sheet_beg:{},balance_sheet_end:{},profit_loss:{},cash_flow:{},others:{})",
            span(p, sp), find("bs", &t[0], 2), find("bs", &t[1], 2), find("pl", p, 2), find("cf", p, 2), find("ot", p, 6)
        )
    }
    /// the reports of the accounts, each with the parameters and the affiliation, and share prices
    pub fn model(v: &Value, par: &Value, holding: &Value, compact: bool) -> String {
        let sp = if compact { "" } else { "\n  " };
        let par = pairs(par).into_iter().map(|(k, x)| format!("{}:{}", string(k), number(x, 2))).collect();
        let par = join(par, sp);
        let aff = join(pairs(field(holding, "share")).into_iter().map(|(k, x)| format!("{}:{}", string(k), number(x, 6))).collect(), sp);
        let reports = pairs(field(v, "pl")).into_iter().map(|(p, _)| {
            format!("{}:(param:({par}),{sp}reports:{},affiliation:{{{aff}}})", span(p, sp), ron_report(v, p, sp))
        });
        let prices = pairs(field(holding, "price")).into_iter().map(|(d, x)| format!("{}:{}", day(d), number(x, 2))).collect();
        format!("(params:{{{}}},{sp}shareprice:{{{}}})", join(reports.collect(), sp), join(prices, sp))
    }
    /// a report of the accounts v for the period p
    pub fn json_report(v: &Value, p: &Value, compact: bool) -> String {
        let sp = if compact { "" } else { "\n  " };
        let t = tup(p);
        let find = |n: &str, k: &Value, places| {
            let m = pairs(field(v, n)).into_iter().find(|(x, _)| *x == k);
            m.map_or("null".to_string(), |(_, s)| json_stmt(s, places, sp))
        };
        format!(
            "{{\"period\":[{},{}],\"balance_sheet_beg\":{},\"balance_sheet_end\":{},\"profit_loss\":{},\"cash_flow\":{},\"others\":{}}}",
            day(&t[0]), day(&t[1]), find("bs", &t[0], 2), find("bs", &t[1], 2), find("pl", p, 2), find("cf", p, 2), find("ot", p, 6)
        )
    }
}

/// every line stands in the JSON text under its own name
fn named<T: Line>(cx: &mut Ctx, what: &str, text: &str, m: &HashMap<T, f64>) -> Res {
    let Ok(v) = serde_json::from_str::<Value>(text) else { return cx.fail(format!("{what} is not JSON: {text}")) };
    let Some(items) = v["items"].as_object() else { return cx.fail(format!("{what}: no items in {text}")) };
    cx.eq(&format!("{what}: lines written"), items.len(), m.len())?;
    for (k, x) in m {
        let g = items.get(&k.name()).and_then(|y| y.as_f64());
        cx.must(&format!("{what}: {} is written as {g:?}, it is {x}", k.name()), g.is_some_and(|g| close(g, *x)))?;
    }
    Ok(())
}

fn round<T: Serialize + DeserializeOwned>(
    cx: &mut Ctx, what: &str, x: &T, compact: bool, same: impl Fn(&mut Ctx, &str, &T, &T) -> Res,
) -> Result<String, Violation> {
    let t = to_ron(cx, x, compact)?;
    let y: T = of_ron(cx, &format!("{what} as RON"), &t)?;
    same(cx, &format!("{what} as RON"), &y, x)?;
    let t = to_json(cx, x, compact)?;
    let y: T = of_json(cx, &format!("{what} as JSON"), &t)?;
    same(cx, &format!("{what} as JSON"), &y, x)?;
    Ok(t)
}

/// a model of companies, written by hand, read, written and read again
fn model(cx: &mut Ctx, s: &Value, compact: bool) -> Res {
    let (b, h) = (field(s, "books"), field(s, "holding"));
    let text = hand::model(b, field(s, "param"), h, compact);
    let m: ValuationModel = of_ron(cx, "a model written by hand", &text)?;
    let per: Vec<Per> = pairs(field(b, "pl")).into_iter().map(|(p, _)| period(p)).collect();
    cx.eq("periods of the model", m.params.keys().cloned().collect::<std::collections::BTreeSet<_>>(), per.into_iter().collect())?;
    let price: BTreeMap<_, _> = pairs(field(h, "price")).into_iter().map(|(d, x)| (date(d), dec(x, 2))).collect();
    cx.eq("dates of share prices", m.shareprice.keys().collect::<Vec<_>>(), price.keys().collect())?;
    for (d, x) in &price {
        cx.must(&format!("share price of {d}"), close(m.shareprice[d], *x))?;
    }
    let t = to_ron(cx, &m, compact)?;
    let again: ValuationModel = of_ron(cx, "the model as RON", &t)?;
    cx.eq("the model read back", &again, &m)?;
    // what a company's entry holds shows in its text
    for (p, _) in pairs(field(b, "pl")).into_iter().take(2) {
        let c: &CompanyReports = &m.params[&period(p)];
        let t = to_json(cx, c, compact)?;
        let Ok(v) = serde_json::from_str::<Value>(&t) else { return cx.fail(format!("a company in JSON is not JSON: {t}")) };
        let r: FinancialReport = of_json(cx, "the report of a company", &v["reports"].to_string())?;
        let w: FinancialReport = of_json(cx, "a report written by hand", &hand::json_report(b, p, compact))?;
        same_report(cx, "the report of a company", &r, &w)?;
        let q: Param = of_json(cx, "the parameters of a company", &v["param"].to_string())?;
        same_param(cx, "the parameters of a company", &q, &param(field(s, "param")))?;
        let share = pairs(field(h, "share"));
        let items = v["affiliation"].as_object();
        cx.eq("industries of a company", items.map(|x| x.len()), Some(share.len()))?;
        for (k, x) in share {
            let g = v["affiliation"][string(k)].as_f64();
            cx.must(&format!("share of {} is {g:?}", string(k)), g.is_some_and(|g| close(g, dec(x, 6))))?;
        }
        let c2: CompanyReports = of_json(cx, "a company in JSON", &t)?;
        let t2 = to_json(cx, &c2, compact)?;
        let Ok(v2) = serde_json::from_str::<Value>(&t2) else { return cx.fail(format!("a company in JSON is not JSON: {t2}")) };
        let r2: FinancialReport = of_json(cx, "the report of a company", &v2["reports"].to_string())?;
        same_report(cx, "the report of a company read back from JSON", &r2, &w)?;
    }
    Ok(())
}

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    let states = list(field(trace, "states"));
    let mut mem = accounts(field(&states[0], "books"));
    let mut par = param(field(&states[0], "param"));
    let mut files: HashMap<i128, (String, String)> = HashMap::new();
    for (i, s) in states.iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let op = field(s, "op");
        let (name, f, compact) = (string(field(op, "name")), int(field(op, "file")), boolean(field(op, "compact")));
        let b = field(s, "books");
        if name != "Load" {
            cx.op(name, &format!("{op} {} {}", s["books"], s["files"]));
        }
        match name {
            "Load" => {}
            "Edit" => {
                mem = accounts(b);
                par = param(field(s, "param"));
            }
            "Save" => {
                files.insert(f, (to_ron(cx, &mem, compact)?, to_ron(cx, &par, compact)?));
            }
            "Hand" => {
                let get = |n: &str| pairs(field(s, n)).into_iter().find(|(k, _)| int(k) == f).unwrap().1.clone();
                files.insert(f, (hand::ron(&get("files"), compact), hand::param(&get("paramFiles"))));
            }
            "Read" => {
                let (t, p) = files[&f].clone();
                mem = of_ron(cx, "the accounts in RON", &t)?;
                par = of_ron(cx, "the parameters in RON", &p)?;
            }
            n => tool_error(&format!("unknown operation {n}")),
        }
        same_accounts(cx, &format!("accounts after {name}"), &mem, &accounts(b))?;
        same_param(cx, &format!("parameters after {name}"), &par, &param(field(s, "param")))?;
        if matches!(name, "Load" | "Edit") {
            model(cx, s, compact != (i % 2 == 0))?;
        }
        // reports and dated statements, in both forms
        for (p, _) in pairs(field(b, "pl")).into_iter().take(2) {
            let per = period(p);
            let r = FinancialReport {
                period: per,
                balance_sheet_beg: mem.balance_sheet.get(&per.0).cloned(),
                balance_sheet_end: mem.balance_sheet.get(&per.1).cloned(),
                profit_loss: mem.profit_loss.get(&per).cloned(),
                cash_flow: mem.cash_flow.get(&per).cloned(),
                others: mem.others.get(&per).cloned(),
            };
            round(cx, "report", &r, compact, same_report)?;
            let text = hand::json_report(b, p, compact);
            let h: FinancialReport = of_json(cx, "a report written by hand", &text)?;
            same_report(cx, "a report written by hand", &h, &r)?;
            if let Some(items) = r.balance_sheet_end {
                let x = BalanceSheet { date: per.1, items };
                let t = round(cx, "balance sheet", &x, compact, |cx, w, g, x| {
                    cx.eq(&format!("{w}: date"), g.date, x.date)?;
                    same(cx, w, &g.items, &x.items)
                })?;
                named(cx, "balance sheet in JSON", &t, &x.items)?;
            }
            if let Some(items) = r.profit_loss {
                let x = ProfitLoss { period: per, items };
                let t = round(cx, "profit and loss", &x, compact, |cx, w, g, x| {
                    cx.eq(&format!("{w}: period"), g.period, x.period)?;
                    same(cx, w, &g.items, &x.items)
                })?;
                named(cx, "profit and loss in JSON", &t, &x.items)?;
            }
            if let Some(items) = r.cash_flow {
                let x = CashFlow { period: per, items };
                let t = round(cx, "cash flow", &x, compact, |cx, w, g, x| {
                    cx.eq(&format!("{w}: period"), g.period, x.period)?;
                    same(cx, w, &g.items, &x.items)
                })?;
                named(cx, "cash flow in JSON", &t, &x.items)?;
            }
            if let Some(items) = r.others {
                let x = FinOthers { period: per, items };
                let t = round(cx, "others", &x, compact, |cx, w, g, x| {
                    cx.eq(&format!("{w}: period"), g.period, x.period)?;
                    same(cx, w, &g.items, &x.items)
                })?;
                named(cx, "others in JSON", &t, &x.items)?;
            }
        }
    }
    Ok(())
}
