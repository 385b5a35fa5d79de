//! spec/forecast.qnt: accounts rolled forward period by period. One object lives
//! through the whole behaviour; it is never set to what the specification says.
use crate::accounts::{RATE, Strict, currency, same_accounts, same_stmt, stmt};
use crate::calendar::date;
use crate::ctx::*;
use crate::itf::*;
use crate::lines::Line;
use crate::periods::Per;
use chrono::NaiveDate;
use financelib::statements::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const UNIT: f64 = 1.0 / 256.0;

fn opened(day: NaiveDate, sheet: HashMap<BsType, f64>) -> Accounts {
    Accounts {
        currency: currency("NGN"),
        consolidated: true,
        dates: BTreeSet::new(),
        balance_sheet: BTreeMap::from([(day, sheet)]),
        profit_loss: BTreeMap::new(),
        cash_flow: BTreeMap::new(),
        others: BTreeMap::new(),
    }
}

fn rates(op: &Value) -> HashMap<FinOthersTyp, f64> {
    let r = |k: &str| int(&field(field(op, "entry"), "rates")[k]) as f64 * RATE;
    HashMap::from([
        (FinOthersTyp::CorporateTaxRate, r("corp")),
        (FinOthersTyp::GrossProfitTaxRate, r("gross")),
        (FinOthersTyp::RevenueTaxRate, r("rev")),
    ])
}

/// the figures of a period, as whole statements or line by line
fn enter(a: &mut Accounts, p: Per, op: &Value, piecewise: bool) {
    let e = field(op, "entry");
    let (pl, bs) = (stmt::<PlType>(field(e, "pl"), UNIT), stmt::<BsType>(field(e, "bs"), UNIT));
    if piecewise {
        a.profit_loss.insert(p, HashMap::new());
        a.balance_sheet.insert(p.1, HashMap::new());
        for (t, v) in pl {
            a.put_profit_loss(p, t, v);
        }
        for (t, v) in bs {
            a.put_balance_sheet(p.1, t, v);
        }
    } else {
        a.profit_loss.insert(p, pl);
        a.balance_sheet.insert(p.1, bs);
    }
    a.others.insert(p, rates(op));
}

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    let states = list(field(trace, "states"));
    let mut a = opened(NaiveDate::MIN, HashMap::new());
    for (i, s) in states.iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let op = field(s, "op");
        let name = string(field(op, "name"));
        let day: Vec<NaiveDate> = list(field(s, "day")).iter().map(date).collect();
        let at = int(field(s, "at")) as usize;
        let p = (day[at], day[at + 1]);
        cx.op(name, &format!("{op} {} {}", s["day"], s["opening"]));
        let was = a.clone();
        let mut whole = None;
        cx.run(name, || match name {
            "Open" => a = opened(day[0], stmt(field(s, "opening"), UNIT)),
            "Enter" | "Revise" => enter(&mut a, p, op, i % 2 == 0),
            "Resume" | "Next" => {}
            "Tax" => {
                a.calc_tax().calc_elements();
            }
            "Carry" => {
                let r = a.get_balance_sheet(p.0, BsType::RetainedEarnings)
                    + a.get_profit_loss(p, PlType::ContributionRetainedEarnings);
                a.put_balance_sheet(p.1, BsType::RetainedEarnings, r);
            }
            "Derive" => {
                a.calc_elements().calc_cash_flow();
            }
            "Close" => {
                let c = a.get_balance_sheet(p.0, BsType::Cash) + a.get_cash_flow(p, CfType::NetCashFlow);
                a.put_balance_sheet(p.1, BsType::Cash, c).calc_elements();
            }
            "Again" => {
                a.calc_tax().calc_elements().calc_elements().calc_cash_flow().calc_elements();
            }
            "Post" => {
                let l = |k: &str| BsType::by_name(string(field(op, k)));
                let v = int(field(op, "amount")) as f64 * UNIT;
                a.balance_sheet.get_mut(&p.1).unwrap().transact((l("deb"), l("crd"), v));
            }
            "Amend" => {
                let v = int(field(op, "amount")) as f64 * UNIT;
                a.put_profit_loss(p, PlType::by_name(string(field(op, "deb"))), v);
            }
            "Over" => {
                let (mut b, q) = (a.clone(), (day[0], p.1));
                b.profit_loss.insert(q, stmt(field(field(op, "entry"), "pl"), UNIT));
                b.others.insert(q, rates(op));
                b.calc_elements().calc_cash_flow();
                whole = b.cash_flow.get(&q).cloned();
            }
            n => tool_error(&format!("unknown operation {n}")),
        })?;
        if name == "Again" {
            cx.eq("accounts computed once more", &a, &was)?;
        }
        let want = crate::accounts::accounts(field(s, "books"), UNIT, RATE);
        let what = format!("after {name} of {p:?}");
        same_accounts(cx, &what, &a, &want, Strict::Amounts, 0.0, 0.0)?;
        if let Some(w) = list(field(s, "whole")).first() {
            let Some(g) = whole else {
                return cx.fail(format!("there is no cash flow from {} to {}", day[0], p.1));
            };
            same_stmt(cx, &format!("cash flow from {} to {}", day[0], p.1), &g, &stmt::<CfType>(w, UNIT), Strict::Amounts, 0.0)?;
        }
    }
    Ok(())
}
