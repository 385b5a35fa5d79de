//! spec/bonds.qnt: bonds and floating rate notes through their life.
use crate::ctx::*;
use crate::curves::{curve, reals};
use crate::itf::*;
use crate::tvm::{given, real};
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use serde_json::Value;

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let b = field(s, "bond");
        let (par, c) = (given(field(b, "par")), given(field(b, "c")));
        let f = ratio(field(b, "f"));
        let left = int(field(s, "left"));
        let y = given(field(s, "y"));
        let bond = CouponBond { par, c, freq: f, t_life: left as f64 / f };
        let bare = real(field(s, "bare"));
        let j = y / f;
        let rel = 2.0 * (1e-11 + 1e-15 / j.abs().max(1e-5) + left as f64 * 1e-15);
        let op = string(field(s, "op"));
        let key = format!("{bond:?} ({left} coupons) yield {y}");
        match cx.prop.as_str() {
            "C30" => {
                cx.op(op, &key);
                let got = cx.run(&key, || bond.price(y))?;
                cx.near(&format!("price of {key}"), got, bare, rel * bare)?;
                let got = cx.run(&key, || bond.generate_cashflow())?;
                cx.eq(&format!("payments of {key}: number"), got.len() as i128, left)?;
                let cp = par * c / f;
                for (k, x) in got.iter().enumerate() {
                    let want = cp + if k + 1 == left as usize { par } else { 0.0 };
                    cx.near(&format!("payment {} of {key}", k + 1), *x, want, 1e-12 * want)?;
                }
                let want = real(field(s, "onCurve"));
                if want != 0.0 {
                    let cv = field(s, "curve");
                    let pts = reals(field(cv, "pts"));
                    let rc = curve(string(field(cv, "kind")), pts.clone(), ratio(field(cv, "f")));
                    let what = format!("price_ratecurve of {bond:?} on {rc:?}");
                    let got = cx.run(&what, || bond.price_ratecurve(&rc))?;
                    cx.near(&what, got, want, 2e-11 * want)?;
                    if op == "Issue" {
                        // at the limit of the last point: the curve that ends with the last payment
                        if field(cv, "f") == field(b, "f") {
                            let rc = curve(string(field(cv, "kind")), pts[..left as usize].to_vec(), f);
                            let what = format!("price_ratecurve of {bond:?} on {rc:?}");
                            let got = cx.run(&what, || bond.price_ratecurve(&rc))?;
                            cx.near(&what, got, want, 2e-11 * want)?;
                        }
                    }
                }
            }
            "C31" => {
                if !boolean(field(s, "limits")) || int(field(s, "gone")) != 0 {
                    continue;
                }
                let key = format!("ytm of {bond:?} ({left} coupons) at price {bare}");
                cx.op(op, &key);
                let got = cx.run(&key, || bond.ytm(bare))?;
                cx.near(&key, got, y, 1e-7)?;
                // dearer, yields less
                if y >= 0.0 {
                    let dear = bare * 1.01;
                    let key = format!("ytm of {bond:?} at price {dear}");
                    let less = cx.run(&key, || bond.ytm(dear))?;
                    cx.must(&format!("{key}: {less}, not less than {y} at price {bare}"), less < y)?;
                }
            }
            "C32" => {
                let t = int(field(s, "gone")) as f64 / (360.0 * f);
                let key = format!("{key}, {t} into the period");
                cx.op(op, &key);
                let (full, accrued) = (real(field(s, "full")), real(field(s, "accrued")));
                let a = cx.run(&key, || bond.accrued_interest(t))?;
                cx.near(&format!("accrued_interest of {key}"), a, accrued, 1e-12 * accrued.abs())?;
                let fu = cx.run(&key, || bond.pv_full(y, t))?;
                cx.near(&format!("pv_full of {key}"), fu, full, rel * full)?;
                let fl = cx.run(&key, || bond.pv_flat(y, t))?;
                cx.near(&format!("pv_flat of {key}"), fl, full - accrued, rel * (full + accrued))?;
                cx.near(&format!("pv_flat and accrued interest of {key}"), fl + a, fu, 1e-12 * (fu + a.abs()))?;
            }
            "C33" => {
                let index = given(field(s, "index"));
                // margins to the last of the given digits
                let grain = |a: &str| int(field(s, a)) as f64;
                let qm = (int(field(b, "c")) as f64 - grain("index")) / 1e8;
                let dm = (grain("y") - grain("index")) / 1e8;
                let note = FloatingRateNotes { par, quoted_margin: qm, freq: f, t_life: left as f64 / f };
                let key = format!("{note:?} ({left} payments) index {index} discount margin {dm}");
                cx.op(op, &key);
                // the sums of rates round where they nearly cancel
                let tol = (rel + 1e-15 * left as f64 / f + 1e-15) * (bare + par);
                let got = cx.run(&key, || note.price(index, dm))?;
                cx.near(&format!("price of {key}"), got, bare, tol)?;
                let key = format!("discount_margin of {note:?} ({left} payments) at price {bare}, index {index}");
                let got = cx.run(&key, || note.discount_margin(bare, index))?;
                cx.near(&key, got, dm, 1e-7)?;
            }
            p => tool_error(&format!("bonds: no property {p}")),
        }
    }
    Ok(())
}
