//! spec/money.qnt: money market yields, the time-weighted return.
use crate::ctx::*;
use crate::curves::reals;
use crate::itf::*;
use crate::tvm::{given, real};
use financelib::fixedincomes::moneymarkets::*;
use serde_json::Value;

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    let mut rolled = 1.0;
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let op = string(field(s, "op"));
        if cx.prop == "C34" && (op == "Open" || op == "Roll") {
            let h = field(s, "hold");
            let t = int(field(h, "t")) as f64;
            let (p0, p1, d1) = (given(field(h, "p0")), given(field(h, "p1")), given(field(h, "d1")));
            let want = |k: &str| real(field(field(s, "yields"), k));
            let key = format!("{t} days, price {p0}, end {p1}, income {d1}");
            cx.op(op, &key);
            let a = 360.0 / t;
            let mut f = |what: &str, want: f64, tol: f64, get: &dyn Fn() -> f64| -> Result<f64, Violation> {
                let what = format!("{what}, {key}");
                let got = cx.run(&what, get)?;
                cx.near(&what, got, want, tol)?;
                Ok(got)
            };
            let q = field(s, "quote");
            let (qt, qr, qf, qd) = (int(field(q, "t")) as f64, given(field(q, "r")), given(field(q, "p1")), real(field(q, "d")));
            f(&format!("t_bill_d({qr}, {qt}, {qf})"), qd, 1e-14 * qd.abs(), &|| t_bill_d(qr, qt, qf))?;
            // a bill bought at p0 that pays p1 (when it pays)
            let size = (p0 + p1.abs()) / p1.abs();
            if p1 > 0.0 {
                let r = f("t_bill_r", want("bill"), 1e-14 * a * size, &|| t_bill_r(t, p0, p1))?;
                f("t_bill_d of t_bill_r", want("discount"), 1e-14 * (p0 + p1), &|| t_bill_d(r, t, p1))?;
                let rate = want("bill");
                f("t_bill_d", want("discount"), 1e-14 * (p0 + p1), &|| t_bill_d(rate, t, p1))?;
                f("t_bill_r of the price less t_bill_d", rate, 2e-14 * a * size, &|| t_bill_r(t, p1 - t_bill_d(rate, t, p1), p1))?;
            }
            let g = 1.0 + want("hpy");
            let hpy = f("holding_per_yield", want("hpy"), 1e-14 * (1.0 + g), &|| holding_per_yield(p0, p1, d1))?;
            let mmy = f("money_mkt_yield", want("mmy"), 1e-14 * a * (1.0 + g), &|| money_mkt_yield(t, p0, p1, d1))?;
            let eay = want("eay");
            let tol = 1e-14 * (2.0 + 365.0 / t) * (1.0 + eay) + 1e-15;
            let eay = f("eff_ann_yield", eay, tol, &|| eff_ann_yield(t, p0, p1, d1))?;
            let what = format!("growth by the three yields, {key}");
            cx.near(&what, mmy / a, hpy, 1e-13 * (1.0 + g))?;
            if eay > -0.999999 {
                cx.near(&what, (1.0 + eay).powf(t / 365.0), g, 1e-11 * g * (1.0 + t / 365.0) / (1.0 + eay).min(1.0))?;
            }
            let want = real(field(s, "rolled"));
            rolled = (1.0 + hpy) * if op == "Open" { 1.0 } else { rolled };
            cx.near(&format!("growth of all holdings so far, {key}"), rolled, want, 1e-11 * want)?;
        }
        if cx.prop == "C35" && op.starts_with("Period") {
            let (bv, inf) = (reals(field(s, "values")), reals(field(s, "flows")));
            let y = tup(field(s, "years"));
            let n = int(&y[0]) as f64 / int(&y[1]) as f64;
            let k = inf.len();
            let key = format!("values {:?} flows {:?} ({k} sub-periods), {n} years", &bv[..bv.len().min(9)], &inf[..k.min(8)]);
            cx.op(op, &key);
            let all: Vec<f64> = inf.iter().copied().chain(reals(field(s, "after"))).collect();
            let key = if all.len() > k { format!("{key}, later flows {:?}", &all[k..]) } else { key };
            // what is left of the digits where a payout leaves little
            let mut lost = 0.0;
            for i in 0..k {
                lost += (bv[i] + inf[i].abs()) / (bv[i] + inf[i]);
            }
            let rel = 1e-15 * (lost + k as f64 + 4.0);
            let w = field(s, "returns");
            let (wn, we) = (real(field(w, "n")), real(field(w, "each")));
            let each = cx.run(&key, || twrr(&bv, &all))?;
            cx.near(&format!("twrr of {key}"), each, we, (rel / k as f64 + 1e-15) * (2.0 + we))?;
            if wn > -1.0 {
                let got = cx.run(&key, || twrr_n(n, &bv, &all))?;
                cx.near(&format!("twrr_n of {key}"), got, wn, (rel / n + 1e-15) * (2.0 + wn) * 4.0)?;
            }
            // the same growths without any flows
            let gr = reals(field(s, "growths"));
            let mut flat = vec![100.0];
            for g in &gr {
                flat.push(flat.last().unwrap() * g);
            }
            let zero = vec![0.0; k];
            let got = cx.run(&key, || twrr(&flat, &zero))?;
            cx.near(&format!("twrr of the same growths {gr:?} without flows"), got, we, (rel / k as f64 + 1e-15) * (2.0 + we))?;
        }
    }
    Ok(())
}
