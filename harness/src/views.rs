//! spec/views.qnt: one deal asked for its value and its rate in every way there is.
use crate::calendar::date;
use crate::ctx::*;
use crate::curves::curve;
use crate::itf::*;
use crate::tvm::{given, real};
use chrono::Months;
use financelib::fixedincomes::bonds::rates::*;
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::*;
use serde_json::Value;

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let m = ratio(field(s, "m"));
        let whole = list(field(s, "pays")).len();
        let pays: Vec<f64> = list(field(s, "pays")).iter().map(given).collect();
        let fm = field(s, "forms");
        let (nom, eff, con) = (real(field(fm, "nom")), real(field(fm, "eff")), real(field(fm, "con")));
        let (value, gross) = (real(field(s, "value")), real(field(s, "gross")));
        let op = string(field(s, "op"));
        let years = whole as f64 / m;
        let tim: Vec<f64> = (0..whole).map(|k| (k + 1) as f64 / m).collect();
        let key = format!("{m} payments a year {:?}{}, nominal rate {nom} (effective {eff})", &pays[..whole.min(12)],
            if whole > 12 { format!(".. ({whole})") } else { String::new() });
        cx.op(op, &key);
        // what the rounding of the rates and their sums with 1 may do over the years
        let tol = (2e-11 + 2e-15 * (whole as f64 + years * (m + 1.0))) * gross;

        // the value, with the rate in each form
        let is = |cx: &mut Ctx, how: &str, get: &dyn Fn() -> f64| -> Res {
            let what = format!("{how} of {key}");
            let got = cx.run(&what, get)?;
            cx.near(&what, got, value, tol)
        };
        let over = |f: &dyn Fn(f64, f64) -> f64| tim.iter().zip(&pays).map(|(t, c)| f(*t, *c)).sum::<f64>();
        is(cx, "sum of pvm", &|| over(&|t, c| pvm(nom, t, m, c)))?;
        is(cx, "sum of pv", &|| over(&|t, c| pv(eff, t, c)))?;
        is(cx, "sum of pvc", &|| over(&|t, c| pvc(con, t, c)))?;
        is(cx, "sum of discounted payments", &|| over(&|t, c| c * dis_fact(eff, t)))?;
        is(cx, "npv_t0", &|| npv_t0(eff, &tim, &pays))?;
        is(cx, "npv", &|| npv(eff, &tim.iter().map(|t| t + 2.5).collect(), 2.5, &pays))?;
        is(cx, "npv_t0, put off and brought forward", &|| fv(eff, 1.5, npv_t0(eff, &tim.iter().map(|t| t + 1.5).collect(), &pays)))?;
        // what it has grown to at the end, brought back
        is(cx, "pvm of the future value", &|| pvm(nom, years, m, over(&|t, c| fvm(nom, years - t, m, c))))?;
        is(cx, "pv of the future value", &|| pv(eff, years, over(&|t, c| fv(eff, years - t, c))))?;
        is(cx, "pvc of the future value", &|| pvc(con, years, over(&|t, c| fvc(con, years - t, c))))?;
        // by forward factors from payment to payment
        is(cx, "chain of forward factors", &|| {
            (0..whole).rev().fold(0.0, |v, k| (v + pays[k]) * fwd_dis_fact((eff, k as f64 / m), (eff, tim[k])))
        })?;
        let level: Vec<RateCurve> = [("nom", nom), ("eff", eff), ("con", con)]
            .iter()
            .map(|(kind, r)| curve(kind, vec![*r; whole + 2], m))
            .collect();
        for c in &level {
            is(cx, "value on a level curve", &|| over(&|t, x| c.pv(x, t)))?;
            is(cx, "value on a level curve, as effective rates", &|| over(&|t, x| c.to_effective().pv(x, t)))?;
            is(cx, "value on a level curve, as nominal rates", &|| over(&|t, x| c.to_nominal().pv(x, t)))?;
            is(cx, "value on a level curve, as exponential rates", &|| over(&|t, x| c.to_exponential().pv(x, t)))?;
        }
        // the rates
        let rtol = 1e-13 * (m + 10.0) * (1.0 + eff.abs()) * (1.0 + nom.abs());
        for (how, got, want) in [
            ("nom_eff_rate", cx.run(&key, || nom_eff_rate(nom, m))?, eff),
            ("eff_nom_rate", cx.run(&key, || eff_nom_rate(eff, m))?, nom),
            ("nom_exp_rate", cx.run(&key, || nom_exp_rate(nom, m))?, con),
            ("exp_nom_rate", cx.run(&key, || exp_nom_rate(con, m))?, nom),
            ("eff_exp_rate", cx.run(&key, || eff_exp_rate(eff))?, con),
            ("exp_eff_rate", cx.run(&key, || exp_eff_rate(con))?, eff),
        ] {
            cx.near(&format!("{how} for {key}"), got, want, rtol)?;
        }
        // a level par curve is a level spot curve is a level forward curve
        let least = (-(whole as f64 + 2.0) * (nom / m).ln_1p()).exp().min(1.0);
        if whole <= 40 && nom > -0.2 && least > 1e-3 {
            let what = format!("level par curve of {key}");
            let par = Rates::ParRates { rate: level[0].clone() };
            let spot = cx.run(&what, || par.to_spot())?;
            let ltol = 1e-12 * (m + 10.0) / least;
            for k in [1, whole, whole + 2] {
                let got = cx.run(&what, || spot.rate_estim(k as f64 / m))?;
                cx.near(&format!("{what} as spot rates at period {k}"), got, nom, ltol)?;
                let got = cx.run(&what, || spot.to_par().rate_estim(k as f64 / m))?;
                cx.near(&format!("{what} as spot and again par rates at period {k}"), got, nom, ltol)?;
            }
            let got = cx.run(&what, || spot.forward_rate(1.0 / m, years))?;
            cx.near(&format!("{what}: forward rate after the first period"), got, nom, ltol)?;
        }
        // by date, where the periods are months
        let months = 12.0 / m;
        let d0 = date(field(s, "today"));
        let dated = months.fract() == 0.0;
        let mut days = vec![];
        if dated {
            days = (0..whole).map(|k| d0 + Months::new((k + 1) as u32 * months as u32)).collect();
            is(cx, "xnpv", &|| xnpv(eff, &days, d0, &pays))?;
            is(cx, "sum of xpv", &|| days.iter().zip(&pays).map(|(d, c)| xpv(eff, (d0, *d), *c)).sum())?;
            is(cx, "sum of payments times xdis_fact", &|| days.iter().zip(&pays).map(|(d, c)| c * xdis_fact(eff, (d0, *d))).sum())?;
        }
        // the bond or annuity
        let lv = field(s, "lev");
        let (each, par) = (given(field(lv, "each")), given(field(lv, "par")));
        let is_level = boolean(field(lv, "yes"));
        let j = nom / m;
        let close = tol + gross * (1e-15 / j.abs().max(1e-5));
        if is_level {
            let what = format!("pv_annuity of {key}");
            let got = cx.run(&what, || pv_annuity(nom, years, m, -each, -par))?;
            cx.near(&what, got, value, close)?;
            let what = format!("pmt of {key}, final payment {par}");
            let got = cx.run(&what, || pmt(nom, years, m, value, -par))?;
            let first = if j == 0.0 { whole as f64 } else { -(-(whole as f64) * j.ln_1p()).exp_m1() / j };
            cx.near(&what, got, -each, 3.0 * close / first + 1e-12 * each)?;
        }
        if is_level && par > 0.0 {
            let c = each * m / par;
            let bond = CouponBond { par, c, freq: m, t_life: years };
            for (how, got) in [
                ("price", cx.run(&key, || bond.price(nom))?),
                ("pv_full", cx.run(&key, || bond.pv_full(nom, 0.0))?),
                ("price of the note", cx.run(&key, || FloatingRateNotes { par, quoted_margin: c - 0.03, freq: m, t_life: years }.price(0.03, nom - 0.03))?),
            ] {
                cx.near(&format!("{how} of {bond:?}: {key}"), got, value, close)?;
            }
            for rc in &level {
                is(cx, "price_ratecurve", &|| bond.price_ratecurve(rc))?;
            }
            let got = cx.run(&key, || bond.generate_cashflow())?;
            cx.eq(&format!("payments of {bond:?}: number"), got.len(), whole)?;
            for (k, (g, w)) in got.iter().zip(&pays).enumerate() {
                cx.near(&format!("payment {} of {bond:?}", k + 1), *g, *w, 1e-12 * w.abs())?;
            }
        }
        // and back from the value to the rate
        if boolean(field(s, "must")) {
            let mut t = vec![0.0];
            t.extend(&tim);
            let mut c = vec![-value];
            c.extend(&pays);
            let mut found = vec![("irr", cx.run(&key, || irr(&t, &c))?)];
            if dated {
                let mut d = vec![d0];
                d.extend(&days);
                found.push(("xirr", cx.run(&key, || xirr(&d, &c))?));
            }
            for (how, got) in found {
                let what = format!("{how} of {key} bought for {value}");
                let Some(got) = got else { return cx.fail(format!("{what}: none found")) };
                cx.near(&what, got, eff, 1e-7)?;
                let back = cx.run(&what, || eff_nom_rate(got, m))?;
                cx.near(&format!("{what}, as nominal rate"), back, nom, 1e-6 * (1.0 + m / 10.0))?;
            }
            if is_level && par > 0.0 && each * m / par <= 0.5 && years <= 20.0 {
                let bond = CouponBond { par, c: each * m / par, freq: m, t_life: years };
                let what = format!("ytm of {bond:?} at {value}");
                let got = cx.run(&what, || bond.ytm(value))?;
                cx.near(&what, got, nom, 1e-7)?;
            }
        }
    }
    Ok(())
}
