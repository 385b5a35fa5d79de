//! spec/tvm.qnt, spec/quotes.qnt, spec/loan.qnt: growth and discounting, forms of a
//! rate, annuities.
use crate::calendar::date;
use crate::ctx::*;
use crate::itf::*;
use financelib::*;
use serde_json::Value;

/// a number of the specification, to 40 decimals
pub fn real(v: &Value) -> f64 {
    dec(v, 40)
}
/// a given number, in units of 10^-8
pub fn given(v: &Value) -> f64 {
    dec(v, 8)
}
const REL: f64 = 1e-10;

pub fn replay_tvm(trace: &Value, cx: &mut Ctx) -> Res {
    let mut bal = 0.0;
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let a = field(s, "arg");
        let ans = field(s, "ans");
        let want = |k: &str| real(field(ans, k));
        let (r, r1, amt) = (given(field(a, "r")), given(field(a, "r1")), given(field(a, "amt")));
        let den = int(field(a, "den")) as f64;
        let (n, n1) = (int(field(a, "num")) as f64 / den, int(field(a, "num1")) as f64 / den);
        let m = ratio(field(a, "m"));
        let pr = (date(field(a, "d0")), date(field(a, "d1")));
        let op = string(field(s, "op"));
        let key = format!("r={r} n={n} m={m} amount={amt} {}..{} r1={r1} n1={n1}", pr.0, pr.1);
        cx.op(op, &key);

        // 1 + r/m is rounded, which is felt n m times
        let rel = REL + 4e-16 * (n * m).abs();
        let mut f = |what: &str, want: f64, get: &dyn Fn() -> f64| -> Result<f64, Violation> {
            let what = format!("{what} with {key}");
            let got = cx.run(&what, get)?;
            cx.near(&what, got, want, rel * want.abs())?;
            Ok(got)
        };
        let (x, y) = (f("fv", want("fv"), &|| fv(r, n, amt))?, f("pv", want("pv"), &|| pv(r, n, amt))?);
        f("pv of fv", amt, &|| pv(r, n, x))?;
        f("fv of pv", amt, &|| fv(r, n, y))?;
        let (x, y) = (f("fvm", want("fvm"), &|| fvm(r, n, m, amt))?, f("pvm", want("pvm"), &|| pvm(r, n, m, amt))?);
        f("pvm of fvm", amt, &|| pvm(r, n, m, x))?;
        f("fvm of pvm", amt, &|| fvm(r, n, m, y))?;
        let (x, y) = (f("fvc", want("fvc"), &|| fvc(r, n, amt))?, f("pvc", want("pvc"), &|| pvc(r, n, amt))?);
        f("pvc of fvc", amt, &|| pvc(r, n, x))?;
        f("fvc of pvc", amt, &|| fvc(r, n, y))?;
        let (x, y) = (f("xfv", want("xfv"), &|| xfv(r, pr, amt))?, f("xpv", want("xpv"), &|| xpv(r, pr, amt))?);
        f("xpv of xfv", amt, &|| xpv(r, pr, x))?;
        f("xfv of xpv", amt, &|| xfv(r, pr, y))?;
        f("dis_fact", want("df"), &|| dis_fact(r, n))?;
        f("pv of 1", want("df"), &|| pv(r, n, 1.0))?;
        f("dis_fact_annual", want("dfYear"), &|| dis_fact_annual(r))?;
        f("xdis_fact", want("xdf"), &|| xdis_fact(r, pr))?;
        // the later factor over the earlier one: r1 for n1 first, then r for n
        f("fwd_dis_fact", 1.0 / want("fwd"), &|| fwd_dis_fact((r1, n1), (r, n)))?;

        // the amount carried along
        let b = bal;
        let to = real(field(s, "bal"));
        bal = f(op, to, &|| match op {
            "Start" => amt,
            "fv" => fv(r, n, b),
            "pv" => pv(r, n, b),
            "fvm" => fvm(r, n, m, b),
            "pvm" => pvm(r, n, m, b),
            "fvc" => fvc(r, n, b),
            "pvc" => pvc(r, n, b),
            "xfv" => xfv(r, pr, b),
            "xpv" => xpv(r, pr, b),
            _ => tool_error(&format!("tvm: unknown move {op}")),
        })?;
    }
    Ok(())
}

pub fn replay_quotes(trace: &Value, cx: &mut Ctx) -> Res {
    let (mut rate, mut from, mut m0) = (0.0, "", 1.0);
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let m = ratio(field(s, "m"));
        let to = string(field(s, "form"));
        let g = real(field(s, "growth"));
        let want = real(field(s, "rate"));
        let conv = |rate: f64, from: &str, m0: f64, to: &str, m: f64| -> f64 {
            match (from, to) {
                ("nom", "eff") => nom_eff_rate(rate, m0),
                ("eff", "nom") => eff_nom_rate(rate, m),
                ("con", "eff") => exp_eff_rate(rate),
                ("eff", "con") => eff_exp_rate(rate),
                ("nom", "con") => nom_exp_rate(rate, m0),
                ("con", "nom") => exp_nom_rate(rate, m),
                _ => rate,
            }
        };
        let tol = |want: f64, k: f64| {
            1e-14 * (k + 10.0) * (1.0 + g) * (1.0 + want.abs()) * if g < 1.0 { 1.0 / g } else { 1.0 }
        };
        if string(field(s, "op")) == "Fresh" {
            rate = want;
            cx.op("Fresh", &format!("{to} {rate} m={m}"));
        } else {
            let what = format!("{from} rate {rate} (m={m0}) as {to} rate (m={m})");
            cx.op(&format!("{from}->{to}"), &what);
            rate = cx.run(&what, || conv(rate, from, m0, to, m))?;
            // carried through many conversions: their rounding errors add up
            cx.near(&what, rate, want, 20.0 * tol(want, m.max(m0)))?;
        }
        // every conversion from the exact rate
        let a = field(s, "all3");
        for f in ["eff", "nom", "con"] {
            for t in ["eff", "nom", "con"] {
                if f != t {
                    let (x, y) = (real(field(a, f)), real(field(a, t)));
                    let what = format!("{f} rate {x} as {t} rate, m={m}");
                    let got = cx.run(&what, || conv(x, f, m, t, m))?;
                    cx.near(&what, got, y, tol(y, m))?;
                }
            }
        }
        (from, m0) = (to, m);
    }
    Ok(())
}

pub fn replay_loan(trace: &Value, cx: &mut Ctx) -> Res {
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let a = field(s, "arg");
        let (r, p, end) = (given(field(a, "r")), given(field(a, "pay")), given(field(a, "end")));
        let m = ratio(field(a, "m"));
        let left = int(field(s, "left")) as f64;
        let value = real(field(s, "value"));
        let n = left / m;
        let key = format!("r={r} n={n} m={m} (payments: {left}) pmt={p} fv={end}");
        cx.op(string(field(s, "op")), &key);
        // how far rounding of 1 + r/m may be felt
        let j = r / m;
        let rel = if j == 0.0 { 1e-12 } else { 1e-11 + 1e-15 / j.abs().max(1e-5) + left * 1e-15 };
        let df = (-left * j.ln_1p()).exp();
        let ann = if j == 0.0 { left } else { -(-left * j.ln_1p()).exp_m1() / j };
        let what = format!("pv_annuity with {key}");
        let got = cx.run(&what, || pv_annuity(r, n, m, p, end))?;
        cx.near(&what, got, value, rel * (p.abs() * ann + end.abs() * df) + 1e-12 * p.abs())?;
        let o = field(s, "odd");
        if int(field(o, "num")) > 0 && string(field(s, "op")) == "Sign" {
            let left = int(field(o, "num")) as f64 / int(field(o, "den")) as f64;
            let (n, value) = (left / m, real(field(o, "value")));
            let df = (-left * j.ln_1p()).exp();
            let ann = -(-left * j.ln_1p()).exp_m1() / j;
            let what = format!("pv_annuity with r={r} n={n} m={m} (payments: {left}) pmt={p} fv={end}");
            let got = cx.run(&what, || pv_annuity(r, n, m, p, end))?;
            cx.near(&what, got, value, rel * (p.abs() * ann + end.abs() * df) + 1e-12 * p.abs())?;
            let what = format!("pmt with r={r} n={n} m={m} (payments: {left}) pv={value} fv={end}");
            let got = cx.run(&what, || pmt(r, n, m, value, end))?;
            cx.near(&what, got, p, 2.0 * rel * (p.abs() + (value.abs() + end.abs() * df) / ann))?;
        }
        let fund = real(field(s, "fund"));
        if fund != 0.0 {
            let what = format!("pmt with r={r} n={n} m={m} (payments: {left}) pv=0 fv={end}");
            let got = cx.run(&what, || pmt(r, n, m, 0.0, end))?;
            cx.near(&what, got, fund, 2.0 * rel * (fund.abs() + end.abs() * df / ann))?;
        }
        if left > 0.0 {
            let what = format!("pmt with r={r} n={n} m={m} (payments: {left}) pv={value} fv={end}");
            let got = cx.run(&what, || pmt(r, n, m, value, end))?;
            cx.near(&what, got, p, 2.0 * rel * (p.abs() + (value.abs() + end.abs() * df) / ann))?;
        }
    }
    Ok(())
}

/// spec/flows.qnt: net present values of a schedule.
pub fn replay_flows(trace: &Value, cx: &mut Ctx) -> Res {
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let r = given(field(s, "rate"));
        let t0 = int(field(s, "time0")) as f64 / 360.0;
        let d0 = date(field(s, "ref"));
        let flow = list(field(s, "flow"));
        let tim: Vec<f64> = flow.iter().map(|f| int(field(f, "t")) as f64 / 360.0 + int(field(f, "q")) as f64 / 36e6).collect();
        let dt: Vec<_> = flow.iter().map(|f| date(field(f, "d"))).collect();
        let cf: Vec<f64> = flow.iter().map(|f| given(field(f, "c"))).collect();
        let key = format!("{} flows, r={r}, t0={t0}, d0={d0}, times {:?}, dates {:?}, amounts {:?}", cf.len(),
            &tim[..tim.len().min(12)], &dt[..dt.len().min(12)], &cf[..cf.len().min(12)]);
        cx.op(string(field(s, "op")), &key);
        let g = field(s, "gross");
        for (name, want, gross, got) in [
            ("npv_t0", "npv", "t", cx.run(&key, || npv_t0(r, &tim, &cf))?),
            ("npv", "npvAt", "at", cx.run(&key, || npv(r, &tim, t0, &cf))?),
            ("xnpv", "xnpv", "x", cx.run(&key, || xnpv(r, &dt, d0, &cf))?),
        ] {
            let tol = 1e-11 * real(field(g, gross));
            cx.near(&format!("{name} of {key}"), got, real(field(s, want)), tol)?;
        }
    }
    Ok(())
}

/// spec/irr.qnt: internal rates of return of schedules made for known ones.
pub fn replay_irr(trace: &Value, cx: &mut Ctx) -> Res {
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let flow = list(field(s, "flow"));
        let tim: Vec<f64> = flow.iter().map(|f| int(field(f, "t")) as f64 / 360.0).collect();
        let dt: Vec<_> = flow.iter().map(|f| date(field(f, "d"))).collect();
        let cf: Vec<f64> = flow.iter().map(|f| real(field(f, "c"))).collect();
        let rates: Vec<f64> = list(field(s, "rates")).iter().map(real).collect();
        let must = boolean(field(s, "found"));
        let key = format!("{} flows, times {:?}, dates {:?}, amounts {:?}", cf.len(),
            &tim[..tim.len().min(12)], &dt[..dt.len().min(12)], &cf[..cf.len().min(12)]);
        cx.op(string(field(s, "op")), &key);
        let mut got = vec![("irr", cx.run(&format!("irr of {key}"), || irr(&tim, &cf))?)];
        if boolean(field(s, "dated")) {
            got.push(("xirr", cx.run(&format!("xirr of {key}"), || xirr(&dt, &cf))?));
        }
        for (name, x) in got {
            match x {
                None => cx.must(&format!("{name} of {key}: no rate, but {rates:?} is one to be found"), !must)?,
                Some(x) => cx.must(
                    &format!("{name} of {key}: {x:?}, the rates of return are {rates:?}"),
                    // a rate at or below -100 % is none
                    rates.iter().any(|r| (r - x).abs() <= 1e-7),
                )?,
            }
        }
    }
    Ok(())
}

/// spec/solver.qnt: the root finder on functions with known roots.
pub fn replay_solver(trace: &Value, cx: &mut Ctx) -> Res {
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let outcome = string(field(s, "outcome"));
        if outcome.is_empty() {
            continue;
        }
        let g = field(s, "fun");
        let shape = string(field(g, "shape")).to_string();
        let p: Vec<f64> = list(field(g, "p")).iter().map(real).collect();
        let scale = real(field(g, "scale"));
        let x0 = real(field(s, "x0"));
        let roots: Vec<f64> = list(field(s, "roots")).iter().map(real).collect();
        let sure = boolean(field(s, "sure"));
        let xtol = 10f64.powi(-(int(field(s, "tol")) as i32));
        let key = format!("{shape} {p:?} times {scale} from {x0} (xtol {xtol})");
        cx.op(&format!("{shape}/{outcome}"), &key);
        let f = |x: f64| {
            scale
                * match shape.as_str() {
                    "poly" => p.iter().map(|r| x - r).product::<f64>(),
                    "exp" => (x - p[0]).exp() - 1.0,
                    "expup" => x.exp() + p[0],
                    "recip" => 1.0 / x - p[0],
                    "bowl" => x * x + p[0],
                    "const" => p[0],
                    "log" => x.ln() - p[0],
                    "rootup" => x.sqrt() + p[0],
                    "cycle" => p[0] * ((x / p[0]).powi(3) - 2.0 * x / p[0] + 2.0),
                    _ => tool_error(&format!("solver: unknown function {shape}")),
                }
        };
        let what = format!("newt_raph on {key}");
        let got = cx.run(&what, || newt_raph(f, x0, xtol))?;
        let n = int(field(s, "count"));
        if let Some(x) = got {
            let ok = roots.iter().any(|r| (r - x).abs() <= 1e-6);
            cx.must(&format!("{what}: {x} is given for a root, the roots are {roots:?}"), ok)?;
        }
        if sure && outcome == "Root" {
            let want = real(field(s, "x"));
            let Some(x) = got else {
                return cx.fail(format!("{what}: no root found, {want} is reached after {n} corrections"));
            };
            cx.near(&what, x, want, 1e-6)?;
        } else if sure {
            let why = format!("{what}: {got:?} where the specification ends with {outcome} after {n} corrections");
            cx.must(&why, got.is_none())?;
        }
    }
    Ok(())
}
