//! spec/curves.qnt, spec/parspot.qnt, spec/forwards.qnt: rate curves.
use crate::ctx::*;
use crate::itf::*;
use crate::tvm::real;
use financelib::fixedincomes::bonds::rates::*;
use serde_json::Value;

pub fn reals(v: &Value) -> Vec<f64> {
    list(v).iter().map(real).collect()
}
pub fn curve(kind: &str, rate: Vec<f64>, freq: f64) -> RateCurve {
    match kind {
        "nom" => RateCurve::NominalRateCurve { rate, freq },
        "eff" => RateCurve::EffectiveRateCurve { rate, freq },
        "con" => RateCurve::ExponentialRateCurve { rate, freq },
        _ => tool_error(&format!("unknown kind of curve {kind}")),
    }
}
fn parts(c: &RateCurve) -> (&'static str, &Vec<f64>, f64) {
    match c {
        RateCurve::NominalRateCurve { rate, freq } => ("nom", rate, *freq),
        RateCurve::EffectiveRateCurve { rate, freq } => ("eff", rate, *freq),
        RateCurve::ExponentialRateCurve { rate, freq } => ("con", rate, *freq),
    }
}
fn wrap(kind: &str, rate: RateCurve) -> Rates {
    match kind {
        "spot" => Rates::SpotRates { rate },
        "par" => Rates::ParRates { rate },
        "forward" => Rates::ForwardRates { rate },
        _ => tool_error(&format!("unknown kind of rates {kind}")),
    }
}
fn few(v: &[f64]) -> String {
    if v.len() > 14 { format!("{:?}... ({})", &v[..14], v.len()) } else { format!("{v:?}") }
}
fn same_points(cx: &mut Ctx, what: &str, got: &[f64], want: &[f64], tol: f64) -> Res {
    cx.eq(&format!("{what}: number of points"), got.len(), want.len())?;
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        cx.near(&format!("{what}: point {}", i + 1), *g, *w, tol)?;
    }
    Ok(())
}

pub fn replay_curves(trace: &Value, cx: &mut Ctx) -> Res {
    let mut held: Option<RateCurve> = None; // carried through the conversions
    let mut since = 0;
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let (op, kind) = (string(field(s, "op")), string(field(s, "kind")));
        let f = ratio(field(s, "freq"));
        let pts = reals(field(s, "pts"));
        let key = format!("{kind} curve, freq {f}, {}", few(&pts));
        let exact = curve(kind, pts.clone(), f);
        let convert = |c: &RateCurve| match kind {
            "nom" => c.to_nominal(),
            "eff" => c.to_effective(),
            _ => c.to_exponential(),
        };
        let tol = 1e-14 * (f + 10.0) * (1.0 + pts.iter().fold(0.0, |a: f64, x| a.max(x.abs())));
        if op == "Fresh" {
            cx.op(op, &key);
            held = Some(exact.clone());
            since = 0;
        } else {
            cx.op(&format!("{op}->{kind}"), &key);
            if cx.prop == "C27" {
                let h = held.clone().unwrap();
                let before = format!("{h:?}");
                let what = format!("{} (after {since} conversions) to {kind}, freq {f}", parts(&h).0);
                let c = cx.run(&what, || convert(&h))?;
                let (k, p, fr) = parts(&c);
                cx.eq(&format!("{what}: kind"), k, kind)?;
                cx.eq(&format!("{what}: frequency"), fr, f)?;
                if op == "Same" {
                    cx.eq(&format!("{what}: already so, points"), p, parts(&h).1)?;
                }
                since += 1;
                same_points(cx, &what, p, &pts, tol * (2.0 + since as f64))?;
                cx.eq(&format!("{what}: the curve itself"), format!("{h:?}"), before)?;
                held = Some(c);
            }
        }
        if cx.prop == "C27" {
            // what a flow at a point is worth does not change
            let h = held.clone().unwrap();
            for q in list(field(s, "asks")) {
                let (num, den) = (int(field(q, "num")) as f64, int(field(q, "den")) as f64);
                if num % den == 0.0 {
                    let t = num / den / f;
                    let what = format!("value at time {t} on {key} after {since} conversions");
                    let got = cx.run(&what, || h.pv(1.0, t))?;
                    let want = real(field(q, "pv"));
                    cx.near(&what, got, want, 1e-10 * want)?;
                }
            }
            continue;
        }
        for q in list(field(s, "asks")) {
            let t = int(field(q, "num")) as f64 / (int(field(q, "den")) as f64 * f);
            let want = real(field(q, "r"));
            let what = format!("rate_estim({t}) on {key}");
            let got = cx.run(&what, || exact.rate_estim(t))?;
            cx.near(&what, got, want, 1e-12)?;
            let what = format!("pv(1, {t}) on {key}");
            let got = cx.run(&what, || exact.pv(1.0, t))?;
            let want_pv = real(field(q, "pv"));
            cx.near(&what, got, want_pv, 1e-11 * want_pv)?;
            let got = cx.run(&what, || exact.pv(-2500.0, t))?;
            cx.near(&what.replace("pv(1,", "pv(-2500,"), got, -2500.0 * want_pv, 2.5e-8 * want_pv)?;
            let w = string(field(s, "wrap"));
            let what = format!("rate_estim({t}) on {w} rates of {key}");
            let r = wrap(w, exact.clone());
            let got = cx.run(&what, || r.rate_estim(t))?;
            cx.near(&what, got, want, 1e-12)?;
        }
    }
    Ok(())
}

pub fn replay_parspot(trace: &Value, cx: &mut Ctx) -> Res {
    let mut held: Option<Rates> = None;
    let mut since = 0;
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let (op, now) = (string(field(s, "did")), string(field(s, "now")));
        let f = ratio(field(s, "every"));
        let want = reals(field(s, now));
        let df = reals(field(s, "df"));
        let least = df.iter().fold(1.0, |a: f64, x| a.min(*x));
        let tol = 4e-14 * (f + 10.0) / least;
        let key = format!("{now} rates, freq {f}, {}", few(&want));
        cx.op(op, &key);
        if op == "Fresh" {
            since = 0;
            held = Some(wrap(now, curve("nom", want.clone(), f)));
        } else {
            since += 1;
            let h = held.clone().unwrap();
            let what = format!("change number {since} to {now} rates, freq {f}, {}", few(&want));
            let r = cx.run(&what, || if now == "spot" { h.to_spot() } else { h.to_par() })?;
            let (k, c) = match &r {
                Rates::SpotRates { rate } => ("spot", rate),
                Rates::ParRates { rate } => ("par", rate),
                Rates::ForwardRates { rate } => ("forward", rate),
            };
            cx.eq(&format!("{what}: rates"), k, now)?;
            cx.eq(&format!("{what}: frequency"), parts(c).2, f)?;
            cx.eq(&format!("{what}: kind"), parts(c).0, "nom")?;
            same_points(cx, &what, parts(c).1, &want, tol * (1.0 + since as f64))?;
            held = Some(r);
        }
        // from the exact curve
        let other = if now == "spot" { "par" } else { "spot" };
        let r = wrap(now, curve("nom", want.clone(), f));
        let what = format!("{other} curve of {key}");
        let r = cx.run(&what, || if now == "spot" { r.to_par() } else { r.to_spot() })?;
        let (Rates::SpotRates { rate } | Rates::ParRates { rate } | Rates::ForwardRates { rate }) = &r;
        same_points(cx, &what, parts(rate).1, &reals(field(s, other)), tol)?;
    }
    Ok(())
}

pub fn replay_forwards(trace: &Value, cx: &mut Ctx) -> Res {
    let mut worth = 0.0;
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let op = string(field(s, "did"));
        let f = ratio(field(s, "every"));
        let rates = reals(field(s, "rates"));
        let ticks = |k: &str| {
            let p = tup(field(s, k));
            (int(&p[0]) * 1000 + int(&p[1])) as f64
        };
        let want = real(field(s, "worth"));
        if op == "Fresh" {
            worth = want;
            continue;
        }
        let spot = wrap("spot", curve("nom", rates.clone(), f));
        let (t0, t1, tf) = (ticks("from"), ticks("stop"), ticks("first"));
        for (name, a, k) in [("fwd", t0, "fwd"), ("direct", tf, "direct")] {
            let (t, tenor) = (a / (1000.0 * f), (t1 - a) / (1000.0 * f));
            let what = format!("forward_rate({t}, {tenor}) on spot rates, freq {f}, {}", few(&rates));
            cx.op(op, &what);
            let r = cx.run(&what, || spot.forward_rate(t, tenor))?;
            // rounding of the growth factors is felt the more the shorter the tenor
            let tol = 1e-13 * f * (2.0 + t1 / (t1 - a) + 1000.0 / (t1 - a));
            cx.near(&what, r, real(field(s, k)), tol)?;
            if name == "fwd" {
                worth *= (1.0 + r / f).powf(tenor * f);
            }
        }
        let what = format!("one unit moved along forward rates up to {} (freq {f}, {})", t1 / (1000.0 * f), few(&rates));
        cx.near(&what, worth, want, 1e-10 * want)?;
    }
    Ok(())
}
