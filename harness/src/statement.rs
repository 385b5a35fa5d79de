//! spec/statement.qnt: one statement as a map from lines to amounts.
use crate::ctx::*;
use crate::itf::*;
use crate::lines::Line;
use financelib::statements::*;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    let states = list(field(trace, "states"));
    match string(field(&states[0], "kind")) {
        "BS" => go::<BsType>(states, cx, Some(bs_post)),
        "PL" => go::<PlType>(states, cx, None),
        "CF" => go::<CfType>(states, cx, None),
        k => tool_error(&format!("unknown kind {k}")),
    }
}

type Post = fn(&mut BsMap, &str, &[(BsType, BsType, f64)]);

fn bs_post(m: &mut BsMap, name: &str, l: &[(BsType, BsType, f64)]) {
    match name {
        "Debit" => {
            m.debit(l[0].0, l[0].2);
        }
        "Credit" => {
            m.credit(l[0].0, l[0].2);
        }
        "Transact" => {
            m.transact(l[0]);
        }
        "Series" => {
            m.transact_series(l.to_vec());
        }
        _ => unreachable!(),
    }
}

/// Amounts compare as numbers (an absent line is zero).
pub fn same_amounts<T: Line>(
    cx: &mut Ctx,
    what: &str,
    got: &HashMap<T, f64>,
    want: &BTreeMap<String, i128>,
    unit: f64,
) -> Res {
    for (n, t) in T::ALL {
        let w = *want.get(*n).unwrap_or(&0) as f64 * unit;
        let g = *got.get(t).unwrap_or(&0.0);
        cx.checks += 1;
        if g != w {
            return cx.fail(format!(
                "{what}: line {n} is {g:?}, the specification requires {w:?}"
            ));
        }
    }
    Ok(())
}

/// The lines present are exactly those of the specification (among `among`).
pub fn same_presence<T: Line>(
    cx: &mut Ctx,
    what: &str,
    got: &HashMap<T, f64>,
    want: &BTreeMap<String, i128>,
    among: impl Fn(T) -> bool,
) -> Res {
    for (n, t) in T::ALL {
        if among(*t) && got.contains_key(t) != want.contains_key(*n) {
            return cx.fail(format!(
                "{what}: line {n} is {}, the specification requires it {}",
                if got.contains_key(t) { "present" } else { "absent" },
                if want.contains_key(*n) { "present" } else { "absent" }
            ));
        }
        cx.checks += 1;
    }
    Ok(())
}

/// Every line `among` is as it was, present or absent.
pub fn same_frame<T: Line>(
    cx: &mut Ctx,
    what: &str,
    got: &HashMap<T, f64>,
    was: &HashMap<T, f64>,
    among: impl Fn(&str, T) -> bool,
) -> Res {
    for (n, t) in T::ALL {
        if among(n, *t) {
            cx.eq(&format!("{what}: line {n}, which nothing was said about"), got.get(t), was.get(t))?;
        }
    }
    Ok(())
}

/// The operations a property speaks about. The others make up the history that
/// leads there: they run in the code too, but a disagreement in one of them is
/// another property's business, and the statement goes on as specified.
fn owns(prop: &str, name: &str) -> bool {
    match prop {
        "C01" => name == "Recalc",
        "C02" => matches!(name, "Add" | "Upsert" | "AddVec" | "UpsertVec"),
        "C03" => matches!(name, "Debit" | "Credit" | "Transact" | "Series"),
        "C08" => matches!(name, "Clean" | "RemoveCalc"),
        "C09" => name == "CommonSize",
        p => tool_error(&format!("statement: unknown property {p}")),
    }
}

fn go<T: Line + FinType>(states: &[Value], cx: &mut Ctx, post: Option<Post>) -> Res
where
    HashMap<T, f64>: FinMaps<Key = T>,
{
    let unit = 2f64.powi(int(field(&states[0], "scale")) as i32);
    let amt = |v: &Value| int(v) as f64 * unit;
    let mut m: HashMap<T, f64> = HashMap::new();
    for (i, s) in states.iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let op = field(s, "op");
        let want = str_int_map(field(s, "st"));
        let (name, line) = (string(field(op, "name")), string(field(op, "line")));
        let refused = boolean(field(op, "refused"));
        let what = format!("after {} {}", name, line);
        let own = owns(&cx.prop, name);
        if name != "Load" {
            cx.op(name, &format!("{op} {}", states[i - 1]["st"]));
        }
        let was = m.clone();
        let r = match name {
            "Load" => {
                m = want
                    .iter()
                    .map(|(k, v)| (T::by_name(k), *v as f64 * unit))
                    .collect();
                Ok(())
            }
            "Stale" => {
                m.insert(T::by_name(line), amt(field(op, "amount")));
                Ok(())
            }
            "Add" => {
                let (k, v) = (T::by_name(line), amt(field(op, "amount")));
                cx.call(|| {
                    m.add(k, v);
                })
            }
            "Upsert" => {
                let (k, v) = (T::by_name(line), amt(field(op, "amount")));
                cx.call(|| {
                    m.upsert(k, v);
                })
            }
            "AddVec" | "UpsertVec" => {
                let l: Vec<(T, f64)> = list(field(op, "items"))
                    .iter()
                    .map(|e| (T::by_name(string(&tup(e)[0])), amt(&tup(e)[1])))
                    .collect();
                cx.call(|| {
                    if name == "AddVec" {
                        m.add_vec(&l);
                    } else {
                        m.upsert_vec(&l);
                    }
                })
            }
            "Recalc" => cx.call(|| {
                m.calc_elements();
            }),
            "Clean" => cx.call(|| {
                m.clean();
            }),
            "RemoveCalc" => cx.call(|| {
                m.remove_calc_clean();
            }),
            "CommonSize" if !own => Ok(()),
            "CommonSize" => {
                let c = cx.run("common_size", || m.common_size())?;
                let base = want[line] as f64;
                for (n, t) in T::ALL {
                    cx.eq(
                        &format!("common size: presence of {n}"),
                        c.contains_key(t),
                        was.contains_key(t),
                    )?;
                    if let (Some(g), Some(w)) = (c.get(t), want.get(*n)) {
                        let w = *w as f64 / base;
                        cx.near(&format!("common size of {n}"), *g, w, 1e-13 * w.abs())?;
                    }
                }
                cx.eq("lines of the common size statement", c.len(), was.len())?;
                Ok(())
            }
            "Debit" | "Credit" | "Transact" | "Series" => {
                let p: Vec<(BsType, BsType, f64)> = if name == "Series" {
                    list(field(op, "posts"))
                        .iter()
                        .map(|e| {
                            let e = tup(e);
                            (
                                BsType::by_name(string(&e[0])),
                                BsType::by_name(string(&e[1])),
                                amt(&e[2]),
                            )
                        })
                        .collect()
                } else {
                    let d = BsType::by_name(line);
                    let c = match string(field(op, "other")) {
                        "" => d,
                        c => BsType::by_name(c),
                    };
                    vec![(d, c, amt(field(op, "amount")))]
                };
                let post = post.unwrap_or_else(|| tool_error("posting on another statement"));
                // T is BsType here; go through the named map to stay in safe code
                let mut b: BsMap = m
                    .iter()
                    .map(|(k, v)| (BsType::by_name(&k.name()), *v))
                    .collect();
                let r = cx.call(|| post(&mut b, name, &p));
                m = b.iter().map(|(k, v)| (T::by_name(&k.name()), *v)).collect();
                r
            }
            n => tool_error(&format!("unknown operation {n}")),
        };
        if name == "Load" && cx.prop == "C02" {
            for (n, t) in T::ALL {
                let w = *want.get(*n).unwrap_or(&0) as f64 * unit;
                let g = cx.run("value", || m.value(*t))?;
                cx.eq(&format!("value of {n} in the statement as given"), g, w)?;
            }
        }
        if !own {
            let spec: HashMap<T, f64> = want
                .iter()
                .map(|(k, v)| (T::by_name(k), *v as f64 * unit))
                .collect();
            if r.is_err() != refused || m != spec {
                cx.foreign += 1;
                m = spec;
            }
            continue;
        }
        cx.checks += 1;
        match (r, refused) {
            (Ok(()), false) => {}
            (Err(_), true) => {
                // a refused single edit leaves the statement as it was; of a refused
                // batch or transaction only the refusal itself is specified
                if name == "Add" || name == "Upsert" || name == "Debit" || name == "Credit" {
                    cx.eq(&format!("{what} (refused)"), &m, &was)?;
                }
                m = want
                    .iter()
                    .map(|(k, v)| (T::by_name(k), *v as f64 * unit))
                    .collect();
            }
            (Ok(()), true) => return cx.fail(format!("{name} on the derived line {line} was accepted")),
            (Err(e), false) => return cx.fail(format!("{name} {line} panicked: {e}")),
        }
        same_amounts(cx, &what, &m, &want, unit)?;
        match name {
            "Recalc" => same_presence(cx, &what, &m, &want, |t: T| t.is_calc())?,
            "Clean" | "RemoveCalc" => same_presence(cx, &what, &m, &want, |_| true)?,
            _ => {}
        }
        // nothing else has moved, come or gone
        if !refused && name != "CommonSize" && name != "Clean" && name != "RemoveCalc" {
            let mut named: Vec<&str> = vec![line, string(field(op, "other"))];
            for e in list(field(op, "items")) {
                named.push(string(&tup(e)[0]));
            }
            for e in list(field(op, "posts")) {
                named.push(string(&tup(e)[0]));
                named.push(string(&tup(e)[1]));
            }
            same_frame(cx, &what, &m, &was, |n, t: T| {
                !named.contains(&n) && (name != "Recalc" || !t.is_calc())
            })?;
        }
        // reading back through the API
        if cx.prop == "C02" {
            for (n, t) in T::ALL {
                let w = *want.get(*n).unwrap_or(&0) as f64 * unit;
                let g = cx.run("value", || m.value(*t))?;
                cx.eq(&format!("value of {n} {what}"), g, w)?;
            }
        }
        // the balance check itself, as a user would read it
        if cx.prop == "C03" && !refused && name != "Recalc" && name != "Load" {
            let imbalance = |m: &HashMap<T, f64>| -> f64 {
                let mut c = m.clone();
                c.calc_elements();
                c.value(T::by_name("Assets")) - c.value(T::by_name("Liabilities"))
                    - c.value(T::by_name("Equity"))
            };
            if name == "Transact" || name == "Series" {
                // totals below the threshold are dropped: at most 7 of them on the way
                let (a, b) = (imbalance(&was), imbalance(&m));
                cx.near(&format!("imbalance {what}"), b, a, 3e-4)?;
            }
        }
    }
    Ok(())
}
