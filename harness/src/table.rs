//! The tabular report: the text is taken apart and compared with the sections,
//! rows and cells the specification gives (spec/table.qnt).
use crate::calendar::date;
use crate::ctx::*;
use crate::itf::*;
use chrono::Datelike;
use financelib::statements::Accounts;
use serde_json::Value;

const TITLES: &[&str] = &[
    "BALANCE SHEETS", "PROFIT LOSS - ANNUAL", "CASH FLOW - ANNUAL", "PROFIT LOSS - QUARTERLY", "CASH FLOW - QUARTERLY",
];

struct Section {
    title: String,
    headers: Vec<Vec<String>>,
    rows: Vec<Vec<String>>,
}

fn parse(text: &str, sep: &str) -> (Vec<Vec<String>>, Vec<Section>) {
    let mut v: Vec<Section> = vec![];
    let mut units = vec![];
    for l in text.lines() {
        let cells: Vec<String> = l.split(sep).map(|c| c.trim().to_string()).collect();
        if l.trim().is_empty() {
            continue;
        }
        if cells[0] == "All values in multiples of" && v.is_empty() {
            units.push(cells);
            continue;
        }
        if cells.len() == 1 && TITLES.contains(&cells[0].as_str()) {
            v.push(Section { title: cells[0].clone(), headers: vec![], rows: vec![] });
        } else if let Some(s) = v.last_mut() {
            if matches!(cells[0].as_str(), "Date" | "Begin Date" | "End Date") {
                s.headers.push(cells);
            } else {
                s.rows.push(cells);
            }
        }
    }
    (units, v)
}

fn month(v: &Value) -> String {
    let d = date(v);
    format!("{}-{:02}", d.year(), d.month())
}

fn compare(cx: &mut Ctx, what: &str, cur: &str, text: &str, sep: &str, mult: f64, want: &Value, unit: f64) -> Res {
    let (units, got) = parse(text, sep);
    let said = match &units[..] {
        [u] if u.len() == 3 => Some((u[1].as_str(), u[2].parse::<f64>().unwrap_or(f64::NAN))),
        _ => None,
    };
    cx.must(
        &format!("{what}: one heading says that values are in multiples of {cur} {mult}, not {units:?}"),
        said.is_some_and(|(c, m)| c == cur && (m - mult).abs() <= 1e-9 * mult),
    )?;
    let titles: Vec<&str> = got.iter().map(|s| s.title.as_str()).collect();
    let wt: Vec<&str> = list(want).iter().map(|s| string(field(s, "title"))).collect();
    cx.eq(&format!("{what}: sections"), titles, wt)?;
    for (g, w) in got.iter().zip(list(want)) {
        let at = format!("{what}: {}", g.title);
        let spans = list(field(w, "spans"));
        let head = |name: &str, k: usize| -> Vec<String> {
            let mut h = vec![name.to_string()];
            h.extend(spans.iter().map(|p| month(&tup(p)[k])));
            h
        };
        let heads = if g.title == "BALANCE SHEETS" { vec![head("Date", 0)] } else { vec![head("Begin Date", 0), head("End Date", 1)] };
        cx.eq(&format!("{at}: column headings"), &g.headers, &heads)?;
        let rows = list(field(w, "rows"));
        let (gn, wn): (Vec<&str>, Vec<&str>) =
            (g.rows.iter().map(|r| r[0].as_str()).collect(), rows.iter().map(|r| string(field(r, "line"))).collect());
        cx.eq(&format!("{at}: lines"), gn, wn)?;
        for (gr, wr) in g.rows.iter().zip(rows) {
            let name = string(field(wr, "line"));
            let cells = list(field(wr, "cells"));
            cx.eq(&format!("{at}: number of columns of {name}"), gr.len() - 1, cells.len())?;
            let rate = matches!(name, "CorporateTaxRate" | "GrossProfitTaxRate" | "RevenueTaxRate");
            for (i, (gc, wc)) in gr[1..].iter().zip(cells).enumerate() {
                let at = format!("{at}: {name}, column {}", i + 1);
                let v = int(field(wc, "value")) as f64 * if rate { 1.0 / 256.0 } else { unit };
                let m = if rate { 1.0 } else { mult };
                match string(field(wc, "kind")) {
                    "blank" => cx.eq(&at, gc.as_str(), "")?,
                    "percent" => match gc.strip_suffix('%').and_then(|x| x.trim().parse::<f64>().ok()) {
                        Some(x) => cx.near(&at, x, v * 100.0, 0.05 + 1e-9)?,
                        None => return cx.fail(format!("{at}: is {gc:?}, the specification requires {}%", v * 100.0)),
                    },
                    _ => match gc.parse::<f64>() {
                        Ok(x) => cx.near(&at, x, v / m, 0.5 + 1e-9 * (v / m).abs())?,
                        Err(_) => return cx.fail(format!("{at}: is {gc:?}, the specification requires {}", v / m)),
                    },
                }
            }
        }
    }
    Ok(())
}

pub fn show(cx: &mut Ctx, a: &Accounts, cur: &str, want: &Value, unit: f64) -> Res {
    for (sep, mult) in [("|", 1.0), (",", 1000.0), (";", 1e6), (" :: ", 1.0), ("\t", 100.0)] {
        let t = cx.run("format_table", || a.format_table(sep, mult))?;
        compare(cx, &format!("table with separator {sep:?} in multiples of {mult}"), cur, &t, sep, mult, want, unit)?;
    }
    // the file lies in a scratch folder of this process
    let dir = std::env::temp_dir().join(format!("conform-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| tool_error(&format!("{dir:?}: {e}")));
    let file = dir.join("table.csv");
    // an older, longer file must not shine through
    std::fs::write(&file, "old\n".repeat(100_000)).unwrap_or_else(|e| tool_error(&format!("{file:?}: {e}")));
    let r = cx.call(|| a.to_csv(file.to_str().unwrap()));
    let text = std::fs::read_to_string(&file);
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = r {
        return cx.fail(format!("to_csv panicked: {e}"));
    }
    match text {
        Ok(t) => compare(cx, "CSV file", cur, &t, ",", 1.0, want, unit),
        Err(e) => cx.fail(format!("to_csv left no file: {e}")),
    }
}

/// printed for people, in multiples of 1000^power
pub fn print(cx: &mut Ctx, a: &Accounts, cur: &str, power: i128, want: &Value, unit: f64) -> Res {
    let t = cx.run("printing", || format!("{a}"))?;
    compare(cx, "printed accounts", cur, &t, "|", 1000f64.powi(power as i32), want, unit)
}
