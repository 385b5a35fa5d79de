//! Replays behaviours of the Quint specifications (ITF traces) in financelib and
//! compares the state of the real objects with the specification after every step.
//!
//! conform <module> <property> <summary.json> <trace or list of traces>...
//! exit 0: every trace conforms; exit 3: some trace does not; 2: error of the harness.
mod accounts;
mod bonds;
mod calendar;
mod cashflow;
mod ctx;
mod curves;
mod forecast;
mod itf;
mod lines;
mod money;
mod near;
mod periods;
mod saved;
mod statement;
mod table;
mod tvm;
mod views;

use ctx::*;
use serde_json::{Value, json};
use std::sync::{Arc, Mutex};

type Replay = fn(&Value, &mut Ctx) -> Res;

fn module(name: &str) -> Replay {
    match name {
        "statement" => statement::replay,
        "calendar" => calendar::replay,
        "accounts" => accounts::replay,
        "cashflow" => cashflow::replay,
        "saved" => saved::replay,
        "periods" => periods::replay,
        "tvm" => tvm::replay_tvm,
        "quotes" => tvm::replay_quotes,
        "loan" => tvm::replay_loan,
        "flows" => tvm::replay_flows,
        "irr" => tvm::replay_irr,
        "solver" => tvm::replay_solver,
        "bonds" => bonds::replay,
        "near" => near::replay,
        "views" => views::replay,
        "forecast" => forecast::replay,
        "money" => money::replay,
        "curves" => curves::replay_curves,
        "parspot" => curves::replay_parspot,
        "forwards" => curves::replay_forwards,
        _ => itf::tool_error(&format!("unknown module {name}")),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        itf::tool_error("usage: conform <module> <property> <summary.json> <trace>...");
    }
    let (replay, prop, out) = (module(&args[1]), args[2].clone(), args[3].clone());
    let mut files: Vec<String> = vec![];
    for a in &args[4..] {
        if std::path::Path::new(a).is_dir() {
            let Ok(d) = std::fs::read_dir(a) else { itf::tool_error(&format!("cannot read {a}")) };
            files.extend(d.filter_map(|e| Some(e.ok()?.path().to_str()?.to_string())));
        } else {
            files.push(a.clone());
        }
    }
    files.sort();
    std::panic::set_hook(Box::new(|_| {}));

    let hang = std::env::var("CONFORM_HANG_S")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(60);
    let n = std::env::var("CONFORM_THREADS")
        .ok()
        .and_then(|s| s.parse::<usize>().ok())
        .unwrap_or(8);
    let note = std::env::var("CONFORM_NOTE").ok(); // where to note the current trace
    let next = Arc::new(Mutex::new(0usize));
    let found: Arc<Mutex<Vec<(String, usize, String)>>> = Arc::new(Mutex::new(vec![]));
    let progress: Vec<Arc<Mutex<Progress>>> = (0..n)
        .map(|_| {
            Arc::new(Mutex::new(Progress {
                file: String::new(),
                state: 0,
                since: std::time::Instant::now(),
                busy: false,
            }))
        })
        .collect();
    {
        let (progress, out) = (progress.clone(), out.clone());
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                for p in &progress {
                    let p = p.lock().unwrap();
                    if p.busy && p.since.elapsed().as_secs() > hang {
                        let v = json!([{"file": p.file, "state": p.state,
                            "what": format!("the call did not return within {hang} s")}]);
                        std::fs::write(&out, json!({"violations": v, "hang": true}).to_string()).unwrap();
                        std::process::exit(3);
                    }
                }
            }
        });
    }
    let workers: Vec<_> = (0..n)
        .map(|i| {
            let (files, next, found, prog, prop, note) = (
                files.clone(),
                next.clone(),
                found.clone(),
                progress[i].clone(),
                prop.clone(),
                note.clone(),
            );
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut cx = Ctx {
                        prop,
                        checks: 0,
                        states: 0,
                        ops: Default::default(),
                        distinct: Default::default(),
                        sample: vec![],
                        foreign: 0,
                        state: 0,
                        progress: prog.clone(),
                    };
                    loop {
                        let k = {
                            let mut g = next.lock().unwrap();
                            *g += 1;
                            *g - 1
                        };
                        if k >= files.len() || found.lock().unwrap().len() > 20 {
                            break;
                        }
                        let f = &files[k];
                        prog.lock().unwrap().file = f.clone();
                        if let Some(n) = &note {
                            std::fs::write(n, f).unwrap();
                        }
                        let text = std::fs::read_to_string(f)
                            .unwrap_or_else(|e| itf::tool_error(&format!("{f}: {e}")));
                        let v: Value = serde_json::from_str(&text)
                            .unwrap_or_else(|e| itf::tool_error(&format!("{f}: {e}")));
                        cx.state = 0;
                        if let Err(e) = replay(&v, &mut cx) {
                            found.lock().unwrap().push((f.clone(), e.state, e.what));
                        }
                    }
                    cx
                })
                .unwrap()
        })
        .collect();
    let mut ops = std::collections::BTreeMap::<String, u64>::new();
    let (mut checks, mut states, mut foreign) = (0, 0, 0);
    let mut distinct = std::collections::HashSet::new();
    let mut sample = vec![];
    for w in workers {
        let Ok(c) = w.join() else {
            itf::tool_error("a replay thread of the harness failed")
        };
        checks += c.checks;
        states += c.states;
        foreign += c.foreign;
        for (k, v) in c.ops {
            *ops.entry(k).or_insert(0) += v;
        }
        distinct.extend(c.distinct);
        sample.extend(c.sample);
    }
    sample.truncate(6);
    let mut found = found.lock().unwrap().clone();
    found.sort();
    let viol: Vec<Value> = found
        .iter()
        .map(|(f, s, w)| json!({"file": f, "state": s, "what": w}))
        .collect();
    std::fs::write(
        &out,
        json!({"traces": files.len(), "states": states, "checks": checks, "ops": ops,
               "distinct": distinct.len(), "samples": sample, "foreign": foreign, "violations": viol})
        .to_string(),
    )
    .unwrap();
    std::process::exit(if viol.is_empty() { 0 } else { 3 });
}
