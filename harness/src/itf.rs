//! Reading values out of the ITF JSON that `quint run --out-itf` writes.
use serde_json::Value;
use std::collections::BTreeMap;

pub fn field<'a>(v: &'a Value, k: &str) -> &'a Value {
    let r = &v[k];
    if r.is_null() {
        tool_error(&format!("ITF: no field {k} in {v}"));
    }
    r
}
pub fn tool_error(msg: &str) -> ! {
    eprintln!("conform: {msg}");
    std::process::exit(2)
}
/// An integer as decimal digits (they may exceed 128 bits).
pub fn digits(v: &Value) -> String {
    if let Some(s) = v["#bigint"].as_str() {
        s.to_string()
    } else if let Some(i) = v.as_i64() {
        i.to_string()
    } else {
        tool_error(&format!("ITF: not an integer: {v}"))
    }
}
pub fn int(v: &Value) -> i128 {
    digits(v)
        .parse()
        .unwrap_or_else(|_| tool_error(&format!("ITF: integer out of range: {v}")))
}
/// An integer that counts units of 10^-places, as the nearest f64.
pub fn dec(v: &Value, places: u32) -> f64 {
    format!("{}e-{}", digits(v), places)
        .parse()
        .unwrap_or_else(|_| tool_error("ITF: bad decimal"))
}
/// a/b
pub fn ratio(v: &Value) -> f64 {
    let p = tup(v);
    int(&p[0]) as f64 / int(&p[1]) as f64
}
pub fn string(v: &Value) -> &str {
    v.as_str()
        .unwrap_or_else(|| tool_error(&format!("ITF: not a string: {v}")))
}
pub fn boolean(v: &Value) -> bool {
    v.as_bool()
        .unwrap_or_else(|| tool_error(&format!("ITF: not a boolean: {v}")))
}
pub fn list(v: &Value) -> &Vec<Value> {
    v.as_array()
        .unwrap_or_else(|| tool_error(&format!("ITF: not a list: {v}")))
}
pub fn tup(v: &Value) -> &Vec<Value> {
    list(&v["#tup"])
}
pub fn set(v: &Value) -> &Vec<Value> {
    list(&v["#set"])
}
pub fn pairs(v: &Value) -> Vec<(&Value, &Value)> {
    list(&v["#map"])
        .iter()
        .map(|p| {
            let p = list(p);
            (&p[0], &p[1])
        })
        .collect()
}
pub fn str_int_map(v: &Value) -> BTreeMap<String, i128> {
    pairs(v)
        .into_iter()
        .map(|(k, x)| (string(k).to_string(), int(x)))
        .collect()
}
