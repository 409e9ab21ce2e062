//! Reading the JSON traces that `quint run` writes (Informal Trace Format).
use num_bigint::BigInt;
use serde_json::Value;
use std::collections::BTreeMap;
use std::str::FromStr;

pub type Flat = BTreeMap<String, String>;

#[derive(Clone, Debug, Default)]
pub struct Pay {
    pub t: String,
    pub x: BigInt,
}

/// One transaction or environment event of the specification (type `Op`).
#[derive(Clone, Debug, Default)]
pub struct Op {
    pub k: String,
    pub u: String,
    pub n: u64,
    pub nft: bool,
    pub p: Vec<Pay>,
    pub l: Vec<Pay>,
    pub a: String,
    pub b: String,
    pub x: BigInt,
    pub y: BigInt,
    pub f: bool,
    pub m: String,
    pub s1: Vec<Pay>,
    pub s2: Vec<Pay>,
    pub xs: Vec<BigInt>,
    pub re: String,
}

pub fn load(path: &str) -> Value {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| fail(&format!("{path}: {e}")));
    serde_json::from_str(&text).unwrap_or_else(|e| fail(&format!("{path}: {e}")))
}

pub fn fail(msg: &str) -> ! {
    eprintln!("harness error: {msg}");
    std::process::exit(2)
}

pub fn int(v: &Value) -> BigInt {
    if let Some(i) = v.as_i64() {
        return BigInt::from(i);
    }
    let s = v["#bigint"].as_str().unwrap_or_else(|| fail(&format!("integer expected: {v}")));
    BigInt::from_str(s).unwrap()
}

pub fn st(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| fail(&format!("string expected: {v}"))).to_string()
}

pub fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_else(|| fail(&format!("list expected: {v}")))
}

pub fn set(v: &Value) -> Vec<Value> {
    list(&v["#set"])
}

pub fn map(v: &Value) -> Vec<(Value, Value)> {
    v["#map"]
        .as_array()
        .unwrap_or_else(|| fail(&format!("map expected: {v}")))
        .iter()
        .map(|e| (e[0].clone(), e[1].clone()))
        .collect()
}

fn pays(v: &Value) -> Vec<Pay> {
    if v.is_null() {
        return vec![];
    }
    v.as_array().unwrap_or_else(|| fail("payments expected")).iter().map(|q| Pay { t: st(&q["t"]), x: int(&q["x"]) }).collect()
}

pub fn ints(v: &Value) -> Vec<BigInt> {
    if v.is_null() {
        return vec![];
    }
    v.as_array().unwrap_or_else(|| fail("integers expected")).iter().map(int).collect()
}

/// Fields of an operation that have their default value are left out of packed behaviours.
fn defaults() -> serde_json::Map<String, Value> {
    let d = serde_json::json!({ "k": "", "u": "", "n": 0, "nft": false, "p": [], "l": [], "a": "", "b": "", "x": 0, "y": 0,
        "f": false, "m": "", "s1": [], "s2": [], "xs": [], "re": "" });
    d.as_object().unwrap().clone()
}
pub fn short_op(v: &Value) -> Value {
    let d = defaults();
    let zero = |x: &Value| x["#bigint"] == "0";
    let keep = v.as_object().unwrap().iter().filter(|(k, x)| d.get(*k).is_some_and(|y| y != *x && !(y == 0 && zero(x))));
    Value::Object(keep.map(|(k, x)| (k.clone(), x.clone())).collect())
}
pub fn whole_op(v: &Value) -> Value {
    let mut m = defaults();
    m.extend(v.as_object().unwrap().iter().map(|(k, x)| (k.clone(), x.clone())));
    Value::Object(m)
}

pub fn op(v: &Value) -> Op {
    let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
    let b = |k: &str| v[k].as_bool().unwrap_or(false);
    let n = |k: &str| if v[k].is_null() { BigInt::from(0) } else { int(&v[k]) };
    Op {
        k: s("k"),
        u: s("u"),
        n: n("n").to_string().parse().unwrap_or(0),
        nft: b("nft"),
        p: pays(&v["p"]),
        l: pays(&v["l"]),
        a: s("a"),
        b: s("b"),
        x: n("x"),
        y: n("y"),
        f: b("f"),
        m: s("m"),
        s1: pays(&v["s1"]),
        s2: pays(&v["s2"]),
        xs: ints(&v["xs"]),
        re: s("re"),
    }
}

/// Path of every leaf of a value: records as `.field`, maps as `[key]`.
pub fn flatten(v: &Value, path: &str, out: &mut Flat) {
    if let Some(b) = v.as_bool() {
        out.insert(path.into(), b.to_string());
    } else if v.is_number() {
        out.insert(path.into(), v.to_string());
    } else if let Some(s) = v.as_str() {
        out.insert(path.into(), s.to_string());
    } else if let Some(s) = v["#bigint"].as_str() {
        out.insert(path.into(), s.to_string());
    } else if v.get("#map").is_some() {
        for (k, w) in map(v) {
            let name = match k.as_str() {
                Some(s) => s.to_string(),
                None => int(&k).to_string(),
            };
            flatten(&w, &format!("{path}[{name}]"), out);
        }
    } else if let Some(l) = v.as_array() {
        for (i, w) in l.iter().enumerate() {
            flatten(w, &format!("{path}[{i}]"), out);
        }
    } else if let Some(o) = v.as_object() {
        for (k, w) in o {
            if k.starts_with('#') {
                continue;
            }
            let p = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
            flatten(w, &p, out);
        }
    }
}
