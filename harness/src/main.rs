//! Replays behaviours of the specification on the contracts.
//!   harness pack GENESIS.itf.json TRACE.itf.json...   traces written by quint, as one line each
//!   harness replay GENESIS.itf.json < PACKED          one JSON line per trace on stdout
mod agg;
mod alloc;
mod codec;
mod itf;
mod mathvec;
mod mocks;
mod world;
use itf::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::BufRead;
use world::*;

#[global_allocator]
static A: alloc::Pool = alloc::Pool;

const INPUTS: [&str; 4] = ["now", "safe", "pairs", "ls"];

fn state_of(v: &Value) -> Flat {
    let mut f = Flat::new();
    flatten(v, "", &mut f);
    f.retain(|k, _| !INPUTS.iter().any(|p| k == p || k.starts_with(&format!("{p}[")) ));
    f
}
/// (path, specification, implementation) for every entry that differs
pub fn diff(spec: &Flat, imp: &Flat) -> Vec<Value> {
    let mut l = vec![];
    for (k, v) in spec {
        if imp.get(k) != Some(v) {
            l.push(json!([k, v, imp.get(k)]));
        }
    }
    for (k, v) in imp {
        if !spec.contains_key(k) {
            l.push(json!([k, Value::Null, v]));
        }
    }
    l
}
fn dump(f: &Flat) -> Value {
    Value::Object(f.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<Map<_, _>>())
}

/// What changed from `a` to `b`.
fn delta(a: &Flat, b: &Flat) -> Value {
    let mut m = Map::new();
    for (k, v) in b {
        if a.get(k) != Some(v) {
            m.insert(k.clone(), json!(v));
        }
    }
    for k in a.keys() {
        if !b.contains_key(k) {
            m.insert(k.clone(), Value::Null);
        }
    }
    Value::Object(m)
}
/// Applies the changes of a step; what they replaced.
fn apply(f: &mut Flat, d: &Value) -> Vec<(String, Option<String>)> {
    let mut undo = vec![];
    for (k, v) in d.as_object().unwrap() {
        let old = match v.as_str() {
            Some(x) => f.insert(k.clone(), x.to_string()),
            None => f.remove(k),
        };
        undo.push((k.clone(), old));
    }
    undo
}
fn undone(f: &Flat, undo: &[(String, Option<String>)]) -> Flat {
    let mut g = f.clone();
    for (k, v) in undo {
        match v {
            Some(x) => g.insert(k.clone(), x.clone()),
            None => g.remove(k),
        };
    }
    g
}
/// `diff` when only `keys` can differ.
fn diff_at(spec: &Flat, imp: &Flat, keys: &BTreeSet<String>) -> Vec<Value> {
    let pick = |f: &Flat| -> Flat { keys.iter().filter_map(|k| f.get(k).map(|v| (k.clone(), v.clone()))).collect() };
    if keys.iter().all(|k| spec.get(k) == imp.get(k)) {
        return vec![];
    }
    diff(&pick(spec), &pick(imp))
}
/// Family of a trace: the file name up to the first underscore.
fn family(path: &str) -> String {
    let name = path.rsplit('/').next().unwrap();
    name.split('_').next().unwrap().to_string()
}
fn pack(opened: &Flat, path: &str) -> Value {
    let t = load(path);
    let name = path.rsplit('/').next().unwrap().replace(".itf.json", "");
    let fam = family(path);
    if fam == "Agg" || fam == "Math" {
        return json!({ "trace": name, "fam": fam, "states": t["states"], "bad": bad_steps(&t["states"]) });
    }
    let states = t["states"].as_array().unwrap();
    let mut prev = opened.clone();
    let mut steps = vec![];
    for s in states {
        let cur = state_of(&s["s"]);
        let l = &s["last"];
        steps.push(json!({ "op": short_op(&l["op"]), "ok": l["ok"], "why": l["why"], "o": l["o"], "d": delta(&prev, &cur) }));
        prev = cur;
    }
    json!({ "trace": name, "fam": fam, "steps": steps, "bad": bad_steps(&t["states"]) })
}
/// Steps at which the specification itself names a violated property.
fn bad_steps(states: &Value) -> Value {
    let mut l = vec![];
    for (i, s) in states.as_array().unwrap().iter().enumerate() {
        if let Some(b) = s["last"]["bad"]["#set"].as_array() {
            if !b.is_empty() {
                l.push(json!([i, b, s["last"]["op"]]));
            }
        }
    }
    json!(l)
}

/// Differences between the specification's state and the projection of the contracts' state.
fn compare(w: &mut World, spec: &Flat, undo: &[(String, Option<String>)], full: bool) -> Vec<Value> {
    let mut keys = w.project();
    if full {
        return diff(spec, &w.flat);
    }
    keys.extend(undo.iter().map(|(k, _)| k.clone()));
    diff_at(spec, &w.flat, &keys)
}

fn replay(w: &mut World, opened: &Flat, t: &Value) -> Value {
    let steps = t["steps"].as_array().unwrap();
    w.restore();
    let mut spec = opened.clone();
    let mut divs: Vec<Value> = vec![];
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut why: BTreeMap<String, u64> = BTreeMap::new();
    let mut done = 0;
    let mut full = true; // the states were not known to agree before this step
    let mut lost = false; // a divergence: the rest of the behaviour (up to a reset) means nothing
    for (i, last) in steps.iter().enumerate() {
        let o = op(&last["op"]);
        let undo = apply(&mut spec, &last["d"]);
        if o.k == "reset" {
            w.restore();
            lost = false;
            full = true;
        }
        if o.k == "noop" && !undo.is_empty() {
            full = true;
        }
        if lost || o.k == "noop" || o.k == "reset" {
            continue;
        }
        let ok = last["ok"].as_bool().unwrap();
        *counts.entry(format!("{}:{}", o.k, if ok { "ok" } else { "fail" })).or_default() += 1;
        if !ok {
            *why.entry(last["why"].as_str().unwrap_or("").to_string()).or_default() += 1;
        }
        let push = |divs: &mut Vec<Value>, extra: Value| {
            let mut b = json!({ "step": i, "op": whole_op(&last["op"]), "ok": ok, "why": last["why"] });
            for (k, v) in extra.as_object().unwrap() {
                b[k] = v.clone();
            }
            divs.push(b);
        };
        done += 1;
        if o.k.starts_with("view") {
            let got = w.views(&o);
            let want = ints(&last["o"]);
            let same = match &got {
                Ok(v) => ok && *v == want,
                Err(_) => !ok,
            };
            if !same {
                let g = match got {
                    Ok(v) => json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
                    Err(e) => json!(e),
                };
                push(&mut divs, json!({ "kind": "view", "want": want.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "got": g }));
            }
            // a view never changes anything
            let d = compare(w, &spec, &undo, full);
            full = false;
            if !d.is_empty() {
                push(&mut divs, json!({ "kind": "state", "diff": d, "msg": "" }));
                lost = true;
            }
            continue;
        }
        let r = w.run(&o);
        let d = compare(w, &spec, &undo, full);
        full = false;
        if r.ok != ok || !d.is_empty() {
            let kind = if r.ok != ok { "result" } else { "state" };
            push(&mut divs, json!({ "kind": kind, "implOk": r.ok, "msg": r.msg, "diff": d,
                "before": dump(&undone(&spec, &undo)), "spec": dump(&spec), "impl": dump(&w.flat) }));
            lost = true;
        }
    }
    json!({ "trace": t["trace"], "fam": t["fam"], "steps": done, "len": steps.len(), "divs": divs, "counts": counts, "why": why })
}

/// Deploys the world and performs the opening transactions; None if that already diverges.
fn open(g: &Value) -> Option<(World, Flat)> {
    let s0 = &g["states"][0];
    let mut w = World::new();
    let mut gf = Flat::new();
    flatten(&s0["g"], "", &mut gf);
    let names = |k: &str| -> Vec<String> { list(&s0[k]).iter().map(st).collect() };
    let (markets, tokens) = (names("markets"), names("tokens"));
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.deploy_all(&gf, &markets, &tokens))) {
        let msg = e.downcast_ref::<String>().cloned().unwrap_or_default();
        let d = json!({ "step": 0, "kind": "result", "op": { "k": "deploy" }, "ok": true, "why": "", "implOk": false, "msg": msg, "diff": [] });
        println!("{}", json!({ "trace": "opening", "fam": "opening", "steps": 0, "len": 0, "divs": [d], "counts": {}, "why": {} }));
        return None;
    }
    // the deployment itself
    let mut divs = vec![];
    let want = state_of(&s0["s"]);
    w.project();
    let d = diff(&state_of(&s0["g"]), &w.flat);
    if !d.is_empty() {
        divs.push(json!({ "step": 0, "kind": "state", "op": { "k": "deploy" }, "ok": true, "why": "", "implOk": true, "msg": "", "diff": d }));
    }
    // the opening transactions, one by one
    let ops = list(&s0["ops"]);
    let mids: Vec<Flat> = list(&s0["mids"]).iter().map(state_of).collect();
    let mut before = state_of(&s0["g"]);
    for (i, o) in ops.iter().enumerate() {
        if !divs.is_empty() {
            break;
        }
        let r = w.run(&op(o));
        w.project();
        let d = diff(&mids[i], &w.flat);
        if !r.ok || !d.is_empty() {
            divs.push(json!({ "step": i, "kind": if r.ok { "state" } else { "result" }, "op": o, "ok": true, "why": "", "implOk": r.ok, "msg": r.msg,
                "diff": d, "before": dump(&before), "impl": dump(&w.flat), "spec": dump(&mids[i]) }));
        }
        before = mids[i].clone();
    }
    let n = ops.len();
    println!("{}", json!({ "trace": "opening", "fam": "opening", "steps": n, "len": n, "divs": divs, "counts": {}, "why": {} }));
    if !divs.is_empty() {
        return None;
    }
    w.save();
    Some((w, want))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        fail("usage: harness pack|replay GENESIS ...");
    }
    let g = load(&args[2]);
    if args[1] == "pack" {
        let opened = state_of(&g["states"][0]["s"]);
        for t in &args[3..] {
            println!("{}", pack(&opened, t));
        }
        return;
    }
    if std::env::var("SHOW").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut world: Option<Option<(World, Flat)>> = None;
    for line in std::io::stdin().lock().lines() {
        let t: Value = serde_json::from_str(&line.unwrap()).unwrap_or_else(|e| fail(&format!("packed trace: {e}")));
        match t["fam"].as_str().unwrap() {
            "Agg" => println!("{}", agg::replay(&t)),
            "Math" => println!("{}", mathvec::replay(&t)),
            _ => {
                if world.is_none() {
                    world = Some(open(&g));
                }
                if let Some(Some((w, opened))) = &mut world {
                    println!("{}", replay(w, opened, &t));
                }
            }
        }
    }
}
