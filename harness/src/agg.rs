//! Replays behaviours of spec/aggregator.qnt on the price aggregator contract.
use crate::codec::*;
use crate::itf::*;
use crate::world::*;
use num_bigint::BigInt;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const WHO: [&str; 9] = ["owner", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "mallory"];

fn split(pair: &str) -> (Vec<u8>, Vec<u8>) {
    let (a, b) = pair.split_once('-').unwrap_or_else(|| fail("pair"));
    (a.as_bytes().to_vec(), b.as_bytes().to_vec())
}
fn nested_pair(pair: &str) -> Vec<u8> {
    let (a, b) = split(pair);
    [nest_bytes(&a), nest_bytes(&b)].concat()
}

fn read_pair(r: &mut Rd) -> String {
    let a = String::from_utf8_lossy(r.bytes()).to_string();
    let b = String::from_utf8_lossy(r.bytes()).to_string();
    format!("{a}-{b}")
}

fn project(w: &World) -> Flat {
    let mut f = Flat::new();
    let uint = |b: &[u8]| num_bigint::BigUint::from_bytes_be(b).to_string();
    f.insert("paused".into(), (w.slot("agg", b"pause_module:paused") == [1]).to_string());
    f.insert("count".into(), uint(&w.slot("agg", b"submission_count")));
    f.insert("now".into(), w.now_s().to_string());
    for (k, v) in w.data("agg").storage.iter().filter(|(_, v)| !v.is_empty()) {
        if let Some(r) = k.strip_prefix(b"oracle_status.mapped".as_slice()) {
            let u = w.name_of(r);
            let mut d = Rd::new(v);
            f.insert(format!("status[{u}].acc"), d.u64().to_string());
            f.insert(format!("status[{u}].tot"), d.u64().to_string());
        } else if let Some(r) = k.strip_prefix(b"rounds".as_slice()) {
            let p = read_pair(&mut Rd::new(r));
            let mut d = Rd::new(v);
            f.insert(format!("rounds[{p}].px"), d.big().to_string());
            f.insert(format!("rounds[{p}].ts"), d.u64().to_string());
            f.insert(format!("rounds[{p}].rd"), d.u32().to_string());
        } else if let Some(r) = k.strip_prefix(b"first_submission_timestamp".as_slice()) {
            f.insert(format!("first[{}]", read_pair(&mut Rd::new(r))), uint(v));
        } else if let Some(r) = k.strip_prefix(b"last_submission_timestamp".as_slice()) {
            f.insert(format!("last[{}]", read_pair(&mut Rd::new(r))), uint(v));
        } else if let Some(r) = k.strip_prefix(b"submissions.storage".as_slice()) {
            let mut d = Rd::new(r);
            let p = read_pair(&mut d);
            if d.take(7) == b".mapped" {
                f.insert(format!("subs[{p}][{}]", w.name_of(d.take(32))), uint(v));
            }
        }
    }
    f
}

pub fn deploy(w: &mut World, s0: &Flat) {
    for u in WHO {
        w.account(u, None);
    }
    for i in 0..50u8 {
        w.account(&format!("{}{}", (b'a' + i / 10) as char, i % 10), None);
    }
    let now: BigInt = s0["now"].parse().unwrap();
    w.set_now(&(now * 1000));
    let mut args = vec![top_u64(s0["count"].parse().unwrap())];
    for u in WHO {
        if s0.contains_key(&format!("status[{u}].acc")) {
            args.push(w.ab(u));
        }
    }
    w.deploy("agg", "aggregator", args);
}

struct Rec {
    ok: bool,
    msg: String,
    vals: Vec<BigInt>,
}

fn run(w: &mut World, o: &Value) -> Rec {
    let k = st(&o["k"]);
    let u = st(&o["u"]);
    let n = int(&o["n"]);
    let names: Vec<String> = list(&o["w"]).iter().map(st).collect();
    let subs: Vec<Vec<Vec<u8>>> = list(&o["l"])
        .iter()
        .map(|q| {
            let (a, b) = split(&st(&q["a"]));
            vec![a, b, top_big(&int(&q["ts"])), top_big(&int(&q["px"]))]
        })
        .collect();
    let people = |w: &World| names.iter().map(|x| w.ab(x)).collect::<Vec<_>>();
    let done = |r: Out| Rec { ok: r.ok, msg: r.msg, vals: vec![] };
    let feed = |v: &[u8]| {
        let mut d = Rd::new(v);
        let rd = d.u32();
        let pair = read_pair(&mut d);
        let ts = d.u64();
        (pair, vec![BigInt::from(rd), BigInt::from(ts), BigInt::from(d.big())])
    };
    match k.as_str() {
        "time" => {
            let t = BigInt::from(w.now_s()) + n;
            w.set_now(&(t * 1000));
            Rec { ok: true, msg: String::new(), vals: vec![] }
        }
        "submit" => done(w.call(&u, "agg", "submit", &[], subs[0].clone())),
        "batch" => done(w.call(&u, "agg", "submitBatch", &[], subs.concat())),
        "feed" => {
            let (a, b) = split(&names[0]);
            let r = w.query("agg", "latestPriceFeed", vec![a, b]);
            let mut vals = vec![];
            if r.ok {
                let (pair, v) = feed(&r.vals[0]);
                vals = v;
                if pair != names[0] {
                    vals.push(BigInt::from(-1));
                }
            }
            Rec { ok: r.ok, msg: r.msg, vals }
        }
        "feeds" => {
            let r = w.query("agg", "latestRoundData", names.iter().map(|p| nested_pair(p)).collect());
            let vals = r.vals.iter().flat_map(|v| feed(v).1).collect();
            Rec { ok: r.ok, msg: r.msg, vals }
        }
        "addOracles" => {
            let a = people(w);
            done(w.call(&u, "agg", "addOracles", &[], a))
        }
        "removeOracles" => {
            let a = [vec![top_big(&n)], people(w)].concat();
            done(w.call(&u, "agg", "removeOracles", &[], a))
        }
        "setCount" => done(w.call(&u, "agg", "setSubmissionCount", &[], vec![top_big(&n)])),
        "pause" | "unpause" => done(w.call(&u, "agg", &k, &[], vec![])),
        "upgrade" => done(w.upgrade(&u, "agg", "aggregator")),
        _ => fail(&format!("unknown operation {k}")),
    }
}

pub fn replay(t: &Value) -> Value {
    let states = list(&t["states"]);
    let flat = |v: &Value| {
        let mut f = Flat::new();
        flatten(v, "", &mut f);
        f
    };
    let mut w = World::new();
    deploy(&mut w, &flat(&states[0]["s"]));
    let mut divs: Vec<Value> = vec![];
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut why: BTreeMap<String, u64> = BTreeMap::new();
    let mut done = 0;
    for (i, s) in states.iter().enumerate() {
        let last = &s["last"];
        let spec = flat(&s["s"]);
        let k = st(&last["op"]["k"]);
        let ok = last["ok"].as_bool().unwrap();
        let mut r = Rec { ok: true, msg: String::new(), vals: vec![] };
        if k != "noop" {
            r = run(&mut w, &last["op"]);
            done += 1;
            *counts.entry(format!("{k}:{}", if ok { "ok" } else { "fail" })).or_default() += 1;
            if !ok {
                *why.entry(st(&last["why"])).or_default() += 1;
            }
        }
        let imp = project(&w);
        let d = crate::diff(&spec, &imp);
        let want = ints(&last["o"]);
        if r.ok != ok || !d.is_empty() || (ok && r.vals != want) {
            let kind = if r.ok != ok { "result" } else { "state" };
            let text = |l: &[BigInt]| l.iter().map(|x| x.to_string()).collect::<Vec<_>>();
            divs.push(json!({ "step": i, "op": last["op"], "ok": ok, "why": last["why"], "bad": last["bad"]["#set"], "kind": kind,
                "implOk": r.ok, "msg": r.msg, "diff": d, "want": text(&want), "got": text(&r.vals) }));
            break;
        }
    }
    json!({ "trace": t["trace"], "fam": t["fam"], "steps": done, "len": states.len() - 1, "divs": divs, "counts": counts, "why": why })
}
