//! Evaluates the calls of spec/mathvec.qnt with the library functions themselves.
use crate::itf::*;
use common_math::SharedMathModule;
use common_rates::InterestRates;
use common_structs::MarketParams;
use multiversx_sc::types::{BigInt as MInt, BigUint as MUint, EgldOrEsdtTokenIdentifier, ManagedBuffer, ManagedDecimal, ManagedDecimalSigned};
use multiversx_sc_scenario::api::StaticApi;
use num_bigint::{BigInt, Sign};
use serde_json::{json, Value};
use std::collections::BTreeMap;

struct Lib;
impl multiversx_sc::contract_base::ContractBase for Lib {
    type Api = StaticApi;
}
impl SharedMathModule for Lib {}
impl InterestRates for Lib {}

type Dec = ManagedDecimal<StaticApi, usize>;
type SDec = ManagedDecimalSigned<StaticApi, usize>;

fn mu(x: &BigInt) -> MUint<StaticApi> {
    MUint::from_bytes_be(&x.to_bytes_be().1)
}
fn dec(x: &BigInt, scale: usize) -> Dec {
    ManagedDecimal::from_raw_units(mu(x), scale)
}
fn sdec(x: &BigInt, scale: usize) -> SDec {
    let (s, b) = x.to_bytes_be();
    let m = MInt::from(MUint::<StaticApi>::from_bytes_be(&b));
    ManagedDecimalSigned::from_raw_units(if s == Sign::Minus { -m } else { m }, scale)
}
fn out(d: &Dec) -> (BigInt, usize) {
    (BigInt::from_bytes_be(Sign::Plus, d.into_raw_units().to_bytes_be().as_slice()), d.scale())
}
fn sout(d: &SDec) -> (BigInt, usize) {
    (BigInt::from_signed_bytes_be(d.into_raw_units().to_signed_bytes_be().as_slice()), d.scale())
}

fn eval(o: &Value) -> (BigInt, usize) {
    let n = |k: &str| int(&o[k]);
    let z = |k: &str| -> usize { n(k).to_string().parse().unwrap_or(0) };
    let q: Vec<BigInt> = ints(&o["q"]);
    let l = Lib;
    let (a, b) = (n("a"), n("b"));
    match st(&o["k"]).as_str() {
        "mul" => out(&l.mul_half_up(&dec(&a, z("sa")), &dec(&b, z("sb")), z("p"))),
        "div" => out(&l.div_half_up(&dec(&a, z("sa")), &dec(&b, z("sb")), z("p"))),
        "muls" => sout(&l.mul_half_up_signed(&sdec(&a, z("sa")), &sdec(&b, z("sb")), z("p"))),
        "divs" => sout(&l.div_half_up_signed(&sdec(&a, z("sa")), &sdec(&b, z("sb")), z("p"))),
        "rescale" => out(&l.rescale_half_up(&dec(&a, z("sa")), z("p"))),
        "min" => out(&l.min(dec(&a, z("sa")), dec(&b, z("sb"))).rescale(27)),
        "max" => out(&l.max(dec(&a, z("sa")), dec(&b, z("sb"))).rescale(27)),
        "compound" => out(&l.calculate_compounded_interest(dec(&a, 27), b.to_string().parse().unwrap())),
        "deposit" => out(&l.calculate_deposit_rate(dec(&a, 27), dec(&b, 27), dec(&n("p"), 4))),
        "rate" => {
            let p = MarketParams::<StaticApi> {
                max_borrow_rate_ray: dec(&q[0], 27),
                base_borrow_rate_ray: dec(&q[1], 27),
                slope1_ray: dec(&q[2], 27),
                slope2_ray: dec(&q[3], 27),
                slope3_ray: dec(&q[4], 27),
                mid_utilization_ray: dec(&q[5], 27),
                optimal_utilization_ray: dec(&q[6], 27),
                reserve_factor_bps: dec(&q[7], 4),
                asset_id: EgldOrEsdtTokenIdentifier::esdt(ManagedBuffer::<StaticApi>::from("A-abcdef")),
                asset_decimals: 18,
            };
            out(&l.calculate_borrow_rate(dec(&a, 27), p))
        }
        k => fail(&format!("unknown function {k}")),
    }
}

pub fn replay(t: &Value) -> Value {
    let mut divs: Vec<Value> = vec![];
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut done = 0;
    let states = list(&t["states"]);
    for (i, s) in states.iter().enumerate() {
        let last = &s["last"];
        let o = &last["op"];
        let k = st(&o["k"]);
        if k == "noop" {
            continue;
        }
        done += 1;
        *counts.entry(format!("{k}:ok")).or_default() += 1;
        let want = int(&last["r"]);
        let scale: usize = match k.as_str() {
            "min" | "max" | "rate" | "deposit" | "compound" => 27,
            _ => int(&o["p"]).to_string().parse().unwrap(),
        };
        let got = std::panic::catch_unwind(|| eval(o));
        let text = match &got {
            Ok((x, s)) => format!("{x} ({s} decimals)"),
            Err(_) => "panicked".into(),
        };
        if got.ok() != Some((want.clone(), scale)) {
            divs.push(json!({ "step": i, "op": o, "ok": true, "why": "", "bad": [], "kind": "view", "want": format!("{want} ({scale} decimals)"), "got": text }));
        }
    }
    json!({ "trace": t["trace"], "fam": t["fam"], "steps": done, "len": states.len() - 1, "divs": divs, "counts": counts, "why": {} })
}
