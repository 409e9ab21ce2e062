//! The protocol's contracts deployed in the MultiversX debug VM, driven by the operations of the
//! specification, and the projection of their storage and balances onto the specification's state.
use crate::codec::*;
use crate::itf::*;
use crate::mocks;
use multiversx_chain_vm::blockchain::state::{AccountData, BlockchainState, EsdtInstanceMetadata};
use multiversx_chain_vm::host::context::{TxFunctionName, TxInput, TxTokenTransfer};
use multiversx_chain_vm::host::execution;
use multiversx_chain_vm::host::runtime::RuntimeInstanceCallLambdaDefault;
use num_bigint::Sign;
use multiversx_chain_vm::types::{VMAddress, VMCodeMetadata};
use multiversx_sc::contract_base::CallableContractBuilder;
use multiversx_sc_scenario::executor::debug::ContractContainer;
use multiversx_sc_scenario::scenario::run_vm::ScenarioVMRunner;
use multiversx_sc_scenario::{multiversx_chain_vm, DebugApi};
use num_bigint::{BigInt, BigUint};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const ACC: &str = "ACC-abcdef";
pub const FAKE: &str = "FAKE-abcdef";
pub const USERS: [&str; 7] = ["alice", "bob", "carol", "owner", "rcv", "accu", "rtr"];

pub struct Out {
    pub ok: bool,
    pub msg: String,
    pub vals: Vec<Vec<u8>>,
}
impl Out {
    fn done() -> Out {
        Out { ok: true, msg: String::new(), vals: vec![] }
    }
    fn no(msg: &str) -> Out {
        Out { ok: false, msg: msg.into(), vals: vec![] }
    }
}

pub struct World {
    pub vm: ScenarioVMRunner,
    pub names: BTreeMap<String, VMAddress>,
    pub tokens: Vec<String>,
    pub decimals: BTreeMap<String, u32>,
    snap: Option<BlockchainState>,
    /// the projected state, kept up to date section by section
    pub flat: Flat,
    cache: HashMap<Sec, Cached>,
    gen: u64,
}

/// Address of a named account: contracts have eight leading zeros; all are in the same shard.
fn address(name: &str, contract: bool) -> VMAddress {
    let mut b = [b'_'; 32];
    let skip = if contract { 10 } else { 0 };
    for x in b.iter_mut().take(skip) {
        *x = 0;
    }
    for (i, c) in name.bytes().enumerate().take(20) {
        b[skip + i] = c;
    }
    b[31] = 1; // (shard 1 of 3)
    VMAddress::new(b)
}

/// Token identifier as the contracts see it.
pub fn tok(t: &str) -> String {
    if t == "EGLD" {
        "EGLD".into()
    } else if t == "LP" {
        "LPTOK-abcdef".into()
    } else {
        format!("{t}-abcdef")
    }
}
pub fn ticker(id: &[u8]) -> String {
    let s = String::from_utf8_lossy(id).to_string();
    match s.split_once('-') {
        Some(("LPTOK", _)) => "LP".into(),
        Some((a, _)) => a.to_string(),
        None => s,
    }
}
fn tk(t: &str) -> Vec<u8> {
    tok(t).into_bytes()
}

#[derive(Clone)]
pub struct Send_ {
    id: Vec<u8>,
    nonce: u64,
    value: BigUint,
}
fn pay(t: &str, x: &BigInt) -> Send_ {
    Send_ { id: tk(t), nonce: 0, value: big(x) }
}
fn nft(token: &str, n: u64) -> Send_ {
    Send_ { id: token.as_bytes().to_vec(), nonce: n, value: BigUint::from(1u32) }
}
/// nested (and top) encoding of a payment
fn enc_pay(q: &Send_) -> Vec<u8> {
    let mut v = nest_bytes(&q.id);
    v.extend_from_slice(&q.nonce.to_be_bytes());
    v.extend(nest_big(&BigInt::from(q.value.clone())));
    v
}
fn enc_pays(l: &[Pay]) -> Vec<Vec<u8>> {
    l.iter().map(|q| enc_pay(&pay(&q.t, &q.x))).collect()
}
/// list of buffers as one argument
fn enc_list(l: &[Vec<u8>]) -> Vec<u8> {
    l.iter().flat_map(|b| nest_bytes(b)).collect()
}
fn enc_steps(l: &[Pay]) -> Vec<u8> {
    enc_list(&enc_pays(l))
}
fn i(x: i64) -> BigInt {
    BigInt::from(x)
}
fn wad(k: i64) -> BigInt {
    BigInt::from(k) * BigInt::from(10u32).pow(18)
}
fn ray() -> BigInt {
    BigInt::from(10u32).pow(27)
}

/// A call: endpoint, payments, arguments.
/// Pieces of the state that are decoded separately.
#[derive(Clone, PartialEq, Eq, Hash)]
enum Sec {
    Top,
    Pool(String),
    Held(String),
    Entry(Vec<u8>),
    Emodes,
    Acc(u64),
    Feed(Vec<u8>),
}
struct Cached {
    gen: u64,
    raw: Vec<u8>,
    keys: Vec<String>,
}
const TOP: [&str; 9] = [
    "pause_module:paused", "account_nonce", "position_limits", "flash_loan_ongoing", "price_aggregator_address",
    "safe_price_view", "swap_router_address", "accumulator_address", "liq_pool_template_address",
];
const POOL: [&str; 7] = ["supplied", "borrowed", "revenue", "supply_index", "borrow_index", "last_timestamp", "params"];

const RATES: [&str; 3] = ["xegld", "legld", "lxoxno"];

struct Call {
    func: String,
    pays: Vec<Send_>,
    args: Vec<Vec<u8>>,
}

impl World {
    fn register<B: CallableContractBuilder>(vm: &ScenarioVMRunner, name: &str, b: B) {
        vm.contract_map_ref.lock().register_contract(
            name.as_bytes().to_vec(),
            ContractContainer::new(b.new_contract_obj::<DebugApi>(), None, true),
        );
    }

    pub fn new() -> World {
        let vm = ScenarioVMRunner::new();
        Self::register(&vm, "controller", controller::ContractBuilder);
        Self::register(&vm, "pool", liquidity_layer::ContractBuilder);
        Self::register(&vm, "aggregator", price_aggregator::ContractBuilder);
        Self::register(&vm, "mock", mocks::ContractBuilder);
        let mut w = World { vm, names: BTreeMap::new(), tokens: vec![], decimals: BTreeMap::new(), snap: None, cache: HashMap::new(), flat: Flat::new(), gen: 0 };
        for u in ["alice", "bob", "carol", "owner", "oracle1"] {
            w.account(u, None);
        }
        for m in ["rcv", "accu", "rtr", "safeview", "pairUSDC", "pairISO", "pairISO6", "pairLXOXNO", "onedex", "xegld", "legld", "lxoxno"] {
            w.account(m, Some("mock"));
        }
        // flash loan receivers in the other two shards (the VM takes the last byte of an address mod 3)
        for (i, n) in ["rcv2", "rcv3"].into_iter().enumerate() {
            w.account(n, Some("mock"));
            let a = w.addr(n);
            let mut d = w.vm.blockchain_mock.state.mut_state().accounts.remove(&a).unwrap();
            let mut b = *a.as_array();
            b[31] = b[31] - b[31] % 3 + (b[31] % 3 + 1 + i as u8) % 3;
            let a = VMAddress::new(b);
            d.address = a.clone();
            w.vm.blockchain_mock.state.mut_state().accounts.insert(a.clone(), d);
            w.names.insert(n.into(), a);
        }
        w
    }

    pub fn addr(&self, name: &str) -> VMAddress {
        self.names.get(name).cloned().unwrap_or_else(|| fail(&format!("no account {name}")))
    }
    pub fn ab(&self, name: &str) -> Vec<u8> {
        self.addr(name).as_array().to_vec()
    }
    pub fn account(&mut self, name: &str, code: Option<&str>) {
        let a = address(name, code.is_some());
        let mut d = AccountData::new_empty(a.clone());
        if let Some(c) = code {
            d.contract_path = Some(c.as_bytes().to_vec());
            d.code_metadata = VMCodeMetadata::all();
            d.contract_owner = Some(address("owner", false));
        }
        self.vm.blockchain_mock.state.accounts.insert(a.clone(), d);
        self.names.insert(name.into(), a);
    }
    pub fn data(&self, name: &str) -> &AccountData {
        let a = self.addr(name);
        self.vm.blockchain_mock.state.accounts.get(&a).unwrap_or_else(|| fail(&format!("no data {name}")))
    }
    fn data_mut(&mut self, name: &str) -> &mut AccountData {
        let a = self.addr(name);
        self.vm.blockchain_mock.state.mut_state().accounts.get_mut(&a).unwrap()
    }
    pub fn store(&mut self, name: &str, key: &[u8], value: Vec<u8>) {
        let d = self.data_mut(name);
        if value.is_empty() {
            d.storage.remove(key);
        } else {
            d.storage.insert(key.to_vec(), value);
        }
    }
    pub fn slot(&self, name: &str, key: &[u8]) -> Vec<u8> {
        self.data(name).storage.get(key).cloned().unwrap_or_default()
    }
    pub fn set_now(&mut self, ms: &BigInt) {
        let s: u64 = (ms / i(1000)).to_string().parse().unwrap();
        if ms % i(1000) != i(0) {
            fail("time must be whole seconds");
        }
        let b = &mut self.vm.blockchain_mock.state.mut_state().current_block_info;
        b.block_timestamp = s;
        b.block_round = s / 6;
        b.block_nonce = s / 6;
    }
    pub fn now_s(&self) -> u64 {
        self.vm.blockchain_mock.state.current_block_info.block_timestamp
    }

    // ---- transactions ---------------------------------------------------------------------
    fn input(&self, from: &str, to: VMAddress, func: &str, pays: &[Send_], args: Vec<Vec<u8>>) -> TxInput {
        let mut t = TxInput {
            from: self.addr(from),
            to,
            func_name: TxFunctionName::from(func),
            args,
            gas_limit: u64::MAX / 2,
            ..Default::default()
        };
        if pays.len() == 1 && pays[0].id == b"EGLD" {
            t.egld_value = pays[0].value.clone();
        } else {
            t.esdt_values = pays
                .iter()
                .map(|q| TxTokenTransfer {
                    token_identifier: if q.id == b"EGLD" { b"EGLD-000000".to_vec() } else { q.id.clone() },
                    nonce: q.nonce,
                    value: q.value.clone(),
                })
                .collect();
        }
        t
    }
    pub fn call(&mut self, from: &str, to: &str, func: &str, pays: &[Send_], args: Vec<Vec<u8>>) -> Out {
        let to = self.addr(to);
        // native transfers inside a list must be covered as well
        for q in pays {
            let need: BigUint = pays.iter().filter(|z| z.id == q.id && z.nonce == q.nonce).map(|z| &z.value).sum();
            let d = self.data(from);
            let have = if q.id == b"EGLD" { d.egld_balance.clone() } else { d.esdt.get_esdt_balance(&q.id, q.nonce) };
            if have < need {
                return Out::no("insufficient funds");
            }
        }
        let t = self.input(from, to, func, pays, args);
        let rt = self.vm.create_debugger_runtime();
        let r = execution::commit_call_with_async_and_callback(
            t,
            &mut self.vm.blockchain_mock.state,
            &rt,
            RuntimeInstanceCallLambdaDefault,
        );
        Out { ok: r.result_status.is_success(), msg: r.result_message, vals: r.result_values }
    }
    pub fn query(&mut self, to: &str, func: &str, args: Vec<Vec<u8>>) -> Out {
        let to = self.addr(to);
        let t = self.input("alice", to, func, &[], args);
        let rt = self.vm.create_debugger_runtime();
        let r = execution::execute_query(t, &mut self.vm.blockchain_mock.state, &rt, RuntimeInstanceCallLambdaDefault);
        Out { ok: r.result_status.is_success(), msg: r.result_message, vals: r.result_values }
    }
    pub fn deploy(&mut self, name: &str, code: &str, args: Vec<Vec<u8>>) {
        let a = address(name, true);
        let n = self.data("owner").nonce;
        let owner = self.addr("owner");
        self.vm.blockchain_mock.state.mut_state().new_addresses.insert((owner, n), a.clone());
        let t = self.input("owner", VMAddress::zero(), "init", &[], args);
        let rt = self.vm.create_debugger_runtime();
        let (b, r) = execution::commit_deploy(
            t,
            code.as_bytes(),
            VMCodeMetadata::all(),
            &mut self.vm.blockchain_mock.state,
            &rt,
            RuntimeInstanceCallLambdaDefault,
        );
        if !r.result_status.is_success() || a != b {
            panic!("deploying {name}: {}", r.result_message);
        }
        self.names.insert(name.into(), a);
    }
    pub fn upgrade(&mut self, from: &str, name: &str, code: &str) -> Out {
        let to = self.addr(name);
        // the protocol itself only lets the owner upgrade
        if self.data(name).contract_owner != Some(self.addr(from)) {
            return Out::no("only the owner upgrades");
        }
        let t = self.input(from, to, "upgrade", &[], vec![]);
        let rt = self.vm.create_debugger_runtime();
        let _ = code;
        let r = execution::commit_call_with_async_and_callback(
            t,
            &mut self.vm.blockchain_mock.state,
            &rt,
            RuntimeInstanceCallLambdaDefault,
        );
        Out { ok: r.result_status.is_success(), msg: r.result_message, vals: r.result_values }
    }
    fn must(&mut self, what: &str, r: Out) -> Vec<Vec<u8>> {
        if !r.ok {
            panic!("{what}: {}", r.msg);
        }
        r.vals
    }

    // ---- deployment -------------------------------------------------------------------------
    /// Deploys the world of the specification's genesis state `g` (flattened).
    pub fn deploy_all(&mut self, g: &Flat, markets: &[String], tokens: &[String]) {
        let get = |k: &str| g.get(k).cloned().unwrap_or_else(|| fail(&format!("genesis lacks {k}")));
        let num = |k: &str| get(k).parse::<BigInt>().unwrap();
        self.tokens = tokens.to_vec();
        for t in markets {
            self.decimals.insert(t.clone(), get(&format!("pools[{t}].dec")).parse().unwrap());
        }
        self.set_now(&num("now"));
        for u in USERS {
            for t in tokens {
                let x = big(&num(&format!("bal[{u}][{t}]")));
                let d = self.data_mut(u);
                if t == "EGLD" {
                    d.egld_balance = x;
                } else {
                    d.esdt.set_esdt_balance(tk(t), 0, &x, EsdtInstanceMetadata::default());
                }
            }
        }
        for u in ["alice", "bob", "carol"] {
            for n in 1..60 {
                self.data_mut(u).esdt.set_esdt_balance(FAKE.into(), n, &BigUint::from(1u32), EsdtInstanceMetadata::default());
            }
        }
        // other side of swaps and prices
        self.deploy("aggregator", "aggregator", vec![top_u64(1), self.ab("oracle1")]);
        let r = self.call("owner", "aggregator", "unpause", &[], vec![]);
        self.must("aggregator unpause", r);
        let p = |k: &str, t: &str| num(&format!("pools[{t}].{k}"));
        let t = &markets[0];
        let args: Vec<Vec<u8>> = std::iter::once(tk(t))
            .chain(["mx", "base", "s1", "s2", "s3", "mid", "opt", "rf"].iter().map(|k| top_big(&p(k, t))))
            .chain(std::iter::once(top_u64(18)))
            .collect();
        self.deploy("template", "pool", args);
        let init = ["template", "aggregator", "safeview", "accu", "rtr"].iter().map(|n| self.ab(n)).collect();
        self.deploy("ctl", "controller", init);
        if self.slot("ctl", b"pause_module:paused") == [1] {
            let r = self.call("owner", "ctl", "unpause", &[], vec![]);
            self.must("unpause", r);
        }
        // account tokens
        let roles = ["ESDTRoleNFTCreate", "ESDTRoleNFTBurn", "ESDTRoleNFTUpdateAttributes", "ESDTRoleNFTAddQuantity"];
        self.data_mut("ctl").esdt.set_roles(ACC.into(), roles.iter().map(|r| r.as_bytes().to_vec()).collect());
        self.store("ctl", b"account", ACC.into());
        let ctl = self.addr("ctl");
        for n in 0..40u64 {
            let a = address(&format!("pool{n}"), true);
            self.vm.blockchain_mock.state.mut_state().new_addresses.insert((ctl.clone(), n), a);
        }
        // price sources
        for t in g.keys().filter_map(|k| k.strip_prefix("feeds[")).filter_map(|k| k.split(']').next()).map(String::from).collect::<BTreeSet<_>>() {
            let r = self.submit(&t, &num(&format!("feeds[{t}].px")));
            self.must("feed", r);
        }
        for (m, f, s, l) in [("pairUSDC", "WEGLD", "USDC", "LP"), ("pairLXOXNO", "LXOXNO", "WEGLD", "LP2"), ("pairISO6", "USDC", "ISO6", "")] {
            self.store(m, b"first", tk(f));
            self.store(m, b"second", tk(s));
            if !l.is_empty() {
                self.store(m, b"lpt", tk(l));
            }
        }
        self.store("onedex", b"first", tk("WEGLD"));
        self.store("onedex", b"second", tk("XOXNO"));
        self.store("onedex", b"first2", tk("ISO"));
        self.store("onedex", b"second2", tk("WEGLD"));
        self.store("lxoxno", b"first", tk("XOXNO"));
        for k in ["xegld", "legld", "lxoxno"] {
            let x = num(&format!("ls[{k}]"));
            self.store(k, b"rate", top_big(&x));
        }
        for t in ["USDC", "XOXNO", "ISO", "ISO6", "LXOXNO"] {
            if t != "LXOXNO" {
                let (o, x) = (get(&format!("safe[{t}].t")), num(&format!("safe[{t}].x")));
                self.set_safe(t, &o, &x);
            }
            let q = |k: &str| num(&format!("pairs[{t}].{k}"));
            self.set_pair(t, get(&format!("pairs[{t}].act")) == "true", &[q("r0"), q("r1"), q("lp")]);
        }
        for t in markets {
            let o = |k: &str| get(&format!("orc[{t}].{k}"));
            let tol = |k: &str| o(k).parse::<i64>().unwrap() - 10000;
            let addr = match o("src").as_str() {
                "xex" => format!("pair{}", o("pair")),
                "onedex" => "onedex".into(),
                s => s.to_string(),
            };
            let mut args = vec![
                tk(t),
                top_u64(o("dec").parse().unwrap()),
                self.ab(&addr),
                top_u64(match o("me").as_str() { "safe" => 1, "agg" => 3, _ => 4 }),
                top_u64(match o("ty").as_str() { "normal" => 1, "derived" => 2, _ => 3 }),
                top_u64(match o("src").as_str() { "xex" => 1, "lxoxno" => 2, "xegld" => 3, "legld" => 4, _ => 5 }),
                top_big(&i(tol("fu"))),
                top_big(&i(tol("lu"))),
                top_u64(o("stale").parse().unwrap()),
            ];
            if o("src") == "onedex" {
                args.push(top_u64(if o("pair") == "XOXNO" { 1 } else { 2 }));
            }
            let r = self.call("owner", "ctl", "setTokenOracle", &[], args);
            self.must(&format!("oracle of {t}"), r);
        }
        for t in markets {
            let c = |k: &str| {
                let s = get(&format!("cfg[{t}].{k}"));
                match s.as_str() { "true" => i(1), "false" => i(0), s => s.parse().unwrap() }
            };
            let xs: Vec<BigInt> = ["ltv", "thr", "bon", "fee", "iso", "ceil", "silo", "flash", "ffee", "coll", "borr", "isoB", "bcap", "scap"]
                .iter().map(|k| c(k))
                .chain(["mx", "base", "s1", "s2", "s3", "mid", "opt", "rf"].iter().map(|k| p(k, t)))
                .collect();
            let args = self.create_args(t, &xs, self.decimals[t]);
            let r = self.call("owner", "ctl", "createLiquidityPool", &[], args);
            self.must(&format!("pool of {t}"), r);
        }
        let r = self.call("owner", "ctl", "setPositionLimits", &[], vec![top_big(&num("limB")), top_big(&num("limS"))]);
        self.must("limits", r);
    }
    pub fn save(&mut self) {
        self.snap = Some((*self.vm.blockchain_mock.state.get_arc()).clone());
    }
    pub fn restore(&mut self) {
        *self.vm.blockchain_mock.state.mut_state() = self.snap.clone().unwrap();
        self.names.retain(|k, _| !k.starts_with("pool:"));
        self.find_pools();
    }
    fn create_args(&self, t: &str, xs: &[BigInt], dec: u32) -> Vec<Vec<u8>> {
        let b = |k: usize| top_big(&xs[k]);
        let mut v = vec![tk(t)];
        v.extend((14..22).map(b));
        v.extend([b(0), b(1), b(2), b(3), b(9), b(10), b(4), b(5), b(8), b(6), b(7), b(11)]);
        v.push(top_u64(dec as u64));
        v.extend([b(12), b(13)]);
        v
    }

    // ---- environment --------------------------------------------------------------------------
    fn submit(&mut self, t: &str, px: &BigInt) -> Out {
        let now = self.now_s();
        self.call("oracle1", "aggregator", "submit", &[], vec![t.into(), b"USD".to_vec(), top_u64(now), top_big(px)])
    }
    fn set_safe(&mut self, t: &str, out: &str, x: &BigInt) {
        let m = if t == "XOXNO" || t == "ISO" { "onedex" } else { "safeview" };
        let key = |k: &str| [k.as_bytes(), &nest_bytes(&tk(t))].concat();
        let one = BigInt::from(10u32).pow(self.dec_of(t));
        self.store(m, &key("sp_out"), tk(out));
        self.store(m, &key("sp_x"), top_big(x));
        self.store(m, &key("sp_one"), top_big(&one));
        let pair = if m == "onedex" { "onedex".into() } else { format!("pair{t}") };
        let a = self.ab(&pair);
        self.store(m, &key("sp_pair"), a);
    }
    fn dec_of(&self, t: &str) -> u32 {
        *self.decimals.get(t).unwrap_or(&18)
    }
    fn set_pair(&mut self, t: &str, act: bool, xs: &[BigInt]) {
        if t == "XOXNO" || t == "ISO" {
            // pairs that do not allow swaps are inactive as well
            let odd = self.now_s() % 12 < 6;
            let v: Vec<u8> = if act { vec![1] } else if odd { vec![2] } else { vec![] };
            self.store("onedex", &[b"pair_state".as_slice(), &(if t == "XOXNO" { 1u32 } else { 2 }).to_be_bytes()].concat(), v);
            return;
        }
        let m = format!("pair{t}");
        let odd = self.now_s() % 12 < 6;
        let v: Vec<u8> = if act { vec![1] } else if odd { vec![2] } else { vec![] };
        self.store(&m, b"state", v);
        self.store(&m, b"r0", top_big(&xs[0]));
        self.store(&m, b"r1", top_big(&xs[1]));
        self.store(&m, b"lp", top_big(&xs[2]));
    }
    pub fn holder(&self, n: u64) -> Vec<String> {
        self.names
            .keys()
            .filter(|u| self.data(u).esdt.get_esdt_balance(ACC.as_bytes(), n) > BigUint::default())
            .cloned()
            .collect()
    }
    fn transfer_nft(&mut self, from: &str, to: &str, n: u64) {
        if from == to {
            return;
        }
        let zero = BigUint::default();
        let inst = self.data(from).esdt.get_by_identifier(ACC.as_bytes()).unwrap().instances.get_by_nonce(n).unwrap().clone();
        self.data_mut(from).esdt.set_esdt_balance(ACC.into(), n, &zero, inst.metadata.clone());
        self.data_mut(to).esdt.increase_balance(ACC.into(), n, &inst.balance, inst.metadata);
    }

    // ---- operations ------------------------------------------------------------------------------
    /// The call of the controller described by an operation (kind `k`).
    fn call_of(&self, k: &str, o: &Op) -> Option<Call> {
        let mut pays: Vec<Send_> = vec![];
        if o.nft {
            pays.push(nft(if o.m == "fake" { FAKE } else { ACC }, o.n));
        }
        pays.extend(o.p.iter().map(|q| pay(&q.t, &q.x)));
        let n = top_u64(o.n);
        let xs = |k: usize| top_big(&o.xs[k]);
        let none = vec![];
        let (func, args) = match k {
            "supply" => (
                "supply",
                if o.nft { if o.y > i(0) { vec![top_u64(0), top_big(&o.y)] } else { vec![] } }
                else if o.n == 0 && o.y == i(0) { vec![] }
                else if o.n == 0 { vec![top_u64(0), top_big(&o.y)] }
                else if o.y > i(0) { vec![n, top_big(&o.y)] }
                else { vec![n] },
            ),
            "borrow" | "withdraw" => (k, enc_pays(&o.l)),
            "repay" | "liquidate" => (k, vec![n]),
            "clean" => ("cleanBadDebt", vec![n]),
            "threshold" => {
                let mut v = vec![tk(&o.a), top_bool(o.f)];
                v.extend(o.xs.iter().map(top_big));
                ("updateAccountThreshold", v)
            }
            "indexes" => ("updateIndexes", o.l.iter().map(|q| tk(&q.t)).collect()),
            "claim" => ("claimRevenue", o.l.iter().map(|q| tk(&q.t)).collect()),
            "rewards" => ("addRewards", vec![]),
            "multiply" => {
                let mode = match o.m.as_str() { "Normal" => 1, "Multiply" => 2, "Long" => 3, "Short" => 4, _ => 0 };
                let mut v = vec![top_big(&o.y), tk(&o.a), top_big(&o.x), tk(&o.b), top_u64(mode), enc_steps(&o.s1)];
                if o.f {
                    v.push(enc_steps(&o.s2));
                }
                ("multiply", v)
            }
            "swapDebt" => ("swapDebt", vec![tk(&o.a), top_big(&o.x), tk(&o.b), enc_steps(&o.s1)]),
            "swapColl" => ("swapCollateral", vec![tk(&o.a), top_big(&o.x), tk(&o.b), enc_steps(&o.s1)]),
            "repayColl" => {
                let mut v = vec![tk(&o.a), top_big(&o.x), tk(&o.b), top_bool(o.f)];
                if o.a != o.b || !o.s1.is_empty() {
                    v.push(enc_steps(&o.s1));
                }
                ("repayDebtWithCollateral", v)
            }
            "flash" => {
                let (ep, extra) = self.receiver(o);
                let to = self.ab(if o.m == "othershard" { if &o.x % 2i32 == BigInt::from(0) { "rcv2" } else { "rcv3" } } else { "rcv" });
                ("flashLoan", vec![tk(&o.a), top_big(&o.x), to, ep.into_bytes(), enc_list(&extra)])
            }
            "editAsset" => {
                let mut v = vec![tk(&o.a)];
                v.extend((0..14).map(xs));
                ("editAssetConfig", v)
            }
            "addCat" => ("addEModeCategory", vec![xs(0), xs(1), xs(2)]),
            "editCat" => ("editEModeCategory", vec![self.enc_category(o.n as u8, &o.xs[0], &o.xs[1], &o.xs[2], o.f)]),
            "removeCat" => ("removeEModeCategory", vec![n]),
            "addAsset" => ("addAssetToEModeCategory", vec![tk(&o.a), n, xs(0), xs(1)]),
            "editEmAsset" => (
                "editAssetInEModeCategory",
                vec![tk(&o.a), n, vec![(o.xs[0] != i(0)) as u8, (o.xs[1] != i(0)) as u8]],
            ),
            "removeAsset" => ("removeAssetFromEModeCategory", vec![tk(&o.a), n]),
            "tolerance" => ("editTokenOracleTolerance", vec![tk(&o.a), top_big(&o.x), top_big(&o.y)]),
            "params" => {
                let mut v = vec![tk(&o.a)];
                v.extend((0..8).map(xs));
                ("upgradeLiquidityPoolParams", v)
            }
            "setOracle" => (
                "setTokenOracle",
                {
                    let (who, ty, src) = match o.m.as_str() {
                        "xegld" => ("xegld", 2, 3), "legld" => ("legld", 2, 4), "lxoxno" => ("lxoxno", 2, 2), "none" => ("xegld", 1, 0),
                        "onedex" => ("onedex", 1, 5), _ => ("xegld", 1, 3),
                    };
                    vec![tk(&o.a), xs(0), self.ab(who), top_u64(3), top_u64(ty), top_u64(src), xs(1), xs(2), xs(3)]
                },
            ),
            "createPool" => ("createLiquidityPool", {
                let d = self.slot("ctl", &[b"token_oracle".as_slice(), &nest_bytes(&tk(&o.a))].concat());
                self.create_args(&o.a, &o.xs, if d.is_empty() { 18 } else { self.oracle_dec(&d) })
            }),
            "limits" => ("setPositionLimits", vec![top_big(&o.x), top_big(&o.y)]),
            "setAddr" => (
                o.a.as_str(),
                vec![match o.b.as_str() {
                    "zero" => vec![0; 32],
                    "user" => self.ab("bob"),
                    _ => self.ab(match o.a.as_str() {
                        "setAggregator" => "aggregator",
                        "setSwapRouter" => "rtr",
                        "setAccumulator" => "accu",
                        "setSafePriceView" => "safeview",
                        _ => "template",
                    }),
                }],
            ),
            "pause" | "unpause" => (k, none),
            _ => return None,
        };
        Some(Call { func: func.to_string(), pays, args })
    }
    fn oracle_dec(&self, b: &[u8]) -> u32 {
        let mut r = Rd::new(b);
        r.bytes();
        r.bytes();
        for _ in 0..4 {
            r.dec(4);
        }
        r.take(32);
        r.take(3);
        r.u32()
    }
    fn enc_category(&self, id: u8, ltv: &BigInt, thr: &BigInt, bon: &BigInt, dead: bool) -> Vec<u8> {
        let mut v = vec![id];
        v.extend(nest_dec(ltv, 4));
        v.extend(nest_dec(thr, 4));
        v.extend(nest_dec(bon, 4));
        v.push(dead as u8);
        v
    }
    /// Endpoint of the flash loan receiver and its arguments.
    fn receiver(&self, o: &Op) -> (String, Vec<Vec<u8>>) {
        let y = top_big(&o.y);
        match o.m.as_str() {
            "othershard" => ("pay".into(), vec![y]),
            "pay" | "two" | "none" => (o.m.clone(), vec![y]),
            "wrong" => (o.m.clone(), vec![y, tk(if o.a == "USDC" { "EGLD" } else { "USDC" })]),
            "badep" => ("ESDTTransfer".into(), vec![y]),
            "claim" => ("reenter".into(), vec![y, self.ab("ctl"), b"claimRevenue".to_vec(), vec![], tk(&o.a)]),
            k => {
                let mut q = o.clone();
                q.a = o.b.clone();
                q.m = String::new();
                match k {
                    "multiply" => {
                        q.b = "EGLD".into();
                        q.x = wad(1);
                        q.y = i(0);
                        q.m = "Multiply".into();
                    }
                    "swapDebt" => {
                        q.b = "EGLD".into();
                        q.x = wad(1) / 30;
                    }
                    "swapColl" => {
                        q.a = "EGLD".into();
                        q.b = o.b.clone();
                        q.x = wad(1);
                    }
                    "repayColl" => {
                        q.a = "EGLD".into();
                        q.b = o.b.clone();
                        q.x = wad(1) / 1000;
                        q.f = false;
                    }
                    "flash" => {
                        q.a = "USDC".into();
                        q.x = i(10000);
                        q.y = i(20000);
                        q.m = "pay".into();
                    }
                    "supply" => q.y = i(0),
                    _ => {}
                }
                let c = self.call_of(k, &q).unwrap_or_else(|| fail(&format!("unknown receiver behaviour {k}")));
                let pays = c.pays.iter().flat_map(enc_pay).collect();
                let mut v = vec![y, self.ab("ctl"), c.func.into_bytes(), pays];
                v.extend(c.args);
                ("reenter".into(), v)
            }
        }
    }

    /// What the router does when it calls back into the controller in the middle of a strategy: a call
    /// that is valid on its own, on the very account being restructured where that makes sense.
    fn callback(&self, o: &Op) -> Call {
        let nonce = self.slot("ctl", b"account_nonce").iter().fold(0u64, |k, b| k * 256 + *b as u64);
        let target = if o.nft { o.n } else { nonce + 1 };
        let mine = (1..=nonce).find(|n| self.holder(*n).iter().any(|u| u == "rtr")).unwrap_or(0);
        let some = |t: &str, x: BigInt| Pay { t: t.into(), x };
        let base = Op { re: String::new(), m: String::new(), nft: false, p: vec![], l: vec![], s1: vec![], s2: vec![], n: mine, x: i(0), y: i(0), f: false, ..o.clone() };
        let own = Op { nft: true, ..base.clone() };
        let q = match o.re.as_str() {
            "supply" => Op { n: 0, p: vec![some("EGLD", wad(1))], ..base },
            "borrow" => Op { l: vec![some("USDC", i(1000))], ..own },
            "withdraw" => Op { l: vec![some("EGLD", i(1000))], ..own },
            "clean" => Op { n: target, ..base },
            "repay" | "liquidate" => Op { n: target, p: vec![some(if o.k == "swapDebt" { &o.a } else { &o.b }, i(1000))], ..base },
            "threshold" => Op { xs: vec![BigInt::from(target)], ..base },
            "indexes" => Op { l: vec![some("USDC", i(0))], ..base },
            "flash" => Op { a: "USDC".into(), x: i(10000), y: i(20000), m: "pay".into(), ..base },
            "multiply" => Op { n: 0, a: "XEGLD".into(), b: "EGLD".into(), x: wad(1), m: "Multiply".into(), p: vec![some("XEGLD", wad(10))], s1: vec![some("XEGLD", wad(1))], ..base },
            "swapDebt" => Op { a: "USDC".into(), b: "EGLD".into(), x: wad(1) / 30, s1: vec![some("USDC", i(1000000))], ..own },
            "swapColl" => Op { a: "EGLD".into(), b: "XEGLD".into(), x: wad(1), s1: vec![some("XEGLD", wad(1))], ..own },
            "repayColl" => Op { a: "EGLD".into(), b: "USDC".into(), x: wad(1) / 1000, s1: vec![some("USDC", i(10000))], ..own },
            k => fail(&format!("unknown callback {k}")),
        };
        self.call_of(&o.re, &q).unwrap()
    }

    pub fn run(&mut self, o: &Op) -> Out {
        if o.re.is_empty() {
            return self.run1(o);
        }
        // the router calls back into the controller, or moves a staking rate by a tenth
        let (c, target) = if RATES.contains(&o.re.as_str()) {
            let now = BigInt::from_bytes_be(Sign::Plus, &self.slot(&o.re, b"rate"));
            let x: BigInt = now * 9 / 10;
            (Call { func: "setRate".into(), pays: vec![], args: vec![top_big(&x)] }, self.ab(&o.re))
        } else {
            (self.callback(o), self.ab("ctl"))
        };
        self.store("rtr", b"re_target", target);
        self.store("rtr", b"re_func", c.func.into_bytes());
        self.store("rtr", b"re_pays", c.pays.iter().flat_map(enc_pay).collect());
        self.store("rtr", b"re_args", enc_list(&c.args));
        let r = self.run1(o);
        self.store("rtr", b"re_func", vec![]);
        r
    }
    fn run1(&mut self, o: &Op) -> Out {
        match o.k.as_str() {
            "time" => {
                self.advance(&o.x);
                Out::done()
            }
            "fresh" => {
                self.advance(&o.x);
                if self.slot("aggregator", b"pause_module:paused") == [1] {
                    return Out::done();
                }
                for (t, f) in self.feeds() {
                    let r = self.submit(&t, &BigInt::from(f.0));
                    if !r.ok {
                        return r;
                    }
                }
                Out::done()
            }
            "feed" => self.submit(&o.a, &o.x),
            "reprice" => {
                if !o.b.is_empty() {
                    self.store(&o.b, b"rate", top_big(&o.x));
                } else if o.x > i(0) && self.slot("aggregator", b"pause_module:paused") != [1] {
                    let r = self.submit(&o.a, &o.x);
                    if !r.ok {
                        return r;
                    }
                }
                if o.y > i(0) {
                    let m = if o.a == "XOXNO" || o.a == "ISO" { "onedex" } else { "safeview" };
                    self.store(m, &[b"sp_x".as_slice(), &nest_bytes(&tk(&o.a))].concat(), top_big(&o.y));
                }
                Out::done()
            }
            "safe" => {
                self.set_safe(&o.a, &o.b, &o.x);
                Out::done()
            }
            "pair" => {
                self.set_pair(&o.a, o.f, &o.xs);
                Out::done()
            }
            "ls" => {
                self.store(&o.a, b"rate", top_big(&o.x));
                Out::done()
            }
            "aggPause" => self.call("owner", "aggregator", if o.f { "pause" } else { "unpause" }, &[], vec![]),
            "xfer" => {
                if self.holder(o.n).contains(&o.u) {
                    self.transfer_nft(&o.u, &o.b, o.n);
                    Out::done()
                } else {
                    Out::no("insufficient funds")
                }
            }
            "direct" => self.direct(o),
            "upgradeCtl" => self.upgrade(&o.u, "ctl", "controller"),
            "upgradePool" => self.call(&o.u, "ctl", "upgradeLiquidityPool", &[], vec![tk(&o.a)]),
            k => match self.call_of(k, o) {
                Some(c) => self.call(&o.u, "ctl", &c.func, &c.pays, c.args),
                None => fail(&format!("unknown operation {k}")),
            },
        }
    }
    fn advance(&mut self, ms: &BigInt) {
        let now = BigInt::from(self.now_s()) * 1000 + ms;
        self.set_now(&now);
    }

    /// Endpoints that only the owner may use, called by somebody else with arguments that the
    /// owner could use.  Succeeds if any attempt does.
    fn direct(&mut self, o: &Op) -> Out {
        let price = nest_dec(&wad(1), 18);
        if !o.a.is_empty() {
            let t = o.a.clone();
            let d = self.dec_of(&t);
            let pool = format!("pool:{t}");
            let scaled = &o.x * BigInt::from(10u32).pow(27 - d);
            let pos = |ty: u8, sc: &BigInt| {
                let mut v = vec![ty];
                v.extend(nest_bytes(&tk(&t)));
                v.extend(nest_dec(sc, 27));
                v.extend_from_slice(&o.n.to_be_bytes());
                for x in [8000, 500, 2000, 7500] {
                    v.extend(nest_dec(&i(x), 4));
                }
                v
            };
            let amt = nest_dec(&o.x, d);
            let me = self.ab(&o.u);
            let paid = vec![pay(&t, &o.x)];
            let (pays, args): (Vec<Send_>, Vec<Vec<u8>>) = match o.m.as_str() {
                "supply" => (paid, vec![pos(1, &i(0)), price]),
                "borrow" => (vec![], vec![me, amt, pos(2, &i(0)), price]),
                "withdraw" => (vec![], vec![me, amt, pos(1, &scaled), vec![], vec![], price]),
                "repay" => (paid, vec![me, pos(2, &scaled), price]),
                "updateIndexes" | "claimRevenue" => (vec![], vec![price]),
                "addRewards" => (paid, vec![price]),
                "flashLoan" => (
                    vec![],
                    vec![tk(&t), amt, self.ab("rcv"), b"pay".to_vec(), enc_list(&[top_big(&(&o.x * 2)), me]), nest_dec(&i(9), 4), price],
                ),
                "createStrategy" => (vec![], vec![pos(2, &i(0)), amt, nest_dec(&i(0), d), price]),
                "seizePosition" => (vec![], vec![pos(1, &i(1)), price]),
                _ => {
                    let r = ray();
                    let xs = [r.clone(), &r / 100, &r / 25, &r / 10, &r / 2, &r / 2, &r * 4 / 5, i(1000)];
                    (vec![], xs.iter().map(top_big).chain(std::iter::once(price)).collect())
                }
            };
            let f = o.m.clone();
            return self.call(&o.u.clone(), &pool, &f, &pays, args);
        }
        if let Some(f) = o.m.strip_prefix("agg:") {
            let (me, now) = (self.ab(&o.u), self.now_s());
            let sub = vec![b"USDC".to_vec(), b"USD".to_vec(), top_u64(now), top_big(&wad(2))];
            let args = match f {
                "addOracles" => vec![me],
                "removeOracles" => vec![top_u64(1), self.ab("oracle1")],
                "setSubmissionCount" => vec![top_u64(1)],
                "submit" | "submitBatch" => sub,
                _ => vec![],
            };
            return self.call(&o.u.clone(), "aggregator", f, &[], args);
        }
        let toks: Vec<String> = self.decimals.keys().cloned().collect();
        let r = ray();
        let rates = [r.clone(), &r / 100, &r / 25, &r / 10, &r / 2, &r / 2, &r * 4 / 5, i(1000)];
        let cfg: Vec<BigInt> = [5000, 6000, 500, 1000, 0, 0, 0, 1, 9, 1, 1, 0, 0, 0].iter().map(|x| i(*x)).collect();
        let t0 = tk(&o.b);
        let mut tries: Vec<(Vec<Send_>, Vec<Vec<u8>>)> = vec![];
        match o.m.as_str() {
            "registerAccountToken" => tries.push((vec![pay("EGLD", &(wad(1) / 20))], vec![b"Account".to_vec(), b"ACC".to_vec()])),
            "setTokenOracle" => tries.push((
                vec![],
                vec![tk("NEWC"), top_u64(18), self.ab("xegld"), top_u64(3), top_u64(1), top_u64(3), top_u64(200), top_u64(500), top_u64(3600)],
            )),
            "editTokenOracleTolerance" => tries.push((vec![], vec![t0, top_u64(200), top_u64(500)])),
            "setAggregator" | "setSwapRouter" | "setAccumulator" | "setSafePriceView" | "setLiquidityPoolTemplate" => {
                tries.push((vec![], vec![self.ab("pairISO")]))
            }
            "addEModeCategory" => tries.push((vec![], vec![top_u64(5000), top_u64(6000), top_u64(100)])),
            "editEModeCategory" => tries.push((vec![], vec![self.enc_category(1, &i(5000), &i(6000), &i(100), false)])),
            "removeEModeCategory" => tries.push((vec![], vec![top_u64(1)])),
            "addAssetToEModeCategory" => {
                tries.extend(toks.iter().map(|t| (vec![], vec![tk(t), top_u64(1), top_bool(true), top_bool(true)])))
            }
            "editAssetInEModeCategory" => tries.extend(toks.iter().map(|t| (vec![], vec![tk(t), top_u64(1), vec![1, 1]]))),
            "removeAssetFromEModeCategory" => tries.extend(toks.iter().map(|t| (vec![], vec![tk(t), top_u64(1)]))),
            "editAssetConfig" => tries.push((vec![], std::iter::once(t0).chain(cfg.iter().map(top_big)).collect())),
            "setPositionLimits" => tries.push((vec![], vec![top_u64(5), top_u64(5)])),
            "createLiquidityPool" => {
                let xs: Vec<BigInt> = cfg.iter().chain(rates.iter()).cloned().collect();
                for t in ["NEWA", "NEWB"] {
                    tries.push((vec![], self.create_args(t, &xs, 18)));
                }
            }
            "upgradeLiquidityPool" => tries.push((vec![], vec![t0])),
            "upgradeLiquidityPoolParams" => tries.push((vec![], std::iter::once(t0).chain(rates.iter().map(top_big)).collect())),
            "addRewards" => tries.push((vec![pay(&o.b, &o.x)], vec![])),
            _ => tries.push((vec![], vec![])),
        }
        let mut last = Out::no("nothing tried");
        for (p, a) in tries {
            last = self.call(&o.u.clone(), "ctl", &o.m, &p, a);
            if last.ok {
                break;
            }
        }
        last
    }

    // ---- views --------------------------------------------------------------------------------------
    fn view_dec(&mut self, to: &str, f: &str, args: Vec<Vec<u8>>) -> BigInt {
        let r = self.query(to, f, args);
        if r.ok { BigInt::from(Rd::new(&r.vals[0]).big()) } else { i(-1) }
    }
    /// Values of the views an operation asks for.
    pub fn views(&mut self, o: &Op) -> Result<Vec<BigInt>, String> {
        let n = top_u64(o.n);
        match o.k.as_str() {
            "viewAcct" => {
                let hf = self.view_dec("ctl", "getHealthFactor", vec![n.clone()]);
                let r = self.query("ctl", "canBeLiquidated", vec![n.clone()]);
                let can = if r.ok { BigInt::from((r.vals[0] == [1]) as u8) } else { i(-1) };
                let mut v = vec![hf, can];
                for f in ["getTotalBorrowInEgld", "getTotalCollateralInEgld", "getLiquidationCollateralAvailable", "getLtvCollateralInEgld"] {
                    v.push(self.view_dec("ctl", f, vec![n.clone()]));
                }
                for f in ["getCollateralAmountForToken", "getBorrowAmountForToken"] {
                    v.push(self.view_dec("ctl", f, vec![n.clone(), tk(&o.a)]));
                }
                Ok(v)
            }
            "viewMkt" => {
                let r = self.query("ctl", "getAllMarketIndexes", vec![tk(&o.a)]);
                let mut v = vec![];
                if r.ok {
                    let b = r.vals[0].clone();
                    let mut d = Rd::new(&b);
                    if ticker(d.bytes()) != o.a {
                        return Err("market view of another asset".into());
                    }
                    for _ in 0..8 {
                        v.push(BigInt::from(d.big()));
                        d.u32();
                    }
                    v.push(BigInt::from(d.bool() as u8));
                    v.push(BigInt::from(d.bool() as u8));
                } else {
                    v.extend((0..10).map(|_| i(-1)));
                }
                // the same prices through the other views
                let egld = self.view_dec("ctl", "getTokenPriceEGLD", vec![tk(&o.a)]);
                let usd = self.view_dec("ctl", "getTokenPriceUSD", vec![tk(&o.a)]);
                if (egld.clone(), usd.clone()) != (v[2].clone(), v[3].clone()) {
                    return Err(format!("price views disagree: {egld} {usd} against {} {}", v[2], v[3]));
                }
                let m = self.query("ctl", "getAllMarkets", vec![tk(&o.a)]);
                if m.ok != (v[2] >= i(0)) {
                    return Err("getAllMarkets".into());
                }
                if m.ok {
                    let b = m.vals[0].clone();
                    let mut d = Rd::new(&b);
                    let same = ticker(d.bytes()) == o.a && d.take(32) == self.ab(&format!("pool:{}", o.a)).as_slice();
                    let (x, _) = (BigInt::from(d.big()), d.u32());
                    let (y, _) = (BigInt::from(d.big()), d.u32());
                    if !same || x != egld || y != usd {
                        return Err("getAllMarkets".into());
                    }
                }
                let p = format!("pool:{}", o.a);
                for f in ["capitalUtilisation", "reserves", "depositRate", "borrowRate"] {
                    v.push(self.view_dec(&p, f, vec![]));
                }
                let r = self.query(&p, "deltaTime", vec![]);
                v.push(BigInt::from(BigUint::from_bytes_be(&r.vals[0])));
                for f in ["protocolRevenue", "suppliedAmount", "borrowedAmount"] {
                    v.push(self.view_dec(&p, f, vec![]));
                }
                Ok(v)
            }
            _ => {
                let l: Vec<u8> = enc_pays(&o.p).concat();
                let r = self.query("ctl", "liquidationEstimations", vec![n, l]);
                if !r.ok {
                    return Err(format!("fails: {}", r.msg));
                }
                let b = r.vals[0].clone();
                let mut d = Rd::new(&b);
                let mut sums: Vec<BTreeMap<String, BigInt>> = vec![];
                for _ in 0..3 {
                    let mut m: BTreeMap<String, BigInt> = BTreeMap::new();
                    let n = d.u32();
                    for _ in 0..n {
                        let t = ticker(d.bytes());
                        d.u64();
                        let x = BigInt::from(d.big());
                        *m.entry(t).or_default() += x;
                    }
                    sums.push(m);
                }
                let mut v = vec![];
                v.push(BigInt::from(d.big()));
                d.u32();
                v.push(BigInt::from(d.big()));
                for q in &o.l {
                    for m in &sums {
                        v.push(m.get(&q.t).cloned().unwrap_or_default());
                    }
                }
                Ok(v)
            }
        }
    }

    // ---- projection -----------------------------------------------------------------------------------
    fn feeds(&self) -> BTreeMap<String, (BigUint, u64, u32)> {
        let mut m = BTreeMap::new();
        for (k, v) in self.data("aggregator").storage.iter().filter(|(_, v)| !v.is_empty()) {
            if let Some(rest) = k.strip_prefix(b"rounds".as_slice()) {
                let mut r = Rd::new(rest);
                let from = String::from_utf8_lossy(r.bytes()).to_string();
                let mut d = Rd::new(v);
                m.insert(from, (d.big(), d.u64(), d.u32()));
            }
        }
        m
    }
    /// Learns the addresses of pools created since the last call.
    pub fn find_pools(&mut self) {
        let mut found = vec![];
        for (k, v) in self.data("ctl").storage.iter().filter(|(_, v)| !v.is_empty()) {
            if let Some(rest) = k.strip_prefix(b"pools_map".as_slice()) {
                found.push((ticker(Rd::new(rest).bytes()), v.clone()));
            }
        }
        for (t, a) in found {
            let mut b = [0u8; 32];
            if a.len() == 32 {
                b.copy_from_slice(&a);
            }
            self.names.insert(format!("pool:{t}"), VMAddress::new(b));
        }
    }
    pub fn name_of(&self, b: &[u8]) -> String {
        self.names.iter().find(|(_, a)| a.as_array().as_slice() == b).map(|(n, _)| n.clone()).unwrap_or_else(|| "?".into())
    }

    /// The contracts' state in the specification's terms, plus `x.*` entries for anything the
    /// specification has no room for.  The state is cut into sections; a section is decoded again
    /// only if its raw bytes changed.  Returns the entries that may have changed.
    pub fn project(&mut self) -> BTreeSet<String> {
        self.find_pools();
        let mut raws: Vec<(Sec, Vec<u8>)> = vec![];
        {
            let w = &*self;
            let put = |v: &mut Vec<u8>, b: &[u8]| {
                v.extend_from_slice(&(b.len() as u32).to_be_bytes());
                v.extend_from_slice(b);
            };
            let ctl = w.data("ctl");
            let mut top = vec![];
            put(&mut top, &w.slot("aggregator", b"pause_module:paused"));
            for k in TOP {
                put(&mut top, ctl.storage.get(k.as_bytes()).map(|v| v.as_slice()).unwrap_or(&[]));
            }
            put(&mut top, &(w.names.len() as u32).to_be_bytes());
            raws.push((Sec::Top, top));
            for (k, a) in w.names.iter() {
                let d = w.vm.blockchain_mock.state.accounts.get(a).unwrap_or_else(|| fail(&format!("no data {k}")));
                let mut v = vec![];
                let big = |v: &mut Vec<u8>, x: &BigUint| {
                    for l in x.to_u32_digits() {
                        v.extend_from_slice(&l.to_be_bytes());
                    }
                    v.extend_from_slice(&[255; 5]);
                };
                big(&mut v, &d.egld_balance);
                let mut ids: Vec<_> = d.esdt.iter().collect();
                ids.sort_by(|x, y| x.0.cmp(y.0));
                for (id, e) in ids {
                    put(&mut v, id);
                    for (n, q) in e.instances.get_instances() {
                        v.extend_from_slice(&n.to_be_bytes());
                        big(&mut v, &q.balance);
                    }
                }
                if let Some(t) = k.strip_prefix("pool:") {
                    for s in POOL {
                        put(&mut v, d.storage.get(s.as_bytes()).map(|v| v.as_slice()).unwrap_or(&[]));
                    }
                    put(&mut v, &d.contract_owner.as_ref().map(|a| a.as_array().to_vec()).unwrap_or_default());
                    raws.push((Sec::Pool(t.to_string()), v));
                } else {
                    raws.push((Sec::Held(k.clone()), v));
                }
            }
            // controller storage: by entry, except what belongs to an account or to a category
            let mut accs: BTreeMap<u64, Vec<(&[u8], &[u8])>> = BTreeMap::new();
            let mut em: Vec<(&[u8], &[u8])> = vec![];
            for (k, v) in ctl.storage.iter().filter(|(_, v)| !v.is_empty()) {
                let has = |p: &str| k.strip_prefix(p.as_bytes());
                if let Some(r) = has("accounts.index").or(has("account_attributes")).or(has("positions")) {
                    accs.entry(Rd::new(r).u64()).or_default().push((k, v));
                } else if k.starts_with(b"e_mode") || k.starts_with(b"asset_e_modes") || k.starts_with(b"last_e_mode") {
                    em.push((k, v));
                } else if k.starts_with(b"asset_config") || k.starts_with(b"isolated_asset_debt_usd") || k.starts_with(b"token_oracle") {
                    raws.push((Sec::Entry(k.clone()), v.clone()));
                }
            }
            em.sort();
            let mut v = vec![];
            for (k, x) in em {
                put(&mut v, k);
                put(&mut v, x);
            }
            raws.push((Sec::Emodes, v));
            // who holds which account token
            let mut held: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
            for (u, a) in w.names.iter() {
                if let Some(e) = w.vm.blockchain_mock.state.accounts[a].esdt.get_by_identifier(ACC.as_bytes()) {
                    for (n, q) in e.instances.get_instances() {
                        let h = held.entry(*n).or_default();
                        put(h, u.as_bytes());
                        put(h, &q.balance.to_bytes_be());
                        put(h, &q.metadata.attributes);
                    }
                }
            }
            for (n, mut l) in accs {
                l.sort();
                let mut v = held.remove(&n).unwrap_or_default();
                for (k, x) in l {
                    put(&mut v, k);
                    put(&mut v, x);
                }
                raws.push((Sec::Acc(n), v));
            }
            for (n, v) in held {
                raws.push((Sec::Acc(n), v));
            }
            for (k, v) in w.data("aggregator").storage.iter().filter(|(k, v)| !v.is_empty() && k.starts_with(b"rounds")) {
                raws.push((Sec::Feed(k.clone()), v.clone()));
            }
        }
        let mut dirty = BTreeSet::new();
        self.gen += 1;
        for (id, raw) in raws {
            if let Some(c) = self.cache.get_mut(&id) {
                c.gen = self.gen;
                if c.raw == raw {
                    continue;
                }
            }
            let l = self.section(&id);
            let new = Cached { gen: self.gen, raw, keys: l.iter().map(|(k, _)| k.clone()).collect() };
            if let Some(c) = self.cache.insert(id, new) {
                for k in c.keys {
                    self.flat.remove(&k);
                    dirty.insert(k);
                }
            }
            for (k, v) in l {
                self.flat.insert(k.clone(), v);
                dirty.insert(k);
            }
        }
        let gone: Vec<Sec> = self.cache.iter().filter(|(_, c)| c.gen != self.gen).map(|(k, _)| k.clone()).collect();
        for id in gone {
            for k in self.cache.remove(&id).unwrap().keys {
                self.flat.remove(&k);
                dirty.insert(k);
            }
        }
        dirty
    }
    fn section(&self, id: &Sec) -> Vec<(String, String)> {
        let w = self;
        let mut f: Vec<(String, String)> = vec![];
        let flag = |b: bool| b.to_string();
        let uint = |b: &[u8]| BigUint::from_bytes_be(b).to_string();
        let zero = BigUint::default();
        match id {
            Sec::Top => {
                f.push(("paused".into(), flag(w.slot("ctl", b"pause_module:paused") == [1])));
                f.push(("aggPaused".into(), flag(w.slot("aggregator", b"pause_module:paused") == [1])));
                f.push(("nonce".into(), uint(&w.slot("ctl", b"account_nonce"))));
                let lim = w.slot("ctl", b"position_limits");
                f.push(("limB".into(), lim.first().copied().unwrap_or(0).to_string()));
                f.push(("limS".into(), lim.get(1).copied().unwrap_or(0).to_string()));
                if w.slot("ctl", b"flash_loan_ongoing") == [1] {
                    f.push(("x.flash_loan_ongoing".into(), "true".into()));
                }
                for (slot, name) in [
                    ("price_aggregator_address", "aggregator"),
                    ("safe_price_view", "safeview"),
                    ("swap_router_address", "rtr"),
                    ("accumulator_address", "accu"),
                    ("liq_pool_template_address", "template"),
                ] {
                    if w.name_of(&w.slot("ctl", slot.as_bytes())) != name {
                        f.push((format!("x.{slot}"), w.name_of(&w.slot("ctl", slot.as_bytes()))));
                    }
                }
            }
            Sec::Pool(t) => {
                let p = &format!("pool:{t}");
                let mut put = |k: &str, v: String| f.push((format!("pools[{t}].{k}"), v));
                for (k, s) in [("sup", "supplied"), ("bor", "borrowed"), ("rev", "revenue"), ("sIdx", "supply_index"), ("bIdx", "borrow_index")] {
                    put(k, top_dec(&w.slot(p, s.as_bytes()), 27));
                }
                put("ts", uint(&w.slot(p, b"last_timestamp")));
                let b = w.slot(p, b"params");
                let mut r = Rd::new(&b);
                for k in ["mx", "base", "s1", "s2", "s3", "mid", "opt"] {
                    put(k, r.dec(27));
                }
                put("rf", r.dec(4));
                if ticker(r.bytes()) != *t {
                    put("asset", "wrong".into());
                }
                put("dec", r.u32().to_string());
                let d = w.data(p);
                let res = if t == "EGLD" { d.egld_balance.clone() } else { d.esdt.get_esdt_balance(&tk(t), 0) };
                put("res", res.to_string());
                if d.contract_owner != Some(w.addr("ctl")) {
                    f.push((format!("x.pool_owner[{t}]"), "wrong".into()));
                }
                // nothing but its own asset
                if t != "EGLD" && d.egld_balance != zero {
                    f.push((format!("x.pool[{t}].EGLD"), d.egld_balance.to_string()));
                }
                for (id, e) in d.esdt.iter() {
                    for (n, q) in e.instances.get_instances() {
                        if q.balance != zero && (*id != tk(t) || *n != 0) {
                            f.push((format!("x.pool[{t}].{}", ticker(id)), q.balance.to_string()));
                        }
                    }
                }
            }
            Sec::Held(u) => {
                let d = w.data(u);
                if USERS.contains(&u.as_str()) {
                    for t in &w.tokens {
                        let x = if t == "EGLD" { d.egld_balance.clone() } else { d.esdt.get_esdt_balance(&tk(t), 0) };
                        f.push((format!("bal[{u}][{t}]"), x.to_string()));
                    }
                } else {
                    if d.egld_balance != zero {
                        f.push((format!("x.stuck[{u}][EGLD]"), d.egld_balance.to_string()));
                    }
                    for (id, e) in d.esdt.iter() {
                        if *id == ACC.as_bytes() || *id == FAKE.as_bytes() {
                            continue;
                        }
                        for q in e.instances.get_instances().values() {
                            if q.balance != zero {
                                f.push((format!("x.stuck[{u}][{}]", ticker(id)), q.balance.to_string()));
                            }
                        }
                    }
                }
            }
            Sec::Entry(k) => {
                let v = &w.slot("ctl", k);
                let has = |p: &str| k.strip_prefix(p.as_bytes());
                if let Some(r) = has("asset_config") {
                    let t = ticker(Rd::new(r).bytes());
                    let mut d = Rd::new(v);
                    let mut put = |k: &str, v: String| f.push((format!("cfg[{t}].{k}"), v));
                    for k in ["ltv", "thr", "bon", "fee"] {
                        put(k, d.dec(4));
                    }
                    for k in ["coll", "borr", "emode", "iso"] {
                        put(k, flag(d.bool()));
                    }
                    put("ceil", d.dec(18));
                    put("silo", flag(d.bool()));
                    put("flash", flag(d.bool()));
                    put("ffee", d.dec(4));
                    put("isoB", flag(d.bool()));
                    put("bcap", d.opt_big().unwrap_or_default().to_string());
                    put("scap", d.opt_big().unwrap_or_default().to_string());
                } else if let Some(r) = has("isolated_asset_debt_usd") {
                    let t = ticker(Rd::new(r).bytes());
                    f.push((format!("isoDebt[{t}]"), top_dec(v, 18)));
                } else if let Some(r) = has("token_oracle") {
                    let t = ticker(Rd::new(r).bytes());
                    let mut d = Rd::new(v);
                    let (base, quote) = (ticker(d.bytes()), ticker(d.bytes()));
                    let tol: Vec<String> = (0..4).map(|_| d.dec(4)).collect();
                    let a = w.name_of(d.take(32));
                    let me = ["none", "safe", "instant", "agg", "mix"][d.u8() as usize % 5];
                    let ty = ["none", "normal", "derived", "lp"][d.u8() as usize % 4];
                    let src = ["none", "xex", "lxoxno", "xegld", "legld", "onedex"][d.u8() as usize % 6];
                    let dec = d.u32();
                    let dex = d.u32();
                    let stale = d.u64();
                    let pair = match (src, a.as_str()) {
                        ("xex", s) => s.strip_prefix("pair").unwrap_or("?").to_string(),
                        ("onedex", "onedex") if dex == 1 => "XOXNO".into(),
                        ("onedex", "onedex") if dex == 2 => "ISO".into(),
                        (s, a) if s == a => "".into(),
                        _ => "?".into(),
                    };
                    for (k, v) in [
                        ("ty", ty.to_string()), ("me", me.to_string()), ("src", src.to_string()), ("pair", pair), ("base", base),
                        ("quote", quote), ("fu", tol[0].clone()), ("fl", tol[1].clone()), ("lu", tol[2].clone()), ("ll", tol[3].clone()),
                        ("dec", dec.to_string()), ("stale", stale.to_string()),
                    ] {
                        f.push((format!("orc[{t}].{k}"), v));
                    }
                }
            }
            Sec::Emodes => {
                let mut ema: BTreeSet<(String, u8)> = BTreeSet::new();
                let mut aem: BTreeSet<(String, u8)> = BTreeSet::new();
                let mut cats = 0;
                for (k, v) in w.data("ctl").storage.iter().filter(|(_, v)| !v.is_empty()) {
                    let has = |p: &str| k.strip_prefix(p.as_bytes());
                    if let Some(r) = has("e_mode_category.mapped") {
                        let id = r.first().copied().unwrap_or(0);
                        let mut d = Rd::new(v);
                        if d.u8() != id {
                            f.push((format!("x.emode_id[{id}]"), "wrong".into()));
                        }
                        for k in ["ltv", "thr", "bon"] {
                            f.push((format!("emodes[{id}].{k}"), d.dec(4)));
                        }
                        f.push((format!("emodes[{id}].dead"), flag(d.bool())));
                        cats += 1;
                    } else if let Some(r) = has("e_mode_assets") {
                        let mut d = Rd::new(r);
                        let id = d.u8();
                        if d.take(7) == b".mapped" {
                            let t = ticker(d.bytes());
                            let mut c = Rd::new(v);
                            f.push((format!("emA[{id}][{t}].c"), flag(c.bool())));
                            f.push((format!("emA[{id}][{t}].b"), flag(c.bool())));
                            ema.insert((t, id));
                        }
                    } else if let Some(r) = has("asset_e_modes") {
                        let mut d = Rd::new(r);
                        let t = ticker(d.bytes());
                        if d.take(6) == b".index" {
                            aem.insert((t, d.u8()));
                        }
                    }
                }
                for (t, id) in ema.symmetric_difference(&aem) {
                    f.push((format!("x.e_modes[{id}][{t}]"), "inconsistent".into()));
                }
                let last_cat = uint(&w.slot("ctl", b"last_e_mode_category_id"));
                if last_cat != cats.to_string() {
                    f.push(("x.last_category".into(), last_cat));
                }
            }
            Sec::Acc(n) => {
                let key = |p: &str| [p.as_bytes(), &n.to_be_bytes()].concat();
                let known = !w.slot("ctl", &key("accounts.index")).is_empty();
                let b = w.slot("ctl", &key("account_attributes"));
                let holders = w.holder(*n);
                if known {
                    let mut d = Rd::new(&b);
                    f.push((format!("acc[{n}].iso"), flag(d.bool())));
                    f.push((format!("acc[{n}].em"), d.u8().to_string()));
                    f.push((format!("acc[{n}].mode"), ["None", "Normal", "Multiply", "Long", "Short"][d.u8() as usize % 5].to_string()));
                    let iso = if d.bool() { ticker(d.bytes()) } else { String::new() };
                    f.push((format!("acc[{n}].isoT"), iso));
                    if holders.is_empty() {
                        f.push((format!("x.account[{n}]"), "has no token".into()));
                    }
                }
                let pre = key("positions");
                for (k, v) in w.data("ctl").storage.iter().filter(|(k, v)| !v.is_empty() && k.starts_with(&pre)) {
                    let mut d = Rd::new(&k[pre.len()..]);
                    let ty = d.u8();
                    if d.take(7) != b".mapped" {
                        continue;
                    }
                    let t = ticker(d.bytes());
                    let mut d = Rd::new(v);
                    let pt = d.u8();
                    let pa = ticker(d.bytes());
                    let side = if ty == 1 { "dep" } else { "bor" };
                    if pt != ty || pa != t || !known {
                        f.push((format!("x.position[{n}][{ty}][{t}]"), "misplaced".into()));
                        continue;
                    }
                    f.push((format!("acc[{n}].{side}[{t}].sc"), d.dec(27)));
                    if d.u64() != *n {
                        f.push((format!("x.position[{n}][{ty}][{t}].nonce"), "wrong".into()));
                    }
                    for k in ["thr", "bon", "fee", "ltv"] {
                        f.push((format!("acc[{n}].{side}[{t}].{k}"), d.dec(4)));
                    }
                }
                if !b.is_empty() {
                    if !known {
                        f.push((format!("x.attributes[{n}]"), "left behind".into()));
                    }
                    for u in &holders {
                        let on_nft = &w.data(u).esdt.get_by_identifier(ACC.as_bytes()).unwrap().instances.get_by_nonce(*n).unwrap().metadata.attributes;
                        if *on_nft != b {
                            f.push((format!("x.nft_attributes[{n}]"), "differ".into()));
                        }
                    }
                }
                for u in w.names.keys().filter(|k| !k.starts_with("pool:")) {
                    if let Some(e) = w.data(u).esdt.get_by_identifier(ACC.as_bytes()) {
                        for (m, q) in e.instances.get_instances() {
                            if m == n && q.balance > zero {
                                f.push((format!("own[{n}]"), u.clone()));
                                if q.balance != BigUint::from(1u32) {
                                    f.push((format!("x.nft_amount[{n}]"), q.balance.to_string()));
                                }
                            }
                        }
                    }
                }
            }
            Sec::Feed(k) => {
                let rest = &k[b"rounds".len()..];
                let from = String::from_utf8_lossy(Rd::new(rest).bytes()).to_string();
                let v = w.slot("aggregator", k);
                let mut d = Rd::new(&v);
                f.push((format!("feeds[{from}].px"), d.big().to_string()));
                f.push((format!("feeds[{from}].ts"), d.u64().to_string()));
                f.push((format!("feeds[{from}].rd"), d.u32().to_string()));
            }
        }
        f
    }
}
