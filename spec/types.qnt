// Shared state of the whole lending system: controller storage, pools, price sources,
// account NFTs and token balances.
module types {
  import fixedpoint.* from "./fixedpoint"
  import pool.* from "./pool"
  export pool.*
  export fixedpoint.*

  type Pay = { t: str, x: int }
  // one deposit or borrow position; risk parameters in bps
  type Pos = { sc: int, thr: int, bon: int, fee: int, ltv: int }
  // asset configuration (caps and ceiling: 0 = no cap for caps)
  type Cfg = {
    ltv: int, thr: int, bon: int, fee: int, coll: bool, borr: bool, emode: bool, iso: bool,
    ceil: int, silo: bool, flash: bool, ffee: int, isoB: bool, bcap: int, scap: int
  }
  // oracle provider: ty normal|derived|lp, me safe|agg|mix, src xex|onedex|xegld|legld|lxoxno
  type Orc = {
    ty: str, me: str, src: str, pair: str, base: str, quote: str,
    fu: int, fl: int, lu: int, ll: int, dec: int, stale: int
  }
  type Acct = { iso: bool, em: int, mode: str, isoT: str, dep: str -> Pos, bor: str -> Pos }
  type EMode = { ltv: int, thr: int, bon: int, dead: bool }
  type EmAsset = { c: bool, b: bool }
  type Feed = { px: int, ts: int, rd: int }
  type Pair = { act: bool, r0: int, r1: int, lp: int }

  type State = {
    now: int,                       // block time, milliseconds
    paused: bool, aggPaused: bool,
    pools: str -> Pool, cfg: str -> Cfg, isoDebt: str -> int,   // USD (WAD) borrowed against each isolated asset
    orc: str -> Orc,
    emodes: int -> EMode, emA: int -> (str -> EmAsset),
    acc: int -> Acct, own: int -> str, nonce: int,
    limB: int, limS: int,
    feeds: str -> Feed,             // published aggregator feeds (ticker -> USD price)
    safe: str -> Pay,               // safe price answer for one whole token
    pairs: str -> Pair,
    ls: str -> int,                 // liquid staking exchange rates
    bal: str -> (str -> int)        // balances outside the pools
  }

  // One transaction (or environment event).  Field use depends on `k`.
  type Op = {
    k: str, u: str, n: int, nft: bool, p: List[Pay], l: List[Pay], a: str, b: str,
    x: int, y: int, f: bool, m: str, s1: List[Pay], s2: List[Pay], xs: List[int],
    re: str          // controller endpoint that the router calls back into during a strategy
  }
  pure val op0: Op = { k: "noop", u: "", n: 0, nft: false, p: [], l: [], a: "", b: "",
    x: 0, y: 0, f: false, m: "", s1: [], s2: [], xs: [], re: "" }

  // Result of a transaction; on failure `s` is the state before it.
  type R = { ok: bool, why: str, s: State, n: int, x: int, o: List[int] }
  pure def okR(s: State): R = { ok: true, why: "", s: s, n: 0, x: 0, o: [] }
  pure def failR(s: State, w: str): R = { ok: false, why: w, s: s, n: 0, x: 0, o: [] }

  // ---- balances -----------------------------------------------------------------
  pure def credit(s: State, u: str, t: str, x: int): State =
    if (x == 0) s else {
      val m = s.bal.get(u)
      { ...s, bal: s.bal.set(u, m.set(t, m.get(t) + x)) }
    }
  pure def creditAll(s: State, u: str, l: List[Pay]): State =
    l.foldl(s, (a, q) => credit(a, u, q.t, q.x))
  pure def debitAll(s: State, u: str, l: List[Pay]): State =
    l.foldl(s, (a, q) => credit(a, u, q.t, 0 - q.x))
}
