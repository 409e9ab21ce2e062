// The deployment explored: markets, oracles, users, and the opening transactions that give
// every market liquidity.  All numbers are raw units; the harness deploys exactly this world.
module world {
  import controller.* from "./controller"
  export controller.*

  pure val T0: int = 1700000000000
  pure val MARKETS: List[str] = ["EGLD", "USDC", "XEGLD", "LEGLD", "XOXNO", "LXOXNO", "SILO", "ISO", "ISO6", "CAP", "LP", "LP2"]
  pure val MKSET: Set[str] = Set("EGLD", "USDC", "XEGLD", "LEGLD", "XOXNO", "LXOXNO", "SILO", "ISO", "ISO6", "CAP", "LP", "LP2")
  // tokens that exist but have no market yet
  pure val NEWTOKENS: List[str] = ["NEWA", "NEWB"]
  pure val TOKENS: List[str] = MARKETS.concat(NEWTOKENS)
  pure val USERS: Set[str] = Set("alice", "bob", "carol")
  pure def decimals(t: str): int =
    if (t == "USDC" or t == "ISO6") 6 else if (t == "CAP") 8 else 18
  pure def one(t: str): int = p10(decimals(t))

  pure val stdCfg: Cfg = { ltv: 7500, thr: 8000, bon: 500, fee: 2000, coll: true, borr: true, emode: false, iso: false,
    ceil: 0, silo: false, flash: true, ffee: 9, isoB: false, bcap: 0, scap: 0 }
  pure def cfg0(t: str): Cfg =
    if (t == "EGLD") stdCfg
    else if (t == "USDC") { ...stdCfg, isoB: true, ffee: 50 }
    else if (t == "XEGLD") { ...stdCfg, ltv: 7000, thr: 7600, bon: 750, fee: 1500 }
    else if (t == "LEGLD") { ...stdCfg, ltv: 6500, thr: 7000, bon: 700, flash: false }
    else if (t == "XOXNO") { ...stdCfg, ltv: 5000, thr: 6000, bon: 1000, fee: 3000 }
    else if (t == "LXOXNO") { ...stdCfg, ltv: 4500, thr: 5500, bon: 1200, borr: false }
    else if (t == "SILO") { ...stdCfg, silo: true, ltv: 6000, thr: 6600, bon: 800, ffee: 0 }
    else if (t == "ISO") { ...stdCfg, iso: true, ceil: 20000 * WAD, ltv: 5500, thr: 6200, bon: 900 }
    else if (t == "ISO6") { ...stdCfg, iso: true, ceil: 5000 * WAD, ltv: 5000, thr: 6000, bon: 1000, borr: false, isoB: true }
    else if (t == "CAP") { ...stdCfg, bcap: 2 * 100000000, scap: 5 * 100000000, isoB: true }
    else { ...stdCfg, ltv: 4000, thr: 5000, bon: 1100, borr: false, flash: false }
  pure def pool0(t: str): Pool = {
    val p: Pool = { sup: 0, bor: 0, rev: 0, sIdx: RAY, bIdx: RAY, ts: T0, res: 0, dec: decimals(t),
      mx: RAY, base: RAY / 100, s1: RAY / 25, s2: 15 * (RAY / 100), s3: RAY / 2, mid: RAY / 2, opt: 4 * (RAY / 5), rf: 2000 }
    if (t == "USDC") { ...p, base: RAY / 50, rf: 1000, opt: 9 * (RAY / 10) }
    else if (t == "CAP") { ...p, base: 0, rf: 0, mx: 2 * RAY, s3: 3 * RAY }
    else if (t == "SILO") { ...p, rf: 9999 }
    else if (t == "XOXNO") { ...p, mx: 60 * (RAY / 100), rf: 3500 }
    else p
  }
  pure val stdOrc: Orc = { ty: "normal", me: "agg", src: "xex", pair: "", base: "WEGLD", quote: "", fu: 10200, fl: 9804,
    lu: 10500, ll: 9524, dec: 18, stale: 3600 }
  pure def orc0(t: str): Orc =
    if (t == "EGLD") { ...stdOrc, src: "xegld", base: "EGLD", quote: "EGLD" }
    else if (t == "USDC") { ...stdOrc, me: "mix", pair: "USDC", quote: "USDC", dec: 6 }
    else if (t == "XEGLD") { ...stdOrc, ty: "derived", src: "xegld", base: "EGLD", quote: "EGLD" }
    else if (t == "LEGLD") { ...stdOrc, ty: "derived", src: "legld", base: "EGLD", quote: "EGLD" }
    else if (t == "XOXNO") { ...stdOrc, me: "mix", src: "onedex", pair: "XOXNO", quote: "XOXNO", stale: 1800 }
    else if (t == "LXOXNO") { ...stdOrc, ty: "derived", src: "lxoxno", base: "XOXNO", quote: "XOXNO", stale: 900 }
    else if (t == "SILO") { ...stdOrc, src: "xegld", base: "EGLD", quote: "EGLD", stale: 900 }
    else if (t == "ISO") { ...stdOrc, me: "safe", src: "onedex", pair: "ISO", base: "ISO", quote: "WEGLD" }
    else if (t == "ISO6") { ...stdOrc, me: "safe", pair: "ISO6", base: "USDC", quote: "ISO6", dec: 6 }
    else if (t == "CAP") { ...stdOrc, src: "xegld", base: "EGLD", quote: "EGLD", dec: 8 }
    else if (t == "LP") { ...stdOrc, ty: "lp", pair: "USDC", base: "WEGLD", quote: "USDC" }
    else { ...stdOrc, ty: "lp", pair: "LXOXNO", base: "LXOXNO", quote: "WEGLD" }
  // USD price of one whole token
  pure def usd0(t: str): int =
    if (t == "EGLD") 40 * WAD
    else if (t == "USDC") WAD
    else if (t == "XOXNO") WAD / 10
    else if (t == "SILO") 5 * WAD
    else if (t == "ISO") 2 * WAD
    else if (t == "ISO6") 10 * WAD
    else if (t == "CAP") 60000 * WAD
    else 42 * WAD

  pure def allTokens: Set[str] = MKSET.union(Set("NEWA", "NEWB"))
  pure def rich(k: int): str -> int = allTokens.mapBy(t => k * one(t))

  pure val genesis: State = {
    now: T0, paused: false, aggPaused: false,
    pools: MKSET.mapBy(t => pool0(t)),
    cfg: MKSET.mapBy(t => cfg0(t)),
    isoDebt: MKSET.mapBy(t => 0),
    orc: MKSET.mapBy(t => orc0(t)),
    emodes: Map(), emA: Map(), acc: Map(), own: Map(), nonce: 0, limB: 10, limS: 10,
    feeds: Set("EGLD", "USDC", "XOXNO", "SILO", "CAP").mapBy(t => { px: usd0(t), ts: T0 / 1000, rd: 0 }),
    safe: Map("USDC" -> { t: "WEGLD", x: WAD / 40 }, "XOXNO" -> { t: "WEGLD", x: WAD / 400 },
              "ISO" -> { t: "WEGLD", x: WAD / 20 }, "ISO6" -> { t: "USDC", x: 10000000 }),
    pairs: Map("USDC" -> { act: true, r0: 100000 * WAD, r1: 4000000 * 1000000, lp: 200000 * WAD },
               "XOXNO" -> { act: true, r0: 0, r1: 0, lp: 0 }, "ISO" -> { act: true, r0: 0, r1: 0, lp: 0 },
               "ISO6" -> { act: true, r0: 0, r1: 0, lp: 0 },
               "LXOXNO" -> { act: true, r0: 1000000 * WAD, r1: 2875 * WAD, lp: 50000 * WAD }),
    ls: Map("xegld" -> 1050000000000000000, "legld" -> 1080000000000000000, "lxoxno" -> 1150000000000000000),
    bal: USERS.union(Set("owner", "rcv", "accu", "rtr")).mapBy(u =>
      rich(if (u == "accu") 0 else if (u == "rtr") 1000000000 else if (u == "rcv") 10000000 else 100000000))
  }

  // ---- opening transactions -----------------------------------------------------------
  pure def opSupply(u: str, n: int, em: int, l: List[Pay]): Op = { ...op0, k: "supply", u: u, n: n, y: em, p: l }
  pure def opBorrow(u: str, n: int, l: List[Pay]): Op = { ...op0, k: "borrow", u: u, n: n, nft: true, l: l }
  // bob's account 1 provides liquidity; carol's isolated accounts provide the isolated markets
  pure val OPENING: List[Op] = [
    { ...op0, k: "addCat", u: "owner", xs: [9000, 9300, 200] },
    { ...op0, k: "addAsset", u: "owner", n: 1, a: "EGLD", xs: [1, 1] },
    { ...op0, k: "addAsset", u: "owner", n: 1, a: "XEGLD", xs: [1, 0] },
    { ...op0, k: "addAsset", u: "owner", n: 1, a: "LEGLD", xs: [0, 1] },
    // 1: liquidity provider
    opSupply("bob", 0, 0, [{ t: "EGLD", x: 5000 * WAD }, { t: "USDC", x: 300000000000 }, { t: "XEGLD", x: 1000 * WAD },
      { t: "LEGLD", x: 1000 * WAD }, { t: "XOXNO", x: 1500000 * WAD }, { t: "SILO", x: 20000 * WAD }, { t: "CAP", x: 300000000 }]),
    // 2: two collaterals, two debts
    opSupply("alice", 0, 0, [{ t: "EGLD", x: 50 * WAD }, { t: "XOXNO", x: 20000 * WAD }]),
    opBorrow("alice", 2, [{ t: "USDC", x: 1200000000 }, { t: "XOXNO", x: 3000 * WAD }]),
    // 3, 5: isolated collateral
    opSupply("carol", 0, 0, [{ t: "ISO", x: 3000 * WAD }]),
    opBorrow("carol", 3, [{ t: "USDC", x: 1000000000 }]),
    // 4: e-mode
    opSupply("alice", 0, 1, [{ t: "XEGLD", x: 40 * WAD }]),
    opBorrow("alice", 4, [{ t: "EGLD", x: 20 * WAD }]),
    opSupply("carol", 0, 0, [{ t: "ISO6", x: 100000000 }]),
    // 6: account of the flash loan receiver
    opSupply("rcv", 0, 0, [{ t: "EGLD", x: 100 * WAD }]),
    opBorrow("rcv", 6, [{ t: "USDC", x: 500000000 }]),
    // 7: siloed debt
    opSupply("carol", 0, 0, [{ t: "EGLD", x: 30 * WAD }, { t: "CAP", x: 1000000 }, { t: "USDC", x: 500000000 }]),
    opBorrow("carol", 7, [{ t: "SILO", x: 100 * WAD }]),
    // 8: leveraged position
    { ...op0, k: "multiply", u: "bob", a: "XEGLD", b: "EGLD", x: 20 * WAD, y: 0, m: "Multiply",
      p: [{ t: "XEGLD", x: 20 * WAD }], s1: [{ t: "XEGLD", x: 19 * WAD }] }
  ]
  pure val opened: State = OPENING.foldl(genesis, (s, o) => exec(s, o).s)

  run openingTest = {
    val r = OPENING.foldl({ ok: true, s: genesis }, (k, o) => {
      val e = exec(k.s, o)
      { ok: k.ok and e.ok, s: e.s }
    })
    assert(r.ok)
  }
}
