// Directed behaviours: templates that lead into situations which random choice rarely reaches, with
// random amounts aimed at the edges of the rules.  Each behaviour runs one template after the other,
// every one from the opened world.
module scenarios {
  import lending.* from "./lending"

  var at: { k: int, j: int, n: int, q: Rnd }   // template, position in it, account last opened or used, its random numbers

  // ---- building blocks --------------------------------------------------------------------------
  pure def near(x: int, k: int): int =
    pos1(pickN([x - 1, x, x + 1, x / 2, x * 2, x - x / 1000, x + x / 1000, x, x + 1, x - 1], k, x))
  pure def open(u: str, l: List[Pay]): Op = opSupply(u, 0, 0, l)
  pure def add(s0: State, n: int, t: str, x: int): Op = { ...op0, k: "supply", u: owner(s0, n), n: n, nft: true, p: [{ t: t, x: pos1(x) }] }
  pure def take(s0: State, n: int, t: str, x: int): Op = opBorrow(owner(s0, n), n, [{ t: t, x: x }])
  pure def out(s0: State, n: int, t: str, x: int): Op = { ...op0, k: "withdraw", u: owner(s0, n), n: n, nft: true, l: [{ t: t, x: x }] }
  pure def back(u: str, n: int, t: str, x: int): Op = { ...op0, k: "repay", u: u, n: n, p: [{ t: t, x: pos1(x) }] }
  pure def wait(ms: int): Op = { ...op0, k: "fresh", x: ms }
  pure def liq(u: str, n: int, l: List[Pay]): Op = { ...op0, k: "liquidate", u: u, n: n, p: l }
  pure def cfgSet(s0: State, t: str, l: List[{ i: int, v: int }]): Op =
    { ...op0, k: "editAsset", u: "owner", a: t, xs: l.foldl(cfgList(s0.cfg.get(t)), (z, e) => z.replaceAt(e.i, e.v)) }
  pure def claimOf(l: List[str]): Op = { ...op0, k: "claim", u: "carol", l: l.foldl([], (z, t) => z.append({ t: t, x: 0 })) }
  pure def acct(s0: State, n: int, t: str): Op = { ...op0, k: "viewAcct", n: n, a: t }
  pure def mkt(t: str): Op = { ...op0, k: "viewMkt", a: t }
  pure def px1(s0: State, t: str, f: int): Op = scaled(s0, t, f)
  pure def cleanOp(n: int): Op = { ...op0, k: "clean", u: "bob", n: n }
  pure def thresholdOp(t: str, f: bool, l: List[int]): Op = { ...op0, k: "threshold", u: "bob", a: t, f: f, xs: l }
  pure def DAY: int = 86400000
  pure def done: Op = { ...op0, k: "reset" }
  pure def at1(l: List[Op], j: int): Op = if (j < l.length()) l[j] else done
  pure def shown(s0: State, n: int): Op = { ...op0, k: "viewLiq", n: n, p: [],
    l: MARKETS.foldl([], (z, t) => if (depsOf(s0, n).concat(borsOf(s0, n)).select(y => y == t) != []) z.append({ t: t, x: 0 }) else z) }
  pure def has(s0: State, n: int): bool = s0.acc.keys().contains(n)
  pure def canLtv(s0: State, n: int, t: str): int = if (has(s0, n)) pos1(units(s0, t, ltvRoom(s0, n))) else 1
  pure def canHf(s0: State, n: int, t: str): int = if (has(s0, n)) pos1(units(s0, t, hfRoom(s0, n))) else 1
  pure def owes(s0: State, n: int, t: str): int = if (has(s0, n)) pos1(debtOf(s0, n, t)) else 1
  pure def ownsOf(s0: State, n: int, t: str): int =
    if (has(s0, n) and s0.acc.get(n).dep.keys().contains(t)) pos1(supOrig(sync(s0.pools.get(t), s0.now), s0.acc.get(n).dep.get(t).sc)) else 1
  pure def cash(s0: State, t: str): int = s0.pools.get(t).res
  pure def supplied(s0: State, t: str): int = down(mulR(s0.pools.get(t).sup, simIdx(s0.pools.get(t), s0.now).s), decimals(t))
  pure def borrowed(s0: State, t: str): int = down(mulR(s0.pools.get(t).bor, simIdx(s0.pools.get(t), s0.now).b), decimals(t))
  // price of collateral t at which account n has health factor f/1000
  pure def crashTo(s0: State, n: int, t: str, f: int): Op =
    if (not(has(s0, n)) or not(s0.acc.get(n).dep.keys().contains(t))) op0 else {
      val c = ctx(s0, true)
      val k = collateral(c, s0.acc.get(n))
      val d = debt(c, s0.acc.get(n))
      val part = mulR(egldRay(mulR(s0.acc.get(n).dep.get(t).sc, ix(c, t).s), px(c, t)), b2r(s0.acc.get(n).dep.get(t).thr))
      val want = d.v * f / 1000 - (k.w - part)
      if (not(k.ok) or not(d.ok) or part <= 0) op0 else {
        // (finer than one per mille)
        val num = imin(3 * part, imax(part / 100000, want))
        val z = if (t == "XEGLD") "xegld" else if (t == "LEGLD") "legld" else if (t == "LXOXNO") "lxoxno" else ""
        { ...op0, k: "reprice", a: t, b: z,
          x: if (z != "") pos1(s0.ls.get(z) * num / part) else if (s0.feeds.keys().contains(t)) pos1(s0.feeds.get(t).px * num / part) else 0,
          y: if (s0.safe.keys().contains(t)) pos1(s0.safe.get(t).x * num / part) else 0 }
      }
    }

  // ---- templates: position j of template k in state s0; n is the account opened or used last, q the template's
  // random numbers, r those of this step ------------------------------------------------------------
  // LTV raised above the threshold stored in an older position
  pure def tRaisedLtv(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = at1([
    cfgSet(s0, "EGLD", [{ i: 0, v: 5000 }, { i: 1, v: 5000 + 1 + q[1] % 500 }]),
    open("alice", [{ t: "EGLD", x: 100 * WAD + q[2] }]),
    cfgSet(s0, "EGLD", [{ i: 0, v: 8000 }, { i: 1, v: 8500 }]),
    add(s0, n, "EGLD", 1 + q[3]),
    take(s0, n, "USDC", near(canLtv(s0, n, "USDC"), r[1])),
    take(s0, n, "USDC", near(canHf(s0, n, "USDC"), r[1])),
    take(s0, n, "XOXNO", near(canHf(s0, n, "XOXNO"), r[2])),
    acct(s0, n, "EGLD"),
    thresholdOp("EGLD", true, [n]),
    take(s0, n, "USDC", near(canLtv(s0, n, "USDC"), r[1])),
    out(s0, n, "EGLD", near(100 * WAD - 100 * WAD / 7, r[3]))
  ], j)
  // a liquidation bonus above the cap, or none at all
  pure def tBigBonus(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = at1([
    cfgSet(s0, "XEGLD", [{ i: 2, v: if (q[1] % 4 == 0) 0 else 1400 + q[1] % 900 }, { i: 3, v: pickN([1500, 0, 1500], q[1] / 4, 1500) }]),
    open("alice", if (q[2] % 2 == 0) [{ t: "XEGLD", x: 100 * WAD }] else [{ t: "XEGLD", x: 100 * WAD }, { t: "XOXNO", x: 5000 * WAD }]),
    take(s0, n, "USDC", near(canLtv(s0, n, "USDC"), 5)),
    crashTo(s0, n, "XEGLD", pickN([999, 990, 950, 900, 820, 700, 300], q[3], 950)),
    shown(s0, n),
    liq("bob", n, [{ t: "USDC", x: near(owes(s0, n, "USDC"), r[1]) }]),
    acct(s0, n, "XEGLD"),
    liq("bob", n, [{ t: "USDC", x: near(owes(s0, n, "USDC"), r[2]) }]),
    cleanOp(n)
  ], j)
  // a payment without value
  pure def tWorthless(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = at1([
    open("alice", [{ t: "XEGLD", x: 100 * WAD }]),
    opBorrow("alice", n, [{ t: "USDC", x: 1000000000 }, { t: "XOXNO", x: 1000 * WAD }]),
    { ...op0, k: "reprice", a: "XOXNO", x: pos1(s0.feeds.get("XOXNO").px / pickN([10^13, 10^12, 10^10, 10^8, 10^7, 10^5, 1000], q[1], 1)), y: pos1(s0.safe.get("XOXNO").x / pickN([10^13, 10^12, 10^10, 10^8, 10^7, 10^5, 1000], q[1], 1)) },
    crashTo(s0, n, "XEGLD", pickN([999, 950, 800, 300], q[3], 950)),
    liq("bob", n, [{ t: "XOXNO", x: pickN([1, 2, 1000, 1000000000], r[1], 1) }]),
    { ...op0, k: "viewLiq", n: n, p: [{ t: "XOXNO", x: 1 }], l: [{ t: "XEGLD", x: 0 }, { t: "USDC", x: 0 }, { t: "XOXNO", x: 0 }] },
    liq("bob", n, [{ t: "XOXNO", x: 1 }, { t: "USDC", x: near(owes(s0, n, "USDC") / 3, r[2]) }]),
    liq("bob", n, [{ t: "XOXNO", x: near(owes(s0, n, "XOXNO"), r[3]) }])
  ], j)
  // a pool with nothing left in it: revenue can only be paid in part, withdrawals wait
  pure def tDrained(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val t = pickT(["EGLD", "USDC", "SILO"], q[1], "EGLD")
    at1([
      open("carol", [{ t: "XEGLD", x: 90000 * WAD }]),
      take(s0, n, t, if (q[2] % 3 == 0) cash(s0, t) else imax(1, cash(s0, t) - nat(t) * (q[3] % 1000) / 50000)),
      wait(DAY * (1 + q[4] % 700)),
      claimOf([t, t]),
      mkt(t),
      back("carol", n, t, near(pos1(supOrig(sync(s0.pools.get(t), s0.now), sync(s0.pools.get(t), s0.now).rev) * (q[5] % 100 + 1) / 80), 1)),
      claimOf([t]),
      out(s0, 1, t, near(cash(s0, t), r[1])),
      { ...op0, k: "flash", u: "bob", a: t, x: near(cash(s0, t), r[2]), y: near(cash(s0, t), r[2]) * 11 / 10, m: "pay" },
      back("carol", n, t, near(owes(s0, n, t) / 2, r[3])),
      claimOf([t]),
      { ...op0, k: "rewards", u: "owner", p: [{ t: t, x: pos1(nat(t) * (q[6] % 100) / 100) }] },
      out(s0, 1, t, near(cash(s0, t), r[4])),
      back("bob", n, t, near(owes(s0, n, t), 8)),
      claimOf([t, "XEGLD"]),
      out(s0, n, "XEGLD", near(ownsOf(s0, n, "XEGLD"), r[5]))
    ], j)
  }
  // supply and borrow caps at their edge, through every door
  pure def tCaps(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val t = pickT(["EGLD", "CAP", "USDC"], q[1], "EGLD")
    val v = pickT(["XEGLD", "XOXNO"], q[2], "XEGLD")
    val room = pos1(nat(t) * (q[3] % 900 + 100) / 300)
    at1([
      wait(DAY * (q[4] % 300)),
      open("alice", [{ t: v, x: nat(v) * 40 }]),
      cfgSet(s0, t, [{ i: 12, v: borrowed(s0, t) + room }, { i: 13, v: supplied(s0, t) + room }]),
      wait(1000 * (q[5] % 90000)),
      take(s0, n, t, near(s0.cfg.get(t).bcap - borrowed(s0, t), r[1])),
      { ...op0, k: "swapDebt", u: "alice", n: n, nft: true, a: "USDC", b: t, x: near(s0.cfg.get(t).bcap - borrowed(s0, t), r[2]), s1: [{ t: "USDC", x: 1000000 }] },
      { ...op0, k: "multiply", u: "bob", a: v, b: t, x: near(s0.cfg.get(t).bcap - borrowed(s0, t), r[3]), m: "Long", p: [{ t: v, x: nat(v) * 10 }], s1: [{ t: v, x: nat(v) }] },
      add(s0, n, t, near(s0.cfg.get(t).scap - supplied(s0, t), r[4])),
      wait(1000 * (q[6] % 5)),
      { ...op0, k: "swapColl", u: "alice", n: n, nft: true, a: v, b: t, x: nat(v), s1: [{ t: t, x: near(s0.cfg.get(t).scap - supplied(s0, t), r[5]) }] },
      { ...op0, k: "multiply", u: "bob", a: t, b: "XOXNO", x: nat("XOXNO") / 10, m: "Short", p: [{ t: t, x: near(s0.cfg.get(t).scap - supplied(s0, t) - nat(t) / 100, r[6]) }], s1: [{ t: t, x: pos1(nat(t) / 100) }] },
      cfgSet(s0, t, [{ i: 12, v: pos1(borrowed(s0, t) / 2) }, { i: 13, v: pos1(supplied(s0, t) / 2) }]),
      add(s0, n, t, 1),
      take(s0, n, t, 1),
      back("alice", n, t, near(owes(s0, n, t), r[7])),
      out(s0, n, t, near(ownsOf(s0, n, t), r[8])),
      cfgSet(s0, t, [{ i: 12, v: 0 }, { i: 13, v: 0 }]),
      take(s0, n, t, near(canLtv(s0, n, t), r[9]))
    ], j)
  }
  // isolated collateral: ceiling, interest, repayment in every way
  pure def tIsolated(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val t = if (q[1] % 2 == 0) "ISO" else "ISO6"
    val d = if (q[2] % 2 == 0) "USDC" else "CAP"
    val k = 1 + q[3] % 60
    val room = if (has(s0, n)) units(s0, d, imax(0, s0.cfg.get(t).ceil - s0.isoDebt.get(t)) * E9 * WAD / imax(1, egldUsd(s0))) else 1
    at1([
      open("alice", [{ t: t, x: nat(t) * k }]),
      add(s0, n, pickT([t, "USDC", "EGLD"], r[1], t), nat("USDC")),
      opSupply("bob", n, 0, [{ t: t, x: nat(t) }, { t: t, x: 1 }]),
      take(s0, n, d, if (r[2] % 2 == 0) near(room, r[3]) else near(imin(canLtv(s0, n, d), room), r[3])),
      take(s0, n, "EGLD", WAD),
      take(s0, n, d, near(imin(canLtv(s0, n, d), room), r[4])),
      wait(DAY * (q[4] % 400)),
      back("bob", n, d, near(owes(s0, n, d) / 3, r[5])),
      { ...op0, k: "multiply", u: "alice", n: n, nft: true, a: t, b: d, x: near(room, r[6]), m: "Long", s1: [{ t: t, x: nat(t) }] },
      { ...op0, k: "multiply", u: "carol", a: t, b: d, x: near(imin(room, nat(d)), r[6]), m: "Long", p: [{ t: t, x: nat(t) * 3 }], s1: [{ t: t, x: nat(t) }] },
      { ...op0, k: "swapDebt", u: owner(s0, n), n: n, nft: true, a: d, b: if (d == "USDC") "CAP" else "USDC", x: near(nat(if (d == "USDC") "CAP" else "USDC") / 20, r[7]), s1: [{ t: d, x: pos1(nat(d) / 20) }] },
      { ...op0, k: "swapColl", u: owner(s0, n), n: n, nft: true, a: t, b: "USDC", x: 1000, s1: [{ t: "USDC", x: 1000 }] },
      { ...op0, k: "repayColl", u: owner(s0, n), n: n, nft: true, a: t, b: d, x: pos1(nat(t) / 10), s1: [{ t: d, x: pos1(nat(d) / 11) }] },
      crashTo(s0, n, t, pickN([1000, 990, 900, 700, 300, 20], q[5], 900)),
      liq("bob", n, [{ t: d, x: near(owes(s0, n, d), r[8]) }]),
      cleanOp(n),
      back("alice", n, d, near(owes(s0, n, d), r[9])),
      out(s0, n, t, near(ownsOf(s0, n, t), r[10])),
      take(s0, 3, "USDC", near(room, r[11]))
    ], j)
  }
  // e-mode: what the category allows, and what happens when it changes or goes away
  pure def tEmode(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = at1([
    { ...op0, k: "addCat", u: "owner", xs: [8500, 9000, 300] },
    { ...op0, k: "addAsset", u: "owner", n: 2, a: "XEGLD", xs: [1, q[1] % 2] },
    { ...op0, k: "addAsset", u: "owner", n: 2, a: "EGLD", xs: [q[2] % 2, 1] },
    { ...op0, k: "addAsset", u: "owner", n: 2, a: pickT(["USDC", "ISO", "SILO", "XEGLD"], q[3], "USDC"), xs: [1, 1] },
    opSupply("alice", 0, if (q[4] % 5 == 0) 1 else 2, [{ t: "XEGLD", x: 100 * WAD }]),
    add(s0, n, pickT(["EGLD", "LEGLD", "ISO", "USDC", "SILO"], r[1], "EGLD"), nat("USDC")),
    take(s0, n, pickT(["USDC", "XOXNO", "LEGLD", "SILO"], r[2], "USDC"), 1000),
    take(s0, n, "EGLD", near(canLtv(s0, n, "EGLD"), r[3])),
    opSupply("bob", n, 1, [{ t: "XEGLD", x: WAD }]),
    acct(s0, n, "EGLD"),
    if (q[5] % 4 == 0) { ...op0, k: "removeCat", u: "owner", n: 2 }
    else if (q[5] % 4 == 1) { ...op0, k: "editCat", u: "owner", n: 2, xs: [7000, 7500 + q[6] % 1500, 900], f: q[6] % 3 == 0 }
    else if (q[5] % 4 == 2) { ...op0, k: "removeAsset", u: "owner", n: 2, a: pickT(["XEGLD", "EGLD"], q[6], "EGLD") }
    else { ...op0, k: "editEmAsset", u: "owner", n: 2, a: pickT(["XEGLD", "EGLD"], q[6], "EGLD"), xs: [0, 0] },
    thresholdOp("XEGLD", r[4] % 2 == 0, [n]),
    add(s0, n, "XEGLD", WAD),
    take(s0, n, "EGLD", 1000),
    { ...op0, k: "swapColl", u: "alice", n: n, nft: true, a: "XEGLD", b: "EGLD", x: WAD, s1: [{ t: "EGLD", x: WAD }] },
    { ...op0, k: "multiply", u: "alice", a: "XEGLD", b: "EGLD", y: 2, x: WAD, m: "Multiply", p: [{ t: "XEGLD", x: 10 * WAD }], s1: [{ t: "XEGLD", x: WAD }] },
    { ...op0, k: "swapDebt", u: owner(s0, n), n: n, nft: true, a: "EGLD", b: "XEGLD", x: WAD / 10, s1: [{ t: "EGLD", x: WAD / 10 }] },
    crashTo(s0, n, "XEGLD", pickN([1000, 999, 950, 800], q[7], 950)),
    liq("bob", n, [{ t: "EGLD", x: near(owes(s0, n, "EGLD"), r[5]) }]),
    back("bob", n, "EGLD", near(owes(s0, n, "EGLD"), 8)),
    out(s0, n, "XEGLD", near(ownsOf(s0, n, "XEGLD"), r[6]))
  ], j)
  // siloed debt
  pure def tSilo(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = at1([
    open("alice", [{ t: "EGLD", x: 100 * WAD }, { t: "XEGLD", x: 10 * WAD }]),
    opBorrow("alice", n, if (q[1] % 4 == 0) [{ t: "SILO", x: 10 * WAD }, { t: "USDC", x: 1000000 }] else if (q[1] % 4 == 1) [{ t: "USDC", x: 1000000 }, { t: "SILO", x: 10 * WAD }]
      else if (q[1] % 4 == 2) [{ t: "SILO", x: 10 * WAD }, { t: "SILO", x: WAD }] else [{ t: "USDC", x: 1000000 }, { t: "XOXNO", x: WAD }]),
    take(s0, n, pickT(["USDC", "SILO"], q[2], "USDC"), 1000000),
    take(s0, n, pickT(["SILO", "USDC"], q[2], "SILO"), 1000000),
    take(s0, n, "SILO", 10 * WAD),
    { ...op0, k: "multiply", u: "alice", a: "XEGLD", b: "SILO", x: 10 * WAD, m: "Long", p: [{ t: "XEGLD", x: 10 * WAD }], s1: [{ t: "XEGLD", x: WAD }] },
    take(s0, n, "USDC", 1000000),
    { ...op0, k: "multiply", u: "alice", n: n, nft: true, a: "XEGLD", b: pickT(["SILO", "USDC", "EGLD"], r[1], "SILO"), x: 1000000, m: "Long", s1: [{ t: "XEGLD", x: 1000 }] },
    { ...op0, k: "swapDebt", u: "alice", n: n, nft: true, a: pickT(["SILO", "USDC"], r[2], "USDC"), b: pickT(["USDC", "SILO"], r[2], "SILO"), x: 1000000, s1: [{ t: pickT(["SILO", "USDC"], r[2], "USDC"), x: 1000000 }] },
    cfgSet(s0, pickT(["USDC", "SILO"], q[3], "USDC"), [{ i: 6, v: q[4] % 2 }]),
    take(s0, n, "USDC", 1000000),
    take(s0, n, "SILO", 1000000),
    take(s0, n, "XOXNO", 1000000),
    { ...op0, k: "swapDebt", u: "alice", n: n, nft: true, a: "SILO", b: "EGLD", x: 1000000, s1: [{ t: "SILO", x: 1000000 }] },
    back("alice", n, "SILO", near(owes(s0, n, "SILO"), r[3])),
    take(s0, n, "USDC", 1000000)
  ], j)
  // position limits, through every door
  pure def tLimits(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = at1([
    { ...op0, k: "limits", u: "owner", x: 1 + q[1] % 2, y: 1 + q[2] % 3 },
    open("alice", [{ t: "EGLD", x: 50 * WAD }, { t: pickT(["EGLD", "USDC"], q[3], "EGLD"), x: 1000000 }]),
    open("alice", [{ t: "EGLD", x: 50 * WAD }]),
    add(s0, n, "XEGLD", WAD),
    opSupply("bob", n, 0, [{ t: "USDC", x: 1000000 }, { t: "XOXNO", x: WAD }]),
    add(s0, n, "XOXNO", WAD),
    opBorrow("alice", n, [{ t: "USDC", x: 1000000 }, { t: pickT(["USDC", "XOXNO"], r[1], "USDC"), x: 1000000 }]),
    take(s0, n, "XOXNO", WAD),
    take(s0, n, "EGLD", WAD / 100),
    { ...op0, k: "swapDebt", u: "alice", n: n, nft: true, a: "USDC", b: "XEGLD", x: near(WAD / 40, r[2]), s1: [{ t: "USDC", x: near(owes(s0, n, "USDC"), r[3]) }] },
    { ...op0, k: "swapColl", u: "alice", n: n, nft: true, a: "EGLD", b: "CAP", x: pickN([WAD, 50 * WAD, 100 * WAD], r[4], WAD), s1: [{ t: "CAP", x: 100000 }] },
    { ...op0, k: "multiply", u: "alice", a: "XEGLD", b: "EGLD", x: WAD, m: "Multiply", p: [{ t: "XEGLD", x: 10 * WAD }], s1: [{ t: "XEGLD", x: WAD }] },
    { ...op0, k: "multiply", u: "alice", n: n, nft: true, a: "XEGLD", b: "USDC", x: 1000000, m: "Multiply", s1: [{ t: "XEGLD", x: WAD / 50 }] },
    { ...op0, k: "multiply", u: "alice", n: n, nft: true, a: "USDC", b: "EGLD", x: WAD / 50, m: "Multiply", s1: [{ t: "USDC", x: 700000 }] },
    { ...op0, k: "limits", u: "owner", x: 1, y: 1 },
    add(s0, n, "XEGLD", WAD),
    take(s0, n, "EGLD", WAD / 1000)
  ], j)
  // bad debt around five dollars
  pure def tBadDebt(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val t = pickT(["XEGLD", "XOXNO", "USDC", "LEGLD"], q[1], "XEGLD")
    val b = if (t == "USDC") "EGLD" else pickT(["USDC", "EGLD"], q[2], "USDC")
    val exact = t == "XEGLD" and q[3] % 3 > 0   // (nobody owes XEGLD, so its index is one: 50 of them at 1/400 EGLD are five dollars)
    at1([
      open("alice", [{ t: t, x: if (exact) 50 * WAD else nat(t) * 2 + q[3] }]),
      take(s0, n, b, near(canLtv(s0, n, b), 5)),
      if (q[4] % 2 == 0) take(s0, n, "CAP", near(canLtv(s0, n, "CAP"), 5)) else op0,
      // the collateral is worth about five dollars
      if (exact) { ...op0, k: "reprice", a: t, b: "xegld", x: WAD / 400 + pickN([0, 0, 1], q[5], 0) }
      else if (not(has(s0, n))) op0 else {
        val c = ctx(s0, true)
        val k = collateral(c, s0.acc.get(n))
        val f = { num: 5 * WAD * (pickN([1000, 999, 1001, 500, 1200, 1000, 2000], q[5], 1000)), den: imax(1, usdOf(k.tot, c.usd)) * 1000 }
        val z = if (t == "XEGLD") "xegld" else if (t == "LEGLD") "legld" else ""
        { ...op0, k: "reprice", a: t, b: z,
          x: if (z != "") pos1(s0.ls.get(z) * f.num / f.den) else pos1(s0.feeds.get(t).px * f.num / f.den),
          y: if (s0.safe.keys().contains(t)) pos1(s0.safe.get(t).x * f.num / f.den) else 0 }
      },
      acct(s0, n, t),
      cleanOp(n),
      liq("bob", n, [{ t: b, x: near(pos1(owes(s0, n, b) / 400), r[1]) }]),
      cleanOp(n),
      px1(s0, t, 995),
      cleanOp(n),
      mkt(b),
      out(s0, 1, b, near(nat(b), r[2])),
      add(s0, 1, b, near(nat(b), r[3])),
      wait(DAY * (1 + q[6] % 60)),
      claimOf([t, b]),
      // the account's token is still there, the account is not
      { ...op0, k: "withdraw", u: "alice", n: n, nft: true, l: [{ t: t, x: 1000 }] },
      { ...op0, k: "supply", u: "alice", n: n, nft: true, p: [{ t: t, x: 1000 }] },
      back("bob", n, b, 1000)
    ], j)
  }
  // everything that users can do, while the system is paused and after it resumed
  pure def calls(s0: State, j: int, n: int): Op =
    if (j % 12 == 0) add(s0, n, "EGLD", WAD)
    else if (j % 12 == 1) take(s0, n, "USDC", 1000000)
    else if (j % 12 == 2) out(s0, n, "EGLD", WAD)
    else if (j % 12 == 3) back("bob", n, "USDC", 1000000)
    else if (j % 12 == 4) liq("bob", 2, [{ t: "USDC", x: 10000000 }])
    else if (j % 12 == 5) { ...op0, k: "flash", u: "bob", a: "USDC", x: 1000000, y: 2000000, m: "pay" }
    else if (j % 12 == 6) thresholdOp("EGLD", false, [n])
    else if (j % 12 == 7) { ...op0, k: "indexes", u: "bob", l: [{ t: "EGLD", x: 0 }, { t: "USDC", x: 0 }] }
    else if (j % 12 == 8) { ...op0, k: "multiply", u: "bob", a: "XEGLD", b: "EGLD", x: WAD, m: "Multiply", p: [{ t: "XEGLD", x: 10 * WAD }], s1: [{ t: "XEGLD", x: WAD }] }
    else if (j % 12 == 9) { ...op0, k: "swapDebt", u: "carol", n: 3, nft: true, a: "USDC", b: "CAP", x: 1000, s1: [{ t: "USDC", x: 500000 }] }
    else if (j % 12 == 10) { ...op0, k: "swapColl", u: "alice", n: 2, nft: true, a: "EGLD", b: "XEGLD", x: WAD, s1: [{ t: "XEGLD", x: WAD }] }
    else { ...op0, k: "repayColl", u: "alice", n: 2, nft: true, a: "EGLD", b: "USDC", x: WAD / 10, s1: [{ t: "USDC", x: 4000000 }] }
  pure def tPaused(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op =
    if (j == 0) open("alice", [{ t: "EGLD", x: 100 * WAD }])
    else if (j == 1) take(s0, n, "USDC", 100000000)
    else if (j == 2) crashTo(s0, 2, "XOXNO", 990)
    else if (j == 3) (if (q[1] % 3 == 0) { ...op0, k: "upgradeCtl", u: "owner" } else { ...op0, k: "pause", u: "owner" })
    else if (j <= 12) calls(s0, j + q[2], n)
    else if (j == 13) claimOf(["USDC", "EGLD"])
    else if (j == 14) { ...op0, k: "unpause", u: if (q[3] % 2 == 0) "owner" else "bob" }
    else if (j <= 18) calls(s0, r[1], n)
    else if (j == 19) { ...op0, k: "unpause", u: "owner" }
    else if (j <= 28) calls(s0, j + q[2], n)
    else done
  // every user operation against an account for which it would succeed, while the system is paused and after it resumed
  pure def valid(s0: State, j: int, n: int): Op = {
    val h = pos1(ownsOf(s0, n, "XEGLD") / 50)
    val u = if (has(s0, n)) owner(s0, n) else "alice"
    val o = { ...op0, u: u, n: n, nft: true }
    val l = [
      add(s0, n, "XEGLD", WAD / 1000),
      take(s0, n, "CAP", 1000),
      out(s0, n, "XEGLD", h),
      back("bob", n, "USDC", pos1(owes(s0, n, "USDC") / 9)),
      liq("bob", n, [{ t: "USDC", x: pos1(owes(s0, n, "USDC") / 7) }]),
      cleanOp(n),
      { ...op0, k: "flash", u: "bob", a: "USDC", x: 1000000, y: 2000000, m: "pay" },
      thresholdOp("XEGLD", false, [n]),
      { ...op0, k: "indexes", u: "bob", l: [{ t: "EGLD", x: 0 }, { t: "USDC", x: 0 }] },
      { ...op0, k: "multiply", u: "bob", a: "XEGLD", b: "EGLD", x: WAD, m: "Multiply", p: [{ t: "XEGLD", x: 10 * WAD }], s1: [{ t: "XEGLD", x: WAD }] },
      { ...o, k: "swapDebt", a: "USDC", b: "EGLD", x: WAD / 10, s1: [{ t: "USDC", x: pos1(routed(s0, "EGLD", "USDC", WAD / 10, 0)) }] },
      { ...o, k: "swapColl", a: "XEGLD", b: "LEGLD", x: h, s1: [{ t: "LEGLD", x: pos1(routed(s0, "XEGLD", "LEGLD", h, 0)) }] },
      { ...o, k: "repayColl", a: "XEGLD", b: "USDC", x: h, s1: [{ t: "USDC", x: pos1(routed(s0, "XEGLD", "USDC", h, 0)) }] }]
    l[j % 13]
  }
  pure def tHalted(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op =
    if (j == 0) open("alice", [{ t: "XEGLD", x: 50 * WAD }])
    else if (j == 1) take(s0, n, "USDC", if (q[1] % 3 == 0) pos1(canLtv(s0, n, "USDC") / 2) else pos1(canLtv(s0, n, "USDC") * 98 / 100))
    // healthy, liquidatable or hopeless
    else if (j == 2) (if (q[1] % 3 == 0) op0 else if (q[1] % 3 == 1) crashTo(s0, n, "XEGLD", 900) else { ...op0, k: "reprice", a: "XEGLD", b: "xegld", x: WAD / 1000 })
    else if (j == 3) (if (q[4] % 4 == 0) { ...op0, k: "upgradeCtl", u: "owner" } else { ...op0, k: "pause", u: "owner" })
    else if (j <= 16) valid(s0, j + q[2], n)
    else if (j == 17) { ...op0, k: "unpause", u: "owner" }
    else if (j <= 30) valid(s0, j + q[3], n)
    else done
  // the aggregator stops: nothing that needs a price works
  pure def tNoPrices(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op =
    if (j == 0) open("alice", [{ t: "EGLD", x: 100 * WAD }])
    else if (j == 1) take(s0, n, "USDC", 100000000)
    else if (j == 2) crashTo(s0, 2, "XOXNO", 990)
    else if (j == 3) { ...op0, k: "aggPause", f: true }
    else if (j <= 10) calls(s0, j + q[2], n)
    else if (j == 11) mkt("USDC")
    else if (j == 12) { ...op0, k: "aggPause", f: false }
    else if (j == 13) { ...op0, k: "time", x: 1000 * pickN([899, 900, 1799, 1800, 3598, 3599, 3600, 3601], q[3], 3599) }
    else if (j <= 22) calls(s0, j + q[4], n)
    else if (j == 23) mkt(pickT(MARKETS, q[5], "USDC"))
    else done
  // account tokens change hands
  pure def tHands(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = at1([
    open("alice", [{ t: "EGLD", x: 100 * WAD }]),
    take(s0, n, "USDC", 100000000),
    { ...op0, k: "xfer", u: "alice", n: n, b: pickT(["bob", "carol", "rcv"], q[1], "bob") },
    { ...op0, k: pickT(["withdraw", "borrow"], q[2], "withdraw"), u: "alice", n: n, nft: true, l: [{ t: "EGLD", x: WAD }] },
    { ...op0, k: "repayColl", u: "alice", n: n, nft: true, a: "EGLD", b: "USDC", x: WAD / 10, s1: [{ t: "USDC", x: 4000000 }] },
    opSupply("alice", n, 0, [{ t: "EGLD", x: WAD }]),
    take(s0, n, "USDC", 1000000),
    out(s0, n, "EGLD", WAD),
    { ...op0, k: "repayColl", u: owner(s0, n), n: n, nft: true, a: "EGLD", b: "USDC", x: near(4 * WAD, r[1]), s1: [{ t: "USDC", x: 130000000 }], f: r[2] % 2 == 0 },
    back("alice", n, "USDC", 200000000),
    out(s0, n, "EGLD", near(ownsOf(s0, n, "EGLD"), 1 + r[3] % 2)),
    { ...op0, k: "withdraw", u: "bob", n: n, nft: true, l: [{ t: "EGLD", x: WAD }] },
    opSupply("alice", n, 0, [{ t: "EGLD", x: WAD }]),
    open("alice", [{ t: "EGLD", x: WAD }])
  ], j)
  // a market is emptied and comes back
  pure def tExit(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val t = pickT(["CAP", "SILO", "XEGLD"], q[1], "CAP")
    at1([
      wait(DAY * (q[2] % 300)),
      back("bob", 7, "SILO", 200 * WAD),
      out(s0, 7, "CAP", 2000000),
      { ...op0, k: "repayColl", u: "bob", n: 8, nft: true, a: "XEGLD", b: "EGLD", x: 30 * WAD, s1: [{ t: "EGLD", x: 30 * WAD }], f: true },
      back("bob", 4, "EGLD", 60 * WAD),
      out(s0, 4, "XEGLD", 60 * WAD),
      out(s0, 1, t, near(ownsOf(s0, 1, t), 4)),
      claimOf([t]),
      mkt(t),
      { ...op0, k: "rewards", u: "owner", p: [{ t: t, x: near(nat(t) / 10, r[1]) }] },
      wait(DAY * (q[3] % 30)),
      open("carol", [{ t: t, x: pickN([1, 2, 1000, nat(t)], q[4], 1) }]),
      { ...op0, k: "rewards", u: "owner", p: [{ t: t, x: pickN([1, 1000, nat(t), nat(t) * 50], q[5], 1) }] },
      open("alice", [{ t: t, x: pickN([1, 2, 1000, nat(t)], q[6], 1) }]),
      claimOf([t]),
      out(s0, n, t, near(ownsOf(s0, n, t), r[2])),
      mkt(t)
    ], j)
  }
  // liquidation until nothing is left
  pure def tGrind(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val c1 = pickT(["XEGLD", "XOXNO", "USDC"], q[1], "XEGLD")
    val c2 = pickT(["LEGLD", "SILO", "CAP"], q[2], "LEGLD")
    val b1 = pickT(["EGLD", "CAP"], q[3], "EGLD")
    val b2 = pickT(["USDC", "XOXNO"], if (c1 == "USDC") 1 else if (c1 == "XOXNO") 0 else q[4], "USDC")
    if (j == 0) open("alice", [{ t: c1, x: nat(c1) * (1 + q[5] % 9) }, { t: c2, x: pos1(nat(c2) * (q[6] % 200) / 100) }])
    else if (j == 1) take(s0, n, b1, near(canLtv(s0, n, b1) * (q[7] % 80 + 10) / 100, 1))
    else if (j == 2) take(s0, n, b2, near(canLtv(s0, n, b2), 5))
    else if (j == 3) wait(DAY * (q[8] % 200))
    else if (j % 4 == 0) crashTo(s0, n, c1, pickN([1000, 999, 995, 980, 950, 920, 900, 850, 700, 400, 100], q[9] + j, 950))
    else if (j % 4 == 1) (if (has(s0, n)) { ...shown(s0, n), p: gPayments(s0, n, r, 1) } else op0)
    else if (j == 18) cleanOp(n)
    else if (j > 18) done
    else if (has(s0, n)) liq(user(r[9]), n, gPayments(s0, n, r, 1)) else done
  }
  // risk parameters change under open positions
  pure def tThresholds(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = at1([
    open("alice", [{ t: "XEGLD", x: 100 * WAD }]),
    take(s0, n, "USDC", near(canLtv(s0, n, "USDC"), 5)),
    open("bob", [{ t: "XEGLD", x: 100 * WAD }, { t: "USDC", x: 1000000 }]),
    take(s0, n, "EGLD", near(canLtv(s0, n, "EGLD") / 2, 1)),
    cfgSet(s0, "XEGLD", [{ i: 0, v: 5000 }, { i: 1, v: 5500 + q[1] % 3500 }, { i: 2, v: q[2] % 1500 }, { i: 3, v: q[3] % 3000 }]),
    thresholdOp("XEGLD", true, [n - 1, n]),
    thresholdOp("XEGLD", false, [n, n - 1, n]),
    thresholdOp("XEGLD", true, [n]),
    thresholdOp("USDC", true, [n, n - 1]),
    // right at the safety margin of the update
    crashTo(s0, n - 1, "XEGLD", pickN([1050, 1049, 1051, 1000, 1100], q[4], 1050)),
    cfgSet(s0, "XEGLD", [{ i: 0, v: 6000 }, { i: 1, v: 7000 + q[5] % 1500 }]),
    thresholdOp("XEGLD", true, [n - 1]),
    { ...op0, k: "threshold", u: "bob", a: "XEGLD", f: true, xs: [1, 2, 4, 8] },
    thresholdOp("XEGLD", r[1] % 2 == 0, [s0.nonce + 5]),
    acct(s0, n, "XEGLD"),
    liq("carol", n - 1, [{ t: "USDC", x: near(owes(s0, n - 1, "USDC") / 2, r[2]) }])
  ], j)
  // leveraged positions from opening to closing
  pure def tLeverage(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val a = pickT(["XEGLD", "EGLD", "USDC", "XOXNO"], q[1], "XEGLD")
    val b = pickT(["EGLD", "USDC", "XEGLD", "EGLD"], q[1], "EGLD")
    val o = pickT(["XOXNO", "SILO", "CAP", "LEGLD"], q[2], "CAP")
    val pt = pickT([a, b, o], q[3], a)
    val pay0 = nat(pt) * (1 + q[4] % 5)
    val borrowX = routed(s0, pt, b, pay0, 0) * (q[5] % 250 + 10) / 100
    val net = borrowX - borrowX * s0.cfg.get(b).ffee / BPS + (if (pt == b) pay0 else 0)
    at1([
      { ...op0, k: "multiply", u: "alice", a: a, b: b, x: borrowX, y: if (q[6] % 4 == 0) 1 else 0, m: pickT(["Multiply", "Long", "Short"], q[7], "Long"), p: [{ t: pt, x: pay0 }],
        f: pt == o, s1: outs(a, routed(s0, b, a, net, r[1]), o, r[2]), s2: if (pt == o) outs(a, routed(s0, o, a, pay0, r[3]), b, r[4]) else [] },
      wait(DAY * (q[8] % 200)),
      gMultiply2(s0, n, a, b, r),
      { ...op0, k: "swapDebt", u: owner(s0, n), n: n, nft: true, a: b, b: "SILO", x: 1000, s1: [{ t: b, x: 1000 }] },
      { ...op0, k: "swapDebt", u: owner(s0, n), n: n, nft: true, a: b, b: "CAP", x: routed(s0, b, "CAP", imin(owes(s0, n, b), nat(b)), 0), s1: outs(b, near(imin(owes(s0, n, b), nat(b)), r[1]), "CAP", r[2]) },
      { ...op0, k: "swapColl", u: owner(s0, n), n: n, nft: true, a: a, b: "LEGLD", x: near(ownsOf(s0, n, a) / 4, r[3]), s1: outs("LEGLD", routed(s0, a, "LEGLD", pos1(ownsOf(s0, n, a) / 4), 0), a, r[4]) },
      wait(DAY * (q[9] % 100)),
      { ...op0, k: "repayColl", u: owner(s0, n), n: n, nft: true, a: a, b: b, x: near(ownsOf(s0, n, a) / 2, r[5]), f: r[6] % 2 == 0, s1: outs(b, routed(s0, a, b, pos1(ownsOf(s0, n, a) / 2), r[7]), a, r[8]) },
      back("bob", n, "CAP", near(owes(s0, n, "CAP"), r[9])),
      { ...op0, k: "repayColl", u: owner(s0, n), n: n, nft: true, a: "LEGLD", b: b, x: near(ownsOf(s0, n, "LEGLD"), r[5]), f: true, s1: outs(b, routed(s0, "LEGLD", b, ownsOf(s0, n, "LEGLD"), 0), a, r[8]) },
      { ...op0, k: "repayColl", u: owner(s0, n), n: n, nft: true, a: a, b: b, x: near(ownsOf(s0, n, a), r[5]), f: true, s1: outs(b, near(owes(s0, n, b) * 2, 1), a, r[8]) },
      out(s0, n, a, 2 * ownsOf(s0, n, a))
    ], j)
  }
  pure def gMultiply2(s0: State, n: int, a: str, b: str, r: Rnd): Op = {
    val x = near(canLtv(s0, n, b), r[1])
    { ...op0, k: "multiply", u: owner(s0, n), n: n, nft: true, a: a, b: b, x: x, m: "Long", f: r[2] % 2 == 0, s1: outs(a, routed(s0, b, a, x - x * s0.cfg.get(b).ffee / BPS, r[3]), b, r[4]) }
  }
  // the router calls back into the controller while it holds the tokens of a strategy
  pure val CALLBACKS: List[str] = ["clean", "liquidate", "repay", "supply", "borrow", "withdraw", "threshold", "indexes", "flash", "multiply", "swapDebt", "swapColl", "repayColl"]
  // the router's trade moves a staking rate: what counts is the account's health after the swap
  pure def tMoved(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val x = WAD * (5 + q[1] % 20)
    val h = pos1(ownsOf(s0, n, "XEGLD") / (30 + r[5] % 100))
    val me = { ...op0, u: if (has(s0, n)) owner(s0, n) else "alice", n: n, nft: true, re: pickT(["xegld", "xegld", "legld", "lxoxno", ""], r[4], "xegld") }
    val kinds = [
      { ...me, k: "multiply", a: "XEGLD", b: "EGLD", x: WAD / 10, m: "Long", s1: [{ t: "XEGLD", x: pos1(routed(s0, "EGLD", "XEGLD", WAD / 10, 0)) }] },
      { ...me, k: "swapDebt", a: if (q[2] % 2 == 0) "EGLD" else "USDC", b: "CAP", x: 1000, s1: [{ t: if (q[2] % 2 == 0) "EGLD" else "USDC", x: 1000 }] },
      { ...me, k: "swapColl", a: "XEGLD", b: "LEGLD", x: h, s1: [{ t: "LEGLD", x: pos1(routed(s0, "XEGLD", "LEGLD", h, 0)) }] },
      { ...me, k: "repayColl", a: "XEGLD", b: if (q[2] % 2 == 0) "EGLD" else "USDC", x: h, f: r[6] % 2 == 0,
        s1: [{ t: if (q[2] % 2 == 0) "EGLD" else "USDC", x: pos1(routed(s0, "XEGLD", if (q[2] % 2 == 0) "EGLD" else "USDC", h, 0)) }] }]
    if (j == 0) (if (q[2] % 2 == 0)
      { ...op0, k: "multiply", u: "alice", a: "XEGLD", b: "EGLD", x: x, m: "Long", p: [{ t: "EGLD", x: pos1(x * (32 + q[3] % 12) / 100) }],
        s1: [{ t: "XEGLD", x: routed(s0, "EGLD", "XEGLD", x + pos1(x * (32 + q[3] % 12) / 100), 0) }], re: if (q[4] % 3 == 0) "xegld" else "" }
      else open("alice", [{ t: "XEGLD", x: x }]))
    else if (j == 1) (if (q[6] % 3 == 0) add(s0, n, "LXOXNO", nat("LXOXNO") / 5) else op0)
    else if (j == 2) (if (q[2] % 2 == 0) { ...op0, k: "ls", a: "xegld", x: 1050000000000000000 } else take(s0, n, "USDC", pos1(canLtv(s0, n, "USDC") * (95 + q[5] % 5) / 100)))
    else if (j <= 24) (if (j % 3 == 0) { ...op0, k: "ls", a: pickT(["xegld", "xegld", "legld"], r[1], "xegld"), x: 1050000000000000000 * (990 + r[3] % 60) / 1000 } else kinds[r[2] % 4])
    else done
  }
  pure def tCallback(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val x = 10 * WAD * (1 + q[1] % 20) / 10
    val start = { ...op0, k: "multiply", u: "alice", a: "XEGLD", b: "EGLD", x: x, m: "Long", p: [{ t: "EGLD", x: 2 * x }],
      s1: outs("XEGLD", routed(s0, "EGLD", "XEGLD", 3 * x, 2), "USDC", q[2]) }
    val h = if (has(s0, n) and s0.acc.get(n).dep.keys().contains("XEGLD")) ownsOf(s0, n, "XEGLD") / 20 else 1
    val kinds = [
      { ...op0, k: "multiply", u: owner(s0, n), n: n, nft: true, a: "XEGLD", b: "EGLD", x: WAD, m: "Long", s1: outs("XEGLD", routed(s0, "EGLD", "XEGLD", WAD, 2), "USDC", 5) },
      { ...op0, k: "swapDebt", u: owner(s0, n), n: n, nft: true, a: "EGLD", b: "USDC", x: 10000000, s1: outs("EGLD", routed(s0, "USDC", "EGLD", 10000000, 0), "USDC", 5) },
      { ...op0, k: "swapColl", u: owner(s0, n), n: n, nft: true, a: "XEGLD", b: "LEGLD", x: pos1(h), s1: outs("LEGLD", routed(s0, "XEGLD", "LEGLD", pos1(h), 0), "USDC", 5) },
      { ...op0, k: "repayColl", u: owner(s0, n), n: n, nft: true, a: "XEGLD", b: "EGLD", x: pos1(h), s1: outs("EGLD", routed(s0, "XEGLD", "EGLD", pos1(h), 0), "USDC", 5) }]
    if (j == 0) { ...op0, k: "xfer", u: "rcv", n: 6, b: "rtr" }
    else if (j == 1) { ...start, re: "clean" }
    else if (j == 2) { ...start, re: CALLBACKS[r[1] % 13] }
    else if (j == 3) start
    else if (j == 4 and q[3] % 2 == 0) crashTo(s0, n, "XEGLD", 990 + q[4] % 30)
    else if (j <= 20) { ...kinds[r[2] % 4], re: if (r[3] % 5 == 0) "" else CALLBACKS[r[4] % 13] }
    else done
  }
  // interest is settled before anything that changes its course
  pure def tAccrual(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val t = pickT(["EGLD", "USDC", "XOXNO", "CAP"], q[1], "EGLD")
    at1([
      open("alice", [{ t: "XEGLD", x: 90000 * WAD }]),
      take(s0, n, t, cash(s0, t) * (q[2] % 100) / 100),
      { ...op0, k: "time", x: pickN([1000, 60000, 900000], q[3], 1000) },
      mkt(t),
      { ...op0, k: "params", u: "owner", a: t, xs: [RAY * (100 + q[4] % 200) / 100, RAY * (q[5] % 10) / 100, RAY / 10, RAY / 5, RAY, RAY * (20 + q[6] % 30) / 100, RAY * (60 + q[7] % 39) / 100, q[8] % 10000] },
      wait(DAY * (1 + q[9] % 60)),
      mkt(t),
      { ...op0, k: "indexes", u: "bob", l: [{ t: t, x: 0 }, { t: t, x: 0 }] },
      { ...op0, k: "flash", u: "bob", a: t, x: near(nat(t), r[1]), y: near(nat(t), r[1]) * 11 / 10, m: "claim" },
      wait(DAY * (1 + q[10] % 3000)),
      mkt(t),
      add(s0, n, t, near(nat(t), r[2])),
      take(s0, n, t, near(nat(t), r[3])),
      wait(DAY * (1 + q[11] % 10)),
      back("bob", n, t, near(nat(t), r[4])),
      out(s0, n, t, near(nat(t), r[5])),
      claimOf([t]),
      mkt(t)
    ], j)
  }
  // flash loans of every size and fee
  pure def tFlash(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val t = pickT(["EGLD", "USDC", "CAP", "XOXNO"], q[1], "EGLD")
    val x = pickN([1, 999, 1000, 1001, nat(t), cash(s0, t), cash(s0, t) + 1], r[1], 1000)
    val need = flashRequired(s0.pools.get(t), x, s0.cfg.get(t).ffee)
    val one1 = { ...op0, k: "flash", u: "bob", a: t, x: x, y: imax(0, pickN([need, need - 1, need + 1, x, need * 2, need], r[2], need)), m: pickT(["pay", "pay", "claim", "two"], r[3], "pay") }
    at1([
      one1,
      cfgSet(s0, t, [{ i: 8, v: pickN([0, 1, 5, 10, 5000, 10000], q[2], 1) }]),
      one1, one1, one1, one1,
      wait(DAY * (q[3] % 100)),
      one1, one1,
      mkt(t),
      claimOf([t]),
      cfgSet(s0, t, [{ i: 7, v: 0 }]),
      one1
    ], j)
  }
  // amounts that round to nothing
  pure def tDust(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val t = pickT(["USDC", "CAP", "EGLD"], q[1], "USDC")
    at1([
      wait(DAY * (100 + q[2] % 3000)),
      open("alice", [{ t: "XEGLD", x: 10 * WAD }, { t: t, x: 1 + q[3] % 3 }]),
      take(s0, n, t, 1 + q[4] % 3),
      out(s0, n, t, 1),
      out(s0, n, t, near(ownsOf(s0, n, t), 1)),
      wait(1000 * (q[5] % 50)),
      back("bob", n, t, 1),
      back("bob", n, t, near(owes(s0, n, t), r[1])),
      take(s0, n, t, 1000),
      wait(DAY * (q[6] % 30)),
      back("bob", n, t, near(owes(s0, n, t), pickN([0, 1, 2], r[2], 0))),
      back("bob", n, t, near(owes(s0, n, t), 2)),
      acct(s0, n, t),
      out(s0, n, "XEGLD", near(ownsOf(s0, n, "XEGLD"), pickN([0, 1, 2], r[3], 0)))
    ], j)
  }
  // a debt too small to have a value: it remains when the collateral is gone
  pure def tDustDebt(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val f = pickN([10^9, 10^8, 10^7, 10^6, 10^5], q[1], 10^8)
    val t = pickT(["EGLD", "XEGLD", "XOXNO"], q[2], "EGLD")
    at1([
      open("alice", [{ t: t, x: nat(t) * 5 }]),
      take(s0, n, "XOXNO", pickN([1, 2, 1000], q[3], 1)),
      if (q[4] % 3 == 0) take(s0, n, "USDC", 1) else wait(1000 * (q[4] % 5)),
      { ...op0, k: "reprice", a: "XOXNO", x: pos1(s0.feeds.get("XOXNO").px / f), y: pos1(s0.safe.get("XOXNO").x / f) },
      acct(s0, n, "XOXNO"),
      cleanOp(n),
      if (q[6] % 3 == 0) { ...op0, k: "swapColl", u: "alice", n: n, nft: true, a: t, b: "CAP", x: nat(t), s1: [{ t: "CAP", x: 10 }] } else out(s0, n, t, near(nat(t) * 2, r[1])),
      out(s0, n, t, near(ownsOf(s0, n, t), 7)),
      out(s0, n, "CAP", 20),
      acct(s0, n, "XOXNO"),
      cleanOp(n),
      liq("bob", n, [{ t: "XOXNO", x: 1 }]),
      if (q[5] % 2 == 0) add(s0, n, "EGLD", WAD) else acct(s0, n, "XOXNO"),
      wait(DAY * (q[6] % 900)),
      back("bob", n, "XOXNO", pickN([1, 2, 1000, WAD], r[2], 1)),
      back("alice", n, "USDC", 5),
      back("bob", n, "XOXNO", WAD),
      out(s0, n, "EGLD", 2 * WAD)
    ], j)
  }
  // prices at the edges of tolerance, and what they allow
  pure def tPrices(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op = {
    val t = pickT(["USDC", "XOXNO"], q[1], "USDC")
    if (j == 0) open("alice", [{ t: t, x: nat(t) * 5 }, { t: "EGLD", x: 10 * WAD }])
    else if (j == 1) { ...op0, k: "tolerance", u: "owner", a: t, x: pickN([50, 200, 1000], q[2], 200), y: pickN([150, 500, 1500], q[2], 500) }
    else if (j % 5 == 2) (if (r[1] % 4 == 0) gPair(s0, r) else { ...gSafe(s0, [0, if (t == "USDC") 0 else 2].concat(r)), a: t })
    else if (j % 5 == 3) mkt(pickT([t, if (t == "USDC") "LP" else "LP2", if (t == "USDC") "LP" else "LXOXNO"], r[2], t))
    else if (j % 5 == 4) take(s0, n, pickT([t, "CAP"], r[3], "CAP"), pickN([1, 1000], r[4], 1))
    else if (j % 5 == 0) (if (r[5] % 2 == 0) out(s0, n, pickT([t, "EGLD"], r[6], t), 1000) else add(s0, n, t, 1000))
    else if (j < 26) { ...op0, k: pickT(["liquidate", "repay", "indexes", "threshold", "clean"], r[7], "repay"), u: "bob", n: n, p: if (r[7] % 5 < 2) [{ t: pickT(["CAP", t], r[8], t), x: 10 }] else [], l: [{ t: t, x: 0 }], a: t, xs: [n], f: true }
    else done
  }
  // tokens the protocol does not know
  pure def tNewMarket(s0: State, j: int, n: int, q: Rnd, r: Rnd): Op =
    if (j == 0) { ...op0, k: "setOracle", u: "owner", a: "NEWA", m: pickT(["", "", "xegld", "lxoxno"], q[5], ""), xs: [if (q[1] % 2 == 0 or q[5] % 4 >= 2) 18 else 6, 200, 500, 3600] }
    else if (j == 1) { ...op0, k: "createPool", u: "owner", a: "NEWA", xs: [6000, 7000, 500, 1000, if (q[2] % 4 == 0) 1 else 0, 1000 * WAD, if (q[3] % 4 == 0) 1 else 0, 1, 9, 1, 1, q[4] % 2, 0, 0,
      RAY, RAY / 100, RAY / 20, RAY / 10, RAY, RAY / 2, 4 * (RAY / 5), 1000] }
    else if (j == 2) open("alice", [{ t: "EGLD", x: 100 * WAD }])
    else if (j == 3) { ...op0, k: "feed", a: "NEWA", x: 2 * WAD }
    else if (j <= 22) (if (r[1] % 6 == 0) gFresh(r) else { ...gNewcomer(s0, r), u: if (r[2] % 2 == 0) "alice" else "owner" })
    else done

  pure val COUNT: int = 28
  pure def template(k: int, s0: State, j: int, n: int, q: Rnd, r: Rnd): Op =
    if (k == 0) tRaisedLtv(s0, j, n, q, r)
    else if (k == 1) tBigBonus(s0, j, n, q, r)
    else if (k == 2) tWorthless(s0, j, n, q, r)
    else if (k == 3) tDrained(s0, j, n, q, r)
    else if (k == 4) tCaps(s0, j, n, q, r)
    else if (k == 5) tIsolated(s0, j, n, q, r)
    else if (k == 6) tEmode(s0, j, n, q, r)
    else if (k == 7) tSilo(s0, j, n, q, r)
    else if (k == 8) tLimits(s0, j, n, q, r)
    else if (k == 9) tBadDebt(s0, j, n, q, r)
    else if (k == 10) tPaused(s0, j, n, q, r)
    else if (k == 11) tNoPrices(s0, j, n, q, r)
    else if (k == 12) tHands(s0, j, n, q, r)
    else if (k == 13) tExit(s0, j, n, q, r)
    else if (k == 14 or k == 15) tGrind(s0, j, n, q, r)
    else if (k == 16) tThresholds(s0, j, n, q, r)
    else if (k == 17) tLeverage(s0, j, n, q, r)
    else if (k == 18) tAccrual(s0, j, n, q, r)
    else if (k == 19) tFlash(s0, j, n, q, r)
    else if (k == 20) tDust(s0, j, n, q, r)
    else if (k == 21) tPrices(s0, j, n, q, r)
    else if (k == 22) tNewMarket(s0, j, n, q, r)
    else if (k == 23) tLeverage(s0, j, n, q, r)
    else if (k == 24) tDustDebt(s0, j, n, q, r)
    else if (k == 25) tHalted(s0, j, n, q, r)
    else if (k == 26) tMoved(s0, j, n, q, r)
    else tCallback(s0, j, n, q, r)

  action initScen = {
    nondet seed = oneOf(0.to(1000000000000000000))
    val q = rnd(seed)
    all { init, at' = { k: q[0] % COUNT, j: 0, n: 0, q: q } }
  }
  action stepScen = {
    nondet seed = oneOf(0.to(1000000000000000000))
    val r = rnd(seed)
    val op = if (usable(s)) template(at.k, s, at.j, at.n, at.q, r) else done
    val e = if (op.k == "noop" or op.k == "reset") okR(s) else exec(s, op)
    all {
      s' = if (op.k == "reset") opened else e.s,
      last' = { op: op, ok: e.ok, why: e.why, n: e.n, x: e.x, o: e.o, bad: if (op.k == "noop" or op.k == "reset") Set() else broken(s, op, e) },
      at' = if (op.k == "reset") { k: r[0] % COUNT, j: 0, n: 0, q: r } else { ...at, j: at.j + 1, n: if (e.ok and e.n != 0) e.n else at.n }
    }
  }
}
