// The state machine explored and replayed on the contracts: one transaction or environment
// event per step, together with the properties every step must satisfy.
module lending {
  import gen.* from "./gen"
  export gen.*

  type Last = { op: Op, ok: bool, why: str, n: int, x: int, o: List[int], bad: Set[str] }
  var s: State
  var last: Last

  // ---- properties -------------------------------------------------------------------------
  pure def sumPos(s0: State, t: str, dep: bool): int =
    s0.acc.keys().fold(0, (k, n) => {
      val m = if (dep) s0.acc.get(n).dep else s0.acc.get(n).bor
      if (m.keys().contains(t)) k + m.get(t).sc else k
    })
  // C01: pool totals are the sums of the positions (plus protocol revenue)
  pure def totals(s0: State): bool = s0.pools.keys().forall(t => {
    val p = s0.pools.get(t)
    p.sup == sumPos(s0, t, true) + p.rev and p.bor == sumPos(s0, t, false)
  })
  // C02: what a pool holds and is owed covers what it owes, up to rounding dust: 100 base units, and as many of the
  // smallest scaled amounts, which matter only where an index has become astronomically large
  pure def solvent(s0: State): bool = s0.pools.keys().forall(t => {
    val p = s0.pools.get(t)
    p.res >= 0 and up(p.res + 100, p.dec) + mulR(p.bor + 100, p.bIdx) >= mulR(p.sup - 100, p.sIdx)
  })
  pure def total(s0: State, t: str): int =
    s0.bal.keys().fold(if (listed(s0, t)) s0.pools.get(t).res else 0, (k, u) => if (s0.bal.get(u).keys().contains(t)) k + s0.bal.get(u).get(t) else k)
  pure def postHealthy(a: State, b: State, n: int): bool =
    not(b.acc.keys().contains(n)) or {
      val c = ctx(a, true)
      val q = b.acc.get(n)
      val w = collateral(c, q)
      val d = debt(c, q)
      q.bor.keys() == Set() or (w.ok and d.ok and hfOf(w.w, d.v) >= RAY)
    }
  pure def withinLtv(a: State, b: State, n: int): bool = {
    val c = ctx(a, true)
    val w = collateral(c, b.acc.get(n))
    val d = debt(c, b.acc.get(n))
    w.ok and d.ok and d.v <= w.ltv + E9 * E9
  }
  pure def debtNoWorse(a: State, b: State, n: int): bool = {
    val q = a.acc.get(n).bor
    b.acc.get(n).bor.keys().forall(t => q.keys().contains(t) and b.acc.get(n).bor.get(t).sc <= q.get(t).sc)
  }
  pure def egldOf(a: State, t: str, x: int): int = egldRay(up(x, a.pools.get(t).dec), price(a, t, true))
  pure def USERCALLS: Set[str] = Set("supply", "borrow", "withdraw", "repay", "liquidate", "clean", "flash",
    "multiply", "swapDebt", "swapColl", "repayColl", "threshold", "indexes")
  pure def STRATS: Set[str] = Set("multiply", "swapDebt", "swapColl", "repayColl")

  pure def sel(name: str, good: bool): Set[str] = if (good) Set() else Set(name)
  // names of the properties that the step a --o--> b violates
  pure def broken(a: State, o: Op, r: R): Set[str] = {
    val b = r.s
    val ok = r.ok
    Set(
      sel("C01", totals(b)),
      sel("C02", solvent(b)),
      sel("C03", (ok and o.k == "borrow" and o.l != []) implies (withinLtv(a, b, o.n) and postHealthy(a, b, o.n))),
      sel("C04", (ok and Set("withdraw", "borrow", "multiply", "swapDebt", "swapColl", "repayColl").contains(o.k))
        implies postHealthy(a, b, if (o.n == 0) r.n else o.n)),
      sel("C05", (ok and o.k == "liquidate") implies {
        val c = ctx(a, true)
        val q = a.acc.get(o.n)
        val minB = q.dep.keys().fold(MAXBONUS, (k, t) => imax(k, b2r(q.dep.get(t).bon)))
        val paid = o.p.foldl(Set(), (z, y) => z.union(Set(y.t))).fold(0, (k, t) =>
          k + egldOf(a, t, a.bal.get(o.u).get(t) - b.bal.get(o.u).get(t) + sumGain(a, b, o.n, t)))
        val got = q.dep.keys().fold(0, (k, t) => k + egldOf(a, t, sumGain(a, b, o.n, t)))
        and { not(postHealthy(a, a, o.n)), debtNoWorse(a, b, o.n),
          b.acc.get(o.n).dep.keys().subseteq(q.dep.keys()),
          // seized value is at most the repaid value plus the bonus (dust tolerance)
          got <= mulR(paid, RAY + minB) + dust(a, o.n) }
      }),
      sel("C06", a.pools.keys().forall(t => {
        val p = a.pools.get(t)
        val q = b.pools.get(t)
        and { q.bIdx >= p.bIdx, q.sIdx >= p.sIdx or (o.k == "clean" and ok), q.sIdx >= 1, q.ts >= p.ts, q.ts <= b.now }
      })),
      sel("C07", (ok and o.k == "flash") implies
        (b.pools.get(o.a).res + b.bal.get("accu").get(o.a) >= a.pools.get(o.a).res + a.bal.get("accu").get(o.a)
          + flashRequired(a.pools.get(o.a), o.x, a.cfg.get(o.a).ffee) - o.x)),
      sel("C08", or { o.k == "flash" and reentrant.contains(o.m), o.re != "" and not(a.ls.keys().contains(o.re)) and o.a != o.b } implies not(ok)),
      sel("C09", (a.paused and USERCALLS.contains(o.k)) implies not(ok)),
      sel("C10", or { CONFIG.contains(o.k) and o.u != "owner", o.k == "direct", o.k == "rewards" and o.u != "owner" } implies not(ok)),
      sel("C11", b.acc.keys().forall(n => {
        val q = b.acc.get(n)
        q.iso implies (q.dep.keys().subseteq(Set(q.isoT)) and q.em == 0)
      })),
      sel("C11c", (ok and STRATS.union(Set("borrow")).contains(o.k)) implies b.isoDebt.keys().forall(t =>
        b.isoDebt.get(t) <= imax(a.isoDebt.get(t), b.cfg.get(t).ceil))),
      sel("C12", (ok and Set("supply", "multiply", "borrow", "swapDebt", "swapColl").contains(o.k)) implies {
        val n = if (o.n == 0) r.n else o.n
        val q = b.acc.get(n)
        q.em == 0 or newDeps(a, b, n).union(newBors(a, b, n)).forall(t => emodeHas(b, q.em, t) and not(b.emodes.get(q.em).dead))
      }),
      sel("C13", (ok and (o.k == "borrow" or STRATS.contains(o.k))) implies {
        val n = if (o.n == 0) r.n else o.n
        not(b.acc.keys().contains(n)) or newBors(a, b, n) == Set() or not(b.acc.get(n).bor.keys().size() > 1
          and b.acc.get(n).bor.keys().exists(t => b.cfg.get(t).silo))
          // a debt swap borrows the new asset before the old one is repaid
          or o.k == "swapDebt"
          // debts that shared the account before an asset was declared siloed are not undone
          or (a.acc.keys().contains(n) and a.acc.get(n).bor.keys().size() > 1)
      }),
      sel("C14", ok implies b.pools.keys().forall(t => not(listed(a, t)) or {
        val p = b.pools.get(t)
        val g = b.cfg.get(t)
        and {
          // (the protocol's share of the interest that this very step accrues is not counted)
          or { g.scap == 0, p.sup <= a.pools.get(t).sup, not(Set("supply", "multiply", "swapColl").contains(o.k)),
               supOrig(p, p.sup - imax(0, p.rev - a.pools.get(t).rev)) <= g.scap + 1 },
          or { g.bcap == 0, p.bor <= a.pools.get(t).bor, not(Set("borrow", "multiply", "swapDebt").contains(o.k)), borOrig(p, p.bor) <= g.bcap + 1 }
        }
      })),
      sel("C15", ok implies b.acc.keys().forall(n => {
        val q = b.acc.get(n)
        val od = if (a.acc.keys().contains(n)) a.acc.get(n) else { ...q, dep: Map(), bor: Map() }
        and { q.dep.keys().size() <= imax(b.limS, od.dep.keys().size()), q.bor.keys().size() <= imax(b.limB, od.bor.keys().size()) }
      })),
      // sources that disagree, or are old or missing, price nothing that adds risk
      sel("C16", (ok and (Set("multiply", "swapDebt", "liquidate").contains(o.k) or (o.k == "borrow" and o.l != []))) implies {
        val n = if (o.n == 0) r.n else o.n
        a.acc.keys().contains(n) implies a.acc.get(n).dep.keys().union(a.acc.get(n).bor.keys()).forall(t => sane(a, t))
      }),
      sel("C17", (ok and o.k == "clean") implies {
        val c = ctx(a, true)
        val k = collateral(c, a.acc.get(o.n))
        val d = debt(c, a.acc.get(o.n))
        and { not(b.acc.keys().contains(o.n)), d.v > k.tot, usdOf(k.tot, c.usd) <= 5 * WAD }
      }),
      sel("C18", (ok and o.k == "claim") implies a.pools.keys().forall(t =>
        b.bal.get("accu").get(t) - a.bal.get("accu").get(t) <= imin(a.pools.get(t).res, supOrig(sync(a.pools.get(t), a.now), sync(a.pools.get(t), a.now).rev)))),
      // an account is changed only for its owner, except where anyone may act on it
      sel("C20", b.acc.keys().forall(n => or {
        not(a.acc.keys().contains(n)), a.acc.get(n) == b.acc.get(n), a.own.get(n) == o.u,
        Set("supply", "repay", "liquidate", "clean", "threshold").contains(o.k) and o.n == n, o.k == "threshold" })),
      sel("C20b", b.own.keys().forall(n => n <= b.nonce) and b.acc.keys().subseteq(b.own.keys())),
      // nobody else's balance moves
      sel("C21", allTokens.forall(t => total(a, t) == total(b, t))),
      sel("C21b", b.bal.keys().forall(u => or { a.bal.get(u) == b.bal.get(u), u == o.u,
        Set("accu", "rtr", "rcv").contains(u) })),
      sel("C22", Set("viewAcct", "viewMkt", "viewLiq").contains(o.k) implies a == b),
      // a trade in a pair (its product of reserves does not grow) does not raise the LP token's price
      sel("C23", (o.k == "pair" and ok and a.pairs.get(o.a).lp > 0 and b.pairs.get(o.a).lp >= a.pairs.get(o.a).lp
        and b.pairs.get(o.a).r0 * b.pairs.get(o.a).r1 <= a.pairs.get(o.a).r0 * a.pairs.get(o.a).r1) implies
        Set("LP", "LP2").forall(t => a.orc.get(t).pair != o.a or price(a, t, true) < 0 or price(b, t, true) <= price(a, t, true) + price(a, t, true) / E9 + 1)),
      sel("C23b", (o.k == "pair" and not(b.pairs.get(o.a).act)) implies
        b.orc.keys().forall(t => b.orc.get(t).ty != "normal" or b.orc.get(t).me == "agg" or b.orc.get(t).pair != o.a or price(b, t, false) < 0)),
      // no configuration outside its legal range can be entered
      sel("C24", ok implies b.cfg.keys().forall(t => {
        val g = b.cfg.get(t)
        val p = b.pools.get(t)
        val w = b.orc.get(t)
        and { g.thr > g.ltv or (g.thr == 0 and g.ltv == 0), p.mx > p.base, p.opt > p.mid, p.opt < RAY, p.rf < BPS,
          w.fu <= w.lu, w.fl >= w.ll, w.fl < BPS, w.fu > BPS, p.dec == w.dec,
          g.emode == b.emA.keys().exists(i => b.emA.get(i).keys().contains(t)) }
      })),
      // no configuration changes but by a call of the owner to the setter concerned
      sel("C24b", or { CONFIG.contains(o.k), a.cfg == b.cfg and a.orc == b.orc and a.emodes == b.emodes and a.emA == b.emA
        and a.limB == b.limB and a.limS == b.limS and a.paused == b.paused }),
      // borrowers are charged what suppliers and protocol get
      sel("C06b", a.pools.keys().forall(t => {
        val p = a.pools.get(t)
        val q = sync(p, a.now)
        val paid = mulR(p.bor, q.bIdx) - mulR(p.bor, p.bIdx)
        val got = mulR(q.sup, q.sIdx) - mulR(p.sup, p.sIdx)
        p.sup < E9 or (got <= paid + 10 * (p.sup / RAY + 10) + p.sIdx / E9 and paid - got <= 10 * (p.sup / RAY + 10) + p.sIdx / E9)
      })),
      sel("C25", (ok and o.k == "threshold" and o.f) implies b.acc.keys().forall(n =>
        or { a.acc.get(n) == b.acc.get(n), b.acc.get(n).bor.keys() == Set(), {
          val c = ctx(a, true)
          hfOf(collateral(c, b.acc.get(n)).w, debt(c, b.acc.get(n)).v) >= RAY + RAY / 20 } })),
      // whatever restrictions are in force, debts can be repaid and free collateral taken out
      sel("C29", (o.k == "repay" and mayRepay(a, o)) implies ok),
      sel("C29b", (o.k == "withdraw" and mayWithdraw(a, o)) implies ok),
      // and an unhealthy account can be liquidated
      sel("C30", (o.k == "liquidate" and mayLiquidate(a, o)) implies ok),
      // nothing is touched but the accounts and markets concerned
      sel("C31", ok or a == b),
      sel("C31b", (ok and USERCALLS.contains(o.k) and not(Set("flash", "threshold", "indexes").contains(o.k))) implies
        a.acc.keys().union(b.acc.keys()).forall(n => n == o.n or n == r.n or (a.acc.keys().contains(n) and b.acc.keys().contains(n) and a.acc.get(n) == b.acc.get(n)))),
      sel("C31c", (ok and USERCALLS.contains(o.k) and o.k != "flash") implies
        a.pools.keys().forall(t => named(a, o).contains(t) or a.pools.get(t) == b.pools.get(t)))
    ).flatten()
  }
  pure def tokens(l: List[Pay]): Set[str] = l.foldl(Set(), (z, q) => z.union(Set(q.t)))
  pure def named(a: State, o: Op): Set[str] =
    Set(o.a, o.b).union(tokens(o.p)).union(tokens(o.l)).union(
      if (not(a.acc.keys().contains(o.n)) or o.k == "supply" or o.k == "borrow" or o.k == "withdraw" or o.k == "repay") Set()
      else a.acc.get(o.n).dep.keys().union(a.acc.get(o.n).bor.keys()))
  pure def calm(a: State, o: Op): bool = entry(a, o) == "" and a.acc.keys().contains(o.n)
  pure def simple(l: List[Pay]): bool = l != [] and tokens(l).size() == l.length() and l.select(q => q.x <= 0) == []
  pure def mayRepay(a: State, o: Op): bool =
    calm(a, o) and not(o.nft) and simple(o.p) and tokens(o.p).forall(t => a.acc.get(o.n).bor.keys().contains(t) and price(a, t, true) > 0)
  pure def mayWithdraw(a: State, o: Op): bool = and {
    calm(a, o), o.nft, o.p == [], simple(o.l), a.acc.get(o.n).bor.keys() == Set(),
    tokens(o.l).forall(t => and { a.acc.get(o.n).dep.keys().contains(t), price(a, t, true) > 0,
      a.pools.get(t).res >= supOrig(sync(a.pools.get(t), a.now), a.acc.get(o.n).dep.get(t).sc) })
  }
  pure def mayLiquidate(a: State, o: Op): bool = calm(a, o) and {
    val q = a.acc.get(o.n)
    and { not(o.nft), simple(o.p), tokens(o.p).subseteq(q.bor.keys()), not(postHealthy(a, a, o.n)),
      q.dep.keys().union(q.bor.keys()).forall(t => sane(a, t) and price(a, t, false) > E9 and a.pools.get(t).res >= (if (q.dep.keys().contains(t)) supOrig(sync(a.pools.get(t), a.now), q.dep.get(t).sc) else 0)),
      o.p.foldl(0, (k, y) => k + egldOf(a, y.t, y.x)) > dust(a, o.n) }
  }
  // the strict reading of an asset's sources, written apart from the oracle module
  pure def fresh_(a: State, tick: str, stale: int): bool =
    not(a.aggPaused) and a.feeds.keys().contains(tick) and a.now / 1000 < a.feeds.get(tick).ts + stale
  pure def sane(a: State, t: str): bool = isEgld(t) or {
    val w = a.orc.get(t)
    if (w.ty != "normal") price(a, t, false) > 0
    else if (w.me == "agg") fresh_(a, t, w.stale)
    else if (w.me == "safe") a.pairs.get(w.pair).act
    else {
      val g = aggEgld(a, t, w.stale, false)
      val z = safeEgld(a, t, w, false, x => price(a, x, false))
      and { fresh_(a, t, w.stale), a.pairs.get(w.pair).act, g > 0, z * BPS <= g * (w.lu + 1), z * BPS >= g * (w.ll - 1) }
    }
  }
  pure def sumGain(a: State, b: State, n: int, t: str): int = {
    // units of collateral t taken out of account n (net of the protocol fee kept in the pool)
    val q = a.acc.get(n).dep
    if (not(q.keys().contains(t))) 0 else {
      val left = if (b.acc.get(n).dep.keys().contains(t)) b.acc.get(n).dep.get(t).sc else 0
      supOrig(sync(a.pools.get(t), a.now), q.get(t).sc - left)
    }
  }
  pure def dust(a: State, n: int): int =
    a.acc.get(n).dep.keys().union(a.acc.get(n).bor.keys()).fold(E9 * E9, (k, t) => k + egldOf(a, t, 4))
  pure def newDeps(a: State, b: State, n: int): Set[str] =
    b.acc.get(n).dep.keys().filter(t => not(a.acc.keys().contains(n)) or not(a.acc.get(n).dep.keys().contains(t))
      or a.acc.get(n).dep.get(t).sc < b.acc.get(n).dep.get(t).sc)
  pure def newBors(a: State, b: State, n: int): Set[str] =
    b.acc.get(n).bor.keys().filter(t => not(a.acc.keys().contains(n)) or not(a.acc.get(n).bor.keys().contains(t))
      or a.acc.get(n).bor.get(t).sc < b.acc.get(n).bor.get(t).sc)

  // ---- choosing the next transaction ----------------------------------------------------------
  // entries in [0, 10^6)
  pure def rnd(seed: int): Rnd =
    range(0, 20).foldl({ x: seed, l: [] }, (k, i) => {
      val y = (k.x * 6364136223846793005 + 1442695040888963407) % 18446744073709551616
      { x: y, l: k.l.append((y / 8589934592) % 1000000) }
    }).l
  pure def choose(st: State, k: str, r: Rnd, toks: List[str]): Op =
    // a paused system is not left that way for long
    if (st.aggPaused and r[19] % 3 == 0) gAggPause(st, r)
    else if (st.paused and r[19] % 4 == 1) { ...op0, k: "unpause", u: "owner" }
    else if (k == "supply") gSupply(st, r, toks)
    else if (k == "borrow") gBorrow(st, r, toks)
    else if (k == "withdraw") gWithdraw(st, r)
    else if (k == "repay") gRepay(st, r)
    else if (k == "liquidate") gLiquidate(st, r)
    else if (k == "clean") gClean(st, r)
    else if (k == "fresh") gFresh(r)
    else if (k == "time") gTime(st, r)
    else if (k == "indexes") gIndexes(r, toks)
    else if (k == "claim") gClaim(r, toks)
    else if (k == "rewards") gRewards(r, toks)
    else if (k == "crash") gCrash(st, r)
    else if (k == "reprice") gReprice(st, r, toks)
    else if (k == "threshold") gThreshold(st, r, toks)
    else if (k == "multiply") gMultiply(st, r, toks)
    else if (k == "swapDebt") gSwapDebt(st, r, toks)
    else if (k == "swapColl") gSwapColl(st, r, toks)
    else if (k == "repayColl") gRepayColl(st, r)
    else if (k == "flash") gFlash(st, r, toks)
    else if (k == "reenter") gReenter(st, r, toks)
    else if (k == "xfer") gXfer(st, r)
    else if (k == "misuse") gMisuse(st, r, toks)
    else if (k == "editAsset") gEditAsset(st, r, toks)
    else if (k == "emode") gEmode(st, r, toks)
    else if (k == "params") gParams(st, r, toks)
    else if (k == "tolerance") gTolerance(r, toks)
    else if (k == "limits") gLimits(r)
    else if (k == "pause") gPause(st, r)
    else if (k == "direct") gDirect(st, r, toks)
    else if (k == "addr") gAddr(r)
    else if (k == "newMarket") gNewMarket(st, r)
    else if (k == "newcomer") gNewcomer(st, r)
    else if (k == "upgrade") gUpgrade(st, r, toks)
    else if (k == "feed") gFeed(st, r)
    else if (k == "safe") gSafe(st, r)
    else if (k == "pair") gPair(st, r)
    else if (k == "ls") gLs(st, r)
    else if (k == "aggPause") gAggPause(st, r)
    else gView(st, r, toks)

  pure def usable(st: State): bool = st.pools.keys().forall(t => not(degenerate(st.pools.get(t))))
  action step(kinds: List[str], toks: List[str]): bool = {
    nondet seed = oneOf(0.to(1000000000000000000))
    val r = rnd(seed)
    val op0_ = if (usable(s)) choose(s, pickT(kinds, r[0], "view"), r, toks) else op0
    // now and then the router calls back
    val op = if (STRATS.contains(op0_.k) and r[18] % 25 == 3)
      { ...op0_, re: pickT(["clean", "liquidate", "repay", "supply", "threshold", "indexes", "flash", "multiply"], r[17], "clean") } else op0_
    val e = if (op.k == "noop") okR(s) else exec(s, op)
    all {
      s' = e.s,
      last' = { op: op, ok: e.ok, why: e.why, n: e.n, x: e.x, o: e.o, bad: if (op.k == "noop") Set() else broken(s, op, e) }
    }
  }
  action init = all { s' = opened, last' = { op: op0, ok: true, why: "", n: 0, x: 0, o: [], bad: Set() } }
  val Inv = last.bad == Set()

  // ---- families -----------------------------------------------------------------------------
  pure val CORE: List[str] = ["supply", "supply", "supply", "supply", "borrow", "borrow", "borrow", "borrow", "withdraw", "withdraw", "withdraw",
    "repay", "repay", "repay", "fresh", "fresh", "fresh", "indexes", "claim", "rewards", "view", "params", "flash"]
  action stepCore = step(CORE, ["EGLD", "USDC", "CAP", "XOXNO", "SILO"])
  pure val RISK: List[str] = ["supply", "supply", "borrow", "borrow", "borrow", "withdraw", "repay", "crash", "crash", "crash", "crash", "liquidate", "liquidate",
    "liquidate", "liquidate", "liquidate", "liquidate", "clean", "fresh", "reprice", "threshold", "editAsset", "view", "claim"]
  action stepRisk = step(RISK, ["EGLD", "USDC", "XEGLD", "XOXNO", "LXOXNO", "SILO"])
  pure val MODES: List[str] = ["supply", "supply", "supply", "borrow", "borrow", "borrow", "borrow", "borrow", "repay", "withdraw", "emode", "emode", "editAsset", "editAsset",
    "limits", "threshold", "threshold", "multiply", "swapDebt", "swapColl", "fresh", "crash", "liquidate", "clean", "view"]
  action stepModes = step(MODES, ["EGLD", "USDC", "XEGLD", "LEGLD", "SILO", "ISO", "ISO6", "CAP"])
  pure val STRAT: List[str] = ["multiply", "multiply", "multiply", "multiply", "swapDebt", "swapDebt", "swapDebt", "swapColl", "swapColl", "swapColl",
    "repayColl", "repayColl", "repayColl", "supply", "borrow", "fresh", "flash", "flash", "reenter", "reenter", "withdraw", "crash", "view"]
  action stepStrat = step(STRAT, ["EGLD", "USDC", "XEGLD", "LEGLD", "XOXNO", "SILO", "ISO"])
  pure val ORACLE: List[str] = ["feed", "feed", "safe", "safe", "safe", "safe", "pair", "ls", "aggPause", "time", "time", "fresh", "tolerance", "view", "view", "view",
    "view", "supply", "borrow", "borrow", "withdraw", "withdraw", "repay", "liquidate", "threshold", "swapColl"]
  action stepOracle = step(ORACLE, ["EGLD", "USDC", "XEGLD", "XOXNO", "LXOXNO", "ISO", "ISO6", "LP", "LP", "LP2", "LP2"])
  pure val ADMINK: List[str] = ["pause", "direct", "direct", "direct", "addr", "newMarket", "newMarket", "newcomer", "newcomer", "upgrade", "params", "tolerance", "limits", "xfer", "misuse", "misuse", "misuse",
    "editAsset", "emode", "supply", "borrow", "withdraw", "repay", "repayColl", "rewards", "claim", "indexes", "threshold", "view", "fresh", "clean", "liquidate"]
  action stepAdmin = step(ADMINK, ["EGLD", "USDC", "XEGLD", "XOXNO", "SILO"])
  pure val LIQK: List[str] = ["supply", "borrow", "borrow", "crash", "crash", "liquidate", "liquidate", "liquidate", "liquidate", "clean", "fresh", "reprice", "repayColl", "view"]
  action stepLiq = step(LIQK, ["EGLD", "USDC", "XEGLD", "XOXNO", "CAP"])
}
