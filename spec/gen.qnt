// Operation generators: pure functions from the current state and a vector of random numbers to
// an operation.  Amounts are aimed at the boundaries of the rules (LTV, health, liquidity, caps,
// ceilings, exact debts), because that is where a wrong comparison or rounding shows.
module gen {
  import world.* from "./world"
  export world.*

  type Rnd = List[int]          // entries in [0, 10^6)
  pure def pickT(l: List[str], k: int, dflt: str): str = if (l == []) dflt else l[k % l.length()]
  pure def pickN(l: List[int], k: int, dflt: int): int = if (l == []) dflt else l[k % l.length()]

  pure def accts(s: State): List[int] = range(1, s.nonce + 1).select(n => s.acc.keys().contains(n))
  pure def nfts(s: State): List[int] = range(1, s.nonce + 1).select(n => s.own.keys().contains(n))
  pure def borrowers(s: State): List[int] = accts(s).select(n => s.acc.get(n).bor.keys() != Set())
  pure def keysOf(m: str -> Pos): List[str] = MARKETS.select(t => m.keys().contains(t))
  pure def depsOf(s: State, n: int): List[str] = if (s.acc.keys().contains(n)) keysOf(s.acc.get(n).dep) else []
  pure def borsOf(s: State, n: int): List[str] = if (s.acc.keys().contains(n)) keysOf(s.acc.get(n).bor) else []
  pure def owner(s: State, n: int): str = if (s.own.keys().contains(n)) s.own.get(n) else "alice"
  pure val USERL: List[str] = ["alice", "bob", "carol"]
  pure def user(k: int): str = USERL[k % 3]

  // about 1000 USD of a token
  pure def nat(t: str): int =
    if (t == "EGLD" or t == "XEGLD" or t == "LEGLD" or t == "LP" or t == "LP2") 25 * WAD
    else if (t == "USDC") 1000000000
    else if (t == "XOXNO" or t == "LXOXNO") 10000 * WAD
    else if (t == "SILO") 200 * WAD
    else if (t == "ISO") 500 * WAD
    else if (t == "ISO6") 100000000
    else 1666667
  // an amount from a selector: tiny, a fraction of the natural size, or at/around an edge
  pure def amt(k: int, edge: int, natural: int): int = {
    val sel = k % 20
    val f = (k / 20) % 997
    if (sel == 0) 1
    else if (sel == 1) f
    else if (sel <= 6) imax(1, natural * (f + 1) / 300 + f)
    else if (sel == 7) imax(0, edge - 1)
    else if (sel <= 9) imax(0, edge)
    else if (sel == 10) imax(0, edge + 1)
    else if (sel == 11) imax(0, edge / 2)
    else if (sel == 12) imax(0, edge * 2)
    else if (sel == 13) imax(0, edge - edge / 1000)
    else if (sel == 14) imax(0, edge + edge / 1000)
    else imax(0, edge * (f + 1) / 1000)
  }
  pure def pos1(x: int): int = imax(1, x)

  // EGLD value (RAY) -> token units, rounding down
  pure def units(s: State, t: str, v: int): int = {
    val p = price(s, t, true)
    if (p <= 0 or v <= 0) 0 else v * WAD / p / p10(27 - decimals(t))
  }
  pure def ltvRoom(s: State, n: int): int = {
    val c = ctx(s, true)
    val k = collateral(c, s.acc.get(n))
    val d = debt(c, s.acc.get(n))
    if (c.usd <= 0 or not(k.ok) or not(d.ok)) 0 else imax(0, k.ltv - d.v)
  }
  pure def hfRoom(s: State, n: int): int = {
    val c = ctx(s, true)
    val k = collateral(c, s.acc.get(n))
    val d = debt(c, s.acc.get(n))
    if (c.usd <= 0 or not(k.ok) or not(d.ok)) 0 else imax(0, k.w - d.v)
  }
  pure def borrowEdge(s: State, n: int, t: str, k: int): int = {
    val g = s.cfg.get(t)
    val p = s.pools.get(t)
    val a = s.acc.get(n)
    val lim = units(s, t, ltvRoom(s, n))
    val sel = k % 8
    if (sel == 0) p.res
    else if (sel == 1 and g.bcap > 0) imax(0, g.bcap - down(mulR(p.bor, simIdx(p, s.now).b), p.dec))
    else if (sel <= 3 and a.iso) {
      val usd = egldUsd(s)
      val room = imax(0, s.cfg.get(a.isoT).ceil - s.isoDebt.get(a.isoT))
      if (usd <= 0) 0 else units(s, t, room * E9 * WAD / usd)
    } else lim
  }
  pure def withdrawEdge(s: State, n: int, t: str, k: int): int = {
    val q = s.acc.get(n).dep.get(t)
    val p = sync(s.pools.get(t), s.now)
    if (k % 4 == 0) supOrig(p, q.sc)
    else if (k % 4 == 1 and q.thr > 0 and s.acc.get(n).bor.keys() != Set())
      units(s, t, hfRoom(s, n) * BPS / q.thr)
    else if (k % 4 == 2 and s.acc.get(n).bor.keys() != Set()) imin(supOrig(p, q.sc), units(s, t, hfRoom(s, n) * BPS / imax(1, q.thr)))
    else if (k % 8 == 3) p.res
    else supOrig(p, q.sc)
  }
  pure def debtOf(s: State, n: int, t: str): int =
    if (s.acc.get(n).bor.keys().contains(t)) borOrig(sync(s.pools.get(t), s.now), s.acc.get(n).bor.get(t).sc) else nat(t)

  // ---- operations -----------------------------------------------------------------------
  pure def gSupply(s: State, r: Rnd, toks: List[str]): Op = {
    val n = if (r[1] % 5 == 0) 0 else pickN(accts(s), r[2], 0)
    val t = pickT(toks, r[3], "EGLD")
    val t2 = pickT(toks, r[4], "USDC")
    // isolated accounts mostly receive their own token
    val tt = if (n != 0 and s.acc.get(n).iso and r[3] % 4 != 0) s.acc.get(n).isoT else t
    val g = s.cfg.get(tt)
    val p = s.pools.get(tt)
    val edge = if (g.scap > 0) imax(1, g.scap - down(mulR(p.sup, simIdx(p, s.now).s), p.dec)) else nat(tt) * 3
    val q = { t: tt, x: pos1(amt(r[5], edge, nat(tt))) }
    val nft = n != 0 and r[6] % 2 == 0
    { ...op0, k: "supply", n: n, nft: nft, u: if (nft) owner(s, n) else user(r[7]),
      y: if (r[8] % 4 == 0) r[8] % 3 else 0,
      p: if (r[9] % 6 == 0) [q, { t: t2, x: pos1(amt(r[10], nat(t2), nat(t2))) }] else [q] }
  }
  pure def gBorrow(s: State, r: Rnd, toks: List[str]): Op = {
    val n = pickN(accts(s), r[1], 0)
    val had = borsOf(s, n)
    val t = if (r[2] % 4 == 0 and had != []) pickT(had, r[2] / 4, "EGLD") else pickT(toks, r[3], "EGLD")
    val t2 = if (r[4] % 5 == 0) t else pickT(toks, r[4], "EGLD")
    if (n == 0) op0 else {
      val q = { t: t, x: amt(r[5], borrowEdge(s, n, t, r[6]), nat(t) / 4) }
      { ...op0, k: "borrow", n: n, nft: true, u: owner(s, n),
        l: if (r[7] % 4 == 0) [{ ...q, x: q.x / 2 }, { t: t2, x: amt(r[8], borrowEdge(s, n, t2, r[9]) / 2, nat(t2) / 8) }] else [q] }
    }
  }
  pure def gWithdraw(s: State, r: Rnd): Op = {
    val n = pickN(accts(s), r[1], 0)
    val ds = depsOf(s, n)
    val t = pickT(ds, r[2], "EGLD")
    val t2 = pickT(ds, r[3], "EGLD")
    if (n == 0 or ds == []) op0 else {
      val q = { t: t, x: amt(r[4], withdrawEdge(s, n, t, r[5]), nat(t)) }
      { ...op0, k: "withdraw", n: n, nft: true, u: owner(s, n),
        l: if (r[6] % 5 == 0 and ds.length() > 1) [q, { t: t2, x: amt(r[7], withdrawEdge(s, n, t2, r[8]), nat(t2)) }]
           // close the whole account
           else if (r[6] % 5 == 1) ds.foldl([], (l, z) => l.append({ t: z, x: 2 * withdrawEdge(s, n, z, 0) }))
           else [q] }
    }
  }
  pure def gRepay(s: State, r: Rnd): Op = {
    val n = pickN(borrowers(s), r[1], 0)
    val bs = borsOf(s, n)
    val t = pickT(bs, r[2], "EGLD")
    val t2 = pickT(bs, r[3], "EGLD")
    if (n == 0 or bs == []) op0 else {
      val q = { t: t, x: pos1(amt(r[4], debtOf(s, n, t), nat(t) / 4)) }
      { ...op0, k: "repay", n: n, u: user(r[5]),
        p: if (r[6] % 4 == 0) [q, { t: t2, x: pos1(amt(r[7], debtOf(s, n, t2), nat(t2) / 4)) }] else [q] }
    }
  }
  // accounts that can be liquidated (or, failing that, any with debt)
  pure def unhealthy(s: State): List[int] = {
    val c = ctx(s, true)
    borrowers(s).select(n => {
      val k = collateral(c, s.acc.get(n))
      val d = debt(c, s.acc.get(n))
      c.usd > 0 and k.ok and d.ok and hfOf(k.w, d.v) < RAY
    })
  }
  pure def gPayments(s: State, n: int, r: Rnd, i: int): List[Pay] = {
    val bs = borsOf(s, n)
    val t = pickT(bs, r[i], "EGLD")
    val t2 = pickT(bs, r[i + 1], "EGLD")
    val q = { t: t, x: pos1(amt(r[i + 2], debtOf(s, n, t), nat(t))) }
    val q2 = { t: t2, x: pos1(amt(r[i + 3], debtOf(s, n, t2), nat(t2))) }
    if (bs == []) [] else if (r[i] % 3 == 0) [q, q2] else if (r[i] % 11 == 1) [q, q2, { ...q, x: pos1(q.x / 2) }] else [q]
  }
  pure def gLiquidate(s: State, r: Rnd): Op = {
    val l = unhealthy(s)
    val n = if (l != [] and r[1] % 8 != 0) pickN(l, r[2], 0) else pickN(borrowers(s), r[2], 0)
    if (n == 0) op0 else { ...op0, k: "liquidate", n: n, u: user(r[3]), p: gPayments(s, n, r, 4) }
  }
  pure def gClean(s: State, r: Rnd): Op = {
    val l = unhealthy(s)
    val n = if (l != [] and r[1] % 8 != 0) pickN(l, r[2], 0) else pickN(accts(s), r[2], 1)
    { ...op0, k: "clean", n: n, u: user(r[3]) }
  }
  pure val DURATIONS: List[int] = [1000, 6000, 61000, 3600000, 86400000, 604800000, 2592000000, 15768000000, 31556926000]
  pure def gFresh(r: Rnd): Op = { ...op0, k: "fresh", x: DURATIONS[r[1] % 9] + (if (r[2] % 2 == 0) 0 else (r[3] % 5000) * 1000) }
  // block times are whole seconds.  Time passes without a new price: up to, at or beyond the moment a
  // feed becomes stale.
  pure def gTime(s: State, r: Rnd): Op = {
    val t = pickT(["EGLD", "USDC", "XOXNO", "SILO", "CAP", "LXOXNO"], r[1], "EGLD")
    val edge = (s.feeds.get(if (t == "LXOXNO") "XOXNO" else t).ts + s.orc.get(t).stale + pickN([0 - 1, 0, 1], r[2], 0)) * 1000 - s.now
    if (r[3] % 3 == 0 or edge < 1000) { ...op0, k: "time", x: pickN([1000, 6000, 60000, 600000, 900000, 1800000], r[4], 1000) }
    else { ...op0, k: "time", x: edge }
  }
  pure def gIndexes(r: Rnd, toks: List[str]): Op =
    { ...op0, k: "indexes", u: user(r[1]), l: [{ t: pickT(toks, r[2], "EGLD"), x: 0 }, { t: pickT(toks, r[3], "EGLD"), x: 0 }] }
  pure def gClaim(r: Rnd, toks: List[str]): Op =
    { ...op0, k: "claim", u: user(r[1]), l: if (r[2] % 3 == 0) [{ t: pickT(toks, r[3], "EGLD"), x: 0 }, { t: pickT(toks, r[4], "EGLD"), x: 0 }] else [{ t: pickT(toks, r[3], "EGLD"), x: 0 }] }
  pure def gRewards(r: Rnd, toks: List[str]): Op = {
    val t = pickT(toks, r[2], "EGLD")
    { ...op0, k: "rewards", u: if (r[1] % 8 == 0) user(r[1]) else "owner", p: [{ t: t, x: pos1(nat(t) * (r[3] % 1000) / 2000) }] }
  }

  // prices: scale the current price of one token by f/1000, on every source it has
  pure def scaled(s: State, t: str, f: int): Op = {
    val x = if (s.feeds.keys().contains(t)) pos1(s.feeds.get(t).px * f / 1000) else 0
    val y = if (s.safe.keys().contains(t)) pos1(s.safe.get(t).x * f / 1000) else 0
    val z = if (t == "XEGLD") "xegld" else if (t == "LEGLD") "legld" else if (t == "LXOXNO") "lxoxno" else ""
    { ...op0, k: "reprice", a: t, b: z, x: if (z != "") pos1(s.ls.get(z) * f / 1000) else x, y: y }
  }
  // move the price of a collateral or debt token so that an account lands near a chosen health factor
  pure def gCrash(s: State, r: Rnd): Op = {
    val n = pickN(borrowers(s), r[1], 0)
    if (n == 0) gFresh(r) else {
      val c = ctx(s, true)
      val k = collateral(c, s.acc.get(n))
      val d = debt(c, s.acc.get(n))
      val ds = depsOf(s, n)
      val t = pickT(ds, r[2], "USDC")
      if (not(k.ok) or not(d.ok) or c.usd <= 0 or k.w == 0 or ds == [] or t == "EGLD") scaled(s, pickT(borsOf(s, n), r[2], "USDC"), 1000 + r[3] % 700)
      else {
        val hf = pickN([1000, 1001, 999, 985, 960, 900, 800, 650, 500, 300, 50, 5], r[4], 900)
        val part = mulR(egldRay(mulR(s.acc.get(n).dep.get(t).sc, ix(c, t).s), px(c, t)), b2r(s.acc.get(n).dep.get(t).thr))
        // part * f/1000 + (w - part) = hf * d
        val want = d.v * hf / 1000 - (k.w - part)
        val f = if (part <= 0) 900 else want * 1000 / part
        scaled(s, t, imin(3000, imax(1, f)))
      }
    }
  }
  pure def gReprice(s: State, r: Rnd, toks: List[str]): Op = {
    val ts = toks.select(t => t != "EGLD" and t != "LP" and t != "LP2")
    scaled(s, pickT(ts, r[1], "USDC"), 500 + r[2] % 1200)
  }
  pure def gThreshold(s: State, r: Rnd, toks: List[str]): Op = {
    val n = pickN(accts(s), r[1], 1)
    val ds = depsOf(s, n)
    { ...op0, k: "threshold", u: user(r[2]), f: r[3] % 2 == 0,
      a: if (r[4] % 6 == 0 or ds == []) pickT(toks, r[5], "EGLD") else pickT(ds, r[5], "EGLD"),
      xs: if (r[6] % 3 == 0) [n, pickN(accts(s), r[7], 1)] else [n] }
  }

  // ---- strategies ----------------------------------------------------------------------
  // what the router returns for x units of `from`: about the fair value in `to`
  pure def routed(s: State, src: str, dst: str, x: int, k: int): int = {
    val p = price(s, src, true)
    val q = price(s, dst, true)
    if (p <= 0 or q <= 0) 1 else {
      val fair = x * p10(27 - decimals(src)) * p / q / p10(27 - decimals(dst))
      val f = pickN([1000, 1000, 997, 990, 1003, 950, 700, 1500], k, 1000)
      pos1(fair * f / 1000)
    }
  }
  pure def outs(t: str, x: int, other: str, k: int): List[Pay] =
    if (k % 7 == 0) [{ t: t, x: pos1(x / 2) }, { t: t, x: pos1(x - x / 2) }]
    else if (k % 7 == 1) [{ t: t, x: x }, { t: other, x: pos1(x / 1000) }]
    else if (k % 23 == 2) [{ t: other, x: 5 }]
    else if (k % 23 == 3) []
    else [{ t: t, x: x }]
  pure def gMultiply(s: State, r: Rnd, toks: List[str]): Op = {
    val open = r[1] % 3 != 0
    val mult = accts(s).select(n => s.acc.get(n).mode != "Normal")
    val n = if (open) 0 else pickN(if (r[1] % 2 == 0) mult else accts(s), r[2], 0)
    val a = if (n != 0 and r[3] % 4 != 0) pickT(depsOf(s, n), r[3], "XEGLD") else pickT(toks, r[3], "XEGLD")
    val b = pickT(toks, r[4], "EGLD")
    val third = pickT(toks, r[5], "USDC")
    val pt = if (r[6] % 3 == 0) a else if (r[6] % 3 == 1) b else third
    val px0 = pos1(nat(pt) * (r[7] % 900 + 100) / 500)
    val em = if (r[8] % 3 == 0) 1 else 0
    val fee = s.cfg.get(b).ffee
    val conv = if (pt == a) px0 else if (pt == b) 0 else routed(s, pt, a, px0, r[9])
    // amount borrowed: a multiple of the initial value
    val base = if (n == 0) routed(s, pt, b, px0, 0) else pos1(units(s, b, ltvRoom(s, n)))
    val x = if (r[10] % 9 == 0) amt(r[11], borrowEdge(s, if (n == 0) 1 else n, b, r[12]), nat(b)) else base * (r[10] % 4000 + 1) / 1000
    val net = x - x * fee / BPS + (if (n == 0 and pt == b) px0 else 0)
    { ...op0, k: "multiply", u: if (n == 0) user(r[2]) else owner(s, n), n: n, nft: n != 0, a: a, b: b, x: x, y: em,
      m: pickT(["Multiply", "Long", "Short", "Normal", "Multiply", "Long", "Short"], r[13], "Multiply"),
      p: if (n == 0 or r[14] % 15 == 0) [{ t: pt, x: px0 }] else [],
      f: r[15] % 6 != 0,
      s1: outs(a, routed(s, b, a, net, r[16]), third, r[17]),
      s2: if (r[15] % 6 == 0 or pt == a or pt == b) [] else outs(a, conv, b, r[18]) }
  }
  pure def gSwapDebt(s: State, r: Rnd, toks: List[str]): Op = {
    val n = pickN(borrowers(s), r[1], 0)
    val bs = borsOf(s, n)
    if (n == 0) op0 else {
      val a = if (r[2] % 8 == 0) pickT(toks, r[3], "EGLD") else pickT(bs, r[3], "EGLD")
      val b = pickT(toks, r[4], "USDC")
      val d = debtOf(s, n, a)
      val want = amt(r[5], d, nat(a))
      val x = pos1(routed(s, a, b, want, 0))
      val net = x - x * s.cfg.get(b).ffee / BPS
      { ...op0, k: "swapDebt", u: owner(s, n), n: n, nft: r[6] % 20 != 0, a: a, b: b, x: x,
        p: if (r[7] % 8 == 0) [{ t: pickT(bs, r[8], "EGLD"), x: pos1(nat(pickT(bs, r[8], "EGLD")) / 50) }] else [],
        s1: outs(a, routed(s, b, a, net, r[9]), b, r[10]) }
    }
  }
  pure def gSwapColl(s: State, r: Rnd, toks: List[str]): Op = {
    val n = pickN(accts(s), r[1], 0)
    val ds = depsOf(s, n)
    if (n == 0 or ds == []) op0 else {
      val a = pickT(ds, r[2], "EGLD")
      val b = pickT(toks, r[3], "USDC")
      val full = withdrawEdge(s, n, a, 0)
      val x = pos1(amt(r[4], full, nat(a)))
      { ...op0, k: "swapColl", u: owner(s, n), n: n, nft: r[5] % 20 != 0, a: a, b: b, x: x,
        p: if (r[6] % 8 == 0) [{ t: pickT(toks, r[7], "EGLD"), x: pos1(nat(pickT(toks, r[7], "EGLD")) / 50) }] else [],
        s1: outs(b, routed(s, a, b, imin(x, full), r[8]), a, r[9]) }
    }
  }
  pure def gRepayColl(s: State, r: Rnd): Op = {
    val n = pickN(borrowers(s), r[1], 0)
    val ds = depsOf(s, n)
    val bs = borsOf(s, n)
    if (n == 0 or ds == []) op0 else {
      val b = pickT(bs, r[2], "EGLD")
      val a = if (r[3] % 5 == 0 and s.acc.get(n).dep.keys().contains(b)) b else pickT(ds, r[3], "EGLD")
      val full = withdrawEdge(s, n, a, 0)
      val need = routed(s, b, a, debtOf(s, n, b), 0)
      val x = pos1(amt(r[4], imin(full, need + need / 500), nat(a)))
      { ...op0, k: "repayColl", u: owner(s, n), n: n, nft: r[5] % 20 != 0, a: a, b: b, x: x, f: r[6] % 2 == 0,
        p: if (r[7] % 6 == 0) [{ t: pickT(bs, r[8], "EGLD"), x: pos1(amt(r[9], debtOf(s, n, pickT(bs, r[8], "EGLD")), 1)) }] else [],
        s1: if (a == b) [] else outs(b, routed(s, a, b, imin(x, full), r[10]), a, r[11]) }
    }
  }
  // flash loans with every receiver behaviour
  pure def gFlash(s: State, r: Rnd, toks: List[str]): Op = {
    val t = pickT(toks, r[1], "EGLD")
    val p = s.pools.get(t)
    val x = amt(r[2], p.res, nat(t) * 3)
    val need = flashRequired(p, x, s.cfg.get(t).ffee)
    val y = pickN([need, need, need, need - 1, need + 1, x, x - 1, need + need / 100, 0], r[3], need)
    { ...op0, k: "flash", u: user(r[4]), a: t, x: x, y: imax(0, y),
      m: pickT(["pay", "pay", "pay", "pay", "claim", "pay", "wrong", "two", "none", "badep", "othershard"], r[5], "pay") }
  }
  // a flash loan whose receiver re-enters the controller with what would otherwise be a valid call
  pure def gReenter(s: State, r: Rnd, toks: List[str]): Op = {
    val t = pickT(toks, r[1], "EGLD")
    val x = pos1(imin(s.pools.get(t).res / 2, nat(t)))
    val mine = accts(s).select(n => owner(s, n) == "rcv")
    val n = pickN(mine, r[2], 0)
    val ds = depsOf(s, n)
    val bs = borsOf(s, n)
    val inner =
      if (r[3] % 13 == 0 or n == 0) opSupply("rcv", 0, 0, [{ t: "EGLD", x: WAD }])
      else if (r[3] % 13 == 1) opBorrow("rcv", n, [{ t: "USDC", x: 1000000 }])
      else if (r[3] % 13 == 2) { ...op0, k: "withdraw", n: n, nft: true, l: [{ t: pickT(ds, r[4], "EGLD"), x: 1000 }] }
      else if (r[3] % 13 == 3) { ...op0, k: "repay", n: n, p: [{ t: pickT(bs, r[4], "USDC"), x: 1000 }] }
      else if (r[3] % 13 == 4) { ...op0, k: "liquidate", n: pickN(unhealthy(s), r[4], n), p: gPayments(s, pickN(unhealthy(s), r[4], n), r, 5) }
      else if (r[3] % 13 == 5) { ...op0, k: "threshold", b: "EGLD", xs: [n], f: r[4] % 2 == 0 }
      else if (r[3] % 13 == 6) { ...op0, k: "indexes", l: [{ t: "USDC", x: 0 }] }
      else if (r[3] % 13 == 7) { ...op0, k: "clean", n: pickN(unhealthy(s), r[4], n) }
      else if (r[3] % 13 == 8) { ...op0, k: "multiply", n: 0, b: "XEGLD", p: [{ t: "XEGLD", x: 10 * WAD }], s1: [{ t: "XEGLD", x: WAD }] }
      else if (r[3] % 13 == 9) { ...op0, k: "swapDebt", n: n, nft: true, b: "USDC", s1: [{ t: "USDC", x: 1000000 }] }
      else if (r[3] % 13 == 10) { ...op0, k: "swapColl", n: n, nft: true, b: "XEGLD", s1: [{ t: "XEGLD", x: WAD }] }
      else if (r[3] % 13 == 11) { ...op0, k: "repayColl", n: n, nft: true, b: "USDC", s1: [{ t: "USDC", x: 10000 }] }
      else { ...op0, k: "flash" }
    { ...inner, k: "flash", m: inner.k, u: user(r[6]), a: t, x: x, y: flashRequired(s.pools.get(t), x, s.cfg.get(t).ffee) + nat(t) / 1000 }
  }
  pure def gXfer(s: State, r: Rnd): Op = {
    val n = pickN(nfts(s), r[1], 1)
    { ...op0, k: "xfer", n: n, u: owner(s, n), b: pickT(["alice", "bob", "carol", "rcv"], r[2], "alice") }
  }
  // misuse of account tokens: stale, foreign, counterfeit or missing
  pure def gMisuse(s: State, r: Rnd, toks: List[str]): Op = {
    val idx = pickN(range(1, s.nonce + 2), r[1], 1)
    val gone = pickN(nfts(s).select(n => not(s.acc.keys().contains(n))), r[1], idx)
    val n = if (r[2] % 2 == 0) gone else idx
    val t = pickT(if (depsOf(s, n) == []) toks else depsOf(s, n), r[3], "EGLD")
    val b = pickT(if (borsOf(s, n) == []) toks else borsOf(s, n), r[3], "USDC")
    val m = if (r[4] % 5 == 0) "fake" else ""
    val nft = m == "fake" or r[4] % 5 != 1
    val u = if (r[5] % 3 == 0) user(r[6]) else owner(s, n)
    val o = { ...op0, n: n, nft: nft, m: m, u: if (m == "fake") user(r[6]) else u }
    if (r[7] % 8 == 0) { ...o, k: "withdraw", l: [{ t: t, x: pos1(r[8]) }] }
    else if (r[7] % 8 == 1) { ...o, k: "borrow", l: [{ t: b, x: pos1(r[8]) }] }
    else if (r[7] % 8 == 2) { ...o, k: "supply", p: [{ t: t, x: pos1(r[8]) }] }
    else if (r[7] % 8 == 3) { ...o, k: "swapColl", a: t, b: b, x: pos1(r[8]), s1: [{ t: b, x: 10 }] }
    else if (r[7] % 8 == 4) { ...o, k: "swapDebt", a: b, b: t, x: pos1(r[8]), s1: [{ t: b, x: 10 }] }
    else if (r[7] % 8 == 5) { ...o, k: "repayColl", a: t, b: b, x: pos1(r[8]), s1: [{ t: b, x: 10 }] }
    else if (r[7] % 8 == 6) { ...o, k: "repay", nft: false, m: "", n: n, p: [{ t: b, x: pos1(r[8]) }] }
    else { ...o, k: "liquidate", nft: false, m: "", n: n, p: [{ t: b, x: pos1(r[8]) }] }
  }

  // ---- administration ----------------------------------------------------------------------
  pure def b2n(k: int): int = k % 2
  pure def cfgList(g: Cfg): List[int] =
    [g.ltv, g.thr, g.bon, g.fee, b2i(g.iso), g.ceil, b2i(g.silo), b2i(g.flash), g.ffee, b2i(g.coll), b2i(g.borr), b2i(g.isoB), g.bcap, g.scap]
  pure def gEditAsset(s: State, r: Rnd, toks: List[str]): Op = {
    val t = if (r[5] % 20 == 0) pickT(NEWTOKENS, r[1], "NEWA") else pickT(toks, r[1], "EGLD")
    val l = cfgList(if (listed(s, t)) s.cfg.get(t) else stdCfg)
    val sel = r[2] % 16
    val v = r[3]
    val l2 =
      if (sel == 0) l.replaceAt(0, v % 9000)
      else if (sel == 1) l.replaceAt(1, imax(1, l[0]) + pickN([0, 1, 0 - 1, 300, 1500], v, 1))
      else if (sel == 2) l.replaceAt(2, if (v % 7 == 0) 0 else v % 1501)
      else if (sel == 3) l.replaceAt(3, if (v % 7 == 0) 0 else v % 5000)
      else if (sel == 4) l.replaceAt(0, 3000 + v % 3000).replaceAt(1, 3000 + (v / 7) % 4000)
      else if (sel == 5) l.replaceAt(5, v * WAD / 50)
      else if (sel == 6) l.replaceAt(6, v % 2)
      else if (sel == 7) l.replaceAt(7, v % 2)
      else if (sel == 8) l.replaceAt(8, if (v % 7 == 0) 0 else v % 200)
      else if (sel == 9) l.replaceAt(9, v % 2)
      else if (sel == 10) l.replaceAt(10, v % 2)
      else if (sel == 11) l.replaceAt(11, v % 2)
      else if (sel == 12) l.replaceAt(12, if (v % 4 == 0 or not(listed(s, t))) 0 else borOrig(s.pools.get(t), s.pools.get(t).bor) + nat(t) * (v % 50) / 10)
      else if (sel == 13) l.replaceAt(13, if (v % 4 == 0 or not(listed(s, t))) 0 else supOrig(s.pools.get(t), s.pools.get(t).sup) + nat(t) * (v % 50) / 10)
      else if (sel == 14) l.replaceAt(0, 0).replaceAt(1, 0)
      else cfgList(cfg0(t))
    { ...op0, k: "editAsset", u: if (r[4] % 12 == 0) user(r[4]) else "owner", a: t, xs: l2 }
  }
  pure def gEmode(s: State, r: Rnd, toks: List[str]): Op = {
    val u = if (r[1] % 12 == 0) user(r[1]) else "owner"
    val id = 1 + r[2] % (s.emodes.keys().size() + 1)
    val t = if (r[9] % 16 == 0) pickT(NEWTOKENS, r[3], "NEWA") else pickT(toks, r[3], "EGLD")
    val sel = r[4] % 10
    if (sel == 0) { ...op0, k: "addCat", u: u, xs: [8000 + r[5] % 1000, 9000 + r[6] % 500, r[7] % 500] }
    else if (sel == 1) { ...op0, k: "editCat", u: u, n: id, xs: [7000 + r[5] % 2500, 8500 + r[6] % 1000, r[7] % 900], f: r[8] % 4 == 0 }
    else if (sel == 2 and r[8] % 3 == 0) { ...op0, k: "removeCat", u: u, n: id }
    else if (sel <= 6) { ...op0, k: "addAsset", u: u, n: id, a: t, xs: [b2n(r[5]), b2n(r[6])] }
    else if (sel <= 8) { ...op0, k: "editEmAsset", u: u, n: id, a: t, xs: [b2n(r[5]), b2n(r[6])] }
    else { ...op0, k: "removeAsset", u: u, n: id, a: t }
  }
  pure def gParams(s: State, r: Rnd, toks: List[str]): Op = {
    val t = pickT(toks, r[1], "EGLD")
    val p = s.pools.get(t)
    val mid = RAY * (10 + r[2] % 60) / 100
    val opt = pickN([mid + RAY * (r[3] % 30) / 100, mid, mid + 1, RAY, RAY - 1, RAY + RAY / 10], r[4], mid + 1)
    val base = RAY * (r[5] % 10) / 100
    val mx = pickN([base + RAY * (1 + r[6] % 200) / 100, base, base + 1, 0], r[7] % 9, base + RAY / 2)
    val rf = pickN([r[8] % 10000, 9999, 10000, 0, 2000, 1000], r[9], 1000)
    { ...op0, k: "params", u: if (r[10] % 12 == 0) user(r[10]) else "owner", a: t,
      xs: [imax(0, mx), base, RAY * (r[11] % 20) / 100, RAY * (r[12] % 60) / 100, RAY * (r[13] % 300) / 100, mid, opt, rf] }
  }
  pure def gTolerance(r: Rnd, toks: List[str]): Op = {
    val f = pickN([49, 50, 51, 200, 500, 5000, 5001, 1000], r[1], 200)
    val l = pickN([149, 150, 200, 199, 500, 10000, 10001, 1200], r[2], 500)
    { ...op0, k: "tolerance", u: if (r[3] % 8 == 0) user(r[3]) else "owner", a: pickT(toks.concat(["LP", "NONE"]), r[4], "USDC"), x: f, y: l }
  }
  pure def gLimits(r: Rnd): Op =
    { ...op0, k: "limits", u: if (r[1] % 8 == 0) user(r[1]) else "owner", x: pickN([1, 2, 3, 10, 0, 255], r[2], 10), y: pickN([1, 2, 3, 4, 10, 255], r[3], 10) }
  pure def gPause(s: State, r: Rnd): Op =
    { ...op0, k: if (s.paused) "unpause" else "pause", u: if (r[1] % 6 == 0) user(r[1]) else "owner" }
  pure val DIRECT: List[str] = ["supply", "borrow", "withdraw", "repay", "updateIndexes", "addRewards", "flashLoan", "createStrategy",
    "seizePosition", "claimRevenue", "updateParams"]
  pure val ADMIN: List[str] = ["registerAccountToken", "setTokenOracle", "editTokenOracleTolerance", "setAggregator", "setSwapRouter",
    "setAccumulator", "setSafePriceView", "setLiquidityPoolTemplate", "addEModeCategory", "editEModeCategory", "removeEModeCategory",
    "addAssetToEModeCategory", "editAssetInEModeCategory", "removeAssetFromEModeCategory", "editAssetConfig", "setPositionLimits",
    "createLiquidityPool", "upgradeLiquidityPool", "upgradeLiquidityPoolParams", "addRewards", "pause", "unpause",
    "agg:addOracles", "agg:removeOracles", "agg:setSubmissionCount", "agg:pause", "agg:unpause", "agg:submit", "agg:submitBatch"]
  pure def gDirect(s: State, r: Rnd, toks: List[str]): Op =
    if (r[1] % 3 == 0) { ...op0, k: "direct", u: user(r[2]), a: pickT(toks, r[3], "EGLD"), m: pickT(DIRECT, r[4], "supply"), n: pickN(accts(s), r[5], 1), x: pos1(r[6]) }
    else { ...op0, k: "direct", u: user(r[2]), a: "", b: pickT(toks, r[3], "EGLD"), m: pickT(ADMIN, r[4], "pause"), n: 1, x: pos1(r[6]) }
  pure def gAddr(r: Rnd): Op =
    { ...op0, k: "setAddr", u: if (r[1] % 4 == 0) user(r[1]) else "owner",
      a: pickT(["setAggregator", "setSwapRouter", "setSafePriceView", "setLiquidityPoolTemplate", "setAccumulator"], r[2], "setAggregator"),
      b: pickT(["same", "zero", "user"], r[3], "same") }
  pure def gNewMarket(s: State, r: Rnd): Op = {
    val t = pickT(["NEWA", "NEWB", "NEWA", "NEWB", "NEWA", "NEWB", "EGLD"], r[1], "NEWA")
    val u = if (r[2] % 9 == 0) user(r[2]) else "owner"
    val odd = r[15] % 4 == 0
    if (s.orc.keys().contains(t) == (r[3] % 6 == 0))
      { ...op0, k: "setOracle", u: u, a: t, m: pickT(["", "", "", "", "xegld", "legld", "lxoxno", "none", "onedex"], r[16], ""), xs: [if (r[16] % 9 >= 4 and r[16] % 9 <= 6) 18 else pickN([6, 18], r[4], 18), if (odd) pickN([49, 50, 5000, 5001], r[5], 200) else 200, if (odd) pickN([150, 149, 10000, 10001, 100], r[6], 500) else 500, 3600] }
    else { ...op0, k: "createPool", u: u, a: t,
      xs: [pickN([5000, 7000, 0], r[4], 5000), if (odd) pickN([7500, 7000, 5000, 0], r[5], 7500) else 7500, 500, 1000, b2n(r[6]), 1000 * WAD, if (r[7] % 3 == 0) 1 else 0, b2n(r[8]), 10,
           if (r[9] % 4 == 0) 0 else 1, if (r[10] % 4 == 0) 0 else 1, b2n(r[11]), 0, 0,
           if (odd) pickN([RAY, 0, RAY / 100], r[12], RAY) else RAY, RAY / 100, RAY / 20, RAY / 10, RAY, RAY / 2,
           if (odd) pickN([4 * (RAY / 5), RAY / 2, RAY], r[13], 4 * (RAY / 5)) else 4 * (RAY / 5), if (odd) pickN([1000, 9999, 10000], r[14], 1000) else 1000] }
  }
  // the life of a market created later: a price feed, deposits, loans; and markets that do not exist
  pure def gNewcomer(s: State, r: Rnd): Op = {
    val t = pickT(NEWTOKENS, r[1] / 5, "NEWA")
    val a = pickN(accts(s), r[2], 1)
    val u = owner(s, a)
    val x = pos1(nat("SILO") * (r[3] % 1000) / 300)
    if (not(listed(s, t)) and r[4] % 4 != 0) gNewMarket(s, r)
    else if (not(s.feeds.keys().contains(t)) or r[4] % 9 == 0) { ...op0, k: "feed", a: t, x: pos1(2 * WAD * (500 + r[5] % 1000) / 1000) }
    else if (r[4] % 9 <= 3) { ...op0, k: "supply", u: u, n: a, nft: true, p: [{ t: t, x: x }] }
    else if (r[4] % 9 <= 5) { ...op0, k: "borrow", u: u, n: a, nft: true, l: [{ t: t, x: x / 3 }] }
    else if (r[4] % 9 == 6) { ...op0, k: "withdraw", u: u, n: a, nft: true, l: [{ t: t, x: x }] }
    else if (r[4] % 9 == 7) { ...op0, k: "repay", u: u, n: a, p: [{ t: t, x: x }] }
    else if (not(listed(s, t)) or r[6] % 6 == 0) { ...op0, k: pickT(["flash", "params", "editAsset", "removeAsset", "claim", "indexes", "rewards", "threshold", "upgradePool"], r[7], "claim"),
      u: "owner", a: t, x: x, y: 2 * x, m: "pay", n: 1, l: [{ t: t, x: 0 }], p: if (r[7] % 9 == 6) [{ t: t, x: x }] else [], f: r[8] % 2 == 0,
      xs: if (r[7] % 9 == 1) [RAY, RAY / 100, RAY / 25, RAY / 10, RAY / 2, RAY / 2, 4 * (RAY / 5), 1000] else if (r[7] % 9 == 7) [a] else cfgList(stdCfg) }
    else { ...op0, k: "viewMkt", a: t }
  }
  pure def gUpgrade(s: State, r: Rnd, toks: List[str]): Op = {
    val u = if (r[1] % 4 == 0) user(r[1]) else "owner"
    if (r[2] % 2 == 0) { ...op0, k: "upgradeCtl", u: u } else { ...op0, k: "upgradePool", u: u, a: if (r[3] % 6 == 0) "NEWB" else pickT(toks, r[3], "EGLD") }
  }

  // ---- oracle environment --------------------------------------------------------------------
  pure def gFeed(s: State, r: Rnd): Op = {
    val t = pickT(["EGLD", "USDC", "XOXNO", "SILO", "CAP"], r[1], "USDC")
    { ...op0, k: "feed", a: t, x: pos1(usd0(t) * pickN([1000, 1000, 990, 1010, 1019, 1021, 981, 979, 1049, 1051, 952, 953, 900, 1200, 500, 2000], r[2], 1000) / 1000) }
  }
  // a safe price at or next to a tolerance bound of the aggregator price
  pure def gSafe(s: State, r: Rnd): Op = {
    val t = pickT(["USDC", "USDC", "XOXNO", "XOXNO", "ISO", "ISO6"], r[1], "USDC")
    val o = s.orc.get(t)
    val fair = if (t == "ISO") WAD / 20 else if (t == "ISO6") 10000000 else {
      val e = egldUsd({ ...s, feeds: s.feeds.keys().mapBy(k => { ...s.feeds.get(k), ts: s.now / 1000 }), aggPaused: false })
      val f = s.feeds.get(t).px
      down(divR(f * E9, e * E9), 18)
    }
    val b = pickN([10000, o.fu, o.fl, o.lu, o.ll, 10000, o.fu + 1, o.fl - 1, o.lu + 1, o.ll - 1], r[2], 10000)
    { ...op0, k: "safe", a: t, b: if (t == "ISO6") "USDC" else "WEGLD", x: pos1(fair * b / BPS + pickN([0, 0, 1, 0 - 1, fair / 30000, 0 - fair / 30000], r[3], 0)) }
  }
  pure def gPair(s: State, r: Rnd): Op = {
    val t = pickT(["USDC", "XOXNO", "ISO", "ISO6", "LXOXNO"], r[1], "USDC")
    val q = s.pairs.get(t)
    if (t == "LXOXNO" and r[2] % 3 != 0)
      { ...op0, k: "pair", a: t, f: q.act, xs: [pos1(1000000 * WAD * (500 + r[3] % 1000) / 1000 + r[4]), pos1(2875 * WAD * (500 + r[5] % 1000) / 1000 + r[6]), 50000 * WAD + r[7]] }
    else if (t == "USDC" and r[2] % 3 != 0)
      { ...op0, k: "pair", a: t, f: q.act, xs: [pos1(100000 * WAD * (500 + r[3] % 1000) / 1000 + r[4]), pos1(4000000000000 * (500 + r[5] % 1000) / 1000 + r[6]), 200000 * WAD + r[7]] }
    else { ...op0, k: "pair", a: t, f: not(q.act), xs: [q.r0, q.r1, q.lp] }
  }
  pure def gLs(s: State, r: Rnd): Op = {
    val k = pickT(["xegld", "legld", "lxoxno"], r[1], "xegld")
    { ...op0, k: "ls", a: k, x: pos1(genesis.ls.get(k) * (800 + r[2] % 500) / 1000 + r[3]) }
  }
  pure def gAggPause(s: State, r: Rnd): Op = { ...op0, k: "aggPause", f: not(s.aggPaused) }

  // ---- views ------------------------------------------------------------------------------------
  pure def gView(s: State, r: Rnd, toks: List[str]): Op = {
    val n = if (r[1] % 10 == 0) s.nonce + 1 else pickN(accts(s), r[2], 1)
    val ds = depsOf(s, n).concat(borsOf(s, n))
    if (r[3] % 3 == 0) { ...op0, k: "viewAcct", n: n, a: if (r[4] % 3 == 0 or ds == []) pickT(toks, r[5], "EGLD") else pickT(ds, r[5], "EGLD") }
    else if (r[3] % 3 == 1) { ...op0, k: "viewMkt", a: pickT(toks, r[5], "EGLD") }
    else {
      val l = unhealthy(s)
      val k = if (l != [] and r[4] % 5 != 0) pickN(l, r[5], 1) else n
      { ...op0, k: "viewLiq", n: k, p: if (r[6] % 4 == 0) [] else gPayments(s, k, r, 7),
        l: MARKETS.foldl([], (z, t) => if (depsOf(s, k).concat(borsOf(s, k)).select(y => y == t) != []) z.append({ t: t, x: 0 }) else z) }
    }
  }
}
