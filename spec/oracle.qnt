// Price resolution (controller/src/oracle): EGLD price in WAD per whole token.
// -1 stands for "no acceptable price": the transaction that asked for it fails.
module oracle {
  import types.* from "./types"

  pure val NOPX: int = 0 - 1

  pure def isEgld(t: str): bool = t == "EGLD" or t == "WEGLD"
  // oracle record used for a token (WEGLD shares EGLD's)
  pure def orcOf(s: State, t: str): Orc = s.orc.get(if (isEgld(t)) "EGLD" else t)

  // A feed is usable when the aggregator runs, the pair was published, and it is fresh
  // (strictly younger than the limit) unless unsafe prices are allowed.
  pure def feedUsd(s: State, tick: str, stale: int, unsafe: bool): int =
    if (s.aggPaused) NOPX
    else if (not(s.feeds.keys().contains(tick))) NOPX
    else {
      val f = s.feeds.get(tick)
      if (unsafe or s.now / 1000 - f.ts < stale) f.px else NOPX
    }
  // USD price of EGLD taken at the start of every transaction: never stale, never unsafe
  pure def egldUsd(s: State): int = feedUsd(s, "EGLD", s.orc.get("EGLD").stale, false)

  pure def aggEgld(s: State, t: str, stale: int, unsafe: bool): int = {
    val usd = feedUsd(s, if (isEgld(t)) "EGLD" else t, stale, unsafe)
    if (usd < 0) NOPX else down(divR(usd * E9, egldUsd(s) * E9), 18)
  }

  // token amounts <-> EGLD
  pure def egldRay(amtRay: int, px: int): int = mulR(amtRay, px * E9)
  pure def egldWad(amtRay: int, px: int): int = down(egldRay(amtRay, px), 18)
  pure def usdOf(egldRayAmt: int, usd: int): int = down(mulR(egldRayAmt, usd * E9), 18)

  // ratio b/a in bps (half-up); a > 0
  pure def anchor(a: int, b: int): int = (divR(b * E9, a * E9) + E23 / 2) / E23
  pure def within(a: int, b: int, upper: int, lower: int): bool = {
    val r = anchor(a, b)
    r <= upper and r >= lower
  }

  // rec resolves the price of another token (one nesting level down)
  pure def safeEgld(s: State, t: str, o: Orc, unsafe: bool, rec: (str) => int): int =
    if (not(s.pairs.get(o.pair).act) and not(unsafe)) NOPX
    else if (not(s.safe.keys().contains(t))) NOPX
    else {
      val r = s.safe.get(t)
      if (isEgld(r.t)) r.x
      else {
        val p = rec(r.t)
        if (p < 0) NOPX else egldWad(up(r.x, s.orc.get(r.t).dec), p)
      }
    }

  pure def mixEgld(o: Orc, a: int, sp: int, unsafe: bool): int =
    if (a <= 0) NOPX
    else if (within(a, sp, o.fu, o.fl)) sp
    else if (within(a, sp, o.lu, o.ll)) (a + sp) / 2
    else if (unsafe) sp else NOPX

  pure def normalEgld(s: State, t: str, o: Orc, unsafe: bool, rec: (str) => int): int =
    if (o.me == "agg") aggEgld(s, t, o.stale, unsafe)
    else if (o.me == "safe") safeEgld(s, t, o, unsafe, rec)
    else if (o.me == "mix") {
      val a = aggEgld(s, t, o.stale, unsafe)
      val sp = safeEgld(s, t, o, unsafe, rec)
      if (a < 0 or sp < 0) NOPX else mixEgld(o, a, sp, unsafe)
    } else NOPX

  // onchain: price the underlying through the full oracle, otherwise through the aggregator only
  pure def derivedEgld(s: State, o: Orc, unsafe: bool, onchain: bool, rec: (str) => int): int =
    if (o.src == "xegld" or o.src == "legld") s.ls.get(o.src)
    else if (o.src == "lxoxno") {
      val p = if (onchain) rec(o.base) else aggEgld(s, o.base, o.stale, unsafe)
      if (p < 0) NOPX else egldWad(up(s.ls.get(o.src), o.dec), p)
    } else NOPX

  // Arda fair LP price at WAD precision
  pure def lpPrice(r0: int, r1: int, lp: int, pa: int, pb: int): int = {
    val k = mulW(r0, r1)
    val x = isqrt(mulW(k, divW(pb, pa))) * E9
    val y = isqrt(mulW(k, divW(pa, pb))) * E9
    divW(mulW(x, pa) + mulW(y, pb), lp)
  }
  type LpQ = { on: int, off: int }
  pure def lpQuote(s: State, o: Orc, unsafe: bool, rec: (str) => int): LpQ = {
    val q = s.pairs.get(o.pair)
    val pa = rec(o.base)
    val pb = rec(o.quote)
    val oa = orcOf(s, o.base)
    val ob = orcOf(s, o.quote)
    val fa = if (oa.ty == "derived") derivedEgld(s, oa, unsafe, false, rec) else aggEgld(s, o.base, oa.stale, unsafe)
    val fb = if (ob.ty == "derived") derivedEgld(s, ob, unsafe, false, rec) else aggEgld(s, o.quote, ob.stale, unsafe)
    val r0 = q.r0 * p10(18 - (if (isEgld(o.base)) 18 else oa.dec))
    val r1 = q.r1 * p10(18 - (if (isEgld(o.quote)) 18 else ob.dec))
    val lp = q.lp * p10(18 - o.dec)
    if (pa <= 0 or pb <= 0 or fa <= 0 or fb <= 0 or lp <= 0 or o.src != "xex") { on: NOPX, off: NOPX }
    else { on: lpPrice(r0, r1, lp, pa, pb), off: lpPrice(r0, r1, lp, fa, fb) }
  }
  pure def lpEgld(s: State, o: Orc, unsafe: bool, rec: (str) => int): int = {
    val q = lpQuote(s, o, unsafe, rec)
    if (q.on <= 0) NOPX
    else if (within(q.on, q.off, o.fu, o.fl)) q.on
    else if (within(q.on, q.off, o.lu, o.ll) or unsafe) (q.on + q.off) / 2
    else NOPX
  }

  pure def priceL(s: State, t: str, unsafe: bool, rec: (str) => int): int =
    if (isEgld(t)) WAD
    else if (not(s.orc.keys().contains(t))) NOPX
    else {
      val o = s.orc.get(t)
      if (o.ty == "normal") normalEgld(s, t, o, unsafe, rec)
      else if (o.ty == "derived") derivedEgld(s, o, unsafe, true, rec)
      else if (o.ty == "lp") lpEgld(s, o, unsafe, rec)
      else NOPX
    }
  // the token graph is at most three levels deep in every configuration considered
  pure def price0(s: State, t: str, unsafe: bool): int = priceL(s, t, unsafe, x => NOPX)
  pure def price1(s: State, t: str, unsafe: bool): int = priceL(s, t, unsafe, x => price0(s, x, unsafe))
  pure def price2(s: State, t: str, unsafe: bool): int = priceL(s, t, unsafe, x => price1(s, x, unsafe))
  pure def price(s: State, t: str, unsafe: bool): int = priceL(s, t, unsafe, x => price2(s, x, unsafe))

  // price components of the getAllMarketIndexes view
  type Comp = { safe: int, agg: int, fin: int, w1: bool, w2: bool }
  pure val noComp: Comp = { safe: NOPX, agg: NOPX, fin: NOPX, w1: false, w2: false }
  pure def components(s: State, t: str, unsafe: bool): Comp = {
    val rec = price2(s, t, unsafe)
    val fin = price(s, t, unsafe)
    if (isEgld(t)) { safe: WAD, agg: WAD, fin: WAD, w1: true, w2: true }
    else if (fin < 0) noComp
    else {
      val o = s.orc.get(t)
      if (o.ty == "normal" and o.me == "mix") {
        val a = aggEgld(s, t, o.stale, unsafe)
        val sp = safeEgld(s, t, o, unsafe, x => price2(s, x, unsafe))
        { safe: sp, agg: a, fin: fin, w1: within(a, sp, o.fu, o.fl), w2: within(a, sp, o.lu, o.ll) }
      } else if (o.ty == "lp") {
        val q = lpQuote(s, o, unsafe, x => price2(s, x, unsafe))
        { safe: q.on, agg: q.off, fin: fin, w1: within(q.on, q.off, o.fu, o.fl), w2: within(q.on, q.off, o.lu, o.ll) }
      } else if (o.ty == "derived" and o.src == "lxoxno") {
        val ob = s.orc.get(o.base)
        if (ob.ty == "normal" and ob.me == "mix") {
          val a = aggEgld(s, o.base, ob.stale, unsafe)
          val sp = safeEgld(s, o.base, ob, unsafe, x => price1(s, x, unsafe))
          { safe: fin, agg: fin, fin: fin, w1: within(a, sp, ob.fu, ob.fl), w2: within(a, sp, ob.lu, ob.ll) }
        } else { safe: fin, agg: fin, fin: fin, w1: true, w2: true }
      } else { safe: fin, agg: fin, fin: fin, w1: true, w2: true }
    }
  }
}
