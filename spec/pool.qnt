// One liquidity pool (liquidity_layer): balances, indexes, interest accrual and every
// owner-only operation.  All scaled amounts and indexes are raw RAY integers; token
// amounts are raw integers at the asset's own decimals.
module pool {
  import fixedpoint.* from "./fixedpoint"

  type Pool = {
    sup: int, bor: int, rev: int, sIdx: int, bIdx: int, ts: int, res: int, dec: int,
    mx: int, base: int, s1: int, s2: int, s3: int, mid: int, opt: int, rf: int
  }
  // Result of a pool call: `pos` is the new scaled amount of the position concerned,
  // `paid` what the pool sent out.
  type PRes = { ok: bool, why: str, p: Pool, pos: int, paid: int }

  pure def pOk(p: Pool, pos: int, paid: int): PRes = { ok: true, why: "", p: p, pos: pos, paid: paid }
  pure def pFail(p: Pool, why: str): PRes = { ok: false, why: why, p: p, pos: 0, paid: 0 }

  // ---- interest rate model -------------------------------------------------------
  pure def annualRate(u: int, p: Pool): int = {
    val r =
      if (u < p.mid) p.base + (u * p.s1) / p.mid
      else if (u < p.opt) p.base + p.s1 + ((u - p.mid) * p.s2) / (p.opt - p.mid)
      else p.base + p.s1 + p.s2 + ((u - p.opt) * p.s3) / (RAY - p.opt)
    imin(r, p.mx)
  }
  pure def rateMs(u: int, p: Pool): int = divR(annualRate(u, p), MS_YEAR * RAY)
  pure def depositRate(u: int, rate: int, rf: int): int =
    if (u == 0) 0 else mulR(mulR(u, rate), b2r(BPS - rf))

  pure def compound(rate: int, ms: int): int =
    if (ms == 0) RAY else {
      val x = mulR(rate, ms * RAY)
      val x2 = mulR(x, x)
      val x3 = mulR(x2, x)
      val x4 = mulR(x3, x)
      val x5 = mulR(x4, x)
      RAY + x + divR(x2, 2 * RAY) + divR(x3, 6 * RAY) + divR(x4, 24 * RAY) + divR(x5, 120 * RAY)
    }

  pure def util(p: Pool): int =
    if (p.sup == 0) 0 else divR(mulR(p.bor, p.bIdx), mulR(p.sup, p.sIdx))
  // would the utilization (or the supplier reward ratio) divide by zero?
  pure def degenerate(p: Pool): bool = p.sup != 0 and mulR(p.sup, p.sIdx) == 0

  pure def bumpSupplyIdx(sup: int, sIdx: int, rewards: int): int =
    if (sup != 0 and rewards != 0) mulR(sIdx, RAY + divR(rewards, mulR(sup, sIdx))) else sIdx

  // indexes the pool would have at time `now`
  pure def simIdx(p: Pool, now: int): { s: int, b: int } =
    if (now <= p.ts) { s: p.sIdx, b: p.bIdx } else {
      val nb = mulR(p.bIdx, compound(rateMs(util(p), p), now - p.ts))
      val interest = mulR(p.bor, nb) - mulR(p.bor, p.bIdx)
      val fee = mulR(interest, b2r(p.rf))
      { s: bumpSupplyIdx(p.sup, p.sIdx, interest - fee), b: nb }
    }

  pure def addRevenue(p: Pool, feeRay: int): Pool =
    if (feeRay == 0) p else {
      val sc = divR(feeRay, p.sIdx)
      { ...p, rev: p.rev + sc, sup: p.sup + sc }
    }

  // global_sync
  pure def sync(p: Pool, now: int): Pool =
    if (now <= p.ts) p else {
      val ix = simIdx(p, now)
      val interest = mulR(p.bor, ix.b) - mulR(p.bor, p.bIdx)
      val fee = mulR(interest, b2r(p.rf))
      addRevenue({ ...p, sIdx: ix.s, bIdx: ix.b, ts: now }, fee)
    }

  // ---- operations (callable by the owner, i.e. the controller, only) ---------------
  pure def supOrig(p: Pool, sc: int): int = down(mulR(sc, p.sIdx), p.dec)
  pure def borOrig(p: Pool, sc: int): int = down(mulR(sc, p.bIdx), p.dec)

  pure def poolSupply(p0: Pool, now: int, pos: int, amount: int): PRes = {
    val p = sync(p0, now)
    val sc = divR(up(amount, p.dec), p.sIdx)
    pOk({ ...p, sup: p.sup + sc, res: p.res + amount }, pos + sc, 0)
  }

  pure def poolBorrow(p0: Pool, now: int, pos: int, amount: int): PRes = {
    val p = sync(p0, now)
    val sc = divR(up(amount, p.dec), p.bIdx)
    if (p.res < amount) pFail(p0, "liquidity")
    else pOk({ ...p, bor: p.bor + sc, res: p.res - amount }, pos + sc, amount)
  }

  // liq: liquidation withdrawal carrying a protocol fee (in asset units)
  pure def poolWithdraw(p0: Pool, now: int, pos: int, amount: int, liq: bool, fee: int): PRes = {
    val p = sync(p0, now)
    val orig = supOrig(p, pos)
    val full = amount >= orig
    val sc = if (full) pos else divR(up(amount, p.dec), p.sIdx)
    val gross = if (full) orig else amount
    val net = if (liq) gross - fee else gross
    val p2 = if (liq) addRevenue(p, up(fee, p.dec)) else p
    if (net < 0) pFail(p0, "fee")
    else if (p.res < net) pFail(p0, "liquidity")
    else if (sc > p2.sup or sc > pos) pFail(p0, "underflow")
    else pOk({ ...p2, sup: p2.sup - sc, res: p2.res - net }, pos - sc, net)
  }

  // `paid` is the overpayment returned to the caller
  pure def poolRepay(p0: Pool, now: int, pos: int, amount: int): PRes = {
    val p = sync(p0, now)
    val orig = borOrig(p, pos)
    val full = amount >= orig
    val sc = if (full) pos else divR(up(amount, p.dec), p.bIdx)
    val over = if (full) amount - orig else 0
    if (sc > p.bor or sc > pos) pFail(p0, "underflow")
    else pOk({ ...p, bor: p.bor - sc, res: p.res + amount - over }, pos - sc, over)
  }

  pure def poolAddRewards(p0: Pool, now: int, amount: int): PRes = {
    val p = sync(p0, now)
    pOk({ ...p, sIdx: bumpSupplyIdx(p.sup, p.sIdx, up(amount, p.dec)), res: p.res + amount }, 0, 0)
  }

  // Flash loan, in two halves around the receiver's execution.  `back` is what the receiver
  // returned (asset units, in exactly one payment of the pool's asset), or -1 otherwise.
  pure def flashRequired(p: Pool, amount: int, feeBps: int): int =
    down(mulR(up(amount, p.dec), b2r(BPS + feeBps)), p.dec)
  pure def poolFlashOut(p0: Pool, now: int, amount: int): PRes = {
    val p = sync(p0, now)
    if (p.res < amount) pFail(p0, "liquidity") else pOk({ ...p, res: p.res - amount }, 0, amount)
  }
  pure def poolFlashIn(p: Pool, amount: int, feeBps: int, back: int): PRes =
    if (back < 0 or back < flashRequired(p, amount, feeBps)) pFail(p, "repayment")
    else pOk(addRevenue({ ...p, res: p.res + back }, up(back - amount, p.dec)), 0, 0)

  pure def poolStrategy(p0: Pool, now: int, pos: int, amount: int, fee: int): PRes = {
    val p = sync(p0, now)
    val sc = divR(up(amount, p.dec), p.bIdx)
    if (p.res < amount) pFail(p0, "liquidity")
    else if (fee > amount) pFail(p0, "fee")
    else pOk(addRevenue({ ...p, bor: p.bor + sc, res: p.res - (amount - fee) }, up(fee, p.dec)), pos + sc, amount - fee)
  }

  pure def poolSeizeBorrow(p0: Pool, now: int, pos: int): PRes = {
    val p = sync(p0, now)
    val total = mulR(p.sup, p.sIdx)
    val debt = imin(mulR(pos, p.bIdx), total)
    val nIdx = imax(mulR(p.sIdx, divR(total - debt, total)), 1)
    if (total == 0) pFail(p0, "divzero")
    else if (pos > p.bor) pFail(p0, "underflow")
    else pOk({ ...p, sIdx: nIdx, bor: p.bor - pos }, 0, 0)
  }
  pure def poolSeizeDeposit(p0: Pool, now: int, pos: int): PRes = {
    val p = sync(p0, now)
    pOk({ ...p, rev: p.rev + pos }, 0, 0)
  }

  pure def poolClaim(p0: Pool, now: int): PRes = {
    val p = sync(p0, now)
    val treasury = supOrig(p, p.rev)
    val amt = imin(p.res, treasury)
    val burn = if (amt >= treasury) p.rev else mulR(p.rev, divR(up(amt, p.dec), up(treasury, p.dec)))
    if (p.rev == 0 or amt == 0) pOk(p, 0, 0)
    else pOk({ ...p, rev: p.rev - imin(burn, p.rev), sup: p.sup - imin(burn, p.sup), res: p.res - amt }, 0, amt)
  }

  pure def rateParamsOk(mx: int, base: int, mid: int, opt: int, rf: int): bool =
    mx > base and opt > mid and opt < RAY and rf < BPS
  pure def poolParams(p0: Pool, now: int, mx: int, base: int, s1: int, s2: int, s3: int, mid: int, opt: int, rf: int): PRes = {
    val p = sync(p0, now)
    if (not(rateParamsOk(mx, base, mid, opt, rf))) pFail(p0, "params")
    else pOk({ ...p, mx: mx, base: base, s1: s1, s2: s2, s3: s3, mid: mid, opt: opt, rf: rf }, 0, 0)
  }
}
