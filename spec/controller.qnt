// The controller (lending entry point): accounts, positions, risk checks, e-modes, isolation,
// liquidation, strategies, flash loans, configuration.  `exec(s, op)` is the whole transition
// relation of the system: the effect of one transaction on state `s`.
module controller {
  import types.* from "./types"
  import oracle.* from "./oracle"
  export types.*
  export oracle.*

  // ---- transaction context ---------------------------------------------------------
  // Prices and market indexes are those of the state in which the transaction starts.
  type Ctx = { s: State, uns: bool, usd: int }
  pure def ctx(s: State, uns: bool): Ctx = { s: s, uns: uns, usd: egldUsd(s) }
  // a swap may move rates; an account is judged on the prices after it
  pure def fresh(c: Ctx, s: State): Ctx = { ...c, s: { ...c.s, ls: s.ls } }
  pure def px(c: Ctx, t: str): int = price(c.s, t, c.uns)
  pure def ix(c: Ctx, t: str): { s: int, b: int } = simIdx(c.s.pools.get(t), c.s.now)
  pure def decOf(c: Ctx, t: str): int = c.s.pools.get(t).dec
  pure def listed(s: State, t: str): bool = s.pools.keys().contains(t)

  pure def seqR(r: R, f: (State) => R): R = if (r.ok) f(r.s) else r

  // ---- account values (EGLD, RAY) ----------------------------------------------------
  type Tot = { ok: bool, tot: int, w: int, ltv: int }
  pure def collateral(c: Ctx, a: Acct): Tot =
    a.dep.keys().fold({ ok: true, tot: 0, w: 0, ltv: 0 }, (m, t) => {
      val q = a.dep.get(t)
      val p = px(c, t)
      if (not(m.ok) or p < 0) { ok: false, tot: 0, w: 0, ltv: 0 } else {
        val v = egldRay(mulR(q.sc, ix(c, t).s), p)
        { ok: true, tot: m.tot + v, w: m.w + mulR(v, b2r(q.thr)), ltv: m.ltv + mulR(v, b2r(q.ltv)) }
      }
    })
  type Val = { ok: bool, v: int }
  pure def debt(c: Ctx, a: Acct): Val =
    a.bor.keys().fold({ ok: true, v: 0 }, (m, t) => {
      val p = px(c, t)
      if (not(m.ok) or p < 0) { ok: false, v: 0 }
      else { ok: true, v: m.v + egldRay(mulR(a.bor.get(t).sc, ix(c, t).b), p) }
    })
  pure def hfOf(w: int, d: int): int = if (d == 0) 2 * RAY else divR(w, d)
  // health factor requirement (only accounts with debt are checked)
  pure def healthy(c: Ctx, a: Acct, min: int): { ok: bool, why: str } =
    if (a.bor.keys() == Set()) { ok: true, why: "" } else {
      val w = collateral(c, a)
      val d = debt(c, a)
      if (not(w.ok) or not(d.ok)) { ok: false, why: "price" }
      else if (hfOf(w.w, d.v) >= min) { ok: true, why: "" } else { ok: false, why: "health" }
    }
  pure def requireHealthy(c: Ctx, s: State, n: int, min: int): R = {
    val h = healthy(c, s.acc.get(n), min)
    if (h.ok) okR(s) else failR(s, h.why)
  }

  // ---- e-mode ------------------------------------------------------------------------
  // configuration of an asset as seen by an account (category parameters override)
  pure def emodeOk(s: State, em: int): bool =
    em == 0 or (s.emodes.keys().contains(em) and not(s.emodes.get(em).dead))
  pure def emodeHas(s: State, em: int, t: str): bool =
    em == 0 or (s.emA.keys().contains(em) and s.emA.get(em).keys().contains(t))
  pure def cfgFor(s: State, em: int, t: str): Cfg = {
    val g = s.cfg.get(t)
    if (em == 0) g else {
      val e = s.emodes.get(em)
      val q = s.emA.get(em).get(t)
      { ...g, coll: q.c, borr: q.b, ltv: e.ltv, thr: e.thr, bon: e.bon }
    }
  }

  // ---- isolated debt tracker ---------------------------------------------------------
  pure def isoUp(s: State, t: str, usd: int): State =
    if (usd == 0) s else { ...s, isoDebt: s.isoDebt.set(t, s.isoDebt.get(t) + usd) }
  pure def isoDown(s: State, t: str, usd: int): State =
    if (usd == 0) s else {
      val d = s.isoDebt.get(t)
      val r = if (d > usd) d - usd else 0
      { ...s, isoDebt: s.isoDebt.set(t, if (r < WAD) 0 else r) }
    }

  // ---- positions ---------------------------------------------------------------------
  pure def newPos(g: Cfg): Pos = { sc: 0, thr: g.thr, bon: g.bon, fee: g.fee, ltv: g.ltv }
  pure def withoutKey(m: str -> Pos, t: str): str -> Pos = m.keys().exclude(Set(t)).mapBy(k => m.get(k))
  pure def putDep(s: State, n: int, t: str, q: Pos): State = {
    val a = s.acc.get(n)
    { ...s, acc: s.acc.set(n, { ...a, dep: if (q.sc == 0) withoutKey(a.dep, t) else a.dep.put(t, q) }) }
  }
  pure def putBor(s: State, n: int, t: str, q: Pos): State = {
    val a = s.acc.get(n)
    { ...s, acc: s.acc.set(n, { ...a, bor: if (q.sc == 0) withoutKey(a.bor, t) else a.bor.put(t, q) }) }
  }
  // a deposit or new debt keeps its entry even when the scaled amount rounds to zero
  pure def keepDep(s: State, n: int, t: str, q: Pos): State = {
    val a = s.acc.get(n)
    { ...s, acc: s.acc.set(n, { ...a, dep: a.dep.put(t, q) }) }
  }
  pure def keepBor(s: State, n: int, t: str, q: Pos): State = {
    val a = s.acc.get(n)
    { ...s, acc: s.acc.set(n, { ...a, bor: a.bor.put(t, q) }) }
  }
  pure def setPool(s: State, t: str, p: Pool): State = { ...s, pools: s.pools.set(t, p) }
  pure def setAcct(s: State, n: int, a: Acct): State = { ...s, acc: s.acc.put(n, a) }
  pure def dropAcct(s: State, n: int): State =
    { ...s, acc: s.acc.keys().exclude(Set(n)).mapBy(k => s.acc.get(k)) }
  pure def burnNft(s: State, n: int): State =
    { ...s, own: s.own.keys().exclude(Set(n)).mapBy(k => s.own.get(k)) }

  pure def newAcct(s: State, u: str, iso: bool, em: int, mode: str, isoT: str): State = {
    val n = s.nonce + 1
    { ...s, nonce: n, own: s.own.put(n, u),
      acc: s.acc.put(n, { iso: iso, em: if (iso) 0 else em, mode: mode, isoT: if (iso) isoT else "",
                          dep: Map(), bor: Map() }) }
  }
  pure def newCount(m: str -> Pos, l: List[Pay]): int =
    l.foldl(m.keys().size(), (k, q) => if (m.keys().contains(q.t)) k else k + 1)

  // ---- supply ------------------------------------------------------------------------
  pure def deposit1(c: Ctx, s: State, n: int, q: Pay): R = {
    val a = s.acc.get(n)
    if (not(listed(s, q.t))) failR(s, "unsupported")
    else if (q.x <= 0) failR(s, "zero")
    else if (not(emodeHas(s, a.em, q.t))) failR(s, "emode")
    else if (s.cfg.get(q.t).iso and a.em != 0) failR(s, "emode")
    else {
      val g = cfgFor(s, a.em, q.t)
      val p = px(c, q.t)
      val d = decOf(c, q.t)
      if (not(g.coll)) failR(s, "collflag")
      else if (a.iso and a.isoT != q.t) failR(s, "isolation")
      else if (not(a.iso) and g.iso) failR(s, "isolation")
      else if (p < 0) failR(s, "price")
      else if (g.scap != 0 and down(mulR(s.pools.get(q.t).sup, ix(c, q.t).s), d) + q.x > g.scap) failR(s, "scap")
      else {
        val old = if (a.dep.keys().contains(q.t)) a.dep.get(q.t) else newPos(g)
        val r = poolSupply(s.pools.get(q.t), s.now, old.sc, q.x)
        okR(keepDep(setPool(s, q.t, r.p), n, q.t, { ...old, sc: r.pos, ltv: g.ltv, bon: g.bon, fee: g.fee }))
      }
    }
  }
  pure def deposits(c: Ctx, s: State, n: int, l: List[Pay]): R = {
    val a = s.acc.get(n)
    if (not(emodeOk(s, a.em))) failR(s, "emode")
    else if (newCount(a.dep, l) > s.limS) failR(s, "limits")
    else l.foldl(okR(s), (r, q) => if (r.ok) deposit1(c, r.s, n, q) else r)
  }

  // ---- borrow ------------------------------------------------------------------------
  pure def siloOk(s: State, a: Acct, t: str): bool = {
    val ks = a.bor.keys()
    val t1 = s.cfg.get(t).silo
    and {
      t1 implies ks.size() <= 1,
      (ks.size() == 1 and (t1 or ks.exists(k => s.cfg.get(k).silo))) implies ks.contains(t)
    }
  }
  // isolation, silo, e-mode and flag rules for borrowing `t`
  pure def borrowRule(s: State, a: Acct, t: str): str =
    if (a.iso and not(s.cfg.get(t).isoB)) "isolation"
    else if (not(siloOk(s, a, t))) "silo"
    else if (not(emodeHas(s, a.em, t))) "emode"
    else if (s.cfg.get(t).iso and a.em != 0) "emode"
    else if (not(cfgFor(s, a.em, t).borr)) "borrflag"
    else ""
  pure def capOk(c: Ctx, s: State, g: Cfg, t: str, x: int): bool =
    g.bcap == 0 or down(mulR(s.pools.get(t).bor, ix(c, t).b), decOf(c, t)) + x <= g.bcap
  // debt ceiling of the isolated collateral, then the tracker
  pure def ceiling(c: Ctx, s: State, a: Acct, t: str, x: int): R =
    if (not(a.iso)) okR(s) else {
      val usd = usdOf(egldWad(up(x, decOf(c, t)), px(c, t)) * E9, c.usd)
      if (s.isoDebt.get(a.isoT) + usd > s.cfg.get(a.isoT).ceil) failR(s, "ceiling")
      else okR(isoUp(s, a.isoT, usd))
    }
  pure def borrow1(c: Ctx, s: State, n: int, u: str, q: Pay, ltv: int): R = {
    val a = s.acc.get(n)
    if (not(listed(s, q.t))) failR(s, "unsupported")
    else if (q.x <= 0) failR(s, "zero")
    else {
      val p = px(c, q.t)
      val w = borrowRule(s, a, q.t)
      if (p < 0) failR(s, "price")
      else if (w != "") failR(s, w)
      else {
        val g = cfgFor(s, a.em, q.t)
        val d = debt(c, a)
        if (not(d.ok)) failR(s, "price")
        else if (ltv < d.v + egldRay(up(q.x, decOf(c, q.t)), p)) failR(s, "ltv")
        else if (not(capOk(c, s, g, q.t, q.x))) failR(s, "bcap")
        else {
          val k = ceiling(c, s, a, q.t, q.x)
          val old = if (a.bor.keys().contains(q.t)) a.bor.get(q.t) else newPos(g)
          val r = poolBorrow(s.pools.get(q.t), s.now, old.sc, q.x)
          if (not(k.ok)) k
          else if (not(r.ok)) failR(s, r.why)
          else okR(credit(keepBor(setPool(k.s, q.t, r.p), n, q.t, { ...old, sc: r.pos }), u, q.t, q.x))
        }
      }
    }
  }

  // Debt created by a strategy: the pool hands the amount minus the flash fee to the controller
  // (R.x); no LTV check, health is checked at the end of the strategy.
  pure def stratBorrow(c: Ctx, s: State, n: int, t: str, x: int): R = {
    val a = s.acc.get(n)
    if (not(listed(s, t))) failR(s, "unsupported")
    else if (not(emodeOk(s, a.em))) failR(s, "emode")
    else {
      val w = borrowRule(s, a, t)
      val p = px(c, t)
      if (w != "") failR(s, w)
      else if (p < 0) failR(s, "price")
      else {
        val g = cfgFor(s, a.em, t)
        if (not(capOk(c, s, g, t, x))) failR(s, "bcap")
        else {
          val k = ceiling(c, s, a, t, x)
          val old = if (a.bor.keys().contains(t)) a.bor.get(t) else newPos(g)
          val r = poolStrategy(s.pools.get(t), s.now, old.sc, x, x * g.ffee / BPS)
          if (not(k.ok)) k
          else if (not(r.ok)) failR(s, r.why)
          else if (r.paid == 0) failR(s, "zero")
          else { ...okR(keepBor(setPool(k.s, t, r.p), n, t, { ...old, sc: r.pos })), x: r.paid }
        }
      }
    }
  }

  // ---- withdraw ----------------------------------------------------------------------
  // R.x: amount paid out to `u` ("" = kept by the controller for a swap)
  pure def withdraw1(c: Ctx, s: State, n: int, u: str, t: str, x: int, liq: bool, fee: int): R = {
    val a = s.acc.get(n)
    if (not(a.dep.keys().contains(t))) failR(s, "position")
    else if (px(c, t) < 0) failR(s, "price")
    else {
      val old = a.dep.get(t)
      val r = poolWithdraw(s.pools.get(t), s.now, old.sc, x, liq, fee)
      if (not(r.ok)) failR(s, r.why)
      else {
        val s2 = putDep(setPool(s, t, r.p), n, t, { ...old, sc: r.pos })
        { ...okR(if (u == "") s2 else credit(s2, u, t, r.paid)), x: r.paid }
      }
    }
  }
  pure def isEmptyAcct(a: Acct): bool = a.dep.keys() == Set() and a.bor.keys() == Set()
  // the account NFT comes back, or is burned with the account when nothing is left
  pure def closeOrReturn(s: State, n: int): R =
    if (isEmptyAcct(s.acc.get(n))) okR(burnNft(dropAcct(s, n), n)) else okR(s)

  // ---- repay -------------------------------------------------------------------------
  // `val egld` is the value of the payment in EGLD (RAY)
  pure def repayVal(c: Ctx, s: State, n: int, u: str, q: Pay, egld: int): R = {
    val a = s.acc.get(n)
    if (not(a.bor.keys().contains(q.t))) failR(s, "position")
    else {
      val old = a.bor.get(q.t)
      val cur = egldWad(mulR(old.sc, ix(c, q.t).b), px(c, q.t)) * E9
      val s1 = if (a.iso) isoDown(s, a.isoT, usdOf(imin(cur, egld), c.usd)) else s
      val r = poolRepay(s1.pools.get(q.t), s1.now, old.sc, q.x)
      if (not(r.ok)) failR(s, r.why)
      else okR(credit(putBor(setPool(s1, q.t, r.p), n, q.t, { ...old, sc: r.pos }), u, q.t, r.paid))
    }
  }
  pure def repay1(c: Ctx, s: State, n: int, u: str, q: Pay): R =
    if (not(listed(s, q.t))) failR(s, "unsupported")
    else if (q.x <= 0) failR(s, "zero")
    else {
      val p = px(c, q.t)
      if (p < 0) failR(s, "price")
      else repayVal(c, s, n, u, q, egldWad(up(q.x, decOf(c, q.t)), p) * E9)
    }
  pure def repays(c: Ctx, s: State, n: int, u: str, l: List[Pay]): R =
    l.foldl(okR(s), (r, q) => if (r.ok) repay1(c, r.s, n, u, q) else r)

  // ---- liquidation --------------------------------------------------------------------
  // part of the debt paid with one token: `v` EGLD value (RAY) counted for it
  type Part = { t: str, x: int, v: int }
  type Seize = { t: str, x: int, fee: int }
  type Liq = { ok: bool, why: str, parts: List[Part], refunds: List[Pay], seized: Set[Seize], max: int, bonus: int }
  pure def noLiq(w: str): Liq =
    { ok: false, why: w, parts: [], refunds: [], seized: Set(), max: 0, bonus: 0 }

  type Parts = { ok: bool, why: str, parts: List[Part], refunds: List[Pay], sum: int }
  pure def countedFor(l: List[Part], t: str): int = l.foldl(0, (k, q) => if (q.t == t) k + q.v else k)
  // Every payment counts for at most what is still owed in its token; the rest is refunded.
  pure def partition(c: Ctx, a: Acct, l: List[Pay]): Parts =
    l.foldl({ ok: true, why: "", parts: [], refunds: [], sum: 0 }, (m, q) =>
      if (not(m.ok)) m
      else if (px(c, q.t) < 0) { ...m, ok: false, why: "price" }
      else if (not(a.bor.keys().contains(q.t))) { ...m, ok: false, why: "position" }
      else {
        val p = px(c, q.t)
        val d = decOf(c, q.t)
        val paid = egldRay(up(q.x, d), p)
        val owed = egldRay(mulR(a.bor.get(q.t).sc, ix(c, q.t).b), p) - countedFor(m.parts, q.t)
        if (owed <= 0 and countedFor(m.parts, q.t) > 0)
          { ...m, refunds: m.refunds.append(q) }
        else if (paid > owed) {
          val back = down(divR(paid - owed, p * E9), d)
          // (at prices where a unit is worth less than the last digit the excess can round above the payment)
          if (back > q.x) { ...m, ok: false, why: "underflow" }
          else { ...m, parts: m.parts.append({ t: q.t, x: q.x - back, v: owed }),
            refunds: if (back > 0) m.refunds.append({ t: q.t, x: back }) else m.refunds, sum: m.sum + owed }
        } else { ...m, parts: m.parts.append({ t: q.t, x: q.x, v: paid }), sum: m.sum + paid }
      })

  type Est = { d: int, b: int, hf: int }
  pure def liqDetails(tot: int, w: int, prop: int, bonus: int, dbt: int, target: int): Est = {
    val m = RAY + bonus
    val dMax = divR(tot, m)
    val den = mulR(prop, m)
    val prop0 =
      if (target == den) dMax else {
        val ideal = divSignedR(mulSignedR(target, dbt) - w, target - den)
        if (ideal < 0) dMax else imin(ideal, dMax)
      }
    val d = imin(prop0, dbt)
    val seizedW = imin(mulR(mulR(prop, d), m), w)
    { d: d, b: bonus, hf: hfOf(w - seizedW, if (d >= dbt) 0 else dbt - d) }
  }
  pure val MAXBONUS: int = 150000000000000000000000000
  pure def linearBonus(hf: int, target: int, minB: int): int = {
    val k = imin(mulR(2 * RAY, divR(target - hf, target)), RAY)
    minB + mulR(imax(MAXBONUS - minB, 0), k)
  }
  pure def estimate(w: int, prop: int, tot: int, dbt: int, minB: int, hf: int): { d: int, b: int } = {
    val t1 = RAY + RAY / 50
    val t2 = RAY + RAY / 100
    val a = liqDetails(tot, w, prop, linearBonus(hf, t1, minB), dbt, t1)
    if (a.hf >= RAY) { d: a.d, b: a.b } else {
      val l = liqDetails(tot, w, prop, linearBonus(hf, t2, minB), dbt, t2)
      val z = liqDetails(tot, w, prop, minB, dbt, RAY)
      if (z.hf < RAY and z.hf < hf) { d: imin(divR(tot, RAY + minB), dbt), b: minB }
      else { d: l.d, b: l.b }
    }
  }
  pure def seizures(c: Ctx, a: Acct, tot: int, d: int, bonus: int): Set[Seize] =
    a.dep.keys().map(t => {
      val p = px(c, t)
      val dec = decOf(c, t)
      val amt = mulR(a.dep.get(t).sc, ix(c, t).s)
      val share = divR(egldRay(amt, p), tot)
      val units = imin(divR(mulR(mulR(share, d), RAY + bonus), p * E9), amt)
      val base = divR(units, RAY + bonus)
      { t: t, x: down(units, dec), fee: down(mulR(units - base, b2r(a.dep.get(t).fee)), dec) }
    })
  // what exceeds the liquidatable debt goes back, last payment first
  pure def giveBack(c: Ctx, m: Parts, excess: int): Parts =
    range(0, m.parts.length()).foldl({ p: m, rem: excess }, (k, i) => {
      val j = m.parts.length() - 1 - i
      val q = m.parts[j]
      if (k.rem <= 0) k
      else if (q.v >= k.rem) {
        val back = down(divR(k.rem, px(c, q.t) * E9), decOf(c, q.t))
        if (back > q.x) { p: { ...k.p, ok: false, why: "underflow" }, rem: 0 }
        else { p: { ...k.p, parts: k.p.parts.replaceAt(j, { ...q, x: q.x - back, v: q.v - k.rem }),
                 refunds: k.p.refunds.append({ t: q.t, x: back }) }, rem: 0 }
      } else { p: { ...k.p, parts: k.p.parts.slice(0, j), refunds: k.p.refunds.append({ t: q.t, x: q.x }) }, rem: k.rem - q.v }
    }).p
  pure def liquidation(c: Ctx, a: Acct, l: List[Pay]): Liq = {
    val m = partition(c, a, l)
    val w = collateral(c, a)
    val dv = debt(c, a)
    if (not(m.ok)) noLiq(m.why)
    else if (not(w.ok) or not(dv.ok)) noLiq("price")
    else if (w.tot == 0 and a.dep.keys() != Set()) noLiq("divzero")
    else {
      val hf = hfOf(w.w, dv.v)
      val prop = a.dep.keys().fold({ p: 0, b: 0 }, (k, t) => {
        val q = a.dep.get(t)
        val share = divR(egldRay(mulR(q.sc, ix(c, t).s), px(c, t)), w.tot)
        { p: k.p + mulR(share, b2r(q.thr)), b: k.b + mulR(share, b2r(q.bon)) }
      })
      if (hf >= RAY) noLiq("health")
      else if (l != [] and m.sum == 0) noLiq("nothing")
      else {
        val e = estimate(w.w, prop.p, w.tot, dv.v, prop.b, hf)
        val d = if (l != []) imin(m.sum, e.d) else e.d
        val g = if (m.sum > d) giveBack(c, m, m.sum - d) else m
        if (not(g.ok)) noLiq(g.why)
        else { ok: true, why: "", parts: g.parts, refunds: g.refunds,
               seized: seizures(c, a, w.tot, d, e.b), max: d, bonus: e.b }
      }
    }
  }

  // bad debt: debt above collateral and collateral of at most 5 USD
  pure def badDebt(c: Ctx, tot: int, dv: int): bool =
    usdOf(dv, c.usd) > usdOf(tot, c.usd) and usdOf(tot, c.usd) <= 5 * WAD

  // ---- swaps (through the configured router) -----------------------------------------
  // `outs` is what the router sends back; R.x the amount of the wanted token, the rest goes to `u`
  // (the protocol is locked while the router runs: calling back fails the whole strategy)
  pure def swap(s: State, o: Op, want: str, from: str, x: int, outs: List[Pay]): R = {
    val u = o.u
    val s0 = credit(s, "rtr", from, x)
    val s1 = debitAll(s0, "rtr", outs)
    val got = outs.foldl(0, (k, q) => if (q.t == want) k + q.x else k)
    val rate = s.ls.keys().contains(o.re)       // the router moves a staking rate (down a tenth) in the middle
    if (o.re != "" and not(rate)) failR(s, "guard")
    else if (not(funds(s0, "rtr", outs))) failR(s, "steps")
    else { ...okR(creditAll(if (rate) { ...s1, ls: s1.ls.setBy(o.re, v => v * 9 / 10) } else s1, u, outs.select(q => q.t != want))), x: got }
  }

  // ---- common preconditions -----------------------------------------------------------
  pure def funds(s: State, u: str, l: List[Pay]): bool =
    l.foldl({ ok: true, b: s.bal.get(u) }, (k, q) =>
      if (not(k.b.keys().contains(q.t))) { ok: false, b: k.b }
      else { ok: k.ok and k.b.get(q.t) >= q.x, b: k.b.set(q.t, k.b.get(q.t) - q.x) }).ok
  pure def holds(s: State, o: Op): bool = s.own.keys().contains(o.n) and s.own.get(o.n) == o.u
  // can the transaction be sent at all; then pause and EGLD reference price
  pure def entry(s: State, o: Op): str =
    if (o.m == "fake") "nft"
    else if (not(funds(s, o.u, o.p))) "funds"
    else if (o.nft and not(holds(s, o))) "funds"
    else if (s.paused) "paused"
    else if (egldUsd(s) < 0) "price"
    else ""
  // account presented through its NFT
  pure def presented(s: State, o: Op): str =
    if (not(o.nft)) "nft" else if (not(s.acc.keys().contains(o.n))) "inactive" else ""

  // ---- endpoints ------------------------------------------------------------------------
  // n: account (0 = open a new one), y: e-mode category for a new account
  pure def supply(s0: State, o: Op): R = {
    val w = entry(s0, o)
    val s = debitAll(s0, o.u, o.p)
    if (w != "") failR(s0, w)
    else if (not(o.nft) and o.p == []) failR(s0, "payment")
    else if (o.n != 0 and not(s.acc.keys().contains(o.n))) failR(s0, "inactive")
    else if (o.p == []) failR(s0, "payment")
    else if (not(listed(s, o.p[0].t))) failR(s0, "unsupported")
    else if (o.p[0].x <= 0) failR(s0, "zero")
    else {
      val iso = s.cfg.get(o.p[0].t).iso
      val n = if (o.n == 0) s.nonce + 1 else o.n
      val s1 = if (o.n == 0) newAcct(s, o.u, iso, o.y, "Normal", o.p[0].t) else s
      if (iso and o.p.length() != 1) failR(s0, "isolation")
      else { ...deposits(ctx(s0, true), s1, n, o.p), n: n }
    }
  }
  pure def borrow(s: State, o: Op): R = {
    val w = entry(s, o)
    val v = presented(s, o)
    if (w != "") failR(s, w)
    else if (o.p != []) failR(s, "nft")
    else if (v != "") failR(s, v)
    else {
      val c = ctx(s, false)
      val a = s.acc.get(o.n)
      val k = collateral(c, a)
      if (not(k.ok)) failR(s, "price")
      else if (not(emodeOk(s, a.em))) failR(s, "emode")
      else if (newCount(a.bor, o.l) > s.limB) failR(s, "limits")
      else {
        val r = o.l.foldl(okR(s), (r, q) => if (r.ok) borrow1(c, r.s, o.n, o.u, q, k.ltv) else r)
        if (not(r.ok)) r else requireHealthy(c, r.s, o.n, RAY)
      }
    }
  }
  pure def withdraw(s: State, o: Op): R = {
    val w = entry(s, o)
    val v = presented(s, o)
    if (w != "") failR(s, w)
    else if (o.p != []) failR(s, "nft")
    else if (v != "") failR(s, v)
    else {
      val c = ctx(s, s.acc.get(o.n).bor.keys() == Set())
      val r = o.l.foldl(okR(s), (r, q) =>
        if (not(r.ok)) r
        else if (not(listed(r.s, q.t))) failR(s, "unsupported")
        else if (q.x <= 0) failR(s, "zero")
        else withdraw1(c, r.s, o.n, o.u, q.t, q.x, false, 0))
      if (not(r.ok)) r else {
        val h = requireHealthy(c, r.s, o.n, RAY)
        if (not(h.ok)) h else closeOrReturn(r.s, o.n)
      }
    }
  }
  pure def repay(s: State, o: Op): R = {
    val w = entry(s, o)
    if (w != "") failR(s, w)
    else if (not(s.acc.keys().contains(o.n))) failR(s, "inactive")
    else repays(ctx(s, true), debitAll(s, o.u, o.p), o.n, o.u, o.p)
  }
  pure def liquidate(s: State, o: Op): R = {
    val w = entry(s, o)
    if (w != "") failR(s, w)
    else if (o.p == []) failR(s, "payment")
    else if (o.p.select(q => not(listed(s, q.t)) or q.x <= 0).length() > 0) failR(s, "payment")
    else if (not(s.acc.keys().contains(o.n))) failR(s, "inactive")
    else {
      val c = ctx(s, false)
      val q = liquidation(c, s.acc.get(o.n), o.p)
      val s1 = creditAll(debitAll(s, o.u, o.p), o.u, q.refunds)
      if (not(q.ok)) failR(s, q.why)
      // (a payment too small to have a value repays nothing)
      else if (q.parts == []) failR(s, "nothing")
      else {
        val r = q.parts.foldl(okR(s1), (r, z) =>
          if (r.ok) repayVal(c, r.s, o.n, o.u, { t: z.t, x: z.x }, z.v) else r)
        q.seized.fold(r, (k, z) => if (k.ok) withdraw1(c, k.s, o.n, o.u, z.t, z.x, true, z.fee) else k)
      }
    }
  }
  pure def cleanBadDebt(s: State, o: Op): R = {
    val w = entry(s, o)
    if (w != "") failR(s, w)
    else if (not(s.acc.keys().contains(o.n))) failR(s, "inactive")
    else {
      val c = ctx(s, false)
      val a = s.acc.get(o.n)
      val k = collateral(c, a)
      val d = debt(c, a)
      if (not(k.ok) or not(d.ok)) failR(s, "price")
      else if (not(badDebt(c, k.tot, d.v))) failR(s, "notbad")
      else {
        val r1 = a.bor.keys().fold(okR(s), (r, t) =>
          if (not(r.ok)) r else {
            val s1 =
              if (a.iso) isoDown(r.s, a.isoT, usdOf(egldRay(mulR(a.bor.get(t).sc, ix(c, t).b), px(c, t)), c.usd))
              else r.s
            val z = poolSeizeBorrow(s1.pools.get(t), s1.now, a.bor.get(t).sc)
            if (z.ok) okR(setPool(s1, t, z.p)) else failR(s, z.why)
          })
        if (not(r1.ok)) r1
        else okR(dropAcct(a.dep.keys().fold(r1.s, (q, t) =>
          setPool(q, t, poolSeizeDeposit(q.pools.get(t), q.now, a.dep.get(t).sc).p)), o.n))
      }
    }
  }

  // flash loan of x units of a; m: what the receiver does (pay | claim | wrong | two | none, or the
  // name of a controller endpoint it re-enters); y: amount it returns
  pure def reentrant: Set[str] = Set("supply", "borrow", "withdraw", "repay", "liquidate", "flash", "multiply",
    "swapDebt", "swapColl", "repayColl", "threshold", "indexes", "clean")
  pure def flashLoan(s: State, o: Op): R =
    if (s.paused) failR(s, "paused")
    else if (egldUsd(s) < 0) failR(s, "price")
    else if (not(listed(s, o.a))) failR(s, "unsupported")
    else {
      val g = s.cfg.get(o.a)
      val c = ctx(s, true)
      val a = poolFlashOut(s.pools.get(o.a), s.now, o.x)
      if (not(g.flash)) failR(s, "flashflag")
      else if (o.x <= 0) failR(s, "zero")
      else if (o.m == "badep" or o.m == "othershard") failR(s, "endpoint")
      else if (px(c, o.a) < 0) failR(s, "price")
      else if (not(a.ok)) failR(s, a.why)
      else if (reentrant.contains(o.m)) failR(s, "guard")
      else {
        val cl = if (o.m == "claim") poolClaim(a.p, s.now) else pOk(a.p, 0, 0)
        val back = if (o.m == "pay" or o.m == "claim" or (o.m == "two" and o.y < 2)) o.y else 0 - 1
        val z = poolFlashIn(cl.p, o.x, g.ffee, back)
        if (back > o.x + s.bal.get("rcv").get(o.a)) failR(s, "funds")
        else if (not(z.ok)) failR(s, z.why)
        else okR(credit(credit(setPool(s, o.a, z.p), "rcv", o.a, o.x - o.y), "accu", o.a, cl.paid))
      }
    }

  // new risk parameters of asset a (threshold when f, otherwise LTV, bonus and fees) for accounts xs
  pure def threshold1(c: Ctx, s: State, n: int, t: str, risks: bool): R =
    if (not(s.acc.keys().contains(n))) failR(s, "inactive")
    else {
      val a = s.acc.get(n)
      if (not(a.dep.keys().contains(t))) okR(s)
      else if (not(emodeOk(s, a.em)) or not(emodeHas(s, a.em, t))) failR(s, "emode")
      else {
        val g = cfgFor(s, a.em, t)
        val q = a.dep.get(t)
        val s1 = keepDep(s, n, t, if (risks) { ...q, thr: g.thr } else { ...q, ltv: g.ltv, bon: g.bon, fee: g.fee })
        if (risks) requireHealthy(c, s1, n, RAY + RAY / 20) else okR(s1)
      }
    }
  pure def updateThreshold(s: State, o: Op): R =
    if (s.paused) failR(s, "paused")
    else if (not(listed(s, o.a))) failR(s, "unsupported")
    else if (egldUsd(s) < 0) failR(s, "price")
    else {
      val c = ctx(s, false)
      if (px(c, o.a) < 0) failR(s, "price")
      else o.xs.foldl(okR(s), (r, n) => if (r.ok) threshold1(c, r.s, n, o.a, o.f) else r)
    }
  pure def updateIndexes(s: State, o: Op): R =
    if (s.paused) failR(s, "paused")
    else if (egldUsd(s) < 0) failR(s, "price")
    else o.l.foldl(okR(s), (r, q) =>
      if (not(r.ok)) r
      else if (not(listed(s, q.t))) failR(s, "unsupported")
      else if (price(s, q.t, true) < 0) failR(s, "price")
      else okR(setPool(r.s, q.t, sync(r.s.pools.get(q.t), s.now))))

  // ---- strategies -------------------------------------------------------------------------
  // multiply: a collateral, b debt, x amount borrowed, y e-mode, m mode, s1 steps, s2 optional steps (f given)
  pure def multiply(s0: State, o: Op): R = {
    val w = entry(s0, o)
    val c = ctx(s0, false)
    val s = debitAll(s0, o.u, o.p)
    if (w != "") failR(s0, w)
    else if (o.a == o.b) failR(s0, "same")
    else if (not(o.nft) and o.p == []) failR(s0, "payment")
    else if (o.nft and not(s.acc.keys().contains(o.n))) failR(s0, "inactive")
    else if (not(listed(s, o.a)) or not(listed(s, o.b))) failR(s0, "unsupported")
    else {
      val n = if (o.nft) o.n else s.nonce + 1
      val s1 = if (o.nft) s else newAcct(s, o.u, s.cfg.get(o.a).iso, o.y, o.m, o.a)
      if (o.nft and o.p != []) failR(s0, "payment")
      else if (not(o.nft) and o.p.length() != 1) failR(s0, "payment")
      else if (not(o.nft) and (not(listed(s, o.p[0].t)) or o.p[0].x <= 0)) failR(s0, "payment")
      else {
        val kind = if (o.nft) "none" else if (o.p[0].t == o.a) "coll" else if (o.p[0].t == o.b) "debt" else "other"
        val r0 = if (kind == "other") swap(s1, o, o.a, o.p[0].t, o.p[0].x, o.s2) else okR(s1)
        val coll0 = if (kind == "coll") o.p[0].x else if (kind == "other") r0.x else 0
        val debt0 = if (kind == "debt") o.p[0].x else 0
        if (kind == "other" and not(o.f)) failR(s0, "steps")
        else if (not(r0.ok)) r0
        else if (s1.acc.get(n).mode == "Normal") failR(s0, "mode")
        else {
          val r1 = stratBorrow(c, r0.s, n, o.b, o.x)
          if (not(r1.ok)) r1 else {
            val r2 = swap(r1.s, o, o.a, o.b, r1.x + debt0, o.s1)
            val r3 = if (not(r2.ok)) r2 else deposits(c, r2.s, n, [{ t: o.a, x: r2.x + coll0 }])
            if (not(r3.ok)) r3 else {
              val h = requireHealthy(fresh(c, r3.s), r3.s, n, RAY)
              if (not(h.ok)) h
              else if (r3.s.acc.get(n).bor.keys().size() > s.limB) failR(s0, "limits")
              // the closing event prices the initial payment
              else if (kind == "debt" and px(c, o.b) < 0) failR(s0, "price")
              else { ...okR(r3.s), n: n }
            }
          }
        }
      }
    }
  }
  // swapDebt: a existing debt, b new debt, x new amount, s1 steps
  pure def swapDebt(s0: State, o: Op): R = {
    val w = entry(s0, o)
    val c = ctx(s0, false)
    val s = debitAll(s0, o.u, o.p)
    val v = presented(s0, o)
    if (w != "") failR(s0, w)
    else if (o.a == o.b) failR(s0, "same")
    else if (v != "") failR(s0, v)
    else if (not(listed(s, o.a)) or not(listed(s, o.b))) failR(s0, "unsupported")
    else if (s.cfg.get(o.a).silo or s.cfg.get(o.b).silo) failR(s0, "silo")
    else {
      val r1 = stratBorrow(c, s, o.n, o.b, o.x)
      if (not(r1.ok)) r1 else {
        val r2 = swap(r1.s, o, o.a, o.b, r1.x, o.s1)
        val r3 = if (not(r2.ok)) r2 else repays(c, r2.s, o.n, o.u, o.p.append({ t: o.a, x: r2.x }))
        if (not(r3.ok)) r3 else {
          val h = requireHealthy(fresh(c, r3.s), r3.s, o.n, RAY)
          if (not(h.ok)) h
          else if (r3.s.acc.get(o.n).bor.keys().size() > s.limB) failR(s0, "limits")
          else okR(r3.s)
        }
      }
    }
  }
  // swapColl: a current collateral, x amount, b new collateral, s1 steps
  pure def swapColl(s0: State, o: Op): R = {
    val w = entry(s0, o)
    val s = debitAll(s0, o.u, o.p)
    val v = presented(s0, o)
    if (w != "") failR(s0, w)
    else if (o.a == o.b) failR(s0, "same")
    else if (v != "") failR(s0, v)
    else {
      val a = s.acc.get(o.n)
      val free = a.bor.keys() == Set()
      val c = ctx(s0, free)
      if (a.iso) failR(s0, "isolation")
      else if (not(listed(s, o.b))) failR(s0, "unsupported")
      else if (s.cfg.get(o.b).iso) failR(s0, "isolation")
      else {
        val r1 = withdraw1(c, s, o.n, "", o.a, o.x, false, 0)
        if (not(r1.ok)) r1 else {
          val r2 = swap(r1.s, o, o.b, o.a, r1.x, o.s1)
          val r3 = if (not(r2.ok)) r2 else deposits(c, r2.s, o.n, o.p.append({ t: o.b, x: r2.x }))
          if (not(r3.ok) or free) r3 else {
            val h = requireHealthy(fresh(c, r3.s), r3.s, o.n, RAY)
            if (h.ok) okR(r3.s) else h
          }
        }
      }
    }
  }
  // repayColl: a collateral, x amount, b debt, f close the position, s1 steps
  pure def repayColl(s0: State, o: Op): R = {
    val w = entry(s0, o)
    val s = debitAll(s0, o.u, o.p)
    val v = presented(s0, o)
    val c = ctx(s0, false)
    if (w != "") failR(s0, w)
    else if (v != "") failR(s0, v)
    else {
      val r1 = withdraw1(c, s, o.n, "", o.a, o.x, false, 0)
      if (not(r1.ok)) r1 else {
        val r2 = if (o.a == o.b) r1 else swap(r1.s, o, o.b, o.a, r1.x, o.s1)
        val r3 = if (not(r2.ok)) r2 else repays(c, r2.s, o.n, o.u, o.p.append({ t: o.b, x: r2.x }))
        if (not(r3.ok)) r3 else {
          val h = requireHealthy(fresh(c, r3.s), r3.s, o.n, RAY)
          val a = r3.s.acc.get(o.n)
          if (not(h.ok)) h else {
            val r4 =
              if (o.f and a.bor.keys() == Set())
                a.dep.keys().fold(okR(r3.s), (r, t) =>
                  if (r.ok) withdraw1(c, r.s, o.n, o.u, t, supOrig(sync(s0.pools.get(t), s0.now), r.s.acc.get(o.n).dep.get(t).sc), false, 0) else r)
              else okR(r3.s)
            if (not(r4.ok)) r4 else closeOrReturn(r4.s, o.n)
          }
        }
      }
    }
  }

  // ---- revenue and rewards ------------------------------------------------------------------
  // anyone may push protocol revenue to the accumulator (works while paused)
  pure def claimRevenue(s: State, o: Op): R =
    if (egldUsd(s) < 0) failR(s, "price")
    else o.l.foldl(okR(s), (r, q) =>
      if (not(r.ok)) r
      else if (not(listed(s, q.t))) failR(s, "unsupported")
      else if (price(s, q.t, true) < 0) failR(s, "price")
      else {
        val z = poolClaim(r.s.pools.get(q.t), s.now)
        okR(credit(setPool(r.s, q.t, z.p), "accu", q.t, z.paid))
      })
  pure def addRewards(s0: State, o: Op): R =
    if (not(funds(s0, o.u, o.p))) failR(s0, "funds")
    else if (o.u != "owner") failR(s0, "owner")
    else if (o.p.length() != 1) failR(s0, "payment")
    else if (egldUsd(s0) < 0) failR(s0, "price")
    else if (not(listed(s0, o.p[0].t))) failR(s0, "unsupported")
    else if (price(s0, o.p[0].t, true) < 0) failR(s0, "price")
    else {
      val s = debitAll(s0, o.u, o.p)
      okR(setPool(s, o.p[0].t, poolAddRewards(s.pools.get(o.p[0].t), s.now, o.p[0].x).p))
    }

  // ---- configuration (owner) ------------------------------------------------------------------
  pure def cfgOf(xs: List[int], em: bool): Cfg = {
    ltv: xs[0], thr: xs[1], bon: xs[2], fee: xs[3], iso: xs[4] != 0, ceil: xs[5], silo: xs[6] != 0,
    flash: xs[7] != 0, ffee: xs[8], coll: xs[9] != 0, borr: xs[10] != 0, isoB: xs[11] != 0,
    bcap: xs[12], scap: xs[13], emode: em
  }
  pure def editAsset(s: State, o: Op): R =
    if (not(listed(s, o.a))) failR(s, "unsupported")
    else {
      val g = cfgOf(o.xs, s.cfg.get(o.a).emode)
      if (not((g.ltv == 0 and g.thr == 0) or g.thr > g.ltv)) failR(s, "config")
      else okR({ ...s, cfg: s.cfg.set(o.a, g) })
    }
  pure def addCategory(s: State, o: Op): R = {
    val id = s.emodes.keys().size() + 1
    okR({ ...s, emodes: s.emodes.put(id, { ltv: o.xs[0], thr: o.xs[1], bon: o.xs[2], dead: false }) })
  }
  pure def editCategory(s: State, o: Op): R =
    if (not(s.emodes.keys().contains(o.n))) failR(s, "emode")
    else okR({ ...s, emodes: s.emodes.set(o.n, { ltv: o.xs[0], thr: o.xs[1], bon: o.xs[2], dead: o.f }) })
  pure def catAssets(s: State, id: int): str -> EmAsset =
    if (s.emA.keys().contains(id)) s.emA.get(id) else Map()
  pure def dropAsset(s: State, id: int, t: str): State = {
    val m = catAssets(s, id)
    val emA2 = s.emA.put(id, m.keys().exclude(Set(t)).mapBy(k => m.get(k)))
    val still = emA2.keys().exists(i => emA2.get(i).keys().contains(t))
    { ...s, emA: emA2, cfg: s.cfg.set(t, { ...s.cfg.get(t), emode: still }) }
  }
  pure def removeCategory(s: State, o: Op): R =
    if (not(s.emodes.keys().contains(o.n))) failR(s, "emode")
    else {
      val s1 = catAssets(s, o.n).keys().fold(s, (q, t) => dropAsset(q, o.n, t))
      okR({ ...s1, emodes: s1.emodes.set(o.n, { ...s1.emodes.get(o.n), dead: true }) })
    }
  pure def addAsset(s: State, o: Op): R =
    if (not(s.emodes.keys().contains(o.n))) failR(s, "emode")
    else if (not(listed(s, o.a))) failR(s, "unsupported")
    else if (catAssets(s, o.n).keys().contains(o.a)) failR(s, "emode")
    else okR({ ...s, emA: s.emA.put(o.n, catAssets(s, o.n).put(o.a, { c: o.xs[0] != 0, b: o.xs[1] != 0 })),
               cfg: s.cfg.set(o.a, { ...s.cfg.get(o.a), emode: true }) })
  pure def editEmAsset(s: State, o: Op): R =
    if (not(catAssets(s, o.n).keys().contains(o.a))) failR(s, "emode")
    else okR({ ...s, emA: s.emA.set(o.n, catAssets(s, o.n).set(o.a, { c: o.xs[0] != 0, b: o.xs[1] != 0 })) })
  pure def removeAsset(s: State, o: Op): R =
    if (not(listed(s, o.a)) or not(catAssets(s, o.n).keys().contains(o.a))) failR(s, "emode")
    else okR(dropAsset(s, o.n, o.a))
  pure def bound(tol: int): { u: int, l: int } = {
    val u = BPS + tol
    { u: u, l: (BPS * BPS + u / 2) / u }
  }
  pure def toleranceOk(f: int, l: int): bool =
    f >= 50 and f <= 5000 and l >= 150 and l <= 10000 and l >= f
  pure def editTolerance(s: State, o: Op): R =
    if (not(s.orc.keys().contains(o.a))) failR(s, "oracle")
    else if (not(toleranceOk(o.x, o.y))) failR(s, "config")
    else okR({ ...s, orc: s.orc.set(o.a, { ...s.orc.get(o.a), fu: bound(o.x).u, fl: bound(o.x).l,
                                             lu: bound(o.y).u, ll: bound(o.y).l }) })
  pure def setParams(s: State, o: Op): R =
    if (not(listed(s, o.a))) failR(s, "unsupported")
    else if (egldUsd(s) < 0 or price(s, o.a, true) < 0) failR(s, "price")
    else {
      val r = poolParams(s.pools.get(o.a), s.now, o.xs[0], o.xs[1], o.xs[2], o.xs[3], o.xs[4], o.xs[5], o.xs[6], o.xs[7])
      if (r.ok) okR(setPool(s, o.a, r.p)) else failR(s, "config")
    }
  // oracle record for a token (only once).  m: source; xs: decimals, first and last tolerance, staleness
  // m: "" by the aggregator | a liquid-staking token's rate | none, onedex (refused)
  pure def setOracle(s: State, o: Op): R =
    if (s.orc.keys().contains(o.a)) failR(s, "exists")
    else if (o.m == "none" or o.m == "onedex") failR(s, "config") // no source; pair number 0
    else if (not(toleranceOk(o.xs[1], o.xs[2]))) failR(s, "config")
    else okR({ ...s, orc: s.orc.put(o.a, { ty: if (o.m == "") "normal" else "derived", me: "agg", src: if (o.m == "") "xegld" else o.m, pair: "",
      base: if (o.m == "lxoxno") "XOXNO" else "EGLD", quote: if (o.m == "lxoxno") "XOXNO" else "EGLD",
      fu: bound(o.xs[1]).u, fl: bound(o.xs[1]).l, lu: bound(o.xs[2]).u, ll: bound(o.xs[2]).l,
      dec: o.xs[0], stale: o.xs[3] }) })
  // new market. xs: 14 asset config fields then max,base,s1,s2,s3,mid,opt,rf
  pure def createPool(s: State, o: Op): R =
    if (listed(s, o.a)) failR(s, "exists")
    else if (not(s.orc.keys().contains(o.a))) failR(s, "oracle")
    else if (not(rateParamsOk(o.xs[14], o.xs[15], o.xs[19], o.xs[20], o.xs[21]))) failR(s, "config")
    else if (o.xs[1] <= o.xs[0]) failR(s, "config")
    else okR({ ...s, cfg: s.cfg.put(o.a, cfgOf(o.xs, false)), isoDebt: s.isoDebt.put(o.a, 0),
      pools: s.pools.put(o.a, { sup: 0, bor: 0, rev: 0, sIdx: RAY, bIdx: RAY, ts: s.now, res: 0,
        dec: s.orc.get(o.a).dec, mx: o.xs[14], base: o.xs[15], s1: o.xs[16], s2: o.xs[17], s3: o.xs[18],
        mid: o.xs[19], opt: o.xs[20], rf: o.xs[21] }) })
  pure def setLimits(s: State, o: Op): R = okR({ ...s, limB: o.x, limS: o.y })
  // protocol addresses: b is same | zero | user
  pure def setAddress(s: State, o: Op): R =
    if (o.b == "same") okR(s) else failR(s, "config")

  pure def config(s: State, o: Op): R =
    if (o.u != "owner") failR(s, "owner")
    else if (o.k == "editAsset") editAsset(s, o)
    else if (o.k == "addCat") addCategory(s, o)
    else if (o.k == "editCat") editCategory(s, o)
    else if (o.k == "removeCat") removeCategory(s, o)
    else if (o.k == "addAsset") addAsset(s, o)
    else if (o.k == "editEmAsset") editEmAsset(s, o)
    else if (o.k == "removeAsset") removeAsset(s, o)
    else if (o.k == "tolerance") editTolerance(s, o)
    else if (o.k == "params") setParams(s, o)
    else if (o.k == "setOracle") setOracle(s, o)
    else if (o.k == "createPool") createPool(s, o)
    else if (o.k == "limits") setLimits(s, o)
    else if (o.k == "setAddr") setAddress(s, o)
    else if (o.k == "pause") okR({ ...s, paused: true })
    else if (o.k == "unpause") okR({ ...s, paused: false })
    // new code for the controller: everything stops until the owner resumes it
    else if (o.k == "upgradeCtl") okR({ ...s, paused: true })
    // new code for a pool: its state stays
    else if (o.k == "upgradePool") (if (listed(s, o.a)) okR(s) else failR(s, "unsupported"))
    else failR(s, "unknown")

  // ---- views -------------------------------------------------------------------------------------
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure val NOVIEW: int = 0 - 1
  // per-account: hf, canBeLiquidated, total debt, total collateral, weighted, LTV collateral (EGLD)
  pure def viewAccount(s: State, o: Op): R = {
    val c = ctx(s, true)
    val a = if (s.acc.keys().contains(o.n)) s.acc.get(o.n) else { iso: false, em: 0, mode: "Normal", isoT: "", dep: Map(), bor: Map() }
    val w = collateral(c, a)
    val d = debt(c, a)
    val ref = c.usd >= 0
    val both = ref and w.ok and d.ok
    val totC = a.dep.keys().fold(0, (k, t) => k + egldWad(mulR(a.dep.get(t).sc, ix(c, t).s), px(c, t)))
    { ...okR(s), o: [
      if (both) hfOf(w.w, d.v) else NOVIEW,
      if (both) b2i(hfOf(w.w, d.v) < RAY) else NOVIEW,
      if (ref and d.ok) down(d.v, 18) else NOVIEW,
      if (ref and w.ok) totC else NOVIEW,
      if (ref and w.ok) down(w.w, 18) else NOVIEW,
      if (ref and w.ok) down(w.ltv, 18) else NOVIEW,
      if (ref and px(c, o.a) >= 0 and a.dep.keys().contains(o.a)) down(mulR(a.dep.get(o.a).sc, ix(c, o.a).s), decOf(c, o.a)) else NOVIEW,
      if (ref and px(c, o.a) >= 0 and a.bor.keys().contains(o.a)) down(mulR(a.bor.get(o.a).sc, ix(c, o.a).b), decOf(c, o.a)) else NOVIEW
    ] }
  }
  // per-market: indexes, prices and pool figures
  pure def viewMarket(s: State, o: Op): R = {
    val c = ctx(s, true)
    val ref = c.usd >= 0
    val q = components(s, o.a, true)
    val p = s.pools.get(o.a)
    val u = util(p)
    val br = rateMs(u, p)
    val good = ref and q.fin >= 0
    { ...okR(s), o: [
      if (good) ix(c, o.a).s else NOVIEW, if (good) ix(c, o.a).b else NOVIEW,
      if (good) q.fin else NOVIEW, if (good) usdOf(q.fin * E9, c.usd) else NOVIEW,
      if (good) q.safe else NOVIEW, if (good) usdOf(q.safe * E9, c.usd) else NOVIEW,
      if (good) q.agg else NOVIEW, if (good) usdOf(q.agg * E9, c.usd) else NOVIEW,
      if (good) b2i(q.w1) else NOVIEW, if (good) b2i(q.w2) else NOVIEW,
      u, p.res, depositRate(u, br, p.rf), br, s.now - p.ts,
      supOrig(p, p.rev), supOrig(p, p.sup), borOrig(p, p.bor)
    ] }
  }
  // liquidation estimate: repayable debt, bonus, then per collateral token of `l` the seized amount and fee,
  // and the amount refunded in that token
  pure def viewLiquidation(s: State, o: Op): R = {
    val c = ctx(s, true)
    if (c.usd < 0) failR(s, "price")
    else if (not(s.acc.keys().contains(o.n))) failR(s, "inactive")
    else {
      val q = liquidation(c, s.acc.get(o.n), o.p)
      if (not(q.ok)) failR(s, q.why)
      else { ...okR(s), o: o.l.foldl([down(q.max, 18), down(q.bonus, 4)], (k, z) => {
        val hit = q.seized.filter(y => y.t == z.t)
        k.append(hit.fold(0, (m, y) => m + y.x)).append(hit.fold(0, (m, y) => m + y.fee))
         .append(q.refunds.foldl(0, (m, y) => if (y.t == z.t) m + y.x else m))
      }) }
    }
  }

  // ---- environment ---------------------------------------------------------------------------------
  pure def environment(s: State, o: Op): R =
    if (o.k == "time") okR({ ...s, now: s.now + o.x })
    // time passes and every oracle publishes again
    else if (o.k == "fresh") {
      val t = s.now + o.x
      if (s.aggPaused) okR({ ...s, now: t })
      else okR({ ...s, now: t, feeds: s.feeds.keys().mapBy(k => { ...s.feeds.get(k), ts: t / 1000, rd: s.feeds.get(k).rd + 1 }) })
    }
    else if (o.k == "feed") {
      val rd = if (s.feeds.keys().contains(o.a)) s.feeds.get(o.a).rd + 1 else 0
      if (s.aggPaused) failR(s, "paused")
      else okR({ ...s, feeds: s.feeds.put(o.a, { px: o.x, ts: s.now / 1000, rd: rd }) })
    }
    // a token's price moves on every source that quotes it (b: liquid staking rate, otherwise feed and safe price)
    else if (o.k == "reprice") {
      val s1 = if (o.b != "") { ...s, ls: s.ls.set(o.b, o.x) }
        else if (o.x > 0 and not(s.aggPaused)) { ...s, feeds: s.feeds.set(o.a, { px: o.x, ts: s.now / 1000, rd: s.feeds.get(o.a).rd + 1 }) }
        else s
      okR(if (o.y > 0) { ...s1, safe: s1.safe.set(o.a, { ...s1.safe.get(o.a), x: o.y }) } else s1)
    }
    else if (o.k == "safe") okR({ ...s, safe: s.safe.put(o.a, { t: o.b, x: o.x }) })
    else if (o.k == "pair") {
      val q = s.pairs.get(o.a)
      okR({ ...s, pairs: s.pairs.set(o.a, { ...q, act: o.f, r0: o.xs[0], r1: o.xs[1], lp: o.xs[2] }) })
    }
    else if (o.k == "ls") okR({ ...s, ls: s.ls.set(o.a, o.x) })
    else if (o.k == "aggPause") okR({ ...s, aggPaused: o.f })
    else if (o.k == "xfer") {
      if (holds(s, o)) okR({ ...s, own: s.own.set(o.n, o.b) }) else failR(s, "funds")
    }
    else if (o.k == "donate") {
      // tokens sent straight to a pool contract are not accepted
      failR(s, "nonpayable")
    }
    else failR(s, "unknown")

  // ---- the transition relation --------------------------------------------------------------------------
  pure val CONFIG: Set[str] = Set("editAsset", "addCat", "editCat", "removeCat", "addAsset", "editEmAsset",
    "removeAsset", "tolerance", "params", "setOracle", "createPool", "limits", "setAddr", "pause", "unpause", "upgradeCtl", "upgradePool")
  pure def exec0(s: State, o: Op): R =
    if (o.k == "supply") supply(s, o)
    else if (o.k == "borrow") borrow(s, o)
    else if (o.k == "withdraw") withdraw(s, o)
    else if (o.k == "repay") repay(s, o)
    else if (o.k == "liquidate") liquidate(s, o)
    else if (o.k == "clean") cleanBadDebt(s, o)
    else if (o.k == "flash") flashLoan(s, o)
    else if (o.k == "multiply") multiply(s, o)
    else if (o.k == "swapDebt") swapDebt(s, o)
    else if (o.k == "swapColl") swapColl(s, o)
    else if (o.k == "repayColl") repayColl(s, o)
    else if (o.k == "threshold") updateThreshold(s, o)
    else if (o.k == "indexes") updateIndexes(s, o)
    else if (o.k == "claim") claimRevenue(s, o)
    else if (o.k == "rewards") addRewards(s, o)
    else if (o.k == "viewAcct") viewAccount(s, o)
    else if (o.k == "viewMkt") viewMarket(s, o)
    else if (o.k == "viewLiq") viewLiquidation(s, o)
    // endpoints of the pools and the administration called by somebody else
    else if (o.k == "direct") failR(s, "owner")
    else if (CONFIG.contains(o.k)) config(s, o)
    else environment(s, o)
  // transactions are atomic
  pure def exec(s: State, o: Op): R = {
    val r = exec0(s, o)
    if (r.ok) r else { ...r, s: s, n: 0, x: 0, o: [] }
  }
}
